"""C16: GeoJSON import yields the outer polygon edges and corner nodes."""

import io
import itertools
import json
import math
import os
import tempfile

import numpy as np

META = {
    "bounds": "all sequences of up to 3 features (thorough 4) out of 16 kinds (6 polygons, 10 others) x 9 input forms (thorough: all; quick: rotated) ; 81 pairs of locations x 4 documents; "
    "every ring of up to 4 (5) points out of 3, alone and beside another one, every pair of rings of up to 3 points out of 2; 15 large, far, degenerate or altitude-carrying documents with and without holes; empty polygons; 8 encodings and layouts; 20 kinds of rejected inputs",
    "counting": "state = (document, input form, locations); transition = wall or node compared; trace = document read by the real code",
    "assumptions": ["a ring whose last point repeats the first one has a zero-length closing wall, as the test-suite pins"],
}
RINGS = {
    "triangle": [[0.0, 0.0], [4.0, 0.0], [1.0, 3.0]],
    "square": [[10, 10], [12, 10], [12, 13], [10, 13]],
    "closed": [[-1.5, 2.25], [-3.5, 2.25], [-2.5, 5.0], [-1.5, 2.25]],
    "geographic": [[4.6249847, 50.6681907], [4.6250354, 50.6682431], [4.6251523, 50.6681990]],
    "two": [[1e2, -2e-1], [3e1, 7.5]],
    "single": [[0.5, 0.25]],
}
HOLE = [[0.2, 0.2], [0.3, 0.2], [0.3, 0.4]]


def feature(kind):
    """A feature and its outer ring (None if it has no walls)."""

    def f(geometry, **extra):
        return {"type": "Feature", "properties": {"name": kind, "geometry": "Polygon"}, "geometry": geometry, **extra}

    if kind in RINGS:
        return f({"type": "Polygon", "coordinates": [RINGS[kind]]}), RINGS[kind]
    if kind == "holes":
        return f({"coordinates": [RINGS["square"], HOLE, HOLE[::-1]], "type": "Polygon"}, id="way/1"), RINGS["square"]
    poly = [RINGS["triangle"]]
    g = {
        "point": {"type": "Point", "coordinates": [1.0, 2.0]},
        "line": {"type": "LineString", "coordinates": RINGS["triangle"]},
        "multipoint": {"type": "MultiPoint", "coordinates": RINGS["triangle"]},
        "multiline": {"type": "MultiLineString", "coordinates": poly},
        "multipolygon": {"type": "MultiPolygon", "coordinates": [poly, poly]},
        "collection": {"type": "GeometryCollection", "geometries": [{"type": "Polygon", "coordinates": poly}]},
        "null": None,
        "emptypoint": {"type": "Point", "coordinates": []},
    }
    if kind == "missing":
        return {"type": "Feature", "properties": None}, None
    return f(g[kind]), None


KINDS = [*RINGS, "holes", "point", "line", "multipoint", "multiline", "multipolygon", "collection", "null", "emptypoint", "missing"]


class Reader:
    """A file-like object that only knows how to read."""

    def __init__(self, data):
        self.data = data

    def read(self):
        return self.data


class Bytes(bytes):
    pass


class Text(str):
    __slots__ = ()


FORMS = {
    "str": lambda s, d: s,
    "bytes": lambda s, d: s.encode(),
    "bytearray": lambda s, d: bytearray(s.encode()),
    "StringIO": lambda s, d: io.StringIO(s),
    "BytesIO": lambda s, d: io.BytesIO(s.encode()),
    "reader": lambda s, d: Reader(s),
    "reader of bytearray": lambda s, d: Reader(bytearray(s.encode())),
    "text file": lambda s, d: _file(s, d, "r"),
    "binary file": lambda s, d: _file(s, d, "rb"),
}


def _file(s, d, mode):
    path = os.path.join(d, "scene.geojson")
    with open(path, "w") as f:
        f.write(s)
    return open(path, mode)


def walls_of(rings):
    """For each ring, its closing edge and its consecutive edges."""
    return [[(r[i - 1], r[i]) for i in range(len(r))] for r in rings]


def location(box, loc):
    (x0, y0), (x1, y1) = box
    x = x0 if "W" in loc else x1 if "E" in loc else (x0 + x1) / 2
    y = y0 if "S" in loc else y1 if "N" in loc else (y0 + y1) / 2
    return np.array([x, y])


def judge(res, scene, rings, tx_loc, rx_loc, case):
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    want = walls_of(rings)
    n = sum(map(len, want))
    res.add(states=1, transitions=n + 2, traces=1)
    if not res.expect(isinstance(scene, Scene) and len(scene.objects) == n and all(type(o) is Wall for o in scene.objects), lambda: f"{len(scene.objects)} objects instead of {n} walls", case):
        return
    k = 0
    for ring in want:
        got = [np.asarray(o.xys, dtype=np.float64) for o in scene.objects[k : k + len(ring)]]
        k += len(ring)
        ref = [np.asarray(w, dtype=np.float32).astype(np.float64) for w in ring]
        # any starting edge of the ring is fine
        ok = any(all(np.array_equal(g, ref[(i + s) % len(ref)]) for i, g in enumerate(got)) for s in range(len(ref)))
        res.expect(ok, lambda: f"walls {[g.tolist() for g in got]} instead of {ring}", case)
    pts = np.concatenate([np.asarray(r, dtype=np.float32).reshape(-1, 2) for r in rings]).astype(float) if n else None
    tx = location((pts.min(0), pts.max(0)), tx_loc) if n else np.array([0.0, 0.0])
    rx = location((pts.min(0), pts.max(0)), rx_loc) if n else np.array([1.0, 1.0])
    for nodes, name, ref in ((scene.transmitters, "tx", tx), (scene.receivers, "rx", rx)):
        if res.expect(list(nodes) == [name] and isinstance(nodes[name], Point), lambda: f"nodes {list(nodes)}", case):
            got = np.asarray(nodes[name].xy, dtype=float)
            res.expect(np.allclose(got, ref, rtol=2e-7, atol=1e-7), lambda: f"{name} at {got.tolist()} instead of {ref.tolist()}", case)


def document(kinds, wrap=0):
    fs, rings = [], []
    for k in kinds:
        f, ring = feature(k)
        fs.append(f)
        if ring is not None:
            rings.append(ring)
    doc = {"type": "FeatureCollection", "generator": "überpass", "features": fs}
    if wrap:
        doc = {"features": fs, "bbox": [0, 0, 1, 1], "type": "FeatureCollection"}
    return doc, rings


def shard_grammar(ctx, res, part):
    from differt2d.scene import Scene

    n = 4 if ctx.deep else 3
    forms = list(FORMS)
    with tempfile.TemporaryDirectory() as d:
        i = 0
        for k in range(n + 1):
            for kinds in itertools.product(KINDS, repeat=k):
                i += 1
                if i % 16 != part or (k == 4 and (i // 16) % 6):
                    continue
                doc, rings = document(kinds, i % 3 == 0)
                if sum(map(len, rings)) > 12:
                    continue
                form = forms[(i // 16) % len(forms)]
                case = {"features": kinds, "form": form}
                with res.case(case):
                    src = FORMS[form](json.dumps(doc, ensure_ascii=i % 2 == 0), d)
                    try:
                        scene = Scene.from_geojson(src)
                    finally:
                        if hasattr(src, "close"):
                            src.close()
                    judge(res, scene, rings, "NW", "SE", case)
                if res.full():
                    return
    res.sample(case)


def shard_large(ctx, res, part):
    """Long rings, many features, unusual but valid numbers."""
    from differt2d.scene import Scene

    def poly(*rings, **extra):
        return {"type": "Feature", "geometry": {"type": "Polygon", "coordinates": list(rings), **extra}}

    def ring(n, r=1.0, c=(0.0, 0.0)):
        return [[round(c[0] + r * math.cos(2 * math.pi * i / n), 6), round(c[1] + r * math.sin(2 * math.pi * i / n), 6)] for i in range(n)]

    docs = {
        "long ring": [ring(300)], "closed long ring": [(lambda r: [*r, r[0]])(ring(130, 3.0, (4.6, 50.7)))], "many rings": [ring(3 + i % 3, 1.0, (i % 12, i // 12)) for i in range(80)],
        "same ring twice": [ring(5), ring(5), ring(5)[::-1]], "repeated points": [[[0, 0], [0, 0], [2, 0], [2, 0], [2, 0], [1, 1]]],
        "integers": [[[5000000000, 0], [1, 1099511627776], [-3, 4]], [[2**31, -(2**31)], [2**31 - 1, 7], [0, 2**63 + 5]]], "mixed numbers": [[[1, 0.5], [0.25, 3], [-7, -0.0]], [[0, 0], [1, 0.1], [2, 0]]],
        "small": [[[1e-30, 2e-30], [3e-30, 5e-30], [1e-30, 9e-30]]], "far": [[[1e7 + 0.5, 1e7], [1e7 + 3, 1e7 + 4], [1e7, 1e7 + 9]]], "negative": [[[-5.5, -6.5], [-7.5, -8.25], [-1.5, -9.75]]],
        "longitudes": [[[179.9999, 10.0], [-179.9999, 10.0], [180.0, 11.0]], [[4.62, 90.0], [361.0, -90.0], [0.0, 0.0]]], "degenerate": [[[1, 1], [1, 1], [1, 1]], [[0, 0], [1, 0], [2, 0]]],
        "altitude": [[[0.0, 0.0, 7.5], [4.0, 0.0, 8], [1.0, 3.0, -1.0]]], "altitude and more": [[[0, 1, 2, 3], [4, 5, 6, 7], [9, 8, 7, 6]], ring(4)], "partial altitude": [[[0.0, 0.0], [4.0, 0.0, 8.0], [1.0, 3.0]]],
    }  # fmt: skip
    for k, (name, rings) in enumerate(docs.items()):
        if k % 4 != part:
            continue
        for holes in (0, 3):
            feats = [poly(r, *[ring(4, 0.1)] * holes) for r in rings]
            feats.insert(len(feats) // 2, feature("null")[0])
            for text in (json.dumps({"features": feats}), json.dumps({"features": feats}, indent=1).replace("e-30", "E-30").encode()):
                case = {"document": name, "holes": holes, "form": type(text).__name__}
                with res.case(case):
                    judge(res, Scene.from_geojson(text, "E", "SW"), [[p[:2] for p in r] for r in rings], "E", "SW", case)
        if res.full():
            return
    # every short ring over few points, alone, first and last, with another one
    lattice = [[0.0, 0.0], [2.0, 0.5], [-1.0, 3.0]]
    short = [list(r) for n in range(1, 6 if ctx.deep else 5) for r in itertools.product(lattice, repeat=n)]
    pairs = [list(r) for n in range(1, 4) for r in itertools.product(lattice[:2], repeat=n)]
    tri = RINGS["triangle"]
    for k, rings in enumerate([x for r in short for x in ([r], [tri, r], [r, tri])] + [list(x) for x in itertools.product(pairs, repeat=2)]):
        if k % 4 == part:
            case = {"rings": rings}
            with res.case(case):
                judge(res, Scene.from_geojson(json.dumps({"features": [poly(r) for r in rings]})), rings, "NW", "SE", case)
    if res.full():
        return
    if part == 0:
        # empty polygons have no walls
        for rings, where in itertools.product(([], [[]]), range(3)):
            feats = [poly(RINGS["triangle"]), poly(RINGS["square"])]
            feats.insert(where, {"type": "Feature", "geometry": {"type": "Polygon", "coordinates": rings}})
            case = {"empty": rings, "at": where}
            with res.case(case):
                judge(res, Scene.from_geojson(json.dumps({"features": feats})), [RINGS["triangle"], RINGS["square"]], "NW", "SE", case)
                judge(res, Scene.from_geojson(json.dumps({"features": feats[where : where + 1]})), [], "NW", "SE", case)
    res.sample(case)


def shard_forms(ctx, res, part):
    """All locations x all forms on a few documents; encodings; rejected inputs."""
    from differt2d.scene import Scene

    locs = ["N", "E", "S", "W", "C", "NE", "NW", "SE", "SW"]
    docs = [("triangle", "point"), ("closed", "two"), ("geographic",), ("null", "line")]
    with tempfile.TemporaryDirectory() as d:
        for j, (a, b) in enumerate(itertools.product(locs, locs)):
            if j % 8 != part:
                continue
            for q, kinds in enumerate(docs):
                doc, rings = document(kinds)
                s = json.dumps(doc)
                for m, form in enumerate(FORMS):
                    if not ctx.deep and (m + j + q) % 3:
                        continue
                    for how in ("keywords", "positional", "mixed", "tx only", "rx only"):
                        if how != ("keywords", "positional", "mixed", "tx only", "rx only")[(m + j) % 5] and not ctx.deep:
                            continue
                        case = {"features": kinds, "form": form, "tx_loc": a, "rx_loc": b, "arguments": how}
                        with res.case(case):
                            src = FORMS[form](s, d)
                            args, kw = {"keywords": ((), {"tx_loc": a, "rx_loc": b}), "positional": ((a, b), {}), "mixed": ((a,), {"rx_loc": b}), "tx only": ((), {"tx_loc": a}), "rx only": ((), {"rx_loc": b})}[how]
                            scene = Scene.from_geojson(src, *args, **kw)
                            if hasattr(src, "close"):
                                src.close()
                            judge(res, scene, rings, "NW" if how == "rx only" else a, "SE" if how == "tx only" else b, case)
            if res.full():
                return
        if part:
            return
        doc, rings = document(("square", "holes", "multipolygon", "triangle"))
        for name, src in {
            "indented": json.dumps(doc, indent=2), "compact": json.dumps(doc, separators=(",", ":")), "spaces": "\n\t " + json.dumps(doc) + " \r\n", "sorted": json.dumps(doc, sort_keys=True),
            "utf-16": json.dumps(doc).encode("utf-16"), "utf-32": json.dumps(doc).encode("utf-32"), "utf-8": json.dumps(doc, ensure_ascii=False).encode(), "bytes subclass": Bytes(json.dumps(doc).encode()), "str subclass": Text(json.dumps(doc)),
        }.items():  # fmt: skip
            case = {"layout": name}
            with res.case(case):
                judge(res, Scene.from_geojson(src), rings, "NW", "SE", case)
        for name, text in {"no features": "{}", "empty": '{"features": []}', "other members": '{"type": "FeatureCollection", "crs": {"features": [1]}}'}.items():
            case = {"document": name}
            with res.case(case):
                judge(res, Scene.from_geojson(text), [], "NW", "SE", case)
        # a second read of the same position-less source gives the same scene
        case = {"repeat": True}
        with res.case(case):
            r = Reader(json.dumps(doc))
            for _ in range(2):
                judge(res, Scene.from_geojson(r), rings, "NW", "SE", case)
        import jax.numpy as jnp
        import pathlib

        for bad in (None, 1, 1.5, True, doc, [doc], (json.dumps(doc),), {1}, frozenset(), object(), pathlib.Path("x"), memoryview(b"{}"), jnp.zeros(2), np.zeros(2), len, Scene, iter([json.dumps(doc)]), range(3), 1j, ...):
            case = {"rejected": repr(bad)[:60]}
            res.add(states=1, transitions=1, traces=1)
            try:
                got = Scene.from_geojson(bad)
                res.violation(f"accepted, giving {got!r}", case)
            except (NotImplementedError, TypeError, ValueError):
                pass
            except BaseException as e:  # noqa: BLE001
                res.violation(f"rejected with {e!r}", case)


def shard(ctx, res, s):
    {"g": shard_grammar, "f": shard_forms, "l": shard_large}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    run_shards(ctx, res, shard, [("f", i) for i in range(8)] + [("l", i) for i in range(4)] + [("g", i) for i in range(16)])
