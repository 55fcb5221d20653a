"""C11: scene tracing visits every (transmitter, receiver, candidate) exactly once, honouring every option."""

import functools
import itertools

import numpy as np

from .c05 import reference

META = {
    "bounds": "0-3 transmitters x 0-3 receivers x every sequence of up to 3 objects of 3 kinds x 9 order requests x 4 filters with a recording path class; all 128 "
    "subsets of the options; all interleavings of two 4-step and three 2-step iterations, all abandonment points; 7 special namings and sharings of nodes, 30 pairs, 70 and 132 objects; real methods on 5 scenes x 9 option sets",
    "counting": "state = (scene, request); transition = traced item compared with the model; trace = complete iteration of the real generator",
    "assumptions": ["how per-path random keys are derived from the given key is free: only determinism and dependence on the key are required"],
}
ORDERS = [{}, {"order": 0}, {"order": 1}, {"order": 2}, {"min_order": 1}, {"max_order": 2}, {"min_order": 1, "max_order": 2}, {"max_order": 0}, {"min_order": 2, "max_order": 1}]
NAMES = ("b", "a", "10")


def span(req):
    if req.get("order") is not None:
        return req["order"], req["order"]
    return req.get("min_order", 0), req.get("max_order", 1)


def build_objects(types):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Vertex, Wall

    out = []
    for i, t in enumerate(types):
        xy = jnp.array([[0.0, 1.0 + i], [1.0 + 0.5 * i, 1.0 + i]])
        out.append({"W": lambda: Wall(xys=xy), "R": lambda: RIS(xys=xy, phi=jnp.array(0.1 * i)), "V": lambda: Vertex(xy=xy[1])}[t]())
    return tuple(out)


def build_scene(n_tx, n_rx, types):
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    tx = {NAMES[i]: Point(xy=jnp.array([0.25 * i, 0.5])) for i in range(n_tx)}
    rx = {NAMES[-i - 1]: Point(xy=jnp.array([0.7, 0.3 * i])) for i in range(n_rx)}
    return Scene(transmitters=tx, receivers=rx, objects=build_objects(types))


def leaf(o):
    """Type and data of an object, a node or a vector."""
    if hasattr(o, "xys"):
        return (type(o).__name__, np.asarray(o.xys).tolist(), float(getattr(o, "phi", 0.0)))
    if hasattr(o, "xy"):
        return (type(o).__name__, np.asarray(o.xy).tolist())
    return np.asarray(o).tolist()


def coords(o):
    return np.asarray(o.xy if hasattr(o, "xy") else o).tolist()


_probe = []


def probe_class():
    """A path class that records how it is used and answers by a script."""
    if _probe:
        return _probe[0]
    import jax.numpy as jnp
    from differt2d.geometry import Path

    class Probe(Path):
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kwargs):
            LOG.append({"tx": coords(tx), "rx": coords(rx), "objects": [leaf(o) for o in objects], "key": None if key is None else np.asarray(key).tolist(), "kwargs": dict(kwargs), "valid": None})
            return cls(xys=jnp.array([[float(len(LOG) - 1), 0.0], [1.0, 1.0]]))

        def is_valid(self, objects, path_candidate, interacting_objects, **kwargs):
            r = LOG[int(self.xys[0, 0])]
            cand = tuple(int(v) for v in path_candidate)
            r["valid"] = {"objects": [leaf(o) for o in objects], "candidate": cand, "interacting": [leaf(o) for o in interacting_objects], "kwargs": dict(kwargs)}
            return SCRIPT[0](r["tx"], r["rx"], cand)

    _probe.append(Probe)
    return Probe


LOG = []
SCRIPT = [None]
VALUES = (0.0, 0.9, 0.2, 1.0, 0.51, 0.49)


def script_exact(tx, rx, cand):
    import jax.numpy as jnp

    return jnp.array(int(round(40 * (tx[0] + rx[1]))) // 4 % 2 == sum(cand) % 2)


def script_smooth(tx, rx, cand):
    import jax.numpy as jnp

    return jnp.array(VALUES[(int(round(4 * tx[0])) + int(round(10 * rx[1])) + sum(cand) + len(cand)) % 6])


DEFAULTS = {"tol": 1e-2, "patch": 0.0, "approx": None}


def effective(kw):
    return {**DEFAULTS, **kw}


def same(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if x is y:
            continue
        if isinstance(x, (str, list, tuple)) or isinstance(y, (str, list, tuple)):
            if x != y:
                return False
            continue
        if callable(x) or callable(y) or x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
            return False
        if isinstance(x, dict) or not np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-6, atol=0):
            return False
    return True


def expected(scene, types, req, excluded):
    lo, hi = span(req)
    return [(t, r, c) for t in scene.transmitters for r in scene.receivers for c in reference(len(types), lo, hi, excluded)]


def trace_probe(res, scene, types, req, flt, excluded, options, valid_only, case, approx_default=False):
    """One full iteration with the recording class, compared with the model; returns the recorded keys."""
    probe = probe_class()
    smooth = options.get("approx", approx_default)
    smooth = approx_default if smooth is None else smooth
    SCRIPT[0] = script_smooth if smooth else script_exact
    LOG.clear()
    kw = {**req, **options, "path_cls": probe}
    if flt is not None:
        kw["filter_objects"] = flt
    pk = options.get("path_cls_kwargs")
    before = dict(pk) if pk else None
    got = list(scene.all_valid_paths(**kw) if valid_only else scene.all_paths(**kw))
    res.expect(pk is None or pk == before, "the caller's path_cls_kwargs was modified", case)
    want = expected(scene, types, req, excluded)
    value = lambda t, r, c: SCRIPT[0](coords(scene.transmitters[t]), coords(scene.receivers[r]), c)  # noqa: E731
    if valid_only:
        want = [w for w in want if (float(value(*w)) > 0.5 if smooth else bool(value(*w)))]
    names = [(g[0], g[1], tuple(int(v) for v in g[-1])) for g in got]
    res.add(states=1, transitions=len(want) + 1, traces=1)
    if not res.expect(names == want, lambda: f"visited {names[:12]}..., expected {want[:12]}... ({len(names)} and {len(want)})", case):
        return []
    opts = {k: v for k, v in options.items() if k not in ("key", "path_cls_kwargs")}
    keys = []
    for g, (t, r, c) in zip(got, want):
        path = g[2] if valid_only else g[3]
        if not res.expect(type(path) is probe and len(g) == (4 if valid_only else 5), f"item {g}", case):
            return []
        rec = LOG[int(path.xys[0, 0])]
        objs = [leaf(scene.objects[i]) for i in c]
        ok = rec["tx"] == coords(scene.transmitters[t]) and rec["rx"] == coords(scene.receivers[r])
        res.expect(ok, lambda: f"item {(t, r, c)}: path between {rec['tx']} and {rec['rx']}", case)
        res.expect(rec["objects"] == objs, lambda: f"item {(t, r, c)}: path on {rec['objects']} instead of {objs}", case)
        res.expect(same(rec["kwargs"], options.get("path_cls_kwargs") or {}), lambda: f"item {(t, r, c)}: method options {rec['kwargs']}", case)
        v = rec["valid"]
        if res.expect(v is not None, f"item {(t, r, c)}: validity not evaluated", case):
            res.expect(v["candidate"] == c and v["interacting"] == objs and v["objects"] == [leaf(o) for o in scene.objects], lambda: f"item {(t, r, c)}: validity of {v}", case)
            res.expect(same(effective(v["kwargs"]), effective(opts)), lambda: f"item {(t, r, c)}: validity options {v['kwargs']}", case)
        if not valid_only:
            w = value(t, r, c)
            res.expect(np.asarray(g[2]).dtype == np.asarray(w).dtype and float(g[2]) == float(w), lambda: f"item {(t, r, c)}: validity {g[2]} instead of {w}", case)
        res.expect((rec["key"] is None) == (options.get("key") is None), f"item {(t, r, c)}: key {rec['key']}", case)
        keys.append(rec["key"])
        if res.full():
            return keys
    if options.get("key") is not None:
        res.expect(len({tuple(k) for k in keys}) == len(keys), "several paths share a random key", case)
    return keys


def filters(scene, types):
    from differt2d.geometry import Wall

    n = len(types)
    yield None, set()
    yield (lambda o: isinstance(o, Wall)), {i for i in range(n) if types[i] == "V"}
    yield (lambda o: type(o) is Wall), {i for i in range(n) if types[i] != "W"}
    first = leaf(scene.objects[0]) if n else None
    yield (lambda o: leaf(o) != first), {0} if n else set()


def shard_scenes(ctx, res, typess):
    import jax

    for types in typess:
        for n_tx, n_rx in itertools.product(range(4), range(4)):
            if n_tx + n_rx > (6 if ctx.deep else 4):
                continue
            scene = build_scene(n_tx, n_rx, types)
            for k, (flt, excl) in enumerate(filters(scene, types)):
                for j, req in enumerate(ORDERS):
                    if span(req)[1] == 2 and n_tx * n_rx > (9 if ctx.deep else 2):
                        continue
                    options = [{}, {"approx": True}, {"approx": False, "key": jax.random.PRNGKey(1)}][(j + k) % 3]
                    valid_only = (n_tx + n_rx + j) % 2 == 0
                    case = {"types": types, "n_tx": n_tx, "n_rx": n_rx, "filter": k, "request": req, "options": options, "valid_only": valid_only}
                    with res.case(case):
                        trace_probe(res, scene, types, req, flt, excl, options, valid_only, case)
                    if res.full():
                        return
            with res.case({"pairs": (n_tx, n_rx)}):
                ps = [((a, leaf(p)), (b, leaf(q))) for (a, p), (b, q) in scene.all_transmitter_receiver_pairs()]
                want = [((a, leaf(p)), (b, leaf(q))) for a, p in scene.transmitters.items() for b, q in scene.receivers.items()]
                res.expect(ps == want, f"pairs {ps} instead of {want}", {"pairs": (n_tx, n_rx)})
        scene = build_scene(1, 1, types)
        for c in reference(len(types), 0, 3):
            case = {"types": types, "candidate": c, "api": "get_interacting_objects"}
            with res.case(case):
                import jax.numpy as jnp

                got = scene.get_interacting_objects(jnp.array(c, dtype=jnp.int32))
                res.expect(isinstance(got, list) and [leaf(o) for o in got] == [leaf(scene.objects[i]) for i in c], f"{got}", case)
                res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def all_options():
    import jax
    from differt2d.logic import hard_sigmoid

    return {"tol": 0.3, "patch": 0.125, "approx": True, "alpha": 17.0, "function": hard_sigmoid, "key": jax.random.PRNGKey(7), "path_cls_kwargs": {"steps": 3, "many": 2}}


def special_scenes():
    """Names whose concatenations collide, the same names on both sides, the same node several times, many objects."""
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    P = [Point(xy=jnp.array([0.25 * i, 0.5 + 0.3 * i])) for i in range(4)]
    twin = Point(xy=P[0].xy + 0)
    sides = [
        ({"a": P[0], "ab": P[1]}, {"bc": P[2], "c": P[3]}),
        ({"a": P[0], "b": P[1]}, {"a": P[2], "b": P[3]}),
        ({"a": P[0], "b": P[1]}, {"b": P[0], "a": P[1]}),
        ({"a": P[0]}, {"a": P[0]}),
        ({"a": P[0], "b": P[0], "c": twin}, {"r": P[0], "s": P[1], "t": P[1]}),
        ({"": P[1], "_": P[0]}, {"0": P[2], "tx": P[1], "rx": P[3]}),
        ({"rx": P[1], "tx": P[2]}, {"tx": P[0], "rx": P[3]}),
    ]
    for tx, rx in sides:
        yield Scene(transmitters=tx, receivers=rx, objects=build_objects("WV")), "WV"
    for n, m in ((1, 1), (2, 1), (6, 5)):
        tx = {f"t{(5 * i) % 7}": Point(xy=jnp.array([0.25 * i, 0.5])) for i in range(n)}
        rx = {f"r{(3 * i) % 7}": Point(xy=jnp.array([0.7, 0.3 * i])) for i in range(m)}
        types = {(1, 1): "WRV" * 44, (2, 1): "V" * 70, (6, 5): "RW"}[n, m]
        yield Scene(transmitters=tx, receivers=rx, objects=build_objects(types)), types


def shard_special(ctx, res, _):
    import jax

    for i, (scene, types) in enumerate(special_scenes()):
        for j, (req, opts) in enumerate([({}, {}), ({"order": 1}, {"approx": True}), ({"order": 0}, {"key": jax.random.PRNGKey(3)}), ({"max_order": 2}, {"key": jax.random.PRNGKey(3), "approx": True})]):
            if j == 3 and len(types) > 3:
                continue
            for valid_only in (False, True):
                case = {"special": i, "nodes": [list(scene.transmitters), list(scene.receivers)], "objects": len(types), "request": req, "valid_only": valid_only}
                with res.case(case):
                    trace_probe(res, scene, types, req, None, set(), opts, valid_only, case)
                if res.full():
                    return
        case = {"special": i, "pairs": True}
        with res.case(case):
            ps = [((a, leaf(p)), (b, leaf(q))) for (a, p), (b, q) in scene.all_transmitter_receiver_pairs()]
            want = [((a, leaf(p)), (b, leaf(q))) for a, p in scene.transmitters.items() for b, q in scene.receivers.items()]
            res.expect(ps == want, f"pairs {ps} instead of {want}", case)
    res.sample(case)


def shard_options(ctx, res, part):
    """Every subset of the options, on both entry points, under both defaults."""
    import contextlib

    from differt2d.logic import disable_approx, enable_approx, set_approx

    full = all_options()
    for mask in range(128):
        if mask % 8 != part:
            continue
        options = {k: v for i, (k, v) in enumerate(full.items()) if mask >> i & 1}
        for types in ("WW", "WRV"):
            scene = build_scene(2, 2, types)
            for valid_only, default, ap in itertools.product((False, True), (False, True), (None, False) if "approx" in options else (0,)):
                opts = dict(options)
                if ap != 0 and "approx" in opts:
                    opts["approx"] = True if ap is None else False
                flt, excl = list(filters(scene, types))[mask % 4]
                case = {"mask": mask, "types": types, "valid_only": valid_only, "default": default, "options": sorted(opts), "approx": opts.get("approx", "unset")}
                with res.case(case), (enable_approx() if default else contextlib.nullcontext()):
                    trace_probe(res, scene, types, {"max_order": 1}, flt, excl, opts, valid_only, case, default)
        if res.full():
            return
    # positional forms and documented defaults
    import jax

    scene = build_scene(1, 2, "WW")
    probe = probe_class()
    SCRIPT[0] = script_exact
    case = {"positional": True}
    with res.case(case):
        LOG.clear()
        a = list(scene.all_paths(probe, {"x": 1}, 1, 2, None, lambda o: True, key=None, tol=0.5))
        res.expect(len(a) == 2 * 4 and all(r["kwargs"] == {"x": 1} for r in LOG), "positional arguments of all_paths", case)
        b = list(scene.all_paths(probe, None, 1, 2, 2))
        res.expect([tuple(int(v) for v in g[-1]) for g in b] == [(0, 1), (1, 0)] * 2, "positional order", case)
        for ap in (True, False):
            SCRIPT[0] = script_smooth if ap else script_exact
            c = list(scene.all_valid_paths(ap, path_cls=probe))
            d = list(scene.all_valid_paths(approx=ap, path_cls=probe))
            res.expect([g[:2] for g in c] == [g[:2] for g in d], "positional approx", case)
    for pos in (True, None):
        case = {"approx None under default": pos}
        with res.case(case):
            set_approx(bool(pos))
            SCRIPT[0] = script_smooth if pos else script_exact
            c = list(scene.all_valid_paths(None, path_cls=probe))
            d = list(scene.all_valid_paths(approx=bool(pos), path_cls=probe))
            res.expect([(g[:2], g[3].tolist()) for g in c] == [(g[:2], g[3].tolist()) for g in d], "approx=None is not the default", case)
        set_approx(False)
    # keys: same key same paths, another key other paths
    keys = []
    for seed in (1, 1, 2):
        case = {"keys": seed}
        with res.case(case):
            keys.append(trace_probe(res, build_scene(2, 2, "WWW"), "WWW", {}, None, set(), {"key": jax.random.PRNGKey(seed)}, False, case))
    res.expect(len(keys) == 3 and keys[0] == keys[1] and len(keys[0]) == 16 and all(k not in keys[2] for k in keys[0]), "keys of the paths do not follow the given key", {"keys": keys[:1]})


def interleavings(lengths):
    """All merges of sequences of the given lengths."""
    if not any(lengths):
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            rest = list(lengths)
            rest[i] -= 1
            for m in interleavings(rest):
                yield (i, *m)


def shard_schedules(ctx, res, arg):
    """Interleaved, abandoned and repeated iterations."""
    import jax
    from differt2d.geometry import ImagePath

    which = arg
    if which == "real":
        cls = ImagePath
    else:
        cls = probe_class()
        SCRIPT[0] = script_exact
    scenes = [build_scene(1, 2, "W"), build_scene(2, 1, "W"), build_scene(1, 2, "V" if which == "probe" else "R")]

    def item(g):
        if which == "probe":
            rec = LOG[int(g[-2].xys[0, 0])]
            body = (rec["tx"], rec["rx"], rec["objects"], rec["key"])
        else:
            body = np.asarray(g[-2].xys).tolist()
        v = float(g[2]) if len(g) == 5 else None
        return (g[0], g[1], v, body, tuple(int(x) for x in g[-1]))

    kinds = [
        lambda: scenes[0].all_paths(path_cls=cls, key=jax.random.PRNGKey(0)),
        lambda: scenes[0].all_paths(path_cls=cls, key=jax.random.PRNGKey(0), approx=True) if which == "real" else scenes[0].all_paths(path_cls=cls),
        lambda: scenes[1].all_paths(path_cls=cls, key=jax.random.PRNGKey(3)),
        lambda: scenes[2].all_valid_paths(path_cls=cls, tol=1.0),
    ]
    alone = []
    for k in kinds:
        alone.append([item(g) for g in k()])
        res.expect([item(g) for g in k()] == alone[-1], "a repeated iteration differs", {"schedule": "repeat", "which": which})
    sets = [(a, b) for a in range(4) for b in range(a, 4)]
    if which == "real":
        sets = [(0, 1), (0, 2), (1, 3)]
    for pair in sets + [(0, 1, 2), (0, 0, 3)]:
        lens = [min(len(alone[k]), 4 if len(pair) == 2 else 2) for k in pair]
        for m in interleavings(lens):
            case = {"schedule": m, "iterations": pair, "which": which}
            with res.case(case):
                its = [kinds[k]() for k in pair]
                pos = [0] * len(pair)
                for i in m:
                    g = item(next(its[i]))
                    res.expect(g == alone[pair[i]][pos[i]], lambda: f"step {pos[i]} of iteration {i} gives {g} instead of {alone[pair[i]][pos[i]]}", case)
                    pos[i] += 1
                res.add(states=1, transitions=len(m), traces=1)
                # the rest of the first one, the others being abandoned here
                rest = [item(g) for g in its[0]]
                res.expect(rest == alone[pair[0]][pos[0] :], "the continuation differs", case)
            if res.full():
                return
            LOG.clear() if which != "real" and len(LOG) > 20000 else None
    res.sample(case)


@functools.cache
def labelled():
    """A user's kind of wall, with an attribute that is not an array."""
    import equinox as eqx
    from differt2d.geometry import Wall

    class LabelledWall(Wall):
        label: str = eqx.field(static=True, default="")

    return LabelledWall


def real_scenes():
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall
    from differt2d.scene import Scene

    tx = {"t1": Point(xy=jnp.array([0.2, 0.3])), "t0": Point(xy=jnp.array([0.8, 0.45]))}
    rx = {"t1": Point(xy=jnp.array([0.7, 0.9])), "r": Point(xy=jnp.array([0.4, 0.15]))}
    sq = Scene.square_scene_with_wall(ratio=0.5).with_transmitters(**tx).with_receivers(**rx)
    mixed = [Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]])), RIS(xys=jnp.array([[1.0, 0.0], [1.0, 1.0]]), phi=jnp.array(0.4)), Vertex(xy=jnp.array([0.5, 0.6]))]
    return {
        "square": sq,
        "mixed": Scene(transmitters=tx, receivers=rx, objects=mixed),
        "surfaces": Scene(transmitters=tx, receivers=rx, objects=[mixed[1], RIS(xys=jnp.array([[0.0, 1.0], [1.0, 1.0]]))]),
        "vertices": Scene(transmitters=tx, receivers=rx, objects=[mixed[2], Vertex(xy=jnp.array([0.1, 0.9]))]),
        "twins": Scene(transmitters=tx, receivers=rx, objects=[mixed[0], mixed[0], Wall(xys=jnp.array([[0.0, 0.6], [1.0, 0.7]]))]),
        "planes": Scene(transmitters=tx, receivers=rx, objects=[mixed[0], mixed[1], Wall(xys=jnp.array([[0.0, 0.6], [1.0, 0.7]]))]),
        "labelled": Scene(transmitters=tx, receivers=rx, objects=[labelled()(xys=jnp.array(w), label=n) for w, n in zip(([[0.0, 0.0], [1.0, 0.0]], [[1.0, 0.0], [1.0, 1.0]], [[0.0, 0.6], [1.0, 0.7]]), "aab")]),
        "dtypes": Scene(transmitters=tx, receivers=rx, objects=[Wall(xys=jnp.array([[0.0, o], [1.0, o]], dtype=d)) for o, d in ((0.0, "float16"), (0.625, "float32"), (1.0, "float16"))]),
    }


def shard_real(ctx, res, arg):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, ImagePath, MinPath, Path
    from differt2d.logic import hard_sigmoid

    name, cname = arg
    cls = {"image": ImagePath, "path": Path, "fermat": FermatPath, "min": MinPath}[cname]
    scene = real_scenes()[name]
    keyed = cname in ("fermat", "min")
    pk = {"steps": 20} if keyed else None
    for j, opts in enumerate(
        [{}, {"approx": False}, {"approx": True}, {"tol": 0.5}, {"tol": 0.0, "approx": True}, {"patch": 0.2}, {"patch": -0.4, "approx": True}, {"approx": True, "alpha": 3.0}, {"approx": True, "alpha": 5.0, "function": hard_sigmoid}]
    ):
        if keyed and j not in (1, 7):
            continue
        for req in ({"max_order": 2}, {"order": 1}) if j == 1 else ({},):
            case = {"scene": name, "method": cname, "options": opts, "request": req}
            with res.case(case):
                kw = {**opts, **req, "path_cls": cls, "path_cls_kwargs": pk, "key": jax.random.PRNGKey(5) if keyed else None}
                got = list(scene.all_paths(**kw))
                want = expected(scene, scene.objects, req, ())
                names = [(g[0], g[1], tuple(int(v) for v in g[-1])) for g in got]
                if not res.expect(names == want, f"visited {names[:9]}", case):
                    continue
                again = list(scene.all_paths(**kw)) if keyed or j == 0 else got
                valid = []
                for g, h, (t, r, c) in zip(got, again, want):
                    tx, rx = scene.transmitters[t], scene.receivers[r]
                    objs = [scene.objects[i] for i in c]
                    item = {**case, "item": (t, r, c)}
                    path = g[3]
                    if not res.expect(type(path) is cls, f"{type(path)}", item):
                        return
                    if keyed:
                        res.expect(np.array_equal(path.xys, h[3].xys), "not reproducible with the same key", item)
                        x = np.asarray(path.xys)
                        res.expect(x.shape == (len(c) + 2, 2) and np.array_equal(x[0], tx.xy) and np.array_equal(x[-1], rx.xy), "ends are not the nodes", item)
                        loss = sum(float(o.evaluate_cartesian(path.xys[i : i + 3])) for i, o in enumerate(objs))
                        res.expect(abs(loss - float(path.loss)) <= 1e-4 + 1e-3 * abs(loss), f"loss {path.loss} instead of {loss}", item)
                    else:
                        ref = cls.from_tx_objects_rx(tx, objs, rx)
                        res.expect(np.allclose(path.xys, ref.xys, atol=1e-5) and np.allclose(path.loss, ref.loss, atol=1e-5), f"path {path} instead of {ref}", item)
                    v = path.is_valid(list(scene.objects), jnp.array(c, dtype=jnp.int32), objs, **effective(opts))
                    ok = g[2].dtype == v.dtype and np.allclose(g[2], v, atol=1e-5)
                    res.expect(ok, f"validity {g[2]} instead of {v}", item)
                    edge = abs(float(v) - 0.5) < 1e-3
                    valid.append(None if edge else float(v) > 0.5)
                    res.add(states=1, transitions=1, traces=1)
                if j in (0, 1, 2, 3, 7):
                    sub = [(g[0], g[1], tuple(int(v) for v in g[-1])) for g in scene.all_valid_paths(**kw)]
                    must = [w for w, v in zip(want, valid) if v]
                    may = [w for w, v in zip(want, valid) if v or v is None]
                    res.expect(all(w in sub for w in must) and all(w in may for w in sub) and sub == [w for w in want if w in sub], lambda: f"valid {sub[:9]} instead of {must[:9]}", case)
            if res.full():
                return


def shard(ctx, res, s):
    {"s": shard_scenes, "o": shard_options, "i": shard_schedules, "r": shard_real, "p": shard_special}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    pats = ["".join(p) for k in range(4) for p in itertools.product("WRV", repeat=k)]
    if not ctx.deep:
        pats = [p for p in pats if len(p) < 3] + ["WWW", "WRV", "VVV", "RWW", "VRV"]
    pats.sort(key=len, reverse=True)
    jobs = [("p", 0), ("i", "probe"), ("i", "real")] + [("o", i) for i in range(8)] + [("s", pats[i::8]) for i in range(8)]
    real = [("square", "image"), ("twins", "image"), ("surfaces", "image"), ("planes", "image"), ("labelled", "image"), ("labelled", "min"), ("dtypes", "image"), ("dtypes", "fermat"), ("square", "path"), ("mixed", "min"), ("mixed", "fermat"), ("square", "min"), ("square", "fermat"), ("vertices", "min"), ("surfaces", "min")]
    run_shards(ctx, res, shard, [("r", a) for a in real] + jobs)
