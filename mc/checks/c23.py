"""C23: generated scenes are what their name and seed say."""

import itertools

import numpy as np

META = {
    "bounds": "4 scene names x 13 ratios (0 and 1 included) x 6 pairs of node coordinates or defaults x direct / by name, positional / keyword, python and array values, traced; "
    "random scenes: all counts 0-4 x 0-4 x 0-4 (thorough: 0-6) x 6 keys of both styles (thorough: 24), built twice, direct and by name, up to 40 of each kind",
    "counting": "state = (constructor, arguments); transition = wall or node compared; trace = scene built by the real code",
    "assumptions": ["coverage of the unit square is judged on a grid of 16 cells over all random scenes of a shard"],
}
ROOM = [[[0, 0], [1, 0]], [[1, 0], [1, 1]], [[1, 1], [0, 1]], [[0, 1], [0, 0]]]
SMALL = [[[0.4, 0.0], [0.4, 0.4]], [[0.4, 0.4], [0.3, 0.4]], [[0.1, 0.4], [0.0, 0.4]]]
RATIOS = [0.0, 1e-3, 0.05, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0, 2.0]
NODES = [None, (0.1, 0.9), (0.0, 0.0), (-3.5, 2.25), (1.0, 1.0), (0.302, 0.2147)]
DEFAULTS = {
    "basic_scene": ((0.1, 0.1), (0.302, 0.2147)),
    "square_scene": ((0.2, 0.2), (0.5, 0.6)),
    "square_scene_with_wall": ((0.2, 0.5), (0.8, 0.5)),
    "square_scene_with_obstacle": ((0.2, 0.2), (0.5, 0.6)),
}
RATIO0 = {"square_scene_with_wall": 0.6, "square_scene_with_obstacle": 0.1}


def extra(name, ratio):
    """Polylines of the scene besides the room: list of (points, closed)."""
    if name == "basic_scene":
        return [[(0.4, 0.0), (0.4, 0.4), (0.3, 0.4)], [(0.1, 0.4), (0.0, 0.4)]]
    if name == "square_scene_with_wall":
        return [[(0.5, 0.5 - ratio / 2), (0.5, 0.5 + ratio / 2)]]
    if name == "square_scene_with_obstacle":
        a, b = 0.5 - ratio / 2, 0.5 + ratio / 2
        return [[(a, a), (b, a), (b, b), (a, b), (a, a)]]
    return []


def match(walls, lines):
    """Every polyline is walked, one way or the other, by walls that chain; nothing is left over."""
    left = [np.asarray(w, dtype=float) for w in walls]

    def close(a, b):
        return np.abs(np.asarray(a) - np.asarray(b)).max() <= 2e-6

    for line in lines:
        closed = len(line) > 2 and close(line[0], line[-1])
        ways = []
        for l in (line, line[::-1]):
            # segments may be listed in any order, but all run the same way around
            pool, ok = list(left), True
            for a, b in zip(l, l[1:]):
                k = next((k for k, w in enumerate(pool) if close(w[0], a) and close(w[1], b)), None)
                if k is None:
                    ok = False
                    break
                pool.pop(k)
            ways.append(pool if ok else None)
        good = next((p for p in ways if p is not None), None)
        if good is None:
            return f"no {'closed ' if closed else ''}outline {line}"
        left = good
    return f"{len(left)} more walls: {left}" if left else None


def judge_named(res, scene, name, ratio, tx, rx, case):
    from differt2d.geometry import Point, Wall

    tx = DEFAULTS[name][0] if tx is None else tx
    rx = DEFAULTS[name][1] if rx is None else rx
    for kind, nodes, want in (("tx", scene.transmitters, tx), ("rx", scene.receivers, rx)):
        ok = list(nodes) == [kind] and type(nodes[kind]) is Point and np.allclose(np.asarray(nodes[kind].xy), np.float32(want), rtol=1e-6, atol=0)
        res.expect(ok, lambda: f"{kind}: {dict(nodes)} instead of {want}", case)
    objs = list(scene.objects)
    ok = all(type(o) is Wall and o.xys.shape == (2, 2) for o in objs)
    if res.expect(ok, lambda: f"objects {objs}", case):
        ring = [(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)]
        msg = match([o.xys for o in objs], [ring, *extra(name, ratio)])
        res.expect(msg is None, msg, case)
        if ratio is None or ratio <= 1:
            bb = np.asarray(scene.bounding_box())
            pts = np.array([[0, 0], [1, 1], tx, rx], dtype=float)
            want = np.stack([pts.min(0), pts.max(0)])
            res.expect(np.allclose(bb, want, atol=1e-6), lambda: f"bounding box {bb.tolist()} instead of {want.tolist()}", case)
    res.add(states=1, transitions=len(objs) + 2, traces=1)


def shard_named(ctx, res, arg):
    name, part, parts = arg
    import jax
    import jax.numpy as jnp
    from differt2d.scene import Scene

    values = {
        "array": lambda p: jnp.array(p, dtype=float),
        "numpy": lambda p: np.array(p, dtype=np.float32),
        "list": list,
    }
    ratios = ([None, *RATIOS] if name in RATIO0 else [None])[part::parts]
    for ratio, tx, rx in itertools.product(ratios, NODES, NODES):
        for form, byname, positional, numeric in itertools.product(values, (False, True), (False, True), ("python", "array")):
            if not ctx.deep and ratio not in (None, 0.3) and (NODES.index(tx) + 1 - NODES.index(rx)) % 6 > (0 if form != "array" else 1):
                continue
            if numeric == "array" and (ratio is None or form != "array"):
                continue
            if positional and (name == "square_scene_with_obstacle" or (name in RATIO0 and ratio is None)) and (tx, rx) != (None, None):
                continue
            if positional and tx is None and rx is not None:
                continue
            case = {"name": name, "ratio": ratio, "tx": tx, "rx": rx, "as": form, "by name": byname, "positional": positional, "ratio as": numeric}
            with res.case(case):
                args, kw = [], {}
                if ratio is not None:
                    r = ratio if numeric == "python" else jnp.array(ratio)
                    args.append(r) if positional else kw.update(ratio=r)
                for k, v in (("tx_coords", tx), ("rx_coords", rx)):
                    if v is not None:
                        v = values[form](v)
                        args.append(v) if positional else kw.update({k: v})
                scene = Scene.from_scene_name(name, *args, **kw) if byname else getattr(Scene, name)(*args, **kw)
                judge_named(res, scene, name, RATIO0.get(name) if ratio is None else ratio, tx, rx, case)
        if res.full():
            return
    if part:
        return
    # defaults do not change from one scene to the next
    with res.case({"name": name, "history": "defaults after edits"}):
        for _ in range(3):
            s = getattr(Scene, name)()
            s = s.with_transmitters(**{"tx": s.receivers["rx"]}).add_objects(*s.objects[:1])
            judge_named(res, getattr(Scene, name)(), name, RATIO0.get(name), None, None, {"name": name, "history": "defaults after edits"})
    case = {"name": name, "traced": True}
    with res.case(case):
        import equinox as eqx

        def build(r, a, b):
            kw = {"ratio": r} if name in RATIO0 else {}
            return getattr(Scene, name)(tx_coords=a, rx_coords=b, **kw)

        f = eqx.filter_jit(build)
        for ratio, tx, rx in itertools.product(RATIOS if name in RATIO0 else [0.5], NODES[1:], NODES[1:]):
            s = f(jnp.array(ratio), jnp.array(tx), jnp.array(rx))
            judge_named(res, s, name, ratio, tx, rx, {**case, "ratio": ratio, "tx": tx, "rx": rx})
    if name in RATIO0:
        case = {"name": name, "derivative": "ratio"}
        with res.case(case):
            d = jax.jacobian(lambda r: jnp.stack([o.xys for o in getattr(Scene, name)(ratio=r).objects]))
            for ratio in RATIOS:
                g = np.asarray(d(ratio))
                h = 2.0**-6
                fd = [np.stack([o.xys for o in getattr(Scene, name)(ratio=x).objects]) for x in (ratio + h, ratio - h)]
                res.expect(np.allclose(g, (fd[0] - fd[1]) / (2 * h), atol=1e-4), lambda: f"derivative {g.tolist()}", {**case, "ratio": ratio})
                res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def shard_random(ctx, res, arg):
    import jax
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    part, parts = arg
    top = 6 if ctx.deep else 4
    counts = [(a, b, c) for a, b, c in itertools.product(range(top + 1), repeat=3)]
    counts += [(0, 40, 0), (40, 0, 1), (1, 17, 23), (25, 3, 0), (1, 40, 1)]
    counts = counts[part::parts]
    keys = [("old", i) for i in (0, 1, 1234)] + [("new", i) for i in (0, 7, 2**31 - 1)]
    if ctx.deep:
        keys += [(s, i) for s in ("old", "new") for i in range(10, 19)]
    mk = {"old": jax.random.PRNGKey, "new": jax.random.key}
    pool = []
    for nt, nw, nr in counts:
        seen = {}
        for k in keys:
            case = {"transmitters": nt, "walls": nw, "receivers": nr, "key": k}
            with res.case(case):
                key = mk[k[0]](k[1])
                built = [
                    Scene.random_uniform_scene(nt, nw, nr, key=key),
                    Scene.random_uniform_scene(n_receivers=nr, n_transmitters=nt, n_walls=nw, key=mk[k[0]](k[1])),
                    Scene.from_scene_name("random_uniform_scene", nt, nw, n_receivers=nr, key=key),
                ]
                flat = []
                for s in built:
                    tx, rx, ws = dict(s.transmitters), dict(s.receivers), list(s.objects)
                    ok = (len(tx), len(ws), len(rx)) == (nt, nw, nr)
                    res.expect(ok, lambda: f"{(len(tx), len(ws), len(rx))} transmitters, walls, receivers", case)
                    ok = all(type(p) is Point and p.xy.shape == (2,) for p in [*tx.values(), *rx.values()]) and all(type(w) is Wall and w.xys.shape == (2, 2) for w in ws)
                    res.expect(ok, lambda: f"parts {s}", case)
                    pts = [np.asarray(p.xy) for p in tx.values()] + [q for w in ws for q in np.asarray(w.xys)] + [np.asarray(p.xy) for p in rx.values()]
                    flat.append((sorted(tx), sorted(rx), np.array(pts).reshape(-1, 2)))
                    res.add(states=1, transitions=len(pts), traces=1)
                a = flat[0]
                for b in flat[1:]:
                    same = a[:2] == b[:2] and np.array_equal(a[2], b[2])
                    res.expect(same, "two scenes of the same key differ", case)
                p = a[2]
                res.expect(((p >= 0) & (p <= 1)).all(), lambda: f"outside of the unit square: {p.tolist()}", case)
                n = len(p)
                if n > 1:
                    d = np.abs(p[:, None] - p[None]).max(-1) + np.eye(n)
                    res.expect(d.min() > 0, lambda: f"the same point twice: {p.tolist()}", case)
                    res.expect(len(np.unique(p)) >= 2 * n - 2, lambda: f"coordinates are shared: {p.tolist()}", case)
                if n and k[0] == "old":
                    for other, q in seen.items():
                        ok = (np.abs(p - q).max(-1) > 0).all()
                        res.expect(ok, lambda: f"some point is the same for keys {k} and {other}", case)
                    seen[k] = p
                if n >= 40:
                    pool.append(p)
        if res.full():
            return
    if not pool:
        return
    pool = np.concatenate(pool)
    cells = np.bincount((np.minimum(pool * 4, 3).astype(int) * [4, 1]).sum(1), minlength=16)
    case = {"points": len(pool), "cells": cells}
    res.expect(cells.min() > 0.02 * len(pool), lambda: f"parts of the unit square are (almost) never drawn: {cells}", case)
    res.sample(case)


def dispatch(ctx, res, s):
    {"n": shard_named, "r": shard_random}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("n", (k, i, 3)) for k in ("square_scene_with_wall", "square_scene_with_obstacle") for i in range(3)]
    jobs += [("n", (k, 0, 1)) for k in ("basic_scene", "square_scene")]
    jobs += [("r", (i, 8)) for i in range(8)]
    run_shards(ctx, res, dispatch, jobs)
