"""C19: extents, grids, locations and nearest nodes are exact."""

import itertools

import numpy as np

from ..core import batched

META = {
    "bounds": "points, segments and paths of 2-5 points over all point tuples of a 3x3 (thorough 4x4) lattice under 4 scalings; every scene structure of <=2 transmitters, <=2 receivers, "
    "<=2 objects of 4 kinds with every element in turn extreme in every direction, at 3 positions; all locations; grids of all sizes 1-6 x (none, 1-6) and the default; "
    "nearest node for all target x node-set combinations of <=3 (4) lattice nodes under 4 scalings, ties included; 2-300 nodes whose distances differ by 1e-2 to 2e-5; histories of scenes with the same names at other places",
    "counting": "state = (kind, coordinates, request); transition = coordinate compared; trace = real call compared",
    "assumptions": ["single precision rounding of at most 3e-7 relative to the largest coordinate"],
}
BOX_ONLY = ("Ray",)  # not plottable in the sense of the library: a bounding box only
LOCS = {"N": (0.5, 1), "E": (1, 0.5), "S": (0.5, 0), "W": (0, 0.5), "C": (0.5, 0.5), "NE": (1, 1), "NW": (0, 1), "SE": (1, 0), "SW": (0, 0)}
SCALES = [(1.0, (0.0, 0.0)), (1e-3, (0.01, -0.02)), (37.0, (-20.0, 400.0)), (-1.0, (3.0, -5.0))]


def classes():
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.abc import Plottable
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Ray, Vertex, Wall
    from jaxtyping import Array, Float

    class Disc(eqx.Module, Plottable):
        c: Float[Array, "2"]

        def plot(self, ax, *args, **kwargs):
            return []

        def bounding_box(self):
            return jnp.stack([self.c - jnp.array([0.25, 0.5]), self.c + jnp.array([0.5, 0.125])])

    class Node(Point):
        tag: int = eqx.field(default=3, static=True)

    one = {"Point": lambda p: Point(xy=p[0]), "Vertex": lambda p: Vertex(xy=p[0]), "Node": lambda p: Node(xy=p[0]), "Disc": lambda p: Disc(c=p[0])}
    two = {"Ray": lambda p: Ray(xys=p), "Wall": lambda p: Wall(xys=p), "RIS": lambda p: RIS(xys=p)}
    many = {"Path": lambda p: Path(xys=p), "ImagePath": lambda p: ImagePath(xys=p), "FermatPath": lambda p: FermatPath(xys=p), "MinPath": lambda p: MinPath(xys=p)}
    return one, two, many


def boxes(kind, pts):
    """Reference boxes of a batch (N, k, 2) of one kind."""
    if kind == "Disc":
        return pts[:, 0, None] + np.array([[-0.25, -0.5], [0.5, 0.125]])
    return np.stack([pts.min(1), pts.max(1)], axis=1)


def close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol).all())


def judge(res, name, make, data, want, grids, case):
    """Boxes, centers and locations of a batch; grids of its first elements."""
    import jax.numpy as jnp

    full = name[0] not in BOX_ONLY
    grids = grids if full else []
    tol = 3e-7 * max(1.0, np.abs(data).max()) if len(data) else 0.0
    f = batched(("box", name), lambda: lambda *p: (make(*p).bounding_box(), *((make(*p).center(), {k: make(*p).get_location(k) for k in LOCS}) if full else (jnp.zeros(2), {}))), 1024)
    b, c, locs = f(*data) if isinstance(data, tuple) else f(data)
    for what, got, ref in [("box", b, want)] if not full else [("box", b, want), ("center", c, want.mean(1)), *((f"location {k}", locs[k], want[:, 0] + (want[:, 1] - want[:, 0]) * np.array(v)) for k, v in LOCS.items())]:
        res.add(states=len(want), transitions=ref.size, traces=len(want))
        if got.shape != ref.shape:
            res.violation(f"{what}: shape {got.shape[1:]} instead of {ref.shape[1:]}", case)
            continue
        bad = (np.abs(got - ref) > tol).reshape(len(ref), -1).any(1)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            res.violation(f"{what} {got[i].tolist()} instead of {ref[i].tolist()} ({bad.sum()} of {len(ref)})", {**case, "data": [d[i] for d in data] if isinstance(data, tuple) else data[i]})
    for m, n in grids:
        kw = {} if m is None else {"m": m} if n is None else {"m": m, "n": n}
        if len(want) == 0:
            break
        step = max(1, len(want) // 64)
        part = tuple(d[::step] for d in data) if isinstance(data, tuple) else (data[::step],)
        g = batched(("grid", name, m, n), lambda: lambda *p: make(*p).grid(**kw), 128)
        X, Y = g(*part)
        m_, n_ = (50 if m is None else m), ((50 if m is None else m) if n is None else n)
        w = want[::step]
        xs = np.stack([np.linspace(v[0, 0], v[1, 0], m_) for v in w])
        ys = np.stack([np.linspace(v[0, 1], v[1, 1], n_) for v in w])
        c = {**case, "grid": (m, n)}
        res.add(states=len(w), transitions=2 * m_ * n_ * len(w), traces=len(w))
        if not res.expect(X.shape == (len(w), n_, m_) == Y.shape, f"shapes {X.shape[1:]}, {Y.shape[1:]} instead of {(n_, m_)}", c):
            continue
        bad = (np.abs(X - xs[:, None, :]) > tol).any((1, 2)) | (np.abs(Y - ys[:, :, None]) > tol).any((1, 2))
        if m_ > 1 and n_ > 1:  # both ends are exactly those of the box
            B = f(*part)[0]
            bad |= (X[:, :, 0] != B[:, None, 0, 0]).any(1) | (X[:, :, -1] != B[:, None, 1, 0]).any(1) | (Y[:, 0] != B[:, None, 0, 1]).any(1) | (Y[:, -1] != B[:, None, 1, 1]).any(1)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            res.violation(f"grid {X[i].tolist()}, {Y[i].tolist()} of the box {w[i].tolist()}", c)


def shard_single(ctx, res, arg):
    group, name = arg
    make = classes()[group][name]
    lat = np.array(list(itertools.product([-1.0, 0.0, 2.0] if not ctx.deep else [-1.0, 0.0, 0.5, 2.0], repeat=2)))
    grids = [(None, None)] + [(m, n) for m in range(1, 7) for n in (None, 1, 2, 3, 4, 5, 6)] if ctx.deep or name in ("Point", "Wall", "Path", "Disc") else [(2, 3)]
    for k in {0: (1,), 1: (2,), 2: (2, 3, 4, 5) if ctx.deep else (2, 3, 4)}[group]:
        combos = np.array(list(itertools.product(range(len(lat)), repeat=k)))
        if len(combos) > 7000:
            combos = combos[:: len(combos) // 7000 + 1]
        for scale, off in SCALES:
            data = lat[combos] * scale + np.array(off)
            case = {"kind": name, "points": k, "scale": scale}
            with res.case(case):
                judge(res, (name, k), make, data, boxes(name, data), grids if scale == 1.0 and k < 4 else [], case)
            if res.full():
                return
    res.sample(case)


def structures(deep):
    kinds = ["Wall", "RIS", "Vertex", "Disc"]
    objs = [s for n in range(0, 3) for s in itertools.product(kinds, repeat=n)]
    if not deep:
        objs = [s for s in objs if len(s) < 2 or "Wall" in s]
    return [(a, b, s) for a, b, s in itertools.product(range(3), range(3), objs) if a + b + len(s)]


def shard_scene(ctx, res, arg):
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    part, parts = arg
    one, two, _ = classes()
    mk = {**one, **two}
    for n_tx, n_rx, objs in structures(ctx.deep)[part::parts]:
        n = n_tx + n_rx + len(objs)

        def make(p, n_tx=n_tx, n_rx=n_rx, objs=objs):
            tx = {f"t{i}": Point(xy=p[i, 0]) for i in range(n_tx)}
            rx = {f"r{i}": Point(xy=p[n_tx + i, 0]) for i in range(n_rx)}
            return Scene(transmitters=tx, receivers=rx, objects=[mk[k](p[n_tx + n_rx + i]) for i, k in enumerate(objs)])

        data = []
        base = np.array([[[0.1 * i - 0.2, 0.3 - 0.07 * i], [0.05 * i, 0.11 * i - 0.1]] for i in range(n)])
        for off in ((0.0, 0.0), (5.0, -9.0), (-30.0, 2.0)):
            for i, e, d in itertools.product(range(n), range(2), ((3.0, 0.0), (-3.0, 0.0), (0.0, 3.0), (0.0, -3.0), (4.0, -3.0))):
                p = base.copy()
                p[i, e] += d
                data.append(p + np.array(off))
        data = np.array(data)
        kinds = ["Point"] * (n_tx + n_rx) + list(objs)
        each = [boxes(k, data[:, i, : 2 if k in two else 1]) for i, k in enumerate(kinds)]
        want = np.stack([np.min([b[:, 0] for b in each], axis=0), np.max([b[:, 1] for b in each], axis=0)], axis=1)
        case = {"scene": [n_tx, n_rx, objs]}
        with res.case(case):
            judge(res, ("scene", n_tx, n_rx, objs), make, data, want, [(3, 2)] if n % 3 == 1 else [], case)
        if res.full():
            return
    res.sample(case)


def shard_eager(ctx, res, _):
    """The same without compilation of the whole, positional sizes, named scenes."""
    import jax.numpy as jnp
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    one, two, many = classes()
    pts = np.array([[0.25, -3.0], [2.0, 1.0], [-1.0, 0.5]])
    for name, mk, k in [*((n, f, 1) for n, f in one.items()), *((n, f, 2) for n, f in two.items()), *((n, f, 3) for n, f in many.items())]:
        case = {"eager": name}
        with res.case(case):
            o = mk(jnp.asarray(pts[:k]))
            w = boxes(name, pts[None, :k])[0]
            res.expect(close(o.bounding_box(), w, 1e-6), f"{o.bounding_box()}", case)
            if name in BOX_ONLY:
                continue
            res.expect(close(o.bounding_box(), w, 1e-6) and close(o.center(), w.mean(0), 1e-6), f"{o.bounding_box()}, {o.center()}", case)
            for loc, f in LOCS.items():
                res.expect(close(o.get_location(loc), w[0] + (w[1] - w[0]) * np.array(f), 1e-6) and close(o.get_location(location=loc), o.get_location(loc), 0), f"{loc}: {o.get_location(loc)}", case)
            for X, Y, m, n in ((*o.grid(), 50, 50), (*o.grid(4), 4, 4), (*o.grid(4, 7), 4, 7), (*o.grid(n=3), 50, 3), (*o.grid(n=3, m=2), 2, 3), (*o.grid(1, 5), 1, 5)):
                ok = X.shape == Y.shape == (n, m) and close(X[0], np.linspace(w[0, 0], w[1, 0], m), 1e-6) and close(Y[:, 0], np.linspace(w[0, 1], w[1, 1], n), 1e-6)
                ok = ok and close(X, np.broadcast_to(X[0], (n, m)), 0) and close(Y, np.broadcast_to(Y[:, :1], (n, m)), 0)
                res.expect(ok, lambda: f"grid {m} x {n}: {X}, {Y}", case)
            for bad in ("X", "n", "", "NN", "EN"):
                try:
                    o.get_location(bad)
                except Exception:
                    continue
                res.violation(f"location {bad!r} is accepted", case)
            res.add(states=1, transitions=20, traces=20)
    for name in ("basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle"):
        case = {"scene": name}
        with res.case(case):
            s = Scene.from_scene_name(name)
            p = np.concatenate([[t.xy for t in s.transmitters.values()], [r.xy for r in s.receivers.values()], *[o.xys for o in s.objects]])
            w = np.stack([p.min(0), p.max(0)])
            res.expect(close(s.bounding_box(), w, 0) and close(s.center(), w.mean(0), 1e-6), f"{s.bounding_box()}", case)
            X, Y = s.grid(3, 4)
            res.expect(X.shape == (4, 3) and close(X[2], np.linspace(w[0, 0], w[1, 0], 3), 1e-6) and close(Y[:, 1], np.linspace(w[0, 1], w[1, 1], 4), 1e-6), f"{X} {Y}", case)
            res.add(states=1, transitions=4, traces=4)
    del Point, Wall
    res.sample(case)


def node_sets(deep):
    lat = np.array(list(itertools.product([0.0, 1.0, 3.0], repeat=2)))
    for k in (1, 2, 3, 4) if deep else (1, 2, 3):
        c = np.array(list(itertools.permutations(range(9), k)))
        yield lat[c if k < 4 else c[::3]]


def shard_closest(ctx, res, arg):
    from differt2d.geometry import closest_point

    scale, off = arg
    targets = np.array(list(itertools.product([-0.5, 0.0, 0.5, 1.0, 2.0, 3.5], [0.0, 0.4, 1.0, 2.0])))
    for sets in node_sets(ctx.deep):
        N, T = len(sets), len(targets)
        P = (np.repeat(sets, T, axis=0) * scale + np.array(off)).astype(np.float32)
        t = (np.tile(targets, (N, 1)) * scale + np.array(off)).astype(np.float32)
        case = {"nodes": sets.shape[1], "scale": scale}
        with res.case(case):
            i, d = batched(("closest", sets.shape[1]), lambda: closest_point, 4096)(P, t)
            D = np.linalg.norm(P.astype(float) - t[:, None].astype(float), axis=2)
            tol = 1e-6 * (np.abs(P).max() + np.abs(t).max())
            ok = (i >= 0) & (i < sets.shape[1])
            got = D[np.arange(len(D)), np.clip(i, 0, sets.shape[1] - 1)]
            bad = ~ok | (got > D.min(1) + tol) | (np.abs(d - got) > tol)
            res.add(states=len(D), transitions=D.size, traces=len(D))
            if bad.any():
                b = int(np.nonzero(bad)[0][0])
                res.violation(f"{i[b]} at {d[b]}; the distances are {D[b].tolist()}", {**case, "points": P[b], "target": t[b]})
    res.sample(case)


def shard_scene_closest(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    part, parts = arg
    targets = np.array([[-0.5, 0.4], [0.5, 2.0], [2.1, 0.9], [3.5, 0.1], [1.0, 1.0]])
    names = ("b", "a", "2", "1")
    for sets in node_sets(ctx.deep):
        for k, pts in enumerate(sets[:: 1 if len(sets) < 100 else 7 if ctx.deep else 11][part::parts]):
            n = len(pts)
            for side in ("transmitter", "receiver"):
                case = {"side": side, "nodes": pts}
                with res.case(case):
                    these = {names[i]: Point(xy=jnp.asarray(p)) for i, p in enumerate(pts)}
                    others = {names[-1 - i]: Point(xy=jnp.asarray(t)) for i, t in enumerate(targets[: k % 3])}
                    a, b = (these, others) if side == "transmitter" else (others, these)
                    s = Scene(transmitters=a, receivers=b)
                    for t in targets[:: 1 if ctx.deep else 2]:
                        name, d = getattr(s, f"get_closest_{side}")(jnp.asarray(t))
                        D = np.linalg.norm(pts - t, axis=1)
                        ok = name in these and np.shape(d) == () and abs(float(d) - D.min()) < 1e-5 and D[names.index(name)] < D.min() + 1e-5
                        res.expect(ok, lambda: f"{name} at {d}; the distances are {D.tolist()}", {**case, "target": t})
                        res.add(states=1, transitions=n, traces=1)
            if res.full():
                return
    res.sample(case)


def shard_ties(ctx, res, _):
    """Nearly equal distances, many nodes, the same names at other places."""
    import jax.numpy as jnp
    from differt2d.geometry import Point, closest_point
    from differt2d.scene import Scene

    for n, gap, scale in itertools.product((2, 3, 8, 25, 130, 300), (1e-2, 1e-3, 2e-4, 2e-5), (1.0, 1e-4, 1e4)):
        picks = range(n) if n < 4 or ctx.deep and n < 30 else sorted({0, 1, n // 2, n - 2, n - 1})
        for k in picks:
            r = np.full(n, 1.0) + gap * (1 + np.arange(n) % 3)
            r[k] = 1.0
            ang = np.linspace(0.3, 6.0, n)
            pts = (np.stack([r * np.cos(ang), r * np.sin(ang)], -1) * scale).astype(np.float32)
            D = np.linalg.norm(pts.astype(float), axis=1)
            case = {"nodes": n, "gap": gap, "scale": scale, "nearest": k}
            with res.case(case):
                i, d = closest_point(jnp.asarray(pts), jnp.zeros(2))
                res.expect(int(i) == k and abs(float(d) - D[k]) < 1e-6 * scale, lambda: f"{i} at {d}; the distances are {D.tolist()[:10]}", case)
                res.add(states=1, transitions=n, traces=1)
                if scale == 1.0 and n < 30:
                    names = [f"n{(7 * j) % n if n % 7 else j}" for j in range(n)]
                    nodes = {m: Point(xy=jnp.asarray(p)) for m, p in zip(names, pts)}
                    for side in ("transmitter", "receiver"):
                        s = Scene(**{side + "s": nodes})
                        m, d = getattr(s, f"get_closest_{side}")(jnp.zeros(2))
                        res.expect(m == names[k] and abs(float(d) - 1.0) < 1e-5, lambda: f"{m} at {d} instead of {names[k]}", {**case, "side": side})
                        res.add(states=1, transitions=n, traces=1)
        if res.full():
            return
    # histories: asked again after each change; every scene has the same names
    targets = [jnp.array(t) for t in ((0.0, 0.0), (3.0, 3.0), (0.9, 2.2))]
    places = [(0.0, 0.1), (3.0, 2.5), (1.0, 2.0), (-4.0, 0.5)]
    for order, keep in itertools.product(itertools.permutations(range(4), 3 if ctx.deep else 2), (True, False)):
        alive = []
        for step in range(4):
            at = {n: places[(order[j % len(order)] + step * (j + 1)) % 4] for j, n in enumerate("abc")}
            nodes = {n: Point(xy=jnp.array(p)) for n, p in at.items()}
            s = Scene(transmitters=nodes, receivers=dict(reversed(nodes.items())))
            alive += [s] if keep else []
            case = {"order": order, "step": step, "kept": keep}
            with res.case(case):
                for t, side in itertools.product(targets, ("transmitter", "receiver")):
                    D = {n: float(np.hypot(*(np.array(p) - np.asarray(t)))) for n, p in at.items()}
                    m, d = getattr(s, f"get_closest_{side}")(t)
                    res.expect(D[m] <= min(D.values()) + 1e-6 and abs(float(d) - D[m]) < 1e-5, lambda: f"{m} at {d}; the distances are {D}", {**case, "side": side})
                    res.add(states=1, transitions=3, traces=1)
                if step % 2:
                    # the same scene object with another set of nodes
                    s2 = s.with_receivers(a=Point(xy=jnp.array([50.0, 50.0])), z=Point(xy=jnp.array([9.0, 9.0])))
                    m, d = s2.get_closest_receiver(jnp.array([8.0, 8.0]))
                    res.expect(m == "z" and abs(float(d) - 2**0.5) < 1e-5, lambda: f"{m} at {d}", {**case, "after": "with_receivers"})
                    res.expect(np.allclose(s2.bounding_box()[1], [50.0, 50.0]), lambda: f"{s2.bounding_box()}", {**case, "after": "with_receivers"})
                    p = np.array(list(at.values()))
                    res.expect(close(s.bounding_box(), np.stack([p.min(0), p.max(0)]), 1e-6), lambda: f"{s.bounding_box()}", case)
                    res.add(states=3, transitions=6, traces=3)
    res.sample(case)


def dispatch(ctx, res, s):
    {"1": shard_single, "s": shard_scene, "e": shard_eager, "c": shard_closest, "n": shard_scene_closest, "t": shard_ties}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    kinds = [(0, k) for k in ("Point", "Vertex", "Node", "Disc")] + [(1, k) for k in ("Ray", "Wall", "RIS")] + [(2, k) for k in ("Path", "ImagePath", "FermatPath", "MinPath")]
    jobs = [("s", (i, 16)) for i in range(16)] + [("1", k) for k in kinds] + [("c", s) for s in SCALES] + [("n", (i, 3)) for i in range(3)] + [("e", None), ("t", None)]
    run_shards(ctx, res, dispatch, jobs)
