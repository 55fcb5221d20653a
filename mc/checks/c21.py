"""C21: tracing respects reciprocity and geometric symmetry."""

import itertools

import numpy as np

from .. import geo

X64 = True
META = {
    "bounds": "walls nearly touching the direct leg or its ends at all 121 pairs of parameters near 0 and 1; all sets of 0-3 (thorough: 4) of 8 walls in general position x all ordered pairs of 6 nodes, every candidate of order <= 2 (3): the swap of the nodes, every subset of reversed walls, every "
    "permutation of the objects, the 7 quarter turns and mirrors, 3 translations, 4 scalings and (thorough) all pairs of generators; exact and smooth validity, three option sets; whole scenes and grids likewise; scenes of 20 and 34 (70) objects under rotations and other permutations of the objects",
    "counting": "state = (walls, nodes, transformation); transition = candidate compared; trace = path of the real code compared with its transformed twin",
    "assumptions": ["ill-conditioned paths (amplification above 1e5) are skipped and counted", "for the optimisation-based methods, reciprocity is checked on one object, where the random start is the same; their convergence is C18's"],
}
WALLS = np.array(
    [
        [[-0.13, 0.07], [3.21, -0.11]], [[3.43, -0.37], [3.17, 3.29]], [[3.07, 3.11], [-0.29, 2.83]], [[-0.41, 2.97], [-0.23, -0.31]],
        [[0.91, 1.13], [1.87, 1.37]], [[1.43, 0.53], [1.31, 2.29]], [[2.53, 1.93], [2.11, 2.41]], [[0.19, 2.03], [1.07, 0.41]],
    ]
)  # fmt: skip
NODES = np.array([[0.37, 0.43], [2.71, 0.59], [0.53, 2.47], [2.29, 2.67], [1.63, 1.71], [1.19, -0.83]])
OPTIONS = [{}, {"patch": 0.1, "tol": 0.5}, {"patch": -0.05}]


def candidates(m, top):
    out = [()]
    for n in range(1, top + 1):
        out += [c for c in itertools.product(range(m), repeat=n) if all(a != b for a, b in zip(c, c[1:]))]
    return out


_fns = {}


def tracer(m, top, opt, method="ImagePath"):
    """Compiled: everything about every candidate, for a batch of (tx, rx, walls)."""
    if (m, top, opt, method) in _fns:
        return _fns[m, top, opt, method]
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.utils import received_power

    cands = candidates(m, top)

    def f(tx, rx, walls):
        objs = [G.Wall(xys=walls[i]) for i in range(m)]
        a, b = G.Point(xy=tx), G.Point(xy=rx)
        out = []
        for c in cands:
            io = [objs[i] for i in c]
            kw = {} if method in ("ImagePath", "Path") else {"key": jax.random.PRNGKey(4), "steps": 12}
            p = getattr(G, method).from_tx_objects_rx(a, io, b, **kw)
            k = jnp.array(c, dtype=int)
            v = p.is_valid(objs, k, io, approx=False, **OPTIONS[opt])
            s = p.is_valid(objs, k, io, approx=True, alpha=15.0, **OPTIONS[opt])
            out.append((p.xys, p.loss, v, s, p.length(), received_power(a, b, p, io)))
        return out

    g = jax.jit(jax.vmap(f))

    def call(*data):
        return [tuple(np.asarray(x) for x in o) for o in g(*(jnp.asarray(d) for d in data))]

    _fns[m, top, opt, method] = cands, call
    return cands, call


D4 = [np.array(v, dtype=float) for v in ([[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]], [[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[0, 1], [1, 0]], [[0, -1], [-1, 0]])]


class Sym:
    """A symmetry: how it changes the data, and how the results must change."""

    def __init__(self, name, swap=False, flip=(), perm=None, mat=None, off=(0.0, 0.0), scale=1.0):
        self.name, self.swap, self.flip, self.perm = name, swap, flip, perm
        self.mat, self.off, self.scale = np.eye(2) if mat is None else mat, np.array(off, dtype=float), scale

    def point(self, x):
        return self.scale * (x @ self.mat.T) + self.off

    def data(self, tx, rx, walls):
        w = walls.copy()
        for i in self.flip:
            w[:, i] = w[:, i, ::-1]
        if self.perm is not None:
            w = w[:, list(self.perm)]
        tx, rx, w = self.point(tx), self.point(rx), self.point(w)
        return (rx, tx, w) if self.swap else (tx, rx, w)

    def candidate(self, c):
        """The candidate of the transformed scene that corresponds to c."""
        if self.perm is not None:
            c = tuple(self.perm.index(i) for i in c)
        return c[::-1] if self.swap else c

    def path(self, xys):
        p = self.point(xys)
        return p[:, ::-1] if self.swap else p


def symmetries(m, deep):
    gens = [Sym("swap", swap=True)]
    for k in range(1, m + 1):
        gens += [Sym(f"reverse {s}", flip=s) for s in itertools.combinations(range(m), k)]
    gens += [Sym(f"permute {p}", perm=p) for p in itertools.permutations(range(m)) if p != tuple(range(m))]
    gens += [Sym(f"turn {i}", mat=q) for i, q in enumerate(D4)]
    gens += [Sym(f"move {o}", off=o) for o in ((8.0, -16.0), (0.3, 0.0), (-101.7, 55.3))]
    gens += [Sym(f"scale {s}", scale=s) for s in (2.0, 0.125, 1e-3, 731.0, 2e-6)]
    both = []
    for k, q in enumerate(D4):
        both.append(Sym(f"all {k}", swap=k % 2 == 0, flip=tuple(range(0, m, 1 + k % 2)), perm=tuple(range(m))[::-1] if m > 1 else None, mat=q, off=(0.7 * k, -3.0), scale=0.5 + k))
    if deep:
        both += [
            Sym(f"pair {i}", swap=sw, flip=fl, perm=pm, mat=q, off=(1.3, -2.1), scale=sc)
            for i, (sw, fl, pm, q, sc) in enumerate(
                itertools.product((False, True), [(), *((j,) for j in range(m))], [None, *itertools.permutations(range(m))][: 1 + 6], D4, (1.0, 3.7))
            )
        ][:: 1 if m < 3 else 5]
    return gens + both


def configs(m, part, parts, deep, near=True):
    sets = list(itertools.combinations(range(len(WALLS)), m))
    pairs = [(a, b) for a in range(len(NODES)) for b in range(len(NODES)) if a < b]
    if m == 4:
        sets = sets[::3]
    rows = [(s, p) for s in sets for p in pairs][part::parts]
    if m == 3 and not deep:
        rows = rows[::2]
    tx = NODES[[p[0] for _, p in rows]]
    rx = NODES[[p[1] for _, p in rows]]
    walls = WALLS[np.array([s for s, _ in rows], dtype=int)].reshape(len(rows), m, 2, 2)
    if near and m in (1, 2):
        extra = close_calls(m)
        tx, rx, walls = (np.concatenate([x, y]) for x, y in zip((tx, rx, walls), extra))
    return tx, rx, walls


def close_calls(m):
    """Walls whose ends nearly touch the direct leg, or that nearly touch its ends."""
    out = []
    near = (-0.008, -0.003, -0.001, 0.001, 0.003, 0.5, 0.997, 0.999, 1.001, 1.003, 1.008)
    for (a, b), t, s, ang in itertools.product([(0, 3), (2, 1), (4, 5)], near, near, (0.7, 2.4)):
        d = np.array([np.cos(ang), np.sin(ang)]) * 0.9
        q = NODES[a] + s * (NODES[b] - NODES[a])
        w = [np.stack([q - t * d, q + (1 - t) * d])]
        if m == 2:
            w.insert(a % 2, WALLS[a + 1])
        out.append((NODES[a], NODES[b], np.array(w)))
    return tuple(np.array([o[i] for o in out]) for i in range(3))


def compare(res, base, other, cands, sym, tx, walls, case, loose=1.0):
    index = {c: i for i, c in enumerate(cands)}
    for c, b in zip(cands, base):
        o = other[index[sym.candidate(c)]]
        n = len(tx)
        amp = np.ones(n)
        if c:
            amp = geo.image_path(tx, b[0][:, -1], walls[:, list(c)])[1]
        good = (amp < 1e5) & np.isfinite(b[1])
        size = 1.0 + np.abs(b[0]).max((1, 2))
        want = sym.path(b[0])
        big = np.abs(want).max((1, 2)) + np.abs(sym.off).max() + sym.scale
        amp = amp * loose
        tol = 1e-13 * amp * big * 1000
        bad = {
            "path": np.abs(o[0] - want).max((1, 2)) > tol,
            "loss": np.abs(o[1] - b[1]) > 1e-9 + 1e-12 * amp * big / sym.scale,
            "exact validity": o[2] != b[2],
            "smooth validity": np.abs(o[3] - b[3]) > 1e-8 + 1e-11 * amp * big / sym.scale,
            "length": np.abs(o[4] - sym.scale * b[4]) > tol * len(c) + 1e-12 * sym.scale * b[4] + 1e-13 * big,
        }
        if sym.scale == 1.0:
            bad["power"] = np.abs(o[5] - b[5]) > (1e-10 + 1e-12 * amp * big) * (1 + b[5])
        res.add(states=n, transitions=n, traces=int(good.sum()), skipped=int((~good).sum()))
        del size
        for what, v in bad.items():
            v = v & good
            if v.any():
                i = int(np.nonzero(v)[0][0])
                j = {"path": 0, "loss": 1, "exact validity": 2, "smooth validity": 3, "length": 4, "power": 5}[what]
                ref = want[i] if what == "path" else b[j][i]
                res.violation(f"{what} {o[j][i].tolist()} after {sym.name}, {ref.tolist()} expected ({v.sum()} of {n})", {**case, "candidate": c, "symmetry": sym.name, "tx": tx[i], "walls": walls[i]})


def shard_paths(ctx, res, arg):
    m, part, parts = arg
    top = (3 if m < 4 else 2) if ctx.deep else (2 if m == 3 else 3)
    tx, rx, walls = configs(m, part, parts, ctx.deep)
    opts = range(3) if ctx.deep or m < 3 else [part % 3]
    syms = symmetries(m, ctx.deep)
    for opt in opts:
        cands, f = tracer(m, top, opt)
        base = f(tx, rx, walls)
        res.count("valid_paths", sum(int(b[2].sum()) for b in base))
        for sym in syms:
            case = {"walls": m, "options": OPTIONS[opt], "symmetry": sym.name}
            with res.case(case):
                compare(res, base, f(*sym.data(tx, rx, walls)), cands, sym, tx, walls, case)
            if res.full():
                return
    # the other methods, where their result does not depend on the random start
    if part == 0 and m <= 2:
        tx, rx, walls = configs(m, part, parts, ctx.deep, near=False)
        for method in ("Path", "FermatPath", "MinPath"):
            top = 2 if method == "Path" else 1
            cands, f = tracer(m, top, 0, method)
            base = f(tx, rx, walls)
            for sym in syms:
                if method != "Path" and (sym.flip or sym.scale != 1.0 and method == "FermatPath"):
                    continue
                case = {"walls": m, "method": method, "symmetry": sym.name}
                with res.case(case):
                    compare(res, base, f(*sym.data(tx, rx, walls)), cands, sym, tx, walls, case, loose=1.0 if method == "Path" else 1e4)
    res.sample(case)


def shard_scenes(ctx, res, arg):
    """Whole scenes: labels, valid paths, accumulated power, power maps."""
    import jax.numpy as jnp
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    ids, k = arg
    m = len(ids)
    nodes = {"a": NODES[k % 6], "b": NODES[(k + 1) % 6], "c": NODES[(k + 3) % 6]}

    def scene(sym):
        tx, rx, w = {"a": nodes["a"], "b": nodes["b"]}, {"c": nodes["c"]}, WALLS[list(ids)][None]
        _, _, w = Sym("", flip=sym.flip, perm=sym.perm, mat=sym.mat, off=sym.off, scale=sym.scale).data(NODES[:1], NODES[:1], w)
        if sym.swap:
            tx, rx = rx, tx

        def pts(d):
            return {n: Point(xy=jnp.asarray(sym.point(p))) for n, p in d.items()}

        return Scene(transmitters=pts(tx), receivers=pts(rx), objects=[Wall(xys=jnp.asarray(x)) for x in w[0]])

    def summary(s, sym):
        v = {}
        for t, r, p, c in s.all_valid_paths(max_order=2, approx=False):
            t, r = (r, t) if sym.swap else (t, r)
            v[t, r, tuple(int(i) for i in c)] = np.asarray(p.xys)
        for mode in (False, True):
            for t, r, z in s.accumulate_over_paths(received_power, max_order=2, approx=mode, **({"alpha": 15.0} if mode else {})):
                t, r = (r, t) if sym.swap else (t, r)
                v[t, r, mode] = float(z)
        return v

    one = Sym("none")
    base = summary(scene(one), one)
    for sym in symmetries(m, False)[:: 1 if ctx.deep else 4]:
        case = {"scene": ids, "nodes": k, "symmetry": sym.name}
        with res.case(case):
            got = summary(scene(sym), sym)
            want = {}
            for (t, r, c), z in base.items():
                if isinstance(c, tuple):
                    want[t, r, sym.candidate(c)] = sym.path(z[None])[0]
                elif sym.scale == 1.0:
                    want[t, r, c] = z
            if sym.scale != 1.0:
                got = {q: z for q, z in got.items() if isinstance(q[2], tuple)}
            ok = got.keys() == want.keys() and all(np.allclose(got[q], want[q], rtol=1e-8, atol=1e-8) for q in want)
            res.expect(ok, lambda: f"{got} instead of {want}", case)
            res.add(states=1, transitions=len(want), traces=len(want))
    # power maps: a transmitter and a receiver may exchange their places, and the map follows the scene
    xs, ys = np.array([0.21, 1.03, 2.77]), np.array([0.67, 2.09])
    X, Y = np.meshgrid(xs, ys)
    for mode, sym in itertools.product((False, True), [one, *(Sym(f"turn {i}", mat=q, off=(1.0, 2.0)) for i, q in enumerate(D4[:: 1 if ctx.deep else 3]))]):
        case = {"map": ids, "nodes": k, "symmetry": sym.name, "approx": mode}
        with res.case(case):
            P = sym.point(np.stack([X, Y], axis=-1))
            s = scene(sym)
            kw = {"max_order": 1, "approx": mode, **({"alpha": 15.0} if mode else {})}
            G = jnp.asarray(P[..., 0]), jnp.asarray(P[..., 1])
            as_rx = {t: np.asarray(z) for t, z in s.accumulate_on_receivers_grid_over_paths(*G, received_power, **kw)}
            s2 = Scene(transmitters=s.receivers, receivers=s.transmitters, objects=s.objects)
            as_tx = {t: np.asarray(z) for t, z in s2.accumulate_on_transmitters_grid_over_paths(*G, received_power, **kw)}
            ok = as_rx.keys() == as_tx.keys() == {"a", "b"} and all(np.allclose(as_rx[t], as_tx[t], rtol=1e-8, atol=1e-8) for t in as_rx)
            res.expect(ok, lambda: f"{as_tx} instead of {as_rx}", case)
            if sym is one:
                ref = as_rx
            elif mode == last:
                res.expect(all(np.allclose(as_rx[t], ref[t], rtol=1e-8, atol=1e-8) for t in ref), lambda: f"{as_rx} instead of {ref}", case)
            last = mode
            res.add(states=1, transitions=2 * X.size, traces=4)
    res.sample(case)


def shard_large(ctx, res, arg):
    """Scenes of many objects: the same arithmetic on relabelled objects must give the same answers to the last bit."""
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G

    m, order, method = arg
    i = np.arange(m - 8)
    mid = np.stack([0.31 + (i * 0.617) % 2.6, 0.23 + (i * 0.383) % 2.7], axis=1)
    d = 0.09 * np.stack([np.cos(2.3 * i + 0.4), np.sin(2.3 * i + 0.4)], axis=1)
    walls = np.concatenate([np.stack([mid - d, mid + d], axis=1), WALLS])  # the large walls come last
    cands = [c for c in candidates(m, order) if len(c) == order]
    cands = np.array(cands, dtype=int).reshape(len(cands), order)
    if not ctx.deep and len(cands) > 3000:
        cands = cands[np.arange(0, len(cands), len(cands) // 3000 + 1)]
    k = np.arange(len(cands))
    nodes = [(NODES[k % 6], NODES[(k + 1 + k // 6 % 5) % 6])]

    def f(tx, rx, c, walls):
        objs = [G.Wall(xys=walls[j]) for j in range(m)]
        io = [G.Wall(xys=walls[c[j]]) for j in range(order)]
        p = getattr(G, method).from_tx_objects_rx(tx, io, rx)
        kw = {"patch": 0.05}
        return {
            "path": p.xys, "on_objects": p.on_objects(io, approx=False), "obstructed": p.intersects_with_objects(objs, c, approx=False, **kw),
            "valid": p.is_valid(objs, c, io, approx=False, tol=10.0), "smooth": p.is_valid(objs, c, io, approx=True, alpha=15.0, tol=10.0),
            "smooth obstruction": p.intersects_with_objects(objs, c, approx=True, alpha=15.0),
        }  # fmt: skip

    g = jax.jit(jax.vmap(f, in_axes=(0, 0, 0, None)))
    perms = [np.roll(np.arange(m), r) for r in range(1, m, 1 if ctx.deep else 3)] + [np.arange(m)[::-1], np.argsort((np.arange(m) * 7) % 31, kind="stable")]
    for tx, rx in nodes:
        base = g(tx, rx, cands, walls)
        res.count("large_obstructed", int(base["obstructed"].sum()))
        for n, perm in enumerate(perms):  # object j of the new scene is object perm[j] of the first one
            case = {"objects": m, "order": order, "method": method, "permutation": perm}
            with res.case(case):
                got = g(tx, rx, np.argsort(perm)[cands].astype(int), walls[perm])
                for what, v in got.items():
                    u = np.asarray(base[what])
                    v = np.asarray(v)
                    bad = (u != v) & ~((u != u) & (v != v)) if v.dtype == bool else ~np.isclose(u, v, rtol=1e-9, atol=1e-9, equal_nan=True)
                    bad = bad.reshape(len(bad), -1).any(axis=1)
                    for b in np.nonzero(bad)[0][:1]:
                        res.violation(f"{what} is {v[b]}, {u[b]} before ({bad.sum()} of {len(bad)})", {**case, "candidate": cands[b], "tx": tx[b], "rx": rx[b]})
                res.add(states=len(cands), transitions=len(got) * len(cands), traces=len(cands))
        case = {"objects": m, "order": order, "method": method, "swap": True}
        with res.case(case):
            got = g(rx, tx, cands[:, ::-1], walls)
            bad = np.abs(np.asarray(got["path"])[:, ::-1] - np.asarray(base["path"])).max(axis=(1, 2)) > 1e-6 if method == "Path" else np.zeros(len(cands), dtype=bool)
            for b in np.nonzero(bad)[0][:1]:
                res.violation("the path is not the reversed one", {**case, "candidate": cands[b]})
            if method == "Path":
                for what in ("on_objects", "obstructed", "valid") if order == 0 else ("obstructed",):
                    # in general position: nothing is close to a threshold
                    u, v, s = np.asarray(base[what]), np.asarray(got[what]), np.asarray(base["smooth obstruction"])
                    bad = (u != v) & (np.abs(s - 0.5) > 0.01)
                    for b in np.nonzero(bad)[0][:1]:
                        res.violation(f"{what} is {v[b]} after the swap", {**case, "candidate": cands[b], "tx": tx[b], "rx": rx[b]})
            res.add(states=len(cands), transitions=len(cands), traces=len(cands))
    res.sample(case)


def dispatch(ctx, res, s):
    {"p": shard_paths, "l": shard_large, "s": shard_scenes}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("p", (3, i, 8 if not ctx.deep else 6)) for i in range(8 if not ctx.deep else 6)] + [("p", (m, 0, 1)) for m in (2, 1, 0)]
    if ctx.deep:
        jobs = [("p", (4, i, 8)) for i in range(8)] + jobs
    sets = [(0, 4), (1, 5, 2), (7,), (0, 1, 2), (3, 6)] if ctx.deep else [(0, 4), (1, 5, 2)]
    jobs += [("s", (ids, k)) for ids in sets for k in range(6 if ctx.deep else 1)]
    jobs += [("l", (m, o, c)) for m in ((20, 34, 70) if ctx.deep else (20, 34)) for o in range(4) for c in ("ImagePath", "Path") if o < 3 or m < 70]
    run_shards(ctx, res, dispatch, jobs, x64=True)
