"""C14: derivatives of accumulated power are finite everywhere and equal the true derivative."""

import itertools

import numpy as np

META = {
    "bounds": "6 scenes (room with wall, with obstacle, crossing and touching walls, surfaces, zero-length wall, small offsets) x exact and smooth modes x 2 activations x 2-6 slopes; "
    "moving node on a 27x27 lattice (thorough 53x53) aligned with walls and corners plus 24x24 off-lattice positions; all pairs of a 6x6 lattice for both nodes; single and double precision; paths optimised in 15 (60) steps by both methods in 2 scenes: the same",
    "counting": "state = (scene, mode, node positions); transition = derivative component checked; trace = gradient computed by the real code",
    "assumptions": ["the true derivative is measured by central differences in double precision at points where two step sizes and both one-sided differences agree; others are counted as skipped"],
}


def scene_walls(name):
    sq = [[[0, 0], [1, 0]], [[1, 0], [1, 1]], [[1, 1], [0, 1]], [[0, 1], [0, 0]]]
    return np.array(
        {
            "wall": [*sq, [[0.5, 0.2], [0.5, 0.8]]],
            "obstacle": [sq[0], sq[3], [[0.4, 0.4], [0.6, 0.4]], [[0.6, 0.4], [0.6, 0.6]], [[0.4, 0.6], [0.4, 0.4]]],
            "cross": [[[0.0, 0.0], [1.0, 1.0]], [[0.0, 1.0], [1.0, 0.0]], [[0.5, 0.5], [0.5, 1.0]]],
            "surface": [sq[0], sq[1], [[0.25, 0.75], [0.75, 0.75]]],
            "degenerate": [sq[0], [[0.5, 0.5], [0.5, 0.5]], sq[2]],
            "pair": [sq[0], sq[2]],
        }[name],
        dtype=float,
    )


ORDER = {"wall": 1, "obstacle": 1, "cross": 2, "surface": 1, "degenerate": 1, "pair": 2}
FIXED = [(0.2, 0.5), (0.5, 0.5), (0.0, 0.0), (0.35, 0.0), (0.81, 0.37), (0.5, 0.8)]


def make(name, approx, fn, alpha, **more):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Wall
    from differt2d.logic import hard_sigmoid, sigmoid
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    kw = {**more, "approx": approx, "max_order": 1 if approx and name == "cross" else ORDER[name]}
    if approx:
        kw["alpha"] = alpha
        if fn != "default":
            kw["function"] = {"sigmoid": sigmoid, "hard": hard_sigmoid}[fn]

    def power(tx, rx, walls):
        objs = [RIS(xys=w, phi=jnp.array(0.3)) if name == "surface" and i == 2 else Wall(xys=w) for i, w in enumerate(walls)]
        if name == "surface":  # the image method needs objects of one kind
            objs = [RIS(xys=w, phi=jnp.array(0.3)) for w in walls]
            kw["tol"] = 0.5
        s = Scene(transmitters={"a": Point(xy=tx)}, receivers={"b": Point(xy=rx)}, objects=objs)
        return s.accumulate_over_paths(received_power, reduce_all=True, **kw)

    return power


def lattice(deep):
    c = np.linspace(-0.15, 1.15, 53 if deep else 27)  # multiples of 0.05 (0.025): 0, 0.2, 0.4, 0.5, 0.6, 0.8, 1 included
    c = np.round(c, 4)
    return np.array(list(itertools.product(c, c)))


def offlattice(deep):
    n = 40 if deep else 24
    a = np.linspace(0.0137, 0.9871, n)
    return np.array(list(itertools.product(a, a + 0.0021)))


def shard_finite(ctx, res, arg):
    """Finite values and derivatives in single precision, for both nodes and the walls."""
    import jax
    import jax.numpy as jnp

    from ..core import batched

    name, approx, fn, alphas = arg
    walls = scene_walls(name).astype(np.float32)
    L, S = lattice(ctx.deep), lattice(False)
    sub = S[(np.round(S[:, 0] * 20) % 4 == 0) & (np.round(S[:, 1] * 20) % 4 == 0)]
    sub = sub[(sub >= 0).all(1) & (sub <= 1).all(1)]
    pairs = np.concatenate([*(np.stack([L, np.broadcast_to(f, L.shape)], axis=1) for f in FIXED), np.array(list(itertools.product(sub, sub)))])
    g = batched(("C14f", name, approx, fn), lambda: lambda p, al: jax.value_and_grad(make(name, approx, fn, al), argnums=(0, 1, 2))(p[0], p[1], jnp.asarray(walls)), 4096)
    for alpha in alphas:
        case = {"precision": 32, "scene": name, "approx": approx, "function": fn, "alpha": alpha}
        with res.case(case):
            v, gs = g(pairs, np.full(len(pairs), alpha))
            for what, x in (("value", v), *zip(("transmitter derivative", "receiver derivative", "wall derivative"), gs)):
                bad = ~np.isfinite(x.reshape(len(pairs), -1)).all(1)
                for i in np.nonzero(bad)[0][:1]:
                    res.violation(f"{what} is not finite at {int(bad.sum())} positions: {x[i].tolist()}", {**case, "tx": pairs[i, 0], "rx": pairs[i, 1]})
                res.nviol += max(0, int(bad.sum()) - 1)
                res.add(transitions=x.size)
            res.add(states=len(pairs), traces=len(pairs))
    res.sample(case)


def shard_true(ctx, res, arg):
    """Double precision: equality with central differences wherever the quantity is smooth."""
    import jax
    import jax.numpy as jnp

    from ..core import batched

    name, approx, fn, alphas = arg
    walls = scene_walls(name) + 0.001 * np.sin(np.arange(4 * len(scene_walls(name)))).reshape(-1, 2, 2) * (name != "degenerate")
    P = offlattice(ctx.deep)
    pts = np.concatenate([P, lattice(False)[::3]])
    fixed = [(0.2, 0.5), (0.73, 0.31)] if not ctx.deep else [*FIXED, (0.73, 0.31)]

    def base():
        return lambda t, r, w, al: make(name, approx, fn, al)(t, r, w)

    value = batched(("C14v", name, approx, fn), base, 8192)
    grad = batched(("C14g", name, approx, fn), lambda: jax.grad(base(), argnums=(0, 1, 2)), 4096)
    n_w = walls.size
    rng = np.arange(4 + n_w)
    for alpha, f in itertools.product(alphas, fixed):
        case = {"precision": 64, "scene": name, "approx": approx, "function": fn, "alpha": alpha, "fixed": f}
        with res.case(case):
            n = len(pts)
            tx, rx = pts, np.broadcast_to(np.array(f), (n, 2))
            W = np.broadcast_to(walls, (n, *walls.shape))
            al = np.full(n, float(alpha))
            gt, gr, gw = grad(tx, rx, W, al)
            G = np.concatenate([gt, gr, gw.reshape(n, -1)], axis=1)
            bad = ~np.isfinite(G).all(1)
            for i in np.nonzero(bad)[0][:1]:
                res.violation(f"derivative is not finite at {int(bad.sum())} positions", {**case, "tx": tx[i]})
            # directions: both coordinates of the transmitter, one mixed direction of the receiver, and of the walls
            dirs = [np.eye(4 + n_w)[0], np.eye(4 + n_w)[1], np.where((rng == 2) | (rng == 3), np.cos(rng), 0)]
            dirs += [np.where(rng >= 4, np.cos(rng * 1.7 + 0.3), 0)]
            if ctx.deep:
                dirs += [np.eye(4 + n_w)[i] for i in range(2, 4 + n_w)]
            X = np.concatenate([tx, rx, W.reshape(n, -1)], axis=1)

            def val(X):
                return value(X[:, :2], X[:, 2:4], X[:, 4:].reshape(n, *walls.shape), al).astype(float)

            v0 = val(X)
            smooth, slopes = np.ones(n, bool), []
            for d in dirs:
                h, q = 4e-6, 1e-6
                a, b, c, e = val(X + h * d), val(X - h * d), val(X + q * d), val(X - q * d)
                ch, cq = (a - b) / (2 * h), (c - e) / (2 * q)
                jh, jq = (a - 2 * v0 + b) / h, (c - 2 * v0 + e) / q
                scale = 1 + np.abs(cq)
                # smooth in every direction at once: at a degenerate position, some direction is not
                smooth &= (np.abs(ch - cq) <= 2e-5 * scale) & (np.abs(jq) <= 0.6 * np.abs(jh) + 1e-5 * scale)
                slopes.append(cq)
            for k, (d, cq) in enumerate(zip(dirs, slopes)):
                g = G @ d
                wrong = smooth & ~(np.abs(g - cq) <= 2e-4 * (1 + np.abs(cq)))
                for i in np.nonzero(wrong)[0][:1]:
                    res.violation(f"derivative along {k} is {g[i]} instead of {cq[i]} (and at {int(wrong.sum())} of {int(smooth.sum())} positions)", {**case, "tx": tx[i]})
                res.nviol += max(0, int(wrong.sum()) - 1)
                res.add(states=n, transitions=int(smooth.sum()), traces=int(smooth.sum()), skipped=int((~smooth).sum()))
                res.count("nonzero_derivatives", int((smooth & (np.abs(cq) > 1e-9)).sum()))
        if res.full():
            return
    res.sample(case)


def shard_optimised(ctx, res, arg):
    """Paths found by optimisation: the derivative is that of all the steps of the optimiser."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import FermatPath, MinPath

    from ..core import batched

    cname, name, approx = arg
    cls = {"fermat": FermatPath, "min": MinPath}[cname]
    exact = jax.config.jax_enable_x64
    walls = scene_walls(name)
    steps = 60 if ctx.deep else 15
    more = {"path_cls": cls, "path_cls_kwargs": {"steps": steps}, "key": jax.random.PRNGKey(3), "tol": 0.5}
    fixed = [*FIXED, (0.73, 0.31)] if ctx.deep else [(0.2, 0.5), (0.0, 0.0), (0.5, 0.5), (0.73, 0.31)]
    L = lattice(False)
    L = L[(L >= 0).all(1) & (L <= 1).all(1)]
    P = offlattice(False)
    if exact:
        fixed, pts = fixed[-1:] + fixed[:1], P[:: 1 if ctx.deep else 3]
        walls = walls + 0.001 * np.sin(np.arange(walls.size)).reshape(walls.shape)
    else:
        pts = np.concatenate([L, P[::4]])
    f = lambda t, r, w: make(name, approx, "default", 20.0, **more)(t, r, w)  # noqa: E731
    value = batched(("C14ov", arg), lambda: f, 2048)
    grad = batched(("C14og", arg), lambda: jax.value_and_grad(f, argnums=(0, 1, 2)), 2048)
    for r in fixed:
        case = {"precision": 64 if exact else 32, "scene": name, "approx": approx, "method": cls.__name__, "fixed": r}
        n = len(pts)
        rx = np.broadcast_to(np.array(r), (n, 2))
        W = np.broadcast_to(walls, (n, *walls.shape))
        with res.case(case):
            v, (gt, gr, gw) = grad(pts, rx, W)
            G = np.concatenate([gt, gr, gw.reshape(n, -1)], axis=1)
            bad = ~(np.isfinite(G).all(1) & np.isfinite(v))
            # at positions aligned with the walls, the objective may be flat at the start, where Adam has no derivative
            known = np.full(n, not exact) & (np.arange(n) < len(L)) & np.isfinite(v)
            if (bad & known).any():
                res.finding("optimiser-gradient")
            new = bad & ~known
            for i in np.nonzero(new)[0][:1]:
                res.violation(f"value {v[i]} with derivative {G[i].tolist()} at {int(new.sum())} positions", {**case, "tx": pts[i]})
            res.add(states=n, transitions=G.size, traces=n)
            if not exact:
                continue
            X = np.concatenate([pts, rx, W.reshape(n, -1)], axis=1)
            rng = np.arange(X.shape[1])
            dirs = [np.eye(len(rng))[0], np.eye(len(rng))[1], np.where((rng == 2) | (rng == 3), np.cos(rng), 0), np.where(rng >= 4, np.cos(rng * 1.7 + 0.3), 0)]

            def val(X):
                return value(X[:, :2], X[:, 2:4], X[:, 4:].reshape(n, *walls.shape)).astype(float)

            v0 = val(X)
            for k, d in enumerate(dirs):
                h, q = 4e-6, 1e-6
                a, b, c, e = val(X + h * d), val(X - h * d), val(X + q * d), val(X - q * d)
                ch, cq = (a - b) / (2 * h), (c - e) / (2 * q)
                jh, jq = (a - 2 * v0 + b) / h, (c - 2 * v0 + e) / q
                scale = 1 + np.abs(cq)
                smooth = (np.abs(ch - cq) <= 2e-5 * scale) & (np.abs(jq) <= 0.6 * np.abs(jh) + 1e-5 * scale)
                wrong = smooth & ~(np.abs(G @ d - cq) <= 3e-4 * scale)
                for i in np.nonzero(wrong)[0][:1]:
                    res.violation(f"derivative along {k} is {(G @ d)[i]} instead of {cq[i]} (and at {int(wrong.sum())} of {int(smooth.sum())} positions)", {**case, "tx": pts[i]})
                res.add(states=n, transitions=int(smooth.sum()), traces=int(smooth.sum()), skipped=int((~smooth).sum()))
                res.count("nonzero_derivatives_of_optimised_paths", int((smooth & (np.abs(cq) > 1e-9)).sum()))
        if res.full():
            return
    res.sample(case)


def run(ctx, res):
    from ..core import run_shards

    modes = [(False, "default", (100.0,)), (True, "default", (100.0, 5.0, 1000.0)), (True, "sigmoid", (100.0, 5.0))]
    if ctx.deep:
        modes = [(a, f, (1.0, 5.0, 10.0, 50.0, 100.0, 1000.0) if a else (100.0,)) for a, f, _ in modes] + [(True, "hard", (20.0, 100.0))]
    names = ["wall", "cross", "pair", "degenerate", "surface", "obstacle"]
    run_shards(ctx, res, shard_finite, [(n, *m) for m in modes[::-1] for n in names if ctx.deep or n != "obstacle" or m[1] != "default" or not m[0]])
    run_shards(ctx, res, shard_true, [(n, *m) for m in modes[::-1] for n in names if ctx.deep or n != "obstacle" or not m[0]], x64=True)
    opt = [(m, n, a) for m in ("min", "fermat") for n in ("wall", "obstacle") for a in (True, False) if ctx.deep or a == (n == "wall")]
    run_shards(ctx, res, shard_optimised, opt)
    run_shards(ctx, res, shard_optimised, opt, x64=True)
