"""C18: optimisation-based tracing agrees with the laws of each object."""

import itertools

import numpy as np

from .. import geo

X64 = True
META = {
    "bounds": "all sequences of at most 3 (thorough: 4) objects of 5 kinds with 0, 1 or 2 parameters x 6 placements and keys x step counts, trials and optimizers, both methods: ends, placement, own "
    "parameters, loss, trajectory; convergence on every genuine reflection among all wall sequences of length <= 2 (3) x node pairs of a lattice, and on all mixed sequences of walls, surfaces and vertices",
    "counting": "state = (method, object sequence, placement, nodes, key, options); transition = interaction point compared; trace = path of the real method compared",
    "assumptions": ["convergence: only results whose residual is below 1e-8 must satisfy the laws; at least nine tenths of the genuine cases with at most two objects must converge, and one fifth of the others",
        "the same key gives the same start whatever the number of steps"],
}
KINDS = "WRVAP"
METHODS = ("FermatPath", "MinPath")
_cls = {}


def classes():
    """The kinds of objects: wall, surface, vertex, an area with two parameters, a pin with none."""
    if _cls:
        return _cls
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.abc import Object
    from differt2d.geometry import RIS, Vertex, Wall
    from jaxtyping import Array, Float

    class Custom(eqx.Module, Object):
        def cartesian_to_parametric(self, carte_coords):
            raise NotImplementedError

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            raise NotImplementedError

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            raise NotImplementedError

        def plot(self, ax, *args, **kwargs):
            return []

        def bounding_box(self):
            raise NotImplementedError

    class Area(Custom):
        m: Float[Array, "3 2"]

        @staticmethod
        def parameters_count():
            return 2

        def parametric_to_cartesian(self, param_coords):
            return self.m[0] + param_coords[0] * self.m[1] + param_coords[1] * self.m[2]

        def evaluate_cartesian(self, ray_path):
            t = self.m[0] + 0.3 * self.m[1] + 0.6 * self.m[2]
            return jnp.sum((ray_path[1] - t) ** 2) + 0.01 * jnp.sum((ray_path[0] - 2.0 * ray_path[2]) ** 2)

    class Pin(Custom):
        p: Float[Array, "2"]

        @staticmethod
        def parameters_count():
            return 0

        def parametric_to_cartesian(self, param_coords):
            return self.p

        def evaluate_cartesian(self, ray_path):
            return 0.1 * jnp.sum((ray_path[0] + 3.0 * ray_path[2] - ray_path[1]) ** 2)

    _cls.update(W=lambda g: Wall(xys=g[:2]), R=lambda g: RIS(xys=g[:2], phi=g[2, 0]), V=lambda g: Vertex(xy=g[0]), A=lambda g: Area(m=g), P=lambda g: Pin(p=g[0]))
    return _cls


SIZE = {"W": 1, "R": 1, "V": 0, "A": 2, "P": 0}


def geometry(kind, i, variant):
    """The (3, 2) array describing the i-th object of a placement."""
    c = np.array([[0.3, 1.7], [2.1, 0.4], [1.4, 2.6], [-0.6, 0.9]][(i + variant) % 4], dtype=float)
    a = 0.7 + 1.1 * i + 0.9 * variant
    u, w = np.array([np.cos(a), np.sin(a)]), np.array([-np.sin(a), np.cos(a)])
    if kind == "A":
        return np.array([c, 1.3 * u, 0.8 * w + 0.2 * u])
    return np.array([c - 0.8 * u, c + 0.9 * u, [0.3 + 0.4 * i - 0.2 * variant, 0.0]])


def parameters(kind, g, p):
    """Own parameters of a point on an object, and its distance to the object's (unbounded) support."""
    if kind in "VP":
        return np.zeros(0), float(np.linalg.norm(p - g[0]))
    if kind == "A":
        return np.linalg.solve(np.stack([g[1], g[2]], axis=1), p - g[0]), 0.0
    t = float(geo.project(p, g[:2]))
    return np.array([t]), float(np.linalg.norm(g[0] + t * (g[1] - g[0]) - p))


def residual(kind, g, a, b, c):
    if kind == "W":
        return float(geo.residual_wall(a, b, c, g[:2]))
    if kind == "R":
        return float(geo.residual_ris(a, b, c, g[:2], g[2, 0]))
    if kind == "A":
        t = g[0] + 0.3 * g[1] + 0.6 * g[2]
        return float(np.sum((b - t) ** 2) + 0.01 * np.sum((a - 2.0 * c) ** 2))
    if kind == "P":
        return float(0.1 * np.sum((a + 3.0 * c - b) ** 2))
    return 0.0


def total(kinds, gs, pts):
    return sum(residual(k, g, *pts[i : i + 3]) for i, (k, g) in enumerate(zip(kinds, gs)))


def tracer(method, kinds, kw):
    """vmap of the method over nodes, objects' data and keys."""
    import jax
    from differt2d import geometry as G

    def f(tx, rx, gs, key):
        objs = [classes()[k](g) for k, g in zip(kinds, gs)]
        p = getattr(G, method).from_tx_objects_rx(tx, objs, rx, key=key, **kw)
        return p.xys, p.loss

    return jax.jit(jax.vmap(f))


def jax_loss(method, kinds):
    """Independent objective of a method (of its parameters), differentiable."""
    import jax.numpy as jnp

    def cut(x, i):
        return x[i]

    def points(theta, gs, tx, rx):
        pts, j = [tx], 0
        for i, k in enumerate(kinds):
            g, n = gs[i], SIZE[k]
            th = theta[j : j + n]
            j += n
            pts.append(g[0] if n == 0 else g[0] + th[0] * (g[1] - g[0]) if n == 1 else g[0] + th[0] * g[1] + th[1] * g[2])
        return [*pts, rx]

    def unit(x):
        return x / jnp.sqrt(jnp.sum(x * x))

    def res(k, g, a, b, c):
        if k in "WR":
            t = unit(g[1] - g[0])
            n = jnp.array([1.0, -1.0]) * t[::-1]
            i, r = unit(b - a), unit(c - b)
            if k == "W":
                return jnp.sum((r - (i - 2 * jnp.sum(i * n) * n)) ** 2)
            return (-(r[0] * n[1] - r[1] * n[0]) - jnp.sin(g[2, 0])) ** 2 + (-jnp.sum(r * n) - jnp.cos(g[2, 0])) ** 2
        if k == "A":
            return jnp.sum((b - (g[0] + 0.3 * g[1] + 0.6 * g[2])) ** 2) + 0.01 * jnp.sum((a - 2.0 * c) ** 2)
        if k == "P":
            return 0.1 * jnp.sum((a + 3.0 * c - b) ** 2)
        return 0.0

    def length(theta, gs, tx, rx):
        p = points(theta, gs, tx, rx)
        return sum(jnp.sqrt(jnp.sum((x - y) ** 2)) for x, y in zip(p, p[1:]))

    def mini(theta, gs, tx, rx):
        p = points(theta, gs, tx, rx)
        return sum(res(k, g, p[i], p[i + 1], p[i + 2]) for i, (k, g) in enumerate(zip(kinds, gs))) + 0.0 * jnp.sum(theta)

    del cut
    return length if method == "FermatPath" else mini


def shard_structure(ctx, res, arg):
    """Ends, placement, own parameters, loss and trajectory."""
    import jax
    import jax.numpy as jnp
    import optax

    part, parts, top = arg
    seqs = [s for n in range(0, top + 1) for s in itertools.product(KINDS, repeat=n)]
    nodes = np.array([[[0.1, 0.2], [2.3, 1.9]], [[-0.4, 2.2], [1.1, -0.7]], [[1.7, 1.3], [0.2, 0.6]]])
    for kinds, method in list(itertools.product(seqs, METHODS))[part::parts]:
        n = len(kinds)
        n_par = sum(SIZE[k] for k in kinds)
        places = [(v, j, s) for v in range(3) for j in range(3) for s in range(2)] if ctx.deep else [(v, v, s) for v in range(3) for s in range(2)]
        tx = np.array([nodes[j, 0] for _, j, _ in places])
        rx = np.array([nodes[j, 1] for _, j, _ in places])
        gs = np.array([[geometry(k, i, v) for i, k in enumerate(kinds)] for v, _, _ in places]).reshape(len(places), n, 3, 2)
        keys = jnp.stack([jax.random.PRNGKey(1000 * ctx.seed + 17 * v + s) for v, _, s in places])
        runs = [("start", {"steps": 0}), ("sgd", {"steps": 4, "optimizer": optax.sgd(0.01)})]
        if n <= 2 or ctx.deep:
            runs.append(("many", {"steps": 4, "optimizer": optax.sgd(0.01), "many": 3}))
        if n <= 1 or ctx.deep:
            runs += [("default", {}), ("many start", {"steps": 0, "many": 3})]
        starts = None
        if n == 3 and not ctx.deep:  # the other method has the other run
            runs = runs[: 2 if (seqs.index(kinds) + METHODS.index(method)) % 4 == 0 else 1]
        for name, kw in runs:
            case = {"method": method, "objects": "".join(kinds), "run": name}
            with res.case(case):
                xys, loss = (np.asarray(x) for x in tracer(method, kinds, kw)(tx, rx, gs, keys))
                if not res.expect(xys.shape == (len(places), n + 2, 2) and loss.shape == (len(places),), f"shapes {xys.shape}, {loss.shape}", case):
                    continue
                thetas = []
                for b in range(len(places)):
                    c = {**case, "place": places[b]}
                    ok = np.allclose(xys[b, 0], tx[b], atol=1e-12) and np.allclose(xys[b, -1], rx[b], atol=1e-12)
                    res.expect(ok, lambda: f"the path {xys[b]} does not join the nodes {tx[b]}, {rx[b]}", c)
                    th = []
                    for i, k in enumerate(kinds):
                        t, d = parameters(k, gs[b, i], xys[b, i + 1])
                        res.expect(d < 1e-9, lambda: f"point {i} = {xys[b, i + 1]} is not on its object, {d} away", c)
                        th.extend(t)
                    thetas.append(th)
                    want = total(kinds, gs[b], xys[b])
                    res.expect(abs(loss[b] - want) <= 1e-9 * (1 + want), lambda: f"loss {loss[b]} instead of the residuals' sum {want}", c)
                    if n == 0:
                        res.expect(loss[b] == 0.0, "a straight path has no loss", c)
                    res.add(states=1, transitions=n + 2, traces=1)
                thetas = np.array(thetas).reshape(len(places), n_par)
                if n_par == 0:
                    continue
                if "start" in name:  # independent uniform draws, one per parameter
                    ok = thetas.min() > -1e-9 and thetas.max() < 1 + 1e-9 and all(len(np.unique(np.round(t, 9))) == n_par for t in thetas)
                    res.expect(ok, lambda: f"the starts {thetas} are not independent draws of [0, 1)", case)
                if name == "start":
                    starts = thetas
                if name in ("sgd", "default") and starts is not None:
                    f = jax.jit(jax.vmap(jax.grad(jax_loss(method, kinds))))
                    x = descend(f, name, starts, (gs, tx, rx))
                    y = descend(f, name, starts + 1e-9, (gs, tx, rx))
                    ok = (np.abs(x - thetas).max(1) <= 1e-6) | (np.abs(x - y).max(1) > 1e-7) | ~np.isfinite(x).all(1)
                    res.expect(ok.all(), lambda: f"parameters {thetas[~ok]} instead of {x[~ok]}", case)
        if res.full():
            return
    res.sample(case)


def descend(f, name, x, args):
    x = np.array(x)
    m, v = np.zeros_like(x), np.zeros_like(x)
    for t in range(1, (4 if name == "sgd" else 100) + 1):
        g = np.asarray(f(x, *args))
        if name == "sgd":
            x = x - 0.01 * g
        else:
            m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
            x = x - 0.1 * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8)
    return x


# --- convergence


def law_path(kinds, gs, tx, rx):
    """The path obeying the law of every object, backwards from the receiver, or None."""
    pts, target = [], np.asarray(rx, dtype=float)
    i = len(kinds) - 1
    stops = [tx, *[None] * len(kinds), target]
    walls = []  # run of walls met since the last fixed point
    while i >= 0:
        if kinds[i] == "V":
            if not fill(stops, i + 1, gs[i][0], walls, gs):
                return None
            walls = []
        elif kinds[i] == "R":
            img = stops[max(walls) + 2 if walls else i + 2]
            for w in reversed(sorted(walls)):
                img = geo.mirror(img, gs[w][:2])
            n = geo.normal(gs[i][:2])
            phi = gs[i][2, 0]
            t = geo.unit(gs[i][1] - gs[i][0])
            # -r = cos(phi) n + sin(phi) u, where u completes n such that cross(u, n) = 1
            u = np.array([n[1], -n[0]])
            r = -(np.cos(phi) * n + np.sin(phi) * u)
            den = float(r @ n)
            if abs(den) < 0.1:
                return None
            s = float((img - gs[i][0]) @ n) / den
            if s < 0.05:
                return None
            p = img - s * r
            if not fill(stops, i + 1, p, walls, gs):
                return None
            walls = []
            del t
        else:
            walls.append(i)
        i -= 1
    if not fill(stops, 0, np.asarray(tx, dtype=float), walls, gs):
        return None
    del pts
    return np.array(stops)


def fill(stops, at, point, walls, gs):
    """Puts a fixed point and the reflections between it and the next fixed point."""
    stops[at] = np.asarray(point, dtype=float)
    if not walls:
        return True
    ws = sorted(walls)
    end = stops[ws[-1] + 2]
    pts, amp, _ = geo.image_path(stops[at][None], end[None], np.array([[gs[w][:2] for w in ws]]))
    if amp[0] > 40:
        return False
    for w, p in zip(ws, pts[0][1:-1]):
        stops[w + 1] = p
    return True


def genuine(kinds, gs, path):
    """Whether the path is a clear solution: small residual, points on the objects, no short leg."""
    if path is None or not np.isfinite(path).all() or total(kinds, gs, path) > 1e-12:
        return False
    if np.linalg.norm(np.diff(path, axis=0), axis=1).min() < 0.15:
        return False
    for k, g, p in zip(kinds, gs, path[1:-1]):
        if k in "WR" and not 0.0 < geo.project(p, g[:2]) < 1.0:
            return False
    return True


WALLSET = np.array([[[-1.0, 0.0], [3.0, 0.0]], [[3.0, -0.5], [3.0, 3.5]], [[-1.0, 3.0], [3.5, 3.0]], [[-1.0, -0.5], [-1.0, 3.0]], [[-0.5, -0.5], [1.5, -2.0]], [[0.0, 3.5], [2.5, 2.8]]])
PTS = np.array([[0.2, 0.6], [1.1, 1.9], [2.2, 1.0], [1.5, 0.4], [0.4, 2.3]])


def convergence_cases(top, deep):
    """(kinds, data, tx, rx, law path), all of them genuine."""
    out = {}
    pairs = [(a, b) for a in range(5) for b in range(5) if a != b]
    for n in range(1, top + 1):
        for kinds in itertools.product("WRV", repeat=n):
            if n == 3 and not deep and kinds.count("R") > 1:
                continue
            if "R" in kinds and kinds.count("R") > 1 and n > 2:
                continue
            # the surface of an only-one-parameter coupled system keeps a single basin
            for ids in itertools.permutations(range(len(WALLSET)), n):
                if n == 3 and (sum(ids) + ids[0]) % (2 if deep else 5):
                    continue
                for k, (a, b) in enumerate(pairs):
                    if n >= 2 and (k + sum(ids)) % (2 if deep else 4):
                        continue
                    gs = []
                    for kind, i in zip(kinds, ids):
                        w = WALLSET[i]
                        if kind == "V":
                            gs.append(np.array([w[0] * 0.4 + w[1] * 0.6, [0, 0], [0, 0]]))
                        else:
                            gs.append(np.array([*w, [0.35 if i % 2 else -0.5, 0.0]]))
                        if kind == "R":  # the normal has to point away from the room
                            inside = float((PTS.mean(0) - w[0]) @ geo.normal(w))
                            if inside > 0:
                                gs[-1][:2] = gs[-1][1::-1]
                    gs = np.array(gs)
                    path = law_path(kinds, gs, PTS[a], PTS[b])
                    if genuine(kinds, gs, path):
                        out.setdefault(kinds, []).append((gs, PTS[a], PTS[b], path))
    return out


def shard_convergence(ctx, res, arg):
    import jax
    import jax.numpy as jnp
    import optax

    part, parts = arg
    cases = convergence_cases(3, ctx.deep)
    jobs = [(k, m) for k in sorted(cases) for m in METHODS if m == "MinPath" or "R" not in k]
    for kinds, method in jobs[part::parts]:
        data = cases[kinds]
        gs, tx, rx, want = (np.array([d[i] for d in data]) for i in range(4))
        keys = jax.random.split(jax.random.PRNGKey(3 + ctx.seed), len(data))
        kw = {"steps": 1500, "optimizer": optax.adam(optax.exponential_decay(0.05, 150, 0.4)), **({"many": 12} if method == "MinPath" else {})}
        case = {"method": method, "objects": "".join(kinds), "cases": len(data)}
        with res.case(case):
            xys, loss = (np.asarray(x) for x in tracer(method, kinds, kw)(tx, rx, gs, keys))
            err = np.abs(xys - want).max((1, 2))
            conv = loss < 1e-8
            res.count("converged_" + method, conv.sum())
            res.count("genuine_" + method, len(conv))
            for b in np.nonzero(conv & (err > 2e-2))[0][:3]:
                # another exact solution of the residuals may exist for the surfaces
                other = total(kinds, gs[b], xys[b])
                if method == "MinPath" and other < 1e-8 and np.linalg.norm(np.diff(xys[b], axis=0), axis=1).min() < 0.1:
                    continue
                res.violation(f"converged to {xys[b].tolist()} instead of {want[b].tolist()}", {**case, "objects data": gs[b], "tx": tx[b], "rx": rx[b]})
            if method == "FermatPath":  # convex: always converges
                for b in np.nonzero(~conv | (err > 2e-2))[0][:3]:
                    res.violation(f"{xys[b].tolist()} (loss {loss[b]}) instead of the shortest path {want[b].tolist()}", {**case, "objects data": gs[b], "tx": tx[b], "rx": rx[b]})
                ln = geo.path_len(xys)
                res.expect((ln <= geo.path_len(want) + 1e-4).all(), "a shorter path exists", case)
            else:
                res.expect(conv.mean() >= (0.9 if len(kinds) < 3 else 0.2), lambda: f"only {conv.sum()} of {len(conv)} cases converge", case)
            res.add(states=len(data), transitions=len(data) * len(kinds), traces=len(data), skipped=int((~conv).sum()))
        # the default options come close on a single object
        if len(kinds) == 1:
            with res.case({**case, "options": "default"}):
                xys, loss = (np.asarray(x) for x in tracer(method, kinds, {"many": 5})(tx, rx, gs, keys))
                err = np.abs(xys - want).max((1, 2))
                res.expect(np.median(err) < 0.1, lambda: f"the default options are {np.median(err)} off", {**case, "options": "default"})
                res.add(states=len(data), transitions=len(data), traces=len(data))
        if res.full():
            return
        res.sample(case)
    del jnp


def shard_forms(ctx, res, _):
    """Nodes given as points or coordinates, lists or tuples of objects, no object at all."""
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G

    class Node(G.Point):
        name: str = "n"

    key = jax.random.PRNGKey(ctx.seed)
    a, b = np.array([0.2, 0.7]), np.array([1.6, 0.9])
    for method, kinds in itertools.product(("FermatPath", "MinPath", "ImagePath"), ("", "W", "WW", "WV", "VRA")):
        if method == "ImagePath" and set(kinds) - {"W"}:
            continue
        gs = [geometry(k, i, 0) for i, k in enumerate(kinds)]
        objs = [classes()[k](jnp.asarray(g)) for k, g in zip(kinds, gs)]
        ref = None
        forms = [lambda x: jnp.asarray(x), lambda x: G.Point(xy=jnp.asarray(x)), lambda x: Node(xy=jnp.asarray(x))]
        combos = [(f, g, q) for f, g in itertools.product(forms, forms) for q in (list, tuple)]
        if not ctx.deep:
            combos = [combos[i] for i in ((0, 5, 9, 14) if kinds in ("", "W") else (0, 9))]
        for f, g, seq in combos:
            case = {"method": method, "objects": kinds, "forms": [forms.index(f), forms.index(g), seq.__name__]}
            with res.case(case):
                kw = {} if method == "ImagePath" else {"steps": 3}
                p = getattr(G, method).from_tx_objects_rx(f(a), seq(objs), g(b), key=key, **kw)
                ok = type(p) is getattr(G, method) and p.xys.shape == (len(kinds) + 2, 2) and np.allclose(p.xys[0], a) and np.allclose(p.xys[-1], b)
                res.expect(ok, f"{p}: {p.xys}", case)
                ref = p if ref is None else ref
                res.expect(np.allclose(p.xys, ref.xys) and np.allclose(p.loss, ref.loss), f"{p.xys} depends on the form", case)
                if not kinds:
                    res.expect(float(p.loss) == 0.0 and np.shape(p.loss) == (), f"loss {p.loss}", case)
                    for kw2 in ({"many": 3}, {"steps": 0}, {"steps": 7, "many": 2}):
                        q = getattr(G, method).from_tx_objects_rx(f(a), seq(objs), g(b), key=key, **kw2)
                        res.expect(np.array_equal(q.xys, p.xys) and float(q.loss) == 0.0, f"{q.xys}", {**case, "options": kw2})
                res.add(states=1, transitions=len(kinds) + 2, traces=1)
    # many trials: the best one, for the path as for the loss
    for kinds in ("W", "A", "WW", "RA", "VWA") if ctx.deep else ("A", "WR"):
        N = 24
        gs = np.array([[geometry(k, i, v % 3) for i, k in enumerate(kinds)] for v in range(N)])
        A, B = np.broadcast_to(a, (N, 2)), np.broadcast_to(b, (N, 2))
        for method in METHODS:
            case = {"method": method, "objects": kinds}
            with res.case(case):
                keys = jax.random.split(jax.random.PRNGKey(5 + ctx.seed), N)

                def scores(kw, method=method, kinds=kinds, gs=gs, A=A, B=B, keys=keys):
                    xys = np.asarray(tracer(method, kinds, kw)(A, B, gs, keys)[0])
                    return geo.path_len(xys) if method == "FermatPath" else np.array([total(kinds, g, x) for g, x in zip(gs, xys)])

                one, best, after = scores({"steps": 0}), scores({"steps": 0, "many": 20}), scores({"steps": 60})
                for v in range(3):
                    res.expect(best[v::3].mean() <= np.median(one[v::3]) + 1e-9, lambda: f"the best of 20 trials {best} is no better than single ones {one}", case)
                res.expect((after <= one + 2e-2).mean() > 0.9, lambda: f"{after} after 60 steps, {one} before", case)
                res.add(states=3 * N, transitions=3 * N, traces=3 * N)
    res.sample(case)


def dispatch(ctx, res, s):
    {"s": shard_structure, "c": shard_convergence, "f": shard_forms}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    top, n = (4, 48) if ctx.deep else (3, 16)
    m = 24 if ctx.deep else 16
    run_shards(ctx, res, dispatch, [("f", None)] + [("c", (i, m)) for i in range(m)] + [("s", (i, n, top)) for i in range(n)], x64=True)
