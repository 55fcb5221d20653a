"""C07: the exact validity verdict is geometric truth."""

import itertools

import numpy as np

from .. import geo, valid

META = {
    "bounds": "orders 0-4, 0-3 (order 1: also 5) objects out of 12 walls (all ordered tuples), all candidates, scales 2^-10 to 2^10, 9 node positions, 11 parameters per interaction "
    "(0.4% inside/outside of the ends included), 6 losses, 5 tolerances (losses equal to the tolerance included), 4 patches; mixed object kinds eagerly; all triples of 5 kinds including 4 user-defined ones (transparent, endless, half, round), eagerly, in both logics and through a scene; rounding neighbours of the ends (axis-aligned walls of power-of-two lengths, where single precision is exact) and of the tolerance",
    "counting": "state = (path, objects, candidate, loss, tolerance, patch); transition = verdict compared (three conditions + conjunction); trace = path judged by the real code and compared",
    "assumptions": ["legs closer than 2% of a length to an end point of an object (or nearly parallel and overlapping) are skipped"],
}
SETTINGS = [  # loss, tol, patch (None = default), scale of the scene
    (0.0, None, None, 1.0),
    (0.02, None, 0.25, 1.0),
    (0.009, None, -0.25, 2.0**-10),
    (0.4, 0.5, 0.0, 2.0**10),
    (0.6, 0.5, None, 1.0),
    (0.0005, 0.001, 1.0, 2.0**-4),
    (float("nan"), None, None, 1.0),
    (0.25, 0.25, None, 1.0),  # not below the tolerance
    (0.0, 0.0, None, 1.0),
]


def make(order, m, kind, kw):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Path, Wall

    def f(pts, ws, cand, loss):
        objs = [Wall(xys=ws[i]) if kind == "wall" else RIS(xys=ws[i], phi=jnp.array(0.3)) for i in range(m)]
        inter = [Wall(xys=ws[cand[i]]) if kind == "wall" else RIS(xys=ws[cand[i]], phi=jnp.array(0.3)) for i in range(order)]
        p = Path(xys=pts, loss=loss)
        sub = {k: v for k, v in kw.items() if k != "tol"}
        return (
            p.is_valid(objs, cand, inter, **kw, approx=False),
            p.on_objects(inter, approx=False),
            p.intersects_with_objects(objs, cand, **sub, approx=False),
        )

    return f


def shard_batch(ctx, res, arg):
    from ..core import batched

    order, part, parts, kind = arg
    size = 20000
    for m, pts, walls, cand in valid.batches(order, ctx.deep, part, parts, size):
        pts = pts.astype(np.float32).astype(float)
        sets = SETTINGS if order <= 1 or ctx.deep else SETTINGS[:3] + SETTINGS[-1:]
        for loss, tol, patch, scale in sets:
            kw = {}
            if tol is not None:
                kw["tol"] = tol
            if patch is not None:
                kw["patch"] = patch
            g = batched(("C07", order, m, kind, tol, patch), lambda: make(order, m, kind, kw), size)
            case = {"order": order, "objects": m, "kind": kind, "loss": loss, "tol": tol, "patch": patch, "scale": scale}
            with res.case(case):
                L = np.full(len(pts), loss)
                P, W = pts * scale, walls * scale
                got = g(P, W, cand, L)
                want = valid.verdicts(P, W, cand, L, 0.01 if tol is None else tol, patch or 0.0)
                w_all, w_on, w_free = want[3], want[0], want[1]
                for name, v, w in (("is_valid", got[0], w_all), ("on_objects", got[1], w_on), ("intersects", ~got[2] if got[2].dtype == bool else got[2], w_free)):
                    if v.dtype != bool:
                        res.violation(f"{name} is {v.dtype} in exact mode", case)
                        continue
                    bad = (w != 0) & (v != (w == 1))
                    for i in np.nonzero(bad)[0][:1]:
                        res.violation(
                            f"{name}: reference says {'yes' if w[i] == 1 else 'no'} ({int(bad.sum())} of {len(bad)} wrong)",
                            {**case, "points": P[i], "walls": W[i], "candidate": cand[i]},
                        )
                    res.nviol += max(0, int(bad.sum()) - 1)
                dec = w_all != 0
                res.add(states=len(pts), transitions=int(dec.sum() + (w_on != 0).sum() + (w_free != 0).sum()), traces=int(dec.sum()), skipped=int((~dec).sum()))
                res.count("valid", int((w_all == 1).sum()))
            if res.full():
                return
    res.sample({**case, "points": pts[-1], "walls": walls[-1], "candidate": cand[-1], "valid": got[0][-1]})


def shard_mixed(ctx, res, part):
    """Eager calls: all kinds of objects in all positions, concrete and traced candidates, sequence types."""
    import jax.numpy as jnp
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Vertex, Wall

    W = [np.array(w, dtype=float) for w in ([[0, 0], [3, 0]], [[1, 1], [2, 1]], [[2, 2.5], [2, 0.5]])]

    def obj(kind, i):
        if kind == "V":
            return Vertex(xy=jnp.array(W[i][1]))
        return (Wall if kind == "W" else RIS)(xys=jnp.array(W[i]))

    nodes = [(0.4, 1.6), (2.7, 1.3), (1.4, 0.3)]
    jobs = list(itertools.product("WVR", repeat=3))[part::8]
    for kinds in jobs:
        objs = [obj(k, i) for i, k in enumerate(kinds)]
        for cand in [()] + [(i,) for i in range(3)] + list(itertools.permutations(range(3), 2)):
            for (a, b), t, cls, cont in itertools.product(itertools.permutations(nodes, 2), (0.3, 1.2), (Path, ImagePath), (list, tuple)):
                if cls is ImagePath and (t != 0.3 or cont is list):
                    continue
                pts = [a]
                on = 1
                for j in cand:
                    if kinds[j] == "V":
                        pts.append(tuple(W[j][1] + (0.1 if t > 1 else 0.0)))
                    else:
                        pts.append(tuple(W[j][0] + t * (W[j][1] - W[j][0])))
                        if t > 1:
                            on = -1
                pts.append(b)
                P = np.array(pts)
                free = 1
                for i in range(len(P) - 1):
                    for j, k in enumerate(kinds):
                        if k == "V" or (i > 0 and cand[i - 1] == j) or (i < len(cand) and cand[i] == j):
                            continue
                        c = int(geo.crossing(W[j][0], W[j][1], P[i], P[i + 1], 0.0, 0.02))
                        free = -1 if (free == -1 or c == 1) else (0 if c == 0 else free)
                for loss in (0.0, 0.3):
                    case = {"kinds": kinds, "candidate": cand, "points": P, "loss": loss, "class": cls.__name__, "container": cont.__name__}
                    want = -1 if -1 in (on, free) or loss else min(on, free)
                    with res.case(case):
                        p = cls(xys=jnp.array(P), loss=jnp.array(loss))
                        c = jnp.array(cand, dtype=int)
                        inter = cont(objs[j] for j in cand)
                        o = p.on_objects(inter, approx=False)
                        x = p.intersects_with_objects(cont(objs), c, approx=False)
                        v = p.is_valid(cont(objs), c, inter, approx=False)
                        res.expect(bool(o) == (on == 1), f"on_objects = {o}", case)
                        res.expect(free == 0 or bool(x) == (free == -1), f"intersects_with_objects = {x}", case)
                        res.expect(want == 0 or bool(v) == (want == 1), f"is_valid = {v}", case)
                        res.add(states=1, transitions=3, traces=int(want != 0), skipped=int(want == 0))
                    if res.full():
                        return
    del FermatPath, MinPath


def custom_kinds():
    """User-defined objects: what they answer decides."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d.abc import Object
    from differt2d.geometry import Wall
    from differt2d.logic import false_value, greater, less, logical_and, true_value

    class Glass(Wall):
        """Never in the way."""

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            return false_value(approx=approx)

    class Endless(Wall):
        """Reflects on its whole line."""

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            return true_value(approx=approx)

    class Half(Wall):
        """Reflects on its first half only."""

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            t = param_coords[0]
            return logical_and(greater(t, jnp.array(0.0), approx=approx, **kwargs), less(t, jnp.array(0.5), approx=approx, **kwargs), approx=approx)

    class Disc(eqx.Module, Object):
        """A round obstacle, of which the parameter is the angle; a patch makes it larger."""

        center: jax.Array = eqx.field(converter=jnp.asarray)
        radius: jax.Array = eqx.field(converter=jnp.asarray)

        def plot(self, ax, *args, **kwargs):
            return []

        def bounding_box(self):
            return jnp.stack([self.center - self.radius, self.center + self.radius])

        @staticmethod
        def parameters_count():
            return 1

        def parametric_to_cartesian(self, param_coords):
            a = 2 * jnp.pi * param_coords[0]
            return self.center + self.radius * jnp.array([jnp.cos(a), jnp.sin(a)])

        def cartesian_to_parametric(self, carte_coords):
            v = carte_coords - self.center
            return jnp.array([jnp.arctan2(v[1], v[0]) / (2 * jnp.pi)])

        def contains_parametric(self, param_coords, approx=None, **kwargs):
            return true_value(approx=approx)

        def intersects_cartesian(self, ray, patch=0.0, approx=None, **kwargs):
            d = ray[1] - ray[0]
            t = jnp.clip(jnp.dot(self.center - ray[0], d) / jnp.dot(d, d), 0.0, 1.0)
            v = self.center - ray[0] - t * d
            return less(jnp.sqrt(jnp.dot(v, v)), self.radius + patch, approx=approx, **kwargs)

        def evaluate_cartesian(self, ray_path):
            return jnp.array(0.0)

        def sample(self, key):
            return jnp.zeros(2)

    return {"W": Wall, "G": Glass, "E": Endless, "H": Half, "D": Disc}


def shard_custom(ctx, res, part):
    """Mixtures of walls and user-defined objects, in exact and in smooth mode, against the definition."""
    import jax.numpy as jnp
    from differt2d.geometry import Path
    from differt2d.scene import Scene

    K = custom_kinds()
    W = np.array([[[0, 0], [3, 0]], [[1, 1], [2, 1]], [[2, 2.5], [2, 0.5]]], dtype=float)
    R = [0.3, 0.5, 0.4]
    nodes = np.array([(0.4, 1.6), (2.7, 1.3), (1.4, 0.3), (0.2, -0.9)])

    def obj(kind, i):
        return K["D"](center=W[i].mean(0), radius=R[i]) if kind == "D" else K[kind](xys=jnp.array(W[i]))

    def contains(kind, t):
        """1 yes, -1 no, 0 too close to say."""
        hi = {"W": 1.0, "G": 1.0, "H": 0.5}.get(kind)
        if hi is None:
            return 1
        return 0 if min(abs(t), abs(t - hi)) < 1e-3 else 1 if 0 < t < hi else -1

    def blocks(kind, i, a, b, patch):
        if kind == "G":
            return -1
        if kind == "D":
            c, d = W[i].mean(0), b - a
            t = np.clip(np.dot(c - a, d) / np.dot(d, d), 0, 1)
            v = np.linalg.norm(c - a - t * d) - R[i] - patch
            return 0 if abs(v) < 1e-3 else 1 if v < 0 else -1
        w = valid.extend(W[i], patch)
        return int(geo.crossing(w[0], w[1], a, b, 0.0, 0.02))

    sets = [k for k in itertools.product("WGEHD", repeat=3) if set(k) != {"W"}]
    if not ctx.deep:  # every ordered pair of kinds
        sets = [k for i, k in enumerate(sets) if i % 3 == 0 or len(set(k)) == 2 and i % 3 == 1]
    for kinds in sets[part::8]:
        objs = [obj(k, i) for i, k in enumerate(kinds)]
        for cand in [()] + [(i,) for i in range(3)] + (list(itertools.permutations(range(3), 2)) if ctx.deep else [(0, 1), (2, 0)]):
            for (a, b), t, patch in itertools.product([(0, 1), (1, 2), (3, 1), (2, 0)], (0.3, 0.8, 1.2) if cand else (0.3,), (0.0, 0.25)):
                if patch and t == 0.8:
                    continue
                P = np.array([nodes[a], *(np.asarray(obj("D", j).parametric_to_cartesian(jnp.array([t]))) if kinds[j] == "D" else W[j][0] + t * (W[j][1] - W[j][0]) for j in cand), nodes[b]])
                on = min([contains(kinds[j], t) for j in cand], default=1)
                hits = [-1]
                for i in range(len(P) - 1):
                    for j, k in enumerate(kinds):
                        if not ((i > 0 and cand[i - 1] == j) or (i < len(cand) and cand[i] == j)):
                            hits.append(blocks(k, j, P[i], P[i + 1], patch))
                hit = max(hits)
                case = {"kinds": kinds, "candidate": cand, "points": P, "patch": patch}
                with res.case(case):
                    p = Path(xys=jnp.array(P))
                    c = jnp.array(cand, dtype=int)
                    inter = [objs[j] for j in cand]
                    o = p.on_objects(inter, approx=False)
                    x = p.intersects_with_objects(objs, c, patch=patch, approx=False)
                    v = p.is_valid(objs, c, inter, patch=patch, approx=False)
                    res.expect(on == 0 or bool(o) == (on == 1), f"on_objects = {o}", case)
                    res.expect(hit == 0 or bool(x) == (hit == 1), f"intersects_with_objects = {x}", case)
                    bad = on == -1 or hit == 1
                    res.expect(bad and not bool(v) or not bad and (0 in (on, hit) or bool(v)), f"is_valid = {v}", case)
                    res.add(states=1, transitions=3, traces=1, skipped=int(0 in (on, hit)))
                    if on and hit and t != 0.8:
                        # sharp smooth logic comes to the same
                        s = float(p.is_valid(objs, c, inter, patch=patch, approx=True, alpha=2e4, tol=0.5))
                        res.expect(abs(s - (0.0 if bad else 1.0)) < 0.05, f"smooth is_valid = {s} instead of {0.0 if bad else 1.0}", case)
                        res.add(states=1, transitions=1, traces=1)
                if res.full():
                    return
        case = {"kinds": kinds, "traced": True}
        with res.case(case):
            # the same through a scene
            from differt2d.geometry import Point

            s = Scene(transmitters={"a": Point(xy=jnp.array(nodes[0]))}, receivers={"b": Point(xy=jnp.array(nodes[1]))}, objects=objs)
            for _, _, v, p, c in s.all_paths(path_cls=Path, approx=False, max_order=1):
                w = p.is_valid(objs, c, [objs[int(j)] for j in c], approx=False)
                on = min([contains(kinds[int(j)], 0.5) for j in c], default=1)
                res.expect(bool(v) == bool(w), f"{c}: {v} in the scene, {w} alone", case)
                res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def shard_exact(ctx, res, kind):
    """Rounding neighbours of the decision thresholds, where the arithmetic is exact in single precision."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Path, Wall

    f32 = np.float32
    cls = {"wall": Wall, "ris": lambda xys: RIS(xys=xys, phi=jnp.array(0.3))}[kind]
    near0 = [s * 2.0**-k for k in (2, 5, 8, 10, 12, 14, 16, 17, 18, 19, 20, 21, 22, 23, 24, 30, 40, 60) for s in (1, -1)] + [0.0]
    ts = sorted(set(near0 + [1 + x for x in near0] + [0.5, 2.0, -1.0]))
    pts, walls, want = [], [], []
    for j, k, (dx, dy) in itertools.product((-12, -5, 0, 6, 12), (0, -1, 1, -3, 2), ((1, 0), (-1, 0), (0, 1), (0, -1))):
        L = 2.0**j
        d = np.array([dx, dy], dtype=float)
        o = k * L * d
        for t in ts:
            x = o + t * L * d
            c = float((x - o) @ d) / L
            # representable, and nothing is lost when the origin is subtracted
            if not (f32(x) == x).all() or c != t or (f32(x) - f32(o)).astype(float) @ d != t * L:
                continue
            nrm = np.array([-dy, dx]) * L
            pts.append(np.stack([x + nrm, x, x + nrm]))
            walls.append(np.stack([o, o + L * d]))
            want.append(0 <= t <= 1)
    pts, walls, want = (np.array(v) for v in (pts, walls, want))
    c1, c2 = jnp.array([0]), jnp.array([0, 1])

    def one(p, w):
        q, o = Path(xys=p), cls(w)
        return q.on_objects([o], approx=False), q.is_valid([o], c1, [o], approx=False)

    def two(p, w, p2, w2):
        q, os = Path(xys=jnp.concatenate([p[:2], p2[1:]])), [cls(w), cls(w2)]
        return q.on_objects(os, approx=False), q.is_valid([], c2, os, approx=False)

    case = {"kind": kind, "exact": True}
    with res.case(case):
        g = jax.jit(jax.vmap(one))
        for name, v in zip(("on_objects", "is_valid"), g(jnp.array(pts, f32), jnp.array(walls, f32))):
            bad = np.nonzero(np.asarray(v) != want)[0]
            for i in bad[:1]:
                res.violation(f"{name}: {'inside' if want[i] else 'outside'} of the wall, {len(bad)} wrong", {**case, "points": pts[i], "wall": walls[i]})
            res.add(states=len(want), transitions=len(want), traces=len(want))
        i, j = np.divmod(np.arange(len(pts) * 40), 40)
        j = (i * 7 + j * 31) % len(pts)
        g = jax.jit(jax.vmap(two))
        both = want[i] & want[j]
        for name, v in zip(("on_objects", "is_valid"), g(*(jnp.array(v, f32) for v in (pts[i], walls[i], pts[j], walls[j])))):
            bad = np.nonzero(np.asarray(v) != both)[0]
            for b in bad[:1]:
                res.violation(f"{name} of two points: not {both[b]}, {len(bad)} wrong", {**case, "points": [pts[i[b]], pts[j[b]]], "walls": [walls[i[b]], walls[j[b]]]})
            res.add(states=len(both), transitions=len(both), traces=len(both))
    # losses next to the tolerance
    w = cls(jnp.array([[0.0, 0.0], [2.0, 0.0]]))
    xys = jnp.array([[0.0, 1.0], [1.0, 0.0], [2.0, 1.0]])
    valid_ = jax.jit(jax.vmap(lambda loss, tol: Path(xys=xys, loss=loss).is_valid([w], c1, [w], tol=tol, approx=False)))
    tol = np.array([1e-30, 1e-6, 1e-3, 1e-2, 0.1, 0.5, 1.0, 3.7, 1e6, 1e30], dtype=f32)
    for lo in (np.nextafter(tol, f32(0)), tol, np.nextafter(tol, f32(np.inf)), tol * f32(0.999), tol * f32(1.001), -tol):
        case = {"kind": kind, "losses": lo, "tolerances": tol}
        with res.case(case):
            v = np.asarray(valid_(jnp.array(lo), jnp.array(tol)))
            res.expect((v == (lo < tol)).all(), f"is_valid = {v}", case)
            res.add(states=len(tol), transitions=len(tol), traces=len(tol))
    for x, y in ((np.nextafter(f32(0.01), f32(0)), True), (f32(0.01), False)):
        case = {"kind": kind, "loss": x, "tolerance": "default"}
        with res.case(case):
            v = Path(xys=xys, loss=jnp.array(x)).is_valid([w], c1, [w], approx=False)
            res.expect(bool(v) == y, f"is_valid = {v}", case)
            res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def shard(ctx, res, s):
    if s[0] == "exact":
        shard_exact(ctx, res, s[1])
    elif s[0] == "custom":
        shard_custom(ctx, res, s[1])
    elif s[0] == "mixed":
        shard_mixed(ctx, res, s[1])
    else:
        shard_batch(ctx, res, s)


def run(ctx, res):
    from ..core import run_shards

    jobs = [(o, i, k, "wall") for o, k in ((0, 2), (1, 8), (2, 12), (3, 3), (4, 3)) for i in range(k)] + [(1, 0, 4, "ris")]
    run_shards(ctx, res, shard, jobs[::-1] + [("exact", "wall"), ("exact", "ris")] + [("mixed", i) for i in range(8)] + [("custom", i) for i in range(8)])
