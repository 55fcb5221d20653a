"""C09: segment intersection tests and patched obstruction."""

import itertools

import numpy as np

from .. import geo

from .c08 import funs

META = {
    "bounds": "all quadruples of points of a 4x4 lattice (thorough 5x5), degenerate ones included, x 8 similarity transforms (scales 2^-28 to 2^24) x 5 tolerances x modes x "
    "activations; all crossings at 15x15 parameters (within 5% of the tolerance) x 12 angles x 3 lengths; objects x 6 patches",
    "counting": "state = (segments, transform, tolerance/patch, mode); transition = answer compared; trace = pairs judged by the real code",
    "assumptions": ["parameters closer than 1e-4 to the threshold and nearly collinear inexact segments are skipped (none on the integer lattice except exact ties)"],
}
TRANSFORMS = [(1.0, 0.0, (0.0, 0.0)), (0.05, 0.4, (0.3, -0.1)), (50.0, 1.9, (7.0, 3.0)), (-1.0, 0.0, (2.0, 1.0))]
TINY = [(2.0**-17, 0.0, (0.0, 0.0)), (-(2.0**-28), 0.0, (0.0, 0.0)), (2.0**24, 0.0, (0.0, 0.0)), (3e-6, 0.7, (0.0, 0.0))]
EXACT = [TRANSFORMS[0], TRANSFORMS[3], *TINY[:3]]
FINE = [-0.9, -0.3, -0.06, -0.00525, -0.00475, -0.001, 0.0, 0.03, 0.5, 0.97, 1.0, 1.001, 1.00475, 1.00525, 1.4]


def transform(p, tr):
    s, a, o = tr
    rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return (s * p @ rot.T + np.array(o)).astype(np.float32).astype(float)


def decide(q, tol, exact):
    """+1 / -1 / 0 with the exact tolerance; `exact`: integer coordinates, no rounding at all."""
    a, b, c, d = (q[:, k] for k in range(4))
    t, u, sine = geo.cross_params(a, b, c, d)
    den_zero = sine < 1e-12
    m = 0.0 if exact and tol == 0 else 1e-4
    if exact and tol == 0:
        inside = (t >= 0) & (t <= 1) & (u >= 0) & (u <= 1)
        return np.where(den_zero, -1, np.where(inside, 1, -1))
    lo, hi = tol - m, tol + m
    inside = (t >= -lo) & (t <= 1 + lo) & (u >= -lo) & (u <= 1 + lo)
    outside = (t < -hi) | (t > 1 + hi) | (u < -hi) | (u > 1 + hi)
    steep = sine > 0.02
    par = (sine < 1e-5) & (geo.apart(a, b, c, d) | exact)
    if exact:
        par = den_zero
        steep = ~par
    return np.where(par, -1, np.where(steep & inside, 1, np.where(steep & outside, -1, 0)))


def smooth_ref(q, tol, alpha, act):
    a, b, c, d = (q[:, k] for k in range(4))
    t, u, sine = geo.cross_params(a, b, c, d)
    v = np.ones(len(q))
    for x in (t, u):
        v = np.minimum(v, np.minimum(act(x + tol, alpha), act(1 + tol - x, alpha)))
    return np.where(sine < 1e-12, 0.0, v), sine


def make_segments(tol, approx, alpha, fun):
    from differt2d.geometry import segments_intersect

    kw = {} if tol is None else {"tol": tol}
    if alpha is not None:
        kw["alpha"] = alpha
    if fun is not None:
        kw["function"] = fun

    def f(q):
        return segments_intersect(q[0], q[1], q[2], q[3], approx=approx, **kw)

    return f


def judge(res, case, q, got, tol, approx, alpha, act, exact):
    tolv = 0.005 if tol is None else tol
    want = decide(q, tolv, exact)
    if approx:
        if got.dtype.kind != "f":
            return res.violation(f"{got.dtype} in smooth mode", case)
        ref, sine = smooth_ref(q, tolv, alpha, act)
        flag(res, case, q, (want == 1) & ~(got >= 0.5 - 1e-3) | (want == -1) & ~(got < 0.5 + 1e-3), "wrong side of one half", got, want)
        ok = (sine > 0.05) | (exact & (sine < 1e-12))
        eps = 1e-4 + alpha * 4e-6
        flag(res, case, q, ok & ~(np.abs(got - ref) <= eps), "wrong smooth value", got, ref)
        flag(res, case, q, ~((got >= 0) & (got <= 1)), "leaves [0, 1]", got, ref)
    else:
        if got.dtype != bool:
            return res.violation(f"{got.dtype} in exact mode", case)
        flag(res, case, q, (want != 0) & (got != (want == 1)), "wrong answer", got, want)
    dec = int((want != 0).sum())
    res.add(states=len(q), transitions=dec, traces=dec, skipped=len(q) - dec)
    res.count("crossing", int((want == 1).sum()))


def flag(res, case, q, bad, msg, got, want):
    for i in np.nonzero(bad)[0][:1]:
        res.violation(f"{msg}: {got[i]}, reference {want[i]} ({int(bad.sum())} of {len(bad)})", {**case, "segments": q[i]})
    res.nviol += max(0, int(bad.sum()) - 1)


def quads(n, part, parts):
    pts = geo.lattice(n)
    idx = np.array(list(itertools.product(range(n * n), repeat=2)))
    first = idx[part::parts]
    for i in range(0, len(first), 20):
        f = first[i : i + 20]
        yield np.stack([np.repeat(pts[f[:, 0]], len(idx), 0), np.repeat(pts[f[:, 1]], len(idx), 0), np.tile(pts[idx[:, 0]], (len(f), 1)), np.tile(pts[idx[:, 1]], (len(f), 1))], axis=1)


def fine():
    out = []
    for a, b, ang, ln in itertools.product(FINE, FINE, np.arange(12) * np.pi / 12 + 0.13, (0.5, 1.0, 3.0)):
        p1, p2 = np.array([0.0, 0.0]), np.array([1.0, 0.0])
        x = p1 + a * (p2 - p1)
        d = np.array([np.cos(ang), np.sin(ang)]) * ln
        out.append([p1, p2, x - b * d, x - b * d + d])
    return np.array(out)


def shard_lattice(ctx, res, part):
    from ..core import batched

    F = funs()
    n = 5 if ctx.deep else 4
    for q0 in quads(n, part, 8):
        for tr in TRANSFORMS + TINY:
            exact = tr in EXACT
            q = transform(q0, tr)
            sets = [(t, False, None, None) for t in (None, 0.0, 0.1, 0.37, -0.07)]
            sets += [(None, True, None, "default"), (0.0, True, 40.0, "sigmoid"), (0.1, True, 2.0, "hard"), (None, True, 1000.0, "hard"), (0.2, True, 10.0, "custom")]
            for tol, approx, alpha, fn in sets:
                case = {"transform": tr, "tol": tol, "approx": approx, "alpha": alpha, "function": fn}
                fun, act = F[fn] if fn else (None, None)
                if not approx:
                    fun, alpha = None, None
                g = batched(("C09", tol, approx, alpha, fn), lambda: make_segments(tol, approx, alpha, fun), 20000)
                with res.case(case):
                    judge(res, case, q, g(q), tol, approx, 100.0 if alpha is None else alpha, act, exact)
            if res.full():
                return
    res.sample({**case, "segments": q[-1]})


def shard_fine(ctx, res, tr):
    from ..core import batched

    F = funs()
    q = transform(fine(), tr)
    for tol, approx, alpha, fn in [(None, False, None, None), (0.005, False, None, None), (0.05, False, None, None), (0.02, False, None, None), (None, True, None, "sigmoid"), (0.05, True, 7.0, "hard"), (None, True, 300.0, "custom")]:
        case = {"fine": True, "transform": tr, "tol": tol, "approx": approx, "alpha": alpha, "function": fn}
        fun, act = F[fn] if fn else (None, None)
        g = batched(("C09", tol, approx, alpha, fn), lambda: make_segments(tol, approx, alpha, fun), 20000)
        with res.case(case):
            got = g(q)
            judge(res, case, q, got, tol, approx, 100.0 if alpha is None else alpha, act, False)
            # metamorphic: swapping the segments and reversing either one
            if not approx:
                dec = decide(q, 0.005 if tol is None else tol, False) != 0
                for perm in ([2, 3, 0, 1], [1, 0, 2, 3], [0, 1, 3, 2], [3, 2, 1, 0]):
                    flag(res, {**case, "permutation": perm}, q, dec & (g(q[:, perm]) != got), "not symmetric", got, got)
                    res.add(transitions=len(q), traces=len(q))


def make_object(kind, patch, approx, alpha, fun):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Vertex, Wall

    kw = {} if patch is None else {"patch": patch}
    if approx:
        if alpha is not None:
            kw["alpha"] = alpha
        if fun is not None:
            kw["function"] = fun

    def f(q):
        if kind == "vertex":
            o = Vertex(xy=q[0])
        else:
            o = Wall(xys=q[:2]) if kind == "wall" else RIS(xys=q[:2], phi=jnp.array(0.2))
        return o.intersects_cartesian(q[2:], approx=approx, **kw)

    return f


def shard_objects(ctx, res, arg):
    from ..core import batched

    kind, tr = arg
    F = funs()
    base = np.concatenate([fine(), *(q for q in quads(3, 0, 1))])
    q = transform(base, tr)
    for patch in (None, 0.0, 0.25, 1.0, -0.25, 0.01):
        for approx, alpha, fn in ((False, None, None), (True, None, "default"), (True, 20.0, "sigmoid"), (True, 3.0, "custom")):
            fun, act = F[fn] if fn else (None, None)
            case = {"object": kind, "transform": tr, "patch": patch, "approx": approx, "alpha": alpha, "function": fn}
            g = batched(("C09o", kind, patch, approx, alpha, fn), lambda: make_object(kind, patch, approx, alpha, fun), 20000)
            with res.case(case):
                got = g(q)
                if kind == "vertex":
                    flag(res, case, q, got != 0, "a vertex obstructs", got, np.zeros(len(q)))
                    res.expect((got.dtype == bool) == (not approx), f"{got.dtype}", case)
                    res.add(states=len(q), transitions=len(q), traces=len(q))
                    continue
                t = q[:, 1] - q[:, 0]
                e = q.copy()
                e[:, 0] -= (patch or 0.0) * t
                e[:, 1] += (patch or 0.0) * t
                judge(res, case, e, got, None, approx, 100.0 if alpha is None else alpha, act, False)


def shard_forms(ctx, res, _):
    """Eager calls: tolerance and patch as arrays, positional and keyword forms."""
    import jax.numpy as jnp
    from differt2d.geometry import Wall, segments_intersect

    for a, b, tol in itertools.product(FINE, (0.5, -0.03, 1.06), (0.005, 0.05)):
        p = jnp.array([[0.0, 0.0], [1.0, 0.0], [a, -b], [a, 1.0 - b]])
        want = all(-tol <= v <= 1 + tol for v in (a, b))
        if any(abs(abs(v - 0.5) - 0.5 - tol) < 1e-4 for v in (a, b)):
            continue
        case = {"forms": (a, b, tol)}
        with res.case(case):
            got = [
                segments_intersect(*p, tol, False), segments_intersect(*p, tol=tol, approx=False), segments_intersect(*p, jnp.array(tol), approx=False),
                segments_intersect(P1=p[0], P2=p[1], P3=p[2], P4=p[3], tol=tol, approx=False),
            ]  # fmt: skip
            res.expect(all(bool(v) == want for v in got), f"{got} instead of {want}", case)
            if tol == 0.05:  # an object of unit length patched by 0.045 (plus the tolerance on its extended length)
                w = Wall(xys=p[:2])
                lim = 0.2 + 0.005 * 1.4
                inside = -lim <= a <= 1 + lim and -0.005 <= b <= 1.005
                for pt in (0.2, jnp.array(0.2)):
                    v = w.intersects_cartesian(p[2:], pt, False)
                    v2 = w.intersects_cartesian(p[2:], patch=pt, approx=False)
                    res.expect(bool(v) == inside == bool(v2), f"patched: {v} instead of {inside}", case)
            res.add(states=1, transitions=4, traces=4)


def shard(ctx, res, s):
    {"l": shard_lattice, "f": shard_fine, "o": shard_objects, "x": shard_forms}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("l", i) for i in range(8)] + [("f", t) for t in TRANSFORMS + TINY]
    jobs += [("o", (k, t)) for k in ("wall", "ris", "vertex") for t in (TRANSFORMS[:1] if k != "wall" else TRANSFORMS + TINY)] + [("x", 0)]
    run_shards(ctx, res, shard, jobs)
