"""C08: smooth validity is the fuzzy conjunction and approximates the exact verdict."""

import itertools

import numpy as np

from .. import valid
from .c04 import custom, ref_hard, ref_sig, ref_soft

META = {
    "bounds": "the paths and scenes of C07 (orders 0-4) x 7 slopes x 4 activations (default, hard, sigmoid, user-given) x losses, tolerances, patches",
    "counting": "state = (path, objects, candidate, slope, activation, loss, tolerance, patch); transition = value compared (three conditions, conjunction, threshold); trace = path judged by the real code",
    "assumptions": ["nearly parallel leg/object pairs (sine < 0.05) are skipped for exact values"],
}
# alpha, function, loss, tol, patch
SETTINGS = [
    (None, "default", 0.0, None, None),
    (7.0, "sigmoid", 0.3, 0.5, 0.25),
    (1e5, "hard", 0.0, None, None),
    (30.0, "custom", 0.004, None, -0.25),
    (1e5, "sigmoid", 0.6, 0.5, 0.25),
    (100.0, "sigmoid", 0.0, None, None),
    (0.8, "hard", 0.05, 0.01, 0.0),
    (1000.0, "hard", 0.0, 0.2, 1.0),
    (None, "custom", 0.0, 0.05, None),
]


def funs():
    from differt2d import logic

    return {"default": (None, ref_hard), "hard": (logic.hard_sigmoid, ref_hard), "sigmoid": (logic.sigmoid, ref_sig), "custom": (custom, ref_soft)}


def make(order, m, fun, alpha, tol, patch):
    import jax.numpy as jnp
    from differt2d.geometry import Path, Wall
    from differt2d.logic import is_true

    act = {}
    if fun is not None:
        act["function"] = fun
    if alpha is not None:
        act["alpha"] = alpha

    def f(pts, ws, cand, loss):
        objs = [Wall(xys=ws[i]) for i in range(m)]
        inter = [Wall(xys=ws[cand[i]]) for i in range(order)]
        p = Path(xys=pts, loss=loss)
        pk = {} if patch is None else {"patch": patch}
        tk = {} if tol is None else {"tol": tol}
        v = p.is_valid(objs, cand, inter, **tk, **pk, approx=True, **act)
        return (v, p.on_objects(inter, approx=True, **act), p.intersects_with_objects(objs, cand, **pk, approx=True, **act), is_true(v, approx=True), jnp.asarray(0.0))

    return f


def shard_batch(ctx, res, arg):
    from ..core import batched

    order, part, parts = arg
    size = 20000
    F = funs()
    for m, pts, walls, cand in valid.batches(order, ctx.deep, part, parts, size):
        pts = pts.astype(np.float32).astype(float)
        sets = SETTINGS if order <= 1 or ctx.deep else SETTINGS[:5]
        for alpha, fn, loss, tol, patch in sets:
            fun, ref = F[fn]
            case = {"order": order, "objects": m, "alpha": alpha, "function": fn, "loss": loss, "tol": tol, "patch": patch}
            g = batched(("C08", order, m, fn, alpha, tol, patch), lambda: make(order, m, fun, alpha, tol, patch), size)
            with res.case(case):
                L = np.full(len(pts), loss)
                v, on, hit, yes, _ = g(pts, walls, cand, L)
                al = 100.0 if alpha is None else alpha
                t = 0.01 if tol is None else tol
                ron, rhit, rlow, rv, smin = valid.smooth(pts, walls, cand, L, t, patch or 0.0, al, ref)
                exact = valid.verdicts(pts, walls, cand, L, t, patch or 0.0)[3]
                ok = smin > 0.05
                eps = 2e-5 + al * 6e-6
                for name, got, want in (("is_valid", v, rv), ("on_objects", on, ron), ("intersects_with_objects", hit, rhit)):
                    if got.dtype.kind != "f":
                        res.violation(f"{name} is {got.dtype} in smooth mode", case)
                        continue
                    report(res, case, pts, walls, cand, ~((got >= 0) & (got <= 1)), f"{name} leaves [0, 1]", got, want)
                    if eps < 0.01:
                        report(res, case, pts, walls, cand, ok & (np.abs(got - want) > eps), f"{name} differs", got, want)
                report(res, case, pts, walls, cand, (exact == 1) & ~(v > 0.5), "not above one half for a valid path", v, rv)
                report(res, case, pts, walls, cand, (exact == -1) & ~(v < 0.5), "not below one half for an invalid path", v, rv)
                report(res, case, pts, walls, cand, (exact != 0) & (yes != (exact == 1)), "is_true() disagrees with the exact verdict", yes, exact)
                if al >= 1e5:
                    report(res, case, pts, walls, cand, (exact == 1) & (v < 0.99), "does not tend to valid", v, rv)
                    report(res, case, pts, walls, cand, (exact == -1) & (v > 0.01), "does not tend to invalid", v, rv)
                res.add(states=len(pts), transitions=4 * int(ok.sum()) + int((exact != 0).sum()), traces=len(pts), skipped=int((~ok).sum()))
                res.count("graded_values", int(((rv > 0.01) & (rv < 0.99)).sum()))
            if res.full():
                return
    res.sample({**case, "points": pts[-1], "walls": walls[-1], "candidate": cand[-1], "validity": v[-1]})


def report(res, case, pts, walls, cand, bad, msg, got, want):
    for i in np.nonzero(bad)[0][:1]:
        res.violation(f"{msg}: {got[i]} (reference {want[i]}), {int(bad.sum())} of {len(bad)}", {**case, "points": pts[i], "walls": walls[i], "candidate": cand[i]})
    res.nviol += max(0, int(bad.sum()) - 1)


def shard_mixed(ctx, res, part):
    """Eager calls with vertices and surfaces among walls, keyword forms and NaN losses."""
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Path, Vertex, Wall

    W = [np.array(w, dtype=float) for w in ([[0, 0], [3, 0]], [[1, 1], [2, 1]], [[2, 2.5], [2, 0.5]])]
    F = funs()
    nodes = [(0.4, 1.6), (2.7, 1.3), (1.4, 0.3)]
    for kinds in list(itertools.product("WVR", repeat=3))[part::8]:
        objs = [Vertex(xy=jnp.array(W[i][1])) if k == "V" else (Wall if k == "W" else RIS)(xys=jnp.array(W[i])) for i, k in enumerate(kinds)]
        real = [i for i, k in enumerate(kinds) if k != "V"]
        for cand in [()] + [(i,) for i in range(3)] + list(itertools.permutations(range(3), 2)):
            for (a, b), t, fn in itertools.product(itertools.permutations(nodes, 2), (0.3, 1.02), ("sigmoid", "custom")):
                fun, ref = F[fn]
                P = np.array([a, *(W[j][1] if kinds[j] == "V" else W[j][0] + t * (W[j][1] - W[j][0]) for j in cand), b])
                # reference: vertices neither obstruct nor constrain
                al = 20.0
                loss = float("nan") if fn == "custom" and t > 1 else 0.02
                on = min([1.0] + [float(min(ref(t, al), ref(1 - t, al))) for j in cand if kinds[j] != "V"])
                hit, smin = 0.0, 1.0
                for i in range(len(P) - 1):
                    for j in real:
                        if (i > 0 and cand[i - 1] == j) or (i < len(cand) and cand[i] == j):
                            continue
                        x, y, sine = valid.geo.cross_params(W[j][0], W[j][1], P[i], P[i + 1])
                        smin = min(smin, float(sine))
                        hit = max(hit, min(float(ref(q, al)) for q in (x + 0.005, 1.005 - x, y + 0.005, 1.005 - y)))
                want = 0.0 if np.isnan(loss) else min(on, 1 - hit, float(ref(0.01 - loss, al)))
                case = {"kinds": kinds, "candidate": cand, "points": P, "function": fn, "loss": loss}
                with res.case(case):
                    v = Path(xys=jnp.array(P), loss=jnp.array(loss)).is_valid(objs, jnp.array(cand, dtype=int), [objs[j] for j in cand], approx=True, alpha=al, function=fun)
                    res.expect(smin < 0.05 or abs(float(v) - want) < 1e-3, f"{v} instead of {want}", case)
                    res.add(states=1, transitions=1, traces=1, skipped=int(smin < 0.05))
                if res.full():
                    return


def shard(ctx, res, s):
    (shard_mixed if s[0] == "mixed" else shard_batch)(ctx, res, s[1] if s[0] == "mixed" else s)


def run(ctx, res):
    from ..core import run_shards

    jobs = [(o, i, k) for o, k in ((0, 2), (1, 8), (2, 12), (3, 3), (4, 3)) for i in range(k)]
    run_shards(ctx, res, shard, jobs[::-1] + [("mixed", i) for i in range(8)])
