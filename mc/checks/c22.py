"""C22: rotating a ray is a rigid rotation about the requested point."""

import itertools

import numpy as np

from ..core import batched

META = {
    "bounds": "all directed segments (degenerate ones included) of a 3x3 (thorough: 4x4) lattice under 5 placements (sizes 1e-4 to 1e5) x 37 angles (multiples of 15 degrees beyond a full turn both ways, and odd ones) x 7 centres, for rays, walls and surfaces; "
    "every form of the centre (none, array, numpy array, list, point, vertex, end point) x every form of the angle x 5 kinds x eager and compiled on smaller sets",
    "counting": "state = (segment, angle, centre); transition = end point compared; trace = rotation by the real code",
    "assumptions": ["single precision rounding", "a result that is exactly the known wrong one (see the finding) is not reported again as a violation"],
}
KEY = "rotate-mixes-coordinates"
ANGLES = [k * np.pi / 12 for k in range(-14, 15)] + [k * np.pi for k in (-7, -4, 3, 10)] + [0.1, 1.0, -2.5, 4.0]
CENTRES = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 2.0), (-3.0, 0.5), (0.37, -0.21), (100.0, -40.0)]
PLACES = [(1.0, 0.0, 0.0), (0.05, 0.3, 0.2), (7.0, -20.0, 11.0), (1e-4, 0.0, 0.0), (3e4, 0.0, -6e4)]


def rot(angle):
    return np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])


def judge(res, seg, angle, centre, got, case):
    """seg, got: (n, 2, 2); angle: (n,); centre: (n, 2)."""
    r = np.stack([np.stack([np.cos(angle), -np.sin(angle)], -1), np.stack([np.sin(angle), np.cos(angle)], -1)], -2)
    rel = seg - centre[:, None]
    want = np.einsum("nij,npj->npi", r, rel) + centre[:, None]
    wrong = np.einsum("npj,nji->npi", r, rel) + centre[:, None]
    if got.shape != want.shape:
        res.violation(f"shape {got.shape}", case)
        return
    tol = 3e-6 * (1 + np.abs(angle)) * (np.abs(rel).max((1, 2)) + np.abs(centre).max(1)) + 1e-30
    ok = (np.abs(got - want) <= tol[:, None, None]).all((1, 2))
    known = ~ok & (np.abs(got - wrong) <= tol[:, None, None]).all((1, 2))
    if known.any():
        res.finding(KEY)
    res.count("known_wrong_results", known.sum())
    res.count("right_results", ok.sum())
    bad = ~ok & ~known
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        res.violation(
            f"rotated to {got[i].tolist()} instead of {want[i].tolist()} ({bad.sum()} of {len(bad)})",
            {**case, "segment": seg[i], "angle": angle[i], "centre": centre[i]},
        )
    res.add(states=len(seg), transitions=2 * len(seg), traces=len(seg))


def segs(deep, place):
    k, x, y = place
    side = 4 if deep else 3
    lat = np.array(list(itertools.product(range(side), repeat=2)), dtype=float) * np.array([1.0, 0.75])
    c = np.array(list(itertools.product(range(len(lat)), repeat=2)))
    return (lat[c] * k + np.array([x, y])).astype(np.float32).astype(float)


def shard_bulk(ctx, res, arg):
    from differt2d import geometry as G

    kind, pi = arg
    s = segs(ctx.deep, PLACES[pi])
    idx = np.array(list(itertools.product(range(len(s)), range(len(ANGLES)), range(len(CENTRES)))))
    seg, ang, cen = s[idx[:, 0]], np.array(ANGLES)[idx[:, 1]], np.array(CENTRES)[idx[:, 2]]
    if pi > 2:  # everything is very small, or very large
        cen = cen * PLACES[pi][0]
    cen = cen.astype(np.float32).astype(float)
    ang = ang.astype(np.float32).astype(float)
    kw = {"phi": 0.3} if kind == "RIS" else {}
    cls = getattr(G, kind)
    forms = {
        "array": lambda: lambda x, a, c: cls(xys=x, **kw).rotate(a, c).xys,
        "point": lambda: lambda x, a, c: cls(xys=x, **kw).rotate(angle=a, around=G.Point(xy=c)).xys,
        "vertex": lambda: lambda x, a, c: cls(xys=x, **kw).rotate(a, around=G.Vertex(xy=c)).xys,
    }
    for name, mk in forms.items():
        case = {"kind": kind, "centre as": name, "placement": PLACES[pi]}
        with res.case(case):
            judge(res, seg, ang, cen, batched((kind, name), mk, 16384)(seg, ang, cen), case)
    case = {"kind": kind, "centre as": "none", "placement": PLACES[pi]}
    with res.case(case):
        first = idx[:, 2] == 0
        g = batched((kind, "none"), lambda: lambda x, a: cls(xys=x, **kw).rotate(a).xys, 16384)(seg[first], ang[first])
        judge(res, seg[first], ang[first], 0 * cen[first], g, case)
    for end in (0, 1):
        case = {"kind": kind, "centre as": f"end {end}", "placement": PLACES[pi]}
        with res.case(case):
            mk = lambda end=end: lambda x, a: (lambda w: w.rotate(a, [w.origin(), w.dest()][end]).xys)(cls(xys=x, **kw))  # noqa: E731
            g = batched((kind, end), mk, 16384)(seg[first], ang[first])
            judge(res, seg[first], ang[first], seg[first][:, end], g, case)
    res.sample(case)


def shard_forms(ctx, res, arg):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G

    class Tagged(G.Wall):
        tag: str = eqx.field(default="x", static=True)
        extra: jax.Array = eqx.field(default_factory=lambda: jnp.array([1.5, -2.5]))

    kinds = {
        "Ray": lambda x: G.Ray(xys=x),
        "Wall": lambda x: G.Wall(xys=x),
        "RIS": lambda x: G.RIS(xys=x),
        "RIS'": lambda x: G.RIS(xys=x, phi=-1.1),
        "Tagged": lambda x: Tagged(xys=x, tag="me", extra=jnp.array([3.0, 4.0])),
    }
    centres = {
        "none": lambda c: None,
        "array": jnp.array,
        "point": lambda c: G.Point(xy=jnp.array(c)),
        "vertex": lambda c: G.Vertex(xy=jnp.array(c)),
        "numpy": lambda c: np.array(c, dtype=np.float32),
    }
    angles = {"float": float, "array": lambda a: jnp.array(a, dtype=float), "numpy": np.float32}
    turn = eqx.filter_jit(lambda w, *args: w.rotate(*args))
    s = segs(False, PLACES[arg % 3])
    s = s[1 :: 7 if ctx.deep else 27]
    for kn, cn, an in itertools.product(kinds, centres, angles):
        for x, a, c, jit in itertools.product(s, [0.0, np.pi, -np.pi, 3 * np.pi, np.pi / 2, 0.7], [(0.0, 0.0), (0.5, 2.0)], (False, True)):
            if cn == "none" and c != (0.0, 0.0):
                continue
            case = {"kind": kn, "centre as": cn, "angle as": an, "segment": x, "angle": a, "centre": c, "jit": jit}
            with res.case(case):
                w = kinds[kn](jnp.asarray(x, dtype=float))
                before = jax.tree_util.tree_map(np.array, w)
                pc = centres[cn](c)
                args = (angles[an](a),) if pc is None else (angles[an](a), pc)
                if jit:
                    out = turn(w, *args)
                else:
                    out = w.rotate(*args)
                ok = type(out) is type(w) and out is not w
                res.expect(ok, lambda: f"a {type(out)} instead of a {type(w)}", case)
                same = all(np.array_equal(u, v) for u, v in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(w)))
                res.expect(same, "the original was changed", case)
                for f in w.__dataclass_fields__:
                    if f != "xys":
                        u, v = getattr(w, f), getattr(out, f)
                        good = u == v if isinstance(u, str) else np.array_equal(np.asarray(u), np.asarray(v))
                        res.expect(good, lambda: f"{f} became {v} instead of {u}", case)
                if pc is not None:
                    now = np.asarray(pc.xy if hasattr(pc, "xy") else pc)
                    res.expect(np.array_equal(now, np.array(c, dtype=now.dtype)), "the centre was changed", case)
                judge(res, x[None], np.array([np.float32(a)], dtype=float), np.array([c]), np.asarray(out.xys)[None], case)
        if res.full():
            return
    res.sample(case)


def shard_laws(ctx, res, arg):
    """Consecutive turns: every ordered pair of half turns about pairs of centres, where the result is known exactly."""
    from differt2d import geometry as G

    s = segs(False, PLACES[0])[1::5]
    for (c1, c2), (k1, k2) in itertools.product(itertools.product(CENTRES[:6], repeat=2), itertools.product((-1, 0, 1, 2, 3), repeat=2)):
        case = {"centres": [c1, c2], "half turns": [k1, k2]}
        with res.case(case):
            mk = lambda: lambda x, a, b, p, q: G.Wall(xys=x).rotate(a, p).rotate(b, G.Point(xy=q)).xys  # noqa: E731
            n = len(s)
            p, q = np.tile(c1, (n, 1)), np.tile(c2, (n, 1))
            g = batched("laws", mk, 32)(s, np.full(n, k1 * np.pi), np.full(n, k2 * np.pi), p, q)
            w = (s - p[:, None]) * (-1) ** k1 + p[:, None]
            w = (w - q[:, None]) * (-1) ** k2 + q[:, None]
            ok = g.shape == w.shape and np.abs(g - w).max() < 2e-5
            res.expect(ok, lambda: f"{g.tolist()} instead of {w.tolist()}", case)
            res.add(states=n, transitions=2 * n, traces=n)
    res.sample(case)


def dispatch(ctx, res, s):
    {"bulk": shard_bulk, "forms": shard_forms, "laws": shard_laws}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("forms", i) for i in range(3 if ctx.deep else 2)] + [("laws", 0)]
    jobs += [("bulk", (k, i)) for k in ("RIS", "Wall", "Ray") for i in range(len(PLACES))]
    run_shards(ctx, res, dispatch, jobs)
