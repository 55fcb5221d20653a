"""C20: path length and received power follow their laws."""

import itertools

import numpy as np

from ..core import batched

META = {
    "bounds": "all point tuples of 2-4 points of a 4x4 lattice (thorough: 5 points, 5x5) under 5 scalings, with repeated points; 8 coefficients (negative and above one too) x 7 heights x 0-4 (and up to 300) interactions; "
    "all monotonicity chains between neighbours of the enumeration; the ignored arguments varied over nodes, objects and loss; 4 path classes",
    "counting": "state = (points, coefficient, height); transition = law compared; trace = real evaluation",
    "assumptions": ["single precision rounding of at most 3e-6 relative"],
}
SCALES = [(1.0, 0.0), (1e-4, 0.0), (1e4, 0.0), (0.25, 100.0), (-3.0, -7.0)]
COEFS = [None, 0.0, 0.1, 0.5, 0.77, 1.0, -0.4, 1.5]
HEIGHTS = [None, 1e-3, 0.05, 0.1, 0.7, 5.0, 40.0]


def tuples(n, deep):
    side = 5 if deep and n < 4 else 4
    lat = np.array(list(itertools.product(range(side), repeat=2)), dtype=float)
    c = np.array(list(itertools.product(range(len(lat)), repeat=n)))
    cap = 66000 if deep else 17000
    if len(c) > cap:
        step = len(c) // cap + 1
        step += 1 - step % 2
        c = c[::step]
    return lat[c] * np.array([1.0, 0.75]) + np.array([0.1, -0.3])


def length(p):
    return np.sqrt((np.diff(p, axis=1) ** 2).sum(-1)).sum(-1)


def shard_length(ctx, res, arg):
    from differt2d import geometry as G

    n, (scale, off) = arg
    p = (tuples(n, ctx.deep) * scale + off).astype(np.float32)
    want = length(p.astype(float))
    tol = 3e-6 * want + 1e-6 * np.abs(p).max() * (off != 0)
    fs = {"path_length": lambda: G.path_length}
    for cls in ("Path", "ImagePath", "FermatPath", "MinPath"):
        fs[cls] = lambda cls=cls: lambda x: getattr(G, cls)(xys=x).length()
    fs["reversed"] = lambda: lambda x: G.path_length(x[::-1])
    for name, mk in fs.items():
        case = {"function": name, "points": n, "scale": scale}
        with res.case(case):
            got = batched((name, n), mk, 8192)(p)
            bad = ~(np.abs(got - want) <= tol) | (got < 0) if got.shape == want.shape else np.ones(len(p), dtype=bool)
            res.add(states=len(p), transitions=len(p) * (n - 1), traces=len(p))
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                res.violation(f"length {got[i]} instead of {want[i]} ({bad.sum()} of {len(p)})", {**case, "data": p[i]})
    res.sample(case)


def shard_power(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d import utils
    from differt2d.geometry import ImagePath, MinPath, Path, Point, Wall

    n, part, parts = arg
    p = tuples(n, False)
    p = p[part :: parts * (1 if ctx.deep else 4)].astype(np.float32)
    want_r = length(p.astype(float))
    objs = [Wall(xys=jnp.array([[0.0, 1.0 + i], [2.0, 1.0]])) for i in range(n - 2)]

    def make(cls, c, h, form):
        def f(x):
            tx, rx = Point(xy=x[0]), Point(xy=x[-1])
            if form == "kw":
                kw = {} if c is None else {"r_coef": c}
                kw.update({} if h is None else {"height": h})
                return utils.received_power(tx, rx, cls(xys=x), objs, **kw)
            return utils.received_power(tx, rx, cls(xys=x), objs, *([0.5 if c is None else c] if c is not None or h is not None else []), *([] if h is None else [h]))

        return f

    values = {}
    for k, (c, h) in enumerate(itertools.product(COEFS, HEIGHTS)):
        cls = (Path, ImagePath, MinPath)[k % 3]
        form = ("kw", "pos")[k % 2]
        case = {"points": n, "r_coef": c, "height": h, "form": form}
        with res.case(case):
            got = batched((n, c, h, "power"), lambda: make(cls, c, h, form), 4096)(p)
            cc, hh = 0.5 if c is None else c, 0.1 if h is None else h
            want = cc ** (n - 2) / (hh * hh + want_r**2)
            values[c, h] = got
            res.add(states=len(p), transitions=len(p), traces=len(p))
            bad = ~(np.abs(got - want) <= 5e-6 * np.abs(want) + 1e-30)
            if cc > 0:
                bad |= ~(got > 0)
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                res.violation(f"power {got[i]} instead of {want[i]} ({bad.sum()} of {len(p)})", {**case, "data": p[i]})
            # decreasing with the length
            o = np.argsort(want_r, kind="stable")
            wo, go = np.abs(want[o]), np.abs(got[o])
            up = (np.diff(wo) < -2e-5 * wo[1:]) & ~(np.diff(go) < 0)
            if up.any():
                i = int(np.nonzero(up)[0][0])
                res.violation(f"power {got[o][i + 1]} at length {want_r[o][i + 1]}, {got[o][i]} at {want_r[o][i]}", case)
        if res.full():
            return
    res.sample(case)


def shard_laws(ctx, res, _):
    """Independence of the other arguments, one coefficient per interaction, constants."""
    import jax
    import jax.numpy as jnp
    from differt2d import defaults, utils
    from differt2d.geometry import RIS, ImagePath, Path, Point, Vertex, Wall

    res.expect(utils.P0 == 100.0 and defaults.DEFAULT_R_COEF == 0.5 and defaults.DEFAULT_HEIGHT == 0.1, "constants", {"P0": utils.P0})
    nodes = [Point(xy=jnp.array(v)) for v in ([0.0, 0.0], [3.0, 4.0], [-1e3, 7.0], [jnp.nan, jnp.inf])]
    w = Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]]))
    lists = [[], [w], [w, w], (w,), [Vertex(xy=jnp.zeros(2))], [RIS(xys=w.xys), w, w]]
    for n in range(0, 5):
        xys = jnp.array([[0.3 * i, 0.2 * i * i] for i in range(n + 2)])
        r = length(np.asarray(xys)[None].astype(float))[0]
        for tx, rx, objs, loss in itertools.product(nodes, nodes, lists, (0.0, 3.0, jnp.nan)):
            if not ctx.deep and (nodes.index(tx) + 2 * nodes.index(rx) + lists.index(objs)) % 3:
                continue
            case = {"interactions": n, "tx": tx.xy, "rx": rx.xy, "objects": len(objs), "loss": loss}
            with res.case(case):
                p = utils.received_power(tx, rx, Path(xys=xys, loss=jnp.array(loss)), objs)
                res.expect(np.shape(p) == () and abs(float(p) - 0.5**n / (0.01 + r * r)) < 1e-5 * float(p), f"{p} instead of {0.5**n / (0.01 + r * r)}", case)
                res.add(states=1, transitions=1, traces=1)
        # one more interaction in the middle of a leg multiplies by the coefficient
        for c, h in itertools.product((0.0, 0.3, 0.5, 0.9, 1.0, -0.7, 2.5), (0.05, 0.1, 2.0)):
            case = {"interactions": n, "r_coef": c, "height": h}
            with res.case(case):
                more = jnp.concatenate([xys[:1], 0.5 * (xys[:1] + xys[1:2]), xys[1:]])
                a, b = (float(utils.received_power(nodes[0], nodes[1], ImagePath(xys=x), [w] * (len(x) - 2), r_coef=c, height=h)) for x in (xys, more))
                res.expect(abs(b - c * a) <= 2e-6 * abs(a), f"{b} after one more interaction, {a} before", case)
                t = jax.jit(lambda x, c, h: utils.received_power(nodes[0], nodes[1], Path(xys=x), [w], c, h))(xys, c, h)
                res.expect(abs(float(t) - a) <= 2e-6 * abs(a), f"{t} compiled, {a} eager", case)
                res.add(states=1, transitions=3, traces=3)
    # long paths
    for n in (9, 17, 33, 64, 129, 300):
        xys = np.array([[0.25 * (i % 3), 0.125 * i] for i in range(n)])
        r = length(xys[None])[0]
        for c, h in ((None, None), (1.0, 0.1), (-1.0, 0.5), (0.98, 0.0), (1.01, 3.0)):
            case = {"points": n, "r_coef": c, "height": h}
            with res.case(case):
                p = Path(xys=jnp.asarray(xys))
                res.expect(abs(float(p.length()) - r) < 1e-5 * r, f"length {p.length()} instead of {r}", case)
                v = float(utils.received_power(nodes[0], nodes[1], p, [w], **({} if c is None else {"r_coef": c, "height": h})))
                want = (0.5 if c is None else c) ** (n - 2) / ((0.1 if h is None else h) ** 2 + r * r)
                res.expect(abs(v - want) <= 1e-4 * abs(want) + 1e-37, f"power {v} instead of {want}", case)
                res.add(states=1, transitions=2, traces=2)
    # zero distance
    for q, kw in itertools.product(([0.0, 0.0], [2.5, -1.0]), ({}, {"r_coef": 0.1}, {"r_coef": 0.5, "height": 0.1}, {"height": 0.1})):
        case = {"zero distance at": q, "options": kw}
        with res.case(case):
            x = Point(xy=jnp.array(q))
            p = utils.received_power(x, x, Path(xys=jnp.array([q, q])), [], **kw)
            res.expect(abs(float(p) - utils.P0) < 1e-4, f"{p} instead of {utils.P0}", case)
            res.add(states=1, transitions=1, traces=1)
    res.expect(float(utils.received_power(x, x, Path(xys=jnp.array([[1.0, 1.0], [1.0, 1.0]])), [], height=2.0)) == 0.25, "height at zero distance", {})
    # integer parameters are numbers, too
    for c, h in ((1, 1), (0, 2), (1, 0)):
        with res.case({"r_coef": c, "height": h}):
            p = float(utils.received_power(x, x, Path(xys=jnp.array([[0.0, 0.0], [2.0, 0.0], [2.0, 2.0]])), [w], c, h))
            res.expect(abs(p - c / (h * h + 16.0)) < 1e-6, f"{p}", {"r_coef": c, "height": h})
    res.sample(case)


def dispatch(ctx, res, s):
    {"l": shard_length, "p": shard_power, "x": shard_laws}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    ns = (2, 3, 4, 5) if ctx.deep else (2, 3, 4)
    jobs = [("x", None)] + [("p", (n, i, 3)) for n in (2, 3, 4, 5, 6)[: 5 if ctx.deep else 4] for i in range(3 if ctx.deep else 1)] + [("l", (n, s)) for n in ns for s in SCALES]
    run_shards(ctx, res, dispatch, jobs)
