"""C04: exact logic is Boolean algebra, smooth logic is its fuzzy extension."""

import itertools

import numpy as np

META = {
    "bounds": "all ordered pairs of a 17-value (thorough: 41) lattice; shapes (), (1,), (n,), (2,3), (2,1,3), (0,), Python scalars; 8 slopes; "
    "4 activations; all bit patterns of <=3 operands; all axes and axis tuples of stacks of rank <=3; 7 tolerances",
    "counting": "state = (operation, mode, slope, activation, form, operands); transition = element compared; trace = call of the real operation compared",
    "assumptions": ["single precision rounding of at most 2e-6 (relative to the slope)"],
}
CMP = {"greater": np.greater, "greater_equal": np.greater_equal, "less": np.less, "less_equal": np.less_equal}
SIGN = {"greater": 1, "greater_equal": 1, "less": -1, "less_equal": -1}
ALPHAS = [None, 0.5, 1.0, 5.0, 25.0, 100.0, 1e3, 1e5]


def values(deep):
    v = [-3.0, -1.0, -0.5, -0.25, -0.0625, -0.01, -0.001, -0.0001, 0.0]
    if deep:
        v += [-2.0, -1.5, -0.75, -0.125, -0.03125, -0.02, -0.005, -0.002, -1e-5, -7.0, -40.0, -1e3]
    return sorted({x for y in v for x in (y, -y)})


def ref_sig(x, alpha):
    return 0.5 * (1.0 + np.tanh(0.5 * alpha * x))


def ref_hard(x, alpha):
    return np.clip((alpha * x + 3.0) / 6.0, 0.0, 1.0)


def ref_soft(x, alpha):  # the custom activation below: not a function of alpha * x alone
    return 0.5 + np.arctan(alpha * x * (1.0 + 1.0 / (1.0 + alpha))) / np.pi


def custom(x, alpha):
    import jax.numpy as jnp

    return 0.5 + jnp.arctan(alpha * x * (1.0 + 1.0 / (1.0 + alpha))) / jnp.pi


def functions():
    from differt2d import logic

    return [("default", None, ref_hard), ("hard", logic.hard_sigmoid, ref_hard), ("sigmoid", logic.sigmoid, ref_sig), ("custom", custom, ref_soft)]


def check(res, got, want, case, kind, tol=2e-6, mask=None):
    got = np.asarray(got)
    want = np.asarray(want)
    res.add(states=1, transitions=max(1, want.size), traces=1)
    if got.shape != want.shape:
        return res.violation(f"shape {got.shape} instead of {want.shape}", case)
    if got.dtype.kind != kind:
        return res.violation(f"{got.dtype} instead of kind {kind!r}", case)
    bad = ~np.isclose(got.astype(float), want.astype(float), rtol=0, atol=tol)
    if mask is not None:
        bad = bad & mask
    if bad.any():
        k = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
        res.violation(f"{got[k]} instead of {want[k]} at {k} ({int(bad.sum())} of {bad.size})", case)


def forms(x, y):
    """The same operands in several containers."""
    import jax.numpy as jnp

    n = len(x)
    yield "vector", jnp.asarray(x, dtype=jnp.float32), jnp.asarray(y, dtype=jnp.float32), x, y
    m = n - n % 6
    for shape in ((m // 3, 3), (2, 1, m // 2)):
        a, b = x[:m].reshape(shape), y[:m].reshape(shape)
        yield f"shape{shape}", jnp.asarray(a, dtype=jnp.float32), jnp.asarray(b, dtype=jnp.float32), a, b
    yield "empty", jnp.zeros((0,)), jnp.zeros((0,)), x[:0], y[:0]
    yield "one", jnp.asarray(x[:1], dtype=jnp.float32), jnp.asarray(y[:1], dtype=jnp.float32), x[:1], y[:1]


def shard_cmp(ctx, res, name):
    import jax
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.defaults import DEFAULT_ALPHA

    f = getattr(logic, name)
    v = np.array(values(ctx.deep), dtype=np.float32).astype(float)
    x, y = (a.ravel() for a in np.meshgrid(v, v, indexing="ij"))
    for form, a, b, xa, ya in forms(x, y):
        case = {"op": name, "approx": False, "form": form}
        with res.case(case):
            check(res, f(a, b, approx=False), CMP[name](xa, ya), case, "b")
        with res.case(case):  # activation arguments are irrelevant in exact mode
            check(res, f(a, b, approx=False, alpha=3.0, function=logic.sigmoid), CMP[name](xa, ya), case, "b")
        for alpha, (fn, fun, ref) in itertools.product(ALPHAS, functions()):
            case = {"op": name, "approx": True, "form": form, "alpha": alpha, "function": fn}
            kw = {} if fun is None else {"function": fun}
            al = DEFAULT_ALPHA if alpha is None else alpha
            with res.case(case):
                if alpha is not None:
                    kw["alpha"] = alpha
                got = f(a, b, approx=True, **kw)
                d = SIGN[name] * (xa - ya)
                # rounding of x-y in single precision is amplified by the slope
                eps = 2e-6 + al * 1.2e-7 * np.maximum(np.abs(xa), np.abs(ya)).max(initial=0.0) * 0.3
                check(res, got, ref(d, al), case, "f", tol=min(eps, 1e-3), mask=np.abs(d) >= (0 if al < 1e3 else -1))
                g = np.asarray(got)
                res.expect(((g >= 0) & (g <= 1)).all(), "a smooth comparison leaves [0, 1]", case)
                res.expect((g[d == 0] == 0.5).all(), "not 1/2 at equality", case)
                if form == "vector":
                    h = np.asarray(f(b, a, approx=True, **kw))
                    res.expect(np.allclose(g + h, 1.0, atol=3e-6), "swapped operands are not complementary", case)
                    order = np.argsort(d, kind="stable")
                    res.expect((np.diff(g[order]) >= -3e-6).all(), "not monotone in the difference", case)
                    if al >= 1e5 and fn != "custom":
                        far = np.abs(d) > 1e-3
                        res.expect(
                            np.array_equal(g[far] > 0.999, CMP[name](xa, ya)[far]) and np.array_equal(g[far] < 0.001, ~CMP[name](xa, ya)[far]),
                            "does not tend to the exact comparison", case)  # fmt: skip
            if alpha is not None and form == "vector":  # slope as an array
                with res.case({**case, "alpha_form": "array"}):
                    kw["alpha"] = jnp.asarray(alpha)
                    check(res, f(a, b, approx=True, **kw), got, {**case, "alpha_form": "array"}, "f")
            if res.full():
                return
    for p, q in itertools.product([-1.0, -0.01, 0.0, 0.01, 1.0], repeat=2):  # Python scalars and 0-d arrays
        for conv in (float, jnp.asarray):
            for approx in (False, True):
                case = {"op": name, "approx": approx, "x": p, "y": q, "form": conv.__name__}
                with res.case(case):
                    want = CMP[name](p, q) if not approx else ref_hard(SIGN[name] * (p - q), DEFAULT_ALPHA)
                    check(res, f(conv(p), conv(q), approx=approx), want, case, "f" if approx else "b", tol=2e-5)
    # slopes batched and traced
    case = {"op": name, "form": "vmapped slope"}
    with res.case(case):
        al = jnp.array([0.5, 1.0, 5.0])
        got = jax.vmap(lambda t: f(jnp.asarray(x, dtype=jnp.float32), jnp.asarray(y, dtype=jnp.float32), approx=True, alpha=t))(al)
        check(res, got, np.stack([ref_hard(SIGN[name] * (x - y), t) for t in (0.5, 1.0, 5.0)]), case, "f", tol=2e-5)
    res.sample({"op": name, "pairs": len(x)})


def shard_activation(ctx, res, _):
    import jax.numpy as jnp
    from differt2d import logic
    from differt2d.defaults import DEFAULT_ALPHA

    x = np.array(values(ctx.deep), dtype=np.float32).astype(float)
    a = jnp.asarray(x, dtype=jnp.float32)
    for alpha in ALPHAS[1:]:
        for f, ref in ((logic.sigmoid, ref_sig), (logic.hard_sigmoid, ref_hard)):
            case = {"op": f.__name__, "alpha": alpha}
            with res.case(case):
                check(res, f(a, alpha), ref(x, alpha), case, "f", tol=3e-6)
                check(res, f(0.25, alpha), ref(0.25, alpha), case, "f", tol=3e-6)
    for alpha, (fn, fun, ref) in itertools.product(ALPHAS, functions()):
        case = {"op": "activation", "alpha": alpha, "function": fn}
        with res.case(case):
            kw = {} if fun is None else {"function": fun}
            if alpha is not None:
                kw["alpha"] = alpha
            al = DEFAULT_ALPHA if alpha is None else alpha
            check(res, logic.activation(a, **kw), ref(x, al), case, "f", tol=3e-6)
            check(res, logic.activation(a.reshape(1, -1), **kw), ref(x, al).reshape(1, -1), case, "f", tol=3e-6)


def shard_connectives(ctx, res, _):
    import jax.numpy as jnp
    from differt2d import logic

    bits = np.array(list(itertools.product([False, True], repeat=2)))
    n = 17 if ctx.deep else 9
    lat = np.linspace(0.0, 1.0, n, dtype=np.float32)
    fx, fy = (a.ravel() for a in np.meshgrid(lat, lat, indexing="ij"))
    for name, ex, sm in (("logical_or", np.logical_or, np.maximum), ("logical_and", np.logical_and, np.minimum)):
        f = getattr(logic, name)
        bx, by = bits.T
        for shape in ((4,), (2, 2), (2, 1, 2), (4, 1)):
            case = {"op": name, "shape": shape}
            with res.case(case):
                check(res, f(jnp.asarray(bx.reshape(shape)), jnp.asarray(by.reshape(shape)), approx=False), ex(bx, by).reshape(shape), case, "b")
                s = f(jnp.asarray(bx.reshape(shape), dtype=jnp.float32), jnp.asarray(by.reshape(shape), dtype=jnp.float32), approx=True)
                check(res, s, ex(bx, by).reshape(shape), {**case, "approx": True}, "f")
        for p, q in bits.tolist():
            for conv in (bool, jnp.asarray):
                case = {"op": name, "x": p, "y": q, "form": conv.__name__}
                with res.case(case):
                    check(res, f(conv(p), conv(q), approx=False), ex(p, q), case, "b")
                    check(res, f(float(p), float(q), approx=True), ex(p, q), {**case, "approx": True}, "f")
        case = {"op": name, "approx": True, "lattice": n}
        with res.case(case):
            check(res, f(jnp.asarray(fx), jnp.asarray(fy), approx=True), sm(fx, fy), case, "f")
            check(res, f(jnp.asarray(fx.reshape(n, n)), jnp.asarray(fy.reshape(n, n)), approx=True), sm(fx, fy).reshape(n, n), case, "f")
    for shape in ((n,), (1, n), (n, 1)):
        case = {"op": "logical_not", "shape": shape}
        with res.case(case):
            check(res, logic.logical_not(jnp.asarray(lat.reshape(shape)), approx=True), 1.0 - lat.reshape(shape), case, "f")
            check(res, logic.logical_not(jnp.asarray(lat.reshape(shape) > 0.5), approx=False), ~(lat.reshape(shape) > 0.5), case, "b")
    for b in (False, True):
        case = {"op": "scalar", "value": b}
        with res.case(case):
            check(res, logic.logical_not(b, approx=False), not b, case, "b")
            check(res, logic.logical_not(float(b), approx=True), 1.0 - b, case, "f")
            check(res, logic.is_true(b, approx=False), b, case, "b")
            check(res, logic.is_false(b, approx=False), not b, case, "b")
            check(res, logic.is_true(float(b), approx=True), b, case, "b")
            check(res, logic.is_false(float(b), approx=True), not b, case, "b")
    case = {"op": "constants"}
    with res.case(case):
        for v, f in ((True, logic.true_value), (False, logic.false_value)):
            check(res, f(approx=False), v, case, "b")
            check(res, f(approx=True), float(v), case, "f")
    # truth tests: strict thresholds at 1 - tol and tol
    for tol in (None, 0.0625, 0.125, 0.25, 0.5, 0.75, 1.0):
        t = 0.5 if tol is None else tol
        xs = np.linspace(0.0, 1.0, 33, dtype=np.float32)
        kw = {} if tol is None else {"tol": tol}
        for shape in ((33,), (3, 11)):
            case = {"op": "is_true/is_false", "tol": tol, "shape": shape}
            with res.case(case):
                a = jnp.asarray(xs.reshape(shape))
                check(res, logic.is_true(a, approx=True, **kw), (xs > 1 - t).reshape(shape), case, "b")
                check(res, logic.is_false(a, approx=True, **kw), (xs < t).reshape(shape), case, "b")
                if tol is not None:
                    check(res, logic.is_true(a, jnp.asarray(tol), True), (xs > 1 - t).reshape(shape), case, "b")
                b = jnp.asarray(xs.reshape(shape) > 0.3)
                check(res, logic.is_true(b, approx=False, **kw), xs.reshape(shape) > 0.3, case, "b")
                check(res, logic.is_false(b, approx=False, **kw), ~(xs.reshape(shape) > 0.3), case, "b")


def shard_reduce(ctx, res, name):
    import jax.numpy as jnp
    from differt2d import logic

    f = getattr(logic, name)
    ex, sm = (np.all, np.min) if name == "logical_all" else (np.any, np.max)
    shapes = [(), (2,), (2, 2)] + ([(1,), (3,), (2, 1)] if ctx.deep else [(3,)])
    for k in (1, 2, 3):
        for shape in shapes:
            rank = len(shape) + 1
            size = k * int(np.prod(shape, dtype=int))
            if size > (12 if ctx.deep else 8):
                continue
            axes = [None] + list(range(-rank, rank))
            axes += [c for r in range(2, rank + 1) for c in itertools.combinations(range(rank), r)]
            allbits = np.array(list(itertools.product([False, True], repeat=size))).reshape(-1, k, *shape)
            ranks = np.linspace(0.0, 1.0, size + 1)[1:]
            # all bit patterns; in smooth mode also graded values (every rotation of a ranking)
            graded = np.array([np.roll(ranks, r) for r in range(size)] + [np.roll(ranks[::-1], r) for r in range(size)]).reshape(-1, k, *shape)
            for axis in axes:
                for approx, data, red, kind in ((False, allbits, ex, "b"), (True, allbits.astype(np.float32), sm, "f"), (True, graded.astype(np.float32), sm, "f")):
                    for d in data:
                        case = {"op": name, "operands": k, "shape": shape, "axis": axis, "approx": approx, "x": d}
                        with res.case(case):
                            args = [jnp.asarray(v) for v in d]
                            kw = {} if axis is None else {"axis": axis}
                            check(res, f(*args, approx=approx, **kw), red(d, axis=axis), case, kind, tol=1e-7)
                        if res.full():
                            return
    for k in (1, 2, 3, 4):
        for p in itertools.product([False, True], repeat=k):  # Python scalars
            case = {"op": name, "scalars": p}
            with res.case(case):
                check(res, f(*p, approx=False), ex(p), case, "b")
                check(res, f(*[float(v) for v in p], approx=True), float(ex(p)), case, "f")


def shard(ctx, res, s):
    {"cmp": shard_cmp, "act": shard_activation, "con": shard_connectives, "red": shard_reduce}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    run_shards(ctx, res, shard, [("cmp", n) for n in CMP] + [("red", "logical_all"), ("red", "logical_any"), ("con", 0), ("act", 0)])
