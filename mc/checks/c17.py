"""C17: the minimizer follows its optimizer and reports its own loss."""

import itertools

import numpy as np

X64 = True
META = {
    "bounds": "7 objectives x 1-3 unknowns x starts of a 3-5 point lattice x 10 optimizers x 9 step counts (0-100, default) against double-precision reference trajectories; "
    "random starts for 32 keys; 1-16 trials x steps x optimizers x keys, all starts recorded; up to 40 unknowns, 4100 steps, 300 trials",
    "counting": "state = (objective, start or key, optimizer, steps, trials); transition = optimizer step followed; trace = result of the real minimizer compared",
    "assumptions": ["trajectories that move by more than 3e-8 when the start moves by 1e-9 are skipped and counted",
        "the reference trajectories of the other optax optimizers apply optax's own update rule, one step at a time, outside the code under check"],
}
OPTIMIZERS = ("default", "adam", "adam2", "sgd", "momentum", "nesterov", "rmsprop", "schedule", "decay", "still")
STEPS = [0, 1, 2, 3, 7, 20, 50, 100, None]


def objectives():
    """name -> (function of x and extra arguments, extra arguments, gradient in numpy)."""
    import jax.numpy as jnp

    return {
        "quadratic": (lambda x: jnp.sum((x - 0.3) ** 2), ()),
        "valley": (lambda x: jnp.sum((1 - x) ** 2) + 10.0 * jnp.sum((x[1:] - x[:-1] ** 2) ** 2), ()),
        "waves": (lambda x: jnp.sum(jnp.sin(7.0 * x) + 0.5 * x * x), ()),
        "shifted": (lambda x, c, s: s * jnp.sum((x - c) ** 2) + jnp.prod(x), (0.7, 1.5)),
        "vector": (lambda x, c: jnp.sum(jnp.cosh(x - c[: x.shape[0]])), (np.array([0.1, -0.4, 0.9]),)),
        "nested": (lambda x, d, *r: d["a"] * jnp.sum(x**4) - r[0] * jnp.sum(x), ({"a": 0.5}, 2.0)),
        "flat": (lambda x: 0.0 * jnp.sum(x) + 2.0, ()),
    }


def optimizers():
    import optax

    return {
        "default": None,
        "adam": optax.adam(learning_rate=0.03),
        "adam2": optax.adam(0.2, b1=0.5, b2=0.9, eps=1e-3),
        "sgd": optax.sgd(0.02),
        "momentum": optax.sgd(0.02, momentum=0.9),
        "nesterov": optax.sgd(0.01, momentum=0.8, nesterov=True),
        "rmsprop": optax.rmsprop(0.02),
        "schedule": optax.sgd(optax.piecewise_constant_schedule(0.05, {3: 0.5, 10: 0.1})),
        "decay": optax.adamw(0.05, weight_decay=0.1),
        "still": optax.set_to_zero(),
    }


def reference_batch(name, f, x0s, args, steps):
    """Trajectories in double precision, steps + 1 points for every start."""
    import jax
    import jax.numpy as jnp
    import optax

    x = np.asarray(x0s, dtype=np.float64)
    if (id(f), x.shape) not in _grads:
        _grads[id(f), x.shape] = f, jax.jit(jax.vmap(jax.grad(f), in_axes=(0,) + (None,) * len(args)))
    gf = _grads[id(f), x.shape][1]

    def g(x):
        return np.asarray(gf(jnp.asarray(x), *args))

    out = [x]
    hyper = {"default": (0.1, 0.9, 0.999, 1e-8), "adam": (0.03, 0.9, 0.999, 1e-8), "adam2": (0.2, 0.5, 0.9, 1e-3)}
    if name in hyper:  # Kingma & Ba, algorithm 1
        lr, b1, b2, eps = hyper[name]
        m, v = np.zeros_like(x), np.zeros_like(x)
        for t in range(1, steps + 1):
            d = g(x)
            m, v = b1 * m + (1 - b1) * d, b2 * v + (1 - b2) * d * d
            x = x - lr * (m / (1 - b1**t)) / (np.sqrt(v / (1 - b2**t)) + eps)
            out.append(x)
    elif name in ("sgd", "momentum", "still"):
        lr, mu = {"sgd": (0.02, 0.0), "momentum": (0.02, 0.9), "still": (0.0, 0.0)}[name]
        m = np.zeros_like(x)
        for _ in range(steps):
            m = mu * m + g(x)
            x = x - lr * m
            out.append(x)
    else:  # element-wise update rules: the batch may be treated as one vector
        opt = _cached(name)
        if name not in _updates:
            _updates[name] = jax.jit(lambda d, s, x: opt.update(d, s, x))
        x = jnp.asarray(x)
        state = opt.init(x)
        for _ in range(steps):
            u, state = _updates[name](gf(x, *args), state, x)
            x = optax.apply_updates(x, u)
            out.append(np.asarray(x))
    return np.array(out).swapaxes(0, 1)


_grads, _updates = {}, {}


def references(name, f, x0s, args, steps):
    """As above; a point is nan where the trajectory is too sensitive to its start to be compared."""
    x0s = np.asarray(x0s, dtype=np.float64)
    both = reference_batch(name, f, np.concatenate([x0s, x0s + 1e-9]), args, steps)
    a, b = both[: len(x0s)], both[len(x0s) :]
    with np.errstate(all="ignore"):
        bad = ~((np.abs(a - b).max(-1) < 3e-8) & (np.abs(a).max(-1) < 1e3))
    bad = np.maximum.accumulate(bad, axis=1)
    return np.where(bad[..., None], np.nan, a)


def reference(name, f, x0, args, steps):
    return references(name, f, [x0], args, steps)[0]


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and (np.allclose(a, b, rtol=tol, atol=tol) or np.array_equal(np.isnan(a), np.isnan(b)) and np.isnan(a).all())


def shard_minimize(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d.optimize import minimize

    oname, dim = arg
    f, fargs = objectives()[oname]
    vals = (-0.5, 0.0, 0.25, 1.0, 2.0) if dim == 1 else (0.0, 0.4, 1.1)
    starts = list(itertools.product(vals, repeat=dim))
    if dim == 3 and not ctx.deep:
        starts = starts[::4]
    trajs = {o: references(o, f, starts, fargs, 100) for o in OPTIMIZERS}
    for k, (opt, (i, x0)) in enumerate(itertools.product(OPTIMIZERS, enumerate(starts))):
        traj = trajs[opt][i]
        for steps in STEPS if ctx.deep or opt in ("default", "momentum") else STEPS[(len(oname) + dim) % 3 :: 3]:
            if np.isnan(traj[100 if steps is None else steps]).any():
                res.add(skipped=1)
                continue
            case = {"objective": oname, "optimizer": opt, "x0": x0, "steps": steps}
            with res.case(case):
                kw = {} if steps is None else {"steps": steps}
                if opt != "default":
                    kw["optimizer"] = _cached(opt)
                if fargs:
                    kw["args"] = fargs
                x, loss = minimize(f, jnp.asarray(x0, dtype=float), **kw)
                want = traj[100 if steps is None else steps]
                res.expect(near(x, want, 1e-6), lambda: f"x = {x} instead of {want}", case)
                fx = float(f(jnp.asarray(x), *fargs))
                res.expect(np.shape(loss) == () and near(loss, fx, 1e-9), lambda: f"loss {loss}, but the objective is {fx} there", case)
                res.add(states=1, transitions=100 if steps is None else steps, traces=1)
        if res.full():
            return
    # positional form
    case = {"objective": oname, "positional": True}
    with res.case(case):
        x0 = starts[-1]
        x, loss = minimize(f, jnp.asarray(x0, dtype=float), fargs, 5, _cached("sgd"))
        res.expect(near(x, reference("sgd", f, x0, fargs, 5)[-1], 1e-6) and near(loss, float(f(x, *fargs)), 1e-9), "positional arguments", case)
    res.sample(case)


_opt = {}


def _cached(name):
    if name not in _opt:
        _opt[name] = optimizers()[name]
    return _opt[name]


class Recorder:
    """An objective whose evaluation points are recorded from inside the compiled code."""

    def __init__(self, f):
        self.f = f
        self.points = []

    def __call__(self, x, *args):
        import jax

        jax.debug.callback(lambda v: self.points.append(np.asarray(v)), x)
        return self.f(x, *args)


def shard_random(ctx, res, arg):
    """Random starts, and best of many."""
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize_many_random_uniform, minimize_random_uniform

    oname, dim = arg
    f, fargs = objectives()[oname]
    kwa = {"args": fargs} if fargs else {}
    draws = []
    for seed in range(32 if ctx.deep else 12):
        key = jax.random.PRNGKey(seed + 100 * ctx.seed)
        case = {"objective": oname, "dim": dim, "seed": seed}
        with res.case(case):
            x0, l0 = minimize_random_uniform(f, key, dim, steps=0, **kwa)
            res.expect(x0.shape == (dim,) and bool(jnp.all((x0 >= 0) & (x0 < 1))) and near(l0, float(f(x0, *fargs)), 1e-9), f"start {x0}, loss {l0}", case)
            draws.append(np.asarray(x0))
            for opt, steps in (("default", None), ("default", 7), ("sgd", 20), ("decay", 3))[:: 1 if ctx.deep or seed < 3 else 3]:
                kw = {**kwa, **({} if steps is None else {"steps": steps}), **({} if opt == "default" else {"optimizer": _cached(opt)})}
                x, loss = minimize_random_uniform(f, key, dim, **kw)
                want = reference(opt, f, x0, fargs, 100 if steps is None else steps)[-1]
                c = {**case, "optimizer": opt, "steps": steps}
                res.expect(np.isnan(want).any() or near(x, want, 1e-6), lambda: f"x = {x} instead of {want}", c)
                res.expect(near(loss, float(f(x, *fargs)), 1e-9), "loss is not that of the result", c)
                x1, loss1 = minimize_random_uniform(f, key, dim, **kw)
                res.expect(near(x, x1, 0) and near(loss, loss1, 0), "not reproducible with the same key", c)
                res.add(states=1, transitions=len(want), traces=1)
    d = np.array(draws)
    res.expect(len(np.unique(d)) == d.size and d.min() < 0.35 and d.max() > 0.65, "starts are not spread over the unit cube", {"objective": oname, "draws": d[:4]})
    for many, seed in itertools.product((1, 2, 3, 5, 10, 16), range(6 if ctx.deep else 2)):
        key = jax.random.PRNGKey(seed + 31 * ctx.seed)
        case = {"objective": oname, "dim": dim, "seed": seed, "many": many}
        with res.case(case):
            rec = Recorder(f)
            kwm = {} if many == 10 else {"many": many}
            x, loss = minimize_many_random_uniform(rec, key, dim, steps=0, **kwm, **kwa)
            jax.effects_barrier()
            starts = np.unique(np.array(rec.points), axis=0)
            ok = starts.shape == (many, dim) and starts.min() >= 0 and starts.max() < 1
            res.expect(ok, lambda: f"{len(starts)} distinct trials instead of {many}", case)
            fs = np.array([float(f(jnp.asarray(s), *fargs)) for s in starts])
            res.expect(near(loss, fs.min(), 1e-9) and near(f(x, *fargs), loss, 1e-9) and any(near(x, s, 1e-12) for s in starts), f"{loss} is not the best of {fs}", case)
            for opt, steps in (("default", 5), ("sgd", 30), ("default", None)):
                kw = {**kwm, **kwa, **({} if steps is None else {"steps": steps}), **({} if opt == "default" else {"optimizer": _cached(opt)})}
                ends = references(opt, f, starts, fargs, 100 if steps is None else steps)[:, -1]
                if np.isnan(ends).any():
                    res.add(skipped=1)
                    continue
                fs = np.array([float(f(jnp.asarray(s), *fargs)) for s in ends])
                x, loss = minimize_many_random_uniform(f, key, dim, **kw)
                c = {**case, "optimizer": opt, "steps": steps}
                res.expect(near(loss, np.nanmin(fs), 1e-6), lambda: f"{loss} is not the best of {fs}", c)
                res.expect(near(f(x, *fargs), loss, 1e-9) and any(near(x, e, 1e-5) for e in ends), lambda: f"{x} is not the end of a trial ({ends})", c)
                x1, loss1 = minimize_many_random_uniform(f, key, dim, **kw)
                res.expect(near(x, x1, 0) and near(loss, loss1, 0), "not reproducible with the same key", c)
                res.add(states=1, transitions=many * (100 if steps is None else steps), traces=1)
        if res.full():
            return
    res.sample(case)


def shard_diverged(ctx, res, _):
    """Trials that leave the domain of the objective, and single precision."""
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize, minimize_many_random_uniform

    for i, (cut, many) in enumerate(itertools.product((0.1, 0.3, 0.5, 0.7), (4, 8, 16))):
        def f(x, cut=cut):
            return jnp.sqrt(x[0] - cut)

        for seed in range(8):
            key = jax.random.PRNGKey(seed)
            case = {"domain": cut, "many": many, "seed": seed}
            with res.case(case):
                rec = Recorder(f)
                x, loss = minimize_many_random_uniform(rec, key, 1, many=many, steps=0)
                jax.effects_barrier()
                s = np.unique(np.array(rec.points))
                good = np.sqrt(s[s >= cut] - cut)
                if len(good):
                    res.expect(near(loss, good.min(), 1e-6), f"{loss} instead of {good.min()}, the best of {len(good)} trials of finite loss", case)
                else:
                    res.expect(bool(jnp.isnan(loss)), f"{loss}", case)
                res.add(states=1, transitions=1, traces=1)
    for x0 in itertools.product((0.0, 0.5, 2.0), repeat=2):
        case = {"single precision": x0}
        with res.case(case):
            f = objectives()["quadratic"][0]
            x, loss = minimize(f, jnp.asarray(x0, dtype=jnp.float32), steps=40)
            want = reference("default", f, x0, (), 40)[-1]
            res.expect(x.dtype == jnp.float32 and near(x, want, 1e-3) and near(loss, f(x), 1e-5), f"{x} instead of {want}", case)
            res.add(states=1, transitions=40, traces=1)
    # the steps may be counted, the start and arguments traced
    case = {"compiled": True}
    with res.case(case):
        f, a = objectives()["shifted"]
        g = jax.jit(lambda x, c, s: minimize(f, x, (c, s), steps=9))
        for x0 in itertools.product((0.0, 0.5, 2.0), repeat=2):
            for c in (0.7, -0.2):
                x, loss = g(jnp.asarray(x0), c, 1.5)
                want = reference("default", f, x0, (c, 1.5), 9)[-1]
                res.expect(near(x, want, 1e-6) and near(loss, f(x, c, 1.5), 1e-9), f"{x} instead of {want}", {**case, "x0": x0, "c": c})
                res.add(states=1, transitions=9, traces=1)


def shard_large(ctx, res, _):
    """Many unknowns, many steps, many trials."""
    import jax
    import jax.numpy as jnp
    from differt2d.optimize import minimize, minimize_many_random_uniform, minimize_random_uniform

    f = objectives()["quadratic"][0]
    for dim in (4, 5, 6, 9, 17, 40):
        draws = []
        for seed in range(32):
            case = {"unknowns": dim, "seed": seed}
            with res.case(case):
                x, loss = minimize_random_uniform(f, jax.random.PRNGKey(seed + 77 * ctx.seed), dim, steps=0)
                res.expect(x.shape == (dim,) and near(loss, f(x), 1e-9), f"start {x}, loss {loss}", case)
                draws.append(np.asarray(x))
                res.add(states=1, transitions=1, traces=1)
        d = np.array(draws)
        case = {"unknowns": dim, "draws": d[:2]}
        res.expect(d.min() >= 0 and d.max() < 1 and (d.min(0) < 0.4).all() and (d.max(0) > 0.6).all(), "a coordinate of the start is not spread over [0, 1)", case)
        less = (d[:, :, None] < d[:, None, :]).mean(0) + 0.5 * np.eye(dim)
        res.expect((less > 0.02).all() and (less < 0.98).all(), "the coordinates of the start are always in the same order", case)
        res.expect(len(np.unique(d)) == d.size, "coordinates of the starts are repeated", case)
        case = {"unknowns": dim}
        with res.case(case):
            x0 = np.linspace(-1.0, 2.0, dim)[::-1].copy()
            for opt, steps in (("default", 30), ("momentum", 60)):
                x, loss = minimize(f, jnp.asarray(x0), steps=steps, **({} if opt == "default" else {"optimizer": _cached(opt)}))
                want = reference(opt, f, x0, (), steps)[-1]
                res.expect(near(x, want, 1e-6) and near(loss, f(x), 1e-9), f"{x} instead of {want}", {**case, "optimizer": opt})
                res.add(states=1, transitions=steps, traces=1)
    for steps in (101, 128, 255, 256, 500, 1000, 1001, 1500, 4100):
        case = {"steps": steps}
        with res.case(case):
            x, loss = minimize(lambda x: jnp.sum(x), jnp.zeros(2), steps=steps, optimizer=_cached("sgd"))
            res.expect(near(x, [-0.02 * steps] * 2, 1e-9) and near(loss, -0.04 * steps, 1e-9), f"x = {x}, loss = {loss}", case)
            res.add(states=1, transitions=steps, traces=1)
    for many in (17, 33, 64, 130, 300):
        case = {"many": many}
        with res.case(case):
            rec = Recorder(f)
            x, loss = minimize_many_random_uniform(rec, jax.random.PRNGKey(5), 2, many=many, steps=0)
            jax.effects_barrier()
            starts = np.unique(np.array(rec.points), axis=0)
            fs = ((starts - 0.3) ** 2).sum(-1)
            res.expect(len(starts) == many, f"{len(starts)} distinct trials", case)
            res.expect(near(loss, fs.min(), 1e-9) and near(x, starts[fs.argmin()], 1e-9), f"{loss} is not the best", case)
            res.add(states=1, transitions=many, traces=1)


def shard(ctx, res, s):
    {"m": shard_minimize, "r": shard_random, "d": shard_diverged, "l": shard_large}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    names = list(objectives_names())
    jobs = [("m", (n, d)) for n in names for d in (3, 2, 1)] + [("r", (n, d)) for n in (names[:-1] if ctx.deep else ("valley", "waves", "nested")) for d in (1, 2, 3)]
    jobs = [("d", None), ("l", None)] + jobs
    run_shards(ctx, res, shard, jobs, x64=True)


def objectives_names():
    return ("quadratic", "valley", "waves", "shifted", "vector", "nested", "flat")
