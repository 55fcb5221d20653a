"""C03: an explicit choice between exact and smooth logic overrides every other influence."""

import itertools

import numpy as np

META = {
    "bounds": "81 operations of every layer x explicit choice x mode in force x every history of at most 1 (thorough: 2 below whole scenes) earlier uses of the same operation "
    "(mode x choice alphabet, from cleared caches), histories made of every operation of the list, compiled functions called again in the other mode, and mode changes during an iteration",
    "counting": "state = (operation, history, mode, choice); transition = evaluated call; trace = result of the real operation compared with its fresh reference",
    "assumptions": [],
}
MODES = (True, False)
WALLS = [[[0.0, 0.0], [1.0, 0.0]], [[1.0, 0.0], [1.0, 1.0]], [[0.3, 0.5], [0.7, 0.52]], [[0.0, 1.0], [1.0, 1.0]]]


class Op:
    """fn(approx) -> arrays; kind: 'truth' (booleans or [0, 1]), 'count' (sums of these) or 'free'."""

    def __init__(self, name, fn, kind="truth", trace=True):
        self.name, self.fn, self.kind, self.trace = name, fn, kind, trace


def ops():
    import jax
    import jax.numpy as jnp
    from differt2d import logic as L
    from differt2d.geometry import RIS, FermatPath, ImagePath, MinPath, Path, Point, Vertex, Wall, segments_intersect
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    out = []

    def op(name, fn, kind="truth", trace=True):
        out.append(Op(name, fn, kind, trace))

    u = jnp.array([-1.0, -0.01, 0.0, 0.01, 0.5, 1.0])
    v = jnp.array([0.0, 0.0, 0.0, 0.0, 0.498, 2.0])
    b = jnp.array([True, False, True, False, True, True])
    c = jnp.array([True, True, False, False, True, False])
    for n in ("greater", "greater_equal", "less", "less_equal"):
        f = getattr(L, n)
        op(n, lambda a, f=f: f(u, v, approx=a))
        op(n + " positional", lambda a, f=f: f(u, v, a))
        op(n + " sigmoid", lambda a, f=f: f(u, v, approx=a, function=L.sigmoid, alpha=7.0))
        op(n + " scalar", lambda a, f=f: f(jnp.array(0.3), jnp.array(0.301), approx=a, alpha=10.0))
    fu, fv = jnp.array([0.0, 0.2, 0.5, 0.7, 1.0, 0.4]), jnp.array([0.1, 0.9, 0.5, 0.6, 0.0, 0.45])

    def pair(a):  # operands fit for the choice
        return (fu, fv) if a or (a is None and L.ENABLE_APPROX) else (b, c)

    op("or", lambda a: L.logical_or(*pair(a), approx=a))
    op("and", lambda a: L.logical_and(*pair(a), approx=a))
    op("or positional", lambda a: L.logical_or(*pair(a), a))
    op("and positional", lambda a: L.logical_and(*pair(a), a))
    op("not", lambda a: L.logical_not(pair(a)[0], approx=a))
    op("not positional", lambda a: L.logical_not(pair(a)[0], a))
    op("or of floats", lambda a: L.logical_or(fu, fv, approx=a), "cast")
    op("and of floats", lambda a: L.logical_and(fu, fv, approx=a), "cast")
    op("not of floats", lambda a: L.logical_not(fu, approx=a), "cast")
    op("all", lambda a: L.logical_all(*pair(a), approx=a))
    op("any", lambda a: L.logical_any(*pair(a), approx=a))
    op("all axis", lambda a: L.logical_all(*pair(a), axis=0, approx=a))
    op("any axis", lambda a: L.logical_any(*pair(a), axis=(0, 1), approx=a))
    op("is_true", lambda a: L.is_true(pair(a)[0], approx=a), "bool")
    op("is_false", lambda a: L.is_false(pair(a)[0], approx=a), "bool")
    op("is_true tol", lambda a: L.is_true(pair(a)[0], tol=0.25, approx=a), "bool")
    op("is_false tol", lambda a: L.is_false(pair(a)[0], tol=0.25, approx=a), "bool")
    op("true_value", lambda a: L.true_value(approx=a))
    op("false_value", lambda a: L.false_value(approx=a))
    op("true_value positional", lambda a: L.true_value(a))
    op("false_value positional", lambda a: L.false_value(a))

    ws = [Wall(xys=jnp.array(w)) for w in WALLS]
    mixed = [ws[0], RIS(xys=jnp.array(WALLS[1]), phi=jnp.array(0.4)), Vertex(xy=jnp.array([0.3, 0.5])), ws[2]]
    legs = [jnp.array(p) for p in ([[0.2, 0.2], [0.8, 0.6]], [[0.5, -0.3], [0.5, 0.004]], [[0.5, 0.4], [0.995, 0.3]], [[0.1, 0.1], [0.9, 0.1]], [[0.3, 0.9], [0.697, 0.1]])]

    def stack(fs):
        return jnp.stack([jnp.asarray(x) for x in fs])

    def cut(s, t, **kw):
        return segments_intersect(s[0], s[1], t[0], t[1], **kw)

    op("segments_intersect", lambda a: stack(cut(p, w.xys, approx=a) for p in legs for w in ws))
    op("segments_intersect options", lambda a: stack(cut(p, w.xys, tol=0.2, approx=a, alpha=3.0, function=L.sigmoid) for p in legs for w in ws[:3]))
    for name, o in (("wall", ws[0]), ("surface", mixed[1])):
        op(f"{name} contains", lambda a, o=o: stack(o.contains_parametric(jnp.array([t]), approx=a) for t in (-0.4, -0.004, 0.0, 0.3, 0.996, 1.001)))
        op(f"{name} contains options", lambda a, o=o: stack(o.contains_parametric(jnp.array([t]), approx=a, alpha=2.0, function=L.sigmoid) for t in (-0.4, 0.3, 1.001)))
        op(f"{name} intersects", lambda a, o=o: stack(o.intersects_cartesian(p, approx=a) for p in legs))
        op(f"{name} intersects options", lambda a, o=o: stack(o.intersects_cartesian(p, patch=0.3, approx=a, alpha=2.0) for p in legs))
    op("vertex contains", lambda a: mixed[2].contains_parametric(jnp.zeros(0), approx=a))
    op("vertex intersects", lambda a: stack(mixed[2].intersects_cartesian(p, approx=a) for p in legs))

    tx, rx = Point(xy=jnp.array([0.2, 0.3])), Point(xy=jnp.array([0.8, 0.45]))
    key = jax.random.PRNGKey(7)
    cands = [(), (0,), (2,), (1, 0)]

    def paths(objects, kind):
        for cd in cands:
            io = [objects[i] for i in cd]
            if kind is Path:
                xys = jnp.array([[0.2, 0.3], *([[0.5, 0.0], [0.997, 0.2]][: len(cd)]), [0.8, 0.45]])
                p = Path(xys=xys, loss=jnp.array(0.008))
            elif kind is ImagePath:
                p = kind.from_tx_objects_rx(tx, io, rx)
            else:
                p = kind.from_tx_objects_rx(tx, io, rx, key=key, steps=5)
            yield p, jnp.array(cd, dtype=int), io

    for kname, kind, objs in (("path", Path, ws), ("mixed path", Path, mixed), ("image path", ImagePath, ws), ("fermat path", FermatPath, mixed), ("min path", MinPath, mixed)):
        made = list(paths(objs, kind))
        op(f"{kname} on_objects", lambda a, m=made: stack(p.on_objects(io, approx=a) for p, _, io in m))
        op(f"{kname} on_objects options", lambda a, m=made: stack(p.on_objects(io, approx=a, alpha=3.0, function=L.sigmoid) for p, _, io in m))
        op(f"{kname} intersects", lambda a, m=made, o=objs: stack(p.intersects_with_objects(o, cd, approx=a) for p, cd, _ in m))
        op(f"{kname} intersects options", lambda a, m=made, o=objs: stack(p.intersects_with_objects(o, cd, patch=0.2, approx=a, alpha=3.0) for p, cd, _ in m))
        op(f"{kname} is_valid", lambda a, m=made, o=objs: stack(p.is_valid(o, cd, io, approx=a) for p, cd, io in m))
        op(f"{kname} is_valid options", lambda a, m=made, o=objs: stack(p.is_valid(o, cd, io, tol=0.02, patch=0.1, approx=a, alpha=3.0, function=L.sigmoid) for p, cd, io in m))

    # nothing in the way, nothing to interact with, nothing to combine
    bare, none = Path(xys=jnp.array([[0.2, 0.3], [0.8, 0.45]]), loss=jnp.array(0.008)), jnp.zeros(0, dtype=int)
    empty = Scene(transmitters={"a": tx}, receivers={"b": rx})
    op("nothing on_objects", lambda a: bare.on_objects([], approx=a))
    op("nothing intersects", lambda a: bare.intersects_with_objects([], none, approx=a))
    op("nothing is_valid", lambda a: stack([bare.is_valid([], none, [], approx=a, alpha=3.0, tol=t) for t in (0.01, 0.001)]))
    op("only an exempt object", lambda a: made[1][0].intersects_with_objects(ws[:1], jnp.array([0]), approx=a))
    op("only a vertex", lambda a: bare.intersects_with_objects([mixed[2]], none, approx=a))
    op("all of one", lambda a: L.logical_all(pair(a)[0], axis=0, approx=a))
    op("any of one", lambda a: L.logical_any(pair(a)[0], axis=0, approx=a))
    op("empty scene", lambda a: stack(r[2] for r in empty.all_paths(approx=a)))
    op("empty scene count", lambda a: plain(empty.accumulate_over_paths(one, approx=a, tol=0.02)), "free")

    scene = Scene(transmitters={"a": tx, "b": Point(xy=jnp.array([0.5, 0.9]))}, receivers={"a": rx, "c": Point(xy=jnp.array([0.45, 0.2]))}, objects=ws)
    X, Y = jnp.meshgrid(jnp.linspace(0.1, 0.9, 3), jnp.linspace(0.1, 0.9, 2))

    def one(tx, rx, path, objects):
        return jnp.array(1.0)

    def plain(m):
        return jnp.stack([jnp.asarray(z) for *_, z in m])

    for oname, kw in (("", {}), (" options", {"alpha": 5.0, "function": L.sigmoid, "patch": 0.1, "tol": 0.02})):
        mi = {"path_cls": MinPath, "path_cls_kwargs": {"steps": 3}, "key": key}
        op("all_paths" + oname, lambda a, kw=kw: stack(r[2] for r in scene.all_paths(max_order=2, approx=a, **kw)))
        op("all_paths min" + oname, lambda a, kw=kw: stack(r[2] for r in scene.all_paths(max_order=1, approx=a, **mi, **kw)))
        op("all_valid_paths" + oname, lambda a, kw=kw: [np.array(r[2].xys).tolist() for r in scene.all_valid_paths(approx=a, max_order=2, **kw)], "free", False)
        op("accumulate count" + oname, lambda a, kw=kw: plain(scene.accumulate_over_paths(one, approx=a, **kw)), "count")
        op("accumulate power" + oname, lambda a, kw=kw: plain(scene.accumulate_over_paths(received_power, approx=a, **kw)), "free")
        op("accumulate reduced" + oname, lambda a, kw=kw: scene.accumulate_over_paths(one, reduce_all=True, approx=a, **kw), "count")
        for side in ("transmitters", "receivers"):
            f = getattr(scene, f"accumulate_on_{side}_grid_over_paths")
            op(f"{side} grid count" + oname, lambda a, f=f, kw=kw: plain(f(X, Y, one, approx=a, **kw)), "count")
            op(f"{side} grid power reduced" + oname, lambda a, f=f, kw=kw: f(X, Y, received_power, reduce_all=True, approx=a, **kw), "free")
            op(f"{side} grid count min" + oname, lambda a, f=f, kw=kw: plain(f(X, Y, one, approx=a, **mi, **kw)), "count")
            op(f"{side} grid gradient" + oname, lambda a, f=f, kw=kw: plain(f(X, Y, received_power, grad=True, approx=a, **kw)), "free")
            op(f"{side} grid both" + oname, lambda a, f=f, kw=kw: f(X, Y, received_power, value_and_grad=True, reduce_all=True, approx=a, **kw), "free")
    return out


def in_mode(m, how, f):
    """Runs f with the mode m in force, requested in one of several ways."""
    from differt2d import logic as L

    if how == 0:
        L.set_approx(m)
        return f()
    if how == 1:
        L.set_approx(not m)
        with L.enable_approx(m):
            return f()
    if how == 2:
        L.set_approx(not m)
        with L.disable_approx(not m):
            return f()
    L.set_approx(not m)
    return (L.enable_approx() if m else L.disable_approx())(f)()


def values(op, a):
    import jax

    r = op.fn(a)
    return [np.asarray(x) for x in jax.tree_util.tree_leaves(r)]


def same_values(x, y):
    return len(x) == len(y) and all(p.dtype == q.dtype and p.shape == q.shape and (np.array_equal(p, q) if p.dtype.kind == "b" else np.allclose(p, q, rtol=1e-5, atol=1e-6, equal_nan=True)) for p, q in zip(x, y))


def right_kind(op, a, vals):
    """Exact answers are booleans or counts, smooth answers numbers (of [0, 1], or sums of these)."""
    for v in vals:
        if op.kind == "bool":
            if v.dtype.kind != "b":
                return f"{v.dtype} is not a boolean"
        elif op.kind == "cast":
            if a is False and v.dtype.kind != "b" or a and (v.dtype.kind != "f" or v.min() < 0 or v.max() > 1):
                return f"{v.dtype}, {v.tolist()}"
        elif op.kind == "truth" and not a:
            if v.dtype.kind != "b":
                return f"the exact answer is of type {v.dtype}"
        elif op.kind == "truth":
            if v.dtype.kind != "f" or not ((v >= 0) & (v <= 1)).all():
                return f"the smooth answer {v.tolist()} ({v.dtype}) is not a number of [0, 1]"
        elif op.kind == "count":
            if not a and not (v == np.round(v)).all() or (v < 0).any() or (v > 5 * 4).any():
                return f"{v.tolist()} does not count paths"
            if a and (v == np.round(v)).all():
                return f"{v.tolist()}: no smooth answer at all"
    return None


def shard(ctx, res, arg):
    import jax

    from differt2d import logic as L

    part, parts = arg
    every = ops()
    mine = every[part::parts]
    heavy = {o.name for o in every if o.name.startswith(("all_", "acc", "transmitters", "receivers", "min path", "fermat path"))}
    light = {o.name for o in every if o.name in heavy and "options" in o.name}
    alphabet = list(itertools.product(MODES, (True, False, None)))
    ref_v = {}
    for o in mine:
        opp = {}
        # each choice in the opposite mode, then in its own, both from cleared caches
        for own in (False, True):
            jax.clear_caches()
            for a in MODES:
                case = {"operation": o.name, "explicit": a, "mode": a if own else not a}
                with res.case(case):
                    vs = in_mode(a if own else not a, 0 if own else 1, lambda: values(o, a))
                    bad = right_kind(o, a, vs)
                    res.expect(bad is None, bad, case)
                    (ref_v if own else opp)[o.name, a] = vs
                    if own and (o.name, a) in opp:
                        res.expect(same_values(vs, opp[o.name, a]), lambda: f"{opp[o.name, a]} in the other mode instead of {vs}", case)
                    res.add(states=1, transitions=1, traces=1)
        if (o.name, True) in ref_v and (o.name, False) in ref_v and o.kind not in ("bool", "free"):
            res.expect(not same_values(ref_v[o.name, True], ref_v[o.name, False]), "the explicit choice has no effect", {"operation": o.name})

    def judge(o, a, m, how, history):
        case = {"operation": o.name, "explicit": a, "mode": m, "how": how, "history": history}
        with res.case(case):
            res.add(states=1, transitions=1 + len(history), traces=1)
            vs = in_mode(m, how, lambda: values(o, a))
            res.expect(same_values(vs, ref_v[o.name, a]), lambda: f"{vs} instead of {ref_v[o.name, a]}", case)

    # histories of earlier uses of the same operation, from cleared caches
    depth = 2 if ctx.deep else 1
    for o in mine:
        if (o.name, True) not in ref_v or (o.name, False) not in ref_v:
            continue
        for d in range(0, depth + 1):
            for k, hist in enumerate(itertools.product(alphabet, repeat=d)):
                if not ctx.deep and (o.name in light or o.name in heavy and hist != ((bool(part % 2), None),)):
                    continue
                if not ctx.deep and d and hist[0][0] == hist[0][1]:
                    continue
                if d == 2 and (hist[0] == hist[1] or o.name in heavy):
                    continue
                jax.clear_caches()
                for i, (m, a) in enumerate(hist):
                    with res.case({"operation": o.name, "history": hist[: i + 1]}):
                        in_mode(m, (k + i) % 4, lambda: values(o, a))
                # the four explicit uses follow each other, in an order that depends on the history
                uses = list(itertools.product(MODES, MODES))
                for i in range(4):
                    if not ctx.deep and uses[i][0] == uses[i][1]:
                        continue
                    m, a = uses[(i * (1 if k % 2 else 3) + (k if ctx.deep else 0)) % 4]
                    judge(o, a, m, (k + i + 1) % 4, hist)
        if res.full():
            return
    # histories made of every operation, evaluated
    for k, (m, a) in enumerate(alphabet if ctx.deep else alphabet[2::3]):
        if ctx.deep:
            jax.clear_caches()
        for o in every if ctx.deep else mine:
            if not ctx.deep and o.name in heavy:
                continue
            with res.case({"operation": o.name, "mode": m, "choice": a}):
                in_mode(m, k % 4, lambda: values(o, a))
        for o in mine:
            if not ctx.deep and o.name in heavy:
                continue
            for a2 in MODES:
                judge(o, a2, not m, (k + 1) % 4, [("every operation", m, a)])
    # a compiled program, called in one mode after the other
    for o in mine:
        if not o.trace or not ctx.deep and o.name in heavy:
            continue
        for m, a in itertools.product(MODES, MODES):
            case = {"operation": o.name, "compiled in mode": m, "explicit": a}
            with res.case(case):
                if not ctx.deep and m == a:
                    continue
                jax.clear_caches()
                g = jax.jit(lambda: o.fn(a))
                L.set_approx(m)
                g.lower()
                for mm in (m, not m):
                    vs = in_mode(mm, 0, lambda: [np.asarray(x) for x in jax.tree_util.tree_leaves(g())])
                    res.expect(same_values(vs, ref_v[o.name, a]), lambda: f"{vs} instead of {ref_v[o.name, a]}", case)
                    res.add(states=1, transitions=1, traces=1)
    res.sample({"operations": [o.name for o in mine]})


def shard_iteration(ctx, res, arg):
    """The mode changes while iterations with an explicit choice are under way."""
    from differt2d import logic as L
    from differt2d.utils import received_power

    import jax.numpy as jnp

    del arg
    s = [o for o in ops() if o.name == "all_paths"]
    del s
    from differt2d.geometry import Point, Wall
    from differt2d.scene import Scene

    scene = Scene(transmitters={"a": Point(xy=jnp.array([0.2, 0.3]))}, receivers={"a": Point(xy=jnp.array([0.8, 0.45])), "c": Point(xy=jnp.array([0.45, 0.2]))}, objects=[Wall(xys=jnp.array(w)) for w in WALLS[:2]])
    X, Y = jnp.meshgrid(jnp.linspace(0.1, 0.9, 2), jnp.linspace(0.1, 0.9, 2))
    its = {
        "all_paths": lambda a: ((r[0], r[1], np.asarray(r[2])) for r in scene.all_paths(approx=a)),
        "all_valid_paths": lambda a: ((r[0], r[1], np.asarray(r[2].xys)) for r in scene.all_valid_paths(approx=a)),
        "accumulate": lambda a: ((*r[:2], np.asarray(r[2])) for r in scene.accumulate_over_paths(received_power, approx=a)),
        "transmitters grid": lambda a: ((r[0], "", np.asarray(r[1])) for r in scene.accumulate_on_transmitters_grid_over_paths(X, Y, received_power, approx=a)),
        "receivers grid": lambda a: ((r[0], "", np.asarray(r[1])) for r in scene.accumulate_on_receivers_grid_over_paths(X, Y, received_power, approx=a)),
    }
    for name, it in its.items():
        for a in MODES:
            L.set_approx(a)
            want = list(it(a))
            n = len(want)
            for ms in itertools.product(MODES, repeat=min(n, 6) + 1):
                case = {"iteration": name, "explicit": a, "modes": ms}
                with res.case(case):
                    L.set_approx(ms[0])
                    g = it(a)
                    got = []
                    for i in range(n):
                        L.set_approx(ms[min(i + 1, len(ms) - 1)])
                        got.append(next(g))
                    ok = all(x[:2] == y[:2] and x[2].dtype == y[2].dtype and np.allclose(x[2], y[2], rtol=1e-6) for x, y in zip(got, want)) and next(g, None) is None
                    res.expect(ok, f"{got} instead of {want}", case)
                    res.add(states=1, transitions=n, traces=1)
                if res.full():
                    return
            if not ctx.deep and a and name == "all_paths":
                res.sample(case)


def dispatch(ctx, res, s):
    (shard if s[0] == "ops" else shard_iteration)(ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    run_shards(ctx, res, dispatch, [("iteration", None)] + [("ops", (i, 8)) for i in range(8)])
