"""C26: stacking, unstacking and indexing objects round-trip."""

import itertools

import numpy as np

META = {
    "bounds": "lists of 1-6 (thorough: 9) objects of 7 kinds, of nested containers of them, all orders of up to 4 distinct ones, 3 list forms, every stacking axis, eager / compiled / vmapped; "
    "stacks and scenes of 131-300 objects with every index, leaves of leading size 0-2; indices -3 to n+2 and the extremes, concrete of 5 types, traced, vmapped, scanned; scenes rebuilt from stacks, wall arrays and flattened leaves; mixed or ragged input must be rejected",
    "counting": "state = (objects, form); transition = object or index compared; trace = round trip by the real code",
    "assumptions": ["objects of a stack have arrays of the same shape and type, as documented"],
}


def kinds():
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G

    class Tagged(G.Wall):
        tag: str = eqx.field(default="t", static=True)
        extra: jax.Array = eqx.field(default_factory=lambda: jnp.zeros(3))

    def seg(i):
        return jnp.array([[i, 0.5 * i * i - 1.0], [2.0 - i, 3.0 + i / 7]], dtype=float)

    return {
        "Wall": lambda i: G.Wall(xys=seg(i)),
        "RIS": lambda i: G.RIS(xys=seg(i), phi=0.25 * i - 1.0),
        "RIS default": lambda i: G.RIS(xys=seg(i)) if i % 2 else G.RIS(xys=seg(i), phi=jnp.array(0.5 * i)),
        "Vertex": lambda i: G.Vertex(xy=seg(i)[1]),
        "Point": lambda i: G.Point(xy=seg(i)[0]),
        "Path": lambda i: G.Path(xys=jnp.concatenate([seg(i), seg(i + 1)]), loss=jnp.array(i * 1.0)),
        "Tagged": lambda i: Tagged(xys=seg(i), tag="me", extra=jnp.array([i, 1.0, -i], dtype=float)),
    }


def same(a, b):
    """Same kinds, same structure, same static fields, same values."""
    import jax

    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    if ta != tb:
        return f"structure {ta} instead of {tb}"
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y):
            return f"{x.tolist()} instead of {y.tolist()}"
    return None


def orders(n, deep):
    base = list(range(n))
    if n <= (4 if deep else 3):
        return [list(p) for p in itertools.permutations(base)] + [[0] * n]
    return [base, base[::-1], [(3 * i + 1) % n for i in base], [i // 2 for i in base]]


def shard_stack(ctx, res, arg):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import stack_leaves, unstack_leaves

    kind = arg
    mk = kinds()[kind]
    wraps = {
        "plain": mk,
        "tuple": lambda i: (mk(i), jnp.array([i])),
        "dict": lambda i: {"b": mk(i + 1), "a": [mk(i), jnp.array(i % 2 == 0)]},
    }
    for (wn, wrap), n in itertools.product(wraps.items(), range(1, (9 if ctx.deep else 6) + 1)):
        for order in orders(n, ctx.deep):
            objs = [wrap(i) for i in order]
            keep = jax.tree_util.tree_map(np.array, objs)
            leaves = [jax.tree_util.tree_leaves(o) for o in objs]
            low = min(np.ndim(x) for x in leaves[0])
            forms = {"list": list, "tuple": tuple, "generator": iter} if len(set(order)) == n else {"list": list}
            for (fn, form), jit in itertools.product(forms.items(), (False, True)):
                if jit and (fn == "generator" or n > 3 and wn != "plain"):
                    continue
                case = {"kind": kind, "in": wn, "order": order, "form": fn, "compiled": jit}
                with res.case(case):
                    f = eqx.filter_jit(lambda x: stack_leaves(x)) if jit else stack_leaves
                    st = f(form(objs))
                    got = jax.tree_util.tree_leaves(st)
                    want = [np.stack([np.asarray(o[k]) for o in leaves]) for k in range(len(leaves[0]))]
                    msg = same(got, want)
                    ok = type(st) is type(objs[0])
                    res.expect(ok, lambda: f"a {type(st)} instead of a {type(objs[0])}", case)
                    res.expect(msg is None, msg, case)
                    back = (eqx.filter_jit(lambda x: unstack_leaves(x)) if jit else unstack_leaves)(st)
                    ok = isinstance(back, (list, tuple)) and len(back) == n
                    res.expect(ok, lambda: f"{len(back)} objects instead of {n}", case)
                    for a, b in zip(back, objs):
                        msg = same(a, b)
                        res.expect(msg is None, msg, case)
                    again = stack_leaves(back)
                    msg = same(again, st)
                    res.expect(msg is None, msg, case)
                    msg = same(objs, keep)
                    res.expect(msg is None, lambda: f"the objects were changed: {msg}", case)
                    res.add(states=1, transitions=2 * n, traces=1)
            if order != sorted(order) and n > 2:
                continue
            for axis in range(-(low + 1), low + 1):
                case = {"kind": kind, "in": wn, "order": order, "axis": axis}
                with res.case(case):
                    st = stack_leaves(objs, axis=axis)
                    want = [np.stack([np.asarray(o[k]) for o in leaves], axis=axis) for k in range(len(leaves[0]))]
                    msg = same(jax.tree_util.tree_leaves(st), want)
                    res.expect(msg is None and type(st) is type(objs[0]), msg, case)
                    back = unstack_leaves(jax.tree_util.tree_map(lambda x: jnp.moveaxis(x, axis, 0), st))
                    msg = same(list(back), objs)
                    res.expect(msg is None, msg, case)
                    res.add(states=1, transitions=n, traces=1)
            if n > 1:
                case = {"kind": kind, "in": wn, "order": order, "batch": True}
                with res.case(case):
                    # a batch of lists: stack and unstack inside of vmap
                    b = [jax.tree_util.tree_map(lambda x: jnp.stack([x, x[::-1] if x.ndim else x]), o) for o in objs]
                    out = jax.vmap(lambda x: stack_leaves(x))(b)
                    msg = same(jax.tree_util.tree_leaves(out), [np.stack([np.asarray(o[k]) for o in map(jax.tree_util.tree_leaves, b)], axis=1) for k in range(len(leaves[0]))])
                    res.expect(msg is None, msg, case)
                    msg = same(jax.vmap(lambda x: list(unstack_leaves(x)))(out), b)
                    res.expect(msg is None, msg, case)
                    res.add(states=1, transitions=n, traces=1)
        if res.full():
            return
    res.sample(case)


def shard_reject(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d.geometry import stack_leaves, unstack_leaves
    from differt2d.scene import Scene

    ks = kinds()
    for a, b in itertools.permutations(ks, 2):
        if {a, b} == {"RIS", "RIS default"}:
            continue
        for objs in ([ks[a](0), ks[b](1)], [ks[a](0), ks[a](1), ks[b](2)], [ks[b](1), ks[a](0), ks[a](0)]):
            case = {"mixed": [type(o).__name__ for o in objs]}
            with res.case(case):
                try:
                    out = stack_leaves(objs)
                    res.violation(f"stacked objects of different kinds to {out}", case)
                except ValueError:
                    pass
            res.add(states=1, transitions=1, traces=1)
            if "Point" in (a, b) or "Path" in (a, b):
                continue
            with res.case(case):
                try:
                    out = Scene(objects=objs).get_object(jnp.array(0))
                    res.violation(f"indexed objects of different kinds to {out}", case)
                except TypeError:
                    pass
            with res.case(case):
                try:
                    out = Scene(objects=objs).stacked_objects()
                    res.violation(f"stacked objects of different kinds to {out}", case)
                except ValueError:
                    pass
            res.add(states=2, transitions=2, traces=2)
    for n, m in itertools.product(range(0, 4), repeat=2):
        if n != m:
            for x in ((jnp.zeros(n), jnp.zeros((m, 2))), {"a": jnp.zeros((n, 2, 2)), "b": (jnp.zeros(m), jnp.zeros(n))}):
                case = {"ragged": [n, m]}
                with res.case(case):
                    try:
                        out = unstack_leaves(x)
                        res.violation(f"unstacked arrays of unequal lengths to {out}", case)
                    except ValueError:
                        pass
                res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def shard_scene(ctx, res, arg):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.scene import Scene

    kind = arg
    mk = kinds()[kind]
    nodes = {"b": G.Point(xy=jnp.array([0.1, 0.2])), "a": G.Point(xy=jnp.array([3.0, -1.0]))}
    for n, mode in itertools.product(range(1, (9 if ctx.deep else 6) + 1), ("list", "tuple", "added", "rebuilt")):
        objs = [mk(i) for i in range(n)]
        scene = Scene(transmitters=nodes, receivers={"r": nodes["b"]}, objects={"list": list, "tuple": tuple}.get(mode, list)(objs))
        if mode == "added":
            scene = Scene(transmitters=nodes, receivers={"r": nodes["b"]}).add_objects(*objs[:1]).add_objects(*objs[1:])
        idx = list(range(-3, n + 3)) + [-(2**31), 2**31 - 1, 100]
        want = [objs[min(max(i, 0), n - 1)] for i in idx]
        case = {"kind": kind, "objects": n, "mode": mode}
        with res.case(case):
            leaves, treedef = jax.tree_util.tree_flatten(scene)
            copy = jax.tree_util.tree_unflatten(treedef, leaves)
            msg = same(copy, scene)
            ok = msg is None and type(copy) is Scene and list(copy.transmitters) == ["b", "a"] and list(copy.receivers) == ["r"] and len(copy.objects) == n
            res.expect(ok, lambda: f"flattening: {msg} {copy}", case)
            twice = jax.tree_util.tree_map(lambda x: 2 * x, scene)
            nums = [np.asarray(2 * x) for o in objs for x in jax.tree_util.tree_leaves(o)]
            got = [np.asarray(x) for o in twice.objects for x in jax.tree_util.tree_leaves(o)]
            ok = len(nums) == len(got) and all(np.array_equal(x, y) for x, y in zip(got, nums)) and all(np.array_equal(twice.transmitters[k].xy, 2 * v.xy) for k, v in nodes.items())
            res.expect(ok, "mapping over the scene", case)
            thru = eqx.filter_jit(lambda s: s)(scene)
            msg = same(thru, scene)
            res.expect(msg is None and type(thru) is Scene, msg, case)
            res.add(states=3, transitions=3 * n, traces=3)
            if mode == "rebuilt":
                scene = copy
        with res.case(case):
            st = scene.stacked_objects()
            want_st = [np.stack([np.asarray(jax.tree_util.tree_leaves(o)[k]) for o in objs]) for k in range(len(jax.tree_util.tree_leaves(objs[0])))]
            msg = same(jax.tree_util.tree_leaves(st), want_st)
            res.expect(msg is None and type(st) is type(objs[0]), msg, case)
            back = Scene.from_stacked_objects(st)
            msg = same(list(back.objects), objs)
            ok = msg is None and type(back) is Scene and len(back.transmitters) == len(back.receivers) == 0
            res.expect(ok, lambda: f"from_stacked_objects: {msg} {back}", case)
            res.add(states=2, transitions=2 * n, traces=2)
        if kind == "Wall":
            for form in ("jax", "numpy", "traced"):
                with res.case({**case, "array": form}):
                    arr = st.xys
                    if form == "numpy":
                        arr = np.asarray(arr)
                    back = eqx.filter_jit(lambda x: Scene.from_walls_array(x))(arr) if form == "traced" else Scene.from_walls_array(arr)
                    ok = len(back.objects) == n and all(type(o) is G.Wall and np.array_equal(np.asarray(o.xys), np.asarray(w.xys)) for o, w in zip(back.objects, objs))
                    ok = ok and len(back.transmitters) == len(back.receivers) == 0
                    res.expect(ok, lambda: f"from_walls_array: {back}", {**case, "array": form})
                    res.add(states=1, transitions=n, traces=1)
        forms = {
            "int": [scene.get_object(int(i)) for i in idx] if mode in ("list", "rebuilt") else None,
            "array": [scene.get_object(jnp.array(i)) for i in idx],
            "numpy": [scene.get_object(np.int32(i)) for i in idx] if mode == "list" else None,
            "compiled": [eqx.filter_jit(lambda s, i: s.get_object(i))(scene, jnp.array(i)) for i in idx] if mode in ("list", "added") else None,
            "static": [eqx.filter_jit(lambda s, i: s.get_object(i))(scene, i) for i in idx[::2]] if mode == "tuple" else None,
        }
        for f, got in forms.items():
            if got is None:
                continue
            w = want[::2] if f == "static" else want
            for i, a, b in zip(idx[::2] if f == "static" else idx, got, w):
                msg = same(a, b)
                ok = msg is None and type(a) is type(b)
                res.expect(ok, lambda: f"object {i}: {msg}", {**case, "index": i, "as": f})
                res.add(states=1, transitions=1, traces=1)
        ii = jnp.array(idx, dtype=jnp.int32)
        many = {
            "vmapped": lambda: jax.vmap(scene.get_object)(ii),
            "scanned": lambda: jax.lax.scan(lambda c, i: (c, scene.get_object(i)), 0, ii)[1],
            "mapped": lambda: jax.jit(lambda s, ii: jax.lax.map(s.get_object, ii))(scene, ii),
        }
        for f, g in many.items():
            with res.case({**case, "as": f}):
                out = g()
                want_m = [np.stack([np.asarray(jax.tree_util.tree_leaves(o)[k]) for o in want]) for k in range(len(jax.tree_util.tree_leaves(objs[0])))]
                msg = same(jax.tree_util.tree_leaves(out), want_m)
                res.expect(msg is None and type(out) is type(objs[0]), msg, {**case, "as": f})
                res.add(states=1, transitions=len(idx), traces=1)
        if res.full():
            return
    res.sample(case)


def shard_large(ctx, res, arg):
    """Many objects: around the sizes where a narrow integer type would wrap; single-element leaves."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.geometry import stack_leaves, unstack_leaves
    from differt2d.scene import Scene

    mk, n = kinds()[arg[0]], arg[1]
    objs = [mk(i % 97) if arg[0] != "Vertex" else G.Vertex(xy=jnp.array([float(i), 1.0 - i])) for i in range(n)]
    case = {"kind": arg[0], "objects": n}
    leaves = [[np.asarray(x) for x in jax.tree_util.tree_leaves(o)] for o in objs]
    want = [np.stack([o[k] for o in leaves]) for k in range(len(leaves[0]))]
    with res.case(case):
        st = stack_leaves(objs)
        msg = same(jax.tree_util.tree_leaves(st), want)
        res.expect(msg is None and type(st) is type(objs[0]), msg, case)
        back = unstack_leaves(st)
        res.expect(len(back) == n, f"{len(back)} objects", case)
        for i, (a, b) in enumerate(zip(back, objs)):
            msg = same(a, b)
            res.expect(msg is None, lambda: f"object {i}: {msg}", case)
        scene = Scene(objects=objs)
        msg = same(jax.tree_util.tree_leaves(scene.stacked_objects()), want)
        res.expect(msg is None, msg, case)
        msg = same(list(Scene.from_stacked_objects(st).objects), objs)
        res.expect(msg is None, msg, case)
        res.add(states=4, transitions=4 * n, traces=4)
        ii = np.arange(-5, n + 5)
        ok = np.clip(ii, 0, n - 1)
        f = {
            "vmapped": lambda i: jax.jit(lambda s, i: jax.vmap(s.get_object)(i))(scene, i),
            "mapped": lambda i: jax.jit(lambda s, i: jax.lax.map(s.get_object, i))(scene, i),
        }
        for (fn, g), dt in itertools.product(f.items(), (jnp.int32, jnp.int16)):
            out = jax.tree_util.tree_leaves(g(jnp.asarray(ii, dtype=dt)))
            msg = same(out, [w[ok] for w in want])
            res.expect(msg is None, msg, {**case, "as": fn})
            res.add(states=len(ii), transitions=len(ii), traces=len(ii))
        one = eqx.filter_jit(lambda s, i: s.get_object(i))
        for i in sorted({-1, 0, n // 2, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, n - 1, n}):
            for form, o in (("compiled", one(scene, jnp.array(i))), ("array", scene.get_object(jnp.array(i))), ("int", scene.get_object(i))):
                msg = same(o, objs[min(max(i, 0), n - 1)])
                res.expect(msg is None, lambda: f"object {i}: {msg}", {**case, "as": form})
                res.add(states=1, transitions=1, traces=1)
    res.sample(case)


def shard_thin(ctx, res, arg):
    """Leaves whose leading size is one or zero are stacked and unstacked as any other."""
    import jax.numpy as jnp
    from differt2d import geometry as G
    from differt2d.geometry import stack_leaves, unstack_leaves

    for k, n, cls in itertools.product((0, 1, 2), range(1, 5), (G.Path, G.MinPath, None)):
        objs = [cls(xys=jnp.full((k, 2), i + 0.5), loss=jnp.array(i * 1.0)) if cls else {"a": jnp.full((k, 1, n), i), "b": jnp.array([i > 1])} for i in range(n)]
        case = {"class": cls.__name__ if cls else "dict", "leading size": k, "objects": n}
        with res.case(case):
            st = stack_leaves(objs)
            back = unstack_leaves(st)
            res.expect(len(back) == n, f"{len(back)} objects", case)
            for a, b in zip(back, objs):
                msg = same(a, b)
                res.expect(msg is None, msg, case)
            twice = unstack_leaves(unstack_leaves(stack_leaves([st, st]))[1])
            for a, b in zip(twice, objs):
                msg = same(a, b)
                res.expect(len(twice) == n and msg is None, msg, case)
            res.add(states=2, transitions=3 * n, traces=2)
    res.sample(case)


def shard_empty(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d.scene import Scene

    with res.case({"empty": True}):
        for x in (jnp.zeros((0, 2, 2)), np.zeros((0, 2, 2), dtype=np.float32)):
            s = Scene.from_walls_array(x)
            res.expect(len(s.objects) == len(s.transmitters) == len(s.receivers) == 0, lambda: f"{s}", {"empty": True})
            res.add(states=1, transitions=1, traces=1)


def dispatch(ctx, res, s):
    {"stack": shard_stack, "scene": shard_scene, "reject": shard_reject, "empty": shard_empty, "large": shard_large, "thin": shard_thin}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("scene", k) for k in ("Tagged", "RIS", "RIS default", "Wall", "Vertex")]
    jobs += [("stack", k) for k in ("Path", "Tagged", "RIS", "RIS default", "Wall", "Vertex", "Point")]
    jobs = [("large", (k, n)) for k, n in (("Wall", 140), ("Wall", 270), ("RIS", 131), ("Vertex", 300))] + jobs
    jobs += [("reject", 0), ("empty", 0), ("thin", 0)]
    run_shards(ctx, res, dispatch, jobs)
