"""C25: results do not depend on how the program is transformed."""

import itertools
import os
import shutil
import tempfile
import time

import numpy as np

X64 = True
META = {
    "bounds": "all entry points of logic, geometry, tracing, optimisation, scenes (75 programs, thorough: 115; options included) x 8 inputs in general position x modes: eager in 8 orders of programs and inputs (one process each), without compilation, "
    "compiled with all 64 ordered pairs of inputs on one program, constants closed over, vectorised, compiled and vectorised in two orders, scanned, mapped, nested transformations, filtered transformations; thorough: in single precision as well, derivatives of every differentiable program, all orders of three inputs",
    "counting": "state = (program, mode, input); transition = output array compared; trace = run of the real code",
    "assumptions": ["inputs are in general position, so that rounding does not decide", "methods that return names or select by Python control flow run eagerly only"],
}
K = 8


def inputs():
    """K inputs of the same shapes: nodes, walls, scalars, keys."""
    phi = [0.6180339887498949, 0.7548776662466927, 0.5698402909980532]

    def u(n, off):
        return np.mod(off * 0.3719 + np.arange(1, n + 1) * phi[0] + (np.arange(1, n + 1) ** 2) * phi[1] * 0.01 + off * phi[2], 1.0)

    out = []
    for k in range(K):
        room = np.array([[[0, 0], [1, 0]], [[1, 0], [1, 1]], [[1, 1], [0, 1]], [[0.3, 0.45], [0.62, 0.55]]], dtype=float)
        room = room * (1.0 + 0.1 * k) + 0.013 * u(16, k + 0.5).reshape(4, 2, 2)
        out.append(
            {
                "p": u(10, k).reshape(5, 2),
                "w": room,
                "s": u(6, k + 0.25) * 2 - 1,
                "angle": np.array(0.3 + 0.4 * k),
                "key": np.array([k, 77 + k], dtype=np.uint32),
                "b": (u(6, k + 0.1) > 0.5),
                "i": np.array(k % 4, dtype=np.int32),
            }
        )
    return out


def programs(deep):
    import jax
    import jax.numpy as jnp
    import optax
    from differt2d import geometry as G
    from differt2d import logic as L
    from differt2d import optimize as O
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    P = {}

    def add(name):
        def deco(f):
            P[name] = f
            return f

        return deco

    MODES = {"exact": {"approx": False}, "smooth": {"approx": True, "alpha": 12.0}, "hard": {"approx": True, "alpha": 3.0, "function": L.hard_sigmoid}}
    sets = [(n, kw) for n, kw in MODES.items()]
    P["sigmoid"] = lambda d: L.sigmoid(d["s"], 4.0)
    P["hard_sigmoid"] = lambda d: L.hard_sigmoid(d["s"], 4.0)
    P["activation"] = lambda d: (L.activation(d["s"], 1.5), L.activation(d["s"], 2.0, function=L.sigmoid), L.activation(d["s"], alpha=d["angle"]))
    for n, kw in sets:
        P[f"compare {n}"] = lambda d, kw=kw: [getattr(L, f)(d["s"], d["s"][::-1], **kw) for f in ("greater", "greater_equal", "less", "less_equal")]
        ap = kw["approx"]
        P[f"connect {n}"] = lambda d, ap=ap: [
            (f(x, y, approx=ap) for f in (L.logical_and, L.logical_or)) and [L.logical_and(x, y, approx=ap), L.logical_or(x, y, approx=ap), L.logical_not(x, approx=ap)]
            for x, y in [((jnp.abs(d["s"]), jnp.abs(d["s"][::-1])) if ap else (d["b"], d["b"][::-1]))]
        ]
        P[f"reduce {n}"] = lambda d, ap=ap: [
            [L.logical_all(x, x[::-1], axis=a, approx=ap), L.logical_any(x, x[::-1], axis=a, approx=ap)]
            for x in [(jnp.abs(d["s"]) if ap else d["b"]).reshape(2, 3)]
            for a in (0, 1, (0, 1), None)
        ]
        P[f"truth {n}"] = lambda d, ap=ap: [L.true_value(approx=ap), L.false_value(approx=ap)] + ([L.is_true(jnp.abs(d["s"]), approx=True), L.is_false(jnp.abs(d["s"]), approx=True)] if ap else [L.is_true(d["b"], approx=False), L.is_false(d["b"], approx=False)])
        P[f"segments {n}"] = lambda d, kw=kw: [G.segments_intersect(d["p"][i], d["p"][j], w[0], w[1], **kw) for w in d["w"] for i, j in ((0, 1), (2, 3))]
        P[f"segments tol {n}"] = lambda d, kw=kw: G.segments_intersect(d["p"][0], d["p"][1], d["p"][2], d["p"][3], tol=0.3, **kw)
        P[f"contains {n}"] = lambda d, kw=kw: [G.Wall(xys=w).contains_parametric(d["s"][:1], **kw) for w in d["w"][:2]] + [G.Vertex(xy=d["p"][0]).contains_parametric(jnp.zeros(0), **{"approx": kw["approx"]})]
        P[f"blocks {n}"] = lambda d, kw=kw: [G.Wall(xys=w).intersects_cartesian(d["p"][:2], patch=p, **kw) for w in d["w"] for p in (0.0, 0.2)]
    P["path_length"] = lambda d: G.path_length(d["p"])
    P["normalize"] = lambda d: G.normalize(d["p"][0])
    P["closest"] = lambda d: [f(d["p"][1:], d["p"][0]) for f in (G.closest_point,)]
    P["point"] = lambda d: (G.Point(xy=d["p"][0]).bounding_box(), G.Point(xy=d["p"][0]).center(), [G.Vertex(xy=d["p"][1]).get_location(c) for c in ("N", "SW", "C")])
    P["grid"] = lambda d: [G.Wall(xys=d["w"][0]).grid(3, 4), G.Path(xys=d["p"]).grid(m=2), G.Wall(xys=d["p"][:2]).grid(5)]
    P["ray"] = lambda d: [[r.origin(), r.dest(), r.t(), r.bounding_box()] for r in (G.Ray(xys=d["p"][:2]), G.Wall(xys=d["p"][1:3]), G.RIS(xys=d["p"][2:4]))]
    P["rotate"] = lambda d: [G.Wall(xys=d["w"][0]).rotate(d["angle"], around=c).xys for c in (None, d["p"][0], G.Point(xy=d["p"][1]))]
    P["wall"] = lambda d: [
        (w.normal(), w.image_of(d["p"][0]), w.parametric_to_cartesian(d["s"][:1]), w.cartesian_to_parametric(d["p"][1]), w.evaluate_cartesian(d["p"][:3]), [v.xy for v in w.get_vertices()])
        for w in [G.Wall(xys=x) for x in d["w"]]
    ]
    P["surface"] = lambda d: [(w.evaluate_cartesian(d["p"][:3]), w.normal(), w.image_of(d["p"][4])) for w in [G.RIS(xys=d["w"][1], phi=d["angle"]), G.RIS(xys=d["w"][3])]]
    P["vertex"] = lambda d: [(v.parametric_to_cartesian(jnp.zeros(0)), v.cartesian_to_parametric(d["p"][1]), v.evaluate_cartesian(d["p"][:3]), v.intersects_cartesian(d["p"][:2], approx=False)) for v in [G.Vertex(xy=d["p"][3])]]
    P["sample"] = lambda d: [o.sample(d["key"]) for o in (G.Wall(xys=d["w"][0]), G.RIS(xys=d["w"][1]), G.Vertex(xy=d["p"][0]))]
    P["stack"] = lambda d: (G.stack_leaves([G.Wall(xys=w) for w in d["w"]]), G.stack_leaves([G.RIS(xys=w, phi=d["s"][i]) for i, w in enumerate(d["w"])], axis=0), [o.xys for o in G.unstack_leaves(G.stack_leaves([G.Wall(xys=w) for w in d["w"][1:]]))])
    P["parametric_to_cartesian"] = lambda d: G.parametric_to_cartesian([G.Wall(xys=d["w"][0]), G.Vertex(xy=d["p"][2]), G.RIS(xys=d["w"][1])], d["s"][:2], 3, d["p"][0], d["p"][1])

    def objs(d):
        return [G.Wall(xys=w) for w in d["w"]]

    opt = {"steps": 6}
    for cls, extra in (("Path", {}), ("ImagePath", {}), ("FermatPath", opt), ("MinPath", opt), ("MinPath", {"steps": 4, "many": 3})):
        for cand in ((), (0,), (1, 3), (2, 0, 1)):
            if extra.get("many") and len(cand) != 2 or len(cand) == 3 and cls != "ImagePath" and not deep:
                continue

            def tr(d, cls=cls, extra=extra, cand=cand):
                kw = dict(extra)
                if kw:
                    kw["key"] = d["key"]
                os_ = objs(d)
                io = [os_[i] for i in cand]
                if cls != "ImagePath" and len(cand) == 2:
                    io[0] = G.RIS(xys=io[0].xys, phi=0.3)
                p = getattr(G, cls).from_tx_objects_rx(G.Point(xy=d["p"][0]), io, G.Point(xy=d["p"][1]), **kw)
                return p.xys, p.loss, p.length(), p.bounding_box(), received_power(G.Point(xy=d["p"][0]), G.Point(xy=d["p"][1]), p, io)

            P[f"{cls} {cand} {extra.get('many', '')}"] = tr
    for n, kw in sets[: 3 if deep else 2]:
        for cand in ((), (0,), (1, 3)):

            def valid(d, kw=kw, cand=cand):
                os_ = objs(d)
                io = [os_[i] for i in cand]
                p = G.ImagePath.from_tx_objects_rx(d["p"][0], io, d["p"][1])
                c = jnp.array(cand, dtype=int)
                return [p.on_objects(io, **kw), p.intersects_with_objects(os_, c, patch=0.05, **kw), p.is_valid(os_, c, io, **kw), p.is_valid(os_, c, io, tol=0.3, patch=-0.02, **kw)]

            P[f"valid {n} {cand}"] = valid

    def loss(x, a, b=1.0):
        return jnp.sum((x - a) ** 2) * b + jnp.sum(jnp.sin(3 * x))

    P["minimize"] = lambda d: O.minimize(loss, d["s"][:3], (d["s"][3:],), steps=7)
    P["minimize momentum"] = lambda d: O.minimize(loss, d["s"][:2], (d["s"][4:], d["angle"]), steps=5, optimizer=optax.sgd(0.05, momentum=0.5))
    P["minimize closure"] = lambda d: O.minimize(lambda x: loss(x, d["s"][:3], d["angle"]), jnp.zeros(3), steps=5)
    P["minimize random"] = lambda d: O.minimize_random_uniform(lambda x: loss(x, d["s"][:2]), d["key"], 2, steps=5)
    P["minimize many"] = lambda d: O.minimize_many_random_uniform(lambda x: loss(x, d["s"][:2]), d["key"], 2, many=4, steps=5)

    def scene(d, kind="Wall"):
        os_ = objs(d)
        if kind == "mixed":
            os_ = [os_[0], G.RIS(xys=d["w"][1], phi=d["s"][0]), G.Vertex(xy=d["p"][4]), os_[3]]
        return Scene(
            transmitters={"b": G.Point(xy=d["p"][0]), "a": G.Point(xy=d["p"][2])}, receivers={"y": G.Point(xy=d["p"][1]), "x": G.Point(xy=d["p"][3])}, objects=os_
        )

    def small(d, n=3, both=True):
        """A scene of few paths, as compiling is what these programs cost."""
        tx = {"b": G.Point(xy=d["p"][0]), "a": G.Point(xy=d["p"][2])} if both else {"b": G.Point(xy=d["p"][0])}
        return Scene(transmitters=tx, receivers={"y": G.Point(xy=d["p"][1])}, objects=[G.Wall(xys=w) for w in d["w"][-n:]])

    P["scene box"] = lambda d: [(s.bounding_box(), s.center(), s.grid(3, 2), s.get_location("NE")) for s in (scene(d), scene(d, "mixed"))]
    P["scene objects"] = lambda d: (scene(d).get_object(d["i"]), scene(d).get_object(2), scene(d).stacked_objects(), [o.xys for o in Scene.from_stacked_objects(scene(d).stacked_objects()).objects], [o.xys for o in Scene.from_walls_array(d["w"]).objects])
    P["scene edits"] = lambda d: (lambda s: [s.update_transmitters(c=G.Point(xy=d["p"][4])), s.rename_receivers(x="z"), s.with_objects(*s.objects[::2]), s.add_objects(G.Wall(xys=d["w"][2]))])(scene(d))
    P["random scene"] = lambda d: Scene.random_uniform_scene(2, 3, 1, key=d["key"])
    P["named scenes"] = lambda d: [Scene.square_scene_with_obstacle(ratio=d["angle"], tx_coords=d["p"][0]), Scene.basic_scene(rx_coords=d["p"][1]), Scene.square_scene_with_wall(tx_coords=d["p"][2])]

    def fun(tx, rx, path, objects, *args, **kw):
        return received_power(tx, rx, path, objects) + 0.1 * path.length() + sum(args) + sum(kw.values())

    for n, kw in sets[: 3 if deep else 2]:
        P[f"paths {n}"] = lambda d, kw=kw: [(v, p.xys, c) for *_, v, p, c in small(d).all_paths(max_order=1, **kw)]
        P[f"paths surfaces {n}"] = lambda d, kw=kw: [(v, p.xys, p.loss) for *_, v, p, c in small(d, 2).with_objects(*[G.RIS(xys=w, phi=d["s"][k]) for k, w in enumerate(d["w"][1:3])]).all_paths(path_cls=G.MinPath, path_cls_kwargs={"steps": 3}, order=1, key=d["key"], **kw)]
        P[f"accumulate {n}"] = lambda d, kw=kw: [z for *_, z in small(d).accumulate_over_paths(fun, (d["s"][0],), {"q": d["angle"]}, max_order=1, **kw)]
        P[f"accumulate all {n}"] = lambda d, kw=kw: small(d, 2).accumulate_over_paths(fun, reduce_all=True, filter_objects=lambda o: isinstance(o, G.Wall), max_order=1, **kw)
        for who, g in itertools.product(("transmitters", "receivers"), ({}, {"value_and_grad": True}, {"grad": True, "reduce_all": True})):
            if not deep and (n, who, len(g)) not in (("exact", "receivers", 0), ("smooth", "transmitters", 0), ("smooth", "receivers", 1)):
                continue

            def grid(d, kw=kw, who=who, g=g):
                X, Y = jnp.meshgrid(d["p"][:2, 0] + 0.07, d["p"][3:4, 1] - 0.05)
                out = getattr(small(d, 2, not g), f"accumulate_on_{who}_grid_over_paths")(X, Y, fun, max_order=1, **g, **kw)
                return out if g.get("reduce_all") else [z for _, z in out]

            P[f"grid {who} {n} {'+'.join(g)}"] = grid
    diff = ["path_length", "normalize", "rotate", "segments tol smooth", "ImagePath (0,) ", "surface", "wall", "segments smooth", "valid smooth (0,)", "valid smooth (1, 3)", "ImagePath (1, 3) ", "ImagePath (2, 0, 1) ", "MinPath (0,) ", "minimize"]
    for n in diff if deep else diff[:5]:
        f = P[n]

        def tot(x, d, f=f):
            out = f({**d, **x})
            return sum(jnp.sum(v * (1 + k)) for k, v in enumerate(jax.tree_util.tree_leaves(out)))

        P[f"derivative of {n}"] = lambda d, tot=tot: jax.grad(tot)({k: jnp.asarray(d[k]) for k in ("p", "w", "s", "angle")}, d)
    return P


HEAVY = ("grid", "mixed", "scene", "wall", "surface", "ImagePath", "accumulate", "paths", "MinPath", "FermatPath", "valid", "derivative", "minimize")


def eager_programs():
    """Programs that choose by value in Python."""
    from differt2d import geometry as G
    from differt2d.scene import Scene

    def scene(d):
        return Scene(
            transmitters={"b": G.Point(xy=d["p"][0]), "a": G.Point(xy=d["p"][2])},
            receivers={"y": G.Point(xy=d["p"][1]), "x": G.Point(xy=d["p"][3])},
            objects=[G.Wall(xys=w) for w in d["w"]],
        )

    def mixed(d, **kw):
        s = scene(d)
        s = s.with_objects(s.objects[3], G.Vertex(xy=d["p"][4]), G.RIS(xys=d["w"][1], phi=d["s"][0]))
        return [(name(a), name(b), v, p.xys, p.loss) for a, b, v, p, c in s.all_paths(path_cls=G.MinPath, path_cls_kwargs={"steps": 3}, order=1, key=d["key"], **kw)]

    def name(n):
        return np.array([ord(c) for c in n])

    return {
        "closest tx": lambda d: [(name(n), p) for n, p in [scene(d).get_closest_transmitter(d["p"][4])]],
        "closest rx": lambda d: [(name(n), p) for n, p in [scene(d).get_closest_receiver(d["p"][4])]],
        "valid paths exact": lambda d: [(name(a), name(b), p.xys, c) for a, b, p, c in scene(d).all_valid_paths(approx=False, max_order=2)],
        "valid paths smooth": lambda d: [(name(a), name(b), p.xys, c) for a, b, p, c in scene(d).all_valid_paths(approx=True, alpha=40.0, max_order=1)],
        "mixed exact": lambda d: mixed(d, approx=False),
        "mixed smooth": lambda d: mixed(d, approx=True, alpha=9.0),
        "filtered by value": lambda d: [(name(a), name(b), v, p.xys) for a, b, v, p, c in scene(d).all_paths(approx=False, max_order=1, filter_objects=lambda o: bool(o.xys[0, 0] < d["s"][0]))],
    }


def flat(x):
    import jax

    return [np.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def differ(a, b, tol):
    if len(a) != len(b):
        return f"{len(a)} arrays instead of {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape or (x.dtype.kind != y.dtype.kind):
            return f"output {k}: {x.dtype}{x.shape} instead of {y.dtype}{y.shape}"
        if x.dtype.kind == "f":
            s = np.abs(y[np.isfinite(y)]).max(initial=1.0)
            if not np.allclose(x, y, rtol=tol, atol=tol * s, equal_nan=True):
                return f"output {k}: {x.tolist()} instead of {y.tolist()}"
        elif not np.array_equal(x, y):
            return f"output {k}: {x.tolist()} instead of {y.tolist()}"
    return None


def tree(d):
    import jax.numpy as jnp

    return {k: jnp.asarray(v, dtype=float if v.dtype.kind == "f" else None) for k, v in d.items()}


def modes(r, f, data, deep):
    """Yields (mode, input index, outputs)."""
    import equinox as eqx
    import jax
    import jax.numpy as jnp

    idx = [(r + i) % K for i in range(K)]

    def batch(ids):
        return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[data[i] for i in ids])

    def split(name, out, ids):
        out = flat(out)
        for n, i in enumerate(ids):
            yield name, i, [x[n] for x in out]

    if r == 0:
        with jax.disable_jit():
            for i in idx[: K if deep else 3]:
                yield "not compiled", i, flat(f(data[i]))
    elif r == 1:
        g = jax.jit(lambda d: f(d))
        h = eqx.filter_jit(lambda d: f(d))
        for i, j in itertools.product(range(K), repeat=2):
            for m in ((i, j) if not deep else (i, j, i)):
                yield "compiled", m, flat(g(data[m]))
            if i == j or deep:
                yield "filter-compiled", i, flat(h(data[i]))
    elif r == 2:
        yield from split("vectorised", jax.vmap(lambda d: f(d))(batch(idx)), idx)
        yield from split("batch of one", jax.vmap(lambda d: f(d))(batch(idx[:1])), idx[:1])
    elif r == 3:
        g = jax.jit(jax.vmap(lambda d: f(d)))
        for ids in (idx, idx[::-1], [idx[0]] * 3 + idx[1:6], idx):
            yield from split("compiled and vectorised", g(batch(ids)), ids)
    elif r == 4:
        # scanned, carrying something that must not matter
        def body(c, d):
            return c + 1.0, f(d)

        yield from split("scanned", jax.lax.scan(body, jnp.array(0.0), batch(idx))[1], idx)
        yield from split("scanned backwards", jax.lax.scan(body, jnp.array(0.0), batch(idx), reverse=True)[1], idx)
    elif r == 5:
        yield from split("mapped", jax.jit(lambda b: jax.lax.map(lambda d: f(d), b))(batch(idx)), idx)
        two = jax.tree_util.tree_map(lambda x: x.reshape(2, K // 2, *x.shape[1:]), batch(idx))
        out = jax.jit(jax.vmap(jax.jit(jax.vmap(lambda d: f(d)))))(two)
        yield from split("nested", [np.asarray(x).reshape(K, *np.shape(x)[2:]) for x in jax.tree_util.tree_leaves(out)], idx)
    elif r == 6:
        for i in idx[: 4 if deep else 2]:
            yield "closed over", i, flat(jax.jit(lambda i=i: f(data[i]))())
        c = jax.jit(lambda d, go: jax.lax.cond(go, lambda d: f(d), lambda d: f(jax.tree_util.tree_map(lambda x: x, d)), d))
        for i in idx[:2]:
            yield "conditional", i, flat(c(data[i], i % 2 == 0))
    else:
        yield from split("filter-vectorised", eqx.filter_vmap(lambda d: f(d))(batch(idx)), idx)
        # some of the data is shared by the batch
        b = batch(idx)
        for shared in ("w", "p"):
            ax = {k: None if k == shared else 0 for k in b}
            part = {**b, shared: data[idx[0]][shared]}
            out = flat(jax.jit(jax.vmap(lambda d: f(d), in_axes=(ax,)))(part))
            yield "shared " + shared, idx[0], [x[0] for x in out]
        ck = jax.checkpoint(lambda d: f(d))
        yield "checkpointed", idx[1], flat(ck(data[idx[1]]))


def shard(ctx, res, arg):
    import pickle

    import jax

    r, tmp, x64 = arg
    tol = 1e-8 if x64 else 3e-3
    data = [tree(d) for d in inputs()]
    progs = programs(ctx.deep)
    eager = eager_programs()
    names = sorted({**progs, **eager})
    at = r * len(names) // K
    names = names[at:] + names[:at]
    got = {}
    for k, n in enumerate(sorted(names)):
        if not ctx.deep and n.split()[0] in HEAVY and (k + r) % 2:
            names.remove(n)  # the other half of the modes is for the thorough run
    for n in names:
        f = progs.get(n) or eager[n]
        case = {"program": n, "precision": 64 if x64 else 32, "process": r}
        t0 = time.time()
        with res.case(case):
            for k in range(K):
                i = (r + k) % K
                got[n, i] = flat(f(data[i]))
                res.add(states=1, transitions=len(got[n, i]), traces=1)
            for i in ((r, (r + 3) % K) if not ctx.deep else range(K)):
                msg = differ(flat(f(data[i])), got[n, i], 0 if x64 else 1e-6)
                res.expect(msg is None, lambda: f"when repeated: {msg}", {**case, "input": i})
        if n in progs and all((n, i) in got for i in range(K)):
            with res.case({**case, "mode": r}):
                for mode, i, out in modes(r, f, data, ctx.deep):
                    msg = differ(out, got[n, i], tol)
                    res.expect(msg is None, lambda: f"{mode}: {msg}", {**case, "mode": mode, "input": i})
                    res.add(states=1, transitions=len(out), traces=1)
        jax.clear_caches()
        if os.environ.get("MC_VERBOSE") == "3":
            print(f"{time.time() - t0:7.1f}s {r} {n}", flush=True)
        if res.full():
            break
    res.count("programs", len(names) if r == 0 else 0)
    with open(os.path.join(tmp, f"{x64}-{r}"), "wb") as fh:
        pickle.dump(got, fh)
    res.sample(case)


def run(ctx, res):
    import pickle

    from ..core import run_shards

    for x64 in (True, False) if ctx.deep else (True,):
        tmp = tempfile.mkdtemp(prefix="c25-")
        try:
            run_shards(ctx, res, shard, [(r, tmp, x64) for r in range(K)], x64=x64)
            ref = {}
            # the first run of an input in a process has seen no other input of its program
            for r in range(K):
                path = os.path.join(tmp, f"{x64}-{r}")
                if not os.path.exists(path):
                    continue
                for (n, i), out in pickle.load(open(path, "rb")).items():
                    ref.setdefault((n, i), []).append((r, out))
            for (n, i), outs in ref.items():
                for r, out in outs[1:]:
                    msg = differ(out, outs[0][1], 1e-12 if x64 else 1e-5)
                    res.expect(msg is None, lambda: f"processes {outs[0][0]} and {r}, that ran the inputs in another order, disagree: {msg}", {"program": n, "input": i, "processes": [outs[0][0], r]})
                    res.add(states=1, transitions=len(out), traces=0)
        finally:
            shutil.rmtree(tmp)
