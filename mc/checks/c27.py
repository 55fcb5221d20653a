"""C27: calls leave no trace in their arguments, in the settings, or in the results of other calls."""

import itertools
import os
import pickle
import tempfile

import numpy as np

META = {
    "bounds": "an alphabet of 37 operations over all modules (tracing with every method, accumulations, grids with gradients, edits, generators, GeoJSON, plots, logic, optimisers, objects, failing and abandoned calls), sharing their "
    "scenes, options, containers and arrays; from every operation as the first call of a fresh process: every ordered pair with it (quick), every ordered triple from it (thorough)",
    "counting": "state = position in a history; transition = call of the real code, compared with the same call made first in a fresh process; trace = fresh process",
    "assumptions": ["the global approximation mode is fixed (C01-C03 explore its changes)", "functions given by the user are pure"],
}


class World:
    """The arguments that all operations share."""

    def __init__(self):
        import jax
        import jax.numpy as jnp
        import matplotlib.pyplot as plt
        from differt2d import geometry as G
        from differt2d.scene import Scene

        plt.close(plt.figure())
        P = lambda x, y: G.Point(xy=jnp.array([x, y]))
        W = lambda a, b, c, d: G.Wall(xys=jnp.array([[a, b], [c, d]]))
        self.tx = {"t1": P(0.2, 0.3), "t0": P(0.8, 0.45)}
        self.rx = {"r": P(0.7, 0.9), "t1": P(0.4, 0.15)}
        self.objs = [W(0.0, 0.0, 1.0, 0.0), W(1.0, 0.0, 1.0, 1.0), W(0.5, 0.35, 0.6, 0.6)]
        self.more = [W(0.0, 0.25, 1.0, 0.25), W(0.0, 0.0, 0.0, 1.0), W(0.3, 0.35, 0.6, 0.9)]
        self.a = Scene(transmitters=self.tx, receivers=self.rx, objects=self.objs)
        self.b = Scene(transmitters=self.tx, receivers=self.rx, objects=self.more)
        self.mixed = Scene(transmitters=self.tx, receivers=self.rx, objects=[self.objs[0], G.RIS(xys=jnp.array([[1.0, 0.0], [1.0, 1.0]]), phi=jnp.array(0.4)), G.Vertex(xy=jnp.array([0.5, 0.6]))])
        self.small = Scene(transmitters={"t": P(0.3, 0.8)}, receivers={"t": P(0.9, 0.2)}, objects=self.more[1:])
        self.key = jax.random.PRNGKey(7)
        self.path_kwargs = {"steps": 5, "many": 2}
        self.fun_kwargs = {"r_coef": 0.25}
        self.options = {"approx": True, "alpha": 20.0}
        self.style = {"color": "green", "marker": "x"}
        self.styles = {"transmitters_kwargs": {"color": "purple"}, "objects_kwargs": {"linestyle": "--"}}
        self.steps = {"steps": 5}
        self.none = {}
        self.X, self.Y = np.meshgrid(np.array([0.1, 0.45, 0.9], dtype=np.float32), np.array([0.2, 0.75], dtype=np.float32))
        self.doc = {"type": "FeatureCollection", "features": [{"type": "Feature", "properties": {}, "geometry": {"type": "Polygon", "coordinates": [[[0.0, 0.0], [2.0, 0.0], [2.0, 1.0]]]}}]}
        self.candidate = np.array([2, 0], dtype=np.int32)
        self.path = G.Path(xys=jnp.array([[0.2, 0.3], [0.55, 0.475], [0.4, 0.0], [0.7, 0.9]]), loss=jnp.array(0.001))
        self.walls = np.array([[[0.0, 0.0], [1.0, 0.0]], [[1.0, 2.0], [0.0, 2.0]]], dtype=np.float32)

    def digest(self):
        """All arguments and the settings of the process, as they are now."""
        import jax
        import matplotlib as mpl
        from differt2d import logic

        args = {k: plain(v) for k, v in vars(self).items()}
        state = np.random.get_state()
        args["settings"] = [
            logic.ENABLE_APPROX,
            jax.config.jax_enable_x64,
            jax.config.jax_disable_jit,
            jax.config.jax_debug_nans,
            sorted((k, repr(v)) for k, v in mpl.rcParams.items() if not k.startswith("backend")),
            (state[0], state[1].tobytes(), state[2:]),
            sorted(os.environ.items()),
            os.getcwd(),
            np.geterr(),
        ]
        return args


def plain(x):
    """Anything, as plain data."""
    import jax

    if isinstance(x, dict):
        return ("dict", [(k, plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if isinstance(x, (str, bool, int, float, type(None))):
        return x
    if isinstance(x, (np.ndarray, np.generic, jax.Array)):
        a = np.asarray(x)
        return ("array", str(a.dtype), a.shape, a.tolist())
    leaves, tree = jax.tree_util.tree_flatten(x)
    if len(leaves) == 1 and leaves[0] is x:
        return repr(x)
    return (type(x).__name__, repr(tree), [plain(v) for v in leaves])


def close(a, b):
    """Equality of plain data, up to rounding."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("array",):
        return a[1:3] == b[1:3] and np.allclose(np.array(a[3], dtype=float), np.array(b[3], dtype=float), rtol=1e-5, atol=1e-6, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True))
    return a == b


def operations():
    import io
    import json

    import jax
    import jax.numpy as jnp
    import matplotlib.pyplot as plt
    import optax
    from differt2d import geometry as G
    from differt2d import logic as L
    from differt2d import optimize as O
    from differt2d.scene import Scene, all_path_candidates
    from differt2d.utils import received_power

    ops = {}

    def op(f):
        ops[f.__name__] = f
        return f

    def items(it):
        return [(g[0], g[1], *g[2:]) for g in it]

    def failed(f):
        try:
            f()
        except Exception as e:
            return type(e).__name__
        return "no error"

    def drawn(scene, **kw):
        fig, (ax, other) = plt.subplots(1, 2)
        try:
            arts = scene.plot(ax, **kw)
            out = []
            for a in arts:
                d = {k: getattr(a, f"get_{k}")() for k in ("color", "facecolor", "linestyle", "linewidth", "alpha", "text", "markersize") if hasattr(a, f"get_{k}")}
                pos = a.get_offsets() if hasattr(a, "get_offsets") else a.get_xydata() if hasattr(a, "get_xydata") else a.xy
                out.append((type(a).__name__, np.asarray(pos, dtype=float), repr(d)))
            return out, len(ax.get_children()), len(other.get_children())
        finally:
            plt.close(fig)

    # tracing
    @op
    def image_a(w):
        return items(w.a.all_paths(max_order=2, approx=False))

    @op
    def image_b(w):
        return items(w.b.all_paths(max_order=2, approx=False))

    @op
    def image_smooth(w):
        return items(w.a.all_paths(order=1, **w.options))

    @op
    def image_tol(w):
        return items(w.a.all_valid_paths(order=1, approx=False, tol=0.4, patch=-0.2))

    @op
    def fermat(w):
        return items(w.a.all_paths(G.FermatPath, w.steps, order=1, key=w.key, approx=False))

    @op
    def least(w):
        return items(w.a.all_paths(G.MinPath, w.path_kwargs, order=1, key=w.key, approx=False))

    @op
    def least_mixed(w):
        return items(w.mixed.all_paths(G.MinPath, w.steps, order=1, key=w.key, **w.options))

    @op
    def straight(w):
        return items(w.mixed.all_paths(G.Path, w.none, max_order=1, approx=False))

    @op
    def candidates(w):
        return [w.a.all_path_candidates(max_order=2), all_path_candidates(4, order=1), all_path_candidates(4, max_order=2, filter_nodes=[1])]

    @op
    def candidates_filtered(w):
        first = w.a.objects[0]
        return [w.a.all_path_candidates(max_order=2, filter_objects=lambda o: o is first or bool(o.xys[0, 0] > 0.7)), w.a.all_path_candidates(max_order=1, filter_objects=lambda o: False)]

    @op
    def judged(w):
        c = jnp.array(w.candidate)
        return [
            f
            for kw in ({"approx": False}, {**w.options, "function": L.hard_sigmoid}, w.options)
            for f in (w.path.on_objects([w.objs[2], w.objs[0]], **kw), w.path.intersects_with_objects(w.objs, c, **kw), w.path.is_valid(w.objs, c, [w.objs[2], w.objs[0]], **kw), w.path.length())
        ]

    # accumulations
    @op
    def total(w):
        return w.a.accumulate_over_paths(received_power, fun_kwargs=w.fun_kwargs, reduce_all=True, **w.options)

    @op
    def per_pair(w):
        return items(w.b.accumulate_over_paths(received_power, (0.75,), w.none, order=1, path_cls_kwargs=w.none, **w.options))

    @op
    def receivers(w):
        return w.a.accumulate_on_receivers_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), received_power, fun_kwargs=w.fun_kwargs, reduce_all=True, **w.options)

    @op
    def receivers_gradient(w):
        return list(w.small.accumulate_on_receivers_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), received_power, value_and_grad=True, order=1, **w.options))

    @op
    def transmitters(w):
        return list(w.a.accumulate_on_transmitters_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), received_power, fun_kwargs=w.none, max_order=1, path_cls_kwargs=w.none, **w.options))

    @op
    def transmitters_optimised(w):
        return list(w.small.accumulate_on_transmitters_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), received_power, grad=True, order=1, path_cls=G.MinPath, path_cls_kwargs=w.steps, key=w.key, **w.options))

    # scenes
    @op
    def edits(w):
        p = w.rx["r"]
        return [
            w.a.with_transmitters(x=p),
            w.a.update_transmitters(t1=p, n=p),
            w.a.update_receivers(n=p, **w.tx),
            w.a.rename_transmitters(t1="t0", t0="t1"),
            w.a.rename_receivers(r="z"),
            w.a.with_objects(*w.more).add_objects(*w.objs),
            w.mixed.filter_objects(lambda o: isinstance(o, G.Wall)),
            w.a.with_receivers(),
        ]

    @op
    def rebuilt(w):
        return [w.a.stacked_objects(), Scene.from_stacked_objects(w.a.stacked_objects()), Scene.from_walls_array(jnp.array(w.walls)), w.a.get_object(1), w.b.get_object(1), G.unstack_leaves(G.stack_leaves(w.objs))]

    @op
    def generated(w):
        return [Scene.random_uniform_scene(2, 3, 1, key=w.key), Scene.random_uniform_scene(key=w.key), Scene.from_scene_name("square_scene_with_obstacle", ratio=0.3)]

    @op
    def generated_default(w):
        return [Scene.from_scene_name(n) for n in ("basic_scene", "square_scene", "square_scene_with_wall", "square_scene_with_obstacle")]

    @op
    def generated_given(w):
        c = {"tx_coords": jnp.array([0.3, 0.35]), "rx_coords": jnp.array([0.9, 0.1])}
        return [Scene.basic_scene(**c), Scene.square_scene(**c), Scene.square_scene_with_wall(0.2, **c), Scene.square_scene_with_obstacle(0.4, **c)]

    @op
    def document(w):
        text = json.dumps(w.doc)
        return [Scene.from_geojson(text), Scene.from_geojson(text.encode(), tx_loc="C", rx_loc="N"), Scene.from_geojson(io.StringIO(text), rx_loc="W")]

    @op
    def document_empty(w):
        return [Scene.from_geojson("{}"), Scene.from_geojson('{"features": []}', tx_loc="S")]

    @op
    def places(w):
        p = jnp.array([0.6, 0.4])
        return [
            [s.bounding_box(), s.center(), s.grid(3, 2), s.grid(n=2), *(s.get_location(x) for x in ("N", "SW", "C")), s.get_closest_transmitter(p), s.get_closest_receiver(p)] for s in (w.a, w.b, w.mixed)
        ]

    # objects, logic, optimisers
    @op
    def objects(w):
        wall, ris = w.objs[2], w.mixed.objects[1]
        p, ray, turn = jnp.array([0.1, 0.7]), jnp.array([[0.0, 0.5], [1.0, 0.55]]), jnp.array([[0.2, 0.3], [1.0, 0.5], [0.7, 0.9]])
        return [[o.cartesian_to_parametric(p), o.intersects_cartesian(ray, approx=False), o.intersects_cartesian(ray, patch=0.3, **w.options), o.evaluate_cartesian(turn), o.sample(w.key), o.rotate(0.0)] for o in (wall, ris)] + [
            wall.image_of(p),
            ris.normal(),
            wall.get_vertices(),
            wall.rotate(jnp.array(jnp.pi), jnp.array([0.55, 0.475])),
        ]

    @op
    def logic_custom(w):
        x, y = jnp.array([0.1, -0.2, 0.0]), jnp.array([0.05, 0.3, 0.0])
        kw = {"approx": True, "alpha": 3.0, "function": L.hard_sigmoid}
        a, b = L.greater(x, y, **kw), L.less_equal(x, y, **kw)
        return [a, b, L.logical_and(a, b, approx=True), L.logical_all(a, b, approx=True), L.is_true(a, approx=True), L.activation(x, alpha=2.0)]

    @op
    def logic_default(w):
        x, y = jnp.array([0.1, -0.2, 0.0]), jnp.array([0.05, 0.3, 0.0])
        a, b = L.greater(x, y), L.less_equal(x, y)
        return [a, b, L.greater(x, y, approx=True), L.logical_or(a, b), L.logical_not(a), L.true_value(), L.false_value(approx=True), L.activation(x)]

    quad = lambda x: jnp.sum((x - 0.25) ** 2)
    other = lambda x: jnp.sum((x + 0.75) ** 2)

    @op
    def minimised(w):
        return [O.minimize(quad, jnp.array([1.0, 0.5]), steps=8), O.minimize(other, jnp.array([1.0, 0.5]), steps=8)]

    @op
    def minimised_custom(w):
        return [O.minimize(quad, jnp.array([1.0, 0.5]), steps=8, optimizer=optax.sgd(0.1)), O.minimize(lambda x, c: quad(x) + c, jnp.array([1.0, 0.5]), args=(2.0,), steps=3)]

    @op
    def minimised_random(w):
        return [O.minimize_random_uniform(quad, w.key, 2, steps=4), O.minimize_many_random_uniform(other, w.key, 3, steps=4), O.minimize_many_random_uniform(quad, w.key, 3, many=2, steps=4, optimizer=optax.sgd(0.1))]

    # plots
    @op
    def plot_default(w):
        return drawn(w.a, transmitters_kwargs=w.none, objects_kwargs=w.none, receivers_kwargs=w.none), drawn(w.mixed, annotate=False)

    @op
    def plot_styled(w):
        return drawn(w.b, **w.style), drawn(w.a, **w.styles), drawn(w.b, receivers=False, **w.styles)

    @op
    def plot_parts(w):
        fig, ax = plt.subplots()
        try:
            out = []
            for x in (w.path, w.objs[0], w.tx["t1"], w.mixed.objects[1], w.mixed.objects[2], w.objs[1]):
                for kw in ({}, w.style, {}):
                    (a, *_) = x.plot(ax, **kw)
                    out.append((type(a).__name__, repr(a.get_facecolor() if hasattr(a, "get_facecolor") else a.get_color())))
            return out
        finally:
            plt.close(fig)

    # calls that fail, or that are given up
    @op
    def failing(w):
        def broken(*args):
            raise KeyError("fun")

        return [
            failed(lambda: Scene.from_scene_name("nowhere")),
            failed(lambda: Scene.from_geojson(3)),
            failed(lambda: Scene.from_geojson("{")),
            failed(lambda: w.a.accumulate_over_paths(broken, reduce_all=True, approx=False)),
            failed(lambda: list(w.a.all_paths(filter_objects=broken))),
            failed(lambda: list(w.a.accumulate_on_receivers_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), broken, approx=True))),
            failed(lambda: O.minimize(broken, jnp.array([1.0]))),
            failed(lambda: w.mixed.stacked_objects()),
            failed(lambda: w.a.get_location("?")),
        ]

    @op
    def failing_scope(w):
        def stop():
            with L.enable_approx():
                raise ValueError

        def close():
            def g():
                with L.enable_approx(), L.disable_approx():
                    yield 1
                    raise ValueError

            it = g()
            next(it)
            it.close()
            return L.ENABLE_APPROX

        return failed(stop), close(), L.ENABLE_APPROX

    @op
    def abandoned(w):
        its = [
            w.a.all_paths(max_order=2, approx=False),
            w.b.all_valid_paths(approx=True, order=1),
            w.a.accumulate_over_paths(received_power, fun_kwargs=w.fun_kwargs, approx=False),
            w.a.accumulate_on_receivers_grid_over_paths(jnp.array(w.X), jnp.array(w.Y), received_power, fun_kwargs=w.fun_kwargs, approx=True),
            w.b.all_paths(G.MinPath, w.path_kwargs, order=1, key=w.key, approx=False),
        ]
        return [next(it) for it in its + its[:2]]

    return ops


def history(names, first, deep):
    """Every ordered pair with the first operation, or every ordered triple from it."""
    i = names.index(first)
    rest = names[i:] + names[:i]
    yield first
    for x in rest:
        yield x
        yield first
    if deep:
        for x, y in itertools.product(rest, rest):
            yield x
            yield y
            yield first


def shard(ctx, res, arg):
    first, where = arg
    w = World()
    ops = operations()
    names = list(ops)
    before = w.digest()
    seen = {}
    last = []
    for n, name in enumerate(history(names, first, ctx.deep)):
        case = {"first call": first, "position": n, "just before": list(last), "call": name}
        with res.case(case):
            got = plain(ops[name](w))
            if name not in seen:
                seen[name] = (case, got)
            else:
                ref = seen[name][1]
                res.expect(close(got, ref), lambda: f"the result is {str(got)[:300]} and not {str(ref)[:300]} any more", case)
            after = w.digest()
            if after != before:
                for k in before:
                    res.expect(after[k] == before[k], lambda: f"the call changed {k} from {str(before[k])[:200]} to {str(after[k])[:200]}", case)
                before = after
        res.add(states=1, transitions=1)
        last = (last + [name])[-2:]
        if res.full():
            break
    res.add(traces=1)
    with open(os.path.join(where, first), "wb") as f:
        pickle.dump(seen, f)


def run(ctx, res):
    from ..core import run_shards

    names = list(operations())
    with tempfile.TemporaryDirectory() as where:
        run_shards(ctx, res, shard, [(n, where) for n in names], fresh=True)
        if res.nviol:
            return
        seen = {}
        for n in names:
            with open(os.path.join(where, n), "rb") as f:
                seen[n] = pickle.load(f)
    for n in names:
        for name, (case, got) in seen[n].items():
            ref = seen[name][name][1]
            res.expect(close(got, ref), lambda: f"the result is {str(got)[:300]} and not {str(ref)[:300]} as in a fresh process", case)
            res.add(transitions=1)
    res.sample({"operations": names})
