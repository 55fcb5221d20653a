"""C12: accumulation over paths is the validity-weighted sum per pair."""

import itertools

import numpy as np

from . import c11
from .c05 import reference
from .c11 import LOG, ORDERS, SCRIPT, build_scene, coords, effective, filters, interleavings, leaf, probe_class, same, script_exact, script_smooth, span

META = {
    "bounds": "0-3 transmitters x 0-3 receivers x every sequence of up to 2 objects of 3 kinds (thorough 3) x 9 order requests x 4 filters; all 128 option subsets; "
    "all argument forms; 7 special namings and sharings of nodes, 30 pairs, 70 and 132 objects; every triple of finite, huge, infinite and undefined values; all interleavings of two 3-step iterations; received power on 4 real scenes x 6 option sets",
    "counting": "state = (scene, request, form); transition = pair sum compared; trace = complete accumulation by the real code",
    "assumptions": ["the function is free to be evaluated on invalid paths too (its value is weighted by zero)"],
}


def weight(tx, rx, cand, a, b):
    """A value that identifies its arguments."""
    h = 1.0 + 3.0 * tx[0] + 7.0 * rx[1] + sum((i + 1) * (c + 1) * 0.37 for i, c in enumerate(cand)) + 11.0 * len(cand)
    return h * a + b


class Fun:
    """The accumulated function: records its arguments."""

    def __init__(self, scene):
        self.calls = []
        self.scene = scene

    def __call__(self, tx, rx, path, objects, *args, **kwargs):
        import jax.numpy as jnp

        rec = LOG[int(path.xys[0, 0])]
        self.calls.append((leaf(tx), leaf(rx), rec, [leaf(o) for o in objects], args, kwargs, isinstance(objects, (list, tuple))))
        a = args[0] if args else kwargs.get("a", 1.0)
        b = args[1] if len(args) > 1 else kwargs.get("b", 0.0)
        return jnp.array(weight(coords(tx), coords(rx), rec["valid"]["candidate"], a, b))


FORMS = [
    ((), None, 1.0, 0.0), ((2.0,), None, 2.0, 0.0), ((2.0, 0.5), {}, 2.0, 0.5), ((), {"a": 3.0, "b": -0.25}, 3.0, -0.25), ((4.0,), {"b": 1.5}, 4.0, 1.5),
    # repeated, falsy, unhashable and colliding values
    ((2.0, 2.0), None, 2.0, 2.0), ((0.0, 0.0, None, None, 0), {"extra": None}, 0.0, 0.0), ((1.5, 3.0, [1, 1], [1, 1], {"a": 1}), {"zero": 0, "empty": ()}, 1.5, 3.0),
    ((), {"order": 7, "key": "k", "reduce_all": False, "fun": 1, "fun_args": (), "min_order": -1, "filter_objects": None, "approx": "x", "b": 2.0}, 1.0, 2.0),
]  # fmt: skip


def accumulate(res, scene, types, req, flt, excl, options, form, case, default=False):
    probe = probe_class()
    ap = options.get("approx", default)
    smooth = default if ap is None else ap
    SCRIPT[0] = script_smooth if smooth else script_exact
    args, kwargs, a, b = form
    kw = {**req, **options, "path_cls": probe}
    if flt is not None:
        kw["filter_objects"] = flt
    if args:
        kw["fun_args"] = args
    if kwargs is not None:
        kw["fun_kwargs"] = dict(kwargs)
    lo, hi = span(req)
    want = []
    for t, r in itertools.product(scene.transmitters, scene.receivers):
        x, y = coords(scene.transmitters[t]), coords(scene.receivers[r])
        want.append((t, r, sum(float(SCRIPT[0](x, y, c)) * weight(x, y, c, a, b) for c in reference(len(types), lo, hi, excl))))
    for reduce_all in (False, True):
        LOG.clear()
        fun = Fun(scene)
        case = {**case, "reduce_all": reduce_all}
        if reduce_all:
            z = scene.accumulate_over_paths(fun, reduce_all=True, **kw)
            total = sum(w for *_, w in want)
            res.expect(np.shape(z) == () and abs(float(z) - total) <= 1e-4 * (1 + abs(total)), f"total {z} instead of {total}", case)
            res.add(states=1, transitions=1, traces=1)
        else:
            got = [(t, r, np.asarray(v)) for t, r, v in scene.accumulate_over_paths(fun, **kw)]
            res.expect([g[:2] for g in got] == [w[:2] for w in want], lambda: f"pairs {[g[:2] for g in got]} instead of {[w[:2] for w in want]}", case)
            for g, w in zip(got, want):
                ok = g[2].shape == () and g[2].dtype.kind == "f" and abs(float(g[2]) - w[2]) <= 1e-4 * (1 + abs(w[2]))
                res.expect(ok, lambda: f"pair {w[:2]}: {g[2]} instead of {w[2]}", case)
            res.add(states=1, transitions=len(want) + 1, traces=1)
        for tx, rx, rec, objs, ar, kws, seq in fun.calls:
            c = rec["valid"]["candidate"]
            ok = seq and tx[1] == rec["tx"] and rx[1] == rec["rx"] and objs == [leaf(scene.objects[i]) for i in c] and same(dict(enumerate(ar)), dict(enumerate(args))) and same(kws, kwargs or {})
            ok = ok and tx in [leaf(p) for p in scene.transmitters.values()] and rx in [leaf(p) for p in scene.receivers.values()]
            res.expect(ok, lambda: f"function called with {(tx, rx, objs, ar, kws)} for the path {rec}", case)
        opts = {k: v for k, v in options.items() if k not in ("key", "path_cls_kwargs")}
        for rec in LOG:
            res.expect(same(rec["kwargs"], options.get("path_cls_kwargs") or {}) and (rec["key"] is None) == (options.get("key") is None), lambda: f"method options {rec}", case)
            if rec["valid"]:
                res.expect(same(effective(rec["valid"]["kwargs"]), effective(opts)), lambda: f"validity options {rec['valid']['kwargs']}", case)


def shard_scenes(ctx, res, typess):
    import jax

    for types in typess:
        for n_tx, n_rx in itertools.product(range(4), range(4)):
            scene = build_scene(n_tx, n_rx, types)
            for k, (flt, excl) in enumerate(filters(scene, types)):
                for j, req in enumerate(ORDERS):
                    if span(req)[1] == 2 and n_tx * n_rx > (9 if ctx.deep else 2):
                        continue
                    options = [{}, {"approx": True}, {"approx": False, "key": jax.random.PRNGKey(1)}][(j + k) % 3]
                    form = FORMS[(n_tx + n_rx + j + k) % len(FORMS)]
                    case = {"types": types, "n_tx": n_tx, "n_rx": n_rx, "filter": k, "request": req, "options": options, "form": form}
                    with res.case(case):
                        accumulate(res, scene, types, req, flt, excl, options, form, case)
                    if res.full():
                        return
    res.sample(case)


def shard_options(ctx, res, part):
    import contextlib

    from differt2d.logic import enable_approx

    full = c11.all_options()
    for mask in range(part, 128, 8):
        options = {k: v for i, (k, v) in enumerate(full.items()) if mask >> i & 1}
        for types, default in itertools.product(("WW", "WV"), (False, True)):
            for ap in (None, False, True) if "approx" in options else (0,):
                opts = {**options, "approx": ap} if ap != 0 or "approx" in options else options
                scene = build_scene(2, 2, types)
                flt, excl = list(filters(scene, types))[mask % 4]
                case = {"options": sorted(opts), "approx": opts.get("approx", "unset"), "default": default, "types": types}
                with res.case(case), (enable_approx() if default else contextlib.nullcontext()):
                    accumulate(res, scene, types, {}, flt, excl, opts, FORMS[mask % len(FORMS)], case, default)
        if res.full():
            return
    # interleaved accumulations: lazily evaluated sums must not mix
    SCRIPT[0] = script_exact
    probe = probe_class()
    scenes = [build_scene(1, 3, "W"), build_scene(3, 1, "WV")]
    fs = [Fun(s) for s in scenes]
    LOG.clear()
    alone = [[(t, r, float(v)) for t, r, v in s.accumulate_over_paths(f, path_cls=probe)] for s, f in zip(scenes, fs)]
    for pair in ((0, 0), (0, 1), (1, 1)):
        for m in interleavings([3, 3]):
            case = {"schedule": m, "pair": pair}
            with res.case(case):
                its = [scenes[k].accumulate_over_paths(fs[k], path_cls=probe) for k in pair]
                pos = [0, 0]
                for i in m:
                    t, r, v = next(its[i])
                    res.expect((t, r, float(v)) == alone[pair[i]][pos[i]], f"step {pos[i]} of {i}: {(t, r, v)}", case)
                    pos[i] += 1
                res.add(states=1, transitions=6, traces=1)


def shard_special(ctx, res, _):
    """Colliding names, shared nodes, many objects, many pairs."""
    import jax

    for i, (scene, types) in enumerate(c11.special_scenes()):
        for j, (req, opts) in enumerate([({}, {}), ({"order": 1}, {"approx": True}), ({"order": 0}, {"key": jax.random.PRNGKey(3)}), ({"max_order": 2}, {"approx": True})]):
            if j == 3 and len(types) > 3:
                continue
            case = {"special": i, "nodes": [list(scene.transmitters), list(scene.receivers)], "objects": len(types), "request": req}
            with res.case(case):
                accumulate(res, scene, types, req, None, set(), opts, FORMS[(i + j) % len(FORMS)], case)
            if res.full():
                return
    res.sample(case)
    # infinite, undefined, and huge values
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.scene import Scene

    scene = Scene(transmitters={"t": Point(xy=jnp.array([0.0, 0.0]))}, receivers={str(i): Point(xy=jnp.array([1.0 + i, 0.0])) for i in range(3)})
    for values in itertools.product((1.5, np.inf, -np.inf, np.nan, 3e38, 1e-30), repeat=3):
        fun = lambda tx, rx, path, objs: jnp.array(values[round(float(rx.xy[0])) - 1])
        case = {"values": values}
        with res.case(case), np.errstate(all="ignore"):
            want = np.float32(0.0)
            for (t, r, v), w in zip(scene.accumulate_over_paths(fun, approx=False), values):
                res.expect(np.array_equal(v, np.float32(w), equal_nan=True), f"pair {r}: {v} instead of {w}", case)
                want += np.float32(w)
            z = scene.accumulate_over_paths(fun, reduce_all=True, approx=False)
            res.expect(np.allclose(z, want, rtol=1e-5, atol=0, equal_nan=True) or np.isinf(want) and np.isfinite(values).all(), f"total {z} instead of {want}", case)
        res.add(states=1, transitions=4, traces=1)


def shard_real(ctx, res, arg):
    """Received power through the real methods, against sums over traced paths."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, MinPath, Path
    from differt2d.logic import hard_sigmoid
    from differt2d.utils import received_power

    name, cname = arg
    scene = c11.real_scenes()[name]
    cls = {"image": ImagePath, "min": MinPath, "path": Path}[cname]
    base = {"path_cls": cls} if cname != "image" else {}
    if cname == "min":
        base.update(path_cls_kwargs={"steps": 10}, key=jax.random.PRNGKey(2))

    def by_nodes(tx, rx, path, objects, c=1.0):
        return c * (tx.xy[0] + 2 * rx.xy[1]) + path.length() + len(objects)

    for j, opts in enumerate([{}, {"approx": True}, {"approx": False, "max_order": 2}, {"approx": True, "alpha": 4.0, "function": hard_sigmoid}, {"tol": 0.5, "patch": -0.3}, {"order": 1, "approx": True, "patch": 0.1}]):
        if cname != "image" and j not in (0, 3):
            continue
        for fun, fa, fk in ((received_power, (), {"r_coef": 0.3, "height": 0.2}), (by_nodes, (2.0,), {})):
            case = {"scene": name, "method": cname, "options": opts, "function": getattr(fun, "__name__", "received_power")}
            with res.case(case):
                kw = {**base, **opts}
                want = {(t, r): 0.0 for t in scene.transmitters for r in scene.receivers}
                for t, r, v, path, c in scene.all_paths(**kw):
                    x = np.asarray(path.xys, dtype=float)
                    ln = np.sqrt((np.diff(x, axis=0) ** 2).sum(1)).sum()
                    tx, rx = np.asarray(scene.transmitters[t].xy, float), np.asarray(scene.receivers[r].xy, float)
                    w = 0.3 ** len(c) / (0.04 + ln**2) if fun is received_power else 2.0 * (tx[0] + 2 * rx[1]) + ln + len(c)
                    want[t, r] += float(v) * w
                got = {(t, r): float(v) for t, r, v in scene.accumulate_over_paths(fun, fa, fk, **kw)}
                res.expect(list(got) == list(want), f"pairs {list(got)}", case)
                for k in want:
                    res.expect(abs(got.get(k, np.nan) - want[k]) <= 1e-4 * (1 + abs(want[k])), f"pair {k}: {got.get(k)} instead of {want[k]}", case)
                z = scene.accumulate_over_paths(fun, fun_args=fa, fun_kwargs=fk, reduce_all=True, **kw)
                total = sum(want.values())
                res.expect(abs(float(z) - total) <= 1e-4 * (1 + abs(total)), f"total {z} instead of {total}", case)
                res.add(states=2, transitions=len(want) + 1, traces=2)
            if res.full():
                return


def shard(ctx, res, s):
    {"s": shard_scenes, "o": shard_options, "r": shard_real, "p": shard_special}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    pats = ["".join(p) for k in range(4 if ctx.deep else 3) for p in itertools.product("WRV", repeat=k)]
    if not ctx.deep:
        pats += ["WWW", "VRW"]
    pats.sort(key=len, reverse=True)
    real = [("square", "image"), ("twins", "image"), ("mixed", "min"), ("surfaces", "image"), ("vertices", "min"), ("square", "path")]
    run_shards(ctx, res, shard, [("p", 0)] + [("r", a) for a in real] + [("s", pats[i::12]) for i in range(12)] + [("o", i) for i in range(8)])
