"""C13: grid accumulation equals point-by-point accumulation."""

import itertools

import numpy as np

from . import c11
from .c05 import reference
from .c11 import ORDERS, build_scene, coords, effective, filters, leaf, same, span

META = {
    "bounds": "both sides x 4 output modes x reduction x 7 grid shapes (1x1 to 4x2, irregular) x 0-3 fixed nodes x object sequences of up to 3 objects of 3 kinds x 9 order "
    "requests x 4 filters; all 128 option subsets; 7 special namings and sharings of nodes, 70 and 132 objects, 6 fixed nodes; custom node types on both sides; 6 real configurations compared at every cell with single-node accumulation",
    "counting": "state = (scene, side, mode, grid, request); transition = cell value or gradient compared; trace = complete grid call of the real code",
    "assumptions": ["random keys are handed to candidates in a free manner (only determinism, distinctness and dependence on the key are required)"],
}
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 2), (2, 2)]
LOG = []
_probe = []


def probe_class():
    """A traceable path class with a polynomial validity, which records how it is used."""
    if _probe:
        return _probe[0]
    import jax.numpy as jnp
    from differt2d.geometry import Path

    class Traced(Path):
        @classmethod
        def from_tx_objects_rx(cls, tx, objects, rx, *, key=None, **kwargs):
            tx = tx.xy if hasattr(tx, "xy") else tx
            rx = rx.xy if hasattr(rx, "xy") else rx
            LOG.append({"objects": [leaf(o) for o in objects], "key": None if key is None else np.asarray(key).tolist(), "kwargs": dict(kwargs)})
            return cls(xys=jnp.stack([tx, rx]))

        def is_valid(self, objects, path_candidate, interacting_objects, **kwargs):
            cand = [int(v) for v in path_candidate]
            LOG.append({"valid": cand, "objects": [leaf(o) for o in objects], "interacting": [leaf(o) for o in interacting_objects], "kwargs": dict(kwargs)})
            return valid_of(self.xys[0], self.xys[1], cand)

    _probe.append(Traced)
    return Traced


def valid_of(t, r, cand):
    s = sum((i + 1) * (c + 1) for i, c in enumerate(cand))
    return 0.5 + 0.125 * s + 0.25 * t[0] * r[1] + 0.0625 * (1 + len(cand)) * t[1]


def fun_of(t, r, gain_t, gain_r, cand, a, b):
    """Asymmetric in everything."""
    s = sum((i + 2) * (c + 1) for i, c in enumerate(cand))
    return a * (gain_t * (t[0] + 2 * t[1] * t[1]) + gain_r * (3 * r[0] * r[0] - r[1]) + t[0] * r[1] * (1 + 0.5 * s)) + b * (1 + t[1] * r[0])


def gains():
    """Custom node types: what the function sees depends on the type and its own fields."""
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.geometry import Point

    if "Antenna" not in _gain:

        class Antenna(Point):
            def gain(self):
                return 3.0

        class Tuned(Point):
            power: jnp.ndarray = eqx.field(converter=jnp.asarray, default_factory=lambda: jnp.array(1.0))

            def gain(self):
                return self.power

        _gain.update(Antenna=Antenna, Tuned=Tuned, Point=Point)
    return _gain


_gain = {}


def gain_of(node):
    return node.gain() if hasattr(node, "gain") else 1.0


class Fun:
    def __init__(self, scene):
        self.calls = []
        self.index = {repr(leaf(o)): i for i, o in enumerate(scene.objects)}

    def __call__(self, tx, rx, path, objects, *args, **kwargs):
        cand = [self.index[repr(leaf(o))] for o in objects]
        self.calls.append((type(tx).__name__, type(rx).__name__, args, kwargs))
        a = args[0] if args else kwargs.get("a", 1.0)
        b = args[1] if len(args) > 1 else kwargs.get("b", 0.0)
        return fun_of(tx.xy, rx.xy, gain_of(tx), gain_of(rx), cand, a, b)


FORMS = [((), None, 1.0, 0.0), ((2.0,), None, 2.0, 0.0), ((2.0, 0.5), {}, 2.0, 0.5), ((), {"a": 3.0, "b": -0.25}, 3.0, -0.25), ((4.0,), {"b": 1.5}, 4.0, 1.5)]


def grid(shape):
    """Irregular: neither coordinate is constant along an axis."""
    m, n = shape
    i, j = np.meshgrid(np.arange(m), np.arange(n), indexing="ij")
    return 0.3 + 0.5 * j + 0.125 * i, -0.25 + 0.75 * i - 0.0625 * j


def expected(side, fixed, gain_fixed, gain_moving, X, Y, cands, a, b):
    """Value and gradient at every cell, in double precision (polynomials, central differences are exact enough)."""

    def value(x, y):
        z = 0.0
        for c in cands:
            mv = (x, y)
            t, r = (mv, fixed) if side == "tx" else (fixed, mv)
            gt, gr = (gain_moving, gain_fixed) if side == "tx" else (gain_fixed, gain_moving)
            z = z + valid_of(t, r, c) * fun_of(t, r, gt, gr, c, a, b)
        return z + 0 * x

    h = 1e-4
    d = [value(X + h, Y) - value(X - h, Y), value(X, Y + h) - value(X, Y - h)]
    return value(X, Y), np.stack(d, axis=-1) / (2 * h)


def close(a, b):
    return np.shape(a) == np.shape(b) and np.all(np.abs(np.asarray(a, dtype=float) - b) <= 2e-4 * (1 + np.abs(b).max(initial=0)))


def one(res, scene, side, types, req, flt, excl, options, form, mode, shape, moving, case):
    import jax.numpy as jnp

    X, Y = grid(shape)
    Xj, Yj = jnp.asarray(X, dtype=float), jnp.asarray(Y, dtype=float)
    lo, hi = span(req)
    cands = reference(len(types), lo, hi, excl)
    args, kwargs, a, b = form
    fixed = scene.receivers if side == "tx" else scene.transmitters
    want = {k: expected(side, coords(p), float(gain_of(p)), 3.0 if moving == "Antenna" else 1.0, X, Y, cands, a, b) for k, p in fixed.items()}
    call = scene.accumulate_on_transmitters_grid_over_paths if side == "tx" else scene.accumulate_on_receivers_grid_over_paths
    kw = {**req, **options, "path_cls": probe_class()}
    if flt is not None:
        kw["filter_objects"] = flt
    if args:
        kw["fun_args"] = args
    if kwargs is not None:
        kw["fun_kwargs"] = dict(kwargs)
    if moving:
        kw["transmitter_cls" if side == "tx" else "receiver_cls"] = gains()[moving]
    if mode != "value":
        kw.update({"grad": {"grad": True}, "vg": {"value_and_grad": True}, "both": {"grad": True, "value_and_grad": True}}[mode])
    keys = None
    for reduce_all in (False, True):
        case = {**case, "reduce_all": reduce_all}
        LOG.clear()
        fun = Fun(scene)
        if reduce_all:
            got = {"all": call(Xj, Yj, fun, reduce_all=True, **kw)} if fixed else {}
            ref = {"all": tuple(sum(w[i] for w in want.values()) for i in (0, 1))} if fixed else {}
            if not fixed:
                z = call(Xj, Yj, fun, reduce_all=True, **kw)
                z = z if isinstance(z, tuple) else (z,)
                res.expect(all(np.all(np.asarray(v) == 0) for v in z), "the sum over no node is not zero", case)
        else:
            items = list(call(Xj, Yj, fun, **kw))
            res.expect([k for k, _ in items] == list(fixed), f"nodes {[k for k, _ in items]} instead of {list(fixed)}", case)
            got, ref = dict(items), want
        for k, (v, d) in ref.items():
            g = got.get(k)
            if mode in ("vg", "both"):
                ok = isinstance(g, tuple) and len(g) == 2 and close(g[0], v) and close(g[1], d)
            else:
                ok = not isinstance(g, tuple) and close(g, v if mode == "value" else d)
            res.expect(ok, lambda: f"node {k}: {str(g)[:300]} instead of {str((v, d))[:300]}", case)
            res.add(transitions=v.size * (1 if mode == "value" else 2 if mode == "grad" else 3))
        res.add(states=1, traces=1)
        opts = {x: y for x, y in options.items() if x not in ("key", "path_cls_kwargs")}
        objs = [leaf(o) for o in scene.objects]
        ks = []
        for rec in LOG:
            if "valid" in rec:
                ok = same(effective(rec["kwargs"]), effective(opts)) and rec["objects"] == objs and rec["interacting"] == [objs[i] for i in rec["valid"]] and tuple(rec["valid"]) in cands
            else:
                ok = same(rec["kwargs"], options.get("path_cls_kwargs") or {}) and (rec["key"] is None) == (options.get("key") is None)
                ks.append(rec["key"])
            res.expect(ok, lambda: f"use of the path class: {rec}", case)
        if options.get("key") is not None and fixed:
            res.expect(len({tuple(k) for k in ks}) >= len(cands), "several candidates share a random key", case)
            keys = sorted({tuple(k) for k in ks})
        mt = moving or "Point"
        for tt, rt, ar, kws in fun.calls:
            ft = {type(p).__name__ for p in fixed.values()}
            ok = (tt == mt and rt in ft) if side == "tx" else (rt == mt and tt in ft)
            res.expect(ok and same(dict(enumerate(ar)), dict(enumerate(args))) and same(kws, kwargs or {}), lambda: f"function called with {(tt, rt, ar, kws)}", case)
    return keys


def with_custom(scene):
    """Fixed nodes of several types, with fields of their own."""
    import jax.numpy as jnp

    def conv(nodes):
        out = {}
        for i, (k, p) in enumerate(nodes.items()):
            out[k] = [p, gains()["Tuned"](xy=p.xy, power=jnp.array(0.5 + i)), gains()["Antenna"](xy=p.xy)][i % 3]
        return out

    return scene.with_transmitters(**conv(scene.transmitters)).with_receivers(**conv(scene.receivers))


def shard_scenes(ctx, res, typess):
    import jax

    MODES = ("value", "grad", "vg", "both")
    i = 0
    for types in typess:
        for n_tx, n_rx in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (0, 0)):
            scene = with_custom(build_scene(n_tx, n_rx, types))
            for k, (flt, excl) in enumerate(filters(scene, types)):
                for j, req in enumerate(ORDERS):
                    n = len(reference(len(types), *span(req), excl))
                    if n > (13 if ctx.deep else 5) or (not ctx.deep and (j + k + n_tx + 2 * n_rx) % 6):
                        continue
                    for side in ("tx", "rx"):
                        i += 1
                        options = [{}, {"approx": True}, {"approx": False, "key": jax.random.PRNGKey(1)}, {"tol": 0.3}][i % 4]
                        mode, shape, form, moving = MODES[(i // 2) % 4], SHAPES[3], FORMS[i % 5], (None, "Antenna", "Tuned")[i % 3]
                        case = {"types": types, "n_tx": n_tx, "n_rx": n_rx, "filter": k, "request": req, "side": side, "mode": mode, "shape": shape, "form": form, "moving": moving, "options": options}
                        with res.case(case):
                            one(res, scene, side, types, req, flt, excl, options, form, mode, shape, moving, case)
                        if res.full():
                            return
    res.sample(case)


def shard_modes(ctx, res, side):
    """Full product of modes, shapes and moving types (thorough: and argument forms) on one scene."""
    side, mode = side
    scene = with_custom(build_scene(2, 2, "WV"))
    for i, (shape, form, moving) in enumerate(itertools.product(SHAPES, FORMS, (None, "Antenna"))):
        if not ctx.deep and i % 3 and shape != (2, 3):
            continue
        case = {"side": side, "mode": mode, "shape": shape, "form": form, "moving": moving}
        with res.case(case):
            one(res, scene, side, "WV", {"order": 1}, None, set(), {}, form, mode, shape, moving, case)
        if res.full():
            return


def shard_options(ctx, res, part):
    import contextlib

    import jax
    from differt2d.logic import enable_approx

    full = c11.all_options()
    for mask in range(part, 128, 8):
        options = {k: v for i, (k, v) in enumerate(full.items()) if mask >> i & 1}
        for side, default in itertools.product(("tx", "rx"), (False, True)):
            if "approx" in options:
                options = {**options, "approx": [True, False, None][(mask + default) % 3]}
            scene = build_scene(1, 1, "WV")
            flt, excl = list(filters(scene, "WV"))[mask % 4]
            mode = ("value", "grad", "vg")[mask % 3]
            case = {"options": sorted(options), "approx": options.get("approx", "unset"), "side": side, "default": default, "mode": mode}
            with res.case(case), (enable_approx() if default else contextlib.nullcontext()):
                one(res, scene, side, "WV", {}, flt, excl, options, FORMS[mask % 5], mode, (2, 3), None, case)
        if res.full():
            return
    for side in ("tx", "rx"):
        ks = []
        for seed in (1, 1, 2):
            case = {"keys": seed, "side": side}
            with res.case(case):
                ks.append(one(res, build_scene(1, 1, "WV"), side, "WV", {"max_order": 2}, None, set(), {"key": jax.random.PRNGKey(seed)}, FORMS[0], "value", (2, 3), None, case))
        res.expect(len(ks) == 3 and ks[0] == ks[1] and not set(ks[0]) & set(ks[2]), "keys of the paths do not follow the given key", {"side": side})


def shard_special(ctx, res, which):
    """Colliding names, shared nodes, many objects, several fixed nodes."""
    for i, (scene, types) in enumerate(c11.special_scenes()):
        if (i >= 7) != (which == "large"):
            continue
        for j, side in enumerate(("tx", "rx", "tx", "rx") if which != "large" else ("tx", "rx")):
            mode = ("value", "vg", "grad", "vg")[(i + j) % 4]
            case = {"special": i, "nodes": [list(scene.transmitters), list(scene.receivers)], "objects": len(types), "side": side, "mode": mode}
            req = {} if len(types) < 3 else {"order": 1} if j % 2 else {}
            with res.case(case):
                one(res, scene, side, types, req, None, set(), {"approx": True} if j else {}, FORMS[(i + j) % 5], mode, (2, 3) if len(types) < 3 else (1, 2), None, case)
            if res.full():
                return
    res.sample(case)


def shard_real(ctx, res, arg):
    """Received power on real scenes: every cell against single-node accumulation."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import Point
    from differt2d.logic import hard_sigmoid
    from differt2d.scene import Scene
    from differt2d.utils import received_power

    name, opts, side = arg
    if opts.get("function") == "hard":
        opts = {**opts, "function": hard_sigmoid}
    scene = c11.real_scenes()[name] if name in ("square", "surfaces", "twins") else Scene.from_scene_name(name)
    fk = {"r_coef": 0.4, "height": 0.3}
    xs, ys = np.array([0.07, 0.33, 0.81], dtype=np.float32), np.array([0.13, 0.52, 0.77, 0.91], dtype=np.float32)
    X, Y = jnp.meshgrid(jnp.asarray(xs), jnp.asarray(ys))
    call = scene.accumulate_on_transmitters_grid_over_paths if side == "tx" else scene.accumulate_on_receivers_grid_over_paths
    fixed = scene.receivers if side == "tx" else scene.transmitters

    def place(xy):
        return scene.with_transmitters(m=Point(xy=xy)) if side == "tx" else scene.with_receivers(m=Point(xy=xy))

    def per_node(xy):
        return {(r if side == "tx" else t): v for t, r, v in place(xy).accumulate_over_paths(received_power, fun_kwargs=fk, **opts)}

    jac = jax.jacrev(per_node)
    case = {"scene": name, "options": opts, "side": side}
    with res.case(case):
        plain = dict(call(X, Y, received_power, fun_kwargs=fk, **opts))
        vg = dict(call(X, Y, received_power, fun_kwargs=fk, value_and_grad=True, **opts))
        gr = dict(call(X, Y, received_power, fun_kwargs=fk, grad=True, **opts))
        sv, sg = call(X, Y, received_power, (), fk, value_and_grad=True, reduce_all=True, **opts)
        res.expect(list(plain) == list(vg) == list(gr) == list(fixed), "nodes", case)
        tv, tg = np.zeros(X.shape), np.zeros((*X.shape, 2))
        for i, j in itertools.product(range(4), range(3)):
            xy = jnp.array([X[i, j], Y[i, j]])
            want, dwant = per_node(xy), jac(xy)
            near = [jac(xy + jnp.array(e)) for e in ((1e-5, 0.0), (-1e-5, 0.0), (0.0, 1e-5), (0.0, -1e-5))]
            kinks = False
            cell = {**case, "cell": (i, j)}
            for k in fixed:
                tv[i, j] += float(want[k])
                v = [float(plain[k][i, j]), float(vg[k][0][i, j])]
                res.expect(np.allclose(v, float(want[k]), rtol=1e-3, atol=1e-4), f"node {k}: {v} instead of {want[k]}", cell)
                # where the quantity has a kink, any gradient between those around is right
                around = np.stack([np.asarray(dw[k]) for dw in (dwant, *near)])
                tol = 1e-2 * (1 + np.abs(around).max())
                kinks |= bool(np.ptp(around, axis=0).max() > tol)
                for d in (gr[k][i, j], vg[k][1][i, j]):
                    ok = np.all(np.asarray(d) >= around.min(axis=0) - tol) and np.all(np.asarray(d) <= around.max(axis=0) + tol)
                    res.expect(ok, f"node {k}: gradient {d} instead of {dwant[k]}", cell)
                tg[i, j] += np.asarray(vg[k][1][i, j], dtype=float)
                res.add(states=1, transitions=4, traces=1, skipped=kinks)
        res.expect(np.allclose(sv, tv, rtol=1e-3, atol=1e-4) and np.all(np.abs(np.asarray(sg) - tg) <= 2e-2 * (1 + np.abs(tg).max())), "wrong sums", case)
        res.sample(case)


def shard(ctx, res, s):
    {"s": shard_scenes, "o": shard_options, "r": shard_real, "m": shard_modes, "p": shard_special}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    pats = ["".join(p) for k in range(4 if ctx.deep else 3) for p in itertools.product("WRV", repeat=k)]
    if not ctx.deep:
        pats += ["WWW", "VRW"]
    real = [
        ("square", {"approx": False}, "tx"), ("square", {"approx": True, "alpha": 5.0}, "rx"), ("surfaces", {"approx": True, "alpha": 3.0, "tol": 0.5}, "tx"),
        ("square_scene_with_obstacle", {"approx": True, "alpha": 10.0, "function": "hard", "order": 1}, "rx"), ("basic_scene", {"approx": False, "max_order": 0, "patch": 0.1}, "tx"),
        ("twins", {"approx": True, "alpha": 20.0, "max_order": 2}, "rx"),
    ]  # fmt: skip
    jobs = [("p", "large"), ("p", "names")] + [("r", a) for a in real] + [("m", (s, m)) for s in ("tx", "rx") for m in ("value", "grad", "vg", "both")] + [("s", pats[i::12]) for i in range(12)] + [("o", i) for i in range(8)]
    run_shards(ctx, res, shard, jobs)
