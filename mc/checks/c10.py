"""C10: parametrisation, containment, mirror images, sampling and residuals of every object."""

import itertools

import numpy as np

from .. import geo
from .c06 import TRANSFORMS, transform
from .c08 import funs

META = {
    "bounds": "all segments of a 4x4 lattice (thorough 5x5) x 5 similarity transforms, as walls and surfaces; 25 parameters (rounding neighbours of 0 and 1 "
    "included) and 25-36 points per object; residuals of all point triples of a 3x3 lattice x walls x 7 angles; 64 sampling keys",
    "counting": "state = (object, transform, parameter / point / triple / key); transition = relation compared; trace = answers of the real methods compared",
    "assumptions": ["zero-length objects have no normal and are left to the NaN checks of C14"],
}
EPS = 1.2e-7


def params():
    f = np.float32
    z, o = f(0), f(1)
    near = [np.nextafter(z, f(-1)), np.nextafter(z, f(1)), np.nextafter(o, f(0)), np.nextafter(o, f(2)), f(-1e-6), f(1e-6), f(1 - 1e-5), f(1 + 1e-5)]
    # denormal numbers may be flushed to zero by the backend: use the smallest normal ones instead
    near[:2] = [f(-1.2e-38), f(1.2e-38)]
    return np.array([-7.0, -1.0, -0.25, -0.01, 0.0, 0.01, 0.25, 0.3, 0.5, 0.75, 0.99, 1.0, 1.01, 1.25, 2.0, 9.0, *near], dtype=np.float32)


def points():
    return np.concatenate([geo.lattice(5) - 0.5, [[10.0, -3.0], [0.0, 0.0], [3.0, 3.0], [1.0, 2.0], [-4.0, 7.0]]])


def check(res, case, ok, msg, n=None):
    ok = np.asarray(ok)
    bad = ~ok
    if bad.any():
        i = np.argwhere(bad)[0]
        res.violation(f"{msg} ({int(bad.sum())} of {ok.size}), first at {i.tolist()}", {**case, "at": i})
    res.add(transitions=ok.size, traces=ok.size)


def build(kind, w, phi=None):
    from differt2d.geometry import RIS, Wall

    return Wall(xys=w) if kind == "wall" else RIS(xys=w, phi=phi)


def shard_geometry(ctx, res, arg):
    """Parametrisation, normals, mirror images and end points."""
    import jax
    import jax.numpy as jnp

    from ..core import batched

    kind, tr = arg
    n = 5 if ctx.deep else 4
    W = transform(geo.segments(geo.lattice(n)), tr)
    P = transform(points(), tr)
    T = params()

    def make():
        def f(w):
            o = build(kind, w, jnp.array(0.3))
            t, p = jnp.asarray(T)[:, None], jnp.asarray(P, dtype=w.dtype)
            cart = jax.vmap(o.parametric_to_cartesian)(t)
            back = jax.vmap(o.cartesian_to_parametric)(cart)
            proj = jax.vmap(o.cartesian_to_parametric)(p)
            onto = jax.vmap(o.parametric_to_cartesian)(proj)
            inside = jax.vmap(lambda x: o.contains_parametric(x, approx=False))(t)
            img = jax.vmap(o.image_of)(p)
            twice = jax.vmap(o.image_of)(img)
            a, b = o.get_vertices()
            count = jnp.asarray(o.parameters_count())
            return dict(cart=cart, back=back, proj=proj, onto=onto, inside=inside, img=img, twice=twice, a=a.xy, b=b.xy, n=o.normal(), t=o.t(), o=o.origin(), d=o.dest(), count=count)

        return f

    case = {"kind": kind, "transform": tr, "axes": "(object, parameter or point)"}
    with res.case(case):
        g = batched(("C10", kind, tr), make, 4096)(W.astype(np.float32))
        res.add(states=len(W) * (len(T) + len(P)))
        o, d = W[:, 0], W[:, 1]
        t = d - o
        L = geo.norm(t)
        scale = np.abs(W).max()
        g = {k: v if v.dtype == bool else v.astype(float) for k, v in g.items()}
        check(res, case, (g["o"] == o) & (g["a"] == o), "wrong origin or first vertex")
        check(res, case, (g["d"] == d) & (g["b"] == d), "wrong destination or second vertex")
        check(res, case, np.abs(g["t"] - t) <= EPS * scale, "wrong direction")
        check(res, case, g["count"] == 1, "wrong parameter count")
        check(res, case, np.abs(geo.norm(g["n"]) - 1) <= 8 * EPS, "normal is not a unit vector")
        check(res, case, np.abs(geo.dot(g["n"], t)) <= 8 * EPS * L, "normal is not perpendicular")
        check(res, case, np.abs(g["n"] - geo.normal(W)) <= 8 * EPS, "wrong normal")
        Td = T.astype(float)
        want = o[:, None] + Td[None, :, None] * t[:, None]
        tol = 4 * EPS * (scale + np.abs(Td)[None, :] * L[:, None])
        check(res, case, np.abs(g["cart"] - want) <= tol[..., None], "wrong point for a parameter")
        tolb = tol / L[:, None] * 4 + 8 * EPS * (1 + np.abs(Td))[None]
        check(res, case, np.abs(g["back"][..., 0] - Td[None]) <= tolb, "parameter -> point -> parameter is not the identity")
        other = P[None] - o[:, None]
        ref = geo.dot(other, t[:, None]) / geo.dot(t, t)[:, None]
        far = geo.norm(other)
        check(res, case, np.abs(g["proj"][..., 0] - ref) <= 16 * EPS * (1 + far / L[:, None]), "not the parameter of the orthogonal projection")
        foot = o[:, None] + ref[..., None] * t[:, None]
        check(res, case, np.abs(g["onto"] - foot) <= (32 * EPS * (scale + far + L[:, None]))[..., None], "not the orthogonal projection")
        check(res, case, (g["inside"].dtype == bool) & (g["inside"] == ((T >= 0) & (T <= 1))[None]), "wrong containment")
        mir = geo.mirror(np.broadcast_to(P[None], (len(W), *P.shape)), W[:, None])
        tolm = 32 * EPS * (scale + np.abs(P).max() + far)
        check(res, case, np.abs(g["img"] - mir) <= tolm[..., None], "wrong mirror image")
        check(res, case, np.abs(g["twice"] - P[None]) <= 4 * tolm[..., None], "mirroring twice is not the identity")
        res.sample({**case, "object": W[-1]})


def shard_contains(ctx, res, kind):
    """Smooth containment for every slope and activation."""
    import jax.numpy as jnp

    from ..core import batched

    F = funs()
    T = np.concatenate([params(), np.linspace(-0.3, 1.3, 97).astype(np.float32)])
    w = jnp.array([[0.3, 0.1], [1.3, -0.4]])
    for alpha, fn in itertools.product((None, 1.0, 7.5, 40.0, 1000.0), ("default", "sigmoid", "hard", "custom")):
        fun, act = F[fn]
        kw = {} if alpha is None else {"alpha": alpha}
        if fun is not None:
            kw["function"] = fun
        case = {"kind": kind, "alpha": alpha, "function": fn, "parameters": "mc.checks.c10"}

        def make(kw=kw):
            return lambda t: build(kind, w, jnp.array(0.2)).contains_parametric(t[None], approx=True, **kw)

        with res.case(case):
            got = batched(("C10c", kind, alpha, fn), make, 256)(T).astype(float)
            a = 100.0 if alpha is None else alpha
            x = T.astype(float)
            ref = np.minimum(act(x, a), act(1 - x, a))
            check(res, case, (got >= 0) & (got <= 1) & (np.abs(got - ref) <= 2e-6 + a * 3e-7), "wrong smooth containment")
            res.add(states=len(T))


def triples():
    p = geo.lattice(3) + np.array([0.25, 0.4])
    return np.array(list(itertools.product(p, repeat=3)))


def shard_residual(ctx, res, arg):
    """Interaction residuals at arbitrary points and at constructed bounces."""
    from ..core import batched

    kind, tr, phi = arg
    W = geo.segments(geo.lattice(3 if not ctx.deep else 4))
    Q = triples()
    if not ctx.deep:
        Q = Q[::1] if kind == "wall" else Q[::3]
    Wt, Qt = transform(W, tr), transform(Q, tr)
    iw, iq = np.repeat(np.arange(len(W)), len(Q)), np.tile(np.arange(len(Q)), len(W))
    w, q = Wt[iw], Qt[iq]

    def make():
        import jax.numpy as jnp

        return lambda w, q: build(kind, w, jnp.array(phi or 0.0)).evaluate_cartesian(q)

    case = {"kind": kind, "transform": tr, "phi": phi}
    with res.case(case):
        g = batched(("C10r", kind, phi), make, 65536)
        a, b, c = q[:, 0], q[:, 1], q[:, 2]
        ref = geo.residual_wall(a, b, c, w) if kind == "wall" else geo.residual_ris(a, b, c, w, phi)
        got = g(w, q).astype(float)
        check(res, case, got >= 0, "negative residual")
        check(res, case, np.abs(got - ref) <= 5e-6 * np.sqrt(ref) + 1e-10, "wrong residual")
        res.add(states=len(w))
        # constructed bounces: b inside or outside the object, then c so that the law holds (and, moved, does not)
        t = w[:, 1] - w[:, 0]
        n = geo.normal(w)
        s = (np.arange(len(w)) % 5 * 0.4 - 0.3)[:, None]
        b = w[:, 0] + s * t
        inc = geo.unit(b - a)
        if kind == "wall":
            out = inc - 2 * geo.dot(inc, n)[:, None] * n
        else:  # -r.n = cos(phi), -r x n = sin(phi)
            u = -n
            cos, sin = np.cos(phi), np.sin(phi)
            # cross(-r, n) = sin with n = -u: rotate u so that both equations hold
            v1 = np.stack([cos * u[:, 0] - sin * u[:, 1], sin * u[:, 0] + cos * u[:, 1]], axis=-1)
            v2 = np.stack([cos * u[:, 0] + sin * u[:, 1], -sin * u[:, 0] + cos * u[:, 1]], axis=-1)
            e1 = geo.residual_ris(a, b, b + v1, w, phi)
            out = np.where((e1 < 1e-12)[:, None], v1, v2)
        ln = geo.norm(t)[:, None]
        ok = geo.norm(b - a) > 0.05 * ln[:, 0]
        for k in (0.5, 3.0):
            c = b + k * ln * out
            got = g(w, np.stack([a, b, c], axis=1)).astype(float)
            # coordinates are rounded to single precision before the call
            slack = np.abs(np.stack([a, b, c])).max(axis=(0, 2)) * EPS * 4 / (0.05 * ln[:, 0])
            check(res, case, ~ok | (got <= (slack + 1e-6) ** 2 * 4), "residual of a lawful bounce is not zero")
            for ang in (0.2, -0.2, np.pi):
                r = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
                c2 = b + k * ln * (out @ r.T)
                got = g(w, np.stack([a, b, c2], axis=1)).astype(float)
                check(res, case, ~ok | (np.abs(got - (2 - 2 * np.cos(ang))) <= 8 * slack + 1e-5), "residual of a deviated bounce is not the squared deviation")
        res.sample({**case, "w": w[-1], "q": q[-1]})


def shard_sample(ctx, res, kind):
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall

    keys = jax.random.split(jax.random.PRNGKey(ctx.seed), 512 if ctx.deep else 64)
    for xys in ([[0.0, 0.0], [1.0, 0.0]], [[3.0, -2.0], [1.5, 7.0]], [[-0.2, 0.1], [-0.2, 0.05]]):
        xys = jnp.array(xys)
        case = {"sample": kind, "xys": xys}
        with res.case(case):
            o = Vertex(xy=xys[0]) if kind == "vertex" else build(kind, xys, jnp.array(0.1))
            got = np.asarray(jax.vmap(o.sample)(keys)).astype(float)
            eager = np.asarray(o.sample(keys[3])).astype(float)
            x = np.asarray(xys).astype(float)
            check(res, case, np.abs(eager - got[3]) <= 1e-6, "sampling is not a function of the key")
            if kind == "vertex":
                check(res, case, got == x[0], "a sample is not the vertex")
            else:
                s = geo.project(got, x)
                check(res, case, (s >= -1e-6) & (s <= 1 + 1e-6), "a sample is outside the object")
                check(res, case, np.abs(geo.side(got, x)) <= 1e-5, "a sample is off the object")
                res.expect(len(np.unique(np.round(s, 6))) > len(keys) // 2 and s.min() < 0.15 and s.max() > 0.85, "samples do not spread over the object", case)
            res.add(states=len(keys))
    # vertices and defaults, eagerly
    if kind == "vertex":
        for xy in ([0.0, 0.0], [1.5, -2.0], [1e-3, 1e3]):
            case = {"vertex": xy}
            with res.case(case):
                v = Vertex(xy=jnp.array(xy))
                x = np.asarray(xy, dtype=np.float32)
                check(res, case, np.asarray(v.parametric_to_cartesian(jnp.zeros(0))) == x, "not the vertex")
                for p in points()[:6]:
                    c = v.cartesian_to_parametric(jnp.asarray(p, dtype=float))
                    res.expect(c.shape == (0,), f"{c.shape} parameters", case)
                    check(res, case, np.asarray(v.parametric_to_cartesian(c)) == x, "projection is not the vertex")
                res.expect(int(v.parameters_count()) == 0 == int(Vertex.parameters_count()), "parameter count", case)
                e, s = v.contains_parametric(jnp.zeros(0), approx=False), v.contains_parametric(jnp.zeros(0), approx=True, alpha=3.0)
                res.expect(e.dtype == bool and bool(e) and s.dtype != bool and float(s) == 1.0, f"containment {e} {s}", case)
                for q in triples()[::37]:
                    r = v.evaluate_cartesian(jnp.asarray(q, dtype=float))
                    res.expect(r.shape == () and float(r) == 0.0, f"residual {r}", case)
                res.add(states=1, transitions=20, traces=20)
        case = {"defaults": True}
        with res.case(case):
            ok = (
                np.array_equal(Point().xy, [0, 0]) and np.array_equal(Vertex().xy, [0, 0]) and np.array_equal(Wall().xys, [[0, 0], [1, 1]])
                and np.array_equal(RIS().xys, [[0, 0], [1, 1]]) and np.isclose(float(RIS().phi), np.pi / 4) and np.array_equal(Wall(xys=np.array([[1.0, 2.0], [3.0, 4.0]], dtype=np.float32)).xys, [[1, 2], [3, 4]])
                and int(Wall.parameters_count()) == 1 == int(RIS.parameters_count())
            )  # fmt: skip
            res.expect(ok, "wrong defaults", case)
    else:
        # a vertex of an object and its parameters, through the eager interface
        for xys in ([[0.0, 0.0], [1.0, 0.0]], [[3.0, -2.0], [1.5, 7.0]]):
            case = {"eager": kind, "xys": xys}
            with res.case(case):
                o = build(kind, jnp.array(xys), jnp.array(0.2))
                vs = o.get_vertices()
                res.expect(len(vs) == 2 and all(type(v) is Vertex for v in vs), f"{vs}", case)
                for i in (0, 1):
                    check(res, case, np.asarray(vs[i].xy) == np.asarray(xys[i]), "wrong vertex")
                    c = o.parametric_to_cartesian(jnp.array([float(i)]))
                    check(res, case, np.asarray(c) == np.asarray(xys[i]), "end parameters are not the end points")
                    res.expect(bool(o.contains_parametric(jnp.array([float(i)]), approx=False)), "end points are not contained", case)
                    res.expect(bool(o.contains_parametric(jnp.array([float(i)]), False)), "end points are not contained", case)
                res.add(states=1, transitions=4, traces=4)


def shard(ctx, res, s):
    {"g": shard_geometry, "c": shard_contains, "r": shard_residual, "s": shard_sample}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    phis = [0.0, np.pi / 4, -0.6, 1.2, np.pi / 2, 2.5, -np.pi / 3]
    jobs = [("r", ("wall", t, None)) for t in TRANSFORMS]
    jobs += [("r", ("ris", t, p)) for p in phis for t in (TRANSFORMS if ctx.deep else TRANSFORMS[:1] + TRANSFORMS[3:4])]
    jobs += [("g", (k, t)) for k in ("wall", "ris") for t in TRANSFORMS]
    jobs += [("c", k) for k in ("wall", "ris")] + [("s", k) for k in ("wall", "ris", "vertex")]
    run_shards(ctx, res, shard, jobs)
