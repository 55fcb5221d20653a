"""C06: the image method returns the specular reflection path."""

import itertools

import numpy as np

from .. import geo

META = {
    "bounds": "order 0: 25^2 node pairs; order 1: 16^2 node pairs x 240 walls; order 2: 9^2 x 72^2; order 3: 16 node pairs x 12^3 "
    "(thorough: 25^2 x 600, 9^2 x 72^2, 9^2 x 20^3, order 4), each under 6 similarity transforms (scales 3e-6 to 100, offsets, rotation)",
    "counting": "state = (tx, rx, wall sequence, transform); transition = path points compared; trace = paths computed by the real code and compared",
    "assumptions": ["configurations whose error amplification exceeds the bound (grazing or parallel) are skipped and counted"],
}
# (scale, angle, offset): the lattice is mapped by these similarities
TRANSFORMS = [(1.0, 0.0, (0.0, 0.0)), (0.1, 0.0, (0.3, -0.2)), (0.01, 0.7, (0.0, 0.0)), (37.0, 2.1, (11.0, 5.0)), (1.0, 0.3, (1.5, 2.5)), (3e-6, 0.0, (0.0, 0.0))]


def transform(p, tr):
    s, a, o = tr
    rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return (s * p @ rot.T + np.array(o)).astype(np.float32).astype(float)


def lines(order, deep):
    """Wall alphabets: large for low orders, fewer and varied for high orders."""
    if order == 1:
        return geo.segments(geo.lattice(5 if deep else 4))
    if order == 2:
        return geo.segments(geo.lattice(3))
    base = [
        [[0, 0], [4, 0]], [[4, 4], [0, 4]], [[0, 0], [0, 4]], [[4, 0], [4, 4]], [[0, 0], [4, 4]], [[3, 1], [1, 3]],
        [[1, 0], [2, 4]], [[0, 1], [4, 2]], [[2, 2], [3, 2]], [[5, -1], [4, 2]], [[-1, -1], [-1, 3]], [[0, 5], [1, 4]],
    ]  # fmt: skip
    if deep and order == 3:
        base += [[[1, 1], [3, 2]], [[2, 0], [2, 1]], [[4, 1], [0, 3]], [[0, -2], [1, -2]], [[6, 0], [6, 1]], [[1, 3], [2, 3]], [[3, 3], [4, 1]], [[-1, 2], [1, -1]]]
    return np.array(base[:8] if order == 4 else base, dtype=float)


def pairs(order, deep):
    n = {1: 5 if deep else 4, 2: 3, 3: 3 if deep else 2, 4: 2}[order]
    pts = geo.lattice(n)
    if order >= 3:
        pts = pts + np.array([0.5, 0.25])
    return np.array(list(itertools.product(pts, pts)))


def shard_order(ctx, res, arg):
    import jax.numpy as jnp
    from differt2d.geometry import RIS, ImagePath, Wall

    from ..core import batched

    order, first, tr, kind = arg
    W = transform(lines(order, ctx.deep), tr)
    P = transform(pairs(order, ctx.deep), tr)
    scale = tr[0]

    def make():
        def wall(w):
            return Wall(xys=w) if kind == "wall" else RIS(xys=w, phi=jnp.array(0.6))

        def f(tx, rx, ws):
            p = ImagePath.from_tx_objects_rx(tx, [wall(ws[i]) for i in range(order)], rx)
            return p.xys, p.loss, p.length()

        return f

    g = batched(("C06", order, kind), make, 20000)
    for rest in chunks(itertools.product(range(len(W)), repeat=order - 1), max(1, 20000 // len(P))):
        seqs = np.array([(first, *r) for r in rest])
        walls = np.repeat(W[seqs], len(P), axis=0)
        tx = np.tile(P[:, 0], (len(seqs), 1))
        rx = np.tile(P[:, 1], (len(seqs), 1))
        case = {"order": order, "transform": tr, "kind": kind}
        with res.case({**case, "walls": walls[0], "tx": tx[0], "rx": rx[0]}):
            xys, loss, length = (v.astype(float) for v in g(tx, rx, walls))
            judge(res, case, tx, rx, walls, xys, loss, length, scale, kind)
        if res.full():
            return
    res.sample({**case, "first": first, "tx": tx[-1], "rx": rx[-1], "walls": walls[-1], "path": xys[-1], "loss": loss[-1]})


def chunks(it, n):
    it = iter(it)
    while c := list(itertools.islice(it, n)):
        yield c


def judge(res, case, tx, rx, walls, xys, loss, length, scale, kind):
    k = walls.shape[1]
    n = len(tx)
    if xys.shape != (n, k + 2, 2):
        return res.violation(f"path of shape {xys.shape[1:]}", case)
    ref, amp, img = geo.image_path(tx, rx, walls)
    size = np.abs(walls).reshape(n, -1).max(axis=1) + np.abs(tx).max(axis=1) + np.abs(rx).max(axis=1)
    ok = amp < 300.0**k if k > 1 else amp < 300
    tol = 4e-7 * size * np.where(ok, amp, 1.0) * 4
    ok &= tol < 0.05 * scale

    def report(bad, msg):
        for i in np.nonzero(bad)[0][:2]:
            res.violation(
                f"{msg}: path {xys[i].tolist()} loss {loss[i]} length {length[i]}, reference {ref[i].tolist()}",
                {**case, "tx": tx[i], "rx": rx[i], "walls": walls[i]},
            )
        res.nviol += max(0, int(bad.sum()) - 2)

    report((xys[:, 0] != tx).any(axis=1) | (xys[:, -1] != rx).any(axis=1), "the path does not start at tx and end at rx")
    report(ok & (np.abs(xys - ref).max(axis=(1, 2)) > tol), "wrong interaction points")
    # losses: directions are known up to tol / leg length
    legs = geo.norm(np.diff(ref, axis=1)).min(axis=1)
    lok = ok & (legs > 20 * tol) & (legs > 1e-3 * scale)
    dirtol = np.where(lok, 8 * tol / np.where(legs == 0, 1, legs), 0.0)
    want = np.zeros(n)
    genuine = np.ones(n, dtype=bool)
    for j in range(k):
        a, b, c = ref[:, j], ref[:, j + 1], ref[:, j + 2]
        w = walls[:, j]
        if kind == "wall":
            want += geo.residual_wall(a, b, c, w)
        else:
            want += geo.residual_ris(a, b, c, w, 0.6)
        sa, sc = geo.side(a, w), geo.side(c, w)
        genuine &= sa * sc > 0
    ltol = 1e-5 * k + 8 * k * dirtol
    report(lok & (np.abs(loss - want) > ltol), "wrong loss")
    report(lok & (loss < 0), "negative loss")
    report(lok & genuine & (np.abs(length - geo.norm(img - rx)) > tol * 4 + 1e-5 * size), "length is not the distance to the last image")
    if kind == "wall":
        report(lok & genuine & (loss > 1e-5 * k + 4 * dirtol**2 * k), "a genuine reflection has a loss")
    report(lok & (np.abs(length - geo.path_len(ref)) > tol * 4 + 1e-5 * size), "wrong length")
    res.add(states=n, transitions=int(lok.sum()) * (k + 2), traces=int(ok.sum()), skipped=int((~ok).sum()))
    res.count("genuine_reflections", int((genuine & lok).sum()))
    res.count("non_reflections", int((~genuine & lok).sum()))


def shard_forms(ctx, res, _):
    """Argument forms, order 0, keys and ignored options; eager calls."""
    import jax
    import jax.numpy as jnp
    from differt2d.geometry import ImagePath, Point, Wall

    pts = geo.lattice(5) * 0.3 - 0.4
    for a, b in itertools.product(pts, pts):
        case = {"order": 0, "tx": a, "rx": b}
        with res.case(case):
            p = ImagePath.from_tx_objects_rx(jnp.asarray(a, dtype=float), [], jnp.asarray(b, dtype=float))
            res.expect(np.allclose(p.xys, [a, b], atol=1e-7) and float(p.loss) == 0.0, f"{p}", case)
            res.add(states=1, transitions=2, traces=1)
    W = [Wall(xys=jnp.array(w)) for w in ([[0.0, 0.0], [1.0, 0.0]], [[1.0, -0.5], [1.0, 1.0]], [[0.0, 1.0], [1.0, 1.2]])]
    wn = np.array([w.xys for w in W], dtype=float)
    a, b = np.array([0.2, 0.5]), np.array([0.7, 0.4])
    for n in range(4):
        for idx in itertools.product(range(3), repeat=n):
            ref, amp, _ = geo.image_path(a[None], b[None], wn[list(idx)][None].reshape(1, n, 2, 2))
            for cont, nodes, key, kw in itertools.product((list, tuple), ("PP", "Pa", "aP", "aa"), (None, 0), ({}, {"many": 3, "steps": 7, "anything": 1})):
                case = {"walls": idx, "container": cont.__name__, "nodes": nodes, "key": key, "options": kw}
                tx = Point(xy=jnp.array(a)) if nodes[0] == "P" else jnp.asarray(a, dtype=float)
                rx = Point(xy=jnp.array(b)) if nodes[1] == "P" else jnp.asarray(b, dtype=float)
                with res.case(case):
                    k = {} if key is None else {"key": jax.random.PRNGKey(key)}
                    p = ImagePath.from_tx_objects_rx(tx, cont(W[i] for i in idx), rx, **k, **kw)
                    if isinstance(p, ImagePath) and amp[0] < 1e3:
                        res.expect(np.allclose(p.xys, ref[0], atol=1e-3), f"{p.xys} instead of {ref[0]}", case)
                    res.expect(isinstance(p, ImagePath) and p.loss.shape == (), f"{p}", case)
                    res.add(states=1, transitions=n + 2, traces=1)
                if res.full() or (n == 3 and cont is tuple and nodes != "PP"):
                    break


def shard_mixed(ctx, res, part):
    """Sequences of walls that are not all of one kind: plain walls, reflecting surfaces, and walls of a user's class."""
    import equinox as eqx
    import jax.numpy as jnp
    from differt2d.geometry import RIS, ImagePath, Point, Wall

    class Labelled(Wall):
        label: str = eqx.field(static=True, default="")

    xys = np.array([[[0.0, 0.0], [1.0, 0.0]], [[1.0, -0.5], [1.1875, 1.0]], [[0.0, 1.0], [1.0, 1.25]], [[-0.5, 0.0], [-0.25, 1.0]]])
    kinds = {
        "W": lambda w: Wall(xys=jnp.array(w)),
        "R": lambda w: RIS(xys=jnp.array(w), phi=jnp.array(0.6)),
        "a": lambda w: Labelled(xys=jnp.array(w), label="a"),
        "b": lambda w: Labelled(xys=jnp.array(w), label="b"),
        "h": lambda w: Wall(xys=jnp.array(w, dtype=jnp.float16)),
    }
    made = {(k, i): f(w) for k, f in kinds.items() for i, w in enumerate(xys)}
    ends = [(np.array([0.2, 0.5]), np.array([0.7, 0.4])), (np.array([0.4, 0.3]), np.array([0.1, 0.8]))]
    n = 0
    for k in (2, 3) + ((4,) if ctx.deep else ()):
        for kind in itertools.product("WRabh" if k < 4 else "WRa", repeat=k):
            if len(set(kind)) == 1 and kind[0] != "h":
                continue
            for idx in itertools.permutations(range(4), k):
                n += 1
                if n % 4 != part or (k > 2 and idx[0] > idx[-1] and not ctx.deep):
                    continue
                walls = xys[list(idx)]
                a, b = ends[n // 4 % 2]
                case = {"kinds": "".join(kind), "walls": idx, "tx": a, "rx": b}
                with res.case(case):
                    p = ImagePath.from_tx_objects_rx(Point(xy=jnp.array(a)), [made[c, i] for c, i in zip(kind, idx)], Point(xy=jnp.array(b)))
                    ref, amp, _ = geo.image_path(a[None], b[None], walls[None])
                    if amp[0] < 300:
                        want = 0.0
                        legs = geo.norm(np.diff(ref, axis=1)).min()
                        for j, c in enumerate(kind):
                            x = [ref[:, j + i] for i in range(3)]
                            w = walls[None, j]
                            want += float((geo.residual_ris(*x, w, 0.6) if c == "R" else geo.residual_wall(*x, w))[0])
                        err = np.abs(np.asarray(p.xys, dtype=float) - ref[0]).max()
                        tol = (4e-3 if "h" in kind else 2e-6) * amp[0] * (1 + np.abs(ref).max())
                        res.expect(err < tol, f"path {p.xys} instead of {ref[0]}", case)
                        res.expect(legs < 20 * tol or abs(float(p.loss) - want) < 1e-4 + 30 * tol / legs, f"loss {p.loss} instead of {want}", case)
                        res.add(traces=1)
                    res.add(states=1, transitions=k + 2, skipped=int(amp[0] >= 300))
            if res.full():
                return
    res.sample(case)


def shard(ctx, res, arg):
    if arg[0] == "forms":
        shard_forms(ctx, res, arg)
    elif arg[0] == "mixed":
        shard_mixed(ctx, res, arg[1])
    else:
        for a in arg:
            shard_order(ctx, res, a)
            if res.full():
                return


def run(ctx, res):
    from ..core import run_shards

    jobs = []
    for tr in TRANSFORMS:
        n1, n2, n3 = (len(lines(k, ctx.deep)) for k in (1, 2, 3))
        jobs += [[(1, i, tr, "wall") for i in range(j, n1, 8)] for j in range(8)]
        if ctx.deep or tr is TRANSFORMS[0] or tr is TRANSFORMS[4]:
            jobs += [[(2, i, tr, "wall") for i in range(j, n2, 12)] for j in range(12)]
        jobs += [[(3, i, tr, "wall") for i in range(j, n3, 4)] for j in range(4)]
        if ctx.deep:
            jobs += [[(4, i, tr, "wall") for i in range(j, 8, 4)] for j in range(4)]
    jobs += [[(1, i, TRANSFORMS[4], "ris") for i in range(j, n1, 8)] for j in range(8)]
    jobs += [[(3, i, TRANSFORMS[0], "ris") for i in range(0, n3, 3)]]
    run_shards(ctx, res, shard, [("forms",)] + [("mixed", i) for i in range(4)] + jobs)
