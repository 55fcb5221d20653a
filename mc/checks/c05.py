"""C05: path candidates are exactly the walks of the object graph."""

import itertools

META = {
    "bounds": "quick: n<=6 objects, orders<=4 (n^order<=1300), every filter subset for n<=4; "
    "thorough: n<=8, orders<=5, every filter subset for n<=6. Every (min,max) and `order` form; up to 260 objects (thorough: 258 at order 2) and order 12; up to 13 allowed ones of 301 objects (thorough: 1025) up to order 3; scenes with the same object twice; filters answering with every combination of 17 true and false values on 3 objects (quick: a fifth of those that are all different).",
    "counting": "state = (n, min, max, order, filter subset, api); transition = one expected or "
    "returned candidate compared; trace = one call of the real function whose full answer was compared",
    "assumptions": ["candidates are small enough to be listed explicitly"],
}


def reference(n, lo, hi, excluded=()):
    """All sequences of allowed nodes without immediate repetition, by order."""
    nodes = [i for i in range(n) if i not in excluded]
    out = []
    for k in range(lo, hi + 1):
        out += [c for c in itertools.product(nodes, repeat=k) if all(a != b for a, b in zip(c, c[1:]))]
    return out


def as_tuples(res, cands, case):
    import jax.numpy as jnp
    import numpy as np

    out = []
    for c in cands:
        a = np.asarray(c)
        res.expect(
            a.ndim == 1 and jnp.issubdtype(a.dtype, jnp.integer),
            f"candidate {c!r} is not a vector of integers",
            case,
        )
        out.append(tuple(int(v) for v in a.reshape(-1)))
    return out


def compare(res, got_raw, want, case):
    got = as_tuples(res, got_raw, case)
    res.add(states=1, transitions=len(want) + 1, traces=1)
    if len(set(got)) != len(got):
        dup = [c for c in got if got.count(c) > 1][:3]
        res.violation(f"duplicated candidates {dup}", case)
    miss, extra = set(want) - set(got), set(got) - set(want)
    if miss or extra:
        res.violation(f"missing {sorted(miss)[:5]}, unexpected {sorted(extra)[:5]}", case)
    orders = [len(c) for c in got]
    res.expect(orders == sorted(orders), "candidates are not listed by increasing order", case)


def shard_low(ctx, res, n):
    from differt2d.scene import all_path_candidates

    cap = 20000 if ctx.deep else 1300
    kmax = 5 if ctx.deep else 4
    nfilter = 6 if ctx.deep else 4
    while n**kmax > cap and kmax > 1:
        kmax -= 1
    subsets = [None, ()]
    if n <= nfilter:
        subsets += [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    else:
        subsets += [(0,), (n - 1,), tuple(range(0, n, 2)), tuple(range(n))]
    for f in subsets:
        for lo in range(kmax + 1):
            for hi in range(kmax + 1):  # includes empty ranges hi < lo
                case = {"api": "all_path_candidates", "n": n, "min": lo, "max": hi, "filter": f}
                with res.case(case):
                    got = all_path_candidates(n, min_order=lo, max_order=hi, filter_nodes=f)
                    compare(res, got, reference(n, lo, hi, f or ()), case)
            for mn, mx in ((0, 1), (3, 0)):
                case = {"api": "all_path_candidates", "n": n, "order": lo, "min": mn, "max": mx, "filter": f}
                with res.case(case):
                    got = all_path_candidates(n, mn, mx, order=lo, filter_nodes=f)
                    compare(res, got, reference(n, lo, lo, f or ()), case)
        case = {"api": "all_path_candidates", "n": n, "defaults": True, "filter": f}
        with res.case(case):
            compare(res, all_path_candidates(n, filter_nodes=f), reference(n, 0, 1, f or ()), case)
        if res.full():
            return
    res.sample({"n": n, "kmax": kmax, "filters": len(subsets)})


def shard_scene(ctx, res, types):
    """Through a scene: filters by type, by value, by identity, by mutable closure; pairs irrelevant."""
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Point, Vertex, Wall
    from differt2d.scene import Scene

    objs = []
    for i, t in enumerate(types):
        if t == "W":
            objs.append(Wall(xys=jnp.array([[0.0, float(i)], [1.0, float(i)]])))
        elif t == "R":
            objs.append(RIS(xys=jnp.array([[0.0, float(i)], [1.0, float(i)]])))
        else:
            objs.append(Vertex(xy=jnp.array([0.0, float(i)])))
    n = len(objs)
    kinds = {"W": Wall, "R": RIS, "V": Vertex}

    def ypos(o):
        return float(o.xy[1]) if isinstance(o, Vertex) else float(o.xys[0, 1])

    for pts in (0, 1) if n <= 2 else (1,):
        p = {"a": Point(xy=jnp.array([0.5, 0.5]))} if pts else {}
        scene = Scene(transmitters=p, receivers=p, objects=tuple(objs))
        live = set()

        def by_closure(o):
            return type(o) in live

        preds = [("none", None, set())]
        for k in range(3):
            for keep in itertools.combinations(sorted(kinds), k):
                ks = {kinds[x] for x in keep}
                preds.append((f"type{keep}", lambda o, ks=ks: type(o) in ks, {i for i in range(n) if types[i] not in keep}))
        for mask in range(2**n):
            ys = {float(i) for i in range(n) if mask >> i & 1}
            preds.append((f"value{sorted(ys)}", lambda o, ys=ys: ypos(o) in ys, {i for i in range(n) if float(i) not in ys}))
            ids = {id(objs[i]) for i in range(n) if mask >> i & 1}
            preds.append((f"identity{mask}", lambda o, ids=ids: id(o) in ids, {i for i in range(n) if not mask >> i & 1}))
        for keep in ("W", "V", "WV"):
            preds.append((f"closure{keep}", ("closure", {kinds[x] for x in keep}), {i for i in range(n) if types[i] not in keep}))
        for name, pred, excl in preds:
            for kw, lo, hi in (
                ({}, 0, 1),
                ({"order": 2}, 2, 2),
                ({"min_order": 1, "max_order": 3}, 1, 3),
                ({"min_order": 0, "max_order": 2}, 0, 2),
            ):
                case = {"api": "Scene.all_path_candidates", "types": types, "filter": name, **kw}
                with res.case(case):
                    if isinstance(pred, tuple):
                        live.clear()
                        live.update(pred[1])
                        f = by_closure
                    else:
                        f = pred
                    got = scene.all_path_candidates(**kw, filter_objects=f)
                    compare(res, got, reference(n, lo, hi, excl), case)
        if res.full():
            return


def shard_large(ctx, res, _):
    """Many objects, high orders, and the same object at several places of a scene."""
    import jax.numpy as jnp
    from differt2d.geometry import Vertex, Wall
    from differt2d.scene import Scene, all_path_candidates

    for n, lo, hi in ((40, 0, 2), (70, 0, 1), (130, 0, 1), (260, 1, 1), (2, 0, 12), (3, 7, 9), (5, 5, 5)):
        for f in (None, (0,), (n - 1, 0)):
            case = {"api": "all_path_candidates", "n": n, "min": lo, "max": hi, "filter": f}
            with res.case(case):
                compare(res, all_path_candidates(n, lo, hi, filter_nodes=f), reference(n, lo, hi, f or ()), case)
    # few of many objects
    keep = (0, 1, 126, 127, 128, 129, 255, 256, 257, 299, 300, 511, 512)
    for n in (128, 129, 256, 257, 301) + ((513, 1025) if ctx.deep else ()):
        f = tuple(i for i in range(n) if i not in keep and i != n - 1)
        for lo, hi in ((0, 2), (3, 3)):
            case = {"api": "all_path_candidates", "n": n, "min": lo, "max": hi, "filter": "all but a few"}
            with res.case(case):
                compare(res, all_path_candidates(n, lo, hi, filter_nodes=f), reference(n, lo, hi, set(f)), case)
    w, v = Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]])), Vertex(xy=jnp.array([0.0, 1.0]))
    same = Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]]))
    for k in range(1, 5):
        for objs in itertools.product((w, same, v), repeat=k):
            scene = Scene(objects=objs)
            for name, f, excl in (("none", None, ()), ("walls", lambda o: isinstance(o, Wall), [i for i, o in enumerate(objs) if o is v]), ("identity", lambda o: o is w, [i for i, o in enumerate(objs) if o is not w])):
                case = {"objects": ["v" if o is v else "w" if o is w else "s" for o in objs], "filter": name}
                with res.case(case):
                    compare(res, scene.all_path_candidates(0, 2, filter_objects=f), reference(k, 0, 2, excl), case)


def shard_answers(ctx, res, part):
    """Filters may answer with anything that is true or false."""
    import jax.numpy as jnp
    import numpy as np
    from differt2d.geometry import Vertex, Wall
    from differt2d.scene import Scene

    scene = Scene(objects=[Wall(xys=jnp.array([[0.0, 0.0], [1.0, 0.0]])), Vertex(xy=jnp.array([0.0, 1.0])), Wall(xys=jnp.array([[0.0, 2.0], [1.0, 0.0]]))])
    answers = (True, False, None, 0, 1, 0.0, 2.5, "", "x", (), [0], np.False_, np.True_, jnp.array(False), jnp.array(True), jnp.array(0.0), np.array([3]))
    for k, given in enumerate(itertools.product(range(len(answers)), repeat=3)):
        if k % 8 != part or (not ctx.deep and len(set(given)) == 3 and k % 5):
            continue
        given = [answers[i] for i in given]
        f = lambda o: next(a for a, x in zip(given, scene.objects) if x is o)
        case = {"answers": [repr(a) for a in given]}
        with res.case(case):
            compare(res, scene.all_path_candidates(0, 2, filter_objects=f), reference(3, 0, 2, [i for i, a in enumerate(given) if not a]), case)


def shard_full(ctx, res, arg):
    from differt2d.scene import all_path_candidates

    n, f = arg
    case = {"api": "all_path_candidates", "n": n, "order": 2, "filter": f}
    with res.case(case):
        compare(res, all_path_candidates(n, order=2, filter_nodes=f), reference(n, 2, 2, f or ()), case)


def run(ctx, res):
    from ..core import run_shards

    run_shards(ctx, res, shard_large, [0])
    run_shards(ctx, res, shard_answers, range(8))
    if ctx.deep:
        run_shards(ctx, res, shard_full, [(132, None), (132, (0,)), (258, None)])

    ns = range(0, 9 if ctx.deep else 7)
    run_shards(ctx, res, shard_low, sorted(ns, reverse=True))
    m = 4 if ctx.deep else 3
    pats = [p for k in range(0, m + 1) for p in itertools.product("WRV", repeat=k)]
    run_shards(ctx, res, shard_scene_many, [pats[i::8] for i in range(8)])


def shard_scene_many(ctx, res, pats):
    for p in pats:
        shard_scene(ctx, res, p)
        if res.full():
            return
