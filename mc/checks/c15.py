"""C15: scene edits are pure and behave like an ordered map and a list."""

import itertools

META = {
    "bounds": "filters with 5 forms of answers over all object lists up to 3; shared nodes and objects; unusual names; breadth-first over all sequences of up to 4 edits (thorough 5) out of 31 from the empty scene and from a populated one, merged on equal contents; every earlier scene rechecked",
    "counting": "state = distinct scene contents; transition = edit applied to the real scene and to the model; trace = real scenes fully compared with the model",
    "assumptions": ["names are those keyword arguments can carry"],
}


def points():
    import jax.numpy as jnp
    from differt2d.geometry import Point, Vertex

    return {i: (Vertex if i == 3 else Point)(xy=jnp.array([0.5 * i, -1.0 * i])) for i in (1, 2, 3)}


def objects():
    import jax.numpy as jnp
    from differt2d.geometry import RIS, Vertex, Wall

    xys = jnp.array([[0.0, 1.0], [2.0, 3.0]])
    return {"W": Wall(xys=xys), "w": Wall(xys=xys + 1), "R": RIS(xys=xys, phi=jnp.array(0.25)), "V": Vertex(xy=xys[1])}


def tag_point(p):
    import numpy as np

    return (type(p).__name__, tuple(np.asarray(p.xy).tolist()))


def tag_object(o):
    import numpy as np

    if hasattr(o, "xys"):
        return (type(o).__name__, tuple(map(tuple, np.asarray(o.xys).tolist())), float(getattr(o, "phi", 0)))
    return tag_point(o)


NODE_OPS = [
    ("with", {}), ("with", {"a": 1}), ("with", {"b": 2, "a": 3}), ("update", {}), ("update", {"a": 2}), ("update", {"c": 3, "a": 1}),
    ("rename", {"a": "b"}), ("rename", {"a": "b", "b": "a"}), ("rename", {"z": "a"}), ("rename", {"b": "tx 0"}), ("rename", {}),
]  # fmt: skip
OBJ_OPS = [
    ("with", ()), ("with", ("W",)), ("with", ("V", "W")), ("add", ()), ("add", ("R",)), ("add", ("w", "W", "W")),
    ("filter", "walls"), ("filter", "none"), ("filter", "all"), ("filter", "value"),
]  # fmt: skip
OPS = [("t", *o) for o in NODE_OPS] + [("r", *o) for o in NODE_OPS] + [("o", *o) for o in OBJ_OPS]


def step_model(state, op):
    """The dictionary and list model."""
    t, r, o = state
    part, what, arg = op
    if part == "o":
        o = list(o)
        if what == "with":
            o = list(arg)
        elif what == "add":
            o = o + list(arg)
        else:
            keep = {"walls": "WwR", "none": "", "all": "WwRV", "value": "wV"}[arg]
            o = [x for x in o if x in keep]
        return t, r, tuple(o)
    d = dict(t if part == "t" else r)
    if what == "with":
        d = dict(arg)
    elif what == "update":
        d.update(arg)
    else:
        new = {}
        for k, v in d.items():
            new[arg.get(k, k)] = v
        d = new
    d = tuple(d.items())
    return (d, r, o) if part == "t" else (t, d, o)


def step_real(scene, op, P, O):
    part, what, arg = op
    if part == "o":
        from differt2d.geometry import Vertex, Wall

        if what == "with":
            return scene.with_objects(*(O[x] for x in arg))
        if what == "add":
            return scene.add_objects(*(O[x] for x in arg))
        value = {tag_object(O[x]) for x in "wV"}
        f = {"walls": lambda o: isinstance(o, Wall), "none": lambda o: False, "all": lambda o: True, "value": lambda o: tag_object(o) in value}[arg]
        return scene.filter_objects(f)
    name = "transmitters" if part == "t" else "receivers"
    arg = arg if what == "rename" else {k: P[v] for k, v in arg.items()}
    return getattr(scene, f"{what}_{name}")(**arg)


def compare(res, scene, state, P, O, case, full=True):
    from differt2d.scene import Scene

    t, r, o = state
    ok = isinstance(scene, Scene)
    for nodes, want, part in ((scene.transmitters, t, "transmitters"), (scene.receivers, r, "receivers")):
        ref = [(k, tag_point(P[v])) for k, v in want]
        got = [(k, tag_point(v)) for k, v in nodes.items()]
        ok &= res.expect(got == ref, lambda: f"{part} are {got} instead of {ref}", case)
        if not full:
            continue
        ok &= res.expect(len(nodes) == len(ref) and list(nodes) == [k for k, _ in ref] == list(nodes.keys()), lambda: f"{part}: length {len(nodes)}, names {list(nodes)}", case)
        ok &= res.expect([tag_point(v) for v in nodes.values()] == [v for _, v in ref], f"{part}: values", case)
        for k in ("a", "b", "c", "z", "tx 0", ""):
            have = k in dict(ref)
            ok &= res.expect((k in nodes) == have, f"{part}: membership of {k!r}", case)
            try:
                v = tag_point(nodes[k])
            except KeyError:
                v = None
            ok &= res.expect(v == dict(ref).get(k), f"{part}: lookup of {k!r} gives {v}", case)
            g = nodes.get(k, None)
            ok &= res.expect((g is not None) == have, f"{part}: get of {k!r}", case)
    ref = [tag_object(O[x]) for x in o]
    got = [tag_object(x) for x in scene.objects]
    ok &= res.expect(got == ref and len(scene.objects) == len(ref), lambda: f"objects are {got} instead of {ref}", case)
    return ok


def start(which):
    from differt2d.scene import Scene

    P, O = points(), objects()
    if which == "empty":
        return Scene(), ((), (), ()), P, O
    t, r, o = {"b": P[1], "a": P[2]}, {"a": P[3], "q": P[1], "b": P[1]}, [O["V"], O["W"], O["W"]]
    s = Scene(transmitters=t, receivers=r, objects=o)
    t["zz"], r["a"] = P[3], P[2]  # the caller's dictionaries are not the scene's
    del t["b"]
    return s, ((("b", 1), ("a", 2)), (("a", 3), ("q", 1), ("b", 1)), ("V", "W", "W")), P, O


def shard_bfs(ctx, res, arg):
    which, first = arg
    scene, state, P, O = start(which)
    depth = 5 if ctx.deep else 4
    compare(res, scene, state, P, O, {"start": which})
    history = [(scene, state, ())]
    seen = {state}
    frontier = [(scene, state, ())]
    for d in range(depth):
        nxt = []
        for scene, state, ops in frontier:
            for i, op in enumerate(OPS):
                if d == 0 and i != first:
                    continue
                case = {"start": which, "edits": [OPS[k] for k in (*ops, i)]}
                with res.case(case):
                    want = step_model(state, op)
                    new = step_real(scene, op, P, O)
                    fresh = want not in seen
                    res.add(transitions=1)
                    if not compare(res, new, want, P, O, case, full=fresh):
                        continue
                    res.add(traces=1)
                    if fresh:
                        seen.add(want)
                        res.add(states=1)
                        nxt.append((new, want, (*ops, i)))
                if res.full():
                    return
            # no edit changed the scene it was applied to
            compare(res, scene, state, P, O, {"start": which, "edits": [OPS[k] for k in ops], "mutated by": "one of its edits"}, full=False)
        if d + 1 < depth:
            history += nxt
        frontier = nxt
    for scene, state, ops in history[:: max(1, len(history) // 300)]:
        compare(res, scene, state, P, O, {"start": which, "edits": [OPS[k] for k in ops], "mutated by": "a later edit"})
    res.sample({"start": which, "edits": [OPS[k] for k in history[-1][2]], "contents": history[-1][1]})


def shard_forms(ctx, res, _):
    """The mapping class itself, and edits inside compiled functions."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d.geometry import Point
    from differt2d.scene import PyTreeDict, Scene

    keys = ("b", "a", "", "10", "x y")
    for n in range(6):
        for perm in itertools.permutations(keys[:n]):
            case = {"mapping": perm}
            with res.case(case):
                ref = {k: i for i, k in enumerate(perm)}
                d = PyTreeDict.from_mapping(ref)
                res.expect(list(d.items()) == list(ref.items()) and len(d) == n and dict(d) == ref, f"{dict(d)}", case)
                e = PyTreeDict.from_mapping(d)
                res.expect(list(e.items()) == list(ref.items()), "copy", case)
                leaves, tree = jax.tree_util.tree_flatten(d)
                res.expect(leaves == list(ref.values()), f"leaves {leaves}", case)
                f = jax.tree_util.tree_unflatten(tree, [10 * v for v in leaves])
                res.expect(dict(f) == {k: 10 * v for k, v in ref.items()}, "rebuilt", case)
                res.add(states=1, transitions=4, traces=1)
    for nk, nv in itertools.product(range(4), range(4)):
        case = {"keys": nk, "values": nv}
        try:
            PyTreeDict(_keys=list(range(nk)), _values=list(range(nv)))
            ok = nk == nv
        except ValueError:
            ok = nk != nv
        res.expect(ok, "length mismatch", case)
        res.add(states=1, transitions=1, traces=1)
    case = {"compiled": True}
    with res.case(case):
        P = points()
        s = Scene(transmitters={"a": P[1], "b": P[2]}, receivers={"b": P[3]}, objects=[objects()["W"]])

        @jax.jit
        def f(s, x):
            s2 = s.update_transmitters(a=Point(xy=x), c=Point(xy=2 * x)).rename_transmitters(b="d").with_receivers(r=Point(xy=x)).add_objects(s.objects[0])
            return s2, s

        x = jnp.array([5.0, 6.0])
        s2, s1 = f(s, x)
        got = {k: np.asarray(v.xy).tolist() for k, v in s2.transmitters.items()}
        res.expect(list(got.items()) == [("a", [5.0, 6.0]), ("d", [1.0, -2.0]), ("c", [10.0, 12.0])] and list(s2.receivers) == ["r"] and len(s2.objects) == 2, f"{got}", case)
        res.expect([tag_point(v) for v in s1.transmitters.values()] == [tag_point(P[1]), tag_point(P[2])] and len(s1.objects) == 1, "the argument changed", case)
        res.add(states=1, transitions=1, traces=1)
    # what a filter may answer; which objects it sees, and in which order
    answers = {"bool": bool, "numpy": np.bool_, "array": lambda b: jnp.array(b), "numpy array": lambda b: np.array(b), "int": int}
    O = objects()
    for n in range(4):
        for objs in itertools.product("WwRV", repeat=n):
            for keep in ("W", "wV", "WwRV", ""):
                name = list(answers)[(n + len(keep) + "WwRV".index(objs[0]) if objs else 0) % len(answers)]
                case = {"objects": objs, "kept": keep, "answer": name}
                with res.case(case):
                    asked = []

                    def spec(o, keep=keep, name=name, asked=asked):
                        asked.append(tag_object(o))
                        return answers[name](tag_object(o) in {tag_object(O[k]) for k in keep})

                    s = Scene(transmitters={"a": points()[1]}, objects=[O[x] for x in objs])
                    t = s.filter_objects(spec)
                    want = [tag_object(O[x]) for x in objs if x in keep]
                    res.expect([tag_object(o) for o in t.objects] == want and len(s.objects) == n and list(t.transmitters) == ["a"], lambda: f"kept {t.objects}", case)
                    res.expect(all(a in [tag_object(O[x]) for x in objs] for a in asked), lambda: f"asked about {asked}", case)
                    res.add(states=1, transitions=n, traces=1)
    # the same node under several names, the same object several times, equal but distinct ones
    case = {"shared": True}
    with res.case(case):
        P = points()
        s = Scene().update_transmitters(a=P[1]).update_receivers(a=P[1], b=P[1]).update_transmitters(b=P[1], c=Point(xy=P[1].xy + 0))
        s = s.add_objects(O["W"]).add_objects(O["W"], O["w"]).add_objects(type(O["W"])(xys=O["W"].xys + 0))
        compare(res, s, ((("a", 1), ("b", 1), ("c", 1)), (("a", 1), ("b", 1)), ("W", "W", "w", "W")), P, O, case)
        s2 = s.rename_receivers(a="x", b="y").update_receivers(x=P[2]).filter_objects(lambda o: tag_object(o) == tag_object(O["W"]))
        compare(res, s2, ((("a", 1), ("b", 1), ("c", 1)), (("x", 2), ("y", 1)), ("W", "W", "W")), P, O, case)
        compare(res, s, ((("a", 1), ("b", 1), ("c", 1)), (("a", 1), ("b", 1)), ("W", "W", "w", "W")), P, O, case)
        res.add(states=3, transitions=8, traces=3)
    # names that look like something else
    for names in itertools.permutations(("transmitters", "receivers", "objects", "cls", "_keys", "_values", "tx", "rx", "name", "points", "None"), 2):
        case = {"names": names}
        with res.case(case):
            s = Scene().with_transmitters(**{names[0]: P[1], names[1]: P[2]}).update_transmitters(**{names[1]: P[3], "class": P[1]})
            s = s.rename_transmitters(**{names[0]: "é", "class": names[0]}).with_receivers(**{names[1]: P[2]}).update_receivers(**{names[0]: P[1]})
            compare(res, s, ((("é", 1), (names[1], 3), (names[0], 1)), ((names[1], 2), (names[0], 1)), ()), P, O, case)
            res.add(states=1, transitions=5, traces=1)
    # a scene with many entries keeps its order
    case = {"large": True}
    with res.case(case):
        names = [f"n{(37 * i) % 101}" for i in range(60)]
        s = Scene()
        for i, n in enumerate(names):
            s = s.update_receivers(**{n: Point(xy=jnp.array([float(i), 0.0]))})
        res.expect(list(s.receivers) == names and [int(p.xy[0]) for p in s.receivers.values()] == list(range(60)), "order", case)


def shard(ctx, res, s):
    {"b": shard_bfs, "f": shard_forms}[s[0]](ctx, res, s[1])


def run(ctx, res):
    from ..core import run_shards

    jobs = [("f", None)] + [("b", (w, i)) for w in ("full", "empty") for i in range(len(OPS))]
    run_shards(ctx, res, shard, jobs)
