"""C02: mode scopes of different threads never mix (controlled interleavings of the real code)."""

import itertools
import sys

META = {
    "bounds": "quick: every ordered pair of 13 thread programs, <=2 preemptions, both initial modes; every "
    "triple of 5 programs with <=1 preemption. thorough: 3 and 2 preemptions. "
    "Preemption before every shared-memory opcode of the module and at every lock operation.",
    "counting": "state = scheduling points reached; transition = steps granted by the scheduler; "
    "trace = complete schedules of the real code (all distinct by construction)",
    "assumptions": [
        "CPython executes one opcode atomically (GIL)",
        "locks come from the threading module (Lock/RLock)",
    ],
}
NO_BOOTSTRAP = True

# A program is a tuple of operations; E(b, body) is a scope, S(b) sets the default, R reads.
R = ("R",)


def E(b, *body):
    return ("E", b, body)


def D(b, *body):
    return ("D", b, body)


def S(b):
    return ("S", b)


X = ("X",)  # raises (caught outside of the outermost scope)
PROGRAMS = [
    (S(True),),
    (S(False),),
    (E(True, R),),
    (E(False, R),),
    (E(True, R, E(False, R), R),),
    (E(False, S(True), R),),
    (E(True, R, X),),
    (D(True, R),),
    (("F", True, (R,)),),  # decorated function
    (S(True), E(False, R), S(False)),
    (E(True, R), E(False, R)),
    (E(False, E(True, R, X)),),
    (("G", False, (R,)), S(True)),  # disable_approx as decorator
]
TRIPLES = [0, 1, 2, 3, 4]


class Boom(Exception):
    pass


def load():
    """Imports the module under check with cooperative locks."""
    from .. import core, sched

    import jax  # noqa: F401

    core.bootstrap()
    for m in [m for m in sys.modules if m.startswith("differt2d.")]:
        del sys.modules[m]
    sched.patch_locks()
    try:
        from differt2d import logic
    finally:
        sched.unpatch_locks()
    import os

    root = os.path.dirname(logic.__file__)
    files = {os.path.join(root, f) for f in os.listdir(root) if f.endswith(".py")}
    return logic, files, sched


def interpret(logic, prog, log, x):
    """Runs a program on the real module; log gets (expected, observed) for in-scope reads."""

    def read(expected):
        x.point(None)
        v = logic.ENABLE_APPROX
        if expected is not None:
            log.append((expected, v))

    def run(ops, mode):
        for op in ops:
            if op[0] == "S":
                logic.set_approx(op[1])
                if mode is not None:
                    mode = op[1]
            elif op[0] == "R":
                read(mode)
            elif op[0] == "E":
                with logic.enable_approx(op[1]):
                    run(op[2], op[1])
                if mode is not None:
                    read(mode)
            elif op[0] == "D":
                with logic.disable_approx(op[1]):
                    run(op[2], not op[1])
            elif op[0] == "F":
                logic.enable_approx(op[1])(lambda: run(op[2], op[1]))()
            elif op[0] == "G":
                logic.disable_approx(op[1])(lambda: run(op[2], not op[1]))()
            elif op[0] == "X":
                raise Boom

    for op in prog:
        try:
            run((op,), None)
        except Boom:
            pass


def finals(initial, progs):
    """Final modes of all serial executions of the top-level operations."""
    out = set()

    def go(pos, mode):
        if all(p == len(q) for p, q in zip(pos, progs)):
            out.add(mode)
        for i, q in enumerate(progs):
            if pos[i] < len(q):
                op = q[pos[i]]
                go(pos[:i] + (pos[i] + 1,) + pos[i + 1 :], op[1] if op[0] == "S" else mode)

    go((0,) * len(progs), initial)
    return out


def explore(res, logic, files, sched, progs, initial, bound):
    allowed = finals(initial, progs)
    case = {"programs": progs, "initial": initial, "preemptions": bound}
    logs = []
    outcomes = set()

    def make():
        logic.set_approx(initial)
        logs.clear()
        logs.extend([] for _ in progs)
        return [lambda x, p=p, g=g: interpret(logic, p, g, x) for p, g in zip(progs, logs)]

    def judge(x):
        c = {**case, "schedule": [p.choice for p in x.points]}
        outcomes.add((logic.ENABLE_APPROX, tuple(tuple(g) for g in logs), x.deadlock))
        if x.deadlock:
            return res.expect(False, "deadlock", c)
        for i, e in enumerate(x.errors):
            if e is not None:
                return res.expect(False, f"thread {i} raised {type(e).__name__}: {e}", c)
        for i, g in enumerate(logs):
            for want, got in g:
                if want is not got:
                    return res.expect(False, f"thread {i} saw mode {got} inside a scope requesting {want}", c)
        if logic.ENABLE_APPROX not in allowed:
            return res.expect(
                False, f"final mode {logic.ENABLE_APPROX}: no serial execution ends like this ({allowed})", c
            )
        return True

    stats = {}
    # Determinism: the default schedule run twice must visit identical points.
    a = sched.Execution(make(), files).run()
    b = sched.Execution(make(), files).run()
    key = lambda x: [(p.enabled, p.running) for p in x.points]  # noqa: E731
    if key(a) != key(b):
        a = b
        b = sched.Execution(make(), files).run()
        if key(a) != key(b):
            raise RuntimeError("the default schedule is not reproducible")
    bad = sched.explore(make, files, bound, judge, stats)
    if bad is not None:
        # the failing schedule must fail again
        sched.CURRENT = None
        reload_state(logic)
    res.add(states=stats.get("points", 0), transitions=stats.get("points", 0), traces=stats.get("schedules", 0))
    res.count("scenarios")
    res.count("distinct_outcomes", len(outcomes))


def reload_state(logic):
    for v in vars(logic).values():
        if type(v).__name__ == "CoopLock":
            v.owner, v.count = None, 0


def shard(ctx, res, jobs):
    logic, files, sched = load()
    # warm-up
    for p in PROGRAMS:
        sched.Execution([lambda x, p=p: interpret(logic, p, [], x)], files).run()
    for progs, initial, bound in jobs:
        with res.case({"programs": progs, "initial": initial, "preemptions": bound}):
            explore(res, logic, files, sched, progs, initial, bound)
        if res.full():
            return
    res.sample({"programs": jobs[0][0], "initial": jobs[0][1], "preemptions": jobs[0][2]})


def run(ctx, res):
    from ..core import run_shards

    b2, b3 = (3, 2) if ctx.deep else (2, 1)
    jobs = []
    for p, q in itertools.combinations_with_replacement(PROGRAMS, 2):
        for init in (False, True):
            jobs.append(((p, q), init, b2))
    for c in itertools.combinations_with_replacement(TRIPLES, 3):
        for init in (False, True):
            jobs.append((tuple(PROGRAMS[i] for i in c), init, b3))
    jobs.sort(key=lambda j: -len(repr(j)))
    run_shards(ctx, res, shard, [jobs[i::64] for i in range(64)])


def replay(ctx, res, case):
    logic, files, sched = load()
    progs = [_tup(p) for p in case["programs"]]
    logic.set_approx(case["initial"])
    logs = [[] for _ in progs]
    x = sched.Execution(
        [lambda x, p=p, g=g: interpret(logic, p, g, x) for p, g in zip(progs, logs)], files, case.get("schedule", [])
    ).run()
    bad = x.deadlock or any(x.errors) or any(a is not b for g in logs for a, b in g)
    bad = bad or logic.ENABLE_APPROX not in finals(case["initial"], progs)
    res.expect(not bad, f"deadlock={x.deadlock} errors={x.errors} reads={logs} final={logic.ENABLE_APPROX}", case)


def _tup(p):
    return tuple(_tup(v) for v in p) if isinstance(p, list) else p
