"""C01: mode scopes nest and restore (all programs up to a size against a stack model)."""

import itertools
import os
import subprocess
import sys

META = {
    "bounds": "quick: all programs with <=4 nodes over {set on/off, 7 scope forms x on/off (4 at the root of 4 nodes or more; decorated functions may re-enter themselves), raise, pre-decorated call} from both "
    "initial modes; exceptions of 4 kinds for <=3 nodes; functional queries in every program of <=2 nodes. thorough: also 5 nodes (queries: 3 nodes) over a reduced alphabet (3 leaves, 5 scope forms).",
    "counting": "state = (program, initial mode); transition = mode observations compared to the model; trace = programs executed on the real module",
    "assumptions": ["single thread (threads are C02)"],
}

LEAVES = [("S", True), ("S", False), ("X", 0), ("G", True), ("G", False)]
# E/D: with enable/disable, F: decorator applied anew, P/Q: decorator applied once and re-entered, K: keyword form
CORE = [("E", True), ("E", False), ("D", True), ("D", False), ("F", True), ("F", False), ("P", True), ("P", False)]
SMALL = [("E", True), ("E", False), ("D", True), ("P", True), ("P", False)]
SCOPES = [*CORE, ("Q", True), ("Q", False), ("E", None), ("D", None), ("K", True), ("K", False)]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXC = [Boom, BaseBoom, StopIteration, GeneratorExit]


def forests(n, small=False):
    """All forests with exactly n nodes (over the reduced alphabet when small)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in trees(k, small):
            for rest in forests(n - k, small):
                yield (first, *rest)


_cache = {}


def trees(k, small):
    if (k, small) not in _cache:
        out = []
        if k == 1:
            out += LEAVES[: 3 if small else None]
        for s in SMALL if small else SCOPES if k < 4 else CORE:
            for kids in forests(k - 1, small):
                out.append((*s, kids))
        _cache[k, small] = out
    return _cache[k, small]


class Machine:
    def __init__(self, logic, res, query=None):
        self.logic, self.res, self.query = logic, res, query
        self.n = 0

        def make(b):
            @logic.enable_approx(b)
            def g():
                return logic.ENABLE_APPROX

            return g

        self.pre = {b: make(b) for b in (True, False)}
        forms = {"P": logic.enable_approx, "Q": logic.disable_approx}
        self.shared = {(k, b): f(b)(lambda body: body()) for k, f in forms.items() for b in (True, False)}

    def see(self, want, where):
        self.n += 1
        got = self.logic.ENABLE_APPROX
        if got is not want:
            raise AssertionError(f"mode is {got!r} instead of {want!r} {where}")
        if self.query:
            self.query(want, where)

    def run(self, ops, mode, exc):
        """Executes the operations; returns the mode the model predicts afterwards."""
        lg = self.logic
        for op in ops:
            if op[0] == "S":
                lg.set_approx(op[1])
                mode = op[1]
                self.see(mode, "after a setting")
            elif op[0] == "G":
                if self.pre[op[1]]() is not op[1]:
                    raise AssertionError("mode inside a decorated function")
                self.see(mode, "after a decorated function")
            elif op[0] == "X":
                raise exc("planned")
            else:
                inner = True if op[1] is None else op[1]
                if op[0] in ("D", "Q"):
                    inner = not inner

                def body(kids=op[2], inner=inner):
                    self.see(inner, "inside a scope")
                    self.run(kids, inner, exc)
                    return "result"

                caught = True
                try:
                    if op[0] in ("E", "D"):
                        cm = lg.enable_approx if op[0] == "E" else lg.disable_approx
                        with cm() if op[1] is None else cm(op[1]):
                            body()
                    elif op[0] == "K":  # keyword form
                        with lg.enable_approx(enable=op[1]):
                            body()
                    elif op[0] in ("P", "Q"):
                        if self.shared[op[:2]](body) != "result":
                            raise AssertionError("a decorated function loses its result")
                    elif lg.enable_approx(op[1])(body)() != "result":
                        raise AssertionError("a decorated function loses its result")
                    caught = False
                except exc as e:
                    if str(e) != "planned":
                        raise
                except RuntimeError as e:
                    # contextlib turns StopIteration into itself again; anything else is a defect
                    raise AssertionError(f"the exception was replaced by {e!r}") from e
                if has_x(op[2]) != caught:
                    raise AssertionError("an exception was swallowed" if not caught else "unexpected exception")
                self.see(mode, "after leaving a scope" + (" by an exception" if caught else ""))
        return mode


def has_x(ops):
    """Whether an exception escapes the list (scopes catch the one of their children just outside)."""
    return any(o[0] == "X" for o in ops)


def program(res, m, ops, init, exc):
    case = {"program": ops, "initial": init, "exception": exc.__name__}
    with res.case(case):
        m.logic.set_approx(init)
        m.n = 0
        try:
            m.run(ops, init, exc)
        except exc as e:
            if not has_x(ops):
                raise AssertionError("unexpected exception") from e
        res.add(states=1, transitions=m.n, traces=1)


def shard_programs(ctx, res, part):
    from differt2d import logic

    i, k = part
    m = Machine(logic, res)
    n4, n3 = (5, 4) if ctx.deep else (4, 3)
    j = 0
    for n in range(1, n4 + 1):
        for ops in forests(n, n > 4):
            j += 1
            if j % k != i:
                continue
            for init in (False, True):
                program(res, m, ops, init, Boom)
                if n <= n3 and any("X" in repr(o) for o in ops):
                    for exc in EXC[1:]:
                        program(res, m, ops, init, exc)
            if res.full():
                return
    res.sample({"program": ops})


def make_query(res):
    """Operations without an explicit choice, under disable_jit, follow the mode."""
    import jax
    import jax.numpy as jnp
    import numpy as np
    from differt2d import logic
    from differt2d.geometry import Path, Vertex, Wall, segments_intersect

    a, b = jnp.array([0.25, 1.0]), jnp.array([0.75, 1.0])
    t = jnp.array([[0.0, 0.0], [1.0, 0.0], [0.5, -1.0], [0.5, 1.0]])
    wall = Wall(xys=t[:2])
    path = Path(xys=t[2:])
    idx = jnp.zeros((0,), dtype=int)
    # name -> (thunk, exact value, smooth value or None when only the kind is checked)
    ops = {
        "greater": (lambda: logic.greater(a, b), [False, False], [0.0, 0.5]),
        "greater_equal": (lambda: logic.greater_equal(a, b), [False, True], [0.0, 0.5]),
        "less": (lambda: logic.less(a, b), [True, False], [1.0, 0.5]),
        "less_equal": (lambda: logic.less_equal(a, b), [True, True], [1.0, 0.5]),
        "logical_or": (lambda: logic.logical_or(a, b), [True, True], [0.75, 1.0]),
        "logical_and": (lambda: logic.logical_and(a, b), [True, True], [0.25, 1.0]),
        "logical_not": (lambda: logic.logical_not(a), [False, False], [0.75, 0.0]),
        "logical_all": (lambda: logic.logical_all(a, b), True, 0.25),
        "logical_any": (lambda: logic.logical_any(a, b), True, 1.0),
        "is_true": (lambda: logic.is_true(a if logic.ENABLE_APPROX else a > 0.5), [False, True], [False, True]),
        "is_false": (lambda: logic.is_false(a), [False, False], [True, False]),
        "true_value": (lambda: logic.true_value(), True, 1.0),
        "false_value": (lambda: logic.false_value(), False, 0.0),
        "segments_intersect": (lambda: segments_intersect(*t), True, 1.0),
        "contains": (lambda: wall.contains_parametric(jnp.array([0.5])), True, 1.0),
        "intersects": (lambda: wall.intersects_cartesian(t[2:]), True, 1.0),
        "vertex": (lambda: Vertex(xy=t[0]).intersects_cartesian(t[2:]), False, 0.0),
        "vertex contains": (lambda: Vertex(xy=t[0]).contains_parametric(jnp.zeros((0,))), True, 1.0),
        "on_objects": (lambda: path.on_objects([]), True, 1.0),
        "crosses": (lambda: path.intersects_with_objects([wall], idx), True, 1.0),
        "is_valid": (lambda: path.is_valid([wall], idx, []), False, 0.0),
    }

    def query(mode, where):
        with jax.disable_jit():
            for name, (f, exact, smooth) in ops.items():
                res.add(transitions=1)
                got = f()
                want = smooth if mode else exact
                kind = np.asarray(got).dtype.kind
                wk = "b" if (not mode or name in ("is_true", "is_false")) else "f"
                # validity is NaN-cleaned: the kind of the exact verdict may be any truth value
                if kind != wk and name != "is_valid":
                    raise AssertionError(f"{name}() answered with {np.asarray(got).dtype} in mode {mode} {where}")
                if not np.allclose(np.asarray(got, dtype=float), np.asarray(want, dtype=float), atol=1e-5):
                    raise AssertionError(f"{name}() = {got} instead of {want} in mode {mode} {where}")

    return query


def shard_query(ctx, res, part):
    from differt2d import logic

    i, k = part
    m = Machine(logic, res, make_query(res))
    j = 0
    for n in range(1, 4 if ctx.deep else 3):
        for ops in forests(n, n > 2):
            j += 1
            if j % k == i:
                program(res, m, ops, bool(j // k % 2), Boom)
                res.count("programs_with_functional_queries")
                if res.full():
                    return


def shard_compiled(ctx, res, _):
    """First compilation in a scope (new shapes, so never compiled before) follows the mode."""
    import jax.numpy as jnp
    import numpy as np
    from differt2d import logic

    shape = [2]
    names = ["greater", "greater_equal", "less", "less_equal", "logical_or", "logical_and"]
    for init, scope, name in itertools.product((False, True), (None, False, True), names):
        case = {"first_compilation": name, "initial": init, "scope": scope}
        with res.case(case):
            logic.set_approx(init)
            shape[0] += 1
            x = jnp.linspace(0.0, 1.0, shape[0])
            f = getattr(logic, name)
            if scope is None:
                r, mode = f(x, x[::-1]), init
            else:
                with logic.enable_approx(scope):
                    r, mode = f(x, x[::-1]), scope
            kind = np.asarray(r).dtype.kind
            res.expect(kind == ("f" if mode else "b"), f"{name} compiled in mode {mode} gives {r.dtype}", case)
            res.add(states=1, transitions=1, traces=1)


CODE = "import differt2d.logic as l, jax\njax.config.update('jax_disable_jit', True)\nprint(l.ENABLE_APPROX, l.greater(2.0, 1.0).dtype)"


def shard_env(ctx, res, env):
    case = {"environment": env}
    with res.case(case):
        e = {k: v for k, v in os.environ.items() if k not in ("ENABLE_APPROX", "DISABLE_APPROX")}
        e.update(env)
        r = subprocess.run([sys.executable, "-c", CODE], env=e, capture_output=True, text=True, timeout=300)
        want = "True float32" if "ENABLE_APPROX" in env else "False bool"
        res.expect(r.stdout.strip() == want, f"{r.stdout.strip()!r} instead of {want!r} {r.stderr[-500:]}", case)
        res.add(states=1, transitions=2, traces=1)


def run(ctx, res):
    from ..core import run_shards

    run_shards(ctx, res, shard, [("p", (i, 16)) for i in range(16)]
               + [("q", (i, 16)) for i in range(16)] + [("c", None)]
               + [("e", e) for e in ({}, {"ENABLE_APPROX": "1"}, {"ENABLE_APPROX": ""}, {"ENABLE_APPROX": "true"}, {"OTHER_APPROX": "1"})])  # fmt: skip


def shard(ctx, res, s):
    {"p": shard_programs, "q": shard_query, "c": shard_compiled, "e": shard_env}[s[0]](ctx, res, s[1])
