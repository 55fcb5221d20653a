"""Common machinery of the checks: bookkeeping, parallel shards, evidence, findings, replays."""

import concurrent.futures as cf
import contextlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def bootstrap(x64=False):
    """Imports jax and the package under check from /repo's working tree."""
    sys.dont_write_bytecode = True
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    import jax

    if x64:
        jax.config.update("jax_enable_x64", True)
    import beartype, equinox, jaxtyping, matplotlib.pyplot, optax  # noqa: E401, F401

    sys.pycache_prefix = os.path.join(ROOT, ".nopyc")  # never read stale byte code of /repo
    import differt2d

    where = os.path.realpath(os.path.dirname(differt2d.__file__))
    if where != os.path.join(REPO, "differt2d"):
        raise SystemExit(f"wrong package under check: {where}")


def _clean(x):
    """Makes any case JSON-serialisable."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_clean(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    if hasattr(x, "tolist"):
        return x.tolist()
    return repr(x)


class Result:
    """What one shard (or a whole check) explored and found."""

    MAXV = 8

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.extra = {}
        self.nviol = 0

    def add(self, states=0, transitions=0, traces=0, skipped=0):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)
        self.skipped += int(skipped)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + int(n)

    def sample(self, s, cap=4):
        if len(self.samples) < cap:
            self.samples.append(_clean(s))

    def violation(self, msg, case):
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append({"msg": str(msg)[:4000], "case": _clean(case)})

    def finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1

    def expect(self, ok, msg, case):
        if not ok:
            self.violation(msg() if callable(msg) else msg, case)
        return bool(ok)

    @contextlib.contextmanager
    def case(self, case):
        """Everything raised by the code under check on a valid input is a violation."""
        try:
            yield
        except (KeyboardInterrupt, MemoryError, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001
            tb = traceback.format_exc()
            self.violation(f"unexpected {type(e).__name__}: {str(e)[:300]}\n{tb[-1800:]}", case)

    def full(self):
        """Enough violations were recorded: the exploration may stop."""
        return self.nviol >= 40

    def merge(self, o):
        self.add(o.states, o.transitions, o.traces, o.skipped)
        for s in o.samples:
            self.sample(s, cap=8)
        self.nviol += o.nviol
        for v in o.violations:
            if len(self.violations) < self.MAXV:
                self.violations.append(v)
        for k, n in o.known.items():
            self.known[k] = self.known.get(k, 0) + n
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.deep = tier == "thorough"


def _shard(mod, fn, ctx, shard, x64):
    flags = os.environ.get("XLA_FLAGS", "")
    if "multi_thread_eigen" not in flags:
        os.environ["XLA_FLAGS"] = (
            flags + " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        )
    bootstrap(x64)
    f = getattr(importlib.import_module(mod), fn)
    res = Result()
    t = time.time()
    with res.case({"shard": repr(shard)}):
        f(ctx, res, shard)
    if os.environ.get("MC_VERBOSE") == "2":
        print(f"  {time.time() - t:.1f}s {str(shard)[:90]}", flush=True)
    return res


def run_shards(ctx, res, fn, shards, x64=False, workers=8, fresh=False):
    """Runs fn(ctx, res, shard) for every shard in `workers` processes (or each shard in its own one, if fresh)."""
    shards = list(shards)
    t = time.time()
    mpc = mp.get_context("spawn")
    with cf.ProcessPoolExecutor(min(workers, max(1, len(shards))), mp_context=mpc, max_tasks_per_child=1 if fresh else None) as ex:
        futs = [ex.submit(_shard, fn.__module__, fn.__name__, ctx, s, x64) for s in shards]
        for f in futs:
            res.merge(f.result())
    if os.environ.get("MC_VERBOSE"):
        print(f"[{fn.__name__}] {len(shards)} shards, {time.time() - t:.1f}s", flush=True)


def known_findings(prop):
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("|")
                kv = dict(t.split("=", 1) for t in head.split())
                if kv["property"] == prop:
                    out[kv["key"]] = text.strip()
    return out


def finish(ctx, res, t0, meta):
    listed = known_findings(ctx.prop)
    for key, n in list(res.known.items()):
        if key not in listed:
            res.violation(f"finding {key!r} ({n} cases) is not listed as known", {"finding": key})
    coverage = {
        "states": res.states,
        "transitions": res.transitions,
        "traces_validated_against_impl": res.traces,
        "skipped_near_decision_boundary": res.skipped,
        "exhaustive": not res.nviol,
        "samples": res.samples or ["(none)"],
        "bounds": meta.get("bounds", ""),
        "counting": meta.get("counting", ""),
        **res.extra,
    }
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": res.nviol,
        "known_findings": res.known,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{ctx.prop} {ctx.tier}: states={res.states} transitions={res.transitions} "
        f"traces={res.traces} skipped={res.skipped} {res.extra} wall={ev['wall_s']}s"
    )
    for key in sorted(res.known):
        if key in listed:
            print(f"KNOWN-FINDING: property={ctx.prop} {listed[key]}")
    if res.nviol:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{ctx.prop}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": ctx.prop, "tier": ctx.tier, "total": res.nviol, "violations": res.violations},
                f,
                indent=1,
            )
        for v in res.violations[:3]:
            print("  " + v["msg"].replace("\n", "\n    ")[:1500])
            print("    case:", json.dumps(v["case"])[:600])
        print(f"VIOLATION property={ctx.prop} replay={path}")
        return 1
    if res.states == 0 or res.traces == 0:
        print("error: nothing was explored")
        return 2
    return 0


_jitted = {}


def batched(key, make, size):
    """A jitted vmap of make(), compiled once per process and key, called on batches padded to `size`."""
    import jax
    import jax.numpy as jnp
    import numpy as np

    if key not in _jitted:
        _jitted[key] = jax.jit(jax.vmap(make()))
    g = _jitted[key]

    def call(*arrays):
        n = len(arrays[0])
        outs = []
        for i in range(0, n, size):
            part = [np.asarray(a[i : i + size]) for a in arrays]
            m = len(part[0])
            if m < size:
                part = [np.concatenate([p, np.repeat(p[-1:], size - m, axis=0)]) for p in part]
            part = [jnp.asarray(p, dtype=jnp.result_type(float)) if p.dtype.kind == "f" else jnp.asarray(p) for p in part]
            out = jax.tree_util.tree_map(lambda v: np.asarray(v)[:m], g(*part))
            outs.append(out)
        return jax.tree_util.tree_map(lambda *vs: np.concatenate(vs), *outs)

    return call
