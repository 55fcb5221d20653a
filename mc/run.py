"""python -m mc.run <property> [--replay FILE]: runs one check, see DESIGN.md."""

import importlib
import json
import os
import sys
import time

from . import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(prop, tier, seed)
    t0 = time.time()
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    if "--replay" in sys.argv:
        # The exploration is deterministic: a violation is replayed by re-running the shard
        # that found it (or only the recorded case, where the check defines `replay`).
        data = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        core.bootstrap(getattr(mod, "X64", False))
        bad = 0
        for v in data["violations"]:
            res = core.Result()
            if hasattr(mod, "replay"):
                with res.case(v["case"]):
                    mod.replay(ctx, res, v["case"])
            print(json.dumps(v["case"])[:500], "->", "VIOLATED" if res.nviol else "ok")
            for w in res.violations:
                print("   ", w["msg"])
            bad += bool(res.nviol)
        return 1 if bad else 0
    res = core.Result()
    if not getattr(mod, "NO_BOOTSTRAP", False):
        core.bootstrap(getattr(mod, "X64", False))
    with res.case({"check": prop}):
        mod.run(ctx, res)
    return core.finish(ctx, res, t0, mod.META)


if __name__ == "__main__":
    sys.exit(main())
