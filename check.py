"""Run one property's check:  check.py <ID> [quick|thorough]   or   check.py --replay FILE"""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import boot, report  # noqa: E402


def main():
    boot.setup()
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fh:
            rec = json.load(fh)
        mod = importlib.import_module("props." + rec["property"].lower())
        print(rec["key"])
        print(rec["what"])
        if isinstance(rec.get("replay"), dict) and "scenario" in rec["replay"]:
            from mc import explore
            return explore.replay(mod, rec["replay"])
        if rec.get("replay") is None or not hasattr(mod, "replay"):
            print("(the key above is the complete failing input; rerun the check to reproduce)")
            return 0
        return mod.replay(rec["replay"]) or 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = report.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("props." + prop.lower())
        mod.run(ctx)
    except Exception as exc:
        traceback.print_exc()
        if boot.in_repo_traceback(exc) or "/repo/rocketry/" in str(exc).split("\n  File")[-1]:
            ctx.violation("unexpected-exception:" + type(exc).__name__,
                          "the code under test raised outside any guarded step: " + "".join(
                              traceback.format_exception_only(exc)).strip()[:500],
                          {"traceback": traceback.format_exc()})
        else:
            return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
