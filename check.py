#!/usr/bin/env python3
"""Entry point of every check: check.py <property id> [quick|thorough]"""
import importlib, json, os, sys, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
sys.path.insert(0, os.path.join(V, "props"))
import report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = report.Ctx(pid, tier, seed)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        if not any(i[0] == "violation" for i in ctx.items):
            return 2
    level = "other"
    for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            level = c["level"]
    return report.finish(ctx, level)


if __name__ == "__main__":
    sys.exit(main())
