#!/usr/bin/env python3
"""check.py <property-id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vf  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid.lower())
    chk = vf.Check(pid, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(chk)
        return chk.finish()
    except Exception:
        traceback.print_exc()
        print(f"ERROR of the check {pid}", file=sys.stderr)
        return 2


sys.exit(main())
