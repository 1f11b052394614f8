#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]  -- decide one property statically from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analyzer"))
sys.setrecursionlimit(20000)
import ctx
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = ctx.main(pid, tier, seed)
    except Exception as e:  # any engine failure is an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
