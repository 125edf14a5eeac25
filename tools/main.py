import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Check, StopCheck, ToolError
import checks


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ck = Check(pid, tier, seed)
        try:
            getattr(checks, pid)(ck)
        except StopCheck:
            pass
        return ck.finish()
    except ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
