import os
import sys

from vmc.core import replay, run_check

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    mod = sys.argv[1].lower()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run_check(mod, tier, int(os.environ.get("VERIF_SEED", "1"))))
