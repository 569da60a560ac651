import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness


def main():
    a = sys.argv[1:]
    if a[0] == "--worker":
        harness.worker_main(a[1:])
        return 0
    if a[0] == "--helper":
        harness.helper_main(a[1:])
        return 0
    if a[0] == "--minimise":
        harness.minimise_main(a[1:])
        return 0
    if a[0] == "--replay-inner":
        return harness.replay_main(a[1:])
    if a[0] == "--replay":
        import json
        import subprocess

        rep = json.load(open(a[1]))
        return subprocess.call(
            [harness.PY, __file__, "--replay-inner", os.path.abspath(a[1])],
            env=harness.env_for(rep["hashseed"]),
        )
    check = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return harness.run_check(check, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
