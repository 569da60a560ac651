"""Self-test of the simulator: the same seeds give the same executions.

For each check, N plans are executed three times in different interpreters: twice with the same hash
seed and once with another one, in different scratch directories and next to other load.  Everything
observable about a run (verdict, hash of operations and results, hash of the executed interleaving, number of
steps, faults, probes) must be equal.  usage: python tools/selftest.py [N] [check...]"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
import harness

MAIN = os.path.join(HERE, "..", "sim", "main.py")


def go(check, n, hashseed):
    with tempfile.TemporaryDirectory(prefix="vself") as d:
        r = subprocess.run(
            [harness.PY, MAIN, "--worker", check, "77", "quick", "0", "1", str(n), "600", d],
            env=harness.env_for(hashseed), capture_output=True, text=True,
        )
    out = []
    for l in r.stdout.splitlines():
        try:
            o = json.loads(l)
        except ValueError:
            continue  # something printed by a library
        out.append({k: o.get(k) for k in ("run", "plan_sha", "violation", "harness_error", "sig", "interleaving", "steps", "faults", "probes", "trace")})
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 20
    checks = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 15)]
    bad = 0
    for c in checks:
        a, b, x = go(c, n, 0), go(c, n, 0), go(c, n, 12345)
        same = sum(p == q for p, q in zip(a, b))
        other = sum(p == q for p, q in zip(a, x))
        print(f"{c}: {len(a)} runs, same hash seed: {same} identical, other hash seed: {other} identical")
        if same != len(a) or len(b) != len(a):
            bad = 1
            for p, q in zip(a, b):
                if p != q:
                    print("   ", {k: (str(p[k])[:200], str(q[k])[:200]) for k in p if p[k] != q[k]})
                    break
    return bad


sys.exit(main())
