"""Runs a check: seeded plans, one forked process per simulated run, minimisation,
replay files, evidence.

A check module defines
  ID, LEVEL, RULE, COMPONENTS (dict: component -> "real"/"stub ..."), ASSUMPTIONS
  QUICK, THOROUGH : {"runs": n, "secs": cap}
  warm()                     imports before forking (optional)
  gen(rng, tier) -> plan     explicit, JSON-able: everything the run depends on
  execute(plan, scratch) -> outcome dict:
       violation : None | str       (first word: class of the violation)
       faults    : {kind: count}    fired faults
       probes    : {name: count}
       sig       : str              signature of the behaviour reached
       nontrivial: bool
       steps     : int              simulated steps covered (scheduler points, I/O operations ...)
       interleaving : str|None      hash of the schedule actually run
  shrinks(plan) -> iterable of simpler plans
"""
import collections
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO_SRC = "/repo/src"
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load(check):
    sys.path.insert(0, HERE)
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    return importlib.import_module(f"checks.{check.lower()}")


def hash_seeds(seed, n):
    r = random.Random(f"hs:{seed}")
    return [r.randrange(1, 4294967295) for _ in range(n)]


def env_for(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_SIM_CHILD"] = "1"
    e["TZ"] = "UTC"
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = e["MKL_NUM_THREADS"] = "1"
    return e


def preload():
    """imports everything a run may need, so that no import happens inside a run"""
    import json  # noqa
    import pandas, numpy, yaml, pydantic, antlr4, anytree  # noqa
    import ortools.linear_solver.pywraplp as lp

    import sched

    sched.patch_locks()
    import andromede
    import pkgutil

    for m in pkgutil.walk_packages(andromede.__path__, "andromede."):
        if "pypsa_converter.pypsa_converter" in m.name:
            continue
        importlib.import_module(m.name)
    # first use of the solver library and of pandas, before forking
    lp.Solver.CreateSolver("GLOP")
    pandas.DataFrame([[1.0, 2.0]]).iloc[0, 0]


# ------------------------------------------------------------ one simulated run
def run_plan(mod, plan, timeout=90.0, scratch_base=None):
    """fork, execute the plan in the child, return its outcome"""
    r, w = os.pipe()
    scratch = tempfile.mkdtemp(prefix="vsim", dir=scratch_base)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VERIF_SIM_LOUD"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            import gc

            gc.disable()
            os.chdir(scratch)
            try:
                out = mod.execute(plan, scratch)
            except BaseException:
                out = {"harness_error": traceback.format_exc()}
            data = json.dumps(out, default=str).encode()
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    dead = False
    while True:
        left = end - time.time()
        if left <= 0:
            dead = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    if dead:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if dead:
        return {"harness_error": f"run exceeded {timeout}s", "timeout": True}
    try:
        return json.loads(buf)
    except ValueError:
        return {"harness_error": f"child died, status {st}"}


def in_child(fn):
    """run fn in a forked copy of this process; its JSON-able result, or ["died", ...]"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn(), default=str).encode()
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv) :]
        except BaseException as e:
            try:
                os.write(w, json.dumps(["died", repr(e)]).encode())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return ["died", "no output"]


def as_json(x):
    return json.loads(json.dumps(x, default=str))


def first_diff(a, b, path=""):
    """where two JSON values differ, or None"""
    if type(a) is not type(b):
        return f"{path}: {_short(a)} instead of {_short(b)}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f"{path}/{k}: missing"
            if k not in b:
                return f"{path}/{k}: unexpected"
            d = first_diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}/{i}")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} items instead of {len(b)}"
        return None
    return None if a == b else f"{path}: {_short(a)} instead of {_short(b)}"


def _short(x):
    s = json.dumps(x, default=str)
    return s if len(s) < 160 else s[:160] + "..."


def vclass(v):
    return v.split(" ")[0].rstrip(":")


# ------------------------------------------------------------ helper interpreters
_helpers = {}


def helper(check, hashseed):
    """a persistent interpreter with that hash seed; call in the parent of runs"""
    if hashseed not in _helpers:
        name = f"vsim-{os.getpid()}-{hashseed}-{random.SystemRandom().randrange(1 << 40)}"
        p = subprocess.Popen(
            [PY, os.path.join(HERE, "main.py"), "--helper", check, name],
            stdin=subprocess.PIPE,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL,
            env=env_for(hashseed),
        )
        _helpers[hashseed] = (name, p)
    return _helpers[hashseed][0]


def ask(name, job, timeout=60.0):
    """run mod.job(job) in a fork of the helper"""
    import socket

    end = time.time() + timeout
    while True:
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.settimeout(timeout)
        try:
            s.connect("\0" + name)
            break
        except OSError:
            s.close()
            if time.time() > end:
                raise RuntimeError("helper interpreter does not answer")
            time.sleep(0.05)
    s.sendall(json.dumps(job).encode() + b"\n")
    buf = b""
    while True:
        d = s.recv(1 << 16)
        if not d:
            break
        buf += d
    s.close()
    return json.loads(buf)


def bounded():
    """a job that never ends dies with its helper, and sooner when it burns time or memory"""
    import ctypes
    import resource

    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
    except (OSError, AttributeError):
        pass
    resource.setrlimit(resource.RLIMIT_CPU, (150, 160))
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))


def helper_main(argv):
    import socket

    check, name = argv
    mod = load(check)
    preload()
    if hasattr(mod, "warm_helper"):
        mod.warm_helper()
    import gc

    gc.collect()
    gc.freeze()
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind("\0" + name)
    srv.listen(8)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        rl, _, _ = select.select([srv, 0], [], [], 5.0)
        if 0 in rl and not os.read(0, 10):
            os._exit(0)
        if os.getppid() == 1:
            os._exit(0)
        if srv not in rl:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                srv.close()
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                bounded()
                gc.disable()
                f = c.makefile("rb")
                job = json.loads(f.readline())
                try:
                    r = mod.job(job)
                except BaseException as e:
                    r = {"harness_error": traceback.format_exc()}
                c.sendall(json.dumps(r, default=str).encode())
            except BaseException:
                pass
            finally:
                os._exit(0)
        c.close()


# ------------------------------------------------------------ worker
def triage(mod, plan, o, base):
    """a run that gave no verdict: executed once more.  What happens again and comes from the code
    under test (it never ends, the process dies, or it raises where nothing may fail) is a violation;
    what does not happen again is dropped as an accident of the machine; the rest is an error of the harness"""
    o2 = run_plan(mod, plan, timeout=100.0, scratch_base=base)
    if not o2.get("harness_error"):
        return o2
    if o.get("timeout") and o2.get("timeout"):
        o2["violation"] = "no-progress: the run does not end"
    elif "child died" in o["harness_error"] and "child died" in o2["harness_error"]:
        o2["violation"] = f"process-died: {o2['harness_error']}"
    else:
        fs = [l.strip() for l in o2["harness_error"].splitlines() if l.strip().startswith('File "')]
        own = [l for l in fs if '"/repo/src/' in l or '"/verif/' in l]
        if own and '"/repo/src/' in own[-1]:
            where = own[-1].split('"/repo/src/')[1].split('"')[0]
            o2["violation"] = f"unexpected-error in {where}: {o2['harness_error'].strip().splitlines()[-1][:300]}"
    if o2.get("violation"):
        o2.pop("harness_error")
    return o2


def worker_main(argv):
    """worker <check> <seed> <tier> <k> <n> <runs> <secs> <scratch> : prints JSON lines"""
    check, seed, tier, k, n, runs, secs, base = argv
    k, n, runs = int(k), int(n), int(runs)
    end = time.time() + float(secs)
    mod = load(check)
    preload()
    if hasattr(mod, "warm"):
        mod.warm()
    import gc

    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "w")
    for i in range(k, runs, n):
        if time.time() > end:
            break
        rng = random.Random(f"{mod.ID}:{seed}:{i}")
        plan = mod.gen(rng, tier)
        t0 = time.time()
        o = run_plan(mod, plan, scratch_base=base)
        if o.get("harness_error"):
            o = triage(mod, plan, o, base)
        o["run"] = i
        o["wall"] = time.time() - t0
        o["plan_sha"] = hashlib.sha256(
            json.dumps(plan, sort_keys=True).encode()
        ).hexdigest()[:16]
        if o.get("violation") or o.get("harness_error") or i < 2:
            o["plan"] = plan
        out.write(json.dumps(o, default=str) + "\n")
        out.flush()


# ------------------------------------------------------------ replay
def replay_main(argv):
    """in a worker interpreter with the recorded hash seed: execute, print outcome"""
    path = argv[0]
    rep = json.load(open(path))
    mod = load(rep["property"])
    preload()
    if hasattr(mod, "warm"):
        mod.warm()
    import gc

    gc.collect()
    gc.freeze()
    o = run_plan(mod, rep["plan"], timeout=300)
    if o.get("harness_error"):
        o = triage(mod, rep["plan"], o, None)
    print(json.dumps(o, default=str, indent=1))
    if o.get("violation"):
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    if o.get("harness_error"):
        return 2
    return 0


def minimise_main(argv):
    """minimise <infile> <outfile> <secs>: greedy shrinking, same violation class"""
    src, dst, secs = argv
    rep = json.load(open(src))
    end = time.time() + float(secs)
    mod = load(rep["property"])
    preload()
    if hasattr(mod, "warm"):
        mod.warm()
    import gc

    gc.collect()
    gc.freeze()
    plan = rep["plan"]
    base = run_plan(mod, plan)
    tried = 1
    if base.get("violation"):
        cls = vclass(base["violation"])
        best = base
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in mod.shrinks(plan):
                if time.time() > end:
                    break
                if cand == plan:
                    continue
                o = run_plan(mod, cand, timeout=60)
                tried += 1
                if o.get("violation") and vclass(o["violation"]) == cls:
                    plan, best, progress = cand, o, True
                    break
        rep["plan"] = plan
        rep["violation"] = best["violation"]
        rep["minimised_in"] = tried
        rep["reproduced"] = True
        rep["trace"] = best.get("trace")
    else:
        rep["reproduced"] = False
        rep["second_outcome"] = base
    json.dump(rep, open(dst, "w"), indent=1, default=str)


# ------------------------------------------------------------ parent
def known_findings(prop):
    """[(needle, text)] of unrepaired findings listed for this property"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                rest = line.split(" ", 2)[2]
                needle, _, text = rest.partition(" :: ")
                res.append((needle, text))
    return res


def run_check(check, tier, seed):
    t0 = time.time()
    mod = load(check)
    cfg = mod.QUICK if tier == "quick" else mod.THOROUGH
    runs, secs = cfg["runs"], cfg["secs"]
    if os.environ.get("VERIF_SECS"):
        secs = float(os.environ["VERIF_SECS"])
        runs = 10**7
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    hs = hash_seeds(seed, NWORKERS)
    base = tempfile.mkdtemp(prefix=f"vsim_{check}_")
    print(f"check {check} tier={tier} seed={seed} workers={NWORKERS} runs<={runs} secs<={secs}")
    procs, files = [], []
    try:
        for k in range(NWORKERS):
            f = open(os.path.join(base, f"w{k}.out"), "w+b")
            e = open(os.path.join(base, f"w{k}.err"), "w+b")
            sb = os.path.join(base, f"s{k}")
            os.mkdir(sb)
            procs.append(
                subprocess.Popen(
                    [PY, os.path.join(HERE, "main.py"), "--worker", check, str(seed), tier]
                    + [str(k), str(NWORKERS), str(runs), str(secs), sb],
                    stdout=f,
                    stderr=e,
                    env=env_for(hs[k]),
                )
            )
            files.append((f, e))
        deadline = time.time() + secs + 240
        for p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        outs = []
        worker_err = None
        for k, (f, e) in enumerate(files):
            f.seek(0)
            for line in f:
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                o["hashseed"] = hs[k]
                outs.append(o)
            if procs[k].returncode != 0:
                e.seek(0)
                worker_err = (procs[k].returncode, e.read().decode()[-3000:])
            f.close()
            e.close()
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(base, ignore_errors=True)
    outs.sort(key=lambda o: o["run"])
    wall_search = time.time() - t0
    harness_errors = [o for o in outs if o.get("harness_error")]
    viols = [o for o in outs if o.get("violation")]

    known = known_findings(mod.ID)
    known_hit = collections.Counter()
    fresh = []
    for o in viols:
        for needle, text in known:
            if needle in o["violation"]:
                known_hit[text] += 1
                break
        else:
            fresh.append(o)

    replays = []
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for o in fresh:
            c = vclass(o["violation"])
            if c in seen or len(seen) >= 3:
                continue
            seen.add(c)
            raw = os.path.join(rd, f"{check}-{seed}-{o['run']}.raw.json")
            dst = os.path.join(rd, f"{check}-{seed}-{o['run']}.json")
            rep = {
                "property": mod.ID,
                "seed": seed,
                "run": o["run"],
                "hashseed": o["hashseed"],
                "violation": o["violation"],
                "plan": o["plan"],
                "replay_cmd": f"{PY} sim/main.py --replay {dst}",
            }
            json.dump(rep, open(raw, "w"), indent=1)
            json.dump(rep, open(dst, "w"), indent=1)
            msecs = 30 if tier == "quick" else 180
            try:
                subprocess.run(
                    [PY, os.path.join(HERE, "main.py"), "--minimise", raw, dst, str(msecs)],
                    env=env_for(o["hashseed"]),
                    stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL,
                    timeout=msecs + 200,
                )
            except subprocess.TimeoutExpired:
                pass
            os.remove(raw)
            rep = json.load(open(dst))
            replays.append((dst, rep))

    faults, probes = collections.Counter(), collections.Counter()
    sigs, inter, plans = set(), set(), set()
    nontrivial = steps = 0
    for o in outs:
        for a, b in (o.get("faults") or {}).items():
            faults[a] += b
        for a, b in (o.get("probes") or {}).items():
            probes[a] += b
        steps += o.get("steps") or 0
        if o.get("nontrivial"):
            if o.get("sig") not in sigs:
                nontrivial += 1
            sigs.add(o.get("sig"))
        if o.get("interleaving"):
            inter.add(o["interleaving"])
        plans.add(o.get("plan_sha"))
    wall = time.time() - t0
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(outs),
            "distinct_nontrivial": nontrivial,
            "rule": mod.RULE,
            "samples": [
                {"run": o["run"], "plan": _clip(o["plan"])} for o in outs if o.get("plan")
            ][:2],
            "distinct_plans": len(plans),
            "runs_per_hour": int(len(outs) / max(wall_search, 1e-9) * 3600),
            "seeds_per_hour": int(len(outs) / max(wall_search, 1e-9) * 3600),
            "simulated_steps": steps,
            "simulated_time_note": getattr(
                mod,
                "TIME_NOTE",
                "the code has no clock: simulated time is counted in scheduler points / intercepted operations (simulated_steps)",
            ),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the executed (caller, source line) sequence",
            "components": mod.COMPONENTS,
            "hash_seeds": len(set(o["hashseed"] for o in outs)),
            "known_findings_hit": dict(known_hit),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w"), indent=1, default=str)
    print(
        f"{len(outs)} runs, {nontrivial} distinct non-trivial, faults {dict(faults)}, "
        f"probes {dict(probes)}, steps {steps}, interleavings {len(inter)}, {wall:.1f}s"
    )
    for needle, text in known:
        print(f"KNOWN-FINDING: property={mod.ID} {text}")
    if fresh:
        for dst, rep in replays:
            print(f"violation: {rep['violation'][:600]} (run {rep['run']}, reproduced={rep.get('reproduced')})")
            print(f"VIOLATION property={mod.ID} replay={dst}")
        return 1
    if harness_errors or worker_err or not outs:
        for o in harness_errors[:2]:
            print("HARNESS ERROR", o["run"], o["harness_error"])
        if worker_err:
            print("WORKER ERROR", worker_err)
        return 2
    return 0


def _clip(x, n=1800):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."
