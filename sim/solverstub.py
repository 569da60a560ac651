"""The stub of the external Benders solver: reads its options and the files they name,
behaves as the plan says, and writes its result file."""
import json
import os
import signal

OUTCOMES = (
    ["ok"] * 6
    + ["nothing", "garbage", "empty", "cut", "dir"]
    + ["code", "code", "code_written", "killed", "killed_written", "killed_cut"]
    + ["nostart_exec", "nostart_mem", "nostart_perm"]
)


def result(token, merged, values, oc=None):
    oc = oc or {}
    r = {
        "solution": {
            "overall_cost": 1000.5 + token,
            "investment_cost": 400.25 + token,
            "operational_cost": 600.25,
            "values": {k: float(i) + token / 4 for i, k in enumerate(values)},
            "problem_status": "OPTIMAL",
            "optimality_gap": 0.5 + token,
            "relative_gap": 1e-7 * (1 + token),
            "stopping_criterion": "absolute gap",
        },
        "run_duration": 2.5 + token,
    }
    if merged:
        r["solution"]["lb"] = 990.5 + token
        r["solution"]["ub"] = 1010.5 + token
    else:
        r["solution"]["iteration"] = 3 + token
    if oc.get("extra"):
        # solvers write more than what is read here
        sol = r["solution"]
        sol.setdefault("lb", -3.0 - token)
        sol.setdefault("ub", -2.0 - token)
        sol.setdefault("iteration", 0)
        r["iterations"] = {"1": dict(sol, overall_cost=-1.0 - token), "2": dict(sol, overall_cost=-2.0 - token)}
        r["problem_status"], r["nbWeeks"] = "ERROR", 1
        r["options"] = {"SOLVER_NAME": "OTHER"}
    if oc.get("zero"):
        r["solution"].update(overall_cost=0.0, investment_cost=0.0, operational_cost=0, optimality_gap=0.0, relative_gap=0.0)
        r["solution"]["values"] = {} if token % 2 else {k: 0.0 for k in values}
        r["run_duration"] = 0
        for k in ("lb", "ub", "iteration"):
            if k in r["solution"]:
                r["solution"][k] = 0
    if oc.get("status"):
        r["solution"]["problem_status"] = oc["status"]
    return r


def program(proc, oc, on_start=None):
    """oc: {"kind", "token", "yields", "code", "sig", "merged"}"""
    kind = oc["kind"]
    if kind == "nostart_exec":
        raise OSError(8, "Exec format error", proc.args[0])
    if kind == "nostart_mem":
        raise OSError(12, "Cannot allocate memory")
    if kind == "nostart_perm":
        raise PermissionError(13, "Permission denied", proc.args[0])
    if on_start:
        on_start(proc)
    n = oc["yields"]
    yield
    for _ in range(n):
        yield
    try:
        with open(proc.path(proc.args[1])) as f:
            opt = json.load(f)
        out = proc.path(os.path.join(opt.get("OUTPUTROOT", "."), opt["JSON_FILE"]))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        data = result(oc["token"], oc["merged"], oc["values"], oc)
        if oc.get("last") and opt.get("LAST_ITERATION_JSON_FILE"):
            # what the solver notes on its way; not the result
            last = proc.path(os.path.join(opt.get("OUTPUTROOT", "."), opt["LAST_ITERATION_JSON_FILE"]))
            os.makedirs(os.path.dirname(last), exist_ok=True)
            with open(last, "w") as f:
                json.dump(result(oc["token"] + 5000, oc["merged"], oc["values"], oc), f)
        text = json.dumps(data)
        if kind in ("ok", "code_written", "killed_written"):
            with open(out, "w") as f:
                f.write(text)
            proc.notes["wrote"] = data
        elif kind in ("cut", "killed_cut"):
            with open(out, "w") as f:
                f.write(text[: max(1, len(text) * oc["token"] % (len(text) - 1))])
        elif kind == "garbage":
            with open(out, "wb") as f:
                f.write(b"\xff\xfe not json {")
        elif kind == "empty":
            open(out, "w").close()
        elif kind == "dir":
            if os.path.isfile(out):
                os.unlink(out)
            os.makedirs(out, exist_ok=True)
        if oc.get("skew") and os.path.isfile(out):
            # the clock of the file system is not the clock of the caller
            t = os.stat(out).st_mtime + oc["skew"]
            os.utime(out, (t, t))
    except (OSError, ValueError, KeyError, IndexError) as e:
        proc.notes["stub_error"] = repr(e)
        return 3
    yield
    if kind.startswith("killed"):
        return -oc["sig"]
    if kind.startswith("code"):
        return oc["code"]
    return 0


def gen_outcome(rng, token):
    return {
        "kind": rng.choice(OUTCOMES),
        "token": token,
        "yields": rng.choice([0, 1, 2, 5]),
        "code": rng.choice([1, 2, 3, 77, 126, 127, 128, 130, 254, 255, rng.randrange(1, 256)]),
        "last": rng.random() < 0.5,
        "extra": rng.random() < 0.3,
        "zero": rng.random() < 0.15,
        "status": rng.choice([None, None, None, "INFEASIBLE", "ERROR", "TIME_LIMIT"]),
        "skew": rng.choice([0, 0, 0, -3600, 3600]),
        "sig": rng.choice([int(signal.SIGKILL), int(signal.SIGTERM), int(signal.SIGSEGV), int(signal.SIGABRT)]),
    }
