"""C02: concurrent callers over shared inputs, under a seeded scheduler that can
switch callers at every source line (or bytecode) of the code under test."""
import hashlib

import gen as G
import harness as H
import lang
import sched
import shrink as SH
import textstudy as TS
import world as W

ID = "C02"
LEVEL = "exploration"
RULE = (
    "one run = one seeded plan: shared inputs, 2-4 callers with 1-3 operations each, and an explicit "
    "schedule of slices; non-trivial when the baton changed hands at least twice inside operations; "
    "distinct = distinct hash of the executed (caller, source line) sequence"
)
COMPONENTS = {
    "parsing, resolution, building, fusion, export, results (/repo/src)": "real",
    "OR-tools, pandas, yaml, pydantic, ANTLR runtime": "real, run atomically between two points of /repo code",
    "threads": "real Python threads, one at a time, switched only by the simulator",
    "locks created by the code under test": "simulated (scheduler-aware)",
}
ASSUMPTIONS = [
    "callers switch at source lines or bytecodes of /repo/src only, never inside a third-party call",
    "the outcome of a caller running alone is taken from a forked copy of the process holding the same inputs, and "
    "problems are also compared with the reference interpreter",
]
QUICK = {"runs": 100000, "secs": 65}
THOROUGH = {"runs": 10**7, "secs": 1500}

IDS = ["nA", "nB", "nC", "nD"]
TEXTS = [
    "x + 2*y",
    "x[t-1] + p",
    "sum(t-1..t+1, x)",
    "expec(x)",
    "x[0] - 3*(p + 1)",
    "2 * (x + y) / p",
    "x +* y",
    "unknown + x",
    "sum(x) >= p",
    "-x + (y - p)",
]


def gen(rng, tier):
    mode = rng.random()
    api, text = [], []
    if mode < 0.75:
        for _ in range(rng.choice([1, 1, 2])):
            nodes = ["", *IDS] if rng.random() < 0.4 else []
            sp = G.gen_study(
                rng,
                invest=rng.random() < 0.6,
                small=True,
                tree_nodes=nodes,
                max_comps=2 if tier == "quick" else 3,
            )
            sp["nodes"] = nodes or [""]
            api.append(sp)
        if len(api) == 2 and rng.random() < 0.6:
            # look-alikes: same ids, same network, other numbers
            api[1] = dict(api[0], data={})
            for k in api[0]["data"]:
                c, p = k.split("|")
                m = dict((a, b) for a, b in api[0]["net"]["nodes"] + api[0]["net"]["comps"])[c]
                pp = [x for x in api[0]["models"][m]["params"] if x["n"] == p][0]
                api[1]["data"][k] = G.gen_data(
                    rng, pp, api[0]["T_abs"], api[0]["S"], api[0]["nodes"] if len(api[0]["nodes"]) > 1 else ()
                )
    if mode > 0.45 or not api:
        text.append(TS.gen_text(rng, small=True, max_comps=2))
        if rng.random() < 0.3:
            text.append(TS.gen_text(rng, small=True, max_comps=2))
    n = rng.choice([2, 2, 2, 3, 4])
    same = rng.random() < 0.3
    callers = []
    for c in range(n):
        if same and callers:
            callers.append(callers[0])
        else:
            callers.append([gen_op(rng, api, text) for _ in range(rng.choice([1, 1, 2]))])
    return {
        "api": api,
        "text": text,
        "share": rng.random() < 0.5,
        "callers": callers,
        "schedule": sched.gen_schedule(rng, n, 20000),
        "cyclic": rng.random() < 0.6,
        "hot": sched.gen_hot(rng),
        "instr": rng.random() < 0.2,
    }


def gen_op(rng, api, text):
    ks = []
    if api:
        ks += ["build", "build", "solve", "replicate", "inspect", "benders", "benders", "bad"]
    if text:
        ks += ["tbuild", "load", "load", "resolve", "resolve", "system", "libs", "libs", "parse", "exprs", "tinspect", "export" if api else "load"]
    k = rng.choice(ks)
    if k in ("build", "solve", "replicate", "inspect"):
        i = rng.randrange(len(api))
        b = W.gen_b(rng, api[i])
        if rng.random() < 0.3 and k == "build":
            b = dict(b, strategy=rng.choice(["invest", "oper"]))
        return [k, "api", i, b]
    if k == "bad":
        i = rng.randrange(len(api))
        return ["build", "api", i, {"timesteps": [api[i]["T_abs"] + 7], "scenarios": api[i]["S"] + 3}]
    if k in ("benders", "export"):
        i = rng.randrange(len(api))
        return ["benders", i, W.gen_tree(rng, api[i], IDS, 3)]
    if k == "exprs":
        # the same names with other roles
        ids = rng.choice([[["x", "y"], ["p"]]] * 2 + [[["x", "p"], ["y"]], [["p"], ["x", "y"]], [["x", "unknown"], ["p", "y"]], [["y", "p"], []]])
        return ["exprs", [rng.choice(TEXTS) for _ in range(4)], ids]
    i = rng.randrange(len(text))
    b = W.gen_b(rng, text[i]["spec"])
    if k in ("load", "resolve"):
        return [k, i, b]
    if k in ("system", "libs", "parse"):
        return [k, i]
    return [{"tbuild": "build", "tinspect": "inspect"}[k], "text", i, b]


def ref_of(plan, op):
    """reference problem of a build operation: problem, None when refused, or "skip" """
    if op[0] != "build":
        return "skip"
    sp = plan["api"][op[2]] if op[1] == "api" else plan["text"][op[2]]["spec"]
    try:
        return lang.RefStudy(sp["models"], sp["net"], sp["data"]).problem(op[3])
    except lang.Refused:
        return None


def execute(plan, scratch):
    lang.MEMO = {} if plan.get("share") else None
    try:
        w = W.World(plan, scratch)
    except Exception as e:
        return {"violation": f"load-failed: {type(e).__name__}: {e}", "probes": {}, "steps": 0}
    before = H.as_json(w.snapshot())
    n = len(plan["callers"])

    def body(c):
        return lambda: [w.run(op, f"{c}_{k}") for k, op in enumerate(plan["callers"][c])]

    alone = [H.in_child(body(c)) for c in range(n)]
    for c, a in enumerate(alone):
        if isinstance(a, list) and a[:1] == ["died"]:
            return {"violation": f"alone-died: caller {c}: {a}", "probes": {}, "steps": 0}
        for k, op in enumerate(plan["callers"][c]):
            r = ref_of(plan, op)
            if r == "skip":
                continue
            if (r is None) != (isinstance(a[k], list)):
                return {
                    "violation": f"alone-wrong: caller {c} op {op[:3]}: refused={r is None}, got {str(a[k])[:100]}",
                    "probes": {},
                    "steps": 0,
                }
    sim = sched.Sim(
        [body(c) for c in range(n)],
        plan["schedule"],
        instr=plan["instr"],
        cyclic=plan["cyclic"], hot=plan.get("hot"),
    ).run()
    probes = {"switches": sim.switches}
    for ops in plan["callers"]:
        for op in ops:
            probes["op_" + op[0]] = probes.get("op_" + op[0], 0) + 1
    res = {
        "violation": None,
        "probes": probes,
        "faults": {"preemption": sim.switches},
        "sig": f"{sim.digest:x}",
        "interleaving": f"{sim.digest:x}",
        "nontrivial": sim.switches >= 2,
        "steps": sim.total,
        "trace": sim.trace[:60],
    }
    if sim.failure is not None:
        res["violation"] = f"no-progress: {type(sim.failure).__name__}: {sim.failure}"
        return res
    for c in sim.callers:
        if c.error is not None:
            res["violation"] = f"caller-died: caller {c.tid}: {type(c.error).__name__}: {c.error}"
            return res
    for c in sim.callers:
        got = H.as_json(c.result)
        d = H.first_diff(got, alone[c.tid])
        if d:
            res["violation"] = (
                f"differs-from-alone: caller {c.tid} ops {[o[0] for o in plan['callers'][c.tid]]}: {d}"
            )
            return res
    for c in sim.callers:
        for k, op in enumerate(plan["callers"][c.tid]):
            r = ref_of(plan, op)
            if isinstance(r, dict):
                d = diff_ref(c.result[k], r)
                if d:
                    res["violation"] = f"wrong-problem: caller {c.tid} op {op[:3]}: {d}"
                    return res
    d = H.first_diff(H.as_json(w.snapshot()), before)
    if d:
        res["violation"] = f"inputs-changed: {d}"
    return res


def diff_ref(got, ref):
    import ast
    import canon

    inf = {"inf": float("inf"), "nan": float("nan")}

    def row(s):
        key = eval(s, {"__builtins__": {}}, inf)
        return [dict(key[0]), key[1], key[2]]

    g = {
        "vars": {k: [float(v[0]), float(v[1]), v[2]] for k, v in got["vars"].items()},
        "rows": [row(s) for s in got["rows"]],
        "obj": {k: float(v) for k, v in got["obj"].items()},
        "off": float(got["off"]),
    }
    return canon.diff(g, ref)


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 2:
        for c in range(n):
            yield dict(
                plan,
                callers=plan["callers"][:c] + plan["callers"][c + 1 :],
                schedule=[[t if t < c else t - 1, p] for t, p in plan["schedule"] if t != c],
            )
    for c in range(n):
        if len(plan["callers"][c]) > 1:
            for k in range(len(plan["callers"][c])):
                cs = list(plan["callers"])
                cs[c] = cs[c][:k] + cs[c][k + 1 :]
                yield dict(plan, callers=cs)
    if plan["instr"]:
        yield dict(plan, instr=False)
    if plan["cyclic"]:
        yield dict(plan, cyclic=False)
        for f in (3, 10):
            yield dict(plan, cyclic=False, schedule=(plan["schedule"] * f)[:4000])
    for s in SH.drop_each(plan["schedule"]):
        if s:
            yield dict(plan, schedule=s)
    used_a = {op[2] for ops in plan["callers"] for op in ops if op[0] != "benders" and len(op) > 2 and op[1] == "api"}
    used_a |= {op[1] for ops in plan["callers"] for op in ops if op[0] == "benders"}
    used_t = {op[1] for ops in plan["callers"] for op in ops if op[0] in ("load", "resolve", "system")}
    used_t |= {op[2] for ops in plan["callers"] for op in ops if len(op) > 2 and op[1] == "text"}
    if plan["api"] and len(plan["api"]) - 1 not in used_a:
        yield dict(plan, api=plan["api"][:-1])
    if plan["text"] and len(plan["text"]) - 1 not in used_t:
        yield dict(plan, text=plan["text"][:-1])
    for i, sp in enumerate(plan["api"]):
        for v in SH.study_simpler(sp):
            a = list(plan["api"])
            a[i] = v
            yield dict(plan, api=a)
    for i, ts in enumerate(plan["text"]):
        for v in SH.study_simpler(ts["spec"]):
            a = list(plan["text"])
            a[i] = dict(ts, spec=v)
            yield dict(plan, text=a)
