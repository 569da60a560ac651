"""C03: operations aborted at chosen source lines, then everything is retried."""
import hashlib
import json

import gen as G
import harness as H
import lang
import sched
import shrink as SH
import textstudy as TS
import world as W
from checks import c02

ID = "C03"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded plan: shared inputs, 1-6 aborted operations (operation, abort point chosen among "
    "the distinct source lines the operation executes, exception kind), each followed by a snapshot of the "
    "inputs and possibly by undisturbed operations; non-trivial when at least one abort fired; distinct = "
    "distinct (operation, abort site, exception) sequence"
)
COMPONENTS = {
    "parsing, resolution, building, fusion, export, results (/repo/src)": "real",
    "OR-tools, pandas, yaml, pydantic, ANTLR runtime, file system": "real",
    "asynchronous exception delivery": "simulated, at source lines of /repo/src",
}
ASSUMPTIONS = [
    "asynchronous exceptions are delivered at source lines of /repo/src, not inside third-party code",
    "an out-of-memory abort may surface as any exception (the parser and the series loader wrap errors); "
    "an interrupt must surface as itself",
]
QUICK = {"runs": 100000, "secs": 65}
THOROUGH = {"runs": 10**7, "secs": 1500}

KINDS = ["KeyboardInterrupt", "MemoryError"]


def gen(rng, tier):
    api, text = [], []
    if rng.random() < 0.8:
        nodes = ["", *c02.IDS] if rng.random() < 0.5 else []
        sp = G.gen_study(rng, invest=rng.random() < 0.7, small=True, max_comps=2, tree_nodes=nodes)
        sp["nodes"] = nodes or [""]
        api.append(sp)
    if not api or rng.random() < 0.5:
        text.append(TS.gen_text(rng, small=True, max_comps=2))
    plan = {"api": api, "text": text, "trees": [], "solved": [], "decomposed": []}
    pool = [c02.gen_op(rng, api, text) for _ in range(3)]
    if api:
        for _ in range(rng.choice([0, 1, 2])):
            plan["trees"].append({"study": 0, "tree": W.gen_tree(rng, api[0], c02.IDS, 3)})
            pool.append(["tree", len(plan["trees"]) - 1])
        if rng.random() < 0.4:
            plan["decomposed"].append({"study": 0, "tree": W.gen_tree(rng, api[0], c02.IDS, 3)})
            pool.append(["xport", 0])
        if rng.random() < 0.4:
            b = W.gen_b(rng, api[0])
            plan["solved"].append(["api", 0, b])
            pool.append(["read", 0])
    steps = []
    if rng.random() < 0.5:
        # aborts all along a stretch of the code of one operation
        op = rng.choice(pool)
        a = rng.randrange(1 << 30)
        for j in range(rng.randint(8, 30)):
            steps.append(["abort", op, a + j, rng.randrange(1 << 30), rng.choice(KINDS)])
    for _ in range(rng.randint(0 if steps else 1, 6)):
        op = rng.choice(pool)
        steps.append(["abort", op, rng.randrange(1 << 30), rng.randrange(1 << 30), rng.choice(KINDS)])
        if rng.random() < 0.35:
            steps.append(["run", op])
        if rng.random() < 0.25:
            steps.append(["run", rng.choice(pool)])
    for op in pool:
        if rng.random() < 0.6:
            steps.append(["run", op])
    plan["steps"] = steps
    plan["share"] = rng.random() < 0.5
    return plan


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def usable(plan):
    """solved/decomposed specs that the language refuses are dropped"""
    p = dict(plan)
    ok = []
    for where, i, b in plan.get("solved", []):
        sp = plan["api"][i]
        try:
            lang.RefStudy(sp["models"], sp["net"], sp["data"]).problem(b)
            ok.append([where, i, b])
        except lang.Refused:
            pass
    p["solved"] = ok
    return p


def execute(plan, scratch):
    lang.MEMO = {} if plan.get("share") else None
    plan = usable(plan)
    try:
        w = W.World(dict(plan, decomposed=[]), scratch)
        try:
            w2 = W.World(dict(plan, text=[], trees=[], solved=[]), scratch)
            w.plan = plan
            w.decomposed = w2.decomposed
        except Exception:
            w.decomposed = []
    except Exception as e:
        return {"violation": f"load-failed: {type(e).__name__}: {e}", "probes": {}, "steps": 0}
    probes, faults = {}, {}
    h = hashlib.sha256()
    fired_any = 0
    steps = 0

    def out(v=None):
        return {
            "violation": v,
            "probes": probes,
            "faults": faults,
            "sig": h.hexdigest()[:16],
            "nontrivial": fired_any > 0,
            "steps": steps,
        }

    def exists(op):
        if op[0] == "read":
            return len(w.solved) > op[1]
        if op[0] == "xport":
            return len(w.decomposed) > op[1]
        return True

    before = H.as_json(w.snapshot())
    expected, prof = {}, {}
    sch = [s for s in plan["steps"] if exists(s[1])]
    for s in sch:
        k = json.dumps(s[1])
        if k not in expected:
            expected[k] = H.in_child(lambda: w.run(s[1], "e"))
        if s[0] == "abort" and k not in prof:

            def p():
                w.raising = True
                n, sites, res, err = sched.profile(lambda: getattr(w, "op_" + s[1][0])(*s[1][1:], tag="e"))
                return [n, [[f"{a}:{b}", o] for (a, b), o in sorted(sites.items())]]

            prof[k] = H.in_child(p)
    for si, s in enumerate(sch):
        k = json.dumps(s[1])
        if s[0] == "run":
            got = H.as_json(w.run(s[1], "e"))
            d = H.first_diff(got, expected[k])
            probes["undisturbed_ops"] = probes.get("undisturbed_ops", 0) + 1
            if d:
                return out(f"later-operation-differs: step {si} {s[1][0]}: {d}")
            continue
        n, sites = prof[k]
        if not sites:
            continue
        site, ords = sites[s[2] % len(sites)]
        at = ords[s[3] % len(ords)]
        w.raising = True
        fired, res, err = sched.run_aborting(
            lambda: getattr(w, "op_" + s[1][0])(*s[1][1:], tag="e"), at, EXC[s[4]]("injected")
        )
        w.raising = False
        steps += at
        if fired is None:
            probes["not_reached"] = probes.get("not_reached", 0) + 1
        else:
            fired_any += 1
            faults[s[4]] = faults.get(s[4], 0) + 1
            h.update(f"{s[1][0]}@{fired}@{s[4]};".encode())
            if err is None:
                return out(f"abort-swallowed: step {si} {s[1][0]} aborted by {s[4]} at {fired} returned normally")
            if s[4] == "KeyboardInterrupt" and not isinstance(err, KeyboardInterrupt):
                return out(
                    f"abort-swallowed: step {si} {s[1][0]} aborted by {s[4]} at {fired} raised {type(err).__name__}: {err}"
                )
        err = None
        d = H.first_diff(H.as_json(w.snapshot()), before)
        if d:
            return out(f"inputs-changed: step {si} {s[1][0]} aborted at {fired}: {d}")
    return out()


def shrinks(plan):
    for s in SH.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    for i, sp in enumerate(plan["api"]):
        for v in SH.study_simpler(sp):
            a = list(plan["api"])
            a[i] = v
            yield dict(plan, api=a)
    for i, ts in enumerate(plan["text"]):
        for v in SH.study_simpler(ts["spec"]):
            a = list(plan["text"])
            a[i] = dict(ts, spec=v)
            yield dict(plan, text=a)
