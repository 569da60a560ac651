"""C07: exports of decomposed problems over storage faults and crashes, into directories
that already hold other exports, wrecks of earlier exports, or junk."""
import hashlib
import json
import os
import pathlib
import random

import canon
import faultfs
import gen as G
import harness as H
import invest as I
import lang
import mps
import shrink as SH
import world as W
from checks.c10 import gen_trees

ID = "C07"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded history: 1-3 decompositions (decision trees with couplings, integer candidates, candidates "
    "without any coefficient, long names), 2-6 exports into 1-2 directories, each with 0-2 faults at seeded file "
    "operations (open, write, close, mkdir) or a crash with lost writes, then a fault-free export; non-trivial when a "
    "fault fired; distinct = distinct sequence of (operation, file, fault, outcome)"
)
COMPONENTS = {
    "building, fusion, MPS/structure/options export, serialisation (/repo/src)": "real",
    "file layer below Python's buffered files": "simulated (faults), data kept on a scratch directory",
    "OR-tools MPS writer": "real",
}
ASSUMPTIONS = [
    "files are written through Python file objects (open, pathlib, os functions)",
    "after a crash each file written since the start of the export is whole, cut, empty or as before",
    "MPS numbers are compared within the 6 significant digits OR-tools writes",
]
QUICK = {"runs": 100000, "secs": 45}
THOROUGH = {"runs": 10**7, "secs": 1200}

WF = ["eio", "enospc", "torn", "short", "eacces", "edquot", "emfile", "crash", "crash"]


def gen(rng, tier):
    nodes = sorted({n for s in I.NODE_SETS for n in s})
    sp = (
        I.gen_invest(rng, nodes if rng.random() < 0.4 else ())
        if rng.random() < 0.75
        else G.gen_study(rng, invest=True, small=True, tree_nodes=())
    )
    if rng.random() < 0.3:
        sp = vary(rng, sp)
    if rng.random() < 0.15:
        sp = long_names(rng, sp)
    nets = [sp["net"]]
    k = rng.choice([1, 2, 2, 3])
    trees = gen_trees(rng, sp, nets, k)
    coupl = []
    for t in trees:
        c = {}
        for n, par, _ in I.walk(t):
            while rng.random() < 0.4:
                x = I.gen_coupling(rng, sp, nets, n, par)
                if x is None:
                    break
                c.setdefault(n["id"], []).append(x)
        coupl.append(c)
    exports = []
    for _ in range(rng.randint(2, 6)):
        fs = [[rng.random(), rng.choice(WF)] for _ in range(rng.choice([0, 1, 1, 1, 2]))]
        exports.append(
            {
                "p": rng.randrange(k),
                "dir": rng.choice([0, 0, 1]),
                "debug": rng.random() < 0.3,
                "faults": fs,
                "frac": rng.random(),
                "chop": rng.choice([None, None, None, 1 + rng.randrange(60)]),
                "lose": rng.randrange(1 << 30),
                "rebuild": rng.random() < 0.3,
                "solver": rng.choice(["XPRESS", "COIN"]),
                "log": rng.randrange(3),
            }
        )
    last = rng.randrange(k)
    exports.append(
        {"p": last, "dir": exports[-1]["dir"], "debug": False, "faults": [], "frac": 0.5, "chop": None, "lose": 0,
         "rebuild": rng.random() < 0.3, "solver": "XPRESS", "log": 0}
    )
    return {
        "spec": sp,
        "trees": trees,
        "coupl": coupl,
        "exports": exports,
        "junk": rng.random() < 0.4,
        "struct": rng.choice(["structure.txt", "structure.txt", "links.txt"]),
        "rel": rng.random() < 0.3,
    }


def vary(rng, sp):
    """candidates without any coefficient in the master, integer ones, free ones"""
    sp = json.loads(json.dumps(sp))
    for m in sp["models"].values():
        r = rng.random()
        if r < 0.5:
            m["obj_inv"] = None
        if r < 0.35:
            m["cons"] = [c for c in m["cons"] if c["ctx"] == "oper"]
        for v in m["vars"]:
            if v["ctx"] in ("inv", "coup") and rng.random() < 0.5:
                v["type"] = rng.choice(["int", "float", "bool"])
                if v["type"] == "bool":
                    v["lb"] = v["ub"] = None
                elif rng.random() < 0.3:
                    v["lb"] = None
    return sp


def long_names(rng, sp):
    sp = json.loads(json.dumps(sp))
    ren = {}
    for c, _ in sp["net"]["nodes"] + sp["net"]["comps"]:
        ren[c] = c + "_" + "verylong" * rng.randint(4, 9)
    for k in ("nodes", "comps"):
        sp["net"][k] = [[ren[c], m] for c, m in sp["net"][k]]
    sp["net"]["cnx"] = [[ren[a], b, ren[c], d] for a, b, c, d in sp["net"]["cnx"]]
    sp["data"] = {ren[k.split("|")[0]] + "|" + k.split("|")[1]: v for k, v in sp["data"].items()}
    return sp


def make(plan, nets, db, i):
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

    reg = {}
    t = I.real_tree(plan["trees"][i], nets, None, reg)
    for n, cs in plan["coupl"][i].items():
        for c in cs:
            I.couple(reg[n], c)
    return build_benders_decomposed_problem(t, db, struct_filename=plan["struct"])


def read_all(d):
    r = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with open(p, "rb") as f:
                r[n] = f.read()
    return r


def validate(files, want, e, plan):
    """None or what is wrong with a completed export, from its files alone"""

    def text(n):
        if n not in files:
            raise mps.BadFile(f"missing file {n}")
        return files[n].decode()

    try:
        opt = json.loads(text("options.json"))
        master = opt["MASTER_NAME"]
        st = mps.parse_structure(text(opt["STRUCTURE_FILE"]))
        names = [master] + [n for n, _ in want[1]]
        probs = {n: mps.parse_mps(text(f"{n}.mps")) for n in names}
    except (mps.BadFile, ValueError, KeyError) as x:
        return f"bad-files: {type(x).__name__}: {x}"
    if opt.get("SOLVER_NAME") != e["solver"] or opt.get("LOG_LEVEL") != e["log"]:
        return "bad-options: solver name or log level not those asked for"
    refs = dict(want[1])
    refs[master] = want[0]
    for n in names:
        p = {k: v for k, v in probs[n].items() if k in ("vars", "rows", "obj", "off")}
        canon.TOL = 1e-5
        d = canon.diff({**p, "order": [], "dup": [], "min": True}, refs[n])
        canon.TOL = 1e-9
        if d:
            return f"wrong-file: {n}.mps: {d}"
        if set(probs[n]["cols"]) != set(refs[n]["vars"]):
            return f"wrong-file: {n}.mps: columns {sorted(set(probs[n]['cols']) ^ set(refs[n]['vars']))} differ"
    seen = {}
    for pr, c, i in st:
        if pr not in probs:
            return f"bad-structure: unknown problem {pr}"
        cols = probs[pr]["cols"]
        if not 0 <= i < len(cols) or cols[i] != c:
            return f"bad-structure: {pr} {c} {i} designates {cols[i] if 0 <= i < len(cols) else None}"
        if (pr, c) in seen:
            return f"bad-structure: {pr} {c} given twice"
        seen[(pr, c)] = i
    for n in names:
        got = {c for p, c in seen if p == n}
        w = set(refs[n]["vars"]) & set(want[0]["vars"])
        if got != w:
            return f"bad-structure: candidates of {n} are {sorted(got)}, expected {sorted(w)}"
    if e["debug"]:
        for n in names:
            if not files.get(f"{n}.lp", b"").strip().endswith(b"End"):
                return f"bad-files: {n}.lp missing or incomplete"
    return None


def execute(plan, scratch):
    sp = plan["spec"]
    probes, faults = {}, {}
    h = hashlib.sha256()
    fired_total = 0
    steps = 0
    pts = lang.to_port_types(sp["port_types"])
    models = {k: lang.to_model(m, pts) for k, m in sp["models"].items()}
    nets = [lang.to_network(sp["net"], models)]
    db = lang.to_database(sp["data"])

    def out(v=None):
        return {
            "violation": v,
            "probes": probes,
            "faults": faults,
            "sig": h.hexdigest()[:16],
            "nontrivial": fired_total > 0,
            "steps": steps,
        }

    problems, wants = [], []
    for i in range(len(plan["trees"])):
        try:
            w = I.reference(sp, [sp["net"]], sp["data"], plan["trees"][i], plan["coupl"][i])
        except lang.Refused:
            w = None
        try:
            p = make(plan, nets, db, i)
        except Exception as x:
            if w is not None:
                return out(f"build-failed: {type(x).__name__}: {x}")
            p = None
        if p is not None and w is None:
            return out("built-though-refused: the reference refuses this tree")
        problems.append(p)
        wants.append(w)
    root = os.path.join(scratch, "disk")
    dirs = [os.path.join(root, "a", "lp"), os.path.join(root, "b")]
    os.mkdir(root)
    if plan["junk"]:
        os.makedirs(dirs[0])
        for n in ("master.mps", "structure.txt", "options.json", "subproblem.mps", "subproblem_nA.mps"):
            with open(os.path.join(dirs[0], n), "w") as f:
                f.write("junk" * 5000)

    def run(p, d, e):
        p.emplacement = pathlib.Path(os.path.relpath(d) if plan["rel"] else d)
        p.initialise(solver_name=e["solver"], log_level=e["log"], is_debug=e["debug"])

    for j, e in enumerate(plan["exports"]):
        p, want = problems[e["p"]], wants[e["p"]]
        if p is None:
            continue
        probes["export"] = probes.get("export", 0) + 1
        if e["rebuild"]:
            p = problems[e["p"]] = make(plan, nets, db, e["p"])
        d = dirs[e["dir"]]
        clean = os.path.join(scratch, f"clean{j}")

        def undisturbed():
            with faultfs.FS(scratch, chop=e["chop"]) as fs:
                run(p, clean, e)
            return [fs.n, {k: v.decode("latin1") for k, v in read_all(clean).items()}]

        ref = H.in_child(undisturbed)
        if ref[0] == "died" or not isinstance(ref[1], dict):
            return out(f"export-failed: export {j} without any fault: {ref}")
        total, cl = ref
        cl = {k: v.encode("latin1") for k, v in cl.items()}
        v = validate(cl, want, e, plan)
        if v:
            return out(f"{v} (export {j}, no fault)")
        fl = {int(f * total): k for f, k in e["faults"]}
        fs = faultfs.FS(root, fl, e["frac"], chop=e["chop"])
        err = None
        with fs:
            try:
                run(p, d, e)
            except faultfs.Crash:
                err = "crash"
            except Exception as x:
                err = f"{type(x).__name__}"
        steps += fs.n
        for _, kind, rel, f in fs.fired:
            faults[f"{kind}:{f}"] = faults.get(f"{kind}:{f}", 0) + 1
            fired_total += 1
        h.update(repr((j, fs.fired, err)).encode())
        if fs.dead:
            for k, n in fs.lose(random.Random(e["lose"])).items():
                faults[k] = faults.get(k, 0) + n
        if err is not None:
            probes["export_failed"] = probes.get("export_failed", 0) + 1
            if not fs.fired:
                return out(f"export-failed: export {j} failed without any fault: {err}")
            continue
        if fs.dead:
            return out(f"fault-swallowed: export {j} reported success though the process died at {fs.fired}")
        got = read_all(d)
        for n, data in cl.items():
            if n not in got:
                return out(f"incomplete-export: export {j} reported success but {n} is missing; faults {fs.fired}")
            if got[n] != data:
                return out(f"incomplete-export: export {j} reported success but {n} is not the current file; faults {fs.fired}")
        v = validate(got, want, e, plan)
        if v:
            return out(f"{v} (export {j}, faults {fs.fired})")
        probes["export_ok"] = probes.get("export_ok", 0) + 1
    return out()


def shrinks(plan):
    for x in SH.drop_each(plan["exports"]):
        if x:
            yield dict(plan, exports=x)
    for i, e in enumerate(plan["exports"]):
        for x in SH.drop_each(e["faults"]):
            es = list(plan["exports"])
            es[i] = dict(e, faults=x)
            yield dict(plan, exports=es)
        for k, v in (("debug", False), ("chop", None), ("rebuild", False)):
            if e[k] != v:
                es = list(plan["exports"])
                es[i] = dict(e, **{k: v})
                yield dict(plan, exports=es)
    if plan["junk"]:
        yield dict(plan, junk=False)
    from checks.c10 import tree_simpler

    for i, t in enumerate(plan["trees"]):
        if any(plan["coupl"][i].values()):
            cs = list(plan["coupl"])
            cs[i] = {}
            yield dict(plan, coupl=cs)
        else:
            for v in tree_simpler(t):
                ts = list(plan["trees"])
                ts[i] = v
                yield dict(plan, trees=ts)
    if not any(c for c in plan["coupl"]):
        for v in SH.study_simpler(plan["spec"]):
            yield dict(plan, spec=v)
