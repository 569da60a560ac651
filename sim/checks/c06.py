"""C06: the same study under other hash seeds, other interpreters, other directory listings and other library orders."""
import contextlib
import copy
import hashlib
import io
import json
import os
import pathlib
import random
import sys

import antstudy as A
import faultfs
import gen as G
import harness as H
import invest as I
import lang
import shrink as SH
import snap
import textstudy as TS

ID = "C06"
LEVEL = "exploration"
RULE = (
    "one run = one generated input (a set of libraries, a study in files, an investment tree, or an Antares study) processed 3-6 times, "
    "in interpreters with different hash randomisation and address layout, under shuffled directory listings and permuted library lists; "
    "non-trivial when at least two variants differ in hash seed or order; distinct = distinct (input, variants)"
)
COMPONENTS = {
    "libraries, systems, command line, problem building, decision trees, export, converter (/repo/src)": "real",
    "OR-tools, antares_craft, PyYAML, pandas": "real",
    "directory listings": "simulated: seeded order",
    "string hashing": "seeded per interpreter (PYTHONHASHSEED)",
}
ASSUMPTIONS = [
    "hash seeds are sampled: each worker compares its own interpreter with two others",
    "the error raised for a wrong set of libraries may name a different one of its errors: only whether there is an error is compared",
]
QUICK = {"runs": 100000, "secs": 60}
THOROUGH = {"runs": 10**7, "secs": 1200}

SEEDS = []


def seeds():
    if not SEEDS:
        r = random.Random("c06:" + os.environ.get("PYTHONHASHSEED", "0"))
        SEEDS.extend([r.randrange(1, 4294967295), r.randrange(1, 4294967295)])
    return SEEDS


def warm():
    for s in seeds():
        H.helper(ID, s)
    A.warm()


def warm_helper():
    A.warm()


# ---------------------------------------------------------------- generation
def gen_libs(rng):
    names = rng.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta"], rng.randint(2, 6))
    pts = ["flow", "heat", "gas", "h2"]
    flaw = rng.random() < 0.25
    libs = []
    for i, n in enumerate(names):
        deps = [m for m in names[:i] if rng.random() < 0.5]
        rng.shuffle(deps)
        if flaw and rng.random() < 0.25:
            deps.insert(rng.randint(0, len(deps)), rng.choice(names + ["nosuch"]))
        if deps and rng.random() < 0.1:
            deps.append(rng.choice(deps))
        own = []
        for p in pts:
            if rng.random() < (0.5 if not deps else 0.04):
                own.append([p, rng.sample(["a", "b", "c", "d"], rng.randint(1, 3))])
        vis = [p for p, _ in own] + [p for l in libs if l["id"] in deps for p in l["vis"]]
        models = []
        for k in range(rng.randint(0, 2)):
            ports = []
            for p in sorted(set(vis)):
                if rng.random() < 0.6:
                    ports.append([f"p_{p}", p])
            if flaw and rng.random() < 0.1:
                ports.append(["p_x", rng.choice(pts)])
            models.append([f"m{k}" if not (flaw and rng.random() < 0.1) else "m0", ports])
        libs.append({"id": n, "deps": deps, "pts": own, "models": models, "vis": sorted(set(vis))})
    return libs


def lib_text(l):
    t = [f"library:", f"  id: {l['id']}"]
    if l["deps"]:
        t.append(f"  dependencies: [{', '.join(l['deps'])}]")
    t.append("  port-types:" + ("" if l["pts"] else " []"))
    for p, fs in l["pts"]:
        t += [f"    - id: {p}", "      fields:"] + [f"        - id: {f}" for f in fs]
    t.append("  models:" + ("" if l["models"] else " []"))
    for m, ports in l["models"]:
        t += [f"    - id: {m}", "      parameters:", "        - id: q", "      variables:", "        - id: x"]
        if ports:
            t.append("      ports:")
            for n, p in ports:
                t += [f"        - id: {n}", f"          type: {p}"]
        t += ["      constraints:", "        - id: c", "          expression: x >= q"]
    return "\n".join(t) + "\n"


def gen(rng, tier):
    kind = rng.choice(["libs", "libs", "study", "study", "tree", "tree", "tree", "conv"])
    hs = [None] + list(seeds())
    p = {"kind": kind}
    if kind == "libs":
        p["libs"] = gen_libs(rng)
        p["dup"] = rng.random() < 0.1
        n = len(p["libs"]) + (1 if p["dup"] else 0)
    elif kind == "study":
        p["ts"] = TS.gen_text(rng, small=True, scenarized=False, max_comps=rng.choice([1, 2, 3]))
        sp = p["ts"]["spec"]
        p["b"] = [rng.randint(1, min(4, sp["T_abs"])), rng.randint(1, sp["S"])]
        if sp["T_abs"] > 10 and rng.random() < 0.5:
            p["b"][0] = sp["T_abs"]
        n = len(p["ts"]["libs"])
    elif kind == "tree":
        nodes = rng.choice(I.NODE_SETS)
        sp = I.gen_invest(rng, ()) if rng.random() < 0.6 else G.gen_study(rng, invest=True, small=True)
        from checks.c10 import gen_trees

        nets = [sp["net"]] + [I.gen_variant_net(rng, sp) for _ in range(rng.choice([0, 1]))]
        t = gen_trees(rng, sp, nets, 1)[0]
        co = []
        for nd, par, _ in I.walk(t):
            for _ in range(rng.choice([0, 1, 2, 3])):
                c = I.gen_coupling(rng, sp, nets, nd, par)
                if c is not None:
                    co.append([nd["id"], c])
        rng.shuffle(co)
        p.update(spec=sp, nets=nets, tree=t, coupl=co, debug=rng.random() < 0.5, merge=rng.random() < 0.2)
        n = 0
    else:
        p["spec"] = A.gen(rng, n=3)
        p["period"] = rng.choice([None, 2])
        n = 0
    vs = []
    for k in range(rng.randint(3, 5) if kind != "conv" else 3):
        perm = list(range(n))
        if k:
            rng.shuffle(perm)
        vs.append({"hs": hs[k % 3], "shuffle": rng.randrange(10**6), "perm": perm, "via": rng.choice(["study", "models", "api"])})
    p["vars"] = vs
    return p


# ---------------------------------------------------------------- one variant
def job(j):
    """artefacts of one variant: {name: text}"""
    p, v, d = j["plan"], j["var"], j["dir"]
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    os.chdir(d)
    fs = faultfs.FS(d, shuffle=v["shuffle"])
    with fs:
        r = KIND[p["kind"]](p, v, d)
    r["hash"] = None
    return r


def err(e):
    return {"error": "raised", "#detail": f"{type(e).__name__}: {e}"[:200]}


def do_libs(p, v, d):
    from andromede.main.main import input_libs
    from andromede.model.parsing import parse_yaml_library
    from andromede.model.resolve_library import resolve_library

    names = [l["id"] for l in p["libs"]] + (["again"] if p["dup"] else [])
    order = [names[i] for i in v["perm"]] if len(v["perm"]) == len(names) else names
    try:
        if v["via"] == "study":
            # in the order of the listing
            base = pathlib.Path(d) / "models"
            libs = input_libs([base / f for f in os.listdir(base)])
        elif v["via"] == "models" or p["dup"]:
            libs = input_libs([pathlib.Path(d) / "models" / f"{n}.yml" for n in order])
        else:
            ls = []
            for n in order:
                with open(os.path.join(d, "models", f"{n}.yml")) as f:
                    ls.append(parse_yaml_library(f))
            libs = resolve_library(ls)
    except Exception as e:
        return err(e)
    snap.ORDERED = True  # models are enumerated by users: their order counts
    try:
        return {n: json.dumps(snap.snap(libs[n])) for n in sorted(libs)}
    finally:
        snap.ORDERED = False


def do_study(p, v, d):
    from ortools.linear_solver import pywraplp

    from andromede.main import main as M

    ts = p["ts"]
    r = {}
    root = pathlib.Path(d)
    libs = [root / f"input/models/{l['id']}.yml" for l in ts["libs"]]
    if len(v["perm"]) == len(libs):
        libs = [libs[i] for i in v["perm"]]
    comp, ser = root / "input/components/components.yml", root / "input/components/series"
    try:
        if v["via"] == "api":
            from andromede.simulation import TimeBlock, build_problem
            from andromede.study.resolve_components import build_network

            lb = M.input_libs(libs)
            db = M.input_database(comp, ser)
            net = build_network(M.input_study(comp, lb))
            pb = build_problem(net, db, TimeBlock(1, list(range(p["b"][0]))), p["b"][1])
            r["mps"], r["lp"] = pb.solver.ExportModelAsMpsFormat(False, False), pb.solver.ExportModelAsLpFormat(False)
            st = pb.solver.Solve()
            r["out"] = cost(st, pb.solver.Objective().Value())
            return r
        got = {}
        real = pywraplp.Solver.Solve

        def solve(self, *a):
            got["mps"], got["lp"] = self.ExportModelAsMpsFormat(False, False), self.ExportModelAsLpFormat(False)
            got["st"] = real(self, *a)
            got["cost"] = self.Objective().Value()
            return got["st"]

        pywraplp.Solver.Solve = solve
        b = ["--duration", str(p["b"][0]), "--scenario", str(p["b"][1])]
        if v["via"] == "study":
            sys.argv = ["andromede", "--study", d] + b
        else:
            sys.argv = ["andromede", "--models"] + [str(x) for x in libs] + ["--component", str(comp), "--timeseries", str(ser)] + b
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            M.main_cli()
        return {"mps": got["mps"], "lp": got["lp"], "out": cost(got["st"], got["cost"])}
    except SystemExit as e:
        return err(e)
    except Exception as e:
        return err(e)


def cost(st, x):
    # infeasible and unbounded are the solver's choice when a problem is both
    return f"{st} {x!r}" if st == 0 else "no optimum"


def do_tree(p, v, d):
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

    sp = p["spec"]
    pts = lang.to_port_types(sp["port_types"])
    models = {k: lang.to_model(m, pts) for k, m in sp["models"].items()}
    nets = [lang.to_network(n, models) for n in p["nets"]]
    db = lang.to_database(sp["data"])
    try:
        reg = {}
        t = I.real_tree(p["tree"], nets, None, reg)
        for n, c in p["coupl"]:
            I.couple(reg[n], c)
        pb = build_benders_decomposed_problem(t, db)
        pb.emplacement = pathlib.Path(d) / "x"
        pb.initialise(is_debug=p["debug"])
    except Exception as e:
        return err(e)
    r = {"names": json.dumps([q.name for q in pb.subproblems])}
    for n in sorted(os.listdir(os.path.join(d, "x"))):
        with open(os.path.join(d, "x", n)) as f:
            r[n] = f.read()
    return r


def do_conv(p, v, d):
    root = os.path.join(d, "study")
    try:
        A.make(root, "study" if v["via"] == "api" else "path", p["period"]).process_all()
    except Exception as e:
        return err(e)
    r = A.collect(root, p["spec"])
    return {"yaml": r["text"], **{k: json.dumps(x) for k, x in r["derived"].items()}}


KIND = {"libs": do_libs, "study": do_study, "tree": do_tree, "conv": do_conv}


# ---------------------------------------------------------------- a run
def prepare(p, d):
    os.makedirs(d)
    if p["kind"] == "libs":
        os.mkdir(os.path.join(d, "models"))
        ls = [(l["id"], lib_text(l)) for l in p["libs"]]
        if p["dup"]:
            ls.append(("again", ls[0][1]))
        for n, t in ls:
            with open(os.path.join(d, "models", f"{n}.yml"), "w") as f:
                f.write(t)
    elif p["kind"] == "study":
        TS.write(p["ts"], d)
    elif p["kind"] == "conv":
        A.write(p["spec"], d, "study")


def execute(plan, scratch):
    res = {"violation": None}
    first = None
    probes = {plan["kind"]: 1}
    scratch = os.path.realpath(scratch)
    for k, v in enumerate(plan["vars"]):
        d = os.path.join(scratch, f"v{k}")
        if plan["kind"] == "conv" and k:
            from checks.c12 import install

            install(os.path.join(scratch, "v0src"), d)
        else:
            prepare(plan, d)
            if plan["kind"] == "conv":
                install_src(d, os.path.join(scratch, "v0src"))
        j = {"plan": {x: y for x, y in plan.items() if x != "vars"}, "var": v, "dir": d}
        if v["hs"] is None:
            r = H.in_child(lambda: job(j))
        else:
            r = H.ask(H.helper(ID, v["hs"]), j)
        if not isinstance(r, dict) or "harness_error" in r:
            raise RuntimeError(f"variant died: {r}")
        if "error" in r:
            probes[plan["kind"] + "_error"] = probes.get(plan["kind"] + "_error", 0) + 1
            if os.environ.get("VERIF_SIM_LOUD"):
                print(r)
        a = {x: y for x, y in r.items() if not x.startswith("#")}
        if first is None:
            first = (a, r)
        elif a != first[0]:
            bad = sorted(x for x in set(a) | set(first[0]) if a.get(x) != first[0].get(x))[0]
            res["violation"] = (
                f"differs-{plan['kind']}: {bad} of variant {k} ({ {x: v[x] for x in ('hs', 'shuffle', 'perm', 'via')} }): "
                + where(first[0].get(bad), a.get(bad), first[1].get("#detail"), r.get("#detail"))
            )
            break
    res.update(
        probes=probes,
        faults={"other-interpreter": sum(v["hs"] is not None for v in plan["vars"]), "listing-order": len(plan["vars"])},
        sig=hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16],
        nontrivial=len(plan["vars"]) > 1,
        steps=len(plan["vars"]),
    )
    return res


def install_src(d, dst):
    from checks.c12 import install

    install(d, dst)


def where(a, b, da, db):
    if a is None or b is None:
        return f"{'absent' if a is None else 'there'} first, {'absent' if b is None else 'there'} now ({da} / {db})"
    for x, y in zip(a.splitlines(), b.splitlines()):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
            return f"{x[max(0, i - 60):i + 100]!r} / {y[max(0, i - 60):i + 100]!r}"
    return "one is longer"


def shrinks(plan):
    for v in SH.drop_each(plan["vars"]):
        if len(v) > 1:
            yield dict(plan, vars=v)
    if plan["kind"] == "libs":
        for i in range(len(plan["libs"])):
            n = len(plan["libs"])
            vs = [dict(v, perm=[x - (x > i) for x in v["perm"] if x != i]) for v in plan["vars"]]
            yield dict(plan, libs=plan["libs"][:i] + plan["libs"][i + 1 :], vars=vs)
    elif plan["kind"] == "study":
        for x in SH.study_simpler(plan["ts"]["spec"]):
            yield dict(plan, ts=dict(plan["ts"], spec=x))
    elif plan["kind"] == "tree":
        for c in SH.drop_each(plan["coupl"]):
            yield dict(plan, coupl=c)
        if plan["debug"]:
            yield dict(plan, debug=False)
        for x in SH.study_simpler(plan["spec"]):
            yield dict(plan, spec=x)
    else:
        for x in A.simpler(plan["spec"]):
            yield dict(plan, spec=x)
