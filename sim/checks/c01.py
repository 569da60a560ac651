"""C01: sessions.  Random histories of API operations in one process; after every
build, the problem is compared with the reference interpreter."""
import copy
import gc
import hashlib
import io
import json
import os

import canon
import gen as G
import lang
import shrink as SH

ID = "C01"
LEVEL = "exploration"
RULE = (
    "a run is a seeded history of 6-40 API operations (create/replicate models, wire and "
    "replicate networks, replace data, builds with random blocks/scenarios/strategies, refused "
    "builds, solve, export, Benders builds, YAML loading, discarding objects and collecting "
    "garbage) over 1-3 generated studies in one forked process; non-trivial: at least two "
    "completed builds were compared with the reference interpreter; distinct by the hash of the "
    "operations and reference problems"
)
COMPONENTS = {
    "andromede.expression/model/study/simulation": "real",
    "ortools, pandas, antlr4 runtime, pydantic": "real",
    "expected problems": "reference interpreter (sim/lang.py)",
}
ASSUMPTIONS = [
    "single caller thread (C02 covers several)",
    "expressions outside the disputed corners (time evaluation inside a shift, nested expectations)",
]
QUICK = {"runs": 4000, "secs": 55}
THOROUGH = {"runs": 10**7, "secs": 900}


def gen_b(rng, sp, invest):
    T_abs, S = sp["T_abs"], sp["S"]
    n = rng.randint(1, min(4, T_abs))
    if T_abs > 10 and rng.random() < 0.5:
        n = T_abs
    off = rng.randint(0, T_abs - n)
    ts = list(range(off, off + n))
    r = rng.random()
    if r < 0.1:
        rng.shuffle(ts)
    elif r < 0.16:
        ts = ts + [T_abs]  # beyond the data: refused if some series is read there
    b = {"timesteps": ts, "scenarios": rng.randint(1, S)}
    if rng.random() < 0.06:
        b["scenarios"] = S + 1
    if invest:
        b["strategy"] = rng.choice(["merged", "invest", "oper"])
    if rng.random() < 0.25:
        b["prob"] = rng.choice([0.5, 0.25, 1.0, 0.75])
    if rng.random() < 0.3:
        b["node"] = rng.choice(["nA", "nB", "nC"])
    return b


def gen(rng, tier):
    G.SPECIAL = 0.08 if rng.random() < 0.3 else 0.0
    try:
        return _gen(rng, tier)
    finally:
        G.SPECIAL = 0.0


def _gen(rng, tier):
    small = rng.random() < 0.5
    studies = []
    for i in range(rng.randint(1, 3)):
        text = rng.random() < 0.3
        invest = (not text) and rng.random() < 0.35
        sp = G.gen_study(
            rng,
            text=text,
            invest=invest,
            small=small,
            tree_nodes=() if text else ("nA", "nB", "nC")[: rng.choice([0, 0, 2, 3])],
            scenarization=not text,
            hazards=rng.random() < 0.6,
        )
        sp["text"] = text
        sp["invest"] = invest
        studies.append(sp)
    nop = rng.randint(6, 22 if tier == "quick" else 40)
    ops = []
    nets = [(i, 0) for i in range(len(studies))]
    n_new = 0
    for _ in range(nop):
        i = rng.randrange(len(studies))
        sp = studies[i]
        r = rng.random()
        if r < 0.46:
            j = i if rng.random() < 0.93 else rng.randrange(len(studies))
            ops.append(
                ["build", i, rng.randrange(3), j, gen_b(rng, sp, sp["invest"])]
            )
            if rng.random() < 0.3:
                ops.append(["build", *ops[-1][1:4], gen_b(rng, sp, sp["invest"])])
            continue
        if r < 0.58 and sp["data"]:
            k = rng.choice(sorted(sp["data"]))
            c, p = k.split("|")
            mid = dict(map(tuple, sp["net"]["nodes"] + sp["net"]["comps"]))[c]
            ps = [x for x in sp["models"][mid]["params"] if x["n"] == p][0]
            d = G.gen_data(rng, ps, sp["T_abs"], sp["S"], hazard=0.15)
            z = rng.random()
            if z < 0.06:
                d = None  # missing
            elif z < 0.12:
                d = ["ts", {str(t): G.q(rng) for t in range(1, sp["T_abs"])}]
            elif z < 0.18:
                d = ["ts", {str(t): G.q(rng) for t in range(sp["T_abs"])}]
            ops.append(["data", i, k, d])
            continue
        if r < 0.62:
            ops.append(["replicate_net", i, rng.randrange(3)])
            continue
        if r < 0.66:
            # another component, or another model, in the place of a component
            ops.append(
                ["replace_comp", i, rng.randrange(3), rng.randrange(1 << 20), rng.randrange(1 << 20), rng.randrange(1 << 30)]
            )
            if rng.random() < 0.5:
                ops.append(["build", i, ops[-1][2], i, gen_b(rng, sp, sp["invest"])])
            continue
        if r < 0.72:
            n_new += 1
            ms = sorted(sp["models"])
            ops.append(
                [
                    "add_comp",
                    i,
                    rng.randrange(3),
                    f"D{n_new}",
                    rng.choice(ms),
                    rng.randrange(1 << 30),
                    rng.random() < 0.2,
                ]
            )
            continue
        if r < 0.78:
            n_new += 1
            ops.append(
                [
                    "replicate_model",
                    i,
                    rng.choice(sorted(sp["models"])),
                    f"r{n_new}",
                    rng.choice(["drop_cons", "drop_obj", "new_obj", "id", "swap_var"]),
                    rng.randrange(1 << 30),
                ]
            )
            continue
        if r < 0.82:
            ops.append(["solve", rng.randrange(1 << 20)])
        elif r < 0.86:
            ops.append(["export", rng.randrange(1 << 20)])
        elif r < 0.90:
            ops.append(["recreate", i])
        elif r < 0.94:
            ops.append(["bad_model", i, rng.randrange(6)])
        elif r < 0.97:
            ops.append(["benders", i, rng.randrange(3), gen_b(rng, sp, False)])
        else:
            ops.append(["gc"])
    for i, sp in enumerate(studies):
        ops.append(["build", i, 0, i, gen_b(rng, sp, sp["invest"])])
    return {"studies": studies, "ops": ops, "share": rng.random() < 0.5}


class Slot:
    """one study: specs and real objects, kept in step"""

    def __init__(self, sp, scratch, n):
        self.sp = copy.deepcopy(sp)
        self.n = n
        self.models = self.sp["models"]
        self.nets = [self.sp["net"]]
        self.data = self.sp["data"]
        self.scratch = scratch
        self.count = 0
        self.make()

    def make(self):
        if self.sp.get("text"):
            self._make_text()
        else:
            self.pts = lang.to_port_types(self.sp["port_types"])
            self.rmodels = {
                k: lang.to_model(m, self.pts) for k, m in self.models.items()
            }
            self.rdb = lang.to_database(self.data)
            self.rnets = [lang.to_network(n, self.rmodels) for n in self.nets]

    def _make_text(self):
        from pathlib import Path

        from andromede.model.parsing import parse_yaml_library
        from andromede.model.resolve_library import resolve_library
        from andromede.study.parsing import parse_yaml_components
        from andromede.study.resolve_components import (
            build_data_base,
            build_network,
            resolve_system,
        )

        self.count += 1
        text_models = {
            k: m for k, m in self.models.items() if not k.startswith("r")
        }
        lib = lang.yaml_library("lib", self.sp["port_types"], text_models.values())
        libs = resolve_library([parse_yaml_library(io.StringIO(lib))])
        d = Path(self.scratch) / f"st{self.n}_{self.count}"
        d.mkdir()
        net = self.nets[0]
        net_t = {
            "nodes": [x for x in net["nodes"] if x[1] in text_models],
            "comps": [x for x in net["comps"] if x[1] in text_models],
            "cnx": [],
        }
        ok = {c for c, _ in net_t["nodes"] + net_t["comps"]}
        net_t["cnx"] = [x for x in net["cnx"] if x[0] in ok and x[2] in ok]
        # text carries dense series only; other data are set through the API
        # (as are those of a namesake component of another network)
        model_of = dict(net_t["nodes"] + net_t["comps"])
        in_text = {
            f"{c}|{pp['n']}" for c, m in model_of.items() for pp in text_models[m]["params"]
        }
        sys_data, names = {}, {}
        for k, v in self.data.items():
            if k not in in_text:
                continue
            if v[0] == "const":
                sys_data[k] = v
            elif v[0] in ("ts", "ss", "tss") and "0" in (v[1] if isinstance(v[1], dict) else "0"):
                if v[0] != "ts" and v[2] is not None:
                    continue
                nm = k.replace("|", "_")
                (d / f"{nm}.txt").write_text(lang.series_text(v))
                sys_data[k] = v
                names[k] = nm
        st = lang.yaml_system(
            net_t, {m: "lib" for m in text_models}, sys_data, text_models, names
        )
        inp = parse_yaml_components(io.StringIO(st))
        system = resolve_system(inp, libs)
        self.pts = libs["lib"].port_types
        self.rmodels = dict(libs["lib"].models)
        for k, m in self.models.items():
            if k not in self.rmodels:
                self.rmodels[k] = lang.to_model(m, self.pts)
        net0 = build_network(system)
        self.rdb = build_data_base(inp, d)
        for k, v in self.data.items():
            if k not in sys_data:
                c, p = k.split("|")
                self.rdb.add_data(c, p, lang.to_data(v))
        self.rnets = [net0] + [
            lang.to_network(n, self.rmodels) for n in self.nets[1:]
        ]
        if net_t["nodes"] != net["nodes"] or net_t["comps"] != net["comps"] or net_t["cnx"] != net["cnx"]:
            self.rnets[0] = lang.to_network(net, self.rmodels)

    def ref(self, ni, data):
        return lang.RefStudy(self.models, self.nets[ni], data)


def connect_candidates(slot, ni, c):
    net = slot.nets[ni]
    mk = {a: m for a, m in net["nodes"] + net["comps"]}
    ptf = {p["id"]: frozenset(p["fields"]) for p in slot.sp["port_types"]}

    def ports(x):
        m = slot.models[mk[x]]
        return [
            (p["n"], p["type"], frozenset(d["field"] for d in m["defs"] if d["port"] == p["n"]))
            for p in m["ports"]
        ]

    r = []
    for o in mk:
        if o == c:
            continue
        for n1, t1, d1 in ports(c):
            for n2, t2, d2 in ports(o):
                if t1 == t2 and d1 | d2 == ptf[t1] and not d1 & d2:
                    r.append([c, n1, o, n2])
    return r


def execute(plan, scratch):
    import random

    probes = {}

    def probe(k):
        probes[k] = probes.get(k, 0) + 1

    lang.MEMO = {} if plan.get("share") else None
    slots = [Slot(sp, scratch, i) for i, sp in enumerate(plan["studies"])]
    problems = []  # [problem, ref, dirty]
    compared = 0
    h = hashlib.sha256()

    def out(v=None):
        return {
            "violation": v,
            "probes": probes,
            "nontrivial": compared >= 2,
            "sig": h.hexdigest()[:16],
            "steps": len(plan["ops"]),
            "faults": {"refused_build": probes.get("refused", 0)},
        }

    for oi, op in enumerate(plan["ops"]):
        k = op[0]
        h.update(json.dumps(op).encode())
        if k == "build":
            _, i, ni, j, b = op
            s = slots[i]
            ni = ni % len(s.nets)
            try:
                ref = s.ref(ni, slots[j].data).problem(b)
            except lang.Refused as e:
                ref = None
                why = str(e)
            err = None
            try:
                p = lang.build(s.rnets[ni], slots[j].rdb, b)
            except Exception as e:
                p = None
                err = e
            if ref is None:
                probe("refused")
                if p is not None:
                    return out(
                        f"not-refused: op {oi} {op[:4]}: the inputs do not allow this build ({why}) "
                        f"but a problem was returned"
                    )
                continue
            if p is None:
                return out(
                    f"build-failed: op {oi} {op[:4]}: {type(err).__name__}: {err}"
                )
            got = canon.canon_problem(p)
            d = canon.diff(got, ref)
            compared += 1
            probe("builds_compared")
            if d:
                return out(f"wrong-problem: op {oi} {op[:4]} b={b}: {d}")
            problems.append([p, ref, False])
            if len(problems) > 5:
                problems.pop(0)
        elif k == "data":
            _, i, key, d = op
            s = slots[i]
            c, p = key.split("|")
            if d is None:
                # a database without that entry
                s.data = {a: b for a, b in s.data.items() if a != key}
                s.rdb = lang.to_database(s.data)
            else:
                s.data[key] = d
                s.rdb.add_data(c, p, lang.to_data(d))
            probe("data_replaced")
        elif k == "replicate_net":
            _, i, ni = op
            s = slots[i]
            ni = ni % len(s.nets)
            if len(s.nets) < 3:
                s.rnets.append(s.rnets[ni].replicate(id=f"rep{len(s.nets)}"))
                s.nets.append(copy.deepcopy(s.nets[ni]))
                probe("net_replicated")
        elif k == "add_comp":
            _, i, ni, cid, mid, sd, as_node = op
            s = slots[i]
            ni = ni % len(s.nets)
            if mid not in s.models:
                continue
            rng = random.Random(sd)
            from andromede.study.network import PortRef, create_component, create_node

            if as_node:
                s.nets[ni]["nodes"].append([cid, mid])
                s.rnets[ni].add_node(create_node(model=s.rmodels[mid], id=cid))
            else:
                s.nets[ni]["comps"].append([cid, mid])
                s.rnets[ni].add_component(create_component(model=s.rmodels[mid], id=cid))
            for pp in s.models[mid]["params"]:
                d = G.gen_data(rng, pp, s.sp["T_abs"], s.sp["S"])
                s.data[f"{cid}|{pp['n']}"] = d
                s.rdb.add_data(cid, pp["n"], lang.to_data(d))
            for cx in connect_candidates(s, ni, cid):
                if rng.random() < 0.4:
                    s.nets[ni]["cnx"].append(cx)
                    s.rnets[ni].connect(
                        PortRef(s.rnets[ni].get_component(cx[0]), cx[1]),
                        PortRef(s.rnets[ni].get_component(cx[2]), cx[3]),
                    )
            probe("component_added")
        elif k == "replace_comp":
            _, i, ni, wh, wm, sd = op
            s = slots[i]
            ni = ni % len(s.nets)
            net = s.nets[ni]
            linked = {x for cx in net["cnx"] for x in (cx[0], cx[2])}
            free = [c for c in net["nodes"] + net["comps"] if c[0] not in linked]
            if not free:
                continue
            entry = free[wh % len(free)]
            is_node = any(entry is e for e in net["nodes"])
            mid = sorted(s.models)[wm % len(s.models)]
            entry[1] = mid
            from andromede.study.network import create_component, create_node

            if is_node:
                s.rnets[ni].add_node(create_node(model=s.rmodels[mid], id=entry[0]))
            else:
                s.rnets[ni].add_component(create_component(model=s.rmodels[mid], id=entry[0]))
            rng = random.Random(sd)
            for pp in s.models[mid]["params"]:
                d = G.gen_data(rng, pp, s.sp["T_abs"], s.sp["S"])
                s.data[f"{entry[0]}|{pp['n']}"] = d
                s.rdb.add_data(entry[0], pp["n"], lang.to_data(d))
            probe("component_replaced")
        elif k == "replicate_model":
            _, i, mid, new, how, sd = op
            s = slots[i]
            if mid not in s.models or new in s.models:
                continue
            m = copy.deepcopy(s.models[mid])
            m["id"] = new
            rm = s.rmodels[mid]
            kw = {"id": new}
            if how == "drop_cons" and m["cons"]:
                c = m["cons"].pop(sd % len(m["cons"]))
                kw["constraints"] = {
                    a: b for a, b in rm.constraints.items() if a != c["n"] or c.get("binding")
                }
                kw["binding_constraints"] = {
                    a: b
                    for a, b in rm.binding_constraints.items()
                    if a != c["n"] or not c.get("binding")
                }
            elif how == "drop_obj":
                m["obj_op"] = None
                kw["objective_operational_contribution"] = None
            elif how == "new_obj" and m["vars"]:
                v = [x for x in m["vars"] if x["ctx"] == "oper"]
                if v:
                    m["obj_op"] = ["tsumall", ["expec", ["mul", ["lit", 3.0], ["var", v[0]["n"]]]]]
                    kw["objective_operational_contribution"] = lang.to_expr(m["obj_op"])
            elif how == "swap_var" and m["vars"]:
                v = m["vars"][sd % len(m["vars"])]
                if v["type"] != "bool":
                    v["lb"], v["ub"] = ["lit", -7.0], ["lit", 91.0]
                    vs = dict(rm.variables)
                    vs[v["n"]] = vs[v["n"]].replicate(
                        lower_bound=lang.to_expr(v["lb"]), upper_bound=lang.to_expr(v["ub"])
                    )
                    kw["variables"] = vs
            s.models[new] = m
            s.rmodels[new] = rm.replicate(**kw)
            probe("model_replicated")
            # give it a component at once, in the first network
            cid = f"R{new}"
            s.nets[0]["comps"].append([cid, new])
            from andromede.study.network import create_component

            s.rnets[0].add_component(create_component(model=s.rmodels[new], id=cid))
            rng = random.Random(sd)
            for pp in m["params"]:
                d = G.gen_data(rng, pp, s.sp["T_abs"], s.sp["S"])
                s.data[f"{cid}|{pp['n']}"] = d
                s.rdb.add_data(cid, pp["n"], lang.to_data(d))
        elif k == "solve":
            if problems:
                p = problems[op[1] % len(problems)]
                p[0].solver.Solve()
                probe("solved")
        elif k == "export":
            if problems:
                p = problems[op[1] % len(problems)]
                p[0].export_as_mps()
                p[0].export_as_lp()
                probe("exported")
        elif k == "recreate":
            s = slots[op[1]]
            s.rnets = s.rmodels = s.rdb = s.pts = None
            if op[1] % 2 == 0:
                problems.clear()
            gc.collect()
            s.make()
            probe("recreated")
        elif k == "bad_model":
            v = bad_model(slots[op[1]], op[2])
            if v:
                return out(v)
            probe("bad_model_refused")
        elif k == "benders":
            _, i, ni, b = op
            s = slots[i]
            ni = ni % len(s.nets)
            try:
                from andromede.simulation.benders_decomposed import (
                    build_benders_decomposed_problem,
                )
                from andromede.simulation.decision_tree import (
                    DecisionTreeNode,
                    InterDecisionTimeScenarioConfig,
                )

                root = DecisionTreeNode(
                    "nA",
                    InterDecisionTimeScenarioConfig([lang.to_block(b)], b["scenarios"]),
                    s.rnets[ni],
                )
                build_benders_decomposed_problem(root, s.rdb)
                probe("benders_built")
            except Exception:
                probe("benders_failed")
        elif k == "gc":
            gc.collect()
    for n, (p, ref, _) in enumerate(problems):
        d = canon.diff(canon.canon_problem(p), ref)
        if d:
            return out(f"problem-changed: a problem built earlier changed afterwards: {d}")
    return out()


def bad_model(s, which):
    """model definitions that must be refused"""
    base = {
        "id": "bad",
        "params": [{"n": "pp", "t": True, "s": False, "type": "float"}],
        "vars": [
            {"n": "x", "type": "float", "lb": None, "ub": None, "t": True, "s": True, "ctx": "oper"}
        ],
        "ports": [],
        "defs": [],
        "cons": [],
        "obj_op": None,
        "obj_inv": None,
    }
    if which == 0:
        base["obj_op"] = ["var", "x"]
    elif which == 1:
        base["obj_op"] = ["expec", ["mul", ["tsumall", ["var", "x"]], ["tsumall", ["var", "x"]]]]
    elif which == 2:
        base["vars"].append(dict(base["vars"][0], n="y", ub=["var", "x"]))
    elif which == 3:
        base["cons"] = [{"n": "c", "e": ["var", "x"], "lb": None, "ub": ["var", "x"], "ctx": "oper"}]
    elif which == 4:
        base["cons"] = [
            {
                "n": "c",
                "e": ["cmp", "=", ["var", "x"], ["lit", 0.0]],
                "lb": None,
                "ub": ["par", "pp"],
                "ctx": "oper",
            }
        ]
    else:
        base["defs"] = [{"port": "nope", "field": "fl", "e": ["var", "x"]}]
    try:
        lang.to_model(base, s.pts)
    except Exception:
        return None
    return f"not-refused: invalid model {which} was accepted"


def shrinks(plan):
    for ops in SH.drop_each(plan["ops"]):
        yield dict(plan, ops=ops)
    if len(plan["studies"]) > 1:
        last = len(plan["studies"]) - 1
        used = set()
        for op in plan["ops"]:
            if len(op) > 1 and op[0] not in ("solve", "export"):
                used.add(op[1])
            if op[0] == "build":
                used.add(op[3])
        if last not in used:
            yield dict(plan, studies=plan["studies"][:-1])
    for i, sp in enumerate(plan["studies"]):
        for v in SH.study_simpler(sp):
            st = list(plan["studies"])
            st[i] = v
            yield dict(plan, studies=st)
    for i, op in enumerate(plan["ops"]):
        if op[0] == "build":
            for b in SH.b_simpler(op[4]):
                yield dict(plan, ops=plan["ops"][:i] + [op[:4] + [b]] + plan["ops"][i + 1 :])
