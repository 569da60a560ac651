"""Shared inputs and the operations that callers run over them (C02, C03).

world plan = {"api": [study specs], "text": [tstudies]}
operation  = [name, ...args]; run(op, tag) returns a JSON-able, canonical result;
an ordinary exception is the result ["error", type].
"""
import io
import os

import canon
import lang
import mps
import snap as SN
import textstudy as TS


def c_problem(p):
    """canonical problem, insensitive to the order of columns and rows"""
    c = canon.canon_problem(p)
    return {
        "vars": {k: [repr(float(x)) for x in v[:2]] + [bool(v[2])] for k, v in sorted(c["vars"].items())},
        "rows": sorted(repr(canon._key(r)) for r in c["rows"]),
        "obj": {k: repr(float(v)) for k, v in sorted(c["obj"].items())},
        "off": repr(float(c["off"])),
    }


class World:
    def __init__(self, plan, scratch):
        self.plan = plan
        self.scratch = scratch
        self.api = [lang.RealStudy(sp) for sp in plan["api"]]
        self.text = []
        from andromede.model.resolve_library import resolve_library
        from andromede.study.resolve_components import build_network, resolve_system

        for i, ts in enumerate(plan["text"]):
            root = os.path.join(scratch, f"study{i}")
            TS.write(ts, root)
            libs_in = TS.load_libs(ts, root)
            libs = resolve_library(TS.load_libs(ts, root))
            inp = TS.load_system(ts, root)
            net = build_network(resolve_system(inp, libs))
            db = TS.load_db(ts, root, inp)
            self.text.append(
                {"ts": ts, "root": root, "libs_in": libs_in, "libs": libs, "inp": inp, "net": net, "db": db}
            )
        self.raising = False
        # shared decision trees, solved problems and decompositions (C03)
        self.trees = [make_tree(t["tree"], self.api[t["study"]].network) for t in plan.get("trees", [])]
        self.solved = []
        for t in plan.get("solved", []):
            net, db, sp = self.study(t[0], t[1])
            p = lang.build(net, db, t[2])
            p.solver.Solve()
            self.solved.append(p)
        self.decomposed = []
        for t in plan.get("decomposed", []):
            from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

            st = self.api[t["study"]]
            self.decomposed.append(
                build_benders_decomposed_problem(make_tree(t["tree"], st.network), st.database)
            )

    # ------------------------------------------------------------ inputs
    def snapshot(self):
        out = []
        for sp, st in zip(self.plan["api"], self.api):
            out.append(SN.snap({k: m for k, m in st.models.items()}))
            out.append(SN.snap_network(st.network))
            out.append(SN.snap_database(st.database, list(sp["data"]), sp["T_abs"], sp["S"], sp.get("nodes") or [""]))
        for w in self.text:
            sp = w["ts"]["spec"]
            out.append(SN.snap(w["libs_in"]))
            out.append(SN.snap({k: l for k, l in w["libs"].items()}))
            out.append(SN.snap(w["inp"]))
            out.append(SN.snap_network(w["net"]))
            out.append(SN.snap_database(w["db"], list(sp["data"]), sp["T_abs"], sp["S"]))
        for t in self.trees:
            out.append(SN.snap_tree(t))
        for p in self.solved:
            out.append([c_problem(p), [[v.name(), repr(v.solution_value())] for v in p.solver.variables()]])
        for p in self.decomposed:
            out.append([[q.name, c_problem(q)] for q in [p.master] + list(p.subproblems)])
        return out

    # ------------------------------------------------------------ operations
    def study(self, where, i):
        if where == "api":
            s = self.api[i]
            return s.network, s.database, self.plan["api"][i]
        w = self.text[i]
        return w["net"], w["db"], w["ts"]["spec"]

    def run(self, op, tag):
        try:
            return getattr(self, "op_" + op[0])(*op[1:], tag=tag)
        except Exception as e:
            return ["error", type(e).__name__]

    def op_build(self, where, i, b, tag):
        net, db, sp = self.study(where, i)
        return c_problem(lang.build(net, db, b, name=f"p{tag}"))

    def op_solve(self, where, i, b, tag):
        from andromede.simulation.output_values import OutputValues

        net, db, sp = self.study(where, i)
        p = lang.build(net, db, b)
        st = p.solver.Solve()
        o = OutputValues(p)
        bad = None
        if st == p.solver.OPTIMAL:
            bad = check_outputs(o, p, sp, b)
        return [
            st,
            "%.6g" % p.solver.Objective().Value() if st == p.solver.OPTIMAL else None,
            bad,
            c_problem(p),
        ]

    def op_load(self, i, b, tag):
        w = self.text[i]
        libs, inp, net, db = TS.load_all(w["ts"], w["root"])
        return [SN.snap(libs), SN.snap(inp), c_problem(lang.build(net, db, b))]

    def op_resolve(self, i, b, tag):
        """libraries parsed by someone else, resolved here"""
        from andromede.model.resolve_library import resolve_library
        from andromede.study.resolve_components import build_network, resolve_system

        w = self.text[i]
        libs = resolve_library(w["libs_in"])
        net = build_network(resolve_system(w["inp"], libs))
        return [SN.snap(libs), c_problem(lang.build(net, w["db"], b))]

    def op_libs(self, i, tag):
        """only the resolution of shared parsed libraries"""
        from andromede.model.resolve_library import resolve_library

        return SN.snap(resolve_library(self.text[i]["libs_in"]))

    def op_parse(self, i, tag):
        """only the reading of the texts"""
        w = self.text[i]
        return [SN.snap(TS.load_libs(w["ts"], w["root"])), SN.snap(TS.load_system(w["ts"], w["root"]))]

    def op_system(self, i, tag):
        from andromede.study.resolve_components import build_network, resolve_system

        w = self.text[i]
        net = build_network(resolve_system(w["inp"], w["libs"]))
        db = TS.load_db(w["ts"], w["root"], w["inp"])
        sp = w["ts"]["spec"]
        return [SN.snap_network(net), SN.snap_database(db, list(sp["data"]), sp["T_abs"], sp["S"])]

    def op_exprs(self, texts, ids, tag):
        from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression

        out = []
        for t in texts:
            try:
                e = parse_expression(t, ModelIdentifiers(variables=set(ids[0]), parameters=set(ids[1])))
                out.append(SN.snap(e))
            except Exception as ex:
                if self.raising:
                    raise
                out.append(["error", type(ex).__name__])
        return out

    def op_replicate(self, where, i, b, tag):
        net, db, sp = self.study(where, i)
        r = net.replicate(id=f"r{tag}")
        return [SN.snap_network(r)["connections"], c_problem(lang.build(r, db, b))]

    def op_benders(self, i, tree, tag, export=False):
        """own tree over the shared network"""
        st = self.api[i]
        return self._decompose(make_tree(tree, st.network), st.database, tag, export)

    def op_tree(self, j, tag):
        """a shared tree"""
        t = self.plan["trees"][j]
        return self._decompose(self.trees[j], self.api[t["study"]].database, tag)

    def op_read(self, j, tag):
        """results of a shared solved problem"""
        from andromede.simulation.output_values import OutputValues

        where, i, b = self.plan["solved"][j]
        net, db, sp = self.study(where, i)
        p = self.solved[j]
        o = OutputValues(p)
        if p.solver.Objective().Value() is None:
            return None
        return [check_outputs(o, p, sp, b), o == OutputValues(p), sorted(str(o).split("\n"))]

    def op_xport(self, j, tag):
        """export of a shared decomposition, always to the same directory"""
        import pathlib

        p = self.decomposed[j]
        d = os.path.join(self.scratch, f"xp{j}")
        p.emplacement = pathlib.Path(d)
        p.initialise(is_debug=True)
        fs = {}
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n)) as f:
                fs[n] = f.read()
        return fs

    def _decompose(self, root, db, tag, export=False):
        from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

        p = build_benders_decomposed_problem(root, db)
        out = [[q.name, c_problem(q)] for q in [p.master] + list(p.subproblems)]
        cols = {}
        for q in [p.master] + list(p.subproblems):
            cols["master" if q is p.master else q.name] = mps.parse_mps(q.export_as_mps())["cols"]
        struct = []
        if p.subproblems:
            for name, cand, idx in mps.parse_structure(p.export_structure()):
                c = cols.get(name, [])
                struct.append([name, cand, c[idx] if 0 <= idx < len(c) else None])
        out.append(sorted(struct, key=repr))
        if export:
            import pathlib

            d = os.path.join(self.scratch, f"exp{tag}")
            p.emplacement = pathlib.Path(d)
            p.initialise()
            fs = {}
            for n in sorted(os.listdir(d)):
                with open(os.path.join(d, n)) as f:
                    fs[n] = sorted(f.read().split("\n"))
            out.append({k: v for k, v in fs.items() if k.endswith(".mps") or k.endswith(".json")})
        return out

    def op_inspect(self, where, i, b, tag):
        """printing, comparing, measuring the shared models' expressions"""
        from andromede.expression.degree import compute_degree
        from andromede.expression.equality import expressions_equal
        from andromede.expression.print import print_expr

        net, db, sp = self.study(where, i)
        out = []
        for c in net.all_components:
            m = c.model
            es = [k.expression for k in list(m.constraints.values()) + list(m.binding_constraints.values())]
            for e in es:
                try:
                    deg = compute_degree(e)
                except Exception as ex:
                    if self.raising:
                        raise
                    deg = type(ex).__name__
                out.append([print_expr(e), deg, [expressions_equal(e, f) for f in es[:3]]])
        return out


def make_tree(tree, network, parent=None):
    """tree: {"id","blocks":[[id,[steps]]],"S","prob","kids":[...]}"""
    from andromede.simulation.decision_tree import (
        DecisionTreeNode,
        InterDecisionTimeScenarioConfig,
    )
    from andromede.simulation.time_block import TimeBlock

    n = DecisionTreeNode(
        tree["id"],
        InterDecisionTimeScenarioConfig([TimeBlock(a, list(t)) for a, t in tree["blocks"]], tree["S"]),
        network,
        parent=parent,
        prob=tree["prob"],
    )
    for cp, vp, cc, vc, vi in tree.get("coupl", []):
        n.define_coupling_constraint(
            network.get_component(cp), vp, network.get_component(cc), vc, vi
        )
    for k in tree["kids"]:
        make_tree(k, network, n)
    return n


def check_outputs(o, p, sp, b):
    """None, or how recorded results differ from the solver's"""
    models = sp["models"]
    ref = lang.RefStudy(models, sp["net"], sp["data"])
    T, S = len(b["timesteps"]), b["scenarios"]
    sol = {v.name(): v.solution_value() for v in p.solver.variables()}
    for c, m in sp["net"]["nodes"] + sp["net"]["comps"]:
        for v in models[m]["vars"]:
            if not lang.keep(b, v["ctx"]):
                continue
            nt, ns = (T if v["t"] else 1), (S if v["s"] else 1)
            want = [
                [
                    sol[ref.var_name(b, (c, v["n"], t if v["t"] else None, s if v["s"] else None))]
                    for t in range(nt)
                ]
                for s in range(ns)
            ]
            if nt == 1:
                want = [w[0] for w in want]
                if ns == 1:
                    want = want[0]
            got = o.component(c).var(v["n"]).value
            if got != want:
                return f"{c}.{v['n']}: recorded {got}, solved {want}"
    return None


# ---------------------------------------------------------------- generation
def gen_tree(rng, sp, ids, max_nodes=4):
    """a random tree over the study's steps"""
    T_abs, S = sp["T_abs"], sp["S"]
    n = rng.randint(1, max_nodes)
    nodes = []
    for i in range(n):
        bl = []
        for k in range(rng.choice([1, 1, 2]) if rng.random() < 0.98 else 11):
            a = rng.randrange(T_abs)
            bl.append([k, list(range(a, min(T_abs, a + rng.randint(1, 2))))])
        nodes.append({"id": ids[i], "blocks": bl, "S": rng.randint(1, S), "prob": 1.0, "kids": []})
    for i in range(1, n):
        nodes[rng.randrange(i)]["kids"].append(nodes[i])

    def probs(x):
        k = x["kids"]
        if len(k) == 1:
            k[0]["prob"] = 1.0
        elif len(k) == 2:
            p = rng.choice([0.5, 0.25, 0.75])
            k[0]["prob"], k[1]["prob"] = p, 1.0 - p
        elif len(k) == 3:
            for y, p in zip(k, [0.5, 0.25, 0.25]):
                y["prob"] = p
        for y in k:
            probs(y)

    probs(nodes[0])
    inv = [
        (c, v["n"])
        for c, m in sp["net"]["nodes"] + sp["net"]["comps"]
        for v in sp["models"][m]["vars"]
        if v["ctx"] in ("inv", "coup")
    ]
    for x in nodes:
        x["coupl"] = []
        while inv and rng.random() < 0.5:
            c = rng.choice(inv)[0]
            mine = [v for a, v in inv if a == c]
            par = rng.choice(inv)
            x["coupl"].append([par[0], par[1], c, rng.choice(mine), rng.choice(mine)])
    return nodes[0]


def gen_b(rng, sp, full=False):
    T_abs, S = sp["T_abs"], sp["S"]
    if rng.random() < 0.5 and not full:
        b = {"timesteps": list(sp["b"]["timesteps"]), "scenarios": S}
    else:
        T = rng.randint(1, min(3, T_abs))
        a = rng.randrange(T_abs - T + 1)
        b = {"timesteps": list(range(a, a + T)), "scenarios": rng.randint(1, S)}
        if rng.random() < 0.2:
            b["timesteps"] = rng.sample(range(T_abs), T)
    nodes = sp.get("nodes") or [""]
    if len(nodes) > 1 and rng.random() < 0.4:
        b["node"] = rng.choice(nodes)
    return b
