"""Investment studies, decision trees over them, and the reference decomposition."""
import gen as G
import lang
import mps
import world as W

NODE_SETS = [["nA", "nB", "nC", "nD"], ["root", "a", "b", "c"], ["2025", "2030", "2035", "2040"], ["n", "n1", "n11", "n2"]]


def gen_invest(rng, tree_nodes=()):
    """a study that is feasible and bounded whatever the numbers: node with balance,
    demands, candidates, shortage and spillage"""
    T_abs, S = rng.randint(1, 4), rng.randint(1, 3)
    if rng.random() < 0.04:  # more steps than one digit counts
        T_abs, S = 11, 1
    ints = rng.random() < 0.3
    bal = {"n": "flow", "type": "pt0"}

    def m(mid, params, vs, e, cons=(), op=None, inv=None):
        return {
            "id": mid,
            "params": params,
            "vars": vs,
            "ports": [dict(bal)],
            "defs": [] if e is None else [{"port": "flow", "field": "fl", "e": e}],
            "cons": list(cons),
            "obj_op": op,
            "obj_inv": inv,
        }

    def v(n, ctx="oper", t=True, s=True, lb=None, ub=None, ty="float"):
        return {"n": n, "type": ty, "lb": lb or ["lit", 0.0], "ub": ub, "t": t, "s": s, "ctx": ctx}

    def P(n, t=False, s=False):
        return {"n": n, "t": t, "s": s}

    def tot(e):
        return ["expec", ["tsumall", e]]

    models = {
        "node": {
            "id": "node",
            "params": [],
            "vars": [],
            "ports": [dict(bal)],
            "defs": [],
            "cons": [
                {
                    "n": "balance",
                    "e": ["cmp", "=", ["sumc", "flow", "fl"], ["lit", 0.0]],
                    "lb": None,
                    "ub": None,
                    "ctx": "oper",
                    "binding": True,
                }
            ],
            "obj_op": None,
            "obj_inv": None,
        },
        "demand": m("demand", [P("d", True, True)], [], ["neg", ["par", "d"]]),
        "unsup": m("unsup", [], [v("u")], ["var", "u"], op=tot(["mul", ["lit", 64.0], ["var", "u"]])),
        "spill": m("spill", [], [v("w")], ["neg", ["var", "w"]], op=tot(["mul", ["lit", 0.25], ["var", "w"]])),
        "cand": m(
            "cand",
            [P("cost", rng.random() < 0.3, rng.random() < 0.3), P("icost"), P("cap"), P("fix")],
            [
                v("g"),
                v("pmax", "coup", False, False, ub=["par", "cap"], ty="int" if ints else "float"),
                v("dlt", "inv", False, False, ub=["par", "cap"]),
            ],
            ["var", "g"],
            [
                {
                    "n": "limit",
                    "e": ["cmp", "<=", ["var", "g"], ["var", "pmax"]],
                    "lb": None,
                    "ub": None,
                    "ctx": "oper",
                },
                {"n": "grow", "e": ["sub", ["var", "pmax"], ["var", "dlt"]], "lb": ["lit", 0.0], "ub": ["lit", 64.0], "ctx": "inv"},
            ][: rng.choice([1, 2])],
            op=tot(["mul", ["par", "cost"], ["var", "g"]]),
            inv=["add", ["mul", ["par", "icost"], ["var", "pmax"]], ["mul", ["lit", 0.5], ["var", "dlt"]], ["par", "fix"]],
        ),
        "gen": m(
            "gen",
            [P("cap"), P("cost")],
            [v("g", ub=["par", "cap"])],
            ["var", "g"],
            op=tot(["mul", ["par", "cost"], ["var", "g"]]),
        ),
    }
    comps = [["D0", "demand"], ["U0", "unsup"], ["W0", "spill"]]
    for i in range(rng.randint(1, 3) if rng.random() < 0.96 else 11):
        comps.append([f"K{i}", "cand"])
    for i in range(rng.randint(0, 1)):
        comps.append([f"G{i}", "gen"])
    rng.shuffle(comps)
    net = {"id": "net", "nodes": [["N", "node"]], "comps": comps, "cnx": [["N", "flow", c, "flow"] for c, _ in comps]}
    data = {}
    for c, mid in comps:
        for p in models[mid]["params"]:
            k = f"{c}|{p['n']}"
            if p["n"] == "d":
                d = ["ts"]
            lo, hi = {"d": (4, 24), "cap": (2, 16), "cost": (1, 12), "icost": (1, 20), "fix": (0, 4)}[p["n"]]

            def num():
                return rng.randint(lo * 4, hi * 4) / 4

            def one():
                kinds = ["const"]
                if p["t"]:
                    kinds.append("ts")
                if p["s"]:
                    kinds.append("ss")
                if p["t"] and p["s"]:
                    kinds += ["tss", "tss"]
                kk = rng.choice(kinds)
                if kk == "const":
                    return ["const", num()]
                if kk == "ts":
                    return ["ts", {str(t): num() for t in range(T_abs)}]
                if kk == "ss":
                    return ["ss", {str(s): num() for s in range(S)}, None]
                return ["tss", [[num() for _ in range(S)] for _ in range(T_abs)], None]

            if tree_nodes and rng.random() < 0.4:
                data[k] = ["tree", {n: one() for n in tree_nodes}]
            else:
                data[k] = one()
    return {
        "port_types": [{"id": "pt0", "fields": ["fl"]}],
        "models": models,
        "net": net,
        "data": data,
        "b": {"timesteps": list(range(T_abs)), "scenarios": S},
        "T_abs": T_abs,
        "S": S,
    }


def gen_variant_net(rng, sp):
    """another network over the same component ids: fewer components"""
    net = sp["net"]
    comps = [c for c in net["comps"] if c[1] not in ("cand", "gen") or rng.random() < 0.7]
    if not comps:
        comps = net["comps"]
    ids = {c for c, _ in comps} | {c for c, _ in net["nodes"]}
    return {
        "id": net["id"],
        "nodes": net["nodes"],
        "comps": comps,
        "cnx": [x for x in net["cnx"] if x[0] in ids and x[2] in ids],
    }


def walk(tree, parent=None, prob=1.0):
    """(node, parent, cumulative probability), breadth first as the tree is traversed"""
    lvl = [(tree, None, tree["prob"])]
    while lvl:
        nxt = []
        for n, p, pr in lvl:
            yield n, p, pr
            for k in n["kids"]:
                nxt.append((k, n, pr * k["prob"]))
        lvl = nxt


def inv_vars(sp, net):
    return [
        (c, v["n"])
        for c, m in net["nodes"] + net["comps"]
        for v in sp["models"][m]["vars"]
        if v["ctx"] in ("inv", "coup")
    ]


def gen_coupling(rng, sp, nets, node, parent):
    mine = inv_vars(sp, nets[node.get("net", 0)])
    par = inv_vars(sp, nets[parent.get("net", 0)]) if parent else mine
    if not mine or not par:
        return None
    c = rng.choice(mine)[0]
    vs = [v for a, v in mine if a == c]
    cum = rng.choice(vs)
    inc = rng.choice([x for x in vs if x != cum] or vs)
    p = (c, cum) if rng.random() < 0.6 and (c, cum) in par else rng.choice(par)
    return [p[0], p[1], c, cum, inc]


def real_tree(tree, nets, parent=None, reg=None):
    """the real tree (couplings not defined); reg: node id -> real node"""
    from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
    from andromede.simulation.time_block import TimeBlock

    n = DecisionTreeNode(
        tree["id"],
        InterDecisionTimeScenarioConfig([TimeBlock(a, list(t)) for a, t in tree["blocks"]], tree["S"]),
        nets[tree.get("net", 0)],
        parent=parent,
        prob=tree["prob"],
    )
    reg[tree["id"]] = n
    for k in tree["kids"]:
        real_tree(k, nets, n, reg)
    return n


def couple(real_node, c):
    par = real_node.parent
    net = real_node.network
    real_node.define_coupling_constraint(
        (par.network if par is not None else net).get_component(c[0]), c[1], net.get_component(c[2]), c[3], c[4]
    )


def reference(sp, nets, data, tree, couplings):
    """(master, [(name, subproblem)]) of the tree; couplings: {node id: [coupling]}.
    Raises Refused."""
    master = {"vars": {}, "rows": [], "obj": {}, "off": 0.0}
    subs = []
    nodes = list(walk(tree))
    multi = len(nodes) > 1
    for n, parent, p in nodes:
        ref = lang.RefStudy(sp["models"], nets[n.get("net", 0)], data)
        q = ref.problem({"timesteps": [0], "scenarios": 0, "strategy": "invest", "prob": p, "node": n["id"]})
        master["vars"].update(q["vars"])
        master["rows"] += q["rows"]
        for k, v in q["obj"].items():
            master["obj"][k] = master["obj"].get(k, 0.0) + v
        master["off"] += q["off"]
        for bid, ts in n["blocks"]:
            name = "subproblem" + (f"_{n['id']}" if multi else "")
            name += f"_b{bid}" if len(n["blocks"]) > 1 else ""
            subs.append(
                (
                    name,
                    ref.problem({"timesteps": ts, "scenarios": n["S"], "strategy": "oper", "prob": p, "node": n["id"]}),
                )
            )
        for cp, vp, cc, cum, inc in couplings.get(n["id"], []):
            row = {}
            for k, f in (
                (f"{n['id']}_{cc}_{cum}", 1.0),
                (f"{n['id']}_{cc}_{inc}", -1.0),
            ) + (((f"{parent['id']}_{cp}_{vp}", -1.0),) if parent else ()):
                row[k] = row.get(k, 0.0) + f
            master["rows"].append([row, 0.0, 0.0])
    return master, subs


def from_files(read, names=None):
    """extensive problem described by exported files alone: options.json, structure file
    and MPS files, linked through the column indices of the structure file.
    read(name) -> text"""
    import json

    opt = json.loads(read("options.json"))
    st = mps.parse_structure(read(opt["STRUCTURE_FILE"]))
    mn = opt["MASTER_NAME"]
    mn = mn[:-4] if mn.endswith(".mps") else mn
    probs = {}
    for pr, _, _ in st:
        if pr not in probs:
            probs[pr] = mps.parse_mps(read(f"{pr}.mps"))
    for pr in names or ():
        # a subproblem that shares no candidate has no entry in the structure file
        if pr not in probs:
            probs[pr] = mps.parse_mps(read(f"{pr}.mps"))
    if mn not in probs:
        probs[mn] = mps.parse_mps(read(f"{mn}.mps"))
    master = probs[mn]

    def col(pr, i):
        cs = probs[pr]["cols"]
        if not 0 <= i < len(cs):
            raise mps.BadFile(f"structure: no column {i} in {pr}")
        return cs[i]

    cand = {}
    for pr, c, i in st:
        if pr == mn:
            cand[c] = col(pr, i)
    vars_ = {n: list(v) for n, v in master["vars"].items()}
    rows = list(master["rows"])
    obj, off = dict(master["obj"]), master["off"]
    for k, (pr, p) in enumerate(sorted(x for x in probs.items() if x[0] != mn)):
        link = {}
        for q, c, i in st:
            if q == pr:
                if c not in cand:
                    raise mps.BadFile(f"structure: {c} of {pr} unknown to the master")
                link[col(pr, i)] = cand[c]
        ren = {}
        for n, v in p["vars"].items():
            if n in link:
                ren[n] = link[n]
                w = vars_[link[n]]
                w[0], w[1] = max(w[0], v[0]), min(w[1], v[1])
                w[2] = w[2] or v[2]
            else:
                ren[n] = f"#{k}#{n}"
                vars_[ren[n]] = list(v)
        for co, lo, hi in p["rows"]:
            r = {}
            for n, x in co.items():
                r[ren[n]] = r.get(ren[n], 0.0) + x
            rows.append([r, lo, hi])
        for n, x in p["obj"].items():
            obj[ren[n]] = obj.get(ren[n], 0.0) + x
        off += p["off"]
    return {"vars": vars_, "rows": rows, "obj": obj, "off": off, "cand": cand, "probs": probs, "master": mn}
