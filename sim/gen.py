"""Seeded generation of study specifications (see lang.py).

Numbers are small dyadic rationals, so that the reference and the code agree
exactly whatever the order of additions.  The generator stays inside the part
of the language whose meaning is not in dispute (no time evaluation inside a
shift, no nested expectations, bounds made of parameters only).
"""

DIV = [2.0, 4.0, 0.5, -2.0, 8.0]


SPECIAL = 0.0  # share of unusual numbers (very small, next to one)
ODD = [2.0**-20, -(2.0**-20), 2.0**-33, 1.0 + 2.0**-20, 1.0 - 2.0**-22, -1.0 - 2.0**-20, 2.0**-10, 1.0, -1.0]


def q(rng, lo=-6, hi=6):
    if SPECIAL and rng.random() < SPECIAL:
        return rng.choice(ODD)
    return rng.randint(lo * 4, hi * 4) / 4.0


def nz(rng):
    v = 0.0
    while v == 0.0:
        v = q(rng)
    return v


class ModelGen:
    def __init__(self, rng, mid, text=False, rich=True, invest=False, small=False, hazards=False):
        self.rng = rng
        self.mid = mid
        self.text = text
        self.rich = rich
        self.invest = invest
        self.small = small
        self.hazards = hazards
        self.m = {
            "id": mid,
            "params": [],
            "vars": [],
            "ports": [],
            "defs": [],
            "cons": [],
            "obj_op": None,
            "obj_inv": None,
        }

    # ------ pieces
    def params(self, n):
        rng = self.rng
        for i in range(n):
            self.m["params"].append(
                {
                    "n": f"p{i}",
                    "t": rng.random() < 0.5,
                    "s": rng.random() < 0.4,
                    "type": "float",
                }
            )
        if rng.random() < 0.4:
            self.m["params"].append({"n": "dly", "t": False, "s": False, "type": "int"})
        if rng.random() < 0.25:  # a divisor
            self.m["params"].append({"n": "dv", "t": rng.random() < 0.5, "s": rng.random() < 0.4, "type": "float"})

    def pexpr(self, depth, t=True, s=True):
        """parameter-only arithmetic; t/s: may depend on time/scenario"""
        rng = self.rng
        ps = [
            p
            for p in self.m["params"]
            if p["n"] != "dly" and (t or not p["t"]) and (s or not p["s"])
        ]
        if depth <= 0 or rng.random() < 0.5:
            if ps and rng.random() < 0.75:
                return ["par", rng.choice(ps)["n"]]
            return ["lit", q(rng)]
        k = rng.choice(["neg", "add", "sub", "mul", "div"])
        if k == "neg":
            return ["neg", self.pexpr(depth - 1, t, s)]
        if k == "div":
            return ["div", self.pexpr(depth - 1, t, s), self.divisor(t, s)]
        return [k, self.pexpr(depth - 1, t, s), self.pexpr(depth - 1, t, s)]

    def divisor(self, t=True, s=True):
        rng = self.rng
        for p in self.m["params"]:
            if p["n"] == "dv" and (t or not p["t"]) and (s or not p["s"]) and rng.random() < 0.6:
                return ["par", "dv"]
        return ["lit", rng.choice(DIV)]

    def has_delay(self):
        return any(p["n"] == "dly" for p in self.m["params"])

    def variables(self, n):
        rng = self.rng
        for i in range(n):
            ty = "float"
            if rng.random() < 0.15:
                ty = "int"
            if not self.text and rng.random() < 0.08:
                ty = "bool"
            ctx = "oper"
            if self.invest:
                ctx = rng.choice(["oper", "oper", "inv", "coup"])
            t = rng.random() < 0.75
            s = rng.random() < 0.7
            if ctx != "oper":
                t = s = False
            lb = ub = None
            if ty != "bool":
                r = rng.random()
                if r < 0.55:
                    lb = ["lit", 0.0]
                elif r < 0.8:
                    lb = ["sub", ["lit", -40.0], self.pexpr(1, t, s)]
                r = rng.random()
                if r < 0.4:
                    ub = ["lit", float(rng.randint(1, 40))]
                elif r < 0.75:
                    ub = ["add", ["lit", 80.0], self.pexpr(1, t, s)]
            if self.hazards and ty != "bool" and rng.random() < 0.04:
                # bounds that cross for some data
                lb, ub = rng.choice([(["lit", 0.0], self.pexpr(1, t, s)), (self.pexpr(1, t, s), ["lit", 1.0])])
            self.m["vars"].append(
                {
                    "n": f"x{i}",
                    "type": ty,
                    "lb": lb,
                    "ub": ub,
                    "t": t,
                    "s": s,
                    "ctx": ctx,
                }
            )

    def shift_amount(self):
        rng = self.rng
        if self.hazards and rng.random() < 0.03:
            # not a constant whole number
            ps = [p for p in self.m["params"] if p["t"] or p["s"]]
            if ps or not self.text:
                return ["par", rng.choice(ps)["n"]] if ps else ["lit", 1.5]
        if rng.random() < 0.25 and self.has_delay():
            return rng.choice(
                [["par", "dly"], ["neg", ["par", "dly"]], ["sub", ["par", "dly"], ["lit", 1.0]], ["sub", ["lit", 1.0], ["par", "dly"]]]
            )
        return ["lit", float(rng.choice([-3, -2, -1, 1, 2, 3]))]

    def leaf(self, ctxs):
        rng = self.rng
        vs = [v for v in self.m["vars"] if v["ctx"] in ctxs]
        if vs and rng.random() < 0.75:
            return ["var", rng.choice(vs)["n"]]
        return self.pexpr(1)

    def lexpr(self, depth, ctxs, ports=True, time="any", expec=True):
        """linear expression.  time: "any" | "noeval" (inside a shift or a sum)
        | "none" (no time operator) | "evalonly" (inside a sum over all steps)"""
        rng = self.rng
        if depth <= 0:
            return self.leaf(ctxs)
        ks = ["add", "sub", "mul", "neg", "div", "leaf", "leaf", "add", "sub"]
        if time in ("any", "noeval"):
            ks += ["shift", "tsum"]
        if time in ("any", "evalonly"):
            ks += ["eval", "tsumall"]
        if expec:
            ks += ["expec"]
        if ports and self.m["ports"]:
            ks += ["port", "port"]
        k = rng.choice(ks)
        d = depth - 1
        if k == "leaf":
            return self.leaf(ctxs)
        if k in ("add", "sub"):
            return [
                k,
                self.lexpr(d, ctxs, ports, time, expec),
                self.lexpr(d, ctxs, ports, time, expec),
            ]
        if k == "mul":
            a = self.pexpr(1)
            b = self.lexpr(d, ctxs, ports, time, expec)
            return ["mul", a, b] if rng.random() < 0.5 else ["mul", b, a]
        if k == "neg":
            return ["neg", self.lexpr(d, ctxs, ports, time, expec)]
        if k == "div":
            return [
                "div",
                self.lexpr(d, ctxs, ports, time, expec),
                self.divisor(),
            ]
        if k == "shift":
            if self.text:
                e = self.leaf(ctxs)
                if e[0] not in ("var", "par"):
                    return e
            else:
                e = self.lexpr(d, ctxs, ports, "noeval", expec)
            return ["shift", e, self.shift_amount()]
        if k == "tsum":
            a = rng.randint(-2, 1)
            b = a + rng.randint(0, 2)
            if self.has_delay() and rng.random() < 0.3:
                lo, hi = rng.choice(
                    [
                        (["sub", ["lit", 1.0], ["par", "dly"]], ["lit", 0.0]),
                        (["neg", ["par", "dly"]], ["lit", float(rng.randint(0, 1))]),
                        (["lit", float(rng.randint(-1, 0))], ["par", "dly"]),
                    ]
                )
                return ["tsum", self.lexpr(d, ctxs, ports, "noeval", expec), lo, hi]
            return [
                "tsum",
                self.lexpr(d, ctxs, ports, "noeval", expec),
                ["lit", float(a)],
                ["lit", float(b)],
            ]
        if k == "eval":
            if self.text:
                e = self.leaf(ctxs)
                if e[0] not in ("var", "par"):
                    return e
            else:
                e = self.lexpr(d, ctxs, ports, "noeval", expec)
            if self.has_delay() and rng.random() < 0.3:
                return ["eval", e, ["par", "dly"]]
            return ["eval", e, ["lit", float(rng.randint(0, 3))]]
        if k == "tsumall":
            return ["tsumall", self.lexpr(d, ctxs, ports, "evalonly" if rng.random() < 0.3 else "noeval", expec)]
        if k == "expec":
            return ["expec", self.lexpr(d, ctxs, ports, time, False)]
        if k == "port":
            p = rng.choice(self.m["ports"])
            f = rng.choice(p["_fields"])
            return ["sumc" if rng.random() < 0.85 else "pf", p["n"], f]
        raise AssertionError(k)

    def port(self, name, ptype, defined):
        self.m["ports"].append(
            {"n": name, "type": ptype["id"], "_fields": list(ptype["fields"])}
        )
        for f in ptype["fields"]:
            if f in defined:
                self.m["defs"].append(
                    {
                        "port": name,
                        "field": f,
                        "e": self.lexpr(
                            1 if self.small else 2,
                            ("oper", "coup"),
                            ports=False,
                            time="noeval",
                            expec=False,
                        ),
                    }
                )

    def constraint(self, n, ctx="oper", must_port=None):
        rng = self.rng
        ctxs = {"oper": ("oper", "coup"), "inv": ("inv", "coup"), "coup": ("coup",)}[
            ctx
        ]
        ports = ctx == "oper"
        if ctx != "oper":
            e = ["mul", ["lit", nz(rng)], self.leaf_var(ctxs)]
            if rng.random() < 0.6:
                e = ["add", e, self.leaf_var(ctxs)]
            c = {"n": n, "e": e, "lb": None, "ub": None, "ctx": ctx}
            c["ub"] = ["lit", float(rng.randint(1, 60))]
            self.m["cons"].append(c)
            return
        depth = rng.choice([1, 2, 2, 3]) if not self.small else rng.choice([1, 2])
        e = self.lexpr(depth, ctxs, ports=ports)
        if must_port:
            e = ["add", e, ["sumc", *must_port]]
        if rng.random() < 0.5:
            e = [
                "cmp",
                rng.choice(["=", "<=", ">="]),
                e,
                self.lexpr(1, ctxs, ports=ports),
            ]
            c = {"n": n, "e": e, "lb": None, "ub": None, "ctx": ctx}
        else:
            c = {"n": n, "e": e, "lb": None, "ub": None, "ctx": ctx}
            r = rng.random()
            if r < 0.7:
                c["ub"] = self.pexpr(1)
            if r > 0.4:
                c["lb"] = ["sub", self.pexpr(1), ["lit", 100.0]]
        if must_port or rng.random() < 0.2:
            c["binding"] = True
        self.m["cons"].append(c)

    def leaf_var(self, ctxs):
        vs = [v for v in self.m["vars"] if v["ctx"] in ctxs]
        if not vs:
            return ["lit", 1.0]
        return ["var", self.rng.choice(vs)["n"]]

    def objective(self):
        rng = self.rng
        ctxs = ("oper", "coup")
        inner = self.lexpr(1 if self.small else 2, ctxs, False, "noeval", False)
        inner = ["add", inner, ["mul", ["lit", nz(rng)], self.leaf_var(ctxs)]]
        r = rng.random()
        if r < 0.6:
            self.m["obj_op"] = ["expec", ["tsumall", inner]]
        elif r < 0.85:
            self.m["obj_op"] = ["tsumall", ["expec", inner]]
        else:
            cv = [
                v
                for v in self.m["vars"]
                if v["ctx"] in ctxs and not v["t"] and not v["s"]
            ]
            if cv:
                self.m["obj_op"] = [
                    "mul",
                    self.pexpr(1, False, False),
                    ["var", rng.choice(cv)["n"]],
                ]
        if self.invest and rng.random() < 0.8:
            cv = [v for v in self.m["vars"] if v["ctx"] in ("inv", "coup")]
            if cv:
                self.m["obj_inv"] = [
                    "mul",
                    self.pexpr(1, False, False),
                    ["var", rng.choice(cv)["n"]],
                ]


def _div(rng):
    return rng.choice(DIV)


_any = q


def gen_data(rng, p, T_abs, S, tree_nodes=(), scen=True, hazard=0.0):
    """data for one parameter: dense over absolute steps 0..T_abs-1, scenarios 0..S-1"""
    if p["n"] == "dly":
        if hazard and rng.random() < hazard:
            return ["const", rng.choice([0.5, 1.5, 1.004, 1 - 2.0**-20, -0.25])]
        return ["const", float(rng.randint(0, 2))]
    if p["n"] == "dv":
        q = _div
    else:
        q = _any
    kinds = ["const"]
    if p["t"]:
        kinds += ["ts", "ts"]
    if p["s"]:
        kinds += ["ss", "ss"]
    if p["t"] and p["s"]:
        kinds += ["tss"] * 4
    k = rng.choice(kinds)
    if tree_nodes and rng.random() < 0.4:
        return [
            "tree",
            {n: gen_data(rng, p, T_abs, S, (), scen) for n in tree_nodes},
        ]
    if k == "const":
        return ["const", q(rng)]
    if k == "ts":
        return ["ts", {str(t): q(rng) for t in range(T_abs)}]
    scz = None
    nsc = S
    if scen and rng.random() < 0.3:
        nsc = rng.randint(1, S + 1)
        scz = {str(y): rng.randrange(nsc) for y in range(S)}
    if k == "ss":
        return ["ss", {str(s): q(rng) for s in range(nsc)}, scz]
    return ["tss", [[q(rng) for _ in range(nsc)] for _ in range(T_abs)], scz]


def gen_study(
    rng,
    text=False,
    invest=False,
    small=False,
    tree_nodes=(),
    scenarization=True,
    max_comps=3,
    hazards=False,
):
    """a complete study spec"""
    fields = ["fl", "gh"]
    pts = []
    for i in range(rng.randint(1, 2)):
        pts.append({"id": f"pt{i}", "fields": fields[: rng.randint(1, 2)]})
    models = {}
    nm = rng.randint(2, 3 if small else 4)
    for i in range(nm):
        g = ModelGen(rng, f"m{i}", text=text, invest=invest, small=small, hazards=hazards)
        g.params(rng.randint(0, 3))
        g.variables(rng.randint(1, 2 if small else 3))
        receiver = i % 2 == 0
        for pt in pts:
            if rng.random() < 0.75:
                if receiver:
                    g.port(f"pr_{pt['id']}", pt, [])
                else:
                    g.port(f"pd_{pt['id']}", pt, pt["fields"])
        if receiver and rng.random() < 0.2 and len(pts[0]["fields"]) == 2:
            # a mixed port: defines one of the two fields
            g.port("pmx", pts[0], [pts[0]["fields"][i // 2 % 2]])
        rec_ports = [
            (p["n"], f)
            for p in g.m["ports"]
            if p["n"].startswith("pr_")
            for f in p["_fields"]
        ]
        # only undefined fields are read through sum_connections here
        keep_ports = g.m["ports"]
        g.m["ports"] = [p for p in keep_ports if p["n"].startswith("pr_")]
        for j in range(rng.randint(1, 2 if small else 3)):
            g.constraint(f"c{j}", must_port=rng.choice(rec_ports) if rec_ports and j == 0 else None)
        if invest and rng.random() < 0.7:
            g.constraint("ci", rng.choice(["inv", "coup"]))
        if rng.random() < 0.8:
            g.objective()
        g.m["ports"] = keep_ports
        models[g.mid] = g.m
    net = {"id": "net", "nodes": [], "comps": [], "cnx": []}
    nn = rng.randint(1, 2)
    rec = [k for i, k in enumerate(models) if i % 2 == 0]
    dfn = [k for i, k in enumerate(models) if i % 2 == 1]
    for i in range(nn):
        net["nodes"].append([f"N{i}", rng.choice(rec)])
    for i in range(rng.randint(1, max_comps)):
        net["comps"].append([f"C{i}", rng.choice(dfn if rng.random() < 0.75 else rec)])
    mk = {c: m for c, m in net["nodes"] + net["comps"]}

    def ports(c):
        m = models[mk[c]]
        r = []
        for p in m["ports"]:
            d = {x["field"] for x in m["defs"] if x["port"] == p["n"]}
            r.append((p["n"], p["type"], frozenset(p["_fields"]), frozenset(d)))
        return r

    cs = list(mk)
    for c1 in cs:
        for c2 in cs:
            if c1 == c2:
                continue
            for n1, t1, f1, d1 in ports(c1):
                for n2, t2, f2, d2 in ports(c2):
                    if t1 == t2 and d1 | d2 == f1 and not (d1 & d2):
                        if rng.random() < 0.45:
                            net["cnx"].append([c1, n1, c2, n2])
    rng.shuffle(net["cnx"])
    for m in models.values():
        for p in m["ports"]:
            p.pop("_fields", None)
    T = rng.choice([1, 2, 2, 3, 3, 4])
    off = rng.choice([0, 0, 1, 3])
    S = rng.choice([1, 2, 2, 3, 4])
    if rng.random() < 0.04:  # more steps or scenarios than one digit counts
        off = 0
        T, S = rng.choice([(11, 1), (12, 1), (1, 11), (1, 12)])
    T_abs = off + T + 1
    data = {}
    for c, m in mk.items():
        for p in models[m]["params"]:
            data[f"{c}|{p['n']}"] = gen_data(
                rng, p, T_abs, S, tree_nodes, scenarization
            )
    ts = list(range(off, off + T))
    if not small and rng.random() < 0.2:
        rng.shuffle(ts)
    return {
        "port_types": pts,
        "models": models,
        "net": net,
        "data": data,
        "b": {"timesteps": ts, "scenarios": S},
        "T_abs": T_abs,
        "S": S,
    }
