"""JSON-able study specifications, with three interpretations of them:

 * `to_*`      : the real objects of /repo, through its public Python API;
 * `yaml_*`    : the text files a user would write (libraries, system, series);
 * `RefStudy`  : an independent reference interpreter of the modelling language,
                 which gives the linear problem that the language prescribes.

Expressions are nested lists:
  ["lit",v] ["var",n] ["par",n] ["pf",port,field] ["sumc",port,field]
  ["neg",a] ["add",a,b] ["sub",a,b] ["mul",a,b] ["div",a,b]
  ["shift",a,k] ["eval",a,k] ["tsum",a,k1,k2] ["tsumall",a] ["expec",a]
  ["cmp",op,a,b]   (k: constant expressions)
"""
import math

INF = float("inf")


class Refused(Exception):
    """The language does not give this input a problem: the build must raise."""


# --------------------------------------------------------------------------
# reference interpreter
# --------------------------------------------------------------------------
def _merge(a, b, f=1.0):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0.0) + f * v
    return r


def _there(v):
    if v is None:
        raise Refused("no value")
    return v


class RefStudy:
    """models: {id: mspec}; net: {"nodes":[[id,model]],"comps":[...],"cnx":[...]};
    data: {"comp|param": dspec}"""

    def __init__(self, models, net, data):
        self.models = models
        self.net = net
        self.data = data
        self.comp_model = {}
        for c, m in list(net["nodes"]) + list(net["comps"]):
            self.comp_model[c] = models[m]
        self.params = {
            c: {p["n"]: p for p in m["params"]} for c, m in self.comp_model.items()
        }
        self.vars = {
            c: {v["n"]: v for v in m["vars"]} for c, m in self.comp_model.items()
        }
        self.defs = {}
        for c1, p1, c2, p2 in net["cnx"]:
            m1 = self.comp_model[c1]
            for d_c, d_p, m in ((c1, p1, m1), (c2, p2, self.comp_model[c2])):
                for d in m["defs"]:
                    if d["port"] == d_p:
                        # this side defines the field: visible from both ends
                        for c, p in ((c1, p1), (c2, p2)):
                            self.defs.setdefault((c, p, d["field"]), []).append(
                                (d_c, d["e"])
                            )

    # ---- data -----------------------------------------------------------
    @staticmethod
    def data_value(d, t, s, node):
        kind = d[0]
        if kind == "const":
            return d[1]
        if kind == "ts":
            if t is None or str(t) not in d[1]:
                raise Refused("no time value")
            return _there(d[1][str(t)])
        if kind == "ss":
            if s is None:
                raise Refused("no scenario")
            if d[2] is not None:
                if str(s) not in d[2]:
                    raise Refused("no scenarization")
                s = d[2][str(s)]
            if str(s) not in d[1]:
                raise Refused("no scenario value")
            return _there(d[1][str(s)])
        if kind == "tss":
            if t is None or s is None:
                raise Refused("no index")
            if d[2] is not None:
                if str(s) not in d[2]:
                    raise Refused("no scenarization")
                s = d[2][str(s)]
            if s is None or t < 0 or s < 0 or t >= len(d[1]) or s >= len(d[1][t]):
                raise Refused("out of table")
            return _there(d[1][t][s])
        if kind == "tree":
            if node not in d[1]:
                raise Refused("no node data")
            return RefStudy.data_value(d[1][node], t, s, node)
        raise AssertionError(kind)

    @staticmethod
    def data_ok(d, time, scen):
        kind = d[0]
        if kind == "const":
            return True
        if kind == "ts":
            return time
        if kind == "ss":
            return scen
        if kind == "tss":
            return time and scen
        return all(RefStudy.data_ok(x, time, scen) for x in d[1].values())

    def pval(self, b, comp, name, t, s):
        d = self.data.get(f"{comp}|{name}")
        if d is None:
            raise Refused(f"no data {comp}.{name}")
        T = len(b["timesteps"])
        at = None if t is None else b["timesteps"][t % T]
        return self.data_value(d, at, s, b.get("node", ""))

    # ---- expressions ----------------------------------------------------
    def structure(self, comp, e):
        k = e[0]
        if k == "lit":
            return (False, False)
        if k == "var":
            v = self.vars[comp][e[1]]
            return (v["t"], v["s"])
        if k == "par":
            p = self.params[comp][e[1]]
            return (p["t"], p["s"])
        if k in ("pf", "sumc"):
            t = s = False
            for c, d in self.defs.get((comp, e[1], e[2]), []):
                a, b_ = self.structure(c, d)
                t, s = t or a, s or b_
            return (t, s)
        if k in ("neg", "shift", "tsum"):
            return self.structure(comp, e[1])
        if k in ("eval", "tsumall"):
            return (False, self.structure(comp, e[1])[1])
        if k == "expec":
            return (self.structure(comp, e[1])[0], False)
        ops = e[2:] if k == "cmp" else e[1:]
        t = s = False
        for o in ops:
            a, b_ = self.structure(comp, o)
            t, s = t or a, s or b_
        return (t, s)

    def const_int(self, b, comp, e):
        if not self.const(comp, e):
            raise Refused("time that is not constant")
        v = self.cval(b, comp, e, None, None)
        if v != int(v):
            raise Refused("non integer time")
        return int(v)

    def const(self, comp, e):
        if e[0] == "par":
            p = self.params[comp][e[1]]
            return not (p["t"] or p["s"])
        return e[0] == "lit" or all(self.const(comp, x) for x in e[1:])

    def times(self, b, comp, e):
        """what is asked of an expression wherever it occurs: amounts of the time operators are
        constant whole numbers, ports read by name are connected"""
        if e[0] in ("lit", "var", "par"):
            return
        if e[0] in ("pf", "sumc"):
            ds = self.defs.get((comp, e[1], e[2]), [])
            if e[0] == "pf" and len(ds) != 1:
                # also within a sum over no step at all
                raise Refused("port field needs exactly one connection")
            for c, d in ds:
                self.times(b, c, d)
            return
        for x in e[1:2] if e[0] in ("shift", "eval", "tsum") else e[1:]:
            self.times(b, comp, x)
        for x in e[2:] if e[0] in ("shift", "eval", "tsum") else []:
            self.const_int(b, comp, x)

    def cval(self, b, comp, e, t, s):
        """value of a variable-free arithmetic expression"""
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "par":
            return self.pval(b, comp, e[1], t, s)
        if k == "neg":
            return -self.cval(b, comp, e[1], t, s)
        if k in ("add", "sub", "mul", "div"):
            x = self.cval(b, comp, e[1], t, s)
            y = self.cval(b, comp, e[2], t, s)
            if k == "add":
                return x + y
            if k == "sub":
                return x - y
            if k == "mul":
                return x * y
            if y == 0:
                raise Refused("division by zero")
            return x / y
        raise Refused(k)

    def lin(self, b, comp, e, t, s):
        """(terms, constant) of e for component comp at block step t, scenario s"""
        k = e[0]
        if k == "lit":
            return {}, float(e[1])
        if k == "var":
            v = self.vars[comp].get(e[1])
            if v is None or not keep(b, v["ctx"]):
                raise Refused("variable not in problem")
            if v["t"] and t is None:
                raise Refused("no time for variable")
            if v["s"] and s is None:
                raise Refused("no scenario for variable")
            T = len(b["timesteps"])
            key = (comp, e[1], t % T if v["t"] else None, s if v["s"] else None)
            return {key: 1.0}, 0.0
        if k == "par":
            p = self.params[comp][e[1]]
            if p["t"] and t is None:
                raise Refused("no time for parameter")
            return {}, self.pval(
                b, comp, e[1], t if p["t"] else None, s if p["s"] else None
            )
        if k in ("pf", "sumc"):
            ds = self.defs.get((comp, e[1], e[2]), [])
            if k == "pf" and len(ds) != 1:
                raise Refused("port field needs exactly one connection")
            terms, c = {}, 0.0
            for dc, de in ds:
                a, ac = self.lin(b, dc, de, t, s)
                terms = _merge(terms, a)
                c += ac
            return terms, c
        if k == "neg":
            a, c = self.lin(b, comp, e[1], t, s)
            return {x: -v for x, v in a.items()}, -c
        if k in ("add", "sub"):
            f = 1.0 if k == "add" else -1.0
            terms, c = self.lin(b, comp, e[1], t, s)
            for o in e[2:]:
                a, ac = self.lin(b, comp, o, t, s)
                terms = _merge(terms, a, f)
                c += f * ac
            return terms, c
        if k == "mul":
            a, ac = self.lin(b, comp, e[1], t, s)
            x, xc = self.lin(b, comp, e[2], t, s)
            if a and x:
                raise Refused("not linear")
            if a:
                a, ac, x, xc = x, xc, a, ac
            return {n: v * ac for n, v in x.items()}, xc * ac
        if k == "div":
            a, ac = self.lin(b, comp, e[1], t, s)
            x, xc = self.lin(b, comp, e[2], t, s)
            if x:
                raise Refused("not linear")
            if xc == 0:
                raise Refused("division by zero")
            return {n: v / xc for n, v in a.items()}, ac / xc
        if k == "shift":
            n = self.const_int(b, comp, e[2])
            return self.lin(b, comp, e[1], None if t is None else t + n, s)
        if k == "eval":
            return self.lin(b, comp, e[1], self.const_int(b, comp, e[2]), s)
        if k == "tsum":
            n1, n2 = self.const_int(b, comp, e[2]), self.const_int(b, comp, e[3])
            terms, c = {}, 0.0
            for n in range(n1, n2 + 1):
                a, ac = self.lin(b, comp, e[1], None if t is None else t + n, s)
                terms = _merge(terms, a)
                c += ac
            return terms, c
        if k == "tsumall":
            terms, c = {}, 0.0
            for n in range(len(b["timesteps"])):
                a, ac = self.lin(b, comp, e[1], n, s)
                terms = _merge(terms, a)
                c += ac
            return terms, c
        if k == "expec":
            S = b["scenarios"]
            if S == 0:
                raise Refused("no scenario")
            terms, c = {}, 0.0
            for n in range(S):
                a, ac = self.lin(b, comp, e[1], t, n)
                terms = _merge(terms, a)
                c += ac
            return {x: v / S for x, v in terms.items()}, c / S
        raise AssertionError(k)

    # ---- problem --------------------------------------------------------
    def var_name(self, b, key):
        comp, v, t, s = key
        full = b.get("full", True)
        node = b.get("node", "")
        r = v
        if full and comp:
            r = f"{comp}_{r}"
        if full and node:
            r = f"{node}_{r}"
        if t is not None and len(b["timesteps"]) > 1:
            r += f"_t{t}"
        if s is not None and b["scenarios"] > 1:
            r += f"_s{s}"
        return r

    def problem(self, b):
        """b: {"timesteps","scenarios","strategy","prob","node","full"}.
        Returns {"vars":{name:[lb,ub,isint]},"rows":[[{name:coef},lb,ub]],
                 "obj":{name:coef},"off":x} or raises Refused."""
        for c, mid in self.net["comps"]:
            for p in self.comp_model[c]["params"]:
                d = self.data.get(f"{c}|{p['n']}")
                if d is None:
                    raise Refused("missing data")
                if not self.data_ok(d, p["t"], p["s"]):
                    raise Refused("inconsistent data")
        T, S = len(b["timesteps"]), b["scenarios"]
        order = [c for c, _ in self.net["nodes"]] + [c for c, _ in self.net["comps"]]
        vars_, rows, obj, off = {}, [], {}, 0.0
        for c in order:
            for v in self.comp_model[c]["vars"]:
                if not keep(b, v["ctx"]):
                    continue
                for t in range(T) if v["t"] else [None]:
                    for s in range(S) if v["s"] else [None]:
                        lb = (
                            -INF
                            if v["lb"] is None
                            else self.cval(b, c, v["lb"], t, s)
                        )
                        ub = (
                            INF if v["ub"] is None else self.cval(b, c, v["ub"], t, s)
                        )
                        if lb > ub:
                            raise Refused("lb > ub")
                        if v["type"] == "bool":
                            lb, ub = 0.0, 1.0
                        vars_[self.var_name(b, (c, v["n"], t, s))] = [
                            float(lb),
                            float(ub),
                            v["type"] != "float",
                        ]
        for c in order:
            m = self.comp_model[c]
            for k in [x for x in m["cons"] if x.get("binding")] + [
                x for x in m["cons"] if not x.get("binding")
            ]:
                if not keep(b, k["ctx"]):
                    continue
                e, lbe, ube = k["e"], k.get("lb"), k.get("ub")
                if e[0] == "cmp":
                    lbe = ["lit", 0.0] if e[1] in ("=", ">=") else None
                    ube = ["lit", 0.0] if e[1] in ("=", "<=") else None
                    e = ["sub", e[2], e[3]]
                self.times(b, c, e)
                st = self.structure(c, e)
                for x in (lbe, ube):
                    if x is not None:
                        u = self.structure(c, x)
                        st = (st[0] or u[0], st[1] or u[1])
                for t in range(T) if st[0] else range(1):
                    for s in range(S) if st[1] else range(1):
                        terms, k0 = self.lin(b, c, e, t, s)
                        lb = -INF if lbe is None else self.cval(b, c, lbe, t, s)
                        ub = INF if ube is None else self.cval(b, c, ube, t, s)
                        rows.append(
                            [
                                {self.var_name(b, x): v for x, v in terms.items()},
                                lb - k0,
                                ub - k0,
                            ]
                        )
        strat = b.get("strategy", "merged")
        prob = b.get("prob")
        for c in order:
            m = self.comp_model[c]
            objs = []
            if strat in ("merged", "oper"):
                objs.append(m.get("obj_op"))
            if strat in ("merged", "invest"):
                objs.append(m.get("obj_inv"))
            for e in objs:
                if e is None:
                    continue
                self.times(b, c, e)
                terms, k0 = self.lin(b, c, e, None, None)
                f = 1.0 if prob is None else prob
                for x, v in terms.items():
                    n = self.var_name(b, x)
                    obj[n] = obj.get(n, 0.0) + f * v
                off += f * k0
        return {"vars": vars_, "rows": rows, "obj": obj, "off": off}


def keep(b, ctx):
    st = b.get("strategy", "merged")
    if st == "merged":
        return True
    if st == "invest":
        return ctx in ("inv", "coup")
    return ctx in ("oper", "coup")


# --------------------------------------------------------------------------
# real objects, through the public API
# --------------------------------------------------------------------------
MEMO = None  # when a dict: equal sub-expressions become one shared node object


def to_expr(e):
    if MEMO is not None:
        k = repr(e)
        if k not in MEMO:
            MEMO[k] = _to_expr(e)
        return MEMO[k]
    return _to_expr(e)


def _to_expr(e):
    from andromede.expression.expression import (
        Comparator,
        ComparisonNode,
        literal,
        param,
        port_field,
        var,
    )

    k = e[0]
    if k == "lit":
        return literal(e[1])
    if k == "var":
        return var(e[1])
    if k == "par":
        return param(e[1])
    if k == "pf":
        return port_field(e[1], e[2])
    if k == "sumc":
        return port_field(e[1], e[2]).sum_connections()
    if k == "neg":
        return -to_expr(e[1])
    if k == "add":
        r = to_expr(e[1])
        for o in e[2:]:
            r = r + to_expr(o)
        return r
    if k == "sub":
        return to_expr(e[1]) - to_expr(e[2])
    if k == "mul":
        return to_expr(e[1]) * to_expr(e[2])
    if k == "div":
        return to_expr(e[1]) / to_expr(e[2])
    if k == "shift":
        return to_expr(e[1]).shift(to_expr(e[2]))
    if k == "eval":
        return to_expr(e[1]).eval(to_expr(e[2]))
    if k == "tsum":
        return to_expr(e[1]).time_sum(to_expr(e[2]), to_expr(e[3]))
    if k == "tsumall":
        return to_expr(e[1]).time_sum()
    if k == "expec":
        return to_expr(e[1]).expec()
    if k == "cmp":
        c = {
            "=": Comparator.EQUAL,
            "<=": Comparator.LESS_THAN,
            ">=": Comparator.GREATER_THAN,
        }[e[1]]
        return ComparisonNode(to_expr(e[2]), to_expr(e[3]), c)
    raise AssertionError(k)


def _ctx(c):
    from andromede.model.common import ProblemContext

    return {
        "oper": ProblemContext.OPERATIONAL,
        "inv": ProblemContext.INVESTMENT,
        "coup": ProblemContext.COUPLING,
    }[c]


def to_port_types(pts):
    from andromede.model.port import PortField, PortType

    return {
        p["id"]: PortType(id=p["id"], fields=[PortField(f) for f in p["fields"]])
        for p in pts
    }


def to_variable(v):
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model.variable import bool_var, float_variable, int_variable

    st = IndexingStructure(v["t"], v["s"])
    lb = None if v["lb"] is None else to_expr(v["lb"])
    ub = None if v["ub"] is None else to_expr(v["ub"])
    if v["type"] == "bool":
        return bool_var(v["n"], structure=st, context=_ctx(v["ctx"]))
    f = int_variable if v["type"] == "int" else float_variable
    return f(v["n"], lb, ub, st, _ctx(v["ctx"]))


def to_parameter(p):
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.model.parameter import float_parameter, int_parameter

    f = int_parameter if p.get("type") == "int" else float_parameter
    return f(p["n"], IndexingStructure(p["t"], p["s"]))


def to_constraint(c):
    from andromede.model.constraint import Constraint

    kw = {}
    if c.get("lb") is not None:
        kw["lower_bound"] = to_expr(c["lb"])
    if c.get("ub") is not None:
        kw["upper_bound"] = to_expr(c["ub"])
    return Constraint(c["n"], to_expr(c["e"]), context=_ctx(c["ctx"]), **kw)


def to_model(m, port_types):
    from andromede.model.model import ModelPort, model
    from andromede.model.port import PortFieldDefinition, PortFieldId

    return model(
        id=m["id"],
        parameters=[to_parameter(p) for p in m["params"]],
        variables=[to_variable(v) for v in m["vars"]],
        constraints=[to_constraint(c) for c in m["cons"] if not c.get("binding")],
        binding_constraints=[to_constraint(c) for c in m["cons"] if c.get("binding")],
        ports=[
            ModelPort(port_type=port_types[p["type"]], port_name=p["n"])
            for p in m["ports"]
        ],
        port_fields_definitions=[
            PortFieldDefinition(
                port_field=PortFieldId(d["port"], d["field"]),
                definition=to_expr(d["e"]),
            )
            for d in m["defs"]
        ],
        objective_operational_contribution=None
        if m.get("obj_op") is None
        else to_expr(m["obj_op"]),
        objective_investment_contribution=None
        if m.get("obj_inv") is None
        else to_expr(m["obj_inv"]),
    )


def to_network(net, models):
    from andromede.study.network import (
        Network,
        PortRef,
        create_component,
        create_node,
    )

    n = Network(net.get("id", "net"))
    by_id = {}
    for c, m in net["nodes"]:
        by_id[c] = create_node(model=models[m], id=c)
        n.add_node(by_id[c])
    for c, m in net["comps"]:
        by_id[c] = create_component(model=models[m], id=c)
        n.add_component(by_id[c])
    for c1, p1, c2, p2 in net["cnx"]:
        n.connect(PortRef(by_id[c1], p1), PortRef(by_id[c2], p2))
    return n


def to_data(d):
    import pandas as pd

    from andromede.study.data import (
        ConstantData,
        ScenarioIndex,
        ScenarioSeriesData,
        Scenarization,
        TimeIndex,
        TimeScenarioSeriesData,
        TimeSeriesData,
        TreeData,
    )

    k = d[0]
    if k == "const":
        return ConstantData(d[1])
    if k == "ts":
        return TimeSeriesData({TimeIndex(int(t)): v for t, v in d[1].items()})

    def scz(x):
        return None if x is None else Scenarization({int(a): b for a, b in x.items()})

    if k == "ss":
        return ScenarioSeriesData(
            {ScenarioIndex(int(s)): v for s, v in d[1].items()}, scz(d[2])
        )
    if k == "tss":
        return TimeScenarioSeriesData(pd.DataFrame(d[1]), scz(d[2]))
    if k == "tree":
        return TreeData({n: to_data(x) for n, x in d[1].items()})
    raise AssertionError(k)


def to_database(data):
    from andromede.study.data import DataBase

    db = DataBase()
    for k, d in data.items():
        c, p = k.split("|")
        db.add_data(c, p, to_data(d))
    return db


def to_block(b):
    from andromede.simulation.time_block import TimeBlock

    return TimeBlock(b.get("block_id", 1), list(b["timesteps"]))


def build(network, database, b, name="optimization_problem", solver_id="GLOP"):
    from andromede.simulation.optimization import build_problem
    from andromede.simulation.strategy import (
        ExpectedValue,
        InvestmentProblemStrategy,
        MergedProblemStrategy,
        OperationalProblemStrategy,
    )

    kw = {}
    st = b.get("strategy", "merged")
    if st != "merged" or b.get("explicit"):
        kw["build_strategy"] = {
            "merged": MergedProblemStrategy,
            "invest": InvestmentProblemStrategy,
            "oper": OperationalProblemStrategy,
        }[st]()
    if b.get("prob") is not None:
        kw["risk_strategy"] = ExpectedValue(b["prob"])
    if b.get("node"):
        kw["decision_tree_node"] = b["node"]
    if "full" in b:
        kw["use_full_var_name"] = b["full"]
    return build_problem(
        network,
        database,
        to_block(b),
        b["scenarios"],
        problem_name=name,
        solver_id=solver_id,
        **kw,
    )


class RealStudy:
    """models, network and database of a spec, as real objects"""

    def __init__(self, spec):
        self.port_types = to_port_types(spec["port_types"])
        self.models = {
            k: to_model(m, self.port_types) for k, m in spec["models"].items()
        }
        self.network = to_network(spec["net"], self.models)
        self.database = to_database(spec["data"])


# --------------------------------------------------------------------------
# YAML and series text
# --------------------------------------------------------------------------
def num(v):
    v = float(v)
    if v == int(v) and abs(v) < 1e15:
        return str(int(v))
    s = repr(v)
    if "e" in s:
        from decimal import Decimal

        s = format(Decimal(v), "f")
    assert "e" not in s and "inf" not in s and "nan" not in s, v
    return s


def text_expr(e):
    k = e[0]
    if k == "lit":
        return num(e[1]) if e[1] >= 0 else f"(-{num(-e[1])})"
    if k in ("var", "par"):
        return e[1]
    if k == "pf":
        return f"{e[1]}.{e[2]}"
    if k == "sumc":
        return f"sum_connections({e[1]}.{e[2]})"
    if k == "neg":
        return f"(-({text_expr(e[1])}))"
    if k in ("add", "sub", "mul", "div"):
        op = {"add": " + ", "sub": " - ", "mul": " * ", "div": " / "}[k]
        return "(" + op.join(text_expr(o) for o in e[1:]) + ")"
    if k == "shift":
        return f"{e[1][1]}[{text_shift(e[2])}]"
    if k == "eval":
        return f"{e[1][1]}[{text_expr(e[2])}]"
    if k == "tsum":
        return f"sum({text_shift(e[2])} .. {text_shift(e[3])}, {text_expr(e[1])})"
    if k == "tsumall":
        return f"sum({text_expr(e[1])})"
    if k == "expec":
        return f"expec({text_expr(e[1])})"
    if k == "cmp":
        return f"{text_expr(e[2])} {e[1]} {text_expr(e[3])}"
    raise AssertionError(k)


def text_shift(e):
    if e[0] == "lit":
        if e[1] == 0:
            return "t"
        return f"t + {num(e[1])}" if e[1] > 0 else f"t - {num(-e[1])}"
    if e[0] == "par":
        return f"t + {e[1]}"
    if e[0] == "neg" and e[1][0] == "par":
        return f"t - {e[1][1]}"
    return f"t + ({text_expr(e)})"


def _b(x):
    return "true" if x else "false"


def yaml_model(m, ind="    "):
    o = [f"{ind}- id: {m['id']}"]
    i = ind + "  "
    if m["params"]:
        o.append(f"{i}parameters:")
        for p in m["params"]:
            o += [
                f"{i}  - id: {p['n']}",
                f"{i}    time-dependent: {_b(p['t'])}",
                f"{i}    scenario-dependent: {_b(p['s'])}",
            ]
    if m["vars"]:
        o.append(f"{i}variables:")
        for v in m["vars"]:
            assert v["type"] != "bool" and v["ctx"] == "oper"
            o.append(f"{i}  - id: {v['n']}")
            if not v["t"]:
                o.append(f"{i}    time-dependent: false")
            if not v["s"]:
                o.append(f"{i}    scenario-dependent: false")
            if v["lb"] is not None:
                o.append(f"{i}    lower-bound: {_q(text_expr(v['lb']))}")
            if v["ub"] is not None:
                o.append(f"{i}    upper-bound: {_q(text_expr(v['ub']))}")
            if v["type"] == "int":
                o.append(f"{i}    variable-type: integer")
    if m["ports"]:
        o.append(f"{i}ports:")
        for p in m["ports"]:
            o += [f"{i}  - id: {p['n']}", f"{i}    type: {p['type']}"]
    if m["defs"]:
        o.append(f"{i}port-field-definitions:")
        for d in m["defs"]:
            o += [
                f"{i}  - port: {d['port']}",
                f"{i}    field: {d['field']}",
                f"{i}    definition: {_q(text_expr(d['e']))}",
            ]
    for key, sel in (
        ("binding-constraints", [c for c in m["cons"] if c.get("binding")]),
        ("constraints", [c for c in m["cons"] if not c.get("binding")]),
    ):
        if not sel:
            continue
        o.append(f"{i}{key}:")
        for c in sel:
            o += [f"{i}  - id: {c['n']}", f"{i}    expression: {_q(text_expr(c['e']))}"]
            if c.get("lb") is not None:
                o.append(f"{i}    lower-bound: {_q(text_expr(c['lb']))}")
            if c.get("ub") is not None:
                o.append(f"{i}    upper-bound: {_q(text_expr(c['ub']))}")
    if m.get("obj_op") is not None:
        o.append(f"{i}objective: {_q(text_expr(m['obj_op']))}")
    return "\n".join(o)


def _q(s):
    return '"' + s + '"'


def yaml_library(lib_id, port_types, models, deps=()):
    o = ["library:", f"  id: {lib_id}"]
    if deps:
        o.append("  dependencies:")
        o += [f"    - {d}" for d in deps]
    if port_types:
        o.append("  port-types:")
        for p in port_types:
            o += [f"    - id: {p['id']}", "      fields:"]
            o += [f"        - id: {f}" for f in p["fields"]]
    if models:
        o.append("  models:")
        o += [yaml_model(m) for m in models]
    return "\n".join(o) + "\n"


def series_text(d):
    """text file of a series data spec (dense from 0)"""
    if d[0] == "ts":
        return "".join(num(d[1][str(t)]) + "\n" for t in range(len(d[1])))
    if d[0] == "ss":
        return " ".join(num(d[1][str(s)]) for s in range(len(d[1]))) + "\n"
    if d[0] == "tss":
        return "".join(" ".join(num(x) for x in r) + "\n" for r in d[1])
    raise AssertionError(d[0])


def yaml_system(net, model_lib, data, models, series_names, groups=None):
    """model_lib: {model id: library id}; series_names: {"comp|param": file stem}"""
    o = ["system:"]
    groups = groups or {}

    def comp(c, m):
        r = [f"    - id: {c}", f"      model: {model_lib[m]}.{m}"]
        if groups.get(c):
            r.append(f"      scenario-group: {groups[c]}")
        ps = [p for p in models[m]["params"] if f"{c}|{p['n']}" in data]
        if ps:
            r.append("      parameters:")
        for p in ps:
            d = data[f"{c}|{p['n']}"]
            r.append(f"        - id: {p['n']}")
            r.append(f"          time-dependent: {_b(d[0] in ('ts', 'tss'))}")
            r.append(f"          scenario-dependent: {_b(d[0] in ('ss', 'tss'))}")
            if d[0] == "const":
                r.append(f"          value: {num(d[1])}")
            else:
                r.append(f"          value: {series_names[c + '|' + p['n']]}")
            if groups.get(f"{c}|{p['n']}"):
                r.append(f"          scenario-group: {groups[c + '|' + p['n']]}")
        return r

    if net["nodes"]:
        o.append("  nodes:")
        for c, m in net["nodes"]:
            o += comp(c, m)
    if net["comps"]:
        o.append("  components:")
        for c, m in net["comps"]:
            o += comp(c, m)
    if net["cnx"]:
        o.append("  connections:")
        for c1, p1, c2, p2 in net["cnx"]:
            o += [
                f"    - component1: {c1}",
                f"      port1: {p1}",
                f"      component2: {c2}",
                f"      port2: {p2}",
            ]
    return "\n".join(o) + "\n"
