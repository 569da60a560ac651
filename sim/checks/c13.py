"""C13: histories and interleavings of operations over a shared pool of
expressions and linear expressions; every member is compared with a shadow value."""
import hashlib
import json

import gen as G
import harness as H
import sched
import shrink as SH

ID = "C13"
LEVEL = "exploration"
RULE = (
    "one run = one seeded plan: shared pools of expressions and linear expressions, 1-3 callers with up to 40 "
    "operations each, an explicit schedule; every pool member is compared with its shadow value after the "
    "operations; non-trivial when at least 5 operations produced a value; distinct = distinct hash of "
    "operations and executed interleaving"
)
COMPONENTS = {
    "expression nodes, visitors, linear expressions, linearisation (/repo/src)": "real",
    "threads": "real Python threads, switched only by the simulator at source lines or bytecodes",
    "shadow values": "independent evaluation of the nested-list form of each expression",
}
ASSUMPTIONS = ["numbers are dyadic and small, so that results are exact up to 1e-9"]
QUICK = {"runs": 100000, "secs": 40}
THOROUGH = {"runs": 10**7, "secs": 1200}

T, S = 3, 2
STRUCT = {"x": (True, True), "y": (False, False), "z": (True, False), "u": (False, True)}
PSTRUCT = {"p": (False, False), "q": (False, False), "w": (True, False), "v": (True, True)}


def tab(name):
    h = int(hashlib.sha256(name.encode()).hexdigest(), 16)
    return [[((h >> (3 * (t * S + s) + 1)) % 13 - 6) / 2.0 + 0.25 for s in range(S)] for t in range(T)]


TAB = {n: tab(n) for n in list(STRUCT) + list(PSTRUCT)}


def base(name, t, s):
    st = STRUCT.get(name) or PSTRUCT[name]
    return TAB[name][t % T if st[0] else 0][s if st[1] else 0]


# ------------------------------------------------------------- shadow evaluation
def sval(e, t, s):
    k = e[0]
    if k == "lit":
        return e[1]
    if k in ("var", "par"):
        return base(e[1], t, s)
    if k == "neg":
        return -sval(e[1], t, s)
    if k == "add":
        return sum(sval(o, t, s) for o in e[1:])
    if k == "sub":
        return sval(e[1], t, s) - sval(e[2], t, s)
    if k == "mul":
        return sval(e[1], t, s) * sval(e[2], t, s)
    if k == "div":
        return sval(e[1], t, s) / sval(e[2], t, s)
    if k == "shift":
        return sval(e[1], t + e[2], s)
    if k == "eval":
        return sval(e[1], e[2], s)
    if k == "tsum":
        return sum(sval(e[1], t + n, s) for n in range(e[2], e[3] + 1))
    if k == "tsumall":
        return sum(sval(e[1], n, s) for n in range(T))
    if k == "expec":
        return sum(sval(e[1], t, n) for n in range(S)) / S
    raise AssertionError(k)


def slin(e, t, s):
    """(terms, constant); raises ValueError when not linear"""
    k = e[0]
    if k == "lit":
        return {}, e[1]
    if k == "var":
        st = STRUCT[e[1]]
        return {("c", e[1], t if st[0] else None, s if st[1] else None): 1.0}, 0.0
    if k == "par":
        return {}, base(e[1], t, s)

    def comb(parts):
        r, c = {}, 0.0
        for f, (a, ac) in parts:
            for x, v in a.items():
                r[x] = r.get(x, 0.0) + f * v
            c += f * ac
        return r, c

    if k == "neg":
        return comb([(-1.0, slin(e[1], t, s))])
    if k == "add":
        return comb([(1.0, slin(o, t, s)) for o in e[1:]])
    if k == "sub":
        return comb([(1.0, slin(e[1], t, s)), (-1.0, slin(e[2], t, s))])
    if k == "mul":
        a, b = slin(e[1], t, s), slin(e[2], t, s)
        if a[0] and b[0]:
            raise ValueError
        if a[0]:
            a, b = b, a
        return comb([(a[1], b)])
    if k == "div":
        a, b = slin(e[1], t, s), slin(e[2], t, s)
        if b[0]:
            raise ValueError
        return comb([(1.0 / b[1], a)])
    if k == "shift":
        return slin(e[1], t + e[2], s)
    if k == "eval":
        return slin(e[1], e[2], s)
    if k == "tsum":
        return comb([(1.0, slin(e[1], t + n, s)) for n in range(e[2], e[3] + 1)])
    if k == "tsumall":
        return comb([(1.0, slin(e[1], n, s)) for n in range(T)])
    if k == "expec":
        return comb([(1.0 / S, slin(e[1], t, n)) for n in range(S)])
    raise AssertionError(k)


def has(e, ks):
    return e[0] in ks or any(has(x, ks) for x in e[1:] if isinstance(x, list))


def size(e):
    return 1 + sum(size(x) for x in e[1:] if isinstance(x, list))


# ------------------------------------------------------------- value of real nodes
def nval(n, t, s):
    k = type(n).__name__
    if k == "LiteralNode":
        return n.value
    if k in ("VariableNode", "ParameterNode", "ComponentVariableNode", "ComponentParameterNode"):
        return base(n.name, t, s)
    if k in ("ProblemVariableNode", "ProblemParameterNode"):
        ti, si = type(n.time_index).__name__, type(n.scenario_index).__name__
        if ti == "TimeShift":
            t = t + n.time_index.timeshift
        elif ti == "TimeStep":
            t = n.time_index.timestep
        if si == "OneScenarioIndex":
            s = n.scenario_index.scenario
        return base(n.name, t, s)
    if k == "NegationNode":
        return -nval(n.operand, t, s)
    if k == "AdditionNode":
        return sum(nval(o, t, s) for o in n.operands)
    if k == "MultiplicationNode":
        return nval(n.left, t, s) * nval(n.right, t, s)
    if k == "DivisionNode":
        return nval(n.left, t, s) / nval(n.right, t, s)
    if k == "SubstractionNode":
        return nval(n.left, t, s) - nval(n.right, t, s)
    if k == "TimeShiftNode":
        return nval(n.operand, t + int(nval(n.time_shift, 0, 0)), s)
    if k == "TimeEvalNode":
        return nval(n.operand, int(nval(n.eval_time, 0, 0)), s)
    if k == "TimeSumNode":
        a, b = int(nval(n.from_time, 0, 0)), int(nval(n.to_time, 0, 0))
        return sum(nval(n.operand, t + i, s) for i in range(a, b + 1))
    if k == "AllTimeSumNode":
        return sum(nval(n.operand, i, s) for i in range(T))
    if k == "ScenarioOperatorNode":
        return sum(nval(n.operand, t, i) for i in range(S)) / S
    raise AssertionError(k)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def e_bad(n, spec):
    """None when node n has the value of spec at every (t, s)"""
    for t in range(T):
        for s in range(S):
            a, b = nval(n, t, s), sval(spec, t, s)
            if not close(a, b):
                return f"value {a} at t={t} s={s}, expected {b}"
    return None


def l_get(l):
    out = {}
    for k, v in l.terms.items():
        kk = (k.component_id, k.variable_name, k.time_index, k.scenario_index)
        kt = (v.component_id, v.variable_name, v.time_index, v.scenario_index)
        if kk != kt:
            raise AssertionError(f"term {v!r} under key {k!r}")
        if abs(v.coefficient) > 1e-12:
            out[kk] = v.coefficient
    return out, l.constant


def l_bad(l, shadow):
    try:
        terms, c = l_get(l)
    except AssertionError as e:
        return str(e)
    want = {k: v for k, v in shadow[0].items() if abs(v) > 1e-12}
    if terms.keys() != want.keys() or any(not close(v, want[k]) for k, v in terms.items()):
        return f"terms {terms}, expected {want}"
    if not close(c, shadow[1]):
        return f"constant {c}, expected {shadow[1]}"
    return None


# ------------------------------------------------------------- plans
EOPS = [
    "add", "add", "sub", "sub", "mul", "neg", "div", "radd", "rsub", "rsub", "rmul", "rdiv",
    "addn", "subn", "muln", "shift", "eval", "tsum", "tsumall", "expec", "copy", "resolve", "print",
    "degree", "equal", "evaluate", "index", "sumlist", "lin", "lin", "lin",
]
LOPS = [
    "ladd", "ladd", "lsub", "lsub", "lmul", "lmul", "lmul", "ldiv", "lneg", "liadd", "lisub", "limul",
    "limul", "lidiv", "leq", "lrepr", "lzero", "lnew",
]


def gen(rng, tier):
    es = []
    for _ in range(rng.randint(3, 6)):
        es.append(gen_e(rng, rng.choice([0, 1, 2])))
    ls = []
    for _ in range(rng.randint(3, 6)):
        ls.append(gen_l(rng))
    n = rng.choice([1, 1, 2, 2, 3])
    focus = rng.random()
    callers = []
    for _ in range(n):
        ops = []
        for _ in range(rng.randint(5, 40)):
            pool = EOPS if focus < 0.35 else LOPS if focus < 0.7 else EOPS + LOPS
            ops.append(
                [
                    rng.choice(pool),
                    rng.randrange(1 << 16),
                    rng.randrange(1 << 16),
                    rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, 3.0, -2.0, 4.0]),
                ]
            )
        callers.append(ops)
    return {
        "es": es,
        "ls": ls,
        "callers": callers,
        "schedule": sched.gen_schedule(rng, n, 2000) if n > 1 else [],
        "cyclic": rng.random() < 0.8,
        "hot": sched.gen_hot(rng),
        "instr": rng.random() < 0.35,
    }


def gen_e(rng, d):
    if d == 0:
        return rng.choice(
            [["var", "x"], ["var", "y"], ["var", "z"], ["var", "u"], ["par", "p"], ["par", "w"], ["par", "v"], ["par", "q"], ["lit", 2.0], ["lit", 0.0], ["lit", 1.0]]
        )
    k = rng.choice(["add", "sub", "mul", "neg", "shift", "tsum", "expec"])
    if k == "neg":
        return ["neg", gen_e(rng, d - 1)]
    if k == "mul":
        return ["mul", rng.choice([["par", "p"], ["lit", 3.0], ["par", "w"]]), gen_e(rng, d - 1)]
    if k == "shift":
        return ["shift", gen_e(rng, 0), rng.choice([-1, 1, 2])]
    if k == "tsum":
        return ["tsum", gen_e(rng, 0), -1, 1]
    if k == "expec":
        return ["expec", gen_e(rng, 0)]
    return [k, gen_e(rng, d - 1), gen_e(rng, d - 1)]


def gen_l(rng):
    if rng.random() < 0.35:
        return [[], rng.choice([0.0, 1.0, 2.0, -1.0, 0.5, 3.0])]
    terms = []
    for v in rng.sample(["x", "y", "z"], rng.randint(1, 3)):
        t = rng.choice([0, 1]) if v == "x" else None
        terms.append([G.nz(rng), "c", v, t, None])
    return [terms, rng.choice([0.0, 0.0, 2.0, 1.5])]


def to_node(e):
    from andromede.expression.expression import literal, param, var

    k = e[0]
    if k == "lit":
        return literal(e[1])
    if k == "var":
        return var(e[1])
    if k == "par":
        return param(e[1])
    if k == "neg":
        return -to_node(e[1])
    if k == "add":
        return to_node(e[1]) + to_node(e[2])
    if k == "sub":
        return to_node(e[1]) - to_node(e[2])
    if k == "mul":
        return to_node(e[1]) * to_node(e[2])
    if k == "shift":
        return to_node(e[1]).shift(e[2])
    if k == "tsum":
        return to_node(e[1]).time_sum(e[2], e[3])
    if k == "expec":
        return to_node(e[1]).expec()
    raise AssertionError(k)


class Bad(Exception):
    pass


def providers():
    from andromede.expression.evaluate_parameters import ParameterValueProvider
    from andromede.expression.indexing import IndexingStructureProvider
    from andromede.expression.indexing_structure import IndexingStructure
    from andromede.simulation.linearize import ParameterGetter

    class PV(ParameterValueProvider):
        def get_parameter_value(self, name):
            return base(name, 0, 0)

        def get_component_parameter_value(self, component_id, name):
            return base(name, 0, 0)

    class ISP(IndexingStructureProvider):
        def get_parameter_structure(self, name):
            return IndexingStructure(*PSTRUCT[name])

        def get_variable_structure(self, name):
            return IndexingStructure(*STRUCT[name])

        def get_component_variable_structure(self, component_id, name):
            return IndexingStructure(*STRUCT[name])

        def get_component_parameter_structure(self, component_id, name):
            return IndexingStructure(*PSTRUCT[name])

    class PG(ParameterGetter):
        def get_parameter_value(self, component_id, parameter_name, timestep, scenario):
            return base(parameter_name, timestep or 0, scenario or 0)

    return PV(), ISP(), PG()


class CallerState:
    def __init__(self, shared_e, shared_l, alone):
        self.se, self.sl = shared_e, shared_l
        self.e, self.l = [], []  # own [object, shadow]
        self.alone = alone
        self.done = {}

    def pe(self, i):
        a = self.se + self.e
        return a[i % len(a)]

    def pl(self, i):
        a = self.sl + self.l
        return a[i % len(a)]

    def own_l(self, i):
        a = (self.sl + self.l) if self.alone else self.l
        return a[i % len(a)] if a else None

    def put_e(self, node, spec, what):
        b = e_bad(node, spec)
        if b:
            raise Bad(f"wrong-result: {what}: {b}")
        self.e.append([node, spec])
        if len(self.e) > 12:
            self.e.pop(0)

    def put_l(self, l, sh, what):
        b = l_bad(l, sh)
        if b:
            raise Bad(f"wrong-result: {what}: {b}")
        self.l.append([l, sh])
        if len(self.l) > 12:
            self.l.pop(0)


def lc(parts):
    r, c = {}, 0.0
    for f, (a, ac) in parts:
        for x, v in a.items():
            r[x] = r.get(x, 0.0) + f * v
        c += f * ac
    return {k: v for k, v in r.items() if abs(v) > 1e-12}, c


def big(sh):
    return abs(sh[1]) > 1e6 or any(abs(v) > 1e6 or abs(v) < 1e-6 for v in sh[0].values()) or (0 < abs(sh[1]) < 1e-6)


def do(cs, op, prov):
    from andromede.expression.context_adder import add_component_context
    from andromede.expression.copy import copy_expression
    from andromede.expression.degree import compute_degree
    from andromede.expression.equality import expressions_equal
    from andromede.expression.evaluate import EvaluationContext, evaluate
    from andromede.expression.evaluate_parameters import resolve_parameters
    from andromede.expression.expression import sum_expressions
    from andromede.expression.indexing import compute_indexation
    from andromede.expression.operators_expansion import ProblemDimensions, expand_operators
    from andromede.expression.print import print_expr
    from andromede.simulation.linear_expression import LinearExpression, Term
    from andromede.simulation.linearize import linearize_expression

    PV, ISP, PG = prov
    k, i, j, c = op
    if k in EOPS:
        a, sa = cs.pe(i)
        b, sb = cs.pe(j)
        if k != "lin" and size(sa) + size(sb) > 60:
            return False
        if k == "add":
            cs.put_e(a + b, ["add", sa, sb], "a + b")
        elif k == "sub":
            cs.put_e(a - b, ["sub", sa, sb], "a - b")
        elif k == "mul":
            if has(sa, ["mul", "div"]) and has(sb, ["mul", "div"]):
                return False
            cs.put_e(a * b, ["mul", sa, sb], "a * b")
        elif k == "neg":
            cs.put_e(-a, ["neg", sa], "-a")
        elif k == "div":
            if any(abs(sval(sb, t, s)) < 0.2 for t in range(T) for s in range(S)):
                return False
            cs.put_e(a / b, ["div", sa, sb], "a / b")
        elif k == "radd":
            cs.put_e(c + a, ["add", ["lit", c], sa], "k + a")
        elif k == "rsub":
            cs.put_e(c - a, ["sub", ["lit", c], sa], f"{c} - a")
        elif k == "rmul":
            cs.put_e(c * a, ["mul", ["lit", c], sa], "k * a")
        elif k == "rdiv":
            if any(abs(sval(sa, t, s)) < 0.2 for t in range(T) for s in range(S)):
                return False
            cs.put_e(c / a, ["div", ["lit", c], sa], "k / a")
        elif k == "addn":
            cs.put_e(a + int(c), ["add", sa, ["lit", float(int(c))]], "a + k")
        elif k == "subn":
            cs.put_e(a - c, ["sub", sa, ["lit", c]], "a - k")
        elif k == "muln":
            cs.put_e(a * c, ["mul", sa, ["lit", c]], "a * k")
        elif k in ("shift", "eval", "tsum"):
            if has(sa, ["eval", "tsumall"]):
                return False
            n = j % 5 - 2
            if k == "shift":
                cs.put_e(a.shift(n), ["shift", sa, n], "shift")
            elif k == "eval":
                cs.put_e(a.eval(j % T), ["eval", sa, j % T], "eval")
            else:
                cs.put_e(a.time_sum(n, n + 1), ["tsum", sa, n, n + 1], "time sum")
        elif k == "tsumall":
            cs.put_e(a.time_sum(), ["tsumall", sa], "sum")
        elif k == "expec":
            if has(sa, ["expec"]):
                return False
            cs.put_e(a.expec(), ["expec", sa], "expec")
        elif k == "sumlist":
            lst = [a, b, a]
            cs.put_e(sum_expressions(lst), ["add", sa, sb, sa], "sum of a list")
            lst.append(a)
        elif k == "copy":
            r = copy_expression(a)
            cs.put_e(r, sa, "copy")
        elif k == "resolve":
            if has(sa, ["par"]) and any(n in json.dumps(sa) for n in ('"w"', '"v"')):
                return False
            cs.put_e(resolve_parameters(a, PV), sa, "resolved parameters")
        elif k == "print":
            same(cs, "print", sa, a, print_expr(a))
        elif k == "degree":
            same(cs, "degree", sa, a, safe(lambda: compute_degree(a)))
        elif k == "index":
            st = safe(lambda: compute_indexation(a, ISP))
            same(cs, "index", sa, a, repr(st))
        elif k == "equal":
            r = expressions_equal(a, b)
            if r and e_bad(a, sb):
                raise Bad("wrong-result: expressions_equal is True for expressions of different values")
            if not expressions_equal(a, a):
                raise Bad("wrong-result: an expression does not equal itself")
        elif k == "evaluate":
            if has(sa, ["shift", "eval", "tsum", "tsumall", "expec"]):
                return False
            v = evaluate(
                a,
                EvaluationContext(
                    variables={n: base(n, 1, 1) for n in STRUCT}, parameters={n: base(n, 1, 1) for n in PSTRUCT}
                ),
            )
            if not close(v, sval(sa, 1, 1)):
                raise Bad(f"wrong-result: evaluate gives {v}, expected {sval(sa, 1, 1)}")
        elif k == "lin":
            if size(sa) > 40:
                return False
            ctx = add_component_context("c", a)
            if e_bad(ctx, sa):
                raise Bad(f"wrong-result: component context: {e_bad(ctx, sa)}")
            ex = expand_operators(ctx, ProblemDimensions(T, S), lambda n: int(nval(n, 0, 0)), ISP)
            if e_bad(ex, sa):
                raise Bad(f"wrong-result: expansion: {e_bad(ex, sa)}")
            for t, s in ((i % T, j % S), ((i + 1) % T, j % S)):
                try:
                    want = slin(sa, t, s)
                except ValueError:
                    want = None
                try:
                    got = linearize_expression(ex, t, s, PG)
                except ValueError:
                    if want is not None:
                        raise Bad("wrong-result: linear expression refused by linearisation")
                    return True
                if want is None:
                    raise Bad("wrong-result: non linear expression accepted by linearisation")
                if not big(want):
                    cs.put_l(got, want, "linearisation")
        return True

    la = cs.pl(i)
    lb = cs.pl(j)
    a, sa = la
    b, sb = lb
    if k == "ladd":
        cs.put_l(a + b, lc([(1, sa), (1, sb)]), "a + b")
    elif k == "lsub":
        cs.put_l(a - b, lc([(1, sa), (-1, sb)]), "a - b")
    elif k == "lneg":
        cs.put_l(-a, lc([(-1, sa)]), "-a")
    elif k in ("lmul", "limul"):
        tgt = la if k == "lmul" else cs.own_l(i)
        if tgt is None:
            return False
        a, sa = tgt
        if sa[0] and sb[0]:
            try:
                if k == "lmul":
                    a * b
                else:
                    a *= b
            except ValueError:
                return True
            raise Bad("wrong-result: product of two non constant expressions accepted")
        want = lc([(sb[1], sa)]) if sa[0] else lc([(sa[1], sb)])
        if big(want):
            return False
        if k == "lmul":
            cs.put_l(a * b, want, "a * b")
        else:
            a *= b
            tgt[0], tgt[1] = a, want
            if l_bad(a, want):
                raise Bad(f"wrong-result: a *= b: {l_bad(a, want)}")
    elif k in ("ldiv", "lidiv"):
        tgt = la if k == "ldiv" else cs.own_l(i)
        if tgt is None:
            return False
        a, sa = tgt
        if sb[0] or sb[1] == 0:
            try:
                if k == "ldiv":
                    a / b
                else:
                    a /= b
            except (ValueError, ZeroDivisionError):
                return True
            raise Bad("wrong-result: division by a non constant or null expression accepted")
        want = lc([(1.0 / sb[1], sa)])
        if big(want):
            return False
        if k == "ldiv":
            cs.put_l(a / b, want, "a / b")
        else:
            a /= b
            tgt[0], tgt[1] = a, want
            if l_bad(a, want):
                raise Bad(f"wrong-result: a /= b: {l_bad(a, want)}")
    elif k in ("liadd", "lisub"):
        tgt = cs.own_l(i)
        if tgt is None:
            return False
        f = 1 if k == "liadd" else -1
        want = lc([(1, tgt[1]), (f, sb)])
        if big(want):
            return False
        a = tgt[0]
        if f == 1:
            a += b
        else:
            a -= b
        tgt[0], tgt[1] = a, want
        if l_bad(a, want):
            raise Bad(f"wrong-result: a {'+' if f == 1 else '-'}= b: {l_bad(a, want)}")
    elif k == "leq":
        want = norm(sa) == norm(sb)
        if bool(a == b) != want:
            raise Bad(f"wrong-result: a == b gives {a == b} for {sa} and {sb}")
    elif k == "lrepr":
        str(a)
        repr(b)
    elif k == "lzero":
        if bool(a.is_zero()) != (not sa[0] and sa[1] == 0):
            raise Bad(f"wrong-result: is_zero {a.is_zero()} for {sa}")
    elif k == "lnew":
        if j % 2:
            cs.put_l(LinearExpression(a.terms, a.constant), lc([(1, sa)]), "LinearExpression(a.terms, a.constant)")
        else:
            ts = list(a.terms.values())
            cs.put_l(LinearExpression(ts, a.constant), lc([(1, sa)]), "LinearExpression(list of terms)")
            ts.clear()
    return True


def norm(sh):
    return (sorted((repr(k), v) for k, v in sh[0].items()), sh[1])


def safe(f):
    try:
        return f()
    except ValueError as e:
        return "ValueError"


def same(cs, what, spec, obj, got):
    """measuring the same object twice gives the same answer"""
    key = (what, id(obj))
    old = cs.done.get(key)
    if old is None:
        cs.done[key] = (obj, got)
    elif old[1] != got:
        raise Bad(f"wrong-result: {what} gave {old[1]!r} and later {got!r}")


def execute(plan, scratch):
    from andromede.simulation.linear_expression import LinearExpression, Term

    prov = providers()
    n = len(plan["callers"])
    shared_e = [[to_node(e), e] for e in plan["es"]]
    shared_l = [
        [
            LinearExpression([Term(*t) for t in terms], c),
            ({tuple(t[1:]): t[0] for t in terms}, c),
        ]
        for terms, c in plan["ls"]
    ]
    from andromede.expression.print import print_expr

    printed = [print_expr(x) for x, _ in shared_e]
    probes = {}
    made = [0]

    def verify(cs):
        for pool, bad, name in (
            (cs.se + cs.e, e_bad, "expression"),
            (cs.sl + cs.l, l_bad, "linear expression"),
        ):
            for x, sh in pool:
                b = bad(x, sh)
                if b:
                    return f"{name} changed: {b}"
        return None

    def body(c):
        def f():
            cs = CallerState(shared_e, shared_l, n == 1)
            for oi, op in enumerate(plan["callers"][c]):
                try:
                    r = do(cs, op, prov)
                except Bad as e:
                    return f"{e} (caller {c}, op {oi} {op[0]})"
                except Exception as e:
                    return f"operation-failed: caller {c} op {oi} {op}: {type(e).__name__}: {e}"
                if r:
                    made[0] += 1
                    probes[op[0]] = probes.get(op[0], 0) + 1
                if n == 1:
                    v = verify(cs)
                    if v:
                        return f"other-value-changed: op {oi} {op[0]}: {v}"
            v = verify(cs)
            if v:
                return f"other-value-changed: caller {c}: {v}"
            return None

        return f

    h = hashlib.sha256(json.dumps(plan["callers"]).encode())
    sim = None
    if n == 1:
        res = [body(0)()]
    else:
        sim = sched.Sim([body(c) for c in range(n)], plan["schedule"], instr=plan["instr"], cyclic=plan["cyclic"], hot=plan.get("hot")).run()
        if sim.failure:
            res = [f"no-progress: {sim.failure}"]
        else:
            res = [x.result if x.error is None else f"caller-died: {x.error!r}" for x in sim.callers]
        h.update(str(sim.digest).encode())
    v = next((r for r in res if r), None)
    if v is None:
        for (x, sh), pr in zip(shared_e, printed):
            if print_expr(x) != pr:
                v = f"other-value-changed: a shared expression now prints {print_expr(x)} instead of {pr}"
        for x, sh in shared_l:
            if l_bad(x, sh):
                v = f"other-value-changed: shared linear expression: {l_bad(x, sh)}"
    return {
        "violation": v,
        "probes": probes,
        "faults": {"preemption": sim.switches if sim else 0},
        "sig": h.hexdigest()[:16],
        "nontrivial": made[0] >= 5,
        "steps": sim.total if sim else made[0],
        "interleaving": f"{sim.digest:x}" if sim else None,
    }


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(
                plan,
                callers=plan["callers"][:c] + plan["callers"][c + 1 :],
                schedule=[[t if t < c else t - 1, p] for t, p in plan["schedule"] if t != c] or [[0, 1]],
            )
    for c in range(n):
        for ops in SH.drop_each(plan["callers"][c]):
            cs = list(plan["callers"])
            cs[c] = ops
            yield dict(plan, callers=cs)
    if plan["instr"]:
        yield dict(plan, instr=False)
    if n > 1:
        for s in SH.drop_each(plan["schedule"]):
            if s:
                yield dict(plan, schedule=s)
    for key in ("es", "ls"):
        if len(plan[key]) > 1:
            for i in range(len(plan[key])):
                yield dict(plan, **{key: plan[key][:i] + plan[key][i + 1 :]})
    for i, e in enumerate(plan["es"]):
        if e[0] not in ("var", "lit", "par"):
            for x in e[1:]:
                if isinstance(x, list):
                    yield dict(plan, es=plan["es"][:i] + [x] + plan["es"][i + 1 :])
