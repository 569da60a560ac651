"""C14: recorded results over histories of solving, changing, re-solving, recording,
ignoring, assigning and comparing, by one or several callers."""
import gc
import math

import canon
import gen as G
import lang
import sched
import shrink as SH

ID = "C14"
LEVEL = "exploration"
RULE = (
    "one run = one seeded history: 1-3 problems, 6-30 operations (solve, change bounds or costs and solve again, "
    "record, read, print, copy by hand, perturb, reassign, ignore, compare, discard, aborted recording) by 1-3 callers "
    "under an explicit schedule; non-trivial when a recording is checked after a later solve of its problem, a "
    "discard, an abort or a comparison; distinct = distinct hash of the history of operations and results"
)
COMPONENTS = {
    "recording and comparison of results, problem building (/repo/src)": "real",
    "OR-tools GLOP": "real, run atomically",
    "threads": "real Python threads, one at a time, switched only by the simulator",
}
ASSUMPTIONS = [
    "the values of a solve are the solver's solution values, by the solver's variable names, read when the solve ends",
    "problems are solved to optimality before being recorded",
    "a component or variable asked for by name in a recording that lacks it counts as declared there (existing API)",
]
QUICK = {"runs": 100000, "secs": 40}
THOROUGH = {"runs": 10**7, "secs": 900}

TOLS = [(1e-9, 0.0), (0.0, 0.5), (0.0, 0.01), (0.1, 0.0), (0.0, 0.0), (1e-3, 0.25), (0.5, 1e-6)]
OPS = (
    ["solve"] * 3
    + ["change"] * 3
    + ["record"] * 5
    + ["read"] * 5
    + ["str", "copy", "copy", "perturb", "perturb", "assign", "assign", "declare"]
    + ["ignore"] * 3
    + ["cmp"] * 6
    + ["cmpc", "cmpv", "cmpv", "discard", "abort", "mutlist", "other", "bsol", "bcmp"]
)


def gen_spec(rng):
    models = {}
    for i in range(rng.randint(1, 3)):
        vs = []
        for j in range(rng.randint(1, 3)):
            t, s = rng.random() < 0.6, rng.random() < 0.6
            vs.append(
                {
                    "n": ["x", "y", "z"][j],
                    "type": "int" if rng.random() < 0.1 else "float",
                    "lb": ["lit", float(rng.randint(-8, 0))] if rng.random() < 0.6 else ["par", "lo"],
                    "ub": ["lit", float(rng.randint(1, 40)) / 4],
                    "t": t,
                    "s": s,
                    "ctx": "oper",
                }
            )
        # bounds of their own per step and scenario, so that values differ over both
        own = [v for v in vs if rng.random() < 0.6]
        for v in own:
            v["ub" if rng.random() < 0.5 else "lb"] = ["par", "b" + v["n"]]
        terms = [["mul", ["lit", G.nz(rng)], ["var", v["n"]]] for v in vs]
        models[f"m{i}"] = {
            "id": f"m{i}",
            "params": [{"n": "lo", "t": False, "s": False}]
            + [{"n": "b" + v["n"], "t": v["t"], "s": v["s"]} for v in own],
            "vars": vs,
            "ports": [],
            "defs": [],
            "cons": [],
            "obj_op": ["expec", ["tsumall", ["add"] + terms if len(terms) > 1 else terms[0]]],
            "obj_inv": None,
        }
    ids = ["C0", "C1", "C1_x", "C0_y_t0"] if rng.random() < 0.3 else [f"C{i}" for i in range(4)]
    comps = [[ids[i], rng.choice(list(models))] for i in range(rng.randint(1, 4))]
    return {
        "port_types": [],
        "models": models,
        "net": {"id": "net", "nodes": [], "comps": comps, "cnx": []},
        "data": {
            **{f"{c}|lo": ["const", float(rng.randint(-9, -1)) / 2] for c, _ in comps},
            **{
                f"{c}|b{v['n']}": gen_bound(rng, v)
                for c, m in comps
                for v in models[m]["vars"]
                if ["par", "b" + v["n"]] in (v["lb"], v["ub"])
            },
        },
        "T_abs": 11,
        "S": 11,
    }


def gen_bound(rng, v):
    def q():
        x = rng.choice([1e-7, 3e-5]) if rng.random() < 0.1 else rng.randint(1, 60) / 8
        return x if v["ub"][0] == "par" else -x

    if v["t"] and v["s"]:
        return ["tss", [[q() for _ in range(11)] for _ in range(11)], None]
    if v["t"]:
        return ["ts", {str(t): q() for t in range(11)}]
    if v["s"]:
        return ["ss", {str(s): q() for s in range(11)}, None]
    return ["const", q()]


def gen_b(rng):
    if rng.random() < 0.05:  # more steps or scenarios than one digit counts
        return rng.choice([{"timesteps": list(range(11)), "scenarios": 1}, {"timesteps": [2], "scenarios": 11}, {"timesteps": list(range(11)), "scenarios": 2}])
    T = rng.choice([1, 1, 2, 3])
    a = rng.randint(0, 6 - T)
    return {"timesteps": list(range(a, a + T)), "scenarios": rng.choice([1, 1, 2, 3])}


def gen(rng, tier):
    sp = gen_spec(rng)
    probs = []
    b0 = gen_b(rng)
    for _ in range(rng.randint(1, 3)):
        probs.append(b0 if rng.random() < 0.6 else gen_b(rng))
    n = rng.choice([1, 1, 1, 2, 3])

    def op():
        return [rng.choice(OPS)] + [rng.randrange(1 << 20) for _ in range(3)]

    pre = [["record", k, 0, 0] for k in range(len(probs))]
    pre += [op() for _ in range(rng.randint(0, 8))]
    callers = [
        [["record", rng.randrange(99), 0, 0]] + [op() for _ in range(rng.randint(3, 24))] for _ in range(n)
    ]
    return {
        "spec": sp,
        "probs": probs,
        "pre": pre,
        "callers": callers,
        "schedule": sched.gen_schedule(rng, n, 6000) if n > 1 else [],
        "cyclic": rng.random() < 0.5,
        "hot": sched.gen_hot(rng),
        "instr": rng.random() < 0.15,
    }


class Bad(Exception):
    pass


# --------------------------------------------------------------- reference
def shape(vals, nt, ns):
    """values by (t, s) -> what the API documents"""
    if nt == 1:
        r = [vals[(0, s)] for s in range(ns)]
        return r[0] if ns == 1 else r
    return [[vals[(t, s)] for t in range(nt)] for s in range(ns)]


def norm(v):
    """assigned value -> the value as it reads back"""
    if not isinstance(v, list):
        return v
    if all(isinstance(x, list) for x in v) and v and len(v[0]) == 1:
        v = [x[0] for x in v]
    if len(v) == 1 and not isinstance(v[0], list):
        return v[0]
    return v


def flat(v):
    if isinstance(v, list):
        for x in v:
            yield from flat(x)
    else:
        yield v


def dims(v):
    if not isinstance(v, list):
        return ()
    return (len(v),) + (dims(v[0]) if v else ())


NEAR = object()


def vals_close(a, b, rel, ab):
    if dims(a) != dims(b):
        return False
    res = True
    for x, y in zip(flat(a), flat(b)):
        if rel == ab == 0.0:
            ok = x == y
        else:
            lim = max(rel * max(abs(x), abs(y)), ab)
            d = abs(x - y)
            if d != 0 and 0.999 * lim < d < 1.001 * lim:
                return NEAR
            ok = d <= lim
        if not ok:
            res = False
    return res


def var_close(a, b, rel, ab):
    if a["ign"] or b["ign"]:
        return True
    if a["val"] is None or b["val"] is None:
        return a["val"] is None and b["val"] is None
    return vals_close(a["val"], b["val"], rel, ab)


def map_close(a, b, f):
    res = True
    for k in set(a) | set(b):
        if k in a and k in b:
            r = f(a[k], b[k])
        else:
            r = (a.get(k) or b.get(k))["ign"]
        if r is NEAR:
            return NEAR
        if not r:
            res = False
    return res


def comp_close(a, b, rel, ab):
    if a["ign"] or b["ign"]:
        return True
    return map_close(a["vars"], b["vars"], lambda x, y: var_close(x, y, rel, ab))


def rec_close(a, b, rel, ab):
    return map_close(a, b, lambda x, y: comp_close(x, y, rel, ab))


class Prob:
    def __init__(self, ref, real, sp, b):
        self.sp, self.b, self.ref = sp, b, ref
        self.p = lang.build(real.network, real.database, b)
        self.solved = None

    def names(self):
        T, S = len(self.b["timesteps"]), self.b["scenarios"]
        for c, m in self.sp["net"]["comps"]:
            for v in self.sp["models"][m]["vars"]:
                nt, ns = (T if v["t"] else 1), (S if v["s"] else 1)
                yield c, v, nt, ns, {
                    (t, s): self.ref.var_name(self.b, (c, v["n"], t if v["t"] else None, s if v["s"] else None))
                    for t in range(nt)
                    for s in range(ns)
                }

    def solve(self):
        st = self.p.solver.Solve()
        if st != 0:
            raise RuntimeError(f"not optimal: {st}")
        sol = {v.name(): v.solution_value() for v in self.p.solver.variables()}
        m = {}
        for c, v, nt, ns, nm in self.names():
            m.setdefault(c, {"ign": False, "vars": {}})["vars"][v["n"]] = {
                "ign": False,
                "val": shape({k: sol[n] for k, n in nm.items()}, nt, ns),
            }
        self.solved = m

    def change(self, i, j, k):
        vs = self.p.solver.variables()
        for d in range(1 + j % 3):
            v = vs[(i + d * 7) % len(vs)]
            if (j >> 4) % 2:
                lo = v.lb() if math.isfinite(v.lb()) else -9.0
                v.SetBounds(lo, lo + (k % 37) / 8)
            else:
                self.p.solver.Objective().SetCoefficient(v, ((k >> 3) % 33 - 16) / 4)
        self.solve()


def clone(m):
    return {
        c: {"ign": x["ign"], "vars": {v: {"ign": y["ign"], "val": _cp(y["val"])} for v, y in x["vars"].items()}}
        for c, x in m.items()
    }


def _cp(v):
    return [_cp(x) for x in v] if isinstance(v, list) else v


class Session:
    """the recordings and problems of one caller, over shared recordings it only reads"""

    def __init__(self, plan, real, ref, shared, who):
        self.plan, self.real, self.ref, self.who = plan, real, ref, who
        self.sp = plan["spec"]
        self.probs = [Prob(ref, real, self.sp, b) for b in plan["probs"]]
        self.shared = shared
        self.own = []
        self.bens = []
        self.log = []
        self.checked = 0
        self.faults = {}

    def pool(self, i, own=False):
        p = self.own if own else self.shared + self.own
        return p[i % len(p)] if p else None

    def run(self, ops):
        for n, op in enumerate(ops):
            try:
                r = self.step(op)
            except Bad as e:
                raise Bad(f"{e} (caller {self.who}, op {n} {op[0]})")
            self.log.append((op[0], r))
        for k, (o, m) in enumerate(self.shared + self.own):
            self.verify(o, m, f"at the end, recording {k}")
        for o, d in self.bens:
            self.bverify(o, d)

    def verify(self, o, m, what):
        for c, x in m.items():
            for v, y in x["vars"].items():
                if y["val"] is None:
                    continue
                got = o.component(c).var(v).value
                if got != y["val"]:
                    raise Bad(f"recording-changed: {what}: {c}.{v} is {got}, expected {y['val']}")
        self.checked += 1

    def step(self, op):
        from andromede.simulation.output_values import OutputValues

        k, i, j, l = op
        if k in ("bsol", "bcmp"):
            return self.bstep(k, i, j, l)
        if k in ("solve", "change", "record", "discard", "abort", "other"):
            if not self.probs:
                return
            pr = self.probs[i % len(self.probs)]
        if k == "solve":
            pr.solve()
        elif k == "change":
            pr.change(i, j, l)
        elif k == "record":
            if pr.solved is None:
                pr.solve()
            o = OutputValues(pr.p)
            m = clone(pr.solved)
            if j % 3 == 1:  # else its first reading comes after whatever happens next
                self.verify(o, m, "fresh")
            self.own.append((o, m))
        elif k == "abort":
            if pr.solved is None:
                pr.solve()
            if sched_active():
                return
            fired, _, _ = sched.run_aborting(lambda: OutputValues(pr.p), j % 60, KeyboardInterrupt)
            if fired is None:
                return
            self.faults["abort"] = self.faults.get("abort", 0) + 1
        elif k == "other":
            b = self.plan["probs"][j % len(self.plan["probs"])]
            q = Prob(self.ref, self.real, self.sp, b)
            q.change(i, j, l)
            OutputValues(q.p)
        elif k == "discard":
            if len(self.probs) > 1:
                self.probs.remove(pr)
                del pr
                gc.collect()
        elif k == "read":
            r = self.pool(i)
            if r:
                self.verify(r[0], r[1], "read")
        elif k == "mutlist":
            r = self.pool(i)
            if r:
                c, v = self.pick(r[1], j)
                x = r[0].component(c).var(v).value if r[1][c]["vars"][v]["val"] is not None else None
                if isinstance(x, list):
                    x[0] = 12345.5
        elif k == "str":
            r = self.pool(i)
            if r and all(y["val"] is not None for x in r[1].values() for y in x["vars"].values()):
                t = str(r[0])
                for c, x in r[1].items():
                    for v, y in x["vars"].items():
                        if str(y["val"]) not in t:
                            raise Bad(f"print-lacks-value: {c}.{v} = {y['val']} not in the printed results")
        elif k in ("copy", "perturb"):
            r = self.pool(i)
            if not r:
                return
            m = clone(r[1])
            if k == "perturb":
                c, v = self.pick(m, j)
                y = m[c]["vars"][v]
                if y["val"] is not None:
                    d = [1e-12, 1e-4, 0.005, 0.25, 1.0, -0.25, 1e-7][l % 7]
                    y["val"] = norm(bump(y["val"], l // 7, d))
            o = OutputValues()
            items = list(m.items())
            if l % 2:
                items.reverse()
            for c, x in items:
                o.component(c).ignore = x["ign"]
                for v, y in (reversed if l % 3 == 0 else list)(list(x["vars"].items())):
                    var = o.component(c).var(v)
                    var.ignore = y["ign"]
                    if y["val"] is not None:
                        var.value = _cp(y["val"])
            self.own.append((o, m))
        elif k == "assign":
            r = self.pool(i, own=True)
            if not r:
                return
            c, v = self.pick(r[1], j)
            s = (l >> 3) % 5
            n = 1 + (l >> 6) % 3
            new = [
                1.5 + l % 4,
                [float(x + l % 3) for x in range(n)],
                [[float(x) for x in range(n)]],
                [[float(x + 2 * y) for x in range(1 + n)] for y in range(1 + (l >> 9) % 2)],
                [[0.25 * (l % 5)]],
            ][s]
            r[0].component(c).var(v).value = _cp(new)
            r[1][c]["vars"][v]["val"] = norm(new)
            self.verify(r[0], r[1], "after assigning")
        elif k == "declare":
            r = self.pool(i, own=True)
            if not r:
                return
            c = ["extra", "C0", "C1"][j % 3]
            v = ["w", "x"][l % 2]
            if c in r[1] and v in r[1][c]["vars"]:
                return
            val = float(l % 7)
            r[0].component(c).var(v).value = val
            r[1].setdefault(c, {"ign": False, "vars": {}})["vars"][v] = {"ign": False, "val": val}
        elif k == "ignore":
            r = self.pool(i, own=True)
            if not r:
                return
            c, v = self.pick(r[1], j)
            on = l % 3 != 0
            if (l >> 2) % 2:
                r[0].component(c).ignore = on
                r[1][c]["ign"] = on
            else:
                r[0].component(c).var(v).ignore = on
                r[1][c]["vars"][v]["ign"] = on
        elif k == "cmp":
            a, b = self.pool(i), self.pool(j)
            if a and b:
                return self.compare(a[0], b[0], lambda r, t: rec_close(a[1], b[1], r, t), l)
        elif k == "cmpc":
            a, b = self.pool(i), self.pool(j)
            cs = [c for c in a[1] if c in b[1]] if a and b else []
            if cs:
                c = cs[l % len(cs)]
                return self.compare(
                    a[0].component(c), b[0].component(c), lambda r, t: comp_close(a[1][c], b[1][c], r, t), l
                )
        elif k == "cmpv":
            a, b = self.pool(i), self.pool(j)
            cs = (
                [(c, v) for c in a[1] if c in b[1] for v in a[1][c]["vars"] if v in b[1][c]["vars"]]
                if a and b
                else []
            )
            if cs:
                c, v = cs[l % len(cs)]
                return self.compare(
                    a[0].component(c).var(v),
                    b[0].component(c).var(v),
                    lambda r, t: var_close(a[1][c]["vars"][v], b[1][c]["vars"][v], r, t),
                    l,
                )

    # solutions of Benders runs are recordings as well
    def bsol(self, i, j, l):
        from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution

        d = bdata(i, j, l)
        keep = bdata(i, j, l)
        return (BendersMergedSolution if l % 2 else BendersDecomposedSolution)(d), keep

    def bverify(self, o, d):
        s = d["solution"]
        got = [o.overall_cost, o.investment_cost, o.operational_cost, o.candidates, o.status, o.absolute_gap, o.relative_gap, o.stopping_criterion]
        want = [s[k] for k in BKEYS]
        if got != want or o.data != d:
            raise Bad(f"recording-changed: Benders solution reads {got}, expected {want}")
        self.checked += 1

    def bstep(self, k, i, j, l):
        if k == "bsol" or len(self.bens) < 2:
            self.bens.append(self.bsol(i % 4, j, l))
            return
        a, b = self.bens[i % len(self.bens)], self.bens[j % len(self.bens)]
        for o, d in (a, b):
            t = str(o)
            for c, v in d["solution"]["values"].items():
                if c not in t or str(v) not in t:
                    raise Bad(f"print-lacks-value: candidate {c} = {v} not in the printed solution")
        r = self.compare(a[0], b[0], lambda rel, ab: bclose(a[1], b[1], rel, ab), l)
        for o, d in (a, b):
            self.bverify(o, d)
        return r

    def compare(self, a, b, ref, l):
        want = ref(0.0, 0.0)
        for x, y, w in ((a, b, "a == b"), (b, a, "b == a")):
            got = x == y
            if got is not want and bool(got) != want:
                raise Bad(f"wrong-comparison: {w} is {got}, expected {want}")
            if (x != y) == bool(got):
                raise Bad(f"wrong-comparison: != and == agree ({w})")
        rel, ab = TOLS[l % len(TOLS)]
        want2 = ref(rel, ab)
        if want2 is not NEAR:
            for x, y, w in ((a, b, "a.is_close(b)"), (b, a, "b.is_close(a)")):
                got = x.is_close(y, rel_tol=rel, abs_tol=ab) if l % 2 or (rel, ab) != TOLS[0] else x.is_close(y)
                if bool(got) != want2:
                    raise Bad(f"wrong-comparison: {w} rel {rel} abs {ab} is {got}, expected {want2}")
        return [want, None if want2 is NEAR else want2]

    def pick(self, m, j):
        cs = list(m)
        c = cs[j % len(cs)]
        vs = list(m[c]["vars"])
        return c, vs[(j // 7) % len(vs)]


BKEYS = [
    "overall_cost", "investment_cost", "operational_cost", "values", "problem_status", "optimality_gap", "relative_gap",
    "stopping_criterion",
]


def bdata(i, j, l):
    """result file of a solver; mostly alike, so that comparisons are close calls"""
    d = [0.0, 0.0, 1e-12, 1e-4, 0.005, 0.25, -0.25][(l >> 2) % 7]
    where = (l >> 5) % 4
    base = [1000.5, 0.0, -20.25, 4.0][i]
    vals = {f"v{k}": [0.0, 2.5, -1.0][k] for k in range(1 + j % 3)}
    ks = sorted(vals)
    if where == 1:
        vals[ks[(l >> 7) % len(ks)]] += d
    if where == 2 and len(ks) > 1:
        vals = {k: vals[k] for k in reversed(ks)}
    if where == 3 and (l >> 9) % 3 == 0:
        vals["w"] = vals.pop(ks[0])
    return {
        "solution": {
            "overall_cost": base + (d if where == 0 else 0.0),
            "investment_cost": 400.25 + (l >> 10) % 3,
            "operational_cost": 600.25,
            "values": vals,
            "problem_status": "OPTIMAL",
            "optimality_gap": 0.5,
            "relative_gap": 1e-7,
            "stopping_criterion": "absolute gap",
            "lb": 1.0,
            "ub": 2.0,
            "iteration": 4,
        },
        "run_duration": 2.5,
    }


def bclose(a, b, rel, ab):
    a, b = a["solution"], b["solution"]
    if set(a["values"]) != set(b["values"]):
        return False
    ks = sorted(a["values"])
    return vals_close(
        [a["overall_cost"]] + [a["values"][k] for k in ks], [b["overall_cost"]] + [b["values"][k] for k in ks], rel, ab
    )


def bump(v, n, d):
    f = list(flat(v))
    k = n % len(f)
    it = iter([x + (d if i == k else 0.0) for i, x in enumerate(f)])

    def put(x):
        return [put(y) for y in x] if isinstance(x, list) else next(it)

    return put(v)


def sched_active():
    import threading

    return threading.current_thread() is not threading.main_thread()


def execute(plan, scratch):
    sp = plan["spec"]
    ref = lang.RefStudy(sp["models"], sp["net"], sp["data"])
    real = lang.RealStudy(sp)
    pre = Session(plan, real, ref, [], "pre")
    probes = {}
    for ops in [plan["pre"]] + plan["callers"]:
        for op in ops:
            probes[op[0]] = probes.get(op[0], 0) + 1
    res = {"violation": None, "probes": probes, "faults": {}, "steps": 0}
    try:
        pre.run(plan["pre"])
    except Bad as e:
        res["violation"] = str(e)
        return res
    ss = [Session(plan, real, ref, pre.own, c) for c in range(len(plan["callers"]))]
    sim = None
    try:
        if len(ss) == 1:
            ss[0].run(plan["callers"][0])
        else:

            def body(c):
                def f():
                    try:
                        ss[c].run(plan["callers"][c])
                    except Bad as e:
                        return str(e)

                return f

            sim = sched.Sim(
                [body(c) for c in range(len(ss))], plan["schedule"], instr=plan["instr"], cyclic=plan["cyclic"], hot=plan.get("hot")
            ).run()
            if sim.failure is not None:
                res["violation"] = f"no-progress: {sim.failure!r}"
            for c in sim.callers:
                if c.error is not None:
                    res["violation"] = f"caller-died: {type(c.error).__name__}: {c.error}"
                elif c.result:
                    res["violation"] = c.result
        pre.verify_all = [pre.verify(o, m, "shared, at the very end") for o, m in pre.own]
    except Bad as e:
        res["violation"] = str(e)
    f = {}
    for s in [pre] + ss:
        for k, v in s.faults.items():
            f[k] = f.get(k, 0) + v
    log = repr([s.log for s in [pre] + ss])
    import hashlib

    sig = hashlib.sha256(log.encode()).hexdigest()[:16]
    if sim:
        f["preemption"] = sim.switches
        res["interleaving"] = f"{sim.digest:x}"
        sig += f"{sim.digest:x}"
        res["trace"] = sim.trace[:60]
    res["faults"] = f
    res["sig"] = sig
    res["steps"] = (sim.total if sim else 0) + sum(len(s.log) for s in ss)
    res["nontrivial"] = sum(s.checked for s in ss) > len(ss)
    return res


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(
                plan,
                callers=[plan["callers"][c]],
                schedule=[],
            )
        for c in range(n):
            if n > 2:
                yield dict(
                    plan,
                    callers=plan["callers"][:c] + plan["callers"][c + 1 :],
                    schedule=[[t if t < c else t - 1, p] for t, p in plan["schedule"] if t != c],
                )
    for x in SH.drop_each(plan["pre"]):
        yield dict(plan, pre=x)
    for c in range(n):
        for x in SH.drop_each(plan["callers"][c]):
            cs = list(plan["callers"])
            cs[c] = x
            yield dict(plan, callers=cs)
    for x in SH.drop_each(plan["probs"]):
        if x:
            yield dict(plan, probs=x)
    if plan["instr"]:
        yield dict(plan, instr=False)
    for s in SH.drop_each(plan["schedule"]):
        if s:
            yield dict(plan, schedule=s)
    for v in SH.study_simpler(plan["spec"]):
        if v["net"]["comps"]:
            yield dict(plan, spec=v)
