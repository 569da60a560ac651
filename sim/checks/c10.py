"""C10: histories of creating, coupling, building, rebuilding and failing decision trees
in one process, compared with the reference decomposition of each tree."""
import hashlib
import json
import math
import os
import pathlib
import random

import canon
import gen as G
import invest as I
import lang
import mps
import sched
import shrink as SH
import world as W

ID = "C10"
LEVEL = "exploration"
RULE = (
    "one run = one seeded history of 4-24 operations (create a tree, define a coupling, refused coupling, build, build "
    "again, build aborted by an interrupt or by failing data, export and solve from the files, recheck earlier results) "
    "over 1-4 decision trees sharing networks and data, by one caller or by two callers under an explicit schedule; "
    "non-trivial when at least two decompositions were compared with the reference; distinct = distinct hash of the "
    "compared problems"
)
COMPONENTS = {
    "decision trees, couplings, building, fusion, export (/repo/src)": "real",
    "OR-tools (models, MPS writer)": "real",
    "external Benders solver": "stub: the exported files are read back by an independent MPS/structure reader and the "
    "linked problem is solved as one",
    "threads": "real Python threads, one at a time, switched only by the simulator",
}
ASSUMPTIONS = [
    "the MPS writer of OR-tools keeps 6 significant digits: optima of exported files are compared with the "
    "reference rounded likewise, within 1e-4, integrality relaxed; the problems themselves are compared exactly (1e-9)",
    "couplings are defined on investment variables of components of the nodes' networks",
]
QUICK = {"runs": 100000, "secs": 50}
THOROUGH = {"runs": 10**7, "secs": 1200}


def gen_trees(rng, sp, nets, k):
    trees = []
    for _ in range(k):
        ids = list(rng.choice(I.NODE_SETS))
        t = W.gen_tree(rng, sp, ids, rng.choice([1, 2, 3, 3, 4]))
        for n, _, _ in I.walk(t):
            n.pop("coupl", None)
            n["net"] = rng.randrange(len(nets)) if rng.random() < 0.3 else 0
        trees.append(t)
    return trees


def gen(rng, tier):
    nodes = sorted({n for s in I.NODE_SETS for n in s})
    friendly = rng.random() < 0.6
    if friendly:
        sp = I.gen_invest(rng, nodes if rng.random() < 0.5 else ())
    else:
        sp = G.gen_study(rng, invest=True, small=rng.random() < 0.7, tree_nodes=nodes if rng.random() < 0.5 else ())
    nets = [sp["net"]] + [I.gen_variant_net(rng, sp) for _ in range(rng.choice([0, 0, 1, 2]))]
    k = rng.randint(1, 4)
    trees = gen_trees(rng, sp, nets, k)
    if k > 1 and rng.random() < 0.3:
        trees[1] = json.loads(json.dumps(trees[0]))  # twins
    n = rng.choice([1, 1, 1, 2])
    callers = []
    for c in range(n):
        ops = []
        mine = [i for i in range(k) if n == 1 or i % n == c]
        for i in mine:
            ops.append(["make", i])
        for _ in range(rng.randint(2, 14)):
            if not mine:
                break
            i = rng.choice(mine)
            o = rng.choice(
                ["couple"] * 4 + ["build"] * 4 + ["badcouple", "abort", "abort", "faildata", "export", "export", "make", "recheck"]
            )
            if o in ("couple", "badcouple"):
                nd = rng.choice(list(I.walk(trees[i])))
                cp = I.gen_coupling(rng, sp, nets, nd[0], nd[1])
                if cp is None:
                    continue
                ops.append([o, i, nd[0]["id"], cp, rng.randrange(4)])
            elif o == "abort":
                ops.append([o, i, rng.randrange(3000)])
            elif o == "faildata":
                ops.append([o, i, rng.randrange(60)])
            else:
                ops.append([o, i])
        for i in mine:
            ops.append([rng.choice(["build", "export"]), i])
        ops.append(["recheck", 0])
        callers.append(ops)
    return {
        "spec": sp,
        "nets": nets,
        "trees": trees,
        "callers": callers,
        "share": rng.random() < 0.5,
        "schedule": sched.gen_schedule(rng, n, 20000) if n > 1 else [],
        "cyclic": rng.random() < 0.5,
        "hot": sched.gen_hot(rng),
    }


class Bad(Exception):
    pass


class FailingDatabase:
    """the database, whose k-th read fails"""

    def __init__(self, db, at):
        self._db, self._at, self.n, self.fired = db, at, 0, False

    def __getattr__(self, k):
        return getattr(self._db, k)

    def get_data(self, *a, **k):
        self.n += 1
        if self.n - 1 == self._at:
            self.fired = True
            raise OSError("data source failed")
        return self._db.get_data(*a, **k)


def six(x):
    return float(f"{x:.6g}") if math.isfinite(x) else x


def rounded(p):
    """the problem with the digits that the MPS writer keeps"""
    return {
        "vars": {n: [six(v[0]), six(v[1]), v[2]] for n, v in p["vars"].items()},
        "rows": [[{n: six(x) for n, x in co.items()}, six(lo), six(hi)] for co, lo, hi in p["rows"]],
        "obj": {n: six(x) for n, x in p["obj"].items()},
        "off": six(p["off"]),
    }


class Session:
    def __init__(self, plan, nets, db, scratch, who, alone):
        self.plan, self.nets, self.db, self.scratch, self.who = plan, nets, db, scratch, who
        self.real, self.coupl, self.reg = {}, {}, {}
        self.kept = []  # [(decomposition, canonical problems)]
        self.compared = 0
        self.probes, self.faults = {}, {}
        self.alone = alone
        self.h = hashlib.sha256()

    def run(self):
        for k, op in enumerate(self.plan["callers"][self.who]):
            self.probes[op[0]] = self.probes.get(op[0], 0) + 1
            try:
                self.step(op, k)
            except Bad as e:
                raise Bad(f"{e} (caller {self.who}, op {k} {op[0]} of tree {op[1]})")

    def step(self, op, k):
        i = op[1]
        if op[0] == "make":
            self.reg[i] = {}
            self.real[i] = I.real_tree(self.plan["trees"][i], self.nets, None, self.reg[i])
            self.coupl[i] = {}
            return
        if op[0] != "recheck" and i not in self.real:
            return
        if op[0] == "couple":
            I.couple(self.reg[i][op[2]], op[3])
            self.coupl[i].setdefault(op[2], []).append(op[3])
        elif op[0] == "badcouple":
            c = list(op[3])
            c[[1, 3, 4, 4][op[4]]] = "nosuch"
            node = self.reg[i][op[2]]
            try:
                if op[4] == 3 and node.parent is not None:
                    # a component of the parent that the parent does not have
                    from andromede.study.network import create_component

                    src = node.network.get_component(op[3][2])
                    other = create_component(model=src.model, id="nosuch")
                    node.define_coupling_constraint(other, op[3][3], src, op[3][3], op[3][4])
                else:
                    I.couple(node, c)
            except (ValueError, RuntimeError, KeyError):
                return
            raise Bad(f"bad-coupling-accepted: {c}")
        elif op[0] == "build":
            self.build(i)
        elif op[0] == "export":
            p, want = self.build(i)
            if p is not None:
                self.export(p, want, f"{self.who}_{k}")
        elif op[0] == "abort":
            if not self.alone:
                return
            from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

            f, r, e = sched.run_aborting(
                lambda: build_benders_decomposed_problem(self.real[i], self.db), op[2], KeyboardInterrupt
            )
            if f is not None:
                self.faults["interrupt"] = self.faults.get("interrupt", 0) + 1
        elif op[0] == "faildata":
            from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

            d = FailingDatabase(self.db, op[2])
            try:
                build_benders_decomposed_problem(self.real[i], d)
            except Exception:
                pass
            if d.fired:
                self.faults["failed-read"] = self.faults.get("failed-read", 0) + 1
        elif op[0] == "recheck":
            for n, (p, was) in enumerate(self.kept):
                now = self.canon(p)
                for (a, x), (b, y) in zip(now, was):
                    d = canon.diff(x, y)
                    if a != b or d:
                        raise Bad(f"earlier-problem-changed: decomposition {n}, {b}: {a if a != b else d}")

    def canon(self, p):
        return [(q.name, canon.canon_problem(q)) for q in [p.master] + list(p.subproblems)]

    def build(self, i):
        from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

        pl = self.plan
        try:
            want = I.reference(pl["spec"], pl["nets"], pl["spec"]["data"], pl["trees"][i], self.coupl[i])
        except lang.Refused:
            want = None
        try:
            p = build_benders_decomposed_problem(self.real[i], self.db)
        except Exception as e:
            if want is not None:
                raise Bad(f"build-failed: {type(e).__name__}: {e}")
            return None, None
        if want is None:
            raise Bad("built-though-refused: the reference refuses this tree")
        got = self.canon(p)
        if len(got) != 1 + len(want[1]):
            raise Bad(f"wrong-subproblems: {[n for n, _ in got]}")
        if got[0][0] != "master":
            raise Bad(f"wrong-name: master is {got[0][0]}")
        d = canon.diff(got[0][1], want[0])
        if d:
            raise Bad(f"wrong-master: {d}")
        byname = dict(got[1:])
        for n, q in want[1]:
            if n not in byname:
                raise Bad(f"wrong-subproblems: no {n} in {[m for m, _ in got]}")
            d = canon.diff(byname[n], q)
            if d:
                raise Bad(f"wrong-subproblem: {n}: {d}")
        self.compared += 1
        self.h.update(repr([canon.fingerprint(q) for _, q in got]).encode())
        self.kept.append((p, got))
        return p, want

    def export(self, p, want, tag):
        d = os.path.join(self.scratch, f"x{tag}")
        p.emplacement = pathlib.Path(d)
        p.initialise()

        def read(n):
            with open(os.path.join(d, n)) as f:
                return f.read()

        try:
            full = I.from_files(read, [n for n, _ in want[1]])
        except (mps.BadFile, OSError, KeyError) as e:
            raise Bad(f"bad-export: {type(e).__name__}: {e}")
        ref = mps.join(rounded(want[0]), [rounded(q) for _, q in want[1]])
        a = mps.solve(ref)
        b = mps.solve(full)
        self.probes[f"optimum_{a[0]}"] = self.probes.get(f"optimum_{a[0]}", 0) + 1
        # the digits lost in the text can move the optimum, or make a problem infeasible: such a difference
        # counts only when the problems themselves differ by more than these digits
        scale = sum(abs(q["off"]) for _, q in want[1])
        if "other" not in (a[0], b[0]) and "optimal" in (a[0], b[0]):
            if a[0] != b[0] or abs(a[1] - b[1]) > 1e-4 * (1 + abs(a[1]) + scale):
                x = mps.near(full, mps.join(want[0], [q for _, q in sorted(want[1], key=lambda x: x[0])]), scale=scale)
                if x:
                    raise Bad(f"wrong-optimum: exported {b[:2]}, reference {a[:2]}: {x}")
                self.probes["optimum_moved_by_rounding"] = self.probes.get("optimum_moved_by_rounding", 0) + 1


def execute(plan, scratch):
    sp = plan["spec"]
    lang.MEMO = {} if plan.get("share") else None
    pts = lang.to_port_types(sp["port_types"])
    models = {k: lang.to_model(m, pts) for k, m in sp["models"].items()}
    nets = [lang.to_network(n, models) for n in plan["nets"]]
    db = lang.to_database(sp["data"])
    n = len(plan["callers"])
    ss = [Session(plan, nets, db, scratch, c, n == 1) for c in range(n)]
    res = {"violation": None}
    sim = None
    if n == 1:
        try:
            ss[0].run()
        except Bad as e:
            res["violation"] = str(e)
    else:

        def body(c):
            def f():
                try:
                    ss[c].run()
                except Bad as e:
                    return str(e)

            return f

        sim = sched.Sim([body(c) for c in range(n)], plan["schedule"], cyclic=plan["cyclic"], hot=plan.get("hot")).run()
        if sim.failure is not None:
            res["violation"] = f"no-progress: {sim.failure!r}"
        for c in sim.callers:
            if c.error is not None:
                res["violation"] = f"caller-died: {type(c.error).__name__}: {c.error}"
            elif c.result:
                res["violation"] = c.result
    probes, faults = {}, {}
    for s in ss:
        for src, dst in ((s.probes, probes), (s.faults, faults)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    sig = hashlib.sha256("".join(s.h.hexdigest() for s in ss).encode()).hexdigest()[:16]
    if sim:
        faults["preemption"] = sim.switches
        res["interleaving"] = f"{sim.digest:x}"
        res["trace"] = sim.trace[:60]
    res.update(
        probes=probes,
        faults=faults,
        sig=sig,
        nontrivial=sum(s.compared for s in ss) >= 2,
        steps=sum(probes.values()) + (sim.total if sim else 0),
    )
    return res


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(plan, callers=[plan["callers"][c]], schedule=[])
    for c in range(n):
        for x in SH.drop_each(plan["callers"][c]):
            cs = list(plan["callers"])
            cs[c] = x
            yield dict(plan, callers=cs)
    for i, t in enumerate(plan["trees"]):
        for v in tree_simpler(t):
            ts = list(plan["trees"])
            ts[i] = v
            keep = {n["id"] for n, _, _ in I.walk(v)}
            cs = [
                [o for o in ops if o[0] not in ("couple", "badcouple") or o[1] != i or o[2] in keep]
                for ops in plan["callers"]
            ]
            yield dict(plan, trees=ts, callers=cs)
    for s in SH.drop_each(plan["schedule"]):
        if s:
            yield dict(plan, schedule=s)
    if len(plan["nets"]) == 1:
        for v in SH.study_simpler(plan["spec"]):
            ids = {c for c, _ in v["net"]["nodes"] + v["net"]["comps"]}
            cs = [
                [o for o in ops if o[0] not in ("couple", "badcouple") or (o[3][0] in ids and o[3][2] in ids)]
                for ops in plan["callers"]
            ]
            yield dict(plan, spec=v, nets=[v["net"]], callers=cs)
    else:
        ts = json.loads(json.dumps(plan["trees"]))
        for t in ts:
            for n_, _, _ in I.walk(t):
                n_["net"] = 0
        yield dict(plan, trees=ts, nets=plan["nets"][:1])


def tree_simpler(t):
    for k in range(len(t["kids"])):
        if not t["kids"][k]["kids"]:
            kids = t["kids"][:k] + t["kids"][k + 1 :]
            kids = [dict(x, prob=1.0 / len(kids)) for x in kids] if len(kids) in (1, 2) else kids
            if len(kids) <= 2:
                yield dict(t, kids=kids)
        for v in tree_simpler(t["kids"][k]):
            yield dict(t, kids=t["kids"][:k] + [v] + t["kids"][k + 1 :])
    if len(t["blocks"]) > 1:
        yield dict(t, blocks=t["blocks"][:1])
    if t["S"] > 1:
        yield dict(t, S=1)
