"""C08: histories of Benders runs against a stub solver that succeeds, fails, dies,
cannot start or writes damaged results, over storage faults and interrupts."""
import hashlib
import json
import os
import pathlib

import faultfs
import gen as G
import invest as I
import lang
import procs
import sched
import shrink as SH
import solverstub as ST
from checks.c07 import make, read_all, validate
from checks.c10 import gen_trees

ID = "C08"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded history of 2-8 Benders runs (decomposed or merged) of 1-3 problems in 1-2 directories, by one or "
    "two callers, with problem changes between runs, stale result files, missing binaries, and a scripted outcome of each "
    "solver process, plus storage faults or an interrupt; non-trivial when a solver process was started after an earlier "
    "run or a stale result existed; distinct = distinct sequence of (outcome, faults, result)"
)
COMPONENTS = {
    "building, export, runners, reading of solutions (/repo/src), subprocess module down to process creation": "real",
    "external solver processes": "stub (scripted outcome)",
    "file layer below Python's buffered files": "simulated (faults), data kept on a scratch directory",
    "threads": "real Python threads, one at a time, switched only by the simulator",
}
ASSUMPTIONS = [
    "the solver reads options.json in its working directory and writes its result where the options say",
    "a missing solver binary is tolerated by the existing API (success without solution)",
]
QUICK = {"runs": 100000, "secs": 45}
THOROUGH = {"runs": 10**7, "secs": 1200}


def gen(rng, tier):
    sp = I.gen_invest(rng)
    nets = [sp["net"]]
    k = rng.choice([1, 1, 2, 3])
    trees = gen_trees(rng, sp, nets, k)
    for t in trees:
        if len(t["kids"]) > 1 and rng.random() < 0.5:
            t["kids"] = t["kids"][:1]
            t["kids"][0]["prob"] = 1.0
    n = rng.choice([1, 1, 1, 2])
    callers = []
    tok = 1
    for c in range(n):
        steps = []
        for _ in range(rng.randint(2, 6 if n == 1 else 3)):
            r = rng.random()
            st = {
                "p": rng.randrange(k),
                "dir": rng.choice([0, 0, 0, 1]),
                "merge": rng.random() < 0.35,
                "debug": rng.random() < 0.2,
                "oc": ST.gen_outcome(rng, tok),
                "stale": rng.random() < 0.15,
                "skew": rng.choice([0, -3600, 3600]),
                "change": [rng.randrange(99), rng.randrange(1, 40) / 4] if rng.random() < 0.3 else None,
                "faults": [],
                "abort": None,
                "rebuild": rng.random() < 0.15,
                "bin": rng.choice(["both"] * 8 + ["none", "noexec", "other"]),
            }
            tok += 1
            if n == 1 and r < 0.2:
                st["faults"] = [[rng.random(), rng.choice(["eio", "enospc", "eacces", "emfile", "crash", "short"])]]
            elif n == 1 and r < 0.35:
                st["abort"] = rng.randrange(1, 500)
            steps.append(st)
        callers.append(steps)
    return {
        "spec": sp,
        "trees": trees,
        "coupl": [{} for _ in trees],
        "struct": "structure.txt",
        "callers": callers,
        "out": rng.choice(["expansion", "expansion", "res/x"]),
        "rel": rng.random() < 0.5,
        "schedule": sched.gen_schedule(rng, n, 8000) if n > 1 else [],
        "cyclic": rng.random() < 0.5,
        "hot": sched.gen_hot(rng),
        "frac": rng.random(),
    }


class Bad(Exception):
    pass


class Session:
    def __init__(self, plan, nets, db, root, who, ps):
        self.plan, self.nets, self.db, self.root, self.who = plan, nets, db, root, who
        self.ps = ps
        self.probs, self.wants = {}, {}
        self.kept = []
        self.log = []
        self.probes, self.faults = {}, {}
        self.nontrivial = 0
        self.current = None
        self.steps = 0

    def problem(self, i, fresh=False):
        if i not in self.probs or fresh:
            pl = self.plan
            self.probs[i] = make(pl, self.nets, self.db, i)
            self.probs[i].output_path = pathlib.Path(pl["out"])
            self.wants[i] = I.reference(pl["spec"], [pl["spec"]["net"]], pl["spec"]["data"], pl["trees"][i], {})
        return self.probs[i], self.wants[i]

    def run(self):
        for j, st in enumerate(self.plan["callers"][self.who]):
            try:
                self.step(j, st)
            except Bad as e:
                raise Bad(f"{e} (caller {self.who}, run {j}, solver {st['oc']['kind']})")
        for s, data, t in self.kept:
            if s.data != data or type(s) is not t:
                raise Bad("earlier-solution-changed: a solution kept from an earlier run is no longer what it was")

    def step(self, j, st):
        from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution

        p, want = self.problem(st["p"], st["rebuild"])
        if st["change"]:
            vs = sorted(want[0]["vars"])
            if vs:
                v = vs[st["change"][0] % len(vs)]
                p.master.solver.Objective().SetCoefficient(p.master.solver.LookupVariable(v), st["change"][1])
                want[0]["obj"][v] = st["change"][1]
        d = os.path.join(self.root, f"caller{self.who}", f"d{st['dir']}")
        clean = os.path.join(self.root, "clean", f"{self.who}_{j}")
        p.emplacement = pathlib.Path(clean)
        p.initialise(is_debug=st["debug"])
        cl = read_all(clean)
        v = validate(cl, want, {"solver": "XPRESS", "log": 0, "debug": st["debug"]}, self.plan)
        if v:
            raise Bad(v)
        out = os.path.join(d, self.plan["out"], "out.json")
        if os.path.isdir(out):
            os.rmdir(out)
        if st["stale"]:
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "w") as f:
                json.dump(ST.result(9000, st["merge"], ["stale"]), f)
            t = os.stat(out).st_mtime + st["skew"]
            os.utime(out, (t, t))
        if os.path.exists(out) or self.kept:
            self.nontrivial += 1
        for n, m in (("benders", False), ("merge_mps", True)):
            f = os.path.join(self.root, "bin", n)
            have = st["bin"] in ("both", "noexec") or (st["bin"] == "other" and m != st["merge"])
            if len(self.plan["callers"]) > 1:
                have = True
            if have and not os.path.exists(f):
                open(f, "w").close()
            elif not have and os.path.exists(f):
                os.unlink(f)
            if have:
                os.chmod(f, 0o644 if st["bin"] == "noexec" and len(self.plan["callers"]) == 1 else 0o755)
        p.emplacement = pathlib.Path(os.path.relpath(d, self.root) if self.plan["rel"] else d)
        oc = dict(st["oc"], merged=st["merge"], values=[f"v{st['p']}", "x"])
        self.current = (d, oc, cl, st)
        mine = len(self.ps.mine(self.who))
        prior = p.solution
        ret = err = None
        fired = None
        aborted = False
        fs = None

        def go():
            return p.run(should_merge=st["merge"], show_debug=st["debug"])

        if st["abort"] is not None:
            site, ret, err = sched.run_aborting(go, st["abort"], KeyboardInterrupt)
            aborted = site is not None
            if aborted:
                self.faults["interrupt"] = self.faults.get("interrupt", 0) + 1
        else:
            # files of the solver process are not subject to the faults
            fs = faultfs.FS(d, {}, self.plan["frac"]) if st["faults"] else None
            try:
                if fs:
                    total = 4 * (len(cl) + 2)
                    fs.faults = {int(f * total): k for f, k in st["faults"]}
                    self.ps.fs = fs
                    with fs:
                        ret = go()
                else:
                    ret = go()
            except faultfs.Crash:
                err = "crash"
            except Exception as e:
                err = e
            finally:
                self.ps.fs = None
        if fs:
            self.steps += fs.n
            for _, kind, rel, f in fs.fired:
                self.faults[f"{kind}:{f}"] = self.faults.get(f"{kind}:{f}", 0) + 1
        started = self.ps.mine(self.who)[mine:]
        sol = p.solution
        k = oc["kind"]
        self.faults["solver_" + k] = self.faults.get("solver_" + k, 0) + 1
        self.log.append((k, None if err is None else type(err).__name__, ret, sol is not None, len(started)))
        if err == "crash":
            # the process is gone: go on with fresh objects
            self.probs.pop(st["p"], None)
            return
        for q in started:
            if q.notes.get("bad"):
                raise Bad(q.notes["bad"])
        if len(started) > 1:
            raise Bad(f"started-twice: {len(started)} solver processes")
        q = started[0] if started else None
        good = q is not None and q.started and q.status == 0 and q.notes.get("wrote") is not None
        disturbed = aborted or (fs and fs.fired)
        if aborted and sol is not None and sol is prior and not started:
            # interrupted before it began: as if it had not been called
            sol = None
        if sol is not None:
            if not good:
                raise Bad(
                    f"stale-solution: a solution is reported though the solver "
                    f"{'was not started' if q is None else f'ended with {q.status}, wrote ' + str(bool(q.notes.get('wrote')))}"
                )
            if sol.data != q.notes["wrote"]:
                raise Bad("stale-solution: the solution is not what the solver wrote in this run")
            self.accessors(sol, q.notes["wrote"], st["merge"])
            if type(sol) is not (BendersMergedSolution if st["merge"] else BendersDecomposedSolution):
                raise Bad(f"wrong-kind: {type(sol).__name__} though merge={st['merge']}")
            if err is None and not ret:
                raise Bad("not-reported: a solution was obtained but the run is reported as failed")
            self.kept.append((sol, json.loads(json.dumps(sol.data)), type(sol)))
        if err is None and ret and q is not None and (not q.started or q.status != 0):
            raise Bad(f"failure-reported-as-success: the solver ended with {q.status if q.started else 'no start'}")
        if not disturbed:
            if good and (err is not None or sol is None):
                raise Bad(f"lost-solution: the solver succeeded but the run gave {ret!r} / {err!r} / no solution")
            have = st["bin"] == "both" or len(self.plan["callers"]) > 1
            if have and q is None:
                raise Bad(f"not-started: the solver was not started ({ret!r} {err!r})")
            if err is not None and q is not None and q.started and q.status != 0:
                raise Bad(f"run-raised: the solver ended with {q.status}, and the run raised {err!r}")
        self.probes["runs"] = self.probes.get("runs", 0) + 1
        if sol is not None:
            self.probes["solutions"] = self.probes.get("solutions", 0) + 1
        self.steps += 1

    def accessors(self, s, data, merged):
        d = data["solution"]
        got = [s.overall_cost, s.investment_cost, s.operational_cost, s.candidates, s.status, s.absolute_gap, s.relative_gap, s.stopping_criterion]
        want = [
            d["overall_cost"], d["investment_cost"], d["operational_cost"], d["values"], d["problem_status"],
            d["optimality_gap"], d["relative_gap"], d["stopping_criterion"],
        ]
        if merged:
            got += [getattr(s, "lower_bound", None), getattr(s, "upper_bound", None)]
            want += [d["lb"], d["ub"]]
        else:
            got += [getattr(s, "nb_iterations", None), getattr(s, "duration", None)]
            want += [d["iteration"], data["run_duration"]]
        if got != want:
            raise Bad(f"wrong-solution: {got} read, {want} written")


class Stub(procs.Processes):
    """stub processes of the callers; a process belongs to the caller whose directory it runs in"""

    def __init__(self, sessions, root):
        super().__init__(self.start)
        self.sessions = sessions
        self.root = os.path.realpath(root)
        self.fs = None

    def mine(self, who):
        return [q for q in self.log if q.notes.get("who") == who]

    def start(self, proc):
        who = None
        rel = os.path.relpath(proc.cwd, self.root)
        for s in self.sessions:
            if rel.split(os.sep)[0] == f"caller{s.who}":
                who = s
        if who is None:
            # nobody's directory: attribute it to the caller that runs now
            who = self.running()
            proc.notes["bad"] = f"wrong-directory: a solver was started in {rel}"
        proc.notes["who"] = who.who
        d, oc, cl, st = who.current
        name = "merge_mps" if st["merge"] else "benders"

        def on_start(p):
            if os.path.realpath(d) != p.cwd:
                p.notes["bad"] = f"wrong-directory: started in {rel}"
            if p.exe != os.path.join(self.root, "bin", name):
                p.notes["bad"] = f"wrong-program: {p.exe}"
            if p.args[1:] != ["options.json"]:
                p.notes["bad"] = f"wrong-arguments: {p.args[1:]}"
            got = read_real(p.cwd)
            for n, data in cl.items():
                if got.get(n) != data:
                    p.notes["bad"] = f"wrong-files: the solver was started while {n} is {'missing' if n not in got else 'not the current file'}"
        if not oc.get("on"):
            oc["on"] = True
        return self._guard(ST.program(proc, oc, on_start))

    def _guard(self, gen):
        """the solver is another process: its own file accesses are not subject to faults"""
        while True:
            fs = self.fs
            if fs:
                fs.__exit__()
            try:
                next(gen)
            except StopIteration as e:
                return e.value
            finally:
                if fs:
                    fs.__enter__()
            yield

    def running(self):
        import threading

        t = getattr(sched, "_current", None)
        if isinstance(t, sched.Sim) and t.cur is not None:
            return self.sessions[t.cur.tid]
        return self.sessions[0]


def read_real(d):
    r = {}
    for n in faultfs._real["listdir"](d):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with faultfs._real_open(p, "rb") as f:
                r[n] = f.read()
    return r


def execute(plan, scratch):
    sp = plan["spec"]
    pts = lang.to_port_types(sp["port_types"])
    models = {k: lang.to_model(m, pts) for k, m in sp["models"].items()}
    nets = [lang.to_network(sp["net"], models)]
    db = lang.to_database(sp["data"])
    root = os.path.join(scratch, "w")
    os.makedirs(os.path.join(root, "bin"))
    os.chdir(root)
    ss = []
    stub = Stub(ss, root)
    n = len(plan["callers"])
    ss.extend(Session(plan, nets, db, root, c, stub) for c in range(n))
    res = {"violation": None}
    sim = None
    with stub:
        if n == 1:
            try:
                ss[0].run()
            except Bad as e:
                res["violation"] = str(e)
        else:

            def body(c):
                def f():
                    try:
                        ss[c].run()
                    except Bad as e:
                        return str(e)

                return f

            sim = sched.Sim([body(c) for c in range(n)], plan["schedule"], cyclic=plan["cyclic"], hot=plan.get("hot")).run()
            if sim.failure is not None:
                res["violation"] = f"no-progress: {sim.failure!r}"
            for c in sim.callers:
                if c.error is not None:
                    res["violation"] = f"caller-died: {type(c.error).__name__}: {c.error}"
                elif c.result:
                    res["violation"] = c.result
    if res["violation"] is None and os.getcwd() != os.path.realpath(root):
        res["violation"] = f"cwd-changed: {os.getcwd()}"
    probes, faults = {"waits": stub.waits, "started": len(stub.log)}, {}
    for s in ss:
        for src, dst in ((s.probes, probes), (s.faults, faults)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    if sim:
        faults["preemption"] = sim.switches
        res["interleaving"] = f"{sim.digest:x}"
        res["trace"] = sim.trace[:60]
    res.update(
        probes=probes,
        faults=faults,
        sig=hashlib.sha256(repr([s.log for s in ss]).encode() + json.dumps([plan["callers"], plan["schedule"]]).encode()).hexdigest()[:16],
        nontrivial=sum(s.nontrivial for s in ss) > 0 and len(stub.log) > 0,
        steps=sum(s.steps for s in ss) + (sim.total if sim else 0),
    )
    return res


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(plan, callers=[plan["callers"][c]], schedule=[])
    for c in range(n):
        for x in SH.drop_each(plan["callers"][c]):
            if x:
                cs = list(plan["callers"])
                cs[c] = x
                yield dict(plan, callers=cs)
        for j, st in enumerate(plan["callers"][c]):
            for k, v in (
                ("faults", []), ("abort", None), ("stale", False), ("change", None), ("debug", False),
                ("rebuild", False), ("bin", "both"), ("merge", False), ("dir", 0), ("p", 0),
            ):
                if st[k] != v:
                    cs = [list(x) for x in plan["callers"]]
                    cs[c][j] = dict(st, **{k: v})
                    yield dict(plan, callers=cs)
    for s in SH.drop_each(plan["schedule"]):
        if s:
            yield dict(plan, schedule=s)
    from checks.c10 import tree_simpler

    for i, t in enumerate(plan["trees"]):
        for v in tree_simpler(t):
            ts = list(plan["trees"])
            ts[i] = v
            yield dict(plan, trees=ts)
    for v in SH.study_simpler(plan["spec"]):
        yield dict(plan, spec=v)
