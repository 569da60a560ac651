"""C12: sequences and interleavings of conversions in one process against conversions alone in a fresh process."""
import hashlib
import json
import os

import antstudy as A
import faultfs
import harness as H
import sched
import shrink as SH

ID = "C12"
LEVEL = "exploration"
RULE = (
    "one run = 1-3 generated studies with common names, installed at 1-4 places, and a seeded history of conversions (from paths or "
    "study objects, any period, repeated, failed, by new or kept converters, places overwritten by other studies in between) in one process, "
    "by one caller or by 2-3 interleaved callers; non-trivial when at least two conversions succeeded; distinct = distinct "
    "sequence of (content, period, outcome) and schedule"
)
COMPONENTS = {
    "converter, preprocessing of thermals and binding constraints, yaml output (/repo/src)": "real",
    "antares_craft, pandas, PyYAML": "real",
    "thread scheduling": "simulated: seeded pre-emption at source lines of /repo/src and at file operations",
    "file layer below Python's buffered files": "simulated (errors), data kept on a scratch directory",
}
ASSUMPTIONS = [
    "threads are pre-empted at source lines of /repo/src and at file operations, not inside antares_craft, pandas and PyYAML between them",
    "callers that convert the same place at the same time use the same period; its derived series are judged when all are done",
]
QUICK = {"runs": 100000, "secs": 60}
THOROUGH = {"runs": 10**7, "secs": 1200}


def warm():
    A.warm()


def gen(rng, tier):
    nc = rng.choice([1, 1, 2, 3])
    specs = [A.gen(rng, n=rng.choice([3, 4, 6]), rich=rng.choice([0.3, 0.7]), default=0.03) for _ in range(rng.choice([1, 2, 2, 3]))]
    if len(specs) > 1 and rng.random() < 0.5:
        # the same objects with other values
        specs[1] = vary(rng, specs[0])
    periods = rng.sample([None, 2, 3, 4], 2)
    callers = []
    for c in range(nc):
        places = [f"p{c}_{i}" for i in range(rng.choice([1, 1, 2]))]
        at = {}
        ops = []
        for p in places:
            at[p] = rng.randrange(len(specs))
            ops.append(["install", p, at[p]])
        for _ in range(rng.randint(2, 6) if nc == 1 else rng.randint(1, 4)):
            p = rng.choice(places)
            r = rng.random()
            if r < 0.2:
                at[p] = rng.randrange(len(specs))
                ops.append(["install", p, at[p]])
            elif r < 0.35:
                ops.append(["fail", p, rng.choice(periods), rng.random(), rng.choice(["lost", "lost", "eio", "badout"])])
            elif r < 0.45:
                ops.append(["again", p, rng.choice(["all", "mem"])])
            elif r < 0.55 and nc > 1:
                ops.append(["common", rng.choice(["all", "mem"]), rng.choice(["path", "study"])])
            else:
                ops.append(["conv", p, rng.choice(["path", "study", "rel"]), rng.choice(periods), rng.choice(["all", "all", "mem"]), rng.random() < 0.3])
        callers.append(ops)
    return {
        "specs": specs,
        "homonyms": rng.random() < 0.7,
        "callers": callers,
        "common": [rng.randrange(len(specs)), rng.choice(periods)],
        "schedule": sched.gen_schedule(rng, nc, 1500) if nc > 1 else [],
        "cyclic": rng.random() < 0.7,
        "hot": sched.gen_hot(rng),
    }


def vary(rng, sp):
    """the same objects, other values"""
    r = json.loads(json.dumps(sp))
    o = A.gen(rng, n=sp["n"], rich=1.0)
    ts = [t for a in o["areas"] for t in a["thermals"]] or [A._thermal(rng, "x", sp["n"])]
    bs = [a["battery"] for a in o["areas"]]
    for a in r["areas"]:
        a["ens"] += 1
        for t in a["thermals"]:
            t.update({k: v for k, v in rng.choice(ts).items() if k != "name"})
        if a["battery"]:
            a["battery"] = rng.choice(bs) if rng.random() < 0.9 else None
        for k in ("load", "wind", "solar"):
            if a[k] is not None and rng.random() < 0.5:
                a[k] = A._mat(rng, sp["n"], 2)
    return r


def install(src, dst):
    """not an operation of the code under test: outside the simulated file layer"""
    R = faultfs._real
    if os.path.isdir(dst):
        for base, dirs, files in list(os.walk(dst, topdown=False)):
            for f in files:
                R["unlink"](os.path.join(base, f))
            R["rmdir"](base)

    def cp(a, b):
        R["mkdir"](b)
        for n in sorted(R["listdir"](a)):
            x, y = os.path.join(a, n), os.path.join(b, n)
            if os.path.isdir(x):
                cp(x, y)
            else:
                with faultfs._real_open(x, "rb") as f, faultfs._real_open(y, "wb") as g:
                    g.write(f.read())

    cp(src, dst)


def pairs_needed(plan):
    """(content, period) converted somewhere"""
    r = set()
    for ops in plan["callers"]:
        at = {}
        for op in ops:
            if op[0] == "install":
                at[op[1]] = op[2]
            elif op[0] == "conv" and op[1] in at:
                r.add((at[op[1]], op[3]))
            elif op[0] == "common":
                r.add(tuple(plan["common"]))
    return sorted(r, key=str)


class Bad(Exception):
    pass


class Session:
    def __init__(self, plan, who, scratch, fresh, sources):
        self.plan, self.who, self.scratch, self.fresh, self.sources = plan, who, scratch, fresh, sources
        self.at, self.kept = {}, {}
        self.log, self.probes, self.faults = [], {}, {}
        self.good = 0

    def run(self):
        for k, op in enumerate(self.plan["callers"][self.who]):
            try:
                self.step(k, op)
            except Bad as e:
                raise Bad(f"{e} (caller {self.who}, op {k} {op})")

    def place(self, p):
        return os.path.join(self.scratch, p)

    def judge(self, root, content, period, out, mem, series=True):
        sp = self.plan["specs"][content]
        want = self.fresh(content, period)
        if mem is not None:
            got = {"system": mem}
        else:
            try:
                got = A.collect(root, sp, out)
            except Exception as e:
                raise Bad(f"unreadable-output: {type(e).__name__}: {str(e)[:200]}")
            if got["text"] != want["text"]:
                d = A.compare(dict(got, derived=A.derived(root, sp)), A.expected(sp, period))
                raise Bad(f"influenced-system: {d or 'text differs from a conversion alone'}")
        if H.as_json(got["system"]) != H.as_json(want["system"]):
            raise Bad("influenced-system: " + str(H.first_diff(H.as_json(got["system"]), H.as_json(want["system"]))))
        if series:
            d = A.derived(root, sp)
            if d != want["derived"]:
                raise Bad("influenced-series: " + str(H.first_diff(d, want["derived"])))
        self.good += 1

    def step(self, k, op):
        self.probes[op[0]] = self.probes.get(op[0], 0) + 1
        what = op[0]
        if what == "common":
            content, period = self.plan["common"]
            root = self.place("common")
            out = os.path.join(self.scratch, f"common_{self.who}_{k}.yaml")
            conv = A.make(root, op[2], period, out)
            mem = self.go(conv, root, op[1])
            self.judge(root, content, period, out, mem, series=False)
            self.log.append(["common", content, period])
            return
        p = op[1]
        root = self.place(p)
        if what == "install":
            install(self.sources[op[2]], root)
            self.at[p] = op[2]
            self.kept.pop(p, None)
            return
        if p not in self.at:
            return
        content = self.at[p]
        sp = self.plan["specs"][content]
        if what == "conv":
            mode, period, api, o = op[2:]
            out = os.path.join(self.scratch, f"out_{self.who}.yaml") if o else None
            conv = A.make(root, mode, period, out)
            mem = self.go(conv, root, api)
            self.kept[p] = (conv, period, out)
            self.judge(root, content, period, out, mem)
            self.log.append([p, content, period])
        elif what == "again":
            if p not in self.kept:
                return
            conv, period, out = self.kept[p]
            mem = self.go(conv, root, op[2])
            self.judge(root, content, period, out, mem)
            self.log.append([p, content, period, "again"])
        elif what == "fail":
            period, x, kind = op[2:]
            back = None
            try:
                if kind == "lost":
                    from checks.c11 import lost_candidates

                    c = lost_candidates(root, sp)
                    if not c:
                        return
                    back = os.path.join(root, c[int(x * len(c))])
                    os.rename(back, back + ".away")
                out = os.path.join(self.scratch, "nosuch", "x.yaml") if kind == "badout" else None
                if kind == "eio":
                    FAIL[self.who] = int(x * 200)
                conv = A.make(root, "path", period, out)
                conv.process_all()
                self.log.append([p, "not failed", kind])
            except Exception as e:
                self.faults[f"failed-{kind}"] = self.faults.get(f"failed-{kind}", 0) + 1
                self.log.append([p, "failed", kind])
            finally:
                FAIL.pop(self.who, None)
                if back:
                    os.rename(back + ".away", back)

    def go(self, conv, root, api):
        try:
            if api == "mem":
                return A.system_of(conv.convert_study_to_input_study(), root)
            conv.process_all()
            return None
        except Exception as e:
            raise Bad(f"influenced-failure: {type(e).__name__}: {str(e)[:300]}")


FAIL = {}


class CallerFS(faultfs.FS):
    """fails the n-th operation of the caller that asked for it"""

    def op(self, kind, rel, info=None):
        sim = sched._current
        who = sim.cur.tid if isinstance(sim, sched.Sim) and sim.cur is not None else 0
        f = super().op(kind, rel, info)
        if who in FAIL:
            FAIL[who] -= 1
            if FAIL[who] < 0:
                del FAIL[who]
                return "eio"
        return f


def execute(plan, scratch):
    out = {"violation": None}
    scratch = os.path.realpath(scratch)
    src = os.path.join(scratch, "sources")
    os.mkdir(src)
    sources = []
    for i, sp in enumerate(plan["specs"]):
        # studies of the same name, or of different ones
        os.mkdir(os.path.join(src, str(i)))
        sources.append(A.write(sp, os.path.join(src, str(i)), "study" if plan.get("homonyms", True) else f"c{i}"))
    cc, cp = plan["common"]
    install(sources[cc % len(sources)], os.path.join(scratch, "common"))
    # conversions alone, each in a process of its own, before anything else is converted here
    pairs = pairs_needed(plan)
    alone = {}
    for c, p in pairs:
        d = os.path.join(scratch, f"alone{len(alone)}")
        install(sources[c], d)

        def solo():
            A.make(d, "path", p).process_all()
            return A.collect(d, plan["specs"][c])

        r = H.in_child(solo)
        if not isinstance(r, dict):
            return {"violation": f"undisturbed-failed: {r}", "sig": "x"}
        x = A.compare(r, A.expected(plan["specs"][c], p))
        if x:
            return {"violation": f"undisturbed {x}", "sig": "x"}
        alone[(c, p)] = r
    FAIL.clear()
    n = len(plan["callers"])
    ss = [Session(plan, c, scratch, lambda a, b: alone[(a, b)], sources) for c in range(n)]
    cwd, env = os.getcwd(), dict(os.environ)
    fs = CallerFS(scratch, points=True)
    sim = None

    def body(c):
        def f():
            try:
                ss[c].run()
            except Bad as e:
                return str(e)

        return f

    with fs:
        if n == 1:
            out["violation"] = body(0)()
        else:
            sim = sched.Sim([body(c) for c in range(n)], plan["schedule"], cyclic=plan["cyclic"], hot=plan.get("hot")).run()
            if sim.failure is not None:
                out["violation"] = f"no-progress: {sim.failure!r}"
            for c in sim.callers:
                if c.error is not None:
                    out["violation"] = f"caller-died: {type(c.error).__name__}: {c.error}"
                elif c.result:
                    out["violation"] = c.result
    if out["violation"] is None and any(op[0] == "common" for ops in plan["callers"] for op in ops):
        d = A.derived(os.path.join(scratch, "common"), plan["specs"][cc])
        if d != alone[(cc, cp)]["derived"]:
            out["violation"] = "influenced-series: common place: " + str(H.first_diff(d, alone[(cc, cp)]["derived"]))
    if out["violation"] is None and (os.getcwd() != cwd or dict(os.environ) != env):
        out["violation"] = "process-changed: working directory or environment"
    probes, faults = {"conversions_judged": sum(s.good for s in ss)}, {}
    for s in ss:
        for a, b in ((s.probes, probes), (s.faults, faults)):
            for k, v in a.items():
                b[k] = b.get(k, 0) + v
    if sim:
        faults["preemption"] = sim.switches
        out["interleaving"] = f"{sim.digest:x}"
        out["trace"] = sim.trace[:60]
    out.update(
        probes=probes,
        faults=faults,
        sig=hashlib.sha256(json.dumps([[s.log for s in ss], out.get("interleaving")], default=str).encode()).hexdigest()[:16],
        nontrivial=sum(s.good for s in ss) > 1,
        steps=fs.n + (sim.total if sim else 0),
    )
    return out


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(plan, callers=[plan["callers"][c]], schedule=[])
            yield dict(plan, callers=plan["callers"][:c] + plan["callers"][c + 1 :])
    for c in range(n):
        for x in SH.drop_each(plan["callers"][c]):
            cs = list(plan["callers"])
            cs[c] = x
            yield dict(plan, callers=cs)
    if n > 1:
        for s in SH.drop_each(plan["schedule"]):
            if s:
                yield dict(plan, schedule=s)
    for i, sp in enumerate(plan["specs"]):
        for x in A.simpler(sp):
            ss = list(plan["specs"])
            ss[i] = x
            yield dict(plan, specs=ss)
