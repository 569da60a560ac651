"""C09: external commands run by several callers, with every outcome of the command,
failures to start, interrupts at any point and changes of the working directory in between."""
import gc
import hashlib
import json
import os
import pathlib
import signal
import threading

import procs
import sched
import shrink as SH
import solverstub as ST

ID = "C09"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded history of 1-3 callers, each running 1-6 external commands (general, Benders, merge) given by "
    "absolute or relative program and directory, with a scripted outcome per command (exit code, signal, start failure, "
    "missing or non-executable program, missing directory), interrupts at a source line or while waiting, and bystanders "
    "that use relative paths meanwhile; non-trivial when at least one command was started; distinct = distinct sequence "
    "of (command, outcome, result) and schedule"
)
COMPONENTS = {
    "runners (/repo/src/andromede/simulation/runner.py) and the subprocess module down to process creation": "real",
    "external processes": "stub (scripted outcome)",
    "threads": "real Python threads, one at a time, switched only by the simulator",
}
ASSUMPTIONS = [
    "a missing program is tolerated by the existing API (reported as success, nothing started)",
    "relative programs and directories are relative to the working directory at the time of the call",
]
QUICK = {"runs": 100000, "secs": 30}
THOROUGH = {"runs": 10**7, "secs": 900}

WORDS = ["options.json", "a b", "$HOME", "*", "; touch x", "'q'", "", "-x", "--opt=1", "é", "a\nb", "|", "&", "\\"]


def gen_op(rng, k, interrupts):
    r = rng.random()
    kind = "cmd" if r < 0.5 else ("benders" if r < 0.8 else "merge")
    oc = ST.gen_outcome(rng, k)
    oc["kind"] = rng.choice(["ok"] * 4 + ["code"] * 3 + ["killed", "nostart_exec", "nostart_mem", "nostart_perm"])
    return {
        "kind": kind,
        "bin": rng.choice(["abs", "rel", "rel", "dot", "missing", "noexec"]) if kind == "cmd" else rng.choice(["abs"] * 5 + ["missing", "noexec"]),
        "args": [rng.choice(WORDS) for _ in range(rng.randint(0, 3))],
        "dir": rng.choice(["abs", "rel", "rel", "abs", "dot", "up", "missing"] if rng.random() < 0.4 else ["abs", "rel"]),
        "dirname": rng.choice(["d", "e/f", "with space"]),
        "oc": oc,
        "abort": rng.randrange(1, 40) if interrupts and rng.random() < 0.35 else None,
        "intr": rng.randrange(0, 3) if rng.random() < 0.15 else None,
        "cwd": rng.choice(["", "", "sub", "sub/sub2"]),
        "reuse": rng.random() < 0.2,
    }


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    k = 1
    callers = []
    for c in range(n):
        ops = []
        for _ in range(rng.randint(1, 6 if n == 1 else 3)):
            ops.append(gen_op(rng, k, n == 1))
            k += 1
        callers.append(ops)
    return {
        "callers": callers,
        "watch": rng.choice([0, 0, 1]) if n > 1 else rng.choice([0, 1, 1]),
        "schedule": [[rng.randrange(4), 1 + int(2 ** rng.uniform(0, 5))] for _ in range(rng.randint(3, 120))],
        "cyclic": rng.random() < 0.5,
        "hot": sched.gen_hot(rng),
    }


class Bad(Exception):
    pass


def state():
    return {
        "cwd": os.getcwd(),
        "environ": dict(os.environ),
        "signals": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)},
        "fds": sorted(os.listdir("/proc/self/fd"))[:-1] if threading.active_count() == 1 else None,
    }


class Session:
    def __init__(self, plan, root, who, stub, alone):
        self.plan, self.root, self.who, self.stub, self.alone = plan, root, who, stub, alone
        self.log = []
        self.faults = {}
        self.expect = None
        self.last = None
        self.reuse = False

    def run(self):
        for j, op in enumerate(self.plan["callers"][self.who]):
            try:
                self.op(j, op)
            except Bad as e:
                raise Bad(f"{e} (caller {self.who}, command {j}: {op['oc']['kind']})")

    def op(self, j, op):
        from andromede.simulation.runner import BendersRunner, CommandRunner, MergeMPSRunner

        cwd = self.root
        if self.alone:
            cwd = os.path.join(self.root, op["cwd"])
            os.chdir(cwd)
        here = os.getcwd()
        name = {"cmd": f"tool{self.who}_{j}", "benders": "benders", "merge": "merge_mps"}[op["kind"]]
        binary = os.path.join(here, "bin", name)
        ok_bin = True
        os.makedirs(os.path.dirname(binary), exist_ok=True)
        bad = op["bin"] if op["bin"] in ("missing", "noexec") else None
        if bad and op["kind"] != "cmd" and not self.alone:
            bad = None  # shared by the callers
        if bad == "missing":
            if os.path.exists(binary):
                os.unlink(binary)
        else:
            open(binary, "w").close()
            os.chmod(binary, 0o644 if bad == "noexec" else 0o755)
        d = os.path.join(here, f"work{self.who}", f"{op['dirname']}{j}")
        if op["dir"] == "dot" and self.alone:
            d = here
        if op["dir"] == "missing":
            d = os.path.join(d, "nowhere")
        else:
            os.makedirs(d, exist_ok=True)
        given = pathlib.Path(d)
        if op["dir"] in ("rel", "missing", "up"):
            given = pathlib.Path(os.path.relpath(d, here))
            if op["dir"] == "up" and op["cwd"] and self.alone:
                given = pathlib.Path("..") / os.path.basename(here) / given
        elif op["dir"] == "dot" and self.alone:
            given = pathlib.Path(".")
        if op["kind"] == "cmd":
            b = pathlib.Path(binary) if op["bin"] == "abs" else pathlib.Path("bin") / name
            args = list(op["args"])
            r = CommandRunner(b, args, given)
        else:
            args = ["options.json"]
            r = (BendersRunner if op["kind"] == "benders" else MergeMPSRunner)(given)
        self.expect = {"dir": os.path.realpath(d), "exe": os.path.realpath(binary), "args": args, "op": op}
        for rep in range(2 if op["reuse"] else 1):
            self.once(r, op, bad, rep)

    def once(self, r, op, bad, rep):
        before = state()
        n0 = len(self.stub.of(self.who))
        ret = err = None
        aborted = False
        if op["abort"] is not None and self.alone:
            site, ret, err = sched.run_aborting(r.run, op["abort"] + 3 * rep, KeyboardInterrupt)
            aborted = site is not None
            if aborted:
                self.faults["interrupt"] = self.faults.get("interrupt", 0) + 1
        else:
            try:
                ret = r.run()
            except (Exception, KeyboardInterrupt) as e:
                err = e
        got = self.stub.of(self.who)[n0:]
        if err is not None and self.alone:
            # what the failed call's frames hold is released with the exception, not leaked
            err.__traceback__ = err.__context__ = err.__cause__ = None
            gc.collect()
        after = state()
        if self.alone:
            for k in ("cwd", "environ", "signals"):
                if before[k] != after[k]:
                    raise Bad(f"{k}-changed: from {_s(before[k], after[k])}")
            if not aborted and not isinstance(err, KeyboardInterrupt) and before["fds"] and after["fds"] and len(after["fds"]) > len(before["fds"]):
                raise Bad(f"descriptor-left-open: {len(before['fds'])} before, {len(after['fds'])} after")
        oc = op["oc"]["kind"]
        for q in got:
            if q.notes.get("bad"):
                raise Bad(q.notes["bad"])
            if q.notes.get("interrupted"):
                aborted = True
        self.faults["command_" + oc] = self.faults.get("command_" + oc, 0) + 1
        self.log.append((oc, bad, op["dir"], ret, type(err).__name__ if err else None, len(got), aborted))
        if len(got) > 1:
            raise Bad(f"started-{len(got)}-times: one call started the command more than once")
        if aborted:
            if err is not None and not isinstance(err, KeyboardInterrupt):
                raise Bad(f"interrupt-lost: the caller was interrupted and got {err!r}")
            if err is None:
                raise Bad(f"interrupt-lost: the caller was interrupted and got {ret!r}")
            return
        if bad == "missing":
            if got:
                raise Bad("started-other: the program is missing, yet one was started")
            return
        cannot = bad or op["dir"] == "missing" or oc.startswith("nostart")
        if cannot:
            if err is None and ret == 0:
                raise Bad("failure-reported-as-success: the command could not be started, yet 0 was returned")
            if any(q.started for q in got):
                raise Bad("started-other: the command cannot be started, yet one was")
            return
        if err is not None:
            raise Bad(f"call-failed: {type(err).__name__}: {err}")
        if len(got) != 1 or not got[0].started:
            raise Bad("not-started: the command was not started")
        if got[0].status is None:
            raise Bad("not-awaited: the call returned while the command is still running")
        if ret != got[0].status:
            raise Bad(f"wrong-code: {ret!r} returned, the command ended with {got[0].status}")


def _s(a, b):
    if isinstance(a, dict):
        ks = [k for k in sorted(set(a) | set(b), key=str) if a.get(k) != b.get(k)]
        return f"{ks[:3]}"
    return f"{a} to {b}"


class Stub(procs.Processes):
    def __init__(self, sessions, root):
        super().__init__(self.start)
        self.sessions = sessions

    def of(self, who):
        return [q for q in self.log if q.notes["who"] == who]

    def start(self, proc):
        s = self.running()
        proc.notes["who"] = s.who
        e = s.expect
        op = e["op"]
        if proc.cwd != e["dir"]:
            proc.notes["bad"] = f"wrong-directory: started in {os.path.relpath(proc.cwd, s.root)} instead of {os.path.relpath(e['dir'], s.root)}"
        elif proc.exe != e["exe"]:
            proc.notes["bad"] = f"wrong-program: {proc.exe} instead of {e['exe']}"
        elif proc.args[1:] != e["args"]:
            proc.notes["bad"] = f"wrong-arguments: {proc.args[1:]} instead of {e['args']}"
        return self.body(proc, op)

    def body(self, proc, op):
        oc = op["oc"]
        k = oc["kind"]
        if k == "nostart_exec":
            raise OSError(8, "Exec format error", proc.args[0])
        if k == "nostart_mem":
            raise OSError(12, "Cannot allocate memory")
        if k == "nostart_perm":
            raise PermissionError(13, "Permission denied", proc.args[0])
        yield
        for i in range(oc["yields"]):
            if op["intr"] == i:
                proc.notes["interrupt"] = KeyboardInterrupt()
                proc.notes["interrupted"] = True
            yield
        if k == "killed":
            return -oc["sig"]
        return oc["code"] if k == "code" else 0

    def running(self):
        t = sched._current
        if isinstance(t, sched.Sim) and t.cur is not None:
            return self.sessions[t.cur.tid]
        return self.sessions[0]


def watcher(root, n, out):
    """another thread of the process, which uses relative paths"""

    env = dict(os.environ)

    def f():
        for i in range(n):
            if os.getcwd() != root:
                return f"cwd-seen-changed: another thread saw the working directory {os.getcwd()}"
            try:
                with open("marker.txt") as g:
                    g.read()
            except OSError as e:
                return f"cwd-seen-changed: another thread could not open its relative file: {e}"
            if dict(os.environ) != env:
                return f"environ-seen-changed: another thread saw {_s(env, dict(os.environ))} of the environment changed"
            out["watch"] = out.get("watch", 0) + 1
            sched.external_point(7, leave=True)

    return f


def execute(plan, scratch):
    root = os.path.realpath(os.path.join(scratch, "w"))
    os.makedirs(os.path.join(root, "sub", "sub2"))
    os.chdir(root)
    with open("marker.txt", "w") as f:
        f.write("x")
    for k in [k for k in os.environ if k.endswith("_NUM_THREADS") or k == "TZ"]:
        del os.environ[k]  # set by the harness, not part of a user's environment
    n = len(plan["callers"])
    threads = n > 1 or plan["watch"]
    ss = []
    stub = Stub(ss, root)
    ss.extend(Session(plan, root, c, stub, not threads) for c in range(n))
    res = {"violation": None}
    probes = {}
    sim = None
    before = state()
    with stub:
        if not threads:
            try:
                ss[0].run()
            except Bad as e:
                res["violation"] = str(e)
            os.chdir(root)
        else:

            def body(c):
                def f():
                    try:
                        ss[c].run()
                    except Bad as e:
                        return str(e)

                return f

            fns = [body(c) for c in range(n)]
            if plan["watch"]:
                fns.append(watcher(root, 60, probes))
            sim = sched.Sim(fns, plan["schedule"], cyclic=plan["cyclic"], hot=plan.get("hot")).run()
            if sim.failure is not None:
                res["violation"] = f"no-progress: {sim.failure!r}"
            for c in sim.callers:
                if c.error is not None:
                    res["violation"] = f"caller-died: {type(c.error).__name__}: {c.error}"
                elif c.result:
                    res["violation"] = c.result
    after = state()
    if res["violation"] is None:
        for k in ("cwd", "environ", "signals"):
            if before[k] != after[k]:
                res["violation"] = f"{k}-changed: {_s(before[k], after[k])} after all commands"
    probes.update({"waits": stub.waits, "started": len(stub.log)})
    faults = {}
    for s in ss:
        for k, v in s.faults.items():
            faults[k] = faults.get(k, 0) + v
    faults["interrupt_while_waiting"] = sum(1 for q in stub.log if q.notes.get("interrupted"))
    if sim:
        faults["preemption"] = sim.switches
        res["interleaving"] = f"{sim.digest:x}"
        res["trace"] = sim.trace[:60]
    res.update(
        probes=probes,
        faults=faults,
        sig=hashlib.sha256(repr([s.log for s in ss]).encode() + json.dumps(plan).encode()).hexdigest()[:16],
        nontrivial=len(stub.log) > 0,
        steps=sim.total if sim else stub.waits + len(stub.log),
    )
    return res


def shrinks(plan):
    if plan.get("hot"):
        yield dict(plan, hot=None)
    n = len(plan["callers"])
    if n > 1:
        for c in range(n):
            yield dict(plan, callers=[x for i, x in enumerate(plan["callers"]) if i != c])
    if plan["watch"]:
        yield dict(plan, watch=0)
    for c in range(n):
        for x in SH.drop_each(plan["callers"][c]):
            if x:
                cs = list(plan["callers"])
                cs[c] = x
                yield dict(plan, callers=cs)
        for j, op in enumerate(plan["callers"][c]):
            for k, v in (
                ("abort", None), ("intr", None), ("reuse", False), ("cwd", ""), ("args", []), ("dirname", "d"), ("dir", "rel"),
            ):
                if op[k] != v:
                    cs = [list(x) for x in plan["callers"]]
                    cs[c][j] = dict(op, **{k: v})
                    yield dict(plan, callers=cs)
            if op["oc"]["kind"] != "ok":
                cs = [list(x) for x in plan["callers"]]
                cs[c][j] = dict(op, oc=dict(op["oc"], kind="ok"))
                yield dict(plan, callers=cs)
    for s in SH.drop_each(plan["schedule"]):
        if s:
            yield dict(plan, schedule=s)
