"""C05: studies loaded from files that fail to open or read, are cut, torn, zero-filled,
garbled, missing or rewritten between loads, through the Python API and the command line."""
import contextlib
import hashlib
import io
import json
import os
import pathlib
import re
import sys

import canon
import faultfs
import gen as G
import harness as H
import lang
import shrink as SH
import textstudy as TS

ID = "C05"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded history of 1-5 loads (library API, functions of the command line, or the command line itself) of "
    "1-2 generated studies whose files are rewritten, cut, zero-filled, garbled or removed between loads, under open, read, "
    "close and listing errors, short reads and arbitrary read sizes; non-trivial when a fault fired or a file was changed; "
    "distinct = distinct sequence of (file changes, fault positions, result)"
)
COMPONENTS = {
    "loading, resolving, data structures, building, command line (/repo/src)": "real",
    "pandas, PyYAML, OR-tools": "real",
    "file layer below Python's buffered files": "simulated (faults), data kept on a scratch directory",
}
ASSUMPTIONS = [
    "an independent parser of the series format (numbers separated by blanks, one line per step, blank lines skipped) and of "
    "the scenario builder decides what the files say; YAML text is interpreted by PyYAML",
    "a cut number that still is a number is the number written",
]
QUICK = {"runs": 100000, "secs": 45}
THOROUGH = {"runs": 10**7, "secs": 1200}

GARBLE = ["0", "7", "-", ".", " ", "\n", "x", "\0", "\t", "\r", ",", ";", "#", "é"]
TOKENS = ["nan", "NA", "NaN", "null", "-", "x", "1.5.2", "1e2", "N/A", "", "--1", "1,5", "None"]
SER = "input/components/series/"
SB = "input/components/scenariobuilder.csv"
SYS = "input/components/components.yml"


def gen_mut(rng, names):
    """[path, kind, a, b]"""
    p = rng.choice(names)
    k = rng.choice(
        ["trunc", "trunc", "zero", "zero", "garble", "garble", "garble", "dropline", "dupline", "blank", "token", "token", "rmtok",
         "addtok", "joinlines", "rm", "empty", "dir", "crlf", "tabs", "tail", "bytes", "values", "values"]
    )
    return [p, k, rng.random(), rng.random()]


def gen_study(rng):
    ts = TS.gen_text(rng, small=True, scenarized=rng.random() < 0.3, max_comps=rng.choice([1, 2, 3]))
    # a file may be shared by several parameters
    return ts


def gen(rng, tier):
    k = rng.choice([1, 1, 1, 2])
    tss = [gen_study(rng) for _ in range(k)]
    steps = []
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(k)
        ts = tss[i]
        sers = [SER + n + ".txt" for n in sorted(TS.series_files(ts))]
        cand = list(sers) * 3
        if ts["sb"] is not None:
            cand += [SB] * max(1, len(sers))
        cand += [SYS]
        r = rng.random()
        muts = []
        if r < 0.6:
            muts = [gen_mut(rng, cand) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            muts = [m for m in muts if m[0] != SYS or m[1] in ("trunc", "rm", "empty", "dropline", "zero", "crlf", "tail")]
        sp = ts["spec"]
        T = sp["T_abs"]
        via = rng.choice(["api", "main", "cli"]) if ts["sb"] is None else "api"
        n = rng.randint(1, min(4, T))
        if T > 10 and rng.random() < 0.5:
            n = T
        a = 0 if via == "cli" else rng.randrange(T - n + 1)
        faults = []
        if rng.random() < (0.35 if muts else 0.6):
            for _ in range(rng.choice([1, 1, 2])):
                faults.append([rng.random(), rng.choice(["eio", "eacces", "emfile", "enoent", "short", "short"])])
        steps.append(
            {
                "i": i,
                "muts": muts,
                "keep": rng.random() < 0.3,
                "via": via,
                "b": {"timesteps": list(range(a, a + n)), "scenarios": rng.randint(1, sp["S"])},
                "faults": faults,
                "chop": rng.choice([None, None, None, 7, 64, 200, 1000]),
                "rel": rng.random() < 0.3,
                "frac": rng.random(),
                "shuffle": rng.randrange(1000),
                "fresh_file": rng.random() < 0.5,
            }
        )
    return {"tss": tss, "steps": steps}


# ---------------------------------------------------------------- changing files
def mutate(files, mut, rnd):
    """files: {rel: bytes or None (missing) or "dir"}"""
    p, k, a, b = mut
    d = files.get(p)
    if k == "rm":
        files[p] = None
        return True
    if not isinstance(d, bytes):
        return False
    if k == "dir":
        files[p] = "dir"
        return True
    if k == "empty":
        files[p] = b""
        return True
    lines = d.split(b"\n")
    body = [i for i, l in enumerate(lines) if l.strip()]
    if not body:
        return False
    i = body[int(a * len(body)) % len(body)]
    if k == "trunc":
        n = int(a * len(d))
        files[p] = d[:n]
    elif k == "zero":
        x = int(a * len(d))
        y = min(len(d), x + 1 + int(b * b * 20))
        if b > 0.7:
            y = len(d)
        files[p] = d[:x] + b"\0" * (y - x) + d[y:]
    elif k == "garble":
        x = int(a * len(d))
        c = GARBLE[int(b * len(GARBLE))].encode()
        files[p] = d[:x] + c + d[x + (1 if int(b * 1000) % 2 else 0) :]
    elif k == "bytes":
        x = int(a * len(d))
        files[p] = d[:x] + bytes([0x80 + int(b * 127)]) + d[x + 1 :]
    elif k == "dropline":
        del lines[i]
        files[p] = b"\n".join(lines)
    elif k == "dupline":
        lines.insert(i, lines[i])
        files[p] = b"\n".join(lines)
    elif k == "blank":
        lines.insert(i, b"" if b < 0.5 else b"   ")
        files[p] = b"\n".join(lines)
    elif k == "joinlines":
        if i + 1 >= len(lines):
            return False
        lines[i : i + 2] = [lines[i] + (b"" if b < 0.5 else b" ") + lines[i + 1]]
        files[p] = b"\n".join(lines)
    elif k in ("token", "rmtok", "addtok"):
        sep = b"," if p == SB else b" "
        toks = lines[i].split(sep)
        j = int(b * len(toks)) % len(toks)
        t = TOKENS[int(b * 7919) % len(TOKENS)].encode()
        if k == "token":
            toks[j] = t
        elif k == "rmtok":
            del toks[j]
        else:
            toks.insert(j, b"3")
        lines[i] = sep.join(toks)
        files[p] = b"\n".join(lines)
    elif k == "crlf":
        files[p] = d.replace(b"\n", b"\r\n")
    elif k == "tabs":
        files[p] = d.replace(b" ", b"\t") if p != SB else d
    elif k == "tail":
        files[p] = d.rstrip(b"\n") + (b"" if b < 0.5 else b"\n\n")
    elif k == "values":
        # every number replaced: an intact file, newly written
        n = [int(a * 1000)]

        def new(m):
            n[0] += 1
            return str((n[0] * 7 % 90) / 4 + 1).encode()

        if not p.startswith(SER):
            return False
        files[p] = re.sub(rb"-?\d+(\.\d+)?", new, d)
    return True


NUM = re.compile(rb"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def table(d):
    """rows of numbers; None where something else stands"""
    try:
        d.decode("utf-8")
    except UnicodeDecodeError:
        return None
    d = d.removeprefix(b"\xef\xbb\xbf")
    rows = []
    for l in re.split(rb"\r\n|\n|\r", d):
        toks = [t for t in re.split(rb"[ \t]+", l) if t]
        if toks:
            rows.append([float(t) if NUM.match(t) else None for t in toks])
    return rows


def series(kind, d, scz):
    """data of a series file as its reader must understand it, or None when unreadable"""
    if not isinstance(d, bytes):
        return None
    rows = table(d)
    if not rows:
        return None
    if kind == "ts":
        return ["ts", {str(i): (r[0] if len(r) == 1 else None) for i, r in enumerate(rows)}]
    if kind == "ss":
        if len(rows) != 1:
            return None
        return ["ss", {str(i): x for i, x in enumerate(rows[0])}, scz]
    return ["tss", rows, scz]


def whole(t):
    """the whole number a text denotes (1, 01, 1.0, .0, 1e0), or None"""
    if re.match(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d{1,2})?$", t) and float(t).is_integer():
        return int(float(t))
    return None


def scenario_builder(d):
    """{group: {year: scenario or None}}, or None when unreadable"""
    if not isinstance(d, bytes):
        return None
    try:
        t = d.decode("utf-8")
    except UnicodeDecodeError:
        return None
    out = {}
    seen = set()
    for l in re.split(r"\r\n|\n|\r", t):
        if not l.strip():
            continue
        f = [x.strip() for x in l.split(",")]
        if len(f) < 3:
            f += [""] * (3 - len(f))
        g, y, s = f[:3]
        y, v = whole(y), whole(s) if len(f) == 3 else None
        if y is None:
            continue
        y = str(y)
        m = out.setdefault(g, {})
        if (g, y) in seen and m[y] != v:
            v = None
        seen.add((g, y))
        m[y] = v
    return out


class Odd(Exception):
    """the system file is not one whose meaning is known"""


def system(ts, d, files):
    """(net, data) written in the system file"""
    import yaml

    if not isinstance(d, bytes):
        raise lang.Refused("no system file")
    try:
        tree = yaml.safe_load(d)
    except yaml.YAMLError:
        raise lang.Refused("no yaml")
    except Exception:
        raise lang.Refused("no text")
    if not isinstance(tree, dict) or not isinstance(tree.get("system"), dict):
        raise lang.Refused("no system")
    sy = tree["system"]
    sb = None
    if ts["sb"] is not None:
        sb = scenario_builder(files.get(SB))
        if sb is None:
            raise lang.Refused("no scenario builder")
    net = {"nodes": [], "comps": [], "cnx": []}
    data = {}
    libs = {l["id"]: l for l in ts["libs"]}
    for key, dst in (("nodes", "nodes"), ("components", "comps")):
        if key in sy and not isinstance(sy[key], list):
            raise lang.Refused("no list")
        for c in sy.get(key, []):
            if not isinstance(c, dict) or not isinstance(c.get("id"), str) or not isinstance(c.get("model"), str):
                raise Odd()
            lib, _, m = c["model"].partition(".")
            if lib not in libs or m not in libs[lib]["models"]:
                raise lang.Refused("no such model")
            if any(x[0] == c["id"] for x in net["nodes"] + net["comps"]):
                raise Odd()
            net[dst].append([c["id"], m])
            ps = c.get("parameters")
            if ps is None:
                continue
            if not isinstance(ps, list):
                raise lang.Refused("no list")
            for p in ps:
                if not isinstance(p, dict) or not isinstance(p.get("id"), str):
                    raise Odd()
                t, s, v = p.get("time-dependent", False), p.get("scenario-dependent", False), p.get("value")
                if not isinstance(t, bool) or not isinstance(s, bool) or isinstance(v, bool) or v is None:
                    raise Odd()
                k = f"{c['id']}|{p['id']}"
                if k in data:
                    raise Odd()
                if isinstance(v, (int, float)):
                    if t or s:
                        raise lang.Refused("no series name")
                    data[k] = ["const", float(v)]
                    continue
                if not (t or s):
                    raise Odd()
                kind = "tss" if t and s else ("ts" if t else "ss")
                g = p.get("scenario-group") or c.get("scenario-group")
                scz = None
                if sb is not None and g:
                    scz = sb.get(g, {})  # a missing group matters when its series is read
                x = series(kind, files.get(SER + str(v) + ".txt"), scz)
                if x is not None:
                    data[k] = x
    for c in sy.get("connections") or []:
        try:
            q = [c["component1"], c["port1"], c["component2"], c["port2"]]
        except (KeyError, TypeError):
            raise Odd()
        ids = {x[0]: x[1] for x in net["nodes"] + net["comps"]}
        for cc, pp in ((q[0], q[1]), (q[2], q[3])):
            if cc not in ids:
                raise lang.Refused("no such component")
            if pp not in [x["n"] for x in ts["spec"]["models"][ids[cc]]["ports"]]:
                raise lang.Refused("no such port")
        net["cnx"].append(q)
    return net, data


def expected(ts, files, b):
    """reference problem, None when no problem may come out, "?" when unknown"""
    try:
        net, data = system(ts, files[SYS], files)
        ref = lang.RefStudy(ts["spec"]["models"], net, data)
        return ref.problem(b)
    except lang.Refused:
        return None
    except Odd:
        return "?"


# ---------------------------------------------------------------- loading
class NotSolved(Exception):
    pass


def load_and_build(ts, root, st):
    if st["via"] == "api":
        libs, inp, net, db = TS.load_all(ts, root)
        return canon.canon_problem(lang.build(net, db, st["b"]))
    from andromede.main import main as M

    r = pathlib.Path(os.path.relpath(root) if st["rel"] else root)
    if st["via"] == "main":
        from andromede.study.resolve_components import build_network, consistency_check

        libs = M.input_libs([r / f"input/models/{l['id']}.yml" for l in ts["libs"]])
        sy = M.input_study(r / SYS, libs)
        consistency_check(sy.components, {k: m for l in libs.values() for k, m in l.models.items()})
        db = M.input_database(r / SYS, r / SER)
        net = build_network(sy)
        return canon.canon_problem(lang.build(net, db, st["b"]))
    from ortools.linear_solver import pywraplp

    got = {}
    real = pywraplp.Solver.Solve

    def solve(self, *a):
        got["problem"] = canon.canon_solver(self)
        got["status"] = real(self, *a)
        got["cost"] = self.Objective().Value()
        return got["status"]

    out = io.StringIO()
    argv = sys.argv
    pywraplp.Solver.Solve = solve
    b = st["b"]
    d = ["--duration", str(len(b["timesteps"])), "--scenario", str(b["scenarios"])]
    if st["rel"]:
        sys.argv = ["andromede", "--study", str(r)] + d
    else:
        sys.argv = ["andromede", "--models"] + [str(r / f"input/models/{l['id']}.yml") for l in ts["libs"]]
        sys.argv += ["--component", str(r / SYS), "--timeseries", str(r / SER)] + d
    err = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            M.main_cli()
    except SystemExit as e:
        if e.code not in (None, 0):
            err = e
    except Exception as e:
        err = e
    finally:
        sys.argv = argv
        pywraplp.Solver.Solve = real
    text = out.getvalue()
    m = re.search(r"final average cost :\s*(\S+)", text)
    if err is not None:
        if m:
            return {"bad": "cost-printed-despite-error: the command line failed after printing a cost"}
        raise err
    if "problem" not in got or not m:
        return {"bad": f"silent-failure: the command line ended normally without solving or printing a cost: {text[:200]!r}"}
    x = float(m.group(1))
    if not (x == got["cost"] or abs(x - got["cost"]) <= 1e-6 * max(1, abs(x)) or x != x):
        return {"bad": f"wrong-cost-printed: {x}, the solved problem has {got['cost']}"}
    m = re.search(r"status :\s*(\S+)", text)
    if not m or int(m.group(1)) != got["status"]:
        return {"bad": f"wrong-status-printed: {text[:100]!r}, the solver gave {got['status']}"}
    return got["problem"]


def put(root, files, before, fresh):
    for rel, d in files.items():
        if before.get(rel, 0) == d:
            continue
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p) and (d is None or d == "dir" or fresh):
            os.unlink(p)
        if d == "dir":
            os.mkdir(p)
        elif d is not None:
            with open(p, "wb") as f:
                f.write(d)
            os.utime(p, (1_700_000_000, 1_700_000_000))  # the clock does not tell versions apart


def execute(plan, scratch):
    probes, faults = {}, {}
    h = hashlib.sha256()
    hit = steps = 0

    def count(d, k, n=1):
        d[k] = d.get(k, 0) + n

    def out(v=None):
        return {
            "violation": v,
            "probes": probes,
            "faults": faults,
            "sig": h.hexdigest()[:16],
            "nontrivial": hit > 0,
            "steps": steps,
        }

    roots, now, base = [], [], []
    for i, ts in enumerate(plan["tss"]):
        r = os.path.join(scratch, f"study{i}")
        os.makedirs(os.path.join(r, SER))
        f = {k: v.encode() for k, v in TS.files(ts).items()}
        put(r, f, {}, True)
        roots.append(r)
        base.append(f)
        now.append(dict(f))
    for si, st in enumerate(plan["steps"]):
        i = st["i"]
        ts, root = plan["tss"][i], roots[i]
        files = dict(now[i] if st["keep"] else base[i])
        damaged = False
        for m in st["muts"]:
            old = files.get(m[0])
            if mutate(files, m, None) and files[m[0]] != old:
                count(faults, "file_" + m[1])
                hit += 1
                if m[1] != "values":
                    damaged = True
        damaged = damaged or (st["keep"] and any(files[k] != v for k, v in base[i].items()))
        put(root, files, now[i], st["fresh_file"])
        now[i] = files
        want = expected(ts, files, st["b"])
        fs = faultfs.FS(root, {}, st["frac"], chop=st["chop"], shuffle=st["shuffle"])
        if st["faults"]:
            n = 0
            for rel, d in files.items():
                k = 3 + (-(-len(d) // (st["chop"] or 8192)) if isinstance(d, bytes) else 0)
                n += k * (2 if rel == SYS and st["via"] != "api" else 1)
            fs.faults = {int(f * n): k for f, k in st["faults"]}
        got = err = None
        try:
            with fs:
                got = load_and_build(ts, root, st)
        except Exception as e:
            err = e
        steps += fs.n
        hard = False
        for _, kind, rel, f in fs.fired:
            count(faults, f"{kind}_{f}")
            hit += 1
            if f != "short" or kind != "read":
                hard = True
        h.update(json.dumps([st["muts"], fs.fired, type(err).__name__ if err else None]).encode())
        count(probes, st["via"])
        where = f"load {si} ({st['via']}, changes {st['muts']}, faults {fs.fired})"
        if err is not None:
            count(probes, "refused")
            if want not in (None, "?") and not hard and not damaged:
                return out(f"intact-study-refused: {where}: {type(err).__name__}: {err}")
            continue
        if "bad" in got:
            return out(f"{got['bad']} {where}")
        if want == "?":
            count(probes, "undecided")
            continue
        if want is None:
            return out(f"missing-ignored: {where}: a problem came out although the files lack a value it needs")
        d = canon.diff(got, want)
        if d:
            return out(f"wrong-study: {where}: {d}")
        count(probes, "exact")
    return out()


def shrinks(plan):
    for s in SH.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    for i, st in enumerate(plan["steps"]):

        def w(**k):
            return dict(plan, steps=plan["steps"][:i] + [dict(st, **k)] + plan["steps"][i + 1 :])

        for m in SH.drop_each(st["muts"]):
            yield w(muts=m)
        for f in SH.drop_each(st["faults"]):
            yield w(faults=f)
        if st["chop"]:
            yield w(chop=None)
        if st["via"] != "api":
            yield w(via="api")
        if len(st["b"]["timesteps"]) > 1:
            yield w(b=dict(st["b"], timesteps=st["b"]["timesteps"][:1]))
        if st["b"]["scenarios"] > 1:
            yield w(b=dict(st["b"], scenarios=1))
    for i, ts in enumerate(plan["tss"]):
        for v in SH.study_simpler(ts["spec"]):
            t = list(plan["tss"])
            t[i] = dict(ts, spec=v)
            yield dict(plan, tss=t)
