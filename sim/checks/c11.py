"""C11: conversions of Antares studies under failing, short, torn and crashing file operations."""
import contextlib
import hashlib
import json
import logging
import os
import random
import runpy
import shutil
import sys
import warnings

import antstudy as A
import faultfs
import harness as H
import shrink as SH

ID = "C11"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one generated Antares study and 4-12 conversion attempts in their own processes, each under seeded failures, short "
    "transfers, tears or a crash (with loss of unsynced writes) at chosen file operations, or with a data file lost, optionally "
    "tried again by the same converter or the same process, then one undisturbed conversion; non-trivial when a fault fired; "
    "distinct = distinct sequence of (operation hit, fault, outcome)"
)
COMPONENTS = {
    "converter, preprocessing of thermals and binding constraints, yaml output (/repo/src)": "real",
    "antares_craft, pandas, PyYAML": "real",
    "file layer below Python's buffered files": "simulated (faults), data kept on a scratch directory",
}
ASSUMPTIONS = [
    "what a study converts to is computed independently from its specification (sim/antstudy.py: expected)",
    "absent configuration files are not injected: antares_craft itself reads an absent file as an empty one",
]
QUICK = {"runs": 100000, "secs": 60}
THOROUGH = {"runs": 10**7, "secs": 1200}

KINDS = {
    "read": ["eio", "short", "crash"],
    "write": ["eio", "enospc", "short", "torn", "torn", "crash", "crash"],
    "close": ["eio", "enospc", "crash"],
    "open": ["eio", "eacces", "emfile", "crash"],
    "openw": ["eio", "eacces", "emfile", "enospc", "crash"],
    "listdir": ["eio", "eacces"],
    "any": ["eio", "eacces", "emfile", "crash", "short"],
}


def warm():
    A.warm()


def gen(rng, tier):
    sp = A.gen(rng, rich=rng.choice([0.2, 0.6, 0.9]))
    steps = []
    periods = rng.sample([None, 2, 3, 5], rng.choice([1, 1, 2]))
    for _ in range(rng.randint(4, 12)):
        faults = []
        tamper = None
        if rng.random() < 0.85:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                sel = rng.choice(["read", "write", "write", "close", "close", "open", "openw", "openw", "listdir", "any"])
                faults.append([sel, rng.random(), rng.choice(KINDS[sel])])
        elif rng.random() < 0.7:
            tamper = rng.random()
        steps.append(
            {
                "faults": faults,
                "tamper": tamper,
                "frac": rng.random(),
                "chop": rng.choice([None, None, None, 5, 100, 1000]),
                "mode": rng.choice(["path", "path", "study", "rel"]),
                "period": rng.choice(periods),
                "out": rng.random() < 0.3,
                "api": rng.choice(["all", "all", "all", "mem"]),
                "again": rng.choice([None, None, "same", "new"]),
                "lose": rng.randrange(1000) if rng.random() < 0.7 else None,
            }
        )
        if rng.random() < 0.2:
            steps[-1].update(mode=rng.choice(["cli", "conf"]), period=None, out=False, api="all")
    return {"spec": sp, "steps": steps}


class Bad(Exception):
    pass


DATA_FILES = ("input/thermal/series/", "input/thermal/prepro/")


def lost_candidates(root, sp):
    """data files whose content the conversion has to read"""
    r = []
    for a in sp["areas"]:
        for t in a["thermals"]:
            r.append(f"input/thermal/series/{a['id']}/{t['name']}/series.txt")
            r.append(f"input/thermal/prepro/{a['id']}/{t['name']}/modulation.txt")
        if a["battery"]:
            i = a["id"]
            r.append(f"input/links/{i}/capacities/{A.Z}_direct.txt")
            r.append(f"input/links/{i}/{A.Z}_parameters.txt")
            r.append(f"input/thermal/series/{A.Z}/{A.Z}_batteries_{i}_1/series.txt")
            r.append(f"input/thermal/series/{i}/{i}_batteries_inj/series.txt")
    return [x for x in r if os.path.exists(os.path.join(root, x))]


def command_line(root, by_config):
    """the conversion as started from the command line"""
    conf = root + ".ini"
    argv = sys.argv
    with open(os.devnull, "w") as null:
        try:
            sys.argv = ["main.py", "-c", conf, "-l", os.path.join(os.path.dirname(root), "conv.log")]
            if not by_config:
                sys.argv += ["-i", root]
            with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                runpy.run_module("andromede.input_converter.src.main", run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError(f"exit status {e.code}")
        finally:
            sys.argv = argv
            logging.raiseExceptions = False
            for h in logging.getLogger().handlers[:]:
                logging.getLogger().removeHandler(h)
                h.close()


def convert(root, st, out, conv=None):
    """-> (converter, in-memory system or None)"""
    if st["mode"] in ("cli", "conf"):
        command_line(root, st["mode"] == "conf")
        return None, None
    c = conv or A.make(root, st["mode"], st["period"], out)
    if st["api"] == "mem":
        return c, A.system_of(c.convert_study_to_input_study(), root)
    c.process_all()
    return c, None


def attempt(root, scratch, st, out, faults):
    """in its own process: [outcome, message, system, operations, fired, touched]"""
    ok = (os.path.relpath(root, "/"), os.path.relpath("/repo/src/andromede/input_converter/data", "/"))

    def match(rel):
        return rel.startswith(ok)

    if st["mode"] in ("cli", "conf"):
        with open(root + ".ini", "w") as f:
            f.write(f"[study]\nstudy_path = {root if st['mode'] == 'conf' else '/nowhere'}\n")
    fs = faultfs.FS("/", faults=faults, frac=st["frac"], chop=st["chop"], match=match)
    res = []
    conv = None
    mem = None
    for go in range(2):
        try:
            with fs:
                if st["mode"] not in ("cli", "conf") and (go == 0 or st["again"] == "new" or conv is None):
                    conv = None
                    conv = A.make(root, st["mode"], st["period"], out)
                _, mem = convert(root, st, out, conv)
            res.append(["ok", ""])
            break
        except faultfs.Crash:
            res.append(["crash", ""])
            break
        except Exception as e:
            res.append(["raised", f"{type(e).__name__}: {e}"[:200]])
            if not st["again"]:
                break
    lost = {}
    if res[-1][0] == "crash" and st["lose"] is not None:
        lost = fs.lose(random.Random(st["lose"]))
    return {"res": res, "mem": mem, "ops": fs.ops if not faults else len(fs.ops), "fired": fs.fired, "lost": lost}


def resolve(faults, ops):
    """[[sel, pos, kind]] -> {op number: kind}"""
    r = {}
    for sel, pos, kind in faults:
        c = [
            i
            for i, (k, rel, info) in enumerate(ops)
            if sel == "any"
            or (sel == "openw" and k == "open" and any(x in (info or "") for x in "wax"))
            or k == sel
        ]
        if c:
            r[c[int(pos * len(c))]] = kind
    return r


def judge(root, sp, st, out, clean, mem):
    want = clean[str(st["period"])]
    if mem is not None:
        got = {"system": mem, "derived": A.derived(root, sp)}
    else:
        try:
            got = A.collect(root, sp, out)
        except Exception as e:
            raise Bad(f"unreadable-output: conversion reported success, output: {type(e).__name__}: {str(e)[:200]}")
    d = A.compare(got, A.expected(sp, st["period"]))
    if d:
        raise Bad(d)
    if mem is None and got["text"] != want["text"]:
        raise Bad("different-output: the yaml text differs from that of an undisturbed conversion")
    if got["derived"] != want["derived"]:
        raise Bad("different-series: " + str(H.first_diff(got["derived"], want["derived"])))


def execute(plan, scratch):
    sp = plan["spec"]
    out = {"violation": None}
    faults, probes, log = {}, {"attempts": 0, "ok": 0, "raised": 0, "crash": 0}, []
    root = A.write(sp, scratch, "study")
    pristine = os.path.join(scratch, "pristine")
    shutil.copytree(root, pristine)
    before = A.digest(root, sp)
    steps = 0
    clean, ops = {}, {}
    try:
        # undisturbed conversions, of a copy
        for p in sorted({str(s["period"]) for s in plan["steps"]}):
            st = {"mode": "path", "period": None if p == "None" else int(p), "api": "all", "frac": 0, "chop": None, "again": None, "lose": None}
            cp = os.path.join(scratch, "clean" + p)
            shutil.copytree(pristine, cp)
            r = H.in_child(lambda: attempt(cp, scratch, st, None, None))
            if not isinstance(r, dict) or r["res"][-1][0] != "ok":
                raise Bad(f"undisturbed-failed: {r if not isinstance(r, dict) else r['res']}")
            clean[p] = A.collect(cp, sp)
            d = A.compare(clean[p], A.expected(sp, st["period"]))
            if d:
                raise Bad("undisturbed " + d)
        for j, st in enumerate(plan["steps"] + [None]):
            final = st is None
            if final:
                st = {"mode": "path", "period": plan["steps"][-1]["period"], "api": "all", "frac": 0, "chop": None, "again": None, "lose": None, "faults": [], "tamper": None, "out": False}
            o = os.path.join(root, "elsewhere.yaml") if st["out"] else None
            k = json.dumps([st["mode"], st["api"], st["chop"]])
            fl = {}
            if st["faults"]:
                if k not in ops:
                    cp = os.path.join(scratch, f"ops{len(ops)}")
                    shutil.copytree(pristine, cp)
                    r = H.in_child(lambda: attempt(cp, scratch, dict(st, again=None), os.path.join(cp, "elsewhere.yaml") if o else None, None))
                    ops[k] = r["ops"]
                    shutil.rmtree(cp)
                fl = resolve(st["faults"], ops[k])
            gone = None
            if st["tamper"] is not None:
                c = lost_candidates(root, sp)
                if c:
                    gone = c[int(st["tamper"] * len(c))]
                    os.remove(os.path.join(root, gone))
                    faults["lost-file"] = faults.get("lost-file", 0) + 1
            r = H.in_child(lambda: attempt(root, scratch, st, o, fl))
            if not isinstance(r, dict):
                raise Bad(f"process-died: {r}")
            if gone:
                if r["res"][-1][0] == "ok":
                    # complete despite the loss would be fine
                    judge(root, sp, st, o, clean, r["mem"])
                shutil.copyfile(os.path.join(pristine, gone), os.path.join(root, gone))
            probes["attempts"] += len(r["res"])
            for x, _ in r["res"]:
                probes[x] += 1
            if len(r["res"]) > 1:
                probes["tried-again"] = probes.get("tried-again", 0) + 1
            steps += r["ops"] if isinstance(r["ops"], int) else len(r["ops"])
            for _, kind, rel, f in r["fired"]:
                faults[f"{kind}-{f}"] = faults.get(f"{kind}-{f}", 0) + 1
            for x, n in r["lost"].items():
                faults[x] = faults.get(x, 0) + n
            log.append([j, [[a[1], os.path.basename(a[2]), a[3]] for a in r["fired"]], [x[0] for x in r["res"]], gone])
            after = A.digest(root, sp, ("elsewhere.yaml",))
            if after != before:
                raise Bad(f"input-altered: step {j}: {H.first_diff(after, before)}")
            if r["res"][-1][0] == "ok" and not gone:
                judge(root, sp, st, o, clean, r["mem"])
            elif r["res"][-1][0] == "raised" and not gone and not r["fired"]:
                raise Bad(f"failed-after-recovery: step {j}: {r['res'][-1][1]}")
            elif r["res"][-1][0] == "raised" and not gone and len(r["res"]) > 1 and len(fl) == 1:
                raise Bad(f"failed-again: step {j}: one fault, and the second attempt raised {r['res'][-1][1]}")
    except Bad as e:
        out["violation"] = str(e)
    out.update(
        faults=faults,
        probes=probes,
        sig=hashlib.sha256(json.dumps(log).encode()).hexdigest()[:16],
        nontrivial=bool(faults),
        steps=steps,
        trace=log,
    )
    return out


def shrinks(plan):
    for s in SH.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    for sp in A.simpler(plan["spec"]):
        yield dict(plan, spec=sp)
    for i, st in enumerate(plan["steps"]):
        for k, v in (("out", False), ("again", None), ("chop", None), ("mode", "path"), ("period", None), ("api", "all"), ("lose", None), ("tamper", None)):
            if st[k] != v:
                ss = list(plan["steps"])
                ss[i] = dict(st, **{k: v})
                yield dict(plan, steps=ss)
        for f in SH.drop_each(st["faults"]):
            ss = list(plan["steps"])
            ss[i] = dict(st, faults=f)
            yield dict(plan, steps=ss)
