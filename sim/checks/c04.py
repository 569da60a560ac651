"""C04: data sources that fail at their n-th read, or lack values, then recover."""
import copy
import hashlib
import json

import canon
import gen as G
import harness as H
import invest as I
import lang
import shrink as SH
import world as W
from checks import c02

ID = "C04"
LEVEL = "fault_enumeration"
RULE = (
    "one run = one seeded plan: a study, and a sequence of builds each under a fault: the n-th read of the "
    "data sources raises a given error or yields no value (None, NaN), or entries (step, scenario, year, tree node, "
    "parameter) are removed or blanked while entries of similar keys stay, or a tree's data is asked without a node; "
    "followed by builds on the recovered source; non-trivial when a fault was hit; distinct = distinct "
    "(fault kind, read position, source) sequence"
)
COMPONENTS = {
    "problem building, data structures (/repo/src)": "real",
    "failing data sources": "real data structures behind a fault-injecting AbstractDataStructure",
    "OR-tools": "real",
}
ASSUMPTIONS = [
    "a source that is read during a build is one the build needs",
    "whether missing entries are needed is decided by the reference interpreter",
]
QUICK = {"runs": 100000, "secs": 40}
THOROUGH = {"runs": 10**7, "secs": 1200}

ERRORS = {
    "KeyError": lambda: KeyError("injected"),
    "IndexError": lambda: IndexError("injected"),
    "ValueError": lambda: ValueError("injected"),
    "OSError": lambda: OSError(5, "injected"),
    "FileNotFoundError": lambda: FileNotFoundError(2, "injected"),
    "TimeoutError": lambda: TimeoutError("injected"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "TypeError": lambda: TypeError("injected"),
    "AttributeError": lambda: AttributeError("injected"),
    "NotImplementedError": lambda: NotImplementedError("injected"),
    "ArithmeticError": lambda: ArithmeticError("injected"),
    "StopIteration": lambda: StopIteration("injected"),
    "AssertionError": lambda: AssertionError("injected"),
}
VOID = {"None": None, "NaN": float("nan"), "numpy NaN": "np"}
NODES = ["nA", "nB", "nC"]


class Source:
    """switchboard of all wrapped data of one database"""

    def __init__(self):
        self.reads = 0
        self.fail_at = None
        self.kind = None
        self.fired = None
        self.sticky = False
        self.delta = 0.0  # a recovered source may serve newer values

    def read(self, name, real, t, s, node):
        self.reads += 1
        if self.fail_at is not None and (
            self.reads == self.fail_at or (self.sticky and self.reads > self.fail_at)
        ):
            self.fired = self.fired or [name, t, s, node]
            if self.kind in VOID:
                if VOID[self.kind] == "np":
                    import numpy

                    return numpy.float64("nan")
                return VOID[self.kind]
            raise ERRORS[self.kind]()
        v = real.get_value(t, s, node)
        return v if name.endswith("|dly") else v + self.delta


def wrap(db, data, src):
    from dataclasses import dataclass

    from andromede.study.data import AbstractDataStructure, DataBase

    @dataclass(frozen=True)
    class Faulty(AbstractDataStructure):
        name: str
        real: object

        def get_value(self, timestep, scenario, node_id=""):
            return src.read(self.name, self.real, timestep, scenario, node_id)

        def check_requirement(self, time, scenario):
            return self.real.check_requirement(time, scenario)

    out = DataBase()
    for k, d in data.items():
        c, p = k.split("|")
        out.add_data(c, p, Faulty(k, lang.to_data(d)))
    return out


def gen(rng, tier):
    invest = rng.random() < 0.4
    nodes = NODES if invest and rng.random() < 0.6 else []
    sp = G.gen_study(rng, invest=invest, small=rng.random() < 0.7, tree_nodes=nodes)
    if rng.random() < 0.4:
        sp = capitals(rng, sp)
    steps = []
    for _ in range(rng.randint(1, 4)):
        if nodes and rng.random() < 0.15:
            # data by tree node, asked for outside of any tree
            tree = None
            b = dict(W.gen_b(rng, sp), strategy=rng.choice(["merged", "oper", "invest"]))
            if rng.random() < 0.5:
                b["node"] = rng.choice(["", "na", "zz", "nA"])
        elif nodes:
            b = None
            tree = W.gen_tree(rng, sp, nodes, 3)
        elif invest and rng.random() < 0.5:
            b, tree = None, W.gen_tree(rng, sp, NODES, 3)
        else:
            tree = None
            b = W.gen_b(rng, sp)
            if invest:
                b = dict(b, strategy=rng.choice(["merged", "oper"]))
            if rng.random() < 0.08:
                k = b["timesteps"][0] + rng.randint(1, 2)
                b = dict(b, timesteps=[t - k for t in b["timesteps"]])
        what = tree if b is None else b
        kind = "tree" if b is None else "block"
        r = rng.random()
        if r < 0.55:
            steps.append(
                [kind, what, ["read", rng.randrange(1 << 30), rng.choice(sorted(ERRORS) + sorted(VOID) * 2), rng.random() < 0.3]]
            )
        else:
            cut = None
            ks = [k for k, d in sp["data"].items()]
            sers = [k for k in ks if sp["data"][k][0] != "const"]
            if ks:
                k = rng.choice(sers if sers and rng.random() < 0.85 else ks)
                cut = [k, rng.randrange(1 << 30), rng.random() < 0.5, rng.choice(["decoys", None])]
            steps.append([kind, what, ["cut", cut]])
        if rng.random() < 0.5:
            steps.append([kind, what, None])
    return {"spec": sp, "steps": steps}


def capitals(rng, sp):
    sp = copy.deepcopy(sp)
    ren = {c: rng.choice([c.upper(), c.capitalize(), c]) for c, _ in sp["net"]["nodes"] + sp["net"]["comps"]}
    for k in ("nodes", "comps"):
        sp["net"][k] = [[ren[c], m] for c, m in sp["net"][k]]
    sp["net"]["cnx"] = [[ren[a], b, ren[c], d] for a, b, c, d in sp["net"]["cnx"]]
    sp["data"] = {ren[k.split("|")[0]] + "|" + k.split("|")[1]: v for k, v in sp["data"].items()}
    return sp


def cut_data(data, cut):
    """data with an entry removed"""
    if cut is None:
        return data
    k, r, tail, decoys = cut
    if k not in data:
        return data
    data = copy.deepcopy(data)
    if decoys:
        # entries of other keys, which are nobody's values
        c, p = k.split("|")
        for x in (f"{c.lower()}|{p}", f"{c.upper()}|{p}", f"{c}|{p.upper()}", f"|{p}", f"{c}|", f" {c}|{p}", f"{c}x|{p}"):
            data.setdefault(x, ["const", 2.0])
    new = _cut(data[k], r, tail)
    if new is None:
        del data[k]
    else:
        data[k] = new
    return data


def _cut(d, r, tail):
    if d[0] == "const":
        return None
    if d[0] in ("ts", "ss"):
        if d[0] == "ss" and d[2] is not None and r % 3 == 0:
            ys = sorted(d[2])
            del d[2][ys[r % len(ys)]]
            return d if d[2] else ["ss", d[1], {"99": 0}]
        ks = sorted(d[1], key=int)
        i = r % len(ks)
        for x in ks[i:] if tail else [ks[i]]:
            del d[1][x]
        return d
    if d[0] == "tss":
        if d[2] is not None and r % 5 == 1:
            ys = sorted(d[2])
            return ["tss", d[1], dict(d[2], **{ys[r % len(ys)]: -1 - r % 2})]
        if d[2] is not None and r % 3 == 0:
            ys = sorted(d[2])
            del d[2][ys[r % len(ys)]]
            return d if d[2] else ["tss", d[1], {"99": 0}]
        if r % 7 == 3:
            # a hole in the table
            n = r // 7
            d[1][n % len(d[1])][n // 97 % len(d[1][0])] = None
            return d
        if r % 2 and len(d[1][0]) > 1:
            return ["tss", [row[: 1 + r % (len(row) - 1)] for row in d[1]], d[2]]
        n = r % len(d[1])
        return ["tss", d[1][: max(1, n)], d[2]]
    if d[0] == "tree":
        ks = sorted(d[1])
        x = ks[r % len(ks)]
        if tail:
            del d[1][x]
        else:
            y = _cut(d[1][x], r // 7, True)
            if y is None:
                del d[1][x]
            else:
                d[1][x] = y
        return d
    return None


def build_any(kind, what, net, db):
    """[(name, canonical problem)]"""
    if kind == "block":
        return [("", canon.canon_problem(lang.build(net, db, what)))]
    from andromede.simulation.benders_decomposed import build_benders_decomposed_problem

    p = build_benders_decomposed_problem(W.make_tree(what, net), db)
    return [("master", canon.canon_problem(p.master))] + [(q.name, canon.canon_problem(q)) for q in p.subproblems]


def refs_any(kind, what, sp, data):
    if kind == "block":
        return [("", lang.RefStudy(sp["models"], sp["net"], data).problem(what))]
    m, subs = I.reference(sp, [sp["net"]], data, what, {n["id"]: n.get("coupl", []) for n, _, _ in I.walk(what)})
    return [("master", m)] + subs


def execute(plan, scratch):
    sp = plan["spec"]
    probes, faults = {}, {}
    h = hashlib.sha256()
    hit = 0
    reads = 0

    def out(v=None):
        return {
            "violation": v,
            "probes": probes,
            "faults": faults,
            "sig": h.hexdigest()[:16],
            "nontrivial": hit > 0,
            "steps": reads,
        }

    def count(d, k):
        d[k] = d.get(k, 0) + 1

    src = Source()
    pts = lang.to_port_types(sp["port_types"])
    models = {k: lang.to_model(m, pts) for k, m in sp["models"].items()}
    net = lang.to_network(sp["net"], models)
    db = wrap(None, sp["data"], src)
    for si, (kind, what, fault) in enumerate(plan["steps"]):
        try:
            ref = refs_any(kind, what, sp, shifted(sp, src.delta))
        except lang.Refused:
            ref = None
        if fault is None or (fault[0] == "read" and ref is None):
            src.fail_at = None
            v = compare(kind, what, net, db, ref, si, "undisturbed build")
            if v:
                return out(v)
            count(probes, "undisturbed")
            continue
        if fault[0] == "read":
            # learn how many reads an undisturbed build makes
            def prof():
                src.reads, src.fail_at = 0, None
                build_any(kind, what, net, db)
                return src.reads

            n = H.in_child(prof)
            if not isinstance(n, int):
                return out(f"build-failed: step {si}: {n}")
            if n == 0:
                count(probes, "no_reads")
                continue
            src.reads, src.fail_at, src.kind = 0, 1 + fault[1] % n, fault[2]
            src.sticky, src.fired = fault[3], None
            err = None
            try:
                res = build_any(kind, what, net, db)
            except Exception as e:
                err = e
            reads += src.reads
            if src.fired is None:
                count(probes, "fault_not_reached")
            else:
                hit += 1
                count(faults, "read_" + fault[2])
                h.update(f"{src.fail_at}{fault[2]}{src.fired}".encode())
                if err is None:
                    return out(
                        f"failure-ignored: step {si}: read {src.fail_at} ({src.fired}) raised {fault[2]} but the "
                        f"build returned a problem"
                    )
            # the source works again, possibly with newer values
            src.fail_at = None
            if fault[1] % 3 == 0:
                src.delta += 0.25
                count(probes, "newer_values")
                try:
                    ref = refs_any(kind, what, sp, shifted(sp, src.delta))
                except lang.Refused:
                    ref = None
            v = compare(kind, what, net, db, ref, si, "build after recovery")
            if v:
                return out(v)
            count(probes, "recovered")
        else:
            data = cut_data(sp["data"], fault[1])
            try:
                ref2 = refs_any(kind, what, sp, data)
            except lang.Refused as e:
                ref2 = None
                hit += 1
                count(faults, "missing_value")
                h.update(json.dumps(fault).encode())
            v = compare(kind, what, net, lang.to_database(data), ref2, si, f"build with {fault[1]} cut")
            if v:
                return out(v)
            src.fail_at = None
            v = compare(kind, what, net, db, ref, si, "build after recovery")
            if v:
                return out(v)
    return out()


def shifted(sp, delta):
    def sh(d):
        if d[0] == "const":
            return ["const", d[1] + delta]
        if d[0] == "ts":
            return ["ts", {k: v + delta for k, v in d[1].items()}]
        if d[0] == "ss":
            return ["ss", {k: v + delta for k, v in d[1].items()}, d[2]]
        if d[0] == "tss":
            return ["tss", [[x + delta for x in r] for r in d[1]], d[2]]
        return ["tree", {k: sh(v) for k, v in d[1].items()}]

    return {k: d if k.endswith("|dly") else sh(d) for k, d in sp["data"].items()}


def compare(kind, what, net, db, ref, si, label):
    err = None
    try:
        got = build_any(kind, what, net, db)
    except Exception as e:
        err = e
    if ref is None:
        return None if err else f"missing-ignored: step {si}: {label}: a problem was returned although a needed value is missing"
    if err:
        return f"build-failed: step {si}: {label}: {type(err).__name__}: {err}"
    g = dict(got)
    for n, r in ref:
        if n not in g:
            return f"wrong-problem: step {si}: {label}: no problem {n!r} in {sorted(g)}"
        d = canon.diff(g[n], r)
        if d:
            return f"wrong-problem: step {si}: {label}: {n}: {d}"
    return None


def shrinks(plan):
    for s in SH.drop_each(plan["steps"]):
        if s:
            yield dict(plan, steps=s)
    for v in SH.study_simpler(plan["spec"]):
        yield dict(plan, spec=v)
    for i, s in enumerate(plan["steps"]):
        if s[0] == "block":
            for b in SH.b_simpler(s[1]):
                yield dict(plan, steps=plan["steps"][:i] + [[s[0], b, s[2]]] + plan["steps"][i + 1 :])
