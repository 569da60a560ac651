"""Canonical form of built problems, and comparison with a reference problem."""
import math


TOL = 1e-9  # relative tolerance of the comparisons


def close(a, b, scale=1.0):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b), scale)


def close_coef(a, b):
    """coefficients: also the very small ones count"""
    return abs(a - b) <= TOL * max(abs(a), abs(b)) + 1e-11


def canon_solver(solver):
    """{"vars","rows","obj","off"} read back from the solver object"""
    vs = solver.variables()
    vars_, dup = {}, []
    for v in vs:
        if v.name() in vars_:
            dup.append(v.name())
        vars_[v.name()] = [v.lb(), v.ub(), bool(v.integer())]
    rows = []
    for c in solver.constraints():
        co = {}
        for v in vs:
            x = c.GetCoefficient(v)
            if x != 0:
                co[v.name()] = x
        rows.append([co, c.Lb(), c.Ub()])
    o = solver.Objective()
    obj = {}
    for v in vs:
        x = o.GetCoefficient(v)
        if x != 0:
            obj[v.name()] = x
    return {
        "vars": vars_,
        "order": [v.name() for v in vs],
        "rows": rows,
        "obj": obj,
        "off": o.offset(),
        "dup": dup,
        "min": bool(o.minimization()),
    }


def canon_problem(p):
    return canon_solver(p.solver)


def _norm_row(r):
    return (
        tuple(sorted(k for k, v in r[0].items() if v != 0)),
        r,
    )


def _row_close(a, b):
    ks = a[0].keys() | b[0].keys()
    ka = {k: a[0].get(k, 0.0) for k in ks}
    kb = {k: b[0].get(k, 0.0) for k in ks}
    sc = max([1.0] + [abs(x) for x in b[1:3] if math.isfinite(x)])
    return (
        all(close_coef(v, kb[k]) for k, v in ka.items())
        and close(a[1], b[1], sc)
        and close(a[2], b[2], sc)
    )


def _key(r):
    def q(x):
        return float("%.9g" % x) + 0.0 if not math.isinf(x) else x

    return (
        tuple(sorted((k, q(v)) for k, v in r[0].items() if abs(v) > 1e-12)),
        q(r[1]),
        q(r[2]),
    )


def diff(got, ref, integrality=True):
    """None when `got` is the problem `ref`, else a short description."""
    if got.get("dup"):
        return f"duplicate solver variables {got['dup'][:3]}"
    if got.get("min") is False:
        return "objective is maximised"
    for n, (lb, ub, it) in ref["vars"].items():
        g = got["vars"].get(n)
        if g is None:
            return f"missing variable {n}"
        if not close(g[0], lb) or not close(g[1], ub):
            return f"variable {n}: bounds [{g[0]},{g[1]}], expected [{lb},{ub}]"
        if integrality and bool(g[2]) != bool(it):
            return f"variable {n}: integer={g[2]}, expected {it}"
    for n in got["vars"]:
        if n not in ref["vars"]:
            return f"unexpected variable {n}"
    a = sorted((_key(r), i) for i, r in enumerate(got["rows"]))
    b = sorted((_key(r), i) for i, r in enumerate(ref["rows"]))
    if [x[0] for x in a] != [x[0] for x in b]:
        from collections import Counter

        ca, cb = Counter(x[0] for x in a), Counter(x[0] for x in b)
        left = [got["rows"][i] for k, i in _take(a, ca - cb)]
        want = [ref["rows"][i] for k, i in _take(b, cb - ca)]
        for r in list(want):
            for l in left:
                if _row_close(l, r):
                    left.remove(l)
                    want.remove(r)
                    break
        if left or want:
            return (
                f"constraints differ: unexpected {_show(left[:2])}, "
                f"missing {_show(want[:2])} (got {len(a)} rows, expected {len(b)})"
            )
    for n in sorted(set(got["obj"]) | set(ref["obj"])):
        x, y = got["obj"].get(n, 0.0), ref["obj"].get(n, 0.0)
        if not close_coef(x, y):
            return f"objective coefficient of {n}: {x}, expected {y}"
    if not close(got["off"], ref["off"]):
        return f"objective offset {got['off']}, expected {ref['off']}"
    return None


def _take(lst, cnt):
    cnt = dict(cnt)
    r = []
    for k, i in lst:
        if cnt.get(k, 0) > 0:
            cnt[k] -= 1
            r.append((k, i))
    return r


def _show(rows):
    return [
        ({k: round(v, 6) for k, v in sorted(r[0].items())}, r[1], r[2]) for r in rows
    ]


def fingerprint(c):
    """hashable, exact form of a canonical problem (for equality between runs)"""
    return (
        tuple((n, *c["vars"][n]) for n in c["order"]),
        tuple((tuple(sorted(r[0].items())), r[1], r[2]) for r in c["rows"]),
        tuple(sorted(c["obj"].items())),
        c["off"],
    )
