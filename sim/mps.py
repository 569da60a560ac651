"""Independent reader of the exported MPS files and structure files, and an LP
solver for the problems read (through OR-tools, used as an oracle)."""
import math

INF = float("inf")


class BadFile(Exception):
    pass


def parse_mps(text):
    """{"vars": {name:[lb,ub,int]}, "cols": [names in file order], "rows": [[coefs,lb,ub]],
    "rownames": [...], "obj", "off"}.  Raises BadFile on an incomplete file."""
    sec = None
    rows, order = {}, []
    objrow = None
    cols, colorder = {}, []
    rhs, rng = {}, {}
    vars_ = {}
    integer = False
    ended = False
    for line in text.split("\n"):
        if not line.strip() or line.startswith("*"):
            continue
        if ended:
            raise BadFile("text after ENDATA")
        if not line[0].isspace():
            f = line.split()
            sec = f[0]
            if sec == "ENDATA":
                ended = True
            elif sec not in ("NAME", "ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "OBJSENSE"):
                raise BadFile(f"section {sec}")
            continue
        f = line.split()
        if sec == "ROWS":
            if len(f) != 2:
                raise BadFile(f"row line {line!r}")
            if f[0] == "N" and objrow is None:
                objrow = f[1]
            else:
                if f[1] in rows:
                    raise BadFile(f"duplicate row {f[1]}")
                rows[f[1]] = f[0]
                order.append(f[1])
        elif sec == "COLUMNS":
            if len(f) >= 3 and f[1] == "'MARKER'":
                integer = f[2] == "'INTORG'"
                continue
            if len(f) not in (3, 5):
                raise BadFile(f"column line {line!r}")
            c = f[0]
            if c not in cols:
                cols[c] = {}
                colorder.append(c)
                vars_[c] = [0.0, INF, integer]
            for r, v in zip(f[1::2], f[2::2]):
                if r != objrow and r not in rows:
                    raise BadFile(f"unknown row {r}")
                cols[c][r] = cols[c].get(r, 0.0) + _num(v)
        elif sec in ("RHS", "RANGES"):
            if len(f) not in (3, 5):
                raise BadFile(f"{sec} line {line!r}")
            for r, v in zip(f[1::2], f[2::2]):
                if r != objrow and r not in rows:
                    raise BadFile(f"unknown row {r}")
                (rhs if sec == "RHS" else rng)[r] = _num(v)
        elif sec == "BOUNDS":
            k, c = f[0], f[2]
            if c not in vars_:
                vars_[c] = [0.0, INF, False]  # a column without any coefficient
            b = vars_[c]
            if k in ("LO", "LI"):
                b[0] = _num(f[3])
            elif k in ("UP", "UI"):
                b[1] = _num(f[3])
            elif k == "FX":
                b[0] = b[1] = _num(f[3])
            elif k == "FR":
                b[0], b[1] = -INF, INF
            elif k == "MI":
                b[0] = -INF
            elif k == "PL":
                b[1] = INF
            elif k == "BV":
                b[0], b[1] = 0.0, 1.0
                b[2] = True
            else:
                raise BadFile(f"bound kind {k}")
            if k in ("LI", "UI"):
                b[2] = True
        else:
            raise BadFile(f"line outside a section: {line!r}")
    if not ended:
        raise BadFile("no ENDATA")
    out_rows = []
    for r in order:
        b = rhs.get(r, 0.0)
        k = rows[r]
        lb, ub = {"L": (-INF, b), "G": (b, INF), "E": (b, b), "N": (-INF, INF)}[k]
        if r in rng:
            R = rng[r]
            if k == "G":
                ub = lb + abs(R)
            elif k == "L":
                lb = ub - abs(R)
            elif k == "E":
                lb, ub = (b, b + R) if R > 0 else (b + R, b)
        out_rows.append([{c: v[r] for c, v in cols.items() if v.get(r, 0.0) != 0}, lb, ub])
    return {
        "vars": vars_,
        "cols": colorder,
        "rows": out_rows,
        "rownames": order,
        "obj": {c: v[objrow] for c, v in cols.items() if v.get(objrow, 0.0) != 0},
        "off": -rhs.get(objrow, 0.0),
    }


def _num(s):
    try:
        v = float(s)
    except ValueError:
        raise BadFile(f"not a number: {s!r}")
    if math.isnan(v):
        raise BadFile("nan")
    return v


def parse_structure(text):
    """[(problem, candidate, index)]"""
    if text and not text.endswith("\n"):
        raise BadFile("structure file cut")
    r = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        f = line.split()
        if len(f) != 3:
            raise BadFile(f"structure line {line!r}")
        try:
            r.append((f[0], f[1], int(f[2])))
        except ValueError:
            raise BadFile(f"structure line {line!r}")
    return r


def solve(lp, relax=True, fixed=None):
    """(status, value, {var: x}) of an lp in the dict form above"""
    import ortools.linear_solver.pywraplp as L

    s = L.Solver.CreateSolver("GLOP" if relax else "SCIP")
    inf = s.infinity()

    def b(x):
        return inf if x == INF else -inf if x == -INF else x

    xs = {}
    for n, (lo, hi, it) in lp["vars"].items():
        if fixed and n in fixed:
            lo = hi = fixed[n]
        xs[n] = s.IntVar(b(lo), b(hi), n) if it and not relax else s.NumVar(b(lo), b(hi), n)
    for co, lo, hi in lp["rows"]:
        c = s.Constraint(b(lo), b(hi))
        for n, v in co.items():
            c.SetCoefficient(xs[n], v)
    o = s.Objective()
    for n, v in lp["obj"].items():
        o.SetCoefficient(xs[n], v)
    o.SetOffset(lp["off"])
    o.SetMinimization()
    st = s.Solve()
    name = {0: "optimal", 1: "feasible", 2: "infeasible", 3: "unbounded"}.get(st, "other")
    if st != 0:
        return name, None, {}
    return name, o.Value(), {n: x.solution_value() for n, x in xs.items()}


def join(master, subs):
    """extensive form: master and subproblems share the columns of equal name;
    a shared column keeps the tightest bounds."""
    vars_ = {n: list(v) for n, v in master["vars"].items()}
    rows = list(master["rows"])
    obj = dict(master["obj"])
    off = master["off"]
    for i, p in enumerate(subs):
        ren = {}
        for n, v in p["vars"].items():
            if n in master["vars"]:
                ren[n] = n
                w = vars_[n]
                w[0], w[1] = max(w[0], v[0]), min(w[1], v[1])
                w[2] = w[2] or v[2]
            else:
                ren[n] = f"#{i}#{n}"
                vars_[ren[n]] = list(v)
        for co, lo, hi in p["rows"]:
            rows.append([{ren[k]: x for k, x in co.items()}, lo, hi])
        for k, x in p["obj"].items():
            obj[ren[k]] = obj.get(ren[k], 0.0) + x
        off += p["off"]
    return {"vars": vars_, "rows": rows, "obj": obj, "off": off}


def near(a, b, rel=2e-5, scale=0.0):
    """two problems in dict form are the same up to the digits that MPS text keeps; None or a difference.
    (The optimum may move by much more than the digits: it is not a measure of equality.)"""

    def ok(x, y, scale=0.0):
        if x == y:
            return True
        if math.isinf(x) or math.isinf(y):
            return False
        return abs(x - y) <= rel * max(abs(x), abs(y), scale) + 1e-9

    used = {n for p in (a, b) for n in p["obj"]} | {n for p in (a, b) for r in p["rows"] for n, x in r[0].items() if x}
    if (set(a["vars"]) ^ set(b["vars"])) & used:
        return f"columns {sorted((set(a['vars']) ^ set(b['vars'])) & used)}"
    for n, (lo, hi, it) in a["vars"].items():
        if n not in b["vars"]:
            continue
        l2, h2, i2 = b["vars"][n]
        if not (ok(lo, l2) and ok(hi, h2) and bool(it) == bool(i2)):
            return f"column {n}: {[lo, hi, it]} and {[l2, h2, i2]}"
    for n in set(a["obj"]) | set(b["obj"]):
        if not ok(a["obj"].get(n, 0.0), b["obj"].get(n, 0.0)):
            return f"cost of {n}: {a['obj'].get(n, 0.0)} and {b['obj'].get(n, 0.0)}"
    if not ok(a["off"], b["off"], scale):
        return f"constant cost {a['off']} and {b['off']}"
    left = [(dict((k, v) for k, v in co.items() if abs(v) > 1e-9), lo, hi) for co, lo, hi in b["rows"]]
    for co, lo, hi in a["rows"]:
        co = {k: v for k, v in co.items() if abs(v) > 1e-9}
        sc = max([abs(x) for x in (lo, hi) if not math.isinf(x)] or [0.0])
        for j, (c2, l2, h2) in enumerate(left):
            if set(co) == set(c2) and ok(lo, l2, sc) and ok(hi, h2, sc) and all(ok(v, c2[k]) for k, v in co.items()):
                del left[j]
                break
        else:
            return f"row {co} in [{lo}, {hi}] is missing"
    if left:
        return f"row {left[0]} is unexpected"
    return None

