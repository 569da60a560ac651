"""Generic simplification of plans and study specifications."""
import copy
import json


def drop_each(lst, chunk_first=True):
    """lists with parts removed: halves, quarters ... then single elements"""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            r = lst[:i] + lst[i + size :]
            if len(r) < n:
                yield r
        if size == 1:
            break
        size //= 2


def with_key(d, k, v):
    r = dict(d)
    r[k] = v
    return r


def expr_simpler(e):
    if not isinstance(e, list) or e[0] in ("lit",):
        return
    k = e[0]
    if k in ("var", "par", "pf", "sumc"):
        return
    if k == "cmp":
        for x in expr_simpler(e[2]):
            yield ["cmp", e[1], x, e[3]]
        for x in expr_simpler(e[3]):
            yield ["cmp", e[1], e[2], x]
        if e[3] != ["lit", 0.0]:
            yield ["cmp", e[1], e[2], ["lit", 0.0]]
        return
    kids = [i for i in range(1, len(e)) if isinstance(e[i], list)]
    for i in kids:
        yield e[i]
    for i in kids:
        for x in expr_simpler(e[i]):
            yield e[:i] + [x] + e[i + 1 :]


def study_simpler(sp):
    """simpler variants of a study spec"""
    net = sp["net"]
    for key in ("comps", "nodes"):
        for i in range(len(net[key])):
            c = net[key][i][0]
            n = copy.deepcopy(net)
            del n[key][i]
            n["cnx"] = [x for x in n["cnx"] if c not in (x[0], x[2])]
            r = with_key(sp, "net", n)
            r["data"] = {k: v for k, v in sp["data"].items() if not k.startswith(c + "|")}
            yield r
    for i in range(len(net["cnx"])):
        n = copy.deepcopy(net)
        del n["cnx"][i]
        yield with_key(sp, "net", n)
    used = {m for _, m in net["nodes"] + net["comps"]}
    for mid in sp["models"]:
        if mid not in used:
            ms = {k: v for k, v in sp["models"].items() if k != mid}
            yield with_key(sp, "models", ms)
    for mid, m in sp["models"].items():
        for v in model_simpler(m):
            ms = dict(sp["models"])
            ms[mid] = v
            yield with_key(sp, "models", ms)
    for k, d in sp["data"].items():
        if d[0] != "const":
            ds = dict(sp["data"])
            ds[k] = ["const", 1.0]
            yield with_key(sp, "data", ds)


def model_simpler(m):
    for i in range(len(m["cons"])):
        yield with_key(m, "cons", m["cons"][:i] + m["cons"][i + 1 :])
    for k in ("obj_op", "obj_inv"):
        if m.get(k) is not None:
            yield with_key(m, k, None)
            for x in expr_simpler(m[k]):
                yield with_key(m, k, x)
    for i, c in enumerate(m["cons"]):
        for x in expr_simpler(c["e"]):
            yield with_key(
                m, "cons", m["cons"][:i] + [with_key(c, "e", x)] + m["cons"][i + 1 :]
            )
        for b in ("lb", "ub"):
            if c.get(b) is not None:
                yield with_key(
                    m, "cons", m["cons"][:i] + [with_key(c, b, None)] + m["cons"][i + 1 :]
                )
    for i, v in enumerate(m["vars"]):
        for b in ("lb", "ub"):
            if v.get(b) is not None and v[b] != ["lit", 0.0]:
                yield with_key(
                    m, "vars", m["vars"][:i] + [with_key(v, b, None)] + m["vars"][i + 1 :]
                )
    for i, d in enumerate(m["defs"]):
        for x in expr_simpler(d["e"]):
            yield with_key(
                m, "defs", m["defs"][:i] + [with_key(d, "e", x)] + m["defs"][i + 1 :]
            )


def b_simpler(b):
    if len(b["timesteps"]) > 1:
        yield with_key(b, "timesteps", b["timesteps"][:-1])
        yield with_key(b, "timesteps", b["timesteps"][:1])
    if b["scenarios"] > 1:
        yield with_key(b, "scenarios", 1)
        yield with_key(b, "scenarios", b["scenarios"] - 1)
