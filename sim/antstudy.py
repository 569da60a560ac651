"""Generated Antares studies: specification -> directory (written with antares_craft), and
an independent account of what converting such a study must deliver."""
import hashlib
import logging
import math
import os
import pathlib
import shutil

AREAS = ["at", "be", "ch", "fr", "it"]
CLUSTERS = ["gaz", "nuc", "coal"]
RENS = ["sun", "wnd"]
STOS = ["pump", "tank"]
Z = "z_batteries"
DERIVED_THERMAL = [
    "p_min_cluster", "nb_units_min", "nb_units_max", "nb_units_max_variation_forward", "nb_units_max_variation_backward",
]
LIB = "antares-historic"


# ---------------------------------------------------------------- generation
def _mat(rng, n, c, lo=0, hi=40, q=2):
    return [[rng.randint(lo * q, hi * q) / q for _ in range(c)] for _ in range(n)]


def gen(rng, n=None, rich=0.5, default=0.0):
    """a study; few names, so that several studies share them with other contents"""
    n = n or rng.choice([3, 5, 8, 12])
    areas = []
    ids = sorted(rng.sample(AREAS, rng.choice([1, 2, 2, 3, 4])))
    for a in ids:
        ar = {
            "id": a, "ens": rng.randint(0, 40) / 2, "spill": rng.randint(0, 8) / 2,
            "thermals": [], "renewables": [], "storages": [], "battery": None,
        }
        for k in ("load", "wind", "solar"):
            r = rng.random()
            ar[k] = None if r < 0.4 else [[0.0]] * n if r < 0.5 else _mat(rng, n, rng.choice([1, 2, 3]))
        for c in rng.sample(CLUSTERS, rng.choice([0, 1, 1, 2])):
            ar["thermals"].append(_thermal(rng, c, n))
            if rng.random() < default:  # no series: antares_craft's default matrices
                ar["thermals"][-1].update(series=None, mod=None)
        for c in rng.sample(RENS, rng.choice([0, 0, 1, 2])):
            ar["renewables"].append(
                {"name": c, "unit_count": rng.randint(1, 4), "nominal": rng.randint(1, 20) / 2, "series": _mat(rng, n, rng.choice([1, 2]))}
            )
        for c in rng.sample(STOS, rng.choice([0, 0, 1, 2])):
            ar["storages"].append(
                {"name": c, "inj": rng.randint(0, 9) / 1, "wd": rng.randint(0, 9) / 1, "res": rng.randint(0, 90) / 1,
                 "eff": rng.choice([0.5, 0.75, 1.0]), "init": rng.choice([0.25, 0.5])}
            )
        if rng.random() < rich:
            p2 = [1.0, 2.0, 4.0, 8.0]
            ar["battery"] = {
                "res": rng.choice(p2), "wd": rng.choice(p2), "inj_peak": rng.choice(p2),
                "w_inj": -rng.choice([0.5, 0.75, 0.875]), "w_wd": rng.choice([0.5, 0.75, 1.0]),
                "res_series": _mat(rng, n, rng.choice([1, 2])), "wd_series": _mat(rng, n, rng.choice([1, 2])),
                "direct": _mat(rng, n, rng.choice([1, 2]), 0, 1), "params": _mat(rng, n, 6), "second": rng.random() < 0.3,
            }
            ar["battery"]["direct"][rng.randrange(n)][0] = ar["battery"]["inj_peak"]
            for row in ar["battery"]["direct"]:
                row[0] = min(row[0], ar["battery"]["inj_peak"])
        areas.append(ar)
    pairs = [(a, b) for a in ids for b in ids if a < b]
    rng.shuffle(pairs)
    links = []
    for a, b in pairs[: rng.choice([0, 1, 2, 3, 6])]:
        links.append({"from": a, "to": b, "direct": _mat(rng, n, 1), "indirect": _mat(rng, n, 1)})
    return {"n": n, "areas": areas, "links": links}


def _thermal(rng, name, n):
    return {
        "name": name, "unit_count": rng.randint(1, 4), "nominal": rng.choice([1.0, 2.0, 4.0, 0.5, 8.0]),
        "min_stable": rng.randint(0, 6) / 2, "eff": rng.choice([50.0, 100.0]), "mc": rng.randint(0, 90) / 2,
        "fixed": rng.randint(0, 9) / 1, "startup": rng.randint(0, 9) / 1, "up": rng.randint(1, 5), "down": rng.randint(1, 5),
        "series": _mat(rng, n, rng.choice([1, 1, 2, 3])),
        "mod": [[1.0, 1.0, 1.0, rng.randint(0, 8) / 8] for _ in range(n)],
    }


def simpler(sp):
    for i in range(len(sp["areas"])):
        a = sp["areas"][i]["id"]
        if len(sp["areas"]) > 1:
            yield dict(sp, areas=sp["areas"][:i] + sp["areas"][i + 1 :], links=[l for l in sp["links"] if a not in (l["from"], l["to"])])
        for k, v in (("thermals", []), ("renewables", []), ("storages", []), ("battery", None), ("load", None), ("wind", None), ("solar", None)):
            if sp["areas"][i][k]:
                ars = list(sp["areas"])
                ars[i] = dict(ars[i], **{k: v})
                yield dict(sp, areas=ars)
            if isinstance(v, list) and len(sp["areas"][i][k]) > 1:
                ars = list(sp["areas"])
                ars[i] = dict(ars[i], **{k: ars[i][k][:1]})
                yield dict(sp, areas=ars)
    for i in range(len(sp["links"])):
        yield dict(sp, links=sp["links"][:i] + sp["links"][i + 1 :])


# ---------------------------------------------------------------- writing
def warm():
    import antares.craft.model.study  # noqa
    import andromede.input_converter.src.converter  # noqa

    import random
    import tempfile

    d = tempfile.mkdtemp(prefix="vsimw")
    try:
        logging.disable(logging.CRITICAL)
        rng = random.Random(3)
        sp = gen(rng, 3)
        write(sp, d, "w")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(sp, parent, name):
    """creates parent/name"""
    import pandas as pd
    from antares.craft.model.area import AreaProperties
    from antares.craft.model.binding_constraint import ClusterData, ConstraintTerm, LinkData
    from antares.craft.model.renewable import RenewableClusterProperties
    from antares.craft.model.st_storage import STStorageProperties
    from antares.craft.model.study import create_study_local
    from antares.craft.model.thermal import ThermalClusterProperties

    df = pd.DataFrame
    s = create_study_local(name, "880", pathlib.Path(parent))
    root = os.path.join(parent, name)
    batteries = [a for a in sp["areas"] if a["battery"]]

    def thermal(area, t):
        area.create_thermal_cluster(
            t["name"],
            ThermalClusterProperties(
                unit_count=t["unit_count"], nominal_capacity=t["nominal"], min_stable_power=t["min_stable"], efficiency=t["eff"],
                marginal_cost=t["mc"], fixed_cost=t["fixed"], startup_cost=t["startup"], min_up_time=t["up"], min_down_time=t["down"],
            ),
            modulation=None if t["mod"] is None else df(t["mod"]),
            series=None if t["series"] is None else df(t["series"]),
        )

    def simple(name, nominal, series):
        return {
            "name": name, "unit_count": 1, "nominal": nominal, "min_stable": 0.0, "eff": 100.0, "mc": 0.0, "fixed": 0.0,
            "startup": 0.0, "up": 1, "down": 1, "series": series, "mod": [[1.0, 1.0, 1.0, 0.0]] * sp["n"],
        }

    for a in sp["areas"]:
        area = s.create_area(a["id"], properties=AreaProperties(energy_cost_spilled=a["spill"], energy_cost_unsupplied=a["ens"]))
        for t in a["thermals"]:
            thermal(area, t)
        for r in a["renewables"]:
            area.create_renewable_cluster(
                r["name"], RenewableClusterProperties(unit_count=r["unit_count"], nominal_capacity=r["nominal"]), series=df(r["series"])
            )
        for t in a["storages"]:
            area.create_st_storage(
                t["name"],
                STStorageProperties(
                    injection_nominal_capacity=t["inj"], withdrawal_nominal_capacity=t["wd"], reservoir_capacity=t["res"],
                    efficiency=t["eff"], initial_level=t["init"],
                ),
            )
        for k in ("load", "wind", "solar"):
            if a[k] is not None:
                getattr(area, "set_" + k)(df(a[k]))
    if batteries:
        z = s.create_area(Z)
    for l in sp["links"]:
        s.create_link(area_from=l["from"], area_to=l["to"])
        base = os.path.join(root, "input", "links", l["from"])
        _write_mat(os.path.join(base, "capacities", l["to"] + "_direct.txt"), l["direct"])
        _write_mat(os.path.join(base, "capacities", l["to"] + "_indirect.txt"), l["indirect"])
        _write_mat(os.path.join(base, l["to"] + "_parameters.txt"), [[0.0] * 6] * sp["n"])
    for a in batteries:
        b, i = a["battery"], a["id"]
        thermal(s.get_areas()[i], simple(f"{i}_batteries_inj", b["wd"], b["wd_series"]))
        thermal(z, simple(f"{Z}_batteries_{i}_1", b["res"], b["res_series"]))
        if b["second"]:
            thermal(z, simple(f"{Z}_batteries_{i}_2", b["res"], b["res_series"]))
        s.create_link(area_from=i, area_to=Z)
        base = os.path.join(root, "input", "links", i)
        _write_mat(os.path.join(base, "capacities", Z + "_direct.txt"), b["direct"])
        _write_mat(os.path.join(base, "capacities", Z + "_indirect.txt"), b["direct"])
        _write_mat(os.path.join(base, Z + "_parameters.txt"), b["params"])
        s.create_binding_constraint(
            name=f"batteries_{i}",
            terms=[
                ConstraintTerm(weight=b["w_inj"], data=LinkData(area1=i, area2=Z)),
                ConstraintTerm(weight=b["w_wd"], data=ClusterData(area=i, cluster=f"{i}_batteries_inj")),
            ],
        )
    return root


def _write_mat(p, m):
    with open(p, "w") as f:
        for row in m:
            f.write("\t".join(repr(float(x)) for x in row) + "\n")


# ---------------------------------------------------------------- what converting must give
def expected(sp, period=None):
    """{"nodes": {id: {param: value}}, "components": {(model, id, key param value): params}, "connections": sorted list,
    "series": {rel path without .txt: rows}}; file values are ["file", rel]"""
    period = period or 168
    nodes, comps, cnx, series = [], [], [], {}
    batteries = [a for a in sp["areas"] if a["battery"]]
    for a in sp["areas"]:
        nodes.append([a["id"], f"{LIB}.area", {"ens_cost": a["ens"], "spillage_cost": a["spill"]}])
    for a in sp["areas"]:
        i = a["id"]
        for r in a["renewables"]:
            comps.append(
                [r["name"], f"{LIB}.renewable",
                 {"unit_count": r["unit_count"], "p_max_unit": r["nominal"], "generation": f"input/renewables/series/{i}/{r['name']}/series"}]
            )
            cnx.append([r["name"], "balance_port", i, "balance_port"])
        for t in a["thermals"]:
            d = f"input/thermal/series/{i}/{t['name']}/"
            p = {
                "unit_count": t["unit_count"], "p_min_unit": t["min_stable"], "efficiency": t["eff"], "p_max_unit": t["nominal"],
                "generation_cost": t["mc"], "fixed_cost": t["fixed"], "startup_cost": t["startup"], "d_min_up": t["up"],
                "d_min_down": t["down"], "p_max_cluster": d + "series",
            }
            for k, rows in thermal_series(t, period).items():
                p[k] = d + k
                series[d + k] = rows
            comps.append([t["name"], f"{LIB}.thermal", p])
            cnx.append([t["name"], "balance_port", i, "balance_port"])
        for t in a["storages"]:
            d = f"input/st-storage/series/{i}/{t['name']}/"
            comps.append(
                [t["name"], f"{LIB}.short-term-storage",
                 {"efficiency_injection": t["eff"], "efficiency_withdrawal": 1, "initial_level": t["init"], "reservoir_capacity": t["res"],
                  "injection_nominal_capacity": t["inj"], "withdrawal_nominal_capacity": t["wd"], "inflows": d + "inflows",
                  "lower_rule_curve": d + "lower-rule-curve", "upper_rule_curve": d + "upper-rule-curve",
                  "p_max_injection_modulation": d + "PMAX-injection", "p_max_withdrawal_modulation": d + "PMAX-withdrawal"}]
            )
            cnx.append([t["name"], "injection_port", i, "balance_port"])
        for k in ("load", "wind", "solar"):
            if a[k] is not None and any(x != 0 for row in a[k] for x in row):
                comps.append(["load" if k == "load" else i, f"{LIB}.{k}", {k: f"input/{k}/series/{k}_{i}"}])
                cnx.append([k, "balance_port", i, "balance_port"])
    for l in sp["links"]:
        n = f"{l['from']} / {l['to']}"
        d = f"input/links/{l['from']}/capacities/{l['to']}"
        comps.append([n, f"{LIB}.link", {"capacity_direct": d + "_direct", "capacity_indirect": d + "_indirect"}])
        cnx.append([n, "in_port", l["from"], "balance_port"])
        cnx.append([n, "out_port", l["to"], "balance_port"])
    for a in batteries:
        b, i = a["battery"], a["id"]
        peak = max(row[0] for row in b["direct"])
        files = {
            "upper_rule_curve": (f"input/thermal/series/{Z}/{Z}_batteries_{i}_1/upper_rule_curve_{Z}", [[r[0] / b["res"]] for r in b["res_series"]]),
            "p_max_injection_modulation": (f"input/links/{i}/capacities/p_max_injection_modulation_{i}", [[r[0] / peak] for r in b["direct"]]),
            "p_max_withdrawal_modulation": (f"input/thermal/series/{i}/{i}_batteries_inj/p_max_withdrawal_modulation_{i}", [[r[0] / b["wd"]] for r in b["wd_series"]]),
            "marginal_cost": (f"input/links/{i}/marginal_cost_{i}", [[r[0]] for r in b["params"]]),
        }
        p = {
            "reservoir_capacity": b["res"], "injection_nominal_capacity": peak, "withdrawal_nominal_capacity": b["wd"],
            "efficiency_injection": -b["w_inj"], "efficiency_withdrawal": b["w_wd"], "lower_rule_curve": 0,
        }
        for k, (f, rows) in files.items():
            p[k] = f
            series[f] = rows
        comps.append([f"battery_{i}", "andromede-v1-models.battery", p])
        cnx.append([f"battery_{i}", "injection_port", i, "balance_port"])
    return {"nodes": nodes, "components": comps, "connections": cnx, "series": series}


def thermal_series(t, period):
    nom = t["nominal"]
    if t["series"] is None:
        z = [[0.0]] * 8760
        return {k: z for k in DERIVED_THERMAL}
    pmin = [min([t["mod"][k][3] * nom * t["unit_count"]] + t["series"][k]) for k in range(len(t["series"]))]
    umax = [[float(math.ceil(x / nom)) for x in row] for row in t["series"]]
    n = len(umax)
    prev = [0 if k == 0 else min((k - 1) % period + (k // period) * period, n - 1) for k in range(n)]
    return {
        "p_min_cluster": [[x] for x in pmin],
        "nb_units_min": [[float(math.ceil(x / nom))] for x in pmin],
        "nb_units_max": umax,
        "nb_units_max_variation_forward": [[max(0.0, umax[prev[k]][c] - umax[k][c]) for c in range(len(umax[k]))] for k in range(n)],
        "nb_units_max_variation_backward": [[max(0.0, umax[k][c] - umax[prev[k]][c]) for c in range(len(umax[k]))] for k in range(n)],
    }


def _params(l):
    return {p["id"]: p.get("value") for p in l}


def _same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1.0, abs(b))
    return a == b


def compare(got, want):
    """got: as returned by collect(); None or what is wrong"""
    sysd = got["system"]
    for kind in ("nodes", "components"):
        g = sorted(((c["id"], c["model"]) for c in sysd.get(kind) or []))
        w = sorted((c[0], c[1]) for c in want[kind])
        if g != w:
            miss = [x for x in w if x not in g]
            extra = [x for x in g if x not in w]
            return f"incomplete-system: {kind}: missing {miss}, unexpected {extra}" + ("" if miss or extra else f", {g} instead of {w}")
        left = [(c["id"], c["model"], _params(c.get("parameters") or [])) for c in sysd.get(kind) or []]
        for i, m, p in want[kind]:
            for x in left:
                if x[0] == i and x[1] == m and set(x[2]) == set(p) and all(_same(x[2][k], p[k]) for k in p):
                    left.remove(x)
                    break
            else:
                near = [x[2] for x in left if x[:2] == (i, m)]
                return f"wrong-parameters: {i} ({m}): {near[:1]} instead of {p}"
    g = sorted([c["component1"], c["port1"], c["component2"], c["port2"]] for c in sysd.get("connections") or [])
    w = sorted(want["connections"])
    if g != w:
        return f"incomplete-system: connections {[x for x in g if x not in w]} instead of {[x for x in w if x not in g]}"
    for f, rows in sorted(want["series"].items()):
        d = got["derived"].get(f)
        if d is None:
            return f"missing-series: {f}"
        if len(d) != len(rows) or any(len(a) != len(b) or not all(_same(x, y) for x, y in zip(a, b)) for a, b in zip(d, rows)):
            return f"wrong-series: {f}: {str(d)[:200]} instead of {str(rows)[:200]}"
    return None


# ---------------------------------------------------------------- converting
def log():
    l = logging.getLogger("verif-conv")
    l.propagate = False
    if not l.handlers:
        l.addHandler(logging.NullHandler())
    return l


def make(root, mode="path", period=None, out=None):
    from andromede.input_converter.src.converter import AntaresStudyConverter

    if mode == "study":
        from antares.craft.model.study import read_study_local

        x = read_study_local(pathlib.Path(root))
    elif mode == "rel":
        x = pathlib.Path(os.path.relpath(root))
    else:
        x = pathlib.Path(root)
    return AntaresStudyConverter(study_input=x, logger=log(), output_path=pathlib.Path(out) if out else None, period=period)


def derived_paths(sp):
    return set(expected(sp)["series"])


def _rows(p):
    with open(p) as f:
        return [[float(x) for x in l.split("\t")] for l in f.read().splitlines()]


def collect(root, sp, out=None):
    """the converted system and its derived series, as on the disk"""
    import yaml

    p = out or os.path.join(root, "output.yaml")
    with open(p, encoding="utf-8") as f:
        text = f.read()
    rp = os.path.realpath(root)
    text = text.replace(rp + "/", "").replace(root + "/", "")
    return {"text": text, "system": yaml.load(text, yaml.CSafeLoader)["system"], "derived": derived(root, sp)}


def system_of(model, root):
    """as collect(), of a system returned in memory"""
    d = model.model_dump(by_alias=True, exclude_unset=True)
    rp = os.path.realpath(root)

    def fix(x):
        if isinstance(x, str):
            return x.replace(rp + "/", "").replace(root + "/", "")
        if isinstance(x, dict):
            return {k: fix(v) for k, v in x.items()}
        if isinstance(x, list):
            return [fix(v) for v in x]
        return x

    return fix(d)


def derived(root, sp):
    r = {}
    for f in sorted(derived_paths(sp)):
        p = os.path.join(root, f + ".txt")
        if os.path.exists(p):
            try:
                r[f] = _rows(p)
            except ValueError as e:
                r[f] = [["unreadable", str(e)]]
    return r


def digest(root, sp, extra=()):
    """of every file which is the study's own"""
    skip = {p + ".txt" for p in derived_paths(sp)} | {"output.yaml"} | set(extra)
    h = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(base, f), root)
            if rel in skip:
                continue
            with open(os.path.join(base, f), "rb") as fh:
                h[rel] = hashlib.sha256(fh.read()).hexdigest()[:16]
    return h
