"""Studies in the form of files: libraries, system, series, scenario builder.

tstudy = {"spec": study spec (lang.py), "libs": [{"id","pts":[ids],"models":[ids],"deps":[ids]}],
          "groups": {"comp" | "comp|param": group}, "sb": None | {group: {year: scenario}}}
The spec's data already carry the scenarization that groups and scenario builder give.
"""
import io
import os

import gen as G
import lang


def gen_text(rng, small=True, scenarized=None, max_comps=3):
    sp = G.gen_study(rng, text=True, small=small, scenarization=False, max_comps=max_comps)
    b = sp["b"]
    # series files are dense from zero
    libs = []
    pts = [p["id"] for p in sp["port_types"]]
    mids = list(sp["models"])
    n = rng.randint(1, 3)
    libs.append({"id": "lib0", "pts": list(pts), "models": [], "deps": []})
    for i in range(1, n):
        libs.append(
            {
                "id": f"lib{i}",
                "pts": [],
                "models": [],
                "deps": ["lib0"] + (["lib1"] if i == 2 and rng.random() < 0.5 else []),
            }
        )
    for m in mids:
        rng.choice(libs)["models"].append(m)
    if scenarized is None:
        scenarized = rng.random() < 0.25
    groups, sb = {}, None
    if scenarized:
        net = sp["net"]
        net["comps"] = net["nodes"] + net["comps"]
        net["nodes"] = []
        sb = {}
        S = sp["S"]
        nser = {}
        for g in ("ga", "gb"):
            nser[g] = rng.randint(1, 3)
            sb[g] = {str(y): rng.randrange(nser[g]) for y in range(S)}
        for c, m in net["comps"]:
            if rng.random() < 0.6:
                groups[c] = rng.choice(["ga", "gb"])
            for p in sp["models"][m]["params"]:
                k = f"{c}|{p['n']}"
                if rng.random() < 0.3:
                    groups[k] = rng.choice(["ga", "gb"])
                g = groups.get(k, groups.get(c))
                d = sp["data"][k]
                if g and d[0] == "ss":
                    sp["data"][k] = ["ss", {str(s): G.q(rng) for s in range(nser[g])}, sb[g]]
                elif g and d[0] == "tss":
                    sp["data"][k] = [
                        "tss",
                        [[G.q(rng) for _ in range(nser[g])] for _ in range(sp["T_abs"])],
                        sb[g],
                    ]
    return {"spec": sp, "libs": libs, "groups": groups, "sb": sb}


def library_text(ts, lib):
    sp = ts["spec"]
    return lang.yaml_library(
        lib["id"],
        [p for p in sp["port_types"] if p["id"] in lib["pts"]],
        [sp["models"][m] for m in lib["models"] if m in sp["models"]],
        lib["deps"],
    )


def series_names(ts):
    return {
        k: "s_" + k.replace("|", "_")
        for k, d in ts["spec"]["data"].items()
        if d[0] != "const"
    }


def system_text(ts):
    sp = ts["spec"]
    ml = {m: l["id"] for l in ts["libs"] for m in l["models"]}
    return lang.yaml_system(sp["net"], ml, sp["data"], sp["models"], series_names(ts), ts["groups"])


def series_files(ts):
    """{stem: text}"""
    return {n: lang.series_text(ts["spec"]["data"][k]) for k, n in series_names(ts).items()}


def sb_text(ts):
    return "".join(
        f"{g}, {y}, {s}\n" for g, m in ts["sb"].items() for y, s in m.items()
    )


def files(ts):
    """relative path -> text, in the layout of `--study`"""
    r = {f"input/models/{l['id']}.yml": library_text(ts, l) for l in ts["libs"]}
    r["input/components/components.yml"] = system_text(ts)
    for n, t in series_files(ts).items():
        r[f"input/components/series/{n}.txt"] = t
    if ts["sb"] is not None:
        r["input/components/scenariobuilder.csv"] = sb_text(ts)
    return r


def write(ts, root):
    for rel, t in files(ts).items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    os.makedirs(os.path.join(root, "input/components/series"), exist_ok=True)


def load_libs(ts, root):
    from andromede.model.parsing import parse_yaml_library

    out = []
    for l in ts["libs"]:
        with open(os.path.join(root, f"input/models/{l['id']}.yml")) as f:
            out.append(parse_yaml_library(f))
    return out


def load_system(ts, root):
    from andromede.study.parsing import parse_yaml_components

    with open(os.path.join(root, "input/components/components.yml")) as f:
        return parse_yaml_components(f)


def load_db(ts, root, inp):
    from pathlib import Path

    from andromede.study.parsing import parse_scenario_builder
    from andromede.study.resolve_components import (
        build_data_base,
        build_scenarized_data_base,
    )

    d = Path(root) / "input/components/series"
    if ts["sb"] is None:
        return build_data_base(inp, d)
    sb = parse_scenario_builder(Path(root) / "input/components/scenariobuilder.csv")
    return build_scenarized_data_base(inp, sb, d)


def load_all(ts, root):
    """(libs, input system, network, database) through the public loading path"""
    from andromede.model.resolve_library import resolve_library
    from andromede.study.resolve_components import build_network, resolve_system

    libs = resolve_library(load_libs(ts, root))
    inp = load_system(ts, root)
    net = build_network(resolve_system(inp, libs))
    return libs, inp, net, load_db(ts, root, inp)


def ref(ts):
    sp = ts["spec"]
    return lang.RefStudy(sp["models"], sp["net"], sp["data"])
