"""Snapshots of inputs through their public fields and accessors."""
import dataclasses
import enum


ORDERED = False  # when true, the order of dictionaries is part of the image


def snap(x, depth=0):
    """JSON-able image of a value: public dataclass / pydantic fields, containers"""
    if depth > 200:
        return "..."
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, enum.Enum):
        return f"{type(x).__name__}.{x.name}"
    if isinstance(x, dict) and ORDERED:
        return {"{}": [[_key(k), snap(v, depth + 1)] for k, v in x.items()]}
    if isinstance(x, dict):
        return {"{}": sorted(([_key(k), snap(v, depth + 1)] for k, v in x.items()), key=lambda p: repr(p[0]))}
    if isinstance(x, (set, frozenset)):
        return {"set": sorted((snap(v, depth + 1) for v in x), key=repr)}
    if isinstance(x, (list, tuple)):
        return [snap(v, depth + 1) for v in x]
    t = type(x).__name__
    if t == "DataFrame":
        return {"df": x.to_numpy().tolist().__repr__()}
    if hasattr(type(x), "model_fields"):  # pydantic
        return {t: {k: snap(getattr(x, k), depth + 1) for k in type(x).model_fields}}
    if t == "Network":
        return snap_network(x)
    if dataclasses.is_dataclass(x):
        return {
            t: {
                f.name: snap(getattr(x, f.name), depth + 1)
                for f in dataclasses.fields(x)
                if not f.name.startswith("_")
            }
        }
    return repr(x)


def _key(k):
    return k if isinstance(k, str) else repr(snap(k))


def snap_network(n):
    return {
        "id": n.id,
        "nodes": [[c.id, type(c).__name__, snap(c.model)] for c in n.nodes],
        "components": [[c.id, type(c).__name__, snap(c.model)] for c in n.components],
        "connections": [
            [
                c.port1.component.id,
                c.port1.port_id,
                c.port2.component.id,
                c.port2.port_id,
                sorted([f.name, r.component.id, r.port_id] for f, r in c.master_port.items()),
            ]
            for c in n.connections
        ],
    }


def snap_database(db, keys, T, S, nodes=("",)):
    """values on a grid of (absolute step, scenario, tree node); keys: "comp|param" """
    out = {}
    for k in keys:
        c, p = k.split("|")
        try:
            d = db.get_data(c, p)
        except MemoryError:
            raise
        except Exception as e:
            out[k] = type(e).__name__
            continue
        g = []
        for n in nodes:
            for t in list(range(T)) + [None]:
                for s in list(range(S)) + [None]:
                    try:
                        g.append(repr(float(d.get_value(t, s, n))))
                    except MemoryError:
                        raise
                    except Exception as e:
                        g.append(type(e).__name__)
        out[k] = g
    return out


def snap_tree(root):
    return [
        [n.id, n.prob, snap(n.config), snap_network(n.network), n.parent.id if n.parent else None]
        for n in root.traverse()
    ]
