"""What a model is defined by, read off its public attributes (results and caches left out)."""
import numpy as np

NODE = ["name", "X", "Y", "Z"] + [f"support_{d}" for d in ("DX", "DY", "DZ", "RX", "RY", "RZ")] + [f"Enforced{d}" for d in ("DX", "DY", "DZ", "RX", "RY", "RZ")]
SPRINGS = [f"spring_{d}" for d in ("DX", "DY", "DZ", "RX", "RY", "RZ")]
ENDS = ["i_node", "j_node", "m_node", "n_node"]
RES = ["DX", "DY", "DZ", "RX", "RY", "RZ", "RxnFX", "RxnFY", "RxnFZ", "RxnMX", "RxnMY", "RxnMZ"]


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return plain(v.tolist())
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return f"<{type(v).__name__} {getattr(v, 'name', '')}>"


def attrs(o, names):
    return {a: plain(getattr(o, a)) for a in names if hasattr(o, a)}


def node_of(m, e, a):
    """The end's name and whether it is the very node of the model."""
    n = getattr(e, a)
    return [n.name, m.nodes.get(n.name) is n]


def snap(m, results=False, state=False):
    """results: node results too; state: what the last analysis made of one-way elements."""
    out = {}
    out["nodes"] = {k: dict(attrs(n, NODE), loads=plain(n.NodeLoads), **{q: plain(getattr(n, q))[:3 if state else 2] for q in SPRINGS}, **(attrs(n, RES) if results else {})) for k, n in m.nodes.items()}
    out["aux"] = {k: attrs(n, ["name", "X", "Y", "Z"]) for k, n in m.aux_nodes.items()}
    out["materials"] = {k: attrs(v, ["name", "E", "G", "nu", "rho", "fy"]) for k, v in m.materials.items()}
    out["sections"] = {k: attrs(v, ["name", "A", "Iy", "Iz", "J", "Zy", "Zz"]) for k, v in m.sections.items()}
    out["springs"] = {k: dict(attrs(v, ["name", "ks", "tension_only", "comp_only"] + (["active"] if state else [])), ends=[node_of(m, v, a) for a in ENDS[:2]]) for k, v in m.springs.items()}
    out["members"] = {k: dict(attrs(v, ["name", "E", "G", "A", "Iy", "Iz", "J", "PtLoads", "DistLoads", "Releases", "tension_only", "comp_only", "material_name"] + (["active"] if state else [])),
                              aux=None if v.auxNode is None else v.auxNode.name, ends=[node_of(m, v, a) for a in ENDS[:2]]) for k, v in m.members.items()}
    for kind in ("plates", "quads"):
        out[kind] = {k: dict(attrs(v, ["name", "t", "E", "nu", "kx_mod", "ky_mod", "pressures"]), ends=[node_of(m, v, a) for a in ENDS]) for k, v in getattr(m, kind).items()}
    out["meshes"] = {k: dict(nodes=sorted(v.nodes), elements=sorted(v.elements), **attrs(v, ["thickness", "material_name", "kx_mod", "ky_mod"])) for k, v in m.meshes.items()}
    out["combos"] = {k: attrs(v, ["name", "factors", "combo_tags"]) for k, v in m.load_combos.items()}
    out["order"] = {k: list(getattr(m, k)) for k in ("nodes", "springs", "members", "plates", "quads", "meshes", "load_combos", "materials")}
    if results or state:
        out["solution"] = m.solution
    return out


def diff(a, b, path=""):
    """First difference of two snapshots, as text, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: {sorted(set(a) - set(b))[:4]} gone, {sorted(set(b) - set(a))[:4]} new"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {a} became {b}"
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{k}]")
            if d:
                return d
        return None
    if a != b and not (a != a and b != b):
        return f"{path}: {a!r} became {b!r}"
