"""Model specifications: plain JSON-able dictionaries describing a structural model, independent of PyNite.

Everything the monitors compare is expressed through specs: the same spec can be built in PyNite in many ways
(orders, names, rotated, subdivided) and solved by the independent reference solver.
"""
import copy, math
import numpy as np

DOFS = ("DX", "DY", "DZ", "RX", "RY", "RZ")
FDIR = ("FX", "FY", "FZ", "MX", "MY", "MZ")
RXN = ("RxnFX", "RxnFY", "RxnFZ", "RxnMX", "RxnMY", "RxnMZ")


def new():
    return dict(materials={}, sections={}, nodes={}, aux={}, members={}, springs={}, plates={}, quads={}, supports={},
                spsup=[], enf=[], nload=[], mpt=[], mdist=[], sw=[], ppress=[], qpress=[], combos={}, meshes={})


def clone(s):
    return copy.deepcopy(s)


# ------------------------------------------------------------------ builder
def build(s, perm=None, model=None, combos=True):
    """Build a PyNite model from a spec.  `perm` is a random.Random used to shuffle the insertion order of everything."""
    from PyNite import FEModel3D
    m = model if model is not None else FEModel3D()

    def items(d):
        l = list(d.items()) if isinstance(d, dict) else list(d)
        if perm is not None:
            perm.shuffle(l)
        return l

    for n, (x, y, z) in items(s["nodes"]):
        m.add_node(n, x, y, z)
    for n, (x, y, z) in items(s["aux"]):
        m.add_auxnode(n, x, y, z)
    for n, p in items(s["materials"]):
        m.add_material(n, *p)
    if s.get("sections"):
        from PyNite.Section import Section
        mat0 = next(iter(s["materials"]))
        for n, (A, Iy, Iz, J) in items(s["sections"]):
            m.add_section(n, Section(m, n, A, Iy, Iz, J, mat0))
    for n, d in items(s["members"]):
        if d.get("section"):
            m.add_member(n, d["i"], d["j"], d["mat"], aux_node=d.get("aux"), tension_only=d.get("t", False),
                         comp_only=d.get("c", False), section_name=d["section"])
        else:
            m.add_member(n, d["i"], d["j"], d["mat"], d["Iy"], d["Iz"], d["J"], d["A"], aux_node=d.get("aux"),
                         tension_only=d.get("t", False), comp_only=d.get("c", False))
        if any(d.get("rel") or []):
            m.def_releases(n, *[bool(v) for v in d["rel"]])
    for n, d in items(s["springs"]):
        m.add_spring(n, d["i"], d["j"], d["ks"], d.get("t", False), d.get("c", False))
    for n, d in items(s["plates"]):
        m.add_plate(n, d["i"], d["j"], d["m"], d["n"], d["t"], d["mat"], d.get("kx", 1.0), d.get("ky", 1.0))
    for n, d in items(s["quads"]):
        m.add_quad(n, d["i"], d["j"], d["m"], d["n"], d["t"], d["mat"], d.get("kx", 1.0), d.get("ky", 1.0))
    for n, d in items(s["supports"]):
        m.def_support(n, *[bool(v) for v in d])
    for n, dof, k, dr in items(s["spsup"]):
        m.def_support_spring(n, dof, k, dr)
    for n, dof, v in items(s["enf"]):
        m.def_node_disp(n, dof, v)
    add_loads(m, s, items)
    if combos:
        for n, (f, tags) in items(s["combos"]):
            m.add_load_combo(n, dict(f), list(tags) if tags else None)
    return m


def add_loads(m, s, items=None):
    if items is None:
        items = lambda d: list(d.items()) if isinstance(d, dict) else list(d)
    for n, d, P, c in items(s["nload"]):
        m.add_node_load(n, d, P, c)
    for n, d, P, x, c in items(s["mpt"]):
        m.add_member_pt_load(n, d, P, x, c)
    for n, d, w1, w2, x1, x2, c in items(s["mdist"]):
        m.add_member_dist_load(n, d, w1, w2, x1, x2, c)
    for d, f, c in items(s["sw"]):
        m.add_member_self_weight(d, f, c)
    for n, p, c in items(s["ppress"]):
        m.add_plate_surface_pressure(n, p, c)
    for n, p, c in items(s["qpress"]):
        m.add_quad_surface_pressure(n, p, c)


# ------------------------------------------------------------------ geometry
def vec(s, n):
    return np.array(s["nodes"][n], float)


def member_len(s, name):
    d = s["members"][name]
    return float(np.linalg.norm(vec(s, d["j"]) - vec(s, d["i"])))


def member_axes(s, name):
    """Rows: local x, y, z in global components, from the documented convention (z horizontal on the right-hand
    side, y = z cross x; auxiliary node in the local xz plane; vertical members keep y in the XY plane)."""
    d = s["members"][name]
    xi, xj = vec(s, d["i"]), vec(s, d["j"])
    x = (xj - xi) / np.linalg.norm(xj - xi)
    if d.get("aux"):
        a = np.array(s["aux"][d["aux"]], float) - xi
        y = np.cross(a, x)
        y /= np.linalg.norm(y)
        return np.array([x, y, np.cross(x, y)])
    tol = 1e-9 * np.linalg.norm(xj - xi)
    if math.isclose(xi[0], xj[0], abs_tol=tol) and math.isclose(xi[2], xj[2], abs_tol=tol):
        sg = 1.0 if xj[1] > xi[1] else -1.0
        y = np.array([-sg, 0, 0])
        return np.array([x, y, [0, 0, 1.0]])
    z = np.cross(x, [0, 1.0, 0])
    z /= np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def interior_nodes(s, name):
    """[(x, node)] of model nodes on the member's line, strictly between its ends, sorted."""
    d = s["members"][name]
    a, b = vec(s, d["i"]), vec(s, d["j"])
    L = np.linalg.norm(b - a)
    u = (b - a) / L
    out = []
    for n, c in s["nodes"].items():
        if n in (d["i"], d["j"]):
            continue
        r = np.array(c, float) - a
        t = float(r @ u)
        if 1e-9 * L < t < L * (1 - 1e-9) and np.linalg.norm(r - t * u) < 1e-6 * L:
            out.append((t, n))
    return sorted(out)


def mprops(s, d):
    if d.get("section"):
        A, Iy, Iz, J = s["sections"][d["section"]]
        return A, Iy, Iz, J
    return d["A"], d["Iy"], d["Iz"], d["J"]


def cases_of(s):
    c = set()
    for l in s["nload"] + s["mpt"] + s["mdist"] + s["sw"] + s["ppress"] + s["qpress"]:
        c.add(l[-1])
    return sorted(c)


def gross_load(s, factors):
    """Sum of the magnitudes of all applied forces (moments as forces over the largest member): what may have cancelled in a result."""
    L = max([member_len(s, n) for n in s["members"]] + [1e-9]) if s["members"] else 1.0
    w = lambda c: abs(factors.get(c, 0.0))
    g = sum(abs(l[2]) * w(l[3]) / (1 if l[1][0] == "F" else L) for l in s["nload"])
    g += sum(abs(l[2]) * w(l[4]) / (1 if l[1][0] == "F" else L) for l in s["mpt"])
    g += sum(max(abs(l[2]), abs(l[3])) * w(l[6]) * member_len(s, l[0]) for l in s["mdist"])
    for d, k, c in s["sw"]:
        g += sum(abs(k) * w(c) * s["materials"][q["mat"]][3] * mprops(s, q)[0] * member_len(s, n) for n, q in s["members"].items())
    for kind, key in (("plates", "ppress"), ("quads", "qpress")):
        for e, p, c in s[key]:
            q = s[kind][e]
            g += abs(p) * w(c) * np.linalg.norm(np.cross(vec(s, q["m"]) - vec(s, q["i"]), vec(s, q["n"]) - vec(s, q["j"]))) / 2
    return float(g)


def combos_of(s):
    return s["combos"] if s["combos"] else {"Combo 1": [{"Case 1": 1.0}, None]}


# ------------------------------------------------------------------ results extraction
def nodal(m, combo, names):
    """(len(names), 6) displacement array of the reported nodal displacements."""
    out = np.zeros((len(names), 6))
    for k, n in enumerate(names):
        nd = m.nodes[n]
        for q, a in enumerate(DOFS):
            out[k, q] = getattr(nd, a)[combo]
    return out


def reactions(m, combo, names):
    out = np.zeros((len(names), 6))
    for k, n in enumerate(names):
        nd = m.nodes[n]
        for q, a in enumerate(RXN):
            out[k, q] = getattr(nd, a)[combo]
    return out


# ------------------------------------------------------------------ applied loads (independent of FER tables)
def applied_resultant(s, factors, about=(0, 0, 0), disp=None, meshes=None, parts=False):
    """Resultant force and moment (about a point) of every load in the spec, by direct integration.
    Returns F, M, mag where mag is the sum of absolute load magnitudes (for tolerances)."""
    about = np.array(about, float)
    F, M = np.zeros(3), np.zeros(3)
    mag = 0.0

    def add(P, x, mom=None):
        nonlocal F, M, mag
        F = F + P
        M = M + np.cross(x - about, P)
        mag += np.linalg.norm(P)
        if mom is not None:
            M = M + mom

    def unit(d, T):
        k = {"X": 0, "Y": 1, "Z": 2, "x": 0, "y": 1, "z": 2}[d[1]]
        return np.eye(3)[k] if d[1].isupper() else T[k]

    for n, d, P, c in s["nload"]:
        f = factors.get(c, 0)
        if f:
            if d[0] == "F":
                add(f * P * unit(d, None), vec(s, n))
            else:
                M = M + f * P * unit(d, None)
    for n, d, P, x, c in s["mpt"]:
        f = factors.get(c, 0)
        if f:
            T = member_axes(s, n)
            pos = vec(s, s["members"][n]["i"]) + x * T[0]
            if d[0] == "F":
                add(f * P * unit(d, T), pos)
            else:
                M = M + f * P * unit(d, T)
    dl = list(s["mdist"])
    for d, fac, c in s["sw"]:
        for n, md in s["members"].items():
            w = fac * s["materials"][md["mat"]][3] * mprops(s, md)[0]
            dl.append([n, d, w, w, None, None, c])
    for n, d, w1, w2, x1, x2, c in dl:
        f = factors.get(c, 0)
        if f:
            T = member_axes(s, n)
            L = member_len(s, n)
            x1 = 0 if x1 is None else x1
            x2 = L if x2 is None else x2
            l = x2 - x1
            W = (w1 + w2) / 2 * l
            mom1 = l * l * (w1 + 2 * w2) / 6      # about x1
            u = unit(d, T)
            p0 = vec(s, s["members"][n]["i"]) + x1 * T[0]
            F = F + f * W * u
            M = M + np.cross(p0 - about, f * W * u) + np.cross(T[0], u) * f * mom1
            mag += abs(f) * max(abs(w1), abs(w2)) * l
    for key, ld in (("plates", "ppress"), ("quads", "qpress")):
        for n, p, c in s[ld]:
            f = factors.get(c, 0)
            if f:
                P, x = quad_pressure_resultant(s, s[key][n], f * p)
                add(P, x)
    return F, M, mag


def quad_pressure_resultant(s, e, p):
    a, b, c, d = (vec(s, e[k]) for k in "ijmn")
    nrm = np.cross(c - a, d - b) / 2              # vector area of a planar quadrilateral
    # centroid of planar quad
    A1 = np.cross(b - a, c - a) / 2
    A2 = np.cross(c - a, d - a) / 2
    u = nrm / np.linalg.norm(nrm)
    w1, w2 = A1 @ u, A2 @ u
    cen = ((a + b + c) / 3 * w1 + (a + c + d) / 3 * w2) / (w1 + w2)
    return p * nrm, cen


# ------------------------------------------------------------------ transformations
def relabel(s, nodes=None, aux=None, members=None, springs=None, plates=None, quads=None, materials=None, sections=None, cases=None, combos=None):
    """The same model under other names."""
    g = lambda d, k: k if d is None else d.get(k, k)
    o = new()
    o["materials"] = {g(materials, k): list(v) for k, v in s["materials"].items()}
    o["sections"] = {g(sections, k): list(v) for k, v in s["sections"].items()}
    o["nodes"] = {g(nodes, k): list(v) for k, v in s["nodes"].items()}
    o["aux"] = {g(aux, k): list(v) for k, v in s["aux"].items()}
    for key, nm in (("members", members), ("springs", springs), ("plates", plates), ("quads", quads)):
        for k, d in s[key].items():
            d = copy.deepcopy(d)
            for q in "ijmn":
                if q in d:
                    d[q] = g(nodes, d[q])
            if d.get("aux"):
                d["aux"] = g(aux, d["aux"])
            if d.get("mat"):
                d["mat"] = g(materials, d["mat"])
            if d.get("section"):
                d["section"] = g(sections, d["section"])
            o[key][g(nm, k)] = d
    o["supports"] = {g(nodes, k): list(v) for k, v in s["supports"].items()}
    o["spsup"] = [[g(nodes, l[0])] + list(l[1:]) for l in s["spsup"]]
    o["enf"] = [[g(nodes, l[0])] + list(l[1:]) for l in s["enf"]]
    for key, nm in (("nload", nodes), ("mpt", members), ("mdist", members), ("ppress", plates), ("qpress", quads)):
        o[key] = [[g(nm, l[0])] + list(l[1:-1]) + [g(cases, l[-1])] for l in s[key]]
    o["sw"] = [[l[0], l[1], g(cases, l[2])] for l in s["sw"]]
    o["combos"] = {g(combos, k): [{g(cases, c): f for c, f in v[0].items()}, copy.copy(v[1])] for k, v in s["combos"].items()}
    return o


def explicit_aux(s):
    """Give every member an auxiliary node that reproduces its present local axes."""
    o = clone(s)
    for n, d in o["members"].items():
        T = member_axes(s, n)
        an = f"aux {n}"
        o["aux"][an] = [float(v) for v in vec(s, d["i"]) + T[2] * member_len(s, n)]
        d["aux"] = an
    o["aux"] = {k: v for k, v in o["aux"].items() if k.startswith("aux ")}
    return o


def explicit_sw(s):
    """Replace self weight by the equal distributed loads."""
    o = clone(s)
    o["sw"] = []
    for d, fac, c in s["sw"]:
        for n, md in s["members"].items():
            w = fac * s["materials"][md["mat"]][3] * mprops(s, md)[0]
            o["mdist"].append([n, d, w, w, None, None, c])
    return o


def globalize_dirs(l, j, Q, val):
    """Split a load in global direction l[j] into the three rotated global components."""
    d = l[j]
    k = "XYZ".index(d[1])
    out = []
    for a in range(3):
        f = Q[a, k]
        if abs(f) > 1e-15:
            m = list(l)
            m[j] = d[0] + "XYZ"[a]
            for v in val:
                m[v] = l[v] * f
            out.append(m)
    return out


def rotate(s, Q, shift=(0, 0, 0)):
    """Rotate (proper rotation matrix Q) and shift the whole model, loads and supports.  Members keep their local axes through
    auxiliary nodes.  Supports and support springs must suit the rotation (all or none of a node's translations / rotations
    unless Q maps axes onto axes)."""
    o = explicit_aux(explicit_sw(s))
    Q, shift = np.array(Q, float), np.array(shift, float)
    perm = [int(np.argmax(np.abs(Q[:, k]))) for k in range(3)]       # where axis k goes
    sg = [float(np.sign(Q[perm[k], k])) for k in range(3)]
    axis = bool(np.allclose(np.abs(Q).max(axis=0), 1))
    for key in ("nodes", "aux"):
        for n, c in o[key].items():
            o[key][n] = [float(v) for v in Q @ np.array(c, float) + shift]
    for n, v in s["supports"].items():
        if axis:
            w = [0] * 6
            for k in range(3):
                w[perm[k]], w[3 + perm[k]] = v[k], v[3 + k]
            o["supports"][n] = w
        else:
            assert len(set(v[:3])) == 1 and len(set(v[3:])) == 1
    o["spsup"] = []
    for n, dof, k, dr in s["spsup"]:
        assert axis
        a = "XYZ".index(dof[1])
        if dr and sg[a] < 0:
            dr = "+" if dr == "-" else "-"
        o["spsup"].append([n, dof[0] + "XYZ"[perm[a]], k, dr])
    o["enf"] = []
    full = {}
    for n, dof, v in s["enf"]:
        full.setdefault((n, dof[0]), np.zeros(3))["XYZ".index(dof[1])] = v
    for (n, t), v in full.items():
        w = Q @ v
        for a in range(3):
            if axis and abs(w[a]) < 1e-15:
                continue
            o["enf"].append([n, t + "XYZ"[a], float(w[a])])
    o["nload"] = [m for l in s["nload"] for m in globalize_dirs(l, 1, Q, (2,))]
    o["mpt"] = [m for l in o["mpt"] for m in (globalize_dirs(l, 1, Q, (2,)) if l[1][1].isupper() else [list(l)])]
    o["mdist"] = [m for l in o["mdist"] for m in (globalize_dirs(l, 1, Q, (2, 3)) if l[1][1].isupper() else [list(l)])]
    return o


def reverse_member(s, name):
    """Swap the ends of a member, keeping the structure and loading the same: local loads are restated globally."""
    o = explicit_sw(s)
    d = o["members"][name]
    T = member_axes(s, name)
    L = member_len(s, name)
    d["i"], d["j"] = d["j"], d["i"]
    r = d.get("rel") or [0] * 12
    d["rel"] = list(r[6:]) + list(r[:6])
    o["mpt"], o["mdist"] = [], []

    def glob(l, val):
        if l[1][1].isupper():
            return [l]
        k = "xyz".index(l[1][1])
        out = []
        for a in range(3):
            if abs(T[k, a]) > 1e-15:
                m = list(l)
                m[1] = l[1][0] + "XYZ"[a]
                for v in val:
                    m[v] = l[v] * float(T[k, a])
                out.append(m)
        return out
    for l in s["mpt"]:
        if l[0] != name:
            o["mpt"].append(list(l))
            continue
        for m in glob(list(l), (2,)):
            m[3] = max(0.0, L - m[3])
            o["mpt"].append(m)
    for l in explicit_sw(s)["mdist"]:
        if l[0] != name:
            o["mdist"].append(list(l))
            continue
        for m in glob(list(l), (2, 3)):
            x1, x2 = m[4], m[5]
            m[2], m[3] = m[3], m[2]
            m[4] = None if x2 is None else max(0.0, L - x2)
            m[5] = None if x1 is None else L - x1
            o["mdist"].append(m)
    return o


def rescale(s, a, b):
    """The same model in other units: lengths times a, forces times b."""
    o = clone(s)
    for n, p in o["materials"].items():
        p[0] *= b / a ** 2
        p[1] *= b / a ** 2
        p[3] *= b / a ** 3
    for n, p in o["sections"].items():
        p[0] *= a ** 2
        p[1:4] = [v * a ** 4 for v in p[1:4]]
    for key in ("nodes", "aux"):
        for n, c in o[key].items():
            o[key][n] = [v * a for v in c]
    for d in o["members"].values():
        d["A"] *= a ** 2
        for q in ("Iy", "Iz", "J"):
            d[q] *= a ** 4
    for d in o["springs"].values():
        d["ks"] *= b / a
    for key in ("plates", "quads"):
        for d in o[key].values():
            d["t"] *= a
    for l in o["spsup"]:
        l[2] *= b / a if l[1][0] == "D" else b * a
    for l in o["enf"]:
        l[2] *= a if l[1][0] == "D" else 1
    for l in o["nload"]:
        l[2] *= b * (a if l[1][0] == "M" else 1)
    for l in o["mpt"]:
        l[2] *= b * (a if l[1][0] == "M" else 1)
        l[3] *= a
    for l in o["mdist"]:
        l[2] *= b / a
        l[3] *= b / a
        for q in (4, 5):
            if l[q] is not None:
                l[q] *= a
    for key in ("ppress", "qpress"):
        for l in o[key]:
            l[1] *= b / a ** 2
    return o
