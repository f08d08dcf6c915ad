"""C18: merging duplicate nodes joins what belongs together and loses nothing."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *
from .c17 import consistent

ELEMS = ("members", "springs", "plates", "quads")


def explode(r, s, tol, jitter):
    """Give elements their own copies of their nodes; what is attached to a node is spread over its copies."""
    o = S.clone(s)
    o["nodes"] = {}
    copies = {}
    order = []
    cnt = 0

    def copy(n):
        nonlocal cnt
        cnt += 1
        nm = f"{n}#{cnt}"
        p = S.vec(s, n)
        if jitter and copies.get(n):
            v = np.array([r.uniform(-1, 1) for _ in range(3)])
            p = p + v / np.linalg.norm(v) * jitter * r.random()
        copies.setdefault(n, []).append(nm)
        order.append((nm, [float(x) for x in p]))
        return nm
    for n in s["nodes"]:
        copy(n)
    for k in ELEMS:
        for e, d in o[k].items():
            for q in "ijmn":
                if q in d:
                    if r.random() < 0.5:
                        d[q] = copy(d[q])
                    else:
                        d[q] = r.choice(copies[d[q]])
    r.shuffle(order)
    o["nodes"] = dict(order)
    at = lambda n: r.choice(copies[n])
    o["supports"] = {}
    for n, v in s["supports"].items():
        for q in range(6):
            if v[q]:
                for c in {at(n), at(n)}:
                    o["supports"].setdefault(c, [0] * 6)[q] = 1
    o["spsup"] = [[at(l[0])] + l[1:] for l in s["spsup"]]
    o["enf"] = [[at(l[0])] + l[1:] for l in s["enf"]]
    o["nload"] = [[at(l[0])] + l[1:] for l in s["nload"]]
    return o, copies


@check("C18", rule="random frames and slabs are taken apart so that elements have their own (coincident, or nearly coincident) copies of the nodes, with supports, support springs, settlements and loads spread over the copies; "
       "after merging, one node per place must remain, the names returned must be those removed, every reference must lead to the model's nodes, and all results must equal those of the original; "
       "nodes further apart than the tolerance must stay apart",
       quick=3000, needs=("one node per place", "removed names", "same as original", "apart stays apart", "moved no further than the tolerance", "meshes joined"))
def case(r, mon, i):
    if r.random() < 0.12:
        return two_meshes(r, mon)
    ow = False
    if r.random() < 0.6:
        ow = r.random() < 0.3
        s, u = gen.frame(r, oneway=0.7) if ow else gen.frame(r)
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 2))
    s = S.explicit_sw(s)
    mon.case(s)
    P = np.array(list(s["nodes"].values()))
    gap = min([np.linalg.norm(a - b) for k, a in enumerate(P) for b in P[:k]], default=u["Ls"])
    tol = r.choice([0.001, 0.001, min(0.3 * gap, 0.01 * u["Ls"]), 1e-6 * u["Ls"]])
    if tol > 0.4 * gap:
        tol = 1e-3 * gap
    # (jitter stays small enough not to change the geometry noticeably)
    jitter = r.choice([0.0, 0.0, min(tol * 0.4, 1e-13 * u["Ls"]), 0.4 * tol])
    for d in s["members"].values():
        v = S.vec(s, d["j"]) - S.vec(s, d["i"])
        if np.hypot(v[0], v[2]) < 1e-3 * np.linalg.norm(v):
            jitter = 0.0        # an upright member knocked off plumb has other local axes
    o, copies = explode(r, s, tol, jitter)
    m = S.build(o)
    if r.random() < 0.2:
        try:
            m.analyze()
        except ZeroDivisionError:
            pass                # a member running through two coincident nodes: nothing is claimed before merging
        except Exception as e:
            if "singular" not in str(e) and "Unstable" not in str(e):
                raise
    before = list(m.nodes)
    if tol == 0.001 and r.random() < 0.6:
        removed = m.merge_duplicate_nodes()
    else:
        removed = m.merge_duplicate_nodes(tol)
    mon.true("removed names", sorted(removed) == sorted(set(before) - set(m.nodes)) and len(set(removed)) == len(removed), lambda: f"returned {removed}, gone are {sorted(set(before) - set(m.nodes))}")
    kept = {}
    for n, c in copies.items():
        left = [x for x in c if x in m.nodes]
        if not mon.true("one node per place", len(left) == 1, lambda: f"of the copies {c} of one node, {left} remain"):
            return
        kept[n] = left[0]
    mon.true("one node per place", len(m.nodes) == len(s["nodes"]), lambda: f"{len(m.nodes)} nodes remain of {len(s['nodes'])} places")
    s2 = S.relabel(s, nodes=kept)
    if not consistent(mon, s2, m, "merging"):
        return
    # attachments
    for n, c in kept.items():
        nd = m.nodes[c]
        want = s["supports"].get(n, [0] * 6)
        got = [getattr(nd, "support_" + q) for q in S.DOFS]
        mon.true("supports kept", [bool(x) for x in want] == [bool(x) for x in got], lambda: f"{n} supports {got} instead of {want}")
        mon.true("loads kept", sorted((a, b, c_) for a, b, c_ in nd.NodeLoads) == sorted((l[1], l[2], l[3]) for l in s["nload"] if l[0] == n), lambda: f"{n} loads {nd.NodeLoads}")
        for q in S.DOFS:
            e = [l[2] for l in s["enf"] if l[0] == n and l[1] == q]
            mon.true("settlement kept", getattr(nd, "Enforced" + q) == (e[0] if e else None), lambda: f"{n} {q} settlement {getattr(nd, 'Enforced' + q)} instead of {e}")
            k = [[l[2], l[3]] for l in s["spsup"] if l[0] == n and l[1] == q]
            mon.true("support spring kept", list(getattr(nd, "spring_" + q)[:2]) == (k[0] if k else [None, None]), lambda: f"{n} {q} support spring {getattr(nd, 'spring_' + q)} instead of {k}")
    # idempotent
    mon.true("removed names", m.merge_duplicate_nodes(tol) == [], "merging again removes more")
    if jitter > 1e-13 * u["Ls"]:
        mon.sig("jittered", frame_sig(s, ""), len(removed))
        return                  # the geometry has changed: the results may too
    cs = list(combos(s))
    base = S.build(s)
    how = "analyze" if ow else r.choice(["analyze", "linear"])
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    analyze_or_skip(base, r, how)
    N = Noise(base, s, cs)
    if jitter:
        N.scale(100)
    try:
        analyze(m, r, how)
    except Exception as e:
        if "singular" not in str(e) and "Unstable" not in str(e):
            raise
        mon.fail("same as original", f"fails after merging: {e}")
        return
    for c in cs:
        same(mon, "same as original", Results(base, s, c).flat(), Results(m, s, c, kept).flat(), N, f"{c} ({how}) tolerance {tol} jitter {jitter}")
    # nodes just outside the tolerance stay apart
    from PyNite import FEModel3D
    m2 = FEModel3D()
    d = gen.direction(r)
    p = np.array([r.uniform(-1, 1) for _ in range(3)]) * u["Ls"] * r.choice([0, 1])
    t2 = tol * max(1.0, 1e-9 * np.abs(p).max() / tol) if tol else tol
    m2.add_node("A", *[float(x) for x in p])
    m2.add_node("B", *[float(x) for x in p + d * t2 * 1.01])
    m2.add_node("C", *[float(x) for x in p - d * t2 * 0.99])
    got = m2.merge_duplicate_nodes(t2)
    mon.true("apart stays apart", got == ["C"], lambda: f"removed {got} of A, B (1.01 tolerances away), C (0.99 tolerances away)")
    cluster(r, mon, u, p, t2)
    mon.sig(frame_sig(s, how), len(removed), len(s["plates"]), len(s["quads"]))


def cluster(r, mon, u, p, t):
    """Several nodes about as far apart as the tolerance: nothing is moved further than that, no two of those left are closer."""
    from PyNite import FEModel3D
    while True:
        n = r.randint(3, 7)
        line = r.random() < 0.4
        d = gen.direction(r)
        C = np.array([(d * r.uniform(-1.5, 1.5) if line else np.array([r.uniform(-1, 1) for _ in range(3)])) * t for _ in range(n)])
        dist = np.array([np.linalg.norm(a - b) for k, a in enumerate(C) for b in C[:k]]) / t
        if np.abs(dist - 1).min() > 0.01:
            break
    C = C + p
    m = FEModel3D()
    m.add_material("mat", u["E"], u["E"] / 2.6, 0.3, 0)
    names = [f"K{k}" for k in range(n)]
    at, sup, load = {}, {}, {}
    for k in r.sample(range(n), n):
        m.add_node(names[k], *[float(x) for x in C[k]])
        if r.random() < 0.4:
            q = r.choice(S.DOFS)
            sup[names[k]] = q
            m.def_support(names[k], **{"support_" + q: True})
        if r.random() < 0.4:
            load[names[k]] = float(k + 1)
            m.add_node_load(names[k], "FX", load[names[k]])
    for k in range(n):
        m.add_node(f"F{k}", *[float(x) for x in C[k] + gen.direction(r) * u["Ls"] * (k + 2)])
        if r.random() < 0.5:
            m.add_spring(f"S{k}", names[k], f"F{k}", 1.0)
            at[f"S{k}"] = (m.springs[f"S{k}"], "i_node", C[k])
        else:
            m.add_member(f"M{k}", f"F{k}", names[k], "mat", 1.0, 1.0, 1.0, 1.0)
            at[f"M{k}"] = (m.members[f"M{k}"], "j_node", C[k])
    pos = dict(zip(names, C))
    before = list(m.nodes)
    gone = m.merge_duplicate_nodes(t)
    left = [k for k in names if k in m.nodes]
    mon.true("removed names", sorted(gone) == sorted(set(before) - set(m.nodes)) and all(f"F{k}" in m.nodes for k in range(n)), lambda: f"returned {gone} of {before}, left are {list(m.nodes)}")
    mon.true("apart stays apart", all(np.linalg.norm(pos[a] - pos[b]) > t for k, a in enumerate(left) for b in left[:k]), lambda: f"nodes closer than the tolerance remain: {left} of {pos}")
    for e, (o, q, c) in at.items():
        x = getattr(o, q)
        mon.true("moved no further than the tolerance", m.nodes.get(x.name) is x and np.linalg.norm(np.array([x.X, x.Y, x.Z]) - c) <= t * (1 + 1e-6), lambda: f"{e} ends at {x.name}, {np.linalg.norm(np.array([x.X, x.Y, x.Z]) - c) / t} tolerances from where it ended")
    for k, q in sup.items():
        mon.true("supports kept", any(getattr(m.nodes[a], "support_" + q) for a in left if np.linalg.norm(pos[a] - pos[k]) <= t), lambda: f"support {q} of {k} is on no node within the tolerance")
    mon.true("loads kept", sorted(l[1] for a in left for l in m.nodes[a].NodeLoads) == sorted(load.values()), lambda: f"loads {load} became {[(a, m.nodes[a].NodeLoads) for a in left]}")


def two_meshes(r, mon):
    """Two meshes side by side, merged along their common edge, behave like one."""
    from PyNite import FEModel3D
    u = dict(r.choice(gen.UNITS))
    h = u["Ls"] / 3
    nx, ny = r.randint(1, 3), r.randint(1, 3)
    pl = r.choice(["XY", "YZ", "XZ"])
    typ = r.choice(["Quad", "Rect"])
    t = u["Ls"] / 25
    a = {"XY": 0, "YZ": 2, "XZ": 0}[pl]
    og = [0.0, 0.0, 0.0]
    og[a] = nx * h
    ms = []
    for k in range(2):
        m = FEModel3D()
        m.add_material("mat", u["E"], u["E"] / 2.6, 0.3, 0)
        kw = dict(plane=pl, element_type=typ)
        if k == 0:
            m.add_rectangle_mesh("A", h, 2 * nx * h, ny * h, t, "mat", x_control=[nx * h], **kw)
        else:
            m.add_rectangle_mesh("A", h, nx * h, ny * h, t, "mat", **kw)
            m.add_rectangle_mesh("B", h, nx * h, ny * h, t, "mat", origin=og, **kw)
        for me in m.meshes.values():
            if not me.is_generated():
                me.generate()
        if k == 1:
            n0 = len(m.nodes)
            rm = m.merge_duplicate_nodes(1e-3 * h)
            mon.true("removed names", len(rm) == ny + 1 and len(m.nodes) == n0 - ny - 1, lambda: f"{len(rm)} nodes merged along an edge with {ny + 1}")
            for mn, me in m.meshes.items():
                mon.true("references", all(m.nodes.get(x.name) is x for x in me.nodes.values()), lambda: f"mesh {mn} keeps nodes that left the model")
                mon.true("references", all(m.nodes.get(k) is x and x.name == k for k, x in me.nodes.items()), lambda: f"mesh {mn} lists nodes under other names: {[(k, x.name) for k, x in me.nodes.items() if k != x.name]}")
                use = {id(getattr(e, q + "_node")) for e in me.elements.values() for q in "ijmn"}
                mon.true("references", use == {id(x) for x in me.nodes.values()} and len(me.nodes) == (nx + 1) * (ny + 1), lambda: f"mesh {mn} of {nx}x{ny} lists {len(me.nodes)} nodes, its elements use {len(use)}")
                mon.true("references", all(m.nodes.get(getattr(e, q + "_node").name) is getattr(e, q + "_node") for e in me.elements.values() for q in "ijmn"), lambda: f"elements of mesh {mn} keep nodes that left the model")
        for n, q in m.nodes.items():
            c = [q.X, q.Y, q.Z]
            if abs(c[a]) < 1e-6 * h:
                m.def_support(n, *[True] * 6)
            if abs(c[a] - 2 * nx * h) < 1e-6 * h:
                m.add_node_load(n, "F" + {"XY": "Z", "YZ": "X", "XZ": "Y"}[pl], u["F"])
        for e in m.quads:
            m.add_quad_surface_pressure(e, u["F"] / u["Ls"] ** 2)
        for e in m.plates:
            m.add_plate_surface_pressure(e, u["F"] / u["Ls"] ** 2)
        m.analyze()
        ms.append(m)
    tab = []
    for m in ms:
        tab.append({tuple(round(v / h * 8) for v in (q.X, q.Y, q.Z)): np.array([getattr(q, d)["Combo 1"] for d in S.DOFS]) for q in m.nodes.values()})
    sc = max(np.abs(v).max() for v in tab[0].values())
    mon.true("meshes joined", set(tab[0]) == set(tab[1]), "different nodes")
    for k in tab[0]:
        mon.near("meshes joined", tab[1].get(k, np.full(6, np.nan)), tab[0][k], 1e-6 * sc, lambda: f"node at {k} of meshes {nx}x{ny} in {pl}")
    for q in ("Mx", "My", "Mxy"):
        hi = [max(me.max_moment(q) for me in m.meshes.values()) for m in ms]
        lo = [min(me.min_moment(q) for me in m.meshes.values()) for m in ms]
        t_ = 1e-6 * (abs(hi[0]) + abs(lo[0])) + 1e-6 * u["F"]
        mon.near("meshes joined", [hi[1], lo[1]], [hi[0], lo[0]], t_, lambda: f"extremes of {q}")
    mon.sig("meshes", nx, ny, pl, typ)
