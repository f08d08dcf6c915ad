"""C20: generated meshes are what was asked for."""
from collections import Counter
from ..core import check
from .. import gen
from ..common import *
from PyNite import FEModel3D
from PyNite.Mesh import check_mesh_integrity

AX = dict(X=0, Y=1, Z=2)
PLANES = dict(XY=(0, 1), YZ=(2, 1), XZ=(0, 2))


def num(r, a, b, nice=None):
    v = r.uniform(a, b)
    return float(f"{v:.2g}") if (r.random() < 0.4 if nice is None else nice) else v


def pos(n):
    return np.array([n.X, n.Y, n.Z])


def base(r):
    m = FEModel3D()
    for k in range(2):
        m.add_material(f"mat{k}", r.uniform(1, 5), r.uniform(1, 2), 0.3, r.uniform(0, 1))
    # things already in the model, named the way meshes name theirs
    for k in range(r.choice([0, 0, 1, 4, 9])):
        m.add_node(f"N{r.choice([k + 1, 3 * k + 2, 20 + k])}", 1e3 + k, 2e3, 3e3 + k * k) if f"N{k + 1}" not in m.nodes and f"N{3 * k + 2}" not in m.nodes and f"N{20 + k}" not in m.nodes else None
    ns = list(m.nodes)
    if len(ns) >= 4:
        m.add_quad(r.choice(["Q1", "Q2", "R1"]), *ns[:4], 0.1, "mat0")
        m.add_plate(r.choice(["R1", "R3", "Q1"]), *ns[:4], 0.1, "mat0")
    return m


def common_checks(mon, m, me, before, want, what):
    """Names, references, attributes, conformity.  Returns element corner coordinates and the edges used once."""
    t, mat, kx, ky, typ = want
    nodes0, quads0, plates0, others = before
    det = lambda: what
    mon.true("names", all(m.nodes.get(k) is n and n.name == k for k, n in me.nodes.items()), det)
    mon.true("element type", me.element_type == typ and all(e.type == typ for e in me.elements.values()), lambda: f"{what}: {typ} elements asked for")
    coll = m.quads if typ == "Quad" else m.plates
    mon.true("names", all(coll.get(k) is e and e.name == k for k, e in me.elements.items()), det)
    # what was there is still there, and nothing else
    theirs_n = {k: n for me2 in others for k, n in me2.nodes.items()}
    theirs_e = {(me2.element_type, k): e for me2 in others for k, e in me2.elements.items()}
    mine_n = set(me.nodes) | set(nodes0) | set(theirs_n)
    mon.true("nothing else", all(m.nodes.get(k) is n for k, n in list(nodes0.items()) + list(theirs_n.items())) and set(m.nodes) == mine_n and len(m.nodes) == len(me.nodes) + len(nodes0) + len(theirs_n),
             lambda: f"{what}: nodes {sorted(set(m.nodes) ^ mine_n)[:8]}, {len(m.nodes)} in the model")
    for typ, d, d0 in (("Quad", m.quads, quads0), ("Rect", m.plates, plates0)):
        th = {k: e for (ty, k), e in theirs_e.items() if ty == typ}
        mine = me.elements if me.element_type == typ else {}
        mon.true("nothing else", all(d.get(k) is e for k, e in list(d0.items()) + list(th.items())) and len(d) == len(d0) + len(th) + len(mine), lambda: f"{what}: {typ} elements {len(d)} != {len(d0)}+{len(th)}+{len(mine)}")
    els = list(me.elements.values())
    mon.true("attributes", all(e.t == t and e.E == m.materials[mat].E and e.nu == m.materials[mat].nu and e.kx_mod == kx and e.ky_mod == ky and e.type == me.element_type for e in els), det)
    used = {id(q) for e in els for q in (e.i_node, e.j_node, e.m_node, e.n_node)}
    mon.true("nodes used", used == {id(n) for n in me.nodes.values()}, lambda: f"{what}: {len(used)} nodes used by elements, {len(me.nodes)} in the mesh")
    mon.true("integrity check", check_mesh_integrity(me, console_log=False) == ["No errors detected."], det)
    edges = Counter()
    for e in els:
        c = [id(e.i_node), id(e.j_node), id(e.m_node), id(e.n_node)]
        for a in range(4):
            edges[c[a], c[(a + 1) % 4]] += 1
    mon.true("conforming", max(edges.values(), default=0) <= 1, lambda: f"{what}: an edge is used twice in the same direction")
    by = {id(n): pos(n) for n in me.nodes.values()}
    once = [(by.get(a), by.get(b)) for a, b in edges if (b, a) not in edges]
    if any(a is None or b is None for a, b in once):
        once = []
        mon.fail("conforming", f"{what}: an element uses a node that is not in the mesh")
    C = np.array([[pos(q) for q in (e.i_node, e.j_node, e.m_node, e.n_node)] for e in els])
    return C, once


def distinct(mon, me, tol, what):
    P = np.array([pos(n) for n in me.nodes.values()])
    from scipy.spatial import cKDTree
    close = len(cKDTree(P).query_pairs(tol))
    mon.true("distinct nodes", close == 0, lambda: f"{what}: {close} pairs of nodes in the same place")


def convex(P):
    """Signed areas of the corner triangles of plane quadrilaterals (n, 4, 2)."""
    out = []
    for k in range(4):
        u, v = P[:, (k + 1) % 4] - P[:, k], P[:, (k - 1) % 4] - P[:, k]
        out.append(u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0])
    return np.array(out)


def area(P):
    x, y = P[..., 0], P[..., 1]
    return 0.5 * ((x[:, 2] - x[:, 0]) * (y[:, 3] - y[:, 1]) - (x[:, 3] - x[:, 1]) * (y[:, 2] - y[:, 0]))


def check_rect(mon, m, me, g, before, what):
    W, H, ms, org, plane, ops_, xc, yc = (g[k] for k in ("W", "H", "ms", "origin", "plane", "ops", "xc", "yc"))
    C, once = common_checks(mon, m, me, before, (g["t"], g["mat"], g["kx"], g["ky"], g["typ"]), what)
    a, b = PLANES[plane]
    c = 3 - a - b
    org = np.array(org, float)
    tol = 1e-9 * (W + H) + 1e-13 * np.abs(org).max()
    L = C - org
    mon.near("in plane", L[..., c], 0, tol, what)
    P = L[..., [a, b]]
    # rectangles, corners in order
    mon.near("rectangles", P[:, 0, 0] - P[:, 3, 0], 0, tol, what)
    mon.near("rectangles", P[:, 1, 0] - P[:, 2, 0], 0, tol, what)
    mon.near("rectangles", P[:, 0, 1] - P[:, 1, 1], 0, tol, what)
    mon.near("rectangles", P[:, 2, 1] - P[:, 3, 1], 0, tol, what)
    w, h = P[:, 1, 0] - P[:, 0, 0], P[:, 3, 1] - P[:, 0, 1]
    mon.true("element sizes", (w > 10 * tol).all() and (h > 10 * tol).all(), lambda: f"{what}: element sizes down to {w.min()}, {h.min()}")
    mon.true("element sizes", w.max() <= ms * (1 + 1e-9) + tol and h.max() <= ms * (1 + 1e-9) + tol, lambda: f"{what}: elements of {w.max()} x {h.max()} for mesh size {ms}")
    mon.true("extent", P[..., 0].min() >= -tol and P[..., 0].max() <= W + tol and P[..., 1].min() >= -tol and P[..., 1].max() <= H + tol, lambda: f"{what}: beyond the rectangle")
    # area, openings
    xs = np.unique(np.clip([0, W] + [v for o in ops_ for v in (o[0], o[0] + o[2])], 0, W))
    ys = np.unique(np.clip([0, H] + [v for o in ops_ for v in (o[1], o[1] + o[3])], 0, H))
    net = sum((x2 - x1) * (y2 - y1) for x1, x2 in zip(xs, xs[1:]) for y1, y2 in zip(ys, ys[1:])
              if not any(o[0] < (x1 + x2) / 2 < o[0] + o[2] and o[1] < (y1 + y2) / 2 < o[1] + o[3] for o in ops_))
    mon.near("area", area(P).sum(), net, 1e-8 * W * H + 4 * tol * (W + H), what)
    ce = P.mean(1)
    for o in ops_:
        inside = (ce[:, 0] > o[0]) & (ce[:, 0] < o[0] + o[2]) & (ce[:, 1] > o[1]) & (ce[:, 1] < o[1] + o[3])
        mon.true("openings", not inside.any(), lambda: f"{what}: an element lies in opening {o}")
        mon.ev("opening")
        for k, vs in ((0, (o[0], o[0] + o[2])), (1, (o[1], o[1] + o[3]))):
            for v in vs:
                crossing = (P[..., k].min(1) < v - 2 * tol) & (P[..., k].max(1) > v + 2 * tol)
                mon.true("openings", not crossing.any(), lambda: f"{what}: elements cross the line through the edge of opening {o}")
    # boundary edges
    for p, q in once:
        p, q = (p - org)[[a, b]], (q - org)[[a, b]]
        ok = False
        for k, v, lo, hi in [(0, 0, 0, H), (0, W, 0, H), (1, 0, 0, W), (1, H, 0, W)] + [z for o in ops_ for z in ((0, o[0], o[1], o[1] + o[3]), (0, o[0] + o[2], o[1], o[1] + o[3]), (1, o[1], o[0], o[0] + o[2]), (1, o[1] + o[3], o[0], o[0] + o[2]))]:
            if abs(p[k] - v) <= tol and abs(q[k] - v) <= tol and lo - tol <= min(p[1 - k], q[1 - k]) and max(p[1 - k], q[1 - k]) <= hi + tol:
                ok = True
        mon.true("boundary", ok, lambda: f"{what}: edge {p} - {q} is attached to one element only")
    for k, vs in ((0, xc), (1, yc)):
        for v in vs:
            crossing = (P[..., k].min(1) < v - 2 * tol) & (P[..., k].max(1) > v + 2 * tol)
            mon.true("control points", not crossing.any(), lambda: f"{what}: elements cross control line {'xy'[k]} = {v}")
    distinct(mon, me, 1e-8 * (W + H), what)


def polar(C, org, axis):
    a = AX[axis]
    o = [k for k in range(3) if k != a]
    D = C - np.array(org, float)
    return D[..., o], D[..., a]


def ring_checks(mon, me, C, once, org, axis, r1, r2, n1, tol, what):
    P, z = polar(C, org, axis)
    R = np.hypot(P[..., 0], P[..., 1])
    mon.true("extent", R.min() >= r1 - tol and R.max() <= r2 + tol, lambda: f"{what}: radii {R.min()} to {R.max()}")
    A = area(P)
    s = np.sign(A[0])
    q = convex(P) * s
    mon.true("convex elements", (q > 0).all(), lambda: f"{what}: {(q <= 0).any(0).sum()} elements are inside out or not convex")
    cnt = [0, 0]
    for p, q in once:
        p, q = polar(p, org, axis)[0], polar(q, org, axis)[0]
        rp, rq = np.hypot(*p), np.hypot(*q)
        on = [abs(rp - v) <= tol and abs(rq - v) <= tol for v in (r1, r2)]
        mon.true("boundary", any(on), lambda: f"{what}: an edge between radii {rp} and {rq} is attached to one element only")
        for k in range(2):
            cnt[k] += on[k]
    n2 = cnt[1]
    mon.true("divisions", cnt[0] == n1 and n2 >= n1 and n2 % n1 == 0, lambda: f"{what}: {cnt[0]} edges inside (for {n1}), {cnt[1]} outside")
    mon.ev("transitions", n2 > n1)
    poly = lambda n, r: 0.5 * n * r * r * np.sin(2 * np.pi / n) if n else 0
    mon.near("area", abs(A.sum()), poly(n2, r2) - poly(n1, r1), 1e-8 * r2 ** 2, what)
    return P, z, R


def check_annulus(mon, m, me, g, before, what):
    C, once = common_checks(mon, m, me, before, (g["t"], g["mat"], g["kx"], g["ky"], g["typ"]), what)
    tol = 1e-9 * g["R"] + 1e-13 * np.abs(g["origin"]).max()
    n1 = int(2 * np.pi * g["r"] / g["ms"])
    P, z, R = ring_checks(mon, me, C, once, g["origin"], g["axis"], g["r"], g["R"], n1, tol, what)
    h = g.get("h", 0)
    mon.near("heights", z, (R - g["R"]) / (g["R"] - g["r"]) * h, tol + 1e-8 * abs(h) * (1 + g["R"] / (g["R"] - g["r"])) , what)
    distinct(mon, me, 1e-7 * g["R"], what)


def check_cylinder(mon, m, me, g, before, what):
    C, once = common_checks(mon, m, me, before, (g["t"], g["mat"], g["kx"], g["ky"], g["typ"]), what)
    tol = 1e-9 * (g["R"] + g["h"]) + 1e-13 * np.abs(g["origin"]).max()
    n = g["n"] or int(round(2 * np.pi * g["R"] / g["ms"]))
    P, z = polar(C, g["origin"], g["axis"])
    mon.near("on the cylinder", np.hypot(P[..., 0], P[..., 1]), g["R"], tol, what)
    mon.near("heights", [z.min(), z.max()], [0, g["h"]], tol, what)
    top, bot = z.max(1), z.min(1)
    mon.true("convex elements", (top - bot > 10 * tol).all(), lambda: f"{what}: flat elements")
    # corners: i, j on the upper edge, m, n on the lower one (local y points to the base)
    mon.near("orientation", z[:, :2] - top[:, None], 0, tol, what)
    mon.near("orientation", z[:, 2:] - bot[:, None], 0, tol, what)
    mon.near("orientation", P[:, 0], P[:, 3], tol, what)
    mon.near("orientation", P[:, 1], P[:, 2], tol, what)
    cr = P[:, 0, 0] * P[:, 1, 1] - P[:, 0, 1] * P[:, 1, 0]
    mon.near("divisions", np.abs(cr), g["R"] ** 2 * np.sin(2 * np.pi / n), 1e-8 * g["R"] ** 2, what)
    mon.near("area", ((top - bot) * np.linalg.norm(P[:, 0] - P[:, 1], axis=1)).sum(), n * 2 * g["R"] * np.sin(np.pi / n) * g["h"], 1e-8 * g["R"] * g["h"], what)
    for p, q in once:
        zp, zq = polar(p, g["origin"], g["axis"])[1], polar(q, g["origin"], g["axis"])[1]
        mon.true("boundary", any(abs(zp - v) <= tol and abs(zq - v) <= tol for v in (0, g["h"])), lambda: f"{what}: an edge at {zp} - {zq} is attached to one element only")
    mon.true("divisions", len(once) == 2 * n, lambda: f"{what}: {len(once)} free edges for {n} divisions")
    distinct(mon, me, 1e-7 * min(g["R"], g["h"]), what)


def rect(r):
    u = r.choice([1, 10, 12, 100, 1000, 3000, 12000, 1e5])
    W, H = num(r, 0.3, 3) * u, num(r, 0.3, 3) * u
    nx = r.choice([1, 2, 3, 5, 8, 13, 20])
    g = dict(kind="rect", W=W, H=H, ms=num(r, 0.95, 1.05) * W / nx, plane=r.choice(list(PLANES)), typ=r.choice(["Quad", "Rect"]), ops=[], xc=[], yc=[])
    if r.random() < 0.15:
        # a long strip
        g["H"] = H = g["ms"] * r.uniform(0.5, 2.5)
        g["ms"] = W / r.uniform(40, 120)
    while W / g["ms"] * H / g["ms"] > 350:
        g["ms"] *= 1.5
    for k, S in (("xc", W), ("yc", H)):
        for _ in range(r.choice([0, 0, 1, 2])):
            g[k].append(r.choice([num(r, 0, 1) * S, S * r.randint(1, 9) / 10, S / 3, 0, S]))
    return g, u


def opening(r, g):
    W, H = g["W"], g["H"]
    k = r.random()
    if k < 0.25 and g["ops"]:
        # beside, or overlapping, the previous one
        x, y, w, h = g["ops"][-1]
        x2 = r.choice([x + w, x + w / 2, x])
        y2 = r.choice([y, y + h, y + h / 2])
        o = (x2, y2, min(w, W - x2), min(h, H - y2))
    else:
        x, y = r.choice([0, num(r, 0.05, 0.6), 0.25, 1 / 3]) * W, r.choice([0, num(r, 0.05, 0.6), 0.25, 1 / 3]) * H
        o = (x, y, r.choice([num(r, 0.1, 0.35) * W, W / 3, g["ms"], W - x]), r.choice([num(r, 0.1, 0.35) * H, H / 3, g["ms"], H - y]))
    if o[2] <= 1e-3 * W or o[3] <= 1e-3 * H or o[0] + o[2] > W * (1 + 1e-12) or o[1] + o[3] > H * (1 + 1e-12):
        return None
    # something must be left of the rectangle, and the edges must not nearly coincide with others
    if o[2] > 0.95 * W and o[3] > 0.95 * H:
        return None
    xs = sorted([0, W] + g["xc"] + [v for q in g["ops"] + [o] for v in (q[0], q[0] + q[2])])
    ys = sorted([0, H] + g["yc"] + [v for q in g["ops"] + [o] for v in (q[1], q[1] + q[3])])
    for v, S in ((xs, W), (ys, H)):
        if any(1e-11 * S < b - a < 1e-3 * S for a, b in zip(v, v[1:])):
            return None
    cover = g["ops"] + [o]
    left = any(not any(q[0] < (x1 + x2) / 2 < q[0] + q[2] and q[1] < (y1 + y2) / 2 < q[1] + q[3] for q in cover) for x1, x2 in zip(xs, xs[1:]) if x2 > x1 for y1, y2 in zip(ys, ys[1:]) if y2 > y1)
    return o if left else None


def add(r, m, g, name, mon=None):
    """Add the mesh to the model without generating it (cylinders generate themselves).  Returns the mesh."""
    old = dict(m.meshes)
    if mon and r.random() < 0.3:
        name = r.choice([None, ""])
    got = add_named(r, m, g, name)
    new = [k for k in m.meshes if k not in old]
    if mon:
        mon.true("mesh name", len(new) == 1 and got == new[0] and (not name or got == name) and all(m.meshes[k] is v for k, v in old.items()), lambda: f"asked for {name!r}, given {got!r}; meshes {list(m.meshes)}, before {list(old)}")
        mon.ev("automatic mesh name", not name)
    me = m.meshes[new[0]]
    for k, o in enumerate(g.get("ops", ())):
        me.add_rect_opening(f"O{k}", *o)
    return me


def add_named(r, m, g, name):
    st = dict(start_node=r.choice([None, None, "N1", "N5", "N100"]), start_element=r.choice([None, None, "Q1", "Q3", "Q50"]))
    if g["kind"] == "rect":
        if g["typ"] == "Rect" and st["start_element"]:
            st["start_element"] = "R" + st["start_element"][1:]
        return m.add_rectangle_mesh(name, g["ms"], g["W"], g["H"], g["t"], g["mat"], g["kx"], g["ky"], list(g["origin"]), g["plane"], list(g["xc"]) or None, list(g["yc"]) or None, element_type=g["typ"], **st)
    elif g["kind"] == "annulus":
        return m.add_annulus_mesh(name, g["ms"], g["R"], g["r"], g["t"], g["mat"], g["kx"], g["ky"], list(g["origin"]), g["axis"], **st)
    elif g["kind"] == "frustrum":
        return m.add_frustrum_mesh(name, g["ms"], g["R"], g["r"], g["h"], g["t"], g["mat"], g["kx"], g["ky"], list(g["origin"]), g["axis"], **st)
    else:
        if g["typ"] == "Rect" and st["start_element"]:
            st["start_element"] = "R" + st["start_element"][1:]
        return m.add_cylinder_mesh(name, g["ms"], g["R"], g["h"], g["t"], g["mat"], g["kx"], g["ky"], list(g["origin"]), g["axis"], g["n"], element_type=g["typ"], **st)


def geometry(r):
    kind = r.choice(["rect", "rect", "annulus", "frustrum", "cylinder"])
    if kind == "rect":
        g, u = rect(r)
        # control points that nearly coincide are not meant
        for k, S in (("xc", g["W"]), ("yc", g["H"])):
            keep = []
            for v in sorted(g[k]):
                if all(abs(v - q) < 1e-12 * S or abs(v - q) > 1e-3 * S for q in keep + [0, S]):
                    keep.append(v)
            r.shuffle(keep)
            g[k] = keep
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            o = opening(r, g)
            if o:
                g["ops"].append(o)
    else:
        u = r.choice([1, 10, 12, 100, 1000, 20000])
        R = num(r, 0.5, 3) * u
        if kind == "cylinder":
            n = r.randint(4, 30)
            g = dict(kind=kind, R=R, h=num(r, 0.1, 4) * u, ms=0, n=n if r.random() < 0.4 else None, typ=r.choice(["Quad", "Rect"]), axis=r.choice("XYZ"))
            g["ms"] = 2 * np.pi * R / n * r.uniform(0.97, 1.03)
            while n * g["h"] / g["ms"] > 300:
                g["h"] /= 2
        else:
            rr = R * r.choice([0.5, 0.25, 0.8, r.uniform(0.12, 0.95)])
            n = r.choice([5, 6, 8, 11, 16, 24])
            g = dict(kind=kind, R=R, r=rr, ms=2 * np.pi * rr / (n + r.uniform(0.02, 0.98)), axis=r.choice("XYZ"), typ="Quad")
            if kind == "frustrum":
                g["h"] = num(r, 0.1, 2) * R * r.choice([1, 1, -1])
    g.update(t=num(r, 0.01, 0.1) * u, mat=r.choice(["mat0", "mat1"]), kx=r.choice([1, 1.0, 0.35]), ky=r.choice([1, 0.5]), origin=[0, 0, 0] if r.random() < 0.4 else [num(r, -5, 5) * u for _ in range(3)])
    return g


def joined(r, mon):
    """Two meshes that meet along an edge, then merged: one conforming mesh."""
    m = base(r)
    before = (set(m.nodes.values()), set(m.quads.values()), set(m.plates.values()))
    n0 = len(m.nodes)
    kind = r.choice(["rects", "cylinders", "tank"])
    u = r.choice([1, 12, 100, 1000])
    org = [num(r, -5, 5) * u for _ in range(3)]
    com = dict(t=0.1 * u, mat="mat0", kx=1, ky=1)
    R, n = num(r, 0.5, 3) * u, r.randint(5, 16)
    if kind == "rects":
        g, _ = rect(r)
        u = max(g["W"], g["H"])
        g.update(com, origin=org)
        g2 = dict(g, W=num(r, 0.3, 1) * g["W"], xc=[], typ=r.choice(["Quad", "Rect"]))
        o2 = list(org)
        o2[PLANES[g["plane"]][0]] += g["W"]
        g2["origin"] = o2
        gs = [g, g2]
    elif kind == "cylinders":
        ax = r.choice("XYZ")
        ms = 2 * np.pi * R / n
        g = dict(com, kind="cylinder", R=R, h=num(r, 0.3, 2) * R, ms=ms, n=n, typ=r.choice(["Quad", "Rect"]), axis=ax, origin=org)
        o2 = list(org)
        o2[AX[ax]] += g["h"]
        gs = [g, dict(g, origin=o2, h=num(r, 0.3, 2) * R, typ=r.choice(["Quad", "Rect"]))]
    else:
        ax = r.choice("XYZ")
        rr = R * r.uniform(0.3, 0.8)
        g = dict(com, kind="annulus", R=R, r=rr, ms=2 * np.pi * rr / (n + 0.5), axis=ax, origin=org, typ="Quad")
        gs = [g, dict(com, kind="cylinder", R=R, h=num(r, 0.3, 2) * R, ms=g["ms"], n=None, typ="Quad", axis=ax, origin=org)]
    mon.case(dict(joined=gs))
    ms_ = []
    for k, g in enumerate(gs):
        if kind == "tank" and k:
            g["n"] = ms_[0].num_quads_outer
        me = add(r, m, g, f"J{k}")
        if g["kind"] != "cylinder":
            me.generate()
        ms_.append(me)
    P = [np.array([pos(q) for q in me.nodes.values()]) for me in ms_]
    tol = 1e-6 * u
    shared = sum(np.linalg.norm(P[0] - p, axis=1).min() <= tol for p in P[1])
    tot = len(m.nodes)
    gone = m.merge_duplicate_nodes(tolerance=tol)
    want = dict(rects=len(np.unique(np.round(P[0][:, PLANES[gs[0].get("plane", "XY")][1]] / tol))), cylinders=n, tank=gs[-1].get("n"))[kind]
    mon.true("joined", shared == want == len(gone) and len(m.nodes) == tot - want, lambda: f"{kind}: {shared} nodes coincide, {len(gone)} were merged, {want} on the common edge")
    for me in ms_:
        used = {id(q): q for e in me.elements.values() for q in (e.i_node, e.j_node, e.m_node, e.n_node)}
        mon.true("joined", set(used) == {id(q) for q in me.nodes.values()} and all(q.name == k for k, q in me.nodes.items()),
                 lambda: f"{kind}: after the merge the mesh lists {len(me.nodes)} nodes and its elements use {len(used)}; listed under another name: {[(k, q.name) for k, q in me.nodes.items() if k != q.name][:5]}")
        mon.true("joined", check_mesh_integrity(me, console_log=False) == ["No errors detected."], lambda: f"{kind}: integrity check after the merge: {check_mesh_integrity(me, console_log=False)[:3]}")
    und = Counter()
    for e in list(m.quads.values()) + list(m.plates.values()):
        if e in before[1] or e in before[2]:
            continue
        c = [e.i_node, e.j_node, e.m_node, e.n_node]
        mon.true("joined", all(m.nodes.get(q.name) is q for q in c) and len({id(q) for q in c}) == 4, f"{kind}: {e.name} has nodes that are not in the model")
        for a in range(4):
            und[frozenset((c[a].name, c[(a + 1) % 4].name))] += 1
    free = [k for k, v in und.items() if v == 1]
    mon.true("joined", max(und.values()) == 2, lambda: f"{kind}: an edge is used by {max(und.values())} elements")
    # the common edge is no longer free
    if kind == "rects":
        a = PLANES[gs[0]["plane"]][0]
        v = gs[1]["origin"][a]
        on = [k for k in free if all(abs(pos(m.nodes[q])[a] - v) < tol for q in k)]
        per = None
    else:
        a = AX[gs[0]["axis"]]
        v = gs[1]["origin"][a]
        if kind == "cylinders":
            on = [k for k in free if all(abs(pos(m.nodes[q])[a] - v) < tol for q in k)]
        else:
            on = [k for k in free if all(abs(pos(m.nodes[q])[a] - v) < tol and abs(np.linalg.norm(pos(m.nodes[q]) - org) - R) < tol for q in k)]
    mon.true("joined", not on, lambda: f"{kind}: {len(on)} free edges where the meshes meet")
    mon.true("joined", before[0] <= set(m.nodes.values()), kind)
    mon.sig("joined", kind, len(und), want)


CHECK = dict(rect=check_rect, annulus=check_annulus, frustrum=check_annulus, cylinder=check_cylinder)


@check("C20", rule="rectangular meshes (three planes, control points, openings that may touch the edge, each other, or overlap), annuli, frustums and cylinders of random dimensions, mesh sizes, origins and axes are generated into models "
       "that already hold nodes, elements or other meshes under clashing names, then changed and generated again; every generated mesh must be conforming (each edge shared by two elements, opposite ways, unless it lies on "
       "the boundary), made of properly oriented convex elements that tile exactly the figure asked for, respect mesh size, control points and openings, and leave everything else in the model alone; two meshes that meet along an edge must be one conforming mesh after their duplicate nodes are merged; meshes follow rename(), and check_mesh_integrity names the damage done to a mesh",
       quick=2500, needs=("area", "conforming", "boundary", "openings", "control points", "transitions", "nothing else", "generated again", "another mesh", "distinct nodes", "joined", "renamed mesh", "automatic mesh name", "generated by the analysis", "damage found"))
def case(r, mon, i):
    if r.random() < 0.15:
        return joined(r, mon)
    m = base(r)
    others = []
    before = (dict(m.nodes), dict(m.quads), dict(m.plates), others)
    specs, spec_of = [], {}
    for k in range(r.choice([1, 1, 2])):
        g = geometry(r)
        specs.append(dict(g))
        mon.case(dict(meshes=specs, nodes=list(before[0]), quads=list(before[1]), plates=list(before[2])))
        me = add(r, m, g, r.choice(["MSH1", "MSH2", "MSH7", "tank wall"]) if not m.meshes else f"mesh {k}", mon)
        if r.random() < 0.15 and g["kind"] != "cylinder":
            # an analysis generates the meshes that need it (and then finds nothing that supports them)
            try:
                r.choice([m.analyze, m.analyze_linear, m.analyze_PDelta])()
                mon.ev("unsupported mesh analysed")
            except Exception as e:
                if "nstable" not in str(e) and "singular" not in str(e):
                    raise
            mon.ev("generated by the analysis")
        elif not (g["kind"] == "cylinder" and r.random() < 0.6):
            me.generate()
        what = f"{g['kind']} {k}"
        spec_of[id(me)] = g
        mon.true("generated", me.is_generated())
        CHECK[g["kind"]](mon, m, me, g, before, what)
        if k:
            mon.ev("another mesh")
        if mon.fails:
            return
        # other names
        if r.random() < 0.2:
            m.rename()
            for d, p_ in ((m.nodes, "N"), (m.quads, "Q"), (m.plates, "P")):
                mon.true("renamed", list(d) == [f"{p_}{q + 1}" for q in range(len(d))], lambda: f"{what}: names after rename() {list(d)[:9]}")
            mon.ev("renamed mesh")
            specs.append(dict(change="rename"))
            before = tuple({v.name: v for v in d.values()} for d in before[:3]) + (others,)
            for q in [me] + others:
                g_ = spec_of[id(q)]
                CHECK[g_["kind"]](mon, m, q, g_, before[:3] + ([o for o in others + [me] if o is not q],), f"{g_['kind']} renamed")
            if mon.fails:
                return
        # change it, generate it again
        if r.random() < 0.4:
            ch = r.choice(["same", "size", "opening", "dims"])
            if ch == "size":
                g["ms"] *= r.choice([0.8, 1.3])
                if g["kind"] == "cylinder":
                    ch = "same"
                    g["ms"] = me.mesh_size
                else:
                    me.mesh_size = g["ms"]
                    if g["kind"] != "rect" and int(2 * np.pi * g["r"] / g["ms"]) < 4:
                        return
            elif ch == "opening" and g["kind"] == "rect":
                o = opening(r, g)
                if o:
                    me.add_rect_opening("late", *o)
                    g["ops"].append(o)
                    mon.true("generated", not me.is_generated())
            elif ch == "dims" and g["kind"] == "cylinder":
                g["h"] *= 1.5
                me.h = g["h"]
            specs.append(dict(change=ch, **g))
            me.generate()
            mon.ev("generated again")
            CHECK[g["kind"]](mon, m, me, g, before, what + " again")
            if mon.fails:
                return
        others.append(me)
        mon.sig(g["kind"], len(me.elements), g.get("plane"), g.get("axis"), len(g.get("ops", ())), round(g["ms"], 3))
        if not mon.fails and k and r.random() < 0.3:
            damaged(r, mon, m, me, what)
            return


def damaged(r, mon, m, me, what):
    """The integrity check finds what is wrong with a mesh that was tampered with."""
    els = list(me.elements.values())
    e = r.choice(els)
    at = r.choice(["i_node", "j_node", "m_node", "n_node"])
    n = getattr(e, at)
    share = sum(any(getattr(q, a) is n for a in ("i_node", "j_node", "m_node", "n_node")) for q in els)
    coll = m.quads if me.element_type == "Quad" else m.plates
    how = r.choice(["mesh node", "model node", "twice", "element"])
    if how == "mesh node":
        del me.nodes[n.name]
        want = f"{share} elements are attached to nodes that are not in the mesh."
    elif how == "model node":
        del m.nodes[n.name]
        want = f"{share} elements are attached to nodes that are not in the model."
    elif how == "twice":
        setattr(e, at, getattr(e, r.choice([a for a in ("i_node", "j_node", "m_node", "n_node") if a != at])))
        want = "1 elements have duplicate nodes in them."
    else:
        if e.name in m.quads and e.name in m.plates:
            return
        del coll[e.name]
        want = "1 element names in the mesh were not found in the model."
    got = check_mesh_integrity(me, console_log=False)
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        check_mesh_integrity(me)
    mon.true("damage printed", out.getvalue().split("\n")[:-1] == got, lambda: f"{what} with damaged {how}: printed {out.getvalue()!r}, returned {got}")
    mon.true("damage found", want in got, lambda: f"{what} with damaged {how}: {got}, expected {want!r}")
