"""C30: pictures show the model, its loads and its results."""
import os, warnings
from ..core import check
from .. import gen, genp, spec as S, oneway, scene
from ..common import *
from .c13 import brace_bay
from .c28 import model
from .c29 import plate_pts, QUAD_PTS

ROT = ("RX", "RY", "RZ")


class Vtk:
    name, offset, cube, pin = "vtk", 0.6, 0.6, 1.2

    def __init__(self, m):
        import vtk
        vtk.vtkObject.GlobalWarningDisplayOff()
        from PyNite import Visualization
        self.v = Visualization.Renderer(m)

    def draw(self, a, combo=None, case=None, deformed=False, scale=1.0, nodes=True, loads=True, color=None, labels=True):
        v = self.v
        v.set_annotation_size(a)
        v.set_combo_name(combo) if combo is not None else v.set_case(case)
        v.set_deformed_shape(deformed)
        v.set_deformed_scale(scale)
        v.set_render_nodes(nodes)
        v.set_render_loads(loads)
        v.set_color_map(color)
        v.set_show_labels(labels)
        v.update()
        return scene.of_vtk(v.renderer)

    def close(self):
        pass


class Pv:
    name, offset, cube, pin = "pyvista", 0.0, 1.0, 2.0

    def __init__(self, m):
        from PyNite import Rendering
        import vtk
        vtk.vtkObject.GlobalWarningDisplayOff()
        self.v = Rendering.Renderer(m)

    def draw(self, a, combo=None, case=None, deformed=False, scale=1.0, nodes=True, loads=True, color=None, labels=True):
        v = self.v
        v.annotation_size = a
        v.deformed_shape = False
        if combo is not None:
            v.combo_name = combo
        else:
            v.case = case
        v.deformed_shape, v.deformed_scale, v.render_nodes, v.render_loads, v.color_map = deformed, scale, nodes, loads, color
        v.show_labels = labels
        # (the bar next to the contours must not change them)
        self.k = getattr(self, "k", 0) + 1
        v.scalar_bar, v.scalar_bar_text_size = self.k % 2 == 0, 20
        v.update()
        return scene.of_pyvista(v.plotter)

    def close(self):
        self.v.plotter.close()


def has_seg(segs, P, Q, tol):
    if not len(segs):
        return False
    d1 = np.maximum(np.abs(segs[:, 0] - P).max(1), np.abs(segs[:, 1] - Q).max(1))
    d2 = np.maximum(np.abs(segs[:, 1] - P).max(1), np.abs(segs[:, 0] - Q).max(1))
    return bool(np.minimum(d1, d2).min() <= tol)


def minus(A, B, tol):
    """Items of A (flat vectors) that have no partner in B."""
    A, B = list(A), [np.ravel(np.asarray(b)) for b in B]
    out = []
    for a in A:
        v = np.ravel(np.asarray(a))
        k = next((k for k, b in enumerate(B) if b.shape == v.shape and np.abs(b - v).max() <= tol), None)
        if k is None:
            out.append(a)
        else:
            B.pop(k)
    return out


def text_near(texts, val, pos, dist):
    """A number within 3 digits of val shown near pos."""
    for t, p in texts:
        try:
            x = float(t)
        except ValueError:
            continue
        if abs(x - val) <= 0.0051 * abs(val) + 1e-300 and np.linalg.norm(p - pos) <= dist:
            return True
    return False


def loads(s, factors, R, a):
    """What is to be drawn for the loads: dictionaries with geometry in global coordinates."""
    s = S.explicit_sw(s)
    E = np.eye(3)
    out = []
    gd = {"X": E[0], "Y": E[1], "Z": E[2]}
    for n, d, v, c in s["nload"]:
        if c in factors:
            out.append(dict(k="pt" if d[0] == "F" else "mom", p=S.vec(s, n), e=gd[d[1]], v=v * factors[c], node=True))
    for n, d, v, x, c in s["mpt"]:
        if c in factors:
            T = S.member_axes(s, n)
            e = gd[d[1]] if d[1] in gd else T["xyz".index(d[1])]
            out.append(dict(k="pt" if d[0] == "F" else "mom", p=S.vec(s, s["members"][n]["i"]) + x * T[0], e=e, v=v * factors[c], node=False))
    for n, d, w1, w2, x1, x2, c in s["mdist"]:
        if c in factors:
            T = S.member_axes(s, n)
            e = gd[d[1]] if d[1] in gd else T["xyz".index(d[1])]
            x1 = 0.0 if x1 is None else x1
            x2 = S.member_len(s, n) if x2 is None else x2
            o = S.vec(s, s["members"][n]["i"])
            out.append(dict(k="dist", p1=o + x1 * T[0], p2=o + x2 * T[0], e=e, v1=w1 * factors[c], v2=w2 * factors[c]))
    for kind, key in (("plates", "ppress"), ("quads", "qpress")):
        for n, p, c in s[key]:
            if c in factors:
                X = [S.vec(s, s[kind][n][q]) for q in "ijmn"]
                z = np.cross(X[1] - X[0], X[3] - X[0])
                out.append(dict(k="area", P=X, e=z / np.linalg.norm(z), v=p * factors[c]))
    big = dict(pt=0.0, mom=0.0, dist=0.0, area=0.0)
    for l in out:
        big[l["k"]] = max([big[l["k"]]] + [abs(l[q]) for q in ("v", "v1", "v2") if q in l])
    for l in out:
        b = big[l["k"]] or 1.0
        f = 2.5 * a if l["k"] == "mom" else 5 * a
        for q in ("v", "v1", "v2"):
            if q in l:
                l["l" + q[1:]] = l[q] / b * f
        if l["k"] == "pt" and l["node"]:
            l["p"] = l["p"] - (1.0 if l["v"] >= 0 else -1.0) * R.offset * a * l["e"]
    return out


def check_loads(mon, R, base, sc, L, a, tol, txt):
    """Arrows and labels of a picture with loads against those of one without."""
    cones = minus([np.stack(c) for c in sc.cones], [np.stack(c) for c in base.cones], tol)
    nl = len(sc.lines) - len(base.lines)
    texts = list(sc.texts)
    for t in base.texts:
        k = next((k for k, q in enumerate(texts) if q[0] == t[0] and np.abs(q[1] - t[1]).max() <= tol), None)
        if k is not None:
            texts.pop(k)
    segs = sc.segments()
    C = np.array(cones) if cones else np.zeros((0, 2, 3))
    used = np.zeros(len(C), bool)
    want_lines = 0

    def arrow(kind, p, e, l, what):
        nonlocal want_lines
        want_lines += 1
        b = p - l / 4 * e
        near = (np.abs(C[:, 0] - p).max(1) <= tol) & (np.abs(C[:, 1] - b).max(1) <= tol + 1e-5 * abs(l)) if len(C) else np.zeros(0, bool)
        if abs(l) < 1e-3 * a:
            near = np.abs(C[:, 0] - p).max(1) <= tol + abs(l) if len(C) else near
        used[near] = True
        mon.true(kind, near.any(), lambda: f"{txt}: no arrow head at {p} from {b} for {what}")
        if abs(l) > 10 * tol:
            mon.true(kind, has_seg(segs, p, p - l * e, tol), lambda: f"{txt}: no arrow shaft from {p - l * e} to {p} for {what}")

    for l in L:
        if l["k"] == "pt":
            arrow("point load drawn", l["p"], l["e"], l["l"], l)
            mon.true("load label", text_near(texts, l["v"], l["p"], abs(l["l"]) + 1.5 * a), lambda: f"{txt}: no label {l['v']:.3g} near {l['p']}: {texts}")
        elif l["k"] == "mom":
            want_lines += 1
            c, v, r = l["p"], l["e"] * (1.0 if l["v"] >= 0 else -1.0), abs(l["l"])
            ok = False
            for k, (ap, ba) in enumerate(C):
                mid, d = (ap + ba) / 2 - c, ap - ba
                ln = np.linalg.norm(d)
                if r < 1e-3 * a:
                    good = np.linalg.norm(mid) <= tol + r
                else:
                    t = np.cross(v, mid)
                    good = abs(np.linalg.norm(mid) - r) <= tol + 1e-4 * r and abs(mid @ v) <= tol + 1e-4 * r and ln > 0 and d @ t / (ln * np.linalg.norm(t) + 1e-300) > 0.99
                if good:
                    ok = used[k] = True
            mon.true("moment drawn", ok, lambda: f"{txt}: no arc with its tip turning about {v} at {c}, radius {r}, for {l}")
            mon.true("load label", text_near(texts, l["v"], c, r + 1.5 * a), lambda: f"{txt}: no label {l['v']:.3g} near {c}: {texts}")
        elif l["k"] == "area":
            for p in l["P"]:
                arrow("surface load drawn", p, l["e"], l["l"], l)
            T = np.array([p - l["l"] * l["e"] for p in l["P"]])
            ok = any(len(P) == 4 and np.abs(P - T).max() <= tol for P, _ in sc.polys)
            mon.true("surface load drawn", ok, lambda: f"{txt}: no polygon over {T} for {l}")
            mon.true("load label", text_near(texts, l["v"], l["P"][0], abs(l["l"]) + 1.5 * a), lambda: f"{txt}: no label {l['v']:.3g} near {l['P'][0]}: {texts}")
        else:
            d = l["p2"] - l["p1"]
            D = float(d @ d)
            n = 0
            for k, (ap, ba) in enumerate(C):
                t = float((ap - l["p1"]) @ d / D)
                if -1e-5 <= t <= 1 + 1e-5 and np.abs(ap - l["p1"] - t * d).max() <= tol:
                    ln = l["l1"] + t * (l["l2"] - l["l1"])
                    if abs(ln) < 1e-2 * a or np.abs(ba - (ap - ln / 4 * l["e"])).max() <= tol + 1e-4 * abs(ln):
                        n += 1
                        used[k] = True
            for p, ln, w in ((l["p1"], l["l1"], l["v1"]), (l["p2"], l["l2"], l["v2"])):
                near = np.abs(C[:, 0] - p).max(1) <= tol if len(C) else np.zeros(0, bool)
                mon.true("line load drawn", near.any(), lambda: f"{txt}: no arrow at {p} for {l}")
                if abs(ln) > 10 * tol:
                    mon.true("line load drawn", has_seg(segs, p, p - ln * l["e"], tol), lambda: f"{txt}: no arrow shaft from {p - ln * l['e']} to {p} for {l}")
                mon.true("load label", text_near(texts, w, p, abs(ln) + 1.5 * a), lambda: f"{txt}: no label {w:.3g} near {p}: {texts}")
            P, Q = l["p1"] - l["l1"] * l["e"], l["p2"] - l["l2"] * l["e"]
            if np.linalg.norm(P - Q) > 10 * tol:
                mon.true("line load drawn", has_seg(segs, P, Q, tol), lambda: f"{txt}: no line between the tails {P} and {Q} for {l}")
    mon.true("nothing else drawn", used.all(), lambda: f"{txt}: arrows that belong to no load: {C[~used][:3].tolist()} with loads {L[:6]}")
    nd = sum(1 for l in L if l["k"] == "dist")
    mon.true("nothing else drawn", nl == len(C) + nd, lambda: f"{txt}: {nl} lines for {len(C)} arrows and {nd} line loads")
    nt = sum(2 if l["k"] == "dist" else 1 for l in L)
    mon.true("nothing else drawn", len(texts) == nt, lambda: f"{txt}: {len(texts)} labels for {len(L)} loads: {texts}")


def check_base(mon, R, s, sc, a, tol, nodes, labels, txt):
    """Elements, node labels and supports of a picture without loads or results."""
    segs = sc.segments()
    want = 0
    for kind, what in (("members", "member drawn"), ("springs", "spring drawn")):
        for n, d in s[kind].items():
            want += 1
            P, Q = S.vec(s, d["i"]), S.vec(s, d["j"])
            mon.true(what, has_seg(segs, P, Q, tol), lambda: f"{txt}: no line from {P} to {Q} for {kind} {n}")
            if labels:
                mon.true("element label", any(t == n and np.abs(p - (P + Q) / 2).max() <= 2 * a for t, p in sc.texts), lambda: f"{txt}: {kind} {n} is not labelled at {(P + Q) / 2}: {sc.texts}")
    for kind in ("plates", "quads"):
        for n, d in s[kind].items():
            P = np.array([S.vec(s, d[q]) for q in "ijmn"])
            got = [p for p, _ in sc.polys if len(p) == 4 and np.abs(p - P).max() <= tol]
            mon.true("plate drawn", len(got) == 1, lambda: f"{txt}: {len(got)} polygons at {n}, {P.tolist()}")
    if not labels:
        mon.true("labels switched off", not sc.texts, lambda: f"{txt}: labels {sc.texts[:5]} although they are switched off")
    if labels and (nodes or R is Pv):
        for n in s["nodes"]:
            p = S.vec(s, n)
            mon.true("node label", any(t == n and np.abs(q - p).max() <= 2 * a for t, q in sc.texts), lambda: f"{txt}: node {n} is not labelled at {p}")
    if nodes:
        for n in s["nodes"]:
            f = [bool(x) for x in s["supports"].get(n, [0] * 6)]
            p = S.vec(s, n)
            if R is Vtk:
                mon.true("node drawn", any(np.abs(c - p).max() <= 0.05 * a + tol for c, _ in sc.balls), lambda: f"{txt}: nothing is drawn at node {n}")
            if all(f):
                for c in np.array(np.meshgrid([-1, 1], [-1, 1], [-1, 1])).T.reshape(-1, 3) * R.cube * a:
                    mon.true("support drawn", len(sc.points) and np.abs(sc.points - p - c).max(1).min() <= tol, lambda: f"{txt}: no cube at the fixed node {n}")
            elif all(f[:3]) and not any(f[3:]):
                ok = any(np.abs(ap - p).max() <= tol and np.abs(ba - p + [0, R.pin * a, 0]).max() <= tol for ap, ba in sc.cones)
                mon.true("support drawn", ok, lambda: f"{txt}: no cone at the pinned node {n}")
            else:
                for k in range(6):
                    e = np.eye(3)[k % 3] * a * (1.0 if k < 3 else 1.6)
                    got = has_seg(segs, p - e, p + e, tol)
                    want += f[k]
                    if f[k]:
                        mon.true("support drawn", got, lambda: f"{txt}: the support in direction {k} of node {n} is not drawn")
    mon.true("nothing else drawn", len(sc.lines) == want, lambda: f"{txt}: {len(sc.lines)} lines instead of {want}")


def deflected(m, n, scale, c):
    mem = m.members[n]
    L, T = mem.L(), mem.T()[:3, :3]
    o = np.array([mem.i_node.X, mem.i_node.Y, mem.i_node.Z], float)
    X = []
    for k in range(20):
        x = L / 19 * k
        d = np.array([float(mem.deflection(q, x, c)) for q in ("dx", "dy", "dz")])
        X.append(o + x * T[0] + scale * (d @ T))
    return np.array(X)


def moved(n, scale, c):
    return np.array([n.X + scale * n.DX[c], n.Y + scale * n.DY[c], n.Z + scale * n.DZ[c]], float)


def contours(m, what, c):
    """Smoothed values at the corners of each plate and quad."""
    acc, out = {}, []
    els = list(m.plates.values()) + list(m.quads.values())
    for e in els:
        nn = (e.i_node, e.j_node, e.m_node, e.n_node)
        pts = plate_pts(e)[:4] if e.name in m.plates and m.plates[e.name] is e else QUAD_PTS[:4]
        if what == "dz":
            z = np.cross(np.subtract((nn[1].X, nn[1].Y, nn[1].Z), (nn[0].X, nn[0].Y, nn[0].Z)), np.subtract((nn[3].X, nn[3].Y, nn[3].Z), (nn[0].X, nn[0].Y, nn[0].Z)))
            z = z / np.linalg.norm(z)
            v = [float(np.dot(z, (n.DX[c], n.DY[c], n.DZ[c]))) for n in nn]
        else:
            f, k = dict(Mx=("moment", 0), My=("moment", 1), Mxy=("moment", 2), Qx=("shear", 0), Qy=("shear", 1), Sx=("membrane", 0), Sy=("membrane", 1), Txy=("membrane", 2))[what]
            v = [float(np.ravel(getattr(e, f)(x, y, True, c))[k]) for x, y in pts]
        for n, x in zip(nn, v):
            acc.setdefault(n.name, []).append(x)
    for e in els:
        out.append((e, [float(np.mean(acc[n.name])) for n in (e.i_node, e.j_node, e.m_node, e.n_node)]))
    return out


def same_scene(A, B, tol):
    """Text describing a difference of two scenes, or None."""
    for q in ("lines", "polys", "texts", "cones", "balls"):
        a, b = getattr(A, q), getattr(B, q)
        if len(a) != len(b):
            return f"{len(a)} {q} instead of {len(b)}"
    for x, y in zip(A.lines, B.lines):
        if x.shape != y.shape or np.abs(x - y).max() > tol:
            return f"line {x.tolist()[:2]} instead of {y.tolist()[:2]}"
    for (x, u), (y, v) in zip(A.polys, B.polys):
        if x.shape != y.shape or np.abs(x - y).max() > tol or (u is None) != (v is None) or (u is not None and np.abs(u - v).max() > 1e-6 * np.abs(v).max() + 1e-12):
            return f"polygon {x.tolist()[:2]} ({u}) instead of {y.tolist()[:2]} ({v})"
    for (x, u), (y, v) in zip(A.texts, B.texts):
        if x != y or np.abs(u - v).max() > tol:
            return f"text {x} at {u} instead of {y} at {v}"
    return None


@check("C30", rule="random frames (one-way included) and slabs drawn with both renderers, headless: the line, polygon, arrow and text geometry in the scene is read back. The plain model must show every element, label and support and nothing else; "
       "switching the loads of a combination or case on must add exactly an arrow of the right place, direction, sense, length and label for each of them; the deformed shape must run through the displaced stations of the active elements; "
       "contours must carry the node averages of the queried results; and a renderer used before must draw the same as a new one",
       quick=560, needs=("member drawn", "spring drawn", "element label", "node label", "support drawn", "point load drawn", "moment drawn", "line load drawn", "surface load drawn", "load label", "nothing else drawn",
                         "deformed member", "inactive left out", "deformed node", "deformed plate", "contour value", "contour range", "plate drawn", "labels switched off", "no deformed case", "redrawn", "load case drawn", "pyvista pictures", "vtk pictures"))
def case(r, mon, i):
    s, u = model(r) if i % 5 else brace_bay(r)
    mon.case(s)
    if any(x[4] == x[5] and x[4] is not None for x in s["mdist"]):
        mon.skip("a line load without length")
    ow = any(d.get("t") or d.get("c") for k in ("members", "springs") for d in s[k].values()) or any(x[3] for x in s["spsup"])
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    m, twin = S.build(s), S.build(s)
    for q in (m, twin):
        analyze_or_skip(q, r, how="analyze" if ow else None, oneway=ow)
    cs = list(twin.load_combos)
    N = Noise(twin, s, cs)  # leaves out nearly unstable structures
    c = r.choice(cs)
    fac = dict(twin.load_combos[c].factors)
    R = Pv if r.random() < 0.3 else Vtk
    X = np.array([v for v in s["nodes"].values()], float)
    size = max(np.ptp(X, axis=0).max(), 1e-9)
    a = size / r.choice([10, 20, 40])
    D = max([abs(getattr(n, q)[c]) for n in twin.nodes.values() for q in ("DX", "DY", "DZ")] + [1e-300])
    if not ow:
        D = max([D] + [abs(b.deflection(q, b.L() * f, c)) for b in twin.members.values() for q in ("dx", "dy", "dz") for f in (0.25, 0.5, 0.75)])
    scale = 0.1 * size / D if D > 1e-12 * size else 1.0
    ext = np.abs(X).max(initial=0) + size + 6 * a
    tol = 4e-6 * ext
    lim = 40 if R is Pv else 600
    v = R(m)
    hist = []
    try:
        nodes = r.random() < 0.8
        labels = r.random() < 0.8
        txt = f"{R.name} {c}"
        kw = dict(nodes=nodes, labels=labels)
        base = v.draw(a, combo=c, loads=False, **kw)
        hist.append("plain")
        mon.ev(R.name + " pictures")
        check_base(mon, R, s, base, a, tol, nodes, labels, txt)
        todo = ["loads", "case", "deformed", "contour"]
        r.shuffle(todo)
        for what in todo[:2 if R is Pv else 4]:
            if what in ("loads", "case"):
                cc = None
                f = fac
                if what == "case":
                    if not m.load_cases:
                        continue
                    cc = r.choice(list(m.load_cases))
                    f = {cc: 1.0}
                L = loads(s, f, R, a)
                if sum(2 + 0.75 * np.linalg.norm(l["p2"] - l["p1"]) / max(abs(l["l1"]), abs(l["l2"]), 1e-300) if l["k"] == "dist" else 4 for l in L) > lim:
                    continue
                sc = v.draw(a, **(dict(case=cc) if cc else dict(combo=c)), **kw)
                hist.append(what)
                check_loads(mon, R, base, sc, L, a, tol, f"{txt} case {cc}")
                mon.ev("load case drawn", what == "case")
            elif what == "deformed":
                sc = v.draw(a, combo=c, deformed=True, scale=scale, loads=False, **kw)
                hist.append(what)
                segs, n = sc.segments(), 0
                for q in twin.members:
                    P = deflected(twin, q, scale, c)
                    if twin.members[q].active[c]:
                        n += 19
                        ok = all(has_seg(segs, x, y, tol) for x, y in zip(P[:-1], P[1:]) if np.abs(x - y).max() > 2 * tol)
                        mon.true("deformed member", ok, lambda: f"{txt}: no line through {P[:3].tolist()}... for {q} at scale {scale}")
                    else:
                        mon.ev("inactive left out")
                for q in twin.springs.values():
                    P, Q = moved(q.i_node, scale, c), moved(q.j_node, scale, c)
                    if q.active[c]:
                        n += 1
                        mon.true("deformed spring", has_seg(segs, P, Q, tol), lambda: f"{txt}: no line from {P} to {Q} for spring {q.name} at scale {scale}")
                    else:
                        mon.ev("inactive left out")
                mon.true("nothing else drawn", len(segs) - len(base.segments()) == n, lambda: f"{txt}: {len(segs) - len(base.segments())} line pieces added by the deformed shape instead of {n}")
                if nodes and R is Vtk:
                    for q in twin.nodes.values():
                        P = moved(q, scale, c)
                        mon.true("deformed node", any(np.abs(b - P).max() <= 0.05 * a + tol for b, _ in sc.balls), lambda: f"{txt}: node {q.name} is not drawn at {P}")
                for e in list(twin.plates.values()) + list(twin.quads.values()):
                    P = np.array([moved(q, scale, c) for q in (e.i_node, e.j_node, e.m_node, e.n_node)])
                    mon.true("deformed plate", any(len(p) == 4 and np.abs(p - P).max() <= tol for p, _ in sc.polys), lambda: f"{txt}: {e.name} is not drawn at {P.tolist()}")
            elif twin.plates or twin.quads:
                for cm in r.sample(["Mx", "My", "Mxy", "Qx", "Qy", "Sx", "Sy", "Txy", "dz"], 4):
                    sc = v.draw(a, combo=c, color=cm, loads=False, **kw)
                    hist.append(cm)
                    want = contours(twin, cm, c)
                    allv = [x for _, w in want for x in w]
                    sq = max(map(abs, allv))
                    els = list(twin.plates.values()) + list(twin.quads.values())
                    tl = tol_for(("P", 0), N)  # rounding noise of the analysis
                    fl = {"M": tl[0], "Q": tl[3], "S": tl[6] / min(e.t for e in els), "T": tl[6] / min(e.t for e in els), "d": N.t}[cm[0]] / 10
                    if sq < 1e3 * fl:
                        continue
                    for e, w in want:
                        P = np.array([(q.X, q.Y, q.Z) for q in (e.i_node, e.j_node, e.m_node, e.n_node)], float)
                        vals = [x for p, x in sc.polys if x is not None and len(p) == 4 and np.abs(p - P).max() <= tol]
                        if mon.true("contour drawn", len(vals) == 1, lambda: f"{txt} {cm}: {len(vals)} coloured polygons at {e.name}"):
                            mon.near("contour value", vals[0], w, 1e-5 * sq + fl, lambda: f"{txt} {cm}: corners of {e.name}")
                    mon.true("contour range", any(abs(lo - min(allv)) <= 1e-5 * sq + fl and abs(hi - max(allv)) <= 1e-5 * sq + fl for lo, hi in sc.ranges), lambda: f"{txt} {cm}: colours span {sc.ranges} instead of {min(allv)} to {max(allv)}")
        if r.random() < 0.3 and m.load_cases:
            # there is no deformed shape of a load case
            try:
                v.draw(a, case=r.choice(list(m.load_cases)), deformed=True, scale=scale)
                mon.fail("no deformed case", f"{txt}: a deformed shape was drawn for a load case")
            except Exception as e:
                mon.true("no deformed case", "only available for load combinations" in str(e), lambda: f"{txt}: {e!r}")
            hist.append("refused")
        # the same picture again, from the used renderer and from a new one
        if r.random() < 0.7:
            c2 = r.choice(cs)
            L2 = loads(s, dict(twin.load_combos[c2].factors), R, a)
            few = sum(2 + 0.75 * np.linalg.norm(l["p2"] - l["p1"]) / max(abs(l["l1"]), abs(l["l2"]), 1e-300) if l["k"] == "dist" else 4 for l in L2) <= lim
            k2 = dict(combo=c2, deformed=r.random() < 0.5, scale=scale, loads=few and r.random() < 0.6, nodes=r.random() < 0.7, color=r.choice([None, "Mx", "dz"]) if twin.plates or twin.quads else None)
            A = v.draw(a, **k2)
            w = R(twin)
            try:
                B = w.draw(a, **k2)
            finally:
                w.close()
            d = same_scene(A, B, tol)
            mon.true("redrawn", d is None, lambda: f"{txt}: after {hist} the picture {k2} is not that of a new renderer: {d}")
    finally:
        v.close()
    mon.sig(frame_sig(s), R.name, hist, nodes, labels)
