"""C27: stress resultants of plates agree with their displacements and end forces; mesh extremes are the extremes."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *
from .c21 import axes


def jac(P, a, b):
    """Area ratio of the bilinear map at (a, b) of a flat element with corners P."""
    da = np.array([-(1 - b), 1 - b, 1 + b, -(1 + b)]) / 4
    db = np.array([-(1 - a), -(1 + a), 1 + a, 1 - a]) / 4
    return np.linalg.norm(np.cross(da @ P, db @ P))


def recovery(r, mon, s, m, kind, n, c):
    """d . (f - fer) = energy of the reported resultants."""
    d, e = s[kind][n], getattr(m, kind)[n]
    mat = s["materials"][d["mat"]]
    E, nu, t = mat[0], mat[2], d["t"]
    G = E / (2 * (1 + nu))
    P = np.array([S.vec(s, d[q]) for q in "ijmn"])
    Ax = axes(s, d)
    D = np.concatenate([S.nodal(m, c, [d[q]])[0] for q in "ijmn"])
    T = np.kron(np.eye(8), Ax)
    dl = T @ D
    f = np.ravel(e.f(c)) - np.ravel(e.fer(c))
    Fb = 12 / (E * t ** 3) * np.array([[1, -nu, 0], [-nu, 1, 0], [0, 0, 2 * (1 + nu)]])
    Fm = t / E * np.array([[1, -nu, 0], [-nu, 1, 0], [0, 0, 2 * (1 + nu)]])
    ub = um = 0.0
    if kind == "plates":
        w, h = np.linalg.norm(P[1] - P[0]), np.linalg.norm(P[3] - P[0])
    nn = 2 if kind == "quads" else 4
    xs, ws = np.polynomial.legendre.leggauss(nn)
    for a, wa in zip(xs, ws):
        for b, wb in zip(xs, ws):
            p = (a, b) if kind == "quads" else ((1 + a) / 2 * w, (1 + b) / 2 * h)
            dA = jac(P, a, b) * wa * wb
            M = np.ravel(e.moment(*p, True, c))
            ub += M @ Fb @ M * dA
            if kind == "quads":
                Q = np.ravel(e.shear(*p, True, c))
                ub += Q @ Q / (G * t * 5 / 6) * dA
            if nn == 2:
                N = np.ravel(e.membrane(*p, True, c))
                um += N @ Fm @ N * dA
    if nn != 2:
        for a in (-1, 1):
            for b in (-1, 1):
                a_, b_ = a / 3 ** 0.5, b / 3 ** 0.5
                N = np.ravel(e.membrane((1 + a_) / 2 * w, (1 + b_) / 2 * h, True, c))
                um += N @ Fm @ N * jac(P, a_, b_)
    im = [q for k in range(4) for q in (6 * k, 6 * k + 1)]
    ib = [q for k in range(4) for q in (6 * k + 2, 6 * k + 3, 6 * k + 4)]
    # rounding: displacements that cancel in the strains
    le = min(np.linalg.norm(P[a] - P[b]) for a, b in ((0, 1), (1, 2), (2, 3), (3, 0)))
    Kl = np.abs(np.asarray(e.k(), float))
    dmax = np.abs(dl.reshape(8, 3)[::2]).max() + le * np.abs(dl.reshape(8, 3)[1::2]).max()
    en = np.tile([dmax] * 3 + [dmax / le] * 3, 4)
    rb, rm = (1e-12 * (np.abs(dl[q]) @ Kl[np.ix_(q, q)] @ en[q]) + 1e-24 * en[q] @ Kl[np.ix_(q, q)] @ en[q] for q in (ib, im))
    mon.near("bending energy", ub, dl[ib] @ f[ib], 1e-6 * abs(ub) + rb, lambda: f"{kind} {n} {c}")
    mon.near("membrane energy", um, dl[im] @ f[im], 1e-6 * abs(um) + rm, lambda: f"{kind} {n} {c}")
    # the end forces balance the pressure
    p = sum(v * fac for l, v, cs in s["ppress" if kind == "plates" else "qpress"] if l == n for q, fac in combos(s)[c].items() if q == cs)
    ft = np.abs(f).max() * 1e-7 + 1e-12 * (Kl @ np.abs(dl)).max()
    tot = np.ravel(e.f(c)).reshape(4, 6).sum(0)[:3]
    area = sum(jac(P, a, b) for a in (-3 ** -.5, 3 ** -.5) for b in (-3 ** -.5, 3 ** -.5))
    mon.near("end forces balance pressure", tot, [0, 0, -p * area], ft + 1e-9 * abs(p) * area, lambda: f"{kind} {n} {c}")
    mon.near("global end forces", np.ravel(e.F(c)), np.kron(np.eye(8), Ax.T) @ np.ravel(e.f(c)), ft + 1e-9 * abs(p) * area * (1 + le), lambda: f"{kind} {n} {c}")
    # at the integration points the membrane stress follows from the corner displacements
    a, b = (r.choice([-1, 1]) / 3 ** 0.5 for _ in range(2))
    dN = np.array([[-(1 - b), 1 - b, 1 + b, -(1 + b)], [-(1 - a), -(1 + a), 1 + a, 1 - a]]) / 4
    gr = np.linalg.solve(dN @ ((P - P[0]) @ Ax[:2].T), dN) @ dl.reshape(4, 6)[:, :2]
    cc = E / (1 - nu ** 2)
    sig = np.array([cc * (gr[0, 0] + nu * gr[1, 1]), cc * (gr[1, 1] + nu * gr[0, 0]), G * (gr[0, 1] + gr[1, 0])])
    p = (a, b) if kind == "quads" else ((1 + a) / 2 * w, (1 + b) / 2 * h)
    mon.near("membrane stress", np.ravel(e.membrane(*p, True, c)), sig, 1e-7 * np.abs(sig).max() + 1e-12 * E * dmax / le, lambda: f"{kind} {n} {c}")


def extremes(r, mon, s, u):
    """Mesh extremes against the elements' own results."""
    from PyNite import FEModel3D
    typ = r.choice(["Quad", "Rect"])
    m = FEModel3D()
    nu = r.choice([0.0, 0.2, 0.3])
    m.add_material("mat", u["E"], u["E"] / 2 / (1 + nu), nu, 0)
    h = u["Ls"] / 4
    pl = r.choice(["XY", "YZ", "XZ"])
    m.add_rectangle_mesh("A", h, r.randint(1, 3) * h, r.randint(1, 4) * h, u["Ls"] / 30, "mat", plane=pl, element_type=typ)
    if r.random() < 0.5:
        m.add_rectangle_mesh("B", h, 2 * h, 2 * h, u["Ls"] / 20, "mat", origin=[0.0, 0.0, 0.0] if r.random() < 0.3 else [9 * h, h, 2 * h], plane=r.choice(["XY", "YZ", "XZ"]), element_type=r.choice(["Quad", "Rect"]))
    for me in m.meshes.values():
        if not me.is_generated():
            me.generate()
    for me in m.meshes.values():
        for n in r.sample(list(me.nodes), 3):
            m.def_support(n, *[True] * 6)
    for e in m.quads:
        if r.random() < 0.7:
            m.add_quad_surface_pressure(e, r.uniform(-1, 1) * u["F"] / u["Ls"] ** 2, r.choice(["D", "L"]))
    for e in m.plates:
        if r.random() < 0.7:
            m.add_plate_surface_pressure(e, r.uniform(-1, 1) * u["F"] / u["Ls"] ** 2, r.choice(["D", "L"]))
    for n in r.sample(list(m.nodes), 3):
        m.add_node_load(n, r.choice(["FX", "FY", "FZ", "MX"]), r.uniform(-1, 1) * u["F"], r.choice(["D", "L"]))
    m.add_load_combo("A1", {"D": 1.2, "L": r.choice([-1.6, 1.6])})
    m.add_load_combo("B2", {"D": r.choice([-0.9, 0.9])})
    if r.random() < 0.5:
        m.add_load_combo("C3", {"L": -2.0})
    m.analyze()
    for mn, me in m.meshes.items():
        for f, q, k in (("moment", "Mx", 0), ("moment", "My", 1), ("moment", "Mxy", 2), ("shear", "Qx", 0), ("shear", "Qy", 1),
                        ("moment", "MX", 0), ("moment", "MY", 1), ("moment", "MZ", 2), ("shear", "QX", 0), ("shear", "QY", 1)):
            # (in capitals: what the elements report in global directions)
            vals = {}
            for c in m.load_combos:
                v = []
                for e in me.elements.values():
                    if e.type == "Quad":
                        ps = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)]
                    else:
                        w, hh = e.width(), e.height()
                        ps = [(0, 0), (w, 0), (w, hh), (0, hh), (w / 2, hh / 2)]
                    v += [float(getattr(e, f)(*p, not q.isupper(), c)[k, 0]) for p in ps]
                vals[c] = v
            for c in [None] + list(m.load_combos):
                v = [x for q_, l in vals.items() for x in l if c in (None, q_)]
                args = (q,) if c is None else (q, c)
                mon.near("mesh extremes", [getattr(me, "max_" + f)(*args), getattr(me, "min_" + f)(*args)], [max(v), min(v)], 1e-9 * (max(v) - min(v)) + 1e-300, lambda: f"{mn} {q} {c}")
    mon.sig("extremes", typ, pl, len(m.meshes), len(m.quads), len(m.plates))


@check("C27", rule="random slabs (skewed quads, rectangular plates, mixed numbering, beams, springs, settlements) under loads: for every element and combination the energy integrated from the reported moments, shears and "
       "membrane stresses must equal the work of the end forces on the corner displacements, end forces must balance the pressure; mesh extremes must equal those over the corners and centres of their elements",
       quick=600, needs=("bending energy", "membrane energy", "end forces balance pressure", "mesh extremes", "membrane stress"))
def case(r, mon, i):
    u = dict(r.choice(gen.UNITS))
    if r.random() < 0.15:
        extremes(r, mon, None, u)
        return
    s, u, g = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
    mon.case(s)
    kind = g["kind"]
    for n in s["materials"]:
        E, G, nu, rho = s["materials"][n]
        s["materials"][n] = [E, E / 2 / (1 + nu), nu, rho]
    cs = list(combos(s))
    m = S.build(s)
    how = analyze_or_skip(m, r)
    Noise(m, s, cs)
    for c in cs:
        for n in s[kind]:
            recovery(r, mon, s, m, kind, n, c)
    mon.sig(kind, g["nx"], g["ny"], g["skew"], g["sup"], how, len(cs), len(s["members"]), [round(float(abs(v)), 2) for v in g["B"][2]])
