"""C21: plates and quads reproduce rigid motions and constant strains exactly; their stiffness is symmetric and sound."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *


def axes(s, d):
    """Local axes of a plate (rows), by the right-hand rule through the i, j and n corners."""
    a = S.vec(s, d["j"]) - S.vec(s, d["i"])
    b = S.vec(s, d["n"]) - S.vec(s, d["i"])
    z = np.cross(a, b)
    x = a / np.linalg.norm(a)
    z = z / np.linalg.norm(z)
    return np.array([x, np.cross(z, x), z])


def points(kind, e, r):
    """Query points of an element."""
    ab = [(0, 0), (-1, -1), (1, 1), (r.uniform(-1, 1), r.uniform(-1, 1))]
    if kind == "quads":
        return ab
    w, h = e.width(), e.height()
    return [((a + 1) / 2 * w, (b + 1) / 2 * h) for a, b in ab]


def expected(kind, E, nu, t, Ax, B, eps, kap):
    """(moments, membrane stresses) of an element with local axes Ax in a field with in-plane strain eps and curvature kap (w,ab
    for w along the normal) given in the slab axes B."""
    Rl = Ax[:2] @ B[:2].T
    e = Rl @ eps @ Rl.T
    k = Rl @ kap @ Rl.T * np.sign(Ax[2] @ B[2])
    c = E / (1 - nu ** 2)
    sig = np.array([c * (e[0, 0] + nu * e[1, 1]), c * (e[1, 1] + nu * e[0, 0]), E / (2 * (1 + nu)) * 2 * e[0, 1]])
    D = E * t ** 3 / 12 / (1 - nu ** 2)
    M = D * np.array([k[0, 0] + nu * k[1, 1], k[1, 1] + nu * k[0, 0], (1 - nu) * k[0, 1]])
    return (M if kind == "plates" else -M), sig


def element(mon, kind, name, e, s, d, E, ortho):
    P = [S.vec(s, d[q]) for q in "ijmn"]
    K = np.asarray(e.K(), float)
    L = max(np.linalg.norm(P[0] - P[2]), np.linalg.norm(P[1] - P[3]))
    D = np.tile([1, 1, 1, 1 / L, 1 / L, 1 / L], 4)
    Ks = K * np.outer(D, D)
    top = np.abs(Ks).max()
    if not ortho:
        mon.near("stiffness symmetric", Ks, Ks.T, 1e-9 * top, name)
    Ax = axes(s, d)
    # rigid motions; turning about the normal is free of the weak drilling stiffness only if the corners' own drilling stays zero
    c = sum(P) / 4
    modes = []
    for q in range(3):
        v = np.zeros(24)
        v[q::6] = 1
        modes.append(v)
    for q in range(3):
        w = Ax[q] / L
        v = np.zeros(24)
        for k in range(4):
            v[6 * k:6 * k + 3] = np.cross(w, P[k] - c)
            if q < 2:
                v[6 * k + 3:6 * k + 6] = w
        modes.append(v)
    V = np.array(modes).T
    mon.near("rigid motion free of force", (D[:, None] * (K @ V)).T, 0.0, 1e-9 * top, lambda: f"{kind} {name}")
    if not ortho:
        ev = np.linalg.eigvalsh((Ks + Ks.T) / 2)
        mon.true("no other motion free of force", ev[0] > -1e-11 * top and ev[6] > 1e-12 * top,
                 lambda: f"{kind} {name}: smallest eigenvalues {ev[:8] / top} of the largest")


def probe_ortho():
    from PyNite import FEModel3D
    out = []
    for add in ("add_quad", "add_plate"):
        m = FEModel3D()
        m.add_material("m", 1000.0, 400.0, 0.25, 0)
        for n, (x, y) in dict(a=(0, 0), b=(1, 0), c=(1, 1), d=(0, 1)).items():
            m.add_node(n, x, y, 0)
        getattr(m, add)("e", *"abcd", 0.1, "m", 0.5, 1.0)
        K = (m.quads if add == "add_quad" else m.plates)["e"].K()
        v = abs(K - K.T).max() / abs(K).max()
        if v > 1e-6:
            out.append(f"{add}: unsymmetric by {v:.2g} of the largest term")
    return "; ".join(out)


def probe_plate_moment():
    """Bend one plate with equal stiffness factors to a constant curvature: the moment reported must be that of the end forces."""
    from PyNite import FEModel3D
    m = FEModel3D()
    m.add_material("m", 1000.0, 500.0, 0.0, 0)
    for n, (x, y) in dict(a=(0, 0), b=(1, 0), c=(1, 1), d=(0, 1)).items():
        m.add_node(n, x, y, 0)
        for q in S.DOFS:
            m.def_node_disp(n, q, -x if q == "RY" else 0.5 * x * x if q == "DZ" else 0.0)
        m.def_support(n, *[True] * 6)
    m.add_plate("e", *"abcd", 0.1, "m", 0.5, 0.5)
    m.analyze()
    mom = float(m.plates["e"].moment(0.5, 0.5)[0, 0])
    end = abs(float(m.nodes["b"].RxnMY["Combo 1"] + m.nodes["c"].RxnMY["Combo 1"]))
    return f"moment {mom:.4g} per unit width reported where the reactions hold {end:.4g}" if abs(abs(mom) - end) > 1e-6 * end else None


@check("C21", rule="flat patches of quads (skewed too) or rectangular plates in any plane, numbered from any corner and either way round, whose edge follows a random rigid motion plus constant in-plane strain and constant "
       "curvature: interior nodes must follow, and moments, shears and membrane stresses at random points must have the exact constant values; element stiffness matrices must be symmetric, free of force under rigid motion "
       "and under nothing else",
       quick=1500, needs=("interior follows", "constant moment", "constant membrane stress", "no shear", "stiffness symmetric", "rigid motion free of force", "no other motion free of force", "edge in equilibrium"),
       probes={"orthotropic-unsymmetric": probe_ortho, "plate-moment-modified-stiffness": probe_plate_moment})
def case(r, mon, i):
    kind = r.choice(["quads", "plates"])
    u = dict(r.choice(gen.UNITS))
    s, u, g = genp.slab(r, kind=kind, nx=r.randint(1, 4), ny=r.randint(1, 4), loads=False, beams=0, springs=0, support="none")
    s["spsup"], s["supports"], s["enf"] = [], {}, []
    kf = r.choice([0.35, 0.5, 1.4]) if r.random() < 0.2 and not g["skew"] else 1.0      # the same stiffness factor both ways
    t0 = u["Ls"] / r.choice([2, 5, 20, 50, 100])
    one = r.choice(list(s["materials"]))
    for d in s[kind].values():
        d["t"] = float(t0)
        d["kx"] = d["ky"] = kf
        d["mat"] = one              # (one thickness and material, else the strains aren't constant)
    E, G, nu, rho = s["materials"][one]
    if abs(G - E / 2 / (1 + nu)) > 1e-9 * G:
        s["materials"][one] = [E, E / 2 / (1 + nu), nu, rho]
    B, o = g["B"], g["o"]
    pos = {n: np.array([(S.vec(s, n) - o) @ B[0], (S.vec(s, n) - o) @ B[1]]) for n in s["nodes"]}
    Lp = max(np.linalg.norm(p) for p in pos.values())
    mode = r.choice(["all", "all", "membrane", "bending", "rigid"])
    rn = lambda: r.uniform(-1, 1)
    em = 1e-3 if mode in ("all", "membrane") else 0.0
    kb = 1e-3 / Lp if mode in ("all", "bending") else 0.0
    eps = em * np.array([[rn(), 0], [0, rn()]])
    eps[0, 1] = eps[1, 0] = em * rn()
    spin = 1e-3 * rn()
    Gr = eps + spin * np.array([[0, -1], [1, 0]])
    c0 = 1e-3 * Lp * np.array([rn(), rn()])
    kap = kb * np.array([[rn(), 0], [0, rn()]])
    kap[0, 1] = kap[1, 0] = kb * rn()
    sl, w0 = 1e-3 * np.array([rn(), rn()]), 1e-3 * Lp * rn()

    def field(n):
        p = pos[n]
        uu = Gr @ p + c0
        w = 0.5 * p @ kap @ p + sl @ p + w0
        dw = kap @ p + sl
        return np.concatenate([uu[0] * B[0] + uu[1] * B[1] + w * B[2], dw[1] * B[0] - dw[0] * B[1]])
    edge = [n for (a, b), n in g["grid"].items() if a in (0, g["nx"]) or b in (0, g["ny"])]
    for n in edge:
        v = field(n)
        sup = r.random() < 0.5
        for q in range(6):
            s["enf"].append([n, S.DOFS[q], float(v[q])])
        if sup:
            s["supports"][n] = [1] * 6
    for n in s["nodes"]:
        if n not in edge and r.random() < 0.2 and mode != "all":
            v = field(n)
            s["enf"].append([n, "D" + "XYZ"[0], float(v[0])])
    for n in edge:
        s["supports"][n] = [1] * 6          # (so that the forces holding the edge are reported)
    s["combos"] = {"LC": [{}, None]}
    if r.random() < 0.5:
        s["combos"]["LC"][0]["Case 1"] = 1.0
    mon.case(s)
    m = S.build(s)
    how = analyze(m, r)
    c = "LC"
    inner = [n for n in s["nodes"] if n not in edge]
    free = 1.0
    if inner:
        ix = [6 * m.nodes[n].ID + q for n in inner for q in range(6)]
        K = np.asarray(m.K(c, False, False, False))[np.ix_(ix, ix)]
        sc = 1 / np.sqrt(np.abs(np.diag(K)))
        free = np.linalg.cond(K * np.outer(sc, sc))
    rel = 1e-7 + 300 * EPS * free
    dsc = max(np.abs(field(n)[:3]).max() for n in s["nodes"])
    rsc = max(np.abs(field(n)[3:]).max() for n in s["nodes"]) + dsc / Lp
    for n in s["nodes"]:
        got = S.nodal(m, c, [n])[0]
        mon.near("interior follows" if n in inner else "edge follows", got, field(n), np.array([rel * dsc] * 3 + [rel * rsc] * 3), lambda: f"{kind} {how}: node {n}")
    le = min_elem(s)
    dE = E * t0 ** 3 / 12 / (1 - nu ** 2)
    tm = 10 * rel * dE * (np.abs(kap).max() + rsc / le + dsc / le ** 2)
    tq = 10 * rel * max(dE * (rsc / le ** 2 + dsc / le ** 3), G * t0 * (rsc + dsc / le) if kind == "quads" else 0)
    ts = 10 * rel * E / (1 - nu ** 2) * (np.abs(eps).max() + dsc / le)
    for n, d in s[kind].items():
        e = getattr(m, kind)[n]
        M, sig = expected(kind, E, nu, t0, axes(s, d), B, eps, kap)
        sig = np.array([kf, kf, 1]) * sig       # (the shear modulus stays as it is)
        for p in points(kind, e, r):
            if kf == 1.0 or kind == "quads":        # (moments of modified plates: a known finding)
                mon.near("constant moment", np.ravel(e.moment(*p, True, c)), M, tm, lambda: f"{kind} {n} at {p}")
            mon.near("constant membrane stress", np.ravel(e.membrane(*p, True, c)), sig, ts, lambda: f"{kind} {n} at {p}")
            if kf == 1.0 or kind == "quads":
                mon.near("no shear", np.ravel(e.shear(*p, True, c)), 0.0, tq, lambda: f"{kind} {n} at {p}")
        element(mon, kind, n, e, s, d, E, False)
    R = S.reactions(m, c, list(s["nodes"]))
    fs = np.abs(R[:, :3]).max()
    fsum = R[:, :3].sum(0)
    ft = rel * max(fs, E * t0 * dsc, dE * dsc / le ** 2)
    mon.near("edge in equilibrium", fsum, 0.0, 10 * ft, f"{kind} reactions")
    if mode == "rigid":
        mon.near("rigid motion free of force", R, 0.0, np.array([10 * ft] * 3 + [10 * ft * Lp] * 3), f"{kind} reactions")
    mon.sig(kind, g["nx"], g["ny"], g["skew"], mode, how, nu, round(u["Ls"] / t0), [round(float(abs(v)), 2) for v in B[2]])
