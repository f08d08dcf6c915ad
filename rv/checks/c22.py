"""C22: plates and quads under load agree with plate theory."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *
from .c21 import axes


def local_tensor(Ax, B, T2):
    Rl = Ax[:2] @ B[:2].T
    return Rl @ T2 @ Rl.T


def to_tensor(v):
    a, b, c = np.ravel(v)
    return np.array([[a, c], [c, b]])


def pts(kind, e, ab):
    if kind == "quads":
        return ab
    return ((ab[0] + 1) / 2 * e.width(), (ab[1] + 1) / 2 * e.height())


def elem_point(s, d, ab):
    P = [S.vec(s, d[q]) for q in "ijmn"]
    a, b = ab
    return ((1 - a) * (1 - b) * P[0] + (1 + a) * (1 - b) * P[1] + (1 + a) * (1 + b) * P[2] + (1 - a) * (1 + b) * P[3]) / 4


def strip(r, mon):
    """A cantilever strip of material without lateral strain bends like a beam."""
    kind = r.choice(["quads", "plates"])
    s, u, g = genp.slab(r, kind=kind, skew=False, nx=r.randint(2, 8), ny=r.randint(1, 3), loads=False, beams=0, springs=0, support="one fixed edge")
    mat = list(s["materials"])[0]
    E = s["materials"][mat][0]
    s["materials"] = {mat: [E, E / 2, 0.0, 0.0]}
    t = u["Ls"] / r.choice([5, 20, 60])
    for d in s[kind].values():
        d["mat"], d["t"] = mat, t
    a, b, B, o, nx, ny = g["a"], g["b"], g["B"], g["o"], g["nx"], g["ny"]
    L, W = a[-1], b[-1]
    load = r.choice(["tip", "tip", "moment", "pressure"])
    q = r.choice([-1, 1]) * u["F"] / u["Ls"] * r.uniform(0.5, 2)      # per unit width
    trib = np.zeros(ny + 1)
    for j in range(ny):
        trib[j] += (b[j + 1] - b[j]) / 2
        trib[j + 1] += (b[j + 1] - b[j]) / 2
    pq = q / L                                                        # pressure
    if load in ("tip", "moment"):
        for j in range(ny + 1):
            v = B[2] if load == "tip" else -B[1] * u["Ls"]             # (a moment about -e2 lifts the tip)
            for k in range(3):
                if abs(v[k]) > 1e-14:
                    s["nload"].append([g["grid"][nx, j], ("F" if load == "tip" else "M") + "XYZ"[k], float(q * trib[j] * v[k]), "Case 1"])
    else:
        for n, d in s[kind].items():
            s["qpress" if kind == "quads" else "ppress"].append([n, float(pq * np.sign(axes(s, d)[2] @ B[2])), "Case 1"])
    s["combos"] = {"LC": [{"Case 1": 1.0}, None]}
    mon.case(s)
    m = S.build(s)
    how = analyze(m, r)
    N = Noise(m, s, ["LC"])
    EI = E * t ** 3 / 12
    GA = 5 / 6 * E / 2 * t if kind == "quads" else np.inf
    h = max(np.diff(a).max(), np.diff(b).max())
    hx = np.diff(a).max()
    if load == "tip":
        w = lambda x: q * x * x * (3 * L - x) / 6 / EI + q * x / GA
        dw = lambda x: q * x * (2 * L - x) / 2 / EI
        M = lambda x: q * (L - x)
        V = lambda x: q
        ew = em = 0.0
    elif load == "moment":
        m0 = q * u["Ls"]
        w = lambda x: m0 * x * x / 2 / EI
        dw = lambda x: m0 * x / EI
        M = lambda x: m0
        V = lambda x: 0.0
        ew = em = 0.0
    else:
        w = lambda x: pq * x * x * (6 * L * L - 4 * L * x + x * x) / 24 / EI + pq * (L * x - x * x / 2) / GA
        dw = lambda x: pq * x * (3 * L * L - 3 * L * x + x * x) / 6 / EI
        M = lambda x: pq * (L - x) ** 2 / 2
        V = lambda x: pq * (L - x)
        ew, em = 0.15 * abs(pq) * h * h * L * L / EI, 0.35 * abs(pq) * h * h
    for (i, j), n in g["grid"].items():
        D = S.nodal(m, "LC", [n])[0]
        x = a[i]
        mon.near("strip deflection", D[:3] @ B[2], w(x), ew + 2 * N.t, lambda: f"{kind} {load} at {x} of {L}")
        if load != "pressure":
            mon.near("strip rotation", D[3:] @ B[1], -dw(x), 2 * N.r, lambda: f"{kind} {load} at {x} of {L}")
    sg = 1 if kind == "plates" else -1
    for n, d in s[kind].items():
        e = getattr(m, kind)[n]
        Ax = axes(s, d)
        z = np.sign(Ax[2] @ B[2])
        for ab in ((-1, -1), (1, -1), (1, 1), (-1, 1), (r.uniform(-1, 1), r.uniform(-1, 1))):
            x = (elem_point(s, d, ab) - o) @ B[0]
            T2 = local_tensor(Ax, B, np.array([[M(x), 0], [0, 0]])) * sg * z
            got = np.ravel(e.moment(*pts(kind, e, ab), True, "LC"))
            mon.near("strip moment", got, [T2[0, 0], T2[1, 1], T2[0, 1]], em + 40 * max(N.f, N.m / N.elem), lambda: f"{kind} {load} {n} at {ab}")
        x = (elem_point(s, d, (0, 0)) - o) @ B[0]
        Q = Ax[:2] @ B[0] * V(x) * z
        got = np.ravel(e.shear(*pts(kind, e, (0, 0)), True, "LC"))
        mon.near("strip shear", got, Q, (0.4 * abs(pq) * h if em else 0) + 40 * max(N.f / N.elem, N.m / N.elem ** 2), lambda: f"{kind} {load} {n}")
    mon.sig("strip", kind, load, nx, ny, round(u["Ls"] / t), how, [round(float(abs(v)), 2) for v in B[2]])


def navier(a, b, D, nu, patch, p, x, y, n=61):
    """w, Mx, My, Mxy (M = -D w'') of a simply supported plate with pressure p over patch (x1, x2, y1, y2)."""
    k = np.arange(1, n)
    al, be = k * np.pi / a, k * np.pi / b
    x1, x2, y1, y2 = patch
    q = 4 * p / (a * b) * np.outer((np.cos(al * x1) - np.cos(al * x2)) / al, (np.cos(be * y1) - np.cos(be * y2)) / be)
    A = q / D / (al[:, None] ** 2 + be[None, :] ** 2) ** 2
    s, t, c, d = np.sin(al * x), np.sin(be * y), np.cos(al * x), np.cos(be * y)
    w = s @ A @ t
    wxx, wyy, wxy = -(al ** 2 * s) @ A @ t, -s @ A @ (be ** 2 * t), (al * c) @ A @ (be * d)
    return w, -D * (wxx + nu * wyy), -D * (wyy + nu * wxx), -D * (1 - nu) * wxy


def simply_supported(r, mon):
    kind = r.choice(["quads", "plates"])
    n1 = r.choice([8, 10])
    u = dict(r.choice(gen.UNITS))
    a = u["Ls"]
    b = a * r.choice([0.6, 0.8, 1.0, 1.25, 1.6])
    n2 = max(6, int(round(n1 * b / a / 2)) * 2)
    nu = r.choice([0.0, 0.15, 0.2, 0.3])
    E, t = u["E"], a / r.choice([50, 80])
    D = E * t ** 3 / 12 / (1 - nu ** 2)
    B = genp.basis(r)
    o = np.array([r.uniform(-1, 1) for _ in range(3)]) * a * r.choice([0, 1])
    distort = 0.0 if kind == "plates" else r.choice([0, 0, 0.15])
    clamped = r.random() < 0.25 and not distort
    s = S.new()
    s["materials"]["m"] = [E, E / 2 / (1 + nu), nu, 0.0]
    xs, ys = np.linspace(0, a, n1 + 1), np.linspace(0, b, n2 + 1)
    pos = {}
    for i in range(n1 + 1):
        for j in range(n2 + 1):
            p = np.array([xs[i], ys[j]])
            if 0 < i < n1 and 0 < j < n2 and distort:
                p = p + np.array([r.uniform(-1, 1) * a / n1, r.uniform(-1, 1) * b / n2]) * distort
            pos[f"N{i}_{j}"] = p
            s["nodes"][f"N{i}_{j}"] = [float(v) for v in o + p[0] * B[0] + p[1] * B[1]]
            if i in (0, n1) or j in (0, n2):
                v = [0] * 6
                if clamped:
                    v = [1] * 6
                s["supports"][f"N{i}_{j}"] = v
    # (supports in the directions of the plate: simply supported edges are held by support in global axes only if these are aligned)
    ax = [int(np.argmax(np.abs(B[k]))) for k in range(3)]
    if any(abs(B[k][ax[k]]) < 1 - 1e-9 for k in range(3)):
        B = np.array([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
        ax = [0, 1, 2]
        for n in s["nodes"]:
            s["nodes"][n] = [float(v) for v in o + pos[n][0] * B[0] + pos[n][1] * B[1]]
    for i in range(n1 + 1):
        for j in range(n2 + 1):
            v = s["supports"].get(f"N{i}_{j}")
            if v is not None and not clamped:
                v[ax[0]] = v[ax[1]] = v[ax[2]] = 1
                if i in (0, n1):
                    v[3 + ax[0]] = 1          # no twist along the edge x = const: the slope w,y (turning about e1) is zero
                if j in (0, n2):
                    v[3 + ax[1]] = 1
    e = 0
    flip = r.random() < 0.3
    sgs = {}
    for i in range(n1):
        for j in range(n2):
            c = [f"N{i}_{j}", f"N{i + 1}_{j}", f"N{i + 1}_{j + 1}", f"N{i}_{j + 1}"]
            k = r.randint(0, 3) if r.random() < 0.1 else 0
            c = c[k:] + c[:k]
            if flip:
                c = [c[0], c[3], c[2], c[1]]
            e += 1
            s[kind][f"P{e}"] = dict(i=c[0], j=c[1], m=c[2], n=c[3], t=float(t), mat="m")
            sgs[f"P{e}"] = (i, j)
    if clamped or r.random() < 0.4:
        patch = (0, n1, 0, n2)
    else:
        i1, j1 = r.randint(0, n1 - 2), r.randint(0, n2 - 2)
        patch = (i1, r.randint(i1 + 2, n1), j1, r.randint(j1 + 2, n2))
        if distort:
            patch = (0, n1, 0, n2)
    p = r.choice([-1, 1]) * u["F"] / a ** 2
    for n, (i, j) in sgs.items():
        if patch[0] <= i < patch[1] and patch[2] <= j < patch[3]:
            s["qpress" if kind == "quads" else "ppress"].append([n, float(p * (-1 if flip else 1)), "Case 1"])
    s["combos"] = {"LC": [{"Case 1": 1.0}, None]}
    mon.case(s)
    m = S.build(s)
    m.analyze(check_stability=r.random() < 0.5)
    xy = (xs[patch[0]], xs[patch[1]], ys[patch[2]], ys[patch[3]])
    dz = {n: S.nodal(m, "LC", [n])[0][:3] @ B[2] for n in s["nodes"]}
    if clamped:
        tab = [(1.0, .00126), (1.25, .001825), (1.6, .00230)]       # (Timoshenko, table 35; the value for 1.25 is interpolated)
        ratio, side = max(a, b) / min(a, b), min(a, b)
        co = min(tab, key=lambda q: abs(q[0] - ratio))
        if abs(co[0] - ratio) > 0.06:
            mon.skip("no tabulated solution")
        want = co[1] * p * side ** 4 / D
        cc = f"N{n1 // 2}_{n2 // 2}"
        mon.near("clamped plate", dz[cc], want, 0.08 * abs(want), lambda: f"{kind} {n1}x{n2} ratio {ratio}")
    else:
        ref = {n: navier(a, b, D, nu, xy, p, *pos[n]) for n in s["nodes"]}
        wm = max(abs(v[0]) for v in ref.values())
        for n in s["nodes"]:
            mon.near("simply supported plate deflection", dz[n], ref[n][0], (0.045 + distort * 0.2 + (0 if patch == (0, n1, 0, n2) else 0.06)) * wm, lambda: f"{kind} {n1}x{n2} distorted {distort} loaded {patch} node {n}")
        if not distort:
            mm = max(max(abs(v[1]), abs(v[2])) for v in ref.values())
            xym = max(abs(v[3]) for v in ref.values())
            sg = -1 if kind == "plates" else 1
            for n, d in s[kind].items():
                el = getattr(m, kind)[n]
                Ax = axes(s, d)
                z = np.sign(Ax[2] @ B[2])
                x = np.array([(elem_point(s, d, (0, 0)) - o) @ B[k] for k in (0, 1)])
                _, mx, my, mxy = navier(a, b, D, nu, xy, p, *x)
                T2 = local_tensor(Ax, B, np.array([[mx, mxy], [mxy, my]])) * sg * z
                got = np.ravel(el.moment(*pts(kind, el, (0, 0)), True, "LC"))
                mon.near("simply supported plate moment", got, [T2[0, 0], T2[1, 1], T2[0, 1]], 0.07 * max(mm, xym) + 0.25 * abs(p) * (a / n1) ** 2, lambda: f"{kind} {n1}x{n2} loaded {patch} element {n}")
    mon.sig("plate", kind, n1, n2, nu, clamped, distort, patch, flip, ax)


def wall(r, mon):
    """In-plane: a cantilever wall bends and shears like a deep beam."""
    kind = r.choice(["quads", "plates"])
    u = dict(r.choice(gen.UNITS))
    Hh, Bw = u["Ls"], u["Ls"] * r.choice([0.25, 0.33, 0.5])
    nb = r.choice([6, 8])
    nh = int(round(nb * Hh / Bw * r.choice([0.6, 1.0])))
    nu = r.choice([0.0, 0.2])
    E, t = u["E"], u["Ls"] / 20
    B = genp.basis(r)
    s = S.new()
    s["materials"]["m"] = [E, E / 2 / (1 + nu), nu, 0.0]
    for i in range(nb + 1):
        for j in range(nh + 1):
            p = Bw * i / nb * B[0] + Hh * j / nh * B[1]
            s["nodes"][f"N{i}_{j}"] = [float(v) for v in p]
            if j == 0:
                s["supports"][f"N{i}_{j}"] = [1] * 6
    e = 0
    for i in range(nb):
        for j in range(nh):
            c = [f"N{i}_{j}", f"N{i + 1}_{j}", f"N{i + 1}_{j + 1}", f"N{i}_{j + 1}"]
            k = r.randint(0, 3)
            c = c[k:] + c[:k]
            e += 1
            s[kind][f"P{e}"] = dict(i=c[0], j=c[1], m=c[2], n=c[3], t=float(t), mat="m")
    P = u["F"]
    for i in range(nb + 1):
        for k in range(3):
            v = P * (0.5 if i in (0, nb) else 1) / nb * B[0][k]
            if abs(v) > 1e-12 * P:
                s["nload"].append([f"N{i}_{nh}", "F" + "XYZ"[k], float(v), "Case 1"])
            v = P * (0.5 if i in (0, nb) else 1) / nb * B[1][k]
            if abs(v) > 1e-12 * P:
                s["nload"].append([f"N{i}_{nh}", "F" + "XYZ"[k], float(v), "V"])
    s["combos"] = {"LC": [{"Case 1": 1.0}, None], "LV": [{"V": 1.0}, None]}
    mon.case(s)
    m = S.build(s)
    m.analyze(check_stability=False)
    I, A, G = t * Bw ** 3 / 12, t * Bw, E / 2 / (1 + nu)
    want = P * Hh ** 3 / 3 / E / I + 1.2 * P * Hh / G / A
    D = S.nodal(m, "LC", [f"N{nb // 2}_{nh}"])[0][:3]
    lock = (Hh / nh) ** 2 / 2 / (Bw ** 2) + 1 / nb ** 2          # (stiffness of bilinear elements in bending)
    mon.near("wall in shear and bending", D @ B[0], want, (0.02 + 2 * lock) * want, lambda: f"{kind} {nb}x{nh}")
    mon.near("wall in shear and bending", D @ B[2], 0.0, 1e-6 * want, lambda: f"{kind} out of plane")
    D = S.nodal(m, "LV", [f"N{nb // 2}_{nh}"])[0][:3]
    want = P * Hh / E / A
    mon.near("wall in tension", D @ B[1], want, 0.02 * want, lambda: f"{kind} {nb}x{nh}")
    if nh >= 4:
        for n, d in s[kind].items():
            x = elem_point(s, d, (0, 0))
            if 0.3 * Hh < x @ B[1] < 0.7 * Hh:
                el = getattr(m, kind)[n]
                Ax = axes(s, d)
                T2 = local_tensor(Ax, B, np.array([[0, 0], [0, P / A]]))
                mon.near("wall stress", np.ravel(el.membrane(*pts(kind, el, (0, 0)), True, "LV")), [T2[0, 0], T2[1, 1], T2[0, 1]], 0.03 * P / A, lambda: f"{kind} {n} tension")
                top = P * Hh / I * Bw / 2
                # bending: at the middle and at the two edges that lie further out (there the stress is at its largest)
                out = (1, 0) if abs(Ax[0] @ B[0]) > 0.5 else (0, 1)
                for sg in (0, 1, -1):
                    ab = (sg * out[0], sg * out[1])
                    x = elem_point(s, d, ab)
                    mb = P * (Hh - x @ B[1]) / I
                    y = x @ B[0] - Bw / 2
                    tau = 1.5 * P / A * (1 - 4 * y * y / Bw ** 2)
                    T2 = local_tensor(Ax, B, np.array([[0, tau], [tau, -mb * y]]))
                    mon.near("wall stress" if not sg else "wall stress at edges", np.ravel(el.membrane(*pts(kind, el, ab), True, "LC")), [T2[0, 0], T2[1, 1], T2[0, 1]], (0.04 + 2 * lock + (0.03 if sg else 0)) * top, lambda: f"{kind} {n} bending at {ab}")
                lo, hi = (local_tensor(B @ Ax.T, np.eye(3), to_tensor(el.membrane(*pts(kind, el, (sg * out[0], sg * out[1])), True, "LC")))[1, 1] for sg in (-1, 1))
                dy = (elem_point(s, d, out) - elem_point(s, d, (-out[0], -out[1]))) @ B[0]
                mon.near("stress gradient within elements", hi - lo, -mb * dy, 0.2 * abs(mb * dy), lambda: f"{kind} {n} bending, from edge to edge")
    mon.sig("wall", kind, nb, nh, nu, round(Bw / Hh, 2), [round(float(abs(v)), 2) for v in B[2]])


def cylinder(r, mon):
    """A cylinder free to expand under uniform pressure grows by p R^2 / (E t)."""
    from PyNite import FEModel3D
    u = dict(r.choice(gen.UNITS))
    Rr, Hh, t, E = u["Ls"], u["Ls"] * r.choice([0.4, 1.0]), u["Ls"] / 30, u["E"]
    nu = r.choice([0.0, 0.25])
    axis = r.choice("XYZ")
    ne = r.choice([8, 12, 16, 24])
    org = [0.0, 0.0, 0.0] if r.random() < 0.5 else [float(r.uniform(-1, 1) * Rr) for _ in range(3)]
    m = FEModel3D()
    m.add_material("m", E, E / 2 / (1 + nu), nu, 0.0)
    m.add_cylinder_mesh("C", Hh / r.choice([1, 2, 3]), Rr, Hh, t, "m", origin=org, axis=axis, num_elements=ne, element_type="Quad")
    me = m.meshes["C"]
    if not me.is_generated():
        me.generate()
    k = "XYZ".index(axis)
    p = u["F"] / u["Ls"] ** 2
    c = np.array(org)
    for n, q in m.quads.items():
        P = np.array([[x.X, x.Y, x.Z] for x in (q.i_node, q.j_node, q.m_node, q.n_node)])
        nrm = np.cross(P[1] - P[0], P[3] - P[0])
        rad = P.mean(0) - c
        rad[k] = 0
        m.add_quad_surface_pressure(n, float(p * np.sign(nrm @ rad)))
    # the base slides radially: it is held along the axis, and turned or shifted nowhere by symmetry; weak springs would do, so four
    # nodes on two diameters are held tangentially
    for n, q in m.nodes.items():
        x = np.array([q.X, q.Y, q.Z]) - c
        if abs(x[k]) < 1e-6 * Hh:
            v = [False] * 6
            v[k] = True
            x[k] = 0
            ang = [j for j in range(3) if j != k and abs(x[j]) < 1e-6 * Rr]
            for j in ang:
                v[j] = True
            m.def_support(n, *v)
    m.analyze()
    # the flat facets pass their pressure to the corners: hoop force p R cos(pi / n) throughout
    hoop = p * Rr * np.cos(np.pi / ne)
    want = hoop * Rr / (E * t)
    for n, q in m.nodes.items():
        x = np.array([q.X, q.Y, q.Z]) - c
        ax = x[k]
        x[k] = 0
        x /= np.linalg.norm(x)
        d = np.array([q.DX["Combo 1"], q.DY["Combo 1"], q.DZ["Combo 1"]])
        mon.near("cylinder grows", d @ x, want, 1e-6 * want, lambda: f"axis {axis}, {ne} elements around, node {n}")
        mon.near("cylinder shortens", d[k], -nu * hoop / (E * t) * ax, 1e-6 * want, lambda: f"axis {axis}, {ne} elements around, node {n}")
    for n, q in m.quads.items():
        N = np.ravel(q.membrane(0, 0))
        P = np.array([[x.X, x.Y, x.Z] for x in (q.i_node, q.j_node, q.m_node, q.n_node)])
        along = abs((P[1] - P[0])[k]) > 1e-6 * Rr
        mon.near("hoop tension", N, [0, hoop / t, 0] if along else [hoop / t, 0, 0], 1e-6 * p * Rr / t, lambda: f"axis {axis} quad {n}")
    mon.sig("cylinder", axis, ne, len(m.quads), nu, org == [0, 0, 0])


@check("C22", rule="cantilever strips without lateral strain (exact beam solutions for tip loads and moments; pressure within O(h^2)), simply supported and clamped rectangular plates under full or partial pressure against "
       "Navier's series and Timoshenko's table, cantilever walls in their plane against deep beam theory, pressurised cylinders against the exact hoop solution; regular, graded and distorted meshes of both element types in "
       "any plane, numbered from any corner",
       quick=500, needs=("strip deflection", "strip moment", "strip shear", "simply supported plate deflection", "simply supported plate moment", "clamped plate", "wall in shear and bending", "wall stress", "stress gradient within elements", "cylinder grows", "hoop tension"))
def case(r, mon, i):
    k = r.random()
    if k < 0.55:
        strip(r, mon)
    elif k < 0.65:
        cylinder(r, mon)
    elif k < 0.8:
        wall(r, mon)
    else:
        simply_supported(r, mon)
