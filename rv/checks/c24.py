"""C24: P-Delta analysis."""
from ..core import check
from .. import gen, spec as S, ref
from ..common import *


def part_forces(R, s, name, q, P):
    """End forces of a part of a member in the displaced structure under the axial force found there; released ends move freely."""
    mm = R.mem[name]
    el = mm["els"][q]
    rel = s["members"][name]["rel"]
    b = ([c for c in range(6) if rel[c]] if q == 0 else []) + ([c for c in range(6, 12) if rel[c]] if q == len(mm["els"]) - 1 else [])
    if not b:
        return R.el_end_forces(name, q, P)
    k = el["k"] + ref.kg12(P[name][q], el["l"], mm["Ip_A"])
    d = R.D[el["cols"][:12]].reshape(4, 3) @ mm["T"].T
    d = d.reshape(12)
    a = [c for c in range(12) if c not in b]
    d[b] = -np.linalg.solve(k[np.ix_(b, b)], k[np.ix_(b, a)] @ d[a])
    return k @ d


def member_rows(mem):
    return list(mem.sub_members.values())


def random_frame(r, mon):
    s, u = gen.frame(r, nmem=r.choice([1, 2, 3, 4, 5]), oneway=0.0)
    how_p = r.random()
    # (how a load on a part with a released end is passed on in the deformed position is a matter of how finely a member is divided, see
    # beam_column below; one step of the geometric stiffness doesn't settle it)
    rel = {n for n, d in s["members"].items() if any(d["rel"])}
    if rel:
        for key in ("mpt", "mdist"):
            s[key] = [l for l in s[key] if l[0] not in rel]
        s["sw"] = []
        if not (s["nload"] or s["mpt"] or s["mdist"]):
            gen.add_node_loads(r, s, u, 2)
            s["combos"] = {}
            gen.add_combos(r, s)
    # the loads are scaled until the axial forces use up a chosen share of the first critical load
    c0, (f0, _) = next(iter(S.combos_of(s).items()))
    R1 = ref.RefModel(s, load_split=False)
    try:
        R1.solve(f0, max_cond=1e8)
    except ref.Singular:
        mon.skip("structure (nearly) unstable according to the reference")
    mu = share(R1)
    target = r.uniform(0.05, 0.75)
    if mu > 1e-6 and how_p < 0.9:
        g = target / mu
        for key, cols in (("nload", (2,)), ("mpt", (2,)), ("mdist", (2, 3)), ("enf", (2,)), ("sw", (1,))):
            for l in s[key]:
                for q in cols:
                    l[q] *= g
    mon.case(s)
    m = S.build(s, perm=r if r.random() < 0.5 else None)
    done = False
    for c, f in combos(s).items():
        R1 = ref.RefModel(s, load_split=False)
        try:
            R1.solve(f, max_cond=1e9)
            mu = share(R1)
            if mu > 0.85:
                continue
            P = R1.axial_forces()
            R = ref.RefModel(s, load_split=False)
            R.solve(f, P=P, max_cond=1e9)
        except ref.Singular:
            mon.skip("structure (nearly) unstable according to the reference")
        if not done:
            done = True
            how = analyze(m, r, "pdelta", check_stability=r.random() < 0.5)
        T = Tol(R, rel=1e-6)
        mon.max("share of the critical load", mu)
        dn = S.nodal(m, c, R.names)
        mon.near("second-order displacement", dn, R.node_disp(), T.disp(), lambda: f"{c} nodes {R.names} DX..RZ (share {mu:.3g})")
        if np.any(np.abs(R.node_disp() - R1.node_disp()) > 1e3 * T.disp()):
            mon.ev("axial forces changed the displacements")
        P2 = R.axial_forces()
        tol12 = np.concatenate([T.force(), T.force()]) * 3
        RX = np.zeros((len(R.names), 6))
        for name in s["members"]:
            mem = m.members[name]
            T3 = S.member_axes(s, name)
            subs = member_rows(mem)
            # (a point load right at an intermediate node may be counted to either part)
            if any(l[0] == name and any(abs(l[3] - x) < 1e-6 * R.mem[name]["L"] for x, _ in S.interior_nodes(s, name)) for l in s["mpt"]):
                subs = []
            for q in range(len(R.mem[name]["els"])):
                e = part_forces(R, s, name, q, P2)
                if len(subs) == len(R.mem[name]["els"]):
                    mon.near("second-order end forces", np.ravel(subs[q].f(c)), e, tol12, lambda: f"{name} part {q} {c}")
                el = R.mem[name]["els"][q]
                for n, v in ((el["na"], e[:6]), (el["nb"], e[6:])):
                    RX[R.idx[n]] += np.concatenate([T3.T @ v[:3], T3.T @ v[3:]])
            if len(subs) == 1:
                e = part_forces(R, s, name, 0, P2)
                mon.near("second-order moment at the start", [mem.moment("Mz", 0, c), mem.moment("My", 0, c)], [e[5], -e[4]], 3 * T.m, lambda: f"{name} {c}") if not any(l[0] == name and l[3] < 1e-9 for l in s["mpt"]) else None
        # reactions: what the elements (with the axial forces of the deformed structure) pull out of the supports
        for n, d in s["springs"].items():
            a, b = S.vec(s, d["i"]), S.vec(s, d["j"])
            uu = (b - a) / np.linalg.norm(b - a)
            D = R.node_disp()
            N = d["ks"] * uu @ (D[R.idx[d["j"]]][:3] - D[R.idx[d["i"]]][:3])
            RX[R.idx[d["i"]], :3] -= N * uu
            RX[R.idx[d["j"]], :3] += N * uu
        for n, d, p, cs in s["nload"]:
            RX[R.idx[n], S.FDIR.index(d)] -= p * f.get(cs, 0)
        rx = S.reactions(m, c, R.names)
        for n in R.names:
            for q in range(6):
                k = R.idx[n]
                held = n in s["supports"] and s["supports"][n][q]
                sp = [l for l in s["spsup"] if l[0] == n and l[1] == S.DOFS[q]]
                want = 0.0
                if held:
                    want = RX[k, q]
                for l in [] if held else sp:        # (a support takes what its own spring would otherwise pass on)
                    want -= l[2] * R.node_disp()[k, q]
                mon.near("second-order reaction", rx[k, q], want, 5 * (T.f if q < 3 else T.m), lambda: f"{c} {n} {S.RXN[q]} (share {mu:.3g})")
    if not done:
        mon.skip("every combination is past a critical load")
    mon.sig("frame", frame_sig(s, how))


def left_moments(R, f, name, e, xa, x, defl):
    """Sum about a section at x of all moments acting on the member between xa and x in its displaced position: (about local y, about local z)."""
    pts, dist = R.member_loads(name, f)
    L = R.mem[name]["L"]
    My, Mz = e[4] + e[2] * (x - xa), e[5] - e[1] * (x - xa)
    cuts, P = [xa], [e[0]]
    for xp, v in sorted(pts, key=lambda p: p[0]):
        if xa + 1e-9 * L < xp < x or (xp <= xa + 1e-9 * L and xa == 0 and xp >= xa):
            My += v[4] + v[2] * (x - xp)
            Mz += v[5] - v[1] * (x - xp)
            cuts.append(max(xp, xa))
            P.append(P[-1] + v[0])
    for x1, x2, w1, w2 in dist:
        lo, hi = max(x1, xa), min(x2, x)
        if hi <= lo or x2 <= x1:
            continue
        wa, wb = (w1 + (w2 - w1) * (q - x1) / (x2 - x1) for q in (lo, hi))
        l = hi - lo
        F = (wa + wb) / 2 * l
        S1 = wa * l * (l / 2 + x - hi) + (wb - wa) * l / 2 * (l / 3 + x - hi)
        My += S1[2]
        Mz -= S1[1]
    cuts.append(x)
    for q in range(len(P)):
        d = defl(cuts[q + 1]) - defl(cuts[q])
        Mz += P[q] * d[1]
        My -= P[q] * d[2]
    return My, Mz


def diagrams(r, mon):
    """Moments and deflections along members whose axial forces are far from buckling them between nodes (the bending an axial force causes there
    is then known up to its own small share of itself): statics in the displaced position, and the displaced shape itself."""
    s, u = gen.frame(r, nmem=r.choice([1, 1, 2, 3]), oneway=0.0, releases=r.choice([0.0, 0.2]), loads=False)
    gen.add_member_loads(r, s, u, n=r.randint(1, 5))
    gen.add_node_loads(r, s, u, n=r.randint(0, 3))
    rel = {n for n, d in s["members"].items() if any(d["rel"])}
    s["mpt"] = [l for l in s["mpt"] if l[0] not in rel]
    s["mdist"] = [l for l in s["mdist"] if l[0] not in rel]
    s["sw"] = []
    # forces along the axes that make up a good part of all loads
    for n, d in s["members"].items():
        if n not in rel and r.random() < 0.8:
            L = S.member_len(s, n)
            s["mpt"].append([n, "Fx", u["F"] * r.choice([-20, -5, 5, 20]), r.choice([L, L * r.uniform(0.2, 0.8)]), "Case 1"])
    if not (s["nload"] or s["mpt"] or s["mdist"]):
        mon.skip("no loads")
    s["combos"] = {}
    gen.add_combos(r, s)
    cs = combos(s)
    target = 10 ** r.uniform(-3, -1.2)
    rho = gross = 0.0
    ei = {n: min(S.mprops(s, d)[1:3]) * s["materials"][d["mat"]][0] for n, d in s["members"].items()}
    try:
        for c, f in cs.items():
            R1 = ref.RefModel(s)
            R1.solve(f, max_cond=1e11)
            for n, mm in R1.mem.items():
                gross = max(gross, np.abs([R1.internal(n, x, w) / [1, 1, 1, mm["L"], mm["L"], mm["L"]] for el in mm["els"] for x, w in ((el["xa"], 1), (el["xb"], -1))]).max() * mm["L"] ** 2 / ei[n])
                rho = max([rho] + [abs(R1.internal(n, el["xa"], +1)[0]) * mm["L"] ** 2 / ei[n] for el in mm["els"]])
    except ref.Singular:
        mon.skip("structure (nearly) unstable according to the reference")
    if rho > 1e-6 * gross:
        for key, cols in (("nload", (2,)), ("mpt", (2,)), ("mdist", (2, 3)), ("enf", (2,))):
            for l in s[key]:
                for q in cols:
                    l[q] *= target / rho
    mon.case(s)
    m = S.build(s)
    st = {}
    for n in s["members"]:
        L = S.member_len(s, n)
        _, bps = stations(r, s, n, 1)
        xs = {0.0, L}
        for a, b in zip(bps, bps[1:]):
            if b - a > 1e-4 * L:
                xs |= {a + (b - a) * 0.12, a + (b - a) * r.uniform(0.25, 0.75), b - (b - a) * 0.12}
        st[n] = sorted(xs)
    done = False
    for c, f in cs.items():
        try:
            R = ref.RefModel(s, load_split=False)
            R.solve(f, max_cond=1e9)
            if share(R) > 0.5:
                continue
            R.solve(f, P=R.axial_forces(), max_cond=1e9)
            P2 = R.axial_forces()
            F = ref.RefModel(s, stations=st)
            F.solve(f, max_cond=1e12)
            F.solve(f, P=F.axial_forces(), max_cond=1e12)
        except ref.Singular:
            continue
        if not done:
            done = True
            analyze(m, r, "pdelta", check_stability=False)
        T = Tol(R, rel=1e-9)
        TF = Tol(F, rel=1e-9)
        dn = np.abs(R.node_disp() - F.node_disp())
        off = float(max(dn[:, :3].max(), dn[:, 3:].max() * max(mm["L"] for mm in F.mem.values())))       # (the members' division in the analysis has its part in the displacements)
        for n, d in s["members"].items():
            if any(d["rel"][q] for q in (0, 1, 2, 6, 7, 8)):
                continue
            mm = F.mem[n]
            L, mem = mm["L"], m.members[n]
            defl = lambda x: F.local_disp(n, x)[:3]
            els = R.mem[n]["els"]
            axial = any(abs(v) > 0 for x1, x2, a, b in R.member_loads(n, f)[1] for v in (a[0], b[0]))
            for q, el in enumerate(els):
                xs = [x for x in [z for z in sorted({y for e in mm["els"] for y in (e["xa"], e["xb"])})] if el["xa"] - 1e-9 * L <= x <= el["xb"] + 1e-9 * L]
                dd = np.array([defl(x) for x in xs])
                rng = np.ptp(dd, axis=0)
                e = part_forces(R, s, n, q, P2)
                Pm = max([abs(e[0])] + [abs(F.internal(n, x, -1)[0]) for x in xs if x > 1e-9 * L])
                k = Pm * (el["xb"] - el["xa"]) ** 2 / ei[n]
                td = 1.5 * k * rng[1:].max() + 20 * T.t + 4 * off + 10 * TF.t
                tm = 1.5 * k * Pm * rng[1:].max() + 10 * T.m + 8 * Pm * off + 2 * Pm * TF.t
                near = [x for x in st[n] if el["xa"] - 1e-9 * L <= x <= el["xb"] + 1e-9 * L]
                inside = [x for x in near if el["xa"] + 1e-9 * L < x < el["xb"] - 1e-9 * L]
                for x in near:
                    got = [float(mem.deflection(w, x, c)) for w in ("dy", "dz")]
                    mon.near("second-order deflection", got, defl(x)[1:], td, lambda: f"{n} part {q} {c} x={x!r} of {L!r} dy, dz (P l^2/EI {k:.3g})")
                if axial or any(l[0] == n and any(abs(l[3] - y) < 1e-6 * L for y in (el["xa"], el["xb"]) if 0 < y < L) for l in s["mpt"]):
                    continue
                ends = [x for x in near if min(x, abs(x - L)) < 1e-9 * L and not any(l[0] == n and l[1][0] == "M" and abs(l[3] - x) < 1e-6 * L for l in s["mpt"])]
                for x in inside + ends:
                    My, Mz = left_moments(R, f, n, e, el["xa"], x, lambda z: np.array([np.interp(z, xs, dd[:, b]) if min(abs(z - w) for w in xs) > 1e-9 * L else defl(min(xs, key=lambda w: abs(w - z)))[b] for b in range(3)]))
                    got = [float(mem.moment("My", x, c)), float(mem.moment("Mz", x, c))]
                    mon.near("second-order moment", got, [-My, Mz], tm, lambda: f"{n} part {q} {c} x={x!r} of {L!r} My, Mz (P l^2/EI {k:.3g})")
                    mon.max("moment of the axial force / tolerance", float(Pm * rng[1:].max() / tm))
            # the extremes are those of the diagram
            if r.random() < 0.3:
                for w in ("My", "Mz"):
                    v = np.array([float(mem.moment(w, x, c)) for x in np.linspace(0, L, 41)] + [float(mem.moment(w, x, c)) for x in st[n]])
                    bend = np.abs(v).max() / 1e4 + 10 * T.m
                    mon.true("second-order extreme moment", float(mem.max_moment(w, c)) >= v.max() - bend and float(mem.min_moment(w, c)) <= v.min() + bend,
                             lambda: f"{n} {c} {w}: {mem.max_moment(w, c)} and {mem.min_moment(w, c)}, but the diagram goes from {v.min()} to {v.max()}")
                    arr = mem.moment_array(w, 7, c)
                    mon.near("second-order moment array", arr[1], [float(mem.moment(w, x, c)) for x in arr[0]], 10 * T.m, lambda: f"{n} {c} {w}")
                for w in ("dy", "dz"):
                    arr = mem.deflection_array(w, 7, c)
                    mon.near("second-order deflection array", arr[1], [float(mem.deflection(w, x, c)) for x in arr[0]], 20 * T.t, lambda: f"{n} {c} {w}")
    if not done:
        mon.skip("every combination is past a critical load")
    mon.sig("diagrams", frame_sig(s, round(target, 3)))


def oneway_frame(r, mon):
    """One-way members and springs: second-order results of the structure with the elements that stayed active."""
    from .c13 import brace_bay
    s, u = brace_bay(r) if r.random() < 0.7 else gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4, 5]), releases=0.2)
    s["spsup"] = [[n, d, k, None] for n, d, k, _ in s["spsup"]]
    out = {n for n, d in s["members"].items() if any(d["rel"]) or d["t"] or d["c"]}
    for key in ("mpt", "mdist"):
        s[key] = [l for l in s[key] if l[0] not in out]
    s["sw"] = []
    if not s["nload"]:
        gen.add_node_loads(r, s, u, 2)
    s["combos"] = {}
    gen.add_combos(r, s)
    # scaled so that the axial forces with all elements at work make up a good share of a critical load (the stiffness drops with the slack ones)
    mu = 0.0
    for c, f in combos(s).items():
        R1 = ref.RefModel(s, load_split=False)
        try:
            R1.solve(f, max_cond=1e8)
        except ref.Singular:
            mon.skip("structure (nearly) unstable according to the reference")
        mu = max(mu, share(R1))
    g = r.uniform(0.05, 0.5) / mu if mu > 1e-6 else 1.0
    for key, cols in (("nload", (2,)), ("mpt", (2,)), ("mdist", (2, 3)), ("enf", (2,))):
        for l in s[key]:
            for q in cols:
                l[q] *= g
    mon.case(s)
    m = S.build(s)
    try:
        how = analyze(m, r, "pdelta", check_stability=False)
    except Exception as e:
        if "singular" in str(e) or "diverged" in str(e):
            mon.skip("unstable or diverging with the elements that remain")
        raise
    done = False
    for c, f in combos(s).items():
        off = {("m", n) for n in s["members"] if not m.members[n].active[c]} | {("s", n) for n in s["springs"] if not m.springs[n].active[c]}
        R1 = ref.RefModel(s, load_split=False, inactive=off)
        try:
            R1.solve(f, max_cond=1e9)
            mu = share(R1)
            if mu > 0.85:
                continue
            P = R1.axial_forces()
            R = ref.RefModel(s, load_split=False, inactive=off)
            R.solve(f, P=P, max_cond=1e9)
        except ref.Singular:
            continue
        done = True
        T = Tol(R, rel=1e-6)
        mon.near("second-order displacement with slack elements" if off else "second-order displacement", S.nodal(m, c, R.names), R.node_disp(), T.disp(), lambda: f"{c} nodes {R.names} DX..RZ (share {mu:.3g}) inactive {off}")
        if off and np.any(np.abs(R.node_disp() - R1.node_disp()) > 1e3 * T.disp()):
            mon.ev("axial forces changed the displacements, elements slack")
        for q, k in (("members", "m"), ("springs", "s")):
            for n, d in s[q].items():
                if (d["t"] or d["c"]) and (k, n) not in off:
                    e = getattr(m, q)[n]
                    v = [float(e.max_axial(c)), float(e.min_axial(c))] if k == "m" else [float(e.axial(c))]
                    mon.true("wrong-sign force", not (max(v) > 10 * T.f if d["t"] else min(v) < -10 * T.f), lambda: f"{q[:-1]} {n} {c} {'tension' if d['t'] else 'compression'}-only carries {v}")
    if not done:
        mon.skip("every combination is past a critical load")
    mon.sig("one-way", frame_sig(s, how))


def share(R):
    """Largest |eigenvalue| of K^-1 Kg: the share of a critical load (in either direction) that the axial forces make up."""
    P = R.axial_forces()
    Kg = R.assemble(P) - R.assemble()
    A = R.K[np.ix_(R.k1, R.k1)]
    if not len(A):
        return 0.0
    sc = 1 / np.sqrt(np.abs(np.diag(A)))
    As, G = A * np.outer(sc, sc), Kg[np.ix_(R.k1, R.k1)] * np.outer(sc, sc)
    Lc = np.linalg.cholesky((As + As.T) / 2 + 1e-13 * np.eye(len(As)))
    X = np.linalg.solve(Lc, np.linalg.solve(Lc, G).T)
    return float(np.abs(np.linalg.eigvalsh((X + X.T) / 2)).max())


def beam_column(r, mon):
    """Exact solutions of the differential equation of a beam-column, for a finely divided member."""
    s, u = gen.base(r)
    s["combos"] = {}
    L = u["Ls"] * r.choice([0.5, 1.0, 2.0])
    p = gen.props(r, u)
    mat = list(s["materials"])[0]
    E = s["materials"][mat][0]
    ax = gen.direction(r)
    org = np.array([r.uniform(-1, 1) for _ in range(3)]) * L * r.choice([0, 1])
    kind = r.choice(["cantilever tip load", "cantilever moment", "simple uniform", "simple midpoint", "fixed guided", "leaning"])
    n = r.choice([6, 8, 12])
    for k in range(n + 1):
        s["nodes"][f"N{k}"] = [float(v) for v in org + ax * L * k / n]
    one = r.random() < 0.5
    mk = lambda i, j: dict(i=i, j=j, mat=mat, t=False, c=False, aux=None, rel=[0] * 12, **p)
    if one:
        s["members"]["M"] = mk("N0", f"N{n}")
    else:
        for k in range(n):
            s["members"][f"M{k}"] = mk(f"N{k}", f"N{k + 1}")
    name0 = next(iter(s["members"]))
    T = S.member_axes(s, name0)
    strong = r.random() < 0.5
    EI = E * (p["Iz"] if strong else p["Iy"])
    lat, rot = (T[1], T[2]) if strong else (T[2], -T[1])        # a rotation +theta about rot turns x towards lat
    comp = r.choice([1, 1, 1, -1])
    pe = {"cantilever tip load": np.pi ** 2 / 4, "cantilever moment": np.pi ** 2 / 4, "leaning": np.pi ** 2 / 4}.get(kind, np.pi ** 2) * EI / L ** 2
    if kind == "leaning":
        comp = 1
    share_ = r.uniform(0.05, 0.8) if comp > 0 else r.uniform(0.05, 3)
    P = share_ * pe                                              # magnitude; compression when comp > 0
    kL = np.sqrt(P / EI) * L
    H = P * r.uniform(0.001, 0.05) * r.choice([-1, 1])
    tip = f"N{n}"

    def load(node, v, c="Case 1", t="F"):
        for k in range(3):
            if abs(v[k]) > 1e-14 * np.abs(v).max():
                s["nload"].append([node, t + "XYZ"[k], float(v[k]), c])

    plane = int(np.argmax(np.abs(lat)))
    axis_aligned = np.abs(np.abs(T).max(axis=1) - 1).max() < 1e-9
    kk = [int(np.argmax(np.abs(T[q]))) for q in range(3)]
    if kind in ("simple uniform", "simple midpoint", "fixed guided") and not axis_aligned:
        kind = "cantilever tip load"
        P = share_ * np.pi ** 2 / 4 * EI / L ** 2
        kL = np.sqrt(P / EI) * L
    tan, sin, cos = np.tan, np.sin, np.cos
    k_ = kL / L
    ch = comp < 0
    s["supports"]["N0"] = [1] * 6
    mid = f"N{n // 2}"
    pins = False
    if kind == "cantilever tip load":
        load(tip, -comp * P * ax)
        load(tip, H * lat)
        want = H * L / P * ((tan(kL) / kL - 1) if not ch else (1 - np.tanh(kL) / kL))
        base = H * L + comp * P * want
        at = tip
    elif kind == "cantilever moment":
        load(tip, -comp * P * ax)
        M = H * L
        load(tip, M * rot, t="M")
        want = M / P * ((1 / cos(kL) - 1) if not ch else (1 - 1 / np.cosh(kL)))
        base = M + comp * P * want
        at = tip
    elif kind == "leaning":
        # a pin-ended column carrying load leans on a cantilever: the pull of both loads sways the cantilever
        s["supports"]["N0"] = [1] * 6
        off = ax * 0 + lat * L * 0.5
        s["nodes"]["B0"] = [float(v) for v in org + off]
        s["nodes"]["B1"] = [float(v) for v in org + off + ax * L]
        s["members"]["LEAN"] = mk("B0", "B1")
        s["members"]["LINK"] = mk(tip, "B1")
        for q in ("LEAN", "LINK"):
            s["members"][q]["rel"] = [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1]
            s["members"][q]["A"] = p["A"] * 1000
        s["supports"]["B0"] = [1, 1, 1, 1, 1, 1]
        load("B1", -P * ax)
        load(tip, H * lat)
        # second order in small displacements: the cantilever (no axial load of its own) is pushed by H + P d / L
        k3 = 3 * EI / L ** 3
        want = H / (k3 - P / L)
        if P / L / k3 > 0.85:
            mon.skip("past the critical load")
        base = (H + P * want / L) * L
        at = tip
        # out of the plane of the link the leaning column would be free: hold it
        s["supports"]["B1"] = [0] * 6
        out = np.cross(ax, lat)
        if not axis_aligned:
            mon.skip("the leaning column needs supports in global directions")
        s["supports"]["B1"][int(np.argmax(np.abs(out)))] = 1
        s["supports"]["B1"][3:] = [1, 1, 1]
        s["supports"]["N0"] = [1] * 6
        if n and not one:
            pass
    else:
        la, lr = int(np.argmax(np.abs(lat))), int(np.argmax(np.abs(rot)))
        xa = int(np.argmax(np.abs(ax)))
        ot = ({0, 1, 2} - {la, xa}).pop()
        s["supports"]["N0"] = [1, 1, 1, 1, 1, 1]
        s["supports"][tip] = [1, 1, 1, 1, 1, 1]
        s["supports"][tip][xa] = 0
        for q in ("N0", tip):
            s["supports"][q][3 + lr] = 0
        load(tip, -comp * P * ax)
        pins = r.random() < 0.4 and kind != "fixed guided"
        if pins:
            first, last = list(s["members"])[0], list(s["members"])[-1]
            for q in ("N0", tip):
                s["supports"][q][3 + lr] = 1
            s["members"][first]["rel"][5 if strong else 4] = 1
            s["members"][last]["rel"][11 if strong else 10] = 1
        if kind == "simple uniform":
            w = H / L
            uu = kL / 2
            for mname in s["members"]:
                s["mdist"].append([mname, "Fy" if strong else "Fz", w, w, None, None, "Case 1"])
            d = 5 * w * L ** 4 / 384 / EI
            if not ch:
                want = d * 12 * (2 / cos(uu) - 2 - uu ** 2) / (5 * uu ** 4)
            else:
                want = d * 12 * (2 / np.cosh(uu) - 2 + uu ** 2) / (5 * uu ** 4)
            at = mid
            base = None
        elif kind == "simple midpoint":
            load(mid, H * lat)
            uu = kL / 2
            d = H * L ** 3 / 48 / EI
            want = d * (3 * (tan(uu) - uu) / uu ** 3 if not ch else 3 * (uu - np.tanh(uu)) / uu ** 3)
            at = mid
            base = None
        else:
            # fixed below, guided (free to sway, not to turn) above
            for q in ("N0", tip):
                s["supports"][q][3 + lr] = 1
            s["supports"][tip][la] = 0
            load(tip, H * lat)
            uu = kL / 2
            d = H * L ** 3 / 12 / EI
            want = d * (3 * (tan(uu) - uu) / uu ** 3 if not ch else 3 * (uu - np.tanh(uu)) / uu ** 3)
            base = (H * L + comp * P * want) / 2
            at = tip
    s["combos"] = {"LC": [{"Case 1": 1.0}, None]}
    mon.case(s)
    m = S.build(s)
    how = analyze(m, r, "pdelta", check_stability=False)
    D = S.nodal(m, "LC", [at])[0]
    mon.near("beam-column deflection", D[:3] @ lat, want, (2e-2 if pins else 2e-3 if kind != "leaning" else 6e-3) * abs(want), lambda: f"{kind}, {'compression' if comp > 0 else 'tension'} share {share_:.3g}, {n} parts")
    if base is not None:
        rx = S.reactions(m, "LC", ["N0"])[0]
        mon.near("base moment in the deformed position", -rx[3:] @ rot, base, (2e-3 if kind != "leaning" else 6e-3) * max(abs(base), abs(H * L)), lambda: f"{kind}, {'compression' if comp > 0 else 'tension'} share {share_:.3g}, {n} parts")
    mon.sig("beam-column", kind, comp, round(share_, 1), n, one, strong, [round(float(abs(v)), 2) for v in ax], how)


def no_axial(r, mon):
    """Without axial forces second-order and first-order results are the same."""
    s, u = gen.base(r)
    mat = list(s["materials"])[0]
    ax = gen.direction(r)
    L = u["Ls"]
    nb = r.choice([2, 3, 4])
    for k in range(nb + 1):
        s["nodes"][f"N{k}"] = [float(v) for v in ax * L * k]
    for k in range(nb):
        s["members"][f"M{k}"] = dict(i=f"N{k}", j=f"N{k + 1}", mat=mat, t=False, c=False, aux=None, rel=list(r.choice([[0] * 12, [0] * 10 + [1, 1]])) if k < nb - 1 else [0] * 12, **gen.props(r, u))
    for k in range(nb + 1):
        s["supports"][f"N{k}"] = [1] * 6 if k in (0, nb) else [1, 1, 1, 0, 0, 0]
    gen.add_member_loads(r, s, u, n=r.randint(1, 4), dirs_f=("Fy", "Fz"), dirs_p=("Fy", "Fz", "Mx", "My", "Mz"))
    gen.add_combos(r, s)
    mon.case(s)
    m1, m2 = S.build(s), S.build(s)
    m1.analyze_linear()
    m2.analyze_PDelta()
    for c, f in combos(s).items():
        T = Tol(reference(s, f))
        names = list(s["nodes"])
        mon.near("no axial force", S.nodal(m2, c, names), S.nodal(m1, c, names), T.disp(), f"{c} displacements")
        mon.near("no axial force", S.reactions(m2, c, names), S.reactions(m1, c, names), T.force(), f"{c} reactions")
    mon.sig("no axial", frame_sig(s))


@check("C24", rule="random spatial frames scaled so that their axial forces are 5-75% of the first critical load (any sign), with releases, interior nodes, springs, enforced displacements and member loads: nodal displacements, end forces of "
       "every part and reactions against an independent solver with geometric stiffness from the first-order axial forces, also of the structure left by slack one-way elements; moments along members (statics in the displaced position), displaced shapes, arrays and extremes of frames whose members are far from buckling between nodes, to within the square of P l^2 / E I; finely divided beam-columns in any direction, in compression or tension, against exact solutions of the "
       "differential equation, and leaning columns; beams without axial force against linear analysis",
       quick=2400, needs=("second-order displacement", "second-order end forces", "second-order reaction", "axial forces changed the displacements", "beam-column deflection", "base moment in the deformed position", "no axial force",
                         "second-order moment", "second-order deflection", "second-order extreme moment", "second-order displacement with slack elements", "axial forces changed the displacements, elements slack"))
def case(r, mon, i):
    k = r.random()
    if k < 0.38:
        random_frame(r, mon)
    elif k < 0.46:
        oneway_frame(r, mon)
    elif k < 0.66:
        diagrams(r, mon)
    elif k < 0.93:
        beam_column(r, mon)
    else:
        no_axial(r, mon)
