"""C11: results don't depend on position, orientation, member direction or units."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *


def cubic(r):
    while True:
        p = [0, 1, 2]
        r.shuffle(p)
        Q = np.zeros((3, 3))
        for a in range(3):
            Q[p[a], a] = r.choice([-1, 1])
        if np.linalg.det(Q) > 0:
            return Q


def anyrot(r):
    q = np.array([r.gauss(0, 1) for _ in range(4)])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


@check("C11", rule="random frames (also one-way) and slabs; the whole model with its loads and supports is rotated (axis permutations, or arbitrary rotations where supports allow it) and shifted, members are "
       "reversed end for end, plates are renumbered around their corners, the model is restated in other units, and its coordinates get rounding errors; displacements, reactions, member forces, diagrams and plate results must transform accordingly",
       quick=1200, needs=("rotated", "shifted far", "reversed", "rounded", "rescaled", "renumbered plate", "arbitrary rotation", "mirrored plate"))
def case(r, mon, i):
    k = r.random()
    ow = False
    gen_rot = r.random() < 0.5
    if k < 0.55:
        if gen_rot:
            s, u = gen.frame(r, support_kind="fixed", spsup=0.0)
        else:
            s, u = gen.frame(r)
        info = None
    elif k < 0.7:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4]))
        ow, gen_rot, info = True, False, None
    else:
        gen_rot = r.random() < 0.5
        s, u, info = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3), support=r.choice(["pinned edge", "fixed edge", "one fixed edge"]) if gen_rot else None, springs=0.1)
    mon.case(s)
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    cs = list(combos(s))
    m = S.build(s)
    how = "analyze" if ow else None
    analyze_or_skip(m, r, how, oneway=ow)
    N = Noise(m, s, cs).scale(5)
    base = {c: Results(m, s, c) for c in cs}

    def solved(mm, what):
        try:
            analyze(mm, r, how)
            return True
        except Exception as e:
            if "singular" in str(e) or "Unstable" in str(e) or "diverged" in str(e):
                mon.fail(what, f"fails when {what}: {e}")
                return False
            raise

    # --- rotation and shift
    if gen_rot and any(len(set(v[:3])) > 1 or len(set(v[3:])) > 1 for v in s["supports"].values()):
        gen_rot = False
    if s["spsup"]:
        gen_rot = False
    Q = anyrot(r) if gen_rot else cubic(r)
    if gen_rot:
        mon.ev("arbitrary rotation")
    sh = np.array([r.uniform(-1, 1) for _ in range(3)]) * u["Ls"] * r.choice([0, 1, 100])
    if np.abs(sh).max() > 20 * u["Ls"]:
        mon.ev("shifted far")
    s2 = S.rotate(s, Q, sh)
    m2 = S.build(s2)
    # member axes of the original: give the original explicit axes too, so local results compare
    if solved(m2, "rotated"):
        B = np.kron(np.eye(2), Q)
        for c in cs:
            A = Results(m2, s2, c)
            b = base[c]
            mon.near("rotated", A.D, b.D @ B.T, np.maximum(N.disp(), 0), lambda: f"{c} displacements, rotated by {Q.tolist()} shifted {sh.tolist()}")
            mon.near("rotated", A.R, b.R @ B.T, N.force(), lambda: f"{c} reactions, rotated by {Q.tolist()}")
            fa, fb = A.flat(), b.flat()
            same(mon, "rotated", fb, fa, N, f"{c} local results, rotated by {Q.tolist()} shifted {sh.tolist()}", keys=("f", "I", "d", "S", "P", "PF"))
    # --- coordinates that differ by rounding errors
    s5 = S.clone(s)
    e = u["Ls"] * r.choice([1e-17, 1e-16, 1e-15, 1e-15])
    for c in s5["nodes"].values():
        for q in range(3):
            if r.random() < 0.7:
                c[q] += r.choice([-1, 1]) * r.random() * e
    m5 = S.build(s5)
    if solved(m5, "rounded"):
        for c in cs:
            same(mon, "rounded", base[c].flat(), Results(m5, s5, c).flat(), N, f"{c} with coordinates off by {e}")
    # --- reversal
    if s["members"]:
        n = r.choice(list(s["members"]))
        s3 = S.reverse_member(s, n)
        m3 = S.build(s3)
        if solved(m3, "reversed"):
            T0, T1 = S.member_axes(s, n), S.member_axes(s3, n)
            L = S.member_len(s, n)
            for c in cs:
                A, b = Results(m3, s3, c), base[c]
                mon.near("reversed", A.D, b.D, N.disp(), lambda: f"{c} displacements, {n} reversed")
                mon.near("reversed", A.R, b.R, N.force(), lambda: f"{c} reactions, {n} reversed")
                if not mon.true("reversed", A.active == b.active, lambda: f"{c} active {A.active} instead of {b.active}") or not b.active[n]:
                    continue
                C = T1 @ T0.T
                C4 = np.kron(np.eye(4), C)
                e = (C4 @ b.f[n])
                e = np.concatenate([e[6:], e[:6]])
                mon.near("reversed", A.f[n], e, np.tile(N.force(), 2), lambda: f"{c} end forces of {n} reversed")
                for x in (0.2371, 0.7123):
                    g0 = query_internal(m.members[n], x * L, c)
                    g1 = query_internal(m3.members[n], (1 - x) * L, c)
                    # left-sum resultant: (axial, Fy, Fz, T, -My, Mz); the opposite face carries the negative
                    l0 = np.array([g0[0], g0[1], g0[2], g0[3], -g0[4], g0[5]])
                    l1 = np.array([g1[0], g1[1], g1[2], g1[3], -g1[4], g1[5]])
                    mon.near("reversed", l1, -(np.kron(np.eye(2), C) @ l0), 10 * N.force(), lambda: f"{c} diagrams of {n} at {x} L, reversed")
                    if any(s["members"][n]["rel"][q] for q in (0, 1, 2, 6, 7, 8)):
                        continue
                    d0 = np.array([float(m.members[n].deflection(q, x * L, c)) for q in ("dx", "dy", "dz")])
                    d1 = np.array([float(m3.members[n].deflection(q, (1 - x) * L, c)) for q in ("dx", "dy", "dz")])
                    mon.near("reversed", d1, C @ d0, 20 * N.t, lambda: f"{c} deflections of {n} at {x} L, reversed")
    # --- plates renumbered around their corners
    if info and not ow:
        key = info["kind"]
        s4 = S.clone(s)
        coupled = bool(s["members"]) or any(l[1][0] == "M" for l in s["nload"])
        mir = r.random() < 0.5
        for n, d in s4[key].items():
            c4 = [d[q] for q in "ijmn"]
            a = r.randint(0, 3)
            c4 = c4[a:] + c4[:a]
            if a % 2 and (d.get("kx", 1) != 1 or d.get("ky", 1) != 1):
                c4 = c4[1:] + c4[:1]
            if mir and r.random() < 0.6:
                c4 = [c4[0], c4[3], c4[2], c4[1]]
                for l in s4["qpress" if key == "quads" else "ppress"]:
                    if l[0] == n:
                        l[1] = -l[1]
                mon.ev("mirrored plate")
            for q, v in zip("ijmn", c4):
                d[q] = v
        m4 = S.build(s4)
        # (the weak drilling springs of skewed quads depend on the side chosen as local x, so leave coupled cases out)
        if not (coupled and info["skew"]) and solved(m4, "renumbered plate"):
            for c in cs:
                A, b = Results(m4, s4, c, plates=False), base[c]
                mon.near("renumbered plate", A.D, b.D, N.disp(), lambda: f"{c} displacements, plates renumbered")
                mon.near("renumbered plate", A.R, b.R, N.force(), lambda: f"{c} reactions, plates renumbered")
    # --- units
    a, b_ = r.choice([1000.0, 0.0254, 12.0, 0.3048]), r.choice([1000.0, 1e-3, 4.448, 1e6])
    s5 = S.rescale(s, a, b_)
    m5 = S.build(s5)
    if solved(m5, "rescaled"):
        kd = np.array([a] * 3 + [1] * 3)
        kf = np.array([b_] * 3 + [a * b_] * 3)
        for c in cs:
            A, b = Results(m5, s5, c), base[c]
            mon.near("rescaled", A.D, b.D * kd, N.disp() * kd, lambda: f"{c} displacements, lengths x{a}, forces x{b_}")
            mon.near("rescaled", A.R, b.R * kf, N.force() * kf, lambda: f"{c} reactions, lengths x{a}, forces x{b_}")
            for n in b.f:
                mon.near("rescaled", A.f[n], b.f[n] * np.tile(kf, 2), np.tile(N.force() * kf, 2), lambda: f"{c} end forces of {n}, lengths x{a}, forces x{b_}")
                ki = np.array([b_, b_, b_, a * b_, a * b_, a * b_])
                mon.near("rescaled", A.I[n], b.I[n] * ki, np.array([N.f] * 3 + [N.m] * 3) * 10 * ki, lambda: f"{c} diagrams of {n}, lengths x{a}, forces x{b_}")
                mon.near("rescaled", A.d[n], b.d[n] * a, N.t * 20 * a, lambda: f"{c} deflections of {n}, lengths x{a}, forces x{b_}")
            for n in b.P:
                kp = np.array(([b_] * 3 + [b_ / a] * 5) * 2)
                mon.near("rescaled", A.P[n], b.P[n] * kp, tol_for("P", N) * kp, lambda: f"{c} plate results of {n}, lengths x{a}, forces x{b_}")
    mon.sig(frame_sig(s, gen_rot), len(s["plates"]), len(s["quads"]))
