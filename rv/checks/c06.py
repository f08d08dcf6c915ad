"""C06: reported extremes and arrays agree with the pointwise results."""
from ..core import check
from .. import gen, ref, spec as S
from ..common import *
from .c24 import share

Q = [("shear", "Fy"), ("shear", "Fz"), ("moment", "My"), ("moment", "Mz"), ("torque", None), ("axial", None)]

COL = {("axial", None): 0, ("shear", "Fy"): 1, ("shear", "Fz"): 2, ("torque", None): 3, ("moment", "My"): 4, ("moment", "Mz"): 5}


def call(mem, q, d, x, c):
    return getattr(mem, q)(d, x, c) if d else getattr(mem, q)(x, c)


def ext(mem, w, q, d, c):
    f = getattr(mem, w + "_" + q)
    return f(d, c) if d else f(c)


def cancelling(r, s, u, n):
    """Two trapezoidal loads whose sum is (but for rounding) uniform or linear."""
    L = S.member_len(s, n)
    w = gen.rnd(r, 0.2, 2) * u["F"] / u["Ls"]
    d = r.choice(["Fy", "Fz", "FX", "FY", "FZ"])
    c = r.choice(gen.CASES)
    v = w * r.uniform(0, 1)
    x = (None, None) if r.random() < 0.5 else sorted([r.uniform(0, 0.45) * L, r.uniform(0.55, 1) * L])
    s["mdist"].append([n, d, v, w, *x, c])
    s["mdist"].append([n, d, w - v, 0.0, *x, c])


def pieces(r, mem, q, d, c, bps, deg):
    """Exact extremes of a piecewise polynomial from pointwise queries: fit each piece at interior points."""
    lo, hi = np.inf, -np.inf
    for a, b in zip(bps, bps[1:]):
        t = np.cos(np.pi * (2 * np.arange(deg + 3) + 1) / (2 * (deg + 3)))       # Chebyshev points in (-1, 1)
        xs = (a + b) / 2 + (b - a) / 2 * t
        y = np.array([float(np.asarray(call(mem, q, d, x, c)).item()) for x in xs])
        co = np.polynomial.chebyshev.Chebyshev.fit(t, y, deg, domain=[-1, 1])
        cand = [-1.0, 1.0]
        if deg >= 1:
            rt = co.deriv().roots()
            cand += [float(z.real) for z in np.atleast_1d(rt) if abs(z.imag) < 1e-6 and -1 <= z.real <= 1]
        v = co(np.array(cand))
        lo, hi = min(lo, v.min()), max(hi, v.max())
    return lo, hi


def second_order_loads(r, mon, s):
    """Scale the loads so that the axial forces stay well below the first critical load."""
    mu = 0.0
    for c, f in combos(s).items():
        R = ref.RefModel(s, load_split=False)
        try:
            R.solve(f, max_cond=1e8)
            mu = max(mu, share(R))
        except ref.Singular:
            mon.skip("structure (nearly) unstable according to the reference")
    if mu > 1e-9:
        g = r.uniform(0.02, 0.6) / mu
        for key, cols in (("nload", (2,)), ("mpt", (2,)), ("mdist", (2, 3)), ("enf", (2,)), ("sw", (1,))):
            for l in s[key]:
                for q in cols:
                    l[q] *= g


@check("C06", rule="random frames with hostile load layouts (including opposite trapezoids whose sum is uniform but for rounding); for every member, quantity and combination the reported "
       "maximum and minimum are compared with the exact extremes of the pointwise diagram (recovered piece by piece from pointwise queries) or, for deflections, with a dense sampling; arrays "
       "(default, custom points, every quantity) are compared elementwise with pointwise queries, either side being accepted at a jump; a fifth of the models is analysed by P-Delta",
       quick=2400, needs=("maximum", "minimum", "array", "array x", "deflection extreme", "relative deflection array", "second-order extreme"))
def case(r, mon, i):
    s, u = gen.frame(r, loads=False, nmem=r.choice([1, 1, 2, 3]))
    gen.add_member_loads(r, s, u, n=r.randint(1, 6))
    if r.random() < 0.4:
        cancelling(r, s, u, r.choice(list(s["members"])))
    if r.random() < 0.4:
        gen.add_node_loads(r, s, u, n=2)
    gen.add_combos(r, s, n=r.randint(1, 2))
    pd = r.random() < 0.2
    if pd:
        second_order_loads(r, mon, s)
    mon.case(s)
    m = S.build(s)
    how = None
    for c, f in combos(s).items():
        R = reference(s, f)
        if how is None:
            how = analyze(m, r, "pdelta" if pd else None)
        T = Tol(R, rel=1e-6 if pd else 1e-7)
        for n, d in s["members"].items():
            mem = m.members[n]
            L = S.member_len(s, n)
            _, bps = stations(r, s, n, 1)
            bps = [b for k, b in enumerate(bps) if k == 0 or b - bps[k - 1] > 1e-7 * L]
            nodes = [0.0, L] + [x for x, _ in S.interior_nodes(s, n)]
            amb = [v for l in s["mpt"] if l[0] == n and min(abs(l[3] - x) for x in nodes) < 1e-9 * L for v in section_values(R, n, f, l[3])]
            for q, dr in Q:
                # (displacements of members with released translations aren't defined, and second-order moments depend on them)
                if pd and amb or pd and q == "moment" and (any(d["rel"][k] for k in (0, 1, 2, 6, 7, 8))):
                    continue
                tol = 20 * (T.m if q in ("moment", "torque") else T.f)
                deg = {"shear": 2, "moment": 3, "torque": 0, "axial": 2}[q]
                if pd and q == "moment":
                    deg = 9
                lo, hi = pieces(r, mem, q, dr, c, bps, deg)
                k = COL[q, dr]
                if pd and q == "moment":
                    tol += 3e-4 * (hi - lo)         # (peaks are looked for at a hundred places)
                    mon.ev("second-order extreme")
                ghi, glo = ext(mem, "max", q, dr, c), ext(mem, "min", q, dr, c)
                # a load right at a node may be counted as acting just before or just after it
                mon.near("maximum", ghi, np.clip(ghi, hi, max([hi] + [v[k] for v in amb])), tol, lambda: f"{n} {c} max {q} {dr}")
                mon.near("minimum", glo, np.clip(glo, min([lo] + [v[k] for v in amb]), lo), tol, lambda: f"{n} {c} min {q} {dr}")
                a = getattr(mem, q + "_array")
                npt = r.choice([2, 5, 11, 20])
                if r.random() < 0.5:
                    A = a(dr, npt, c) if dr else a(npt, c)
                    X = np.linspace(0, L, npt)
                else:
                    X = np.array(sorted(min(r.uniform(0, L), mem.L()) for _ in range(6)) + ([mem.L()] if r.random() < 0.5 else []))
                    A = a(dr, 3, c, X) if dr else a(3, c, X)
                A = np.asarray(A, float)
                mon.near("array x", A[0], X, 1e-9 * L, lambda: f"{n} {c} {q} {dr}")
                e = 1e-9 * L
                for x, y in zip(X, A[1]):
                    sides = [call(mem, q, dr, min(max(x + k * e, 0), L), c) for k in (-2, 0, 2)]
                    sides = np.array([np.asarray(v, float).item() for v in sides])
                    slope = tol + 4 * e * abs(hi - lo) / L * 10
                    mon.near("array", y, min(max(y, sides.min()), sides.max()), slope, lambda: f"{n} {c} {q} {dr} x={x!r} of {L!r}")
            if any(d["rel"][k] for k in (0, 1, 2, 6, 7, 8)):
                continue
            X = np.linspace(0, L, 41)
            for dr in ("dy", "dz"):
                Y = np.array([mem.deflection(dr, x, c) for x in X])
                rg = np.ptp(Y)
                hi, lo = mem.max_deflection(dr, c), mem.min_deflection(dr, c)
                mon.true("deflection extreme", hi >= Y.max() - 5e-3 * rg - 10 * T.t and lo <= Y.min() + 5e-3 * rg + 10 * T.t,
                         lambda: f"{n} {c} {dr}: reported {lo!r}..{hi!r}, diagram reaches {Y.min()!r}..{Y.max()!r}")
                # and no larger than the diagram gets (its steepest slope bounds it between samples)
                st = 2 * np.abs(np.diff(Y)).max()
                mon.true("deflection extreme", hi <= Y.max() + st + 10 * T.t and lo >= Y.min() - st - 10 * T.t,
                         lambda: f"{n} {c} {dr}: reported {lo!r}..{hi!r}, diagram only reaches {Y.min()!r}..{Y.max()!r}")
            for dr in ("dx", "dy", "dz"):
                npt = r.choice([2, 7, 20])
                X = np.linspace(0, L, npt)
                A = np.asarray(mem.deflection_array(dr, npt, c), float)
                mon.near("array x", A[0], X, 1e-9 * L)
                mon.near("array", A[1], [mem.deflection(dr, x, c) for x in X], 10 * T.t, lambda: f"{n} {c} deflection {dr}")
                if dr != "dx":
                    A = np.asarray(mem.rel_deflection_array(dr, npt, c), float)
                    mon.near("relative deflection array", A[1], [mem.rel_deflection(dr, x, c) for x in X], 10 * T.t, lambda: f"{n} {c} relative deflection {dr}")
    mon.sig(frame_sig(s, how))
