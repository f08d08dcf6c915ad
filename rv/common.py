"""Shared oracles and tolerances."""
import math, random
import numpy as np
from . import spec as S, ref
from .core import Skip

EPS = np.finfo(float).eps


class Tol:
    """Absolute tolerances for translations, rotations, forces and moments, from the scale of the reference solution and
    the conditioning of the problem (rounding in a solve grows with the condition number)."""

    def __init__(self, R, extra_force=0.0, rel=1e-7):
        s = R.s
        self.rel = rel + 300 * EPS * R.cond
        nn = 6 * len(R.names)
        isr = np.array([(i % 6) >= 3 for i in range(R.ndof)])
        if R.ndof > nn:                       # interior station dofs are 6 per station too; extra release dofs are mixed
            isr[nn:] = False
        a = R.amp[:nn]
        r = isr[:nn]
        L = max([m["L"] for m in R.mem.values()] + [1e-9])
        # forces: applied + end forces, plus cancellation in stiff members
        f = max(extra_force, R.gross)
        for name, mm in R.mem.items():
            for q in range(len(mm["els"])):
                if ("m", name) in R.inactive:
                    continue
                e = R.el_end_forces(name, q)
                f = max(f, np.abs(e[[0, 1, 2, 6, 7, 8]]).max(), np.abs(e[[3, 4, 5, 9, 10, 11]]).max() / L)
                f = max(f, np.abs(R._feq[name][q][[0, 1, 2, 6, 7, 8]]).max())
        Fv = np.abs(R.F[:nn])
        f = max(f, Fv[~r].max(initial=0), Fv[r].max(initial=0) / L)
        kd = 0.0
        for name, mm in R.mem.items():
            for el in mm["els"]:
                kd = max(kd, np.abs(el["k"][:3, :3]).max() * np.abs(R.D).max())
        ei = max([max(m["EIy"], m["EIz"]) for m in R.mem.values()] + [0.0])
        floor = 1e-3 * f * L ** 3 / ei if ei else 0.0      # deflection scale of the loads, should they all go straight into supports
        t = max(a[~r].max(initial=0), a[r].max(initial=0) * L, floor)
        self.t = self.rel * t + 1e-300
        self.r = self.rel * max(a[r].max(initial=0), t / L) + 1e-300
        self.fscale = f
        self.f = self.rel * f + 20 * EPS * kd + 1e-300
        self.m = self.f * L
        self.L = L

    def disp(self):
        return np.array([self.t] * 3 + [self.r] * 3)

    def force(self):
        return np.array([self.f] * 3 + [self.m] * 3)


def reference(s, factors, stations=None, max_cond=1e9, P=None, **kw):
    """Solve with the reference solver, or skip the case as (nearly) unstable."""
    R = ref.RefModel(s, stations, sep=2e-3 if P is None else 0.0, **kw)
    try:
        R.solve(factors, P=P, max_cond=max_cond)
    except ref.Singular:
        raise Skip("structure (nearly) unstable according to the reference")
    return R


def analyze(m, r, how=None, **kw):
    """Run one of the equivalent analysis entry points; returns a label."""
    how = how or r.choice(["analyze", "analyze", "linear"])
    sparse = r.random() < 0.75
    if how == "analyze":
        m.analyze(sparse=sparse, **kw)
    elif how == "linear":
        m.analyze_linear(sparse=sparse, **kw)
    elif how == "pdelta":
        m.analyze_PDelta(sparse=sparse, **kw)
    return how + ("" if sparse else "-dense")


def analyze_or_skip(m, r, how=None, oneway=False, **kw):
    """analyze(), skipping models the code reports as unstable (C14 monitors that report itself)."""
    try:
        return analyze(m, r, how, **kw)
    except Exception as e:
        if "singular" in str(e).lower() or "Unstable node" in str(e):
            raise Skip("reported unstable")
        if oneway and "diverged" in str(e):
            raise Skip("one-way iteration diverged")
        raise


def combos(s):
    return {n: c[0] for n, c in S.combos_of(s).items()}


def frame_sig(s, *more):
    """Shape signature of a frame spec."""
    return (len(s["nodes"]), len(s["members"]), len(s["springs"]), len(s["spsup"]), len(s["enf"]),
            sorted(tuple(i for i, v in enumerate(d.get("rel") or []) if v) for d in s["members"].values()),
            sorted(d["aux"] is not None for d in s["members"].values()),
            sorted((x[1], x[4] is None) for x in s["mdist"]), sorted(x[1] for x in s["mpt"]), sorted(x[1] for x in s["nload"]),
            [len(c[0]) for c in s["combos"].values()], len(s["sw"]), sorted(map(tuple, s["supports"].values())), more)


# stress resultants as PyNite reports them, from the reference's left-sum (Fx, Fy, Fz, Mx, My, Mz)
def reported_from_leftsum(e):
    """(axial, shear Fy, shear Fz, torque, moment My, moment Mz)"""
    return np.array([e[0], e[1], e[2], e[3], -e[4], e[5]])


def query_internal(mem, x, c):
    return np.array([mem.axial(x, c), mem.shear("Fy", x, c), mem.shear("Fz", x, c), mem.torque(x, c),
                     mem.moment("My", x, c), mem.moment("Mz", x, c)], float)


def stations(r, s, name, n=4):
    """Query stations of a member: random points, discontinuities, ends."""
    L = S.member_len(s, name)
    xs = [0.0, L]
    for x, _ in S.interior_nodes(s, name):
        xs.append(x)
    for l in s["mpt"]:
        if l[0] == name:
            xs.append(l[3])
    for l in s["mdist"]:
        if l[0] == name:
            xs += [0.0 if l[4] is None else l[4], L if l[5] is None else l[5]]
    bps = sorted(set(xs))
    out = list(bps)
    for a, b in zip(bps, bps[1:]):
        if b - a > 1e-6 * L:
            out += [a + (b - a) * r.uniform(0.02, 0.98) for _ in range(max(1, n // max(1, len(bps) - 1)))]
    return sorted(set(out)), bps


def point_loads_at(R, name, factors, x):
    L = R.mem[name]["L"]
    v = np.zeros(6)
    for xp, p in R.member_loads(name, factors)[0]:
        if abs(xp - x) <= 1e-9 * L:
            v += p
    return v


def internal_sides(R, name, factors, x):
    """Left-sum stress resultants (Fx,Fy,Fz,Mx,My,Mz) just before and just after station x."""
    L = R.mem[name]["L"]
    left = R.internal(name, x, -1) if x > 1e-9 * L else None
    right = R.internal(name, x, +1) if x < L * (1 - 1e-9) else None
    if left is None:
        left = np.array(right)
    if right is None:
        # loads at the far end have already been passed to the last element: undo them for the section just before the end
        right = np.array(left)
        left = left - point_loads_at(R, name, factors, x)
        return left, right
    return left, right + point_loads_at(R, name, factors, x)


def near_either(mon, kind, got, sides, tol, detail=""):
    """got must lie in the envelope of the given alternatives (both sides of a jump), elementwise."""
    got = np.asarray(got, float)
    sides = np.asarray(sides, float)
    want = np.clip(got, sides.min(axis=0), sides.max(axis=0))
    want = np.where(np.isnan(want), sides[0], want)
    return mon.near(kind, got, want, tol, detail)


def section_values(R, name, factors, x):
    """Reported (axial, Vy, Vz, T, My, Mz) that are right at station x: where loads, nodes or both sit at x, a section may
    be before or after each of them."""
    a, b = internal_sides(R, name, factors, x)
    p = point_loads_at(R, name, factors, x)
    return [reported_from_leftsum(v) for v in (a, b, a + p, b - p)]


class Noise:
    """Rounding-error scale of an analysed PyNite model, for comparing two runs of the code with each other (plates included).
    Skips (nearly) unstable models.  The stiffness matrix of the code under test is only used to size tolerances."""

    def __init__(self, m, s, cs, rel=1e-7, max_cond=1e9, K=None, skip=True):
        names = list(s["nodes"])
        n = 6 * len(names)
        kn = {}
        for q, sup in s["supports"].items():
            for d in range(6):
                if sup[d]:
                    kn[q, d] = 0.0
        for q, dof, v in s["enf"]:
            kn[q, S.DOFS.index(dof)] = v
        rot = np.array([(i % 6) >= 3 for i in range(n)])
        L = 1e-9 + max([np.linalg.norm(S.vec(s, d["i"]) - S.vec(s, d["j"])) for d in s["members"].values()]
                       + [np.linalg.norm(S.vec(s, d["i"]) - S.vec(s, d["m"])) for k in ("plates", "quads") for d in s[k].values()] + [0.0])
        t = rr = f = 0.0
        self.cond = 1.0
        kmax = dmax = 0.0
        for c in cs:
            K = np.asarray(m.K(c, False, False, False), float)
            F = np.asarray(m.P(c) - m.FER(c), float).ravel()
            order = [6 * m.nodes[q].ID + d for q in names for d in range(6)]
            K, F = K[np.ix_(order, order)], F[order]
            if not (np.all(np.isfinite(K)) and np.all(np.isfinite(F))):
                break
            # (loads that cancel still leave rounding errors)
            gr = 1e-6 * S.gross_load(s, m.load_combos[c].factors)
            Fa = np.maximum(np.abs(F), np.where(rot, gr * L, gr))
            k2 = np.array([6 * names.index(q) + d for q, d in kn], int)
            k1 = np.array(sorted(set(range(n)) - set(k2.tolist())), int)
            D2 = np.zeros(n)
            D2[k2] = list(kn.values())
            amp = np.abs(D2)
            if len(k1):
                A = K[np.ix_(k1, k1)]
                dg = np.abs(np.diag(A))
                rk = rot[k1]
                # (a diagonal that is left over from cancelling stiffnesses is rounding, not stiffness)
                if any(g.size and g.min() <= 1e-10 * g.max() for g in (dg[rk], dg[~rk])):
                    raise Skip("nearly unstable")
                sc = 1 / np.sqrt(dg)
                As = A * np.outer(sc, sc)
                cond = np.linalg.cond(As)
                if not np.isfinite(cond) or cond > max_cond:
                    if skip:
                        raise Skip("nearly unstable")
                    cond = max_cond
                self.cond = max(self.cond, cond)
                Ai = np.linalg.inv(As)
                amp[k1] = sc * (np.abs(Ai) @ (sc * (Fa[k1] + np.abs(K[np.ix_(k1, k2)]) @ np.abs(D2[k2]))))
            t = max(t, amp[~rot].max(initial=0), amp[rot].max(initial=0) * L)
            rr = max(rr, amp[rot].max(initial=0))
            f = max(f, gr, np.abs(F[~rot]).max(initial=0), np.abs(F[rot]).max(initial=0) / L)
            for mem in m.members.values():
                for sm in mem.sub_members.values():
                    if mem.active[c]:
                        e = np.abs(np.asarray(sm.f(c), float).ravel())
                        e = e[np.isfinite(e)] if not np.all(np.isfinite(e)) else e
                        if e.size == 12:
                            f = max(f, e[[0, 1, 2, 6, 7, 8]].max(), e[[3, 4, 5, 9, 10, 11]].max() / L)
            R = S.reactions(m, c, names)
            R = R[np.isfinite(R).all(axis=1)]
            if len(R):
                f = max(f, np.abs(R[:, :3]).max(), np.abs(R[:, 3:]).max() / L)
            kmax = max(kmax, np.abs(K[np.ix_(~rot, ~rot)]).max(initial=0))
            dmax = max(dmax, amp[~rot].max(initial=0))
        self.rel = rel + 300 * EPS * self.cond
        # deflection scale of the loads, should they all go straight into supports
        soft = [1 / (s["materials"][d["mat"]][0] * max(S.mprops(s, d)[1:3])) for d in s["members"].values()]
        soft += [1 / (s["materials"][d["mat"]][0] * d["t"] ** 3 * L) for k in ("plates", "quads") for d in s[k].values()]
        t = max(t, 1e-3 * f * L ** 3 * min(soft, default=0.0))
        self.t = self.rel * t + 1e-300
        self.r = self.rel * max(rr, t / L) + 1e-300
        self.f = self.rel * f + 50 * EPS * kmax * dmax + 1e-300
        self.m = self.f * L
        self.L = L
        self.fs = f
        self.elem = min_elem(s)

    def scale(self, k):
        self.t, self.r, self.f, self.m = self.t * k, self.r * k, self.f * k, self.m * k
        return self

    def disp(self):
        return np.array([self.t] * 3 + [self.r] * 3)

    def force(self):
        return np.array([self.f] * 3 + [self.m] * 3)


class Results:
    """Everything observable of one combination of an analysed model, keyed by spec names (names: spec name -> model name)."""

    def __init__(self, m, s, c, nm=None, mm=None, sm=None, em=None, members=True, plates=True, frac=(0.0, 0.3, 0.77), ends=True):
        nm, mm, sm, em = nm or {}, mm or {}, sm or {}, em or {}
        g = lambda d, k: d.get(k, k)
        names = list(s["nodes"])
        self.D = S.nodal(m, c, [g(nm, n) for n in names])
        self.R = S.reactions(m, c, [g(nm, n) for n in names])
        self.f, self.F, self.I, self.d, self.active = {}, {}, {}, {}, {}
        second = m.solution == "P-Delta"
        for n in s["members"] if members else ():
            mem = m.members[g(mm, n)]
            self.active[n] = bool(mem.active[c])
            L = S.member_len(s, n)
            if not self.active[n]:
                continue
            if ends:
                self.f[n] = np.asarray(mem.f(c), float).ravel()
            # (far beyond the critical load of a member its second-order shape is a matter of rounding)
            if second:
                A, Iy, Iz, J = S.mprops(s, s["members"][n])
                P = max(abs(float(mem.max_axial(c))), abs(float(mem.min_axial(c))))
                if P * L ** 2 > 10 * min(Iy, Iz) * s["materials"][s["members"][n]["mat"]][0]:
                    self.I[n] = self.d[n] = None
                    continue
            # (just beside the fractions, to stay clear of loads placed there)
            self.I[n] = np.array([query_internal(mem, (x * 0.999 + 0.00037) * L, c) for x in frac])
            self.d[n] = np.array([[float(mem.deflection(q, (x * 0.999 + 0.00037) * L, c)) for q in ("dx", "dy", "dz")] for x in frac])
        self.S = {}
        for n in s["springs"]:
            sp = m.springs[g(sm, n)]
            self.active["spring " + n] = bool(sp.active[c])
            self.S[n] = float(sp.axial(c))
        self.P, self.PF = {}, {}
        if plates:
            for n in s["quads"]:
                q = m.quads[g(em, n)]
                self.PF[n] = np.asarray(q.f(c), float).ravel()
                self.P[n] = np.concatenate([np.concatenate([np.ravel(q.moment(x, y, True, c)), np.ravel(q.shear(x, y, True, c)),
                                                            q.t * np.ravel(q.membrane(x, y, True, c))]) for x, y in ((0, 0), (0.5, -0.3))])
            for n in s["plates"]:
                q = m.plates[g(em, n)]
                self.PF[n] = np.asarray(q.f(c), float).ravel()
                w, h = q.width(), q.height()
                self.P[n] = np.concatenate([np.concatenate([np.ravel(q.moment(x * w, y * h, True, c)), np.ravel(q.shear(x * w, y * h, True, c)),
                                                            q.t * np.ravel(q.membrane(x * w, y * h, True, c))]) for x, y in ((0.5, 0.5), (0.2, 0.7))])

    def flat(self):
        out = dict(D=self.D, R=self.R)
        for k in ("f", "I", "d", "P", "PF"):
            for n, v in getattr(self, k).items():
                out[k, n] = v
        for n, v in self.S.items():
            out["S", n] = np.array([v])
        return out


def tol_for(key, N, span=1.0):
    """Tolerance arrays for the entries of Results.flat()."""
    k = key if isinstance(key, str) else key[0]
    if k == "D":
        return N.disp()
    if k == "R":
        return N.force()
    if k == "f":
        return np.tile(N.force(), 2)
    if k == "I":
        return np.array([N.f, N.f, N.f, N.m, N.m, N.m]) * 10
    if k == "d":
        return N.t * 20
    if k == "S":
        return N.f * 5
    if k == "PF":
        return np.tile(N.force(), 4) * 5
    if k == "P":
        a, b = 20 * max(N.f, N.m / N.elem), 20 * max(N.f / N.elem, N.m / N.elem ** 2)
        return np.array(([a] * 3 + [b] * 5) * 2)
    raise KeyError(k)


def min_elem(s):
    l = [np.linalg.norm(S.vec(s, d[a]) - S.vec(s, d[b])) for k in ("plates", "quads") for d in s[k].values() for a, b in ("ij", "jm", "mn", "ni")]
    return min(l) if l else 1.0


def same(mon, kind, A, B, N, detail, keys=None):
    """Compare two Results.flat() dictionaries."""
    ok = True
    for k in A:
        if keys is not None and (k if isinstance(k, str) else k[0]) not in keys:
            continue
        if k not in B:
            mon.fail(kind, f"{detail} {k} missing")
            ok = False
            continue
        if A[k] is None or B[k] is None:
            continue
        ok &= mon.near(kind, B[k], A[k], tol_for(k, N), lambda: f"{detail} {k}")
    return ok
