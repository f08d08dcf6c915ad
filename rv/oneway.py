"""Simulation of the documented one-way iteration on the independent reference solver.

All one-way elements start active; after each solution, tension-only (compression-only) elements found in compression
(tension) are removed for good, and one-way support springs are switched by the direction their node moves."""
import numpy as np
from . import spec as S, ref


class Border(Exception):
    """A decision was within rounding error: no unique answer."""


def axial_range(R, n, pts_nodes=()):
    """Exact extremes of the axial force (compression positive) along a member, and of ambiguous sections at nodes."""
    mm = R.mem[n]
    lo, hi = np.inf, -np.inf
    els = mm["els"]
    pts, dist = R.member_loads(n, R.factors)
    for q, e in enumerate(els):
        v = R.el_end_forces(n, q)
        a, b = v[0], -v[6]
        l = e["l"]
        # distributed axial load on this element, linear: w(x)
        wa = wb = 0.0
        for x1, x2, w1, w2 in dist:
            xa, xb = max(x1, e["xa"]), min(x2, e["xb"])
            if xb - xa <= 1e-9 * l or x2 <= x1:
                continue
            g = lambda x: w1[0] + (w2[0] - w1[0]) * (x - x1) / (x2 - x1)
            wa, wb = wa + g(xa), wb + g(xb)
        # loads exactly at the end of the member are already in the end force: move back before them
        if q == len(els) - 1:
            for xp, p in pts:
                if abs(xp - mm["L"]) < 1e-9 * mm["L"]:
                    b -= p[0]
        if q == 0 or True:
            for xp, p in pts:
                if abs(xp - e["xa"]) < 1e-9 * mm["L"]:
                    a = a + p[0]
        # axial(x) = a + integral of w
        c = [a, b]
        if wa * wb < 0:
            t = wa / (wa - wb)
            c.append(a + wa * t * l / 2)
        lo, hi = min([lo] + c), max([hi] + c)
    return lo, hi


def ambiguous(R, n):
    from .common import section_values
    L = R.mem[n]["L"]
    nodes = [0.0, L] + [x for x, _ in S.interior_nodes(R.s, n)]
    out = []
    for l in R.s["mpt"]:
        if l[0] == n and min(abs(l[3] - x) for x in nodes) < 1e-9 * L:
            out += [v[0] for v in section_values(R, n, R.factors, l[3])]
    return out


def simulate(s, factors, max_iter=30, stol=0.0, mtol=0.0, max_cond=1e9, stations=None, border=1e-6):
    """Returns (outcome, R, inactive, inactive_sup, iterations); outcome is converged, diverged or singular."""
    inactive, lifted = set(), set()
    cnt = 1
    while True:
        R = ref.RefModel(s, stations, inactive=inactive, inactive_sup=lifted)
        try:
            R.solve(factors, max_cond=max_cond)
        except ref.Singular:
            return "singular", None, inactive, lifted, cnt
        R.factors = factors
        conv = True
        L = max([m["L"] for m in R.mem.values()] + [1e-9])
        amp = R.amp[:6 * len(R.names)].reshape(-1, 6)
        fs = max([np.abs(R.F).max()] + [np.abs(R.el_end_forces(n, q)[[0, 1, 2, 6, 7, 8]]).max() for n in R.mem if ("m", n) not in inactive for q in range(len(R.mem[n]["els"]))])
        # (the stiffness forces from rigid motions cancel only to within rounding)
        move = max(amp[:, :3].max(), L * amp[:, 3:].max())
        fs = max([fs] + [1e-6 * move * s["materials"][d["mat"]][0] * S.mprops(s, d)[0] / S.member_len(s, n) for n, d in s["members"].items() if ("m", n) not in inactive])
        new_l, new_i = set(lifted), set(inactive)
        for n, dof, k, dr in s["spsup"]:
            if not dr:
                continue
            q = S.DOFS.index(dof)
            d = R.node_disp()[R.idx[n], q]
            lim = stol if dr == "+" else -stol
            sc = amp[:, :3].max() if q < 3 else amp[:, 3:].max()
            if abs(d - lim) < border * sc and not (sc == 0 and stol == 0):
                raise Border()
            act = d >= stol if dr == "+" else d <= -stol
            if act == ((n, dof) in lifted):
                conv = False
                (new_l.discard if act else new_l.add)((n, dof))
        for n, d in s["springs"].items():
            if ("s", n) in inactive or not (d["t"] or d["c"]):
                continue
            a, b = S.vec(s, d["i"]), S.vec(s, d["j"])
            u = (b - a) / np.linalg.norm(b - a)
            nd = R.node_disp()
            ax = -d["ks"] * float(u @ (nd[R.idx[d["j"]], :3] - nd[R.idx[d["i"]], :3]))
            kill = (d["t"] and ax > stol) or (d["c"] and ax < -stol)
            for lim in ([stol] if d["t"] else []) + ([-stol] if d["c"] else []):
                if abs(ax - lim) < border * max(fs, d["ks"] * amp[:, :3].max() * 1e-6):
                    raise Border()
            if kill:
                conv = False
                new_i.add(("s", n))
        for n, d in s["members"].items():
            if ("m", n) in inactive or not (d["t"] or d["c"]):
                continue
            lo, hi = axial_range(R, n)
            am = ambiguous(R, n)
            if d["t"]:
                k1 = hi > mtol
                if any((max(hi, v) > mtol) != k1 for v in am) or abs(hi - mtol) < border * fs:
                    raise Border()
            else:
                k1 = lo < -mtol
                if any((min(lo, v) < -mtol) != k1 for v in am) or abs(lo + mtol) < border * fs:
                    raise Border()
            if k1:
                conv = False
                new_i.add(("m", n))
        if conv:
            return "converged", R, inactive, lifted, cnt
        inactive, lifted = new_i, new_l
        cnt += 1
        if cnt > max_iter:
            return "diverged", None, inactive, lifted, cnt


def borderline(s, factor_sets, **kw):
    """Would some decision of the one-way iteration be within rounding error for one of these combinations?"""
    for f in factor_sets:
        try:
            if simulate(s, f, **kw)[0] == "singular":
                return True
        except Border:
            return True
    return False
