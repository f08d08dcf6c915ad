"""C15: supports, support springs and enforced displacements do exactly what they say."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *


def hold(mon, m, s, c, N, what, one=()):
    """Displacements at supports, and where reactions may appear."""
    kn = {(n, q): 0.0 for n, v in s["supports"].items() for q in range(6) if v[q]}
    sup = set(kn)
    for n, dof, v in s["enf"]:
        kn[n, S.DOFS.index(dof)] = v
    sp = {}
    for n, dof, k, dr in s["spsup"]:
        sp[n, S.DOFS.index(dof)] = (k, dr)
    for n in s["nodes"]:
        D, R = S.nodal(m, c, [n])[0], S.reactions(m, c, [n])[0]
        for q in range(6):
            if (n, q) in kn:
                mon.true("support displacement", D[q] == kn[n, q], lambda: f"{what} {c}: {S.DOFS[q]} at {n} is {D[q]!r}, support holds it at {kn[n, q]!r}")
            if (n, q) not in sup and (n, q) not in sp:
                mon.true("reaction only at supports", R[q] == 0, lambda: f"{what} {c}: {S.RXN[q]} at {n} is {R[q]!r} without a support there")
            elif (n, q) not in sup:
                k, dr = sp[n, q]
                tol = (N.f if q < 3 else N.m) + k * (N.t if q < 3 else N.r) * 1e-3
                if dr is None:
                    mon.near("support spring reaction", R[q], -k * D[q], tol, lambda: f"{what} {c}: {S.RXN[q]} at {n}, spring {k} displaced {D[q]!r}")
                else:
                    on = D[q] >= 0 if dr == "+" else D[q] <= 0
                    # a one-way spring pushes back in its own direction only
                    mon.near("support spring reaction", R[q], -k * D[q] if on else 0.0, tol, lambda: f"{what} {c}: {S.RXN[q]} at {n}, spring {k} acting in {dr} displaced {D[q]!r}")


@check("C15", rule="random frames (one-way support springs included) and slabs with supports, settlements and support springs, through every entry point; supported and displaced degrees of freedom must have exactly the given "
       "displacement, reactions appear only at supports, springs give -k d; supports replaced by their reactions, support springs replaced by spring elements to the ground, settlements given to unsupported "
       "degrees of freedom, and supports redefined several times must leave the results the same",
       quick=900, needs=("support displacement", "reaction only at supports", "support spring reaction", "support replaced by its reaction", "spring element for support spring", "redefined supports", "displacement without support"))
def case(r, mon, i):
    k = r.random()
    ow = False
    if k < 0.5:
        s, u = gen.frame(r, spsup=0.7, enf=0.5)
    elif k < 0.7:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([1, 2, 3]))
        ow = True
    else:
        s, u, info = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
        sup = [(n, q) for n, v in s["supports"].items() for q in range(3) if v[q]]
        if sup and r.random() < 0.5:
            for n, q in r.sample(sup, min(2, len(sup))):
                s["enf"].append([n, S.DOFS[q], gen.sgn(r) * info["t"] * gen.rnd(r, 0.05, 0.5)])
        if r.random() < 0.4:
            for n in r.sample(list(s["nodes"]), 2):
                if not any(l[0] == n for l in s["spsup"]):
                    s["spsup"].append([n, r.choice(S.DOFS[:3]), u["E"] * info["t"] ** 3 / u["Ls"] ** 2 * gen.rnd(r, 0.05, 1), None])
    mon.case(s)
    cs = list(combos(s))
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    how = "analyze" if ow else r.choice(["analyze", "linear", "pdelta"])
    m = S.build(s, perm=r if r.random() < 0.3 else None)
    analyze_or_skip(m, r, how, oneway=True)
    N = Noise(m, s, cs)
    for c in cs:
        hold(mon, m, s, c, N, how)
    base = {c: Results(m, s, c).flat() for c in cs}

    def again(s2, what, rm=(), perm=None, model=None, nr=None, scale=1):
        """Solve a variant and compare; rm: reactions not compared."""
        m2 = model or S.build(s2)
        try:
            analyze(m2, r, how)
        except Exception as e:
            if "singular" in str(e) or "Unstable" in str(e) or "diverged" in str(e):
                return None
            raise
        try:
            N2 = Noise(m2, s2, list(combos(s2)))
        except Skip:
            return None
        N2.t, N2.r, N2.f, N2.m = (max(a, b) for a, b in zip((N2.t, N2.r, N2.f, N2.m), (N.t, N.r, N.f, N.m)))
        return m2, N2.scale(scale)

    # --- supports redefined: only the last definition counts
    m2 = S.build(dict(s, supports={}, spsup=[], enf=[]))
    for n in list(s["nodes"]):
        if r.random() < 0.4:
            m2.def_support(n, *[r.random() < 0.5 for _ in range(6)])
    for n in list(s["nodes"]):
        v = s["supports"].get(n, [0] * 6)
        if r.random() < 0.5:
            m2.def_support(n, *[bool(x) for x in v])
        else:
            m2.def_support(n, **{f"support_{S.DOFS[q]}": True for q in range(6) if v[q]})
    for n, dof, kk, dr in s["spsup"]:
        if r.random() < 0.5:
            m2.def_support_spring(n, dof, kk * 3, r.choice(["+", "-", None]))
        m2.def_support_spring(n, dof, kk, dr)
    for n, dof, v in s["enf"]:
        if r.random() < 0.5:
            m2.def_node_disp(n, dof, v + 1)
        m2.def_node_disp(n, dof, v)
    o = again(s, "redefined", model=m2)
    if mon.true("redefined supports", o is not None, "fails with supports defined more than once"):
        for c in cs:
            same(mon, "redefined supports", base[c], Results(m2, s, c).flat(), N, f"{c} ({how}) supports defined more than once")
    # --- settlement at a degree of freedom that is not flagged as supported
    if s["enf"] and not ow:
        s3 = S.clone(s)
        n, dof, v = r.choice(s["enf"])
        q = S.DOFS.index(dof)
        s3["supports"][n][q] = 0
        o = again(s3, "unflagged")
        if o:
            for c in cs:
                fb = dict(base[c])
                fa = Results(o[0], s, c).flat()
                j = list(s["nodes"]).index(n)
                fb["R"], fa["R"] = fb["R"].copy(), fa["R"].copy()
                fb["R"][j, q] = fa["R"][j, q] = 0        # (no reaction is reported where no support is declared)
                same(mon, "displacement without support", fb, fa, o[1], f"{c} ({how}) {dof} of {n} enforced without support")
    # --- a zero settlement holds a degree of freedom just like a support
    free = [(n, q) for n in s["nodes"] for q in range(6) if not s["supports"].get(n, [0] * 6)[q] and not any(l[0] == n and l[1] == S.DOFS[q] for l in s["enf"])]
    if free and not ow:
        n, q = r.choice(free)
        a, b = S.clone(s), S.clone(s)
        a["supports"].setdefault(n, [0] * 6)[q] = 1
        b["enf"].append([n, S.DOFS[q], r.choice([0.0, 0])])
        oa, ob = again(a, "held"), again(b, "held")
        if oa and mon.true("zero settlement holds", ob is not None, lambda: f"({how}) fails with {S.DOFS[q]} at {n} enforced to be zero"):
            j = list(s["nodes"]).index(n)
            for c in cs:
                fb, fa = Results(oa[0], s, c).flat(), Results(ob[0], s, c).flat()
                fb["R"][j, q] = fa["R"][j, q] = 0
                same(mon, "zero settlement holds", fb, fa, oa[1], f"{c} ({how}) {S.DOFS[q]} at {n} enforced to be zero")
    # --- replace a support by its reaction
    sup = [(n, q) for n, v in s["supports"].items() for q in range(6) if v[q] and (n, S.DOFS[q]) not in {(l[0], l[1]) for l in s["spsup"]}]
    if sup and not ow and how != "pdelta":
        n, q = r.choice(sup)
        c = r.choice(cs)
        s4 = S.clone(s)
        s4["supports"][n][q] = 0
        s4["enf"] = [l for l in s4["enf"] if not (l[0] == n and l[1] == S.DOFS[q])]
        Rv = float(S.reactions(m, c, [n])[0][q])
        s4["combos"] = {c: [dict(combos(s)[c], RXN=1.0), None]}
        s4["nload"].append([n, S.FDIR[q], Rv, "RXN"])
        o = again(s4, "replaced", scale=20)
        if o and o[1].cond < 1e5:
            fb, fa = dict(base[c]), Results(o[0], s, c).flat()
            j = list(s["nodes"]).index(n)
            fb["R"], fa["R"] = fb["R"].copy(), fa["R"].copy()
            fb["R"][j, q] = 0
            same(mon, "support replaced by its reaction", fb, fa, o[1], f"{c} ({how}) {S.DOFS[q]} at {n} replaced by its reaction {Rv!r}")
    # --- replace a support spring by a spring element to the ground
    cand = [l for l in s["spsup"] if l[1][0] == "D" and l[3] is None]
    if cand and not ow and how != "pdelta":
        s5 = S.clone(s)
        l = r.choice(cand)
        n, dof, kk, _ = l
        q = S.DOFS.index(dof)
        s5["spsup"] = [x for x in s5["spsup"] if x != l]
        p = S.vec(s, n)
        ext = max(np.ptp(np.array(list(s["nodes"].values())), axis=0).max(), u["Ls"])
        sg = r.choice([-1, 1])
        p[q] += sg * ext * 2.37
        s5["nodes"]["GND"] = [float(v) for v in p]
        s5["supports"]["GND"] = [1] * 6
        a, b = ("GND", n) if r.random() < 0.5 else (n, "GND")
        s5["springs"]["GS"] = dict(i=a, j=b, ks=kk, t=False, c=False)
        o = again(s5, "spring")
        if o:
            for c in cs:
                fb, fa = dict(base[c]), Results(o[0], s, c).flat()
                j = list(s["nodes"]).index(n)
                rg = S.reactions(o[0], c, ["GND"])[0]
                fb["R"], fa["R"] = fb["R"].copy(), fa["R"].copy()
                fa["R"][j] += rg          # the ground's reaction stands in for the support spring's
                same(mon, "spring element for support spring", fb, fa, o[1], f"{c} ({how}) support spring {l} replaced by an element")
                d = float(S.nodal(o[0], c, [n])[0][q])
                mon.near("spring element for support spring", float(o[0].springs["GS"].axial(c)), kk * d * sg, 5 * o[1].f, lambda: f"{c} axial force of the spring, node moves {d}")
    mon.sig(frame_sig(s, how), len(s["plates"]), len(s["quads"]))
