"""C03: member end forces agree with the reference and balance at every joint."""
from ..core import check
from .. import gen, spec as S
from ..common import *


@check("C03", rule="random spatial frames as in C02; for every member and combination the reported end forces are compared with an independent solver, "
       "the member is checked to be in equilibrium under its loads and end forces, and at every joint the global end forces of members, springs and supports "
       "are summed against the applied nodal loads; non-trivial when the reference is well conditioned",
       quick=7000, needs=("end forces", "member equilibrium", "joint equilibrium"))
def case(r, mon, i):
    s, u = gen.frame(r)
    mon.case(s)
    m = S.build(s, perm=r if r.random() < 0.5 else None)
    how = None
    interior = {n for name in s["members"] for _, n in S.interior_nodes(s, name)}
    for c, f in combos(s).items():
        R = reference(s, f)
        if how is None:
            how = analyze(m, r)
        T = Tol(R)
        tol12 = np.concatenate([T.force(), T.force()])
        bal = {n: np.zeros(6) for n in s["nodes"]}
        for name, d in s["members"].items():
            mem = m.members[name]
            fl = np.array(mem.f(c), float).reshape(12)
            mon.near("end forces", fl, R.member_end_forces(name), tol12, lambda: f"{name} {c} local end forces")
            Tm = S.member_axes(s, name)
            fg = np.array(mem.F(c), float).reshape(12)
            want = np.concatenate([Tm.T @ fl[3 * k:3 * k + 3] for k in range(4)])
            mon.near("global end forces", fg, want, np.concatenate([[T.f] * 3, [T.m] * 3] * 2), lambda: f"{name} {c} global end forces")
            if d["i"] not in interior and d["j"] not in interior and not S.interior_nodes(s, name):
                # free-body equilibrium of the member about its i end
                one = S.clone(s)
                one["nload"] = []
                one["mpt"] = [l for l in s["mpt"] if l[0] == name]
                one["mdist"] = [l for l in s["mdist"] if l[0] == name]
                one["members"] = {name: d}
                Fa, Ma, _ = S.applied_resultant(one, f, about=S.vec(s, d["i"]))
                lever = S.vec(s, d["j"]) - S.vec(s, d["i"])
                mon.near("member equilibrium", fg[:3] + fg[6:9] + Fa, 0, T.f * 4, lambda: f"{name} {c} forces")
                mon.near("member equilibrium", fg[3:6] + fg[9:] + Ma + np.cross(lever, fg[6:9]), 0, T.m * 4, lambda: f"{name} {c} moments")
            bal[d["i"]] -= fg[:6]
            bal[d["j"]] -= fg[6:]
        for name, d in s["springs"].items():
            Fs = np.array(m.springs[name].F(c), float).reshape(12)
            bal[d["i"]] -= Fs[:6]
            bal[d["j"]] -= Fs[6:]
        for n, dd, P, cs in s["nload"]:
            bal[n][S.FDIR.index(dd)] += P * f.get(cs, 0)
        rx = S.reactions(m, c, list(s["nodes"]))
        for k, n in enumerate(s["nodes"]):
            if n in interior:
                continue
            mon.near("joint equilibrium", bal[n] + rx[k], 0, T.force() * 10, lambda: f"joint {n} {c}")
    mon.sig(frame_sig(s, how))
