"""C23: energy theorems."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *


def nodal_set(r, s, u, case):
    out = []
    for n in r.sample(list(s["nodes"]), min(len(s["nodes"]), r.choice([1, 1, 2, 3]))):
        for d in r.sample(S.FDIR, r.choice([1, 1, 2])):
            out.append([n, d, gen.sgn(r) * gen.rnd(r, 0.2, 2) * u["F"] * (u["Ls"] / 4 if d[0] == "M" else 1), case])
    return out


def vecF(s, names, case):
    F = np.zeros((len(names), 6))
    for n, d, p, c in s["nload"]:
        if c == case:
            F[names.index(n), S.FDIR.index(d)] += p
    return F


def elements(m, c):
    for n, e in m.springs.items():
        yield "spring " + n, np.ravel(e.F(c)), [e.i_node, e.j_node]
    for n, p in m.members.items():
        for q, e in p.sub_members.items():
            yield f"member {n} part {q}", np.ravel(e.F(c)), [e.i_node, e.j_node]
    for n, e in m.quads.items():
        yield "quad " + n, np.ravel(e.F(c)), [e.i_node, e.j_node, e.m_node, e.n_node]
    for n, e in m.plates.items():
        yield "plate " + n, np.ravel(e.F(c)), [e.i_node, e.j_node, e.m_node, e.n_node]


def work(F, D):
    return float(np.sum(F * D)), float(np.sum(np.abs(F) * np.abs(D)))


@check("C23", rule="random frames and slabs (rectangular plates or skewed quads, beams, columns, springs, support springs, releases) under two sets of nodal loads and separate support settlements: Betti's and Maxwell's reciprocity between "
       "the load sets, between loads and settlements and between settlements; external work against the strain energy of the elements' end forces; no element with negative strain energy; extra stiffness never makes "
       "the loads do more work",
       quick=1200, needs=("reciprocal work", "reciprocal settlement", "reciprocal reactions", "work equals strain energy", "strain energy", "stiffening", "plate model"))
def case(r, mon, i):
    if r.random() < 0.55:
        s, u = gen.frame(r, loads=False, enf=0)
        kind = "frame"
    else:
        s, u, info = genp.slab(r, loads=False)
        kind = info["kind"]
        mon.ev("plate model")
    s["enf"] = []
    names = list(s["nodes"])
    s["nload"] = nodal_set(r, s, u, "A") + nodal_set(r, s, u, "B")
    s["combos"] = {"A": [{"A": 1.0}, None], "B": [{"B": 1.0}, None]}
    mon.case(s)
    m = S.build(s, perm=r if r.random() < 0.3 else None)
    how = analyze_or_skip(m, r)
    N = Noise(m, s, ["A", "B"])
    rel = 10 * N.rel
    D = {c: S.nodal(m, c, names) for c in "AB"}
    R = {c: S.reactions(m, c, names) for c in "AB"}
    F = {c: vecF(s, names, c) for c in "AB"}
    sc = np.sqrt(abs(work(F["A"], D["A"])[0] * work(F["B"], D["B"])[0]))

    def noise(Fc):
        return N.t * np.abs(Fc[:, :3]).sum() + N.r * np.abs(Fc[:, 3:]).sum()

    w1, a1 = work(F["A"], D["B"])
    w2, a2 = work(F["B"], D["A"])
    mon.near("reciprocal work", w1, w2, 10 * (noise(F["A"]) + noise(F["B"])) + rel * (a1 + a2), lambda: f"{kind} loads A on displacements B")
    if abs(w1) > 1e-3 * sc:
        mon.ev("reciprocal work that isn't zero")
    W0 = {}
    for c in "AB":
        W0[c] = w0 = work(F[c], D[c])[0]
        en = sum(l[2] * D[c][names.index(l[0]), S.DOFS.index(l[1])] ** 2 for l in s["spsup"] if not (l[0] in s["supports"] and s["supports"][l[0]][S.DOFS.index(l[1])]))
        parts = []
        for nm, f, nodes in elements(m, c):
            d = np.concatenate([[getattr(q, a)[c] for a in S.DOFS] for q in nodes])
            e, ea = work(f, d)
            parts.append((nm, e, ea))
        eps = 10 * noise(F[c]) + N.rel * sum(p[2] for p in parts) + 100 * N.f * N.t / max(N.rel, 1e-16)
        for nm, e, ea in parts:
            mon.true("strain energy", e >= -eps, lambda: f"{kind} {nm} {c}: strain energy {e / 2}")
        # (weak drilling springs of a plate are its own: they are part of its end forces)
        mon.near("work equals strain energy", sum(p[1] for p in parts) + en, w0, eps, lambda: f"{kind} {c}")
    # settlements
    held = [(n, q) for n, v in s["supports"].items() for q in range(6) if v[q]]
    if held:
        pick = r.sample(held, min(2, len(held)))
        Rs = []
        for n, q in pick:
            s2 = S.clone(s)
            s2["nload"] = []
            dv = u["Ls"] * 1e-3 if q < 3 else 1e-3
            s2["enf"] = [[n, S.DOFS[q], dv]]
            s2["combos"] = {"Z": [{"Case 1": 1.0}, None]}
            m2 = S.build(s2)
            analyze_or_skip(m2, r)
            N2 = Noise(m2, s2, ["Z"])
            Dz, Rz = S.nodal(m2, "Z", names), S.reactions(m2, "Z", names)
            Rs.append((n, q, dv, Dz, Rz, N2))
            for c in "AB":
                w, a = work(F[c], Dz)
                if np.any(F[c][names.index(n), q]):
                    # (a load straight on the support moves with it, and is taken off the reaction)
                    pass
                Rx = R[c][names.index(n), q]
                tol = 10 * (N2.t * np.abs(F[c][:, :3]).sum() + N2.r * np.abs(F[c][:, 3:]).sum() + (N.f if q < 3 else N.m) * dv) + rel * a
                mon.near("reciprocal settlement", w, -Rx * dv, tol, lambda: f"{kind} load {c}, settlement of {n} {S.DOFS[q]}")
        if len(Rs) == 2:
            (n1, q1, d1, _, R1, N1), (n2, q2, d2, _, R2, N2) = Rs
            a, b = R1[names.index(n2), q2] * d2, R2[names.index(n1), q1] * d1
            mon.near("reciprocal reactions", a, b, 20 * ((N1.f if q2 < 3 else N1.m) * d2 + (N2.f if q1 < 3 else N2.m) * d1) + rel * (abs(a) + abs(b)), lambda: f"{kind} settlements of {n1} {S.DOFS[q1]} and {n2} {S.DOFS[q2]}")
    # stiffening
    s3 = S.clone(s)
    k = r.choice(["support", "spring", "member", "thicker", "support spring"])
    if k == "support":
        s3["supports"].setdefault(r.choice(names), [0] * 6)
        n = r.choice(list(s3["supports"]))
        s3["supports"][n] = [int(v or r.random() < 0.5) for v in s3["supports"][n]]
    elif k == "spring" and len(names) > 1:
        a, b = r.sample(names, 2)
        s3["springs"]["extra"] = dict(i=a, j=b, ks=u["E"] * u["I"] / u["Ls"] ** 3 * gen.rnd(r, 1, 50), t=False, c=False)
    elif k == "support spring":
        n, d = r.choice(names), r.choice(S.DOFS)
        if not any(l[0] == n and l[1] == d for l in s3["spsup"]):
            s3["spsup"].append([n, d, u["E"] * u["I"] / u["Ls"] ** 3 * gen.rnd(r, 1, 50) * (1 if d[0] == "D" else u["Ls"] ** 2), None])
    elif k == "member" and len(names) > 1 and not s3["members"] and False:
        pass
    else:
        f = 1 + r.random()
        for d in list(s3["members"].values()):
            for q in ("Iy", "Iz", "A", "J"):
                d[q] *= f
        for d in list(s3["plates"].values()) + list(s3["quads"].values()):
            d["t"] *= f
    m3 = S.build(s3)
    analyze_or_skip(m3, r)
    for c in "AB":
        w = work(F[c], S.nodal(m3, c, names))[0]
        mon.true("stiffening", w <= W0[c] + 20 * noise(F[c]) + rel * abs(W0[c]), lambda: f"{kind} {c}: {k} raises the work of the loads from {W0[c]} to {w}")
    mon.sig(kind, k, frame_sig(s, how), len(s["plates"]), len(s["quads"]))
