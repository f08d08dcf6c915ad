"""C13: one-way members, springs and supports."""
from ..core import check
from .. import gen, spec as S, oneway
from ..common import *


def brace_bay(r):
    """Frames with crossed one-way braces, the classic use."""
    s, u = gen.base(r)
    H, W = u["Ls"], u["Ls"] * r.choice([1.0, 1.3, 0.8])
    nb, ns = r.choice([1, 2]), r.choice([1, 2])
    mat = list(s["materials"])[0]
    for i in range(nb + 1):
        for j in range(ns + 1):
            s["nodes"][f"N{i}{j}"] = [i * W, j * H, 0.0]
    mem = lambda a, b, **k: dict(i=a, j=b, mat=mat, t=False, c=False, aux=None, rel=[0] * 12, **gen.props(r, u)) | k
    pin = [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1]
    k = 0
    for i in range(nb + 1):
        s["supports"][f"N{i}0"] = [1, 1, 1, 1, 1, 1] if r.random() < 0.5 else [1, 1, 1, 0, 1, 0]
        for j in range(ns):
            s["members"][f"C{i}{j}"] = mem(f"N{i}{j}", f"N{i}{j + 1}")
            if i:
                s["members"][f"B{i}{j}"] = mem(f"N{i - 1}{j + 1}", f"N{i}{j + 1}", rel=list(pin) if r.random() < 0.3 else [0] * 12)
    for i in range(nb):
        for j in range(ns):
            kind = r.choice(["t", "t", "c", "mixed"])
            for a, b in ((f"N{i}{j}", f"N{i + 1}{j + 1}"), (f"N{i + 1}{j}", f"N{i}{j + 1}")):
                k += 1
                t = kind == "t" or (kind == "mixed" and r.random() < 0.5)
                if r.random() < 0.5:
                    a, b = b, a
                if r.random() < 0.3:
                    s["springs"][f"S{k}"] = dict(i=a, j=b, ks=u["E"] * u["A"] / H * gen.rnd(r, 0.05, 0.5), t=t, c=not t)
                else:
                    s["members"][f"X{k}"] = mem(a, b, t=t, c=not t, rel=list(pin) if r.random() < 0.7 else [0] * 12)
    if r.random() < 0.4:
        # crossing braces joined, or framed into, part way along
        for b in [n for n in s["members"] if n[0] == "X"]:
            if r.random() < 0.6:
                d = s["members"][b]
                p = S.vec(s, d["i"]) + (S.vec(s, d["j"]) - S.vec(s, d["i"])) * r.choice([0.5, 0.5, 0.3, 0.7])
                nm = "M" + b
                if not any(np.linalg.norm(p - S.vec(s, q)) < 1e-6 * H for q in s["nodes"]):
                    s["nodes"][nm] = [float(x) for x in p]
                    if r.random() < 0.5:
                        s["nload"].append([nm, r.choice(["FX", "FY", "FZ"]), gen.sgn(r) * gen.rnd(r, 0.05, 0.5) * u["F"], r.choice(gen.CASES)])
    if r.random() < 0.4:
        for i in range(nb + 1):
            s["supports"][f"N{i}0"] = [1, 0, 1, 1, 1, 1] if r.random() < 0.7 else s["supports"][f"N{i}0"]
            if not s["supports"][f"N{i}0"][1]:
                s["spsup"].append([f"N{i}0", "DY", u["E"] * u["A"] / H * gen.rnd(r, 0.05, 0.5), r.choice("--+")])
    for n in s["nodes"]:
        if n[-1] != "0" and n[0] == "N":
            for d in ("FX", "FY", "FZ", "MZ"):
                if r.random() < 0.4:
                    s["nload"].append([n, d, gen.sgn(r) * gen.rnd(r, 0.2, 2) * u["F"], r.choice(gen.CASES)])
    gen.add_member_loads(r, s, u, n=r.randint(0, 3))
    if r.random() < 0.2:
        s["sw"].append(["FY", -1.0, "D"])
    gen.add_combos(r, s, n=r.choice([1, 2, 3]))
    if not s["nload"]:
        s["nload"].append(["N01", "FX", u["F"], "W"])
    return s, u


@check("C13", rule="braced bays with crossed tension-only or compression-only members and springs, uplift supports, and random frames with one-way elements, in several combinations and with random tolerances; "
       "the documented iteration is simulated on the independent solver (cases whose decisions fall within rounding are left out), and the reported active states, displacements, reactions, member end forces, "
       "force diagrams, deflections and spring forces are compared with it; active one-way elements must not carry force of the wrong sign, inactive ones must report none",
       quick=3000, needs=("active state", "displacement", "reaction", "wrong-sign force", "inactive force", "internal force", "some element was deactivated", "divergence reported", "several iterations", "support springs lifted"))
def case(r, mon, i):
    s, u = brace_bay(r) if r.random() < 0.6 else gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4, 5]), releases=0.2)
    fs = max(abs(l[2]) for l in s["nload"] + s["mpt"] + s["mdist"]) if (s["nload"] or s["mpt"] or s["mdist"]) else 1.0
    stol = mtol = 0.0
    if r.random() < 0.25:
        mtol = fs * r.uniform(0, 0.5)
    if r.random() < 0.15 and not any(l[3] for l in s["spsup"]):
        stol = fs * r.uniform(0, 0.5)
    mi = r.choice([30, 30, 30, 2, 1])
    mon.case(dict(s, stol=stol, mtol=mtol, max_iter=mi))
    sims = {}
    st = {n: stations(r, s, n, 2)[0] for n in s["members"]}
    for c, f in combos(s).items():
        try:
            sims[c] = oneway.simulate(s, f, stol=stol, mtol=mtol, max_iter=mi, stations=st)
        except oneway.Border:
            mon.skip("a one-way decision is within rounding error")
    m = S.build(s, perm=r if r.random() < 0.5 else None)
    out = {v[0] for v in sims.values()}
    if "singular" in out:
        mon.skip("unstable with the elements that remain")
    try:
        m.analyze(sparse=r.random() < 0.75, max_iter=mi, spring_tolerance=stol, member_tolerance=mtol)
        got = "converged"
    except Exception as e:
        if "diverged" not in str(e):
            raise
        got = "diverged"
    if "diverged" in out:
        mon.true("divergence reported", got == "diverged", lambda: f"max_iter={mi} reached, but the analysis did not report divergence")
        return
    if not mon.true("convergence", got == "converged", lambda: f"reported divergence, although it converges in {[v[4] for v in sims.values()]} iterations (max_iter={mi})"):
        return
    for c, (o, R, inact, lifted, cnt) in sims.items():
        T = Tol(R)
        if cnt > 2:
            mon.ev("several iterations")
        if inact:
            mon.ev("some element was deactivated")
        if lifted:
            mon.ev("support springs lifted")
        for n, d in s["members"].items():
            mon.true("active state", bool(m.members[n].active[c]) == (("m", n) not in inact), lambda: f"member {n} {c}: active is {m.members[n].active[c]}, expected {('m', n) not in inact}")
            mem = m.members[n]
            L = S.member_len(s, n)
            xs = [L * q for q in (0.0, 0.13, 0.5, 0.81, 1.0)]
            if ("m", n) in inact:
                v = [float(mem.axial(x, c)) for x in xs] + [mem.max_axial(c), mem.min_axial(c)] + [float(mem.shear(q, 0.4 * L, c)) for q in ("Fy", "Fz")] + \
                    [float(mem.moment(q, 0.4 * L, c)) for q in ("My", "Mz")] + [float(mem.torque(0.4 * L, c))]
                mon.near("inactive force", v, 0.0, 0.0, lambda: f"member {n} {c} is inactive")
            elif d["t"] or d["c"]:
                v = [float(mem.axial(x, c)) for x in xs] + [float(mem.max_axial(c)), float(mem.min_axial(c))]
                bad = max(v) > mtol + T.f * 10 if d["t"] else min(v) < -mtol - T.f * 10
                mon.true("wrong-sign force", not bad, lambda: f"member {n} {c} {'tension' if d['t'] else 'compression'}-only carries {v}")
        for n, d in s["springs"].items():
            sp = m.springs[n]
            mon.true("active state", bool(sp.active[c]) == (("s", n) not in inact), lambda: f"spring {n} {c}: active is {sp.active[c]}")
            if ("s", n) in inact:
                mon.near("inactive force", [float(sp.axial(c))] + [float(v) for v in np.ravel(sp.f(c))] + [float(v) for v in np.ravel(sp.F(c))], 0.0, 0.0, lambda: f"spring {n} {c} is inactive")
            if ("s", n) not in inact and (d["t"] or d["c"]):
                ax = float(sp.axial(c))
                mon.true("wrong-sign force", not (ax > stol + 10 * T.f if d["t"] else ax < -stol - 10 * T.f), lambda: f"spring {n} {c} carries {ax}")
        mon.near("displacement", S.nodal(m, c, R.names), R.node_disp(), T.disp(), lambda: f"{c} inactive {inact} lifted {lifted}")
        mon.near("reaction", S.reactions(m, c, R.names), R.reactions(), T.force(), lambda: f"{c} inactive {inact} lifted {lifted}")
        # what every element reports must balance at the joints, inactive ones included
        interior = {n for name in s["members"] for _, n in S.interior_nodes(s, name)}
        rx = S.reactions(m, c, R.names)
        bal = {n: np.array(rx[k]) for k, n in enumerate(R.names)}
        for q in ("members", "springs"):
            for n, d in s[q].items():
                fg = np.asarray(getattr(m, q)[n].F(c), float).ravel()
                bal[d["i"]] -= fg[:6]
                bal[d["j"]] -= fg[6:]
        for n, dd, P, cs in s["nload"]:
            bal[n][S.FDIR.index(dd)] += P * combos(s)[c].get(cs, 0)
        for n in s["nodes"]:
            if n not in interior:
                mon.near("joint equilibrium", bal[n], 0, T.force() * 10, lambda: f"joint {n} {c} inactive {inact} lifted {lifted}")
        for n in s["members"]:
            if ("m", n) not in inact:
                mon.near("end force", np.asarray(m.members[n].f(c), float).ravel(), R.member_end_forces(n), np.tile(T.force(), 2), lambda: f"{n} {c}")
                # the diagrams are those of the final state, not of some earlier iteration
                for x in st[n]:
                    near_either(mon, "internal force", query_internal(m.members[n], x, c), section_values(R, n, combos(s)[c], x), np.array([T.f] * 3 + [T.m] * 3) * 2,
                                lambda: f"{n} {c} x={x!r} of {S.member_len(s, n)!r} (P,Vy,Vz,T,My,Mz) after {cnt} iterations")
                if not any(s["members"][n]["rel"][k] for k in (0, 1, 2, 6, 7, 8)):
                    for x in st[n][:3]:
                        mon.near("deflection", [m.members[n].deflection(q, x, c) for q in ("dx", "dy", "dz")], R.local_disp(n, x)[:3], T.t * 10, lambda: f"{n} {c} x={x!r} dx,dy,dz")
    mon.sig(frame_sig(s), [sorted(map(str, v[2])) for v in sims.values()], [v[4] for v in sims.values()], mi)
