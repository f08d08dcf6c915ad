"""C25: member end releases."""
from ..core import check
from .. import gen, spec as S
from ..common import *


def zero_forces(mon, m, s, T, cs, label):
    for n, d in s["members"].items():
        rel = d["rel"]
        if not any(rel):
            continue
        mem = m.members[n]
        for c in cs:
            if not mem.active[c]:
                continue
            f = np.ravel(mem.f(c))
            tol = [T.f, T.f, T.f, T.m, T.m, T.m] * 2
            for q in range(12):
                if rel[q]:
                    mon.near("released end force", f[q], 0.0, tol[q], lambda: f"{label} {n} {c} component {q}")
            ends = [q for q in range(12) if rel[q]]
            L = S.member_len(s, n)
            for x, o in ((0.0, 0), (L, 6)):
                if any(l[0] == n and abs(l[3] - x) < 1e-9 * L for l in s["mpt"]):
                    continue            # (a load right at the end: the diagram may show it or not)
                v = query_internal(mem, x, c)            # axial, Fy, Fz, T, My, Mz
                for q in range(6):
                    if rel[o + q]:
                        if m.solution == "P-Delta" and q >= 4 and x:
                            continue
                        mon.near("diagram at a released end", v[q], 0.0, 3 * tol[q], lambda: f"{label} {n} {c} x={x} component {q}")


def attached(s, node):
    return [n for n, d in s["members"].items() if node in (d["i"], d["j"])] + [n for n in s["members"] if any(k == node for _, k in S.interior_nodes(s, n))]


def compare(mon, kind, s, m1, m2, cs, N, detail, skip_nodes=(), rot_skip=()):
    names = [n for n in s["nodes"]]
    for c in cs:
        D1, D2 = S.nodal(m1, c, names), S.nodal(m2, c, names)
        for n in rot_skip:
            D1[names.index(n), 3:] = D2[names.index(n), 3:] = 0.0
        mon.near(kind, D2, D1, 20 * N.disp(), lambda: f"{detail} {c} displacements")
        R1, R2 = S.reactions(m1, c, names), S.reactions(m2, c, names)
        mon.near(kind, R2, R1, 20 * N.force(), lambda: f"{detail} {c} reactions")
        for n in s["members"]:
            mon.near(kind, np.ravel(m2.members[n].f(c)), np.ravel(m1.members[n].f(c)), 20 * np.concatenate([N.force(), N.force()]), lambda: f"{detail} {n} {c} end forces")
            L = S.member_len(s, n)
            for t in (0.21, 0.5, 0.83):
                mon.near(kind, query_internal(m2.members[n], t * L, c), query_internal(m1.members[n], t * L, c), 20 * np.array([N.f, N.f, N.f, N.m, N.m, N.m]), lambda: f"{detail} {n} {c} diagrams at {t * L}") \
                    if not any(l[0] == n and abs(l[3] - t * L) < 1e-6 * L for l in s["mpt"]) else None
                for q in ("dx", "dy", "dz"):
                    # (deflections along members with translational releases aren't claimed)
                    if any(d for k, d in enumerate(s["members"][n]["rel"]) if k % 6 < 3):
                        continue
                    mon.near(kind, float(m2.members[n].deflection(q, t * L, c)), float(m1.members[n].deflection(q, t * L, c)), 40 * N.t, lambda: f"{detail} {n} {c} {q} at {t * L}")


def joints(s):
    cand = []
    for n in s["nodes"]:
        a = [q for q, d in s["members"].items() if n in (d["i"], d["j"])]
        if len(a) == 2 and len(attached(s, n)) == 2 and not any((s["supports"].get(n) or [0] * 6)[3:]) and not any(l[0] == n and l[1][0] == "R" for l in s["spsup"]) \
                and not any(l[0] == n and l[1][0] == "M" for l in s["nload"]) and not any(n in (d["i"], d["j"]) for d in s["springs"].values()):
            cand.append((n, a))
    return cand


def hinge(r, mon):
    """A joint of two members: releasing the one or the other is the same hinge."""
    for _ in range(8):
        s, u = gen.frame(r, releases=0.2, nmem=r.choice([2, 3, 4, 5]), support_kind="fixed")
        cand = joints(s)
        if cand:
            break
    else:
        mon.skip("no joint of two members")
    n, (a, b) = r.choice(cand)

    # a concentrated moment right at the joint would be taken by one member or the other
    def at_end(l):
        return l[0] in (a, b) and l[1][0] == "M" and abs(l[3] - (0.0 if s["members"][l[0]]["i"] == n else S.member_len(s, l[0]))) < 1e-9
    s["mpt"] = [l for l in s["mpt"] if not at_end(l)]
    out = []
    how = None
    for q in (a, b):
        s2 = S.clone(s)
        for k in (a, b):
            o = 3 if s2["members"][k]["i"] == n else 9
            s2["members"][k]["rel"][o:o + 3] = [1, 1, 1] if k == q else [0, 0, 0]
        out.append(s2)
    mon.case(out[0])
    ms = [S.build(x) for x in out]
    for x in ms:
        how = analyze_or_skip(x, r)
    cs = list(combos(s))
    N = [Noise(x, y, cs) for x, y in zip(ms, out)]
    N = max(N, key=lambda q: q.t)
    compare(mon, "same hinge", out[0], ms[0], ms[1], cs, N, f"hinge at {n}, in {a} or {b}", rot_skip=[n])
    mon.sig("hinge", frame_sig(out[0], how))


def pinned(r, mon):
    """A fixed support and a fully released member end is a pinned support."""
    s, u = gen.frame(r, releases=0.2, support_kind="fixed", spsup=0)
    cand = [n for n in s["supports"] if len(attached(s, n)) == 1 and not any(n in (d["i"], d["j"]) for d in s["springs"].values())]
    if not cand:
        mon.skip("no support with a single member")
    n = r.choice(cand)
    (a,) = attached(s, n)
    d = s["members"][a]
    if n not in (d["i"], d["j"]):
        mon.skip("no support with a single member")
    o = 0 if d["i"] == n else 6
    s["nload"] = [l for l in s["nload"] if not (l[0] == n and l[1][0] == "M")]
    s["mpt"] = [l for l in s["mpt"] if not (l[0] == a and l[1][0] == "M" and abs(l[3] - (0.0 if o == 0 else S.member_len(s, a))) < 1e-9)]
    s["enf"] = [l for l in s["enf"] if not (l[0] == n and l[1][0] == "R")]
    d["rel"][o:o + 6] = [0] * 6
    s1, s2 = S.clone(s), S.clone(s)
    s1["members"][a]["rel"][o + 3:o + 6] = [1, 1, 1]
    s2["supports"][n] = [1, 1, 1, 0, 0, 0]
    mon.case(s1)
    m1, m2 = S.build(s1), S.build(s2)
    analyze_or_skip(m1, r)
    how = analyze_or_skip(m2, r)
    cs = list(combos(s))
    N = max(Noise(m1, s1, cs), Noise(m2, s2, cs), key=lambda q: q.t)
    compare(mon, "same pin", s1, m1, m2, cs, N, f"pin at {n}", rot_skip=[n])
    mon.sig("pin", frame_sig(s1, how))


def random_releases(r, mon):
    # anything that leaves the structure stable; the reference decides
    for _ in range(8):
        s, u = gen.frame(r, releases=0.0, nmem=r.choice([2, 3, 4, 5]))
        for d in s["members"].values():
            if r.random() < 0.6:
                if r.random() < 0.5:
                    d["rel"] = list(r.choice(gen.REL_SETS))
                else:
                    for q in r.sample(range(12), r.choice([1, 2, 3, 4])):
                        d["rel"][q] = 1
        if not any(any(d["rel"]) for d in s["members"].values()):
            continue
        try:
            reference(s, next(iter(combos(s).values())))
            break
        except Skip:
            pass
    mon.case(s)
    T = None
    for c, f in combos(s).items():
        R = reference(s, f)
        t = Tol(R)
        T = t if T is None or t.f > T.f else T
    m = S.build(s)
    # releases set, changed and taken back before the final definition
    for n, d in s["members"].items():
        if r.random() < 0.4:
            m.def_releases(n, *[r.random() < 0.3 for _ in range(12)])
            if not any(d["rel"]):
                m.def_releases(n)
            else:
                m.def_releases(n, *[bool(v) for v in d["rel"]])
            mon.ev("releases redefined")
    how = analyze(m, r)
    zero_forces(mon, m, s, T, list(combos(s)), "linear")
    for c, f in combos(s).items():
        R = reference(s, f)
        T2 = Tol(R)
        mon.near("displacement with releases", S.nodal(m, c, R.names), R.node_disp(), T2.disp(), lambda: f"{c}")
    mon.sig("random", frame_sig(s, how))
    if r.random() < 0.4:
        T.f, T.m = 100 * T.f, 100 * T.m
        try:
            m.analyze_PDelta()
        except Exception as e:
            if "singular" in str(e):
                return
            raise
        cs = []
        for c in combos(s):
            D = np.abs(S.nodal(m, c, list(s["nodes"])))
            R = reference(s, combos(s)[c])
            if np.all(np.isfinite(D)) and D.max() < 10 * max(np.abs(R.node_disp()).max(), 1e-300):
                cs.append(c)
        for n, d in s["members"].items():
            for c in cs:
                f = np.ravel(m.members[n].f(c))
                for q in range(12):
                    # (loads on the member itself: see C24)
                    if d["rel"][q] and not any(l[0] == n for l in s["mpt"] + s["mdist"]) and not s["sw"]:
                        mon.near("released end force, second order", f[q], 0.0, T.f if q % 6 < 3 else T.m, lambda: f"P-Delta {n} {c} component {q}")


@check("C25", rule="frames with random releases of any of the twelve end components (set, changed and taken back before the analysis): every released end force is zero, diagrams start and end at zero there, displacements follow the "
       "independent solver, also in P-Delta analysis; a hinge is the same released in either of the two members that meet; a released end at a fixed support is a pinned support",
       quick=1600, needs=("released end force", "diagram at a released end", "displacement with releases", "releases redefined", "released end force, second order", "same hinge", "same pin"))
def case(r, mon, i):
    k = r.random()
    if k < 0.6:
        random_releases(r, mon)
    elif k < 0.82:
        hinge(r, mon)
    else:
        pinned(r, mon)
