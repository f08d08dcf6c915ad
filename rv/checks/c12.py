"""C12: a node on a member, or splitting a member in two, changes nothing."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *


def split_member(s, n, xs, names):
    """Replace member n by members joined rigidly at stations xs; loads are shared out."""
    o = S.clone(s)
    d = o["members"].pop(n)
    L = S.member_len(s, n)
    T = S.member_axes(s, n)
    cut = [0.0] + list(xs) + [L]
    nodes = [d["i"]]
    for k, x in enumerate(xs):
        nm = f"{n} cut {k}"
        o["nodes"][nm] = [float(v) for v in S.vec(s, d["i"]) + x * T[0]]
        nodes.append(nm)
    nodes.append(d["j"])
    for k in range(len(cut) - 1):
        e = dict(d, i=nodes[k], j=nodes[k + 1])
        rel = list(d.get("rel") or [0] * 12)
        e["rel"] = (rel[:6] if k == 0 else [0] * 6) + (rel[6:] if k == len(cut) - 2 else [0] * 6)
        an = f"{n} aux {k}"
        o["aux"][an] = [float(v) for v in S.vec(o, nodes[k]) + T[2] * L]
        e["aux"] = an
        o["members"][names[k]] = e
    o["mpt"], o["mdist"] = [], []
    for l in s["mpt"]:
        if l[0] != n:
            o["mpt"].append(list(l))
            continue
        k = next(k for k in range(len(cut) - 1) if l[3] <= cut[k + 1] or k == len(cut) - 2)
        o["mpt"].append([names[k], l[1], l[2], min(max(l[3] - cut[k], 0.0), cut[k + 1] - cut[k]), l[4]])
    for l in s["mdist"]:
        if l[0] != n:
            o["mdist"].append(list(l))
            continue
        x1, x2 = (0.0 if l[4] is None else l[4]), (L if l[5] is None else l[5])
        for k in range(len(cut) - 1):
            a, b = max(x1, cut[k]), min(x2, cut[k + 1])
            if b - a <= 1e-12 * L:
                continue
            w = lambda x: l[2] + (l[3] - l[2]) * (x - x1) / (x2 - x1)
            o["mdist"].append([names[k], l[1], w(a), w(b), a - cut[k], b - cut[k], l[6]])
    return o, cut


def clear_of(s, p, but=()):
    """No other member's line passes within reach of p, no node sits there."""
    for n, d in s["members"].items():
        if n in but:
            continue
        a, b = S.vec(s, d["i"]), S.vec(s, d["j"])
        v = b - a
        t = min(max((p - a) @ v / (v @ v), 0), 1)
        if np.linalg.norm(p - a - t * v) < 1e-3 * np.linalg.norm(v):
            return False
    return True


@check("C12", rule="random frames (one-way elements included) and slabs with beams; unloaded, unsupported nodes are added on members' lines (anywhere, at load positions, at several points, "
       "in any definition order), or separate supported nodes at a member's end, or members are replaced by rigidly joined pieces with the loads shared out; displacements, reactions, end forces, diagrams, extremes and deflections must stay the same",
       quick=1400, needs=("node added", "member split", "extreme kept", "separate node at an end carries nothing"))
def case(r, mon, i):
    ow = False
    if r.random() < 0.65:
        s, u = gen.frame(r)
    elif r.random() < 0.5:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4]))
        ow = True
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3), beams=1.0)
    if not s["members"]:
        mon.skip("no members")
    mon.case(s)
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    cs = list(combos(s))
    m = S.build(s)
    how = "analyze" if ow else r.choice(["analyze", "linear"])
    analyze_or_skip(m, r, how, oneway=ow)
    N = Noise(m, s, cs)
    frac = (0.0, 0.3, 0.52, 0.77)
    base = {c: Results(m, s, c, frac=frac) for c in cs}
    trans = {n for n, d in s["members"].items() if any(d["rel"][q] for q in (0, 1, 2, 6, 7, 8))}

    # --- nodes on members
    s2 = S.clone(s)
    added = []
    touched = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        n = r.choice(list(s["members"]))
        d = s["members"][n]
        if not all(b.active[n] for b in base.values()):
            continue          # (a node on a member that is switched off would hang in the air)
        L = S.member_len(s, n)
        xl = [l[3] for l in s["mpt"] if l[0] == n] + [x for l in s["mdist"] if l[0] == n for x in l[4:6] if x is not None]
        k = r.random()
        x = r.choice(xl) if xl and k < 0.3 else r.choice([0.5, 0.25, 1 / 3]) * L if k < 0.5 else r.uniform(0.02, 0.98) * L
        if not 0.01 * L < x < 0.99 * L:
            continue
        p = S.vec(s, d["i"]) + (S.vec(s, d["j"]) - S.vec(s, d["i"])) * (x / L)
        if not clear_of(s, p, (n,)) or any(np.linalg.norm(S.vec(s2, q) - p) < 0.005 * L for q in s2["nodes"]):
            continue
        nm = f"X{len(added)}"
        added.append((n, x, nm))
        touched.setdefault(n, []).append(x)
        s2["nodes"][nm] = [float(v) for v in p]
    twin = None
    if r.random() < 0.15:
        # a separate node at the very place of a member's end, held by its own supports, is
        # not connected to anything (nodes are only merged on request)
        n = r.choice(list(s["members"]))
        e = s["members"][n][r.choice("ij")]
        p = S.vec(s, e)
        if clear_of(s, p, [q for q, d in s["members"].items() if any(np.linalg.norm(S.vec(s, d[k]) - p) < 1e-9 for k in "ij")]):
            twin = "twin"
            s2["nodes"][twin] = [float(v) for v in p]
            s2["supports"][twin] = [1] * 6
    if added or twin:
        if r.random() < 0.5:
            q = list(s2["nodes"].items())
            r.shuffle(q)
            s2["nodes"] = dict(q)
        m2 = S.build(s2)
        analyze(m2, r, how)
        for c in cs:
            A, b = Results(m2, s, c, frac=frac), base[c]
            if not mon.true("active states kept", A.active == b.active, lambda: f"{c} {A.active} instead of {b.active}, nodes added {added}"):
                continue
            fa, fb = A.flat(), b.flat()
            for n in trans:
                fa.pop(("d", n), None), fb.pop(("d", n), None)
            same(mon, "node added", fb, fa, N, f"{c} ({how}) nodes added {added}")
            for n in s["members"]:
                if not b.active[n]:
                    continue
                xl = [l[3] for l in s["mpt"] if l[0] == n]
                L = S.member_len(s, n)
                nodes = touched.get(n, []) + [x for x, _ in S.interior_nodes(s, n)] + [0.0, L]
                if any(abs(x - y) < 1e-6 * L for x in xl for y in nodes):
                    continue
                for q, dr in (("moment", "My"), ("moment", "Mz"), ("shear", "Fy"), ("shear", "Fz"), ("axial", None), ("torque", None)):
                    tol = 20 * (N.m if q in ("moment", "torque") else N.f)
                    for w in ("max_", "min_"):
                        a = (dr, c) if dr else (c,)
                        mon.near("extreme kept", getattr(m2.members[n], w + q)(*a), float(getattr(m.members[n], w + q)(*a)), tol, lambda: f"{w}{q} {dr} of {n} {c}, nodes added {added}")
            if twin:
                mon.near("separate node at an end carries nothing", S.reactions(m2, c, [twin])[0], 0.0, N.force(), lambda: f"{c} {twin} at {s2['nodes'][twin]}")
            # the added node moves with its member, and no load gets lost there
            for n, x, nm in added:
                if not b.active[n] or n in trans:
                    continue
                T = S.member_axes(s, n)
                dl = np.array([float(m.members[n].deflection(q, x, c)) for q in ("dx", "dy", "dz")])
                mon.near("added node moves with member", S.nodal(m2, c, [nm])[0, :3], T.T @ dl, 20 * N.t, lambda: f"{c} node {nm} at {x} on {n}")
                mon.near("added node has no reaction", S.reactions(m2, c, [nm])[0], 0.0, N.force(), lambda: f"{c} node {nm} at {x} on {n}")
    # --- split members
    if ow:
        # (pieces of a one-way member decide for themselves)
        cand = [n for n, d in s["members"].items() if not (d["t"] or d["c"])]
    else:
        cand = list(s["members"])
    cand = [n for n in cand if not S.interior_nodes(s, n)]
    if cand:
        s1 = S.explicit_sw(s)
        n = r.choice(cand)
        L = S.member_len(s, n)
        xl = [x for x in [l[3] for l in s["mpt"] if l[0] == n] + [x for l in s["mdist"] if l[0] == n for x in l[4:6] if x is not None] if 0.02 * L < x < 0.98 * L]
        xs = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.choice(xl) if xl and r.random() < 0.3 else r.uniform(0.05, 0.95) * L
            if all(abs(x - y) > 0.02 * L for y in xs):
                xs.append(x)
        xs.sort()
        T = S.member_axes(s, n)
        if all(clear_of(s, S.vec(s, s["members"][n]["i"]) + x * T[0], (n,)) for x in xs):
            names = [f"{n} piece {k}" for k in range(len(xs) + 1)]
            s3, cut = split_member(s1, n, xs, names)
            m3 = S.build(s3, perm=r if r.random() < 0.3 else None)
            analyze(m3, r, how)
            rest = S.clone(s)
            rest["members"].pop(n)
            for c in cs:
                b = base[c]
                A = Results(m3, rest, c, frac=frac)
                fb, fa = b.flat(), A.flat()
                for k in list(fb):
                    if isinstance(k, tuple) and (k[1] == n or (k[0] == "d" and k[1] in trans)):
                        fb.pop(k)
                same(mon, "member split", fb, fa, N, f"{c} ({how}) {n} split at {xs}")
                if not b.active[n]:
                    continue
                e = np.concatenate([np.ravel(m3.members[names[0]].f(c))[:6], np.ravel(m3.members[names[-1]].f(c))[6:]])
                mon.near("member split", e, b.f[n], np.tile(N.force(), 2), lambda: f"{c} end forces of {n} split at {xs}")
                for k, fx in enumerate(frac):
                    x = (fx * 0.999 + 0.00037) * L
                    p = max(q for q in range(len(names)) if cut[q] <= x)
                    if min(abs(x - y) for y in cut) < 1e-6 * L:
                        continue
                    mp = m3.members[names[p]]
                    mon.near("member split", query_internal(mp, x - cut[p], c), b.I[n][k], tol_for("I", N), lambda: f"{c} diagrams of {n} at {x}, split at {xs}")
                    if n not in trans:
                        dd = [float(mp.deflection(q, x - cut[p], c)) for q in ("dx", "dy", "dz")]
                        mon.near("member split", dd, b.d[n][k], 20 * N.t, lambda: f"{c} deflections of {n} at {x}, split at {xs}")
    mon.sig(frame_sig(s, how, len(added)), len(s["plates"]), len(s["quads"]))
