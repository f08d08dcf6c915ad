"""C26: equal loads, however stated, have equal effects."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *


def to_local(s, r):
    """Restate global member loads in the member's own axes."""
    o = S.clone(s)
    for key, val in (("mpt", (2,)), ("mdist", (2, 3))):
        o[key] = []
        for l in s[key]:
            if not l[1][1].isupper() or r.random() < 0.2:
                o[key].append(list(l))
                continue
            T = S.member_axes(s, l[0])
            k = "XYZ".index(l[1][1])
            for a in range(3):
                if abs(T[a, k]) > 1e-15:
                    m = list(l)
                    m[1] = l[1][0] + "xyz"[a]
                    for v in val:
                        m[v] = l[v] * float(T[a, k])
                    o[key].append(m)
    return o


def to_global(s, r):
    o = S.clone(s)
    for key, val in (("mpt", (2,)), ("mdist", (2, 3))):
        o[key] = []
        for l in s[key]:
            if l[1][1].isupper() or r.random() < 0.2:
                o[key].append(list(l))
                continue
            T = S.member_axes(s, l[0])
            k = "xyz".index(l[1][1])
            for a in range(3):
                if abs(T[k, a]) > 1e-15:
                    m = list(l)
                    m[1] = l[1][0] + "XYZ"[a]
                    for v in val:
                        m[v] = l[v] * float(T[k, a])
                    o[key].append(m)
    return o


def split_dist(s, r):
    o = S.clone(s)
    o["mdist"] = []
    for l in s["mdist"]:
        L = S.member_len(s, l[0])
        x1, x2 = 0.0 if l[4] is None else l[4], L if l[5] is None else l[5]
        cuts = sorted(r.uniform(0.05, 0.95) for _ in range(r.choice([1, 1, 2])))
        xs = [x1] + [x1 + (x2 - x1) * t for t in cuts] + [x2]
        at = lambda x: l[2] + (l[3] - l[2]) * (x - x1) / (x2 - x1)
        for a, b in zip(xs, xs[1:]):
            if b - a > 1e-6 * L:
                o["mdist"].append([l[0], l[1], at(a), at(b), a, b, l[6]])
    return o


def extents(s, r):
    o = S.clone(s)
    for l in o["mdist"]:
        L = S.member_len(s, l[0])
        if l[4] is None:
            l[4] = r.choice([0, 0.0])
        elif l[4] == 0 and r.random() < 0.7:
            l[4] = None
        if l[5] is None:
            l[5] = L
        elif abs(l[5] - L) < 1e-12 * L and r.random() < 0.7:
            l[5] = None
    return o


def triangle_pairs(s, r):
    """A trapezoid is two triangles."""
    o = S.clone(s)
    o["mdist"] = []
    for l in s["mdist"]:
        o["mdist"].append(l[:2] + [l[2], 0.0] + l[4:])
        o["mdist"].append(l[:2] + [0.0, l[3]] + l[4:])
    return o


def cancelling(s, r):
    """Loads and their opposites, in the same case."""
    o = S.clone(s)
    for key, val in (("mpt", (2,)), ("mdist", (2, 3)), ("nload", (2,)), ("qpress", (1,)), ("ppress", (1,))):
        for l in s[key]:
            if r.random() < 0.4:
                a, b = list(l), list(l)
                f = r.choice([1.0, 0.5, 3.0])
                for v in val:
                    a[v], b[v] = l[v] * f, -l[v] * f
                o[key] += [a, b]
    return o


def zero_loads(s, r):
    o = S.clone(s)
    for key, val in (("mpt", (2,)), ("mdist", (2, 3)), ("nload", (2,)), ("qpress", (1,)), ("ppress", (1,))):
        for l in s[key]:
            if r.random() < 0.5:
                a = list(l)
                for v in val:
                    a[v] = 0 if r.random() < 0.5 else 0.0
                o[key].append(a)
    return o


def fold(s, r, c):
    """One combination written as loads of the default case, with no combination defined at all."""
    o = S.clone(s)
    f = s["combos"][c][0]
    for key, val in (("mpt", (2,)), ("mdist", (2, 3)), ("nload", (2,)), ("qpress", (1,)), ("ppress", (1,)), ("sw", (1,))):
        o[key] = []
        for l in s[key]:
            g = f.get(l[-1], 0)
            if g:
                a = list(l)
                for v in val:
                    a[v] = l[v] * g
                a[-1] = "Case 1"
                o[key].append(a)
    o["combos"] = {}
    return o


def other_cases(s, r):
    """Loads spread over more load cases that always act together."""
    o = S.clone(s)
    ren = {}
    for key in ("mpt", "mdist", "nload", "qpress", "ppress", "sw"):
        for l in o[key]:
            if r.random() < 0.5:
                ren.setdefault(l[-1], set()).add(l[-1] + " b")
                l[-1] += " b"
    for c, (f, _) in o["combos"].items():
        for k in list(f):
            for b in ren.get(k, ()):
                f[b] = f[k]
    return o


def at_ends(s, r):
    """Nodal loads as point loads at the ends of members (end forces are those beyond the load then)."""
    o = S.clone(s)
    o["nload"] = []
    for l in s["nload"]:
        ends = [(n, d) for n, d in s["members"].items() if l[0] in (d["i"], d["j"]) and not any(d["rel"]) and not d["t"] and not d["c"]]
        if not ends or r.random() < 0.2:
            o["nload"].append(l)
            continue
        n, d = r.choice(ends)
        o["mpt"].append([n, l[1], l[2], 0.0 if d["i"] == l[0] else S.member_len(s, n), l[3]])
    return o


WAYS = dict(local=to_local, globl=to_global, split=split_dist, extents=extents, triangles=triangle_pairs, cancelling=cancelling, zero=zero_loads, cases=other_cases)


@check("C26", rule="random frames and slabs with beams under every load type; the same loads restated: self weight as distributed loads, global loads in member axes and back, distributed loads cut into pieces or triangles, default and explicit "
       "extents, opposite pairs and zero loads added, load cases split, one combination folded into the default case of a model without combinations, nodal loads put on member ends, loads deleted and defined anew, "
       "combinations redefined under the same name; every result of every combination must be the same",
       quick=1100, needs=("restated loads", "self weight", "default combination", "loads defined anew", "combination redefined", "combination edited", "nodal loads on member ends", "plate model", "deleted loads leave nothing"))
def case(r, mon, i):
    if r.random() < 0.65:
        s, u = gen.frame(r, sw=0.5)
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
        mon.ev("plate model")
    mon.case(s)
    m = S.build(s)
    how = analyze_or_skip(m, r)
    cs = list(s["combos"])
    N = Noise(m, s, cs).scale(4)
    base = {c: Results(m, s, c).flat() for c in cs}
    todo = r.sample(list(WAYS), r.choice([1, 2, 2, 3]))
    s2 = S.clone(s)
    for w in todo:
        s2 = WAYS[w](s2, r)
    if s["sw"] and r.random() < 0.6:
        s2 = S.explicit_sw(s2)
        mon.ev("self weight")
        todo.append("sw")
    m2 = S.build(s2, perm=r if r.random() < 0.5 else None)
    analyze_or_skip(m2, r)
    for c in cs:
        same(mon, "restated loads", base[c], Results(m2, s, c).flat(), N, f"{todo} {c}")
    # the default combination
    c = r.choice(cs)
    s3 = fold(s, r, c)
    m3 = S.build(s3)
    analyze_or_skip(m3, r)
    mon.true("default combination", list(m3.load_combos) == ["Combo 1"], lambda: list(m3.load_combos))
    same(mon, "default combination", base[c], Results(m3, s, "Combo 1").flat(), N, f"{c} folded")
    # loads at the ends of members
    s4 = at_ends(s, r)
    if len(s4["mpt"]) > len(s["mpt"]):
        m4 = S.build(s4)
        analyze_or_skip(m4, r)
        for c in cs:
            mon.near("nodal loads on member ends", S.nodal(m4, c, list(s["nodes"])), S.nodal(m, c, list(s["nodes"])), N.disp(), lambda: f"{c} displacements")
            mon.near("nodal loads on member ends", S.reactions(m4, c, list(s["nodes"])), S.reactions(m, c, list(s["nodes"])), N.force(), lambda: f"{c} reactions")
    # loads deleted, and defined anew
    m.delete_loads()
    mon.true("deleted loads leave nothing", not any(n.NodeLoads for n in m.nodes.values()) and not any(e.PtLoads or e.DistLoads for e in m.members.values())
             and not any(e.pressures for e in list(m.plates.values()) + list(m.quads.values())), "loads remain")
    mon.true("deleted loads leave nothing", m.load_cases == [], lambda: m.load_cases)
    left = [(n.name, q) for n in m.nodes.values() for q in S.DOFS + S.RXN if len(getattr(n, q))]
    mon.true("deleted loads leave nothing", not left, lambda: f"results of the deleted loads remain: {left[:5]}")
    if r.random() < 0.4:
        analyze_or_skip(m, r)
        if not s["enf"]:
            for c in cs:
                mon.near("deleted loads leave nothing", S.nodal(m, c, list(s["nodes"])), 0.0, N.disp(), f"{c} displacements")
    S.add_loads(m, s2)
    for c, (f, t) in s["combos"].items():
        if r.random() < 0.5:
            m.add_load_combo(c, {"wrong": 2.0, **{k: -3.3 for k in f}}, ["x"])
            mon.ev("combination redefined")
    for c, (f, t) in s2["combos"].items():
        if f and r.random() < 0.4:
            # (factors may also be set one by one on the combination itself)
            k = list(f)
            part = {q: f[q] for q in k[:r.randint(0, len(k) - 1)]}
            wrong = r.choice(k) if r.random() < 0.5 else "never"
            m.add_load_combo(c, {**part, wrong: -2.2} if wrong not in part else dict(part), list(t) if t else None)
            lc = m.load_combos[c]
            if wrong not in part:
                lc.DeleteLoadCase(wrong)
            for q in k:
                if q not in part:
                    lc.AddLoadCase(q, f[q])
            mon.true("combination edited", lc.factors == dict(f), lambda: f"{lc.factors} instead of {f}")
        else:
            m.add_load_combo(c, dict(f), list(t) if t else None)
    analyze_or_skip(m, r)
    for c in cs:
        same(mon, "loads defined anew", base[c], Results(m, s, c).flat(), N, f"{todo} {c}")
    mon.sig(sorted(todo), frame_sig(s, how), len(s["plates"]), len(s["quads"]))
