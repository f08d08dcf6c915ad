"""C10: results don't depend on names or on the order things are defined in."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *


def wild(r, keys, prefix):
    """New names for keys: permuted default-looking names, names of another kind, or odd strings."""
    keys = list(keys)
    k = r.random()
    if k < 0.35:
        ids = list(range(1, len(keys) + 1))
        r.shuffle(ids)
        return {q: f"{prefix}{i}" for q, i in zip(keys, ids)}
    if k < 0.6:
        ids = r.sample(range(0, 3 * len(keys) + 3), len(keys))
        return {q: f"{r.choice(['N', 'M', 'P', 'Q', 'S', 'X'])}{i}" for q, i in zip(keys, ids)}
    pool = ["a b", "é", "node-1", "1", "Combo 1", "Case 1", "x" * 40, "N", "0", "M1a", "M2b", "MEM", "%s", "nan"]
    r.shuffle(pool)
    return {q: (pool[i] if i < len(pool) else f"{prefix}_{i}") for i, q in enumerate(keys)}


def inv_results(m, s, c, mp):
    return Results(m, s, mp["combos"].get(c, c), mp["nodes"], mp["members"], mp["springs"], {**mp["plates"], **mp["quads"]}).flat()


@check("C10", rule="random frames (also one-way) and slabs; the same model is built in another definition order, under other names (permuted default-style names, names used by other kinds of objects, odd strings), "
       "with automatically assigned names, and renamed by rename() before or after the analysis; all results, matched by identity, must agree with the original",
       quick=1100, needs=("reordered", "renamed spec", "rename before", "rename after", "automatic names"))
def case(r, mon, i):
    k = r.random()
    ow = False
    if k < 0.45:
        s, u = gen.frame(r)
    elif k < 0.65:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4]))
        ow = True
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
    mon.case(s)
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    cs = list(combos(s))
    m = S.build(s)
    how = "analyze" if ow else r.choice(["analyze", "linear"])
    analyze_or_skip(m, r, how, oneway=ow)
    N = Noise(m, s, cs)
    want = {c: Results(m, s, c).flat() for c in cs}

    def go(mm):
        try:
            analyze(mm, r, how)
            return True
        except Exception as e:
            if "singular" in str(e) or "Unstable" in str(e) or "diverged" in str(e):
                return False
            raise

    # definition order
    m2 = S.build(s, perm=r)
    if mon.true("reordered solves", go(m2), "fails when defined in another order"):
        for c in cs:
            same(mon, "reordered", want[c], Results(m2, s, c).flat(), N, f"{c} ({how})")
    # names
    mp = {q: wild(r, s[q], p) for q, p in (("nodes", "N"), ("aux", "A"), ("members", "M"), ("springs", "S"), ("plates", "P"), ("quads", "Q"), ("materials", "mat"), ("sections", "sec"), ("combos", "LC"))}
    mp["cases"] = wild(r, S.cases_of(s), "Case ")
    s2 = S.relabel(s, **mp)
    m3 = S.build(s2, perm=r if r.random() < 0.3 else None)
    if mon.true("renamed solves", go(m3), "fails under other names"):
        for c in cs:
            same(mon, "renamed spec", want[c], inv_results(m3, s, c, mp), N, f"{c} ({how}) names {mp}")
    # rename(): identity of objects
    use2 = r.random() < 0.6
    m4 = S.build(s2 if use2 else s)
    mq = mp if use2 else {q: {} for q in mp}
    objs = {q: {n: getattr(m4, q)[mq[q].get(n, n)] for n in s[q]} for q in ("nodes", "members", "springs", "plates", "quads")}
    after = r.random() < 0.5
    if not after:
        m4.rename()
    if not mon.true("rename solves", go(m4), "fails after rename()"):
        return
    if after:
        m4.rename()
    mr = dict(combos=mq["combos"])
    okn = True
    for q in objs:
        mr[q] = {}
        byid = {id(o): n for n, o in getattr(m4, q).items()}
        for n, o in objs[q].items():
            okn &= mon.true("rename keeps everything", id(o) in byid, lambda: f"{q[:-1]} {n} lost by rename()")
            if id(o) in byid:
                mr[q][n] = byid[id(o)]
                okn &= mon.true("rename keeps everything", o.name == byid[id(o)], lambda: f"{q[:-1]} is stored as {byid[id(o)]} but named {o.name}")
        mon.true("rename keeps everything", len(getattr(m4, q)) == len(s[q]), lambda: f"{len(getattr(m4, q))} {q} after rename(), {len(s[q])} before")
    if okn:
        for c in cs:
            same(mon, "rename after" if after else "rename before", want[c], inv_results(m4, s, c, mr), N, f"{c} ({how}) rename() {'after' if after else 'before'} the analysis")
    # automatic names
    from PyNite import FEModel3D
    m5 = FEModel3D()
    auto = dict(nodes={}, aux={}, members={}, springs={}, plates={}, quads={})
    blank = r.choice([None, ""])
    for n, p in s["nodes"].items():
        keep = r.random() < 0.2 and n not in m5.nodes
        auto["nodes"][n] = m5.add_node(n if keep else blank, *p)
    for n, p in s["aux"].items():
        auto["aux"][n] = m5.add_auxnode(blank, *p)
    for q in ("nodes", "aux"):
        mon.true("automatic names", len(set(auto[q].values())) == len(s[q]), lambda: f"{q}: names given {auto[q]}")
    mats = {}
    for n, p in s["materials"].items():
        old = dict(m5.materials)
        m5.add_material(n if r.random() < 0.3 and n not in old else blank, *p)
        new = [q for q in m5.materials if q not in old]
        if not mon.true("automatic names", len(new) == 1 and all(m5.materials[q] is v for q, v in old.items()), lambda: f"materials {list(old)}, then {list(m5.materials)}"):
            return
        mats[n] = new[0]
    s5 = S.relabel(s, nodes=auto["nodes"], aux=auto["aux"], materials=mats)
    from PyNite.Section import Section
    for n, d in s5["members"].items():
        A, Iy, Iz, J = S.mprops(s5, d)
        auto["members"][n] = m5.add_member(blank, d["i"], d["j"], d["mat"], Iy, Iz, J, A, d.get("aux"), d["t"], d["c"])
        if any(d["rel"]):
            m5.def_releases(auto["members"][n], *[bool(v) for v in d["rel"]])
    for n, d in s5["springs"].items():
        auto["springs"][n] = m5.add_spring(blank, d["i"], d["j"], d["ks"], d["t"], d["c"])
    for q, add in (("plates", m5.add_plate), ("quads", m5.add_quad)):
        for n, d in s5[q].items():
            auto[q][n] = add(blank, d["i"], d["j"], d["m"], d["n"], d["t"], d["mat"], d.get("kx", 1.0), d.get("ky", 1.0))
    for q in ("members", "springs", "plates", "quads"):
        mon.true("automatic names", len(set(auto[q].values())) == len(s[q]) and all(v in getattr(m5, q) for v in auto[q].values()), lambda: f"{q}: names given {auto[q]}")
    s6 = S.relabel(s5, members=auto["members"], springs=auto["springs"], plates=auto["plates"], quads=auto["quads"])
    rest = S.clone(s6)
    for q in ("nodes", "aux", "materials", "sections", "members", "springs", "plates", "quads"):
        rest[q] = {}
    S.build(rest, model=m5)
    if mon.true("automatic names", go(m5), "fails with automatic names"):
        for c in cs:
            same(mon, "automatic names", want[c], inv_results(m5, s, c, dict(auto, combos={})), N, f"{c} ({how}) automatically named")
    mon.sig(frame_sig(s, how), len(s["plates"]), len(s["quads"]))
