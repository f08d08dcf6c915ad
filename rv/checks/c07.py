"""C07: results are linear in the loads: load combinations superpose."""
from ..core import check
from .. import gen, genp, spec as S
from ..common import *


@check("C07", rule="random linear models (spatial frames, slabs of plates or quads with beams and columns, springs, settlements); unit combinations of every load case, an empty combination and random "
       "combinations are solved in one analysis; every result (nodal displacements, reactions, end forces, diagrams, deflections, spring forces, plate stress resultants) of a combination must be the "
       "factored sum of the unit results plus the settlement part; in addition load values are scaled and split into several loads",
       quick=900, needs=("superposition", "split loads", "plate model"))
def case(r, mon, i):
    if r.random() < 0.6:
        s, u = gen.frame(r)
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
        mon.ev("plate model")
    s["combos"] = {}
    cases = S.cases_of(s)
    for c in cases:
        s["combos"]["U " + c] = [{c: 1.0}, None]
    s["combos"]["zero"] = [{}, None]
    for k in range(r.choice([1, 2])):
        f = {c: r.choice([1.0, -1.0, 1.4, gen.rnd(r, -2, 2), 0.0]) for c in r.sample(cases, r.randint(1, len(cases)))}
        if r.random() < 0.2:
            f["no such case"] = 1.5
        s["combos"][f"X{k}"] = [f, None]
    it = list(s["combos"].items())
    r.shuffle(it)
    s["combos"] = dict(it)
    mon.case(s)
    m = S.build(s)
    how = analyze_or_skip(m, r)
    N = Noise(m, s, list(s["combos"])).scale(1 + len(cases))
    res = {c: Results(m, s, c).flat() for c in s["combos"]}
    for c, (f, _) in s["combos"].items():
        if c[0] != "X":
            continue
        want = {}
        for k in res["zero"]:
            z = res["zero"][k]
            want[k] = z + sum(f.get(q, 0.0) * (res["U " + q][k] - z) for q in cases)
        same(mon, "superposition", want, res[c], N, f"combination {c} {f}")
    # the same loads, each split into two loads (one possibly in a new case with the same factor)
    s2 = S.clone(s)
    for key in ("nload", "mpt", "mdist", "ppress", "qpress"):
        out = []
        for l in s2[key]:
            a = r.choice([0.25, 0.5, -0.5, 1.75])
            l1, l2 = list(l), list(l)
            for j in ((2, 3) if key == "mdist" else (1,) if key in ("ppress", "qpress") else (2,)):
                l1[j], l2[j] = l[j] * a, l[j] * (1 - a)
            out += [l1, l2]
        s2[key] = out
    m2 = S.build(s2)
    analyze_or_skip(m2, r)
    for c in s["combos"]:
        same(mon, "split loads", res[c], Results(m2, s2, c).flat(), N, f"loads split in two, {c}")
    mon.sig(frame_sig(s, how), len(s["plates"]), len(s["quads"]))
