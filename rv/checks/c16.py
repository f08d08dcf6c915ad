"""C16: what a model reports depends on what it is, not on what was done with it before."""
from ..core import check
from .. import gen, genp, spec as S, oneway, ops
from ..common import *


def fails(e):
    return any(t in str(e) for t in ("singular", "Unstable", "diverged"))


def guy(r, s, u):
    """Hold some nodes with one-way springs to anchors of their own."""
    free = [n for n in s["nodes"] if not any(s["supports"].get(n, [0])[:3])]
    for k, n in enumerate(r.sample(free, min(len(free), r.choice([1, 1, 2])))):
        p = S.vec(s, n) + gen.direction(r) * u["Ls"] * r.uniform(0.3, 0.6)
        t = dict(s, nodes=dict(s["nodes"], **{f"G{k}": [float(v) for v in p]}))
        if gen._hits(t, f"G{k}", n) or min(np.linalg.norm(S.vec(s, q) - p) for q in s["nodes"]) < 0.02 * u["Ls"]:
            continue
        s["nodes"][f"G{k}"] = t["nodes"][f"G{k}"]
        s["supports"][f"G{k}"] = [1] * 6
        q = r.random() < 0.5
        s["springs"][f"SG{k}"] = dict(i=n, j=f"G{k}", ks=u["E"] * u["I"] / u["Ls"] ** 3 * gen.rnd(r, 1, 50), t=q, c=not q)
        s["nload"].append([n, r.choice(("FX", "FY", "FZ")), gen.sgn(r) * gen.rnd(r, 0.2, 2) * u["F"], r.choice(S.cases_of(s) or ["Case 1"])])


@check("C16", rule="random frames (one-way included) and slabs are analysed, queried, edited (loads, combinations, supports, springs, settlements, releases, properties, members added and removed, loads deleted, nodes "
       "moved) and analysed again in random order with random entry points, tags and options, also through failing analyses; after each final analysis all results must equal those of a model built afresh in that "
       "final state; repeating an analysis must repeat the results exactly",
       quick=700, needs=("same as fresh", "repeated analysis", "edit", "analysis in between", "slack before, at work again"))
def case(r, mon, i):
    k = r.random()
    ow = False
    if k < 0.45:
        s, u = gen.frame(r)
    elif k < 0.75:
        ow = True
        if r.random() < 0.4:
            s, u = gen.frame(r, oneway=1.0, nmem=r.choice([1, 2, 3]))
        else:
            s, u = gen.frame(r, nmem=r.choice([1, 2, 3, 4]), support_kind=r.choice(["fixed", "fixed", None]), releases=0.15)
            guy(r, s, u)
            k = r.random()
            for d in r.sample(list(s["members"].values()), len(s["members"]) // 3):
                d["t" if k < 0.5 else "c"] = True
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 2))
    mon.case(s)
    s = S.explicit_sw(s)
    for v in s["combos"].values():
        if r.random() < 0.5:
            v[1] = [r.choice(["a", "b"])]
    m = S.build(s)
    log = []
    off = {}        # one-way elements that have been seen slack, by combination
    swing = ow and r.random() < 0.7     # the same model under loads to and fro
    for rnd in range(r.choice([1, 2, 3]) if not ow else r.choice([2, 3])):
        if swing and rnd:
            for _ in s["combos"]:
                log.append(ops.op_reverse(r, s, m, u))
                mon.ev("edit")
        for _ in range(0 if swing else r.choice([0, 1, 2, 4])):
            kind = r.random()
            if kind < 0.3:
                how = r.choice(["analyze", "linear", "pdelta"])
                kw = dict(sparse=r.random() < 0.6, check_stability=r.random() < 0.8)
                if r.random() < 0.2:
                    kw["combo_tags"] = [r.choice(["a", "b", "none"])]
                try:
                    dict(analyze=m.analyze, linear=m.analyze_linear, pdelta=m.analyze_PDelta)[how](**kw)
                    log.append((how, kw))
                    mon.ev("analysis in between")
                    if "combo_tags" not in kw and r.random() < 0.7:
                        ops.query_some(r, s, m)
                except Exception as e:
                    if not fails(e):
                        raise
                    log.append((how, kw, "failed"))
                    mon.ev("failed analysis in between")
            else:
                f = r.choice(ops.EDITS)
                t = f(r, s, m, u)
                if t:
                    log.append(t)
                    mon.ev("edit")
        # fresh model in the same state
        how = "analyze" if ow else r.choice(["analyze", "linear", "pdelta"])
        fr = S.build(s)
        cs = list(combos(s))
        if ow and oneway.borderline(s, combos(s).values()):
            mon.skip("a one-way decision is within rounding error")
        try:
            analyze(fr, r, how)
        except Exception as e:
            if not fails(e):
                raise
            continue
        N = Noise(fr, s, cs)
        try:
            lab = analyze(m, r, how)
        except Exception as e:
            if not fails(e):
                raise
            mon.fail("same as fresh", f"{how} fails ({e}) although a fresh model solves; history {log}")
            return
        log.append(lab)
        mon.true("same as fresh", m.solution == fr.solution, lambda: f"solution is {m.solution} instead of {fr.solution}; history {log}")
        mon.true("same as fresh", set(m.load_combos) >= set(cs), "combinations lost")
        for c in cs:
            A, B = Results(fr, s, c), Results(m, s, c)
            for k, v in A.active.items():
                if v and k in off.get(c, ()):
                    mon.ev("slack before, at work again")
                elif not v:
                    off.setdefault(c, set()).add(k)
            mon.true("same as fresh", A.active == B.active, lambda: f"{c}: active {B.active} instead of {A.active}; history {log}")
            if not same(mon, "same as fresh", A.flat(), B.flat(), N, f"{c} ({how}) history {log}"):
                return
        # the same call again
        before = {c: Results(m, s, c).flat() for c in cs}
        sp = r.random() < 0.5
        fn = dict(analyze=m.analyze, linear=m.analyze_linear, pdelta=m.analyze_PDelta)[how]
        fn(sparse=sp)
        one = {c: Results(m, s, c).flat() for c in cs}
        fn(sparse=sp)
        for c in cs:
            same(mon, "repeated analysis", before[c], one[c], N, f"{c} ({how}) analysed again")
            two = Results(m, s, c).flat()
            for q in one[c]:
                if one[c][q] is None or two[q] is None:
                    continue
                mon.near("repeated analysis", two[q], one[c][q], np.abs(one[c][q]) * 1e-9 + 1e-3 * tol_for(q, N), lambda: f"{c} ({how}) {q} analysed twice")
        # results for nodes only exist for combinations that were run
        n0 = next(iter(s["nodes"]))
        mon.true("stale combinations", set(m.nodes[n0].DX) == set(m.load_combos), lambda: f"results for {sorted(m.nodes[n0].DX)}, combinations {sorted(m.load_combos)}")
    mon.sig(frame_sig(s), [str(l[0]) for l in log])
