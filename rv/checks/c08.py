"""C08: load combinations are analysed independently of each other, and tags select exactly the tagged ones."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *

TAGS = ["strength", "service", "t3"]


def model(r, mon):
    k = r.random()
    ow = False
    if k < 0.55:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4, 5]))
        ow = True
        mon.ev("one-way model")
    elif k < 0.8:
        s, u = gen.frame(r)
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 2), ny=r.randint(1, 3))
    s["combos"] = {}
    gen.add_combos(r, s, n=r.randint(2, 4), tags=True)
    return s, ow


def run(m, how, sparse, tags=None, statics=False):
    if how == "analyze":
        m.analyze(sparse=sparse, combo_tags=tags, check_statics=statics)
    elif how == "linear":
        m.analyze_linear(sparse=sparse, combo_tags=tags, check_statics=statics)
    else:
        m.analyze_PDelta(sparse=sparse, combo_tags=tags)


@check("C08", rule="random frames with one-way members, springs and support springs, plain frames and slabs with two to four tagged or untagged combinations; the results of each combination analysed together "
       "with the others (in two orders) are compared with the results of that combination analysed alone in a fresh model; an analysis filtered by tags must yield the same results for every combination "
       "carrying one of the tags and no results for the others, through every entry point (general, linear, P-Delta)",
       quick=1400, needs=("alone", "reordered", "tag filter", "untagged has no results", "one-way model", "states differ between combinations"))
def case(r, mon, i):
    s, ow = model(r, mon)
    how = r.choice(["analyze", "analyze", "linear", "pdelta"])
    sparse = r.random() < 0.7
    mon.case(dict(s, how=how))
    cs = list(s["combos"])
    if ow and how != "linear" and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")

    def solve(spec, tags=None, statics=False):
        m = S.build(spec)
        try:
            run(m, how, sparse, tags, statics)
        except Exception as e:
            if "singular" in str(e) or "Unstable node" in str(e) or "diverged" in str(e):
                return None
            raise
        return m

    m = solve(s)
    only = {}
    for c in cs:
        s1 = S.clone(s)
        s1["combos"] = {c: s["combos"][c]}
        only[c] = solve(s1)
    # a model fails as a whole exactly when one of its combinations fails
    bad = [c for c in cs if only[c] is None]
    mon.true("fails together as alone", (m is None) == bool(bad), lambda: f"together: {'fails' if m is None else 'solved'}, failing alone: {bad} ({how})")
    if m is None or bad:
        mon.skip("unstable or diverging")
    N = Noise(m, s, cs)
    full = {}
    for c in cs:
        R = Results(m, s, c)
        full[c] = R.flat()
        R1 = Results(only[c], s, c)
        mon.true("alone", R.active == R1.active, lambda: f"{c}: active elements {R.active} together, {R1.active} alone")
        same(mon, "alone", R1.flat(), full[c], N, detail=f"{c} ({how}) analysed with {cs}, compared with analysed alone")
    if ow and len({str(sorted(Results(m, s, c).active.items())) for c in cs}) > 1:
        mon.ev("states differ between combinations")
    s2 = S.clone(s)
    it = list(s2["combos"].items())
    it.reverse()
    s2["combos"] = dict(it)
    m2 = solve(s2)
    if mon.true("reordered", m2 is not None, "fails when the combinations are defined in another order"):
        for c in cs:
            same(mon, "reordered", full[c], Results(m2, s, c).flat(), N, detail=f"{c} ({how}) with combinations defined in reverse order")
    # tags
    tags = r.sample(TAGS, r.choice([1, 1, 2]))
    sel = [c for c in cs if s["combos"][c][1] and set(tags) & set(s["combos"][c][1])]
    m3 = solve(s, tags, statics=how != "pdelta" and r.random() < 0.5)
    if mon.true("tag filter", m3 is not None, f"tags {tags}: fails"):
        for c in sel:
            same(mon, "tag filter", full[c], Results(m3, s, c).flat(), N, detail=f"{c} ({how}) with combo_tags={tags}")
        n0 = list(s["nodes"])[0]
        for c in cs:
            if c not in sel:
                mon.true("untagged has no results", c not in m3.nodes[n0].DX and c not in m3.nodes[n0].RxnFX,
                         lambda: f"{c} {s['combos'][c]} has results although combo_tags={tags}")
    mon.sig(frame_sig(s, how, sparse, tags), len(s["plates"]), len(s["quads"]))
