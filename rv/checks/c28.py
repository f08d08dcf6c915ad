"""C28: asking for results, reports and pictures changes nothing."""
import os
from ..core import check
from .. import gen, genp, spec as S, oneway, queries, snapshot
from ..common import *
from .c13 import brace_bay

os.environ.setdefault("MPLBACKEND", "Agg")


def model(r):
    k = r.random()
    if k < 0.45:
        s, u = gen.frame(r, nmem=r.choice([1, 2, 3, 4]))
    elif k < 0.65:
        s, u = brace_bay(r) if r.random() < 0.6 else gen.frame(r, oneway=1.0, nmem=r.choice([1, 2, 3]))
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 2), ny=r.randint(1, 2))
    return s, u


def equal(mon, kind, a, b, detail):
    a, b = queries.flat(a), queries.flat(b)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            mon.fail(kind, f"{detail()}: shape {b.shape} instead of {a.shape}")
            return False
        fin = np.isfinite(a)
        if not (fin == np.isfinite(b)).all():
            mon.ev(kind)
            mon.fail(kind, f"{detail()}: {b} instead of {a}")
            return False
        sc = np.abs(a[fin]).max(initial=0)
        return mon.near(kind, b[fin], a[fin], 1e-9 * sc + 1e-300, detail)
    return mon.true(kind, a == b, lambda: f"{detail()}: {b} instead of {a}")


def report(m):
    """The report's HTML; the conversion to PDF is left out."""
    import pdfkit
    from PyNite import Reporting
    got = []
    old, pdfkit.from_string = pdfkit.from_string, lambda html, *a, **k: got.append(html)
    try:
        Reporting.create_report(m, output_filepath=os.devnull)
    finally:
        pdfkit.from_string = old
    return got[0]


def arrows(m, a=5):
    """About how many arrows a picture of all loads has: the smaller a distributed load among others, the more."""
    w = [max(abs(d[1]), abs(d[2])) for mem in m.members.values() for d in mem.DistLoads]
    big = max(w, default=0) * max((abs(f) for c in m.load_combos.values() for f in c.factors.values()), default=1) + 1e-300
    n = sum(0.15 * mem.L() / a * min(big / (max(abs(d[1]), abs(d[2])) + 1e-300), 1e6) for mem in m.members.values() for d in mem.DistLoads)
    return n + sum(len(mem.PtLoads) for mem in m.members.values()) + sum(4 * len(e.pressures) for k in (m.plates, m.quads) for e in k.values())


def picture(r, m, c):
    import vtk
    vtk.vtkObject.GlobalWarningDisplayOff()
    from PyNite import Visualization
    v = Visualization.Renderer(m)
    v.set_combo_name(c)
    case = r.random() < 0.3 and m.load_cases
    v.set_deformed_shape(not case and r.random() < 0.6)
    if case:
        v.set_case(r.choice(m.load_cases))
    if (m.plates or m.quads) and not case:
        v.set_color_map(r.choice([None, "Mx", "My", "Mxy", "Qx", "Qy", "Sx", "Sy", "Txy", "dz"]))
    v.set_render_loads(arrows(m) < 2000)
    for _ in range(r.choice([1, 1, 2])):
        v.update()


def picture2(r, m, c):
    from PyNite import Rendering
    v = Rendering.Renderer(m)
    v.combo_name = c
    v.deformed_shape = r.random() < 0.5
    v.render_loads = arrows(m) < 60
    if m.plates or m.quads:
        v.color_map = r.choice([None, "Mx", "Qy", "dz"])
    try:
        v.update()
    finally:
        v.plotter.close()



def wrong(r, m, c):
    """A query that cannot be answered."""
    mem = r.choice(list(m.members.values())) if m.members else None
    f = []
    if mem:
        f += [lambda: mem.moment("Mz", 0.0, "no such combination"), lambda: mem.max_shear("Fy", "no such combination"), lambda: mem.moment("Mq", 0.0, c), lambda: mem.shear_array("Fy", 3, "no such combination"),
              lambda: mem.f("no such combination"), lambda: mem.axial(2 * mem.L(), c), lambda: mem.deflection_array("dy", 3, "no such combination")]
    for k in ("plates", "quads"):
        for e in list(getattr(m, k).values())[:1]:
            f += [lambda e=e: e.moment(0, 0, True, "no such combination"), lambda e=e: e.f("no such combination")]
    f.append(lambda: m.P("no such combination"))
    try:
        r.choice(f)()
    except Exception:
        pass


@check("C28", rule="random frames (one-way included) and slabs are built and analysed twice alike; one copy is asked every query once in canonical order, the other in random order, interleaved over combinations, with repetitions, "
       "failing queries, statistics of meshes, plots, reports and vtk/pyvista scenes between them: every answer must be the same, the definition and the node results must stay as they were, repeated reports must be identical, "
       "and another analysis must give the same results",
       quick=420, needs=("same answer", "definition unchanged", "report repeated", "picture drawn", "failing query", "analysed again", "curve drawn"))
def case(r, mon, i):
    s, u = model(r)
    mon.case(s)
    cs = list(combos(s))
    ow = any(d.get("t") or d.get("c") for k in ("members", "springs") for d in s[k].values()) or any(x[3] for x in s["spsup"])
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    how = "analyze" if ow else r.choice(["analyze", "linear", "pdelta"])
    sp = r.random() < 0.7
    m1, m2 = S.build(s), S.build(s)

    def run(m):
        try:
            dict(analyze=m.analyze, linear=m.analyze_linear, pdelta=m.analyze_PDelta)[how](sparse=sp)
        except Exception as e:
            if "singular" in str(e).lower() or "Unstable node" in str(e) or "diverged" in str(e):
                raise Skip("reported unstable")
            raise
    run(m1)
    run(m2)
    cs = list(m1.load_combos)
    N = Noise(m1, s, cs)
    before = snapshot.snap(m2, results=True, state=True)
    seed = r.random()
    import random
    plots = 1 if r.random() < 0.3 else 0
    Q1 = queries.all_queries(random.Random(seed), m1, cs, plots)
    Q2 = queries.all_queries(random.Random(seed), m2, cs, plots)
    want = [f() for _, f in Q1]
    for (k, _), v in zip(Q1, want):
        if isinstance(k[0], str) and k[0].startswith("plot_"):
            arr = k[0][5:] + "_array"
            a = getattr(m1.members[k[1]], arr)(*k[2:-1], 20, k[-1])
            equal(mon, "curve drawn", np.concatenate([np.ravel(q) for q in a]), v, lambda: f"{k} against {arr}")
    order = list(range(len(Q2)))
    r.shuffle(order)
    order = order[:r.choice([60, 150, 400])]
    order += r.sample(order, len(order) // 3)
    reps = []
    extras = [r.randrange(len(order)) for _ in range(r.choice([0, 2, 6]))]
    log = []
    for p, q in enumerate(order):
        for _ in range(extras.count(p)):
            c = r.choice(cs)
            e = r.choice(["report", "vtk", "vtk", "wrong", "wrong"] + (["pyvista"] if r.random() < 0.15 and "pyvista" not in log else []))
            log.append(e)
            if e == "report":
                reps.append(report(m2))
            elif e == "vtk":
                picture(r, m2, c)
                mon.ev("picture drawn")
            elif e == "pyvista":
                picture2(r, m2, c)
                mon.ev("picture drawn")
            else:
                wrong(r, m2, c)
                mon.ev("failing query")
        k, f = Q2[q]
        if not equal(mon, "same answer", want[q], f(), lambda: f"{k} as query {p} after {[Q2[x][0] for x in order[max(0, p - 3):p]]} and {log}"):
            break
    if len(reps) == 1:
        reps.append(report(m2))
    for h in reps[1:]:
        mon.true("report repeated", h == reps[0], "the report is not the same the second time")
    if reps and r.random() < 0.5:
        mon.true("report repeated", report(m1) == reps[0], "the report differs from that of an identical model")
    d = snapshot.diff(before, snapshot.snap(m2, results=True, state=True))
    mon.true("definition unchanged", d is None, lambda: f"{d} after {len(order)} queries and {log}")
    run(m1)
    run(m2)
    fresh = S.build(s)
    run(fresh)
    for c in cs:
        A = Results(fresh, s, c).flat()
        same(mon, "analysed again", A, Results(m1, s, c).flat(), N, f"{c} ({how}) after all queries")
        same(mon, "analysed again", A, Results(m2, s, c).flat(), N, f"{c} ({how}) after shuffled queries and {log}")
    mon.sig(frame_sig(s), how, len(order), log)
