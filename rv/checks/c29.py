"""C29: the printed report shows the model and the results it is asked for."""
import os, re
from html.parser import HTMLParser
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *
from .c28 import model

NODE_D = ("DX", "DY", "DZ", "RX", "RY", "RZ")
SECTIONS = ["node_table", "member_table", "member_releases", "plate_table", "node_reactions", "node_displacements", "member_end_forces", "member_internal_forces",
            "plate_corner_forces", "plate_center_forces", "plate_corner_membrane", "plate_center_membrane"]


class Tables(HTMLParser):
    """[(heading, [row of cell texts])] of an HTML page."""

    def __init__(self, html):
        super().__init__()
        self.out, self.head, self.cell, self.tag = [], "", None, None
        self.feed(html)

    def handle_starttag(self, t, a):
        if t == "h3":
            self.head, self.tag = "", "h3"
        elif t == "table":
            self.out.append((" ".join(self.head.split()), []))
        elif t == "tr" and self.out:
            self.out[-1][1].append([])
        elif t == "td":
            self.cell = ""

    def handle_endtag(self, t):
        if t == "h3":
            self.tag = None
        elif t == "td":
            self.out[-1][1][-1].append(" ".join(self.cell.split()))
            self.cell = None

    def handle_data(self, d):
        if self.tag == "h3":
            self.head += d
        elif self.cell is not None:
            self.cell += d


def html(m, **kw):
    import pdfkit
    from PyNite import Reporting
    got = []
    old, pdfkit.from_string = pdfkit.from_string, lambda h, *a, **k: got.append(h)
    try:
        Reporting.create_report(m, output_filepath=os.devnull, **kw)
    finally:
        pdfkit.from_string = old
    if len(got) != 1:
        raise HarnessError("the report was not handed to the converter once")
    return got[0]


def plate_pts(e):
    """Corners i, j, m, n and the centre in the coordinates of a rectangular plate, from the nodes' positions."""
    X = np.array([[n.X, n.Y, n.Z] for n in (e.i_node, e.j_node, e.m_node, e.n_node)], float)
    x, y = X[1] - X[0], X[3] - X[0]
    x, y = x / np.linalg.norm(x), y / np.linalg.norm(y)
    P = [(float((p - X[0]) @ x), float((p - X[0]) @ y)) for p in X]
    return P + [tuple(np.mean(P, axis=0))]


QUAD_PTS = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)]


def expected(m, cs):
    """{section: [(heading words, rows)]}: names as text, numbers as numbers."""
    N, M, P, Q = m.nodes.values(), m.members.values(), m.plates.values(), m.quads.values()
    e = {}
    e["node_table"] = [[n.name, n.X, n.Y, n.Z] + [bool(getattr(n, "support_" + d)) for d in NODE_D] for n in N]
    e["member_table"] = [[b.name, b.i_node.name, b.j_node.name, b.A, b.Iy, b.Iz, b.J, b.E, b.G] for b in M]
    e["member_releases"] = [[b.name] + [bool(x) for x in b.Releases] for b in M]
    for k, L in (("plates", P), ("quads", Q)):
        e[k] = [[b.name] + [n.name for n in (b.i_node, b.j_node, b.m_node, b.n_node)] + [b.t, b.E, b.nu] for b in L]
    e["node_reactions"] = [[n.name, c] + [getattr(n, "Rxn" + q)[c] for q in ("FX", "FY", "FZ", "MX", "MY", "MZ")] for c in cs for n in N]
    e["node_displacements"] = [[n.name, c] + [getattr(n, q)[c] for q in NODE_D] for c in cs for n in N]
    ends, ext = [], []
    for c in cs:
        for b in M:
            L = b.L()
            ends.append([b.name, c, b.axial(0, c), b.axial(L, c), b.shear("Fy", 0, c), b.shear("Fz", 0, c), b.shear("Fy", L, c), b.shear("Fz", L, c), b.moment("My", 0, c), b.moment("Mz", 0, c),
                         b.moment("My", L, c), b.moment("Mz", L, c), b.torque(0, c), b.torque(L, c)])
            ext.append([b.name, c, b.max_axial(c), b.min_axial(c)] + [f(d, c) for d in ("Fy", "Fz") for f in (b.max_shear, b.min_shear)] + [f(d, c) for d in ("My", "Mz") for f in (b.max_moment, b.min_moment)]
                       + [b.max_torque(c), b.min_torque(c)])
    e["member_end_forces"], e["member_internal_forces"] = ends, ext
    for k in SECTIONS[8:]:
        e[k] = []
    for c in cs:
        for b in list(P) + list(Q):
            pts = plate_pts(b) if b in list(P) else QUAD_PTS
            bend = [list(np.ravel(np.asarray(b.shear(x, y, True, c), float))) + list(np.ravel(np.asarray(b.moment(x, y, True, c), float))) for x, y in pts]
            mem = [list(np.ravel(np.asarray(b.membrane(x, y, True, c), float))) for x, y in pts]
            e["plate_corner_forces"].append([b.name, c] + sum(bend[:4], []))
            e["plate_center_forces"].append([b.name, c] + bend[4])
            e["plate_corner_membrane"].append([b.name, c] + sum(mem[:4], []))
            e["plate_center_membrane"].append([b.name, c] + mem[4])
    return e


TITLES = dict(node_table="Nodes & Supports", member_table="Members", member_releases="Member End Releases", plates="Plates", quads="Quads", node_reactions="Node Reactions", node_displacements="Node Displacements",
              member_end_forces="Member End Forces", member_internal_forces="Member Max/Min Internal Forces", plate_corner_forces="Plate Out-of-Plane Corner Forces", plate_center_forces="Plate Out-of-Plane Center Forces",
              plate_corner_membrane="In-Plane (Membrane) Corner Stresses", plate_center_membrane="In-Plane (Membrane) Center Stresses")


def compare(mon, key, rows, want, digits):
    if not mon.true("rows of a table", len(rows) == len(want), lambda: f"{TITLES[key]}: {len(rows)} rows instead of {len(want)}"):
        return
    if not want:
        return
    # rounding noise of the analysis, per kind of quantity: groups of columns
    num = [[v for v in w if not isinstance(v, (str, bool))] for w in want]
    scale = max((abs(v) for r in num for v in r), default=0.0) if key not in ("node_table", "member_table", "plates", "quads") else 0.0
    for got, w in zip(rows, want):
        if not mon.true("cells of a row", len(got) == len(w), lambda: f"{TITLES[key]}: row {got} has {len(got)} cells instead of {len(w)}"):
            return
        for k, (g, v) in enumerate(zip(got, w)):
            if isinstance(v, (str, bool)):
                if not mon.true("names and flags", g == str(v), lambda: f"{TITLES[key]}: row {got} column {k}: {g!r} instead of {v!r}"):
                    return
            else:
                try:
                    x = float(g)
                except ValueError:
                    mon.fail("numbers", f"{TITLES[key]}: row {got} column {k}: {g!r} instead of {v!r}")
                    return
                if not mon.near("numbers", x, float(v), 0.51 * 10.0 ** (1 - digits) * abs(v) + 1e-9 * scale + 1e-300, lambda: f"{TITLES[key]}: row {got[:2]} column {k}"):
                    return


@check("C29", rule="random frames (one-way included) and slabs, analysed by every driver, with all combinations or those of some tags: the HTML handed to the PDF converter is parsed and every cell of every table compared "
       "with the same query on an identical model; sections are switched off at random; models not yet analysed, analysed again with other tags, or with results deleted",
       quick=1800, needs=("numbers", "names and flags", "sections shown", "tagged analysis", "not analysed", "plates reported", "quads reported", "members reported", "results deleted"))
def case(r, mon, i):
    s, u = model(r)
    ow = any(d.get("t") or d.get("c") for k in ("members", "springs") for d in s[k].values()) or any(x[3] for x in s["spsup"])
    tags = r.random() < 0.5
    if tags:
        for c in s["combos"].values():
            c[1] = r.sample(["a", "b", "c"], r.randint(0, 2))
    mon.case(s)
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    how = "analyze" if ow else r.choice(["analyze", "analyze", "linear", "pdelta"])
    m, twin = S.build(s), S.build(s)

    def run(m, t=None):
        try:
            dict(analyze=m.analyze, linear=m.analyze_linear, pdelta=m.analyze_PDelta)[how](combo_tags=t) if how != "linear" else m.analyze_linear(combo_tags=t)
        except Exception as e:
            if "singular" in str(e).lower() or "Unstable node" in str(e) or "diverged" in str(e):
                raise Skip("reported unstable")
            raise

    steps = []
    k = r.random()
    if k < 0.08:
        mon.ev("not analysed")
    else:
        ts = None
        if tags and k < 0.75:
            ts = r.sample(["a", "b", "c"], r.randint(1, 2))
            if not any(set(ts) & set(c[1] or []) for c in s["combos"].values()):
                ts = None
        steps.append(ts)
        if ts and r.random() < 0.4:
            t2 = r.sample(["a", "b", "c"], r.randint(1, 2))
            if any(set(t2) & set(c[1] or []) for c in s["combos"].values()):
                steps.append(t2)
        for t in steps:
            run(m, t)
            run(twin, t)
            mon.ev("tagged analysis", t is not None)
    if steps and r.random() < 0.1:
        m.delete_loads()
        twin.delete_loads()
        steps.append("deleted")
        mon.ev("results deleted")
    done = set()
    for t in steps:
        if t == "deleted":
            done = set()
        else:
            done = {c for c in twin.load_combos if t is None or set(t) & set(twin.load_combos[c].combo_tags or [])}
    cs = [c for c in twin.load_combos if c in done]
    off = [] if r.random() < 0.4 else r.sample(SECTIONS, r.randint(1, len(SECTIONS) - 1))
    kw = {k: False for k in off}
    kw.update({k: True for k in SECTIONS if k not in off and r.random() < 0.3})
    tabs = Tables(html(m, **kw)).out
    want = expected(twin, cs)
    if any(not abs(v) < 1e30 for rows in want.values() for row in rows for v in row if not isinstance(v, (str, bool))):
        mon.skip("a mechanism that was not recognised as such")
    names = []
    for k in SECTIONS:
        if k not in off:
            names += ["plates", "quads"] if k == "plate_table" else [k]
    if not mon.true("sections shown", sorted(h for h, _ in tabs) == sorted(TITLES[k] for k in names), lambda: f"sections {[h for h, _ in tabs]} instead of {[TITLES[k] for k in names]} ({off} switched off)"):
        return
    by = dict(tabs)
    for k in names:
        compare(mon, k, [x for x in by[TITLES[k]] if x], want[k], 3 if k.startswith("plate_") else 4)
    if cs:
        mon.ev("plates reported", len(m.plates))
        mon.ev("quads reported", len(m.quads))
        mon.ev("members reported", len(m.members))
    mon.sig(frame_sig(s), how, len(cs), len(steps), sorted(off))
