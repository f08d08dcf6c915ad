"""C19: invalid definitions are refused and leave the model as it was."""
from ..core import check
from .. import gen, genp, spec as S, ops, oneway, snapshot
from ..common import *
from .c28 import model

WRONG = ["Fq", "fx", "", None, "X", "DX ", 3, "FXX"]


def bad_calls(r, m, s):
    """(label, call, documented exception types or None for any)."""
    N, M = list(m.nodes), list(m.members)
    no = r.choice(["nope", "N999", "M999", " "])
    n = r.choice(N)
    n2 = r.choice([q for q in N if q != n] or N)
    mat = r.choice(list(m.materials))
    P = dict(Iy=1.0, Iz=1.0, J=1.0, A=1.0)
    case = r.choice(["Case 1", "D", "new case"])
    v = r.uniform(-5, 5)
    q4 = [r.choice(N) for _ in range(4)]
    q4[r.randrange(4)] = no
    ends = r.choice([(n, no), (no, n), (no, no)])
    lbad = r.choice([w for w in WRONG if w not in ("FX",)])
    b = [("duplicate node", lambda: m.add_node(n, 1.0, 2.0, 3.0), NameError),
         ("duplicate material", lambda: m.add_material(mat, 1.0, 1.0, 0.3, 1.0), NameError),
         ("spring to no node", lambda: m.add_spring(r.choice(["new", None]), *ends, 1.0), KeyError),
         ("member to no node", lambda: m.add_member(r.choice(["new", None]), *ends, mat, **P), KeyError),
         ("member of no material", lambda: m.add_member(r.choice(["new", None]), n, n2, no, **P), KeyError),
         ("member of no section", lambda: m.add_member("new", n, n2, mat, section_name=no), KeyError),
         ("member with no auxiliary node", lambda: m.add_member("new", n, n2, mat, aux_node=no, **P), KeyError),
         ("plate to no node", lambda: m.add_plate(r.choice(["new", None]), *q4, 0.1, mat), KeyError),
         ("quad to no node", lambda: m.add_quad(r.choice(["new", None]), *q4, 0.1, mat), KeyError),
         ("plate of no material", lambda: m.add_plate("new", n, n2, n, n2, 0.1, no), KeyError),
         ("quad of no material", lambda: m.add_quad("new", n, n2, n, n2, 0.1, no), KeyError),
         ("support at no node", lambda: m.def_support(no, True, True, True, True, True, True), KeyError),
         ("support spring at no node", lambda: m.def_support_spring(no, "DY", 10.0), KeyError),
         ("support spring of no degree of freedom", lambda: m.def_support_spring(n, r.choice(["DQ", "FX", "dx", "", None]), 10.0), ValueError),
         ("support spring of no direction", lambda: m.def_support_spring(n, "DY", 10.0, r.choice(["x", "", "++", 1])), ValueError),
         ("settlement at no node", lambda: m.def_node_disp(no, "DY", 0.1), KeyError),
         ("settlement of no direction", lambda: m.def_node_disp(n, r.choice(["DQ", "FX", "dx", "", None]), 0.1), ValueError),
         ("load on no node", lambda: m.add_node_load(no, "FX", v, case), KeyError),
         ("node load of no direction", lambda: m.add_node_load(n, r.choice(["Fx", "DX", "", None, "F"]), v, case), ValueError),
         ("load on no member", lambda: m.add_member_pt_load(no, "Fy", v, 0.1, case), KeyError),
         ("distributed load on no member", lambda: m.add_member_dist_load(no, "Fy", v, v, *r.choice([(), (0.0, 0.1)]), case=case), KeyError),
         ("pressure on no plate", lambda: m.add_plate_surface_pressure(no, v, case), None),
         ("pressure on no quad", lambda: m.add_quad_surface_pressure(no, v, case), None),
         ("releases of no member", lambda: m.def_releases(no, Ryi=True), KeyError),
         ("deleting no node", lambda: m.delete_node(no), KeyError),
         ("deleting no member", lambda: m.delete_member(no), KeyError),
         ("deleting no spring", lambda: m.delete_spring(no), KeyError),
         ("deleting no auxiliary node", lambda: m.delete_auxnode(no), KeyError),
         ("cylinder of no material", lambda: m.add_cylinder_mesh(None, 1.0, 2.0, 3.0, 0.1, no, start_node=r.choice([None, "N1"])), KeyError),
         ("cylinder of no axis", lambda: m.add_cylinder_mesh(None, 1.0, 2.0, 3.0, 0.1, mat, axis=r.choice(["Q", "y", "XY"])), None)]
    if m.aux_nodes:
        b.append(("duplicate auxiliary node", lambda: m.add_auxnode(r.choice(list(m.aux_nodes)), 0.0, 0.0, 1.0), NameError))
    if m.sections:
        b.append(("duplicate section", lambda: m.add_section(r.choice(list(m.sections)), next(iter(m.sections.values()))), None))
    if m.springs:
        b.append(("duplicate spring", lambda: m.add_spring(r.choice(list(m.springs)), n, n2, 7.0, True), NameError))
    if M:
        mb = r.choice(M)
        b += [("duplicate member", lambda: m.add_member(mb, n, n2, mat, **P), NameError),
              ("point load of no direction", lambda: m.add_member_pt_load(mb, lbad, v, 0.1, case), ValueError),
              ("distributed load of no direction", lambda: m.add_member_dist_load(mb, r.choice(["Mx", "MZ", lbad]), v, v, 0.0, 0.1, case), ValueError),
              ("self weight of no direction", lambda: m.add_member_self_weight(r.choice(["MX", "FQ", ""]), 1.0, case), ValueError)]
    for kind, f in (("plate", m.add_plate), ("quad", m.add_quad)):
        d = getattr(m, kind + "s")
        if d:
            b.append((f"duplicate {kind}", lambda f=f, d=d: f(r.choice(list(d)), n, n2, n, n2, 0.1, mat), NameError))
    if m.meshes:
        me = r.choice(list(m.meshes))
        b += [("duplicate mesh", lambda: r.choice([lambda: m.add_rectangle_mesh(me, 1.0, 2.0, 2.0, 0.1, mat), lambda: m.add_annulus_mesh(me, 1.0, 5.0, 2.0, 0.1, mat),
                                                   lambda: m.add_frustrum_mesh(me, 1.0, 5.0, 2.0, 3.0, 0.1, mat), lambda: m.add_cylinder_mesh(me, 1.0, 2.0, 2.0, 0.1, mat)])(), NameError),
              ("mesh extreme of no direction", lambda: r.choice([m.meshes[me].max_moment, m.meshes[me].min_moment, m.meshes[me].max_shear, m.meshes[me].min_shear])("Nx"), None)]
    return b


def bad_queries(r, m):
    """Results asked for at places that are not on the member."""
    mem = m.members[r.choice(list(m.members))]
    c = r.choice(list(m.load_combos))
    L = mem.L()
    off = r.choice([-0.1, -1e-3, 1.001, 1.2, 5.0]) * L
    xa = np.array([0.2 * L, off, 0.7 * L][:r.choice([2, 3])])
    over = r.choice([1.001, 1.5, 7.0]) * L
    q = [("array", f, args) for f, args in (("shear_array", ["Fy"]), ("shear_array", ["Fz"]), ("moment_array", ["My"]), ("moment_array", ["Mz"]), ("axial_array", []), ("torque_array", []),
                                            ("deflection_array", ["dx"]), ("deflection_array", ["dy"]), ("deflection_array", ["dz"]), ("rel_deflection_array", ["dy"]), ("rel_deflection_array", ["dz"]))]
    q = [(f"{f} beyond the member", lambda f=f, a=a: getattr(mem, f)(*a, len(xa), c, xa), ValueError) for _, f, a in q]
    q += [(f"{f} beyond the member", lambda f=f, a=a: getattr(mem, f)(*a, over, c), ValueError)
          for f, a in (("shear", ["Fy"]), ("moment", ["Mz"]), ("axial", []), ("torque", []), ("deflection", ["dy"]))]
    return q


def refuse(r, mon, m, s, results):
    lab, f, exc = r.choice(bad_queries(r, m) if results and m.members and r.random() < 0.3 else bad_calls(r, m, s))
    before = snapshot.snap(m, results=results, state=results)
    try:
        f()
    except Exception as e:
        mon.ev("refused: " + lab)
        mon.ev("refused")
        if exc:
            mon.true("documented error", isinstance(e, exc), lambda: f"{lab}: {type(e).__name__}: {e}")
    else:
        mon.fail("refused", f"{lab} was accepted")
    d = snapshot.diff(before, snapshot.snap(m, results=results, state=results))
    mon.true("left as it was", d is None, lambda: f"after refusing '{lab}': {d}")
    return lab


@check("C19", rule="calls that define, load, support or delete something with a name already in use, a node, material, section, member, plate or quad that isn't in the model, or a direction or degree of freedom that doesn't exist "
       "are mixed at random into the editing of random frames, slabs and meshed models, before and after analyses: each must raise an error (the documented type), leave definition and results as they were, and have no effect on "
       "the next analysis, which is compared with that of a model that never saw them",
       quick=1100, needs=("refused", "documented error", "left as it was", "same as without", "refused after analysis"))
def case(r, mon, i):
    s, u = model(r)
    mon.case(s)
    ow = any(d.get("t") or d.get("c") for k in ("members", "springs") for d in s[k].values()) or any(x[3] for x in s["spsup"])
    m = S.build(s)
    if r.random() < 0.3:
        # a mesh of its own, not connected but held everywhere
        h = u["Ls"]
        m.add_rectangle_mesh("MESH", h, 2 * h, h, h / 10, next(iter(m.materials)), origin=[50 * h, 0, 0])
        held = set(m.nodes)
        m.meshes["MESH"].generate()
        for n in list(m.nodes):
            if n not in held:
                m.def_support(n, True, True, True, True, True, True)
    labs = []
    for _ in range(r.choice([2, 4, 8])):
        labs.append(refuse(r, mon, m, s, False))
        if r.random() < 0.25:
            f = r.choice([ops.op_node_load, ops.op_member_load, ops.op_support, ops.op_combo])
            f(r, s, m, u)
    if ow and oneway.borderline(s, combos(s).values()):
        mon.skip("a one-way decision is within rounding error")
    how = "analyze" if ow else r.choice(["analyze", "linear"])
    fr = S.build(s)
    try:
        analyze(fr, r, how)
    except Exception as e:
        if any(t in str(e) for t in ("singular", "Unstable", "diverged")):
            mon.skip("reported unstable")
        raise
    cs = list(combos(s))
    N = Noise(fr, s, cs)
    analyze(m, r, how)
    for c in cs:
        same(mon, "same as without", Results(fr, s, c).flat(), Results(m, s, c).flat(), N, lambda: f"{c} after {labs}")
    for _ in range(r.choice([3, 6])):
        labs.append(refuse(r, mon, m, s, True))
        mon.ev("refused after analysis")
    for c in cs:
        same(mon, "same as without", Results(fr, s, c).flat(), Results(m, s, c).flat(), N, lambda: f"{c} after {labs}")
    mon.sig(sorted(set(labs)), len(s["nodes"]), len(s["members"]))
