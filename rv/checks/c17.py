"""C17: adding, deleting and looking up parts of a model keeps it consistent."""
from ..core import check
from .. import gen, genp, spec as S, ops
from ..common import *

ELEMS = ("members", "springs", "plates", "quads")


def drop_node(s, n):
    del s["nodes"][n]
    gone = {}
    for k in ELEMS:
        gone[k] = [e for e, d in s[k].items() if n in (d.get(q) for q in "ijmn")]
        for e in gone[k]:
            del s[k][e]
    s["supports"].pop(n, None)
    for k in ("spsup", "enf", "nload"):
        s[k] = [l for l in s[k] if l[0] != n]
    drop_loads(s)


def drop_loads(s):
    s["mpt"] = [l for l in s["mpt"] if l[0] in s["members"]]
    s["mdist"] = [l for l in s["mdist"] if l[0] in s["members"]]
    s["ppress"] = [l for l in s["ppress"] if l[0] in s["plates"]]
    s["qpress"] = [l for l in s["qpress"] if l[0] in s["quads"]]


def mesh_model(r):
    """A model with a generated rectangular mesh and its spec."""
    from PyNite import FEModel3D
    s, u = gen.base(r)
    m = FEModel3D()
    for n, p in s["materials"].items():
        m.add_material(n, *p)
    typ = r.choice(["Quad", "Rect"])
    nx, ny = r.randint(2, 4), r.randint(2, 4)
    h = u["Ls"] / 3
    t = u["Ls"] / 25
    m.add_rectangle_mesh("MESH", h, nx * h, ny * h, t, "mat0", plane=r.choice(["XY", "YZ", "XZ"]), element_type=typ, start_node=r.choice([None, "N1", "N5"]), start_element=None)
    m.meshes["MESH"].generate()
    for n, q in m.nodes.items():
        s["nodes"][n] = [float(q.X), float(q.Y), float(q.Z)]
    k = "quads" if typ == "Quad" else "plates"
    for n, q in getattr(m, k).items():
        s[k][n] = dict(i=q.i_node.name, j=q.j_node.name, m=q.m_node.name, n=q.n_node.name, t=t, mat="mat0")
    for n in list(s["nodes"]):
        if r.random() < 0.4:
            s["supports"][n] = [1] * 6
            m.def_support(n, *[True] * 6)
    for e in s[k]:
        ld = "qpress" if k == "quads" else "ppress"
        s[ld].append([e, u["F"] / u["Ls"] ** 2, "Case 1"])
        (m.add_quad_surface_pressure if k == "quads" else m.add_plate_surface_pressure)(*s[ld][-1])
    s["combos"]["LC0"] = [{"Case 1": 1.0}, None]
    m.add_load_combo("LC0", {"Case 1": 1.0})
    return s, u, m


def consistent(mon, s, m, what):
    """Every cross reference inside the model leads to something that is part of it, and the model holds what it should."""
    ok = True
    ok &= mon.true("contents", set(m.nodes) == set(s["nodes"]), lambda: f"nodes {sorted(set(m.nodes) ^ set(s['nodes']))} missing or left over after {what}")
    for k in ELEMS:
        ok &= mon.true("contents", set(getattr(m, k)) == set(s[k]), lambda: f"{k} {sorted(set(getattr(m, k)) ^ set(s[k]))} missing or left over after {what}")
    for d in (m.nodes, m.aux_nodes, m.members, m.springs, m.plates, m.quads, m.load_combos):
        for n, o in d.items():
            ok &= mon.true("stored under its name", o.name == n, lambda: f"{o.name} stored as {n} after {what}")
    for k in ELEMS:
        for n, o in getattr(m, k).items():
            for q in "ijmn":
                nd = getattr(o, q + "_node", None)
                if nd is not None:
                    ok &= mon.true("references", m.nodes.get(nd.name) is nd, lambda: f"{k} {n}: {q} node {nd.name} is not the model's after {what}")
                    if n in s[k]:
                        ok &= mon.true("references", nd.name == s[k][n][q], lambda: f"{k} {n}: {q} node is {nd.name} instead of {s[k][n][q]} after {what}")
    for n, o in m.members.items():
        if o.auxNode is not None:
            ok &= mon.true("references", m.aux_nodes.get(o.auxNode.name) is o.auxNode, lambda: f"member {n}: auxiliary node {o.auxNode.name} is not the model's after {what}")
    for mn, me in m.meshes.items():
        for n, o in me.elements.items():
            ok &= mon.true("references", m.quads.get(o.name) is o or m.plates.get(o.name) is o, lambda: f"mesh {mn}: element {n} is not the model's after {what}")
        for n, o in me.nodes.items():
            ok &= mon.true("references", m.nodes.get(o.name) is o, lambda: f"mesh {mn}: node {n} is not the model's after {what}")
    used = {d[q] for k in ELEMS for d in s[k].values() for q in "ijmn" if q in d}
    got = m.orphaned_nodes()
    ok &= mon.true("orphaned nodes", sorted(got) == sorted(set(s["nodes"]) - used), lambda: f"orphaned_nodes gives {sorted(got)}, expected {sorted(set(s['nodes']) - used)} after {what}")
    ok &= mon.true("load cases", list(m.load_cases) == S.cases_of(s), lambda: f"load_cases gives {m.load_cases}, expected {S.cases_of(s)} after {what}")
    return ok


@check("C17", rule="random frames, slabs and meshed models go through random sequences of edits (nodes, auxiliary nodes, members and springs deleted and added again under old or automatic names, loads, supports), with analyses "
       "in between; after each edit all cross references, contents, orphaned nodes and load cases are compared with the bookkeeping of the edits, and the final model's results with those of a model built afresh",
       quick=1300, needs=("references", "orphaned nodes", "load cases", "node deleted", "auxiliary node deleted", "added again", "same as fresh", "bad deletion refused", "mesh results"))
def case(r, mon, i):
    k = r.random()
    if k < 0.5:
        s, u = gen.frame(r)
        s = S.explicit_sw(s)
        m = S.build(s)
    elif k < 0.75:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3))
        s = S.explicit_sw(s)
        m = S.build(s)
    else:
        s, u, m = mesh_model(r)
    mon.case(S.clone(s))
    log = []
    consistent(mon, s, m, "building")
    for step in range(r.choice([2, 4, 7])):
        a = r.random()
        t = None
        if a < 0.2 and len(s["nodes"]) > 2:
            n = r.choice(list(s["nodes"]))
            old = S.clone(s)
            drop_node(s, n)
            m.delete_node(n)
            mon.ev("node deleted")
            t = ("delete node", n)
            if r.random() < 0.5:
                # put it back under the same name, elements and all: nothing of the old one may linger
                s["nodes"][n] = [float(v) for v in old["nodes"][n]]
                m.add_node(n, *s["nodes"][n])
                for e, d in old["members"].items():
                    if e not in s["members"]:
                        s["members"][e] = dict(d, rel=[0] * 12)
                        A, Iy, Iz, J = S.mprops(old, d)
                        m.add_member(e, d["i"], d["j"], d["mat"], Iy, Iz, J, A, d.get("aux"), d["t"], d["c"])
                for e, d in old["springs"].items():
                    if e not in s["springs"]:
                        s["springs"][e] = dict(d)
                        m.add_spring(e, d["i"], d["j"], d["ks"], d["t"], d["c"])
                for kk, f in (("plates", m.add_plate), ("quads", m.add_quad)):
                    for e, d in old[kk].items():
                        if e not in s[kk]:
                            s[kk][e] = dict(d)
                            f(e, d["i"], d["j"], d["m"], d["n"], d["t"], d["mat"])
                mon.ev("added again")
                t = ("delete and add node", n)
        elif a < 0.3 and s["aux"]:
            n = r.choice(list(s["aux"]))
            del s["aux"][n]
            for d in s["members"].values():
                if d.get("aux") == n:
                    d["aux"] = None
            m.delete_auxnode(n)
            mon.ev("auxiliary node deleted")
            t = ("delete auxiliary node", n)
        elif a < 0.4 and s["members"]:
            n = r.choice(list(s["members"]))
            del s["members"][n]
            drop_loads(s)
            m.delete_member(n)
            t = ("delete member", n)
        elif a < 0.45:
            # deleting what isn't there is refused and changes nothing
            f = r.choice([m.delete_node, m.delete_member, m.delete_spring, m.delete_auxnode])
            try:
                f("no such thing")
                mon.fail("bad deletion refused", f"{f.__name__} of an unknown name passed")
            except (KeyError, NameError):
                mon.ev("bad deletion refused")
            t = ("bad deletion",)
        elif a < 0.55 and len(s["nodes"]) > 1:
            # automatic names never take one that is in use
            x, y = r.sample(list(s["nodes"]), 2)
            nm = m.add_spring(None, x, y, u["E"] * u["I"] / u["Ls"] ** 3)
            mon.true("automatic name", nm not in s["springs"] and nm in m.springs, lambda: f"spring named {nm}, there was {sorted(s['springs'])}")
            s["springs"][nm] = dict(i=x, j=y, ks=u["E"] * u["I"] / u["Ls"] ** 3, t=False, c=False)
            p = [float(v) for v in S.vec(s, x) + np.array([1.1, 2.3, 1.7]) * u["Ls"] * r.uniform(2, 3)]
            nn = m.add_node(None, *p)
            mon.true("automatic name", nn not in s["nodes"] and nn in m.nodes, lambda: f"node named {nn}, there was {sorted(s['nodes'])}")
            s["nodes"][nn] = p
            mm = m.add_member(None, x, nn, list(s["materials"])[0], u["I"], u["I"], u["I"], u["A"])
            mon.true("automatic name", mm not in s["members"] and mm in m.members, lambda: f"member named {mm}, there was {sorted(s['members'])}")
            s["members"][mm] = dict(i=x, j=nn, mat=list(s["materials"])[0], Iy=u["I"], Iz=u["I"], J=u["I"], A=u["A"], t=False, c=False, aux=None, rel=[0] * 12)
            t = ("automatic names", nm, nn, mm)
        elif a < 0.65:
            try:
                m.analyze()
                t = ("analyze",)
            except Exception as e:
                if "singular" not in str(e) and "Unstable" not in str(e):
                    raise
                t = ("analyze failed",)
        else:
            f = r.choice([ops.op_node_load, ops.op_member_load, ops.op_pressure, ops.op_support, ops.op_support_spring, ops.op_add_member, ops.op_delete_spring, ops.op_combo, ops.op_releases])
            t = f(r, s, m, u)
        if t:
            log.append(t)
            if not consistent(mon, s, m, log):
                return
    mon.ev("edits", len(log))
    # results
    if not s["nodes"]:
        return
    cs = list(combos(s))
    fr = S.build(s)
    try:
        analyze(fr, r)
    except Exception as e:
        if "singular" not in str(e) and "Unstable" not in str(e):
            raise
        mon.sig(frame_sig(s), [l[0] for l in log])
        return
    try:
        N = Noise(fr, s, cs)
    except Skip:
        mon.sig(frame_sig(s), [l[0] for l in log])
        return
    try:
        analyze(m, r)
    except Exception as e:
        if "singular" not in str(e) and "Unstable" not in str(e):
            raise
        mon.fail("same as fresh", f"fails ({e}) although a fresh model solves; edits {log}")
        return
    for c in cs:
        same(mon, "same as fresh", Results(fr, s, c).flat(), Results(m, s, c).flat(), N, f"{c} edits {log}")
    for me in m.meshes.values():
        if me.elements:
            for q in ("Mx", "My", "Mxy"):
                hi, lo = me.max_moment(q), me.min_moment(q)
                mon.true("mesh results", np.isfinite(hi) and np.isfinite(lo) and hi >= lo, lambda: f"{q} {hi} {lo}")
    mon.sig(frame_sig(s), [l[0] for l in log], len(s["quads"]), len(s["plates"]))
