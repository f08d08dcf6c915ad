"""Edits applied to a PyNite model and to its spec alike.  Each op is (name, fn(r, s, m, u)) and changes both in step;
returns a description or None when it does not apply."""
import numpy as np
from . import gen, spec as S


def members(s):
    return list(s["members"])


def op_node_load(r, s, m, u):
    d = r.choice(S.FDIR)
    l = [r.choice(list(s["nodes"])), d, gen.sgn(r) * gen.rnd(r, 0.2, 2) * u["F"] * (u["Ls"] / 4 if d[0] == "M" else 1), r.choice(gen.CASES)]
    s["nload"].append(l)
    m.add_node_load(*l)
    return "node load", l


def op_member_load(r, s, m, u):
    if not s["members"]:
        return
    t = S.new()
    t.update(nodes=s["nodes"], members=s["members"], aux=s["aux"])
    gen.add_member_loads(r, t, u, n=1)
    s["mpt"] += t["mpt"]
    s["mdist"] += t["mdist"]
    for l in t["mpt"]:
        m.add_member_pt_load(*l)
    for l in t["mdist"]:
        m.add_member_dist_load(*l)
    return "member load", t["mpt"] + t["mdist"]


def op_pressure(r, s, m, u):
    for key, ld, f in (("quads", "qpress", m.add_quad_surface_pressure), ("plates", "ppress", m.add_plate_surface_pressure)):
        if s[key]:
            l = [r.choice(list(s[key])), gen.sgn(r) * gen.rnd(r, 0.3, 2) * u["F"] / u["Ls"] ** 2, r.choice(gen.CASES)]
            s[ld].append(l)
            f(*l)
            return "pressure", l


def op_self_weight(r, s, m, u):
    if not s["members"]:
        return
    l = [r.choice(["FX", "FY", "FZ"]), gen.sgn(r) * r.choice([1.0, 0.7]), r.choice(gen.CASES)]
    # (self weight is a distributed load on the members present when it is added)
    for n, md in s["members"].items():
        w = l[1] * s["materials"][md["mat"]][3] * S.mprops(s, md)[0]
        s["mdist"].append([n, l[0], w, w, None, None, l[2]])
    m.add_member_self_weight(*l)
    return "self weight", l


def op_combo(r, s, m, u):
    used = S.cases_of(s) or ["Case 1"]
    n = r.choice(list(s["combos"]) + [f"LC{k}" for k in range(4)])
    f = {c: r.choice([1.0, 1.2, -1.0, 0.5]) for c in used if r.random() < 0.7} or {used[0]: 1.0}
    s["combos"][n] = [dict(f), None]
    m.add_load_combo(n, dict(f))
    return "combination", n, f


def op_reverse(r, s, m, u):
    n = r.choice(list(s["combos"]))
    f = {c: -v for c, v in s["combos"][n][0].items()}
    s["combos"][n] = [dict(f), s["combos"][n][1]]
    m.add_load_combo(n, dict(f), s["combos"][n][1])
    return "reverse", n


def op_support(r, s, m, u):
    n = r.choice(list(s["nodes"]))
    v = [int(r.random() < 0.5) for _ in range(6)]
    if n in s["supports"] and r.random() < 0.7:
        v = [max(a, b) for a, b in zip(v, s["supports"][n])]
    for l in s["enf"]:
        if l[0] == n:
            v[S.DOFS.index(l[1])] = 1
    s["supports"][n] = v
    m.def_support(n, *[bool(x) for x in v])
    return "support", n, v


def op_support_spring(r, s, m, u):
    n, dof = r.choice(list(s["nodes"])), r.choice(S.DOFS)
    k = u["E"] * u["I"] / u["Ls"] ** 3 * gen.rnd(r, 1, 50) * (u["Ls"] ** 2 if dof[0] == "R" else 1)
    s["spsup"] = [l for l in s["spsup"] if not (l[0] == n and l[1] == dof)] + [[n, dof, k, None]]
    m.def_support_spring(n, dof, k, None)
    return "support spring", n, dof, k


def op_settlement(r, s, m, u):
    sup = [(n, q) for n, v in s["supports"].items() for q in range(6) if v[q]]
    if not sup:
        return
    n, q = r.choice(sup)
    v = gen.sgn(r) * gen.rnd(r, 0.1, 1) * 1e-3 * (u["Ls"] if q < 3 else 1)
    s["enf"] = [l for l in s["enf"] if not (l[0] == n and l[1] == S.DOFS[q])]
    if r.random() < 0.3:
        v = None
    else:
        s["enf"].append([n, S.DOFS[q], v])
    m.def_node_disp(n, S.DOFS[q], v)
    return "settlement", n, S.DOFS[q], v


def op_releases(r, s, m, u):
    if not s["members"]:
        return
    n = r.choice(members(s))
    v = list(r.choice(gen.REL_SETS))
    s["members"][n]["rel"] = v
    m.def_releases(n, *[bool(x) for x in v])
    return "releases", n, v


def op_property(r, s, m, u):
    k = r.choice(["A", "Iy", "Iz", "J", "E", "ks", "t"])
    if k in ("A", "Iy", "Iz", "J"):
        c = [n for n, d in s["members"].items() if not d.get("section")]
        if not c:
            return
        n = r.choice(c)
        s["members"][n][k] *= 1.5
        setattr(m.members[n], k, s["members"][n][k])
        return k, n
    if k == "E":
        n = r.choice(list(s["materials"]))
        s["materials"][n][0] *= 1.25
        m.materials[n].E = s["materials"][n][0]
        for q in m.members.values():
            if q.material_name == n:
                q.E = s["materials"][n][0]
        for q in list(m.plates.values()) + list(m.quads.values()):
            if getattr(q, "E", None) is not None and [d["mat"] for kk in ("plates", "quads") for p, d in s[kk].items() if p == q.name][0] == n:
                q.E = s["materials"][n][0]
        return "E", n
    if k == "ks":
        if not s["springs"]:
            return
        n = r.choice(list(s["springs"]))
        s["springs"][n]["ks"] *= 2.0
        m.springs[n].ks = s["springs"][n]["ks"]
        return "ks", n
    key = "quads" if s["quads"] else "plates"
    if not s[key]:
        return
    n = r.choice(list(s[key]))
    s[key][n]["t"] *= 1.2
    getattr(m, key)[n].t = s[key][n]["t"]
    return "t", n


def op_add_member(r, s, m, u):
    n0 = list(s["nodes"])
    if len(n0) < 2:
        return
    a = r.choice(n0)
    nn = f"J{len(s['nodes'])}"
    if nn in s["nodes"]:
        return
    p = S.vec(s, a) + gen.direction(r) * u["Ls"] * r.uniform(0.3, 0.8)
    # keep clear of everything else
    for q in s["nodes"]:
        if np.linalg.norm(S.vec(s, q) - p) < 0.02 * u["Ls"]:
            return
    t = dict(s, nodes=dict(s["nodes"], **{nn: [float(v) for v in p]}))
    if gen._hits(t, nn, a):
        return
    name = f"MN{len(s['members'])}"
    if name in s["members"]:
        return
    d = dict(i=a, j=nn, mat=r.choice(list(s["materials"])), t=False, c=False, aux=None, rel=[0] * 12, **gen.props(r, u))
    t["members"] = dict(s["members"], **{name: d})
    if S.interior_nodes(t, name):
        return
    s["nodes"][nn] = t["nodes"][nn]
    s["members"][name] = d
    m.add_node(nn, *s["nodes"][nn])
    m.add_member(name, a, nn, d["mat"], d["Iy"], d["Iz"], d["J"], d["A"])
    return "member", name, a, nn


def op_delete_member(r, s, m, u):
    # (only members whose removal leaves no node hanging: both ends are used by something else)
    use = {}
    for k in ("members", "plates", "quads"):
        for n, d in s[k].items():
            for q in "ijmn":
                if q in d:
                    use.setdefault(d[q], set()).add((k, n))
    c = [n for n, d in s["members"].items() if all(len(use[d[q]]) > 1 or all(s["supports"].get(d[q], [0] * 6)) for q in "ij") and not S.interior_nodes(s, n)]
    if not c:
        return
    n = r.choice(c)
    del s["members"][n]
    s["mpt"] = [l for l in s["mpt"] if l[0] != n]
    s["mdist"] = [l for l in s["mdist"] if l[0] != n]
    m.delete_member(n)
    return "delete member", n


def op_delete_spring(r, s, m, u):
    if not s["springs"]:
        return
    n = r.choice(list(s["springs"]))
    del s["springs"][n]
    m.delete_spring(n)
    return "delete spring", n


def op_delete_loads(r, s, m, u):
    for k in ("nload", "mpt", "mdist", "sw", "ppress", "qpress"):
        s[k] = []
    m.delete_loads()
    d = op_node_load(r, s, m, u)
    if r.random() < 0.5:
        op_member_load(r, s, m, u)
    return "delete loads", d


def op_move_node(r, s, m, u):
    """Nudge the free end of a cantilever: nothing else may lie on the way."""
    use = {}
    for k in ("members", "plates", "quads", "springs"):
        for n, d in s[k].items():
            for q in "ijmn":
                if q in d:
                    use.setdefault(d[q], []).append((k, n))
    inter = {x for n in s["members"] for _, x in S.interior_nodes(s, n)}
    c = [n for n in s["nodes"] if n not in inter and all(k in ("members", "springs") and not (k == "members" and (S.interior_nodes(s, q) or s["members"][q].get("aux") or
         any(l[0] == q for l in s["mpt"] + s["mdist"]))) for k, q in use.get(n, [(0, 0)]))]
    if not c:
        return
    n = r.choice(c)
    p = S.vec(s, n) + np.array([r.uniform(-1, 1) for _ in range(3)]) * 0.07 * u["Ls"]
    t = dict(s, nodes=dict(s["nodes"], **{n: [float(v) for v in p]}))
    if gen._hits(t, n, n) or any(S.interior_nodes(t, q) for k, q in use[n] if k == "members"):
        return
    s["nodes"][n] = t["nodes"][n]
    m.nodes[n].X, m.nodes[n].Y, m.nodes[n].Z = s["nodes"][n]
    return "move node", n, s["nodes"][n]


EDITS = [op_node_load, op_member_load, op_pressure, op_self_weight, op_combo, op_support, op_support_spring, op_settlement, op_releases, op_property, op_add_member, op_delete_member,
         op_delete_spring, op_delete_loads, op_move_node]


def query_some(r, s, m):
    """Ask for a few results, whatever they are."""
    for c in list(m.load_combos):
        for n in s["members"]:
            if r.random() < 0.5 and n in m.members and m.members[n].sub_members:
                mem = m.members[n]
                q = [lambda: mem.max_moment("Mz", c), lambda: mem.min_shear("Fy", c), lambda: mem.moment_array("My", 5, c), lambda: mem.f(c), lambda: mem.axial(0.0, c), lambda: mem.max_torque(c)]
                q += [lambda: mem.rel_deflection("dz", 0.0, c), lambda: mem.max_deflection("dy", c), lambda: mem.deflection("dy", 0.0, c)]
                for f in r.sample(q, 3):
                    f()
        for k in ("quads", "plates"):
            for n in list(s[k])[:2]:
                q = getattr(m, k)[n]
                q.moment(0.1, 0.1, True, c), q.shear(0.1, 0.1, True, c), q.membrane(0.1, 0.1, True, c)
