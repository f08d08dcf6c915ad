"""Random model generators.  Every generator takes a random.Random and returns a spec (see spec.py)."""
import math
import numpy as np
from . import spec as S

UNITS = [  # E, G, nu, rho, length scale, A, I, force scale
    dict(E=29000.0, nu=0.3, rho=2.836e-4, Ls=100.0, A=10.0, I=150.0, F=10.0),        # kip, inch
    dict(E=200e9, nu=0.3, rho=7850 * 9.81, Ls=5.0, A=6e-3, I=6e-5, F=2e4),            # N, m
    dict(E=200e6, nu=0.27, rho=77.0, Ls=6.0, A=8e-3, I=9e-5, F=30.0),                 # kN, m
    dict(E=1000.0, nu=0.2, rho=0.5, Ls=4.0, A=0.5, I=0.08, F=1.0),                    # toy
]


def rnd(r, a, b, nd=4):
    v = r.uniform(a, b)
    return float(f"%.{nd}g" % v)


def sgn(r):
    return -1.0 if r.random() < 0.5 else 1.0


def base(r):
    u = dict(r.choice(UNITS))
    s = S.new()
    for k in range(r.choice([1, 1, 2])):
        nu = u["nu"]
        E = u["E"] * r.choice([1, 1, 0.35, 1.7])
        s["materials"][f"mat{k}"] = [E, E / 2 / (1 + nu) * r.choice([1, 0.8]), nu, u["rho"] * r.choice([1, 0.5])]
    return s, u


def props(r, u):
    k = r.uniform(0.5, 2)
    return dict(Iy=rnd(r, 0.2, 2) * u["I"], Iz=rnd(r, 0.4, 3) * u["I"], J=rnd(r, 0.2, 2) * u["I"], A=rnd(r, 0.5, 2) * u["A"])


DIRECTIONS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (-1, 2, 1),
              (2, -1, 3), (1, -3, -2), None]


def direction(r):
    d = r.choice(DIRECTIONS)
    if d is None:
        while True:
            d = [r.uniform(-1, 1) for _ in range(3)]
            if np.linalg.norm(d) > 0.3:
                break
    d = np.array(d, float)
    return d / np.linalg.norm(d)


CASES = ["Case 1", "D", "L", "W"]


def rand_load_interval(r, L, bps=()):
    """Load extent: full (None), full explicit, partial, starting/ending exactly at an interior node."""
    k = r.random()
    if k < 0.2:
        return None, None
    if k < 0.3:
        return 0, L
    pts = [0.0, L] + list(bps)
    if k < 0.5 and bps:
        a, b = sorted(r.sample(pts, 2))
        if b - a > 1e-6 * L:
            if k < 0.42:
                # ends just before or behind a node
                e = L * r.choice([3e-5, 1e-4, 3e-4])
                e1, e2 = r.choice([(0, e), (0, e), (0, -e), (e, 0), (-e, 0), (-e, e)])
                a, b = max(a + e1, 0.0), min(b + e2, L)
            return a, b
    a, b = sorted([r.uniform(0, L), r.uniform(0, L)])
    if b - a < 0.02 * L:
        a, b = 0.1 * L, 0.9 * L
    if r.random() < 0.15:
        a = 0.0
    if r.random() < 0.15:
        b = L
    return a, b


def add_member_loads(r, s, u, names=None, n=None, dirs_f=("Fx", "Fy", "Fz", "FX", "FY", "FZ"),
                     dirs_p=("Fx", "Fy", "Fz", "Mx", "My", "Mz", "FX", "FY", "FZ", "MX", "MY", "MZ"), cases=CASES):
    names = names or list(s["members"])
    for _ in range(n if n is not None else r.randint(0, 4)):
        m = r.choice(names)
        L = S.member_len(s, m)
        bps = [x for x, _ in S.interior_nodes(s, m)]
        if r.random() < 0.55:
            x1, x2 = rand_load_interval(r, L, bps)
            w = u["F"] / u["Ls"]
            k = r.random()
            w1 = sgn(r) * rnd(r, 0.2, 2) * w
            w2 = w1 if k < 0.3 else (0.0 if k < 0.4 else sgn(r) * rnd(r, 0.2, 2) * w)
            if 0.4 <= k < 0.5:
                w1 = 0.0
            s["mdist"].append([m, r.choice(dirs_f), w1, w2, x1, x2, r.choice(cases)])
        else:
            d = r.choice(dirs_p)
            P = sgn(r) * rnd(r, 0.2, 2) * u["F"] * (u["Ls"] / 4 if d[0] == "M" else 1)
            k = r.random()
            x = 0.0 if k < 0.08 else L if k < 0.16 else (r.choice(bps) if bps and k < 0.35 else r.uniform(0.03, 0.97) * L)
            s["mpt"].append([m, d, P, x, r.choice(cases)])


def add_node_loads(r, s, u, n=None, cases=CASES):
    for _ in range(n if n is not None else r.randint(0, 4)):
        d = r.choice(S.FDIR)
        s["nload"].append([r.choice(list(s["nodes"])), d, sgn(r) * rnd(r, 0.2, 2) * u["F"] * (u["Ls"] / 4 if d[0] == "M" else 1), r.choice(cases)])


def add_combos(r, s, cases=CASES, n=None, tags=False):
    used = S.cases_of(s) or ["Case 1"]
    for k in range(n if n is not None else r.randint(1, 3)):
        f = {}
        for c in used:
            if r.random() < 0.75:
                f[c] = r.choice([1.0, 1.2, 1.6, -1.0, 0.9, 0.5, rnd(r, -2, 2)])
        if not f:
            f[r.choice(used)] = 1.0
        q = r.random()
        if q < 0.04:
            f[r.choice(used)] = 0.0
        elif q < 0.07:
            f = {}
        elif q < 0.12:
            f["unused case"] = 1.3
        items = list(f.items())
        r.shuffle(items)
        name = r.choice(used) if r.random() < 0.04 else f"LC{k}"
        s["combos"][name] = [dict(items), ([r.choice(["strength", "service", "t3"]) for _ in range(r.randint(1, 2))] if tags and r.random() < 0.8 else None)]


REL_SETS = [
    [0] * 12,
    [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1], [0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 1, 1],
    [0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1], [0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0],
    [0, 0, 0, 1, 1, 1, 0, 0, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0], [0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0],
]


def frame(r, nmem=None, releases=0.35, springs=0.25, spsup=0.3, enf=0.25, interior=0.35, aux=0.25, sections=0.1,
          loads=True, sw=0.3, oneway=0.0, support_kind=None):
    """A random spatial frame: a tree of members grown in mixed directions, closed with extra members."""
    s, u = base(r)
    mats = list(s["materials"])
    odd = r.random()       # rarely: many members, a crowded member, many loads, many combinations
    n = nmem or (r.randint(30, 55) if odd < 0.004 else r.randint(8, 20) if odd < 0.03 else r.choice([1, 1, 2, 3, 4, 5]))
    s["nodes"]["N1"] = [rnd(r, -1, 1) * u["Ls"] if r.random() < 0.5 else 0.0 for _ in range(3)]
    cnt = 1
    secs = {}
    if r.random() < sections:
        p = props(r, u)
        s["sections"]["SEC1"] = [p["A"], p["Iy"], p["Iz"], p["J"]]

    def node(p):
        nonlocal cnt
        for k, c in s["nodes"].items():
            if np.linalg.norm(np.array(c) - p) < 1e-3 * u["Ls"]:
                return k
        cnt += 1
        nm = f"N{cnt}"
        s["nodes"][nm] = [float(v) for v in p]
        return nm

    def too_close(a, b):
        """Would an existing node be (nearly) on the line a-b, or member overlap another one?"""
        A, B = np.array(s["nodes"][a]), np.array(s["nodes"][b])
        v = B - A
        L = np.linalg.norm(v)
        for k, c in s["nodes"].items():
            if k in (a, b):
                continue
            t = (np.array(c) - A) @ v / L ** 2
            if 0.0 < t < 1.0 and np.linalg.norm(np.array(c) - A - t * v) < 1e-3 * L:
                return True
        for d in s["members"].values():
            if {d["i"], d["j"]} == {a, b}:
                return True
        return False

    def add(i, j):
        nm = f"M{len(s['members']) + 1}"
        if r.random() < 0.5:
            i, j = j, i
        d = dict(i=i, j=j, mat=r.choice(mats), t=False, c=False, aux=None, rel=[0] * 12, **props(r, u))
        if s["sections"] and r.random() < 0.5:
            d["section"] = "SEC1"
        s["members"][nm] = d
        if r.random() < aux:
            v = S.vec(s, j) - S.vec(s, i)
            # (auxiliary nodes are often shared by several members)
            old = [q for q, p in s["aux"].items() if np.linalg.norm(np.cross(v / np.linalg.norm(v), np.array(p) - S.vec(s, i))) > 0.3 * max(np.linalg.norm(np.array(p) - S.vec(s, i)), 0.3 * u["Ls"])]
            if old and r.random() < 0.6:
                d["aux"] = r.choice(old)
                return nm
            while True:
                w = direction(r)
                if np.linalg.norm(np.cross(v / np.linalg.norm(v), w)) > 0.3:
                    break
            an = f"A{len(s['aux']) + 1}"
            s["aux"][an] = [float(q) for q in (S.vec(s, i) + w * u["Ls"] * r.uniform(0.3, 2) + v * r.uniform(-0.5, 1))]
            d["aux"] = an
        return nm

    for k in range(n):
        a = r.choice(list(s["nodes"]))
        for _ in range(20):
            p = np.array(s["nodes"][a]) + direction(r) * u["Ls"] * r.choice([1.0, 1.0, 0.5, r.uniform(0.4, 1.5)])
            b = node(p)
            if b != a and not too_close(a, b) and not _hits(s, b, a):
                break
            if not any(b in (d["i"], d["j"]) for d in s["members"].values()) and b != a:
                s["nodes"].pop(b, None)
        else:
            continue
        add(a, b)
    if not s["members"]:
        b = node(np.array(s["nodes"]["N1"]) + np.array([u["Ls"], 0, 0]))
        add("N1", b)
    # close a loop
    if n >= 3 and r.random() < 0.5:
        a, b = r.sample(list(s["nodes"]), 2)
        if not too_close(a, b):
            add(a, b)
    # interior nodes on members
    for m in list(s["members"]):
        if r.random() < interior:
            d = s["members"][m]
            for t in r.sample([0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, r.uniform(0.05, 0.95)], r.choice([1, 1, 2, 3, 4])):
                p = S.vec(s, d["i"]) * (1 - t) + S.vec(s, d["j"]) * t
                node(p)
    if interior and 0.03 <= odd < 0.06:
        d = s["members"][r.choice(list(s["members"]))]
        k = r.randint(6, 32)
        for t in r.sample(range(1, k + 1), k):
            t = (t + r.uniform(-0.3, 0.3)) / (k + 1)
            node(S.vec(s, d["i"]) * (1 - t) + S.vec(s, d["j"]) * t)
    if 0.10 <= odd < 0.18:
        # coordinates with rounding errors in them, as they come out of trigonometry and interpolation
        e = r.choice([1e-17, 1e-16, 1e-16, 1e-15, 1e-14]) * u["Ls"]
        for c in s["nodes"].values():
            for k in range(3):
                if r.random() < 0.6:
                    c[k] += r.choice([-1.0, 1.0, 2.0, r.uniform(-3, 3)]) * e
    for m in s["members"].values():
        if r.random() < releases:
            m["rel"] = list(r.choice(REL_SETS))
    names = list(s["nodes"])
    ends = sorted({d[k] for d in s["members"].values() for k in "ij"})
    # supports
    full = [1] * 6
    kind = support_kind or r.choice(["fixed", "fixed", "pins", "mixed", "mixed"])
    if kind == "fixed":
        for q in r.sample(ends, min(len(ends), r.choice([1, 2]))):
            s["supports"][q] = list(full)
    else:
        q0 = r.sample(ends, min(len(ends), r.choice([2, 3, 3])))
        for q in q0:
            s["supports"][q] = [1, 1, 1] + [int(r.random() < (0.5 if kind == "mixed" else 0.25)) for _ in range(3)]
        if kind == "mixed":
            for q in names:
                if q not in q0 and r.random() < 0.3:
                    s["supports"][q] = [int(r.random() < 0.4) for _ in range(6)]
    if r.random() < oneway:
        add_oneway(r, s, u)
    # ground springs
    if r.random() < spsup:
        for q in r.sample(names, min(len(names), r.choice([1, 2, 3]))):
            for dof in r.sample(S.DOFS, r.choice([1, 2])):
                k = u["E"] * u["I"] / u["Ls"] ** 3 * rnd(r, 1, 50)
                if dof[0] == "R":
                    k *= u["Ls"] ** 2
                s["spsup"].append([q, dof, k, None])
    if r.random() < springs and len(names) >= 2:
        for q in range(r.choice([1, 2])):
            a, b = r.sample(names, 2)
            s["springs"][f"S{q + 1}"] = dict(i=a, j=b, ks=u["E"] * u["I"] / u["Ls"] ** 3 * rnd(r, 1, 50), t=False, c=False)
    if r.random() < enf:
        sup = [(n_, q) for n_, v in s["supports"].items() for q in range(6) if v[q]]
        for n_, q in r.sample(sup, min(len(sup), r.choice([1, 2]))):
            s["enf"].append([n_, S.DOFS[q], sgn(r) * (rnd(r, 0.1, 1) * 1e-3 * (u["Ls"] if q < 3 else 1))])
    seen = {}
    for l in s["spsup"]:
        seen[l[0], l[1]] = l
    s["spsup"] = list(seen.values())
    if loads:
        add_node_loads(r, s, u)
        add_member_loads(r, s, u)
        if r.random() < sw:
            s["sw"].append([r.choice(["FX", "FY", "FZ", "FY"]), r.choice([-1.0, 1.0, -0.7]), r.choice(CASES)])
        if not (s["nload"] or s["mpt"] or s["mdist"] or s["sw"]):
            add_node_loads(r, s, u, 2)
        if 0.06 <= odd < 0.10:
            crowd(r, s, u)
        add_combos(r, s, n=r.randint(5, 11) if 0.10 <= odd < 0.12 else None)
    if r.random() < 0.25:
        for q in ("nodes", "members", "supports"):
            k = list(s[q])
            r.shuffle(k)
            s[q] = {n: s[q][n] for n in k}
    return s, u


def crowd(r, s, u):
    """Many loads on one member, some of them repeated, at the same place, cancelling or of no magnitude; loads repeated at one node."""
    m = r.choice(list(s["members"]))
    add_member_loads(r, s, u, [m], r.randint(6, 14))
    for q in ("mdist", "mpt", "nload"):
        own = [l for l in s[q] if q == "nload" or l[0] == m]
        for l in r.sample(own, min(len(own), 3)):
            l = list(l)
            k = r.random()
            if k < 0.25:
                for f in ((2, 3) if q == "mdist" else (2,)):
                    l[f] = -l[f]
            elif k < 0.4:
                for f in ((2, 3) if q == "mdist" else (2,)):
                    l[f] = 0.0
            elif k < 0.6 and q == "mpt":
                l[1] = r.choice(["Fy", "Fz", "FX", "Mz"])
            s[q].append(l)


def add_oneway(r, s, u):
    """Turn some members one-way and add one-way springs and support springs."""
    for d in s["members"].values():
        k = r.random()
        if k < 0.35:
            d["t" if k < 0.2 else "c"] = True
    names = list(s["nodes"])
    if len(names) >= 2 and r.random() < 0.4:
        a, b = r.sample(names, 2)
        s["springs"]["SO"] = dict(i=a, j=b, ks=u["E"] * u["I"] / u["Ls"] ** 3 * rnd(r, 1, 50), t=r.random() < 0.5, c=False)
        s["springs"]["SO"]["c"] = not s["springs"]["SO"]["t"]
    if r.random() < 0.6:
        for q in r.sample(names, min(len(names), r.choice([1, 2]))):
            dof = r.choice(S.DOFS)
            k = u["E"] * u["I"] / u["Ls"] ** 3 * rnd(r, 1, 50) * (u["Ls"] ** 2 if dof[0] == "R" else 1)
            s["spsup"].append([q, dof, k, r.choice("+-")])


def _hits(s, b, a):
    """Is node b on an existing member's line (which would connect it there)?"""
    p = np.array(s["nodes"][b])
    for d in s["members"].values():
        if b in (d["i"], d["j"]):
            continue
        A, B = np.array(s["nodes"][d["i"]]), np.array(s["nodes"][d["j"]])
        v = B - A
        t = (p - A) @ v / (v @ v)
        if -0.001 < t < 1.001 and np.linalg.norm(p - A - t * v) < 1e-3 * np.linalg.norm(v):
            return True
    return False
