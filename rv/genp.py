"""Generators of models with plates and quads."""
import math
import numpy as np
from . import spec as S
from .gen import UNITS, rnd, sgn, base, props, add_member_loads, add_node_loads, add_combos, CASES, direction


def basis(r, kind=None):
    """Right-handed orthonormal basis (e1, e2, n) of a plane."""
    kind = kind or r.choice(["XZ", "XY", "YZ", "any", "any"])
    if kind == "XZ":
        return np.array([[1.0, 0, 0], [0, 0, -1.0], [0, 1.0, 0]])
    if kind == "XY":
        return np.eye(3)
    if kind == "YZ":
        return np.array([[0, 1.0, 0], [0, 0, 1.0], [1.0, 0, 0]])
    while True:
        n = direction(r)
        a = direction(r)
        b = np.cross(n, a)
        if np.linalg.norm(b) > 0.2:
            break
    b /= np.linalg.norm(b)
    return np.array([np.cross(b, n), b, n])


def slab(r, kind=None, skew=None, nx=None, ny=None, loads=True, beams=0.35, springs=0.2, support=None, flips=True, plane=None,
         ortho=0.0, u=None, s=None, thick=None):
    """A coplanar slab of rectangular plates or (possibly skewed) quads; returns spec, unit, info."""
    if s is None:
        s, u = base(r)
    kind = kind or r.choice(["quads", "plates"])
    B = basis(r, plane)
    o = np.array([rnd(r, -1, 1) * u["Ls"] for _ in range(3)]) if r.random() < 0.5 else np.zeros(3)
    big = r.random() < 0.02
    nx, ny = nx or (r.randint(5, 9) if big else r.randint(1, 4)), ny or (r.randint(5, 9) if big else r.randint(1, 4))
    a = np.cumsum([0.0] + [r.choice([1, 1, r.uniform(0.6, 1.6)]) for _ in range(nx)]) * u["Ls"] / 2
    b = np.cumsum([0.0] + [r.choice([1, 1, r.uniform(0.6, 1.6)]) for _ in range(ny)]) * u["Ls"] / 2
    skew = (kind == "quads" and r.random() < 0.6) if skew is None else skew
    grid = {}
    k = 0
    for i in range(nx + 1):
        for j in range(ny + 1):
            k += 1
            p = np.array([a[i], b[j]])
            if skew:
                da, db = min(np.diff(a)), min(np.diff(b))
                p = p + np.array([r.uniform(-0.2, 0.2) * da, r.uniform(-0.2, 0.2) * db])
            grid[i, j] = f"N{k}"
            s["nodes"][f"N{k}"] = [float(v) for v in o + p[0] * B[0] + p[1] * B[1]]
    t = thick or u["Ls"] / r.choice([10, 20, 30, 50])
    mat = list(s["materials"])
    e = 0
    flip = flips and r.random() < 0.3
    start = r.randint(0, 3) if flips else 0
    mixed = flips and r.random() < 0.3
    for i in range(nx):
        for j in range(ny):
            c = [grid[i, j], grid[i + 1, j], grid[i + 1, j + 1], grid[i, j + 1]]
            if mixed:
                flip, start = r.random() < 0.5, r.randint(0, 3)
            c = c[start:] + c[:start]
            if flip:
                c = [c[0], c[3], c[2], c[1]]
            e += 1
            d = dict(i=c[0], j=c[1], m=c[2], n=c[3], t=float(t), mat=r.choice(mat))
            if r.random() < ortho:
                d["kx"], d["ky"] = r.choice([0.35, 0.5, 1.0]), r.choice([0.35, 0.5, 1.0])
            s[kind][f"P{e}"] = d
    edge = [n for (i, j), n in grid.items() if i in (0, nx) or j in (0, ny)]
    corner = [grid[i, j] for i in (0, nx) for j in (0, ny)]
    sup = support or r.choice(["pinned edge", "fixed edge", "corners", "one fixed edge", "mat"])
    if sup == "pinned edge":
        for n in edge:
            s["supports"][n] = [1, 1, 1, 0, 0, 0]
    elif sup == "fixed edge":
        for n in edge:
            s["supports"][n] = [1] * 6
    elif sup == "corners":
        for n in corner:
            s["supports"][n] = [1, 1, 1] + [int(r.random() < 0.4)] * 3
    elif sup == "one fixed edge":
        for j in range(ny + 1):
            s["supports"][grid[0, j]] = [1] * 6
    else:
        for n in grid.values():
            for q in range(3):
                s["spsup"].append([n, S.DOFS[q], u["E"] * t ** 3 / u["Ls"] ** 2 * rnd(r, 0.05, 1), None])
    if r.random() < beams:
        for q in range(r.choice([1, 2, 3])):
            if r.random() < 0.6:
                i, j = r.randint(0, nx - 1), r.randint(0, ny)
                x, y = grid[i, j], grid[i + 1, j]
            else:
                x, y = r.sample(list(grid.values()), 2)
            s["members"][f"M{q + 1}"] = dict(i=x, j=y, mat=r.choice(mat), t=False, c=False, aux=None, rel=[0] * 12, **props(r, u))
    if r.random() < beams:
        # a column below
        n0 = r.choice(list(grid.values()))
        s["nodes"]["COL"] = [float(v) for v in S.vec(s, n0) - B[2] * u["Ls"] * r.uniform(0.3, 0.8) + (B[0] * u["Ls"] * 0.2 if r.random() < 0.3 else 0)]
        s["members"]["C1"] = dict(i="COL", j=n0, mat=r.choice(mat), t=False, c=False, aux=None, rel=[0] * 12, **props(r, u))
        s["supports"]["COL"] = [1] * 6
    if r.random() < springs:
        x, y = r.sample(list(s["nodes"]), 2)
        s["springs"]["S1"] = dict(i=x, j=y, ks=u["E"] * u["I"] / u["Ls"] ** 3 * rnd(r, 1, 50), t=False, c=False)
    if loads:
        pl = "qpress" if kind == "quads" else "ppress"
        names = list(s[kind])
        p = u["F"] / u["Ls"] ** 2
        if r.random() < 0.6:
            v = sgn(r) * rnd(r, 0.3, 2) * p
            c = r.choice(CASES)
            for n in names:
                s[pl].append([n, v, c])
        for _ in range(r.randint(0, 4)):
            s[pl].append([r.choice(names), sgn(r) * rnd(r, 0.3, 2) * p, r.choice(CASES)])
        add_node_loads(r, s, u)
        if s["members"]:
            add_member_loads(r, s, u)
            if r.random() < 0.3:
                s["sw"].append([r.choice(["FX", "FY", "FZ"]), -1.0, r.choice(CASES)])
        if not (s[pl] or s["nload"]):
            s[pl].append([names[0], p, "Case 1"])
        add_combos(r, s)
    return s, u, dict(kind=kind, B=B, o=o, grid=grid, nx=nx, ny=ny, a=a, b=b, skew=skew, sup=sup, t=t)
