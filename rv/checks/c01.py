"""C01: reported reactions balance the applied loads."""
import re
from ..core import check
from .. import gen, genp, spec as S
from ..common import *


def stiffness_scale(s):
    k = 0.0
    for n, d in s["members"].items():
        E = s["materials"][d["mat"]][0]
        A, Iy, Iz, J = S.mprops(s, d)
        xs = [0.0] + [x for x, _ in S.interior_nodes(s, n)] + [S.member_len(s, n)]
        l = min(b - a for a, b in zip(xs, xs[1:]))
        k = max(k, E * A / l, 12 * E * max(Iy, Iz) / l ** 3)
    for key in ("plates", "quads"):
        for d in s[key].values():
            p = [S.vec(s, d[q]) for q in "ijmn"]
            l = min(np.linalg.norm(p[a] - p[(a + 1) % 4]) for a in range(4))
            E = s["materials"][d["mat"]][0]
            k = max(k, 3 * E * d["t"], 20 * E * d["t"] ** 3 / l ** 2)
    for d in s["springs"].values():
        k = max(k, d["ks"])
    for _, dof, q, _ in s["spsup"]:
        k = max(k, q if dof[0] == "D" else 0)
    return k


def extent(s):
    X = np.array(list(s["nodes"].values()), float)
    return float(np.linalg.norm(X.max(axis=0) - X.min(axis=0)))


def table(text):
    rows = {}
    for line in text.splitlines():
        c = [x.strip() for x in line.strip().strip("|").split("|")]
        if line.startswith("|") and len(c) == 13 and c[0] != "Load Combination":
            rows[c[0]] = [float(x) for x in c[1:]]
    return rows


@check("C01", rule="random frames and coplanar slabs of rectangular plates or skewed quads with beams, columns and springs, one-way elements included; the reported reactions "
       "of every combination are compared with an independent integration of every applied load, in force and in moment about a random point (about plate normals only where no drilling "
       "rotation is involved); the printed statics table is parsed and compared with the same sums, and shows exactly the tagged combinations in an analysis filtered by tags",
       quick=2500, needs=("force equilibrium", "moment equilibrium", "statics table applied", "statics table reactions", "statics table of tagged combinations", "plate model", "one-way model"))
def case(r, mon, i):
    k = r.random()
    normal = None
    ow = False
    if k < 0.4:
        s, u = gen.frame(r)
    elif k < 0.6:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([3, 4, 5, 6]))
        ow = any(d["t"] or d["c"] for d in s["members"].values()) or any(d["t"] or d["c"] for d in s["springs"].values()) or any(l[3] for l in s["spsup"])
    else:
        s, u, info = genp.slab(r, ortho=0.1)
        normal = info["B"][2]
        mon.ev("plate model")
    perm = r if r.random() < 0.5 else None
    stat = r.random() < 0.5
    # an analysis filtered by tags tabulates the tagged combinations and no others
    tags, sel = None, None
    if s["combos"] and r.random() < 0.35:
        for c in s["combos"]:
            s["combos"][c][1] = r.choice([None, ["service"], ["strength"], ["service", "strength"], ["other"]])
        tags = r.choice([["service"], ["strength"], ["service", "strength"]])
        if r.random() < 0.8:
            s["combos"][r.choice(list(s["combos"]))][1] = [tags[0]]
        sel = [c for c, v in s["combos"].items() if v[1] and set(v[1]) & set(tags)]
    mon.case(s)
    m = S.build(s, perm=perm)
    from ..core import quiet
    with quiet() as buf:
        how = r.choice(["analyze", "linear"])
        kw = dict(check_statics=stat, sparse=r.random() < 0.75)
        if tags:
            kw["combo_tags"] = tags
        try:
            (m.analyze if how == "analyze" else m.analyze_linear)(**kw)
        except Exception as e:
            msg = str(e)
            if "diverged" in msg and ow:
                mon.skip("one-way iteration diverged")
            if "singular" in msg or "nstable" in msg:
                mon.skip("reported unstable")
            raise
    if ow:
        mon.ev("one-way model")
    ks, ext = stiffness_scale(s), extent(s)
    names = list(s["nodes"])
    tab = table(buf.getvalue()) if stat else {}
    if stat and tags:
        mon.true("statics table of tagged combinations", set(tab) == set(sel), lambda: f"combo_tags={tags} selects {sel}, the table shows {list(tab)}")
    for c, f in combos(s).items():
        if sel is not None and c not in sel:
            continue
        D = S.nodal(m, c, names)
        R = S.reactions(m, c, names)
        O = np.array([r.uniform(-1, 1) * ext for _ in range(3)])
        F, M, mag = S.applied_resultant(s, f, O)
        md = sum(abs(v[2] * f.get(v[-1], 0)) for v in s["nload"] if v[1][0] == "M") + sum(abs(v[2] * f.get(v[-1], 0)) for v in s["mpt"] if v[1][0] == "M")
        X = np.array([S.vec(s, n) for n in names])
        dmax = max(np.abs(D[:, :3]).max(), np.abs(D[:, 3:]).max() * ext)
        if not np.isfinite(dmax):
            mon.fail("results finite", f"{c}: displacements are not finite")
            continue
        slop = 200 * EPS * ks * dmax * math.sqrt(len(names))
        tol = 1e-7 * (mag + md / ext + np.abs(R[:, :3]).max()) + slop
        if slop > 1e-3 * (mag + md / ext) and not s["enf"]:
            mon.ev("nearly unstable combination skipped")
            continue
        mon.near("force equilibrium", R[:, :3].sum(axis=0) + F, 0, tol, lambda: f"{c} ({how}) reactions + loads")
        RM = (R[:, 3:] + np.cross(X - O, R[:, :3])).sum(axis=0) + M
        if normal is not None:
            RM = RM - normal * (RM @ normal)      # weak drilling springs may hold moments about the plate's normal
        mon.near("moment equilibrium", RM, 0, tol * ext * 3 + 1e-7 * np.abs(R[:, 3:]).max(), lambda: f"{c} ({how}) about {O}")
        if stat:
            row = tab.get(c)
            if not mon.true("statics table row", row is not None, lambda: f"{c} missing from the statics table"):
                continue
            F0, M0, _ = S.applied_resultant(s, f)
            RF = R[:, :3].sum(axis=0)
            RM0 = (R[:, 3:] + np.cross(X, R[:, :3])).sum(axis=0)
            want = [F0, M0, RF, RM0]
            dist = np.abs(X).max() + ext
            tl = [tol, tol * dist + 1e-7 * md]
            for q in range(6):
                w, t = (F0[q], tl[0]) if q < 3 else (M0[q - 3], tl[1])
                mon.near("statics table applied", row[2 * q], w, t + 0.0051 * abs(w), lambda: f"{c} column {2 * q + 1}")
                w, t = (RF[q], tl[0]) if q < 3 else (RM0[q - 3], tl[1])
                mon.near("statics table reactions", row[2 * q + 1], w, t + 0.0051 * abs(w), lambda: f"{c} column {2 * q + 2}")
    mon.sig(frame_sig(s, how, stat), len(s["plates"]), len(s["quads"]), len(s["qpress"]) + len(s["ppress"]))
