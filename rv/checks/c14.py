"""C14: stable models solve with finite results; unsupported degrees of freedom are reported, never answered."""
from ..core import check
from .. import gen, genp, spec as S, oneway
from ..common import *
import io, contextlib

WHERE = ("for translation in the global X direction", "for translation in the global Y direction", "for translation in the global Z direction",
         "for rotation about the global X axis", "for rotation about the global Y axis", "for rotation about the global Z axis")


def finite(mon, m, s, c, what):
    for n in s["nodes"]:
        mon.true("finite", np.all(np.isfinite(S.nodal(m, c, [n]))) and np.all(np.isfinite(S.reactions(m, c, [n]))), lambda: f"{what} {c} node {n}: {S.nodal(m, c, [n])} {S.reactions(m, c, [n])}")
    for n in s["members"]:
        mem = m.members[n]
        if not mem.active[c]:
            continue
        mon.true("finite", np.all(np.isfinite(np.asarray(mem.f(c), float))), lambda: f"{what} {c} end forces of {n}")
        L = S.member_len(s, n)
        for x in (0.0, 0.37 * L, 1.0 * L):
            v = query_internal(mem, x, c)
            mon.true("finite", np.all(np.isfinite(v)), lambda: f"{what} {c} diagrams of {n} at {x}: {v}")
            v = [float(mem.deflection(q, x, c)) for q in ("dx", "dy", "dz")]
            mon.true("finite", np.all(np.isfinite(v)), lambda: f"{what} {c} deflections of {n} at {x}: {v}")
        v = [float(np.asarray(getattr(mem, w + q)(*(a + (c,)))).item()) for w in ("max_", "min_") for q, a in
             (("moment", ("My",)), ("moment", ("Mz",)), ("shear", ("Fy",)), ("shear", ("Fz",)), ("axial", ()), ("torque", ()))]
        mon.true("finite", np.all(np.isfinite(v)), lambda: f"{what} {c} extremes of {n}: {v}")
    for n in s["springs"]:
        mon.true("finite", np.isfinite(float(m.springs[n].axial(c))), lambda: f"{what} {c} spring {n}")
    for k in ("quads", "plates"):
        for n in s[k]:
            q = getattr(m, k)[n]
            x, y = (0.3, -0.2) if k == "quads" else (q.width() / 3, q.height() / 3)
            v = np.concatenate([np.ravel(q.moment(x, y, True, c)), np.ravel(q.shear(x, y, True, c)), np.ravel(q.membrane(x, y, True, c)), np.ravel(q.f(c))])
            mon.true("finite", np.all(np.isfinite(v)), lambda: f"{what} {c} plate {n}: {v}")


def run_all(m, r, s, mon, what):
    """One randomly chosen entry point and options; returns the combinations solved."""
    how = r.choice(["analyze", "linear", "pdelta"])
    kw = dict(check_stability=r.random() < 0.5, sparse=r.random() < 0.6, log=r.random() < 0.1)
    if how == "analyze":
        m.analyze(check_statics=r.random() < 0.2, **kw)
    elif how == "linear":
        m.analyze_linear(check_statics=r.random() < 0.2, **kw)
    else:
        m.analyze_PDelta(**kw)
    return how, kw


def robust(r):
    """Models that are stable by construction."""
    k = r.random()
    if k < 0.35:
        s, u = gen.frame(r, support_kind="fixed", releases=0.0)
    elif k < 0.6:
        s, u = gen.frame(r)
    else:
        s, u, _ = genp.slab(r, nx=r.randint(1, 3), ny=r.randint(1, 3), support=r.choice(["fixed edge", "pinned edge", "one fixed edge", None]))
    return s, u


def unstable_variant(r, s, u):
    """Hang something on the model that leaves degrees of freedom with nothing at all to hold them."""
    o = S.clone(s)
    names = list(s["nodes"])
    lo = np.min([S.vec(s, n) for n in names], axis=0)
    hi = np.max([S.vec(s, n) for n in names], axis=0)
    # a place off every member line
    p = hi + np.array([r.uniform(0.3, 0.9), r.uniform(0.3, 0.9), r.uniform(0.3, 0.9)]) * u["Ls"]
    k = r.choice(["orphan", "orphan", "part supported orphan", "spring end", "spring end part", "hinged end", "axis spring"])
    bad = set()
    ks = u["E"] * u["I"] / u["Ls"] ** 3 * gen.rnd(r, 1, 50)
    if k == "orphan":
        o["nodes"]["U1"] = [float(v) for v in p]
        bad = {("U1", q) for q in range(6)}
    elif k == "part supported orphan":
        o["nodes"]["U1"] = [float(v) for v in p]
        v = [int(r.random() < 0.6) for _ in range(6)]
        if all(v):
            v[r.randint(0, 5)] = 0
        o["supports"]["U1"] = v
        for q in range(6):
            if not v[q] and r.random() < 0.3 and sum(1 for x in v if not x) > 1:
                o["spsup"].append(["U1", S.DOFS[q], ks, None])
                v = list(v)
                v[q] = 2
        bad = {("U1", q) for q in range(6) if v[q] == 0}
        if not bad:
            o["spsup"] = [l for l in o["spsup"] if l[0] != "U1"]
            bad = {("U1", q) for q in range(6) if not o["supports"]["U1"][q]}
    elif k in ("spring end", "spring end part"):
        o["nodes"]["U1"] = [float(v) for v in p]
        o["springs"]["SU"] = dict(i=r.choice(names), j="U1", ks=ks, t=False, c=False)
        if r.random() < 0.5:
            o["springs"]["SU"]["i"], o["springs"]["SU"]["j"] = "U1", o["springs"]["SU"]["i"]
        o["supports"]["U1"] = [1, 1, 1, 0, 0, 0]
        if k == "spring end part":
            o["supports"]["U1"][3 + r.randint(0, 2)] = 1
        bad = {("U1", q) for q in range(6) if not o["supports"]["U1"][q]}
    elif k == "axis spring":
        a = r.randint(0, 2)
        n0 = r.choice(names)
        q = np.array(s["nodes"][n0])
        q[a] += r.choice([-1, 1]) * (hi - lo).max() * 3 + (0.7 * u["Ls"] if (hi - lo).max() == 0 else 0)
        o["nodes"]["U1"] = [float(v) for v in q]
        o["springs"]["SU"] = dict(i=n0, j="U1", ks=ks, t=False, c=False)
        o["supports"]["U1"] = [0, 0, 0, 1, 1, 1]
        bad = {("U1", b) for b in range(3) if b != a}
        for d in s["members"].values():      # (the new node must not fall on a member)
            x, y = S.vec(s, d["i"]), S.vec(s, d["j"])
            v = y - x
            t = (q - x) @ v / (v @ v)
            if -0.01 < t < 1.01 and np.linalg.norm(q - x - t * v) < 1e-3 * np.linalg.norm(v):
                raise Skip("placed on a member")
    else:
        o["nodes"]["U1"] = [float(v) for v in p]
        n0 = r.choice(names)
        mat = list(s["materials"])[0]
        fl = r.random() < 0.5
        o["members"]["MU"] = dict(i="U1" if fl else n0, j=n0 if fl else "U1", mat=mat, t=False, c=False, aux=None, **gen.props(r, u),
                                  rel=[0, 0, 0, 1, 1, 1] + [0] * 6 if fl else [0] * 6 + [0, 0, 0, 1, 1, 1])
        # (its line must be free of other nodes)
        if S.interior_nodes(o, "MU"):
            raise Skip("member through a node")
        bad = {("U1", q) for q in (3, 4, 5)}
        if r.random() < 0.4:
            q = 3 + r.randint(0, 2)
            o["supports"]["U1"] = [0] * 6
            o["supports"]["U1"][q] = 1
            bad.discard(("U1", q))
    if r.random() < 0.5:
        q = r.choice(sorted(bad))
        o["nload"].append(["U1", S.FDIR[q[1]], u["F"], "Case 1"])
    if r.random() < 0.5:
        # sit anywhere in the numbering
        l = list(o["nodes"].items())
        r.shuffle(l)
        o["nodes"] = dict(l)
    return o, bad, k


@check("C14", rule="stable random frames and slabs must be solved by every entry point with every option, with finite displacements, reactions, end forces, diagrams, extremes and plate results; then something is hung on "
       "the model that leaves degrees of freedom without any support or stiffness (orphan nodes, spring ends, hinged ends), loaded or not, and every entry point must refuse: with the stability check it must name exactly "
       "those degrees of freedom, without it the singular matrix must be reported; one-way models must give finite results or an error",
       quick=900, needs=("finite", "stable model solved", "instability reported", "instability located", "singular reported", "supported again"))
def case(r, mon, i):
    if r.random() < 0.2:
        s, u = gen.frame(r, oneway=1.0, nmem=r.choice([2, 3, 4]))
        mon.case(s)
        m = S.build(s)
        try:
            m.analyze(sparse=r.random() < 0.6, check_stability=r.random() < 0.5)
        except Exception as e:
            mon.true("one-way failure explained", any(t in str(e) for t in ("singular", "Unstable", "diverged")), str(e))
            mon.sig(frame_sig(s))
            return
        for c in combos(s):
            mon.ev("one-way model solved")
            finite(mon, m, s, c, "one-way")
        mon.sig(frame_sig(s))
        return
    s, u = robust(r)
    mon.case(s)
    if s["plates"] or s["quads"]:
        m = S.build(s)
        try:
            m.analyze_linear()
        except Exception as e:
            if "singular" not in str(e) and "Unstable" not in str(e):
                raise
            if set(map(tuple, s["supports"].values())) & {(1, 1, 1, 1, 1, 1), (1, 1, 1, 0, 0, 0)}:
                mon.fail("stable model solved", f"{type(e).__name__}: {e}")
                return
            mon.skip("unstable")
        Noise(m, s, list(combos(s)))
    else:
        for f in combos(s).values():
            reference(s, f, max_cond=1e8)
    for _ in range(2):
        m = S.build(s, perm=r if r.random() < 0.3 else None)
        how, kw = run_all(m, r, s, mon, "stable")
        mon.ev("stable model solved")
        for c in combos(s):
            finite(mon, m, s, c, f"{how} {kw}")
    # --- unstable variants
    for _ in range(2):
        o, bad, kind = unstable_variant(r, s, u)
        m = S.build(o)
        buf = io.StringIO()
        how = kw = None
        rs = r.getstate()
        try:
            with contextlib.redirect_stdout(buf):
                how, kw = run_all(m, r, o, mon, "unstable")
        except Exception as e:
            r.setstate(rs)
            how = r.choice(["analyze", "linear", "pdelta"])
            kw = dict(check_stability=r.random() < 0.5, sparse=r.random() < 0.6)
            ok = any(t in str(e) for t in ("singular", "Unstable"))
            if not mon.true("instability reported", ok, lambda: f"{kind} {how} {kw}: {type(e).__name__}: {e}"):
                continue
            if kw["check_stability"]:
                got = set()
                for line in buf.getvalue().splitlines():
                    if "unstable" in line and "node " in line:
                        for q in range(6):
                            if WHERE[q] in line:
                                got.add((line.split("node ", 1)[1].split(" is unstable")[0], q))
                mon.true("instability located", got == bad, lambda: f"{kind} {how} {kw}: names {sorted(got)}, expected {sorted(bad)}")
            else:
                mon.ev("singular reported")
        else:
            mon.fail("instability reported", f"{kind}: {how} {kw} gave an answer although {sorted(bad)} are held by nothing")
        # supported, the same model solves
        h = S.clone(o)
        sup = list(h["supports"].get("U1", [0] * 6))
        for n, q in bad:
            sup[q] = 1
        h["supports"]["U1"] = sup
        if kind == "hinged end":
            sup[:3] = [0, 0, 0]
        m = S.build(h)
        try:
            how, kw = run_all(m, r, h, mon, "supported again")
            mon.ev("supported again")
            for c in combos(h):
                finite(mon, m, h, c, f"supported again ({kind}) {how} {kw}")
        except Exception as e:
            mon.fail("supported again", f"{kind} {kw}: {type(e).__name__}: {e}")
    mon.sig(frame_sig(s, kind), len(s["plates"]), len(s["quads"]))
