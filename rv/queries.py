"""Everything that can be asked of an analysed model, as named closures that return plain values."""
import numpy as np

PLOTS = ("plot_shear", "plot_moment", "plot_torque", "plot_axial", "plot_deflection", "plot_rel_deflection")


def flat(v):
    """Numbers of any result as one flat array; anything else as it is."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if hasattr(v, "todense"):
        v = v.todense()
    if isinstance(v, dict):
        return {k: flat(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and (not v or isinstance(v[0], str)):
        return list(v)
    if isinstance(v, (list, tuple)):
        return np.concatenate([np.ravel(np.asarray(x, float)) for x in v])
    return np.ravel(np.asarray(v, float)).copy()


def member_queries(r, n, mem, c):
    L = mem.L()
    xs = [0.0, L, r.random() * L, r.random() * L]
    for x in xs:
        yield ("axial", n, c, x), lambda x=x: mem.axial(x, c)
        yield ("torque", n, c, x), lambda x=x: mem.torque(x, c)
        for d in ("Fy", "Fz"):
            yield ("shear", n, d, c, x), lambda x=x, d=d: mem.shear(d, x, c)
        for d in ("My", "Mz"):
            yield ("moment", n, d, c, x), lambda x=x, d=d: mem.moment(d, x, c)
        for d in ("dx", "dy", "dz"):
            yield ("deflection", n, d, c, x), lambda x=x, d=d: mem.deflection(d, x, c)
        for d in ("dy", "dz"):
            yield ("rel_deflection", n, d, c, x), lambda x=x, d=d: mem.rel_deflection(d, x, c)
    k = r.choice([2, 3, 7, 12])
    for w in ("max_", "min_"):
        for q in ("axial", "torque"):
            yield (w + q, n, c), lambda f=getattr(mem, w + q): f(c)
        for d in ("Fy", "Fz"):
            yield (w + "shear", n, d, c), lambda f=getattr(mem, w + "shear"), d=d: f(d, c)
        for d in ("My", "Mz"):
            yield (w + "moment", n, d, c), lambda f=getattr(mem, w + "moment"), d=d: f(d, c)
        for d in ("dy", "dz"):
            yield (w + "deflection", n, d, c), lambda f=getattr(mem, w + "deflection"), d=d: f(d, c)
    for q in ("axial", "torque"):
        yield (q + "_array", n, c, k), lambda f=getattr(mem, q + "_array"): f(k, c)
    for d in ("Fy", "Fz"):
        yield ("shear_array", n, d, c, k), lambda d=d: mem.shear_array(d, k, c)
    xa = np.sort([r.random() * L for _ in range(4)])
    for d in ("My", "Mz"):
        yield ("moment_array", n, d, c, k), lambda d=d: mem.moment_array(d, k, c)
        yield ("moment_array", n, d, c, tuple(xa)), lambda d=d: mem.moment_array(d, 4, c, xa)
    for d in ("dx", "dy", "dz"):
        yield ("deflection_array", n, d, c, k), lambda d=d: mem.deflection_array(d, k, c)
    for d in ("dy", "dz"):
        yield ("rel_deflection_array", n, d, c, k), lambda d=d: mem.rel_deflection_array(d, k, c)
    for q in ("f", "F", "d", "D", "fer", "FER"):
        if hasattr(mem, q):
            yield (q, n, c), lambda f=getattr(mem, q): f(c)
    for p, q in enumerate(mem.sub_members.values()):
        for w in ("f", "D", "fer"):
            yield (w, n, p, c), lambda f=getattr(q, w): f(c)
        yield ("moment", n, p, c), lambda q=q: q.moment("Mz", q.L() / 3, c)
    for q in ("k", "T", "K", "L"):
        yield (q, n), lambda f=getattr(mem, q): f()


def plot_queries(n, mem, c):
    """The curve each plot shows."""
    from matplotlib import pyplot as plt

    def shown(f, *a):
        plt.close("all")
        f(*a)
        x, y = plt.gca().lines[-1].get_data()
        plt.close("all")
        return np.concatenate([np.asarray(x, float), np.asarray(y, float)])
    yield ("plot_axial", n, c), lambda: shown(mem.plot_axial, c)
    yield ("plot_torque", n, c), lambda: shown(mem.plot_torque, c)
    for d in ("Fy", "Fz"):
        yield ("plot_shear", n, d, c), lambda d=d: shown(mem.plot_shear, d, c)
    for d in ("My", "Mz"):
        yield ("plot_moment", n, d, c), lambda d=d: shown(mem.plot_moment, d, c)
    for d in ("dx", "dy", "dz"):
        yield ("plot_deflection", n, d, c), lambda d=d: shown(mem.plot_deflection, d, c)
    for d in ("dy", "dz"):
        yield ("plot_rel_deflection", n, d, c), lambda d=d: shown(mem.plot_rel_deflection, d, c)


def element_queries(kind, n, e, c):
    if kind == "plates":
        w, h = e.width(), e.height()
        pts = [(0, 0), (w, h), (0.3 * w, 0.6 * h)]
    else:
        pts = [(-1, -1), (1, 1), (0.2, -0.4)]
    for x, y in pts:
        for q in ("moment", "shear", "membrane"):
            yield (q, kind, n, c, x, y), lambda f=getattr(e, q), x=x, y=y: f(x, y, True, c)
    for q in ("f", "F", "d", "D", "fer", "FER"):
        yield (q, kind, n, c), lambda f=getattr(e, q): f(c)
    for q in ("k", "K", "T"):
        yield (q, kind, n), lambda f=getattr(e, q): f()


def all_queries(r, m, cs, plots=0):
    """List of (key, closure)."""
    out = []
    for c in cs:
        for n, mem in m.members.items():
            out += member_queries(r, n, mem, c)
        for n in r.sample(list(m.members), min(plots, len(m.members))):
            out += r.sample(list(plot_queries(n, m.members[n], c)), 2)
        for n, sp in m.springs.items():
            for q in ("axial", "f", "F", "d", "D"):
                out.append(((q, "spring", n, c), lambda f=getattr(sp, q): f(c)))
            out += [((q, "spring", n), lambda f=getattr(sp, q): f()) for q in ("k", "K", "T", "L")]
        for kind in ("plates", "quads"):
            for n, e in getattr(m, kind).items():
                out += element_queries(kind, n, e, c)
        for n, me in m.meshes.items():
            for w in ("max_", "min_"):
                for f, q in (("moment", "Mx"), ("moment", "My"), ("moment", "Mxy"), ("shear", "Qx"), ("shear", "Qy")):
                    out.append(((w + f, n, q, c), lambda g=getattr(me, w + f), q=q: g(q, c)))
        out.append((("P", c), lambda: m.P(c)))
        out.append((("FER", c), lambda: m.FER(c)))
        out.append((("D", c), lambda: m.D(c)))
        for sp in (True, False):
            out.append((("K", sp, c), lambda sp=sp: m.K(c, False, False, sp)))
    out.append((("orphaned_nodes",), lambda: m.orphaned_nodes()))
    out.append((("load_cases",), lambda: m.load_cases))
    return out
