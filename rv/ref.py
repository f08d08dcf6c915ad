"""Independent reference solver for spatial frames with springs (Euler-Bernoulli, small displacements).

Deliberately built differently from the code under test: every member is cut into exact cubic elements at stations
(interior nodes, load discontinuities, query points), consistent loads are integrated numerically with Gauss
points, end releases are separate unknowns instead of static condensation, and internal forces are found by
summing everything to the left of a section.
"""
import numpy as np
from . import spec as S

_GX, _GW = np.polynomial.legendre.leggauss(6)


class Singular(Exception):
    pass


def k12(E, G, Iy, Iz, J, A, L):
    k = np.zeros((12, 12))
    def put(idx, m):
        for a, ia in enumerate(idx):
            for b, ib in enumerate(idx):
                k[ia, ib] += m[a][b]
    put((0, 6), E * A / L * np.array([[1, -1], [-1, 1]]))
    put((3, 9), G * J / L * np.array([[1, -1], [-1, 1]]))
    b = np.array([[12, 6 * L, -12, 6 * L], [6 * L, 4 * L * L, -6 * L, 2 * L * L],
                  [-12, -6 * L, 12, -6 * L], [6 * L, 2 * L * L, -6 * L, 4 * L * L]]) / L ** 3
    put((1, 5, 7, 11), E * Iz * b)
    s = np.array([1, -1, 1, -1.0])
    put((2, 4, 8, 10), E * Iy * b * np.outer(s, s))
    return k


def kg12(P, L, Ip_A):
    """Geometric stiffness, P = axial force positive in tension."""
    k = np.zeros((12, 12))
    b = np.array([[36, 3 * L, -36, 3 * L], [3 * L, 4 * L * L, -3 * L, -L * L],
                  [-36, -3 * L, 36, -3 * L], [3 * L, -L * L, -3 * L, 4 * L * L]]) / (30 * L)
    s = np.array([1, -1, 1, -1.0])
    for idx, m in (((1, 5, 7, 11), b), ((2, 4, 8, 10), b * np.outer(s, s)),
                   ((3, 9), Ip_A / L * np.array([[1, -1], [-1, 1]]))):
        for a, ia in enumerate(idx):
            for c, ic in enumerate(idx):
                k[ia, ic] += P * m[a][c]
    return k


def shape(x, L):
    """3x12 interpolation of local displacement (ux, uy, uz) and 3x12 of rotations (rx, ry, rz)."""
    t = x / L
    N = np.zeros((3, 12)); R = np.zeros((3, 12))
    N[0, 0], N[0, 6] = 1 - t, t
    h = (1 - 3 * t ** 2 + 2 * t ** 3, L * (t - 2 * t ** 2 + t ** 3), 3 * t ** 2 - 2 * t ** 3, L * (t ** 3 - t ** 2))
    dh = ((-6 * t + 6 * t ** 2) / L, 1 - 4 * t + 3 * t ** 2, (6 * t - 6 * t ** 2) / L, 3 * t ** 2 - 2 * t)
    for q, i in enumerate((1, 5, 7, 11)):
        N[1, i] = h[q]; R[2, i] = dh[q]
    sg = (1, -1, 1, -1)
    for q, i in enumerate((2, 4, 8, 10)):
        N[2, i] = h[q] * sg[q]; R[1, i] = -dh[q] * sg[q]
    R[0, 3], R[0, 9] = 1 - t, t
    return N, R


class RefModel:
    """stations: {member: [x,...]} extra query points.  inactive: set of ('m'|'s', name) removed from the stiffness.
    inactive_sup: set of (node, dof) of one-way support springs considered lifted off."""

    def __init__(self, s, stations=None, inactive=(), inactive_sup=(), load_split=True, sep=0.0):
        # sep: load boundaries and stations closer than sep*L to each other or to a node get no unknowns of their own (these would
        # ruin the condition of the equations); what happens there is found within the element
        self.s = s
        self.sep = sep
        self.inactive = set(inactive)
        self.inactive_sup = set(inactive_sup)
        self.names = list(s["nodes"])
        self.idx = {n: i for i, n in enumerate(self.names)}
        self.ndof = 6 * len(self.names)
        self.mem = {}
        stations = stations or {}
        for name, d in s["members"].items():
            self._mesh_member(name, d, stations.get(name, ()), load_split)

    def _new(self, k):
        a = self.ndof
        self.ndof += k
        return list(range(a, a + k))

    def _mesh_member(self, name, d, extra, load_split):
        s = self.s
        T = S.member_axes(s, name)
        L = S.member_len(s, name)
        tol = max(1e-9, self.sep) * L
        pts = {}
        inter = S.interior_nodes(s, name)
        fixed = [(0.0, d["i"])] + inter + [(L, d["j"])]
        xs = [p for p in extra]
        if load_split:
            for l in s["mpt"]:
                if l[0] == name:
                    xs.append(l[3])
            for l in s["mdist"]:
                if l[0] == name:
                    xs += [0 if l[4] is None else l[4], L if l[5] is None else l[5]]
        xs = sorted(x for x in xs if 0 < x < L)
        allx = [(x, n) for x, n in fixed]
        for x in xs:
            if all(abs(x - y) > tol for y, _ in allx):
                allx.append((x, None))
        allx.sort(key=lambda p: p[0])
        rel = [bool(v) for v in (d.get("rel") or [False] * 12)]
        # global dofs at each station
        st = []
        for x, n in allx:
            st.append((x, list(range(6 * self.idx[n], 6 * self.idx[n] + 6)) if n is not None else self._new(6), n))
        els = []
        R3 = T
        A, Iy, Iz, J = S.mprops(s, d)
        E, G = s["materials"][d["mat"]][:2]
        for q in range(len(st) - 1):
            xa, ga, na = st[q]
            xb, gb, nb = st[q + 1]
            cols = list(ga) + list(gb)
            B = np.zeros((12, 12))
            for blk in range(4):
                B[3 * blk:3 * blk + 3, 3 * blk:3 * blk + 3] = R3
            relidx = []
            if q == 0:
                relidx += [c for c in range(6) if rel[c]]
            if q == len(st) - 2:
                relidx += [6 + c for c in range(6) if rel[6 + c]]
            if relidx:
                ex = self._new(len(relidx))
                cols = cols + ex
                B = np.hstack([B, np.zeros((12, len(ex)))])
                for c, r in enumerate(relidx):
                    B[r, :] = 0
                    B[r, 12 + c] = 1
            els.append(dict(xa=xa, xb=xb, cols=cols, B=B, l=xb - xa, na=na, nb=nb,
                            k=k12(E, G, Iy, Iz, J, A, xb - xa), props=(E, G, Iy, Iz, J, A)))
        self.mem[name] = dict(T=T, L=L, st=st, els=els, EA=E * A, EIz=E * Iz, EIy=E * Iy, GJ=G * J, Ip_A=(Iy + Iz) / A, w=S.mprops(s, d)[0] * s["materials"][d["mat"]][3])

    # ---- loads on a member in local components, for a combo
    def member_loads(self, name, factors):
        s = self.s
        mm = self.mem[name]
        T, L = mm["T"], mm["L"]
        pts, dist = [], []

        def comp(d):
            k = "XYZ".find(d[1].upper())
            v = np.eye(3)[k]
            return T @ v if d[1].isupper() else v
        for n, d, P, x, c in s["mpt"]:
            if n == name and factors.get(c, 0):
                v = comp(d) * P * factors[c]
                pts.append((x, np.concatenate([v, np.zeros(3)]) if d[0] == "F" else np.concatenate([np.zeros(3), v])))
        for n, d, w1, w2, x1, x2, c in s["mdist"]:
            if n == name and factors.get(c, 0):
                v = comp(d) * factors[c]
                dist.append((0.0 if x1 is None else x1, L if x2 is None else x2, v * w1, v * w2))
        for d, f, c in s["sw"]:
            if factors.get(c, 0):
                v = comp(d) * f * factors[c] * mm["w"]
                dist.append((0.0, L, v, v))
        return pts, dist

    def feq(self, el, pts, dist, first, last):
        """Consistent (work-equivalent) local nodal loads of one element."""
        f = np.zeros(12)
        xa, xb, l = el["xa"], el["xb"], el["l"]
        tol = 1e-9 * max(l, 1e-30)
        for x, v in pts:
            inside = (xa - tol <= x < xb - tol) or (last and abs(x - xb) <= tol * 10)
            if not inside:
                continue
            N, R = shape(min(max(x - xa, 0), l), l)
            f += N.T @ v[:3] + R.T @ v[3:]
        for x1, x2, w1, w2 in dist:
            a, b = max(x1, xa), min(x2, xb)
            if b - a <= 0 or x2 <= x1:
                continue
            xs = (a + b) / 2 + _GX * (b - a) / 2
            for x, g in zip(xs, _GW * (b - a) / 2):
                w = w1 + (w2 - w1) * (x - x1) / (x2 - x1)
                N, _ = shape(x - xa, l)
                f += g * (N.T @ w)
        return f

    def assemble(self, P=None):
        K = np.zeros((self.ndof, self.ndof))
        s = self.s
        for name, mm in self.mem.items():
            if ("m", name) in self.inactive:
                for el in mm["els"]:
                    for c in set(el["cols"]):
                        if c >= 6 * len(self.names):
                            K[c, c] += 1.0          # dangling station dofs of a removed member
                continue
            for q, el in enumerate(mm["els"]):
                k = el["k"]
                if P is not None:
                    k = k + kg12(P[name][q], el["l"], mm["Ip_A"])
                K[np.ix_(el["cols"], el["cols"])] += el["B"].T @ k @ el["B"]
        for name, d in s["springs"].items():
            if ("s", name) in self.inactive:
                continue
            a, b = S.vec(s, d["i"]), S.vec(s, d["j"])
            u = (b - a) / np.linalg.norm(b - a)
            g = np.concatenate([-u, u])
            c = [6 * self.idx[d["i"]] + q for q in range(3)] + [6 * self.idx[d["j"]] + q for q in range(3)]
            K[np.ix_(c, c)] += float(d["ks"]) * np.outer(g, g)
        for n, dof, k, dr in s["spsup"]:
            if (n, dof) in self.inactive_sup:
                continue
            i = 6 * self.idx[n] + S.DOFS.index(dof)
            K[i, i] += float(k)
        return K

    def load_vector(self, factors, inactive_loads=True):
        F = np.zeros(self.ndof)
        s = self.s
        for n, d, P, c in s["nload"]:
            F[6 * self.idx[n] + S.FDIR.index(d)] += P * factors.get(c, 0)
        self._feq = {}
        self._loads = {}
        for name, mm in self.mem.items():
            pts, dist = self._loads[name] = self.member_loads(name, factors)
            fe = []
            for q, el in enumerate(mm["els"]):
                f = self.feq(el, pts, dist, q == 0, q == len(mm["els"]) - 1)
                fe.append(f)
                if ("m", name) not in self.inactive:
                    F[el["cols"]] += el["B"].T @ f
            self._feq[name] = fe
            if ("m", name) in self.inactive and inactive_loads:
                # a removed member still passes its loads on to its nodes as its fixed end forces
                nn = 6 * len(self.names)
                cols = sorted({c for el in mm["els"] for c in el["cols"]})
                pos = {c: i for i, c in enumerate(cols)}
                Km, Fm = np.zeros((len(cols), len(cols))), np.zeros(len(cols))
                for el, f in zip(mm["els"], fe):
                    ix = [pos[c] for c in el["cols"]]
                    np.add.at(Fm, ix, el["B"].T @ f)
                    Km[np.ix_(ix, ix)] += el["B"].T @ el["k"] @ el["B"]
                a = [i for i, c in enumerate(cols) if c < nn]
                b = [i for i, c in enumerate(cols) if c >= nn]
                g = Fm[a]
                if b:
                    g = g - Km[np.ix_(a, b)] @ np.linalg.lstsq(Km[np.ix_(b, b)], Fm[b], rcond=1e-13)[0]
                F[[cols[i] for i in a]] += g
        return F

    def known(self):
        s = self.s
        kn = {}
        for n, sup in s["supports"].items():
            for q in range(6):
                if sup[q]:
                    kn[6 * self.idx[n] + q] = 0.0
        for n, dof, v in s["enf"]:
            kn[6 * self.idx[n] + S.DOFS.index(dof)] = float(v)
        return kn

    def solve(self, factors, P=None, max_cond=1e11):
        K = self.assemble(P)
        F = self.load_vector(factors)
        kn = self.known()
        k2 = np.array(sorted(kn), int)
        k1 = np.array([i for i in range(self.ndof) if i not in kn], int)
        D = np.zeros(self.ndof)
        D[k2] = [kn[i] for i in k2]
        self.cond = 1.0
        # (loads that cancel still leave rounding errors)
        self.gross = 1e-6 * S.gross_load(self.s, factors)
        L = max([m["L"] for m in self.mem.values()] + [1e-9])
        Fa = np.abs(F)
        Fa[:6 * len(self.names)] = np.maximum(Fa[:6 * len(self.names)], np.tile([self.gross] * 3 + [self.gross * L] * 3, len(self.names)))
        self.amp = np.abs(D)
        if len(k1):
            A = K[np.ix_(k1, k1)]
            dg = np.abs(np.diag(A)).copy()
            # (a diagonal that is left over from cancelling stiffnesses is rounding, not stiffness)
            for par in (0, 1):
                grp = np.array([i < 6 * len(self.names) and (i % 6 >= 3) == bool(par) for i in k1])
                if grp.any() and dg[grp].min() < 1e-9 * dg[grp].max():
                    raise Singular("tiny diagonal")
            if np.any(dg <= 0):
                raise Singular("zero diagonal")
            sc = 1 / np.sqrt(dg)
            As = A * np.outer(sc, sc)
            self.cond = np.linalg.cond(As)
            if not np.isfinite(self.cond) or self.cond > max_cond:
                raise Singular(f"cond {self.cond:.2e}")
            Ai = np.linalg.inv(As)
            rhs = F[k1] - K[np.ix_(k1, k2)] @ D[k2]
            D[k1] = np.linalg.solve(As, sc * rhs) * sc
            # natural size of each displacement if nothing cancelled: |K^-1| (|F| + |K12||D2|)
            amp = np.zeros(self.ndof)
            amp[k1] = sc * (np.abs(Ai) @ (sc * (Fa[k1] + np.abs(K[np.ix_(k1, k2)]) @ np.abs(D[k2]))))
            amp[k2] = np.abs(D[k2])
            self.amp = amp
        self.D, self.K, self.F, self.k1, self.k2 = D, K, F, k1, k2
        return D

    def axial_forces(self):
        """Axial force (tension +) from the axial strain of each element, as the two-step P-Delta procedure uses."""
        out = {}
        for name, mm in self.mem.items():
            out[name] = []
            for el in mm["els"]:
                d = el["B"] @ self.D[el["cols"]]
                out[name].append(mm["EA"] / el["l"] * (d[6] - d[0]))
        return out

    # ---- result access
    def node_disp(self):
        return self.D[:6 * len(self.names)].reshape(-1, 6)

    def residual(self):
        """K D - F over the model nodes: what supports (and nothing else) must provide."""
        return (self.K @ self.D - self.F)[:6 * len(self.names)].reshape(-1, 6)

    def reactions(self):
        """Support reactions at restrained dofs plus spring-support forces on the structure."""
        s = self.s
        R = np.zeros((len(self.names), 6))
        res = self.residual()
        for n, sup in s["supports"].items():
            for q in range(6):
                if sup[q]:
                    R[self.idx[n], q] += res[self.idx[n], q]
        for n, dof, k, dr in s["spsup"]:
            if (n, dof) in self.inactive_sup:
                continue
            q = S.DOFS.index(dof)
            sup = s["supports"].get(n)
            i = 6 * self.idx[n] + q
            # (at a supported dof the residual is the force the support gives to structure and spring together; the
            # ground as a whole gives the support force plus the spring force)
            R[self.idx[n], q] += -float(k) * self.D[i]
        return R

    def el_end_forces(self, name, q, P=None):
        mm = self.mem[name]
        el = mm["els"][q]
        k = el["k"] if P is None else el["k"] + kg12(P[name][q], el["l"], mm["Ip_A"])
        return k @ (el["B"] @ self.D[el["cols"]]) - self._feq[name][q]

    def member_end_forces(self, name):
        mm = self.mem[name]
        a = self.el_end_forces(name, 0)[:6]
        b = self.el_end_forces(name, len(mm["els"]) - 1)[6:]
        return np.concatenate([a, b])

    def internal(self, name, x, side=-1):
        """Stress resultants at section x (sum of everything to its left, local axes): Fx,Fy,Fz,Mx,My,Mz.
        x must be a station. side=-1 just before, +1 just after the station."""
        mm = self.mem[name]
        for q, el in enumerate(mm["els"]):
            if side > 0 and abs(el["xa"] - x) < 1e-9 * mm["L"]:
                return self.el_end_forces(name, q)[:6]
            if side < 0 and abs(el["xb"] - x) < 1e-9 * mm["L"]:
                return -self.el_end_forces(name, q)[6:]
        q, el = self._within(name, x)
        f = self.el_end_forces(name, q)[:6].copy()
        e1 = np.array([1.0, 0, 0])
        f[3:] -= np.cross((x - el["xa"]) * e1, f[:3])
        pts, dist = self._loads[name]
        for xp, v in pts:
            if el["xa"] - 1e-9 * mm["L"] <= xp < x - 1e-9 * mm["L"]:
                f[:3] += v[:3]
                f[3:] += v[3:] - np.cross((x - xp) * e1, v[:3])
        for x1, x2, w1, w2 in dist:
            a, b = max(x1, el["xa"]), min(x2, x)
            if b - a <= 0 or x2 <= x1:
                continue
            for y, g in zip((a + b) / 2 + _GX * (b - a) / 2, _GW * (b - a) / 2):
                w = g * (w1 + (w2 - w1) * (y - x1) / (x2 - x1))
                f[:3] += w
                f[3:] -= np.cross((x - y) * e1, w)
        return f

    def _within(self, name, x):
        for q, el in enumerate(self.mem[name]["els"]):
            if self.sep and el["xa"] < x < el["xb"]:
                return q, el
        raise KeyError(x)

    def local_disp(self, name, x):
        """Local displacement (6) of the member axis at station x (member side of any release)."""
        mm = self.mem[name]
        for q, el in enumerate(mm["els"]):
            if abs(el["xa"] - x) < 1e-9 * mm["L"]:
                return (el["B"] @ self.D[el["cols"]])[:6]
            if abs(el["xb"] - x) < 1e-9 * mm["L"]:
                return (el["B"] @ self.D[el["cols"]])[6:]
        q, el = self._within(name, x)
        N, R = shape(x - el["xa"], el["l"])
        # the loads within the element bend it further: two pieces clamped at its ends
        a = dict(xa=el["xa"], xb=x, l=x - el["xa"])
        b = dict(xa=x, xb=el["xb"], l=el["xb"] - x)
        pts, dist = self._loads[name]
        f = self.feq(a, pts, dist, q == 0, False)[6:] + self.feq(b, pts, dist, False, q == len(mm["els"]) - 1)[:6]
        k = k12(*el["props"], a["l"])[6:, 6:] + k12(*el["props"], b["l"])[:6, :6]
        return np.concatenate([N, R]) @ (el["B"] @ self.D[el["cols"]]) + np.linalg.solve(k, f)
