"""Validates the reference solver against closed-form results, so that the oracle itself does not rest on the code under test."""
import numpy as np
from . import spec as S, ref


def beam(L=4.0, rel=None, sup=None, **ld):
    s = S.new()
    s["materials"]["m"] = [200.0, 80.0, .25, 1.0]
    s["nodes"] = {"A": [0, 0, 0], "B": [L, 0, 0]}
    s["members"]["M"] = dict(i="A", j="B", mat="m", Iy=2.0, Iz=3.0, J=1.5, A=.7, rel=rel or [0] * 12)
    s["supports"] = sup or {"A": [1] * 6, "B": [1] * 6}
    s.update(ld)
    return s


def close(a, b):
    assert abs(a - b) <= 1e-9 * max(1, abs(b)), (a, b)


def main():
    L, w, P = 4.0, 3.0, 5.0
    EI = 600.0
    R = ref.RefModel(beam(mdist=[["M", "Fy", -w, -w, None, None, "c"]]), {"M": [L / 2]})
    R.solve({"c": 1.0})
    close(R.reactions()[0, 1], w * L / 2); close(R.reactions()[0, 5], w * L ** 2 / 12)
    close(R.local_disp("M", L / 2)[1], -w * L ** 4 / 384 / EI); close(R.internal("M", L / 2)[5], w*L*L/12 - w*L/2*L/2 + w*L*L/8)
    R = ref.RefModel(beam(mpt=[["M", "Fy", -P, 1.0, "c"]]))
    R.solve({"c": 1.0})
    close(R.reactions()[0, 5], P * 1 * 9 / 16); close(R.reactions()[0, 1], P * 9 * (3 * 1 + 3) / 64)
    cant = {"A": [1] * 6}
    R = ref.RefModel(beam(sup=cant, nload=[["B", "FZ", P, "c"], ["B", "MX", 2.0, "c"], ["B", "FX", 1.0, "c"]]))
    R.solve({"c": 1.0})
    d = R.node_disp()[1]
    close(d[2], P * L ** 3 / 3 / 400); close(d[4], -P * L ** 2 / 2 / 400); close(d[3], 2 * L / 120); close(d[0], L / 140)
    R = ref.RefModel(beam(rel=[0] * 11 + [1], mdist=[["M", "Fy", -w, -w, None, None, "c"]]))
    R.solve({"c": 1.0})
    close(R.reactions()[0, 5], w * L * L / 8); close(R.reactions()[1, 1], 3 * w * L / 8)
    # triangular load on a fixed beam: wL^2/20 at the heavy end, wL^2/30 at the other
    R = ref.RefModel(beam(mdist=[["M", "Fy", 0.0, -w, None, None, "c"]]))
    R.solve({"c": 1.0})
    close(R.reactions()[0, 5], w * L * L / 30); close(R.reactions()[1, 5], -w * L * L / 20)
    # sections within elements against nodes at them
    b = beam(rel=[0, 0, 0, 0, 0, 1] + [0] * 6, mpt=[["M", d, v, x, "c"] for d, v, x in (("Fy", 3.0, 1.0), ("FZ", -2.0, 2.5), ("Mz", 4.0, 1.2), ("My", -1.0, 3.0), ("Fx", 2.0, 0.7), ("Mx", 1.5, 2.2))],
             mdist=[["M", d, v, w2, x1, x2, "c"] for d, v, w2, x1, x2 in (("Fy", 1.0, -2.0, 0.5, 3.0), ("Fz", 2.0, 0.0, 1.5, 3.9), ("Fx", 1.0, 3.0, None, None))])
    xs = [0.3, 1.0, 1.9, 2.5, 3.5]
    A, B = ref.RefModel(b, {"M": xs}), ref.RefModel(b, {"M": xs}, sep=0.9)
    assert len(A.mem["M"]["els"]) > 10 and len(B.mem["M"]["els"]) == 1
    A.solve({"c": 1.0}); B.solve({"c": 1.0})
    for x in xs:
        for p, q in [(A.local_disp("M", x), B.local_disp("M", x)), (A.internal("M", x, -1), B.internal("M", x, -1)), (A.internal("M", x, 1), B.internal("M", x, 1))]:
            for v, w_ in zip(p, q):
                close(v, w_)
    # buckling: the cubic element's critical load of a cantilever is within 1% of pi^2 EI / 4 L^2 (one element)
    s = beam(sup=cant)
    k = ref.k12(200, 80, 2, 3, 1.5, .7, L) + ref.kg12(-np.pi ** 2 * EI / 4 / L ** 2, L, 1.0)
    lam = np.linalg.det(k[np.ix_([7, 11], [7, 11])]) / np.linalg.det(ref.k12(200, 80, 2, 3, 1.5, .7, L)[np.ix_([7, 11], [7, 11])])
    assert 0 < lam < 0.02, lam
    print("reference solver self-test passed")
