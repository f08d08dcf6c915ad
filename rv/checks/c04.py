"""C04: internal force diagrams."""
from ..core import check
from .. import gen, spec as S
from ..common import *


@check("C04", rule="random spatial frames with many member loads (all directions, partial, linearly varying, at interior nodes, at ends); axial, shear, moment "
       "and torque are queried at random stations, load boundaries, interior nodes and ends of every member in every combination, in random query order, and "
       "compared with the sum of everything to the left of the section computed by an independent solver (either side at a jump)",
       quick=4500, needs=("internal force",))
def case(r, mon, i):
    s, u = gen.frame(r, loads=False)
    gen.add_member_loads(r, s, u, n=r.randint(1, 6))
    gen.add_node_loads(r, s, u, n=r.randint(0, 2))
    if r.random() < 0.3:
        s["sw"].append([r.choice(["FX", "FY", "FZ"]), r.choice([-1.0, 0.7]), r.choice(gen.CASES)])
    gen.add_combos(r, s)
    mon.case(s)
    st = {n: stations(r, s, n, 4) for n in s["members"]}
    m = S.build(s, perm=r if r.random() < 0.3 else None)
    how = None
    todo, Rs = [], {}
    for c, f in combos(s).items():
        R = reference(s, f, {n: v[0] for n, v in st.items()})
        T = Tol(R)
        Rs[c] = (R, np.array([T.f, T.f, T.f, T.m, T.m, T.m]) * 2, f)
        for n in s["members"]:
            for x in st[n][0]:
                todo.append((c, n, x))
    how = analyze(m, r)
    r.shuffle(todo)                     # results of different combinations are asked for alternately
    for c, n, x in todo:
        R, tol, f = Rs[c]
        got = query_internal(m.members[n], x, c)
        near_either(mon, "internal force", got, section_values(R, n, f, x), tol,
                    lambda: f"{n} {c} x={x!r} of {S.member_len(s, n)!r} (P,Vy,Vz,T,My,Mz)")
    mon.sig(frame_sig(s, how))
