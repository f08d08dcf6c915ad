"""C05: deflected shape of members."""
from ..core import check
from .. import gen, spec as S
from ..common import *


@check("C05", rule="random spatial frames; dx, dy and dz deflections along every member are queried at random stations, load boundaries, interior nodes and ends "
       "and compared with an independent solver that has a node at each station; relative deflection is compared with the deflection measured from the chord; "
       "member ends are compared with the nodal displacements unless a release separates them",
       quick=4500, needs=("deflection", "relative deflection", "end deflection"))
def case(r, mon, i):
    s, u = gen.frame(r, loads=False)
    gen.add_member_loads(r, s, u, n=r.randint(1, 6))
    gen.add_node_loads(r, s, u, n=r.randint(0, 3))
    gen.add_combos(r, s)
    mon.case(s)
    st = {n: stations(r, s, n, 4) for n in s["members"]}
    m = S.build(s)
    how = None
    for c, f in combos(s).items():
        R = reference(s, f, {n: v[0] for n, v in st.items()})
        if how is None:
            how = analyze(m, r)
        T = Tol(R)
        for n, d in s["members"].items():
            mem = m.members[n]
            L = S.member_len(s, n)
            rel = d["rel"]
            # displacement jumps at released ends: the member side is what the shape starts from only where it's known
            tr = any(rel[k] for k in (0, 1, 2, 6, 7, 8))
            chord = None
            if not tr:
                A, B = R.local_disp(n, 0.0)[:3], R.local_disp(n, L)[:3]
                ends = S.nodal(m, c, [d["i"], d["j"]])
                Tm = S.member_axes(s, n)
                for k, x in enumerate((0.0, L)):
                    got = [mem.deflection(q, x, c) for q in ("dx", "dy", "dz")]
                    mon.near("end deflection", got, Tm @ ends[k, :3], T.t * 10, lambda: f"{n} {c} x={x}")
            for x in st[n][0]:
                if tr:
                    break
                want = R.local_disp(n, x)[:3]
                got = [mem.deflection(q, x, c) for q in ("dx", "dy", "dz")]
                mon.near("deflection", got, want, T.t * 10, lambda: f"{n} {c} x={x!r} of {L!r} dx,dy,dz")
                ch = A + (B - A) * x / L
                rd = [mem.rel_deflection(q, x, c) for q in ("dy", "dz")]
                mon.near("relative deflection", rd, (want - ch)[1:], T.t * 10, lambda: f"{n} {c} x={x!r} of {L!r} relative dy,dz")
    mon.sig(frame_sig(s, how))
