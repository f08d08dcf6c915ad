"""C02: displacements and reactions of frames agree with an independent beam-theory solution."""
from ..core import check
from .. import gen, spec as S
from ..common import *


@check("C02", rule="random spatial frames (1-6 members in mixed directions incl. vertical, auxiliary nodes, end releases, interior nodes, "
       "springs, support springs, enforced displacements, every load type and direction, several load combinations), built in PyNite in random "
       "insertion order and solved by a random entry point; every nodal displacement and reaction of every combination is compared with an "
       "independently formulated solver; a case is non-trivial when the reference is well conditioned and some displacement is non-zero",
       quick=8000, needs=("nodal displacement", "nodal reaction"))
def case(r, mon, i):
    s, u = gen.frame(r)
    mon.case(s)
    m = S.build(s, perm=r if r.random() < 0.5 else None)
    how = None
    for c, f in combos(s).items():
        R = reference(s, f)
        if how is None:
            how = analyze(m, r)
        T = Tol(R)
        mon.near("nodal displacement", S.nodal(m, c, R.names), R.node_disp(), T.disp(), lambda: f"{c} nodes {R.names} DX..RZ")
        mon.near("nodal reaction", S.reactions(m, c, R.names), R.reactions(), T.force(), lambda: f"{c} nodes {R.names} FX..MZ")
        mon.max("condition number (log10)", np.log10(R.cond))
    mon.sig(frame_sig(s, how))
