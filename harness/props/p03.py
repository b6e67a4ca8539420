"""Polytope intersection."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod
from props.p01 import probes

PT = mod("polytope")
P = PT.Polytope


@st.composite
def s_int(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    return dict(d=d, polys=draw(gen.polys(d, 1, 4)),
                pts=draw(st.lists(gen.point(d), min_size=2, max_size=4)),
                canon=draw(st.booleans()))


def c_int(case, ctx):
    d = case["d"]
    Hs = [gen.H(c) for c in case["polys"]]
    H = [h for x in Hs for h in x]
    pts = probes(H[:10], d, case["pts"])
    for x in Hs:
        pts += sorted(geo.vertices(x, d))[:3]
    p = geo.feasible_point(H, d)
    if p is not None:
        pts.append(p)
    p2 = geo.interior_point(H, d)
    if p2 is not None:
        pts.append(p2)
    qs = [gen.build(c, P) for c in case["polys"]]
    ctx.nontrivial(p is not None and len(qs) > 1 and any(not geo.inside(H, t) for t in pts))
    ctx.event("nonempty" if p is not None else "empty")
    r = P.intersection(qs, canonicalize=case["canon"])
    for t in pts:
        want = geo.inside(H, t)
        expect(r.contains(list(t)) == want,
               f"intersection of {len(qs)}: contains({[str(x) for x in t]}) is not {want}")
    if len(qs) >= 2:
        r2 = qs[0].intersect(qs[1])
        r3 = qs[1].intersect(qs[0])
        H2 = Hs[0] + Hs[1]
        for t in pts:
            want = geo.inside(H2, t)
            expect(r2.contains(list(t)) == want and r3.contains(list(t)) == want,
                   f"intersect: contains({[str(x) for x in t]}) is not {want}")
    for q, x in zip(qs, Hs):
        for t in pts:
            expect(q.contains(list(t)) == geo.inside(x, t), "an operand was changed by intersection")
    if p2 is not None and len(qs) > 1 and geo.is_bounded(H, d):
        expect(set(map(tuple, P.intersection(qs).get_vertices())) == geo.vertices(H, d),
               "the vertices of the intersection are wrong")


TESTS = [
    Test("intersection", s_int, c_int, 1500, 16000, 6,
         "1-4 random polyhedra (bounded, unbounded, with equalities, disjoint) in dimension 1-4; "
         "probes at vertices of operands and of the intersection; non-trivial when the intersection "
         "is non-empty and a probe lies outside it"),
]
