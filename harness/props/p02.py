"""Polytope emptiness, with and without boundary, under any order of queries."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

P = mod("polytope").Polytope


@st.composite
def s_empty(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    pc = draw(gen.poly(d))
    k = draw(st.integers(0, 3))
    if k == 1:  # squeeze: a parallel copy of the negation of a row, slack in {-,0,+}
        r = [F(t) for t in draw(st.sampled_from(pc["ineq"]))]
        s = F(draw(st.sampled_from(["-1", "-1/7", "-1/1000", "-1/1000000000000", "0", "1/1000", "1/1000000000000", "1/7", "2"])))
        pc["ineq"].append([str(-r[0] + s)] + [str(-t) for t in r[1:]])
    elif k == 2:  # intersect with a halfspace that touches or misses the polytope
        a = [F(t) for t in draw(gen.row(d))]
        s, v, _ = geo.lp_max([0] + a[1:], gen.H(pc), d)
        if s == "opt":
            off = F(draw(st.sampled_from(["-1/3", "0", "0", "1/5", "1/100000"])))
            pc["ineq"].append([str(-v + off)] + [str(t) for t in a[1:]])
    if draw(st.integers(0, 3)) == 0:  # very thin or long in one direction
        i = draw(st.integers(1, d))
        s = F(draw(st.sampled_from(["1000", "1/1000"])))
        for r in pc["ineq"] + pc["eq"]:
            r[i] = str(F(r[i]) * s)
    if draw(st.integers(0, 7)) == 0:  # a constraint without variables
        pc["ineq"].insert(draw(st.integers(0, len(pc["ineq"]))), [draw(st.sampled_from(["1", "-1", "1/3", "-1/5"]))] + ["0"] * d)
    ops = draw(st.lists(st.sampled_from(["incl", "excl", "canon", "verts", "copy", "full"]),
                        min_size=2, max_size=6))
    return dict(poly=pc, ops=ops)


def c_empty(case, ctx):
    pc = case["poly"]
    d, H = pc["d"], gen.H(pc)
    closed = geo.feasible_point(H, d) is None
    opened = geo.interior_point(H, d) is None
    ctx.event("empty" if closed else "flat" if opened else "solid")
    ctx.nontrivial(len(H) > d)
    q = gen.build(pc, P)
    for op in case["ops"] + ["incl", "excl", "incl", "excl"]:
        if op == "incl":
            g = q.is_empty(include_boundary=True)
            expect(g == closed, f"is_empty(include_boundary=True) = {g}, want {closed} after {case['ops']}")
            expect(q.is_empty() == closed, "is_empty() default differs")
        elif op == "excl":
            g = q.is_empty(include_boundary=False)
            expect(g == opened, f"is_empty(include_boundary=False) = {g}, want {opened} after {case['ops']}")
        elif op == "copy":
            q = copy.copy(q)
        elif closed:
            continue  # the rest only makes sense for non-empty polytopes
        elif op == "canon":
            q.canonicalize()
        elif op == "verts":
            q.get_vertices()
        elif op == "full":
            g = q.is_full_dim()
            expect(g == (not opened), f"is_full_dim() = {g} but the interior is "
                   f"{'empty' if opened else 'not empty'}")


@st.composite
def s_pairwise(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    return dict(polys=draw(gen.polys(d, 2, 3)), d=d,
                canon=draw(st.booleans()), ask=draw(st.booleans()))


def c_pairwise(case, ctx):
    """Emptiness of an intersection does not inherit a stale answer of its operands."""
    d = case["d"]
    qs = [gen.build(c, P) for c in case["polys"]]
    if case["ask"]:
        for q in qs:
            q.is_empty()
            q.is_empty(include_boundary=False)
    H = [h for c in case["polys"] for h in gen.H(c)]
    closed = geo.feasible_point(H, d) is None
    opened = geo.interior_point(H, d) is None
    ctx.event("empty" if closed else "flat" if opened else "solid")
    ctx.nontrivial(any(geo.feasible_point(gen.H(c), d) is not None for c in case["polys"]))
    r = P.intersection(qs, canonicalize=case["canon"])
    expect(r.is_empty() == closed, f"the intersection reports is_empty = {not closed}")
    expect(r.is_empty(include_boundary=False) == opened,
           f"the intersection reports is_empty(include_boundary=False) = {not opened}")


TESTS = [
    Test("emptiness", s_empty, c_empty, 2400, 30000, 4,
         "random polyhedra incl. unbounded, inconsistent, exactly touching and ones down to 1e-12 thick, "
         "queried in a random order with canonicalisation, copies and vertex computation between; "
         "exact rational LP oracle; non-trivial with more rows than dimensions"),
    Test("intersection_emptiness", s_pairwise, c_pairwise, 1200, 10000, 4,
         "intersections of 2-3 polyhedra after their own emptiness was asked; non-trivial when an "
         "operand is non-empty"),
]
