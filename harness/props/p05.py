"""Polytope inclusion and cover tests."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

P = mod("polytope").Polytope


def subset(HA, HB, d):
    """Exact A subset of B, for non-empty A."""
    for r, e in HB:
        for s in ([r, geo.negate(r)] if e else [r]):
            st_, v, _ = geo.lp_max(geo.negate(s), HA, d)
            if st_ == "unb" or (st_ == "opt" and v > 0):
                return False
    return True


@st.composite
def s_sub(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    A = draw(gen.poly(d))
    mode = draw(st.sampled_from(["random", "relax", "relax", "tight", "flat"]))
    if mode == "random":
        B = draw(gen.poly(d))
    elif mode == "flat":
        B = {"d": d, "ineq": A["ineq"][:2], "eq": A["eq"] or [A["ineq"][-1]]}
    else:
        # halfspaces supporting A, pushed by a slack
        rows = []
        for _ in range(draw(st.integers(1, d + 2))):
            a = [F(t) for t in draw(gen.row(d))]
            s, v, _ = geo.lp_max([0] + [-t for t in a[1:]], gen.H(A), d)
            if s != "opt":
                v = F(0)
            slack = F(draw(st.sampled_from(["0", "0", "1/9", "2"] if mode == "relax"
                                           else ["0", "0", "-1/100000", "0"])))
            rows.append([str(v + slack)] + [str(t) for t in a[1:]])
        B = {"d": d, "ineq": rows, "eq": []}
    return dict(d=d, A=A, B=B)


def c_sub(case, ctx):
    d = case["d"]
    HA, HB = gen.H(case["A"]), gen.H(case["B"])
    want = subset(HA, HB, d)
    if geo.feasible_point(HA, d) is None:
        ctx.event("empty_A")
        want = True
    ctx.event("subset" if want else "not_subset")
    ctx.event("bounded_A" if geo.is_bounded(HA, d) else "unbounded_A")
    ctx.nontrivial(geo.feasible_point(HA + HB, d) is not None)
    A, B = gen.build(case["A"], P), gen.build(case["B"], P)
    expect(A.is_subset_of(B) == want, f"is_subset_of is not {want}")
    expect(A.is_subset_of(A), "a polytope is not a subset of itself")
    expect(A.intersect(B).is_subset_of(A) or geo.feasible_point(HA + HB, d) is None,
           "A & B is not a subset of A")


@st.composite
def s_cov(draw):
    d = draw(st.sampled_from([1, 2, 2, 2, 3]))
    A = draw(gen.poly(d, bounded=True, full=True, maxcuts=2))
    mode = draw(st.sampled_from(["split", "gap", "random", "split"]))
    Qs = []
    if mode == "random":
        Qs = [draw(gen.poly(d)) for _ in range(draw(st.integers(1, 4)))]
    else:
        k = draw(st.integers(1, 2))
        cuts = [draw(gen.cut_through(d, A["ineq"])) if False else draw(gen.row(d)) for _ in range(k)]
        import itertools
        for sg in itertools.product([1, -1], repeat=k):
            rows = [[str(F(t) * s) for t in c] for c, s in zip(cuts, sg)]
            if mode == "gap" and all(s == -1 for s in sg):
                rows[0][0] = str(F(rows[0][0]) - F(draw(st.sampled_from(["1", "1/50", "1/5000"]))))
            keep = draw(st.booleans())
            Qs.append({"d": d, "ineq": rows + (A["ineq"] if keep else []), "eq": []})
        if draw(st.integers(0, 3)) == 0:
            Qs.pop()
        if not Qs:
            Qs = [A]
    if draw(st.integers(0, 3)) == 0:
        Qs.append(draw(gen.poly(d)))
    if draw(st.integers(0, 4)) == 0:  # a flat member in a plane that supports A
        a = [F(t) for t in draw(gen.row(d))]
        s, v, _ = geo.lp_max([0] + [-t for t in a[1:]], gen.H(A), d)
        if s == "opt":
            k = draw(st.sampled_from([1, -1]))
            flat = {"d": d, "ineq": A["ineq"] if draw(st.booleans()) else [], "eq": [[str(k * t) for t in [v] + a[1:]]]}
            Qs = [flat] if draw(st.booleans()) else Qs + [flat]
    return dict(d=d, A=A, Qs=list(draw(st.permutations(Qs))))


def c_cov(case, ctx):
    d = case["d"]
    HA = gen.H(case["A"])
    Hs = [gen.H(q) for q in case["Qs"]]
    if geo.interior_point(HA, d) is None:
        ctx.event("flat_skipped")
        return
    gap = geo.covered(HA, Hs, d)
    ctx.event("covered" if gap is None else "gap")
    ctx.nontrivial(any(geo.interior_point(HA + q, d) is not None for q in Hs) and len(Hs) > 1)
    A = gen.build(case["A"], P)
    Qs = [gen.build(q, P) for q in case["Qs"]]
    g = A.is_covered_by(Qs)
    expect(g == (gap is None), f"is_covered_by = {g}, but "
           + ("it is covered" if gap is None else f"{[str(t) for t in gap]} is not covered"))
    expect(A.is_covered_by(Qs[::-1]) == g, "the answer depends on the order of the cover")
    expect(A.is_covered_by(Qs + [A]), "A is not covered by a family that contains A")


TESTS = [
    Test("subset", s_sub, c_sub, 1500, 16000, 4,
         "A (bounded or not) against random B, supporting halfspaces of A with slack 0, positive or "
         "-1e-5, and flat B; exact LP oracle; non-trivial when A and B meet"),
    Test("cover", s_cov, c_cov, 800, 8000, 4,
         "solid bounded A against families of 1-5 polyhedra: exact splits, splits with a thin gap, "
         "random; flat members in supporting planes; exact cell search as oracle; non-trivial with >=2 members one of which meets A"),
]
