"""Generators of JSON-able cases. Rationals are strings."""
from fractions import Fraction as F

import core  # noqa: F401  (puts hypothesis on the path)
from hypothesis import strategies as st

DENS = (1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 13, 25, 32)


@st.composite
def frac(draw, lo=-4, hi=4, dens=DENS):
    """A rational in [lo, hi] as a string."""
    q = draw(st.sampled_from(dens))
    lo, hi = F(lo), F(hi)
    a = -((-lo.numerator * q) // lo.denominator)
    b = (hi.numerator * q) // hi.denominator
    if a > b:
        q = lo.denominator
        a = b = lo.numerator
    return str(F(draw(st.integers(a, b)), q))


def frac_nz(lo=-4, hi=4, dens=DENS):
    return frac(lo, hi, dens).map(lambda s: "1" if F(s) == 0 else s)


def pos(lo=1, hi=6, dens=DENS):
    """positive rational: lo/hi scaled"""
    return frac(F(1, 8), hi, dens).map(lambda s: "1" if F(s) <= 0 else s)


def point(d, lo=-4, hi=4, dens=DENS):
    return st.lists(frac(lo, hi, dens), min_size=d, max_size=d)


@st.composite
def interval_pair(draw, lo=-4, hi=4, degenerate=True):
    a = F(draw(frac(lo, hi)))
    w = F(draw(frac(0, 3)))
    if w == 0 and not degenerate:
        w = F(1)
    return [str(a), str(a + w)]


@st.composite
def box_rows(draw, d, degenerate=False):
    rows = []
    for i in range(d):
        a, b = (F(t) for t in draw(interval_pair(-3, 3, degenerate)))
        r = [-a] + [F(0)] * d
        r[i + 1] = F(1)
        rows.append([str(t) for t in r])
        r = [b] + [F(0)] * d
        r[i + 1] = F(-1)
        rows.append([str(t) for t in r])
    return rows


@st.composite
def row(draw, d, dens=(1, 1, 1, 2, 3, 4)):
    a = draw(st.lists(frac(-3, 3, dens), min_size=d, max_size=d))
    if all(F(t) == 0 for t in a):
        i = draw(st.integers(0, d - 1))
        a[i] = draw(st.sampled_from(["1", "-1"]))
    c = draw(frac(-4, 4))
    return [c] + a


@st.composite
def cut_through(draw, d, rows):
    """A halfspace whose boundary passes through a point of the box given by rows."""
    a = [F(t) for t in draw(row(d))]
    lim = [(-F(rows[2 * i][0]), F(rows[2 * i + 1][0])) for i in range(d)]
    p = []
    for lo, hi in lim:
        t = F(draw(st.sampled_from(["0", "1/4", "1/3", "1/2", "2/3", "1"])))
        p.append(lo + t * (hi - lo))
    a[0] = -sum(a[i + 1] * p[i] for i in range(d))
    return [str(t) for t in a]


@st.composite
def poly(draw, d, bounded=False, full=False, maxcuts=3, eqs=True):
    """A polyhedron in R^d: {"d", "ineq": rows, "eq": rows}."""
    kinds = ["box", "cutbox", "cutbox", "cutbox"]
    if not bounded:
        kinds += ["free", "free"]
    if not full:
        kinds += ["degbox"]
        if eqs:
            kinds += ["eqbox"]
    kind = draw(st.sampled_from(kinds))
    eq = []
    if kind == "box":
        ineq = draw(box_rows(d))
    elif kind == "degbox":
        ineq = draw(box_rows(d, degenerate=True))
    elif kind == "free":
        ineq = draw(st.lists(row(d), min_size=1, max_size=d + 3))
    else:
        ineq = draw(box_rows(d))
        box = ineq[:]
        for _ in range(draw(st.integers(1, maxcuts))):
            ineq = ineq + [draw(cut_through(d, box))]
        if kind == "eqbox":
            eq = [draw(cut_through(d, box))]
            ineq = ineq[:2 * d + 1]
    if draw(st.integers(0, 5)) == 0 and not full:
        # a duplicate (scaled) row, or the negation of one
        r = draw(st.sampled_from(ineq))
        k = draw(st.sampled_from([1, 2, -1]))
        ineq = ineq + [[str(F(t) * k) for t in r]]
    if draw(st.integers(0, 7)) == 0:
        # the same halfspace written with very small or large numbers
        i = draw(st.integers(0, len(ineq) - 1))
        k = F(draw(st.sampled_from(["1/1000000000000", "1/1000", "1000"])))
        ineq = ineq[:i] + [[str(F(t) * k) for t in ineq[i]]] + ineq[i + 1:]
    if draw(st.booleans()):
        ineq = draw(st.permutations(ineq))
    return {"d": d, "ineq": [list(r) for r in ineq], "eq": eq}


def fr(rows):
    return [[F(t) for t in r] for r in rows]


def H(case):
    return [(r, False) for r in fr(case["ineq"])] + [(r, True) for r in fr(case["eq"])]


def build(case, P):
    """Build the repository's Polytope from a case, as its users do."""
    ineq, eq = fr(case["ineq"]), fr(case["eq"])
    if not eq:
        return P(ineq)
    e = P(eq, linear=True)
    if not ineq:
        return e
    return P(ineq).intersect(e)


def pull(pc, pt, slack="1/3"):
    """Move the rows of pc that exclude pt so that they admit it."""
    def fix(r, eq):
        q = [F(t) for t in r]
        v = q[0] + sum(a * x for a, x in zip(q[1:], pt))
        if eq:
            q[0] -= v
        elif v <= 0 and any(q[1:]):
            q[0] += -v + F(slack)
        return [str(t) for t in q]
    return dict(pc, ineq=[fix(r, False) for r in pc["ineq"]], eq=[fix(r, True) for r in pc["eq"]])


@st.composite
def polys(draw, d, lo, hi, **kw):
    """Several polyhedra, in most cases with a common point."""
    n = draw(st.integers(lo, hi))
    out = [draw(poly(d, **kw)) for _ in range(n)]
    if draw(st.integers(0, 4)):
        pt = [F(t) for t in draw(point(d, -2, 2))]
        sl = draw(st.sampled_from(["0", "1/3", "1/3", "1", "2"]))
        out = [pull(o, pt, sl) for o in out]
    return out
