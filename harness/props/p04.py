"""Polytope difference and union recognition."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

PT = mod("polytope")
P = PT.Polytope


def rows_of(q):
    """(row, is_eq) of a repository polytope, through its public constraint objects."""
    return [(list(k.coefficients), k.inequality_type == PT.Constraint.EQUALS)
            for k in q.get_constraints()]


def generic(pts, Hs):
    """Keep the points that lie on no bounding hyperplane."""
    out = []
    for p in pts:
        if all(geo.val(r, p) != 0 for H in Hs for r, _ in H if any(r[1:])):
            out.append(p)
    return out


def cells(Hs, d, limit=24):
    """Interior points of cells of the arrangement around the sets Hs (a few)."""
    pts = []
    base = Hs[0]
    for H in Hs:
        p = geo.interior_point(H, d)
        if p is not None:
            pts.append(tuple(p))
    for H in Hs[1:]:
        p = geo.interior_point(base + H, d)
        if p is not None:
            pts.append(tuple(p))
        for i, (r, e) in enumerate(H):
            for s in ([r, geo.negate(r)] if e else [geo.negate(r)]):
                p = geo.interior_point(base + [(s, False)], d)
                if p is not None:
                    pts.append(tuple(p))
                if len(pts) > limit:
                    return pts
    return pts


@st.composite
def s_minus(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3]))
    A, B = draw(gen.polys(d, 2, 2))
    return dict(d=d, A=A, B=B,
                pts=draw(st.lists(gen.point(d, -4, 4, (7, 11, 13)), min_size=2, max_size=6)),
                simplify=draw(st.booleans()))


def c_minus(case, ctx):
    d = case["d"]
    HA, HB = gen.H(case["A"]), gen.H(case["B"])
    A, B = gen.build(case["A"], P), gen.build(case["B"], P)
    parts = A.set_minus(B, simplify=case["simplify"])
    Hp = [rows_of(q) for q in parts]
    pts = [tuple(F(t) for t in p) for p in case["pts"]] + cells([HA, HB], d) \
        + [p for p in (geo.interior_point(x, d) for x in Hp) if p is not None]
    pts = generic(pts, [HA, HB] + Hp)
    want = [geo.inside(HA, p) and not geo.inside(HB, p) for p in pts]
    ctx.nontrivial(any(want) and geo.interior_point(HA + HB, d) is not None)
    ctx.event("B_flat" if geo.interior_point(HB, d) is None else "B_solid")
    for p, w in zip(pts, want):
        n = sum(1 for q in parts if q.contains(list(p)))
        expect(n == (1 if w else 0),
               f"point {[str(t) for t in p]} is{'' if w else ' not'} in A \\ B but lies in {n} pieces")
    # pieces have pairwise disjoint interiors
    for i in range(len(parts)):
        for j in range(i):
            expect(geo.interior_point(Hp[i] + Hp[j], d) is None, f"pieces {j} and {i} overlap")
    for q, H in ((A, HA), (B, HB)):
        for p in pts:
            expect(q.contains(list(p)) == geo.inside(H, p), "an operand was changed by set_minus")


@st.composite
def s_union(draw):
    d = draw(st.sampled_from([1, 2, 2, 2, 3]))
    mode = draw(st.sampled_from(["split", "split", "split3", "overlap", "random", "nearly"]))
    W = draw(gen.poly(d, bounded=True, full=True, maxcuts=2))
    if mode == "random":
        polys = [W] + [draw(gen.poly(d, bounded=True, full=True, maxcuts=1))
                       for _ in range(draw(st.integers(1, 2)))]
    else:
        # a hyperplane through the centre of W splits it
        vs = sorted(geo.vertices(gen.H(W), d))
        c = [sum(v[i] for v in vs) / len(vs) for i in range(d)] if vs else [F(0)] * d
        a = [F(t) for t in draw(gen.row(d))]
        a[0] = -sum(a[i + 1] * c[i] for i in range(d))
        shift = {"overlap": F(draw(st.sampled_from(["1/5", "1"]))),
                 "nearly": F(-1, draw(st.sampled_from([5, 100, 10000])))}.get(mode, F(0))
        p1 = dict(W, ineq=W["ineq"] + [[str(t) for t in a]])
        b = [-t for t in a]
        b[0] += shift
        p2 = dict(W, ineq=W["ineq"] + [[str(t) for t in b]])
        polys = [p1, p2]
        if mode == "split3":
            e = [F(t) for t in draw(gen.row(d))]
            e[0] = -sum(e[i + 1] * c[i] for i in range(d))
            polys = [dict(p1, ineq=p1["ineq"] + [[str(t) for t in e]]),
                     dict(p1, ineq=p1["ineq"] + [[str(-t) for t in e]]), p2]
        if draw(st.integers(0, 3)) == 0:
            polys = polys + [draw(gen.poly(d, bounded=True, full=True, maxcuts=1))]
    flat = False
    if d > 1 and mode in ("split", "split3", "overlap") and len(polys) == 2 + (mode == "split3") and draw(st.integers(0, 3)) == 0:
        # the same pieces cut down to a hyperplane through the centre of W
        f = [F(t) for t in draw(gen.row(d))]
        f[0] = -sum(f[i + 1] * c[i] for i in range(d))
        flat = True
        polys = [dict(q, eq=[[str(t) for t in f]]) for q in polys]
    polys = draw(st.permutations(polys))
    return dict(d=d, flat=flat, polys=list(polys), pts=draw(st.lists(gen.point(d, -4, 4, (7, 11, 13)),
                                                         min_size=2, max_size=5)))


def c_union(case, ctx):
    d = case["d"]
    Hs = [gen.H(c) for c in case["polys"]]
    if case["flat"]:
        if any(geo.feasible_point(H, d) is None for H in Hs):
            return
        # the union is W cut down to the hyperplane, so a polytope
        vs = set().union(*(geo.vertices(H, d) for H in Hs))
        hull = P.from_V_rep([list(p) for p in sorted(vs)])
        u = P.try_union([gen.build(c, P) for c in case["polys"]])
        expect(u is not None, "the union of coplanar pieces is a polytope but try_union returned None")
        expect(geo.vertices(rows_of(u), d) == geo.vertices(rows_of(hull), d) and geo.is_bounded(rows_of(u), d),
               lambda: f"the union of coplanar pieces is {u}")
        ctx.event("coplanar")
        ctx.nontrivial(True)
        return
    if any(geo.interior_point(H, d) is None for H in Hs):
        ctx.event("flat_skipped")
        return
    verts = [geo.vertices(H, d) for H in Hs]
    hull = P.from_V_rep([list(p) for p in sorted(set().union(*verts))])
    Hh = rows_of(hull)
    gap = geo.covered(Hh, Hs, d)
    ctx.event("convex" if gap is None else "not_convex")
    ctx.nontrivial(len(Hs) > 1)
    qs = [gen.build(c, P) for c in case["polys"]]
    u = P.try_union(qs)
    if gap is not None:
        expect(u is None, lambda: f"the union is not convex (it misses {[str(t) for t in gap]} of its "
               f"hull) but a polytope was returned: contains it: {u.contains(list(gap))}")
        return
    expect(u is not None, "the union is a polytope but try_union returned None")
    Hu = rows_of(u)
    pts = [tuple(F(t) for t in p) for p in case["pts"]] + [p for v in verts for p in v] + \
          [tuple(geo.interior_point(Hh, d))]
    for p in pts:
        w = any(geo.inside(H, p) for H in Hs)
        expect(u.contains(list(p)) == w, f"union: contains({[str(t) for t in p]}) is not {w}")
    expect(geo.vertices(Hu, d) == geo.vertices(Hh, d), "the union has wrong vertices")


TESTS = [
    Test("set_minus", s_minus, c_minus, 1000, 12000, 4,
         "random pairs A, B (B may be unbounded or lower-dimensional); probes are interior points of "
         "the cells cut out by the rows of B and of the pieces; non-trivial when A\\B and A&B are "
         "both solid"),
    Test("try_union", s_union, c_union, 700, 8000, 4,
         "2-4 bounded solid polytopes: exact splits, overlapping and slightly separated splits, splits cut down to a hyperplane, and "
         "unrelated ones; oracle: the hull of all vertices is covered by the operands; non-trivial "
         "with two or more operands"),
]
