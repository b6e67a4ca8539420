"""Piecewise-affine functions of several variables."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod
from props.p04 import rows_of

FN = mod("functions")
P, A2, PW = FN.Polytope, FN.Affine2, FN.Piecewise


@st.composite
def pw(draw, d, box, nmax=3):
    """Pieces on disjoint cells of a box (some cells may be missing)."""
    cells = [[]]
    for _ in range(draw(st.integers(0, 2))):
        c = draw(gen.cut_through(d, box))
        cells = [k + [[str(F(x) * s) for x in c]] for k in cells for s in (1, -1)]
    out = []
    pool = draw(st.lists(st.lists(gen.frac(-2, 2, (1, 1, 2, 3)), min_size=d + 1, max_size=d + 1),
                         min_size=1, max_size=nmax))
    labs = draw(st.sampled_from([[None], ["p", "q"], ["a"]]))
    for k in cells:
        if draw(st.integers(0, 5)) or not out:
            out.append(dict(a=draw(st.sampled_from(pool)), rows=box + k,
                            label=draw(st.sampled_from(labs))))
    return out


def build(p):
    return PW([A2([F(t) for t in q["a"]], P(gen.fr(q["rows"])), q["label"]) for q in p])


def Hs(p):
    return [[(r, False) for r in gen.fr(q["rows"])] for q in p]


def value(p, x):
    """(value, label) at a point in general position, or None."""
    for q, h in zip(p, Hs(p)):
        if geo.inside(h, x):
            return geo.val([F(t) for t in q["a"]], x), q["label"]
    return None


def generic(pts, *ps):
    rows = [r for p in ps for h in Hs(p) for r, _ in h]
    return [x for x in pts if all(geo.val(r, x) != 0 for r in rows)]


def points(d, ps, extra):
    pts = [tuple(F(t) for t in x) for x in extra]
    hs = [h for p in ps for h in Hs(p)]
    for i, h in enumerate(hs):
        x = geo.interior_point(h, d)
        if x is not None:
            pts.append(tuple(x))
        for g in hs[:i]:
            x = geo.interior_point(h + g, d)
            if x is not None:
                pts.append(tuple(x))
    return pts


@st.composite
def s_min(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    box = draw(gen.box_rows(d))
    f = draw(pw(d, box))
    g = draw(pw(d, box if draw(st.booleans()) else draw(gen.box_rows(d))))
    if draw(st.integers(0, 3)) == 0:  # identical functions somewhere
        g[0]["a"] = f[0]["a"]
    return dict(d=d, f=f, g=g, pts=draw(st.lists(gen.point(d, -3, 3, (7, 11, 13)), min_size=3, max_size=6)))


def c_min(case, ctx):
    d, f, g = case["d"], case["f"], case["g"]
    a, b = build(f), build(g)
    m = a.min_with(b)
    pts = points(d, [f, g], case["pts"])
    # interior points of both sides of each crossing
    for q, h in zip(f, Hs(f)):
        for r, k in zip(g, Hs(g)):
            diff = [F(x) - F(y) for x, y in zip(q["a"], r["a"])]
            for s in (diff, geo.negate(diff)):
                if any(s[1:]):
                    x = geo.interior_point(h + k + [(s, False)], d)
                    if x is not None:
                        pts.append(tuple(x))
    pts = generic(pts, f, g)
    both = 0
    for x in pts:
        u, v = value(f, x), value(g, x)
        got = m.at(list(x))
        want = None if u is None or v is None else min(u[0], v[0])
        both += want is not None
        expect(got == want, f"min at {[str(t) for t in x]} is {got}, want {want}")
        if want is not None:
            owners = [w[1] for w in (u, v) if w[0] == want]
            lab = [p.label for p in m.pieces if p.domain.contains(list(x)) and p.at(x) == want]
            expect(any(t in owners for t in lab), f"the minimum is credited to {lab}, want {owners}")
        # exactly one piece away from boundaries
        n = [p for p in m.pieces if geo.strictly_inside(rows_of(p.domain), x)]
        expect(len(n) <= 1, f"{len(n)} pieces contain {[str(t) for t in x]}")
        expect((a.at(list(x)) is None) == (u is None) and (u is None or a.at(list(x)) == u[0]),
               "evaluation of an operand is wrong")
    ctx.nontrivial(both >= 2)
    if both:
        ctx.event("overlap")


@st.composite
def s_ops(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    box = draw(gen.box_rows(d))
    dom = draw(gen.poly(d, bounded=True, maxcuts=2))
    return dict(d=d, f=draw(pw(d, box, 2)), dom=dom, simp=draw(st.booleans()),
                grouping=draw(st.sampled_from([2, 3])),
                pts=draw(st.lists(gen.point(d, -3, 3, (7, 11, 13)), min_size=3, max_size=6)))


def c_ops(case, ctx):
    d, f = case["d"], case["f"]
    H = gen.H(case["dom"])
    pts = points(d, [f], case["pts"])
    for h in Hs(f):
        x = geo.interior_point(h + H, d)
        if x is not None:
            pts.append(tuple(x))
    pts = [x for x in generic(pts, f) if all(geo.val(r, x) != 0 for r, _ in H)]
    a = build(f)
    c = copy.copy(a)
    c.crop(gen.build(case["dom"], P), case["simp"])
    s = copy.copy(a)
    s.simplify(case["grouping"])
    n = 0
    for x in pts:
        w = value(f, x)
        n += w is not None
        wv = None if w is None else w[0]
        expect(a.at(list(x)) == wv, f"at({[str(t) for t in x]}) = {a.at(list(x))}, want {wv} "
               "(possibly changed through its copy)")
        wc = wv if geo.inside(H, x) else None
        expect(c.at(list(x)) == wc, f"after crop: at({[str(t) for t in x]}) = {c.at(list(x))}, want {wc}")
        expect(s.at(list(x)) == wv, f"after simplify: at({[str(t) for t in x]}) = {s.at(list(x))}, want {wv}")
        labs = [p.label for p in s.pieces if p.domain.contains(list(x))]
        expect(w is None or w[1] in labs, f"simplify changed the label {w and w[1]} to {labs}")
    ctx.nontrivial(n >= 2 and len(f) >= 2)
    ctx.event("merged" if len(s.pieces) < len(f) else "not_merged")
    expect(len(s.pieces) <= len(f), "simplify added pieces")


@st.composite
def s_hyper(draw):
    d = draw(st.integers(1, 4))
    k = d + 1
    return dict(a=draw(st.lists(gen.frac(-2, 2), min_size=k, max_size=k)),
                b=draw(st.lists(gen.frac(-2, 2), min_size=k, max_size=k)),
                x=draw(gen.point(d)), snap=draw(st.booleans()))


def c_hyper(case, ctx):
    a, b, x = ([F(t) for t in case[k]] for k in ("a", "b", "x"))
    d = len(x)
    if case["snap"]:
        b[0] += geo.val(a, x) - geo.val(b, x)
    dom = P.rect(*[(F(-10), F(10))] * d)
    p, q = A2(list(a), dom), A2(list(b), dom)
    expect(p.at(x) == geo.val(a, x), f"at({x}) = {p.at(x)}")
    want = geo.val(a, x) == geo.val(b, x)
    expect(p.intersection(q).contains(x) == want, f"the crossing hyperplane contains {x} is not {want}")
    ctx.nontrivial(want)
    c = copy.copy(p)
    c.a[0] += 1
    expect(p.at(x) == geo.val(a, x), "a copy shares its coefficients")


TESTS = [
    Test("min_with", s_min, c_min, 900, 8000, 4,
         "two piecewise-affine functions on up to 4 cells of boxes in dimension 1-3, labelled or not, "
         "sometimes equal on a cell; probes on both sides of every crossing, in general position; "
         "non-trivial when two probes lie in both domains"),
    Test("crop_simplify_copy", s_ops, c_ops, 800, 8000, 4,
         "cropping, simplifying and copying a piecewise function; non-trivial with >=2 pieces and "
         "two probes inside"),
    Test("crossing", s_hyper, c_hyper, 800, 6000, 1, "evaluation and crossing hyperplanes; non-trivial on it"),
]
