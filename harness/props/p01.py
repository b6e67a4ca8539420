"""Polytope: construction, membership, boxes, copies, vertex round trip."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

PT = mod("polytope")
P = PT.Polytope


def probes(H, d, extra):
    pts = [tuple(F(t) for t in p) for p in extra]
    vs = sorted(geo.vertices(H, d))[:8]
    pts += vs
    for i in range(len(vs)):
        for j in range(i):
            pts.append(tuple((a + b) / 2 for a, b in zip(vs[i], vs[j])))
    if vs:
        c = tuple(sum(v[i] for v in vs) / len(vs) for i in range(d))
        pts.append(c)
        for v in vs[:4]:
            # just outside beyond v
            pts.append(tuple(a + (a - b) / 7 for a, b in zip(v, c)))
    for r, _ in H[:4]:
        # project a few points on the hyperplane of r
        nn = sum(t * t for t in r[1:])
        if nn:
            for p in pts[:2]:
                s = geo.val(r, p) / nn
                pts.append(tuple(p[i] - s * r[i + 1] for i in range(d)))
    return pts


def same_points(Q, H, d, pts, what):
    for p in pts:
        want = geo.inside(H, p)
        got = Q.contains(list(p))
        expect(bool(got) == want, lambda: f"{what}: contains({[str(t) for t in p]}) = {got}, "
               f"but the constraints say {want}")


@st.composite
def s_member(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    pc = draw(gen.poly(d))
    if draw(st.integers(0, 7)) == 0:  # a constraint without variables
        pc["ineq"].insert(draw(st.integers(0, len(pc["ineq"]))), [draw(st.sampled_from(["1", "-1", "1/3", "-1/5"]))] + ["0"] * d)
    return dict(poly=pc, pts=draw(st.lists(gen.point(d), min_size=2, max_size=5)),
                zero=draw(st.booleans()))


def c_member(case, ctx):
    pc = case["poly"]
    d, H = pc["d"], gen.H(pc)
    pts = probes(H, d, case["pts"])
    ins = [geo.inside(H, p) for p in pts]
    ctx.nontrivial(any(ins) and not all(ins))
    q = gen.build(pc, P)
    expect(q.dimension() == d, "dimension is wrong")
    same_points(q, H, d, pts, "constructed")
    if case["zero"] and not pc["eq"]:
        q0 = P(gen.fr(pc["ineq"]) + [[F(0)] * (d + 1)])
        same_points(q0, H, d, pts, "with a redundant zero row")
    c = copy.copy(q)
    same_points(c, H, d, pts, "copy")
    same_points(P(gen.fr(pc["ineq"]), canonicalize=True) if not pc["eq"] else q, H, d, pts,
                "canonicalised at construction")
    c.canonicalize()
    same_points(c, H, d, pts, "canonicalised copy")
    # the copy does not share state with the original
    same_points(q, H, d, pts, "original after its copy was canonicalised")
    # constraint objects describe the same set
    cons = q.get_constraints()
    for p in pts:
        want = geo.inside(H, p)
        expect(all(k.satisfies(list(p)) for k in cons) == want,
               f"get_constraints() disagrees at {[str(t) for t in p]}")
    if pc["eq"]:
        e = P(gen.fr(pc["eq"]), linear=True)
        He = [(r, True) for r in gen.fr(pc["eq"])]
        same_points(e, He, d, probes(H + He, d, case["pts"]), "equalities only")


@st.composite
def s_rect(draw):
    d = draw(st.integers(1, 5))
    lims = draw(st.lists(gen.interval_pair(), min_size=d, max_size=d))
    pts = []
    for _ in range(6):
        p = []
        for lo, hi in lims:
            k = draw(st.sampled_from(["lo", "hi", "in", "in", "in", "below", "above"]))
            lo_, hi_ = F(lo), F(hi)
            p.append(str({"lo": lo_, "hi": hi_, "in": (lo_ * 2 + hi_) / 3, "below": lo_ - F(1, 9),
                          "above": hi_ + F(1, 9)}[k]))
        pts.append(p)
    return dict(lims=lims, pts=pts)


def c_rect(case, ctx):
    lims = [tuple(F(t) for t in l) for l in case["lims"]]
    q = P.rect(*lims)
    expect(q.dimension() == len(lims), "rect has the wrong dimension")
    got_in = 0
    for p in case["pts"]:
        p = [F(t) for t in p]
        want = all(l[0] <= x <= l[1] for x, l in zip(p, lims))
        got_in += want
        expect(q.contains(p) == want, f"rect{case['lims']} contains({[str(t) for t in p]}) != {want}")
    ctx.nontrivial(0 < got_in < len(case["pts"]))
    import itertools
    vs = set(tuple(v) for v in q.get_vertices())
    expect(vs == set(itertools.product(*lims)), f"vertices of the box {case['lims']} are {vs}")


@st.composite
def s_vrep(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    n = draw(st.integers(1, d + 4))
    pts = draw(st.lists(gen.point(d, -3, 3, (1, 1, 2, 3)), min_size=n, max_size=n))
    return dict(d=d, pts=pts, probes=draw(st.lists(gen.point(d), min_size=2, max_size=4)),
                w=draw(st.lists(st.integers(0, 4), min_size=n, max_size=n)))


def c_vrep(case, ctx):
    d = case["d"]
    pts = [[F(t) for t in p] for p in case["pts"]]
    q = P.from_V_rep([list(p) for p in pts])
    w = case["w"] if sum(case["w"]) else [1] * len(pts)
    mix = [sum(wi * p[i] for wi, p in zip(w, pts)) / F(sum(w)) for i in range(d)]
    allp = [list(p) for p in pts] + [mix] + [[F(t) for t in p] for p in case["probes"]]
    c = [sum(p[i] for p in pts) / len(pts) for i in range(d)]
    allp += [[a + (a - b) / 5 for a, b in zip(p, c)] for p in pts[:3]]
    ins = []
    for p in allp:
        want = geo.in_hull([tuple(x) for x in pts], tuple(p))
        ins.append(want)
        expect(q.contains(p) == want,
               f"hull of {case['pts']}: contains({[str(t) for t in p]}) is not {want}")
    ext = geo.extreme_points(pts)
    ctx.nontrivial(len(ext) > 2 and not all(ins))
    ctx.event("full_dim" if geo.rank([[a - b for a, b in zip(p, pts[0])] for p in pts]) == d
              else "degenerate")
    # H -> V -> H again
    r = P([list(r) for r in [k.coefficients for k in q.get_constraints()
                             if k.inequality_type == PT.Constraint.GREATER_EQUALS]] +
          [s for k in q.get_constraints() if k.inequality_type == PT.Constraint.EQUALS
           for s in ([x for x in k.coefficients], [-x for x in k.coefficients])])
    vs = set(tuple(v) for v in r.get_vertices())
    expect(vs == ext, f"vertices after H/V round trip {sorted(vs)} != extreme points {sorted(ext)}")
    expect(q == r or set(map(tuple, q.get_vertices())) != ext,
           "a polytope compares unequal to itself rebuilt from its constraints")


@st.composite
def s_cons(draw):
    d = draw(st.integers(1, 5))
    a = draw(st.lists(gen.frac(-3, 3, (1, 1, 2)), min_size=d + 1, max_size=d + 1))
    b = draw(st.one_of(st.just(list(a)), st.just(list(a)), st.lists(gen.frac(-3, 3, (1, 1, 2)), min_size=d + 1, max_size=d + 1)))
    if draw(st.booleans()):
        b[draw(st.integers(0, d))] = draw(gen.frac(-3, 3, (1, 1, 2)))
    if draw(st.integers(0, 7)) == 0:
        b = b + ["0"] if draw(st.booleans()) else b[:-1]
    return dict(a=a, b=b, ta=draw(st.integers(0, 2)), tb=draw(st.integers(0, 2)), x=draw(gen.point(d)))


def c_cons(case, ctx):
    """single constraints and hyperplanes: satisfaction, equality and hashing"""
    a, b = [F(t) for t in case["a"]], [F(t) for t in case["b"]]
    k, l = PT.Constraint(a, case["ta"]), PT.Constraint(b, case["tb"])
    same = a == b and case["ta"] == case["tb"]
    expect((k == l) == same and (l == k) == same, lambda: f"{k} == {l} is {k == l}")
    if same:
        expect(hash(k) == hash(l), lambda: f"equal constraints {k} hash differently")
    expect(len({k, l}) == (1 if same else 2), lambda: f"a set keeps {len({k, l})} of {k}, {l}")
    x = [F(t) for t in case["x"]]
    xs = [x]
    j = next((i for i in range(1, len(a)) if a[i]), None)
    if j is not None:   # a point on the hyperplane
        y = list(x)
        y[j - 1] -= geo.val(a, x) / a[j]
        xs.append(y)
    on = PT.Hyperplane(a)
    for y in xs:
        v = geo.val(a, y)
        want = (v >= 0, v > 0, v == 0)
        for t in range(3):
            expect(bool(PT.Constraint(a, t).satisfies(y)) == want[t], lambda: f"{PT.Constraint(a, t)} at {[str(c) for c in y]}")
        expect(bool(on.contains(y)) == want[2], lambda: f"the hyperplane {on} at {[str(c) for c in y]}")
    for bad in (x + [F(0)], x[:-1]):
        try:
            k.satisfies(bad)
        except ValueError:
            continue
        expect(False, lambda: f"a point of dimension {len(bad)} was accepted by {k}")
    ctx.nontrivial(j is not None and a != b)


TESTS = [
    Test("membership", s_member, c_member, 1500, 20000, 3,
         "random H-representations in dimension 1-4 (boxes, cut boxes, free halfspaces, equalities, "
         "duplicates); probe points are vertices, midpoints, points just outside, projections on "
         "facets; non-trivial when probes fall both inside and outside"),
    Test("rect", s_rect, c_rect, 800, 8000, 2,
         "boxes in dimension 1-5 incl. degenerate; non-trivial when probes fall inside and outside"),
    Test("vrep", s_vrep, c_vrep, 800, 8000, 3,
         "hulls of up to 8 random points; non-trivial with >2 extreme points and a probe outside"),
    Test("constraints", s_cons, c_cons, 800, 10000, 1,
         "two constraints of every type, equal, differing in one entry, in the type or in length, and points on and off the hyperplane; "
         "non-trivial when they differ and have variables"),
]
