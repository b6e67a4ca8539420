"""Polytope changes of coordinates: substitution, lifting, scaling."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

P = mod("polytope").Polytope


def pts_of(case, key="pts"):
    return [[F(t) for t in p] for p in case[key]]


@st.composite
def s_subs(draw):
    d = draw(st.sampled_from([2, 2, 3, 3, 4, 5]))
    k = draw(st.integers(1, d - 1))
    idx = draw(st.permutations(list(range(d))))[:k]
    pc = draw(gen.poly(d))
    vs = sorted(geo.vertices(gen.H(pc), d))
    vals = []
    for i in idx:
        if vs and draw(st.booleans()):
            vals.append(str(draw(st.sampled_from(vs))[i]))
        else:
            vals.append(draw(gen.frac()))
    return dict(poly=pc, idx=idx, vals=vals,
                pts=draw(st.lists(gen.point(d - k), min_size=3, max_size=6)))


def c_subs(case, ctx):
    pc = case["poly"]
    d, H = pc["d"], gen.H(pc)
    values = {i: F(v) for i, v in zip(case["idx"], case["vals"])}
    rest = [i for i in range(d) if i not in values]
    fix = [([-v] + [1 if j == i else 0 for j in range(d)], True) for i, v in values.items()]
    pts = pts_of(case)
    p = geo.feasible_point(H + fix, d)
    if p is not None:
        pts.append([p[i] for i in rest])
    p = geo.interior_point([([r[0] + sum(r[i + 1] * v for i, v in values.items())]
                             + [r[i + 1] for i in rest], e) for r, e in H], len(rest))
    if p is not None:
        pts.append(list(p))
    q = gen.build(pc, P)
    r = q.substitute(values)
    expect(r.dimension() == len(rest), f"dimension {r.dimension()} after substituting {values}")
    ins = []
    for y in pts:
        full = [None] * d
        for i, v in values.items():
            full[i] = v
        for i, t in zip(rest, y):
            full[i] = t
        want = geo.inside(H, full)
        ins.append(want)
        expect(r.contains(y) == want, f"substitute {values}: contains({[str(t) for t in y]}) is not {want}")
        expect(q.contains(full) == want, "substitute changed the original")
    ctx.nontrivial(any(ins) and not all(ins))
    # vertices of the section, when it is a bounded solid set
    Hs = [([rr[0] + sum(rr[i + 1] * v for i, v in values.items())]
           + [rr[i + 1] for i in rest], e) for rr, e in H]
    if all(any(t != 0 for t in rr[1:]) for rr, _ in Hs) and geo.is_bounded(Hs, len(rest)) \
            and geo.feasible_point(Hs, len(rest)) is not None:
        expect(set(map(tuple, r.get_vertices())) == geo.vertices(Hs, len(rest)),
               "the section has wrong vertices")
        ctx.event("section_vertices")


@st.composite
def s_lift(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    extra = draw(st.integers(0, 2))
    order = list(draw(st.permutations(list(range(d)) + ["t"] * extra)))
    var = [v if v != "t" else draw(gen.interval_pair()) for v in order]
    return dict(poly=draw(gen.poly(d)), var=var,
                pts=draw(st.lists(gen.point(d + extra), min_size=4, max_size=8)))


def c_lift(case, ctx):
    pc = case["poly"]
    d, H = pc["d"], gen.H(pc)
    var = [v if isinstance(v, int) else (F(v[0]), F(v[1])) for v in case["var"]]
    q = gen.build(pc, P)
    r = q.lift(list(var))
    N = len(var)
    expect(r.dimension() == N, f"dimension {r.dimension()} after lifting to {N}")
    pts = pts_of(case)
    base = [list(p) for p in sorted(geo.vertices(H, d))[:4]]
    p = geo.feasible_point(H, d)
    if p is not None:
        base.append(list(p))
    for b in base:
        for k in range(4):
            x = []
            for v in var:
                if isinstance(v, int):
                    x.append(b[v])
                else:
                    x.append([v[0], v[1], (v[0] + v[1]) / 2, v[1] + F(1, 5)][k])
            pts.append(x)
    ins = []
    for x in pts:
        y = [None] * d
        ok = True
        for i, v in enumerate(var):
            if isinstance(v, int):
                y[v] = x[i]
            elif not v[0] <= x[i] <= v[1]:
                ok = False
        want = ok and geo.inside(H, y)
        ins.append(want)
        expect(r.contains(x) == want, f"lift({case['var']}): contains({[str(t) for t in x]}) is not {want}")
    ctx.nontrivial(any(ins) and not all(ins))


@st.composite
def s_scale(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3]))
    add = draw(st.lists(gen.row(d), max_size=2))
    return dict(poly=draw(gen.poly(d)), i=draw(st.integers(1, d)), f=draw(gen.pos()),
                fs=draw(st.lists(gen.pos(), min_size=d, max_size=d)), add=add,
                onlyeq=draw(st.integers(0, 5)) == 0,
                pts=draw(st.lists(gen.point(d, -6, 6), min_size=3, max_size=6)))


def c_scale(case, ctx):
    pc = case["poly"]
    if case["onlyeq"] and pc["eq"]:
        pc = dict(pc, ineq=[])
    d, H = pc["d"], gen.H(pc)
    q = gen.build(pc, P)
    i, f = case["i"], F(case["f"])
    fs = [F(t) for t in case["fs"]]
    add = [([F(t) for t in r], False) for r in case["add"]]
    a = q.scale(i, f, [list(r) for r, _ in add])
    b = q.scale_all(list(fs))
    base = sorted(geo.vertices(H, d))[:5]
    p = geo.feasible_point(H, d)
    if p is not None:
        base.append(tuple(p))
    p = geo.interior_point(H + [([r[0]] + [r[j + 1] * (f if j + 1 == i else 1) for j in range(d)], False)
                                for r, _ in add], d)
    if p is not None:
        base.append(tuple(p))
    pts = pts_of(case) + [[x[j] * (f if j + 1 == i else 1) for j in range(d)] for x in base]
    ins = []
    for y in pts:
        x = [y[j] / (f if j + 1 == i else 1) for j in range(d)]
        want = geo.inside(H, x) and geo.inside(add, y)
        ins.append(want)
        expect(a.contains(y) == want, f"scale({i}, {f}): contains({[str(t) for t in y]}) is not {want}")
    for y in pts_of(case) + [[x[j] * fs[j] for j in range(d)] for x in base]:
        want = geo.inside(H, [y[j] / fs[j] for j in range(d)])
        expect(b.contains(y) == want, f"scale_all({case['fs']}): contains({[str(t) for t in y]}) is not {want}")
    ctx.nontrivial(any(ins) and not all(ins))
    if geo.is_bounded(H, d) and base:
        expect(set(map(tuple, b.get_vertices())) ==
               set(tuple(t * s for t, s in zip(v, fs)) for v in geo.vertices(H, d)),
               "scale_all: the vertices are not the scaled vertices")
    for x in base:
        expect(q.contains(list(x)) == geo.inside(H, x), "scaling changed the original")


TESTS = [
    Test("substitute", s_subs, c_subs, 1200, 12000, 3,
         "random polyhedra and values (half of them coordinates of a vertex); non-trivial when probes "
         "fall inside and outside the section"),
    Test("lift", s_lift, c_lift, 1200, 12000, 3,
         "random permutations and 0-2 added bounded coordinates; non-trivial when probes fall inside "
         "and outside"),
    Test("scale", s_scale, c_scale, 1200, 12000, 3,
         "positive factors, 0-2 extra rows; non-trivial when probes fall inside and outside"),
]
