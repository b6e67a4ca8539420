"""Regions: boolean semantics and transformations."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod

P = mod("polytope").Polytope
R = mod("region").Region
RT = mod("region").Region_Type


@st.composite
def tree(draw, d, depth, comp=True, bounded=False, pull=None):
    kind = draw(st.sampled_from(["P"] + (["U", "I", "D", "U", "I"] if depth else [])
                                + (["C"] if depth and comp else [])))
    if kind == "P":
        pc = draw(gen.poly(d, bounded=bounded, maxcuts=2))
        if pull and draw(st.integers(0, 3)):
            pc = gen.pull(pc, pull)
        return ["P", pc]
    if kind == "C":
        return ["C", draw(tree(d, depth - 1, comp, bounded, pull))]
    return [kind, [draw(tree(d, depth - 1, comp, bounded, pull))
                   for _ in range(draw(st.integers(1, 3)))]]


def build(t):
    k, c = t
    if k == "P":
        return R.from_polytope(gen.build(c, P))
    if k == "C":
        return R.complement(build(c))
    ch = [build(x) for x in c]
    return {"U": R.union, "D": R.disjoint_union, "I": R.intersect}[k](ch)


def member(t, x):
    k, c = t
    if k == "P":
        return geo.inside(gen.H(c), x)
    if k == "C":
        return not member(c, x)
    if k == "I":
        return all(member(y, x) for y in c)
    return any(member(y, x) for y in c)


def leaves(t):
    k, c = t
    if k == "P":
        return [c]
    if k == "C":
        return leaves(c)
    return [l for x in c for l in leaves(x)]


def points(t, d, extra):
    pts = [tuple(F(v) for v in p) for p in extra]
    ls = leaves(t)[:6]
    for l in ls:
        pts += sorted(geo.vertices(gen.H(l), d))[:3]
        p = geo.interior_point(gen.H(l), d)
        if p is not None:
            pts.append(tuple(p))
    for i in range(len(ls)):
        for j in range(i):
            p = geo.interior_point(gen.H(ls[i]) + gen.H(ls[j]), d)
            if p is not None:
                pts.append(tuple(p))
    return pts


def generic(t, pts):
    rows = [r for l in leaves(t) for r, _ in gen.H(l) if any(r[1:])]
    return [p for p in pts if all(geo.val(r, p) != 0 for r in rows)]


@st.composite
def s_tree(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 4]))
    pull = [F(t) for t in draw(gen.point(d, -2, 2))]
    t = draw(tree(d, draw(st.integers(1, 3)), pull=pull))
    idx = draw(st.permutations(list(range(d))))[:draw(st.integers(0, d - 1))]
    extra = draw(st.integers(0, 1))
    order = list(draw(st.permutations(list(range(d)) + ["t"] * extra)))
    return dict(d=d, tree=t, pts=draw(st.lists(gen.point(d), min_size=3, max_size=5)),
                idx=list(idx), vals=draw(st.lists(gen.frac(), min_size=d, max_size=d)),
                fs=draw(st.lists(gen.pos(), min_size=d, max_size=d)),
                var=[v if v != "t" else draw(gen.interval_pair()) for v in order])


def c_tree(case, ctx):
    d, t = case["d"], case["tree"]
    r = build(t)
    pts = points(t, d, case["pts"])
    want = [member(t, p) for p in pts]
    ctx.nontrivial(t[0] != "P" and any(want) and not all(want))
    ctx.event("has_" + t[0])
    for p, w in zip(pts, want):
        expect(r.contains(list(p)) == w, f"contains({[str(x) for x in p]}) is not {w}")
    # coordinates changes commute with the boolean structure
    vals = {i: F(case["vals"][i]) for i in case["idx"]}
    rest = [i for i in range(d) if i not in vals]
    s = r.substitute(vals)
    for p in pts:
        full = [vals.get(i, p[i]) for i in range(d)]
        expect(s.contains([full[i] for i in rest]) == member(t, full),
               f"substitute({vals}) is wrong at {[str(x) for x in full]}")
    fs = [F(x) for x in case["fs"]]
    s = r.scale_all(list(fs))
    for p, w in zip(pts, want):
        expect(s.contains([a * b for a, b in zip(p, fs)]) == w, "scale_all moved the region wrongly")
    var = [v if isinstance(v, int) else (F(v[0]), F(v[1])) for v in case["var"]]
    s = r.lift(list(var))
    for p, w in zip(pts, want):
        for k in range(3):
            y = [p[v] if isinstance(v, int) else [v[0], (v[0] + v[1]) / 2, v[1] + 1][k] for v in var]
            ok = all(isinstance(v, int) or v[0] <= y[i] <= v[1] for i, v in enumerate(var))
            expect(s.contains(y) == (w and ok), f"lift({case['var']}): contains({[str(x) for x in y]}) "
                   f"is not {w and ok}")
    c = copy.copy(r)
    for p, w in zip(pts, want):
        expect(c.contains(list(p)) == w and r.contains(list(p)) == w, "a copy or the original changed")
    expect(isinstance(str(r), str) and isinstance(r.to_str(), str), "no string form")


@st.composite
def s_proj(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    t = draw(tree(d, draw(st.integers(0, 2)), comp=False, bounded=True))

    def no_i(t):
        k, c = t
        return t if k == "P" else ["U" if k == "I" else k, [no_i(x) for x in c]]
    t = no_i(t)
    k = draw(st.integers(1, d))
    return dict(d=d, tree=t, dims=sorted(draw(st.permutations(list(range(d))))[:k]),
                pts=draw(st.lists(gen.point(k), min_size=3, max_size=6)),
                wrap=draw(st.booleans()),
                more=[no_i(draw(tree(d, draw(st.integers(0, 1)), comp=False, bounded=True))) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))])


def c_proj(case, ctx):
    d, t, dims = case["d"], case["tree"], case["dims"]
    parts = [t] + case["more"]
    if case["wrap"] or case["more"]:
        # documented: the projection of an intersection is taken to be the intersection of the projections
        t = ["I", parts]
    r = build(t).project(set(dims))
    pts = [tuple(F(x) for x in p) for p in case["pts"]]
    for l in leaves(t):
        pts += [tuple(v[i] for i in dims) for v in sorted(geo.vertices(gen.H(l), d))[:4]]
    ins = []
    for y in pts:
        fix = [([-y[k]] + [1 if i == dims[k] else 0 for i in range(d)], True) for k in range(len(dims))]
        w = all(any(geo.feasible_point(gen.H(l) + fix, d) is not None for l in leaves(u)) for u in parts)
        ins.append(w)
        expect((r is not None and r.contains(list(y))) == w,
               f"project({dims}): contains({[str(x) for x in y]}) is not {w}")
    ctx.nontrivial(t[0] != "P" and any(ins) and not all(ins))


@st.composite
def s_sub(draw):
    d = draw(st.sampled_from([1, 2, 2]))
    pull = [F(t) for t in draw(gen.point(d, -1, 1))]
    A = ["P", draw(gen.poly(d, bounded=True, full=True, maxcuts=1))]
    if draw(st.booleans()):
        A = [draw(st.sampled_from(["U", "D"])),
             [["P", draw(gen.poly(d, bounded=True, full=True, maxcuts=1))] for _ in range(2)]]
    kind = draw(st.sampled_from(["P", "I", "U", "D", "split", "split"]))
    if kind == "split":
        c = draw(gen.row(d))
        shift = draw(st.sampled_from(["0", "0", "1/7", "-1/500"]))
        n = [str(-F(x)) for x in c]
        n[0] = str(F(n[0]) + F(shift))
        B = [draw(st.sampled_from(["U", "D"])),
             [["P", {"d": d, "ineq": [c], "eq": []}], ["P", {"d": d, "ineq": [n], "eq": []}]]]
    elif kind == "P":
        B = ["P", gen.pull(draw(gen.poly(d, maxcuts=1)), pull, "3")]
    else:
        B = [kind, [["P", gen.pull(draw(gen.poly(d, maxcuts=1)), pull, "2")] for _ in range(2)]]
    return dict(d=d, A=A, B=B)


def c_sub(case, ctx):
    d, A, B = case["d"], case["A"], case["B"]
    As = [gen.H(l) for l in leaves(A)]
    if any(geo.interior_point(h, d) is None for h in As):
        ctx.event("flat_skipped")
        return
    Bs = [gen.H(l) for l in leaves(B)]
    if B[0] == "I":
        want = all(geo.covered(a, [b], d) is None for a in As for b in Bs)
    else:
        want = all(geo.covered(a, Bs, d) is None for a in As)
    # flat members of B: closed subset and cover up to measure zero agree for solid A
    if B[0] in "PI" and any(geo.interior_point(b, d) is None for b in Bs):
        want = False
    ctx.event("subset" if want else "not_subset")
    ctx.nontrivial(A[0] != "P" or B[0] != "P")
    expect(build(A).is_subset_of(build(B)) == want, f"is_subset_of is not {want}")
    if B[0] == "P":
        expect(build(A).is_subset_of(gen.build(B[1], P)) == want, f"is_subset_of(polytope) is not {want}")


@st.composite
def s_simp(draw):
    d = draw(st.sampled_from([1, 2, 2, 2, 3]))
    W = draw(gen.poly(d, bounded=True, full=True, maxcuts=2))
    parts = [W]
    for _ in range(draw(st.integers(1, 2))):
        a = draw(gen.cut_through(d, W["ineq"][:2 * d])) if False else draw(gen.row(d))
        parts = [dict(p, ineq=p["ineq"] + [[str(F(x) * s) for x in a]]) for p in parts for s in (1, -1)]
    if draw(st.booleans()):
        parts.pop()
    parts += [draw(gen.poly(d, bounded=True, maxcuts=1)) for _ in range(draw(st.integers(0, 2)))]
    return dict(d=d, kind=draw(st.sampled_from(["U", "D"])),
                parts=list(draw(st.permutations(parts))),
                pts=draw(st.lists(gen.point(d, -4, 4, (7, 11, 13)), min_size=3, max_size=6)))


def c_simp(case, ctx):
    d = case["d"]
    t = [case["kind"], [["P", p] for p in case["parts"]]]
    pts = generic(t, points(t, d, case["pts"]))
    r = build(t)
    n0 = len(case["parts"])
    r.simplify()
    n1 = len(r.child) if isinstance(r.child, list) else 1
    ctx.event("merged" if n1 < n0 else "unchanged")
    ctx.nontrivial(n0 > 1)
    expect(n1 <= n0, "simplify made the region longer")
    for p in pts:
        w = member(t, p)
        expect(r.contains(list(p)) == w, f"after simplify: contains({[str(x) for x in p]}) is not {w}")


@st.composite
def s_hp(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    box = draw(gen.poly(d, bounded=True, full=True, maxcuts=1))
    hps = [draw(gen.cut_through(d, draw(gen.box_rows(d)))) for _ in range(draw(st.integers(1, 4)))]
    return dict(d=d, box=box["ineq"], hps=hps,
                pts=draw(st.lists(gen.point(d, -4, 4, (7, 11, 13)), min_size=4, max_size=8)))


def c_hp(case, ctx):
    d = case["d"]
    box, hps = gen.fr(case["box"]), gen.fr(case["hps"])
    r = R.from_union_of_halfplanes([list(h) for h in hps], [list(b) for b in box])
    H = [(b, False) for b in box]
    pts = [tuple(F(x) for x in p) for p in case["pts"]] + sorted(geo.vertices(H, d))[:6]
    for h in hps:
        for s in (h, geo.negate(h)):
            p = geo.interior_point(H + [(s, False)], d)
            if p is not None:
                pts.append(tuple(p))
    p = geo.interior_point(H + [(geo.negate(h), False) for h in hps], d)
    if p is not None:
        pts.append(tuple(p))
    ins = []
    for p in pts:
        w = geo.inside(H, p) and any(geo.val(h, p) >= 0 for h in hps)
        ins.append(w)
        expect(r.contains(list(p)) == w, f"union of halfplanes: contains({[str(x) for x in p]}) is not {w}")
    ctx.nontrivial(len(hps) > 1 and any(ins) and not all(ins))
    # disjointness away from boundaries
    expect(r.region_type == RT.DISJOINT_UNION, "not a disjoint union")
    for p in pts:
        if all(geo.val(h, p) != 0 for h in hps) and geo.strictly_inside(H, p):
            n = sum(1 for c in r.child if c.contains(list(p)))
            expect(n <= 1, f"{n} pieces contain {[str(x) for x in p]}")


TESTS = [
    Test("tree", s_tree, c_tree, 1000, 12000, 4,
         "boolean trees (union, disjoint union, intersection, complement; depth <= 3) over random "
         "polyhedra; probes at leaf vertices, interiors and pairwise overlaps; non-trivial when the "
         "tree is composite and probes fall on both sides"),
    Test("project", s_proj, c_proj, 500, 6000, 2,
         "unions of bounded polytopes (some empty); exact LP oracle; non-trivial when composite and "
         "probes fall on both sides"),
    Test("subset", s_sub, c_sub, 600, 6000, 2,
         "solid polytopes or unions against polytopes, intersections, unions and split covers with a "
         "thin gap; non-trivial when one side is composite"),
    Test("simplify", s_simp, c_simp, 500, 6000, 3,
         "unions of 2-10 polytopes, most cut from one polytope; probes in general position; "
         "non-trivial with two or more members"),
    Test("halfplanes", s_hp, c_hp, 800, 8000, 2,
         "1-4 halfspaces within a bounded polytope; non-trivial with >=2 halfspaces and probes on both sides"),
]
