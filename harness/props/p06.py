"""Polytope vertices, edges, centroid, projection, equality, hyperplane crossing."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod
from props.p05 import subset

PT = mod("polytope")
P = PT.Polytope


@st.composite
def s_v(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    pc = draw(gen.poly(d, bounded=True))
    return dict(poly=pc, ops=draw(st.permutations(["verts", "edges", "cent", "canon", "cross"])),
                plane=draw(gen.row(d)))


def edges_of(H, d, vs):
    rows = [r for r, _ in H]
    tight = {v: frozenset(i for i, r in enumerate(rows) if geo.val(r, v) == 0) for v in vs}
    out = set()
    for u, v in itertools.combinations(vs, 2):
        common = tight[u] & tight[v]
        # the smallest face holding both is an edge iff no third vertex lies on it
        if not any(common <= tight[w] for w in vs if w not in (u, v)):
            out.add(frozenset((u, v)))
    return out


def c_v(case, ctx):
    pc = case["poly"]
    d, H = pc["d"], gen.H(pc)
    if geo.feasible_point(H, d) is None:
        ctx.event("empty_skipped")
        return
    vs = geo.vertices(H, d)
    ctx.event("solid" if geo.interior_point(H, d) is not None else "flat")
    ctx.nontrivial(len(vs) > d)
    q = gen.build(pc, P)
    es = edges_of(H, d, vs)
    for op in case["ops"]:
        if op == "verts":
            got = [tuple(v) for v in q.get_vertices()]
            expect(set(got) == vs, f"get_vertices: {got}, want {sorted(vs)}")
        elif op == "cent":
            c = tuple(q.get_centroid())
            want = tuple(sum(v[i] for v in vs) / len(vs) for i in range(d))
            expect(c == want, f"get_centroid {c}, want the mean of the vertices {want}")
        elif op == "canon":
            q.canonicalize()
        elif op == "edges":
            got = set(frozenset((tuple(a), tuple(b))) for a, b in q.get_edges())
            expect(got == es, f"get_edges: {sorted(map(sorted, got))}, want {sorted(map(sorted, es))}")
        else:
            a = [F(t) for t in case["plane"]]
            s = [geo.val(a, v) for v in vs]
            if all(t != 0 for t in s) or (any(t > 0 for t in s) and any(t < 0 for t in s)):
                want = any(t > 0 for t in s) and any(t < 0 for t in s)
                expect(q.intersects(PT.Hyperplane(a)) == want, f"intersects(hyperplane) is not {want}")


@st.composite
def s_proj(draw):
    d = draw(st.sampled_from([2, 3, 3, 4]))
    pc = draw(gen.poly(d, bounded=True))
    k = draw(st.integers(1, d))
    dims = sorted(draw(st.permutations(list(range(d))))[:k])
    return dict(poly=pc, dims=dims, pts=draw(st.lists(gen.point(k), min_size=2, max_size=5)))


def c_proj(case, ctx):
    pc, dims = case["poly"], case["dims"]
    d, H = pc["d"], gen.H(pc)
    if geo.feasible_point(H, d) is None:
        ctx.event("empty_skipped")
        return
    vs = geo.vertices(H, d)
    q = gen.build(pc, P)
    r = q.project(set(dims))
    expect(r.dimension() == len(dims), "projection has the wrong dimension")
    pv = sorted(set(tuple(v[i] for i in dims) for v in vs))
    ext = geo.extreme_points(pv)
    cen = [sum(v[i] for v in pv) / len(pv) for i in range(len(dims))]
    pts = [tuple(F(t) for t in p) for p in case["pts"]] + pv[:6] + [tuple(cen)]
    pts += [tuple(a + (a - b) / 9 for a, b in zip(v, cen)) for v in sorted(ext)[:4]]
    ins = []
    for p in pts:
        fix = [([-p[k]] + [1 if i == dims[k] else 0 for i in range(d)], True)
               for k in range(len(dims))]
        want = geo.feasible_point(H + fix, d) is not None
        ins.append(want)
        expect(r.contains(list(p)) == want, f"projection on {dims}: contains({[str(t) for t in p]}) "
               f"is not {want}")
    ctx.nontrivial(len(dims) < d and any(ins) and not all(ins))
    expect(set(map(tuple, r.get_vertices())) == ext,
           f"vertices of the projection: {sorted(map(tuple, r.get_vertices()))}, want {sorted(ext)}")
    # the projection equals any other description of the same set
    other = P.from_V_rep([list(v) for v in sorted(ext)])
    expect(r == other and other == r, "the projection compares unequal to the hull of its vertices")


@st.composite
def s_eq(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    bd = draw(st.sampled_from([True, True, False]))
    A = draw(gen.poly(d, bounded=bd))
    mode = draw(st.sampled_from(["same", "same", "shrink", "other"] if bd else ["same", "shrink", "cone", "cone", "axes"]))
    if mode == "axes":      # halfspaces and wedges at the origin
        def wedge():
            return dict(d=d, eq=[], ineq=[["0"] + [str(t) for t in r] for r in draw(
                st.lists(st.lists(st.integers(-1, 1), min_size=d, max_size=d).filter(any), min_size=1, max_size=d))])
        return dict(A=wedge(), mode="other", k=0, B=wedge(), scale="1", eps="1", n=None)
    return dict(A=A, mode=mode, k=draw(st.integers(0, 20)), B=draw(gen.poly(d, bounded=bd)),
                scale=draw(gen.pos()), eps=draw(st.sampled_from(["1/1000", "1/7", "1"])),
                n=draw(st.lists(st.integers(-2, 2), min_size=d, max_size=d)) if mode == "cone" else None)


def c_eq(case, ctx):
    A = case["A"]
    d, HA = A["d"], gen.H(A)
    B = case["B"]
    if case["mode"] in ("same", "shrink") and A["ineq"]:
        ineq = [[str(F(t) * F(case["scale"])) for t in r] for r in A["ineq"]]
        k = case["k"] % len(ineq)
        ineq = ineq[k:] + ineq[:k]
        if case["mode"] == "shrink":
            ineq[0] = [str(F(ineq[0][0]) - F(case["eps"]))] + ineq[0][1:]
        else:
            # a redundant row: the sum of two rows
            ineq.append([str(F(x) + F(y)) for x, y in zip(ineq[0], ineq[-1])])
        B = dict(A, ineq=ineq)
    if case["mode"] == "cone":      # cut by a halfspace that contains all vertices
        vs = geo.vertices(HA, d) or [[0] * d]
        B = dict(A, ineq=A["ineq"] + [[str(-min(sum(a * b for a, b in zip(case["n"], v)) for v in vs))] + [str(t) for t in case["n"]]])
    HB = gen.H(B)
    if geo.feasible_point(HA, d) is None or geo.feasible_point(HB, d) is None:
        ctx.event("empty_skipped")
        return
    if geo.is_bounded(HA, d) and geo.is_bounded(HB, d):
        want = geo.vertices(HA, d) == geo.vertices(HB, d)
    else:
        want = subset(HA, HB, d) and subset(HB, HA, d)
        ctx.event("unbounded")
    ctx.event("equal" if want else "different")
    ctx.nontrivial()
    a, b = gen.build(A, P), gen.build(B, P)
    expect((a == b) == want and (b == a) == want, f"A == B is not {want}")


TESTS = [
    Test("faces", s_v, c_v, 1200, 12000, 3,
         "bounded non-empty polytopes in dimension 1-4, queries in random order; brute-force vertex "
         "and face-lattice oracle; non-trivial with more than d vertices"),
    Test("project", s_proj, c_proj, 800, 8000, 3,
         "projections of bounded polytopes on random coordinate subsets; oracle: exact LP for the "
         "existence of a preimage; non-trivial when a coordinate is dropped and probes fall on both "
         "sides"),
    Test("equality", s_eq, c_eq, 800, 8000, 2,
         "two descriptions of one polytope (scaled, rotated, redundant rows), slightly shrunk ones "
         "and unrelated ones; non-trivial when both are non-empty"),
]
