"""Bounds on beta and exponent pairs."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from hyp import B, Dlines, H, Half, YEARS, bb, check_derivation, ep, ep_hyp, fn, lower_chain, pair, ref, \
    transform_hyps


@st.composite
def s_beta(draw):
    n = draw(st.integers(1, 5))
    cuts = sorted(draw(st.lists(gen.frac(0, F(1, 2), (2, 4, 6, 7, 10)), max_size=3, unique=True)), key=F)
    if draw(st.integers(0, 4)) == 0:
        cuts = sorted(set(cuts) | {draw(st.sampled_from(["1/300", "1/2500", "1/20000"]))}, key=F)
    bs = []
    for i in range(n):
        k, l = (F(t) for t in draw(pair()))
        a, b = "0", "1/2"
        if draw(st.booleans()) and cuts:
            ends = sorted({"0", "1/2", *cuts}, key=F)
            i0 = draw(st.integers(0, len(ends) - 2))
            a, b = ends[i0], ends[draw(st.integers(i0 + 1, len(ends) - 1))]
        if draw(st.integers(0, 4)) == 0:
            a, b = a, draw(st.sampled_from(["1", "1/2"]))
        bs.append(dict(m=str(l - k), c=str(k), iv=[a, b, draw(st.booleans()), draw(st.booleans())]))
    if draw(st.booleans()):
        bs.append(dict(m="1", c="0", iv=["0", "1", True, True]))
    if draw(st.integers(0, 2)) == 0:
        # one function on [0, 1/2] in consecutive pieces
        ends = ["0"] + [c for c in cuts if 0 < F(c) < Half] + ["1/2"]
        bs = []
        for a, b in zip(ends, ends[1:]):
            k, l = (F(t) for t in draw(pair()))
            bs.append(dict(m=str(l - k), c=str(k), iv=[a, b, True, True]))
        if len(bs) > 2 and draw(st.integers(0, 2)) == 0:
            bs.pop(1)
    dom = draw(st.sampled_from([None, None, ["0", "1/2"], ["0", "1"], ["1/10", "2/5"]]))
    return dict(bs=bs, dom=dom, eps=draw(st.lists(pair(), max_size=2)), Bt=draw(st.booleans()))


def build(case):
    out = []
    for i, b in enumerate(case["bs"]):
        I = fn.Interval(F(b["iv"][0]), F(b["iv"][1]), b["iv"][2], b["iv"][3])
        h = bb.classical_bound_beta(fn.Affine(F(b["m"]), F(b["c"]), I))
        h.name = f"bound {i}"
        out.append(h)
    return out


def best_at(case, x, lo, hi, side):
    """least bound just right (side=1) / left (-1) of x"""
    vals = []
    for b in case["bs"]:
        a, c = max(F(b["iv"][0]), lo), min(F(b["iv"][1]), hi)
        if (a <= x < c) if side > 0 else (a < x <= c):
            vals.append(F(b["m"]) * x + F(b["c"]))
    return min(vals) if vals else None


def breaks(case, lo, hi):
    xs = {lo, hi}
    L = [(F(b["m"]), F(b["c"])) for b in case["bs"]]
    for b in case["bs"]:
        xs |= {F(b["iv"][0]), F(b["iv"][1])}
    for i in range(len(L)):
        for j in range(i):
            if L[i][0] != L[j][0]:
                xs.add((L[j][1] - L[i][1]) / (L[i][0] - L[j][0]))
    return sorted(x for x in xs if lo <= x <= hi)


def c_best(case, ctx):
    base = build(case)
    S = H.Hypothesis_Set(base + [ep.trivial_exp_pair])
    lo, hi = (F(0), Half) if case["dom"] is None else (F(case["dom"][0]), F(case["dom"][1]))
    before = [(b.data.bound.m, b.data.bound.c, repr(b.data.bound.domain)) for b in base]
    if case["dom"] is None:
        out = bb.compute_best_beta_bounds(S)
    else:
        out = bb.compute_best_beta_bounds(S, fn.Interval(lo, hi, True, True))
    xs = breaks(case, lo, hi)
    probes = [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [(3 * a + b) / 4 for a, b in zip(xs, xs[1:])]
    comp = 0
    for x in probes + [lo - F(1, 50), hi + F(1, 50)]:
        want = best_at(case, x, lo, hi, 1) if lo < x < hi else None
        got = [h.data.bound.at(x) for h in out if h.data.bound.at(x) is not None]
        expect((want is None and not got) or (got and min(got) == want == max(got)),
               f"beta({x}) <= {got}, want {want}: {out and [h.data for h in out]}")
        comp += sum(1 for b in case["bs"] if F(b["iv"][0]) < x < F(b["iv"][1])) > 1
    for h in out:
        check_derivation(h, base)
        if h not in base:
            expect(h.hypothesis_type == "Upper bound on beta" and len(h.dependencies) == 1, "dependencies")
    expect(before == [(b.data.bound.m, b.data.bound.c, repr(b.data.bound.domain)) for b in base]
           and all(b.data.bound.label is None for b in base), "the assumed bounds were changed")
    ctx.nontrivial(comp > 1 and len(out) > 1)


def implied(case):
    """lines of the upper hull of the best bound as pairs; empty when [0, 1/2] is not covered"""
    lo, hi = F(0), Half
    xs = breaks(case, lo, hi)
    pts = []
    for a, b in zip(xs, xs[1:]):
        u, v = best_at(case, a, lo, hi, 1), best_at(case, b, lo, hi, -1)
        # between consecutive breaks the least bound is one line
        if u is None or v is None or best_at(case, (a + b) / 2, lo, hi, 1) is None:
            return set()
        pts += [(a, u), (b, v)]
    for x in xs:      # values at the breaks themselves, where fewer bounds may hold
        at = [F(b["m"]) * x + F(b["c"]) for b in case["bs"]
              if F(b["iv"][0]) < x < F(b["iv"][1]) or (x == F(b["iv"][0]) and b["iv"][2])
              or (x == F(b["iv"][1]) and b["iv"][3])]
        if at:
            pts.append((x, min(at)))
    up = [(x, -y) for x, y in lower_chain([(x, -y) for x, y in pts])]
    want = set()
    for (a, u), (b, v) in zip(up, up[1:]):
        m = (v - u) / (b - a)
        c = u - m * a
        want.add((c, m + c))
    return want


def c_pairs(case, ctx):
    base = build(case)
    known = [ep_hyp(p, 1990) for p in case["eps"]]
    S = H.Hypothesis_Set(base + known + (transform_hyps("AB") if case["Bt"] else []))
    out = ep.beta_bounds_to_exponent_pairs(S)
    want = implied(case)
    if not want:
        expect(out == [], f"pairs {[h.data for h in out]} derived from bounds that do not cover [0, 1/2]: {case['bs']}")
        ctx.event("not covering")
        return
    kp = {(F(a), F(b)) for a, b in case["eps"]}
    allw = set(want)
    if case["Bt"]:
        allw |= {B(p) for p in want}
    got = {(h.data.k, h.data.l) for h in out}
    close = lambda p, T: any(abs(float(p[0] - q[0])) + abs(float(p[1] - q[1])) < 1e-9 for q in T)
    for p in allw | kp:
        expect(close(p, got), f"the pair {p} is implied but not returned: {got}")
    # (nearly) collinear hull points may split an edge; every returned line must still dominate
    for p in got:
        ok = close(p, allw | kp)
        expect(ok, f"the pair {p} is returned but not implied by the bounds {case['bs']}")
    for h in out:
        if h not in known:
            check_derivation(h, base + known)
    ctx.nontrivial(len(want) > 1)
    ctx.event("B" if case["Bt"] else "no B")


@st.composite
def s_dual(draw):
    return dict(ps=draw(st.lists(pair(), min_size=1, max_size=4)), D=draw(st.booleans()),
                beta=draw(st.booleans()))


def c_dual(case, ctx):
    base = [ep_hyp(p, 1990) for p in case["ps"]]
    S = H.Hypothesis_Set(base + transform_hyps("AB" + ("D" if case["D"] else ""))
                         + ([bb.trivial_beta_bound_1] if case["beta"] else []))
    n = len(S)
    out = bb.exponent_pairs_to_beta_bounds(S)
    expect(len(S) == n, "the set was changed")
    for h in out:
        check_derivation(h, base)
    for x in [F(j, 40) for j in range(21)]:
        got = [h.data.bound.at(x) for h in out if h.data.bound.at(x) is not None]
        want = [(F(l) - F(k)) * x + F(k) for k, l in case["ps"]]
        if case["D"]:
            want += [max(m * x + c for m, c in Dlines((F(k), F(l)))) for k, l in case["ps"]]
        expect(sorted(set(got)) == sorted(set(want)), f"bounds at {x}: {sorted(set(got))}, want {sorted(set(want))}")
    # and back: the pairs imply themselves
    T = H.Hypothesis_Set(out)
    back = ep.beta_bounds_to_exponent_pairs(T)
    env = bb.compute_best_beta_bounds(T)
    for h in back:
        k, l = h.data.k, h.data.l
        for e in env:
            f = e.data.bound
            for x in (f.domain.x0, f.domain.x1):
                expect(k + (l - k) * x >= f.m * x + f.c, f"the pair ({k},{l}) goes below the known bound at {x}")
    ctx.nontrivial(len(case["ps"]) > 1)


TESTS = [
    Test("best", s_beta, c_best, 1200, 12000, 4,
         "1-6 affine bounds on beta on sub-intervals of [0,1], default or explicit domain; non-trivial when several "
         "compete and the envelope has several pieces"),
    Test("to_pairs", s_beta, c_pairs, 800, 8000, 4,
         "pairs implied by bounds on beta against the exact upper hull of the envelope, with and without the "
         "B transform, including bounds that leave a gap; non-trivial when at least two new pairs are implied"),
    Test("to_beta", s_dual, c_dual, 400, 4000, 2,
         "bounds on beta implied by 1-4 pairs, with and without the D transform, and back; non-trivial with two pairs"),
]
