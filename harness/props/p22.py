"""Closure of exponent pairs under transforms, pruning, convex hull."""
from fractions import Fraction as F

from hypothesis import strategies as st

import geo
from core import Test, expect
from hyp import (H, Half, TRANS, YEARS, bb, check_derivation, closure_hull, ep, ep_hyp, hull_points, pair, support_gap,
                 transform_hyps)


@st.composite
def s_clo(draw):
    ps = draw(st.lists(pair(), min_size=1, max_size=7))
    if draw(st.integers(0, 3)) == 0:       # collinear
        ps = [["0", "1"], ["1/2", "1/2"]] + [[str(F(k, 8)), str(1 - F(k, 8))]
                                             for k in draw(st.lists(st.integers(0, 4), max_size=2))]
    elif draw(st.booleans()):
        ps = [["0", "1"]] + ps
    return dict(ps=ps, tr=draw(st.sampled_from(["A", "B", "C", "AB", "AB", "AB", "AC", "BC", "ABC", "ABC", ""])),
                depth=draw(st.integers(0, 4)), prune=draw(st.booleans()), y=draw(st.sampled_from(YEARS)))


def c_clo(case, ctx):
    ps = [(F(a), F(b)) for a, b in case["ps"]]
    base = [ep_hyp(p, case["y"]) for p in case["ps"]]
    names, depth = case["tr"], case["depth"]
    if not case["prune"]:
        depth = min(depth, 2)
    S = H.Hypothesis_Set(base + transform_hyps(names) + [bb.trivial_beta_bound_1])
    out = ep.compute_exp_pairs(S, search_depth=depth, prune=case["prune"])
    got = {(h.data.k, h.data.l) for h in out}
    expect(len(got) == len(out), "a pair is returned twice")
    for h in out:
        expect(h.hypothesis_type == "Exponent pair", f"{h} is not an exponent pair")
        check_derivation(h, base)
    low = closure_hull(ps, names, depth)                       # at least these
    high = closure_hull(ps, names, depth * max(1, len(names)))  # at most these
    over, _ = support_gap(got, high)
    _, under = support_gap(got, low)
    expect(over < 1e-9, f"the pairs {got} go beyond the closure of {ps} under {names}")
    expect(under < 1e-9, f"the pairs {got} miss some of {low}")
    if not case["prune"]:
        words = set(ps)
        for _ in range(depth):
            words |= {TRANS[n](p) for n in names for p in words}
        expect(words <= got, f"missing {sorted(words - got)[:3]}")
    if len(set(ps)) == len(ps):
        for h in out:
            if (h.data.k, h.data.l) in ps:
                expect(h in base, "an assumed pair was replaced by a derived one")
    ctx.nontrivial(len(names) > 1 and depth > 0 and len(got) > len(set(ps)))
    ctx.event("pruned" if case["prune"] else "unpruned")


def c_hull(case, ctx):
    ps = [(F(a), F(b)) for a, b in case["ps"]]
    base = [ep_hyp(p, case["y"]) for p in case["ps"]]
    S = H.Hypothesis_Set(base + [bb.trivial_beta_bound_1])
    V = ep.compute_convex_hull(S)
    expect(all(h in base for h in V), "hull contains foreign hypotheses")
    expect(max(support_gap([(h.data.k, h.data.l) for h in V], ps)) < 1e-9,
           f"hull {[h.data for h in V]} of {ps}")
    hp = hull_points(ps)
    if len(hp) > 2:      # in counterclockwise order
        W = [(h.data.k, h.data.l) for h in V]
        ar = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(W, W[1:] + W[:1]))
        expect(ar > 0, f"hull vertices {W} are not in counterclockwise order")
    expect([h.data for h in ep.compute_convex_hull(S)] == [h.data for h in V], "the second answer differs")
    ctx.nontrivial(len(hp) > 2 and len(hp) < len(set(ps)))


@st.composite
def s_many(draw):
    """a large set of pairs, closed without pruning"""
    seed = draw(st.integers(0, 10 ** 6))
    return dict(n=draw(st.integers(40, 120)), seed=seed, tr=draw(st.sampled_from(["A", "AB", "ABC", "C"])), depth=draw(st.integers(1, 2)))


def c_many(case, ctx):
    import random
    rng = random.Random(case["seed"])
    ps = set()
    while len(ps) < case["n"]:
        q = rng.choice((4, 7, 12, 31, 60))
        k = F(rng.randint(0, q), 2 * q)
        ps.add((k, Half + F(rng.randint(0, q), 2 * q)))
    base = [ep_hyp([str(k), str(l)], 1990) for k, l in sorted(ps)]
    S = H.Hypothesis_Set(base + transform_hyps(case["tr"]))
    out = ep.compute_exp_pairs(S, search_depth=case["depth"], prune=False)
    got = {(h.data.k, h.data.l) for h in out}
    words = set(ps)
    for _ in range(case["depth"]):
        words |= {TRANS[n](p) for n in case["tr"] for p in words}
    expect(words <= got, f"{len(words - got)} of {len(words)} pairs are missing, as {sorted(words - got)[:3]}")
    for h in out:
        if (h.data.k, h.data.l) not in ps:
            (d,) = h.dependencies - {t for t in h.dependencies if t.hypothesis_type != "Exponent pair"}
            expect((h.data.k, h.data.l) in {TRANS[n]((d.data.k, d.data.l)) for n in case["tr"]}, f"{h.data} does not follow from {d.data}")
    S.add_hypotheses(out)
    V = ep.compute_convex_hull(S)
    expect(max(support_gap([(h.data.k, h.data.l) for h in V], list(got))) < 1e-9, "hull of a large set")
    ctx.nontrivial(len(got) > 200)


TESTS = [
    Test("many", s_many, c_many, 25, 300, 3, "40-120 pairs closed under 1-3 transforms once or twice without pruning; non-trivial beyond 200 pairs"),
    Test("closure", s_clo, c_clo, 700, 6000, 8,
         "1-5 admissible pairs (some collinear sets), any subset of the transforms A, B, C, depth 0-4, pruned or "
         "not; against the exact closure; every result's derivation is re-checked; non-trivial when two "
         "transforms produce new pairs"),
    Test("hull", s_clo, c_hull, 800, 6000, 2,
         "convex hulls of the pairs of a set; non-trivial when the hull is a polygon with points inside"),
]
