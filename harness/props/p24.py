"""Searching for proofs of exponent pairs."""
import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

import geo
from core import Test, expect
from hyp import (A, B, H, Half, R, bb, check_derivation, closure_hull, ep, ep_hyp, fn, hull_points, lit, lower_chain,
                 pair, ref, transform_hyps, TRANS)
from lib import mod

PM = mod("constants").Proof_Optimization_Method
YEARS = [1921, 1945, 1969, 1996, 2003, 2021, "unknown", "conj"]


def mix(ps, ws):
    t = sum(ws)
    return (sum(w * p[0] for w, p in zip(ws, ps)) / t, sum(w * p[1] for w, p in zip(ws, ps)) / t)


@st.composite
def s_con(draw):
    n = draw(st.integers(1, 6))
    ps = draw(st.lists(pair(), min_size=n, max_size=n, unique_by=tuple))
    if draw(st.integers(0, 3)) == 0:
        ps = [[str(F(k, 12)), str(1 - F(k, 12))] for k in range(0, 2 * n, 2) if k <= 6]
    ws = draw(st.lists(st.integers(0, 3), min_size=len(ps), max_size=len(ps)))
    if not any(ws):
        ws[0] = 1
    tgt = mix([(F(a), F(b)) for a, b in ps], ws)
    if draw(st.integers(0, 2)) == 0:
        tgt = draw(pair())
    return dict(ps=ps, depth=draw(st.lists(st.integers(0, 4), min_size=len(ps), max_size=len(ps))),
                t=[str(t) for t in tgt], red=draw(st.booleans()), deep=draw(st.booleans()))


def in_hull(p, pts):
    return geo.in_hull([list(q) for q in pts], list(p))


def area(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def c_con(case, ctx):
    ps = [(F(a), F(b)) for a, b in case["ps"]]
    base = []
    for p, d in zip(case["ps"], case["depth"]):
        h = ep_hyp(p, 1990)
        for i in range(d):      # make its proof longer
            h.add_dependency(H.Hypothesis(f"lemma {i}", "Lemma", i, "", R.make("X", 1900 + i)))
        base.append(h)
    k, l = F(case["t"][0]), F(case["t"][1])
    S = H.Hypothesis_Set(base + [bb.trivial_beta_bound_1])
    got = ep.construct_proof(k, l, S, reduce_dependencies=case["red"], deep_search=case["deep"])
    want = in_hull((k, l), ps)
    expect((got is not None) == want, f"({k}, {l}) {'is' if want else 'is not'} in the hull of {ps}, got {got}")
    if got is None:
        ctx.event("not provable")
        return
    expect(got.hypothesis_type == "Exponent pair" and (got.data.k, got.data.l) == (k, l), f"proved {got.data}")
    check_derivation(got, base)
    if (k, l) in ps:
        expect(got in base, "an assumed pair was proved again")
        return
    if case["red"]:
        pool = ps if case["deep"] else sorted(hull_points(ps))
        comp = {p: d + 1 for p, d in zip(ps, case["depth"])}
        tri = [sum(comp[q] for q in t) for t in itertools.combinations(pool, 3)
               if area(*t) != 0 and in_hull((k, l), t)]
        if tri:
            expect(len(got.dependencies) <= 3, f"{len(got.dependencies)} dependencies")
            expect(got.proof_complexity() == min(tri) + 1,
                   f"complexity {got.proof_complexity()} of the proof of ({k},{l}), but {min(tri) + 1} is possible")
    ctx.nontrivial(len(hull_points(ps)) > 2)


# ---------------------------------------------------------------- search through transforms
@st.composite
def s_find(draw):
    ps = [["0", "1"]] + draw(st.lists(pair(), max_size=3, unique_by=tuple))
    ps = [p for i, p in enumerate(ps) if p not in ps[:i]]
    ys = draw(st.lists(st.sampled_from(YEARS), min_size=len(ps), max_size=len(ps)))
    ys[0] = 1921
    bs = []
    if draw(st.booleans()):     # a bound on beta, in one or two pieces, of some year
        q, r = (tuple(F(t) for t in draw(pair())) for _ in range(2))
        c = draw(st.sampled_from(["1/2", "1/4", "1/5"]))
        bs = [dict(p=[str(t) for t in q], iv=["0", c], y=draw(st.sampled_from(YEARS[:6])))]
        if c != "1/2":
            bs.append(dict(p=[str(t) for t in r], iv=[c, "1/2"], y=draw(st.sampled_from(YEARS[:6]))))
    tr = draw(st.sampled_from(["AB", "AB", "A", "B", "ABC"]))
    cur = [(F(a), F(b)) for a, b in ps]
    for _ in range(draw(st.integers(0, 2))):
        cur = cur + [TRANS[n](p) for n in tr for p in cur]
    if draw(st.integers(0, 4)) == 0:
        t = tuple(F(x) for x in draw(pair()))
    else:
        ix = draw(st.lists(st.integers(0, len(cur) - 1), min_size=1, max_size=3))
        ws = draw(st.lists(st.integers(1, 3), min_size=len(ix), max_size=len(ix)))
        t = mix([cur[i] for i in ix], ws)
    m = draw(st.sampled_from(["DATE", "DATE", "NONE", "COMPLEXITY"]))
    return dict(ps=ps, ys=ys, bs=bs, tr=tr, t=[str(x) for x in t], m=m)


def beta_pairs(bs):
    """exponent pairs implied by bounds on beta given in consecutive pieces from 0"""
    pts, end = [], F(0)
    for b in sorted(bs, key=lambda b: F(b["iv"][0])):
        if F(b["iv"][0]) != end:
            return set()
        end = F(b["iv"][1])
        k, l = F(b["p"][0]), F(b["p"][1])
        pts += [(x, (l - k) * x + k) for x in (F(b["iv"][0]), end)]
    if end != Half:
        return set()
    up = [(x, -y) for x, y in lower_chain([(x, -y) for x, y in pts])]
    out = set()
    for (a, u), (b, v) in zip(up, up[1:]):
        m = (v - u) / (b - a)
        out.add((u - m * a, m + u - m * a))
    return out


TY = {"A": 1920, "B": 1920}


def c_find(case, ctx):
    ty = dict(TY, C=lit().C_transform_hypothesis.reference.year())
    base = [ep_hyp(p, y) for p, y in zip(case["ps"], case["ys"])]
    for b in case["bs"]:
        k, l = F(b["p"][0]), F(b["p"][1])
        h = bb.classical_bound_beta(fn.Affine(l - k, k, fn.Interval(F(b["iv"][0]), F(b["iv"][1]), True, True)))
        h.reference = ref(b["y"])
        base.append(h)
    S = H.Hypothesis_Set(base + transform_hyps(case["tr"]))
    k, l = F(case["t"][0]), F(case["t"][1])

    def known(year, rounds, beta=True):
        """hull of what is derivable from the hypotheses of that year or before"""
        ok = lambda y: y == "unknown" or (float("inf") if y == "conj" else y) <= year
        names = [n for n in case["tr"] if ty[n] <= year]
        P = [(F(a), F(b)) for (a, b), y in zip(case["ps"], case["ys"]) if ok(y)]
        bp = beta_pairs([b for b in case["bs"] if ok(b["y"])]) if beta else set()
        P += list(bp)
        if "B" in names:
            P += [B(p) for p in bp]
        if not P:
            return set()
        return closure_hull(P, names, rounds * (1 if rounds <= 5 else len(names)))

    inside = lambda V: bool(V) and in_hull((k, l), V)
    if case["m"] == "COMPLEXITY" and not inside(known(float("inf"), 1, len(case["tr"]) == 1)):
        case["m"] = "NONE"      # only searches that end: the bounds on beta come after ten rounds that keep every pair
    n = len(S)
    got = ep.find_best_proof(k, l, S, method=getattr(PM, case["m"]))
    expect(len(S) == n, "the assumed set was changed")
    low = inside(known(float("inf"), 5))
    ctx.event(case["m"] + (" provable" if low else " other"))
    if low:
        expect(got is not None, f"({k}, {l}) is derivable but no proof was found")
    if got is None:
        return
    expect((got.data.k, got.data.l) == (k, l), f"proved {got.data} instead of ({k},{l})")
    check_derivation(got, base)
    ys = sorted({float("inf") if y == "conj" else y for y in case["ys"] + [b["y"] for b in case["bs"]]
                 if y != "unknown"} | {ty[n] for n in case["tr"]})
    if case["m"] == "DATE":
        first = next((y for y in ys if inside(known(y, 5))), None)
        if first is not None:
            expect(got.proof_date() <= first,
                   f"proof of ({k},{l}) needs results of {got.proof_date()}, but those of {first} suffice")
        ctx.nontrivial(first is not None and first > 1921)
    else:
        ctx.nontrivial(bool(got.dependencies))


TESTS = [
    Test("convexity", s_con, c_con, 900, 9000, 4,
         "targets inside, on the edge of and outside the hull of 1-6 pairs with proofs of different length; the "
         "verdict, every derivation step and the minimality of the complexity are checked; non-trivial when the "
         "hull is a polygon"),
    Test("search", s_find, c_find, 350, 3500, 8,
         "1-4 pairs and optional bounds on beta of various years (unknown and conjectured too), transforms and a "
         "target; the derivation is re-checked step by step, the verdict and (by date) the earliest possible year "
         "are compared with an exact closure; non-trivial when the proof needs more than the first year"),
]
