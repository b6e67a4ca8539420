"""Zeta large value estimates from beta bounds, mu bounds and large value estimates."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import hyp
import lvgen as g
from core import Test, expect
from hyp import bb, bm
from lib import mod
from props import p23

zd = mod("zero_density_estimate")
zlv, R, P, H = g.zlv, g.R, g.P, g.H
MT = g.TMAX


@st.composite
def s_beta(draw):
    case = draw(p23.s_beta())
    if draw(st.integers(0, 4)) == 0:
        # a bound that decides for every tau of its range, cut off far out
        b = draw(st.sampled_from(case["bs"]))
        b["c"], b["m"] = "0", draw(st.sampled_from(["3/4", "9/10", "1/2"]))
        if draw(st.booleans()):
            b["iv"] = [draw(st.sampled_from(["1/300", "1/20000", "1/7"])), "1/2", draw(st.booleans()), True]
    ts = [F(2), F(MT), F(5, 2), F(7), F(50)]
    for b in case["bs"]:
        ts += [1 / F(x) for x in b["iv"][:2] if F(x) > 0]
    ts = sorted({t for t in ts if t >= 2})
    pts = []
    for _ in range(draw(st.integers(4, 10))):
        t = draw(st.sampled_from(ts)) * F(draw(st.sampled_from(["1", "999/1000", "1001/1000", "11/10", "4/3"])))
        b = draw(st.sampled_from(case["bs"]))
        s = F(b["m"]) + F(b["c"]) * t + F(draw(st.sampled_from(["0", "1/50", "-1/50", "1/1000", "-1/1000"])))
        if draw(st.integers(0, 3)) == 0 or not F(1, 2) <= s <= 1:
            s = F(draw(gen.frac(F(1, 2), 1, (4, 10, 7, 20))))
        elif draw(st.integers(0, 9)) == 0:
            s = F(draw(st.sampled_from(["499/1000", "1/3", "1/4", "0", "1001/1000", "2"])))
        r = draw(st.sampled_from(["0", "0", "1/100", "1", "t", "t+", "-"]))
        r = {"t": t, "t+": t + F(1, 50), "-": F(-1, 100)}.get(r) if r[0] in "t-" else F(r)
        pts.append([str(s), str(t), str(r)])
    return dict(bs=case["bs"], eps=case["eps"], pts=pts, zlvs=draw(st.lists(g.bounds(1, 2), max_size=2)),
                lvs=draw(st.lists(g.bounds(1, 2), max_size=2)), k=draw(st.sampled_from([None, 2])))




def lim(bs, t):
    """(sup of the sigma that allow rho > 0 at tau = t, t is next to an end of a bound)"""
    a = 1 / t
    vals, edge = [], t == 2
    for i, b in enumerate(bs):
        # the pieces are closed and the trivial bound holds beside them: nothing is claimed where two meet
        edge = edge or any(F(b["m"]) * a + F(b["c"]) == F(d["m"]) * a + F(d["c"]) and (b["m"], b["c"]) != (d["m"], d["c"]) for d in bs[:i])
        x0, x1, i0, i1 = F(b["iv"][0]), F(b["iv"][1]), b["iv"][2], b["iv"][3]
        edge = edge or a in (x0, x1)
        if x0 < a < x1:
            vals.append(F(b["m"]) + F(b["c"]) * t)
    return (min(vals) if vals else None), edge


def ok_beta(bs, x):
    s, t, r = x
    if not (F(1, 2) <= s <= 1 and 2 <= t <= MT and 0 <= r <= t):
        return False
    v, _ = lim(bs, t)
    return r == 0 or v is None or s <= v


def c_beta(case, ctx):
    base = p23.build(case)
    hs = H.Hypothesis_Set(base)
    out = zlv.beta_to_zlv(hs)
    expect(len(hs) == len(base), "the set was changed")
    expect(out, "nothing derived")
    spec = {id(h): b for h, b in zip(base, case["bs"])}
    for z in out:
        expect(z.hypothesis_type == "Zeta large value estimate", z.hypothesis_type)
        (d,) = z.dependencies
        hyp.check_derivation(d, base)
        expect(z.reference.year() == d.reference.year(), "year")
    seen = set()
    for p in case["pts"]:
        x = [F(c) for c in p]
        _, edge = lim(case["bs"], x[1])
        if edge or x[1] == MT:
            continue
        w = ok_beta(case["bs"], x)
        seen.add((w, x[2] > 0))
        got = [z.data.region.contains(x) for z in out]
        expect(all(got) == w, f"{p} {'should' if w else 'should not'} be allowed by the bounds on beta")
        for z, gz in zip(out, got):
            # each estimate alone follows from the one bound it lists
            if gz or not (F(1, 2) <= x[0] <= 1 and 2 <= x[1] <= MT and 0 <= x[2] <= x[1]):
                continue
            (d,) = z.dependencies
            b = spec.get(id(d)) or spec[id(list(d.dependencies)[0])]
            expect(not ok_beta([b], x), f"{p} is ruled out by a consequence of {b} alone")
    ctx.nontrivial({(True, True), (False, True)} <= seen and len(case["bs"]) > 1)


@st.composite
def s_mu(draw):
    mus = [[draw(gen.frac(F(1, 2), 1, (2, 4, 10, 7, 22))), draw(gen.frac(0, F(1, 4), (4, 6, 12, 20, 84)))] for _ in range(draw(st.integers(1, 3)))]
    pts = []
    for _ in range(draw(st.integers(4, 10))):
        m = draw(st.sampled_from(mus))
        t = F(draw(gen.frac(2, 8, (1, 2, 3))))
        if draw(st.integers(0, 5)) == 0:
            t = F(draw(st.sampled_from([50, MT, MT * F(2, 3), MT - 1])))
        s = F(m[0]) + t * F(m[1]) + F(draw(st.sampled_from(["0", "1/100", "-1/100", "1/1000"])))
        if draw(st.integers(0, 4)) == 0 or not F(1, 2) <= s <= 1:
            s = F(draw(gen.frac(F(1, 2), 1, (4, 10, 7))))
        elif draw(st.integers(0, 9)) == 0:
            s = F(draw(st.sampled_from(["499/1000", "1/3", "1/4", "0", "1001/1000", "2"])))
        r = draw(st.sampled_from([F(0), F(1, 9), t, t + F(1, 9), F(-1, 9)]))
        pts.append([str(s), str(t), str(r)])
    return dict(mus=mus, pts=pts, year=draw(st.sampled_from(hyp.YEARS)))


def c_mu(case, ctx):
    base = [bm.literature_bound_mu(F(a), F(b), hyp.ref(case["year"])) for a, b in case["mus"]]
    out = zlv.mu_to_zlv(H.Hypothesis_Set(base))
    expect(len(out) == len(base), f"{len(out)} estimates from {len(base)} bounds")
    seen = set()
    used = []
    for z in out:
        (d,) = z.dependencies
        used.append(next(i for i, h in enumerate(base) if h is d))
        expect(z.hypothesis_type == "Zeta large value estimate" and z.reference.year() == case["year"], "type, year")
        a, b = (F(c) for c in case["mus"][used[-1]])
        for p in case["pts"]:
            s, t, r = (F(c) for c in p)
            w = F(1, 2) <= s <= 1 and 2 <= t and 0 <= r <= t and (r == 0 or s <= a + b * t)
            seen.add(w)
            expect(z.data.region.contains([s, t, r]) == w, f"mu({a}) <= {b}: {p} {'should' if w else 'should not'} be allowed")
    expect(sorted(used) == list(range(len(base))), "bounds used")
    t = zlv.get_trivial_zlv()
    for p in case["pts"]:
        s, tt, r = (F(c) for c in p)
        for q in (tt, F(3, 2), MT, MT + 1):
            expect(t.data.region.contains([s, q, r]) == (2 <= q <= MT and 0 <= r <= q and F(1, 2) <= s <= 1), f"trivial estimate at {p}, {q}")
    expect(t.hypothesis_type == "Zeta large value estimate" and t.reference.is_trivial(), "trivial estimate")
    ctx.nontrivial(len(seen) == 2)


def c_all(case, ctx):
    """the list of all zeta estimates, and the region they give together"""
    base = p23.build(case)
    L = [g.make(b, 1999, "LV", f" #{i}") for i, b in enumerate(case["lvs"])]
    Z = [g.make(b, 1999, "ZLV", f" #{i}") for i, b in enumerate(case["zlvs"])]
    hs = H.Hypothesis_Set(base + L + Z)
    ks = [F(1)]
    if case["k"]:
        hs.add_hypothesis(g.lv.raise_to_power_hypothesis(case["k"]))
        ks.append(F(case["k"]))
    out = zlv.compute_large_value_estimate(hs)
    expect(all(any(z is h for h in out) for z in Z), "an assumed zeta large value estimate is missing")
    pts = [[F(c) for c in p] for p in case["pts"]]
    for p in list(pts):
        for b in case["lvs"] + case["zlvs"]:
            v = g.value(b, p[0], p[1])
            pts += [[p[0], p[1], v + F(1, 37)], [p[0], p[1], v - F(1, 37)]]
    seen = set()
    hs.add_hypotheses(out)
    lo, hi = F(5, 8), F(19, 20)
    dom = R.from_polytope(P.rect((lo, hi), (F(2), F(6)), (F(0), F(8))))
    comb = zd.compute_large_value_region(hs, dom, zeta=True)
    for x in pts:
        if lim(case["bs"], x[1])[1] or x[1] == MT:
            continue
        if any(g.is_edge(b, x, k) for b in case["lvs"] for k in ks) or any(g.is_edge(b, x) for b in case["zlvs"]):
            continue
        w = x[1] >= 2 and ok_beta(case["bs"], x) and all(g.member(b, x, k) for b in case["lvs"] for k in ks) \
            and all(g.member(b, x) for b in case["zlvs"])
        seen.add(w)
        expect(all(z.data.region.contains(x) for z in out) == w, f"{[str(c) for c in x]}: {not w}")
        if lo < x[0] < hi and 2 < x[1] < 6 and 0 < x[2] < 8 and x[0] != lim(case["bs"], x[1])[0]:
            expect(comb.data.region.contains(x) == w, f"{[str(c) for c in x]}: {not w} in the combined region")
    ctx.nontrivial(len(seen) == 2 and len(out) > 2)


TESTS = [
    Test("beta", s_beta, c_beta, 900, 10000, 4,
         "1-6 bounds on beta (lines on intervals with gaps, duplicates and open ends), probes on both sides of sigma = tau beta(1/tau); "
         "non-trivial when two bounds and positive rho both allowed and ruled out"),
    Test("mu", s_mu, c_mu, 700, 8000, 2, "1-3 bounds on mu and probes next to sigma = sigma0 + tau mu0; non-trivial with both answers"),
    Test("all", s_beta, c_all, 160, 2500, 6, "bounds on beta, 0-2 large value and 0-2 zeta large value estimates, with or without squaring, "
         "combined in a box; non-trivial with both answers and three estimates"),
]
