"""Collecting zero density (energy) estimates; estimates from exponent pairs."""
import contextlib
import io
import re
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
import hyp
from core import Discard, Test, expect
from hyp import H, bb, ep, fn, pair
from lib import mod
from props import p23
from props.p29 import num, value_at

zd = mod("zero_density_estimate")
ze = mod("zero_density_energy_estimate")
RF = fn.RationalFunction
Half = F(1, 2)


# ------------------------------------------------------------------ bounds (p sigma + q) / (a sigma + b), positive on their interval
@st.composite
def s_bound(draw):
    lo = Half + F(draw(st.integers(0, 9)), 20)
    hi = min(F(1), lo + F(draw(st.integers(1, 10)), 20))
    if draw(st.integers(0, 3)) == 0:
        lo, hi = Half, F(1)
    kind = draw(st.sampled_from(["lit", "lit", "lin", "rat", "const"]))
    if kind == "lit":
        p, q, a, b = draw(st.sampled_from([(0, 3, -1, 2), (0, 3, 3, -1), (0, 15, 5, 3), (0, 2, 0, 1), (0, 9, 7, -1), (0, 3, 10, -7), (0, 4, 4, -1),
                                           (0, 9, 8, -2), (0, 15, 13, -3), (0, 6, 5, -1), (0, 3, 2, 0), (0, 2, 9, -6), (0, 24, 30, -11), (0, 11, 48, -36),
                                           (0, 391, 2493, -2014), (0, 3, 24, -20)]))
    elif kind == "lin":
        p, q, a, b = draw(st.integers(-3, 3)), draw(st.integers(0, 6)), 0, draw(st.integers(1, 4))
    elif kind == "const":
        p, q, a, b = 0, draw(st.integers(1, 9)), 0, draw(st.integers(1, 4))
    else:
        p, q, a, b = (draw(st.integers(-9, 9)) for _ in range(4))
    ok = all(a * x + b > 0 and p * x + q > 0 for x in (lo, hi))
    if not ok:
        # move the interval to where the bound is meaningful
        zs = sorted({lo, hi} | {F(-b, a) if a else lo, F(-q, p) if p else lo})
        zs = [z for z in zs if lo <= z <= hi]
        for x, y in zip(zs, zs[1:]):
            m = (x + y) / 2
            if a * m + b > 0 and p * m + q > 0:
                lo, hi = x + (y - x) / 8, y
                break
    form = draw(st.sampled_from(["plain", "spaced", "rf", "split"]))
    return dict(c=[p, q, a, b], iv=[str(lo), str(hi)], ends=[draw(st.booleans()), draw(st.booleans())], form=form, year=draw(st.sampled_from(hyp.YEARS)))


def fine(b):
    p, q, a, c = b["c"]
    lo, hi = (F(x) for x in b["iv"])
    m = (lo + hi) / 2
    return lo < hi and a * m + c > 0 and p * m + q > 0 and not any(lo <= F(-u, v) < hi for u, v in ((c, a), (q, p)) if v)


def v_of(b, s):
    p, q, a, c = b["c"]
    return F(p * s + q) / (a * s + c)


def text(b):
    p, q, a, c = b["c"]
    if b["form"] == "plain":
        return f"({p}*x + {q})/({a}*x + {c})"
    if b["form"] == "spaced":
        return f"({q} + {p} * x) / ({c} - {-a} * x)"
    return f"{p}*x/({a}*x+{c}) + {q}/({a}*x+{c})"


def build(b, i, energy):
    I = fn.Interval(F(b["iv"][0]), F(b["iv"][1]), *b["ends"])
    r = hyp.ref(b["year"], f"Author{i}")
    p, q, a, c = b["c"]
    if energy:
        h = ze.literature_zero_density_energy_estimate(text(b), I, r, f" no. {i}")
        if b["form"] == "rf":
            h.data = ze.Zero_Density_Energy_Estimate.from_rational_func(RF([p, q], [a, c]), I)
        return h
    if b["form"] == "rf":
        h = zd.derived_zero_density_estimate(zd.Zero_Density_Estimate.from_rational_func(RF([p, q], [a, c]), I), f"proof {i}", set())
        h.name = f"bound no. {i}"
        return h
    S = H.Hypothesis_Set()
    zd.add_zero_density(S, text(b), I, r, f" no. {i}")
    (h,) = S.hypotheses
    return h


@st.composite
def s_agg(draw):
    bs = draw(st.lists(s_bound(), min_size=1, max_size=6))
    return dict(bs=bs, energy=draw(st.sampled_from([False, False, True])), trivial=draw(st.booleans()), at=draw(st.lists(st.integers(1, 1996), min_size=6, max_size=12)))


def c_agg(case, ctx):
    bs = [b for b in case["bs"] if fine(b)]
    if not bs:
        raise Discard()
    en = case["energy"]
    kind = "Zero density energy estimate" if en else "Zero density estimate"
    hs = [build(b, i, en) for i, b in enumerate(bs)]
    S = H.Hypothesis_Set(list(hs))
    fns = list(bs)
    if en and case["trivial"]:
        # the trivial bounds 3 A(sigma) and 3/(1 - sigma)
        for i, b in enumerate(bs[:2]):
            S.add_hypothesis(build(b, 100 + i, False))
        n0 = len(S)
        ze.add_trivial_zero_density_energy_estimates(S)
        expect(len(S) == n0 + len(bs[:2]) + 1, f"{len(S) - n0} trivial estimates added")
        expect(any(t.data.interval.contains(s) and num(t.data.at(s)) == 3 / (1 - s) for t in S.list_hypotheses(kind) for s in [Half] if t not in hs),
               "the trivial estimates do not give A*(1/2) <= 6")
        for b in bs[:2]:
            for s, e in zip((F(b["iv"][0]), F(b["iv"][1])), b["ends"]):
                expect(s == 1 or not e or b["c"][2] * s + b["c"][3] == 0 or any(t.data.interval.contains(s) and num(t.data.at(s)) == 3 * v_of(b, s) for t in S.list_hypotheses(kind)),
                       f"nothing trivial follows from {text(b)} at {s}")
        fns += [dict(b, c=[3 * b["c"][0], 3 * b["c"][1], b["c"][2], b["c"][3]]) for b in bs[:2]]
        fns.append(dict(c=[0, 3, -1, 1], iv=["1/2", "1"]))
    for i, (h, b) in enumerate(zip(hs, bs)):
        # a single estimate
        expect(h.hypothesis_type == kind, h.hypothesis_type)
        lo, hi = (F(x) for x in b["iv"])
        s = lo + (hi - lo) * F(case["at"][i % len(case["at"])], 1997)
        expect(num(h.data.at(s)) == v_of(b, s), f"{text(b)} at {s}: {h.data.at(s)}")
        for out in (lo - F(1, 10 ** 6), hi + F(1, 10 ** 6), Half - F(1, 9)):
            try:
                h.data.at(out)
            except ValueError:
                continue
            expect(False, f"the estimate {h.data} was evaluated at {out}")
        for e, x in zip(b["ends"], (lo, hi)):
            if x < 1:
                try:
                    h.data.at(x)
                    expect(e, f"evaluated at the excluded end {x}")
                except ValueError:
                    expect(not e, f"not defined at the end {x}")
    best = ze.compute_best_energy_bound(S) if en else zd.best_zero_density_estimate(S)
    pieces = [(h.data, h.data.interval) for h in best]
    expect(pieces[0][1].x0 == Half and pieces[-1][1].x1 == 1, "the pieces do not fill [1/2, 1]")
    for p, q in zip(pieces, pieces[1:]):
        expect(p[1].x1 == q[1].x0, "pieces are out of order")
    cred = set()
    for k in case["at"]:
        s = Half + Half * F(k, 1997)
        on = [(v_of(b, s), i) for i, b in enumerate(fns) if F(b["iv"][0]) < s < F(b["iv"][1])]
        got = value_at(pieces, s)
        if got == "end":
            continue
        expect(got is not None, f"no bound at {s}")
        h = next(h for h in best if h.data.interval.x0 < s < h.data.interval.x1)
        expect(h.hypothesis_type == kind, f"type {h.hypothesis_type}")
        if not on:
            expect(got > 1000 and h.reference.is_trivial(), f"bound {float(got)} at {s}, where nothing is known")
            continue
        want = min(on)[0]
        # crossings at irrational points are rounded
        expect(got == want or abs(float(got - want)) < 1e-6 * float(want) , f"best bound at {s} is {want}, computed {got}")
        src = [x for x in S.list_hypotheses(kind) if x.name == h.name and x.reference is h.reference]
        expect(src, f"credited to {h.name}, which is not assumed")
        ok = [x for x in src if x.data.interval.contains(s) and abs(float(num(x.data.at(s)) - want)) <= 1e-6 * float(want)]
        expect(ok, f"at {s} the bound {want} is credited to {h.name}, which does not give it")
        expect(any(x.proof == h.proof for x in ok), "proof of the credited estimate")
        cred.add(h.name)
    ctx.nontrivial(len(cred) > 1)
    ctx.event("energy" if en else "density")


@st.composite
def s_simp(draw):
    x, out = Half, []
    for _ in range(draw(st.integers(1, 7))):
        gap = draw(st.sampled_from([0, 0, 0, 1]))
        a = x + F(gap, 97)
        x = a + F(draw(st.integers(1, 5)), 97)
        out.append([draw(st.sampled_from([[0, 3, -1, 2], [0, 3, 3, -1], [0, 6, 6, -2], [1, 1, 0, 1]])), str(a), str(x)])
    return dict(pieces=out)


def c_simp(case, ctx):
    ps = [(RF(c[:2], c[2:]), fn.Interval(F(a), F(b))) for c, a, b in case["pieces"]]
    out = zd.simplify(list(ps))
    val = lambda c, s: F(c[0] * s + c[1]) / (c[2] * s + c[3])
    for c, a, b in case["pieces"]:
        s = F(a) + (F(b) - F(a)) * F(2, 7)
        on = [p for p in out if p[1].x0 <= s <= p[1].x1]
        expect(len(on) == 1 and num(on[0][0].at(s)) == val(c, s), f"value at {s} changed")
    tot = sum(F(b) - F(a) for _, a, b in case["pieces"])
    expect(sum(p[1].x1 - p[1].x0 for p in out) == tot, "the domain changed")
    for p, q in zip(out, out[1:]):
        s = F(991, 10 ** 4)
        expect(not (p[1].x1 == q[1].x0 and num(p[0].at(s)) == num(q[0].at(s))), "equal neighbours were not merged")
    ctx.nontrivial(1 < len(ps) != len(out))


# ------------------------------------------------------------------ exponent pairs
@st.composite
def s_ivic(draw):
    ps = draw(st.lists(pair(), min_size=1, max_size=5))
    for i in range(len(ps)):
        if draw(st.integers(0, 3)) == 0:
            ps[i] = draw(st.sampled_from([["97/251", "132/251"], ["0", "1"], ["1/2", "1/2"], ["1/6", "2/3"], ["13/84", "55/84"], ["9/56", "37/56"]]))
    return dict(ps=ps, m=draw(st.integers(2, 12)), year=draw(st.sampled_from(hyp.YEARS)), at=draw(st.lists(st.integers(1, 96), min_size=3, max_size=5)))


def thr(k, l, m):
    X = 1 + 2 * k + 2 * l
    return F(3 * m * m * X - (4 * k + 2 * l) * m + 2 * k + 2 * l) / (4 * m * m * X - (6 * k + 4 * l) * m + 2 * k + 2 * l)


def c_ivic(case, ctx):
    m = case["m"]
    hs = [hyp.ep_hyp(p, case["year"]) for p in case["ps"]]
    out = zd.ivic_ep_to_zd(hs, m)
    A = F(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2)
    B = F(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2)
    vs = [thr(F(k), F(l), m) for k, l in case["ps"]]
    want = min(A, max(B, min(vs)))
    expect(out.data.interval.x0 == want and out.data.interval.x1 == 1, f"valid on {out.data.interval}, the lemma gives [{want}, 1]")
    expect(out.hypothesis_type == "Zero density estimate", "type")
    (d,) = out.dependencies
    i = next(i for i, h in enumerate(hs) if h is d)
    expect(min(A, max(B, vs[i])) <= want, f"credited to {case['ps'][i]}, which gives only {vs[i]}")
    expect(out.reference.year() == case["year"], "year")
    for k in case["at"]:
        s = want + (1 - want) * F(k, 97)
        expect(num(out.data.at(s)) == F(3 * m) / ((3 * m - 2) * s + 2 - m), f"value at {s}: {out.data.at(s)}")
    S = H.Hypothesis_Set([out])
    b = next(h for h in zd.best_zero_density_estimate(S) if h.data.interval.x1 == 1)
    expect(num(b.data.at(F(999, 1000))) == F(3 * m) / ((3 * m - 2) * F(999, 1000) + 2 - m), "the estimate is lost in the list of the best estimates")
    ctx.nontrivial(len(set(vs)) > 1)
    ctx.event("second term" if want == B else "pair" if want in vs else "first term")


# the table of the corollary on optimised Bourgain bounds in the blueprint: numerator, slope, constant, range
BOURGAIN = [("11", "48", "-36", "3/4", "14/15"), ("391", "2493", "-2014", "14/15", "2841/3016"), ("22232", "163248", "-134765", "2841/3016", "859/908"),
            ("4406612", "33911310", "-28181831", "859/908", "635113/655952"), ("3918", "49189", "-43490", "635113/655952", "637457/656512"),
            ("2351558", "39632665", "-35918731", "637457/656512", "39/40"), ("1780", "35670", "-32717", "39/40", "59/60"), ("6", "303", "-290", "59/60", "1")]


def s_bour():
    return st.fixed_dictionaries(dict(at=st.lists(st.tuples(st.integers(0, 7), st.integers(1, 996)).map(list), min_size=12, max_size=30)))


CACHE = {}


def c_bour(case, ctx):
    if "b" not in CACHE:
        CACHE["b"] = zd.bourgain_ep_to_zd()
    out = CACHE["b"]
    pieces = [(h.data, h.data.interval) for h in out]
    seen = set()
    for i, k in case["at"]:
        s = F(BOURGAIN[i][3]) + (F(BOURGAIN[i][4]) - F(BOURGAIN[i][3])) * F(k, 997)
        n, a, b, lo, hi = next(tuple(F(x) for x in r) for r in BOURGAIN if F(r[3]) < s <= F(r[4]))
        got = value_at(pieces, s)
        if got == "end":
            continue
        w = n / (a * s + b)
        expect(got == w, f"A({s}) <= {got}, stated {w}")
        seen.add(lo)
        h = next(h for h in out if h.data.interval.x0 < s < h.data.interval.x1)
        (d,) = h.dependencies
        x, y = F(d.data.k), F(d.data.l)
        # the theorem used, from the pair that is credited
        expect(x <= F(1, 5) and y >= F(3, 5) and 15 * y + 20 * x >= 13 and s >= (y + 1) / (2 * (x + 1)), f"the pair ({x}, {y}) may not be used at {s}")
        expect(4 * x / (2 * (1 + x) * s - 1 - y) == w, f"the pair ({x}, {y}) does not give {w} at {s}")
    ctx.nontrivial(len(seen) > 3)


def c_hull(case, ctx):
    """the pairs used by the optimised bounds are provable from the literature; all estimates from exponent pairs"""
    L = mod("literature").literature
    S = H.Hypothesis_Set()
    for ty in case["types"]:
        S.add_hypotheses(L.list_hypotheses(hypothesis_type=ty))
    out = zd.ep_to_zd(S)
    expect(len(out) == 9, f"{len(out)} estimates")
    iv = out[-1]
    (d,) = iv.dependencies
    s0 = iv.data.interval.x0
    expect(num(iv.data.at(F(9, 10))) == F(3, 2) / F(9, 10) and s0 <= F(3831, 4791), f"the estimate with m = 2 is {iv.data}")
    expect(s0 == min(F(16, 20), max(F(30, 38), thr(F(d.data.k), F(d.data.l), 2))), "range of the estimate with m = 2")
    pts = [(float(h.data.k), float(h.data.l)) for h in S.list_hypotheses("Exponent pair")]
    T = H.Hypothesis_Set(S.list_hypotheses("Upper bound on beta"))
    pts += [(float(h.data.k), float(h.data.l)) for h in ep.beta_bounds_to_exponent_pairs(T)]
    low = hyp.lower_chain(pts)
    for h in out[:-1]:
        for d in h.dependencies:
            k, l = float(d.data.k), float(d.data.l)
            v = next(b + (e - b) * (k - a) / (c - a) for (a, b), (c, e) in zip(low, low[1:]) if a <= k <= c)
            expect(v <= l + 1e-12, f"the pair ({d.data.k}, {d.data.l}) is not in the hull of provable pairs: best l is {v}")
    ctx.nontrivial(True)


# ------------------------------------------------------------------ Bourgain's estimate, optimised over a triangle of pairs
@st.composite
def s_opt(draw):
    base = draw(st.sampled_from([[["0", "1"], ["1/2", "1/2"], ["11/85", "59/85"]], [["0", "1"], ["1/2", "1/2"]], [["1/14", "11/14"], ["1/6", "2/3"]]]))
    ps = base + draw(st.lists(pair(), min_size=1, max_size=3))
    if draw(st.booleans()):
        ps.append(draw(st.sampled_from([["13/84", "55/84"], ["1/6", "2/3"], ["1/14", "11/14"], ["1/30", "13/15"]])))
    return dict(ps=ps, at=draw(st.lists(st.integers(0, 999), min_size=12, max_size=25, unique=True)))


def c_opt(case, ctx):
    ps = sorted({(F(k), F(l)) for k, l in case["ps"]})
    hull = geo.hull2d(ps)
    if len(hull) < 3:
        raise Discard()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        zd.approx_bourgain_ep_to_zd([hyp.ep_hyp([str(k), str(l)], 1990) for k, l in ps])
    lines = out.getvalue().splitlines()
    res = [ln for ln in lines if "(" in ln]
    expect(len(res) == 1000, f"{len(res)} values of sigma")
    rows = []
    for (a, b), (c, d) in zip(hull, hull[1:] + hull[:1]):
        rows.append([(b * (c - a) - a * (d - b)) * -1, -(d - b), c - a])      # left of each edge
    n_fin = 0
    for i in case["at"]:
        head, tail = res[i].split(" ", 1)
        arg, val = tail.rsplit(" ", 1)
        s = F(float(head))
        expect(abs(s - (Half + F(i, 1998))) < F(1, 10 ** 9), f"sigma number {i} is {head}")
        common = rows + [[F(-3, 5), 0, 1], [1, 0, -1], [-13, 20, 15], [2 * s - 1, 2 * s, -1]]
        best, thin = None, False
        for extra in ([[0, 1, 0], [F(11, 85), -1, 0]], [[F(-11, 85), 1, 0], [F(1, 5), -1, 0], [11 - 22 * s, 170 * s - 144, 11]]):
            vs = geo.vertices([(r, False) for r in common + extra], 2)
            h = geo.hull2d(vs)
            area = sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1])) / 2 if len(h) > 2 else 0
            if area < F(1, 10 ** 6):
                thin = thin or bool(vs)
                continue
            for k, l in vs:
                d = 2 * (1 + k) * s - 1 - l
                if d > F(1, 10 ** 9):
                    best = min(4 * k / d, best) if best is not None else 4 * k / d
        if thin:
            continue        # a sliver of pairs may or may not be seen
        got = float(val)
        if best is None:
            expect(got == float("inf"), f"A({float(s)}) <= {got}, but no pair may be used")
        else:
            n_fin += 1
            expect(abs(got - float(best)) <= 1e-6 * float(best), f"A({float(s)}) <= {got}, the best pair gives {float(best)}; pairs {ps}")
            k, l = frs(arg[1:])
            expect(abs(4 * k / (2 * (1 + k) * float(s) - 1 - l) - got) < 1e-6 * max(1, got), f"the pair {k, l} does not give {got} at {float(s)}")
    ctx.nontrivial(n_fin > 1)


def frs(text):
    v = [float(F(int(a), int(b))) if b else float(F(c)) for a, b, c in re.findall(r"Fraction\((-?\d+), (\d+)\)|(-?[\d.][\d./e-]*)", text)]
    expect(len(v) == 2, f"pair printed as {text}")
    return v


# ------------------------------------------------------------------ Pintz: the tau0 with tau0 beta(1 / tau0) = sigma
@st.composite
def s_pintz(draw):
    case = draw(p23.s_beta())
    case["eps"] = case["eps"] + draw(st.lists(pair(), min_size=1, max_size=4))
    if draw(st.booleans()):
        case["bs"] = [dict(m="1", c="0", iv=["0", "1", True, True])]
        case["eps"] = draw(st.lists(st.sampled_from([["1/6", "2/3"], ["1/14", "11/14"], ["1/30", "13/15"], ["2/7", "4/7"], ["11/30", "8/15"], ["1/2", "1/2"],
                                                     ["13/84", "55/84"], ["4/18", "11/18"], ["1/62", "57/62"]]), min_size=2, max_size=6, unique_by=str))
    return case


def c_pintz(case, ctx):
    S = H.Hypothesis_Set(p23.build(case) + [hyp.ep_hyp(p, 1990) for p in case["eps"]])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        zd.optimize_pintz_zero_density(S)
    got = []
    for ln in out.getvalue().splitlines():
        if ln.startswith("tau_0"):
            m = re.fullmatch(r"tau_0\s+(.*) for x \\in [\[(](.*),(.*)[\])]", ln)
            expect(m is not None, f"printed {ln!r}")
            body, lo, hi = m.group(1).replace(" ", ""), F(m.group(2)), F(m.group(3))
            t = re.findall(r"([+-]?)([\d/]*)(x?)", body)
            sl = ic = F(0)
            for sg, num_, x in t:
                if not num_ and not x:
                    continue
                v = F(num_ or 1) * (-1 if sg == "-" else 1)
                if x:
                    sl += v
                else:
                    ic += v
            got.append((sl, ic, lo, hi))
    n = 0
    best = bb.compute_best_beta_bounds(S)
    for b in best:
        m, c, I = b.data.bound.m, b.data.bound.c, b.data.bound.domain
        if c <= 0 or I.x0 == 0 or I.length() == 0:
            continue
        n += 1
        for j in (1, 5, 8):
            a = I.x0 + (I.x1 - I.x0) * F(j, 9)
            s = (m * a + c) / a
            vals = {sl * s + ic for sl, ic, lo, hi in got if lo < s < hi}
            expect(1 / a in vals, f"tau0({s}) is {vals}, but beta({a}) <= {m * a + c}, so tau0 = {1 / a}")
            for t in vals:
                # several tau0 only where the bound jumps
                expect(any(h.data.bound.at(1 / t) == s / t for h in best), f"tau0({s}) = {t}, but tau0 beta(1 / tau0) is not {s}")
    expect(n <= len(got), "pieces")
    ctx.nontrivial(n > 1)


TESTS = [
    Test("best", s_agg, c_agg, 160, 3000, 4,
         "1-6 estimates (p sigma + q)/(a sigma + b) on intervals with open and closed ends, as text or as functions, density and energy, the trivial "
         "bounds 3 A and 3/(1 - sigma); non-trivial when at least two estimates are best somewhere"),
    Test("simplify", s_simp, c_simp, 200, 2000, 1, "1-7 pieces with equal neighbours and gaps; non-trivial when something merges"),
    Test("ivic", s_ivic, c_ivic, 120, 3000, 3, "1-5 exponent pairs, m = 2..12; non-trivial with two different thresholds"),
    Test("bourgain", s_bour, c_bour, 12, 100, 1, "12-30 values of sigma against the stated table and the theorem; non-trivial when four rows are hit"),
    Test("all_pairs", lambda: st.just(dict(types=["Exponent pair", "Exponent pair transform", "Upper bound on beta"])), c_hull, 1, 1, 1,
         "the literature's exponent pairs through ep_to_zd, and the hull that must contain the pairs used"),
    Test("optimise", s_opt, c_opt, 6, 150, 2, "4-7 exponent pairs, 12-25 of the thousand values of sigma against the exact optimum over the polygons; "
         "non-trivial with two finite bounds"),
    Test("pintz", s_pintz, c_pintz, 150, 3000, 2, "1-6 bounds on beta and 1-6 pairs; non-trivial with two pieces of the best bound"),
]
