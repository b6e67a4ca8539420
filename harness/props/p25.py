"""Bounds on mu."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from hyp import H, Half, R, YEARS, bb, bm, check_derivation, closure_hull, ep_hyp, fn, hull_lower, pair, transform_hyps
from lib import mod


@st.composite
def s_mu(draw):
    mus = []
    for _ in range(draw(st.sampled_from([0, 1, 2, 3, 4, 8]))):
        s = F(draw(gen.frac(Half, 1, (2, 3, 4, 5, 7, 20))))
        t = draw(st.sampled_from(["1", "9/10", "2/3", "1/2", "1/3", "0"]))
        mus.append([str(s), str((1 - s) / 2 * F(t))])
    if draw(st.integers(0, 3)) == 0:
        mus.append(["1/2", draw(st.sampled_from(["1/6", "13/84", "0"]))])
    a, b = sorted(draw(st.lists(gen.frac(-1, 2, (2, 3, 4, 5)), min_size=2, max_size=2)), key=F)
    if a == b:
        a, b = "0", "1"
    if draw(st.booleans()):
        a, b = max(F(a), F(0)), min(F(b), F(1))
        a, b = (str(a), str(b)) if a < b else ("0", "1")
    return dict(mus=mus, ps=draw(st.lists(pair(), max_size=4)), tr=draw(st.sampled_from(["", "", "A", "B", "AB", "ABC"])),
                iv=[a, b], xs=draw(st.lists(gen.frac(-1, 2), min_size=3, max_size=6)),
                order=draw(st.booleans()), copies=draw(st.booleans()))


def ref_bounds(case, rounds):
    pts = [(F(s), F(m)) for s, m in case["mus"]] + [(F(1), F(0))]
    if case["ps"]:
        P = closure_hull([(F(a), F(b)) for a, b in case["ps"]], case["tr"], rounds)
        pts += [(l - k, k) for k, l in P]
    return pts + [(1 - s, m + s - Half) for s, m in pts if s > Half]


def trivial(s):
    return max(F(0), Half - s, Half - s / 2) if s <= 1 else F(0)


def ref_mu(pts, xs):
    out = []
    for x, v in zip(xs, hull_lower(pts, xs)):
        if x <= 0 or x >= 1:
            out.append(max(F(0), Half - x) if x <= 0 else F(0))
        else:
            t = Half - x / 2
            out.append(t if v is None else min(t, v))
    return out


def c_mu(case, ctx):
    base = [bm.classical_bound_mu(F(s), F(m)) for s, m in case["mus"]] + [ep_hyp(p, 1980) for p in case["ps"]]
    S = H.Hypothesis_Set(base + transform_hyps(case["tr"]) + [bb.trivial_beta_bound_1])
    n = len(S)
    xs = [F(t) for t in case["xs"]] + [F(j, 12) for j in range(-1, 14)]
    T = max(1, len(case["tr"]))
    blow, bhigh = ref_bounds(case, 5 * T), ref_bounds(case, 5)
    low, high = ref_mu(blow, xs), ref_mu(bhigh, xs)

    def points():
        for x, a, b in zip(xs, low, high):
            h = bm.best_mu_bound(x, S)
            v = h.data.mu
            expect(h.data.sigma == x and h.hypothesis_type == "Upper bound on mu", f"asked at {x}, got {h.data}")
            expect(float(a) - 1e-9 <= v <= float(b) + 1e-9,
                   f"mu({x}) <= {v}, want {float(a)} .. {float(b)}; {case}")
            if case["ps"] == [] or not case["tr"]:
                expect(abs(float(v - b)) < 1e-9, f"mu({x}) <= {v}, want {b}")
            check_derivation(h, base + [bm.bound_mu_trivial])

    def piecewise():
        a, b = F(case["iv"][0]), F(case["iv"][1])
        pcs = bm.best_mu_bound_piecewise(fn.Interval(a, b), S)
        for i in range(25):
            x = a + (b - a) * (2 * i + 1) / 50
            u, v = ref_mu(blow, [x])[0], ref_mu(bhigh, [x])[0]
            got = [p.at(x) for p in pcs if p.at(x) is not None]
            expect(got, f"no piece at {x} in [{a},{b}): {pcs}")
            expect(all(float(u) - 1e-9 <= g <= float(v) + 1e-9 for g in got),
                   f"piecewise bound at {x} is {got}, want {float(u)}..{float(v)}: {pcs}")
        expect(all(p.at(x) is None for p in pcs for x in (a - F(1, 97), b + F(1, 97))), f"pieces outside [{a},{b}): {pcs}")

    for f in ([points, piecewise] if case["order"] else [piecewise, points]):
        f()
    expect(len(S) == n, "a query changed the set")
    ctx.nontrivial(bool(case["mus"]) and bool(case["ps"]))
    # proving
    x = xs[0]
    v = bm.best_mu_bound(x, S).data.mu
    for extra in (F(0), F(1, 7)):
        m = len(S)
        h = bm.prove_mu_bound(x, v + extra, S)
        expect(h is not False and h.data.mu <= v + extra and h in set(S), f"could not prove mu({x}) <= {v + extra}")
    expect(bm.prove_mu_bound(x, v - F(1, 1000), S) is False, f"proved mu({x}) <= {v - F(1, 1000)}")


@st.composite
def s_step(draw):
    b = lambda: [draw(gen.frac(0, 1)), draw(gen.frac(0, 1))]
    return dict(a=b(), b=b(), t=draw(gen.frac(0, 1)), p=draw(pair()), ys=[draw(st.sampled_from(YEARS)) for _ in "ab"])


def c_step(case, ctx):
    (s1, m1), (s2, m2) = ([F(t) for t in case[k]] for k in "ab")
    h1 = bm.literature_bound_mu(s1, m1, R.make("X", case["ys"][0]))
    h2 = bm.literature_bound_mu(s2, m2, R.make("Y", case["ys"][1]))
    f = bm.apply_functional_equation(h1)
    expect((f.data.sigma, f.data.mu) == (1 - s1, m1 + s1 - Half) and f.dependencies == {h1}, f"functional equation {f.data}")
    g = bm.apply_functional_equation(f)
    expect((g.data.sigma, g.data.mu) == (s1, m1), f"the functional equation twice: {g.data}")
    t = F(case["t"])
    c = bm.apply_mu_convexity(h1, h2, t)
    expect((c.data.sigma, c.data.mu) == ((1 - t) * s1 + t * s2, (1 - t) * m1 + t * m2), f"convexity {c.data}")
    expect(c.reference.year() == max(case["ys"]) == c.proof_date() and c.dependencies == {h1, h2}, "year of a convexity bound")
    e = bm.obtain_mu_bound_from_exponent_pair(ep_hyp(case["p"], 1999))
    k, l = F(case["p"][0]), F(case["p"][1])
    expect((e.data.sigma, e.data.mu) == (l - k, k), f"bound from a pair {e.data}")
    expect(trivial(s1) == bm.trivial_mu_bound(s1) == bm.apply_trivial_mu_bound(s1).data.mu, "trivial bound")
    for x in (s1 - 1, s1 + 1):
        expect(bm.trivial_mu_bound(x) == max(F(0), Half - x), f"trivial bound at {x}")
    ctx.nontrivial(0 < t < 1)


TESTS = [
    Test("best", s_mu, c_mu, 300, 3000, 8,
         "0-5 bounds on mu at sigma in [1/2,1], 0-4 exponent pairs and transforms; 18+ values of sigma pointwise and a "
         "piecewise answer on an interval inside or beyond [0,1], in either order, against an exact lower hull, with "
         "every derivation re-checked; non-trivial with both mu bounds and pairs"),
    Test("steps", s_step, c_step, 1500, 10000, 2,
         "single steps: functional equation, convexity, exponent pairs, trivial bound; non-trivial for proper "
         "convex combinations"),
]
