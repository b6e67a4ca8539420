"""Minimum / maximum envelopes of rational functions."""
from fractions import Fraction as F

import sympy
from hypothesis import strategies as st

import gen
from core import Test, expect
from lib import mod
from props.p14 import RF, I, coefs, ev, mulp, obj


@st.composite
def piece(draw, lo, hi):
    a, b = draw(gen.interval_pair(lo - 1, hi, degenerate=False))
    if draw(st.booleans()):
        a, b = str(lo), str(hi)
    outside = [str(F(a) - F(draw(gen.pos(1, 3)))), str(F(b) + F(draw(gen.pos(1, 3)))), "sq"]
    den = draw(st.lists(st.sampled_from(outside), max_size=draw(st.sampled_from([0, 1, 1, 2]))))
    d = [F(1)]
    for t in den:
        d = mulp(d, [1, 0, 1] if t == "sq" else [1, -F(t)])
    return dict(n=draw(coefs(1, 4)), d=[str(t) for t in d], iv=[a, b],
                br=draw(st.sampled_from([[True, False], [True, True], [False, True]])))


@st.composite
def s_env(draw):
    lo = draw(st.sampled_from([F(1, 2), F(0), F(-1)]))
    hi = lo + draw(st.sampled_from([F(1, 2), F(1), F(3)]))
    ps = draw(st.lists(piece(lo, hi), min_size=1, max_size=draw(st.sampled_from([3, 4, 6]))))
    if len(ps) > 1 and draw(st.integers(0, 3)) == 0:      # same function, chained or overlapping domain
        ps[1]["n"], ps[1]["d"] = ps[0]["n"], ps[0]["d"]
        if draw(st.booleans()):
            ps[1]["iv"] = ps[0]["iv"][1:] + [str(F(ps[0]["iv"][1]) + 1)]
        r = F(ps[1]["iv"][0]), F(ps[1]["iv"][1])
        k = 200
        if any(ev(ps[1]["d"], r[0] + (r[1] - r[0]) * i / k) * ev(ps[1]["d"], r[0]) <= 0 for i in range(k + 1)):
            ps[1]["d"] = ["1"]
    return dict(ps=ps, dom=[str(lo), str(hi)], kind=draw(st.sampled_from(["min", "max"])),
                track=draw(st.booleans()), how=draw(st.sampled_from(["ctor", "parse1"])))


def fl(x):
    return F(str(sympy.sympify(x).evalf(40))) if not isinstance(x, F) else x


def c_env(case, ctx):
    lo, hi = F(case["dom"][0]), F(case["dom"][1])
    best = {"min": min, "max": max}[case["kind"]]
    ps = case["ps"]
    fs = [(obj([p["n"], p["d"]], case["how"]), I(F(p["iv"][0]), F(p["iv"][1]), *p["br"])) for p in ps]
    op = getattr(RF, case["kind"])
    res = op(fs, I(lo, hi)) if case["track"] else op(fs, I(lo, hi), track_dependencies=False)
    ends = [lo, hi] + [F(t) for p in ps for t in p["iv"]]
    # the pieces tile the domain
    cut = [fl(r[1].x0) for r in res] + [fl(res[-1][1].x1)]
    expect(cut[0] == lo and cut[-1] == hi and all(x < y for x, y in zip(cut, cut[1:])),
           f"the pieces do not cover [{lo},{hi}) in order: {res}")
    for r, s in zip(res, res[1:]):
        expect(fl(r[1].x1) == fl(s[1].x0), f"gap or overlap between pieces: {res}")
    probes = [lo + (hi - lo) * (2 * k + 1) / 40 for k in range(20)]
    grid = sorted(set(ends + cut))
    probes += [(x + y) / 2 for x, y in zip(grid, grid[1:])]
    tol = F(1, 10 ** 12)
    comp = 0
    for x in probes:
        if not lo < x < hi or any(abs(x - e) < F(1, 10 ** 9) for e in ends + cut):
            continue
        vals = [(ev(p["n"], x) / ev(p["d"], x), k) for k, p in enumerate(ps)
                if F(p["iv"][0]) < x < F(p["iv"][1])]
        comp += len(vals) > 1
        k = max(i for i in range(len(cut) - 1) if cut[i] < x)
        got = sympy.nsimplify(str(x))
        r = res[k]
        v = F(str(sympy.sympify(r[0].at(got)).evalf(40)))
        if not vals:
            expect(abs(v) == 1000000, f"nothing is defined at {x}, but the value is {float(v)}")
            if case["track"]:
                expect(r[2] == -1, f"nothing is defined at {x}, but piece {r[2]} is credited")
            continue
        w = best(t for t, _ in vals)
        expect(abs(v - w) <= tol * (1 + abs(w)),
               f"at {x} the {case['kind']} is {float(w)} but the piece gives {float(v)}: {res}")
        if case["track"]:
            ok = [j for t, j in vals if abs(t - w) <= tol * (1 + abs(w))]
            expect(r[2] in ok, f"at {x} function {r[2]} is credited, the {case['kind']} is attained by {ok}")
    if not case["track"]:
        for r, s in zip(res, res[1:]):
            expect(not (r[0] == s[0]), f"neighbouring pieces carry the same function: {res}")
    ctx.nontrivial(comp > 1 and len(res) > 1)
    ctx.event("pieces", len(res))


TESTS = [Test("envelope", s_env, c_env, 600, 8000, 8,
              "1-4 rational functions, each on its own interval (without poles in it, poles outside it "
              "allowed), numerators of degree <= 3; checked at >= 20 points and the middle of every piece "
              "for value and credited index; non-trivial when functions compete and the result has "
              "several pieces")]
