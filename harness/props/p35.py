"""The bound on the second moment of prime gaps is the supremum the proposition prescribes, for the best assumed A and B."""
import contextlib
import io
import re
from fractions import Fraction as F

import sympy
from hypothesis import strategies as st

from core import Discard, Test, expect
from lib import derived, mod

fn = mod("functions")
zd = mod("zero_density_estimate")
ze = mod("zero_density_energy_estimate")
pg = mod("prime_gap")
H = mod("hypotheses")
R = mod("reference").Reference


# ------------------------------------------------------------------ generated estimates: numerator and denominator as coefficient lists (highest first)
def horner(c, s):
    t = 0
    for v in c:
        t = t * s + v
    return t


def text(c):
    return " + ".join(f"({v})*x**{len(c) - 1 - i}" for i, v in enumerate(c))


def value(e, s):
    return float(horner([F(v) for v in e[0]], s) / horner([F(v) for v in e[1]], s))


def expr(e):
    return f"({text(e[0])})/({text(e[1])})"


@st.composite
def dens(draw):
    a, b, c = draw(st.integers(2, 12)), draw(st.integers(0, 6)), draw(st.integers(1, 7))
    if draw(st.integers(0, 3)) == 0:
        return [["-1", "3/2"], [str(draw(st.integers(1, 3))), "1"]]
    return [[str(a)], [str(b), str(F(c, 2))]]


@st.composite
def energy(draw):
    kind = draw(st.integers(0, 3))
    if kind == 3:   # (p x + q)/((1 - x)(a x + b)), as bounds on A* usually are: singular at 1, (1 - x) A* is not
        q, a, b = draw(st.integers(8, 30)), draw(st.integers(0, 4)), draw(st.integers(1, 4))
        return [[str(draw(st.integers(-3, 4))), str(q)], ["-" + str(a), str(a - b), str(b)]]
    if kind == 0:
        return [[str(draw(st.integers(8, 30)))], [str(draw(st.integers(1, 4))), str(draw(st.integers(0, 2)))]]
    k = draw(st.integers(3, 20))
    num = [str(-k), str(k + draw(st.integers(2, 40)))]
    a, b = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    # (a x + b)(2 - x)
    return [num, ["-" + str(a), str(2 * a - b), str(2 * b)]]


@st.composite
def s_gap(draw):
    cuts = sorted(draw(st.lists(st.sampled_from(["3/5", "7/10", "3/4", "4/5", "7/8", "19/20"]), max_size=1, unique=True)), key=F)
    ends = ["1/2"] + cuts + ["1"]
    A = [[draw(dens()), a, b] for a, b in zip(ends, ends[1:])]
    if draw(st.integers(0, 4)) == 0:
        A.append([draw(dens()), "1/2", "1"])
    B = [[draw(energy()), "1/2", "1"]]
    if draw(st.integers(0, 3)) == 0:
        B.append([draw(energy()), draw(st.sampled_from(["3/5", "3/4"])), "1"])
    if draw(st.integers(0, 7)) == 0:
        c = draw(st.integers(1, 9))
        A = [[dens_, a, b] for dens_, a, b in A if F(b) < 1] + [[[["-" + str(c), str(c)], [str(draw(st.integers(0, 2))), "1"]], ends[-2], "1"]]
    return dict(A=A, B=B)


def best(rows, s):
    return min(value(e, s) for e, a, b in rows if F(a) <= s <= F(b))


def formulas(case, s):
    s = F(s)
    A, B = best(case["A"], s), best(case["B"], s)
    s = float(s)
    if A <= 0 or B - A <= 0:
        raise Discard
    return max(4 * s - 2 + 2 * (B * (1 - s) - 1) / (B - A), 4 * s - 2 + (B * (1 - s) - 1) / A)


def interior(case):
    try:
        vs = [formulas(case, F(1, 2) + F(k, 80)) for k in range(41)]
    except (Discard, ZeroDivisionError):
        return False
    return max(vs[1:-1]) > max(vs[0], vs[-1]) + 1e-4


@st.composite
def s_inside(draw):
    """single estimates for which the supremum is attained inside [1/2, 1]"""
    r = draw(st.randoms(use_true_random=False))
    for _ in range(400):
        A = [[str(r.randint(2, 12))], [str(r.randint(0, 6)), str(F(r.randint(1, 7), 2))]]
        k, a, b = r.randint(3, 20), r.randint(1, 4), r.randint(1, 4)
        B = [[str(-k), str(k + r.randint(2, 40))], ["-" + str(a), str(2 * a - b), str(2 * b)]]
        case = dict(A=[[A, "1/2", "1"]], B=[[B, "1/2", "1"]])
        if interior(case):
            return case
    return case


def sup(f, a, b):
    """supremum over the open interval, by sampling and refining around the largest sample"""
    n = 160
    w = (b - a) / 10 ** 7
    xs = [a + w] + [a + (b - a) * F(k, n) for k in range(1, n)] + [b - w]
    vs = [f(x) for x in xs]
    out = max(vs)
    for i in sorted(range(len(xs)), key=lambda k: -vs[k])[:3]:
        lo, hi = xs[max(i - 1, 0)], xs[min(i + 1, len(xs) - 1)]
        for _ in range(45):
            p, q = lo + (hi - lo) * F(2, 5), lo + (hi - lo) * F(3, 5)
            p, q = F(int(p * 2 ** 60), 2 ** 60), F(int(q * 2 ** 60), 2 ** 60)
            fp, fq = f(p), f(q)
            out = max(out, fp, fq)
            if fp < fq:
                lo = p
            else:
                hi = q
            if hi - lo < F(1, 10 ** 8):
                break
    return out


def result_row(line):
    """[lower, upper, value] of a printed line "[lower,upper) value ...", the ends being any expressions"""
    if not line or line[0] not in "[(":
        return None
    depth, comma = 0, None
    for i, ch in enumerate(line[1:], 1):
        if ch == "," and depth == 0 and comma is None:
            comma = i
        elif ch in "([":
            depth += 1
        elif ch in ")]":
            if depth == 0:
                break
            depth -= 1
    else:
        return None
    m = re.match(r" (-?[\d.]+(?:e[-+]?\d+)?|-?inf) ", line[i + 1:])
    if comma is None or m is None:
        return None
    return [float(sympy.sympify(line[1:comma])), float(sympy.sympify(line[comma + 1:i])), float(m.group(1))]


def c_gap(case, ctx):
    for k in range(0, 101):
        s = F(1, 2) + F(k, 200)
        for key in "AB":
            for e, a, b in case[key]:
                d = horner([F(v) for v in e[1]], s)
                if d < 0 or (d == 0 and s < 1):
                    raise Discard
                if key == "B" and d == 0 and best(case["A"], s) < .02:
                    raise Discard   # both formulas grow without bound
        if s == 1:
            s -= F(1, 1000)
        A, B = best(case["A"], s), best(case["B"], s)
        if B - A < .05 or (A <= .02 and s < F(97, 100)):
            raise Discard
    hs = H.Hypothesis_Set()
    for e, a, b in case["A"]:
        zd.add_zero_density(hs, expr(e), fn.Interval(F(a), F(b)), R.make("A", 2001))
    for e, a, b in case["B"]:
        hs.add_hypothesis(ze.literature_zero_density_energy_estimate(expr(e), fn.Interval(F(a), F(b)), R.make("B", 2002)))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pg.compute_gap2(hs)
    rows = [r for r in map(result_row, out.getvalue().splitlines()) if r]
    expect(rows, lambda: f"no result: {out.getvalue()}")
    expect(rows[0][0] == .5 and rows[-1][1] == 1 and all(a[1] == b[0] for a, b in zip(rows, rows[1:])), lambda: f"the intervals do not fill [1/2, 1]: {rows}")
    inner = False
    for a, b, v in rows:
        a, b = F(a), F(b)
        if b - a < F(1, 10 ** 4):      # near a pole at 1 the placeholder 10^6 is the least bound
            continue
        want = sup(lambda s: formulas(case, s), a, b)
        expect(abs(v - want) < 2e-5 * max(1, abs(want)), lambda: f"the supremum over [{float(a)}, {float(b)}] is {want}, computed {v}")
        ends = max(formulas(case, a + (b - a) / 10 ** 7), formulas(case, b - (b - a) / 10 ** 7))
        inner = inner or want > ends + 1e-6
    if inner:
        ctx.event("largest inside")
    ctx.nontrivial(inner or len(rows) > 1)


# ------------------------------------------------------------------ the shipped derivation of 19/15
_i = {}


def ingredients():
    if not _i:
        with contextlib.redirect_stdout(io.StringIO()):
            d = derived()
            old = d.pg.compute_gap2
            d.pg.compute_gap2 = lambda hs, *a, **k: _i.update(hs=hs)
            try:
                d.prove_prime_gap2()
            finally:
                d.pg.compute_gap2 = old
    return _i["hs"]


def at(h, s):
    try:
        return float(h.data.at(s))
    except TypeError:
        return eval(h.data.expr, {"x": float(s)})


def c_19(case, ctx):
    """the estimates prove_prime_gap2 assumes imply 19/15 by the proposition, which allows any upper bounds for A and A*"""
    s = F(case["s"])
    hs = ingredients()
    vals = []
    for kind in ("Zero density estimate", "Zero density energy estimate"):
        vs = [(at(h, s), h) for h in hs.list_hypotheses(kind) if h.data.interval.x0 < s < h.data.interval.x1]
        if any(s in (h.data.interval.x0, h.data.interval.x1) for h in hs.list_hypotheses(kind)):
            raise Discard
        expect(vs, lambda: f"nothing assumed about {kind} at {s}")
        vals.append(min(v for v, h in vs))
    A, B = vals
    x = float(s)
    expect(A <= 30 / 13 + 1e-12 and B <= 3 * 30 / 13, lambda: f"A({s}) <= {A}, A*({s}) <= {B}")
    if s > F(31, 34):
        A = max(A, B / 3)      # see the known finding
    v = max(4 * x - 2 + 2 * (B * (1 - x) - 1) / (B - A), 4 * x - 2 + (B * (1 - x) - 1) / A)
    expect(v <= 19 / 15 + 1e-9, lambda: f"at sigma = {s} the estimates give only {v} > 19/15 (A = {vals[0]}, A* = {B})")
    ctx.nontrivial(v > 1.2)


# the best bounds on A and A* the blueprint records: expression, range (zero density: open where another bound takes over)
BEST_A = [("3/(2-x)", "1/2", "7/10"), ("15/(3+5*x)", "7/10", "19/25"), ("9/(8*x-2)", "19/25", "127/167"), ("15/(13*x-3)", "127/167", "13/17"),
          ("6/(5*x-1)", "13/17", "17/22"), ("2/(9*x-6)", "17/22", "41/53"), ("9/(7*x-1)", "41/53", "7/9"), ("9/(8*(2*x-1))", "7/9", "1867/2347"),
          ("3/(2*x)", "1867/2347", "7/8"), ("3/(10*x-7)", "7/8", "279/314"), ("24/(30*x-11)", "279/314", "9/10"), ("3/(10*x-7)", "9/10", "31/34"),
          ("11/(48*x-36)", "31/34", "14/15"), ("391/(2493*x-2014)", "14/15", "2841/3016"), ("22232/(163248*x-134765)", "2841/3016", "859/908"),
          ("4406612/(33911310*x-28181831)", "859/908", "23/24"), ("3/(24*x-20)", "23/24", "60725033/62460603"),
          ("2351558/(39632665*x-35918731)", "60725033/62460603", "39/40"), ("2/(15*x-12)", "39/40", "41/42"), ("3/(40*x-35)", "41/42", "59/60")]
BEST_B = [("(10-11*x)/((2-x)*(1-x))", .5, 2 / 3), ("(18-19*x)/((4-2*x)*(1-x))", 2 / 3, .7), ("5*(18-19*x)/(2*(5*x+3)*(1-x))", .7, (539 - 42121 ** .5) / 460),
          ("2*(45-44*x)/((2*x+15)*(1-x))", (539 - 42121 ** .5) / 460, .75), ("(197-220*x)/(8*(5*x-1)*(1-x))", .75, 37 / 49),
          ("(173-270*x)/(16*(93-125*x)*(1-x))", 37 / 49, 4359 / 5770), ("(653-890*x)/(10*(93-125*x)*(1-x))", 4359 / 5770, 241 / 319),
          ("(1151-1190*x)/(20*(15*x-2)*(1-x))", 241 / 319, 443 / 586), ("(593-810*x)/(5*(171-230*x)*(1-x))", 443 / 586, 409 / 541),
          ("4*(266-275*x)/(5*(55*x-7)*(1-x))", 409 / 541, 373 / 493), ("(533-730*x)/(30*(26-35*x)*(1-x))", 373 / 493, 314 / 415),
          ("3*(26-33*x)/((85*x-62)*(1-x))", 314 / 415, 171 / 226), ("(174-185*x)/((31*x+2)*(1-x))", 171 / 226, 103 / 136),
          ("(72-91*x)/(7*(11*x-8)*(1-x))", 103 / 136, (6038 - 2 * 352321 ** .5) / 6405),
          ("5*(18-19*x)/(2*(5*x+3)*(1-x))", (6038 - 2 * 352321 ** .5) / 6405, 42 / 55), ("(18-19*x)/(6*(15*x-11)*(1-x))", 42 / 55, 97 / 127),
          ("3*(18-19*x)/(4*(4*x-1)*(1-x))", 97 / 127, 79 / 103), ("(18-19*x)/(2*(37*x-27)*(1-x))", 79 / 103, 33 / 43),
          ("5*(18-19*x)/(2*(13*x-3)*(1-x))", 33 / 43, 84 / 109), ("(18-19*x)/(9*(3*x-2)*(1-x))", 84 / 109, (1273 - 128689 ** .5) / 1184),
          ("4*(10-9*x)/(5*(4*x-1)*(1-x))", (1273 - 128689 ** .5) / 1184, 5 / 6), ("12/(4*x-1)", 5 / 6, 1.)]


# known finding gap2-assumed-A: these two are assumed, but not recorded or proved anywhere
UNPROVED = [(F(39, 40), F(40, 41), lambda s: 3 / (40 * s - 35)), (F(40, 41), F(41, 42), lambda s: 2 / (13 * s - 10))]


def assumed_finding(h):
    i = h.data.interval
    return any((i.x0, i.x1) == (a, b) and all(abs(at(h, s) - f(s)) < 1e-12 for s in ((a + b) / 2, (a + 2 * b) / 3)) for a, b, f in UNPROVED)


def probe_assumed():
    return sum(assumed_finding(h) for h in ingredients().list_hypotheses("Zero density estimate")) > 0


def c_assumed(case, ctx):
    """nothing the derivation assumes is better than the best bound the blueprint records"""
    s = F(case["s"])
    hs = ingredients()
    x = float(s)
    n = 0
    for kind, rows in (("Zero density estimate", BEST_A), ("Zero density energy estimate", BEST_B)):
        want = [eval(e, {"x": x}) for e, a, b in rows if float(F(a)) < x < float(F(b))]
        if not want:
            continue
        for h in hs.list_hypotheses(kind):
            if h.data.interval.x0 < s < h.data.interval.x1:
                if assumed_finding(h):
                    continue
                n += 1
                v = at(h, s)
                expect(v >= want[0] - 1e-9 * want[0], lambda: f"{kind} at {s}: {v} is assumed ({h.data}, {h.reference}), the best known bound is {want[0]}")
    ctx.nontrivial(n > 3)


def probe_best_a():
    hs = H.Hypothesis_Set()
    for e, a, b in (("2", F(1, 2), F(23, 24)), ("3/(24*x - 20)", F(23, 24), F(39, 40)), ("2", F(39, 40), F(1))):
        zd.add_zero_density(hs, e, fn.Interval(a, b), R.make("A", 2001))
    hs.add_hypothesis(ze.literature_zero_density_energy_estimate("12/(4*x - 1)", fn.Interval(F(1, 2), F(1)), R.make("B", 2002)))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pg.compute_gap2(hs)
    rows = [l for l in out.getvalue().splitlines() if l.startswith("[23/24")]
    return any(float(l.split()[1]) > 19 / 15 for l in rows)


PROBES = {"gap2-best-A": probe_best_a, "gap2-assumed-A": probe_assumed}
TESTS = [Test("inside", s_inside, c_gap, 16, 800, 8, rule="several intervals, or a supremum attained inside an interval",
              examples=[dict(A=[[[["2"], ["2", "5/2"]], "1/2", "1"]], B=[[[["-16", "27"], ["-3", "2", "8"]], "1/2", "1"]])]),
         Test("derivation", lambda: st.fixed_dictionaries(dict(s=st.one_of(
             st.fractions(F(1, 2), 1, max_denominator=2000), st.fractions(F(7, 10), F(31, 34), max_denominator=5000)).filter(lambda s: F(1, 2) < s < 1).map(str))),
             c_19, 250, 5000, 1, rule="within 1/15 of the claimed bound"),
         Test("assumed", lambda: st.fixed_dictionaries(dict(s=st.one_of(
             st.fractions(F(1, 2), 1, max_denominator=2000), st.fractions(F(3, 4), F(4, 5), max_denominator=20000),
             st.fractions(F(9, 10), F(59, 60), max_denominator=5000)).filter(lambda s: F(1, 2) < s < 1).map(str))),
             c_assumed, 250, 5000, 1, rule="more than three assumed estimates apply"),
         Test("gap2", s_gap, c_gap, 24, 2000, 7, rule="several intervals, or a supremum attained inside an interval")]
