"""Rational functions: arithmetic, evaluation, roots, crossings, extrema."""
from fractions import Fraction as F

import sympy
from hypothesis import strategies as st

import gen
from core import Test, expect
from lib import mod

fn = mod("functions")
RF, I = fn.RationalFunction, fn.Interval
SMALL = (1, 1, 1, 2, 3)


def ev(c, x):
    r = F(0)
    for a in c:
        r = r * x + F(a)
    return r


def mulp(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, s in enumerate(a):
        for j, t in enumerate(b):
            out[i + j] += F(s) * F(t)
    return out


def coefs(lo=1, hi=4):
    return st.lists(gen.frac(-4, 4, SMALL), min_size=lo, max_size=hi)


@st.composite
def ratf(draw):
    n = draw(coefs())
    d = draw(coefs(1, 3))
    if all(F(t) == 0 for t in d):
        d = ["1"]
    return [n, d]


def num(t, ints):
    t = F(t)
    return int(t) if ints and t.denominator == 1 else t


def text(c, style):
    """A Python expression for the polynomial."""
    terms = []
    deg = len(c) - 1
    for i, t in enumerate(c):
        t = F(t)
        k = deg - i
        if style == 0:
            terms.append(f"({t.numerator}/{t.denominator})*x**{k}" if t.denominator > 1 else f"({t})*x**{k}")
        elif t != 0 or deg == 0:
            v = f"{t}" if t.denominator == 1 else f"{t.numerator}/{t.denominator}"
            terms.append(v if k == 0 else f"{v} * x" if k == 1 else f"{v} * x**{k}")
    return " + ".join(terms) if terms else "0"


def obj(f, how, ints=False):
    n, d = f
    if how == "parse0":
        return RF.parse(f"({text(n, 0)})/({text(d, 0)})")
    if how == "parse1":
        return RF.parse(f"({text(n, 1)})/({text(d, 1)})")
    n, d = [num(t, ints) for t in n], [num(t, ints) for t in d]
    return RF(n) if how == "one" and d == [1] else RF(n, d)


HOW = st.sampled_from(["ctor", "ctor", "one", "parse0", "parse1"])


@st.composite
def s_arith(draw):
    return dict(f=draw(ratf()), g=draw(ratf()), k=draw(gen.frac(-3, 3)), h=draw(coefs(1, 3)),
                how=[draw(HOW), draw(HOW)], ints=draw(st.booleans()),
                rel=draw(st.sampled_from(["free", "free", "scaled", "neg", "same"])),
                xs=draw(st.lists(gen.frac(-3, 3), min_size=2, max_size=4)))


def c_arith(case, ctx):
    f, g, h = case["f"], case["g"], case["h"]
    if all(F(t) == 0 for t in h):
        h = ["1"]
    if case["rel"] == "scaled":      # g is f written with a common factor
        g = [[str(t) for t in mulp(f[0], h)], [str(t) for t in mulp(f[1], h)]]
    elif case["rel"] == "neg":
        g = [[str(-F(t)) for t in f[0]], f[1]]
    elif case["rel"] == "same":
        g = f
    a, b = obj(f, case["how"][0], case["ints"]), obj(g, case["how"][1], case["ints"])
    k = num(case["k"], case["ints"])
    xs = [x for x in [F(t) for t in case["xs"]] + [F(t, 2) for t in range(-13, 14)]
          if ev(f[1], x) != 0 and ev(g[1], x) != 0]
    A, B = (lambda x: ev(f[0], x) / ev(f[1], x)), (lambda x: ev(g[0], x) / ev(g[1], x))
    ctx.nontrivial(len(f[1]) > 1 or len(g[1]) > 1)
    ctx.event(case["rel"])

    def check(r, want, what):
        for x in xs:
            try:
                w = want(x)
            except ZeroDivisionError:
                continue
            got = r.at(x)
            expect(got == w, lambda: f"{what} at {x} is {got}, want {w}; f={f}, g={g}")

    check(a, A, "f")
    check(b, B, "g")
    check(a + b, lambda x: A(x) + B(x), "f + g")
    check(a - b, lambda x: A(x) - B(x), "f - g")
    check(a * b, lambda x: A(x) * B(x), "f * g")
    check(a.add(k), lambda x: A(x) + k, "f + number")
    check(a.subtract(k), lambda x: A(x) - k, "f - number")
    check(a * k, lambda x: A(x) * k, "f * number")
    if k != 0:
        check(a / k, lambda x: A(x) / k, "f / number")
    if any(F(t) != 0 for t in g[0]):
        check(a / b, lambda x: A(x) / B(x), "f / g")
    same = all(A(x) == B(x) for x in xs)   # 20+ points, more than the degree of the cross product
    expect(bool(a == b) == same, f"f == g is {a == b}, but the functions are {'the same' if same else 'different'}")
    check(a, A, "f afterwards")
    check(b, B, "g afterwards")


# ------------------------------------------------------------ roots and crossings
@st.composite
def s_roots(draw):
    lin = draw(st.lists(gen.frac(-3, 3, SMALL), max_size=3))
    quad = draw(st.one_of(st.none(), st.tuples(st.integers(-3, 3), st.integers(-4, 4)).map(list)))
    den = draw(st.lists(gen.frac(-3, 3, SMALL), max_size=2))
    return dict(lin=lin, quad=quad, den=den, lead=draw(gen.frac_nz(-3, 3)),
                iv=draw(gen.interval_pair(-3, 3, degenerate=False)) + [draw(st.booleans()), draw(st.booleans())],
                shift=draw(coefs(1, 3)), split=draw(st.booleans()))


def in_iv(iv, x):
    a, b = F(iv[0]), F(iv[1])
    return a < x < b or (x == a and iv[2]) or (x == b and iv[3])


def c_roots(case, ctx):
    n, want = [F(case["lead"])], []
    poles = {F(t) for t in case["den"]}
    for r in case["lin"]:
        r = F(r)
        if r in poles:
            continue
        n = mulp(n, [1, -r])
        want.append(r)
    if case["quad"]:
        p, q = case["quad"]
        D = p * p - 4 * q
        if any(x * x + p * x + q == 0 for x in poles):
            pass
        else:
            n = mulp(n, [1, p, q])
            if D >= 0:
                want += [(-p + s * sympy.sqrt(D)) / 2 for s in (1, -1)]
    d = [F(1)]
    for r in poles:
        d = mulp(d, [1, -r])
    iv = case["iv"]
    inter = I(F(iv[0]), F(iv[1]), iv[2], iv[3])
    want = {sympy.nsimplify(str(w)) if isinstance(w, F) else sympy.nsimplify(w) for w in want}
    want = sorted((w for w in want if in_iv(iv, w)), key=lambda w: w.evalf(30))
    f = RF(n, d)

    def cmp(got, what):
        got = sorted({sympy.simplify(sympy.sympify(g)) for g in got}, key=lambda w: w.evalf(30))
        expect(len(got) == len(want) and all(abs((g - w).evalf(40)) < 1e-25 for g, w in zip(got, want)),
               lambda: f"{what} on {iv}: {got}, want {want}; numerator {n}, denominator {d}")

    cmp(f.roots(inter), "roots")
    h = RF([F(t) for t in case["shift"]])
    g = f + h
    cmp(g.intersections(h, inter), "crossings of h + f and h")
    cmp(h.intersections(g, inter), "crossings of h and h + f")
    ctx.nontrivial(len(want) > 0)


# ------------------------------------------------------------ extrema
@st.composite
def s_ext(draw):
    a, b = draw(gen.interval_pair(-3, 3, degenerate=False))
    out = [str(F(a) - F(draw(gen.pos()))), str(F(b) + F(draw(gen.pos())))]
    den = draw(st.lists(st.sampled_from(out + ["sq"]), max_size=2))
    return dict(n=draw(coefs(1, 4)), den=den, iv=[a, b], how=draw(st.sampled_from(["ctor", "parse0"])))


def c_ext(case, ctx):
    d = [F(1)]
    for t in case["den"]:
        d = mulp(d, [1, 0, 1] if t == "sq" else [1, -F(t)])
    n = case["n"]
    f = obj([n, [str(t) for t in d]], case["how"])
    a, b = F(case["iv"][0]), F(case["iv"][1])
    inter = I(a, b, True, True)
    xs = [a + (b - a) * k / 240 for k in range(241)]
    vals = [ev(n, x) / ev(d, x) for x in xs]
    tol = F(1, 10 ** 15)
    for name, sgn, best in (("maximise", 1, max(vals)), ("minimise", -1, min(vals))):
        x, v = getattr(f, name)(inter)
        X, V = sympy.nsimplify(x) if isinstance(x, F) else sympy.sympify(x), sympy.sympify(v)
        X, V = F(str(X.evalf(40))), F(str(V.evalf(40)))
        expect(a - tol <= X <= b + tol, f"{name} on [{a},{b}] returned the point {x} outside it")
        fx = ev(n, X) / ev(d, X)
        expect(abs(fx - V) <= tol * (1 + abs(V)), f"{name} returned the value {v} at {x}, where it is {float(fx)}")
        expect((V - best) * sgn >= -tol * (1 + abs(V)),
               f"{name} on [{a},{b}] returned {float(V)}, but {float(best)} is attained; {n} / {d}")
        ctx.nontrivial(X not in (a, b))


TESTS = [
    Test("arith", s_arith, c_arith, 500, 5000, 4,
         "two rational functions (numerator degree <= 3, denominator <= 2, constants included) built from "
         "int or Fraction coefficients or parsed from text, possibly equal up to a common factor; compared "
         "with exact arithmetic at >= 20 points; non-trivial when a denominator is not constant"),
    Test("roots", s_roots, c_roots, 350, 4000, 4,
         "functions with prescribed rational and quadratic roots and poles on intervals of every bracket "
         "type; non-trivial when a root is in the interval"),
    Test("extrema", s_ext, c_ext, 350, 4000, 4,
         "functions without poles on the closed interval; extremum compared with 241 exact samples; "
         "non-trivial when an extremum is interior"),
]
