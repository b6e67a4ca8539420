"""Printed expressions mean what they print."""
import re
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from lib import mod

fn, pt = mod("functions"), mod("polytope")
PL = mod("polynomial").Polynomial
SH = mod("helpers.str_helper").Str_Helper
I = fn.Interval
CO = st.one_of(gen.frac(-4, 4), st.sampled_from(["0", "0", "1", "-1"]))
TERM = re.compile(r"(?P<c>\d+(?:/\d+)?)?(?P<v>[a-zA-Zσρτ](?:_\d+)?)?(?:\^(?P<k>\d+))?$")


def parse_sum(text, names):
    """{(var, power): coefficient} of a printed sum; raises ValueError when it is not one."""
    s = text.strip()
    if not s:
        raise ValueError("empty expression")
    out, sign, first = {}, 1, True
    while s:
        if first:
            if s[0] == "-":
                sign, s = -1, s[1:].lstrip()
            first = False
        else:
            m = re.match(r"\s*([+-])\s+", s) or re.match(r"\s+([+-])\s*", s)
            if not m:
                raise ValueError(f"operator expected at {s!r} in {text!r}")
            sign, s = (1 if m.group(1) == "+" else -1), s[m.end():]
        m = re.match(r"[^\s+-]+", s)
        if not m:
            raise ValueError(f"term expected at {s!r} in {text!r}")
        t = TERM.match(m.group())
        if not t or (t.group("c") is None and t.group("v") is None):
            raise ValueError(f"bad term {m.group()!r} in {text!r}")
        v, k = t.group("v"), int(t.group("k") or 1)
        if v is not None and v not in names:
            raise ValueError(f"unknown variable {v!r} in {text!r}")
        key = (v, k if v else 0)
        out[key] = out.get(key, F(0)) + sign * F(t.group("c") or 1)
        s = s[m.end():]
    return {k: v for k, v in out.items() if v != 0}


def linear(cs, names):
    d = {(None, 0): F(cs[0])}
    d.update({(names[i], 1): F(c) for i, c in enumerate(cs[1:])})
    return {k: v for k, v in d.items() if v != 0}


def same(text, want, names, what):
    try:
        got = parse_sum(text, names)
    except ValueError as e:
        expect(False, f"{what} is not a readable expression: {e}")
    expect(got == want, lambda: f"{what} printed as {text!r}, whose value is not {want}")


@st.composite
def s_lin(draw):
    d = draw(st.integers(1, 8))
    return dict(cs=draw(st.lists(CO, min_size=d + 1, max_size=d + 1)), typ=draw(st.integers(0, 2)),
                ints=draw(st.booleans()))


def c_lin(case, ctx):
    cs = [F(t) for t in case["cs"]]
    if case["ints"]:
        cs = [int(t) if t.denominator == 1 else t for t in cs]
    d = len(cs) - 1
    ctx.nontrivial(sum(1 for c in cs if c < 0) > 0 and 0 in cs)
    names = list("xyzwu") if d <= 5 else [f"x_{i}" for i in range(1, d + 1)]
    text = repr(pt.Constraint(cs, case["typ"]))
    op = {0: " >= 0", 1: " > 0", 2: " = 0"}[case["typ"]]
    expect(text.endswith(op), f"constraint {cs} of type {case['typ']} printed as {text!r}")
    same(text[:-len(op)], linear(cs, names), names, "constraint")
    same(SH.format(cs, names), linear(cs, names), names, "expression")
    v = ["σ", "τ", "ρ", "a", "b", "c", "d", "e"]
    same(SH.format(cs, v), linear(cs, v), v, "expression")
    dom = pt.Polytope.rect(*[(F(0), F(1))] * d)
    n2 = list("xyzw") if d <= 4 else [f"x_{i}" for i in range(1, d + 1)]
    text = repr(fn.Affine2(cs, dom))
    expect(" on " in text, f"Affine2 printed as {text!r}")
    same(text.split(" on ")[0], linear(cs, n2), n2, "Affine2")


@st.composite
def s_poly(draw):
    d = draw(st.integers(1, 3))
    rows = draw(st.lists(st.lists(CO, min_size=d + 1, max_size=d + 1), min_size=1, max_size=4))
    return dict(d=d, rows=rows, lin=draw(st.booleans()))


def c_poly(case, ctx):
    d = case["d"]
    rows = [[F(t) for t in r] for r in case["rows"]]
    rows = [r for r in rows if any(r[1:])] or [[F(1)] + [F(1)] * d]
    P = pt.Polytope(rows, linear=case["lin"])
    names = ["p", "q", "r"][:d]
    op = " = 0" if case["lin"] else " >= 0"
    texts = re.findall(r"'([^']*)'", P.to_str(names))
    expect(len(texts) == len(rows), f"{len(rows)} constraints printed as {texts}")
    for r, t in zip(rows, texts):
        expect(t.endswith(op), f"{r} printed as {t!r}")
        same(t[:-len(op)], linear(r, names), names, "polytope constraint")
    ctx.nontrivial(len(rows) > 1)


@st.composite
def s_uni(draw):
    return dict(p=draw(st.lists(CO, max_size=6)), q=draw(st.lists(CO, min_size=1, max_size=4)),
                iv=draw(gen.interval_pair(-3, 3)) + [draw(st.booleans()), draw(st.booleans())],
                m=draw(CO), c=draw(CO), label=draw(st.sampled_from([None, "7"])))


def mono(cs):
    """coefficients low to high -> dictionary"""
    return {((None, 0) if i == 0 else ("x", i)): F(c) for i, c in enumerate(cs) if c != 0}


def c_uni(case, ctx):
    p = [F(t) for t in case["p"]]
    while p and p[-1] == 0:
        p.pop()
    ctx.nontrivial(len(p) > 2 and 0 in p)
    same(repr(PL(tuple(p))), mono(p), ["x"], "polynomial")
    iv = case["iv"]
    J = I(F(iv[0]), F(iv[1]), iv[2], iv[3])

    def rf(num, den, obj):
        text = repr(obj)
        body, dom = text.split(" on ")
        expect(I.parse(dom) == J or J.is_empty(), f"domain {J} printed as {dom}")
        n, d = mono(num[::-1]), mono(den[::-1])
        # compare as functions: sample points
        xs = [F(k, 3) for k in range(-14, 15)]
        for x in xs:
            dv = sum(c * x ** k[1] for k, c in d.items())
            if dv == 0:
                continue
            want = sum((c * x ** k[1] for k, c in n.items()), F(0)) / dv
            expect(value(body, x) == want, lambda: f"{num} / {den} printed as {body!r}, wrong at {x}")

    def value(body, x):
        """value of '<sum>' or '(<sum>)/(<sum>)' or mixed at x"""
        depth, cuts = 0, []
        for i, ch in enumerate(body):
            depth += (ch == "(") - (ch == ")")
            if ch == "/" and depth == 0:
                cuts.append(i)

        def ev(t):
            t = t.strip()
            if t.startswith("(") and t.endswith(")"):
                t = t[1:-1]
            return sum((c * x ** k[1] for k, c in parse_sum(t, ["x"]).items()), F(0))
        try:
            return ev(body)
        except ValueError:
            pass
        for i in reversed(cuts):
            try:
                return ev(body[:i]) / ev(body[i + 1:])
            except ValueError:
                continue
        raise ValueError(f"unreadable: {body!r}")

    num = [F(t) for t in case["p"]] or [F(0)]
    den = [F(t) for t in case["q"]]
    if not any(den):
        den = [F(1)]
    # denominators with one term other than a power of x print ambiguously ("1/2x"): leave those out
    R2 = fn.RationalFunction2
    if sum(1 for c in den if c) > 1 or all(c in (0, 1) for c in den):
        if sum(1 for c in num if c) > 1 or all(c.denominator == 1 for c in num):
            rf(num, den, R2((num, den), J))
    rf(num, [F(1)], R2(num, J))
    rf(num, [F(1)], R2((num,), J))
    r = R2((num, den), J)
    expect(r.is_zero() == (not any(num)), "is_zero")
    expect(r.is_constant() == (not any(num[:-1]) and not any(den[:-1])), "is_constant")
    expect(r.is_affine() == (not any(num[:-2]) and not any(den[:-1])), "is_affine")
    # one-variable affine functions and their intervals
    m, c = F(case["m"]), F(case["c"])
    text = repr(fn.Affine(m, c, J, case["label"]))
    body, rest = text.split(" for ")
    same(body, linear([c, m], ["x"]), ["x"], "Affine")
    expect((case["label"] is not None) == rest.endswith("  (7)"), f"label in {text!r}")
    dom = rest.replace("  (7)", "").replace("x \\in ", "")
    expect(J.is_empty() or I.parse(dom) == J, f"interval {J!r} printed as {dom!r}")


TESTS = [
    Test("linear", s_lin, c_lin, 1500, 15000, 2,
         "linear expressions in 1-8 variables (Constraint, Str_Helper, Affine2) read back by an independent "
         "parser; non-trivial when some coefficient is negative and some is zero"),
    Test("polytope", s_poly, c_poly, 600, 5000, 2,
         "1-4 rows in 1-3 named variables; non-trivial with several rows"),
    Test("univariate", s_uni, c_uni, 1500, 15000, 2,
         "polynomials of degree <= 5, RationalFunction2 and one-variable affine functions with any bracket "
         "type; non-trivial when a middle coefficient is zero"),
]
