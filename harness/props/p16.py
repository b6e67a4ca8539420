"""Dense polynomials."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from lib import mod

P = mod("polynomial").Polynomial


def trim(c):
    c = list(c)
    while c and c[-1] == 0:
        c.pop()
    return tuple(c)


def poly():
    return st.lists(st.one_of(gen.frac(-5, 5), st.sampled_from(["0", "1", "-1"])), max_size=9)


@st.composite
def s_ring(draw):
    f, g, h = draw(poly()), draw(poly()), draw(poly())
    k = draw(st.integers(0, 4))
    if k == 0:
        g = [str(-F(x)) for x in f]
    elif k == 1 and f:
        g = g + f[len(g):]
    return dict(f=f, g=g, h=h, xs=draw(st.lists(gen.frac(-3, 3), min_size=2, max_size=4)),
                ints=draw(st.booleans()))


def ev(c, x):
    return sum((F(a) * x ** i for i, a in enumerate(c)), F(0))


def c_ring(case, ctx):
    def num(x):
        x = F(x)
        return int(x) if case["ints"] and x.denominator == 1 else x
    f, g, h = (trim([num(x) for x in case[k]]) for k in "fgh")
    a, b, c = P(f), P(g), P(h)
    ctx.nontrivial(len(f) > 1 and len(g) > 1)

    def check(p, fn, what):
        want = fn
        cs = p.coefficients
        expect(len(cs) == 0 or cs[-1] != 0, f"{what}: leading coefficient is zero: {cs}")
        for x in [F(t) for t in case["xs"]] + [F(k) for k in range(-4, 9)]:
            expect(ev(cs, x) == want(x), f"{what} = {cs} is wrong at {x}")
        expect(p.degree() == (len(cs) - 1 if cs else float("-inf")), f"{what}: degree {p.degree()}")
        expect(p.is_zero() == (len(cs) == 0), f"{what}: is_zero")

    check(a + b, lambda x: ev(f, x) + ev(g, x), "f + g")
    check(a - b, lambda x: ev(f, x) - ev(g, x), "f - g")
    check(a * b, lambda x: ev(f, x) * ev(g, x), "f * g")
    check(a * (b + c), lambda x: ev(f, x) * (ev(g, x) + ev(h, x)), "f * (g + h)")
    expect(a * (b + c) == a * b + a * c and a + b == b + a and a * b == b * a, "ring laws fail")
    expect((a + b) - b == a and (a - a).is_zero() and (a - a) == P(()), "f + g - g is not f")
    expect((a == b) == (tuple(map(F, f)) == tuple(map(F, g))), "equality is not equality of coefficients")
    expect(copy.copy(a) == a, "a copy differs")
    if f and g:
        expect((a * b).degree() == a.degree() + b.degree(), "degrees do not add up")
    for bad in (f + (0,), f + (F(0),)):
        try:
            P(bad)
            ok = False
        except ValueError:
            ok = True
        expect(ok, f"a zero leading coefficient was accepted: {bad}")


TESTS = [Test("ring", s_ring, c_ring, 2500, 25000, 4,
              "triples of polynomials of degree <= 5 with integer or rational coefficients, including "
              "cancelling ones; compared by evaluation at >=13 points (more than any degree); "
              "non-trivial when f and g are non-constant")]
