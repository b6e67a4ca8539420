"""Intervals."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from lib import mod

I = mod("functions").Interval


@st.composite
def iv(draw):
    if draw(st.integers(0, 3)) == 0:
        a, b = sorted(draw(st.lists(st.integers(-2, 2), min_size=2, max_size=2)))
        a, b = str(a), str(b)
    else:
        a, b = draw(gen.interval_pair(-2, 2))
    return [a, b, draw(st.booleans()), draw(st.booleans())]


def mk(i):
    return I(F(i[0]), F(i[1]), i[2], i[3])


def has(i, x):
    a, b = F(i[0]), F(i[1])
    return (a < x or (a == x and i[2])) and (x < b or (x == b and i[3]))


@st.composite
def s_iv(draw):
    ivs = draw(st.lists(iv(), min_size=2, max_size=4))
    if draw(st.booleans()):  # share endpoints
        ivs[1][0], ivs[1][1] = sorted([draw(st.sampled_from(ivs[0][:2])), ivs[1][1]], key=F)
    return dict(ivs=ivs, pts=draw(st.lists(gen.frac(-3, 6), min_size=2, max_size=5)))


def c_iv(case, ctx):
    ivs = case["ivs"]
    ends = [F(x) for i in ivs for x in i[:2]]
    pts = [F(x) for x in case["pts"]] + ends + [(a + b) / 2 for a in ends for b in ends]
    objs = [mk(i) for i in ivs]
    acc, model = objs[0], lambda x: has(ivs[0], x)
    for i, o in zip(ivs, objs):
        for x in pts:
            expect(bool(o.contains(x)) == has(i, x), f"{i} contains {x} is not {has(i, x)}")
        a, b = F(i[0]), F(i[1])
        empty = a == b and not (i[2] and i[3])
        expect(o.is_empty() == empty, f"is_empty({i}) is not {empty}")
        expect(o.length() == b - a and o.midpoint() == (a + b) / 2, f"length/midpoint of {i}")
        # text form
        text = str(o)
        expect(text[0] == ("[" if i[2] else "(") and text[-1] == ("]" if i[3] else ")"), text)
        back = I(text)
        for x in pts:
            expect(bool(back.contains(x)) == has(i, x), f"{i} -> {text} -> {back} at {x}")
        sp = I(f"{'[' if i[2] else '('} {i[0]} , {i[1]} {']' if i[3] else ')'}")
        expect((sp.x0, sp.x1, sp.include_lower, sp.include_upper) == (a, b, i[2], i[3]),
               f"parsing with spaces gave {sp}")
        c = o.deep_copy()
        expect(c == o, "a deep copy differs")
        c.x0 = c.x0 - 1
        c.include_upper = not c.include_upper
        expect((o.x0, o.include_upper) == (a, i[3]), "a deep copy shares state")
        # default: half open
        h = I(a, b)
        expect((h.include_lower, h.include_upper) == (True, False), "the default is not [x0, x1)")
        if a < b:
            try:
                I(b, a)
                bad = True
            except ValueError:
                bad = False
            expect(not bad, "a reversed interval was accepted")
    for k in range(1, len(ivs)):
        r = acc.intersect(objs[k])
        r2 = objs[k].intersect(acc)
        prev = model
        model = (lambda p, j: lambda x: p(x) and has(ivs[j], x))(prev, k)
        for x in pts:
            expect(bool(r.contains(x)) == model(x), f"intersection of {ivs[:k + 1]} is {r}: wrong at {x}")
        expect(r == r2, f"intersection is not symmetric: {r} and {r2}")
        none = not any(model(x) for x in pts)
        expect(r.is_empty() == none, f"intersection {r}: is_empty is not {none}")
        acc = r
    for i, a in zip(ivs, objs):
        for j, b in zip(ivs, objs):
            want = all(has(i, x) == has(j, x) for x in pts)
            expect((a == b) == want, f"{a} == {b} is not {want}")
    ctx.nontrivial(any(model(x) for x in pts))
    ctx.event("meet" if any(model(x) for x in pts) else "apart")


TESTS = [Test("intervals", s_iv, c_iv, 4000, 40000, 4,
              "2-4 intervals with random or shared endpoints, degenerate and empty ones, all four "
              "bracket types; probed at all endpoints and midpoints; non-trivial when all meet")]
