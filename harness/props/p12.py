"""Piecewise-affine minima and maxima in one variable."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Discard, Test, expect
from lib import mod
from props.p11 import has, iv, mk

A = mod("functions").Affine
I = mod("functions").Interval


@st.composite
def affine(draw, near=None):
    return dict(m=draw(gen.frac(-2, 2, (1, 1, 2, 3))), c=draw(gen.frac(-2, 2, (1, 1, 2, 3))),
                dom=draw(iv()))


@st.composite
def s_env(draw):
    fs = draw(st.lists(affine(), min_size=2, max_size=draw(st.sampled_from([3, 5, 5, 10]))))
    ends = sorted({x for f in fs for x in f["dom"][:2]}, key=F)
    mode = draw(st.sampled_from(["free", "same", "chain", "free", "split"]))
    if mode == "same":
        for f in fs:
            f["dom"] = fs[0]["dom"]
    elif mode == "chain":  # shared endpoints
        for f in fs:
            a, b = sorted(draw(st.lists(st.sampled_from(ends), min_size=2, max_size=2)), key=F)
            f["dom"] = [a, b, draw(st.booleans()), draw(st.booleans())]
    elif mode == "split":  # the same function to the left and to the right of a point, which may be missing
        a, b, c = sorted(draw(st.lists(gen.frac(-3, 6), min_size=3, max_size=3, unique=True)), key=F)
        fs[0]["dom"] = [a, b, draw(st.booleans()), draw(st.integers(0, 3)) == 0]
        fs[1]["dom"] = [b, c, draw(st.integers(0, 3)) == 0, draw(st.booleans())]
        fs[1]["m"], fs[1]["c"] = fs[0]["m"], fs[0]["c"]
        if len(fs) > 2 and draw(st.booleans()):
            fs[2]["dom"] = [a, c, True, True]
    if mode != "split" and draw(st.integers(0, 2)) == 0:  # two functions meet at an end of a domain
        x = F(fs[0]["dom"][draw(st.integers(0, 1))])
        v = F(fs[0]["m"]) * x + F(fs[0]["c"])
        fs[1]["c"] = str(v - F(fs[1]["m"]) * x)
    fs = [f for f in fs if F(f["dom"][0]) < F(f["dom"][1]) or (f["dom"][2] and f["dom"][3])] or [
        dict(m="1", c="0", dom=["0", "1", True, True])]
    dom = draw(st.one_of(st.none(), iv()))
    if dom is not None and F(dom[0]) == F(dom[1]) and not (dom[2] and dom[3]):
        dom[2] = dom[3] = True
    return dict(fs=fs, dom=dom, label=draw(st.sampled_from(["id", "none", "id"])),
                kind=draw(st.sampled_from(["min", "max"])), how=draw(st.sampled_from(["list", "fold"])),
                pts=draw(st.lists(gen.frac(-3, 6), min_size=2, max_size=4)))


def fval(f, x):
    return F(f["m"]) * x + F(f["c"])


def c_env(case, ctx):
    fs, dom, best = case["fs"], case["dom"], {"min": min, "max": max}[case["kind"]]
    labels = case["label"] == "id"
    objs = [A(F(f["m"]), F(f["c"]), mk(f["dom"]), k if labels else None) for k, f in enumerate(fs)]
    d = None if dom is None else mk(dom)
    op = (lambda a, b: a.min_with(b, d)) if case["kind"] == "min" else (lambda a, b: a.max_with(b, d))
    if case["how"] == "list":
        pieces = op(objs[0], objs[1:])
        if len(objs) == 1:
            pieces = op(objs[0], [])
    else:  # as the callers do: fold one bound at a time into the pieces so far
        pieces = [objs[0]]
        for o in objs[1:]:
            pieces = op(o, pieces)
        if len(objs) == 1:
            pieces = op(objs[0], [])
    ends = sorted({F(x) for f in fs for x in f["dom"][:2]} | ({F(x) for x in dom[:2]} if dom else set()))
    xs = set(ends)
    for i in range(len(fs)):
        for j in range(i):
            m1, m2 = F(fs[i]["m"]), F(fs[j]["m"])
            if m1 != m2:
                xs.add((F(fs[j]["c"]) - F(fs[i]["c"])) / (m1 - m2))
    xs = sorted(xs)
    xs += [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [xs[0] - 1, xs[-1] + 1] + [F(t) for t in case["pts"]]
    crossings = 0
    for x in xs:
        vals = [(fval(f, x), k) for k, f in enumerate(fs) if has(f["dom"], x)]
        if dom is not None and not has(dom, x):
            vals = []
        got = [p for p in pieces if p.domain.contains(x)]
        expect(bool(vals) == bool(got), f"at {x} {len(vals)} functions are defined but {len(got)} "
               f"pieces are: {pieces}")
        if not vals:
            continue
        w = best(v for v, _ in vals)
        crossings += len(vals) > 1
        for p in got:
            expect(p.at(x) == w, f"at {x} the {case['kind']} is {w}, but a piece gives {p.at(x)}: {pieces}")
            if labels:
                expect(p.label in [k for v, k in vals if v == w],
                       f"at {x} the piece is credited to function {p.label}, optimum at "
                       f"{[k for v, k in vals if v == w]}")
        expect(len(got) == 1, f"{len(got)} pieces contain {x}: {pieces}")
    ctx.nontrivial(crossings >= 2 and len(fs) > 1)
    ctx.event(case["how"])
    # the operands are unchanged
    for o, f in zip(objs, fs):
        expect(o.m == F(f["m"]) and o.c == F(f["c"]) and o.domain == mk(f["dom"]),
               "an operand was changed")


@st.composite
def s_pt(draw):
    return dict(f=draw(affine()), g=draw(affine()), x=draw(gen.frac(-3, 6)))


def c_pt(case, ctx):
    f, g = case["f"], case["g"]
    a = A(F(f["m"]), F(f["c"]), mk(f["dom"]))
    b = A(F(g["m"]), F(g["c"]), mk(g["dom"]))
    for x in (F(case["x"]), F(f["dom"][0]), F(f["dom"][1])):
        expect(a.at(x) == (fval(f, x) if has(f["dom"], x) else None), f"at({x})")
        expect(a.at(x, True) == fval(f, x), f"at({x}, extend_domain=True)")
    want = None
    if F(f["m"]) != F(g["m"]):
        x = (F(g["c"]) - F(f["c"])) / (F(f["m"]) - F(g["m"]))
        if has(f["dom"], x) and has(g["dom"], x):
            want = x
    expect(a.intersection(b) == want, f"intersection is {a.intersection(b)}, want {want}")
    ctx.nontrivial(want is not None)


@st.composite
def s_same(draw):
    f = draw(affine())
    if draw(st.integers(0, 2)) == 0:
        f["dom"] = [f["dom"][0], f["dom"][0], True, True]
    g = dict(f, dom=list(f["dom"]))
    what = draw(st.sampled_from(["none", "m", "c", "dom", "at"]))
    if what == "at":    # another function through the same value at the lower end
        g["m"] = draw(gen.frac(-2, 2, (1, 1, 2, 3)))
        g["c"] = str(fval(f, F(f["dom"][0])) - F(g["m"]) * F(f["dom"][0]))
    elif what == "dom":
        g["dom"] = draw(st.one_of(iv(), st.just(f["dom"][:2] + [not f["dom"][2], f["dom"][3]])))
    elif what != "none":
        g[what] = draw(gen.frac(-2, 2, (1, 1, 2, 3)))
    return dict(f=f, g=g)


def c_same(case, ctx):
    """equality as functions on their domains, comparison of formulas, copies"""
    f, g = case["f"], case["g"]
    if any(F(h["dom"][0]) == F(h["dom"][1]) and not (h["dom"][2] and h["dom"][3]) for h in (f, g)):
        raise Discard
    a, b = (A(F(h["m"]), F(h["c"]), mk(h["dom"]), n) for h, n in ((f, "p"), (g, "q")))
    dom = [F(f["dom"][0]), F(f["dom"][1])] + f["dom"][2:] == [F(g["dom"][0]), F(g["dom"][1])] + g["dom"][2:]
    formula = F(f["m"]) == F(g["m"]) and F(f["c"]) == F(g["c"])
    point = F(f["dom"][0]) == F(f["dom"][1])
    want = dom and (fval(f, F(f["dom"][0])) == fval(g, F(f["dom"][0])) if point else formula)
    expect((a == b) == want and (b == a) == want, lambda: f"{a} == {b} is {a == b}")
    expect((a != b) == (not want), lambda: f"{a} != {b} is {a != b}")
    expect(a.function_equals(b) == formula, lambda: f"function_equals of {a} and {b}")
    c = a.deep_copy()
    expect(c == a and c.domain is not a.domain, "a copy shares its domain or differs")
    c.domain.x0, c.m = F(-99), F(77)
    expect(a.m == F(f["m"]) and a.domain == mk(f["dom"]), "changing a copy changed the original")
    ctx.nontrivial(case["f"] != case["g"])


TESTS = [
    Test("envelope", s_env, c_env, 3000, 30000, 4,
         "1-10 affine functions on random, identical or chained intervals (all bracket types), with "
         "ties at domain ends, with and without labels and a domain, in one call or folded as "
         "callers do; probed at all ends, crossings and between; non-trivial when at least two "
         "functions compete somewhere"),
    Test("evaluate", s_pt, c_pt, 1500, 10000, 2,
         "evaluation and crossing of two affine functions; non-trivial when they cross inside both domains"),
    Test("same", s_same, c_same, 800, 8000, 1,
         "pairs equal or differing in slope, constant, domain or bracket, singletons included, and other functions through the same value; "
         "non-trivial when they differ"),
]
