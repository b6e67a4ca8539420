"""Exponent pair transforms and the van der Corput pairs."""
from fractions import Fraction as F

from hypothesis import strategies as st

from core import Test, expect
from hyp import A, B, C, Dlines, Half, YEARS, check_derivation, ep, ep_hyp, lit, pair, transform_hyps
from lib import derived


@st.composite
def s_word(draw):
    return dict(p=draw(pair()), w=draw(st.text("ABCAB", min_size=1, max_size=6)), y=draw(st.sampled_from(YEARS)))


def inside(p):
    return 0 <= p[0] <= Half <= p[1] <= 1 and p[0] + p[1] <= 1


def c_word(case, ctx):
    h0 = ep_hyp(case["p"], case["y"])
    h, p = h0, (F(case["p"][0]), F(case["p"][1]))
    year = case["y"]
    used = []
    for ch in case["w"]:
        t = transform_hyps([ch])[0]
        q = {"A": A, "B": B, "C": C}[ch](p)
        before = h
        h = t.data.transform(h)
        used.append(t)
        expect((h.data.k, h.data.l) == q, f"{ch}{p} is {(h.data.k, h.data.l)}, want {q}")
        expect(h.hypothesis_type == "Exponent pair" and h.dependencies == {before, t},
               f"dependencies of the transformed pair are {h.dependencies}")
        year = max(year, t.reference.year())
        expect(h.reference.is_derived() and h.reference.year() == year and h.proof_date() == year,
               f"year {h.reference.year()} of a result that needs {year}")
        expect(inside(q), f"{ch} left the triangle: {q}")
        p = q
    expect((h0.data.k, h0.data.l) == (F(case["p"][0]), F(case["p"][1])) and not h0.dependencies, "input changed")
    expect(B(B(p)) == p, "model")
    b = transform_hyps(["B"])[0].data.transform
    hb = b(b(h))
    expect((hb.data.k, hb.data.l) == p, f"B applied twice to {p} gives {(hb.data.k, hb.data.l)}")
    check_derivation(h, [h0])
    ctx.nontrivial(len(set(case["w"])) > 1)


def c_beta(case, ctx):
    """D: the implied beta bounds cover [0, 1/2] and equal the larger of the two lines"""
    h0 = ep_hyp(case["p"], case["y"])
    D = transform_hyps(["D"])[0]
    out = D.data.transform(h0)
    L = Dlines((F(case["p"][0]), F(case["p"][1])))
    for j in range(0, 61):
        x = F(j, 120)
        got = [b.data.bound.at(x) for b in out if b.data.bound.at(x) is not None]
        want = max(m * x + c for m, c in L)
        expect(got and all(g == want for g in got), f"D bound of {case['p']} at {x} is {got}, want {want}")
    for b in out:
        expect(b.dependencies == {h0, D}, f"dependencies {b.dependencies}")
        check_derivation(b, [h0])
    ctx.nontrivial(len(out) > 1)


def c_vdc(case, ctx):
    k = case["k"]
    dv = derived()
    h = dv.van_der_corput_pair(k)
    want = (F(1, 2 ** k - 2), 1 - F(k - 1, 2 ** k - 2))
    expect((h.data.k, h.data.l) == want, f"van der Corput pair for {k} is {(h.data.k, h.data.l)}, want {want}")
    check_derivation(h, [ep.trivial_exp_pair])
    names = {d.name for d in h.recursive_dependencies()}
    expect({"Trivial exponent pair (0, 1)", "van der Corput B transform"} <= names, f"dependencies {names}")
    ctx.nontrivial(k > 3)


def vdc_bad(case, ctx):
    try:
        derived().van_der_corput_pair(case["k"])
    except ValueError:
        ctx.nontrivial()
        return
    expect(False, f"van_der_corput_pair({case['k']}) did not raise")


TESTS = [
    Test("words", s_word, c_word, 1500, 15000, 4,
         "words of up to 6 transforms applied to random admissible pairs; non-trivial when two different ones occur"),
    Test("sargos_d", s_word, c_beta, 600, 5000, 2,
         "the beta bounds of the D transform at 61 points; non-trivial when both lines matter"),
    Test("van_der_corput", lambda: st.integers(2, 40).map(lambda k: dict(k=k)), c_vdc, 120, 300, 1,
         "van der Corput pairs against the closed form; non-trivial for k > 3"),
    Test("van_der_corput_domain", lambda: st.integers(-5, 1).map(lambda k: dict(k=k)), vdc_bad, 20, 40, 1,
         "indices below 2 are rejected"),
]
