"""Generators and reference evaluation for large value estimates rho <= max_b (c0 + c1 sigma + c2 tau)."""
from fractions import Fraction as F

from hypothesis import strategies as st

import core  # noqa: F401
import gen
import hyp
from lib import mod

lv = mod("large_values")
zlv = mod("zeta_large_values")
H = mod("hypotheses")
R = mod("region").Region
RT = mod("region").Region_Type
P = mod("polytope").Polytope
C = mod("constants").Constants
TMAX, RMAX = F(10) ** 6, F(10) ** 6

LITLIKE = [["2", "-2", "0"], ["1", "-2", "1"], ["4", "-6", "1"], ["10", "-13", "1"], ["18/5", "-4", "0"],
           ["12/5", "-4", "1"], ["6", "-12", "2"], ["9", "-12", "2/3"], ["6", "-8", "1"], ["0", "0", "1"]]


@st.composite
def bound(draw):
    if draw(st.integers(0, 2)) == 0:
        return list(draw(st.sampled_from(LITLIKE)))
    return [draw(gen.frac(-1, 5, (1, 1, 2, 3, 5))), draw(gen.frac(-8, 3, (1, 1, 1, 2, 3))),
            draw(gen.frac(-1, 2, (1, 1, 2, 3)))]


def bounds(lo=1, hi=4):
    return st.lists(bound(), min_size=lo, max_size=hi)


def value(bs, s, t):
    return max(F(b[0]) + F(b[1]) * s + F(b[2]) * t for b in bs)


def fr(bs):
    return [[F(x) for x in b] for b in bs]


YEARS = st.sampled_from(hyp.YEARS)


def make(bs, year, kind="LV", tag=""):
    """the Hypothesis object, as the literature module makes them"""
    if kind == "LV":
        if year == "classical":
            return lv.classical_LV_estimate(fr(bs))
        if year == "conj":
            return lv.conjectured_LV_estimate(fr(bs), "A conjecture")
        return lv.literature_bound_LV_max(fr(bs), hyp.ref(year), tag)
    return zlv.literature_bound_ZLV_Max(fr(bs), hyp.ref(year), tag)


def in_box(x, tlo=0, k=1):
    s, t, r = x
    return F(1, 2) <= s <= 1 and tlo <= t <= TMAX * k and 0 <= r <= RMAX * k


def member(bs, x, k=1):
    """(sigma, tau, rho) is allowed by the bound raised to the k-th power"""
    s, t, r = x
    return in_box(x, 0, k) and r <= k * value(bs, s, t / F(k))


def is_edge(bs, x, k=1):
    """x lies on the boundary of a halfspace used"""
    s, t, r = x
    return any(r == k * (F(b[0]) + F(b[1]) * s + F(b[2]) * t / k) for b in bs)
