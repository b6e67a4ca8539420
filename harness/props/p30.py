"""Zero density and energy estimates from large value estimates, end to end."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import hyp
import lvgen as g
from core import Test, expect
from hyp import bm
from lib import mod
from props.p29 import num, same, value_at

fn = mod("functions")
zd = mod("zero_density_estimate")
ze = mod("zero_density_energy_estimate")
ad = mod("additive_energy")
zlv, lv, R, P, H = g.zlv, g.lv, g.R, g.P, g.H


# ------------------------------------------------------------------ reference: sup over tau of f(tau)/tau, f = min of maxima of lines
def lines_of(bs, s, k=F(1)):
    return [(k * (F(b[0]) + F(b[1]) * s), F(b[2])) for b in bs]


def sup_over(groups, cuts, a, b):
    """groups: list of lists of lines (c, m) meaning f <= max(c + m tau); cuts: list of (lo, hi, thresholds c, m): on lo < tau < hi
    f = 0 at most where c + m tau < 0.  Returns the sup of f/tau over feasible tau in [a, b] (f >= 0), None if infeasible."""
    if a >= b:
        return None
    T = {a, b}
    flat = [l for gr in groups for l in gr] + [(F(0), F(0)), (F(10) ** 6, F(0))]
    for i in range(len(flat)):
        for j in range(i):
            (c1, m1), (c2, m2) = flat[i], flat[j]
            if m1 != m2:
                T.add((c2 - c1) / (m1 - m2))
    for lo, hi, c, m in cuts:
        T |= {lo, hi}
        if m != 0:
            T.add(-c / m)
    T = sorted(t for t in T if a <= t <= b)
    best = None
    for x, y in zip(T, T[1:]):
        mid = (x + y) / 2
        gs = groups + [[(F(10) ** 6, F(0))]]
        f = min((max(gr, key=lambda l: l[0] + l[1] * mid) for gr in gs), key=lambda l: l[0] + l[1] * mid)
        if f[0] + f[1] * mid < 0:
            continue
        v = max(f[0] / x + f[1], f[0] / y + f[1])
        if any(lo < mid < hi and c + m * mid < 0 for lo, hi, c, m in cuts):
            v = F(0)
        best = v if best is None or v > best else best
    return best


@st.composite
def s_zd(draw, two=False):
    lvs = draw(st.lists(st.tuples(g.bounds(1, 3), g.YEARS).map(list), min_size=1, max_size=3))
    zs = draw(st.lists(st.tuples(g.bounds(1, 2), g.YEARS).map(list), max_size=2))
    mus = [[draw(gen.frac(F(1, 2), F(9, 10), (2, 4, 10, 7))), draw(gen.frac(0, F(1, 4), (6, 12, 20)))] for _ in range(draw(st.integers(0, 2)))]
    ks = draw(st.sampled_from([[], [], [2], [2, 3]]))
    s0 = F(draw(st.sampled_from(["1/2", "5/8", "7/10", "3/4"])))
    s1 = s0 + F(draw(st.sampled_from(["1/10", "1/4", "1/20"])))
    if two:
        c, m = draw(st.sampled_from([["2", "-1"], ["-1", "3"], ["-4", "8"], ["2", "0"], ["3", "0"], ["3/2", "1/2"], ["4", "-2"]]))
        t0 = [c, m]
    else:
        t0 = draw(st.sampled_from(["2", "5/2", "3", "4", "9/4"]))
    return dict(lvs=lvs, zs=zs, mus=mus, ks=ks, iv=[str(s0), str(s1)], t0=t0, at=draw(st.lists(st.integers(1, 96), min_size=2, max_size=5)))


def setup(case):
    hs = H.Hypothesis_Set()
    for i, (bs, y) in enumerate(case["lvs"]):
        hs.add_hypothesis(g.make(bs, y, "LV", f" #{i}"))
    for k in case["ks"]:
        hs.add_hypothesis(lv.raise_to_power_hypothesis(k))
    for i, (bs, y) in enumerate(case["zs"]):
        hs.add_hypothesis(g.make(bs, y, "ZLV", f" #{i}"))
    if case["mus"]:
        T = H.Hypothesis_Set([bm.literature_bound_mu(F(a), F(b), hyp.ref(1920)) for a, b in case["mus"]])
        hs.add_hypotheses(zlv.mu_to_zlv(T))
    return hs


def wants(case, s, r1, r2):
    """suprema over the general and the zeta range"""
    G = [lines_of(bs, s, F(k)) for bs, _ in case["lvs"] for k in [1] + case["ks"]]
    Z = G + [lines_of(bs, s) for bs, _ in case["zs"]]
    cuts = []
    for a, b in case["mus"]:
        # rho > 0 only if sigma <= sigma0 + tau mu0; in any case rho <= tau
        cuts.append((F(2), F(10) ** 7, F(a) - s, F(b)))
        Z = Z + [[(F(0), F(1))]]
    return sup_over(G, [], *r1), sup_over(Z, cuts, *r2)


def both(a, b):
    return a if b is None else b if a is None else max(a, b)


def c_zd(case, ctx, two=False):
    hs = setup(case)
    s0, s1 = (F(c) for c in case["iv"])
    I = fn.Interval(s0, s1)
    if two:
        c, m = (F(v) for v in case["t0"])
        out = zd.lv_zlv_to_zd2(hs, I, fn.Affine(m, c, I))
    else:
        t0 = F(case["t0"])
        out = zd.lv_zlv_to_zd(hs, I, t0)
    ys = [y for _, y in case["lvs"] + case["zs"]] + ([1920] if case["mus"] else [])
    for h in out:
        expect(h.hypothesis_type == "Zero density estimate" and len(h.dependencies) >= 1, "type and dependencies")
        expect({d.hypothesis_type for d in h.dependencies} <= {"Large value estimate", "Zeta large value estimate"}, "dependencies")
        expect(h.reference.year() <= max(ys), f"year {h.reference.year()} from {ys}")
    pieces = [(h.data, h.data.interval) for h in out]
    expect(pieces[0][1].x0 == s0 and pieces[-1][1].x1 == s1, "the pieces do not fill the interval")
    kinds = set()
    need = {"general": "Large value estimate", "zeta": "Zeta large value estimate"}
    for k in case["at"]:
        s = s0 + (s1 - s0) * F(k, 97)
        if two:
            t = c + m * s
            r1, r2 = (F(2, 3) * t, t), (F(2), F(4, 3) * t)
        else:
            r1, r2 = (t0, 2 * t0), (F(2), t0)
        a, b = wants(case, s, r1, r2)
        want = both(a, b)
        got = value_at(pieces, s)
        if got == "end":
            continue
        expect(got is not None, f"no value at {s}")
        expect(got <= 0 if want is None or want <= 0 else same(got, want), f"sup rho/tau at sigma = {s} is {want} (general {a}, zeta {b}), computed {got}")
        kind = "none" if want is None or want <= 0 else "general" if b is None or want > b else "zeta" if a is None or want > a else "both"
        kinds.add(kind)
        if kind in need:
            h = next(h for h in out if h.data.interval.x0 <= s <= h.data.interval.x1 and h.data.interval.x0 < h.data.interval.x1)
            expect(any(d.hypothesis_type == need[kind] for d in h.dependencies), f"the {kind} supremum decides at sigma = {s}, but the dependencies are {h.dependencies}")
    for k in kinds:
        ctx.event(k)
    ctx.nontrivial(bool(kinds - {"none"}))


# ------------------------------------------------------------------ additive energy
@st.composite
def s_en(draw):
    from props import p28
    case = draw(p28.s_best())
    case["regs"] = case["regs"][:2]
    if len(case["regs"]) == 2:
        case["ks"] = case["ks"][:1]
    case["t0"] = draw(st.sampled_from([["2", "0"], ["3", "0"], ["2", "-1"], ["4", "-2"], ["0", "3"], ["1", "2"], ["3/2", "0"]]))
    case["at"] = draw(st.lists(st.integers(1, 96), min_size=2, max_size=4))
    return case


def c_en(case, ctx):
    from props import p28
    from props.p29 import lver_sup
    hs = H.Hypothesis_Set()
    gc = []
    for i, (rows, y) in enumerate(case["regs"]):
        hs.add_hypothesis(p28.make(rows, y, False, f" #{i}"))
        gc.append((rows, F(1)))
    n = len(gc)
    for k in case["ks"]:
        k = F(k)
        hs.add_hypothesis(ad.get_raise_to_power_hypothesis(int(k) if k.denominator == 1 else k))
        gc += [(rows, k) for rows, _ in gc[:n]]
    zc = list(gc)
    for i, (rows, y) in enumerate(case["zregs"]):
        hs.add_hypothesis(p28.make(rows, y, True, f" #{i}"))
        zc.append((rows, F(1)))
    s0, s1 = (F(c) for c in case["dom"][:2])
    s1 = min(s1, F(99, 100))
    c, m = (F(v) for v in case["t0"])
    I = fn.Interval(s0, s1)
    out = ze.lver_to_energy_bound(hs, fn.Affine(m, c, I))
    for h in out:
        expect(h.hypothesis_type == "Zero density energy estimate", h.hypothesis_type)
        expect({d.hypothesis_type for d in h.dependencies} <= {"Additive energy estimate"}, "dependencies")
        expect(f"{len(gc)} large value energy region" in h.proof and f"{len(zc)} zeta large value energy region" in h.proof, h.proof)
    pieces = [(h.data, h.data.interval) for h in out]
    expect(pieces[0][1].x0 == s0 and pieces[-1][1].x1 == s1, "the pieces do not fill the interval")
    pos = False
    for k in case["at"]:
        s = s0 + (s1 - s0) * F(k, 97)
        d1 = [[-s0, 1, 0], [s1, -1, 0], [-c, -m, 1], [2 * c, 2 * m, -1]]
        d2 = [[-s0, 1, 0], [s1, -1, 0], [-2, 0, 1], [c, m, -1]]
        a, b = lver_sup(gc, d1, s, 3), lver_sup(zc, d2, s, 3)
        want = both(a, b)
        got = value_at(pieces, s)
        if got == "end":
            continue
        expect(got is not None, f"no value at {s}")
        w = None if want is None else want / (1 - s)
        expect(got <= 0 if w is None or w <= 0 else same(got, w), f"the bound on A*({s}) is {w}, computed {got}")
        pos = pos or (w is not None and w > 0)
        if w is not None and w > 0 and a != b:
            # the region whose supremum decides must be among the sources
            kind = "Large value energy region" if b is None or (a is not None and a > b) else "Zeta large value energy region"
            h = next(h for h in out if h.data.interval.x0 <= s <= h.data.interval.x1 and h.data.interval.x0 < h.data.interval.x1)
            expect(any(e.hypothesis_type == kind for d in h.dependencies for e in d.dependencies), f"the supremum at sigma = {s} comes from the {kind.lower()}, which is not a source")
            ctx.event(kind)
    ctx.nontrivial(pos)


TESTS = [
    Test("one_tau0", lambda: s_zd(), lambda c, x: c_zd(c, x), 110, 1500, 3,
         "1-3 large value estimates with powers, 0-2 zeta estimates, 0-2 bounds on mu, tau0 constant; suprema over tau computed from the "
         "breakpoints of the min-max of lines; non-trivial when some supremum is positive"),
    Test("affine_tau0", lambda: s_zd(True), lambda c, x: c_zd(c, x, True), 110, 1500, 3, "the same with tau0 affine in sigma and the ranges [2/3 tau0, tau0], [2, 4/3 tau0]"),
    Test("energy", s_en, c_en, 50, 800, 4, "1-2 large value energy regions, powers, a zeta region, tau0 affine; exact linear programs; non-trivial when positive"),
]
