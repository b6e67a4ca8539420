"""sup of rho/tau over feasible regions."""
from fractions import Fraction as F

from hypothesis import strategies as st
import sympy

import gen
import geo
import hyp
import lvgen as g
from core import Discard, Test, expect
from lib import mod

fn = mod("functions")
zd = mod("zero_density_estimate")
ze = mod("zero_density_energy_estimate")
ad = mod("additive_energy")
R, P, H, RT = g.R, g.P, g.H, g.RT


def frac_sup(rows, sigma, n):
    """sup of x[num]/tau over a closed polyhedron in (sigma, tau, x_2, ..., x_n) at fixed sigma, for each num = 2..: an exact
    linear program after dividing by tau.  None when the slice is empty."""
    # variables y = (x_2..x_n)/tau, t = 1/tau
    def f(j):
        red = []
        for r in rows:
            c = F(r[0]) + F(r[1]) * sigma
            red.append(([F(r[2])] + [F(v) for v in r[3:]] + [c], False))
        red.append(([F(0)] * (n - 1) + [F(1)], False))
        obj = [F(0)] * n
        obj[j - 1] = F(1)
        s, v, x = geo.lp_max(obj, red, n - 1)
        return v if s == "opt" else None
    return f


def num(v):
    v = sympy.sympify(v)
    return F(int(v.p), int(v.q)) if v.is_Rational else F(str(v.evalf(40)))


def value_at(sup, s):
    """value of a piecewise function (list of (function, interval, ...)) at s; None off its pieces; 'end' at a breakpoint"""
    for p in sup:
        if s in (p[1].x0, p[1].x1):
            return "end"
    for p in sup:
        if p[1].x0 < s < p[1].x1:
            return num(p[0].at(s))
    return None


def same(got, want):
    """got: number; want: Fraction or None (nothing feasible)"""
    if want is None:
        return got <= 0
    if isinstance(got, F) and got == want:
        return True
    return abs(float(got) - float(want)) <= 1e-9 * max(1.0, abs(float(want)))


@st.composite
def s_sup(draw):
    polys = []
    for _ in range(draw(st.integers(1, 4))):
        a = F(draw(gen.frac(F(1, 2), F(9, 10), (2, 4, 10, 7))))
        b = a + F(draw(st.sampled_from(["1/20", "1/10", "1/4", "1/3", "1/700", "1/3000"])))
        c = F(draw(gen.frac(F(1, 2), 3, (1, 2, 3))))
        d = c + F(draw(st.sampled_from(["1/3", "1", "2"])))
        e = F(draw(st.sampled_from(["0", "0", "-1", "1/2"])))
        f = e + F(draw(st.sampled_from(["1/2", "2", "5"])))
        rows = [[-a, 1, 0, 0], [b, -1, 0, 0], [-c, 0, 1, 0], [d, 0, -1, 0], [-e, 0, 0, 1], [f, 0, 0, -1]]
        rows = [[str(F(v)) for v in r] for r in rows]
        for _ in range(draw(st.integers(0, 3))):
            # a halfspace through a point of the box
            q = [a + (b - a) * F(draw(st.integers(1, 7)), 8), c + (d - c) * F(draw(st.integers(0, 7)), 8), e + (f - e) * F(draw(st.integers(1, 7)), 8)]
            n = [draw(st.sampled_from(["0", "1", "-2", "4", "-4", "6"])), draw(st.sampled_from(["0", "1", "-1", "1/3"])),
                 draw(st.sampled_from(["-1", "-1", "1", "0", "-3"]))]
            rows.append([str(-sum(F(u) * v for u, v in zip(n, q)))] + n)
        polys.append(rows)
    lo = F(draw(gen.frac(F(1, 2), F(4, 5), (2, 4, 10))))
    return dict(polys=polys, iv=[str(lo), str(lo + F(draw(st.sampled_from(["1/10", "1/4", "1/2"]))))],
                at=draw(st.lists(st.integers(1, 996), min_size=4, max_size=8)))


def c_sup(case, ctx):
    ps, specs = [], []
    for rows in case["polys"]:
        Hs = [([F(c) for c in r], False) for r in rows]
        if geo.interior_point(Hs, 3) is None:
            continue
        specs.append([[F(c) for c in r] for r in rows])
        ps.append(P([[F(c) for c in r] for r in rows]))
    if not ps:
        raise Discard()
    lo, hi = (F(c) for c in case["iv"])
    I = fn.Interval(lo, hi)
    outs = [zd.compute_sup_rho_on_tau(ps, I), ze.compute_sup_LV_on_tau(R.disjoint_union([R.from_polytope(p) for p in ps]), I)]
    kinds = set()
    for out in outs:
        expect(out[0][1].x0 == lo and out[-1][1].x1 == hi, "the pieces do not fill the interval")
        for p, q in zip(out, out[1:]):
            expect(p[1].x1 == q[1].x0, "pieces out of order")
        for k in case["at"]:
            s = lo + (hi - lo) * F(k, 997)
            if k % 2:   # over one of the polytopes, however narrow
                r = specs[k % len(specs)]
                s = -r[0][0] + (r[1][0] + r[0][0]) * F(k, 997)
                if not lo < s < hi:
                    continue
            vals = [frac_sup(r, s, 3)(2) for r in specs]
            vals = [v for v in vals if v is not None]
            want = max(vals) if vals else None
            got = value_at(out, s)
            if got == "end":
                continue
            expect(got is not None, f"no value at {s}")
            if want is None:
                expect(got <= -1000, f"value {got} at {s}, where nothing is feasible")
                kinds.add("none")
            else:
                kinds.add("some")
                expect(same(got, want), f"sup rho/tau at sigma = {s} is {want}, computed {got}")
    ctx.nontrivial(len(ps) > 1 and "some" in kinds)
    ctx.event("gaps" if "none" in kinds else "full")


# ------------------------------------------------------------------ regions given by linear relations in five variables
@st.composite
def s_lver(draw):
    from props import p28
    case = draw(p28.s_best())
    case["at"] = draw(st.lists(st.integers(1, 96), min_size=2, max_size=4))
    case["which"] = draw(st.sampled_from(["both", "both", "general", "zeta"]))
    return case


def c_lver(case, ctx):
    from props import p28
    hs = H.Hypothesis_Set()
    gen_c, all_c = [], []
    for i, (rows, y) in enumerate(case["regs"]):
        hs.add_hypothesis(p28.make(rows, y, False, f" #{i}"))
        gen_c.append((rows, F(1)))
    for k in case["ks"]:
        k = F(k)
        hs.add_hypothesis(ad.get_raise_to_power_hypothesis(int(k) if k.denominator == 1 else k))
        gen_c += [(rows, k) for rows, _ in gen_c[:len(case["regs"])]]
    all_c = list(gen_c)
    for i, (rows, y) in enumerate(case["zregs"]):
        hs.add_hypothesis(p28.make(rows, y, True, f" #{i}"))
        all_c.append((rows, F(1)))
    s0, s1, t0, t1 = (F(c) for c in case["dom"])
    d1 = [[-s0, 1, 0], [s1, -1, 0], [-t0, 0, 1], [t1, 0, -1]]
    d2 = [[-s0, 1, 0], [s1, -1, 0], [-F(2), 0, 1], [F(3), 0, -1]]
    a = ad.compute_best_lver(hs, R.from_polytope(P([[F(c) for c in r] for r in d1]))) if case["which"] != "zeta" else None
    b = ad.compute_best_lver(hs, R.from_polytope(P([[F(c) for c in r] for r in d2])), zeta=True) if case["which"] != "general" else None
    I = fn.Interval(s0, s1)
    out = zd.lver_to_zd(a, b, I)
    n = [len(a.dependencies) if a else 0, len(b.dependencies) if b else 0]
    kinds = set()
    for h in out:
        expect(h.hypothesis_type == "Zero density estimate", "type")
        expect(h.dependencies == (a.dependencies if a else set()) | (b.dependencies if b else set()), "dependencies")
        expect(f"{n[0]} large value energy region" in h.proof and f"{n[1]} zeta large value energy region" in h.proof, f"proof reads: {h.proof}")
    pieces = [(h.data, h.data.interval) for h in out]
    for k in case["at"]:
        s = s0 + (s1 - s0) * F(k, 97)
        want = None
        for hyp_, cons, dom in ((a, gen_c, d1), (b, all_c, d2)):
            if hyp_ is not None:
                v = lver_sup(cons, dom, s, 2)
                if v is not None and (want is None or v > want):
                    want = v
        got = value_at(pieces, s)
        if got == "end":
            continue
        expect(got is not None, f"no value at {s}")
        expect(same(got, want), f"sup rho/tau at sigma = {s} is {want}, computed {got}")
        kinds.add(want is not None and want > 0)
    ctx.nontrivial(True in kinds)


def lver_sup(cons, dom, s, j):
    """sup of x_j / tau over the union of all choices of one halfspace per region, at sigma = s"""
    import itertools
    from props import p28
    base = p28.box() + [[F(c) for c in r] + [F(0)] * 3 for r in dom]
    best = None
    for pick in itertools.product(*[range(len(rows)) for rows, k in cons]):
        rr = [list(r) for r in base]
        for (rows, k), i in zip(cons, pick):
            r = [F(c) for c in rows[i]]
            rr.append([r[0], r[1]] + [c / k for c in r[2:]])
        for k in {k for _, k in cons}:
            rr += [[b[0], b[1]] + [c / k for c in b[2:]] for b in p28.box()]
        # ignore choices without interior (they are dropped, and covered by the boundary of others)
        v = frac_sup(rr, s, 5)(j)
        if v is not None and (best is None or v > best):
            if geo.interior_point([(r, False) for r in rr], 5) is not None:
                best = v
    return best


TESTS = [
    Test("sup", s_sup, c_sup, 120, 2500, 4,
         "1-4 polytopes in (sigma, tau, rho), exact fractional linear programs at 4-8 values of sigma; non-trivial with two polytopes and a value"),
    Test("regions", s_lver, c_lver, 30, 600, 7,
         "large value energy regions as in P28 fed to lver_to_zd; non-trivial when some supremum is positive"),
]
