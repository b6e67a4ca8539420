"""Large value energy regions."""
from fractions import Fraction as F
import itertools

from hypothesis import strategies as st

import gen
import geo
import hyp
import lvgen as g
from core import Test, expect
from lib import mod

ad = mod("additive_energy")
zlv, lv, R, P, H = g.zlv, g.lv, g.R, g.P, g.H
BIG = F(10) ** 6
INFO = {}

ROWS = [["0", "0", "0", "1", "-1", "1"], ["1", "-2", "0", "0", "-1/2", "1/2"], ["1", "0", "0", "2", "0", "-1"],
        ["0", "0", "1", "1", "0", "-1"], ["0", "0", "0", "3", "-1", "0"], ["1", "-2", "0", "2", "-1", "0"],
        ["2", "-2", "0", "-1", "0", "0"], ["4", "-6", "1", "-1", "0", "0"], ["0", "0", "1/2", "11/4", "-1", "0"],
        ["1", "-2", "1/4", "21/8", "-1", "0"], ["1", "-2", "0", "0", "0", "1"], ["0", "0", "0", "-4", "1", "0"]]


@st.composite
def half(draw):
    if draw(st.integers(0, 2)):
        return list(draw(st.sampled_from(ROWS)))
    return [draw(gen.frac(-1, 2, (1, 2))), draw(gen.frac(-2, 2, (1, 1, 2)))] + [draw(gen.frac(-2, 3, (1, 1, 2, 3))) for _ in range(4)]


def lver_rows():
    return st.lists(half(), min_size=1, max_size=3)


def box():
    out = []
    for i, (a, b) in enumerate([(F(1, 2), F(1)), (F(0), BIG), (F(0), BIG), (F(0), BIG), (F(0), BIG)]):
        out.append([-a] + [F(int(j == i)) for j in range(5)])
        out.append([b] + [F(-int(j == i)) for j in range(5)])
    return out


def val(r, x):
    return F(r[0]) + sum(F(c) * v for c, v in zip(r[1:], x))


def member(rows, x, k=F(1)):
    y = [x[0]] + [v / k for v in x[1:]]
    return all(val(b, y) >= 0 for b in box()) and any(val(r, y) >= 0 for r in rows)


def near(rows, x, k=F(1)):
    y = [x[0]] + [v / k for v in x[1:]]
    return any(val(r, y) == 0 for r in rows)


def make(rows, year, zeta=False, tag=""):
    reg = R.from_union_of_halfplanes([[F(c) for c in r] for r in rows], ad.Large_Value_Energy_Region.default_constraints())
    f = ad.literature_zeta_large_value_energy_region if zeta else ad.literature_large_value_energy_region
    return f(reg, hyp.ref(year), tag)


@st.composite
def s_pt(draw, rows, k=1):
    x = [F(draw(gen.frac(F(1, 2), 1, (2, 4, 10, 7)))), F(draw(gen.frac(0, 6, (1, 2, 3))))] + [F(draw(gen.frac(0, 4, (1, 2, 3)))) for _ in range(3)]
    m = draw(st.integers(0, 5))
    if m == 0:
        i = draw(st.integers(0, 4))
        x[i] = F(draw(st.sampled_from(["-1/7", "1000001", "3000000"])))
    elif m >= 2 and rows:
        r = draw(st.sampled_from(rows))
        js = [j for j in range(2, 5) if F(r[j + 1]) != 0]
        if js:
            j = draw(st.sampled_from(js))
            v = x[j] - val(r, x) / F(r[j + 1]) + F(draw(st.sampled_from(["0", "1/50", "-1/50", "1/3", "-1/3"])))
            if v >= 0:
                x[j] = v
    return [str(v) for v in x]


@st.composite
def s_one(draw):
    rows = draw(lver_rows())
    bs = draw(g.bounds(1, 2))
    return dict(rows=rows, bs=bs, k=draw(st.sampled_from(["1", "2", "3", "4", "3/2"])), zeta=draw(st.booleans()), ep=draw(hyp.pair()),
                year=draw(st.sampled_from(hyp.YEARS)),
                pts=draw(st.lists(s_pt(rows), min_size=4, max_size=8)), lpts=draw(st.lists(s_pt([b + ["-1", "0", "0"] for b in bs]), min_size=2, max_size=4)))


def ep_max(p, x):
    """the right side of the exponent pair relation for rho*"""
    k, l = p
    s, t, r, rs, _ = x
    d = 1 + 2 * k + 2 * l
    a = max(r + 1, F(5, 3) * r + t / 3, (2 + 3 * k + 4 * l) / d * r + (k + l) / d * t)
    b = max(rs + 1, 4 * r, F(3, 4) * rs + r + t / 2)
    return 1 - 2 * s + a / 2 + b / 2


def c_one(case, ctx):
    rows, k = case["rows"], F(case["k"])
    h = make(rows, case["year"], False)
    seen = set()
    for p in case["pts"]:
        x = [F(c) for c in p]
        w = member(rows, x)
        seen.add(w)
        expect(h.data.contains(x) == w and h.data.region.contains(x) == w, f"{rows}: {p} should be {w}")
    # raising to a power
    tr = ad.get_raise_to_power_hypothesis(int(k) if k.denominator == 1 else k)
    expect(tr.hypothesis_type == "Large value energy region transform", "type of the transform")
    hk = tr.data.transform(h)
    expect(hk.dependencies == {h} and hk.hypothesis_type == "Large value energy region" and hk.reference.year() == case["year"], "power")
    for p in case["pts"]:
        x = [F(c) for c in p]
        for y in (x, [x[0]] + [k * v for v in x[1:]]):
            w = member(rows, y, k)
            expect(hk.data.region.contains(y) == w, f"power {k} of {rows}: {[str(c) for c in y]} should be {w}")
    expect(h.data.region.contains([F(c) for c in case["pts"][0]]) == member(rows, [F(c) for c in case["pts"][0]]), "the original changed")
    S = H.Hypothesis_Set([h, tr])
    ad.expand_lver(S)
    lst = S.list_hypotheses(hypothesis_type="Large value energy region")
    expect(len(lst) == 2 and any(z is h for z in lst) and any(h in z.dependencies for z in lst), f"expanded to {lst}")
    # large value estimates
    zeta, bs = case["zeta"], case["bs"]
    est = g.make(bs, case["year"], "ZLV" if zeta else "LV")
    other = g.make([["5", "0", "0"]], case["year"], "LV" if zeta else "ZLV")
    out = ad.lv_to_lver(H.Hypothesis_Set([est, other]), zeta=zeta)
    expect(len(out) == 1 and out[0].dependencies == {est} and out[0].reference.year() == case["year"], "lifted estimates")
    expect(out[0].hypothesis_type == ("Zeta large" if zeta else "Large") + " value energy region", out[0].hypothesis_type)
    for p in case["lpts"]:
        x = [F(c) for c in p]
        w = g.member(bs, x[:3]) and all(0 <= v <= BIG for v in x[3:])
        seen.add(w)
        expect(out[0].data.region.contains(x) == w, f"{bs} lifted: {p} should be {w}")
    # exponent pairs
    e = hyp.ep_hyp(case["ep"], case["year"])
    pair = [F(c) for c in case["ep"]]
    z = ad.ep_to_lver(e)
    expect(z.dependencies == {e} and z.hypothesis_type == "Large value energy region" and z.reference.year() == case["year"], "exponent pair")
    for p in case["pts"] + case["lpts"]:
        x = [F(c) for c in p]
        if all(val(b, x) >= 0 for b in box()):
            # one point on each side of the relation, found by solving for rho* piece by piece
            lo, hi = F(0), BIG
            for rs in (x[3], ):
                w = rs <= ep_max(pair, [x[0], x[1], x[2], rs, x[4]])
                expect(z.data.region.contains(x) == w, f"exponent pair {case['ep']}: {p} should be {w}")
            # the right side minus rho* decreases in rho*: bisect
            for _ in range(30):
                m = (lo + hi) / 2
                if m <= ep_max(pair, [x[0], x[1], x[2], m, x[4]]):
                    lo = m
                else:
                    hi = m
            for rs, w in ((lo, True), (hi, hi > ep_max(pair, [x[0], x[1], x[2], hi, x[4]]) and False)):
                if rs == BIG and lo > BIG - 1:
                    continue
                expect(z.data.region.contains([x[0], x[1], x[2], rs, x[4]]) == w, f"exponent pair {case['ep']} at {p} with rho* = {rs}")
        else:
            expect(not z.data.region.contains(x), f"exponent pair {case['ep']}: {p} is outside the limits")
    ctx.nontrivial(len(seen) == 2 and k > 1)


# ------------------------------------------------------------------ best region and projections
@st.composite
def s_best(draw):
    n = draw(st.integers(1, 3))
    regs = [[draw(lver_rows()), draw(g.YEARS)] for _ in range(n)]
    zregs = draw(st.lists(st.tuples(lver_rows(), g.YEARS).map(list), max_size=1))
    ks = draw(st.sampled_from([[], [], ["2"], ["3/2"], ["2", "3"]])) if n < 3 else []
    if len(ks) == 2:
        regs = regs[:1]
    if draw(st.integers(0, 7)) == 0:      # nothing at all is left
        regs[draw(st.integers(0, len(regs) - 1))][0] = [draw(st.sampled_from([["-1", "0", "0", "-1", "0", "0"], ["-1/2", "0", "0", "0", "-1", "0"], ["-2", "1", "0", "0", "0", "-1"],
                                                                             ["-2", "1", "0", "-1", "0", "-1"], ["2", "-4", "0", "-1", "0", "0"]]))]
    s0 = F(draw(st.sampled_from(["1/2", "5/8", "7/10", "3/4"])))
    s1 = s0 + F(draw(st.sampled_from(["1/10", "1/4", "1/20"])))
    t0 = F(draw(st.sampled_from(["1", "3/2", "2", "2", "3"])))
    t1 = t0 + F(draw(st.sampled_from(["1/2", "1", "2"])))
    rows = [r for x in regs + zregs for r in x[0]]
    return dict(regs=regs, zregs=zregs, ks=ks, zeta=draw(st.booleans()), dom=[str(s0), str(s1), str(t0), str(t1)], tilt=draw(st.sampled_from(["0", "0", "1/2", "-1"])),
                pts=draw(st.lists(s_pt(rows), min_size=3, max_size=8)))


def poss(conss, dom, fixed, free):
    """sup over the free coordinates of the smallest slack: > 0 inside, < 0 outside, 0 on the boundary"""
    best = F(-1)
    base = [[F(c) for c in r] for r in box() + dom]
    for pick in itertools.product(*[range(len(rows)) for rows, k in conss]):
        H_ = []
        for r in base:
            H_.append(r)
        for (rows, k), i in zip(conss, pick):
            r = [F(c) for c in rows[i]]
            H_.append([r[0], r[1]] + [c / k for c in r[2:]])
            for b in box():
                H_.append([b[0], b[1]] + [c / k for c in b[2:]])
        red = []
        worst = F(1)
        for r in H_:
            c0 = r[0] + sum(r[j + 1] * fixed[j] for j in fixed)
            co = [r[j + 1] for j in free]
            if all(c == 0 for c in co):
                worst = min(worst, c0)
            else:
                red.append(([c0] + co + [F(-1)], False))
        if worst <= best:
            continue
        red = [(list(t), e) for t, e in {(tuple(a), e) for a, e in red}]
        red.append(([F(1)] + [F(0)] * len(free) + [F(-1)], False))
        red.append(([F(1)] + [F(0)] * len(free) + [F(1)], False))
        s, v, _ = geo.lp_max([F(0)] * (len(free) + 1) + [F(1)], red, len(free) + 1)
        if s == "opt":
            best = max(best, min(v, worst))
        if best > 0:
            return best
    return best


def c_best(case, ctx):
    hs = H.Hypothesis_Set()
    base = []
    for i, (rows, y) in enumerate(case["regs"]):
        h = make(rows, y, False, f" #{i}")
        base.append((h, rows))
        hs.add_hypothesis(h)
    zb = []
    for i, (rows, y) in enumerate(case["zregs"]):
        h = make(rows, y, True, f" #{i}")
        zb.append((h, rows))
        hs.add_hypothesis(h)
    ks = [F(k) for k in case["ks"]]
    for k in ks:
        hs.add_hypothesis(ad.get_raise_to_power_hypothesis(int(k) if k.denominator == 1 else k))
    zeta = case["zeta"]
    s0, s1, t0, t1 = (F(c) for c in case["dom"])
    m = F(case["tilt"])
    # t0 + m (sigma - s0) <= tau <= t1 + m (sigma - s0)
    drows = [[-s0, 1, 0], [s1, -1, 0], [-t0 + m * s0, -m, 1], [t1 - m * s0, m, -1]]
    dom = R.from_polytope(P([[F(c) for c in r] for r in drows]))
    dom5 = [[F(c) for c in r] + [F(0)] * 3 for r in drows]
    conss = [(rows, k) for _, rows in base for k in [F(1)] + ks] + ([(rows, F(1)) for _, rows in zb] if zeta else [])
    n0 = len(hs)
    best = ad.compute_best_lver(hs, dom, zeta=zeta)
    expect(len(hs) == n0, "the hypothesis set changed")
    expect(best.hypothesis_type == ("Zeta large" if zeta else "Large") + " value energy region", "type")
    flat = set()
    for d in best.dependencies:
        flat |= {d} if any(d is h for h, _ in base + zb) else set(d.dependencies)
    want = {h for h, _ in base} | ({h for h, _ in zb} if zeta else set())
    expect(flat == want and len(best.dependencies) == len(conss), f"depends on {flat}, assumed {want}")
    expect(best.reference.year() == max(h.reference.year() for h in want), "year")
    seen = set()
    pts = [[F(c) for c in p] for p in case["pts"]]
    for i, x in enumerate(pts):       # move the probes into the domain
        a = F(i + 1, len(pts) + 2)
        if i % 4 != 3:
            x[0] = s0 + (s1 - s0) * a
            x[1] = t0 + m * (x[0] - s0) + (t1 - t0) * F((5 * i + 2) % 11 + 1, 13)
        v = poss(conss, dom5, dict(enumerate(x)), [])
        if v == 0:
            continue
        seen.add(v > 0)
        expect(best.data.region.contains(x) == (v > 0), f"{[str(c) for c in x]} should be {v > 0}")
    for name, keep in (("lv", (0, 1, 2)), ("energy", (0, 1, 3)), ("star", (0, 1, 3))):
        if name == "lv":
            pr = ad.lver_to_lv(best)
            kind = ("Zeta l" if zeta else "L") + "arge value estimate"
        elif name == "energy":
            pr = ad.lver_to_energy(best)
            kind = "Additive energy estimate"
        else:
            pr = ad.compute_LV_star(hs, dom, debug=False, zeta=zeta)
            kind = ("Zeta l" if zeta else "L") + "arge value energy region"
        if pr is not None:
            expect(pr.hypothesis_type == kind, f"{pr.hypothesis_type} instead of {kind}")
            expect(pr.dependencies == {best} if name != "star" else len(pr.dependencies) == len(conss), "dependencies of a projection")
            expect(pr.reference.year() == best.reference.year(), "year of a projection")
        free = [j for j in range(5) if j not in keep]
        for x in pts:
            v = poss(conss, dom5, {j: x[j] for j in keep}, free)
            if v == 0:
                continue
            got = pr is not None and pr.data.region.contains([x[j] for j in keep])
            expect(got == (v > 0), f"projection {name}: {[str(x[j]) for j in keep]} should be {v > 0}")
            if name == "lv":
                seen.add((v > 0,))
    ctx.nontrivial(len(seen) > 2 and len(conss) > 1)
    ctx.event("zeta" if zeta else "general")
    if pr is None:
        ctx.event("nothing left")


TESTS = [
    Test("single", s_one, c_one, 200, 3000, 4,
         "one region of 1-3 halfspaces in (sigma, tau, rho, rho*, s), one power, one lifted estimate, one exponent pair; probes on, next to "
         "and far from the boundaries; non-trivial with k > 1 and both answers"),
    Test("best", s_best, c_best, 80, 1200, 7,
         "1-3 regions, 0-1 zeta regions, powers, a (tilted) box of (sigma, tau); membership and projections decided by exact linear programs; "
         "non-trivial with two constraints and both answers"),
]
