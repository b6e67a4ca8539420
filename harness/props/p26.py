"""Large value estimates: regions, transforms and their best combination."""
import re
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
import hyp
import lvgen as g
from core import Test, expect
from lib import mod

zd = mod("zero_density_estimate")
lv, zlv, R, P, H = g.lv, g.zlv, g.R, g.P, g.H


@st.composite
def s_pt(draw, bs):
    s = F(draw(gen.frac(F(1, 2), 1, (2, 4, 6, 7, 10, 20, 25))))
    t = F(draw(gen.frac(0, 8, (1, 1, 2, 3, 5))))
    k = draw(st.integers(0, 5))
    if k == 0:
        return [str(s), str(t), draw(gen.frac(-1, 8, (1, 2, 3, 7)))]
    if k == 1:   # outside the box
        i = draw(st.integers(0, 2))
        x = [s, t, F(0)]
        x[i] = F(draw(st.sampled_from([["1/3", "9/8", "49/100"], ["-1", "1000001", "-1/100"], ["-1/9", "1000001", "-3"]][i])))
        return [str(v) for v in x]
    b = draw(st.sampled_from(bs))
    v = F(b[0]) + F(b[1]) * s + F(b[2]) * t
    d = F(draw(st.sampled_from(["0", "0", "1/1000", "-1/1000", "1/3", "-1/2"])))
    return [str(s), str(t), str(v + d)]


@st.composite
def s_est(draw):
    bs = draw(g.bounds(1, 6))
    return dict(bounds=bs, kind=draw(st.sampled_from(["LV", "LV", "ZLV"])), year=draw(st.sampled_from([1969, 2024, "classical", "conj"])),
                pts=draw(st.lists(s_pt(bs), min_size=4, max_size=12)), tag=draw(st.sampled_from(["", " with k = 3"])))


def ev(expr, s, t):
    e = re.sub(r"([0-9/]+)([στ])", r"(\1)*\2", expr)
    e = re.sub(r"(\d+)(/\d+)?", lambda m: f"F('{m.group(0)}')", e)
    return eval(e, {"F": F, "σ": s, "τ": t, "max": max})


def c_est(case, ctx):
    bs = case["bounds"]
    year = case["year"] if case["kind"] == "LV" else 2001
    h = g.make(bs, year, case["kind"], case["tag"])
    want_type = "Large value estimate" if case["kind"] == "LV" else "Zeta large value estimate"
    expect(h.hypothesis_type == want_type, f"type {h.hypothesis_type}")
    expect(not h.dependencies, "a literature estimate has dependencies")
    r = h.reference
    if year == "classical":
        expect(r.is_classical(), "not classical")
    elif year == "conj":
        expect(r.is_conjectured() and h.name == "A conjecture", "not a conjecture")
    else:
        expect(r.year() == year and h.name.endswith(case["tag"]) and "Someone" in h.name, f"{h.name}, {r.year()}")
    seen = set()
    for p in case["pts"]:
        x = [F(c) for c in p]
        w = g.member(bs, x)
        seen.add(w)
        expect(h.data.region.contains(x) == w, f"{bs}: {p} {'should' if w else 'should not'} be allowed")
    m = re.fullmatch(r"ρ <= (.*)", repr(h.data))
    expect(m is not None, f"printed as {h.data}")
    for p in case["pts"][:3]:
        s, t = F(p[0]), F(p[1])
        expect(ev(m.group(1), s, t) == g.value(bs, s, t), f"{bs} is printed as {h.data}")
    ctx.nontrivial(len(seen) == 2 and len(bs) > 1)


@st.composite
def s_pow(draw):
    bs = draw(g.bounds(1, 3))
    return dict(bounds=bs, ks=draw(st.lists(st.sampled_from(["1", "2", "3", "4", "7", "3/2"]), min_size=1, max_size=2)),
                pts=draw(st.lists(s_pt(bs), min_size=4, max_size=10)), year=draw(g.YEARS))


def c_pow(case, ctx):
    bs = case["bounds"]
    h = g.make(bs, case["year"])
    base = [[F(c) for c in p] for p in case["pts"]]
    before = [h.data.region.contains(x) for x in base]
    k, cur = F(1), h
    for ks in case["ks"]:
        tr = lv.raise_to_power_hypothesis(int(ks) if "/" not in ks else F(ks))
        expect(tr.hypothesis_type == "Large value estimate transform" and str(F(ks)) in tr.name, f"{tr.name}")
        new = tr.data.transform(cur)
        expect(new.dependencies == {cur} and new.hypothesis_type == "Large value estimate", "dependencies of a power")
        expect(new.reference.year() == case["year"], f"year {new.reference.year()}")
        k, cur = k * F(ks), new
    seen = set()
    for x, b in zip(base, before):
        y = [x[0], x[1] * k, x[2] * k]
        w = g.member(bs, y, k)
        seen.add(w)
        expect(cur.data.region.contains(y) == w, f"power {k} of {bs} at {y}: {not w}")
        z = [x[0], x[1], x[2]]
        expect(cur.data.region.contains(z) == g.member(bs, z, k), f"power {k} of {bs} at {z}")
        expect(h.data.region.contains(x) == b, "the original was changed")
    ctx.nontrivial(k > 1 and len(seen) == 2)


@st.composite
def s_set(draw, zeta=None):
    z = draw(st.booleans()) if zeta is None else zeta
    lvs = draw(st.lists(st.tuples(g.bounds(1, 3), g.YEARS).map(list), min_size=0 if z else 1, max_size=3))
    ks = draw(st.lists(st.sampled_from([2, 3]), max_size=2, unique=True))
    if lvs and draw(st.integers(0, 3)) == 0:
        # a second estimate that differs from the first in one bound only
        bs = [list(b) for b in (lvs[0][0] + draw(g.bounds(1, 2)))[:4]]
        if draw(st.booleans()):
            # lines in tau crossing inside the domain, each the largest somewhere
            m, c, t = F(draw(st.sampled_from(["-1", "0"]))), F(draw(st.sampled_from(["2", "3"]))), F(draw(st.sampled_from(["2", "9/4", "3"])))
            bs, sl = [], draw(st.sampled_from(["-2", "0", "-1"]))
            for _ in range(draw(st.integers(2, 4))):
                bs.append([str(c), sl, str(m)])
                d = F(draw(st.sampled_from(["1/2", "1", "1/3"])))
                m, c = m + d, c - d * t
                t += F(draw(st.sampled_from(["1/4", "1/2", "1/3"])))
        lvs[0] = [[list(b) for b in bs], lvs[0][1]]
        i, j = draw(st.sampled_from([0, len(bs) - 1, len(bs) - 1, len(bs) // 2])), draw(st.integers(0, 2))
        bs[i][j] = str(F(bs[i][j]) + F(draw(st.sampled_from(["1/10", "-1/10", "1", "-1/1000"]))))
        lvs = [lvs[0], [bs, draw(g.YEARS)]]
    zs = draw(st.lists(st.tuples(g.bounds(1, 3), g.YEARS).map(list), min_size=0 if lvs else 1, max_size=2)) if z or draw(st.booleans()) else []
    s0 = F(draw(st.sampled_from(["1/2", "5/8", "7/10", "3/4"])))
    s1 = s0 + F(draw(st.sampled_from(["1/10", "1/4", "1/20"])))
    t0 = F(draw(st.sampled_from(["1", "3/2", "2", "2", "3"])))
    t1 = t0 + F(draw(st.sampled_from(["1/2", "1", "2", "3"])))
    rmax = draw(st.sampled_from(["3", "1000000"]))
    allb = [b for l in lvs + zs for b in l[0]]
    return dict(lvs=lvs, ks=ks, zs=zs, zeta=z, dom=[str(s0), str(s1), str(t0), str(t1), rmax],
                pts=draw(st.lists(s_pt(allb), max_size=6)), copyz=draw(st.booleans()))


def hyps_of(case):
    """[(hypothesis, bounds, power, kind)] assumed, and the set"""
    hs = H.Hypothesis_Set()
    out = []
    for i, (bs, y) in enumerate(case["lvs"]):
        h = g.make(bs, y, "LV", f" #{i}")
        hs.add_hypothesis(h)
        out.append((h, bs, "LV"))
    for k in case["ks"]:
        hs.add_hypothesis(lv.raise_to_power_hypothesis(k))
    for i, (bs, y) in enumerate(case["zs"]):
        h = g.make(bs, y, "ZLV", f" #{i}")
        hs.add_hypothesis(h)
        out.append((h, bs, "ZLV"))
    return hs, out


def probes(case, cons):
    """points on a grid of the domain at heights just around every bound and between them"""
    s0, s1, t0, t1, rm = (F(x) for x in case["dom"])
    pts = [[F(c) for c in p] for p in case["pts"]]
    for a in (F(1, 7), F(3, 5), F(12, 13)):
        for b in (F(1, 11), F(1, 2) + F(1, 97), F(9, 10)):
            s, t = s0 + a * (s1 - s0), t0 + b * (t1 - t0)
            vs = sorted({F(0), min(rm, F(9))} | {k * (F(q[0]) + F(q[1]) * s + F(q[2]) * t / k) for bs, k in cons for q in bs})
            vs = [v for v in vs if 0 <= v <= rm]
            for v, w in zip(vs, vs[1:]):
                pts.append([s, t, (v + w) / 2])
    return pts


def c_region(case, ctx):
    hs, base = hyps_of(case)
    zeta = case["zeta"]
    s0, s1, t0, t1, rm = (F(x) for x in case["dom"])
    cons = []
    for h, bs, kind in base:
        if kind == "LV":
            cons += [(bs, F(k)) for k in [1] + case["ks"]]
        elif zeta:
            cons.append((bs, F(1)))
    dom = R.from_polytope(P.rect((s0, s1), (t0, t1), (F(0), rm)))
    n0 = len(hs)
    out = zd.compute_large_value_region(hs, dom, zeta=zeta)
    expect(len(hs) == n0, "the hypothesis set was changed")
    want_type = ("Zeta l" if zeta else "L") + "arge value estimate"
    expect(out.hypothesis_type == want_type, f"type {out.hypothesis_type}")
    mine = {id(h): (bs, kind) for h, bs, kind in base}
    depcons = []
    for d in out.dependencies:
        if id(d) in mine:
            bs, kind = mine[id(d)]
            k = F(1)
        else:
            sub = list(d.dependencies)
            m = re.search(r"the k = (\S+) power", d.proof)
            expect(len(sub) == 1 and id(sub[0]) in mine and m, f"unexpected dependency {d.desc()[:200]}")
            (bs, kind), k = mine[id(sub[0])], F(m.group(1))
            expect(k in case["ks"] and kind == "LV", f"unexpected power {k}")
        expect(kind == "LV" or zeta, "a zeta large value estimate was used for general Dirichlet polynomials")
        depcons.append((bs, k))
    ys = [d.reference.year() for d in out.dependencies]
    expect(out.reference.year() == (max(ys) if ys else -1), f"year {out.reference.year()}")
    seen = set()
    for x in probes(case, cons):
        s, t, r = x
        edges = [s in (s0, s1, F(1, 2), 1), t in (t0, t1, 0), r in (0, rm)]
        edges += [g.is_edge(bs, x, k) for bs, k in cons]
        if any(edges):
            continue
        ind = s0 < s < s1 and t0 < t < t1 and 0 < r < rm
        w = ind and all(g.member(bs, x, k) for bs, k in cons)
        if ind:
            seen.add(w)
        got = out.data.region.contains(x)
        expect(got == w, f"{[str(c) for c in x]} {'should' if w else 'should not'} be feasible (dep {len(depcons)})")
        if ind and not w:
            expect(any(not g.member(bs, x, k) for bs, k in depcons),
                   f"{[str(c) for c in x]} is excluded, but the listed dependencies {depcons} allow it")
    ctx.nontrivial(len(cons) > 1 and len(seen) == 2)
    ctx.event("zeta" if zeta else "general")


def c_lvz(case, ctx):
    """lv_to_zlv: every estimate and its powers, for tau >= 2 only."""
    hs, base = hyps_of(case)
    out = zlv.lv_to_zlv(hs)
    lvs = [(h, bs) for h, bs, kind in base if kind == "LV"]
    expect(len(out) == len(lvs) * (1 + len(case["ks"])), f"{len(out)} estimates")
    got = []
    for z in out:
        (d,) = z.dependencies
        expect(z.hypothesis_type == "Zeta large value estimate" and z.reference.year() == d.reference.year(), "type and year")
        k, bs = F(1), next((bs for h, bs in lvs if h is d), None)
        if bs is None:
            (e,) = d.dependencies
            k = F(re.search(r"the k = (\S+) power", d.proof).group(1))
            bs = next(bs for h, bs in lvs if h is e)
        got.append((lvs.index(next(l for l in lvs if l[1] is bs)), k))
        for x in probes(case, [(bs, k)]):
            expect(z.data.region.contains(x) == (g.member(bs, x, k) and x[1] >= 2), f"zeta version of {bs} (power {k}) at {x}")
    expect(sorted(got) == sorted((i, F(k)) for i in range(len(lvs)) for k in [1] + case["ks"]), f"powers used: {got}")
    ctx.nontrivial(len(out) > 1)


TESTS = [
    Test("estimates", s_est, c_est, 2500, 30000, 3,
         "1-6 bounds on rho (half of them from the literature), probes on and next to every bound and outside the box, printed form "
         "evaluated; non-trivial with two bounds and probes on both sides"),
    Test("powers", s_pow, c_pow, 900, 12000, 2, "one or two powers k >= 1, probes scaled along; non-trivial with k > 1 and both answers"),
    Test("best_region", s_set, c_region, 260, 4000, 6,
         "1-5 (zeta) large value estimates, powers 2 and 3, a box of (sigma, tau, rho); probes between all bounds on a grid; dependencies "
         "must imply every exclusion; non-trivial with two constraints and both answers"),
    Test("zeta_versions", lambda: s_set(), c_lvz, 150, 2000, 2, "the same sets; non-trivial with two estimates"),
]
