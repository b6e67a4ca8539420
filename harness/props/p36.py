"""The records assembled from the whole literature: exponent pairs, beta, mu, zero density."""
import contextlib
import io
from fractions import Fraction as F

from hypothesis import strategies as st

from core import Discard, Test, expect
from lib import mod
from props.p29 import num, same, value_at
from props.p31 import BOURGAIN
from props.p32 import BETA, HL, MU, VDC, lower, near
from props.p33 import ZD, ZD_MID
from props.p34 import D, run

H = mod("hypotheses")
ep, bb, bm, zd, fn = mod("exponent_pair"), mod("bound_beta"), mod("bound_mu"), mod("zero_density_estimate"), mod("functions")
L = mod("literature").literature

# ------------------------------------------------------------------ the published table of exponent pairs
HALF = [(F(k), F(l)) for k, l in [
    ("13/84", "55/84"), ("4742/38463", "35731/51284"), ("18/199", "593/796"), ("2779/38033", "58699/76066"), ("89/1282", "997/1282"),
    ("652397/9713986", "7599781/9713986"), ("2371/43205", "280013/345640"), ("9/217", "1461/1736"), ("10769/351096", "609317/702192"),
    ("89/3478", "15327/17390")]]
HALF += [(F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))) for m in range(3, 20)]    # the table starts too late: the hull needs m = 6, ..., 13 as well
PAIRS = HALF + [(F(0), F(1)), (F(1, 2), F(1, 2))] + [(l - F(1, 2), k + F(1, 2)) for k, l in HALF]
INNER = HALF[:-2]
INNER = set(INNER) | {(l - F(1, 2), k + F(1, 2)) for k, l in INNER}
_c = {}


def assembled():
    """literature -> pairs from the transforms -> bounds on beta -> best bounds -> pairs again, as derived.py does it"""
    if "hs" not in _c:
        with contextlib.redirect_stdout(io.StringIO()):
            hs = H.Hypothesis_Set([ep.trivial_exp_pair])
            for t in ["Upper bound on beta", "Exponent pair", "Exponent pair transform"]:
                hs.add_hypotheses(L.list_hypotheses(hypothesis_type=t))
            hs.add_hypotheses(ep.compute_exp_pairs(hs, search_depth=2))
            hs.add_hypotheses(bb.exponent_pairs_to_beta_bounds(hs))
            best = bb.compute_best_beta_bounds(hs)
            hs.add_hypotheses(best)
            new = ep.beta_bounds_to_exponent_pairs(hs)
        _c["hs"] = (best, new, hs)
    return _c["hs"]


@st.composite
def s_dir(draw):
    """a direction: towards an edge of the hull, between two of them, or anywhere"""
    return dict(kind=draw(st.integers(0, 3)), i=draw(st.integers(0, 40)), t=draw(st.integers(0, 97)), x=draw(st.integers(-50, 50)), y=draw(st.integers(-50, 50)))


def hull_edges():
    pts = sorted(set(PAIRS))
    out = []
    for p in pts:
        while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) <= (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]):
            out.pop()
        out.append(p)
    return out


def c_pairs(case, ctx):
    best, new, _ = assembled()
    V = hull_edges()
    if case["kind"] == 3:
        a, b = F(case["x"]), F(case["y"])
    else:
        i = case["i"] % (len(V) - 2)
        n1 = (V[i][1] - V[i + 1][1], V[i + 1][0] - V[i][0])
        n2 = (V[i + 1][1] - V[i + 2][1], V[i + 2][0] - V[i + 1][0])
        n1, n2 = [tuple(v / (abs(n[0]) + abs(n[1])) for v in n) for n in (n1, n2)]
        t = F(case["t"], 97) if case["kind"] else F(case["t"] % 2)
        a, b = (1 - t) * n1[0] + t * n2[0], (1 - t) * n1[1] + t * n2[1]
    want, at = min((a * k + b * l, (k, l)) for k, l in PAIRS)
    got, h = min(((a * x.data.k + b * x.data.l, i) for i, x in enumerate(new)))
    p = (new[h].data.k, new[h].data.l)
    expect(got <= want, lambda: f"the record holds the pair {at}, but min({a} k + {b} l) is {got} at {p}, not {want}")
    who = [q for q in set(PAIRS) if a * q[0] + b * q[1] == want]
    if set(who) <= INNER:
        expect(got == want, lambda: f"min({a} k + {b} l) over the known pairs is {want} at {at}, computed {p}")
        x = new[h]
        expect(x.dependencies or x.reference.is_literature(), f"{x.desc()} is unsupported")
        ctx.nontrivial(True)
    ctx.event("vertex" if len(who) == 1 else "edge")


# ------------------------------------------------------------------ beta
TABLE = """1/20 3/4 0 1/4
0 19/20 1/4 890/3277
89/2706 2243/2706 890/3277 199/716
29/600 58/75 199/716 967/3428
49/1614 1351/1614 967/3428 120/419
1/66 235/264 120/419 754/2579
9/217 1389/1736 754/2579 251324/841245
2371/43205 52209/69128 251324/841245 861996/2811205
13/146 47/73 861996/2811205 87/275
11/244 191/244 87/275 423/1295
89/1282 454/641 423/1295 227/601
29/280 173/280 227/601 12/31
1/32 103/128 12/31 1508/3825
18/199 521/796 1508/3825 62831/155153
569/2800 1053/2800 62831/155153 143/349
491/5530 1812/2765 143/349 263/638
113/1345 897/1345 263/638 1673/4038
2/9 1/3 1673/4038 5/12
1/12 2/3 5/12 3/7
13/84 1/2 3/7 1/2"""
TABLE = [[F(v) for v in r.split()] for r in TABLE.split("\n")]
BREAKS = sorted({r[2] for r in TABLE} | {F(1, 2)})


def c_beta(case, ctx):
    a = F(case["a"])
    if a >= F(1, 2) or a in BREAKS:
        raise Discard
    best, new, hs = assembled()
    vals = [h.data.bound.m * a + h.data.bound.c for h in best if h.data.bound.domain.contains(a)]
    expect(vals, lambda: f"no bound at {a}")
    got = min(vals)
    expect(max(vals) == got, lambda: f"two best bounds at {a}: {sorted(vals)}")
    pairs = min(k + (l - k) * a for k, l in PAIRS)
    want = min([pairs] + [v for _, (f, br, hi) in BETA for v in [f(a)] if v is not None])
    expect(got <= want, lambda: f"beta({a}) <= {got}, the theorems give {want}")
    row = next(r for r in TABLE if r[2] < a < r[3])
    expect(got <= row[0] + row[1] * a, lambda: f"beta({a}) <= {got}, the table has {row[0] + row[1] * a}")
    if a > F(1, 9):
        expect(got == want, lambda: f"beta({a}) <= {got}, the theorems give only {want}")
        ctx.nontrivial(True)
    # the duality: the best pairs are the chords of the best bounds
    expect(min(h.data.k + (h.data.l - h.data.k) * a for h in new) >= got, f"a pair beats the best bound on beta at {a}")


# ------------------------------------------------------------------ mu
MU_TABLE = [("1/2", "88225/153852", lambda s: (31 - 36 * s) / 84), ("88225/153852", "521/796", lambda s: (220633 - 251324 * s) / 620612),
            ("521/796", "53141/76066", lambda s: (1333 - 1508 * s) / 3825), ("53141/76066", "3620/5119", lambda s: (405 - 454 * s) / 1202),
            ("3620/5119", "52209/69128", lambda s: (49318855 - 52938216 * s) / 170145110), ("52209/69128", "1389/1736", lambda s: (471957 - 502648 * s) / 1682490),
            ("1389/1736", "134765/163248", lambda s: (2841 - 3016 * s) / 10316), ("134765/163248", "18193/21906", lambda s: (859 - 908 * s) / 3214),
            ("18193/21906", "249/280", lambda s: 5 * (8707 - 9067 * s) / 180277), ("249/280", "9/10", lambda s: (29 - 30 * s) / 130)]
MU_BREAKS = sorted({F(v) for r in MU_TABLE for v in r[:2]} | {F(1)})


@st.composite
def s_mu(draw):
    s = F(draw(near(MU_BREAKS)))
    return dict(s=str(s if s > F(1, 2) else (1 + s) / 2))


def c_mu(case, ctx):
    s = F(case["s"])
    if "mu" not in _c:
        _, new, _ = assembled()
        hs = H.Hypothesis_Set()
        hs.add_hypotheses(L.list_hypotheses("Upper bound on mu"))
        hs.add_hypotheses([bm.obtain_mu_bound_from_exponent_pair(h) for h in new])
        pts = {(a, m) for _, a, m in MU + VDC + HL} | {(l - k, k) for k, l in PAIRS} | {(F(1), F(0)), (F(0), F(1, 2))}
        pts |= {(1 - a, m + a - F(1, 2)) for a, m in pts if a > F(1, 2)}
        _c["mu"] = (hs, sorted(pts))
    hs, pts = _c["mu"]
    b = bm.best_mu_bound(s, hs)
    want = lower(pts, s)
    expect(b.data.sigma == s, f"asked for mu({s}), got mu({b.data.sigma})")
    expect(b.data.mu <= want, lambda: f"mu({s}) <= {float(b.data.mu)}, the record gives {float(want)}")
    if s < F(19, 20):
        expect(b.data.mu == want, lambda: f"mu({s}) <= {b.data.mu} = {float(b.data.mu)}, the theorems give only {want} = {float(want)}")
        ctx.nontrivial(True)
    for lo, hi, f in MU_TABLE:
        if F(lo) <= s <= F(hi):
            expect(b.data.mu <= f(s), lambda: f"mu({s}) <= {b.data.mu}, published {f(s)}")
    expect(b.data.mu >= 0, "below zero")


# ------------------------------------------------------------------ zero density
DENSITY = [("1/2", "7/10", lambda s: 3 / (2 - s)), ("7/10", "19/25", lambda s: 15 / (3 + 5 * s)), ("19/25", "127/167", lambda s: 9 / (8 * s - 2)),
           ("127/167", "13/17", lambda s: 15 / (13 * s - 3)), ("13/17", "17/22", lambda s: 6 / (5 * s - 1)), ("17/22", "41/53", lambda s: 2 / (9 * s - 6)),
           ("41/53", "7/9", lambda s: 9 / (7 * s - 1)), ("7/9", "1867/2347", lambda s: 9 / (8 * (2 * s - 1))), ("1867/2347", "7/8", lambda s: 3 / (2 * s)),
           ("7/8", "279/314", lambda s: 3 / (10 * s - 7)), ("279/314", "9/10", lambda s: 24 / (30 * s - 11)), ("9/10", "31/34", lambda s: 3 / (10 * s - 7)),
           ("31/34", "14/15", lambda s: 11 / (48 * s - 36)), ("14/15", "2841/3016", lambda s: 391 / (2493 * s - 2014)),
           ("2841/3016", "859/908", lambda s: 22232 / (163248 * s - 134765)), ("859/908", "23/24", lambda s: 4406612 / (33911310 * s - 28181831)),
           ("23/24", "60725033/62460603", lambda s: 3 / (24 * s - 20)), ("60725033/62460603", "39/40", lambda s: 2351558 / (39632665 * s - 35918731)),
           ("39/40", "41/42", lambda s: 2 / (15 * s - 12)), ("41/42", "59/60", lambda s: 3 / (40 * s - 35))]
DENSITY = [(F(a), F(b), f) for a, b, f in DENSITY]
DENSITY += [(1 - F(1, 2 * n * (n - 1)), 1 - F(1, 2 * n * (n + 1)), lambda s, n=n: 3 / (n * (1 - 2 * (n - 1) * (1 - s)))) for n in range(6, 22)]
ZBREAKS = sorted({r[0] for r in DENSITY} | {DENSITY[-1][1]})


def captured():
    """the estimates compute_best_zero_density puts together"""
    if "zd" not in _c:
        d = D()
        got = []
        orig = d.zd.best_zero_density_estimate
        d.zd.best_zero_density_estimate = lambda hs, *a, **k: got.append(hs) or []
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                d.compute_best_zero_density()
        finally:
            d.zd.best_zero_density_estimate = orig
        expect(len(got) == 1, "compute_best_zero_density never looks for the best estimate")
        _c["zd"] = got[0]
    return _c["zd"]


def table_density(s):
    return next((f(s) for a, b, f in DENSITY if a < s < b), None)


@st.composite
def s_zd(draw):
    out = []
    for _ in range(draw(st.integers(4, 12))):
        s = F(draw(near(ZBREAKS)))
        out.append(str(s if s > F(1, 2) else 1 - s))
    return dict(at=out)


def c_zd(case, ctx):
    hs = captured()
    n = set()
    for s in map(F, case["at"]):
        want = table_density(s)
        if want is None:
            continue
        vals = []
        for h in hs.list_hypotheses("Zero density estimate"):
            if h.data.interval.contains(s):
                v = h.data.at(s)
                if v.is_real:
                    vals.append(num(v))
        expect(vals and same(min(vals), want), lambda: f"best known A({s}) is {float(want)}, recorded {sorted(map(float, vals))[:3]}")
        n.add(next(i for i, r in enumerate(DENSITY) if r[0] < s < r[1]))
    ctx.nontrivial(len(n) > 2)


WINDOWS = [("7/10", "31/40"), ("19/25", "4/5"), ("4/5", "9/10"), ("9/10", "19/20"), ("19/20", "49/50")]


@st.composite
def s_window(draw, w):
    return dict(w=w, at=draw(st.lists(st.integers(1, 996), min_size=30, max_size=60)))


def c_window(case, ctx):
    """the best estimate computed from the estimates that say something in a window"""
    lo, hi = (F(v) for v in WINDOWS[case["w"]])
    key = ("w", case["w"])
    if key not in _c:
        T = H.Hypothesis_Set()
        for h in captured().list_hypotheses("Zero density estimate"):
            iv = h.data.interval
            if iv.x0 < hi and iv.x1 > lo:
                T.add_hypothesis(zd_clip(h, lo, hi))
        _c[key] = zd.best_zero_density_estimate(T)
    check_best(_c[key], [lo + (hi - lo) * F(k, 997) for k in case["at"]])
    ctx.event("window " + " ".join(WINDOWS[case["w"]]))
    ctx.nontrivial(True)


def zd_clip(h, lo, hi):
    iv = h.data.interval
    h.data.at(iv.midpoint())    # the formula is parsed when it is first used
    I = fn.Interval(max(lo, iv.x0), min(hi, iv.x1), iv.include_lower or lo > iv.x0, iv.include_upper or hi < iv.x1)
    return H.Hypothesis(h.name, h.hypothesis_type, zd.Zero_Density_Estimate.from_rational_func(h.data.bound, I), h.proof, h.reference)


def check_best(best, points):
    pieces = [(h.data, h.data.interval) for h in best]
    for s in points:
        want = table_density(s)
        if want is None:
            continue
        got = value_at(pieces, s)
        if got == "end":
            continue
        expect(got is not None and same(got, want), lambda: f"best A({s}): computed {got}, the record is {float(want)}")
        h = next(h for h in best if h.data.interval.x0 < s < h.data.interval.x1)
        expect(h.reference.is_literature() or h.reference.is_derived(), f"{h.desc()} is credited to {h.reference.label}")


def c_full(case, ctx):
    if "full" not in _c:
        _c["full"] = zd.best_zero_density_estimate(captured())
    check_best(_c["full"], [F(1, 2) + F(k, 1994) for k in case["at"]])
    ctx.nontrivial(True)


# ------------------------------------------------------------------ two more derivations of zero density theorems
@st.composite
def s_bi(draw):
    return dict(at=draw(st.lists(st.integers(1, 1008), min_size=20, max_size=40)))


def c_bi(case, ctx):
    """the improved density hypothesis bound of Bourgain: max(2/(9 s - 6), 9/(8(2 s - 1))) on [17/22, 4/5], and 3/(2 s) from there"""
    hs, _ = run("prove_zero_density_bourgain_improved", verbose=False)
    expect(len(hs) == 2, "two parts")
    for lo, hi, f, part in [(F(17, 22), F(4, 5), lambda s: max(2 / (9 * s - 6), 9 / (8 * (2 * s - 1))), hs[0]), (F(4, 5), F(1), lambda s: 3 / (2 * s), hs[1])]:
        for k in case["at"]:
            s = lo + (hi - lo) * F(k, 1009)
            got = value_at([(h.data, h.data.interval) for h in part], s)
            if got == "end":
                continue
            expect(got is not None and same(got, f(s) * (1 - s)), lambda: f"A({s}) (1 - sigma) is {got}, the theorem is {f(s) * (1 - s)}")
    ctx.nontrivial(True)


IVIC = {2: "3831/4791", 3: "41/53", 4: "13/17", 5: "127/167", 6: "47/62"}


def c_ivic(case, ctx):
    """Ivic's estimates 3 m/((3 m - 2) s + 2 - m) on ranges no worse than his"""
    if "ivic" not in _c:
        d, got = D(), {}
        orig = d.zd.ivic_ep_to_zd

        def spy(hs, m=2):
            got[m] = orig(hs, m)
            return got[m]
        d.zd.ivic_ep_to_zd = spy
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                d.prove_zero_density_ivic_1984()
        finally:
            d.zd.ivic_ep_to_zd = orig
        _c["ivic"] = got
    got = _c["ivic"]
    for m, s0 in IVIC.items():
        expect(m in got, f"nothing for m = {m}")
        h = got[m]
        s = F(s0) + (1 - F(s0)) * F(case["t"], 97)
        v = value_at([(h.data, h.data.interval)], s)
        if v == "end":
            continue
        w = F(3 * m) / ((3 * m - 2) * s + 2 - m)
        expect(v is not None and same(v, w), lambda: f"m = {m}: A({s}) <= {v}, the theorem is {w}")
        (d,) = h.dependencies
        k, l = d.data.k, d.data.l
        best = min(a * (F(case["u"], 50) + F(1, 10 ** 6)) + b for a, b in PAIRS)
        expect(k * (F(case["u"], 50) + F(1, 10 ** 6)) + l >= best - F(1, 10 ** 6), f"the pair ({k}, {l}) credited is better than the record")
    ctx.nontrivial(True)


TESTS = [
    Test("bourgain", s_bi, c_bi, 2, 40, 1, "20-40 values of sigma in each part", cpu=400),
] + [
    Test(f"window{w}", lambda w=w: s_window(w), c_window, 2, 20, 1, "best_zero_density_estimate over the literature restricted to the window " + " ".join(WINDOWS[w]), cpu=400) for w in range(len(WINDOWS))
] + [
    Test("ivic", lambda: st.fixed_dictionaries(dict(t=st.integers(1, 96), u=st.integers(0, 200))), c_ivic, 20, 500, 1, "sigma in the range of each of Ivic's five theorems"),
    Test("mu", s_mu, c_mu, 120, 6000, 1, "sigma generic, inside and close to the ends of the pieces of the published bound; non-trivial when sigma < 19/20"),
    Test("pairs", s_dir, c_pairs, 300, 6000, 1, "directions towards edges and vertices of the hull of known pairs, and random ones; non-trivial when only table vertices away from the truncation attain the minimum"),
    Test("beta", lambda: st.fixed_dictionaries(dict(a=near(BREAKS))), c_beta, 300, 6000, 1, "alpha generic, inside and close to the ends of the pieces; non-trivial when alpha > 1/9, where the truncated series play no role"),
    Test("density", s_zd, c_zd, 25, 1500, 1, "4-12 values of sigma close to and between the breakpoints of the table; non-trivial when three rows are hit"),
    Test("full", lambda: st.fixed_dictionaries(dict(at=st.lists(st.integers(1, 990), min_size=100, max_size=200))), c_full, 0, 20, 1, "the whole literature at once", cpu=1500),
]
