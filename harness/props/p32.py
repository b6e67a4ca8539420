"""The literature tables state the published theorems: bounds on beta and mu, exponent pairs."""
from fractions import Fraction as F

from hypothesis import strategies as st

from core import Test, expect
from lib import mod

H = mod("hypotheses")
lit = mod("literature")
L = lit.literature


def Q(s):
    return F(s)


# ------------------------------------------------------------------ independent transcription: beta
# rows (constant, slope, left end, right end) as printed in the tables
HUX93_3 = """13/146 47/73 0 87/275
11/244 191/244 87/275 423/1295
89/1282 454/641 423/1295 227/601
29/280 173/280 227/601 12/31
1/32 103/128 12/31 1"""
HUX96_1 = """13/318 253/318 2848/12173 161/646
11/492 107/123 161/646 19/74
89/2706 2243/2706 19/74 199/716
29/600 58/75 199/716 967/3428
49/1614 1351/1614 967/3428 120/419
1/66 235/264 120/419 1424/4747
13/146 47/73 1424/4747 87/275
11/244 191/244 87/275 423/1295
89/1282 454/641 423/1295 227/601
29/280 173/280 227/601 12/31
1/32 103/128 12/31 356/873
13/60 7/20 356/873 5/12
11/120 13/20 5/12 49/114
89/570 1/2 49/114 65/114
29/120 7/20 65/114 7/12
1/15 13/20 7/12 517/873"""
HUX96_2 = """1/32 103/128 12/31 68682/171139
1273/6410 1242/3205 68682/171139 307/761
569/2800 1053/2800 307/761 143/349
491/5530 1812/2765 143/349 263/638
113/1345 897/1345 263/638 156527/370694
11897/134680 44221/67340 156527/370694 699371/1647930
2819/29855 19177/29855 699371/1647930 675/1574
2387/27290 8986/13645 675/1574 106822/246639
89/570 1/2 106822/246639 139817/246639"""
TY = ["13/414 359/414 0 2848/12173", "13/194 139/194 1328/4447 104/343", "18/199 521/796 1508/3825 62831/155153"]


def table(text):
    rows = [[F(v) for v in r.split()] for r in text.split("\n")]

    def f(a):
        for c, m, lo, hi in rows:
            if lo < a < hi:
                return c + m * a
    return f, {e for r in rows for e in r[2:]}, max(r[3] for r in rows)


def formula(lo, hi, f):
    lo, hi = F(lo), F(hi)
    return (lambda a: f(a) if lo < a < hi else None), {lo, hi}, hi


def kth(theta, k):
    """sums like N^alpha T^(theta (1 - k alpha))"""
    return lambda a: a + theta * (1 - k * a)


BETA = [
    ("watt_exponential_1989", formula("3/7", "1/2", lambda a: F(89, 560) + a / 2)),
    ("huxley_exponential_1991", formula("2/5", "1/2", lambda a: max((1 + 8 * a) / 22, (11 + 112 * a) / 158, (1 + 17 * a) / 22))),
    ("huxley_exponential_1993", formula(0, "49/114", lambda a: max((13 + 21 * a) / 60, (11 + 78 * a) / 120))),
    ("huxley_exponential_1993", formula("49/114", "1/2", lambda a: F(89, 570) + a / 2)),
    ("huxley_exponential_1993", table(HUX93_3)),
    ("huxley_area_1996", table(HUX96_1)),
    ("huxley_area_1996", table(HUX96_2)),
    ("sargos_points_1995", formula(0, 1, lambda a: max(kth(F(3, 40), 4)(a), 7 * a / 8, a / 3 - (1 - 4 * a) / 6, 0))),
    ("sargos_points_1995", formula(0, 1, lambda a: max(kth(F(1, 14), 4)(a), 5 * a / 6, a / 3 - (1 - 4 * a) / 6, 0))),
    ("huxley_exponential_2001", formula("2/5", "1/2", lambda a: max((21 + 158 * a) / 240, (15 + 103 * a) / 160, (9 + 13 * a) / 40))),
    ("robert_fourth_2002", formula(0, 1, lambda a: max(kth(F(1, 13), 4)(a), -F(7, 13) * (1 - 4 * a)))),
    ("sargos_analog_2003", formula(0, 1, lambda a: max(kth(F(1, 204), 8)(a), -F(95, 204) * (1 - 8 * a)))),
    ("sargos_analog_2003", formula(0, 1, lambda a: max(kth(F(7, 2640), 9)(a), -F(1001, 2640) * (1 - 9 * a)))),
    ("huxley_exponential_2005", formula("1/3", "1/2", lambda a: max((37 + 59 * a) / 170, (63 + 449 * a) / 690))),
    ("robert_fourth_2016", formula(0, "3/7", lambda a: max(kth(F(1, 12), 4)(a), 11 * a / 12))),
    ("bourgain_decoupling_2017", formula("1/3", "5/12", lambda a: F(2, 9) + a / 3)),
    ("bourgain_decoupling_2017", formula("5/12", "3/7", lambda a: F(1, 12) + 2 * a / 3)),
    ("bourgain_decoupling_2017", formula("3/7", "1/2", lambda a: F(13, 84) + a / 2)),
] + [("trudgian-yang", table(r)) for r in TY] + [
    ("robert_2016", formula(0, F(k - 1, k * (k - 1) - 2 * k + 3),
                            lambda a, k=k: max(kth(F(1, 2 * (k - 1) * (k - 2)), k)(a), a - a / (2 * (k - 1) * (k - 2)))))
    for k in range(4, 20)] + [
    ("heathbrown_new_2017", formula(0, 1, lambda a, k=k: max(
        kth(F(1, k * (k - 1)), k)(a), a - a / (k * (k - 1)), a - 2 * a / (k * (k - 1)) - F(2, k * k * (k - 1)) * (1 - k * a))))
    for k in range(3, 20)]
BETA_BREAKS = sorted({e for _, (f, br, hi) in BETA for e in br})
BETA_LABELS = {l for l, _ in BETA}

# ------------------------------------------------------------------ mu
MU = [(1923, "1/2", "1/6"), (1924, "1/2", "163/988"), (1932, "1/2", "27/164"), (1933, "1/2", "229/1392"), (1942, "1/2", "19/116"),
      (1949, "1/2", "15/92"), (1963, "1/2", "6/37"), (1973, "1/2", "173/1067"), (1982, "1/2", "35/216"), (1985, "1/2", "139/858"),
      (1986, "1/2", "9/56"), (1989, "1/2", "89/560"), (1991, "1/2", "17/108"), (1993, "1/2", "89/570"), (2005, "1/2", "32/205"),
      (2017, "1/2", "13/84"), (1996, "1934/3655", "6299/43860"), (2003, "49/51", "1/204"), (2003, "361/370", "1/370"),
      (2014, "3/5", "1409/12170"), (2014, "4/5", "3/71"), (2020, "11/15", "1/15")]
MU = [(1931 if y == 1932 else y, F(s), F(m)) for y, s, m in MU]
VDC = [(1920, 1 - F(n, 2 ** n - 2), F(1, 2 ** n - 2)) for n in range(4, 20)]
HL = [(None, 1 - F(1, 2 ** (n - 1)), F(1, (n + 1) * 2 ** (n - 1))) for n in range(4, 20)]

# ------------------------------------------------------------------ exponent pairs
PAIRS = [(1988, "9/56", "37/56"), (1989, "89/560", "369/560"), (1991, "17/108", "71/108"), (1993, "89/570", "187/285"),
         (2005, "32/205", "269/410"), (2017, "13/84", "55/84"), (1990, "2/13", "35/52"), (1996, "6299/43860", "29507/43860"),
         (1995, "771/8116", "1499/2029"), (1995, "21/232", "173/232"), (1995, "1959/21656", "16135/21656"),
         (2001, "516247/6629696", "5080955/6629696"), (2002, "1/13", "10/13"), (2003, "1/204", "197/204"), (2002, "1/360", "352/360"),
         (2003, "7/2640", "2584/2640"), (2003, "1/716", "707/716"), (2001, "1/649", "640/649"), (2002, "7/4540", "4477/4540"),
         (2002, "1/615", "606/615"), (2002, "1/915", "905/915"), (2023, "4742/38463", "35731/51284"), (2023, "18/199", "593/796"),
         (2023, "2779/38033", "58699/76066"), (2023, "715/10238", "7955/10238")]
PAIRS = [(y, F(k), F(l)) for y, k, l in PAIRS]
for m in range(1, 20):
    # Huxley 1996: (169, 1424 2^m - 169 m - 712/... ) in the form k, 1 - k (m + 1577/712)
    k = F(169, 1424 * 2 ** m - 338)
    PAIRS.append((1996, k, 1 - k * (m + F(1577, 712))))
for m in range(3, 20):
    PAIRS.append((2017, F(2, (m - 1) ** 2 * (m + 2)), 1 - F(3 * m - 2, m * (m - 1) * (m + 2))))


# ------------------------------------------------------------------ beta at a point
@st.composite
def near(draw, breaks):
    """a point off the breakpoints: generic, in the middle of a piece, or very close to an end of one"""
    kind = draw(st.integers(0, 2))
    if kind == 0:
        q = draw(st.sampled_from([997, 1009, 10007]))
        return str(F(draw(st.integers(1, q - 1)), q))
    i = draw(st.integers(0, len(breaks) - 2))
    a, b = breaks[i], breaks[i + 1]
    t = F(draw(st.integers(1, 9)), 10) if kind == 1 else F(1, 10 ** draw(st.integers(2, 7)))
    return str(a + (b - a) * (t if draw(st.booleans()) else 1 - t))


def s_beta():
    return st.fixed_dictionaries(dict(a=near(BETA_BREAKS), Y=st.integers(1985, 2027)))


def lib_beta(a, pred):
    out = set()
    for h in L.list_hypotheses("Upper bound on beta"):
        if pred(h) and h.data.bound.domain.contains(a):
            out.add((h.reference.label, h.data.bound.m * a + h.data.bound.c))
    return out


def c_beta(case, ctx):
    a = F(case["a"])
    if a in BETA_BREAKS or not 0 < a < 1:
        return
    want = {(l, v) for l, (f, br, hi) in BETA for v in [f(a)] if v is not None}
    got = lib_beta(a, lambda h: h.reference.label in BETA_LABELS)
    expect(got == want, lambda: f"bounds on beta({a}): recorded but not proved {sorted(got - want)}, proved but not recorded {sorted(want - got)}")
    for h in L.list_hypotheses("Upper bound on beta"):
        if h.data.bound.domain.contains(a):
            expect(h.data.bound.m * a + h.data.bound.c >= a / 2, lambda: f"{h.desc()} is below alpha/2 at {a}")
    if a < F(1, 2):
        # the best bound provable in a given year
        hs = H.Hypothesis_Set()
        hs.add_hypotheses(L.list_hypotheses("Upper bound on beta", case["Y"]))
        years = {h.reference.label: h.reference.year() for h in L.list_hypotheses("Upper bound on beta")}
        vals = [v for l, v in want if years[l] <= case["Y"]]
        I = mod("functions").Interval(max(0, a - F(1, 1000)), a + F(1, 1000), True, True)
        best = mod("bound_beta").compute_best_beta_bounds(hs, I)
        at = [h.data.bound.m * a + h.data.bound.c for h in best if h.data.bound.domain.contains(a)]
        if vals:
            expect(at and min(at) == max(at) == min(vals), lambda: f"best bound at {a} known in {case['Y']}: {at}, theorems give {min(vals)}")
        else:
            expect(not at, lambda: f"bound at {a} in {case['Y']} from nothing: {at}")
    ctx.nontrivial(len(want) > 2)


# ------------------------------------------------------------------ bounds on mu and exponent pairs, by year
def s_mu():
    return st.fixed_dictionaries(dict(Y=st.integers(1900, 2030), s=st.fractions(F(1, 2), 1, max_denominator=500).map(str),
                                      pre=st.booleans()))


def as_of(rows, Y):
    return {(s, m) for y, s, m in rows if y is not None and y <= Y}


def mus(hs):
    return [(h.data.sigma, h.data.mu) for h in hs.list_hypotheses("Upper bound on mu")]


def lower(pts, x):
    """least value at x over chords of the points"""
    best = min([m for s, m in pts if s == x], default=None)
    for s1, m1 in pts:
        for s2, m2 in pts:
            if s1 < x < s2:
                v = m1 + (m2 - m1) * (x - s1) / (s2 - s1)
                best = v if best is None or v < best else best
    return best


def c_mu(case, ctx):
    Y, s = case["Y"], F(case["s"])
    hs = H.Hypothesis_Set()
    if case["pre"]:
        lit.add_bounds_mu_classic(hs)
        expect(mus(hs) == [(F(1, 2), F(1, 6))], lambda: f"classic bounds {mus(hs)}")
        if Y < 1923:
            hs = H.Hypothesis_Set()
    lit.add_bounds_mu_as_of(hs, Y)
    want = as_of(MU + VDC, Y)
    got = mus(hs)
    expect(set(got) == want, lambda: f"bounds on mu known in {Y}: extra {sorted(set(got) - want)}, missing {sorted(want - set(got))}")
    expect(len(got) == len(set(got)), "a bound is recorded twice")
    # every improvement of mu(1/2) was one
    half = sorted((h.reference.year(), h.data.mu) for h in hs.list_hypotheses("Upper bound on mu") if h.data.sigma == F(1, 2))
    for a, b in zip(half, half[1:]):
        expect(b[1] < a[1], lambda: f"mu(1/2) <= {b[1]} of {b[0]} is no better than {a[1]} of {a[0]}")
    for x, m in got:
        expect(m >= max(0, F(1, 2) - x), "below the lower bound")
    full = H.Hypothesis_Set()
    lit.add_bounds_mu_all(full)
    w = as_of(MU + VDC, 9999) | {(a, b) for _, a, b in HL}
    expect(set(mus(full)) == w, lambda: f"all bounds on mu: extra {sorted(set(mus(full)) - w)}, missing {sorted(w - set(mus(full)))}")
    # what they imply: lower envelope of the points, their reflections and the trivial bounds
    pts = set(want) | {(F(1), F(0)), (F(0), F(1, 2))}
    pts |= {(1 - a, m + a - F(1, 2)) for a, m in pts if a > F(1, 2)}
    b = mod("bound_mu").best_mu_bound(s, hs)
    w = lower(pts, s)
    expect(b.data.sigma == s and abs(b.data.mu - w) < F(1, 10 ** 9), lambda: f"mu({s}) in {Y}: {b.data.mu}, the theorems give {w}")
    if len(want):
        years = b.proof_date() if len(b.dependencies) else -1
        expect(years <= Y, lambda: f"bound dated {years}")
    ctx.nontrivial(len(want) > 18)


def s_pairs():
    return st.fixed_dictionaries(dict(Y=st.integers(1980, 2030)))


def c_pairs(case, ctx):
    Y = case["Y"]
    hs = H.Hypothesis_Set()
    lit.add_exp_pairs_up_to(hs, Y)
    got = [(h.data.k, h.data.l) for h in hs.list_hypotheses("Exponent pair")]
    want = as_of(PAIRS, Y) | {(0, 1)}
    expect(set(got) == want, lambda: f"exponent pairs known in {Y}: extra {sorted(set(got) - want)}, missing {sorted(want - set(got))}")
    expect(len(got) == len(set(got)), "a pair is recorded twice")
    for k, l in got:
        expect(0 <= k <= F(1, 2) <= l <= 1 and k + l <= 1, lambda: f"({k}, {l}) is outside the triangle")
        expect(l >= k + F(1, 2), lambda: f"({k}, {l}) is not in the normalised half")
    hs = H.Hypothesis_Set()
    lit.add_exp_pairs_all(hs)
    got = {(h.data.k, h.data.l) for h in hs.list_hypotheses("Exponent pair")}
    want = as_of(PAIRS, 9999) | {(0, 1)}
    expect(got == want, lambda: f"all exponent pairs: extra {sorted(got - want)}, missing {sorted(want - got)}")
    ctx.nontrivial(Y > 1990)


# ------------------------------------------------------------------ what the conjectures would give
def s_conj():
    return st.fixed_dictionaries(dict(s=st.fractions(F(-1), 2, max_denominator=300).map(str), a=st.fractions(0, 1, max_denominator=300).map(str),
                                      Y=st.integers(1850, 9000), lit=st.booleans(), epc=st.booleans()))


def c_conj(case, ctx):
    """the Lindelof hypothesis gives mu(s) = max(0, 1/2 - s), the exponent pair conjecture gives that and beta(a) = a/2; both are marked as conjectures and dated never"""
    bm, ep, bb = mod("bound_mu"), mod("exponent_pair"), mod("bound_beta")
    s, a = F(case["s"]), F(case["a"])
    con = ep.exponent_pair_conjecture if case["epc"] else bm.Lindelof_hypothesis
    expect(con.reference.is_conjectured() and not con.reference.is_literature(), f"{con.name} is labelled {con.reference.label}")
    hs = H.Hypothesis_Set()
    if case["lit"]:
        lit.add_bounds_mu_as_of(hs, 2030)
    hs.add_hypothesis(con)
    expect(con not in hs.list_hypotheses("Any", case["Y"]) and con in hs.list_hypotheses(), lambda: f"{con.name} and what is known in {case['Y']}")
    want = max(F(0), F(1, 2) - s)
    if case["epc"]:
        T = H.Hypothesis_Set([con])
        hs = H.Hypothesis_Set([bm.obtain_mu_bound_from_exponent_pair(con)])
        best = bb.exponent_pairs_to_beta_bounds(T)
        vals = [h.data.bound.m * a + h.data.bound.c for h in best if h.data.bound.domain.contains(a)]
        if 0 < a < F(1, 2):
            expect(vals and min(vals) == a / 2, lambda: f"the exponent pair conjecture gives beta({a}) <= {vals}")
    b = bm.best_mu_bound(s, hs)
    expect(b.data.mu == want, lambda: f"mu({s}) under {con.name}: {b.data.mu}, should be {want}")
    if 0 < s < 1:
        expect(b.proof_date() > 9999, lambda: f"a consequence of {con.name} is dated {b.proof_date()}")
    ctx.nontrivial(0 < s < 1)


TESTS = [
    Test("conjectures", s_conj, c_conj, 120, 4000, 1, rule="0 < sigma < 1"),
    Test("beta", s_beta, c_beta, 500, 20000, 4, rule="more than two theorems apply at the point"),
    Test("mu", s_mu, c_mu, 240, 6000, 2, rule="some bound newer than van der Corput's is known"),
    Test("pairs", s_pairs, c_pairs, 60, 200, 1, rule="a year after 1990"),
]
