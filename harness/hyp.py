"""Building hypotheses for the exponent-pair layer, and an independent checker of derivations."""
from fractions import Fraction as F

from hypothesis import strategies as st

import core
import geo
from lib import mod

H = mod("hypotheses")
R = mod("reference").Reference
fn = mod("functions")
ep = mod("exponent_pair")
bb = mod("bound_beta")
bm = mod("bound_mu")
Half = F(1, 2)


def lit():
    return mod("literature")


# ---------------------------------------------------------------- reference transforms
def A(p):
    k, l = p
    return (k / (2 * k + 2), (k + l + 1) / (2 * k + 2))


def B(p):
    return (p[1] - Half, p[0] + Half)


def C(p):
    k, l = p
    return (k / (12 * (1 + 4 * k)), (11 * (1 + 4 * k) + l) / (12 * (1 + 4 * k)))


TRANS = {"A": A, "B": B, "C": C}


def transform_hyps(names):
    m = lit()
    return [getattr(m, f"{n}_transform_hypothesis") for n in names]


def Dlines(p):
    k, l = p
    den = 8 * (5 * k + 3 * l + 2)
    k1, l1 = (5 * k + l + 2) / den, (29 * k + 21 * l + 10) / den
    return [(l1 - k1, k1), (F(2, 3), F(1, 12))]


# ---------------------------------------------------------------- generators
@st.composite
def pair(draw):
    """a point of the triangle of admissible exponent pairs"""
    q = draw(st.sampled_from([6, 12, 14, 30, 84, 97]))
    k = F(draw(st.integers(0, q // 2)), q)
    l = Half + (Half - k) * F(draw(st.integers(0, 12)), 12)
    return [str(k), str(l)]


YEARS = [1920, 1945, 1969, 1985, 1996, 2003, 2017, 2021]


def ref(y, author="Someone"):
    if y == "unknown":
        return R("nolabel", "article", {"author": author})
    if y == "conj":
        return R.conjectured()
    return R.make(author, y)


def ep_hyp(p, y):
    return ep.literature_exp_pair(F(p[0]), F(p[1]), ref(y))


def hull_lower(pts, xs):
    """lower convex envelope of points at given xs (None outside)"""
    h = lower_chain(pts)
    out = []
    for x in xs:
        v = None
        for (a, b), (c, d) in zip(h, h[1:]):
            if a <= x <= c:
                v = b + (d - b) * (x - a) / (c - a)
        if len(h) == 1 and h[0][0] == x:
            v = h[0][1]
        out.append(v)
    return out


def lower_chain(pts):
    best = {}
    for x, y in pts:
        if x not in best or y < best[x]:
            best[x] = y
    h = []
    for p in sorted(best.items()):
        while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - \
                (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
            h.pop()
        h.append(p)
    return h


def hull_points(pts):
    """vertices of the convex hull of 2-d points (exact)"""
    pts = set(pts)
    lo = lower_chain(pts)
    up = [(x, -y) for x, y in lower_chain([(x, -y) for x, y in pts])]
    return set(lo) | set(up)


def closure_hull(pairs, names, rounds):
    """hull vertices of all words of length <= rounds (the transforms are projective, so pruning is exact)"""
    cur = hull_points(pairs)
    if rounds > 6:      # only used up to a tolerance
        cur = hull_points([(float(x), float(y)) for x, y in cur])
    for _ in range(rounds):
        cur = hull_points(cur | {TRANS[n](p) for n in names for p in cur})
    return cur


def support_gap(V, W, dirs=48):
    """max over directions of |support(V) - support(W)| (floats), and its signed parts"""
    import math
    a = b = 0.0
    V = [(float(x), float(y)) for x, y in V]
    W = [(float(x), float(y)) for x, y in W]
    for i in range(dirs):
        t = 2 * math.pi * (i + 0.37) / dirs
        c, s = math.cos(t), math.sin(t)
        d = max(c * x + s * y for x, y in V) - max(c * x + s * y for x, y in W)
        a, b = max(a, d), max(b, -d)
    return a, b     # V beyond W, W beyond V


# ---------------------------------------------------------------- derivations
def dom(b):
    d = b.data.bound.domain
    return d.x0, d.x1, d.include_lower, d.include_upper


def check_derivation(h, base, seen=None):
    """Every hypothesis below h is assumed (in base) or follows from its direct dependencies."""
    seen = set() if seen is None else seen
    if id(h) in seen:
        return
    seen.add(id(h))
    if any(h is b for b in base) or (h.hypothesis_type.endswith("transform") and not h.dependencies):
        return
    deps = list(h.dependencies)
    kinds = {}
    for d in deps:
        kinds.setdefault(d.hypothesis_type, []).append(d)
    eps, trs = kinds.get("Exponent pair", []), kinds.get("Exponent pair transform", [])
    mus, bes = kinds.get("Upper bound on mu", []), kinds.get("Upper bound on beta", [])
    btr = kinds.get("Exponent pair to beta bound transform", [])
    core.expect(len(eps) + len(trs) + len(mus) + len(bes) + len(btr) == len(deps),
                lambda: f"{h.desc()} depends on hypotheses of unrelated types {list(kinds)}")
    ok = False
    if h.hypothesis_type == "Exponent pair":
        p = (F(h.data.k), F(h.data.l))
        P = [(F(e.data.k), F(e.data.l)) for e in eps]
        if trs:
            ok = len(trs) == 1 and len(eps) == 1 and not (mus or bes) and any(
                n in trs[0].name.split() and T(P[0]) == p for n, T in TRANS.items())
        elif eps and not (mus or bes):
            ok = geo.in_hull([list(q) for q in P], list(p))
        elif bes and not (mus or eps):
            ok = True
            for b in bes:
                f = b.data.bound
                for x in (max(f.domain.x0, 0), min(f.domain.x1, Half)):
                    ok = ok and f.m * x + f.c <= p[0] + (p[1] - p[0]) * x
            # a pair needs the bound at every alpha in [0, 1/2]
            at = F(0)
            for a, b in sorted((b.data.bound.domain.x0, b.data.bound.domain.x1) for b in bes):
                if a <= at:
                    at = max(at, b)
            core.expect(at >= Half, lambda: f"{h.desc()} depends only on bounds on beta which say nothing just right of {at}: {[b.data for b in bes]}")
        else:
            ok = not deps and p == (0, 1)
    elif h.hypothesis_type == "Upper bound on mu":
        s, m = h.data.sigma, h.data.mu
        M = [(x.data.sigma, x.data.mu) for x in mus]
        if len(eps) == 1 and len(deps) == 1:
            e = eps[0].data
            ok = s == e.l - e.k and m == e.k
        elif len(mus) == 1 and len(deps) == 1:
            ok = s == 1 - M[0][0] and m == M[0][1] + M[0][0] - Half
        elif len(mus) == 2 and len(deps) == 2:
            (s1, m1), (s2, m2) = M
            ok = (s1 != s2 and min(s1, s2) <= s <= max(s1, s2)
                  and (m - m1) * (s2 - s1) == (m2 - m1) * (s - s1))
        elif not deps:
            ok = m == max(0, Half - s, Half - s / 2 if 0 <= s <= 1 else 0) or (s, m) == (1, 0)
    elif h.hypothesis_type == "Upper bound on beta":
        f = h.data.bound
        if len(bes) == 1 and len(deps) == 1:
            g = bes[0].data.bound
            ok = (f.m, f.c) == (g.m, g.c) and g.domain.x0 <= f.domain.x0 and f.domain.x1 <= g.domain.x1
        elif len(eps) == 1 and len(btr) == 1 and len(deps) == 2:
            L = Dlines((F(eps[0].data.k), F(eps[0].data.l)))
            xs = (f.domain.x0, f.domain.x1)
            ok = 0 <= xs[0] and xs[1] <= Half and all(
                f.m * x + f.c >= max(a * x + c for a, c in L) for x in xs)
        elif len(eps) == 1 and len(deps) == 1:
            e = eps[0].data
            ok = (f.m, f.c) == (e.l - e.k, e.k) and 0 <= f.domain.x0 and f.domain.x1 <= Half
    core.expect(ok, lambda: f"{h.desc()} does not follow from its dependencies "
                f"{[d.desc() for d in deps]}")
    for d in deps:
        check_derivation(d, base, seen)
