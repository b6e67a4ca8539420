"""What the plots show: the recorded bounds, the points of a set, the pieces of a function."""
import ast
import contextlib
import io
import sys
import types
from fractions import Fraction as F

import matplotlib.pyplot as plt
from hypothesis import strategies as st

import gen
import geo
import lib
from core import Discard, Test, expect
from hyp import bb
from lib import mod
from props import p23, p31
from props.p13 import build, pw
from props.p32 import BETA, BETA_BREAKS
from props.p33 import ENERGY, SQRT, ZD, ZD_BREAKS
from props.p36 import DENSITY, INNER, PAIRS, ZBREAKS

FN = mod("functions")
P = FN.Polytope
R = mod("region").Region
_c = {}


def vis():
    """the module visualizations without its trailing module-level calls, which draw for minutes"""
    if "v" not in _c:
        import os
        path = os.path.join(lib.SRC, "visualizations.py")
        tree = ast.parse(open(path).read(), path)
        tree.body = [n for n in tree.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
        m = types.ModuleType("visualizations")
        m.__file__ = path
        sys.modules["visualizations"] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        _c["v"] = m
    return _c["v"]


def drawn(f, *args, **kw):
    """what a plotting function draws: curves [(label, [(x, y)])] and scattered points"""
    plt.close("all")
    with contextlib.redirect_stdout(io.StringIO()):
        f(*args, **kw)
    curves, dots = [], []
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            for line in ax.get_lines():
                curves.append((line.get_label(), list(zip(map(float, line.get_xdata()), map(float, line.get_ydata())))))
            for c in ax.collections:
                dots += [tuple(map(float, p)) for p in c.get_offsets()]
    plt.close("all")
    return curves, dots


def cached(name):
    if name not in _c:
        _c[name] = drawn(getattr(vis(), name))
    return _c[name]


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def curve(curves, *words):
    got = [c for c in curves if all(w.lower() in c[0].lower() for w in words)]
    expect(len(got) == 1, lambda: f"{len(got)} curves are labelled {words}: {[c[0] for c in curves]}")
    expect(len(got[0][1]) >= 100, "the curve has points")
    return got[0][1]


# ------------------------------------------------------------------ van der Corput
def vdc(k, a):
    """the bound of the k-th derivative test"""
    return max(a + (1 - k * a) / F(2 ** k - 2), (1 - F(2) / 2 ** (k - 1)) * a - (1 - k * a) / F(2 ** k - 2))


def conj(a):
    return a / 2 if a <= 1 else a - 1


def s_vdc():
    return st.fixed_dictionaries(dict(k=st.integers(2, 40), a=st.fractions(0, 2, max_denominator=1009).map(str)))


def c_vdc(case, ctx):
    k, a = case["k"], F(case["a"])
    v = vis()
    expect(close(v.van_der_corput(k, a), float(vdc(k, a))), lambda: f"van der Corput's bound at {a} with k = {k}: {v.van_der_corput(k, a)}, should be {vdc(k, a)}")
    best = min([F(1)] + [vdc(j, a) for j in range(2, 30)])
    got = v.optimized_van_der_corput(a)
    expect(close(got, float(best)), lambda: f"the best of van der Corput's bounds at {a}: {got}, should be {best}")
    expect(close(v.conjectured_bound(a), float(conj(a))), lambda: f"the conjectured value at {a}: {v.conjectured_bound(a)}")
    expect(float(got) >= float(conj(a)) - 1e-12, "below the conjecture")
    ctx.nontrivial(0 < a < F(1, 2))


def s_any():
    return st.fixed_dictionaries(dict(at=st.lists(st.integers(0, 998), min_size=30, max_size=60)))


def pts(c, at):
    return [c[i % len(c)] for i in at]


def c_vdcplots(case, ctx):
    """the two pictures of the classical bounds"""
    cs, _ = cached("van_der_corput_plot")
    for k in range(2, 6):
        for x, y in pts(curve(cs, f"k={k}"), case["at"]):
            expect(close(y, float(vdc(k, F(x)))), f"k = {k} at {x}: drawn {y}")
    cs2, _ = cached("van_der_corput_plot2")
    for c, top in ((cs, 1), (cs2, 2)):
        o = curve(c, "optimized")
        expect(min(o)[0] == 0 and max(o)[0] == top, "range of alpha")
        for x, y in pts(o, case["at"]):
            expect(close(y, float(min([F(1)] + [vdc(k, F(x)) for k in range(2, 30)]))), f"best of van der Corput's bounds at {x}: drawn {y}")
        for x, y in pts(curve(c, "conjectured"), case["at"]):
            expect(close(y, float(conj(F(x)))), f"conjectured value at {x}: drawn {y}")
    for x, y in pts(curve(cs2, "trivial"), case["at"]):
        expect(close(y, x), f"trivial bound at {x}: drawn {y}")
    ctx.nontrivial(True)


def c_beta(case, ctx):
    cs, _ = cached("beta_bound_plot")
    c = curve(cs, "best")
    expect(min(c)[0] == 0 and close(max(c)[0], 0.5), "range of alpha")
    n = 0
    for x, y in pts(c, case["at"]):
        if any(abs(x - b) < 1e-9 for b in BETA_BREAKS) or not 0 < x < 0.5:
            continue
        a = F(x)
        want = min([a] + [v for _, (f, br, hi) in BETA for v in [f(a)] if v is not None])
        expect(close(y, float(want)), f"best bound on beta({x}): drawn {y}, known {float(want)}")
        n += 1
    for x, y in pts(curve(cs, "corput"), case["at"]):
        expect(close(y, float(min([F(1)] + [vdc(k, F(x)) for k in range(2, 30)]))), f"van der Corput's bounds at {x}: drawn {y}")
    ctx.nontrivial(n > 10)


def c_pairs(case, ctx):
    """the picture of the exponent pairs: the vertices of the hull, closed under (k, l) -> (l - 1/2, k + 1/2), in order"""
    _, dots = cached("exp_pair_plot")
    for k, l in INNER:
        vertex = any(close(p[0], float(k)) and close(p[1], float(l)) for p in dots)
        if not vertex:
            # a recorded pair that is not drawn is not a vertex of the hull
            above = sorted(dots)
            i = max(j for j in range(len(above)) if above[j][0] <= float(k))
            (x0, y0), (x1, y1) = above[i], above[i + 1]
            expect(float(l) >= y0 + (y1 - y0) * (float(k) - x0) / (x1 - x0) - 1e-12, lambda: f"the pair ({k}, {l}) lies outside what is drawn")
    S = sorted(set(dots))
    for (a, b), (c, d), (e, f) in zip(S, S[1:], S[2:]):
        expect((c - a) * (f - b) - (d - b) * (e - a) > -1e-15, lambda: f"({c}, {d}) is drawn but is no vertex")
    for p in S:
        q = (p[1] - 0.5, p[0] + 0.5)
        expect(any(close(q[0], r[0]) and close(q[1], r[1]) for r in S), lambda: f"{p} is drawn, its B image is not")
    known = [(float(k), float(l)) for k, l in PAIRS]
    i = case["at"][0] % len(S)
    x, y = S[i]
    if x > F(1, 3000) and y > F(1, 2) + F(1, 3000):
        low = sorted(set(known))
        hull = []
        for p in low:
            while len(hull) > 1 and (hull[-1][0] - hull[-2][0]) * (p[1] - hull[-2][1]) <= (hull[-1][1] - hull[-2][1]) * (p[0] - hull[-2][0]):
                hull.pop()
            hull.append(p)
        (x0, y0), (x1, y1) = next((p, q) for p, q in zip(hull, hull[1:]) if p[0] <= x <= q[0])
        expect(y >= y0 + (y1 - y0) * (x - x0) / (x1 - x0) - 1e-12, lambda: f"({x}, {y}) is drawn but is not known")
    ctx.nontrivial(True)


def lit_density(s):
    out = []
    for rows in ZD.values():
        out += [f(s) for a, b, f in rows if F(a) <= s <= F(b)]
    return out


def c_density(case, ctx):
    cs, _ = cached("zero_density_plot")
    n = 0
    for x, y in pts(curve(cs, "best"), case["at"]):
        s = F(x)
        if any(abs(x - b) < 1e-9 for b in ZBREAKS):
            continue
        want = next((f(s) for a, b, f in DENSITY if a < s < b), None)
        if want is not None:
            expect(close(y, float(want)), f"best A({x}): drawn {y}, known {float(want)}")
            n += 1
    best = dict(curve(cs, "best"))
    for x, y in pts(curve(cs, "literature"), case["at"]):
        s = F(x)
        expect(y >= best[x] - 1e-9, f"the literature at {x} is drawn below the best bound")
        if any(abs(x - b) < 1e-9 for b in ZD_BREAKS) or F(78, 89) >= s >= F(61, 74) or not lit_density(s):
            continue
        want = min(lit_density(s))
        expect(close(y, float(want)), f"A({x}) in the literature: drawn {y}, recorded {float(want)}")
    for x, y in pts(curve(cs, "lindel"), case["at"]):
        expect(y == (2 if x <= 0.75 else 0), f"A({x}) on the Lindelof hypothesis: drawn {y}")
    ctx.nontrivial(n > 10)


# A*(sigma): the table of the best bounds, where the picture is up to date
STAR = [("1/2", "2/3", lambda s: (10 - 11 * s) / ((2 - s) * (1 - s))), ("2/3", "7/10", lambda s: (18 - 19 * s) / ((4 - 2 * s) * (1 - s))),
        ("7/10", "725/1000", lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s))), ("726/1000", "3/4", lambda s: 2 * (45 - 44 * s) / ((2 * s + 15) * (1 - s))),
        ("3/4", "37/49", lambda s: (197 - 220 * s) / (8 * (5 * s - 1) * (1 - s))),
        ("7583/10000", "42/55", lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s))),
        ("42/55", "97/127", lambda s: (18 - 19 * s) / (6 * (15 * s - 11) * (1 - s))), ("97/127", "79/103", lambda s: 3 * (18 - 19 * s) / (4 * (4 * s - 1) * (1 - s))),
        ("79/103", "33/43", lambda s: (18 - 19 * s) / (2 * (37 * s - 27) * (1 - s))), ("33/43", "84/109", lambda s: 5 * (18 - 19 * s) / (2 * (13 * s - 3) * (1 - s))),
        ("84/109", "7721/10000", lambda s: (18 - 19 * s) / (9 * (3 * s - 2) * (1 - s))), ("7722/10000", "5/6", lambda s: 4 * (10 - 9 * s) / (5 * (4 * s - 1) * (1 - s))),
        ("5/6", "95/100", lambda s: 12 / (4 * s - 1))]


def c_energy(case, ctx):
    cs, _ = cached("zero_density_energy_plot")
    n = 0
    best, lit, triv = (dict(curve(cs, w)) for w in ("best", "literature", "trivial"))
    for x, y in pts(curve(cs, "best"), case["at"]):
        s = F(x)
        want = next((f(s) for a, b, f in STAR if F(a) + F(1, 10 ** 6) < s < F(b) - F(1, 10 ** 6)), None)
        if want is not None:
            expect(close(y, min(float(want), triv[x])), f"best A*({x}): drawn {y}, known {float(want)}")
            n += 1
    for x, y in pts(curve(cs, "trivial"), case["at"]):
        s = F(x)
        expect(best[x] <= lit[x] + 1e-9 and lit[x] <= y + 1e-9, f"the curves cross at {x}")
        if any(abs(x - b) < 1e-9 for b in ZD_BREAKS) or F(78, 89) >= s >= F(61, 74) or not lit_density(s):
            continue
        want = min([3 * v for v in lit_density(s)] + [3 / (1 - s)])
        expect(close(y, float(want)), f"trivial bound on A*({x}): drawn {y}, should be {float(want)}")
        e = [f(s) for a, b, f in ENERGY if F(a) <= s <= F(b)]
        expect(close(lit[x], min(y, min(map(float, e)))), f"A*({x}) in the literature: drawn {lit[x]}, should be {min(map(float, e))}")
    for x, y in pts(curve(cs, "lindel"), case["at"]):
        expect(close(y, 8 - 4 * x if x <= 0.75 else 0), f"A*({x}) on the Lindelof hypothesis: drawn {y}")
    ctx.nontrivial(n > 10)


# ------------------------------------------------------------------ sets and functions
@st.composite
def s_set(draw):
    polys = []
    for _ in range(draw(st.integers(1, 3))):
        rows = draw(gen.box_rows(2))
        for _ in range(draw(st.integers(0, 2))):
            rows.append(draw(gen.cut_through(2, rows[:4])))
        polys.append(rows)
    return dict(polys=polys, n=draw(st.integers(4, 12)), lim=[draw(gen.interval_pair(-4, 4, False)), draw(gen.interval_pair(-4, 4, False))])


def on_edge(rows, x, y):
    return any(abs(float(r[0]) + float(r[1]) * x + float(r[2]) * y) < 1e-9 for r in rows)


def within(rows, x, y):
    return all(r[0] + r[1] * F(x) + r[2] * F(y) >= 0 for r in rows)


def grid(lim, n):
    return [(float(lim[0][0] + (lim[0][1] - lim[0][0]) * F(i, n - 1)), float(lim[1][0] + (lim[1][1] - lim[1][0]) * F(j, n - 1))) for i in range(n) for j in range(n)]


def compare(got, want, sure, what):
    """every grid point not on an edge is drawn exactly when it should be"""
    near = lambda p, S: any(abs(p[0] - q[0]) < 1e-7 and abs(p[1] - q[1]) < 1e-7 for q in S)
    for p in want:
        if sure(p):
            expect(near(p, got), lambda: f"{p} is in the {what} but not drawn")
    for p in got:
        expect(near(p, want) or not sure(p), lambda: f"{p} is drawn but not in the {what}")


def c_set(case, ctx):
    polys = [gen.fr(r) for r in case["polys"]]
    n = case["n"]
    lim = [[F(v) for v in l] for l in case["lim"]]
    sure = lambda p: not any(on_edge(r, *p) for r in polys)
    # a region, over a window
    reg = R.union([R.from_polytope(P(r)) for r in polys])
    cs, _ = drawn(reg.plot2d, [float(v) for v in lim[0]], [float(v) for v in lim[1]], resolution=n)
    expect(len(cs) == 1, f"{len(cs)} curves")
    G = grid(lim, n)
    want = [p for p in G if any(within(r, *p) for r in polys)]
    compare(cs[0][1], want, sure, "region")
    # a polytope, over its own bounding box
    h = [(r, False) for r in polys[0]]
    V = geo.vertices(h, 2)
    p = P(polys[0])
    if len(V) >= 3 and not p.is_empty():
        cs, _ = drawn(p.plot, resolution=n)
        box = [[min(v[i] for v in V), max(v[i] for v in V)] for i in (0, 1)]
        if box[0][0] < box[0][1] and box[1][0] < box[1][1]:
            compare(cs[0][1], [q for q in grid(box, n) if within(polys[0], *q)], lambda q: not on_edge(polys[0], *q), "polytope")
    ctx.nontrivial(0 < len(want) < len(G))


@st.composite
def s_pw(draw):
    box = [["3", "1", "0"], ["3", "-1", "0"], ["3", "0", "1"], ["3", "0", "-1"]]
    return dict(p=draw(pw(2, box)), over=draw(st.integers(0, 3)), n=draw(st.integers(4, 9)), cut=draw(gen.cut_through(2, box)))


def c_pw(case, ctx):
    """the picture of the domains, and the check that a function is single valued and defined everywhere"""
    p = [dict(q) for q in case["p"]]
    if case["over"] == 1:
        p.append(dict(p[0], rows=p[0]["rows"] + [case["cut"]]))
    rows = [gen.fr(q["rows"]) for q in p]
    f = build(p)
    n = case["n"]
    cs, _ = drawn(f.plot_domain, (-3.0, 3.0), (-3.0, 3.0), resolution=n, title="t", xlabel="x", ylabel="y")
    G = [(-3 + 6 * i / n, -3 + 6 * j / n) for i in range(n) for j in range(n)]
    sure = lambda q: not any(on_edge(r, *q) for r in rows)
    keys = {tuple(F(v) for v in q["a"]) for q in p}
    total = [q for _, c in cs for q in c]
    compare(total, [q for q in G if any(within(r, *q) for r in rows)], sure, "domain")
    groups = {k: [r for q, r in zip(p, rows) if tuple(F(v) for v in q["a"]) == k] for k in keys}
    expect(len(cs) <= len(keys), f"{len(cs)} curves for {len(keys)} functions")
    for lab, c in cs:
        fit = [k for k, g in groups.items() if all(any(within(r, *q) for r in g) or not sure(q) for q in c)]
        expect(fit, lambda: f"the curve {lab} mixes pieces")
    # overlapping interiors or gaps
    def open_meet(a, b):
        return geo.interior_point([(r, False) for r in a + b], 2) is not None
    overlap = any(open_meet(a, b) for i, a in enumerate(rows) for b in rows[:i])
    hole = [q for q in [(-3 + 6 * i / 100, -3 + 6 * j / 100) for i in range(0, 100, 3) for j in range(0, 100, 3)] if not any(within(r, *q) for r in rows)]
    if case["over"] == 2 or overlap or hole:
        got = f.check((-3.0, 3.0), (-3.0, 3.0))
        if overlap:
            expect(got is False, "two pieces overlap, check says the function is fine")
        elif any(sure(q) for q in hole):
            expect(got is False, lambda: f"the function is not defined at {hole[0]}, check says it is")
        elif not hole:
            full = all(any(within([[x + (0 if i else F(1, 10 ** 6)) for i, x in enumerate(r)] for r in rs], *q) for rs in rows) for q in [(-3 + 6 * i / 100, -3 + 6 * j / 100) for i in range(100) for j in range(100)])
            gap = not all(any(within(rs, *q) for rs in rows) for q in [(-3 + 6 * i / 100, -3 + 6 * j / 100) for i in range(100) for j in range(100)])
            if full and not gap:
                expect(got is True, "the function is single valued and defined everywhere, check says it is not")
                ctx.event("sound")
    ctx.event("overlap" if overlap else "hole" if hole else "partition")
    ctx.nontrivial(len(p) > 1)


# ------------------------------------------------------------------ best bounds on beta and best densities, printed and drawn
def c_disp(case, ctx):
    bs = p23.build(case)
    out = io.StringIO()
    plt.close("all")
    with contextlib.redirect_stdout(out):
        bb.display_beta_bounds(bs)
    segs = [sorted(zip(map(F, map(str, ln.get_xdata())), map(float, ln.get_ydata()))) for n in plt.get_fignums() for ax in plt.figure(n).axes for ln in ax.get_lines()]
    plt.close("all")
    left = list(segs)
    for b, h in zip(case["bs"], bs):
        want = sorted((F(x), float(F(b["m"]) * F(x) + F(b["c"]))) for x in b["iv"][:2])
        hit = next((g for g in left if len(g) == 2 and all(close(float(u[0]), float(v[0])) and close(u[1], v[1]) for u, v in zip(g, want))), None)
        expect(hit is not None, lambda: f"the bound {h.data} is drawn as {left}")
        left.remove(hit)
        expect(any(h.name in ln and str(h.data.bound) in ln for ln in out.getvalue().splitlines()), lambda: f"{h.name}: {h.data} is not printed: {out.getvalue()}")
    expect(not left, lambda: f"curves that are no bound: {left}")
    ctx.nontrivial(len(bs) > 1)


def s_best():
    return st.fixed_dictionaries(dict(bs=st.lists(p31.s_bound(), min_size=1, max_size=3), at=st.lists(st.integers(0, 499), min_size=60, max_size=100, unique=True)))


def c_best(case, ctx):
    bs = [b for b in case["bs"] if p31.fine(b)]
    if not bs:
        raise Discard()
    S = p31.H.Hypothesis_Set([p31.build(b, i, False) for i, b in enumerate(bs)])
    out = io.StringIO()
    plt.close("all")
    with contextlib.redirect_stdout(out):
        got = p31.zd.best_zero_density_estimate(S, verbose=True)
    cs = [(ln.get_label(), list(zip(map(float, ln.get_xdata()), ln.get_ydata()))) for n in plt.get_fignums() for ax in plt.figure(n).axes for ln in ax.get_lines()]
    plt.close("all")
    seen = set()
    for word in ("computed", "literature"):
        c = [c for lab, c in cs if word in lab.lower()]
        expect(len(c) == 1 and len(c[0]) >= 100, f"{len(c)} curves are labelled {word}")
        expect(c[0][0][0] == 0.5 and c[0][-1][0] > 0.99, "range of sigma")
        for i in case["at"]:
            x, y = c[0][i % len(c[0])]
            if any(abs(x - float(F(v))) < 1e-9 for b in bs for v in b["iv"]):
                continue
            vs = [float(p31.v_of(b, F(x))) for b in bs if F(b["iv"][0]) < x < F(b["iv"][1])]
            if vs:
                expect(close(float(y), min(vs), 1e-6), lambda: f"{word} A({x}): drawn {y}, the best is {min(vs)}")
                seen.add(vs.index(min(vs)) if len(vs) == len(bs) else -1)
    shown = [h for h in got if h.data.interval.x0 < 0.99]
    lines = [ln for ln in out.getvalue().splitlines() if ln.strip()]
    for h in shown:
        expect(any(str(h.data.interval) in ln and h.proof in ln for ln in lines), lambda: f"the bound {h.data} is not printed: {lines}")
    ctx.nontrivial(len(bs) > 1)


TESTS = [
    Test("energy", s_any, c_energy, 20, 200, 1, "30-60 points of every curve of the energy picture", cpu=600),
    Test("density", s_any, c_density, 20, 200, 1, "30-60 points of every curve of the zero density picture", cpu=600),
    Test("functions", s_pw, c_pw, 100, 3000, 2, "piecewise functions with missing and overlapping pieces on a square; non-trivial with two or more pieces"),
    Test("sets", s_set, c_set, 160, 5000, 2, "unions of 1-3 polygons over a window; non-trivial when some grid points are inside and some outside"),
    Test("van_der_corput", s_vdc, c_vdc, 400, 20000, 1, "k = 2..40 and alpha in [0, 2]; non-trivial when 0 < alpha < 1/2"),
    Test("van_der_corput_plots", s_any, c_vdcplots, 5, 300, 1, "30-60 points of every curve"),
    Test("beta", s_any, c_beta, 5, 300, 1, "30-60 points of the curves of the beta picture"),
    Test("display_beta", p23.s_beta, c_disp, 60, 2000, 2, "1-6 bounds on beta; non-trivial with two"),
    Test("best_density", s_best, c_best, 24, 300, 3, "60-100 points of the curves for 1-3 estimates; non-trivial with two"),
    Test("exponent_pairs", s_any, c_pairs, 40, 300, 1, "the points drawn against the table"),
]
