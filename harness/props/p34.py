"""The shipped derivations (derived.py) prove the theorems they are named after, and prove_zero_density gives the supremum the theorems prescribe."""
import contextlib
import io
import re
from fractions import Fraction as F

from hypothesis import strategies as st

import hyp
from core import Discard, Test, expect
from lib import derived, mod
from props import p23
from props.p29 import same, value_at
from props.p30 import both, lines_of, sup_over

fn = mod("functions")
_d = {}


def D():
    if "d" not in _d:
        with contextlib.redirect_stdout(io.StringIO()):
            _d["d"] = derived()
        literature_kept()
    return _d["d"]


def run(name, *args, **kw):
    """the result of a shipped derivation and what it printed"""
    key = (name, args)
    if key not in _d:
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = getattr(D(), name)(*args, **kw)
        _d[key] = (r, out.getvalue())
    return _d[key]


def literature_kept():
    """no derivation may add to, remove from or rewrite the recorded literature"""
    d = D()
    now = sorted((h.hypothesis_type, h.name, h.desc(), str(h.reference.year())) for h in d.literature)
    old = _d.setdefault("literature", now)
    if now != old:
        _d["literature"] = now
        expect(False, f"the recorded literature was changed: {[x for x in now if x not in old][:3]} added or altered, "
                      f"{[x for x in old if x not in now][:3]} gone ({len(old)} before, {len(now)} now)")


def walk(h, seen=None):
    seen = {} if seen is None else seen
    if id(h) not in seen:
        seen[id(h)] = h
        for x in h.dependencies:
            walk(x, seen)
    return list(seen.values())


# ------------------------------------------------------------------ named theorems
def mx(*fs):
    return lambda s: max(f(s) for f in fs)


# derivation: list of (from, to, A(sigma)); between the end points the derivation must give exactly A(sigma) (1 - sigma)
ingham = [("1/2", "3/4", lambda s: 3 / (2 - s))]
huxley = [("3/4", 1, lambda s: 3 / (3 * s - 1))]
jutila = [("11/14", 1, lambda s: F(2))]
hba = [("11/14", 1, lambda s: 9 / (7 * s - 1))]
hbb = [("20/23", "25/28", mx(lambda s: 3 / (10 * s - 7), lambda s: 4 / (4 * s - 1))), ("25/28", 1, lambda s: 4 / (4 * s - 1))]
gm = [("7/10", "9/10", lambda s: 15 / (5 * s + 3))]
hbx = [("20/23", 1, lambda s: 3 / (10 * s - 7))]
DENSITY = {"ingham_1940": ingham, "huxley_1972": huxley, "jutila_1977": jutila, "heathbrown_1979a": hba, "heathbrown_1979b": hbb,
           "guth_maynard_2024": gm, "heathbrown_extended": hbx}
DENSITY = {"prove_zero_density_" + k + v: t for k, t in DENSITY.items() for v in ("", "_v2")}
YEAR = {"ingham_1940": (-1, 1940), "huxley_1972": (1972, 1972), "jutila_1977": (1977, 1977), "heathbrown_1979a": (1978, 1979),
        "heathbrown_1979b": (1978, 1979), "guth_maynard_2024": (2024, 2024), "heathbrown_extended": (1977, 1979)}

# A*(sigma)
ENERGY = {
    "prove_heath_brown_energy_estimate": [
        ("1/2", "2/3", lambda s: (10 - 11 * s) / ((2 - s) * (1 - s))), ("2/3", "3/4", lambda s: (18 - 19 * s) / ((4 - 2 * s) * (1 - s))),
        ("3/4", "5/6", mx(lambda s: (18 - 19 * s) / (2 * (3 * s - 1) * (1 - s)), lambda s: 4 * (10 - 9 * s) / (5 * (4 * s - 1) * (1 - s)))),
        ("5/6", "25/28", lambda s: 12 / (4 * s - 1))],
    "prove_improved_heath_brown_energy_estimate": [
        ("3/4", "4/5", mx(lambda s: (18 - 19 * s) / (2 * (3 * s - 1) * (1 - s)), lambda s: 4 * (10 - 9 * s) / (5 * (4 * s - 1) * (1 - s))))],
    "prove_zero_density_energy_2": [
        ("7/10", "3/4", mx(lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s)), lambda s: 2 * (45 - 44 * s) / ((2 * s + 15) * (1 - s))))],
    "prove_zero_density_energy_3": [
        ("3/4", "289/380", lambda s: (197 - 220 * s) / (8 * (5 * s - 1) * (1 - s))),
        ("289/380", "4/5", mx(lambda s: 3 * (29 - 30 * s) / (5 * (5 * s - 1) * (1 - s)), lambda s: 4 * (10 - 9 * s) / (5 * (4 * s - 1) * (1 - s))))],
    "prove_zero_density_energy_4": [
        ("664/877", "284/375", lambda s: (650 * s - 473) / (5 * (190 * s - 141) * (1 - s))),
        ("284/375", "31/40", mx(lambda s: (72 - 91 * s) / (7 * (11 * s - 8) * (1 - s)), lambda s: 5 * (18 - 19 * s) / (2 * (5 * s + 3) * (1 - s))))],
    "prove_zero_density_energy_5": [
        ("42/55", "97/127", lambda s: (18 - 19 * s) / (6 * (15 * s - 11) * (1 - s))), ("97/127", "79/103", lambda s: 3 * (18 - 19 * s) / (4 * (4 * s - 1) * (1 - s)))],
    "prove_zero_density_energy_6": [
        ("79/103", "33/43", lambda s: (18 - 19 * s) / (2 * (37 * s - 27) * (1 - s))), ("33/43", "84/109", lambda s: 5 * (18 - 19 * s) / (2 * (13 * s - 3) * (1 - s)))],
    "prove_zero_density_energy_8": [
        ("37/49", "4359/5770", lambda s: (270 * s - 173) / (16 * (125 * s - 93) * (1 - s))), ("4359/5770", "241/319", lambda s: (890 * s - 653) / (10 * (125 * s - 93) * (1 - s))),
        ("241/319", "443/586", lambda s: (1151 - 1190 * s) / (20 * (15 * s - 2) * (1 - s)))],
    "prove_zero_density_energy_9": [
        ("443/586", "409/541", lambda s: (810 * s - 593) / (5 * (230 * s - 171) * (1 - s))), ("409/541", "373/493", lambda s: 4 * (266 - 275 * s) / (5 * (55 * s - 7) * (1 - s)))],
    "prove_zero_density_energy_10": [
        ("373/493", "314/415", lambda s: (730 * s - 533) / (30 * (35 * s - 26) * (1 - s))), ("314/415", "171/226", lambda s: 3 * (26 - 33 * s) / ((85 * s - 62) * (1 - s))),
        ("171/226", "103/136", lambda s: (174 - 185 * s) / ((31 * s + 2) * (1 - s)))],
}
FAST = ["prove_zero_density_energy_5", "prove_zero_density_energy_6", "prove_zero_density_energy_10", "prove_improved_heath_brown_energy_estimate"]


def flat(x):
    return [h for y in x for h in flat(y)] if isinstance(x, list) else [x]


@st.composite
def s_named(draw, table):
    name = draw(st.sampled_from(sorted(table)))
    lo, hi = F(table[name][0][0]), F(table[name][-1][1])
    q = draw(st.sampled_from([97, 389, 1009]))
    at = draw(st.lists(st.integers(1, q - 1), min_size=20, max_size=40, unique=True))
    return dict(name=name, at=[str(lo + (hi - lo) * F(k, q)) for k in at])


def c_named(case, ctx, table):
    name = case["name"]
    energy = table is not DENSITY
    hs, _ = run(name)
    hs = flat(hs)
    expect(len(hs) > 0, f"{name} proves nothing")
    kind = "Zero density energy estimate" if energy else "Zero density estimate"
    expect(all(h.hypothesis_type == kind for h in hs), f"{name}: {[h.hypothesis_type for h in hs]}")
    pieces = [(h.data, h.data.interval) for h in hs]
    expect(all(F(1, 2) <= iv.x0 <= iv.x1 <= 1 for _, iv in pieces), lambda: f"{name} claims something on {[str(iv) for _, iv in pieces]}")
    n = 0
    for s in map(F, case["at"]):
        rows = [f for lo, hi, f in table[name] if F(lo) < s < F(hi)]
        got = value_at(pieces, s)
        if got == "end" or not rows:
            continue
        expect(got is not None, lambda: f"{name} proves nothing at sigma = {s}")
        want = rows[0](s) * (1 if energy else 1 - s)
        expect(same(got, want), lambda: f"{name} at sigma = {s}: the theorem is {want}, proved {got}")
        n += 1
    if not energy:
        key = next(k for k in sorted(YEAR, key=len, reverse=True) if k in name)
        for h in hs:
            y = h.proof_date()
            lo, hi = YEAR[key]
            expect(lo <= y <= hi, lambda: f"{name} has proof date {y}")
            expect(h.dependencies and {x.hypothesis_type for x in h.dependencies} <= {"Large value estimate", "Zeta large value estimate"}, f"{name}: dependencies")
    ctx.event(name)
    ctx.nontrivial(n >= 10)


# ------------------------------------------------------------------ prove_zero_density over subsets of the literature
HUX = ("Huxley", [["2", "-2", "0"], ["4", "-6", "1"]])
GMLV = ("Guth", [["2", "-2", "0"], ["18/5", "-4", "0"], ["12/5", "-4", "1"]])
HBLV = ("Heath", [["2", "-2", "0"], ["10", "-13", "1"]])
KS = [1, 2, 3, 4, 5, 7, 10, 19]
L2 = [["2", "-2", "0"], ["1", "-2", "1"]]


def jut(k):
    return [["2", "-2", "0"], [str(4 - F(2, k)), str(-(6 - F(2, k))), "1"], [str(6 * k), str(-8 * k), "1"]]


def pick(label, params=None):
    L = D().literature
    h = [x for x in L.list_hypotheses("Large value estimate") if x.reference.label == label]
    return h


@st.composite
def s_subset(draw):
    method = draw(st.sampled_from([1, 2]))
    lvs = draw(st.lists(st.sampled_from(["huxley", "hb", "gm"]), unique=True, max_size=2))
    ks = draw(st.lists(st.sampled_from(KS), unique=True, max_size=2 if method == 2 else 1))
    if method == 1 and len(lvs) + len(ks) > 2:
        ks = []
    z = draw(st.lists(st.sampled_from(["hb12", "mu"]), unique=True, max_size=2))
    a = F(draw(st.integers(52, 92)), 100)
    b = a + F(draw(st.sampled_from([3, 5, 8])), 100)
    if method == 1:
        t0 = draw(st.sampled_from(["2", "5/2", "3", "4", "9/4"]))
    else:
        t0 = draw(st.sampled_from([["2", "-1"], ["-1", "3"], ["-1/3", "7/3"], ["-7", "10"], ["-3/4", "3"], ["3/5", "1"], ["3/2", "0"], ["2", "0"], ["-4", "8"]]))
    return dict(method=method, lvs=lvs, ks=ks, z=z, iv=[str(a), str(b)], t0=t0, at=draw(st.lists(st.integers(1, 96), min_size=3, max_size=6)))


def c_subset(case, ctx):
    d = D()
    L = d.literature
    find = {"huxley": "Huxley large value estimate", "hb": "Heath-Brown large value estimate", "gm": "Guth--Maynard large value estimate"}
    rows = {"huxley": HUX[1], "hb": HBLV[1], "gm": GMLV[1]}
    extra, lists = [], [L2]
    for v in case["lvs"]:
        extra.append(L.find_hypothesis(keywords=find[v]))
        lists.append(rows[v])
    for k in case["ks"]:
        extra.append(next(h for h in L.list_hypotheses("Large value estimate") if re.search(rf"Jutila.* k = {k}$", h.name)))
        lists.append(jut(k))
    if "hb12" in case["z"]:
        extra.append(L.find_hypothesis(hypothesis_type="Zeta large value estimate", keywords="Heath-Brown"))
    if "mu" in case["z"]:
        T = d.Hypothesis_Set()
        T.add_hypothesis(L.find_hypothesis(data=d.Bound_mu(F(1, 2), F(1, 6))))
        extra += d.zlv.mu_to_zlv(T)
    s0, s1 = (F(v) for v in case["iv"])
    I = fn.Interval(s0, s1)
    two = case["method"] == 2
    if two:
        c, m = (F(v) for v in case["t0"])
        if c + m * s0 <= F(1, 2) or c + m * s1 <= F(1, 2):
            raise Discard
        t0 = fn.Affine(m, c, I)
    else:
        t0 = F(case["t0"])
    with contextlib.redirect_stdout(io.StringIO()):
        out = d.prove_zero_density(list(extra), False, I, "generated", tau0=t0, method=case["method"])
    pieces = [(h.data, h.data.interval) for h in out]
    for h in out:
        expect(h.hypothesis_type == "Zero density estimate" and len(h.dependencies) >= 1, "type and dependencies")
    n = 0
    for k in case["at"]:
        s = s0 + (s1 - s0) * F(k, 97)
        if two:
            t = c + m * s
            r1, r2 = (F(2, 3) * t, t), (F(2), F(4, 3) * t)
        else:
            r1, r2 = (t0, 2 * t0), (F(2), t0)
        G = [lines_of(bs, s, F(p)) for bs in lists for p in ([1] if two else [1, 2, 3, 4, 5])]
        Z = list(G)
        cuts = []
        if "hb12" in case["z"]:
            Z.append([(6 - 12 * s, F(2))])
        if "mu" in case["z"]:
            cuts.append((F(2), F(10) ** 7, F(1, 2) - s, F(1, 6)))
            Z.append([(F(0), F(1))])
        a, b = sup_over(G, [], *r1), sup_over(Z, cuts, *r2)
        want = both(a, b)
        got = value_at(pieces, s)
        if got == "end":
            continue
        if want is None or want <= 0:
            expect(got is None or got <= 0, lambda: f"no zeros at {s}, computed {got}")
            continue
        expect(got is not None and same(got, want), lambda: f"sup rho/tau at sigma = {s} is {want} (general {a}, zeta {b}), computed {got}")
        n += 1
    literature_kept()
    ctx.event("method 2" if two else "method 1")
    ctx.nontrivial(n >= 2 and len(extra) >= 1)


# ------------------------------------------------------------------ exponent pairs
def c_vdc(case, ctx):
    d = D()
    k = case["k"]
    if k < 2:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = d.van_der_corput_pair(k)
        except ValueError:
            return
        expect(False, f"k = {k} gives {r}")
    with contextlib.redirect_stdout(io.StringIO()):
        h = d.van_der_corput_pair(k)
    q = 2 ** k - 2
    expect((h.data.k, h.data.l) == (F(1, q), 1 - F(k - 1, q)), lambda: f"van der Corput pair {k}: ({h.data.k}, {h.data.l})")
    ks = walk(h)
    pairs = {(x.data.k, x.data.l) for x in ks if x.hypothesis_type == "Exponent pair"}
    want = {(F(0), F(1))} | {(F(1, 2 ** j - 2), 1 - F(j - 1, 2 ** j - 2)) for j in range(2, k + 1)}
    expect(pairs == want, lambda: f"the proof of van der Corput pair {k} uses {sorted(pairs)}")
    names = {x.name for x in ks if x.hypothesis_type == "Exponent pair transform"}
    expect(names == ({"van der Corput B transform"} | ({"van der Corput A transform"} if k > 2 else set())), f"transforms {names}")
    ctx.nontrivial(k > 3)


A = lambda k, l: (k / (2 * k + 2), F(1, 2) + l / (2 * k + 2))
B = lambda k, l: (l - F(1, 2), k + F(1, 2))
COROLLARY = [("1/6", "2/3"), ("13/31", "16/31"), ("4/11", "6/11"), ("2/7", "4/7"), ("5/24", "15/24"), ("4/18", "11/18")]


@st.composite
def s_word(draw):
    return dict(word=draw(st.text("AB", max_size=4)), w=draw(st.integers(0, 6)), v=draw(st.text("AB", max_size=3)), lam=draw(st.sampled_from(["0", "1", "1/2", "1/3", "2/7"])))


def apply(word):
    p = (F(0), F(1))
    for c in reversed(word):
        p = A(*p) if c == "A" else B(*p)
    return p


def c_word(case, ctx):
    """every pair the A and B processes (and convexity) give is provable from the literature, by 1920 at the latest, with a sound proof"""
    d = D()
    w = case["w"]
    if w < len(COROLLARY):
        p = tuple(F(v) for v in COROLLARY[w])
    else:
        lam = F(case["lam"])
        p, q = apply(case["word"]), apply(case["v"])
        p = tuple(lam * a + (1 - lam) * b for a, b in zip(p, q))
    with contextlib.redirect_stdout(io.StringIO()):
        h = d.best_proof_of_exponent_pair(p[0], p[1], verbose=False)
    expect(h is not None, lambda: f"no proof of {p}")
    expect((h.data.k, h.data.l) == p, lambda: f"asked for {p}, proved {h.data}")
    expect(h.proof_date() <= 1920, lambda: f"{p} proved only by {h.proof_date()}")
    valid(h)
    literature_kept()
    ctx.nontrivial(len(walk(h)) > 3)


def valid(h):
    for x in walk(h):
        if x.hypothesis_type != "Exponent pair" or not x.dependencies:
            continue
        src = [(y.data.k, y.data.l) for y in x.dependencies if y.hypothesis_type == "Exponent pair"]
        tr = [y for y in x.dependencies if y.hypothesis_type == "Exponent pair transform"]
        p = (x.data.k, x.data.l)
        if tr and len(src) == 1:
            ok = {"van der Corput A transform": A, "van der Corput B transform": B}
            names = [y.name for y in tr]
            if all(n in ok for n in names):
                expect(any(ok[n](*src[0]) == p for n in names), lambda: f"{p} does not follow from {src[0]} by {names}")
        elif src:
            expect(in_hull(p, src), lambda: f"{p} is no convex combination of {src}")


def in_hull(p, pts):
    """p is dominated by a convex combination of at most three of the points (p itself on the hull)"""
    for a in pts:
        if a == p:
            return True
        for b in pts:
            if a == b:
                continue
            cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
            dt = (p[0] - a[0]) * (p[0] - b[0]) + (p[1] - a[1]) * (p[1] - b[1])
            if cr == 0 and dt <= 0:
                return True
            for c in pts:
                s = [(v[0] - u[0]) * (p[1] - u[1]) - (v[1] - u[1]) * (p[0] - u[0]) for u, v in ((a, b), (b, c), (c, a))]
                ar = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
                if ar != 0 and (all(v >= 0 for v in s) or all(v <= 0 for v in s)):
                    return True
    return False


NEW = [("89/1282", "997/1282"), ("652397/9713986", "7599781/9713986"), ("10769/351096", "609317/702192"), ("89/3478", "15327/17390")]


# ------------------------------------------------------------------ pairs from assumed bounds and pairs
@st.composite
def s_assumed(draw):
    c = draw(p23.s_beta())
    c["eps"] = draw(st.lists(hyp.pair(), min_size=0, max_size=3))
    if draw(st.integers(0, 2)):
        c["eps"] = [["0", "1"]] + c["eps"]
    c["tr"] = draw(st.sampled_from(["", "A", "A", "B", "C", "D", "AD", "BD"]))
    c["q"] = draw(st.integers(0, 12))
    c["dl"] = draw(st.sampled_from(["0", "0", "0", "1/1000", "-1/1000", "1/40"]))
    return c


def c_assumed(case, ctx):
    d = D()
    base = p23.build(case)
    known = [hyp.ep_hyp(p, 1990) for p in case["eps"]]
    S = hyp.H.Hypothesis_Set(base + known + hyp.transform_hyps(case["tr"]))
    pts = {(F(a), F(b)) for a, b in case["eps"]}
    for n in case["tr"]:
        if n in hyp.TRANS:
            pts |= {hyp.TRANS[n](p) for p in pts}
    bs = list(case["bs"])
    for k, l in sorted(pts):
        bs.append(dict(m=l - k, c=k, iv=["0", "1/2", True, True]))
        if "D" in case["tr"]:
            (m0, c0), (m1, c1) = hyp.Dlines((k, l))
            x = None if m0 == m1 else (c1 - c0) / (m0 - m1)
            cuts = sorted({F(0), F(1, 2)} | ({x} if x is not None and 0 < x < F(1, 2) else set()))
            for a, b in zip(cuts, cuts[1:]):
                y = (a + b) / 2
                m, c = max([(m0, c0), (m1, c1)], key=lambda t: t[0] * y + t[1])
                bs.append(dict(m=m, c=c, iv=[a, b, True, True]))
    want = p23.implied(dict(bs=bs))
    every = set(want) | ({hyp.B(p) for p in want} if "B" in case["tr"] else set())
    pick = sorted(every) + sorted(pts)
    if not pick:
        pick = [(F(1, 6), F(2, 3))]
    q = pick[case["q"] % len(pick)]
    q = (q[0], q[1] + F(case["dl"]))
    out = io.StringIO()
    lit = case.get("lit")
    if lit:
        # the same assumptions as the recorded literature
        keep, d.literature = d.literature, S
    try:
        with contextlib.redirect_stdout(out):
            if lit:
                h = d.prove_exponent_pair(q[0], q[1], simplify_deps=lit == 2, verbose=True)
            else:
                h = d.prove_exponent_pair_with_hypotheses(S, q[0], q[1])
    finally:
        if lit:
            d.literature = keep
    if lit:
        expect({id(x) for x in S} == {id(x) for x in base + known} | {id(x) for x in S if x.hypothesis_type.endswith("transform")}, "the literature was changed")
        expect((h is None) == ("Failed" in out.getvalue()) and f"({q[0]}, {q[1]})" in out.getvalue(), lambda: f"printed {out.getvalue()!r}, returned {h}")
    yes = q in every or (bool(want) and q in {(F(a), F(b)) for a, b in case["eps"]})
    if yes:
        expect(h is not None and (h.data.k, h.data.l) == q, lambda: f"the pair {q} follows from the assumptions {bs} but is not proved ({h and h.data})")
        hyp.check_derivation(h, base + known)
    elif q not in pts:
        expect(h is None, lambda: f"the pair {q} is claimed, the assumptions {bs} give {sorted(every)}")
    literature_kept()
    ctx.nontrivial(yes if lit else yes and q not in pts and len(want) > 1)
    ctx.event("yes" if yes else "no")


@st.composite
def s_lit(draw):
    c = draw(s_assumed())
    c["eps"] = [["0", "1"]] + [e for e in c["eps"] if e != ["0", "1"]]
    c["tr"] = c["tr"].replace("D", "")
    if draw(st.booleans()):
        c["bs"] = [dict(m=str(l - k), c=str(k), iv=[a, b, True, True]) for (k, l), a, b in
                   draw(st.lists(st.sampled_from([((F(1, 6), F(2, 3)), "0", "1/2"), ((F(1, 14), F(11, 14)), "0", "1/2"), ((F(1, 30), F(13, 15)), "0", "1/3"),
                                                  ((F(2, 7), F(4, 7)), "1/3", "1/2"), ((F(1, 2), F(1, 2)), "1/4", "1/2"), ((F(13, 84), F(55, 84)), "1/5", "1/2")]),
                                 min_size=2, max_size=5, unique_by=str))]
    c["lit"] = draw(st.sampled_from([1, 2, 2]))
    return c


# ------------------------------------------------------------------ Heath-Brown's pairs
def hb(k):
    return (F(2, (k - 1) ** 2 * (k + 2)), 1 - F(3 * k - 2, k * (k - 1) * (k + 2)))


def c_hb(case, ctx):
    """Heath-Brown's k-th derivative test gives his pairs: those well above the largest recorded k, and nothing beyond all of them"""
    _, text = run("prove_heathbrown_exponent_pairs")
    pairs = {(F(a), F(b)) for a, b in re.findall(r"exponent pair \((-?[\d/]+), (-?[\d/]+)\)", text.rsplit("-----", 1)[1])}
    k = case["k"]
    if k <= 8:
        expect(hb(k) in pairs, lambda: f"Heath-Brown's pair for k = {k}, {hb(k)}, is not among {sorted(pairs)}")
    expect((F(1, 6), F(2, 3)) in pairs, "the pair (1/6, 2/3)")
    # the line through the pairs for k and k + 1
    (a, b), (c, e) = hb(k), hb(k + 1)
    for p in pairs:
        expect(p[1] >= b + (e - b) * (p[0] - a) / (c - a), lambda: f"the pair {p} is better than Heath-Brown's bounds: beyond the line of k = {k}, {k + 1}")
    ctx.nontrivial(k <= 8)


def c_new(case, ctx):
    d = D()
    i = case["i"]
    if i < len(NEW):
        p = tuple(F(v) for v in NEW[i])
        want = True
    else:
        # better than what any recorded bound gives: below the lower bound for mu, or just under a proved vertex
        k, l = (F(v) for v in NEW[i % len(NEW)])
        p = (k, l - F(1, case["n"]))
        want = False
    with contextlib.redirect_stdout(io.StringIO()):
        h = d.prove_exponent_pair(p[0], p[1])
    if want:
        expect(h is not None and (h.data.k, h.data.l) == p, lambda: f"{p} is not proved")
        expect(h.proof_date() == 2023, lambda: f"{p} has proof date {h.proof_date()}")
        bad = {x.hypothesis_type for x in walk(h)} - {"Upper bound on beta", "Exponent pair", "Exponent pair transform", "Exponent pair to beta bound transform"}
        expect(not bad, lambda: f"the proof of {p} uses {bad}")
    else:
        expect(h is None, lambda: f"{p} is claimed, which no recorded result gives")
    ctx.nontrivial(want)


def c_mu(case, ctx):
    h, text = run("prove_hardy_littlewood_mu_bound")
    expect((h.data.sigma, h.data.mu) == (F(1, 2), F(1, 6)), f"{h.data}")
    expect(h.proof_date() <= 1920, f"{h.proof_date()}")
    expect({x.hypothesis_type for x in walk(h)} == {"Upper bound on mu", "Exponent pair", "Exponent pair transform"}, f"{[x.name for x in walk(h)]}")
    ctx.nontrivial()


# ------------------------------------------------------------------ the Guth-Maynard large values theorem at tau = 6/5
def c_gm(case, ctx):
    _, text = run("prove_guth_maynard_large_values_theorem")
    rows = re.findall(r"'([^']*)>=\s*0'", text)
    expect(rows, f"nothing proved: {text}")
    s, r = F(case["s"]), F(case["r"])

    def value(row):
        t = 0
        for sign, num, var in re.findall(r"([+-]?)\s*(\d+(?:/\d+)?)?\s*([στρ])?", row):
            if not num and not var:
                continue
            v = F(num) if num else F(1)
            t += (-v if sign == "-" else v) * (s if var == "σ" else r if var else 1)
        return t
    got = all(value(row) >= 0 for row in rows)
    want = F(7, 10) <= s <= F(4, 5) and 0 <= r <= max(2 - 2 * s, F(18, 5) - 4 * s)
    expect(got == want, lambda: f"(sigma, rho) = ({s}, {r}) at tau = 6/5: allowed by the theorem {want}, by the derivation {got} ({rows})")
    ctx.nontrivial(F(7, 10) <= s <= F(4, 5))


TESTS = [
    Test("named", lambda: s_named(DENSITY), lambda c, x: c_named(c, x, DENSITY), 84, 1500, 4,
         rule="a shipped derivation of a zero density theorem compared at ten or more sigma"),
    Test("energy", lambda: s_named({k: ENERGY[k] for k in FAST}), lambda c, x: c_named(c, x, ENERGY), 24, 200, 4,
         rule="a shipped derivation of an energy theorem compared at ten or more sigma"),
    Test("energy_slow", lambda: s_named({k: ENERGY[k] for k in ENERGY if k not in FAST}), lambda c, x: c_named(c, x, ENERGY), 0, 200, 4,
         rule="a shipped derivation of an energy theorem compared at ten or more sigma"),
    Test("subset", s_subset, c_subset, 120, 3000, 4, rule="at least one recorded estimate beyond L2 and two sigma with a positive supremum"),
    Test("van_der_corput", lambda: st.fixed_dictionaries(dict(k=st.integers(-2, 90))), c_vdc, 60, 500, 1, rule="k > 3"),
    Test("word", s_word, c_word, 60, 1500, 2, rule="a proof with more than three steps"),
    Test("assumed", s_assumed, c_assumed, 1500, 6000, 4,
         rule="1-6 assumed bounds on beta, up to four pairs and at most two transforms, asked for one of the pairs implied or one just beside; "
              "non-trivial when the pair is not among the assumed ones or their transforms and several are implied"),
    Test("as_literature", s_lit, c_assumed, 60, 1500, 4,
         rule="the same assumptions put in place of the recorded literature, the proof simplified or not and printed; non-trivial when there is a proof"),
    Test("heath_brown_pairs", lambda: st.fixed_dictionaries(dict(k=st.one_of(st.integers(4, 8), st.integers(4, 40)))), c_hb, 10, 60, 1, rule="k = 4..8, where the recorded bounds suffice"),
    Test("new_pairs", lambda: st.fixed_dictionaries(dict(i=st.integers(0, 7), n=st.integers(1000, 10 ** 6))), c_new, 0, 40, 4,
         rule="one of the four pairs new in 2024", ),
    Test("hardy_littlewood", lambda: st.fixed_dictionaries(dict(i=st.just(0))), c_mu, 1, 2, 1, rule="always"),
    Test("guth_maynard", lambda: st.fixed_dictionaries(dict(s=st.integers(650, 850).map(lambda v: str(F(v, 1000))), r=st.integers(-50, 1000).map(lambda v: str(F(v, 1000))))),
         c_gm, 150, 3000, 1, rule="sigma within [7/10, 4/5]"),
]
