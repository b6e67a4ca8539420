"""Regions rewritten as disjoint unions of polytopes."""
import random
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod
from props import p08
from props.p04 import rows_of

P = mod("polytope").Polytope
R = mod("region").Region
RT = mod("region").Region_Type


@st.composite
def halfplane_piece(draw, d, box):
    """Like the estimates in the code: the union of a few halfspaces in a box, made disjoint."""
    hps = [[F(x) for x in draw(gen.cut_through(d, box))] for _ in range(draw(st.integers(1, 3)))]
    parts, neg = [], []
    for h in hps:
        parts.append(["P", {"d": d, "ineq": box + [[str(x) for x in h]] + [[str(x) for x in n] for n in neg],
                            "eq": []}])
        neg.append([-x for x in h])
    return ["D", parts]


@st.composite
def partition(draw, d, box):
    """A few cells of a grid over the box."""
    a = draw(gen.cut_through(d, box))
    b = draw(gen.cut_through(d, box))
    cells = []
    for s in (1, -1):
        for t in (1, -1):
            cells.append(["P", {"d": d, "ineq": box + [[str(F(x) * s) for x in a],
                                                      [str(F(x) * t) for x in b]], "eq": []}])
    keep = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    cells = [c for c, k in zip(cells, keep) if k] or cells
    return ["D", cells]


@st.composite
def operand(draw, d, box):
    k = draw(st.sampled_from(["hp", "hp", "part", "P", "Pbig"]))
    if k == "hp":
        return draw(halfplane_piece(d, box))
    if k == "part":
        return draw(partition(d, box))
    if k == "P":
        return ["P", {"d": d, "ineq": box + [draw(gen.cut_through(d, box))], "eq": []}]
    return ["P", {"d": d, "ineq": [[str(F(r[0]) + 1)] + r[1:] for r in box], "eq": []}]


@st.composite
def s_int(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    box = draw(gen.box_rows(d))
    n = draw(st.integers(1, 5))
    ops = [draw(operand(d, box)) for _ in range(n)]
    t = ["I", ops]
    if draw(st.integers(0, 3)) == 0:  # nested
        t = ["I", [t, draw(operand(d, box))]]
    if draw(st.integers(0, 5)) == 0:
        t = ["I", [draw(operand(d, box)), ["D", [t]]]]
    return dict(d=d, tree=t, pts=draw(st.lists(gen.point(d, -3, 3, (7, 11, 13)), min_size=2, max_size=5)))


def check_pieces(r, t, d, pts, ctx, disjoint=True):
    expect(r.region_type == RT.DISJOINT_UNION, "the result is not a disjoint union")
    expect(all(c.region_type == RT.POLYTOPE for c in r.child), "a member of the result is not a polytope")
    Hp = [rows_of(c.child) for c in r.child]
    for h in Hp:
        p = geo.interior_point(h, d)
        if p is not None:
            pts = pts + [tuple(p)]
    pts = p08.generic(t, pts)
    pts = [p for p in pts if all(geo.val(q, p) != 0 for h in Hp for q, _ in h if any(q[1:]))]
    ins = []
    for p in pts:
        w = p08.member(t, p)
        ins.append(w)
        n = sum(1 for c in r.child if c.child.contains(list(p)))
        expect((n > 0) == w, f"point {[str(x) for x in p]} is{'' if w else ' not'} in the region but "
               f"{n} pieces contain it")
        expect(not disjoint or n <= 1, f"{n} pieces contain {[str(x) for x in p]}")
    return ins, Hp


def deep_points(t, d, extra):
    """Interior points of combinations: one leaf from each operand (for intersections)."""
    pts = p08.points(t, d, extra)
    if t[0] == "I":
        acc = [[]]
        for c in t[1]:
            nxt = []
            for a in acc:
                for l in p08.leaves(c):
                    h = a + gen.H(l)
                    if geo.interior_point(h, d) is not None:
                        nxt.append(h)
            acc = nxt[:10]
        pts += [tuple(geo.interior_point(h, d)) for h in acc if h]
    return pts


def c_int(case, ctx):
    d, t = case["d"], case["tree"]
    r0 = p08.build(t)
    pts = deep_points(t, d, case["pts"])
    r = r0.as_disjoint_union()
    ins, Hp = check_pieces(r, t, d, pts, ctx)
    ctx.nontrivial(any(ins) and not all(ins) and len(p08.leaves(t)) > 2)
    ctx.event("pieces_0" if not Hp else "pieces_1" if len(Hp) == 1 else "pieces_2+")
    for i in range(len(Hp)):
        for j in range(i):
            expect(geo.interior_point(Hp[i] + Hp[j], d) is None, f"pieces {j} and {i} overlap")
    for p in pts[:6]:
        expect(r0.contains(list(p)) == p08.member(t, p), "the region itself was changed")


@st.composite
def s_many(draw):
    """More than 20 operands and at least 100 pieces: the periodic simplification runs."""
    nx, ny = draw(st.sampled_from([(11, 10), (12, 10), (16, 8)]))
    holes = draw(st.sets(st.integers(0, nx * ny - 1), max_size=3))
    cut_at = draw(st.integers(18, 23))
    order = draw(st.sampled_from(["grid", "checker", "columns", "shuffled", "shuffled"]))
    return dict(nx=nx, ny=ny, holes=sorted(holes), cut_at=cut_at, order=order, mix=draw(st.integers(0, 10**6)),
                cut=draw(gen.cut_through(2, [["0", "1", "0"], [str(nx), "-1", "0"],
                                             ["0", "0", "1"], [str(ny), "0", "-1"]])),
                total=draw(st.integers(21, 24)),
                pts=draw(st.lists(gen.point(2, 0, 12, (7, 11, 13)), min_size=8, max_size=12)),
                track=draw(st.booleans()))


def many_tree(case):
    nx, ny = case["nx"], case["ny"]
    cells = []
    ij = [(i, j) for i in range(nx) for j in range(ny)]
    if case["order"] == "checker":
        ij.sort(key=lambda p: sum(p) % 2)
    elif case["order"] == "columns":
        ij.sort(key=lambda p: (p[1] % 3, p[0] % 2))
    elif case["order"] == "shuffled":
        random.Random(case["mix"]).shuffle(ij)
    for i, j in ij:
            if i * ny + j not in case["holes"]:
                cells.append(["P", {"d": 2, "ineq": [[str(-i), "1", "0"], [str(i + 1), "-1", "0"],
                                                     [str(-j), "0", "1"], [str(j + 1), "0", "-1"]],
                                    "eq": []}])
    big = ["P", {"d": 2, "ineq": [["1", "1", "0"], ["100", "-1", "0"], ["1", "0", "1"],
                                  ["100", "0", "-1"]], "eq": []}]
    ops = [["D", cells]] + [big] * (case["total"] - 1)
    ops[min(case["cut_at"], case["total"] - 1)] = ["P", {"d": 2, "ineq": big[1]["ineq"] + [case["cut"]], "eq": []}]
    return ["I", ops]


def c_many(case, ctx):
    t = many_tree(case)
    pts = [tuple(F(x) for x in p) for p in case["pts"]]
    for k in case["holes"]:
        pts.append((F(k // case["ny"]) + F(3, 7), F(k % case["ny"]) + F(2, 7)))
        pts.append((F(k // case["ny"]) + F(10, 7), F(k % case["ny"]) + F(2, 7)))
    pts += [(F(i) + F(2, 7), F(j) + F(5, 11)) for i in range(case["nx"]) for j in range(case["ny"])]
    r0 = p08.build(t)
    if case["track"]:
        for i, c in enumerate(r0.child):
            c.set_label(i)
    r = r0.as_disjoint_union(track_dependencies=case["track"])
    ctx.nontrivial()
    ctx.event("merged" if len(r.child) < 100 else "not_merged")
    ins, Hp = check_pieces(r, t, 2, pts, ctx)


TESTS = [
    Test("disjoint_union", s_int, c_int, 700, 8000, 6,
         "intersections of 1-6 operands (unions of halfspaces in a box made disjoint as the "
         "literature estimates are, grid cells, polytopes, nested intersections) in dimension 1-3; "
         "probes inside every combination of leaves and inside every returned piece; non-trivial "
         "with >2 leaves and probes on both sides"),
    Test("periodic_simplification", s_many, c_many, 8, 80, 8,
         "21-24 operands with a first operand of >=100 cells (holes punched and cells shuffled at random; every cell is probed), so that the "
         "periodic simplification step runs; every case is non-trivial"),
]
