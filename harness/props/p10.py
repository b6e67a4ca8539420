"""Dependency tracking of disjoint unions."""
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
import geo
from core import Test, expect
from lib import mod
from props import p08, p09
from props.p04 import rows_of

R = mod("region").Region


@st.composite
def s_dep(draw):
    d = draw(st.sampled_from([1, 2, 2, 3]))
    box = draw(gen.box_rows(d))
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(n):
        o = draw(p09.operand(d, box))
        if o[0] == "D":  # solid pieces only
            o = ["D", [x for x in o[1] if geo.interior_point(gen.H(x[1]), d) is not None]]
        if p08.leaves(o) and all(geo.interior_point(gen.H(x), d) is not None for x in p08.leaves(o)):
            ops.append(o)
    ops = ops or [["P", {"d": d, "ineq": box, "eq": []}]]
    return dict(d=d, ops=ops,
                pts=draw(st.lists(gen.point(d, -3, 3, (7, 11, 13)), min_size=2, max_size=4)))


def labelled(case):
    """Build the intersection with every leaf polytope labelled (operand, index)."""
    ops = [p08.build(o) for o in case["ops"]]
    H = {}
    for k, (o, t) in enumerate(zip(ops, case["ops"])):
        leaves = o.child if t[0] == "D" else [o]
        for j, (leaf, lt) in enumerate(zip(leaves, p08.leaves(t))):
            leaf.set_label((k, j))
            H[(k, j)] = gen.H(lt)
    return ops, H


def c_leaf(case, ctx):
    d = case["d"]
    t = ["I", case["ops"]]
    pts = p09.deep_points(t, d, case["pts"])
    ops, H = labelled(case)
    r = R.intersect(ops).as_disjoint_union(track_dependencies=True)
    p09.check_pieces(r, t, d, pts, ctx)
    ctx.nontrivial(len(case["ops"]) > 1 and len(r.child) > 0)
    for c in r.child:
        deps = c.child.dependencies
        piece = rows_of(c.child)
        expect(len(deps) > 0 and all(x in H for x in deps), f"dependencies {deps} are not labels")
        if geo.interior_point(piece, d) is None:
            continue
        groups = {}
        for (k, j) in deps:
            groups.setdefault(k, []).append(H[(k, j)])
        # contained in each contributing operand's contributing polytopes
        for k, hs in groups.items():
            w = geo.covered(piece, hs, d)
            expect(w is None, lambda: f"a piece with dependencies {sorted(deps)} contains "
                   f"{[str(x) for x in w]}, outside the polytopes of operand {k} it depends on")
        # and they determine it: nothing else was used
        acc = [[]]
        for k, hs in sorted(groups.items()):
            acc = [a + h for a in acc for h in hs if geo.interior_point(a + h, d) is not None]
        for a in acc:
            w = geo.covered(a, [piece], d)
            expect(w is None, lambda: f"the polytopes named by {sorted(deps)} also contain "
                   f"{[str(x) for x in w]}, which is outside the piece: a dependency is missing")
        ctx.event(f"deps_{min(len(deps), 4)}")
    # the operands are untouched
    for o in ops:
        leaves = o.child if isinstance(o.child, list) else [o]
        for leaf in leaves:
            expect(not hasattr(leaf.child, "dependencies"), "tracking wrote to an operand's polytope")


def c_whole(case, ctx):
    """Labels put on whole operands."""
    d = case["d"]
    ops = [p08.build(o) for o in case["ops"]]
    for k, o in enumerate(ops):
        o.set_label(f"L{k}")
    r = R.intersect(ops).as_disjoint_union(track_dependencies=True)
    ctx.nontrivial(len(case["ops"]) > 1 and len(r.child) > 0)
    for c in r.child:
        deps = c.child.dependencies
        expect(len(deps) > 0 and deps <= {f"L{k}" for k in range(len(ops))},
               f"dependencies {deps} are not labels of the operands")
        piece = rows_of(c.child)
        if geo.interior_point(piece, d) is None:
            continue
        for k, t in enumerate(case["ops"]):
            if f"L{k}" in deps:
                w = geo.covered(piece, [gen.H(l) for l in p08.leaves(t)], d)
                expect(w is None, f"a piece depending on L{k} leaves the region labelled L{k}")


TESTS = [
    Test("leaf_labels", s_dep, c_leaf, 600, 6000, 6,
         "intersections of 1-4 operands, every polytope labelled separately; each returned piece is "
         "compared with the intersection of the polytopes its dependencies name; non-trivial with >=2 "
         "operands and a non-empty result"),
    Test("region_labels", s_dep, c_whole, 400, 4000, 2,
         "the same with one label per operand"),
]
