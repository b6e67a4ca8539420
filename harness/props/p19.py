"""Cached hulls never change answers."""
import copy
from fractions import Fraction as F

from hypothesis import strategies as st

import gen
from core import Test, expect
from hyp import H, bb, bm, ep, ep_hyp, pair, support_gap, transform_hyps, YEARS, fn


@st.composite
def s_hist(draw):
    base = draw(st.lists(pair(), min_size=0, max_size=2))
    n = draw(st.integers(4, 10))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(["ep", "ep", "mu", "tr", "best", "best", "piece", "hull", "hull", "copy",
                                  "switch", "other", "prove"]))
        s = draw(st.integers(0, 1))
        if k == "ep":
            ops.append([k, s, draw(pair())])
        elif k == "mu":
            sg = draw(gen.frac(F(1, 2), 1, (2, 3, 4, 5, 6)))
            t = draw(st.sampled_from(["1", "3/4", "1/2", "1/4"]))
            ops.append([k, s, [sg, str((1 - F(sg)) / 2 * F(t))]])
        elif k == "tr":
            ops.append([k, s, draw(st.sampled_from("ABC"))])
        elif k in ("best", "prove"):
            ops.append([k, s, draw(gen.frac(F(1, 20), F(19, 20), (3, 4, 5, 7, 20)))])
        else:
            ops.append([k, s])
    return dict(base=base, ops=ops)


def vals(h):
    return [(p.data.k, p.data.l) for p in h]


def c_hist(case, ctx):
    start = [["0", "1"], ["1/2", "1/2"], ["1/6", "2/3"]] + case["base"]
    init = [ep_hyp(p, 1920) for p in start]
    sets = [H.Hypothesis_Set(init), H.Hypothesis_Set(init)]
    members = [list(init), list(init)]
    asked, changed_after = [set(), set()], 0
    for op in case["ops"]:
        k, s = op[0], op[1]
        S = sets[s]
        fresh = lambda: H.Hypothesis_Set(list(members[s]))
        if k in ("ep", "mu", "tr", "other"):
            if k == "ep":
                h = ep_hyp(op[2], 1999)
            elif k == "mu":
                h = bm.classical_bound_mu(F(op[2][0]), F(op[2][1]))
            elif k == "tr":
                h = transform_hyps([op[2]])[0]
            else:
                h = bb.trivial_beta_bound_1
            [S.add_hypothesis, S.add_hypotheses, lambda h: S.add_hypotheses([h])][len(members[s]) % 3](h)
            if h not in members[s]:
                members[s].append(h)
            changed_after += bool(asked[s])
        elif k == "copy":
            sets[1 - s] = copy.copy(S)
            members[1 - s] = list(members[s])
            asked[1 - s] = set(asked[s])
        elif k in ("best", "prove"):
            x = F(op[2])
            got = bm.best_mu_bound(x, S).data.mu
            want = bm.best_mu_bound(x, fresh()).data.mu
            expect(abs(float(got - want)) < 1e-9, f"mu({x}) <= {got} after this history, {want} from scratch; "
                   f"{case['ops']}")
            asked[s].add("mu")
            if k == "prove":
                b = bm.prove_mu_bound(x, got, S)
                expect(bool(b) and b.data.mu == got, f"prove_mu_bound({x}, {got}) gave {b}")
                members[s].append(b)
                expect(bm.prove_mu_bound(x, got - F(1, 1000), S) is False, "proved too much")
        elif k == "piece":
            I = fn.Interval(F(0), F(1))
            got, want = (bm.best_mu_bound_piecewise(I, T) for T in (S, fresh()))
            for j in range(1, 20):
                x = F(j, 20)
                a, b = ([p.at(x) for p in L if p.at(x) is not None] for L in (got, want))
                expect(a and b and abs(float(min(a) - min(b))) < 1e-9,
                       f"piecewise mu bound at {x}: {a} after this history, {b} from scratch; {case['ops']}")
            asked[s].add("mu")
        elif k == "hull":
            got, want = ep.compute_convex_hull(S), ep.compute_convex_hull(fresh())
            for h in got:
                expect(h.hypothesis_type == "Exponent pair" and h in members[s],
                       f"the hull of exponent pairs contains {h.desc()}; {case['ops']}")
            g = support_gap(vals(got), vals(want))
            expect(max(g) < 1e-9, f"hull {vals(got)} after this history, {vals(want)} from scratch; {case['ops']}")
            asked[s].add("hull")
        if k == "switch":
            sets.reverse(), members.reverse(), asked.reverse()
        expect(set(map(id, sets[s])) == set(map(id, members[s])), "a query changed the set")
    ctx.nontrivial(changed_after > 0)


TESTS = [Test("history", s_hist, c_hist, 600, 6000, 8,
              "histories of 4-10 additions, copies, mu-bound queries and hull queries over two hypothesis sets; "
              "each answer is compared with the one of a freshly built set; non-trivial when something "
              "was added after a query had filled the cache")]
