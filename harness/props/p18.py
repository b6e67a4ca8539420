"""Hypothesis sets as sets, filters, and dependency bookkeeping."""
import contextlib
import copy
import io
from fractions import Fraction as F

from hypothesis import strategies as st

from core import Test, expect
from hyp import H, R

TYPES = ["Exponent pair", "Upper bound on mu", "Large value estimate", "Zero density estimate"]
LABELS = ["lit", "lit", "lit", "unknown", "Classical", "Derived", "Conjectured", "Trivial"]
YEARS = [1850, 1920, 1921, 1969, 2003, 2024]


@st.composite
def hyps(draw, n):
    out = []
    for i in range(n):
        deps = draw(st.lists(st.integers(0, i - 1), max_size=3, unique=True)) if i else []
        out.append(dict(t=draw(st.sampled_from(TYPES)), l=draw(st.sampled_from(LABELS)),
                        y=draw(st.sampled_from(YEARS)), deps=deps, data=draw(st.integers(0, 3)),
                        name=draw(st.sampled_from(["Ivic bound", "Huxley large value", "van der Corput A",
                                                   "Derived bound", "Ivic large value"]))))
    return out


def mkref(c):
    if c["l"] == "lit":
        return R.make("Author", c["y"])
    if c["l"] == "unknown":
        return R("label", "article", {"author": "Author"})
    if c["l"] == "Derived":
        return R.derived(c["y"])
    return {"Classical": R.classical, "Conjectured": R.conjectured, "Trivial": R.trivial}[c["l"]]()


def build(cs):
    hs = []
    for c in cs:
        h = H.Hypothesis(c["name"], c["t"], c["data"], "proof", mkref(c))
        for d in c["deps"]:
            h.add_dependency(hs[d])
        hs.append(h)
    return hs


def year(c):
    return {"lit": c["y"], "Derived": c["y"], "unknown": None, "Classical": -1, "Trivial": -1,
            "Conjectured": float("inf")}[c["l"]]


def matches(c, typ, y):
    if typ != "Any" and c["t"] != typ:
        return False
    if y == "Any" or c["l"] in ("Derived", "Classical"):
        return True
    if c["l"] == "Conjectured" or year(c) is None:
        return False
    return year(c) <= y


@st.composite
def s_model(draw):
    n = draw(st.integers(3, 9))
    cs = draw(hyps(n))
    ix = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just("add"), st.integers(0, 2), ix),
        st.tuples(st.just("adds"), st.integers(0, 2), st.lists(ix, max_size=4),
                  st.sampled_from(["list", "set", "hset", "one", "gen"])),
        st.tuples(st.just("merge"), st.integers(0, 2), st.integers(0, 2)),
        st.tuples(st.just("copy"), st.integers(0, 2), st.integers(0, 2)),
        st.tuples(st.just("list"), st.integers(0, 2), st.sampled_from(TYPES + ["Any", "Nothing"]),
                  st.sampled_from(YEARS + ["Any", 1900, -1, 3000])),
        st.tuples(st.just("find"), st.integers(0, 2), st.sampled_from(TYPES + ["Any"]),
                  st.sampled_from([0, 1, 2, 3, 7, "Any", "Any"]),
                  st.sampled_from(["Any", "Any", "Ivic", "large value", "Ivic, bound", "value,Huxley", "xyz"]),
                  st.sampled_from(YEARS + ["Any", "Any"])))
    ops = draw(st.lists(op.map(list), min_size=3, max_size=14))
    pre = [["adds", s, draw(st.lists(ix, min_size=2, max_size=n)), "list"] for s in (0, 1)]
    return dict(cs=cs, ops=pre + ops)


def c_model(case, ctx):
    cs = case["cs"]
    hs = build(cs)
    idx = {id(h): i for i, h in enumerate(hs)}
    real = [H.Hypothesis_Set() for _ in range(3)]
    model = [set(), set(), set()]
    queries = 0

    def ids(it):
        out = [idx[id(h)] for h in it]
        expect(len(out) == len(set(out)), "a hypothesis is listed twice")
        return set(out)
    for op in case["ops"]:
        k, s = op[0], op[1]
        if k == "add":
            real[s].add_hypothesis(hs[op[2]])
            model[s].add(op[2])
        elif k == "adds":
            L = [hs[i] for i in op[2]]
            if op[3] == "one":
                for h in L:
                    real[s].add_hypotheses(h)
            else:
                real[s].add_hypotheses({"list": lambda: L, "set": lambda: set(L), "gen": lambda: (h for h in L),
                                        "hset": lambda: H.Hypothesis_Set(L)}[op[3]]())
            model[s] |= set(op[2])
        elif k == "merge":
            real[s].add_hypotheses(real[op[2]])
            model[s] |= model[op[2]]
        elif k == "copy":
            real[s] = copy.copy(real[op[2]])
            model[s] = set(model[op[2]])
        elif k == "list":
            got = real[s].list_hypotheses(op[2], op[3])
            want = {i for i in model[s] if matches(cs[i], op[2], op[3])}
            expect(ids(got) == want, f"list_hypotheses({op[2]}, {op[3]}) gives {sorted(ids(got))}, want "
                   f"{sorted(want)} of {[cs[i] for i in sorted(model[s])]}")
            queries += bool(want) and want != model[s]
        elif k == "find":
            got = real[s].find_hypothesis(hypothesis_type=op[2], data=op[3], keywords=op[4], year=op[5])
            want = {i for i in model[s]
                    if (op[2] == "Any" or cs[i]["t"] == op[2]) and (op[3] == "Any" or cs[i]["data"] == op[3])
                    and (op[4] == "Any" or all(w.strip() in cs[i]["name"] for w in op[4].split(",")))
                    and (op[5] == "Any" or year(cs[i]) == op[5])}
            expect((got is None and not want) or (got is not None and idx[id(got)] in want),
                   f"find_hypothesis{tuple(op[2:])} gives {got and cs[idx[id(got)]]}, candidates {sorted(want)}")
            queries += bool(want)
        for r, m in zip(real, model):
            expect(ids(r) == m and len(r) == len(m) and ids(r.to_list()) == m,
                   f"after {op} a set holds {sorted(ids(r))}, want {sorted(m)}")
    ctx.nontrivial(queries > 0 and any(len(m) > 2 for m in model))


@st.composite
def s_deps(draw):
    return dict(cs=draw(hyps(draw(st.one_of(st.integers(2, 9), st.integers(10, 16))))))


def c_deps(case, ctx):
    cs = case["cs"]
    hs = build(cs)
    idx = {id(h): i for i, h in enumerate(hs)}
    clo, comp, date = [], [], []
    for i, c in enumerate(cs):
        clo.append(set(c["deps"]).union(*[clo[d] for d in c["deps"]]))
        comp.append(1 + sum(comp[d] for d in c["deps"]))
        y = year(c)
        date.append(max([-1 if y is None else y] + [date[d] for d in c["deps"]]))
    for i, h in enumerate(hs):
        got = {idx[id(d)] for d in h.recursive_dependencies()}
        expect(got == clo[i], f"recursive dependencies of {i} are {sorted(got)}, want {sorted(clo[i])}; {cs}")
        expect(h.proof_complexity() == comp[i], f"proof complexity {h.proof_complexity()}, want {comp[i]}; {cs}")
        expect(h.proof_date() == date[i], f"proof date of {i} is {h.proof_date()}, want {date[i]}; {cs}")
        expect({idx[id(d)] for d in h.dependencies} == set(cs[i]["deps"]), "direct dependencies changed")
    # the printed proof is the tree of dependencies
    def tree(i):
        return (f"[{hs[i]}]", tuple(sorted(tree(d) for d in set(cs[i]["deps"]))))
    for i, h in enumerate(hs):
        if comp[i] > 60:
            continue
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            h.recursively_list_proofs()
        stack = []
        for line in out.getvalue().splitlines():
            body = line.lstrip("\t")
            depth = len(line) - len(body)
            name = next((n for n in {f"[{x}]" for x in hs} if body.startswith(f"- {n}")), body)
            node = (name, [])
            expect(depth <= len(stack) and (depth or not stack), f"proof of {i}: line at depth {depth} below depth {len(stack) - 1}: {line!r}")
            del stack[depth:]
            if stack:
                stack[-1][1].append(node)
            else:
                root = node
            stack.append(node)
        canon = lambda nd: (nd[0], tuple(sorted(canon(c) for c in nd[1])))
        expect(canon(root) == tree(i), f"the printed proof of {i} is {canon(root)}, the dependencies are {tree(i)}")
    out = io.StringIO()
    S = H.Hypothesis_Set(hs)
    with contextlib.redirect_stdout(out):
        S.list_proofs()
    text = out.getvalue()
    expect(len(text.splitlines()) == len(hs) and all(f"{h.name}: {h.description}" in text and h.proof in text for h in hs), f"listed proofs {text!r}")
    expect(f"{len(hs)} " in repr(S) and all(h.name in repr(S) for h in hs), f"shown as {S!r}")
    refs = [h.reference for h in hs]
    ys = [year(c) for c in cs]
    expect(R.max_year(tuple(refs)) == ("Unknown date" if None in ys else max(ys)), f"max_year of {ys}")
    expect(R.max_year(()) == -1, "max_year of nothing")
    ctx.nontrivial(max(len(c) for c in clo) >= 3)


TESTS = [
    Test("sets", s_model, c_model, 2500, 25000, 4,
         "histories of 3-14 additions, merges, copies and queries over three hypothesis sets, against "
         "Python sets; non-trivial when a query selects a proper non-empty part"),
    Test("dependencies", s_deps, c_deps, 1500, 15000, 2,
         "dependency graphs of 2-9 hypotheses; non-trivial when one has three indirect dependencies"),
]
