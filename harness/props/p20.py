"""BibTeX references are read faithfully."""
import os
import tempfile

from hypothesis import strategies as st

import lib
from core import Test, expect

R = lib.mod("reference")

WORD = st.text("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", min_size=1, max_size=8).filter(lambda w: w != "and")
TXT = st.sampled_from(["{B}rown", "of $\\zeta(s)$", "a = b", "x, y", "Zeros", "{\\\"o}", "user@host", "{{nested} twice}",
                       "1/2--3/4", "https://x.org/a?b=c&d=e", "(3)", "I", "\\'{e}", "and"])
KEYS = ["title", "journal", "volume", "url", "doi", "note", "pages", "k"]


@st.composite
def s_bib(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5, 8]))
    pool = draw(st.lists(WORD, min_size=2, max_size=4, unique=True))
    entries = []
    for i in range(n):
        authors = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(["A.", "B. C.", "Ann", ""]),
                                          st.booleans()), max_size=3))
        year = draw(st.one_of(st.none(), st.integers(1850, 2030)))
        fields = draw(st.lists(st.tuples(st.sampled_from(KEYS), st.lists(st.one_of(TXT, WORD), min_size=1, max_size=4)),
                               max_size=4, unique_by=lambda t: t[0]))
        entries.append(dict(
            type=draw(st.sampled_from(["article", "Book", "MISC", "incollection"])), label=draw(st.one_of(WORD.map(lambda w: f"l{i}_" + w), st.just("ABCDEFGH"[i]))),
            authors=[list(a) for a in authors], year=year,
            ystyle=draw(st.sampled_from(["brace", "brace", "bare", "quote", "slash", "tight"])),
            fields=[[k, " ".join(v)] for k, v in fields],
            order=draw(st.permutations(range(2 + len(fields)))),
            up=draw(st.sampled_from([str, str.upper, str.title]).map(lambda f: f.__name__)),
            space=draw(st.sampled_from(["", " "])), wrap=draw(st.booleans()),
            quoted=draw(st.booleans()), last_comma=draw(st.booleans()), inline=draw(st.booleans()), tight=draw(st.booleans())))
    return dict(entries=entries, lead=draw(st.sampled_from(["", "", "\n", "\n\n", "some text\n"])),
                gap=draw(st.sampled_from(["\n", "\n\n", ""])))


def aname(a):
    last, first, comma = a
    if not first:
        return last
    return f"{last}, {first}" if comma else f"{first} {last}"


def render(e):
    cap = {"str": str, "upper": str.upper, "title": str.title}[e["up"]]
    fs = []
    if e["authors"]:
        fs.append(cap("author") + " = {" + " and ".join(map(aname, e["authors"])) + "}")
    else:
        fs.append("")
    if e["year"] is not None:
        y = str(e["year"])
        fs.append(cap("year") + {"brace": " = {%s}", "bare": " = %s", "quote": ' = "%s"', "slash": "={%s/01}", "tight": "=%s"}[e["ystyle"]] % y)
    else:
        fs.append("")
    for k, v in e["fields"]:
        t = "{%s}" % v
        if e["quoted"]:
            t = '"%s"' % t
        if e["wrap"] and not e["inline"]:
            t = t.replace(" ", "\n    ", 1)
        fs.append(cap(k) + ("=" if e.get("tight") else " = ") + t)
    fs = [fs[i] for i in e["order"] if i < len(fs) and fs[i]]
    sep = ", " if e["inline"] else ",\n  "
    return "@" + e["type"] + e["space"] + "{" + sep.join([e["label"]] + fs) + ("," if e["last_comma"] else "") + "}"


def c_bib(case, ctx):
    text = case["lead"] + case["gap"].join(render(e) for e in case["entries"]) + "\n"
    d = tempfile.mkdtemp()
    p = os.path.join(d, "r.bib")
    try:
        with open(p, "w") as f:
            f.write(text)
        m = R.Reference_Manager(p)
        m.load()
    finally:
        os.unlink(p)
        os.rmdir(d)
    es = case["entries"]
    expect(set(m.refs) == {e["label"] for e in es}, f"labels {set(m.refs)} from\n{text}")
    want = {}
    for e in es:
        r = m.get(e["label"])
        au = "--".join(a[0] for a in e["authors"]) or "Unknown author"
        y = e["year"] if e["year"] is not None else "Unknown date"
        w = {k: v for k, v in e["fields"]}
        if e["authors"]:
            w["author"] = au
        if e["year"] is not None:
            w["year"] = y
        want[e["label"]] = (au, y)
        expect(r.label == e["label"] and r.reftype == e["type"].lower(), f"{r.label!r}, {r.reftype!r} from\n{text}")
        expect(r.author() == au and r.year() == y, f"{r.author()!r}, {r.year()!r}, want {au!r}, {y!r}, from\n{text}")
        expect(r.entries == w, f"fields {r.entries}, want {w}, from\n{text}")
        expect(repr(r) == f"{au} ({y}) {w.get('title', '[No title]')}", f"printed as {r!r}")
        expect(r.is_literature(), "a BibTeX reference is literature")
    names = sorted({a[0] for e in es for a in e["authors"]}) + ["Zz9"]
    years = sorted({e["year"] for e in es if e["year"]}) + [1700]
    for a in names + ["Any"]:
        for y in years + ["Any"]:
            got = {r.label for r in m.find_all(author=a, year=y)}
            exp = {l for l, (x, z) in want.items() if (a == "Any" or a in x) and (y == "Any" or y == z)}
            expect(got == exp, f"find_all({a}, {y}) = {got}, want {exp}")
    try:
        m.get("no such label")
        expect(False, "get of an unknown label returned")
    except ValueError:
        pass
    ctx.nontrivial(len(es) >= 2 and any(e["fields"] and e["authors"] for e in es))


@st.composite
def s_year(draw):
    return [draw(st.one_of(st.integers(1850, 2030), st.sampled_from(["classical", "trivial", "conjectured", "none"])))
            for _ in range(draw(st.integers(0, 6)))]


def mk(y):
    if y == "classical":
        return R.Reference.classical(), -1
    if y == "trivial":
        return R.Reference.trivial(), -1
    if y == "conjectured":
        return R.Reference.conjectured(), float("inf")
    if y == "none":
        return R.Reference("x", "misc", {"author": "A"}), None
    return R.Reference.make("A", y), y


def c_year(case, ctx):
    refs = [mk(y) for y in case]
    ys = [v for _, v in refs]
    want = "Unknown date" if None in ys else max(ys + [-1])
    got = R.Reference.max_year([r for r, _ in refs])
    expect(got == want, f"latest year of {case} is {got}, want {want}")
    d = R.Reference.derived(got)
    expect(d.year() == want and d.is_derived() and not d.is_literature() and not d.is_classical(), "derived reference")
    for (r, _), y in zip(refs, case):
        expect(r.is_conjectured() == (y == "conjectured") and r.is_trivial() == (y == "trivial")
               and r.is_classical() == (y == "classical"), f"kind of {y}")
        if y not in ("trivial",):
            expect(r.is_literature() == (y not in ("classical", "conjectured")), f"literature? {y}")
    ctx.nontrivial(len(case) >= 2)


TESTS = [
    Test("files", s_bib, c_bib, 2500, 25000, 5,
         "BibTeX files of 1-5 entries: braced, quoted and bare values, nested braces, = , @ and commas inside fields, wrapped lines, "
         "names in both orders, missing years and authors; non-trivial with two entries and some field"),
    Test("years", s_year, c_year, 600, 5000, 1, "lists of up to 6 references; non-trivial with two"),
]
