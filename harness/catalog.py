"""The list of properties; `python catalog.py` writes ../properties.jsonl and ../MANIFEST.json."""
import json
import os

PY = "blueprint/src/python/"
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, qtext, why, files, mech, over=("inputs",), state=None, observe=None,
         note="", claim=True):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement,
                 quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                 anchors=dict(files=[PY + f for f in files],
                              mechanism=[dict(name=n, where=PY + w) for n, w in mech],
                              state=[dict(name=n, meaning=m, where=PY + w) for n, m, w in (state or [])],
                              observe_at=observe or [], hook_needed=None)),
        note=note, claim=claim))


TRUST = (" Trusts CPython's Fraction arithmetic, the harness's own exact simplex / enumeration oracle "
         "and Hypothesis as generator; it is a search, so absence of a violation is not proved.")

prop("P01", "Polytopes contain exactly the points their description admits",
     "A polytope built from linear inequalities and equalities, as a box from coordinate limits, or as the "
     "hull of a list of points contains exactly the points that satisfy that description. Copying, "
     "canonicalising, adding all-zero rows, reading the constraints back and converting between the "
     "halfspace and vertex descriptions never changes the set of contained points, and working on a copy "
     "never changes the original.",
     "every rational description in dimension 1-5 (bounded or not, flat, empty, redundant) and every rational point",
     "the tests check a unit square and a handful of hand-picked points; membership must be right on every "
     "facet, vertex and redundant row of any polytope",
     ["polytope.py"],
     [("constructor", "polytope.py:Polytope.__init__"), ("box", "polytope.py:Polytope.rect"),
      ("hull", "polytope.py:Polytope.from_V_rep"), ("membership", "polytope.py:Polytope.contains"),
      ("copy", "polytope.py:Polytope.__copy__")],
     observe=["Polytope.contains", "Polytope.get_vertices", "Polytope.get_constraints"])

prop("P02", "Polytope emptiness answers are exact and never stale",
     "A polytope reports that it is empty with boundary exactly when no point satisfies all its constraints, "
     "and empty without boundary exactly when no point satisfies all of them strictly (so a polytope with a "
     "nontrivial equality is empty without boundary); a non-empty polytope reports being full-dimensional "
     "exactly when it has interior. The answers stay correct whatever queries, canonicalisations, copies or "
     "intersections came before.",
     "every rational polyhedron in dimension 1-5 and every sequence of queries on it",
     "tests fix ten polytopes and ask once; thin (1e-5) and exactly touching cases, and cached answers after "
     "other operations, are never sampled",
     ["polytope.py"],
     [("emptiness LPs and cached answers", "polytope.py:Polytope.is_empty"),
      ("dimension", "polytope.py:Polytope.is_full_dim")],
     over=("inputs", "histories"),
     state=[("_is_empty_incl_boundary/_is_empty_excl_boundary", "cached emptiness answers",
             "polytope.py:Polytope.__init__")],
     observe=["Polytope.is_empty", "Polytope.is_full_dim"])

prop("P03", "Polytope intersection is exact",
     "The intersection of any non-empty list of polytopes contains exactly the points contained in all of "
     "them, canonicalised or not and in either order, and has the right vertices when it is bounded and "
     "solid. The operands are unchanged.",
     "every list of 1-4 rational polyhedra in dimension 1-4, including disjoint, flat and unbounded ones",
     "tests intersect a few rectangles; mixing equality and inequality rows of several operands is sampled twice",
     ["polytope.py"], [("intersection", "polytope.py:Polytope.intersection"),
                       ("binary form", "polytope.py:Polytope.intersect")],
     observe=["Polytope.contains", "Polytope.get_vertices"])

prop("P04", "Polytope difference and union recognition are exact up to boundary",
     "Away from boundaries, the pieces returned for A minus B are pairwise disjoint and together contain "
     "exactly the points of A outside B, with or without simplification and also when B is flat or "
     "unbounded. For bounded solid polytopes the union recogniser returns a polytope equal to their union when "
     "that union is convex and nothing otherwise, and parts of a flat convex set are united within its hyperplane. "
     "The operands of a difference are unchanged.",
     "every pair A, B of rational polyhedra in dimension 1-3 for the difference; every list of 2-4 bounded solid polytopes in dimension 1-3 for the union",
     "tests use rectangles and about ten fixed polygons; a dropped or mis-signed row only shows on "
     "configurations they do not contain",
     ["polytope.py"], [("difference", "polytope.py:Polytope.set_minus"),
                       ("union recognition", "polytope.py:Polytope.try_union")],
     observe=["Polytope.contains"])

prop("P05", "Polytope inclusion and cover tests are exact",
     "The subset test of a polytope A against B is true exactly when every point of A lies in B. For a bounded solid polytope A and a non-empty list of polytopes, the cover test is true "
     "exactly when the part of A left uncovered has no interior, whatever the order of the list.",
     "every A (unbounded, flat and empty included) and every B or list of 1-6 polyhedra (flat, unbounded, empty included) in dimension 1-5",
     "tests check one polytope cover in three dimensions; gaps of width 1e-4 and exactly supporting faces are not sampled",
     ["polytope.py"], [("subset", "polytope.py:Polytope.is_subset_of"),
                       ("cover", "polytope.py:Polytope.is_covered_by")],
     observe=["Polytope.is_subset_of", "Polytope.is_covered_by"])

prop("P06", "Vertices, edges, centroid, projection and equality of polytopes are exact",
     "For every bounded non-empty polytope the reported vertices are exactly its extreme points, the edges "
     "exactly its one-dimensional faces, the centroid the mean of the vertices, and the hyperplane-crossing "
     "test is true exactly when vertices lie strictly on both sides (no vertex lying on the plane otherwise). "
     "The projection onto a set of coordinates contains exactly the points that have a preimage and has "
     "exactly their extreme points as vertices. Two non-empty polyhedra, bounded or not, compare equal exactly when they are the same set.",
     "every bounded rational polytope in dimension 1-5, flat ones included, and every order of queries",
     "tests compute vertices of two polygons; flat and redundant descriptions, higher dimensions and query "
     "orders (which recompute cached representations) are not sampled",
     ["polytope.py"], [("vertex computation", "polytope.py:Polytope.compute_V_rep"),
                       ("edges", "polytope.py:Polytope.get_edges"), ("projection", "polytope.py:Polytope.project"),
                       ("equality", "polytope.py:Polytope.__eq__"),
                       ("centroid", "polytope.py:Polytope.get_centroid")],
     over=("inputs", "histories"),
     state=[("vertices/rays/polyhedron", "cached vertex representation", "polytope.py:Polytope.__init__")],
     observe=["Polytope.get_vertices", "Polytope.get_edges", "Polytope.project"])

prop("P07", "Substituting, lifting and scaling polytopes transforms membership correctly",
     "Substituting values for some coordinates gives the polytope of all remaining coordinates that complete "
     "to a member; lifting gives the points whose selected coordinates form a member and whose new "
     "coordinates lie in their given limits, in any coordinate order. Scaling one or all coordinates by positive factors "
     "gives the image of the polytope, cut by any extra constraints given. The original is unchanged.",
     "every rational polyhedron in dimension 1-5 (equalities included), every index set, coordinate order, limit and positive factor",
     "tests substitute, lift and scale one or two boxes",
     ["polytope.py"], [("substitute", "polytope.py:Polytope.substitute"), ("lift", "polytope.py:Polytope.lift"),
                       ("scale", "polytope.py:Polytope.scale"), ("scale all", "polytope.py:Polytope.scale_all")],
     observe=["Polytope.contains", "Polytope.get_vertices"])



def main():
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.dirname(here)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS:
            rec = p["rec"]
            assert len(rec["title"]) <= 80, (rec["id"], len(rec["title"]))
            if not rec["anchors"]["state"]:
                del rec["anchors"]["state"]
            f.write(json.dumps(rec) + "\n")
    checks = []
    for p in PROPS:
        if not p["claim"]:
            continue
        i = p["rec"]["id"]
        if not os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
            print("no check yet:", i)
            continue
        checks.append(dict(
            property=i, quick_cmd=f"bash harness/check.sh {i} quick",
            thorough_cmd=f"bash harness/check.sh {i} thorough",
            technique="property-based testing (Hypothesis generators, exact reference oracle, shrinking)",
            level="exploration", level_note=(p["note"] or "Generated-input search against an independent exact oracle.") + TRUST))
    man = dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks,
               not_applicable=NOT_APPLICABLE,
               notes="No hooks are needed: every check drives the public Python API in-process.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import catalog
    import catalog2  # noqa: F401
    import catalog3  # noqa: F401
    catalog.main()
