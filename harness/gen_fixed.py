"""Rewrites the "fixed" list of ../known_findings.json from /repo's fix: commits (a development aid, not a check)."""
import json, os, subprocess
MAP = [("unbounded polyhedra", "P06"), ("optimize_pintz", "P31"), ("depend on every piece", "P23"), ("improved Bourgain zero density theorem", "P36"), ("improved Bourgain", "P36"), ("Huxley's 1993", "P32"), ("Walfisz", "P32"), ("Bourgain's large", "P33"), ("Ivic's 1980", "P33"), ("Jutila's 1982", "P33"), ("Heath-Brown energy derivations", "P34"), ("compute_gap2", "P35"),
       ("Polytope.lift", "P07"), ("from_V_rep", "P06"), ("set_minus", "P04"), ("Polytope.is_subset_of", "P05"),
       ("Region.is_subset_of", "P08"), ("Region.project", "P08"), ("Region.lift", "P08"), ("Region.to_str", "P08"),
       ("Affine.min_with", "P12"), ("Affine2.min_with", "P13"), ("RationalFunction2", "P17"),
       ("RationalFunction.min and max", "P15"), ("RationalFunction", "P14"), ("Str_Helper", "P17"),
       ("Constraint.__repr__", "P17"), ("Polynomial.to_str", "P17"), ("copies of a Hypothesis_Set", "P19"),
       ("cached hulls", "P19"), ("best_mu_bound_piecewise", "P25"), ("compute_best_beta_bounds", "P23"),
       ("beta_bounds_to_exponent_pairs", "P23"), ("construct_proof", "P24"), ("find_best_proof", "P24"),
       ("exponent pair conjecture", "P32"), ("compute_exp_pairs", "P22"), ("Reference_Manager", "P20"),
       ("type of a reference", "P20"), ("BibTeX values", "P20"), ("Guth-Maynard relation", "P33"), ("lv_zlv_to_zd2", "P30"),
       ("every estimate a large value region", "P26"), ("trivial zeta", "P27"), ("projecting a union", "P30"), ("lver_to_lv", "P28"), ("lver_to_zd", "P29"),
       ("Ivic", "P31"), ("ep_to_zd", "P31"), ("placeholder energy", "P31"), ("trivial energy", "P31")]
here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, "..", "known_findings.json")
d = json.load(open(path))
old = {}
for e in d["fixed"]:
    old[e.split()[2]] = e.split()[1].split("=")[1]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    pid = next((p for k, p in MAP if k in s), None) or old.get(h)
    if pid is None:
        print("no property for", h, s)
        continue
    out.append(f"fixed: property={pid} {h} {s}")
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
