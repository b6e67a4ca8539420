"""Development aid (not a check): turn a spec into seeded/<id>/ after confirming it in a scratch copy of /repo.

usage: mkseed.py SPEC.py [ID ...]     SPEC.py defines SEEDS = [dict(id, property, needs, what, edits=[(file, old, new)], demo)]
Needs the unpatched demo to pass, the patched one to fail, the stable tests to pass, and removed lines to be original ones."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '''#!/bin/bash
# run in the repository after the build
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/blueprint/src/python" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
cd /tmp
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def one(s):
    sc = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    repo = sc + "/repo"
    out = sc + "/out"
    try:
        shutil.copytree("/repo", repo)
        os.makedirs(out)
        open(out + "/demo.py", "w").write(s["demo"].lstrip())
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        r = sh(f"bash {out}/demo.sh", repo)
        if r.returncode:
            return f"demo fails on the unchanged tree: {r.stdout[-800:]}{r.stderr[-1500:]}"
        for f, a, b in s["edits"]:
            p = f"{repo}/blueprint/src/python/{f}"
            t = open(p).read()
            if t.count(a) != 1:
                return f"{f}: old text occurs {t.count(a)} times"
            open(p, "w").write(t.replace(a, b))
        diff = sh("git diff -U3", repo).stdout
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = sh(f"git show {BASE}:{l[6:]}", repo).stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in cur:
                return f"not an original line: {l}"
        if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
            print("  (only adds lines)")
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(out + "/meta.json", "w"), indent=1)
        r = sh(f"bash {out}/demo.sh", repo)
        if r.returncode == 0:
            return "demo passes with the patch"
        print("  demo:", (r.stdout + r.stderr).strip().splitlines()[-1][:200])
        t = open("/opt/vp/test.sh").read().replace("/repo/", repo + "/").replace("--rootdir=/repo", "--rootdir=" + repo)
        open(sc + "/test.sh", "w").write(t)
        sh(f"bash {sc}/test.sh {sc}/res.json", repo)
        res = json.load(open(sc + "/res.json"))
        passed = set(res.get("passed", []))
        if STABLE - passed:
            return f"stable tests broken: {sorted(STABLE - passed)}"
        dst = os.path.join(SEEDED, s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return None
    finally:
        shutil.rmtree(sc)


ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    print(s["id"], flush=True)
    e = one(s)
    print("  REJECTED: " + e if e else "  kept", flush=True)
