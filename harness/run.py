"""python run.py PID --tier quick|thorough      run a property's checks
   python run.py PID --replay FILE              re-run one saved case"""
import argparse
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("EXPDB_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "blueprint", "src", "python"))
sys.setrecursionlimit(5000)

import core  # noqa: E402

NWORK = 8

# more cases in the quick tier where a case is cheap
QUICK = dict(P01=1.5, P02=3, P06=1.5, P07=1.5, P12=3, P16=3, P17=3, P18=2.5, P19=5, P20=3, P21=5, P22=5, P23=4, P24=2, P25=3,
             P26=2.5, P27=4, P28=2, P29=2, P30=2, P32=2, P33=1.5)


def load(pid):
    return importlib.import_module("props." + pid.lower())


def known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        mod = load(pid)
        test = next(t for t in mod.TESTS if t.name == r["test"])
        msg = core.run_case(test, r["case"], core.Ctx())
        if msg is None:
            print(f"replay: {pid}/{test.name}: property holds on this case")
            return 0
        print(f"replay: {pid}/{test.name}: {msg}")
        print(f"VIOLATION property={pid} replay={a.replay}")
        return 1

    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if a.tier == "quick" else "3000"))
    deadline = t0 + budget
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
    try:
        return campaign(a, pid, seed, t0, deadline, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def import_failure(pid, seed, tier, t0, text):
    """The code under test cannot even be imported."""
    replay = save_replay(pid, dict(property=pid, test="import", case=None, message=text))
    print(text)
    print(f"VIOLATION property={pid} replay={replay}")
    return 1


def save_replay(pid, obj):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{obj['test']}.json")
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


def campaign(a, pid, seed, t0, deadline, work):
    mod = load(pid)
    tests = [t for t in mod.TESTS if not a.only or t.name == a.only]
    jobs = []
    for t in tests:
        if a.tier == "quick" and t.quick == 0:
            continue    # too slow for every change
        n = int(max(1, (t.quick * QUICK.get(pid, 1) if a.tier == "quick" else t.thorough) * a.scale))
        sh = max(1, min(min(NWORK, round(t.shards * max(1, QUICK.get(pid, 1) / 2))) if a.tier == "quick" else max(t.shards, 4), n))
        for s in range(sh):
            jobs.append((t, s, n // sh + (1 if s < n % sh else 0)))
    native = 0
    # longest first, roughly
    running, results, crashed, queue = {}, [], [], list(jobs)
    idx = 0
    while queue or running:
        while queue and len(running) < NWORK:
            t, s, n = queue.pop(0)
            out = os.path.join(work, f"r{idx}.json")
            idx += 1
            sys.stdout.flush()
            sys.stderr.flush()
            pid_ = os.fork()
            if pid_ == 0:
                code = 3
                try:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.environ["MPLCONFIGDIR"] = os.path.join(work, "mpl")
                    core.run_shard(pid, t, s, n, seed, deadline, out)
                    code = 0
                finally:
                    os._exit(code)
            running[pid_] = (t, s, n, out)
        p, status = os.waitpid(-1, 0)
        if p in running:
            t, s, n, out = running.pop(p)
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                cur = None
                if os.path.exists(out + ".cur"):
                    with open(out + ".cur") as f:
                        cur = f.read()
                if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT) \
                        and s < 300:
                    # cddlib's floating point stage corrupts its heap on some inputs with entries of
                    # very different sizes (DESIGN.md): start the shard again on other inputs
                    native += 1
                    queue.append((t, s + 100, n))
                    print(f"[{pid}/{t.name}] worker {s} died in native code; restarted with another seed")
                    print(f"   last case: {cur and cur[:500]}")
                    continue
                crashed.append((t, s, status, cur))

    infra = [r for r in results if r.get("infra")]
    failures = [r for r in results if r.get("failure")]
    ev = sum(r["evaluations"] for r in results)
    hashes = set()
    per = {}
    samples = []
    for r in results:
        hashes.update(r["test"] + h for h in r["hashes"])
        d = per.setdefault(r["test"], dict(evaluations=0, nontrivial=0, events={}))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += r["nontrivial"]
        for k, v in r["events"].items():
            d["events"][k] = d["events"].get(k, 0) + v
        if len([x for x in samples if x["test"] == r["test"]]) < 2:
            samples.extend(dict(test=r["test"], case=c) for c in r["samples"][:1])
    rules = "; ".join(f"{t.name}: {t.rule}" for t in tests)
    nviol = 0
    lines = []
    reported = set()
    for r in failures:
        if r["test"] in reported:
            continue
        cands = [x for x in failures if x["test"] == r["test"]]
        best = min(cands, key=lambda x: len(core.dumps(x["failure"]["case"])))
        reported.add(r["test"])
        nviol += 1
        rp = save_replay(pid, dict(property=pid, test=r["test"], seed=seed,
                                   case=best["failure"]["case"],
                                   message=best["failure"]["message"]))
        print(f"[{pid}/{r['test']}] {best['failure']['message']}")
        print(f"   case: {core.dumps(best['failure']['case'])[:1500]}")
        lines.append(f"VIOLATION property={pid} replay={rp}")
    for t, s, status, cur in crashed:
        # the interpreter itself died (native code crashed or memory ran out): not a verdict
        print(f"[{pid}/{t.name}] worker {s} died with status {status}; last case {cur and cur[:500]}")

    kf = []
    for e in known(pid):
        if e.get("status", "open") != "open":
            continue
        probe = getattr(mod, "PROBES", {}).get(e["id"])
        if probe is None:
            print(f"harness error: known finding {e['id']} has no probe")
            return 2
        try:
            still = probe()
        except Exception as x:      # the code fails in some other way there: for the tests to report
            print(f"note: known finding {e['id']}: the probe ended with {type(x).__name__}: {x}")
            still = False
        kf.append(dict(id=e["id"], reproduces=bool(still)))
        if still:
            print(f"KNOWN-FINDING: property={pid} {e['id']}: {e['what']}")
        else:
            print(f"note: known finding {e['id']} no longer reproduces")

    wall = time.monotonic() - t0
    incon = [r["test"] for r in results if r.get("inconclusive")]
    evd = dict(property=pid, tier=a.tier, seed=seed, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=rules,
                             samples=samples[:24], per_test=per,
                             budget_exhausted=sorted(set(incon)), native_crashes=native, known_findings=kf),
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2),
               violations=nviol)
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, f"{pid}.json"), "w") as f:
        f.write(json.dumps(evd, indent=1, default=core.default))
    for tname, d in per.items():
        evs = ", ".join(f"{k}={v}" for k, v in sorted(d["events"].items()))
        print(f"  {tname}: {d['evaluations']} cases, {d['nontrivial']} non-trivial {evs}")
    print(f"{pid}: {ev} cases, {len(hashes)} distinct non-trivial, {wall:.1f} s"
          + (f", budget hit in {sorted(set(incon))}" if incon else ""))
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if infra:
        print("harness error:", infra[0]["test"], infra[0]["infra"])
        return 2
    if crashed:
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
