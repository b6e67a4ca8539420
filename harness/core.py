"""Shared machinery: running generated checks, counting, shrinking, replay."""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)  # at the END: numpy & co. must still come from /opt/venv


class Violation(Exception):
    """The property is broken by this case."""


class CaseHang(BaseException):
    """A single case used more CPU time than any case may."""


class Abort(BaseException):
    """Budget used up: stop this campaign."""


class Discard(Exception):
    """The case is outside the domain (counted, never a failure)."""


CASE_CPU_S = 150


def fail(msg):
    raise Violation(msg)


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Test:
    """One generated check.

    strategy: zero-argument function returning a Hypothesis strategy of JSON-able cases
    check:    function (case, ctx); raises Violation (or anything) when the property fails
    quick / thorough: how many cases, in total over all shards
    """

    def __init__(self, name, strategy, check, quick, thorough, shards=2, rule="", examples=(), cpu=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.rule = rule
        self.cpu = cpu or CASE_CPU_S
        self.examples = list(examples)


class Ctx:
    def __init__(self):
        self.is_nontrivial = False
        self.events = {}

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n


def default(o):
    if isinstance(o, Fraction):
        return str(o)
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(repr(o))


def dumps(case):
    return json.dumps(case, sort_keys=True, default=default)


def run_case(test, case, ctx):
    """Runs one case on a fresh JSON copy; returns None, or the failure text."""
    case = json.loads(dumps(case))
    out = io.StringIO()

    def on_alarm(signum, frame):
        raise CaseHang()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, test.cpu, 2)    # again if it came where exceptions are swallowed
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            test.check(case, ctx)
        return None
    except Discard:
        ctx.event("discarded")
        ctx.is_nontrivial = False
        return None
    except Violation as e:
        return str(e)
    except CaseHang:
        return f"no answer after {test.cpu} s of CPU time on one small input"
    except RecursionError as e:
        return "RecursionError: " + str(e)[:200]
    except Exception as e:
        return "unexpected exception: " + "".join(
            traceback.format_exception_only(type(e), e)).strip()[:500] + "\n" + "".join(
            traceback.format_tb(e.__traceback__)[-4:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Result(dict):
    pass


def run_shard(pid, test, shard, n, seed, deadline, out_path):
    """Runs n generated cases of one test. Writes its counts to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = dict(test=test.name, shard=shard, evaluations=0, nontrivial=0, events={}, hashes=[],
               samples=[], failure=None, inconclusive=None)
    seen = set()
    state = dict(best=None, first_fail=None)

    def flush():
        res["hashes"] = sorted(seen)
        tmp = out_path + ".tmp"
        with open(tmp, "w") as f:
            f.write(dumps(res))
        os.replace(tmp, out_path)

    def one(case):
        if time.monotonic() > deadline:
            res["inconclusive"] = "time budget used up"
            raise Abort()
        if state["first_fail"] and time.monotonic() > state["first_fail"] + 60:
            raise Abort()
        ctx = Ctx()
        text = dumps(case)
        with open(out_path + ".cur", "w") as f:
            f.write(text)
        msg = run_case(test, case, ctx)
        if not state["first_fail"]:
            res["evaluations"] += 1
            for k, v in ctx.events.items():
                res["events"][k] = res["events"].get(k, 0) + v
            if ctx.is_nontrivial:
                res["nontrivial"] += 1
                seen.add(hashlib.sha1(text.encode()).hexdigest()[:16])
                if len(res["samples"]) < 2 and len(text) < 1500:
                    res["samples"].append(json.loads(text))
        if msg is not None:
            if not state["first_fail"]:
                state["first_fail"] = time.monotonic()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, msg)
            if "no answer after" in msg:
                raise Abort()  # do not shrink hangs
            raise Violation(msg)

    hseed = int(hashlib.sha1(f"{seed}/{pid}/{test.name}/{shard}".encode()).hexdigest()[:12], 16)

    try:
        if shard == 0:
            for ex in test.examples:
                one(ex)
        first = [shard > 0]

        def body(case):
            # Hypothesis starts every run with its simplest case: one shard is enough for that one
            if first[0]:
                first[0] = False
                return
            one(case)

        fn = given(test.strategy())(body)
        fn = hypothesis.seed(hseed)(fn)
        fn = settings(max_examples=n + (shard > 0), database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), print_blob=False,
                      report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck))(fn)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except Abort:
        pass
    except BaseException as e:
        if state["best"] is None:
            res["infra"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state["best"] is not None:
        res["failure"] = dict(case=json.loads(state["best"][0]), message=state["best"][1])
    flush()
