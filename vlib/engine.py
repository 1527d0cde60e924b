""" Small engine on top of Hypothesis.

A property is a list of :class:`Sub` checks.  Each has a strategy which produces *plain data* (JSON-able:
dict / list / str / int / bool / None) and a ``run(case, ctx)`` oracle which never draws anything, raises when the property is
broken on that case, and is a pure function of the case and of the code under test.  Because cases are plain
data, a shrunk failure is written as JSON and replayed without Hypothesis.
"""
import hashlib
import json
import os
import shutil
import signal
import tempfile
import traceback

CASE_CPU_LIMIT = 60  # seconds of *CPU* time (normal cases take a few milliseconds)


class Violation(AssertionError):
    """ The property does not hold on a case """


class CaseTimeout(BaseException):
    """ A case used CASE_CPU_LIMIT seconds of CPU """


class HarnessError(Exception):
    """ Something is wrong with the harness itself (never reported as a violation) """


class Sub(object):
    def __init__(self, name, strategy, run, quick=500, thorough=None, rule="", fixed_cases=None, graph=True):
        """
        :param name: identifier of the sub-check
        :param strategy: zero-argument callable returning the Hypothesis strategy
        :param run: oracle, called with (case, ctx)
        :param quick: number of cases of the quick tier
        :param thorough: number of cases of the thorough tier
        :param rule: what makes a case non trivial
        :param graph: reset the global RDF graph before each case
        :param fixed_cases: zero-argument callable, returns a list of cases which are always run first
        """
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.fixed_cases = fixed_cases
        self.graph = graph


class Ctx(object):
    """ Handed to the oracle; collects what the run looked like """

    def __init__(self):
        self.labels = {}
        self._nontrivial = False
        self._tmp = None

    def label(self, *names):
        for name in names:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case-", dir=os.environ.get("VERIF_SCRATCH"))
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def check(cond, message, *args):
    """ Oracle assertion (never stripped, unlike assert) """
    if not cond:
        raise Violation(message.format(*args) if args else message)


def check_eq(got, expected, what):
    if not (got == expected):
        raise Violation("{}:\n   expected {!r}\n   got      {!r}".format(what, expected, got))


def raises(kinds, what, fn, *args, **kwargs):
    """ fn must raise one of kinds """
    try:
        res = fn(*args, **kwargs)
    except kinds:
        return
    except CaseTimeout:
        raise
    except BaseException as E:
        raise Violation("{}: expected {} but got {}: {}".format(what, kinds, type(E).__name__, E))
    raise Violation("{}: expected {} but nothing was raised; returned {!r}".format(what, kinds, res))


def _alarm(_sig, _frame):
    raise CaseTimeout("no answer within {} s of CPU time".format(CASE_CPU_LIMIT))


def describe(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines)[-4000:]


def run_case(sub, case):
    """ Run one case. Returns (None | description of the failure, ctx, timeout?) """
    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        if sub.graph:
            from . import support
            support.reset()
        sub.run(json.loads(dumps(case)), ctx)
        return None, ctx, False
    except (KeyboardInterrupt, HarnessError, MemoryError):
        raise
    except CaseTimeout as E:
        return describe(E), ctx, True
    except BaseException as E:
        return describe(E), ctx, False
    finally:
        spent = CASE_CPU_LIMIT - signal.setitimer(signal.ITIMER_VIRTUAL, 0)[0]
        if "VERIF_SLOW" in os.environ and spent > float(os.environ["VERIF_SLOW"]):
            # development aid: cases which come close to the limit
            print("slow case of {}: {:.1f} s, {} characters".format(sub.name, spent, len(dumps(case))), flush=True)
        ctx.close()


def shard_seed(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


class _Found(Exception):
    pass


def run_shard(prop, sub, shard, n_cases, seed, send):
    """ Generate and run n_cases cases of one sub-check; report through send(kind, payload) """
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    hashes_seen = set()
    nontrivial = set()
    labels = {}
    samples = []
    state = {"n": 0, "fail": None, "case": None, "shrinking": False}
    history = []

    def one(case):
        digest = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
        failure, ctx, timeout = run_case(sub, case)
        if not state["shrinking"]:
            state["n"] += 1
            history.append(case)
            hashes_seen.add(digest)
            for key, value in ctx.labels.items():
                labels[key] = labels.get(key, 0) + value
            if ctx._nontrivial:
                if digest not in nontrivial and len(samples) < 3 and len(dumps(case)) < 6000:
                    samples.append(case)
                nontrivial.add(digest)
        if failure is not None:
            if not state["shrinking"]:
                send("found", {"sub": sub.name, "case": case, "error": failure, "history": list(history)})
                state["shrinking"] = True
            state["fail"], state["case"] = failure, case
            if timeout:
                send("final", {"sub": sub.name, "case": case, "error": failure})
                os._exit(0)
            raise _Found()

    def finish(final=None):
        send("stats", {
            "sub": sub.name, "n": state["n"], "distinct": sorted(hashes_seen), "nontrivial": sorted(nontrivial),
            "labels": labels, "samples": samples
        })
        if final is not None:
            send("final", final)

    if shard == 0 and sub.fixed_cases is not None:
        for case in sub.fixed_cases():
            try:
                one(case)
            except _Found:
                finish({"sub": sub.name, "case": state["case"], "error": state["fail"]})
                return

    @hypothesis.seed(shard_seed(prop, sub.name, shard, seed))
    @settings(
        max_examples=n_cases, database=None, deadline=None, derandomize=False, print_blob=False,
        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet
    )
    @given(sub.strategy())
    def test(case):
        one(case)

    try:
        test()
    except _Found:
        finish({"sub": sub.name, "case": state["case"], "error": state["fail"]})
        return
    except BaseException as E:
        if isinstance(E, (KeyboardInterrupt, HarnessError, MemoryError)):
            raise
        if state["fail"] is not None:
            # Flaky: the failure depends on what ran before (the history was sent with the first failure)
            finish({"sub": sub.name, "case": state["case"], "error": state["fail"], "flaky": True})
            return
        raise HarnessError("generation failed in {}: {}".format(sub.name, describe(E)))
    finish()
