"""
The machinery shared by all of the checks: campaigns of generated cases, shrinking,
replay files, evidence.

A property is a module in harness/props with an `ID`, a `RULE` (how cases are made
and what makes one non-trivial), and a list of `FACETS`.  A facet is a Hypothesis
strategy that produces JSON-able cases, and a check of one case against an oracle.
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import time
import traceback

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)
if HYPOTHESIS_PATH not in sys.path:
    # Last, so that the libraries of the project itself are never taken from there.
    sys.path.append(HYPOTHESIS_PATH)

SHARDS = 8
CASE_CPU_SECONDS = 40


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """A case used an absurd amount of processor time."""


class Stop(BaseException):
    """The time budget of the campaign is used up (inconclusive from here on)."""


class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None, pins=(), examples=()):
        """
        strategy: a function without arguments that returns the strategy
        check: check(case) raises Violation, or returns (nontrivial, labels)
        quick, thorough: total number of cases to generate
        examples: cases that are always run, before anything is generated
        """
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 25
        self.examples = list(examples)


def case_text(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def case_hash(case):
    return hashlib.sha256(case_text(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    text = '|'.join(str(p) for p in parts)
    return int(hashlib.sha256(text.encode()).hexdigest()[:12], 16)


# Calls into the code under test

@contextlib.contextmanager
def library(what='gopher_render'):
    """
    Anything raised by the code under test while handling valid input is a
    violation of the property being checked - it did not produce the result.
    """
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            yield out
    except Violation:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/gopher_render/' in f.filename]
        at = ''
        if where:
            at = ' at {}:{}'.format(os.path.relpath(where[-1].filename, REPO), where[-1].name)
        raise Violation('{} raised {}: {}{}'.format(what, type(e).__name__, str(e)[:200], at)) from e


def expect(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


def expect_equal(actual, expected, what):
    if actual != expected:
        raise Violation('{}:\n  expected {!r}\n  actual   {!r}'.format(what, expected, actual))


# One shard of a campaign

def _on_cpu_limit(signum, frame):
    raise Hang()


_current = {}


def run_case(facet, case):
    """
    Check one case. Raises Violation, or returns (nontrivial, labels).
    """
    # Keep hold of the case, in case it never ends.
    _current['case'] = case
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        return facet.check(case)
    except (LookupError, ValueError, TypeError, AttributeError, AssertionError, ArithmeticError):
        # Errors of the code under test are dealt with where it is called. This one is from
        # taking apart output that is nothing like what it should be.
        raise Violation('the check can make nothing of the output:\n' + traceback.format_exc(limit=-3))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_shard(prop, facet, shard, shards, seed, tier, deadline, limit=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import errors as herrors
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45

    signal.signal(signal.SIGPROF, _on_cpu_limit)
    total = facet.quick if tier == 'quick' else facet.thorough
    count = max(1, total // shards)
    state = dict(
        evaluations=0, nontrivial=set(), labels={}, samples=[], violation=None,
        budget_hit=False, facet=facet.name, shard=shard,
    )

    def record(case, result):
        nontrivial, labels = result
        state['evaluations'] += 1
        for l in labels:
            state['labels'][l] = state['labels'].get(l, 0) + 1
        if nontrivial:
            h = case_hash(case)
            if h not in state['nontrivial']:
                state['nontrivial'].add(h)
                n = len(state['nontrivial'])
                # A few early ones, then ever rarer ones (they tend to be larger).
                if n in (5, 40, 150, 600):
                    text = case_text(case)
                    if len(text) < 3000:
                        state['samples'].append(case)

    def fail(case, message):
        state['violation'] = dict(
            property=prop.ID, facet=facet.name, case=case, message=message,
            shard=shard, shards=shards, seed=seed, tier=tier, evaluations=state['evaluations'],
        )

    def one(case):
        if time.monotonic() > deadline:
            state['budget_hit'] = True
            raise Stop()
        try:
            result = run_case(facet, case)
        except Violation as v:
            fail(case, str(v))
            raise
        record(case, result)

    try:
        if shard == 0:
            for case in facet.examples:
                one(case)

        test = given(facet.strategy())(one)
        test = settings(
            max_examples=count,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(derive_seed(seed, prop.ID, facet.name, shard))(test)
        test()
    except Violation:
        pass
    except Stop:
        pass
    except Hang:
        fail(_current['case'], 'no result after {} seconds of processor time'.format(CASE_CPU_SECONDS))
    except herrors.Flaky:
        if state['violation'] is None:
            raise
    except BaseExceptionGroup as g:
        if state['violation'] is None:
            raise
    state['nontrivial'] = sorted(state['nontrivial'])
    return state

