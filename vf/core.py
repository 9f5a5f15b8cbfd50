"""Property registration, Hypothesis driver, shrinking, replay.

A *part* is (strategy producing a JSON-able case, check(case)).  check() raises on violation, calls discard() for a case
outside the domain, and returns a dict {'nt': bool (non-trivial by the stated rule), 'tags': [...], 'key': optional}.
The replay file is the shrunk JSON case: it is re-run by check() alone, without Hypothesis.
"""
import hashlib
import json
import os
import signal
import time
import traceback
from contextlib import contextmanager

from . import env  # noqa
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
import hypothesis.internal.conjecture.engine as _eng
from hypothesis.errors import HypothesisException

from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.toolbox.core import temporary_instance_cache

_eng.MAX_SHRINKING_SECONDS = 40


class Violation(Exception):
    """The oracle disagrees with the code."""


class Discard(Exception):
    """Case outside of the domain of the property (counted)."""


class CaseTimeout(BaseException):
    """The code under test did not return within a (large) CPU-time bound."""


def discard(reason='out of domain'):
    raise Discard(reason)


def _text(msg, args):
    if not args:
        return msg
    from qnet.algebra.core.abstract_algebra import Expression
    return msg % tuple(shown(a) if isinstance(a, (Expression, list, tuple)) else a for a in args)


def fail(msg, *args):
    raise Violation(_text(msg, args))


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(_text(msg, args))


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None, rule=None, fresh=True, cases=None):
        self.name = name
        self.strategy = strategy      # zero-argument callable returning a strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule
        self.fresh = fresh
        self.cases = cases            # optional callable: exhaustive list of cases instead of a strategy


class Property:
    def __init__(self, id, rule, assumptions=()):
        self.id = id
        self.rule = rule
        self.assumptions = list(assumptions)
        self.parts = []

    def part(self, name, strategy=None, quick=200, thorough=None, rule=None, fresh=True, cases=None):
        def deco(fn):
            self.parts.append(Part(name, strategy, fn, quick, thorough, rule, fresh, cases))
            return fn
        return deco

    def get(self, name):
        for p in self.parts:
            if p.name == name:
                return p
        raise KeyError(name)


CPU_LIMIT = float(os.environ.get('VF_CASE_CPU', '150'))


@contextmanager
def cpu_guard(limit=None):
    def on_alarm(sig, frame):
        raise CaseTimeout('no result after %.0f s of CPU time' % (limit or CPU_LIMIT))
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit or CPU_LIMIT)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_case(part, case):
    """One evaluation, from a fresh expression cache so that the result depends on the case only"""
    with cpu_guard():
        if part.fresh:
            with temporary_instance_cache(Expression):
                return part.check(case)
        return part.check(case)


def short_tb(exc):
    """traceback without the frames of Hypothesis and the driver"""
    frames = [f for f in traceback.extract_tb(exc.__traceback__)
              if 'hypothesis' not in f.filename and not f.filename.endswith('vf/core.py')]
    txt = ''.join(traceback.format_list(frames[-9:])) + '%s: %s' % (type(exc).__name__, exc)
    return txt[-3000:]


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discards = 0
        self.skipped = 0
        self.nt = set()
        self.tags = {}
        self.samples = []
        self.discard_reasons = {}
        self.max_case_s = 0.0


class Failure:
    def __init__(self, part, case, exc):
        self.part = part
        self.case = case
        self.exc = exc


def run_part(part, seed, n, deadline, known=None, shard=(0, 1)):
    """Returns (Stats, Failure|None, known_hits)"""
    st = Stats()
    found = {}
    known_hits = {}

    def one(case):
        if time.monotonic() > deadline:
            st.skipped += 1
            return
        if found.get('timeout'):
            return
        t0 = time.monotonic()
        try:
            info = run_case(part, case) or {}
        except Discard as exc:
            st.discards += 1
            r = str(exc)
            st.discard_reasons[r] = st.discard_reasons.get(r, 0) + 1
            return
        except HypothesisException:
            raise
        except CaseTimeout as exc:
            found['timeout'] = True
            found['case'], found['exc'] = case, exc
            return
        except Exception as exc:
            kid = known(part, case, exc) if known else None
            if kid:
                known_hits[kid] = known_hits.get(kid, 0) + 1
                return
            found['case'], found['exc'] = case, exc
            raise
        st.evaluations += 1
        st.max_case_s = max(st.max_case_s, time.monotonic() - t0)
        if info.get('nt', True):
            st.nt.add(info.get('key') or case_hash(case))
            if len(st.samples) < 2 and (st.evaluations % 7 == 3 or st.evaluations > 40):
                st.samples.append({'part': part.name, 'case': case, 'shown': info.get('show')})
        for t in info.get('tags', ()):
            st.tags[t] = st.tags.get(t, 0) + 1

    if part.cases is not None:
        cases = list(part.cases())
        for i, case in enumerate(cases):
            if i % shard[1] != shard[0]:
                continue
            try:
                one(case)
            except Exception as exc:
                return st, Failure(part, case, exc), known_hits
        if found.get('timeout'):
            return st, Failure(part, found['case'], found['exc']), known_hits
        return st, None, known_hits

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)
    @given(part.strategy())
    def test(case):
        one(case)

    try:
        test()
    except Exception as exc:
        if 'case' not in found:
            raise    # trouble in the machinery itself (generator error, ...)
        return st, Failure(part, found['case'], found['exc']), known_hits
    if found.get('timeout'):
        return st, Failure(part, found['case'], found['exc']), known_hits
    return st, None, known_hits


def shown(e):
    """Text of an expression for messages and samples; the printers are judged elsewhere (Q18)"""
    try:
        return str(e)[:300]
    except Exception as exc:
        return '<%s that cannot be printed: %r>' % (type(e).__name__, exc)
