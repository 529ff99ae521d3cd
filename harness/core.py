"""Shared machinery: case generation, sharding, verdicts, evidence, replay.

A check is a module harness/checks/cXX.py with a class ``Check(BaseCheck)``.

* ``cases(ctx)`` yields JSON-able cases (by default ``gen(rng)`` is called for
  every index below the tier's count, with an rng that depends only on
  (seed, property, index), so the split over worker processes is irrelevant).
* ``check(ctx, case)`` drives the real code on the case while the monitors
  watch, and calls ``ctx.fail(key, message)`` for each violation.  ``key``
  names the *mechanism*, which is what known_findings.txt refers to.

Verdicts are three valued: 0 held on everything observed, 1 violated (with a
VIOLATION line), 3 inconclusive (monitors not reached, worker lost).
"""
import errno
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from contextlib import contextmanager
from pathlib import Path

HOME = Path(os.environ.get('VERIF_HOME', '/verif'))
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))


class HarnessError(Exception):
    """Something in the harness or the sandbox is wrong (never a verdict)."""


class Hang(BaseException):
    """Raised by the watchdog in the code under test."""


def sha(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str)
                        .encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Ctx:
    """What a check sees of the run."""

    def __init__(self, check, tier, seed, shard=0, nshards=1, tmp=None,
                 deadline=None):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.tmp = Path(tmp)
        self.deadline = deadline
        self.evaluations = 0
        self.distinct = set()
        self.events = Counter()
        self.samples = []
        self.violations = []
        self.violation_keys = Counter()
        self.case = None
        self.case_index = None
        self._scratch = 0
        self._note = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def note(self, index, case):
        """Leave the case on disk, for when the process does not survive."""
        if self._note is None:
            self._note = open(str(self.tmp / 'current.json'), 'w')
        self._note.seek(0)
        self._note.truncate()
        self._note.write(json.dumps(dict(
            property=self.check.id, tier=self.tier, seed=self.seed,
            index=index, case=case), default=str))
        self._note.flush()

    def rng(self, *key):
        return random.Random('|'.join(map(str, (self.seed, self.check.id)
                                          + key)))

    def count(self, distinct=None, nontrivial=True, sample=None):
        """Record one evaluation of the oracle."""
        self.evaluations += 1
        if nontrivial and distinct is not None:
            self.distinct.add(sha(distinct))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def event(self, name, n=1):
        self.events[name] += n

    def fail(self, key, msg, **detail):
        self.violation_keys[key] += 1
        if self.violation_keys[key] > 3:
            return
        self.violations.append(dict(key=key, msg=str(msg)[:4000],
                                    case=self.case, index=self.case_index,
                                    detail=detail))

    def expect(self, cond, key, msg='', **detail):
        self.event('assertions')
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, **detail)
        return cond

    def equal(self, got, want, key, msg='', **detail):
        self.event('assertions')
        if got != want:
            self.fail(key, '{}\n  observed: {!r}\n  expected: {!r}'
                      .format(msg, _cut(got), _cut(want)), **detail)
            return False
        return True

    def time_left(self):
        return (self.deadline - time.monotonic()) if self.deadline else 1e9

    @contextmanager
    def scratch(self, name='w'):
        """A fresh directory below the run's scratch directory."""
        self._scratch += 1
        p = self.tmp / '{}{}'.format(name, self._scratch)
        p.mkdir(parents=True)
        try:
            yield p
        finally:
            shutil.rmtree(str(p), ignore_errors=True)

    @contextmanager
    def guard(self, cpu=60, wall=None, key='hang', what='operation'):
        """Bounded-progress watchdog.  CPU time (not wall time) decides, so a
        loaded machine cannot make it fire; the wall limit, when given, is
        used around work that waits for subprocesses and is very generous."""
        def onalarm(signum, frame):
            raise Hang('cpu' if signum == signal.SIGVTALRM else 'wall')
        old1 = signal.signal(signal.SIGVTALRM, onalarm)
        old2 = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
        if wall:
            signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            yield
        except Hang as e:
            self.fail(key, '{} did not finish within {} ({} limit)'.format(
                what, '%ss' % (cpu if str(e) == 'cpu' else wall), e))
            raise CaseDone()
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGVTALRM, old1)
            signal.signal(signal.SIGALRM, old2)


class CaseDone(Exception):
    """Stop the current case (its violation has been recorded)."""


def _cut(x, n=700):
    if isinstance(x, str) and len(x) > n:
        return x[:n] + '...[%d more]' % (len(x) - n)
    return x


class BaseCheck:
    id = None
    level = 'exploration'
    rule = ''
    assumptions = []
    quick_n = 100
    thorough_n = 1000
    shards = 8
    #: wall cap for generating new cases, by tier (seconds)
    quick_s = 150
    thorough_s = 720
    #: seconds after the cap for the last cases to end
    grace_s = 100
    case_cpu = 90
    case_wall = None
    #: event counters that must be at least this large, or: inconclusive
    floor = {}

    def gen(self, rng, index, ctx):
        raise NotImplementedError

    def cases(self, ctx):
        n = self.thorough_n if ctx.thorough else self.quick_n
        for i in range(ctx.shard, n, ctx.nshards):
            yield i, self.gen(ctx.rng('case', i), i, ctx)

    def setup(self, ctx):
        pass

    def teardown(self, ctx):
        pass

    def check(self, ctx, case):
        raise NotImplementedError

    def run(self, ctx):
        self.setup(ctx)
        try:
            for i, case in self.cases(ctx):
                if ctx.time_left() <= 0:
                    ctx.event('stopped_by_time')
                    break
                if len(ctx.violations) >= 12:
                    ctx.event('stopped_by_violations')
                    break
                self.one(ctx, i, case)
        finally:
            self.teardown(ctx)

    def one(self, ctx, i, case):
        ctx.case = case
        ctx.case_index = i
        ctx.note(i, case)
        try:
            with ctx.guard(cpu=self.case_cpu, wall=self.case_wall,
                           what='the case'):
                self.check(ctx, case)
        except CaseDone:
            pass
        except HarnessError:
            raise
        except MemoryError:
            raise
        except Exception as e:
            if isinstance(e, OSError) and e.errno in (
                    errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EAGAIN):
                raise HarnessError(repr(e))
            tb = traceback.format_exc()
            ctx.fail('exception:' + type(e).__name__,
                     'unexpected exception: ' + tb[-3000:])
        finally:
            ctx.case = None


def load_known():
    """known_findings.txt -> {property: {key: text}}."""
    known = {}
    p = HOME / 'known_findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if not line.startswith('known:'):
                continue
            fields = line.split(None, 3)
            d = dict(f.split('=', 1) for f in fields[1:3])
            known.setdefault(d['property'], {})[d['key']] = (
                fields[3] if len(fields) > 3 else '')
    return known
