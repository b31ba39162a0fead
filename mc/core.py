# -*- coding: utf-8 -*-
"""Core of the model checking framework: check context, explorers, evidence.

Everything here is deterministic.  A check explores executions of the real code
in /repo/profiling (never samples them) and compares each with a reference
model.  See DESIGN.md.
"""
from __future__ import absolute_import, division

import collections
import contextlib
import itertools
import json
import os
import pickle
import signal
import sys
import time as _time_module
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
_monotonic = _time_module.monotonic
_signal = signal.signal
_setitimer = signal.setitimer


class HarnessError(Exception):
    """The machinery itself is wrong (never a violation)."""


class Mismatch(Exception):
    """The implementation disagrees with the specification."""


class CaseTimeout(BaseException):
    """One case did not terminate."""


def expect(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def expect_equal(got, want, what):
    if got != want:
        raise Mismatch('%s: got %r, want %r' % (what, got, want))


CASE_TIMEOUT = 60.0
#: Stop at the first violation (for mutation testing).
FAILFAST = bool(os.environ.get('VERIF_FAILFAST'))


class Ctx(object):
    """The state of one check run: counters, samples, violations."""

    def __init__(self, prop, tier, seed, known=()):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = collections.Counter()
        self.notes = {}
        self.violations = []
        self.known = known
        self.known_hit = {}
        self.case_timeout = CASE_TIMEOUT
        self.deadline = None

    # -- counting -----------------------------------------------------------

    @property
    def quick(self):
        return self.tier != 'thorough'

    def state(self, key):
        """Records a visited canonical state."""
        self.states.add(hash_state(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes[str(key)] += 1

    def sample(self, case, every=1):
        if len(self.samples) < 5:
            self.samples.append(case)

    def note(self, key, value):
        self.notes[key] = value

    # -- running cases ------------------------------------------------------

    def case(self, case, func, *args, **kwargs):
        """Runs one complete execution.  Any disagreement, unexpected
        exception or non-termination of the code under test is a violation.
        `case` must be JSON serializable: it is the replay artefact.
        Returns True when it held.
        """
        self.traces += 1
        try:
            with alarm(self.case_timeout):
                func(*args, **kwargs)
        except HarnessError:
            raise
        except KeyboardInterrupt:
            raise
        except CaseTimeout:
            self.fail(case, 'did not terminate within %g s' %
                      self.case_timeout)
        except Mismatch as exc:
            self.fail(case, str(exc))
        except BaseException as exc:
            tb = traceback.format_exc()
            self.fail(case, 'unexpected %s: %s' % (type(exc).__name__, exc),
                      tb)
        else:
            if len(self.samples) < 5:
                self.samples.append(case)
            return True
        return False

    def fail(self, case, message, detail=None):
        for key, needle in self.known:
            if needle(case, message):
                self.known_hit.setdefault(key, (case, message))
                return
        self.violations.append({'case': case, 'message': message,
                                'detail': detail})
        if len(self.violations) >= (1 if FAILFAST else 3):
            raise StopCheck()

    # -- parallel exploration ----------------------------------------------

    def merge(self, other):
        self.states |= other['states']
        self.transitions += other['transitions']
        self.traces += other['traces']
        self.outcomes.update(other['outcomes'])
        for s in other['samples']:
            if len(self.samples) < 5:
                self.samples.append(s)
        for k, v in other['notes'].items():
            self.notes[k] = v
        for k, v in other['known_hit'].items():
            self.known_hit.setdefault(k, v)
        self.violations.extend(other['violations'])

    def export(self):
        return {'states': self.states, 'transitions': self.transitions,
                'traces': self.traces, 'outcomes': dict(self.outcomes),
                'samples': self.samples, 'notes': self.notes,
                'known_hit': self.known_hit, 'violations': self.violations}

    def shards(self, func, n=None, timeout=840):
        """Runs func(ctx, shard, nshards) in n forked processes and merges what
        they covered.  The partition into shards never changes what is
        explored, just where.
        """
        n = n or int(os.environ.get('VERIF_JOBS', '8'))
        if n == 1:
            try:
                func(self, 0, 1)
            except StopCheck:
                pass
            self.raise_if_failed()
            return
        sys.stdout.flush()
        sys.stderr.flush()

        def start(shard, others=()):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    for __, __, other_r in others:
                        os.close(other_r)
                    self.work(func, shard, n, w)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            return shard, pid, r

        def finish(worker):
            shard, pid, r = worker
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            return data, os.waitpid(pid, 0)[1]
        workers = []
        for shard in range(n):
            workers.append(start(shard, workers))
        errors = []
        results = [finish(worker) for worker in workers]
        for shard, (data, status) in enumerate(results):
            if not data and os.WIFSIGNALED(status):
                # once more: the interpreter itself may have crashed.
                data, status = finish(start(shard))
            if not data:
                errors.append('worker died with status %d' % status)
                continue
            err, exported = pickle.loads(data)
            self.merge(exported)
            if err:
                errors.append(err)
        if errors and not self.violations:
            raise HarnessError('\n'.join(errors))
        self.raise_if_failed()

    def work(self, func, shard, n, w):
        sub = Ctx(self.prop, self.tier, self.seed, self.known)
        sub.case_timeout = self.case_timeout
        err = None
        try:
            func(sub, shard, n)
        except StopCheck:
            pass
        except BaseException as exc:
            err = traceback.format_exc()
            if raised_by_repo(exc):
                sub.violations.append(broken(exc))
        data = pickle.dumps((err, sub.export()), 2)
        with os.fdopen(w, 'wb') as f:
            f.write(data)

    def raise_if_failed(self):
        if self.violations:
            raise StopCheck()


def raised_by_repo(exc):
    """Whether the code under test itself raised an error, where a check
    doesn't expect any: as it was imported or prepared.
    """
    package = os.path.join(os.path.realpath(REPO), 'profiling') + os.sep
    if isinstance(exc, HarnessError):
        return False
    if isinstance(exc, SyntaxError):
        return os.path.realpath(exc.filename or '').startswith(package)
    frames = traceback.extract_tb(exc.__traceback__)
    # importing goes through frames of the import system.
    frames = [f for f in frames if '<frozen' not in f[0] and
              'importlib' not in f[0]]
    return bool(frames) and \
        os.path.realpath(frames[-1][0]).startswith(package)


def broken(exc):
    return {'case': 'load', 'detail': ''.join(traceback.format_exception(
                type(exc), exc, exc.__traceback__)),
            'message': 'unexpected %s: %s' % (type(exc).__name__, exc)}


class StopCheck(Exception):
    """Enough violations were found."""


def hash_state(key):
    """A stable 64-bit digest of a canonical state."""
    import hashlib
    if not isinstance(key, bytes):
        key = repr(key).encode('utf-8', 'replace')
    return hashlib.blake2b(key, digest_size=8).digest()


@contextlib.contextmanager
def alarm(seconds):
    if seconds is None:
        yield
        return
    fired = []

    def handler(signum, frame):
        fired.append(1)
        # keep firing, in case it is swallowed.
        _setitimer(signal.ITIMER_REAL, 1.0)
        raise CaseTimeout()
    old = _signal(signal.SIGALRM, handler)
    _setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        _setitimer(signal.ITIMER_REAL, 0)
        _signal(signal.SIGALRM, old)
    if fired:
        raise CaseTimeout()


# -- explorers ---------------------------------------------------------------


class Chooser(object):
    """Answers the nondeterministic choices of one execution.  It follows a
    prefix of choices and takes the default 0 afterwards.
    """

    def __init__(self, prefix=()):
        self.prefix = tuple(prefix)
        self.points = []  # (label, n, cost of a deviation)
        self.choices = []
        self.duplicate = False

    def __call__(self, n, label='', cost=1):
        """Chooses one of n alternatives.  0 is the default one, the others
        cost a deviation of `cost`.
        """
        i = len(self.points)
        if i < len(self.prefix):
            choice = self.prefix[i]
            if not 0 <= choice < n:
                raise HarnessError('replay diverged at point %d (%s): %d of %d'
                                   % (i, label, choice, n))
        else:
            choice = 0
        self.points.append((label, n, cost))
        self.choices.append(choice)
        return choice

    def pick(self, options, label='', cost=1):
        return options[self(len(options), label, cost)]

    def spent(self, upto=None):
        return sum(p[2] for p, c in zip(self.points[:upto],
                                        self.choices[:upto]) if c)


class PeriodicChooser(Chooser):
    """Repeats a word of choices for every label."""

    def __init__(self, words):
        super(PeriodicChooser, self).__init__()
        self.words = words
        self.at = dict((label, 0) for label in words)

    def __call__(self, n, label='', cost=1):
        word = self.words[label]
        choice = word[self.at[label] % len(word)]
        self.at[label] += 1
        self.points.append((label, n, cost))
        self.choices.append(choice)
        return choice


def words(tokens, upto):
    """All words which are no repetition of a shorter one."""
    for k in range(1, upto + 1):
        for word in itertools.product(tokens, repeat=k):
            if not any(k % j == 0 and word == word[:j] * (k // j)
                       for j in range(1, k)):
                yield word


def explore(run, bound=None, limit=None, first=None):
    """Stateless, deviation bounded depth-first exploration.  Yields the chooser
    of every complete execution of `run(chooser)` with at most `bound`
    deviations (None: no bound), each exactly once.

    :param first: restricts the exploration to given prefixes (for sharding).
    """
    stack = [tuple(p) for p in (first if first is not None else [()])]
    count = 0
    while stack:
        prefix = stack.pop()
        chooser = Chooser(prefix)
        run(chooser)
        if len(chooser.points) < len(prefix):
            raise HarnessError('replay diverged: execution ended early')
        count += 1
        yield chooser
        if limit is not None and count >= limit:
            raise HarnessError('exploration limit reached')
        spent = chooser.spent(len(prefix))
        alts = []
        for i in range(len(prefix), len(chooser.points)):
            label, n, cost = chooser.points[i]
            if bound is not None and spent + cost > bound:
                continue
            for alt in range(1, n):
                alts.append(tuple(chooser.choices[:i]) + (alt,))
        stack.extend(reversed(alts))


def explore_sharded(run, shard, nshards, bound=None):
    """As `explore`, but of all executions just the part of this shard.  The
    executions without a costly deviation are run in every shard (they count
    just in the first one: the chooser is marked as duplicate elsewhere), the
    sub-trees below their costly alternatives are dealt round-robin.
    """
    k = 0
    free = [()]
    while free:
        prefix = free.pop()
        chooser = Chooser(prefix)
        chooser.duplicate = shard != 0
        run(chooser)
        if not chooser.duplicate:
            yield chooser
        for i in range(len(prefix), len(chooser.points)):
            label, n, cost = chooser.points[i]
            for alt in range(1, n):
                sub = tuple(chooser.choices[:i]) + (alt,)
                if not cost:
                    free.append(sub)
                    continue
                if bound is not None and cost > bound:
                    continue
                if k % nshards == shard:
                    for c in explore(run, bound, first=[sub]):
                        yield c
                k += 1


def explore_dealt(run, shard, nshards, bound=None, fan=400):
    """As `explore_sharded`, but expands the tree of executions breadth-first
    until there are enough sub-trees to deal: for many cheap alternatives.
    """
    queue = collections.deque([()])
    while queue and len(queue) < fan:
        prefix = queue.popleft()
        chooser = Chooser(prefix)
        chooser.duplicate = shard != 0
        run(chooser)
        if not chooser.duplicate:
            yield chooser
        spent = chooser.spent(len(prefix))
        for i in range(len(prefix), len(chooser.points)):
            label, n, cost = chooser.points[i]
            if bound is not None and spent + cost > bound:
                continue
            for alt in range(1, n):
                queue.append(tuple(chooser.choices[:i]) + (alt,))
    for x, prefix in enumerate(queue):
        if x % nshards == shard:
            for c in explore(run, bound, first=[prefix]):
                yield c


def bfs(ctx, events, apply, depth, canon=None, start=((),)):
    """Explicit-state search with history replay: `apply(history)` builds a
    fresh object, replays the history against the implementation and the
    reference model (raising Mismatch when they disagree) and returns a
    canonical state or None when the history isn't possible.  A history whose
    state was seen is not extended.
    """
    seen = set()
    frontier = collections.deque()
    for h in start:
        frontier.append((tuple(h), len(h)))
    first = True
    while frontier:
        hist, __ = frontier.popleft()
        for ev in ([None] if first and not hist else events(hist)):
            nxt = hist if ev is None else hist + (ev,)
            box = []
            ok = ctx.case({'history': list(nxt)},
                          lambda: box.append(apply(nxt)))
            ctx.step()
            if not ok or box[0] is None:
                continue
            key = hash_state(box[0])
            if key in seen:
                continue
            seen.add(key)
            ctx.states.add(key)
            if len(nxt) < depth:
                frontier.append((nxt, len(nxt)))
            if ev is None:
                # the initial state.
                first = False
        first = False
    return len(seen)


def sequences(alphabet, depth):
    """All non-empty sequences over the alphabet, shortest first."""
    import itertools
    for n in range(1, depth + 1):
        for seq in itertools.product(alphabet, repeat=n):
            yield seq


# -- reporting ---------------------------------------------------------------


def write_evidence(ctx, info, wall, level):
    coverage = {
        'states': len(ctx.states),
        'transitions': ctx.transitions,
        'traces_validated_against_impl': ctx.traces,
        'samples': ctx.samples[:5],
        'evaluations': ctx.traces,
        'distinct_outcomes': len(ctx.outcomes),
        'outcomes': dict(ctx.outcomes.most_common(12)),
        'bounds': info.get('bounds', ''),
        'exhaustive': True,
    }
    coverage.pop('evaluations')
    coverage.update(ctx.notes)
    evidence = {
        'property': ctx.prop,
        'tier': ctx.tier if ctx.tier in ('quick', 'thorough') else 'quick',
        'seed': ctx.seed,
        'level': level,
        'coverage': coverage,
        'assumptions': info.get('assumptions', []),
        'wall_s': round(wall, 3),
        'violations': len(ctx.violations),
    }
    path = os.path.join(EVIDENCE, ctx.prop + '.json')
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=repr)
        f.write('\n')
    os.rename(tmp, path)
    return evidence


def own_address():
    """An address which no other process uses, outside of the ports that are
    given to connections: a restarted server can listen there again.
    """
    a, b, c, d = bytearray(os.urandom(4))
    return ('127.%d.%d.%d' % (a % 254 + 1, b, c % 254 + 1), 8900 + d)
