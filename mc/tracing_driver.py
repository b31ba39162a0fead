# -*- coding: utf-8 -*-
"""Executes programs under the real tracing profiler."""
from __future__ import absolute_import

import itertools
import sys

from mc import env
env.install(*env.CLOCKS)

from mc import programs
from mc.core import expect, expect_equal, HarnessError
from mc.programs import C

from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer


class VirtualTimer(Timer):

    def __call__(self):
        return C.now


class CostlyProfiler(TracingProfiler):
    """A tracing profiler whose event processing costs time."""

    cost_stack = 0.0
    cost_record = 0.0

    def frame_stack(self, *args, **kwargs):
        C.now += self.cost_stack
        return super(CostlyProfiler, self).frame_stack(*args, **kwargs)

    def record_entering(self, *args, **kwargs):
        C.now += self.cost_record
        return super(CostlyProfiler, self).record_entering(*args, **kwargs)

    def record_leaving(self, *args, **kwargs):
        C.now += self.cost_record
        return super(CostlyProfiler, self).record_leaving(*args, **kwargs)


CLOCK_TARGETS = {'time.clock': lambda: C.now, 'time.time': lambda: C.now,
                 'time.process_time': lambda: C.now}


def execute(spec, windows, costs=(0.0, 0.0), profiler=None):
    """Runs a program with session windows [(start slot, stop slot), ...].
    Slot -1 is before the program, slot n after it.  Returns the list of
    (implementation result, reference result) of each session.
    """
    root = programs.build(spec)
    order = programs.slots(root)
    n = len(order)
    C.now = 0.0
    results = []
    ref = programs.Reference()
    if profiler is None:
        profiler = CostlyProfiler(base_frame=sys._getframe(),
                                  timer=VirtualTimer())
    profiler.cost_stack, profiler.cost_record = costs

    def snap():
        stats, cpu_time, wall_time = profiler.result()
        results.append((programs.prune(programs.stats_tree(stats)), cpu_time))
    before, after = [], []
    for start, stop in windows:
        for slot, what in ((start, 'start'), (stop, 'stop')):
            ops = (before if slot < 0 else
                   after if slot >= n else order[slot][0].ops[order[slot][1]])
            if what == 'start':
                ops.append(profiler.start)
            else:
                ops.append(profiler.stop)
                ops.append(snap)
    with env.patched(dict((k, v) for k, v in CLOCK_TARGETS.items()
                          if k in env.TRAMPOLINES)):
        try:
            for o in before:
                o()
            if root.gen:
                for y in root.fn(root):
                    C.now += root.y
            else:
                root.fn(root)
            for o in after:
                o()
        finally:
            hook = sys.getprofile()
            sys.setprofile(None)
    if hook is not None:
        raise AssertionError('profile function left behind')
    # the reference.
    expected = []
    events = [('op', o) for o in before]
    events += programs.simulate(root)
    events += [('op', o) for o in after]
    steps = 0
    for kind, arg in events:
        steps += 1
        if kind != 'op':
            ref.feed((kind, arg))
        elif arg == profiler.start:
            ref.feed(('start', None))
        elif arg == profiler.stop:
            ref.feed(('stop', None))
        else:
            expected.append((ref.tree(), ref.session_time))
    return results, expected, steps


def windows_of(nslots, sessions, dense=True):
    """All placements of a number of sessions at program points."""
    points = range(-1, nslots + 1)
    for combo in itertools.combinations_with_replacement(
            points, 2 * sessions):
        yield tuple(zip(combo[::2], combo[1::2]))


def nslots(spec):
    return 1 + len(spec[2]) + sum(nslots(k) for k in spec[2]) \
        if spec[2] else 1
