# -*- coding: utf-8 -*-
"""C09: stack filtering keeps exactly the frames above the base."""
from __future__ import absolute_import

import itertools
import os
import shutil
import subprocess
import tempfile

from mc import core
from mc.core import expect_equal

from profiling.profiler import Profiler
from profiling.utils import frame_stack

INFO = {
    'technique': 'exhaustive enumeration of all small stacks and filters on '
                 'the real Python function, the real profiler and the real C '
                 'function (compiled against a miniature of the CPython API)',
    'bounds': 'all stacks up to 4 (quick) / 5 (thorough) frames over 3 codes, '
              'any base frame on or off the stack, any base code, all sets of '
              'ignored frames and codes, as tuple, list, set and frozenset; '
              'stacks of 30, 300 and 3000 frames with 7 base frames',
    'assumptions': ['the C accelerator is not built here (PyPy): it runs on '
                    'a stand-in for CPython objects (mc/cstub)'],
}


def code(name):
    ns = {}
    exec('def %s(): pass' % name, ns)
    return ns[name].__code__


CODES = [code('a'), code('b'), code('c')]
OFF_CODE = code('d')


class Frame(object):

    def __init__(self, code, back=None):
        self.f_code = code
        self.f_back = back
        self.f_lineno = 1
        self.f_globals = {}


def model(codes, bf, bc, fmask, cmask):
    """Indexes of the frames, which are numbered innermost first."""
    out = []
    for i, c in enumerate(codes):
        if i == bf or c == bc:
            break
        if not (fmask >> i & 1 or cmask >> c & 1):
            out.append(i)
    return out[::-1]


def cases(depth):
    for n in range(1, depth + 1):
        for codes in itertools.product(range(3), repeat=n):
            for bf in range(-1, n + 1):
                for bc in (-1, 0, 1, 2, 7):
                    for fmask in range(1 << n):
                        for cmask in range(8):
                            yield codes, bf, bc, fmask, cmask


def deep_cases():
    """Stacks which are far deeper."""
    for n in (30, 300, 3000):
        every = (1 << n) - 1
        for codes in ((0,) * n, (0, 1) * (n // 2), (0,) * (n - 1) + (1,),
                      (1,) + (0,) * (n - 1), (0, 0, 2) * (n // 3)):
            for bf in (-1, 0, 1, n // 2, n - 2, n - 1, n):
                for bc in (-1, 1, 2, 7):
                    for fmask in (0, 1, 1 << n // 2, every // 3, every,
                                  every ^ 1 << n - 1):
                        for cmask in (0, 2, 4):
                            yield codes, bf, bc, fmask, cmask


def make(codes):
    frame, frames = None, []
    for c in reversed(codes):
        frame = Frame(CODES[c], frame)
        frames.append(frame)
    return frames[::-1]


KINDS = {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset}


def run_case(ctx, kind, via, codes, bf, bc, fmask, cmask):
    frames = make(codes)
    base_frame = (None if bf < 0 else frames[bf] if bf < len(frames) else
                  Frame(OFF_CODE))
    base_code = None if bc < 0 else CODES[bc] if bc < 3 else OFF_CODE
    make_set = KINDS[kind]
    ignored_frames = make_set(f for i, f in enumerate(frames)
                              if fmask >> i & 1)
    ignored_codes = make_set(c for i, c in enumerate(CODES) if cmask >> i & 1)
    if via == 'function':
        got = frame_stack(frames[0], base_frame, base_code,
                          ignored_frames, ignored_codes)
    elif via == 'keywords':
        kwargs = {}
        if base_frame is not None:
            kwargs['base_frame'] = base_frame
        if base_code is not None:
            kwargs['base_code'] = base_code
        if ignored_frames:
            kwargs['ignored_frames'] = ignored_frames
        if ignored_codes:
            kwargs['ignored_codes'] = ignored_codes
        got = frame_stack(frames[0], **kwargs)
    else:
        got = Profiler(base_frame, base_code, ignored_frames,
                       ignored_codes).frame_stack(frames[0])
    at = dict((id(f), i) for i, f in enumerate(frames))
    got = [at[id(f)] for f in got]
    want = model(codes, bf, bc, fmask, cmask)
    ctx.step(len(codes))
    ctx.state((codes, tuple(want)) if len(codes) < 9 else
              (len(codes), codes[:3], bf, bc, fmask & 3, len(want)))
    ctx.outcome(len(want))
    expect_equal(got, want, 'frames (0 is the innermost)')


def run_c(ctx, batch):
    """The C function on many cases at once."""
    tmp = tempfile.mkdtemp(prefix='c09.')
    try:
        stub = os.path.join(core.VERIF, 'mc', 'cstub')
        source = os.path.join(core.REPO, 'profiling', 'speedup.c')
        if not os.path.exists(source):
            ctx.note('c_accelerator', 'no speedup.c')
            return
        exe = os.path.join(tmp, 'speedup')
        p = subprocess.Popen(
            ['gcc', '-std=gnu11', '-O1', '-w', '-I', stub,
             '-DSPEEDUP_C="%s"' % source, os.path.join(stub, 'driver.c'),
             '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.communicate()[0]
        if p.returncode:
            # it uses more of the API than the stand-in offers.
            ctx.note('c_accelerator', 'not explored: %s' %
                     out.decode('utf-8', 'replace')[:300])
            return
        lines = []
        for codes, bf, bc, fmask, cmask in batch:
            digits = ''.join(str(fmask >> i & 1) for i in range(len(codes)))
            lines.append('%d %s %d %d %s %d' % (
                len(codes), ' '.join(map(str, codes)), bf, bc, digits, cmask))
        p = subprocess.Popen(['timeout', '300', exe], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE)
        out = p.communicate(('\n'.join(lines) + '\n').encode())[0]
        got = out.decode().split('\n')[:-1]
        ctx.note('c_accelerator', 'explored')
        for x, case in enumerate(batch):
            def check():
                if x >= len(got):
                    raise core.Mismatch('the C function crashed (status %d)' %
                                        p.returncode)
                expect_equal(got[x].split(),
                             [str(i) for i in model(*case)],
                             'C function: frames (0 is the innermost)')
            if ctx.case({'c': case}, check) is False and x >= len(got):
                break
    finally:
        shutil.rmtree(tmp)


def run(ctx):
    depth = 4 if ctx.quick else 5

    def work(ctx, shard, n):
        mine = [c for x, c in enumerate(cases(depth)) if x % n == shard]
        for case in mine:
            ctx.case({'kind': 'tuple', 'via': 'function', 'case': case},
                     run_case, ctx, 'tuple', 'function', *case)
        for x, case in enumerate(cases(3)):
            if x % n != shard:
                continue
            for kind in sorted(KINDS):
                for via in ('keywords', 'profiler'):
                    ctx.case({'kind': kind, 'via': via, 'case': case},
                             run_case, ctx, kind, via, *case)
        deep = [c for x, c in enumerate(deep_cases()) if x % n == shard]
        for case in deep:
            ctx.case({'kind': 'frozenset', 'via': 'profiler', 'case': case},
                     run_case, ctx, 'frozenset', 'profiler', *case)
        run_c(ctx, mine + deep)
    ctx.shards(work)


def replay(ctx, case):
    fix = lambda c: (tuple(c[0]),) + tuple(c[1:])
    if 'c' in case:
        run_c(ctx, [fix(case['c'])])
    else:
        ctx.case(case, run_case, ctx, case['kind'], case['via'],
                 *fix(case['case']))
