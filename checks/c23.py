# -*- coding: utf-8 -*-
"""C23: formatted numbers stay in their documented ranges and widths."""
from __future__ import absolute_import

from fractions import Fraction as F
import math
import struct

from mc import env  # noqa: F401
from mc import reffmt
from mc.core import expect

from profiling.viewer import fmt

INFO = {
    'technique': 'exhaustive enumeration of value grids around every rounding '
                 'and unit boundary on the real formatter, against a '
                 'reference formatter in exact arithmetic',
    'bounds': 'times: every half unit (quick: every unit) shown in every '
              'range with its two floating-point neighbours up to 1200 min '
              'and all multiples of a quarter unit next to the unit '
              'boundaries; counts: all up to 20000 (quick) / 2000000 '
              '(thorough) with eighths up to 1010, and in every SI unit all tenths of it from 1.0 to '
              '1000.0 with their neighbours, positive and negative, up to the '
              'overflow; percentages: all ratios of two integers up to 120 '
              '(quick) / 400 (thorough), and all hundredths, tenths and '
              'units of a percent with half steps and neighbours up to 200%, '
              'zero and absent denominators',
    'assumptions': ['a value within 2^-49 of a rounding tie may be rounded '
                    'either way; whole minutes may be rounded or cut'],
}


def bits(x):
    return struct.unpack('<q', struct.pack('<d', x))[0]


def unbits(n):
    return struct.unpack('<d', struct.pack('<q', n))[0]


def near(x):
    """A positive float and its neighbours."""
    x = float(x)
    n = bits(x)
    return [unbits(n - 1), x, unbits(n + 1)]


# -- grids

def time_grid(thorough):
    out = {0.0}
    ranges = [(F(1, 1000000), 0, 1010), (F(1, 1000), 0, 1010),
              (F(1, 10), 0, 620), (F(1), 50, 640), (F(60), 9, 1200)]
    for unit, lo, hi in ranges:
        parts = 8 if thorough else 2
        for n in range(lo * parts, hi * parts + 1):
            if n:
                out.update(near(float(F(n, parts) * unit)))
    # next to the boundaries between the units.
    for edge, unit in [(F(1, 1000), F(1, 1000000)), (F(1), F(1, 1000)),
                       (F(60), F(1, 10)), (F(60), F(1)), (F(600), F(1)),
                       (F(600), F(60)), (F(3600), F(60))]:
        for n in range(-80, 81):
            out.update(near(float(edge + unit * n / 20)))
            if thorough:
                for m in range(-40, 41):
                    out.update(near(float(edge + unit * n / 20 +
                                          unit * m / 100000)))
    out.update([1e-7, 4.9e-7, 5.1e-7, 1e-9, 1e-300, 5e-324, 1e6, 1e7, 123456.])
    return sorted(out)


def int_grid(thorough):
    out = set(range(0, 2000001 if thorough else 20001))
    for k in range(1, 10):
        unit = 1000 ** k
        for tenths in range(10, 10011):
            if not thorough and 30 < tenths < 9970 and tenths % 25:
                continue
            base = unit * tenths // 10
            half = unit // 20
            for x in (base - 1, base, base + 1, base + half - 1, base + half,
                      base + half + 1):
                if x >= 0:
                    out.add(x)
    out.update([10 ** 26, 10 ** 27, 10 ** 28, 10 ** 30])
    # averages and the like.
    for n in range(1, 8 * 1010):
        out.update(near(n / 8.0))
    return sorted(out)


def percent_grid(thorough):
    """Pairs of (numerator, denominator)."""
    top = 400 if thorough else 120
    out = set()
    for d in range(0, top + 1):
        for n in range(0, top + 1):
            out.add((n, d))
    for unit, lo, hi in [(F(1, 100), 0, 1010), (F(1, 10), 90, 1010),
                         (F(1), 90, 200)]:
        for n in range(lo * 4, hi * 4 + 1):
            for x in near(float(unit * n / 4 / 100)) if n else [0.0]:
                out.add((x, 1))
                if n % 4 == 2 or thorough:
                    out.add((x * 3, 3.0))
    out.update([(0.0, 0.0), (1.5, 0.0), (1e-9, 1), (20, 1), (1234, 10)])
    return sorted(out)


# -- the cases

def time_case(sec):
    text, attr = fmt.format_time(sec), fmt.attr_time(sec)
    want = reffmt.time_texts(sec)
    expect(text in [t for t, __ in want], 'time %r is shown as %r, want %s',
           sec, text, ' or '.join(repr(t) for t, __ in want))
    expect((text, attr) in want, 'time %r shows %r with attribute %r', sec,
           text, attr)
    expect(fmt.markup_time(sec) == (attr, text), 'markup of time %r: %r', sec,
           fmt.markup_time(sec))
    check_widget(fmt.make_time_text(sec), text, attr)
    return reffmt.time_value(text)


def check_widget(widget, text, attr):
    got, runs = widget.get_text()
    expect(got == text, 'text of the widget is %r, want %r', got, text)
    expect([a for a, __ in runs] == ([attr] if attr is not None else
                                     [a for a, __ in runs if a is None]),
           'attributes of the widget are %r, want %r', runs, attr)
    expect(widget.align == 'right', 'number %r is aligned %r', text,
           widget.align)


def int_case(num):
    text, attr = fmt.format_int(num), fmt.attr_int(num)
    want = reffmt.int_texts(num)
    expect(text in want, 'count %r is shown as %r, want %s', num, text,
           ' or '.join(map(repr, want)))
    expect(attr == ('zero' if num == 0 else None),
           'count %r shows %r with attribute %r', num, text, attr)
    expect(len(text) <= 6 + (num < 0), 'count %r is too wide: %r', num, text)
    na = fmt.format_int_or_na(num)
    expect(na == ('n/a' if num == 0 else text), 'count or n/a %r is %r', num,
           na)
    expect(fmt.markup_int(num) == (attr, text), 'markup of count %r: %r', num,
           fmt.markup_int(num))
    expect(fmt.markup_int_or_na(num) == (attr, na), 'markup of count %r: %r',
           num, fmt.markup_int_or_na(num))
    if int(num) % 37 == 0:
        check_widget(fmt.make_int_text(num), text, attr)
        check_widget(fmt.make_int_or_na_text(num), na, attr)
    return reffmt.int_value(text)


def percent_case(num, denom):
    exact = reffmt.ratio(num, denom)
    text = fmt.format_percent(num, denom)
    want = reffmt.percent_texts(exact)
    expect(text in want, '%r of %r is shown as %r, want %s', num, denom, text,
           ' or '.join(map(repr, want)))
    unit = fmt.format_percent(num, denom, unit=True)
    expect(unit == text + '%', '%r of %r with unit is %r', num, denom, unit)
    attr = fmt.attr_ratio(num, denom)
    expect(attr in reffmt.ratio_attrs(exact),
           '%r of %r shows %r with attribute %r', num, denom, text, attr)
    expect(fmt.markup_percent(num, denom) == (attr, text),
           'markup of %r of %r: %r', num, denom,
           fmt.markup_percent(num, denom))
    expect(fmt.markup_percent(num, denom, unit=True) == (attr, unit),
           'markup with unit of %r of %r: %r', num, denom,
           fmt.markup_percent(num, denom, unit=True))
    if denom == 1:
        expect(fmt.format_percent(num) == text, 'default denominator: %r',
               fmt.format_percent(num))
        check_widget(fmt.make_percent_text(num), text, attr)
    return exact, F(text)


def run(ctx):
    thorough = not ctx.quick

    def work(ctx, shard, n):
        for kind, grid, func in [('time', time_grid(thorough), time_case),
                                 ('int', int_grid(thorough), int_case)]:
            # contiguous blocks, sharing one value for the order.
            size = len(grid) // n + 1
            block = grid[shard * size:(shard + 1) * size + 1]
            before = [None, None]

            def one(x):
                value = func(x)
                if before[0] is not None:
                    expect(before[0] <= value, '%s %r is shown as smaller '
                           'than %r', kind, x, before[1])
                before[:] = value, x
            for x in block:
                ctx.step()
                ctx.state((kind, x))
                if not ctx.case([kind, x], one, x):
                    before[:] = None, None
            if kind == 'int':
                for x in block:
                    ctx.step()
                    ctx.case([kind, -x], int_case, -x)
        pairs = percent_grid(thorough)
        shown = []
        for num, denom in pairs[shard::n]:
            ctx.step()
            ctx.state(('percent', num, denom))
            ctx.case(['percent', num, denom],
                     lambda: shown.append(percent_case(num, denom) +
                                          (num, denom)))
        shown.sort()

        def ordered():
            for a, b in zip(shown, shown[1:]):
                expect(a[1] <= b[1], '%r of %r is shown as %s but the smaller '
                       '%r of %r as %s', b[2], b[3], b[1], a[2], a[3], a[1])
        ctx.case(['percent order', shard], ordered)
        ctx.outcome('values')
    ctx.shards(work)
    ctx.note('grids', {'times': len(time_grid(thorough)),
                       'counts': 2 * len(int_grid(thorough)),
                       'ratios': len(percent_grid(thorough))})


def replay(ctx, case):
    kind = case[0]
    if kind == 'percent':
        ctx.case(case, percent_case, *case[1:])
    elif kind in ('time', 'int'):
        ctx.case(case, {'time': time_case, 'int': int_case}[kind], case[1])
