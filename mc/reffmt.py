# -*- coding: utf-8 -*-
"""The reference formatter: which texts a number may be shown as.

All arithmetic is exact (fractions); a value at a rounding tie, or so near one
that the floating-point computation of it may fall on either side, has two
acceptable texts.  Units are chosen by the *rounded* value.
"""
from __future__ import absolute_import

from fractions import Fraction as F
import functools

#: relative width of the zone around a tie where both directions are accepted.
ULP = F(1, 2 ** 49)


def rounded(value, quantum):
    """The acceptable roundings of a non-negative value to multiples of the
    quantum, in quanta: one integer or two.
    """
    x = F(value) / quantum
    n = x.numerator // x.denominator
    rest = x - n
    slack = max(x * ULP, F(1, 2 ** 60))
    out = []
    if rest <= F(1, 2) + slack:
        out.append(n)
    if rest >= F(1, 2) - slack:
        out.append(n + 1)
    return out


@functools.lru_cache(maxsize=4096)
def time_texts(sec):
    """The acceptable (text, range) of a time."""
    if sec == 0:
        return [('0', 'zero')]
    sec = F(sec)
    out = []

    def in_minutes():
        for s in rounded(sec, 1):
            if s >= 600:
                # whole minutes, of the time or of its rounded seconds.
                for m in {s // 60, (sec / 60).__floor__()} | \
                        set(rounded(sec, 60)):
                    out.append(('%dm' % m, 'min'))
            else:
                out.append(('%dm%ds' % divmod(s, 60), 'min'))

    def in_seconds():
        for n in rounded(sec, F(1, 10)):
            if n < 600:
                out.append(('%d.%dsec' % divmod(n, 10), 'sec'))
            else:
                in_minutes()

    def in_millis():
        for n in rounded(sec, F(1, 1000)):
            if n < 1000:
                out.append(('%dms' % n, 'msec'))
            else:
                in_seconds()

    for n in rounded(sec, F(1, 1000000)):
        if n < 1000:
            out.append(('%dus' % n, 'usec'))
        else:
            in_millis()
    return out


UNITS = ' kMGTPEZY'


@functools.lru_cache(maxsize=4096)
def int_texts(num):
    if num < 0:
        return ['-' + t if t != 'o/f' else 'u/f' for t in int_texts(-num)]
    out = []
    for n in rounded(num, 1):
        if n < 1000:
            out.append('%d' % n)
            continue
        for k in range(1, len(UNITS) + 1):
            if k == len(UNITS):
                out.append('o/f')
                break
            done = False
            for tenths in rounded(num, F(1000) ** k / 10):
                if tenths < 10000:
                    out.append('%d.%d%s' % (divmod(tenths, 10) + (UNITS[k],)))
                    done = True
                else:
                    done = False
            if done:
                break
    return out


@functools.lru_cache(maxsize=4096)
def percent_texts(ratio):
    """The acceptable texts of a non-negative exact ratio: three significant
    digits.
    """
    percent = F(ratio) * 100
    out = []
    for n in rounded(percent, F(1, 100)):
        if n < 1000:
            out.append('%d.%02d' % divmod(n, 100))
            continue
        for n in rounded(percent, F(1, 10)):
            if n < 1000:
                out.append('%d.%d' % divmod(n, 10))
                continue
            for n in rounded(percent, 1):
                out.append('%d' % n)
    return out


def ratio(num, denom):
    return F(num) / F(denom) if denom else F(0)


@functools.lru_cache(maxsize=4096)
def ratio_attrs(ratio):
    """The acceptable colour attributes of an exact ratio."""
    if ratio <= 0:
        return ['zero']
    out = []
    tol = F(1, 2 ** 48)
    edges = [(F(9, 10), 'danger'), (F(7, 10), 'caution'),
             (F(3, 10), 'warning'), (F(1, 10), 'notice'), (F(0), None)]
    above = None
    for edge, attr in edges:
        if above is None or ratio <= above + tol:
            if ratio >= edge - tol:
                out.append(attr)
        above = edge
    return out


# -- reading texts back (for the order of the shown values)

def time_value(text):
    if text == '0':
        return F(0)
    if text.endswith('us'):
        return F(int(text[:-2]), 1000000)
    if text.endswith('ms'):
        return F(int(text[:-2]), 1000)
    if text.endswith('sec'):
        return F(text[:-3])
    m, __, s = text.partition('m')
    return F(int(m) * 60 + (int(s[:-1]) if s else 0))


def int_value(text):
    if text in ('o/f', 'u/f'):
        return F(1000) ** 9 * (1 if text == 'o/f' else -1)
    if text == 'n/a':
        return F(0)
    if text[-1].isdigit():
        return F(text)
    return F(text[:-1]) * F(1000) ** UNITS.index(text[-1])
