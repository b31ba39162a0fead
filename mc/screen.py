# -*- coding: utf-8 -*-
"""Reads what the viewer shows, from the rendered canvas only."""
from __future__ import absolute_import

import typing

from mc.core import Mismatch, expect


def speed_up():
    """urwid asks often whether a widget implements a typing protocol, which
    is slow.  The answer is the same for every widget of a class.
    """
    meta = typing._ProtocolMeta
    check, cache = meta.__instancecheck__, {}

    def instancecheck(cls, obj):
        key = cls, type(obj)
        try:
            return cache[key]
        except KeyError:
            cache[key] = check(cls, obj)
            return cache[key]
    meta.__instancecheck__ = instancecheck


if hasattr(getattr(typing, '_ProtocolMeta', None), '__instancecheck__'):
    speed_up()

#: the widths of the columns right of FUNCTION, by the text of the table head.
WIDTHS = {
    ('FUNCTION',): (),
    ('FUNCTION', 'CALLS', 'OWN', '/CALL', '%', 'DEEP', '/CALL', '%'):
        (6, 6, 6, 4, 6, 6, 4),
    ('FUNCTION', 'HITS'): (6,),  # of a table of the checks
    ('FUNCTION', 'OWN', '%', 'DEEP', '%'): (6, 4, 6, 4),
}
KINDS = {(): 'base', (6,): 'own', (6, 6, 6, 4, 6, 6, 4): 'tracing',
         (6, 4, 6, 4): 'sampling'}


class Row(object):

    __slots__ = ('indent', 'icon', 'func', 'cells', 'attrs', 'focused', 'y')

    def __repr__(self):
        return '<%s%s %s %r%s>' % (' ' * self.indent, self.icon, self.func,
                                   self.cells, ' focused' * self.focused)


class Screen(object):
    """One rendered screen.

    header     the words above the table head
    kind       'base', 'tracing' or 'sampling' by the table head
    thead      the attribute of each column of the table head
    rows       the rows
    empty      whether it says that nothing is available
    """

    def __init__(self, lines, attrs):
        at = [y for y, line in enumerate(lines)
              if line.split()[:1] == ['FUNCTION']]
        expect(at, 'no table head is shown: %r', lines[:4])
        y = at[0]
        self.header = ' '.join(' '.join(lines[:y]).split())
        heads = tuple(lines[y].split())
        expect(heads in WIDTHS, 'table head %r', heads)
        self.widths = WIDTHS[heads]
        self.kind = KINDS[self.widths]
        self.thead = self.head_attrs(lines[y], attrs[y])
        self.rows = []
        self.empty = False
        for n in range(y + 1, len(lines)):
            line = lines[n]
            if not line.strip():
                continue
            if '- Not Available -' in line:
                self.empty = True
                continue
            self.rows.append(self.parse(line, attrs[n], n))

    def spans(self, width):
        """The (start, end) of each column right of FUNCTION."""
        out = []
        end = width - 1  # the viewer keeps one column free at the right.
        for w in reversed(self.widths):
            out.append((end - w, end))
            end -= w + 1
        out.reverse()
        return out, end

    def head_attrs(self, line, attrs):
        spans, end = self.spans(len(line))
        out = []
        for a, b in [(0, end)] + spans:
            seen = {attrs[x] for x in range(a, b) if line[x] != ' '}
            expect(len(seen) == 1, 'attributes %r within one column of the '
                   'table head', seen)
            out.append(seen.pop())
        return out

    def parse(self, line, attrs, y):
        row = Row()
        row.y = y
        spans, end = self.spans(len(line))
        row.cells = [line[a:b].strip() for a, b in spans]
        row.attrs = [[attrs[x] for x in range(a, b) if line[x] != ' ']
                     for a, b in spans]
        for (a, b), w in zip(spans, self.widths):
            expect(line[a - 1] == ' ', 'columns are not apart: %r', line)
        text = line[:end]
        # an icon of '+', '-' or ' ', a space and the function.
        body = text.lstrip()
        lead = len(text) - len(body)
        if body[:2] in ('+ ', '- '):
            row.icon, row.indent = body[0], lead
            row.func = body[2:].rstrip()
        else:
            row.icon, row.indent = ' ', lead - 2
            row.func = body.rstrip()
        expect(row.indent >= 0, 'row without icon: %r', line)
        seen = {attrs[x] for x in range(row.indent, end) if line[x] != ' '}
        row.focused = seen == {'focus'}
        if not row.focused and 'focus' in seen:
            raise Mismatch('row partly focused: %r' % line)
        return row

    @property
    def state(self):
        """The state shown by the table head: its attribute, and the columns
        which are marked as sorted.
        """
        bases = {a[:-7] if a and a.endswith('.sorted') else a
                 for a in self.thead}
        expect(len(bases) == 1, 'table head attributes %r', self.thead)
        return (bases.pop(), [x for x, a in enumerate(self.thead)
                              if a and a.endswith('.sorted')])


def capture(widget, size, focus=True):
    canvas = widget.render(size, focus)
    lines, attrs = [], []
    for row in canvas.content():
        text, marks = '', []
        for attr, __, chunk in row:
            chunk = chunk.decode('utf-8')
            text += chunk
            marks.extend([attr] * len(chunk))
        lines.append(text)
        attrs.append(marks)
    expect(len(lines) == size[1] and all(len(l) == size[0] for l in lines),
           'the canvas has another size than the screen')
    return Screen(lines, attrs)


def clipped(texts, width):
    """The acceptable cells of acceptable texts: a text which is too wide is
    cut at either side.
    """
    out = set()
    for t in texts:
        if len(t) <= width:
            out.add(t)
        else:
            out.add(t[:width])
            out.add(t[-width:])
            for x in range(len(t) - width + 1):
                out.add(t[x:x + width])
    return {t.strip() for t in out}
