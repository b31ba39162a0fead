#!/usr/bin/env python3
"""automut.py FILE... [--list] [--func REGEX] [--out FILE]: applies every small
mutation of the given files of /repo/profiling (one at a time, in copies) and
tells which ones no check reports."""
import argparse
import ast
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
CHECKS = {
    'profiler.py': 'C14 C04 C05 C11 C13 C09 C01 C07 C25 C02',
    'sortkeys.py': 'C12 C22',
    'stats.py': 'C13 C10 C12 C11 C07 C01 C22',
    'utils.py': 'C05 C04 C09 C13 C14 C03 C19 C27',
    'viewer.py': 'C20 C22 C21 C23 C30',
    '__main__.py': 'C27 C28 C25 C24 C30',
    'remote/__init__.py': 'C17 C15 C16 C26 C19',
    'remote/asyncio.py': 'C15 C16',
    'remote/gevent.py': 'C15 C16',
    'remote/select.py': 'C26 C15 C16',
    'remote/background.py': 'C19 C04',
    'remote/client.py': 'C18 C17 C30',
    'sampling/__init__.py': 'C07 C05 C04 C14 C03',
    'sampling/samplers.py': 'C08 C07 C05 C04 C03 C24',
    'tracing/__init__.py': 'C01 C05 C04 C02 C14 C06 C03',
    'tracing/timers.py': 'C06 C05 C04 C02 C03',
}
NEG = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*', ast.Mod: '+', ast.BitOr: '&', ast.BitAnd: '|'}


def mutants(source, func=None):
    """Yields (line, description, new source)."""
    tree = ast.parse(source)
    lines = source.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = source.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return data[a:b].decode()

    def sub(node, new, what):
        a, b = span(node)
        out = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(out)
        except SyntaxError:
            return None
        return (node.lineno, what, text(node), new, out)

    def visit(node, path, inclass=True):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef,
                             ast.AsyncFunctionDef)):
            path = path + [node.name]
        here = '.'.join(path)
        if isinstance(node, ast.Assign) and inclass:
            # the value of an attribute is mutated, not its presence.
            pass
        elif func is None or re.search(func, here):
            for m in local(node):
                if m:
                    yield m + (here,)
        for child in ast.iter_child_nodes(node):
            for m in visit(child, path, isinstance(
                    node, (ast.ClassDef, ast.Module))):
                yield m

    def local(node):
        if isinstance(node, ast.Assign) and text(node).startswith('__all__'):
            pass
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = NEG.get(type(node.ops[0]))
            if op:
                yield sub(node, '%s %s %s' % (text(node.left), op, text(
                    node.comparators[0])), 'compare')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield sub(node, '(' + op.join(text(v) for v in node.values) + ')',
                      'boolop')
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1:]
                op2 = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield sub(node, '(' + op2.join(text(v) for v in rest) + ')',
                          'boolop drop')
        elif isinstance(node, ast.UnaryOp):
            yield sub(node, '(' + text(node.operand) + ')', 'unary')
        elif isinstance(node, ast.BinOp) and not (
                isinstance(node.left, ast.Constant) and
                isinstance(node.left.value, str)):
            op = BIN.get(type(node.op))
            if op:
                yield sub(node, '(%s %s %s)' % (text(node.left), op,
                                                text(node.right)), 'binop')
        elif isinstance(node, (ast.If, ast.IfExp)):
            yield sub(node.test, 'True', 'if true')
            yield sub(node.test, 'False', 'if false')
        elif isinstance(node, ast.While):
            if not isinstance(node.test, ast.Constant):
                yield sub(node.test, 'False', 'while false')
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                yield sub(node, str(not node.value), 'bool')
            elif isinstance(node.value, (int, float)):
                yield sub(node, repr(node.value + 1), 'number')
                if node.value not in (0, 1):
                    yield sub(node, repr(node.value - 1), 'number')
        elif isinstance(node, ast.Return):
            if node.value is not None and not (
                    isinstance(node.value, ast.Constant)):
                yield sub(node, 'return None', 'return')
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise,
                               ast.Delete, ast.Continue, ast.Break)):
            yield sub(node, 'pass', 'delete')
        elif isinstance(node, ast.Expr):
            if not isinstance(node.value, ast.Constant):
                yield sub(node, 'None' if isinstance(node.value, ast.Yield)
                          else 'pass', 'delete')
        elif isinstance(node, ast.ExceptHandler):
            if isinstance(node.type, ast.Tuple):
                for i in range(len(node.type.elts)):
                    rest = node.type.elts[:i] + node.type.elts[i + 1:]
                    yield sub(node.type, '(' + ''.join(
                        text(e) + ', ' for e in rest) + ')', 'except drop')
            elif node.type is not None:
                yield sub(node.type, '()', 'except none')
        elif isinstance(node, ast.Call):
            for i, k in enumerate(node.keywords):
                if k.arg:
                    a, b = span(k)
                    kw = data[a:b].decode()
                    old = text(node)
                    new = re.sub(r',?\s*' + re.escape(kw), '', old, count=1)
                    new = re.sub(r'\(\s*,\s*', '(', new)
                    yield sub(node, new, 'keyword drop')
            if len(node.args) > 1 and not node.keywords:
                old = text(node)
                t = text(node.args[-1])
                i = old.rfind(t)
                if i > 0:
                    new = old[:i].rstrip().rstrip(',') + old[i + len(t):]
                    yield sub(node, new, 'arg drop')
        elif isinstance(node, ast.Try):
            if node.finalbody:
                for st in node.finalbody:
                    yield sub(st, 'pass', 'finally')
        elif isinstance(node, ast.With):
            for item in node.items:
                yield sub(item.context_expr, '__import__("contextlib")'
                          '.nullcontext()', 'with')
    return visit(tree, [])


def run(job):
    fn, m, checks, timeout = job
    line, what, old, new, out, here = m
    d = tempfile.mkdtemp(prefix='am.', dir='/tmp')
    res = {'file': fn, 'line': line, 'what': what, 'old': old, 'new': new,
           'in': here, 'survived': True, 'log': []}
    t0 = time.time()
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'))
        with open(os.path.join(repo, 'profiling', fn), 'w') as f:
            f.write(out)
        for c in checks:
            t = time.time()
            p = subprocess.Popen(
                [os.path.join(VERIF, 'run.sh'), c],
                env=dict(os.environ, VERIF_REPO=repo, VERIF_JOBS='1',
                         VERIF_FAILFAST='1', TMPDIR=d,
                         VERIF_EVIDENCE=os.path.join(d, 'evidence')),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                start_new_session=True, universal_newlines=True,
                errors='replace')
            try:
                text, __ = p.communicate(timeout=timeout)
                code = p.returncode
            except subprocess.TimeoutExpired:
                code, text = 'timeout', ''
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            res['log'].append((c, code, round(time.time() - t)))
            if code == 1:
                res['survived'] = False
                break
            if code != 0:
                res.setdefault('odd', []).append((c, code, text[-1500:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res['time'] = round(time.time() - t0)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--func')
    ap.add_argument('--checks')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--timeout', type=float, default=700)
    ap.add_argument('--out', default='/tmp/automut.jsonl')
    a = ap.parse_args()
    jobs = []
    for fn in a.files:
        source = open(os.path.join(REPO, 'profiling', fn)).read()
        checks = (a.checks or CHECKS[fn]).replace(',', ' ').split()
        for m in mutants(source, a.func):
            jobs.append((fn, m, checks, a.timeout))
    print(len(jobs), 'mutants', flush=True)
    if a.list:
        for fn, m, __, __ in jobs:
            print(fn, m[0], m[5], m[1], repr(m[2][:60]), '->', repr(m[3][:60]))
        return
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool, \
            open(a.out, 'a') as f:
        n = 0
        for fut in concurrent.futures.as_completed(
                [pool.submit(run, j) for j in jobs]):
            res = fut.result()
            n += 1
            f.write(json.dumps(res) + '\n')
            f.flush()
            if res['survived']:
                print('%s:%d %s [%s] %r -> %r  %s%s' % (
                    res['file'], res['line'], res['in'], res['what'],
                    res['old'][:100], res['new'][:100], res['log'],
                    ' ODD' if res.get('odd') else ''), flush=True)
        print('done', n, flush=True)


if __name__ == '__main__':
    main()
