# -*- coding: utf-8 -*-
"""Runs one check: main.py ID [--replay FILE]"""
from __future__ import absolute_import

import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from mc import core  # noqa

sys.path.insert(0, core.REPO)


def load_known(prop):
    """Known findings of a property: a list of (text, predicate)."""
    path = os.path.join(VERIF, 'known_findings.json')
    known = []
    if os.path.exists(path):
        with open(path) as f:
            for entry in json.load(f).get('findings', []):
                if entry['property'] != prop:
                    continue
                known.append((entry['what'], matcher(entry['match'])))
    return known


def matcher(match):
    def needle(case, message):
        if not isinstance(case, dict):
            return False
        for key, value in match.items():
            if key == '_message':
                if value not in message:
                    return False
            elif case.get(key) != value:
                return False
        return True
    return needle


def main(argv):
    prop = argv[0]
    replay = None
    if len(argv) > 2 and argv[1] == '--replay':
        replay = argv[2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = core.Ctx(prop, tier, seed, load_known(prop))
    try:
        mod = importlib.import_module('checks.' + prop.lower())
    except Exception as exc:
        if not core.raised_by_repo(exc):
            raise
        ctx.violations.append(core.broken(exc))
        return report(ctx, prop)
    if replay:
        with open(replay) as f:
            data = json.load(f)
        if data['case'] == 'load':
            mod.run(ctx)
            return 0
        try:
            mod.replay(ctx, data['case'])
        except core.StopCheck:
            pass
        for v in ctx.violations:
            print(v['message'])
            if v['detail']:
                print(v['detail'])
        print('%d violation(s) reproduced' % len(ctx.violations))
        return 1 if ctx.violations else 0
    t = time.monotonic()
    try:
        mod.run(ctx)
    except core.StopCheck:
        pass
    except Exception as exc:
        if not core.raised_by_repo(exc):
            raise
        ctx.violations.append(core.broken(exc))
    wall = time.monotonic() - t
    info = getattr(mod, 'INFO', {})
    core.write_evidence(ctx, info, wall,
                        getattr(mod, 'LEVEL', 'model_checking'))
    for text, (case, message) in sorted(ctx.known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    print('%s [%s]: states=%d transitions=%d traces=%d outcomes=%d '
          'violations=%d in %.1fs' %
          (prop, tier, len(ctx.states), ctx.transitions, ctx.traces,
           len(ctx.outcomes), len(ctx.violations), wall))
    return report(ctx, prop)


def report(ctx, prop):
    if ctx.violations:
        rdir = os.path.join(core.EVIDENCE, 'replay')
        if not os.path.isdir(rdir):
            os.makedirs(rdir)
        for x, v in enumerate(ctx.violations[:3]):
            path = os.path.join(rdir, '%s-%d.json' % (prop, x))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': v['case'],
                           'message': v['message'], 'detail': v['detail']},
                          f, indent=1, default=repr)
            print('  %s' % v['message'][:2000])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
