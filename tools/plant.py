#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs in scratch copies: the patch applies,
builds, passes the stable tests, its demo tells it from the original, and tells
whether the check of its property (or --checks C01,C02) catches it."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {'HOME': '/root', 'LANG': 'C.UTF-8', 'PATH': os.environ['PATH']}


def sh(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True)


def scripted(d, repo, name):
    s = open('/opt/vp/' + name).read()
    s = s.replace('/opt/vp-build', os.path.join(d, 'build'))
    s = s.replace('/repo', repo)
    p = os.path.join(d, name)
    open(p, 'w').write(s)
    return p


def plant(i, checks=None, tests=True):
    src = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(os.path.join(src, 'meta.json')))
    out = [i, meta['property']]
    d = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo)
        demo = os.path.join(d, 'demo')
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        r = sh(['bash', demo + '/demo.sh'], repo)
        if r.returncode:
            return i, 'DEMO FAILS UNPATCHED\n' + r.stdout
        r = sh(['git', 'apply', src + '/patch.diff'], repo)
        if r.returncode:
            return i, 'DOES NOT APPLY\n' + r.stdout
        if tests:
            r = sh(['bash', scripted(d, repo, 'build.sh')], repo)
            if r.returncode:
                return i, 'DOES NOT BUILD\n' + r.stdout
            r = sh(['bash', scripted(d, repo, 'test.sh'), d + '/o.json'], repo)
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open(d + '/o.json'))
            stable = set(base.get('stable') or base.get('passed') or
                         base['passing'])
            lost = stable - set(got.get('passed') or got.get('passing'))
            if lost:
                return i, 'TESTS FAIL %s' % sorted(lost)
        r = sh(['bash', demo + '/demo.sh'], repo)
        if not r.returncode:
            return i, 'DEMO PASSES PATCHED\n' + r.stdout
        out.append('ok [%s]' % r.stdout.strip().splitlines()[-1][:100]
                   if r.stdout.strip() else 'ok')
        for c in (checks or [meta['property']]):
            t = time.time()
            r = sh([os.path.join(VERIF, 'run.sh'), c], '/verif',
                   dict(os.environ, VERIF_REPO=repo))
            caught = r.returncode == 1 and \
                'VIOLATION property=%s ' % c in r.stdout
            out.append('%s %s %.0fs' % (
                c, 'caught' if caught else 'MISSED(%d)' % r.returncode,
                time.time() - t))
    finally:
        shutil.rmtree(d)
    return i, ' '.join(out)


if __name__ == '__main__':
    args = sys.argv[1:]
    checks = None
    tests = True
    if '--no-tests' in args:
        args.remove('--no-tests')
        tests = False
    if args and args[0] == '--checks':
        checks = args[1].split(',')
        args = args[2:]
    ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with ThreadPoolExecutor(2) as pool:
        for i, r in pool.map(lambda i: plant(i, checks, tests), ids):
            print(r if r.startswith(i) else '%s %s' % (i, r), flush=True)
