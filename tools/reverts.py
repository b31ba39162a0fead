#!/usr/bin/env python3
"""reverts.py: reverts each fix of known_findings.json in a scratch copy and
tells whether the check of its property reports it."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for entry in json.load(open(VERIF + '/known_findings.json'))['fixed']:
    prop, commit = re.match(r'fixed: property=(\w+) (\w+)', entry).groups() \
        if isinstance(entry, str) else (entry['property'], entry['commit'])
    if sys.argv[1:] and commit[:7] not in [a[:7] for a in sys.argv[1:]]:
        continue
    d = tempfile.mkdtemp(prefix='revert.', dir='/tmp')
    try:
        repo = d + '/repo'
        shutil.copytree('/repo', repo)
        r = subprocess.run(['git', '-c', 'user.name=x', '-c', 'user.email=x',
                            'revert', '-n', commit], cwd=repo,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode:
            # with the older side where later fixes changed the same lines.
            subprocess.run(['git', 'reset', '-q', '--hard'], cwd=repo)
            r = subprocess.run(['git', '-c', 'user.name=x', '-c',
                                'user.email=x', 'revert', '-n', '-X',
                                'theirs', commit], cwd=repo,
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
            print('(conflicts)', end=' ')
        if r.returncode:
            print(prop, commit, 'CONFLICTS', flush=True)
            continue
        t = time.time()
        r = subprocess.run([VERIF + '/run.sh', prop], universal_newlines=True,
                           env=dict(os.environ, VERIF_REPO=repo,
                                    VERIF_FAILFAST='1', VERIF_EVIDENCE=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(prop, commit, {0: 'MISSED', 1: 'reported'}.get(
            r.returncode, 'exit %d' % r.returncode),
            '%.0fs' % (time.time() - t), flush=True)
    finally:
        shutil.rmtree(d)
