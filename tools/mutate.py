#!/usr/bin/env python3
"""mutate.py ID FILE OLD NEW [FILE OLD NEW...]: runs a check against a copy of
/repo in which OLD is replaced by NEW (once), and tells what it said."""
import os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mutate(ids, edits):
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree(os.environ.get('MUT_REPO','/repo'), repo, ignore=shutil.ignore_patterns('.git'))
        for fn, old, new in edits:
            p = os.path.join(repo, 'profiling', fn)
            s = open(p).read()
            assert old in s, (fn, old)
            open(p, 'w').write(s.replace(old, new, 1))
        for i in ids:
            t = time.time()
            r = subprocess.run([os.path.join(VERIF, 'run.sh'), i],
                               env=dict(os.environ, VERIF_REPO=repo),
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT,
                               universal_newlines=True)
            lines = r.stdout.strip().splitlines()
            print('%s exit=%d %.0fs' % (i, r.returncode, time.time() - t),
                  '| '.join(x.strip()[:150] for x in lines[-8:]
                            if 'VIOLATION' not in x)[:500] if r.returncode
                  else 'MISSED', flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    args = sys.argv[2:]
    mutate(sys.argv[1].split(','), list(zip(args[::3], args[1::3], args[2::3])))
