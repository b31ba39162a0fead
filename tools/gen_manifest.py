"""Writes MANIFEST.json from the INFO of the checks which exist."""
import importlib.util
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    'C29': 'a statistical statement about the kernel\'s profiling timer: no '
           'bounded enumeration of executions decides a limit of frequencies; '
           'C07 decides what each single sample records.',
}


def literal(path, name):
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], 'id', None) == name:
            return ast.literal_eval(node.value)
    return None


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    checks, missing = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
        if pid in NOT_APPLICABLE:
            missing.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
            continue
        if not os.path.exists(path):
            missing.append({'property': pid,
                            'reason': 'no check was built (yet).'})
            continue
        info = literal(path, 'INFO')
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh %s' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': info['technique'],
            'level': literal(path, 'LEVEL') or 'model_checking',
            'level_note': 'Exhaustive within: %s. Assumes: %s' % (
                info['bounds'], '; '.join(info.get('assumptions', [])) or 'nothing'),
        })
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'Explicit-state and stateless model checking of the real code '
                 'under controlled clocks, hooks, schedulers, sockets and '
                 'processes; see DESIGN.md. No hooks in /repo are needed.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print('%d checks, %d not claimed' % (len(checks), len(missing)))


main()
