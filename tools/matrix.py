#!/usr/bin/env python3
"""Which checks report which planted bug -> tools/caught.json.  usage: matrix.py [--own] [bug ...]
Works on scratch copies of /repo and of /verif (evidence and replays of /verif stay as they are)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
own = '--own' in sys.argv
names = [a for a in sys.argv[1:] if a != '--own'] or sorted(os.listdir(ROOT + '/seeded'))
path = ROOT + '/tools/caught.json'
caught = json.load(open(path)) if os.path.exists(path) else {}
checks = [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]
work = tempfile.mkdtemp(prefix='matrix.')
shutil.copytree(ROOT, work + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence', '__pycache__'))
try:
    for b in names:
        repo = work + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['git', 'apply', f'{ROOT}/seeded/{b}/patch.diff'], cwd=repo)
        prop = json.load(open(f'{ROOT}/seeded/{b}/meta.json'))['property']
        got = []
        for p in [prop] if own else checks:
            r = subprocess.run(['python3-vt', 'check.py', p, '--budget', '150'], cwd=work + '/verif', capture_output=True, text=True, env=dict(os.environ, ENOLIB_REPO=repo, VERIF_TIER='quick', VERIF_SEED='1'))
            if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout:
                got.append(p)
            elif r.returncode != 0:
                print(b, p, 'exit', r.returncode, r.stdout[-300:])
        caught[b] = sorted(got, key=lambda p: (p != prop, p))
        print(b, prop, 'caught' if prop in got else 'MISSED', got, flush=True)
        shutil.rmtree(repo)
        known = json.load(open(path)) if os.path.exists(path) else {}
        known[b] = caught[b]
        json.dump(known, open(path, 'w'), indent=1, sort_keys=True)
finally:
    shutil.rmtree(work)
