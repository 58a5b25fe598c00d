#!/usr/bin/env python3
"""Build and validate planted bugs from tools/bugs.py into seeded/<id>/.  usage: plant.py [-n] [id ...]
-n: do not run the check. Works in a scratch copy of /repo given to the checks through ENOLIB_REPO."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
BASE = '87c2779'
args = [a for a in sys.argv[1:]]
nocheck = '-n' in args
args = [a for a in args if a != '-n']

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(bug):
    work = tempfile.mkdtemp(prefix='plant.')
    try:
        copy = work + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', copy])
        touched = set()
        for name, old, new in bug['edits']:
            path = f'{copy}/python/enolib/{name}'
            text = open(path).read()
            if isinstance(old, tuple): old, nth = old
            else:
                nth = 0
                if text.count(old) != 1: return f'edit matches {text.count(old)} times in {name}: {old!r}'
            pos = -1
            for _ in range(nth + 1): pos = text.index(old, pos + 1)
            open(path, 'w').write(text[:pos] + new + text[pos + len(old):])
        diff = run(['git', 'diff'], cwd=copy).stdout
        # every removed line must be an original one
        file = None
        for line in diff.splitlines():
            if line.startswith('--- a/'): file = line[6:]
            m = re.match(r'@@ -(\d+)', line)
            if m: n = int(m[1]); continue
            if line.startswith('-') and not line.startswith('---'):
                b = run(['git', 'blame', '-l', '-L', f'{n},{n}', 'HEAD', '--', file], cwd='/repo').stdout
                sha = b.split()[0].lstrip('^')
                anc = subprocess.run(['git', 'merge-base', '--is-ancestor', sha[:39], BASE], cwd='/repo').returncode
                if anc != 0: return f'changes a line of a fix commit: {line}'
                n += 1
            elif line.startswith(' '): n += 1
        py = '/opt/venv/bin/python'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        t = run([py, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py'], cwd=copy + '/python',
                env=dict(env, PYTHONPATH=copy + '/python'))
        if not re.search(r'\b380 passed', t.stdout) or ' failed' in t.stdout:
            return 'TESTS: ' + '\n'.join(t.stdout.splitlines()[-4:])
        dest = f"{ROOT}/seeded/{bug['id']}"
        os.makedirs(dest, exist_ok=True)
        open(dest + '/patch.diff', 'w').write(diff)
        open(dest + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(dest + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not; run with cwd = the repository
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$HERE/demo.py"
''')
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(dest + '/meta.json', 'w'), indent=1)
        d = run(['bash', dest + '/demo.sh'], cwd=copy)
        if d.returncode == 0:
            shutil.rmtree(dest)
            return 'DEMO passes with the bug'
        g = run(['bash', dest + '/demo.sh'], cwd='/repo')
        if g.returncode != 0:
            shutil.rmtree(dest)
            return 'DEMO fails without the bug\n' + g.stdout
        if nocheck: return 'planted'
        c = run(['python3-vt', 'check.py', bug['property']], cwd=ROOT, env=dict(os.environ, ENOLIB_REPO=copy, VERIF_TIER='quick'))
        caught = c.returncode == 1 and f"VIOLATION property={bug['property']}" in c.stdout
        return ('caught' if caught else f'MISSED rc={c.returncode}\n' + c.stdout[-1500:])
    finally:
        shutil.rmtree(work)

from concurrent.futures import ThreadPoolExecutor
todo = [b for b in BUGS if not args or b['id'] in args]
with ThreadPoolExecutor(4) as ex:
    for bug, res in zip(todo, ex.map(one, todo)):
        print(f"{bug['id']:28} {res}", flush=True)
