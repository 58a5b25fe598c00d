#!/usr/bin/env python3
"""Try hand-written changes: attempt.py FILE [name...]; FILE defines CHANGES = [(name, [(file, old|(old, nth), new)...], 'P01 P02')].
Says whether the tests notice each change and which of the given checks (or then all) report it."""
import os, re, subprocess, sys, shutil, queue, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/attempt.%d' % os.getpid()
PY = '/opt/venv/bin/python'
env = {}
exec(open(sys.argv[1]).read(), env)
changes = [c for c in env['CHANGES'] if not sys.argv[2:] or c[0] in sys.argv[2:]]
every = sorted(f[:-3].upper() for f in os.listdir(ROOT + '/harness') if re.match(r'p\d\d\.py$', f))
q = queue.Queue()
for c in changes: q.put(c)
results = {}

def run(c, copy):
    name, edits, props = c
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=copy)
    for f, old, new in edits:
        path = f'{copy}/python/enolib/{f}'
        text = open(path).read()
        nth = 0
        if isinstance(old, tuple): old, nth = old
        elif text.count(old) != 1: return f'EDIT matches {text.count(old)} times: {old!r}'
        pos = -1
        for _ in range(nth + 1): pos = text.index(old, pos + 1)
        open(path, 'w').write(text[:pos] + new + text[pos + len(old):])
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=copy + '/python')
    try:
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py'], cwd=copy + '/python', env=e, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return 'TESTS hang'
    subprocess.run('find tests -name "*.actual" -delete', shell=True, cwd=copy + '/python')
    if not re.search(r'\b380 passed', t.stdout) or ' failed' in t.stdout: return 'TESTS notice: ' + (t.stdout.strip().splitlines() or ['?'])[-1]
    first, caught, odd = props.split(), [], []
    for p in first + [x for x in every if x not in first]:
        if p not in first and (caught or not first): break
        if p not in first and os.environ.get('ONLY'): break
        r = subprocess.run(['python3-vt', 'check.py', p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, ENOLIB_REPO=copy, VERIF_TIER='quick', VERIF_SEED='1', VERIF_JOBS='3', VERIF_OUT=copy + '/out'))
        if r.returncode == 1: caught.append(p)
        elif r.returncode: odd.append((p, r.returncode, r.stdout[-200:]))
    return f'caught {" ".join(caught) or "NONE"} of {props}' + (f' ODD {odd}' if odd else '')

def loop(k):
    copy = f'{WORK}.{k}'
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    while True:
        try: c = q.get_nowait()
        except queue.Empty: break
        try: r = run(c, copy)
        except Exception as x: r = 'ERROR %r' % x
        print(c[0], '|', r, flush=True)
    shutil.rmtree(copy, ignore_errors=True)
ts = [threading.Thread(target=loop, args=(k,)) for k in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
