#!/usr/bin/env python3
"""Small changes everywhere in the package that the test suite does not notice, and which checks do.
usage: mutate.py list OUT.json            every change the 380 tests accept
       mutate.py check IN.json OUT.json   the first check that reports each of them
Works on copies below /tmp/mut only."""
import ast, json, os, re, shutil, subprocess, sys, queue, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = '/tmp/mut'
PY = '/opt/venv/bin/python'
SRC = '/repo/python/enolib'

CMP = {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>', 'is': 'is not', 'is not': 'is', 'in': 'not in', 'not in': 'in'}
OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

def mutants(name, text):
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for l in lines: starts.append(starts[-1] + len(l) + 1)
    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    def span(n): return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    out = []
    def sub(n, new, why):
        a, b = span(n)
        if text[a:b] != new: out.append((a, b, new, why))
    src = lambda n: ast.get_source_segment(text, n)
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = OPS[type(n.ops[0])]
            sub(n, f'{src(n.left)} {CMP[op]} {src(n.comparators[0])}', 'cmp')
            if op in ('<', '>'): sub(n, f"{src(n.left)} {'>' if op == '<' else '<'} {src(n.comparators[0])}", 'cmp2')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            sub(n, str(not n.value), 'bool')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            sub(n, str(n.value + 1), 'int+'); sub(n, str(n.value - 1), 'int-')
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and n.lineno == n.end_lineno:
            s = src(n)
            if name.startswith('grammar') or 're.' in lines[n.lineno - 1] or "\\s" in s:
                for i, c in enumerate(s):
                    if c == '*': sub(n, s[:i] + '+' + s[i+1:], 're')
                    if c == '+': sub(n, s[:i] + '*' + s[i+1:], 're')
                    if c == '?' and s[i-1] not in '(': sub(n, s[:i] + s[i+1:], 're')
                    if c == '^' : sub(n, s[:i] + s[i+1:], 're')
                    if c == '$' : sub(n, s[:i] + s[i+1:], 're')
                    if s[i:i+2] == '\\S': sub(n, s[:i] + '.' + s[i+2:], 're')
                    if s[i:i+2] == '\\s': sub(n, s[:i] + ' ' + s[i+2:], 're')
                    if s[i:i+2] == '?!': sub(n, s[:i] + '?=' + s[i+2:], 're')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            sub(n, '(' + j.join(src(v) for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                sub(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(src(v) for v in rest) + ')', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, src(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            sub(n, f"{src(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {src(n.right)}", 'arith')
        if isinstance(n, (ast.If, ast.While)):
            sub(n.test, 'False', 'if'); 
            if isinstance(n, ast.If): sub(n.test, 'True', 'if')
        if isinstance(n, ast.IfExp):
            sub(n, src(n.body), 'ifexp'); sub(n, src(n.orelse), 'ifexp')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and n.col_offset > 0:
            sub(n, 'pass', 'del')
        if isinstance(n, (ast.Break, ast.Continue)): sub(n, 'pass', 'del')
        if isinstance(n, ast.Continue): sub(n, 'break', 'brk')
        if isinstance(n, ast.Return) and n.value is not None:
            sub(n, 'return None', 'ret')
        if isinstance(n, ast.Return) and n.value is None: sub(n, 'pass', 'ret')
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'InstructionType':
            pass
    res, seen = [], set()
    for a, b, new, why in out:
        t = text[:a] + new + text[b:]
        if t in seen: continue
        seen.add(t)
        try: compile(t, name, 'exec')
        except SyntaxError: continue
        res.append(dict(file=name, line=text[:a].count('\n') + 1, a=a, b=b, old=text[a:b], new=new, why=why))
    return res

def every():
    out = []
    for d, _, fs in sorted(os.walk(SRC)):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                out += mutants(os.path.relpath(p, SRC), open(p).read())
    return out

def workers(items, fn, n):
    q = queue.Queue(); res = []
    for k, i in enumerate(items): q.put((k, i))
    def loop(w):
        copy = f'{WORK}/w{w}'
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs(copy)
        subprocess.check_call(['cp', '-a', '/repo', copy + '/repo'])
        while True:
            try: k, i = q.get_nowait()
            except queue.Empty: break
            path = f'{copy}/repo/python/enolib/' + i['file']
            text = open(path).read()
            open(path, 'w').write(text[:i['a']] + i['new'] + text[i['b']:])
            try: fn(i, copy, res)
            except Exception as e: print('ERR', i, e, flush=True)
            finally: open(path, 'w').write(text)
        shutil.rmtree(copy, ignore_errors=True)
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res

def test(i, copy, res):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=copy + '/repo/python')
    try:
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py'], cwd=copy + '/repo/python', env=env, capture_output=True, text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return
    if re.search(r'\b380 passed', t.stdout) and ' failed' not in t.stdout: res.append(i)
    subprocess.run('find tests -name "*.actual" -delete', shell=True, cwd=copy + '/repo/python')

if __name__ == '__main__':
    if sys.argv[1] == 'list':
        items = every()
        print(len(items), 'changes')
        res = workers(items, test, 8)
        res.sort(key=lambda i: (i['file'], i['a']))
        json.dump(res, open(sys.argv[2], 'w'), indent=0)
        print(len(res), 'not noticed by the tests')
    else:
        items = json.load(open(sys.argv[2]))
        out = sys.argv[3]
        def relevant(f):
            for start, props in (('lookup', 'P15 P16 P29 P30'), ('reporters', 'P13 P14 P25 P12 P01'), ('errors/parsing', 'P12 P11 P13 P25 P01'),
                                 ('errors', 'P23 P22 P18 P12 P20 P21 P25 P01'), ('analyzer', 'P16 P12 P09 P04 P08 P02 P11 P06 P10 P05 P03 P13 P15 P07 P23 P01'),
                                 ('grammar', 'P02 P16 P07 P06 P09 P12 P01'), ('context', 'P10 P08 P05 P09 P30 P27 P19 P18 P15 P01'), ('resolver', 'P10 P09 P11 P27 P13 P30 P25 P01'),
                                 ('register', 'P26'), ('', 'P18 P19 P22 P21 P28 P24 P20 P23 P26 P29 P27 P30 P25 P01')):
                if f.startswith(start): return props.split()
        budget = sys.argv[4] if len(sys.argv) > 4 else '12'
        shutil.rmtree(WORK + '/verif', ignore_errors=True)
        shutil.copytree(ROOT, WORK + '/verif', ignore=shutil.ignore_patterns('.git', 'seeded', 'replays', 'evidence', '__pycache__'))
        lock = threading.Lock()
        orders = {}
        def check(i, copy, res):
            got, odd = None, []
            v = copy + '/verif'
            if not os.path.exists(v): shutil.copytree(WORK + '/verif', v)
            for p in list(orders.setdefault(i['file'], relevant(i['file']))):
                r = subprocess.run(['python3-vt', 'check.py', p, '--budget', budget], cwd=v, capture_output=True, text=True, env=dict(os.environ, ENOLIB_REPO=copy + '/repo', VERIF_TIER='quick', VERIF_SEED='1', VERIF_JOBS='2'))
                if r.returncode == 1:
                    got = p
                    with lock:      # what found the last change in this file goes first
                        orders[i['file']].remove(p); orders[i['file']].insert(0, p)
                    break
                if r.returncode: odd.append([p, r.returncode, r.stdout[-300:]])
            with lock:
                res.append(dict(i, caught=got, odd=odd))
                json.dump(res, open(out, 'w'), indent=0)
            print(i['file'], i['line'], repr(i['old'][:60]), '->', repr(i['new'][:60]), got, [o[:2] for o in odd], flush=True)
        workers(items, check, 5)
