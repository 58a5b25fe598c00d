"""Comments say something about elements, they never decide what the elements are."""
import re
from harness import large
from harness.p33 import errors
from harness.reports import *

REQUIRED = {'rejected', 'accepted', 'errors', 'lookup', 'attached', 'elsewhere'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# ', 'η': '-=', 'σ': SPACE, 'Ω': ANY}


def gaps(S, text):
    """the gaps between lines that are not within a multiline field"""
    out, inside = [0], None
    for i, row in enumerate(text.split('\n')):
        if inside is None and S.same(row[:2], '--'):
            inside = row
        elif inside is not None and S.same(inside, row):
            inside = None
        if inside is None:
            out.append(i + 1)
    return out


def later(text, gap, n):
    for k in range(n, gap, -1):
        text = text.replace('ine %d ' % k, 'ine %d ' % (k + 1))
    return text


def moved(S, gap, k, n, starts, a, b, what):
    S.check((a is None) == (b is None), '%s: a comment decides whether there is an error' % what)
    if a is None:
        return
    S.check(type(a).__name__ == type(b).__name__, '%s: a comment gives another kind of error' % what)
    S.check(S.eq(later(a.text, gap, n), b.text), '%s: a comment changes what the error says' % what)
    whole = a.selection['to']['index'] == 0 and b.selection['to']['index'] == 0
    for end in ('from', 'to'):
        p, q = a.selection[end], b.selection[end]
        down = p['line'] >= gap
        S.check(whole or (q['line'] == p['line'] + down and q['column'] == p['column'] and q['index'] == p['index'] + k * down), '%s: a comment moves what is selected' % what)


def bare(v):
    """a reading without its comments"""
    return v[:2] + [[bare(x) for x in v[3]] if isinstance(v[3], list) else v[3]]


def remarks(v):
    return [v[2]] + ([c for x in v[3] for c in remarks(x)] if isinstance(v[3], list) else [])


def both(S, text, gap, comment):
    rows = text.split('\n')
    n = len(rows)
    other = S.const('\n').join(rows[:gap] + [comment] + rows[gap:])
    starts = [sum(len(r) + 1 for r in rows[:i]) for i in range(n + 1)]
    k = len(comment) + 1
    (a, ae), (b, be) = parse(S, text), parse(S, other)
    moved(S, gap, k, n, starts, ae, be, 'parsing')
    if ae is not None:
        S.check(is_parse_error(S, ae), 'parsing raised %r' % (ae,))
        S.reach('rejected')
        return
    x, y = observe.elements(a), observe.elements(b)
    S.check(S.eq([bare(e) for e in x], [bare(e) for e in y]), 'a comment changes what is read')
    S.reach('accepted')
    if '<' not in text:
        x, y = [c for e in x for c in remarks(e)], [c for e in y for c in remarks(e)]
        differ = [i for i in range(len(x)) if not S.same(x[i], y[i])]
        S.check(len(differ) <= 1, 'a comment is read at more than one element')
        S.reach('attached' if differ else 'elsewhere')
    x, y = [], []
    errors(S, S.lib.parse(text), x)
    errors(S, S.lib.parse(other), y)
    S.check(len(x) == len(y), 'a comment makes other elements')
    for i, (p, q) in enumerate(zip(x, y)):
        if 'comment' not in str(p and p.text) + str(q and q.text) and 'kommentar' not in str(p and p.text):
            moved(S, gap, k, n, starts, p, q, 'error %d' % i)
    S.reach('errors')


def shape(S, t):
    ask(S, doc(S, t, marks=M), 2)


def ask(S, text, n=1):
    g = gaps(S, text)
    both(S, text, g[S.index(S.int('gap', 0, len(g) - 1))], S.const('>') + S.text('comment', n, LINE))


def found(S, t):
    """lookup() says the same with a comment elsewhere"""
    text = doc(S, t, marks=M)
    if parse(S, text)[1] is not None:
        return
    g = gaps(S, text)
    gap, comment = g[S.index(S.int('gap', 0, len(g) - 1))], '>' + S.text('comment', 2, LINE)
    rows = text.split('\n')
    other = '\n'.join(rows[:gap] + [comment] + rows[gap:])
    at = S.int('line', 0, len(rows) - 1)
    line = S.index(at)
    column = S.int('column', 0, 3)
    S.assume(column <= len(rows[line]))
    down = line >= gap
    c = S.index(column)
    i = sum(len(r) + 1 for r in rows[:line]) + c
    for p, q in ((S.lib.lookup(text, line=line, column=c), S.lib.lookup(other, line=line + down, column=c)), (S.lib.lookup(text, index=i), S.lib.lookup(other, index=i + (len(comment) + 1) * down))):
        S.check(p['range'] == q['range'], 'a comment elsewhere changes the token that is found')
        S.check(S.eq(plain(p['element'].raw()), plain(q['element'].raw())), 'a comment elsewhere changes the element that is found')
    S.reach('lookup')


def plain(r):
    return [[k, plain(v)] for k, v in sorted(r.items()) if k != 'comment'] if isinstance(r, dict) else [plain(x) for x in r] if isinstance(r, list) else r


SHAPES = ['κ:ν\n|ν\nκ:', 'κ:\n-ν\n\\ν\n-\nκ:', 'κ:\nκ =ν\n|ν\nΚ =', '# κ\nκ:ν\n## κ\nΚ:\n# κ', '-- a\nν\n\n-- a\nκ:', '# κ\nκ:\n# κ < κ', 'κ < κ\n-ν\nκ: ν', 'κ: ν\n\n\nκ:', '> ν\nκ:\n> ν\n\nκ:', '# κ\n> ν\n#δκ', '# κ\n-- a\n> ν\n-- a\n|ν', 'κ: ν\nη ν', 'κ:\nλν', 'κ\nκ:', '> ν\n-- a\n> ν\n-- a\n> ν', '# κ\n#δκ\nκ << κ']
FOUND = ['κ: ν\n| x', 'a:\n- χ\n\\ y\n\n- z', 'κ:\na = χ\n|\n\nb=', '# κ\nb:\n\nc: χ', '-- κ\nν\n-- κ', 'κ:\n> c\n- χ', 'a: x\nκ < a\n# b < κ', '# a\n# b < a\nκ: x', '\n\nb:\n\n']
HARNESSES = {
    'shapes': dict(fn=shape, bounds='a comment of two arbitrary characters at every place of %d documents outside of multiline fields' % len(SHAPES), units=lambda tier: [dict(t=t) for t in SHAPES]),
    'found': dict(fn=found, bounds='every position (up to column 3) of %d layouts, with a comment at every place' % len(FOUND), units=lambda tier: [dict(t=t) for t in FOUND]),
    'words': words(ask),
    'sequence': sequence(ask, plain=1),
    'extreme': large.entry(ask, large.EVERYTHING + large.REJECTED, 'beyond all limits', quick=large.SELECTED[4:5] + large.EXTREME['copied'][:1]),
    'large': large.entry(ask, large.GOOD + large.CYCLES + large.BAD[3:] + large.COPIED, quick=large.GOOD[1:5] + large.COPIED[:2]),
}
