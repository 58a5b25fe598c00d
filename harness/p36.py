"""Names and texts are opaque: which keys are equal matters, what they and the values are does not."""
import itertools
import re
from harness.p33 import errors
from harness.reports import *

REQUIRED = {'rejected', 'accepted', 'errors', 'lookup', 'escaped'}
WORDS = {'A': 'qqa', 'B': 'qqb', 'C': 'qqc', '1': 'vv1', '2': 'vv2'}
NAMES = {v: k for k, v in WORDS.items()}
INNER = CS.comp(CS.of('\n:=<'))             # within a key
TICKED = CS.comp(CS.of('\n`'))              # within an escaped key
LAYOUTS = ['A: 1\n| 2\nB:\nA: 2', 'A:\n- 1\n\\ 2\n-\n\nB < A\n- 2', 'A:\nB = 1\nC =\n| 2\nC < A\nB = 2', '# A\nB: 1\n## B\nC:\n## A\n# B < A\nC: 2\n# C << A\n## B\nC: 1', '-- A\nx 1\n\n> 2\n-- A\nB < A', '> 1\n> 2\n>\nA: 1\n\n> 2\nB < A', 'A < B\nB < C\nC: 1', '# A < B\n# C\n# B\nC: 1',
           'A < B\nC: 1', '# A < B\n## B < A', 'A < B\nB < C\nC < A', 'A: 1\nA: 2\nB < A', '# A\n# B\n## A\n# C << A', 'A: 1\n- 2', 'A:\n- 1\nB = 2', '# A\n### B', '# A\n- 1', '-- A\nx 1\n--- A\n-- B', 'A\nB: 1', '# A\n> 1\nB: 2\n| 1\n\n# B < A\n> 2\nC < B', 'A < B\n- 1\nB:\nC = 2', '# A < C\nB:\n# C < B\n# B\nA: 1', 'A < A\nB: 1', '-- A\n-- A\n-- B\n-- B\nC < B',
           '> 1\nA: 2\nB < A', '> 1\n> 2\nA:\n- 2\nB < A', '> 1\n# A\nB: 2\n# C < A', '> 1\nA:\n> 2\nB = 1\nC < A\nB = 2', '> 1\n# A\n> 2\n## B\n# C << A\n## B\nA: 2', '> 1\n-- A\nx 2\n-- A\nB < A\nC < B']
ESCAPED = ['`A`: 1\n`B`:\n- 2\nC: 2', '# `A`\n`B`: 1\n# C < B', '`A`:\n`B` = 1\n`C` =\n', '``A``: 1\n# ``B``\nC: 1\n# `C` << A', '`A` x\nB: 1', '`A`:\n`A`: 1\nC: 2']
SIZES = [(1, 1, 1, 1, 1), (2, 1, 3, 2, 1), (3, 3, 2, 3, 1), (1, 2, 1, 1, 3), (4, 5, 6, 4, 5), (7, 4, 8, 6, 7), (5, 8, 4, 8, 9), (6, 7, 5, 9, 8), (8, 6, 9, 7, 10), (9, 10, 12, 10, 6), (11, 12, 10, 12, 11), (10, 9, 7, 5, 4), (12, 11, 11, 11, 12)]


def fill(S, text, parts):
    """a text about the words with the other names and texts in their places"""
    out = S.const('')
    for piece in re.split('(qq[abc]|vv[12])', text):
        out = out + (parts[NAMES[piece]] if piece in NAMES else piece)
    return out


def swap(S, v, parts):
    if isinstance(v, list):
        return [swap(S, x, parts) for x in v]
    return fill(S, v, parts) if isinstance(v, str) else v


def like(S, texts, a, b, parts, what):
    """two errors say the same about the two documents"""
    S.check((a is None) == (b is None) and type(a).__name__ == type(b).__name__, '%s: names or texts decide about an error' % what)
    if a is None:
        return
    S.check(S.eq(fill(S, str(a.text), parts), b.text), '%s: names or texts change what an error says' % what)
    S.check(S.eq(fill(S, str(a.snippet), parts), b.snippet), '%s: names or texts change what is shown' % what)
    for end in ('from', 'to'):
        S.check(a.selection[end]['line'] == b.selection[end]['line'], '%s: names or texts change the selected lines' % what)
    x, y = [t[e.selection['from']['index']:e.selection['to']['index']] for t, e in zip(texts, (a, b))]
    S.check(S.eq(fill(S, str(x), parts), y), '%s: names or texts change what is selected' % what)


def both(S, t, sizes, report, absent='a key that no document has'):
    dom = lambda n, mid, end: [end] + [mid] * (n - 2) + [end] * (n > 1)        # noqa: E731
    parts = {}
    for k, n in zip('ABC12', sizes):
        if k not in t:
            continue
        bare, ticked = k in re.sub('`[ABC]`', '', t), '`%s`' % k in t
        mid, end = (LINE, INK) if k in '12' else (INNER, SAFE) if bare else (TICKED, CS.inter(INK, TICKED))
        if bare and ticked:
            mid = CS.inter(mid, TICKED)
        parts[k] = S.text('name' + k if k in 'ABC' else 'text' + k, n, dom(n, mid, end))
    for x, y in ('AB', 'AC', 'BC'):
        if x in parts and y in parts and S.same(parts[x], parts[y]):
            return
    first = S.const(''.join(WORDS.get(c, c) for c in t))
    second = fill(S, first, parts)
    R = getattr(S.lib.mod('reporters'), report)
    (a, ae), (b, be) = parse(S, first, reporter=R), parse(S, second, reporter=R)
    like(S, (first, second), ae, be, parts, 'parsing')
    if ae is not None:
        S.check(is_parse_error(S, ae), 'parsing raised %r' % (ae,))
        S.reach('rejected')
        return
    S.check(S.eq(swap(S, observe.elements(a), parts), observe.elements(b)), 'names or texts change how a document is read')
    S.reach('escaped' if '`' in t else 'accepted')
    x, y = [], []
    errors(S, S.lib.parse(first, reporter=R), x, absent)
    errors(S, S.lib.parse(second, reporter=R), y, absent)
    S.check(len(x) == len(y), 'names or texts change the elements')
    for i, (p, q) in enumerate(zip(x, y)):
        like(S, (first, second), p, q, parts, 'error %d' % i)
    S.reach('errors')
    for k in 'ABC':
        if k not in parts:
            continue
        word = S.const(WORDS[k])
        fresh = lambda: (S.lib.parse(first, reporter=R), S.lib.parse(second, reporter=R))      # noqa: E731
        a, b = fresh()
        S.check(len(a.elements(word)) == len(b.elements(parts[k])), 'a query depends on how the key is called')
        for f in ('element', 'field', 'list', 'fieldset', 'section', 'empty'):
            a, b = fresh()
            (v, p), (w, q) = S.call(getattr(a, 'required_' + f), word), S.call(getattr(b, 'required_' + f), parts[k])
            like(S, (first, second), p, q, parts, 'query')
            if f != 'element':
                many = {'empty': 'empties'}.get(f, f + 's')
                if hasattr(a, many):
                    (v, p), (w, q) = S.call(getattr(a, many), word), S.call(getattr(b, many), parts[k])
                    like(S, (first, second), p, q, parts, 'query')
                    S.check(p is not None or len(v) == len(w), 'a query depends on how the key is called')
            for which in ('only', 'skip'):
                like(S, (first, second), S.call(a.assert_all_touched, **{which: [word]})[1], S.call(b.assert_all_touched, **{which: [parts[k]]})[1], parts, which)
        a, b = fresh()
        for x, y in zip(a.elements(), b.elements()):
            (x, p), (y, q) = S.call(x.to_fieldset), S.call(y.to_fieldset)
            if p is None and q is None:
                S.check(len(x.entries(word)) == len(y.entries(parts[k])), 'a query for entries depends on how the key is called')
                like(S, (first, second), S.call(x.required_entry, word)[1], S.call(y.required_entry, parts[k])[1], parts, 'query for an entry')
        (x, p), (y, q) = [S.call(d.assert_all_touched, only=[w]) for d, w in zip(fresh(), (word, parts[k]))]
        like(S, (first, second), p, q, parts, 'only')
    for i, (r, s) in enumerate(zip(first.split('\n'), second.split('\n'))):
        for c, d in ((0, 0), (len(r), len(s))):
            p, q = S.lib.lookup(first, line=i, column=c), S.lib.lookup(second, line=i, column=d)
            S.check(p['range'] == q['range'] and S.eq(swap(S, plain(p['element'].raw()), parts), plain(q['element'].raw())), 'lookup() depends on names or texts')
    S.reach('lookup')


def plain(r):
    return [[k, plain(v)] for k, v in sorted(r.items())] if isinstance(r, dict) else [plain(x) for x in r] if isinstance(r, list) else r


REPORTS = ('TextReporter', 'TerminalReporter')
def work(tier):
    for i, t in enumerate(LAYOUTS + ESCAPED):
        for j, z in enumerate(SIZES):
            for r in REPORTS if tier == 'thorough' else REPORTS[(i + j) % 2:][:1]:
                yield dict(t=t, sizes=list(z), report=r)


def layout_(S, t, sizes, report):
    both(S, t, sizes, report)


LINES3 = ['A: 1', 'A:', 'B: 2', '- 1', 'B = 1', '# A', '## B', '| 2', 'A < B', 'B < A', '> 1', '-- A\n> 1\n-- A', '# B < A', '## A << B', '# B << A', '-- B\n> 1', 'A', '']
BEFORE = ['', '# A\nB: 1\n']


def sequences(tier):
    for i, (a, b, c) in enumerate(itertools.product(LINES3, repeat=3)):
        pre = BEFORE if tier == 'thorough' or i % 3 == 0 else BEFORE[:1]
        if any(k in a + b + c for k in 'ABC'):
            for p in pre:
                yield dict(t=p + '\n'.join((a, b, c)), sizes=list(SIZES[i % len(SIZES)]), report=REPORTS[i % 2])


SAY = 'every sequence of three of %d kinds of lines; two keys and two texts of up to 12 arbitrary characters each; ' % len(LINES3)
HARNESSES = {
    'layouts': dict(fn=layout_, bounds=dict(quick='%d layouts with up to three keys and two texts of up to 12 arbitrary characters each (%d sets of lengths), %d of them with escaped keys' % (len(LAYOUTS + ESCAPED), len(SIZES), len(ESCAPED)), thorough='the same with two reporters'),
                    units=lambda tier: list(work(tier))),
    'sequences': dict(fn=layout_, bounds=dict(quick=SAY + 'a third of them also after a section', thorough=SAY + 'also after a section'),
                      units=lambda tier: list(sequences(tier))),
}
