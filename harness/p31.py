"""Composition: what is appended, prepended or nested does not change how the rest is read."""
from harness import large
from harness.common import *

REQUIRED = {'pair', 'appended', 'nested', 'rejected', 'twice', 'wrapped'}
ASSUMPTIONS = ['the parts do not copy from each other']
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# ', 'η': '-=', 'σ': SPACE}
TAILS = ['# zz\nyy: v', '# zz\n## yy\nww:\n- x\n# vv < zz\n', '# zz\n> c\nyy:\nx = y\n# zz\nuu < yy', '# zz\n-- yy\nx\n-- yy\n## zz\n']


def read(S, text):
    d, err = parse(S, text)
    return (None, err) if err is not None else (observe.elements(d), None)


def appended(S, text, tail):
    """a document followed by sections that have nothing to do with it"""
    got, err = read(S, text)
    rest, none = read(S, S.const(tail))
    both, berr = read(S, text + '\n\n' + tail)
    if err is not None:
        S.check(is_parse_error(S, err) and berr is not None and is_parse_error(S, berr), 'what follows repairs an error')
        S.check(S.eq(err.text, berr.text) and S.eq(err.selection, berr.selection), 'what follows changes an error')
        S.reach('rejected')
        return
    S.check(berr is None, 'a document followed by another section is rejected: %r' % (berr,))
    S.check(S.eq(both, got + rest), 'a document reads differently when sections follow')
    S.reach('appended')


def shape(S, t, tail):
    appended(S, doc(S, t, marks=M), tail)


def bigger(S, text):
    appended(S, text, TAILS[0])


def twice(S, t):
    """the same text twice, without copies"""
    text = doc(S, '# s\n' + t, marks=M)
    got, err = read(S, text)
    if err is not None:
        return
    both, berr = read(S, text + '\n\n' + text)
    S.check(berr is None and S.eq(both, got + got), 'the second half reads differently')
    S.reach('twice')


def nested(S, t):
    """all sections one level deeper below another section"""
    text = doc(S, t, marks=M)
    got, err = read(S, text)
    lines = []
    for row, layout in zip(text.split('\n'), t.split('\n')):
        lines.append('#' + row if layout[:1] == '#' else row)
    deeper = S.const('# zz')
    for r in lines:
        deeper = deeper + '\n' + r
    more, merr = read(S, deeper)
    if err is not None:
        S.check(merr is not None and is_parse_error(S, merr), 'an error is accepted when it is nested')
        where, there = err.selection['from']['line'], merr.selection['from']['line']
        S.check(there == where + 1, 'a nested error is in another line')
        return
    S.check(merr is None, 'a document is rejected when it is nested: %r' % (merr,))
    S.check(S.eq(more, [['section', 'zz', None, got]]), 'a document reads differently when it is nested')
    S.reach('nested')


def wrapped(S, t):
    """a document between fields before and sections after it"""
    text = doc(S, t, marks=M)
    got, err = read(S, text)
    both, berr = read(S, 'zz: x\nyy:\n- x\n\n' + text + '\n\n# ww\n')
    S.check((err is None) == (berr is None), 'what surrounds a document decides whether it is accepted')
    if err is None:
        S.check(S.eq(both[:1] + both[-1:], [['field', 'zz', None, 'x'], ['section', 'ww', None, []]]), 'what surrounds a document reads differently')
        S.check(S.eq(both[2:-1], got) and S.eq(both[1], ['list', 'yy', None, [['item', None, None, 'x']]]), 'a document reads differently between others')
        S.reach('wrapped')


def pair(S, a, b):
    """two parts one after the other, and the other way round"""
    x, y = doc(S, '# s\n' + a, 'first', marks=M), doc(S, '# s\n' + b, 'second', marks=M)
    (p, pe), (q, qe) = read(S, x), read(S, y)
    S.check(pe is None and qe is None, 'a part is rejected after another one was read')
    for u, v, want in ((x, y, p + q), (y, x, q + p)):
        got, err = read(S, u + '\n\n' + v)
        S.check(err is None and S.eq(got, want), 'a part reads differently after another one')
    S.reach('pair')


PARTS = ['-- a\nν\n-- a', '--- a\n-- κ\n--- a\n', '-----a\n---- κ\nν\n-----  a', '## κ\n## κ\n### b', '`κ`:\n- ν\n``κ``:\nb = x', '`` κ`ν ``: x\n', 'κ:\n`κ` = ν\nκ = x', 'κ: ν\n| x\n\\ ν', '> ν\nκ:\n\n> x\n- ν\n-', '-- a\n-- a\n> x\n-- a\n## κ\n-- a', 'κ:\n\n\nκ:χ', '## a\n### κ\nκ: χ\n## b\n']
DOCS = ['κ: χ\nω ν\nκ:\n- x\n> ν\n-', '> χ\n>ν\nκ:\nκ = χ\nω\nb =', '# κ\nb: x\n## c\n# d < κ\nb: y\n', '-- κ\nν\n-- κ\nb < κ', 'a:\n- χ\nb < a\n- χ\nc < b\n- x', 'a:\nκ = x\nb < a\nκ = y\nc < b\nκ = z', '# a\n> ν\nκ:\n# b < a\n# c << b\n', '# a\n## κ\nx: y\n# b << a\n## κ\nz: χ\n# c << b\n',
        'a: χ\nb < a\nω ν\nc < b', 'κ\nν', 'a:\nb < a\nχοy', '# a < b\nκ:x\n# b\nκ:y\n', 'κοχ\nκοχ', '#δκ\n#δκ\n#δκ', 'a:\nλ χ\n\nλ χ', '> ν', '-- κ\nν\n>ν', 'a: x\n> χ\n\n> ν\n', 'a < κ\nb < κ', '# a\n## b\n### κ < κ\n# κ\n']
TWICE = ['κ: χ\nω ν\nκ:\n- x\n> ν\n-', '> χ\n>ν\nκ:\nκ = χ\nω\nb =', '## κ\nb: x\n### c\n## d\nb: y\n', '-- κ\nν\n-- κ\nb:', 'κοχ\nκοχ', '#δκ\n#δκ\n#δκ', 'a:\nλ χ\n\nλ χ', '> ν', '## κ\n> ν\n## κ\n']
WRAPPED = [t for t in DOCS if not t.startswith('κ\n')] + ['κ: ν\n\nκ:\n']
HARNESSES = {
    'appended': dict(fn=shape, bounds=dict(quick='%d layouts and every text of up to 4 characters, followed by four other documents' % len(DOCS), thorough='every text of up to 6 characters'),
                     units=lambda tier: [dict(t=t, tail=x) for t in DOCS for x in TAILS] + [dict(t='Ω' * n, tail='# zzzzzzz\nyyyyyyy: v') for n in range(7 if tier == 'thorough' else 5)]),
    'twice': dict(fn=twice, bounds='%d layouts, each twice' % len(TWICE), units=lambda tier: [dict(t=t) for t in TWICE]),
    'nested': dict(fn=nested, bounds='%d layouts, one level deeper' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'wrapped': dict(fn=wrapped, bounds='%d layouts between other elements' % len(WRAPPED), units=lambda tier: [dict(t=t) for t in WRAPPED]),
    'pair': dict(fn=pair, bounds='every two of %d parts, in both orders' % len(PARTS), units=lambda tier: [dict(a=a, b=b) for i, a in enumerate(PARTS) for b in PARTS[i:]]),
    'words': words(bigger),
    'sequence': sequence(bigger),
    'extreme': large.entry(bigger, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(bigger, large.SECTIONS + large.ATTACHED + large.CONTINUED + large.MULTILINE + large.COPIED + large.SECTION_COPIES + large.CYCLES + large.MANY),
}
M['Ω'] = ANY
