"""Positions: lines in front of a document move every position by exactly their number, and change nothing else."""
from harness import large
from harness.reports import *

REQUIRED = {'rejected', 'accepted', 'error', 'lookup', 'outside'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# ', 'η': '-=', 'σ': SPACE, 'Ω': ANY}
FRONT = ['\n', '> c\n\n', '\n' * 11, ' \n> c\n> d\n\n', '> c\n' * 98 + '\n']


def moved(S, front, a, b, what):
    """two errors, the second behind the lines in front"""
    S.check((a is None) == (b is None), '%s: lines in front decide whether there is an error' % what)
    if a is None:
        return
    n, k = front.count('\n'), len(front)
    S.check(type(a).__name__ == type(b).__name__, '%s: lines in front give another kind of error' % what)
    top = a.selection['to']['index'] == 0 and b.selection['to']['index'] == 0
    for end in ('from', 'to'):
        p, q = a.selection[end], b.selection[end]
        S.check(top or (q['line'] == p['line'] + n and q['index'] == p['index'] + k and q['column'] == p['column']), '%s: the selection is not moved by the lines in front' % what)
    S.check(S.eq(b.cursor, b.selection['from']), '%s: the cursor is not the start of the selection' % what)
    x, y = [r for r in read_text(S, a.snippet) if r], [r for r in read_text(S, b.snippet) if r]
    marked = any(r[1] != ' ' for r in x) and any(r[1] in '>*' for r in x)
    S.check([(r[0] + n, r[1]) for r in x] == [r[:2] for r in y if r[0] >= n], '%s: other lines are shown' % what)
    S.check(S.eq([r[2] for r in x], [r[2] for r in y if r[0] >= n]), '%s: lines are shown differently' % what)
    S.check(not marked or all(r[1] == ' ' for r in y if r[0] < n), '%s: a line in front is marked' % what)


def errors(S, section, out, absent="zz"):
    """every error about the elements of a section"""
    for x in (section.error('m'), S.call(section.required_field, absent)[1], S.call(section.assert_all_touched)[1]):
        out.append(x)
    for e in section.elements():
        k = observe.kind(e)
        out += [e.error('m'), e.key_error('m'), e.comment_error('m'), S.call(e.required_string_comment)[1], S.call(e.to_section if k != 'section' else e.to_list)[1]]
        if k == 'section':
            errors(S, e.to_section(), out, absent)
            continue
        for x in e.to_list().items() if k == 'list' else e.to_fieldset().entries() if k == 'fieldset' else [e.to_field()]:
            out += [x.error('m'), x.value_error('m'), x.comment_error('m'), S.call(x.required_string_value)[1]]


def both(S, text, front):
    (a, ae), (b, be) = parse(S, text), parse(S, front + text)
    moved(S, front, ae, be, 'parsing')
    if ae is not None:
        S.check(is_parse_error(S, ae), 'parsing raised %r' % (ae,))
        S.reach('rejected')
        return
    S.check(S.eq(observe.elements(a), observe.elements(b)), 'lines in front change what is read')
    S.reach('accepted')
    x, y = [], []
    errors(S, S.lib.parse(text), x)
    errors(S, S.lib.parse(front + text), y)
    S.check(len(x) == len(y), 'lines in front make other elements')
    for i, (p, q) in enumerate(zip(x, y)):
        moved(S, front, p, q, 'error %d' % i)
    if x:
        S.reach('error')


def shape(S, t, front):
    both(S, doc(S, t, marks=M), front)


def bigger(S, text):
    both(S, text, FRONT[2])


def found(S, t, front):
    """lookup() with lines in front"""
    text = doc(S, t, marks=M)
    if parse(S, text)[1] is not None:
        return
    n, k = front.count('\n'), len(front)
    i = S.int('index', 0, len(text))
    a, b = S.lib.lookup(text, index=i), S.lib.lookup(front + text, index=S.index(i) + k)
    line = S.int('line', 0, t.count('\n'))
    rows = text.split('\n')
    column = S.int('column', 0, 3)
    S.assume(column <= len(rows[S.index(line)]))
    c, d = S.lib.lookup(text, line=line, column=column), S.lib.lookup(front + text, line=S.index(line) + n, column=column)
    for p, q in ((a, b), (c, d)):
        S.check(p['range'] == q['range'], 'lines in front change the token that is found')
        S.check(S.eq(p['element'].raw(), q['element'].raw()), 'lines in front change the element that is found')
    S.reach('lookup')
    for j in (len(text) + 1, -k - 1):
        S.check(isinstance(S.call(S.lib.lookup, front + text, index=j + k)[1], IndexError), 'a position outside is accepted')
    S.reach('outside')


DOCS = ['κ: χ\nω ν\nκ:\n- x\n> ν\n-', '> χ\n>ν\nκ:\nκ = χ\nω\nb =', '# κ\nb: x\n## c\n# d < κ\nb: y\n', '-- κ\nν\n-- κ\nb < κ', 'a:\n- χ\nb < a\n- χ\nc < b\n- x', 'a:\nκ = x\nb < a\nκ = y\nc < b\nκ = z', '# a\n> ν\nκ:\n# b < a\n# c << b\n', '# a\n## κ\nx: y\n# b << a\n## κ\nz: χ\n# c << b\n',
        'a: χ\nb < a\nω ν\nc < b', 'κ\nν', 'a:\nb < a\nχοy', '# a < b\nκ:x\n# b\nκ:y\n', 'κοχ\nκοχ', '#δκ\n#δκ\n#δκ', 'a:\nλ χ\n\nλ χ', '> ν', '-- κ\nν\n>ν', 'a: x\n> χ\n\n> ν\n', 'a < κ\nb < κ', '# a\n## b\n### κ < κ\n# κ\n', 'a: x\na: y\nb < κ', '`κ: x', '# `κν', '-- a\n--ν']
FOUND = ['κ: ν\nω x', 'a:\n- χ\nω y\n\n- z', 'κ:\na = χ\nω\n\nb=', '# κ\nb:\n\nc: χ', '-- κ\nν\n-- κ', '> c\n> ν\nκ:\nλ χ', 'a: x\nκ < a\n# b < κ', '# a\n# b < a\nκ: x']
HARNESSES = {
    'shape': dict(fn=shape, bounds=dict(quick='%d layouts, five kinds of lines in front (up to 99 lines); every text of up to 4 characters' % len(DOCS), thorough='every text of up to 6 characters'),
                  units=lambda tier: [dict(t=t, front=f) for t in DOCS for f in FRONT] + [dict(t='Ω' * n, front=FRONT[1 if n % 2 else 0]) for n in range(7 if tier == 'thorough' else 5)]),
    'found': dict(fn=found, bounds='every position of %d layouts behind four kinds of lines' % len(FOUND), units=lambda tier: [dict(t=t, front=f) for t in FOUND for f in FRONT[:4]]),
    'words': words(bigger),
    'sequence': sequence(bigger, pre=('', '# s\nl:\n- x\nm < l\nf:\nk = x\ng < f\n')),
    'extreme': large.entry(bigger, large.EVERYTHING + large.REJECTED, 'beyond all limits', quick=large.SELECTED + large.EXTREME['cycles']),
    'large': large.entry(bigger, large.GOOD + large.CYCLES + large.BAD[3:], quick=large.GOOD[1:5] + large.CYCLES),
}
