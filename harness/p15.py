"""Lookup: every position belongs to the right element; lines and indices agree; positions outside are rejected."""
from harness import large
from harness.lookups import *

REQUIRED = {'document', 'section', 'field', 'empty', 'multiline', 'item', 'entry', 'list', 'fieldset', 'outside', 'rejected'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'σ': SPACE, 'λ': 'a-|\\>#', 'ο': ':=<', 'β': ' a-|\\>', '¶': '\n ', 'η': 'x>\n', 'ι': INK}


def prepared(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        x, err = S.call(S.lib.lookup, text, line=0, column=0)
        S.check(err is not None and is_parse_error(S, err), 'lookup in an invalid document does not raise the ParseError')
        S.reach('rejected')
        return None
    return d


def position(S, text):
    """any index of the document, as an index and as a line and column"""
    d = prepared(S, text)
    if d is None:
        return
    i = S.int('index', 0, len(text))
    by_index, err = S.call(S.lib.lookup, text, index=i)
    S.check(err is None, 'lookup by index raised %r' % (err,))
    line, column = line_of(S.index(i), text)
    matched(S, d, line, column, by_index)
    by_line, err = S.call(S.lib.lookup, text, line=line, column=column)
    S.check(err is None, 'lookup by line raised %r' % (err,))
    matched(S, d, line, column, by_line)
    S.check(S.eq(by_line['range'], by_index['range']), 'lookup by line and by index find different ranges')
    S.reach(owner(d, line).kind)
    S.note(by_index['range'], identity(S, by_index['element']))


def chars(S, n, pre, post):
    position(S, S.const(pre) + S.text('text', n) + S.const(post))


def shape(S, t):
    position(S, doc(S, t, marks=M))


def outside(S, n, reach):
    """positions before the beginning and behind the end"""
    text = S.text('text', n)
    d = prepared(S, text)
    if d is None:
        return
    i = S.int('position', -reach, n + reach)
    x, err = S.call(S.lib.lookup, text, index=i)
    inside = 0 <= i and i <= n
    if inside:
        S.check(err is None, 'lookup of an index inside the document raised %r' % (err,))
    else:
        S.check(err is not None and isinstance(err, IndexError), 'lookup of an index outside of the document was accepted')
        S.reach('outside')
    x, err = S.call(S.lib.lookup, text, line=i, column=0)
    if 0 <= i and i < len(text.split('\n')):
        S.check(err is None, 'lookup of a line inside the document raised %r' % (err,))
    else:
        S.check(err is not None and isinstance(err, IndexError), 'lookup of a line outside of the document was accepted')


SHAPES = ['κ: ν\n\n> ν\n|ν\n\nκ:\n- χ\n\n|χ\n\n- χ\n\n', '# κ\n\n## κ\n\nκ:ν\n\n# κ\n\nν:ν', '> χ\n\n> χ\nκ:\n> χ\n- χ\n> χ\n|χ\n> χ\n- χ\n> χ\n', '-- a\nν\n\n-- a\n\n--b\n--b\n', 'a:\nκ = ν\n\n\\χ\n>χ\nκ = χ\n>χ\n|χ\n\n>χ',
          'a:\n- χ\nb < a\n\n- χ\n|x\nc < b\n\n', '-- a\nx\n-- a\nb < a\n\nc < b\n> x\nd: x', '# a\nx: y\n\n# b < a\n\n# c << b\nz: χ\n\n', 'βχοχ\nβχοχ\nβχοχ', 'a:\nβοχ\nη\nβοχ', '#κ\nη\nλοχ\nη\nλοχ', 'κ:\n|χ\n\n\\\n\n>\n\n|χ\n\nη\nb:', '`κ`:\n``κ`` = ν\n# `κ`\n`κ`<`κ`\n',
          'a:\n\n\n- x\n\n\n|x\n\n\n- x\n\n\n|x\n\n\n# b\n\n\n', 'a:\n\n\nk=x\n\n\n|x\n\n\nl=x\n\n\n|x\n\n\n', '\n\n# a\n## b\n### c\n#### d\n\n\n# e\n\n\n', 'a:\nb < a\n- x\n\n- y\nc < b\n- z\n|\n\n', 'a: x\n|y\n\n|z\nb < a\n\n\nc < b']
PADDED = [padded(t, ' ', ' ') for t in SHAPES if sum(c in M for c in t) < 3] + ['  # κ  \n  b:  \n > c \n  - x  \n  | χ \n\n  - y \n --  c  \n d \n --  c  \n', '> c \n  κ:  \n  a = x  \n\n  \\ χ \n > d \n  b =  \n  | \n']


def rows(S, text):
    """the beginning and the end of any line"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    lines = text.split('\n')
    line = S.index(S.int('line', 0, len(lines) - 1))
    at = sum(len(r) + 1 for r in lines[:line])
    for column in (0, len(lines[line])):
        for got in (S.lib.lookup(text, line=line, column=column), S.lib.lookup(text, index=at + column)):
            matched(S, d, line, column, got)
            S.reach(owner(d, line).kind)


HARNESSES = {
    'outside': dict(fn=outside, bounds='every text of up to 4 characters, every position from 6 before to 6 behind it', units=lambda tier: [dict(n=n, reach=6) for n in range(0, 5)]),
    'shape': dict(fn=shape, bounds=dict(quick='%d layouts of up to 25 lines, some also with white space around every line, every position' % len(SHAPES), thorough='%d layouts of up to 25 lines, as they are and with white space around every line, every position' % len(SHAPES)),
                  units=units([dict(t=t) for t in SHAPES + PADDED], [dict(t=t) for t in SHAPES + [padded(t, ' ', ' ') for t in SHAPES]])),
    'words': words(rows),
    'sequence': sequence(rows),
    'extreme': large.entry(rows, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED[:1]),
    'large': large.entry(rows, large.GOOD + large.MANY, 'with the beginning and the end of every line', quick=large.GOOD + large.MANY[:4]),
    'places': large.entry(position, large.GOOD + large.MANY, 'with every position', quick=[large.GOOD[3], large.GOOD[5]]),
    'chars': dict(fn=chars, bounds=dict(quick='every text of up to 6 characters, every position', thorough='every text of up to 7 characters, every position'),
                  units=units([dict(n=n, pre='', post='') for n in range(0, 7)] + [dict(n=3, pre=p, post=q) for p, q in (('a:\n- x\n', '\n- y'), ('a: x\n', '\n| y'), ('# a\n', '\n# b'), ('a:\nk = x', '\n| y\n'))],
                              [dict(n=n, pre='', post='') for n in range(0, 8)] + [dict(n=4, pre=p, post=q) for p, q in (('a:\n- x\n', '\n- y'), ('a: x\n', '\n| y'), ('# a\n', '\n# b'), ('a:\nk = x', '\n| y\n'))])),
}
