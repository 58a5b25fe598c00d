"""Lookup: the token at a position."""
from harness import large
from harness.lookups import *

TOKENS = ('key', 'value', 'element_operator', 'entry_operator', 'item_operator', 'copy_operator', 'deep_copy_operator', 'template', 'section_operator', 'multiline_field_operator',
          'direct_line_continuation_operator', 'spaced_line_continuation_operator', 'escape_begin_operator', 'escape_end_operator', 'comment', 'comment_operator')
REQUIRED = {'token:' + t for t in TOKENS} | {'token:None'}
ASSUMPTIONS = ['the tokens of comments above an element are outside the claim']
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'σ': SPACE, 'ι': INK, 'λ': 'a-|\\>#', 'ο': ':=<', 'η': 'x>\n', 'δ': '< '}


def position(S, text, lo=0, hi=None):
    d, outs, bad = reference(S, text)
    if bad:
        return
    i = S.int('index', lo, len(text) if hi is None else hi)
    by_index = S.lib.lookup(text, index=i)
    at = 0
    for l, r in enumerate(text.split('\n')):
        if i <= at + len(r):
            line, column = l, S.index(i) - at
            break
        at += len(r) + 1
    by_line = S.lib.lookup(text, line=line, column=column)
    known, want = token(S, d, line, column)
    if known:
        S.check(by_index['range'] == want, 'lookup by index found token %s instead of %s' % (by_index['range'], want))
        S.check(by_line['range'] == want, 'lookup by line found token %s instead of %s' % (by_line['range'], want))
        S.reach('token:%s' % want)


def line(S, n, pre, post):
    """any position in one arbitrary line"""
    position(S, S.const(pre) + S.text('line', n, LINE) + S.const(post), len(pre), len(pre) + n)


def shape(S, t):
    position(S, doc(S, t, marks=M))


CONTEXT = [('', ''), ('a:\n', ''), ('a:\n- x\n', '\n'), ('a:\nk = x\n', '\n\n'), ('# a\n', '\nb: c'), ('a: x\n', '\n> c\n'), ('-- a\n', '\n-- a')]
SHAPES = ['σκσ:σισ', 'a:\nσκσ=σισ', 'a: x\nσκσ<σaσ', 'a:\nσ-σισ', 'σ##κ', '# a\nσ##σκσ', '# a\n#σκσ<σaσ', '# a\n#κσ<<σaσ\nb:x', 'σ`σκσ`σ:σι', 'a:\n``σκσ``=ι', '# a\n#σ`κ`σ<δa', 'a:\nσ|σισ', 'a:\n-x\nσ\\σισ', 'σ>σισ\n\n', '--σκσκσ\nιν\nσ--σκσκσ',
          '-- κ\n\nν\n--κ', 'σ--σκ\n--κ', 'κ: x\nκ < κ', '`κ`: x\n`κ` < κ', '> ν\n>ν\n\n> ν\nκ:\n> ν\n| ν', 'κ:ι\nλοχ', 'a:\nλοχ\nλοχ', 'a: ν\nb: ν\n|ν']
def rows(S, text):
    """the beginning and the end of any line"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    lines = text.split('\n')
    line = S.index(S.int('line', 0, len(lines) - 1))
    at = sum(len(r) + 1 for r in lines[:line])
    for column in (0, len(lines[line])):
        for got in (S.lib.lookup(text, line=line, column=column), S.lib.lookup(text, index=at + column)):
            known, want = token(S, d, line, column)
            S.check(not known or got['range'] == want, 'lookup found token %s instead of %s' % (got['range'], want))


HARNESSES = {
    'line': dict(fn=line, bounds=dict(quick='every position of every line of up to 6 characters, in 7 contexts', thorough='every position of every line of up to 8 characters, in 7 contexts'),
                 units=units([dict(n=n, pre=p, post=q) for n in (1, 3, 4, 5) for p, q in CONTEXT] + [dict(n=6, pre='', post='')], [dict(n=n, pre=p, post=q) for n in range(0, 9) for p, q in CONTEXT])),
    'shape': dict(fn=shape, bounds=dict(quick='%d layouts with symbolic white space, keys, values and operators, some also with white space around every line, every position' % len(SHAPES), thorough='%d layouts with symbolic white space, keys, values and operators, as they are and with white space around every line, every position' % len(SHAPES)),
                  units=units([dict(t=t) for t in SHAPES + [padded(t, ' ', ' ') for t in SHAPES[::3]]], [dict(t=f) for t in SHAPES for f in (t, padded(t, ' ', ' '))])),
    'words': words(rows),
    'sequence': sequence(rows),
    'extreme': large.entry(rows, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED[:1]),
    'large': large.entry(rows, large.GOOD + large.MANY, 'with the beginning and the end of every line', quick=large.GOOD + large.MANY[:4]),
    'places': large.entry(position, large.GOOD + large.MANY, 'with every position', quick=[large.GOOD[3], large.GOOD[5]]),
}
