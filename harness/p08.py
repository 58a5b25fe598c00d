"""Comments: which element a comment belongs to, and its text with the shared indentation removed."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'section', 'list', 'fieldset', 'empty'}
M = {'χ': 'x ', 'ω': ' >', 'β': 'x >', 'ν': LINE, 'σ': SPACE, 'η': ' \tx'}
TARGETS = ['a: v', '# a\nk: v', 'a:', '-- a\nx\n-- a', 't: v\na < t', '# t\n# a < t']


def indents(S, n, line, post, pre):
    """n comment lines with solver-chosen indentation"""
    same_tree(S, doc(S, pre + (line + '\n') * n + post, marks=M))


def text(S, n, post, pre):
    """arbitrary text after the comment operator"""
    same_tree(S, S.const(pre + '>') + S.text('comment', n, LINE) + S.const('\n' + post))


def shape(S, t):
    same_tree(S, doc(S, t, marks=M))


SHAPES = ['> χ\n\n> χ\na: v', '> χ\nβ χ\n> χ\na: v', 'a:\n> χ\nβ χ\n- ν\n> χ\n\n-ν', 'a:\n> χ\n>χχ\nk = ν\n> χ\n| ν\n>χ\nl = ν', 'a: v\n> χ\n| ν\n> χ\nb: ν',
          'a: v\n> ν', 'a: v\n> ν\n\n', '>χ\n> χ\n> χ\n', '> χ\n# a\n> χ\n## b\n> χ\nc: ν\n>χ\n# d', '> ν\na: x\nb < a\n> ν\nc < a', '> ν\n# a\nk: v\n# b < a\n> ν\n# c << a',
          'a:\n> ν\n- x\nb < a\n> ν\nc < b', '-- a\n> ν\n-- a\n> ν\n-- b\n> ν\n-- b', '> χ\n>>χ\n>  > χ\n   >χ\na: v', '>\n>\n>\na: v', '>\n> χ\n>\na: v', '>χ\n>  ν\n>\n>\n>   χ\n>\na: v',
          'z:\n' * 10 + '> χ\n>χχ\n>  χ\na: v\n>χ', '> ν\n\n\n> χ\n# a\n\n> χ\n\nb: c', '>σχ\n>σσχ\n> σx\na: v', 'a:\n- x\n> χ\n> χ\nb:\n> χ\n- y', '>χ\n`a`: v\n>χ\n# `b`\n>χ\nk:\n>χ\n`c` = x']

HARNESSES = {
    'indents': dict(fn=indents, bounds=dict(quick='up to 4 comment lines with 0 to 3 characters of indentation on either side of the operator, 6 kinds of element',
                                            thorough='up to 5 comment lines'),
                    units=units([dict(n=n, line='ω>χχx', post=p, pre='') for n in (1, 2) for p in TARGETS] + [dict(n=n, line='>χχχ', post=p, pre='') for n in (2, 3) for p in TARGETS] +
                                [dict(n=2, line='>χχ', post=p, pre='a:\n') for p in ('- x', 'k = x', '-\n- x')] + [dict(n=4, line='>χχ', post='a: v', pre='')] + [dict(n=3, line='ω>χx', post='a: v', pre='b: c\n')],
                                [dict(n=n, line=l, post=p, pre=q) for n in (1, 2, 3, 4) for l in ('ω>χχx', '>χχχ') for p in TARGETS for q in ('', 'b: c\n')] +
                                [dict(n=n, line='>χχ', post=p, pre='a:\n') for n in (3, 4) for p in ('- x', 'k = x', '-\n- x')] + [dict(n=5, line='>χχ', post='a: v', pre='')])),
    'text': dict(fn=text, bounds=dict(quick='every comment text of up to 7 characters', thorough='every comment text of up to 9 characters'),
                 units=units([dict(n=n, post=p, pre='') for n in (1, 3, 5, 7) for p in TARGETS] + [dict(n=5, post='> xx\na: v', pre='>  y\n')],
                             [dict(n=n, post=p, pre='') for n in range(0, 10) for p in TARGETS] + [dict(n=8, post='> xx\na: v', pre='>  y\n')])),
    'shape': dict(fn=shape, bounds='%d layouts of comments between every kind of line' % len(SHAPES), units=lambda tier: [dict(t=t) for t in SHAPES]),
    'next': dict(fn=blocks, bounds=dict(quick='a comment, any of %d kinds of line, and any of them after it, with and without a comment between them' % len(LINES), thorough='a comment, any of %d kinds of line, and any two of them after it, with and without comments between them' % len(LINES)),
                 units=units([dict(first='> x\n' + l, n=1, sep=c) for l in LINES for c in ('', '> y\n')], [dict(first='> x\n' + l, n=2, sep=c) for l in LINES for c in ('', '> y\n')])),
    'alphabet': alphabets([('>\n a:', 6, '>'), ('>\n ab', 7, '', '\na:'), ('>-\nx', 7, 'a:\n')], [('>\n a:', 9, '>'), ('>\n ab', 10, '', '\na:'), ('>-\nx ', 9, 'a:\n'), ('>=\nx ', 9, 'a:\n')]),
    'words': words(same_tree),
    'extreme': large.entry(same_tree, large.EXTREME['commented'], 'beyond all limits'),
    'large': large.entry(same_tree, large.COMMENTED),
}
