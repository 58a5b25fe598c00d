"""Attachment: which element items, entries and continuations belong to, and when they are rejected."""
from harness import large
from harness.common import *

REQUIRED = {'list', 'fieldset', 'field', 'empty', 'section', 'item', 'entry', 'reject:missing_list_for_list_item',
            'reject:missing_fieldset_for_fieldset_entry', 'reject:missing_element_for_continuation'}

PRE = ['', 'a:\n', 'a: x\n', 'a:\n- x\n', 'a:\nk = x\n', '# s\n', '-- m\n-- m\n', 'a: x\nb < a\n', 'a: x\n-- m\n-- m\n', 'a:\n-- m\ny\n-- m\n', 'a:\n- x\n-- m\n-- m\n',
       'a:\nk = x\n-- m\n-- m\n', 'a: x\n# s\n', 'a:\n# s\n', 'a:\n- x\n# s\n', 'a:\nk = x\n# s\n', 'a:\n- x\nb < a\n', 'a:\nk = x\nb < a\n', '# s\na:\n# t < s\n', 'a:\n|\n', 'a:\n- x\n| y\n']
M = {'λ': 'a-|\\>#', 'μ': ':=<', 'ρ': 'a-|', 'τ': 'ab-|\\>', 'χ': 'x ', 'β': ' a-|\\>', 'ξ': 'a-|'}


def lines(S, n, line, pre, post):
    """n lines whose kind the solver chooses"""
    text = doc(S, pre + (line + '\n') * n + post, marks=M)
    same_tree(S, text)


def shape(S, t):
    same_tree(S, doc(S, t, marks=M))


SHAPES = ['τμχ\n' * 3, 'a:\nβμχ\nβμχ\nβμχ', '-- a\n-- a\nβμχ\nβμχ', 'a: x\nb < a\nβμχ\nβμχ', '# s\nβμχ\nβμχ\nβμχ', 'a:\n- x\n\nβμχ\n\nβμχ',
          'a:\n-\n|χν\nβμχ', 'a:\nk =\n\\χν\nβμχ', 'a:\n> c\n- ν\n> c\n- ν\nβμχ', '`a`:\n`κ` = ν\n|ν\nβμχ',
          'a:\n|\n-χ', 'a:\n\\\nκ=χ', 'a:\nκ=ν\nκ=ν\nκ=ν\nκ=ν\nκ=ν', 'a:\n-ν\n-ν\n-ν\n-ν\n-χ\n-ν\n-ν',
          'z:\n' * 10 + 'a:\n-ν\n|χ\n-ν\n\\χ\nβμχ']

HARNESSES = {
    'lines': dict(fn=lines, bounds=dict(quick='two lines of any kind with a symbolic value in %d contexts, three in six, four of element, item, entry and continuation in four' % len(PRE),
                                        thorough='two to four lines of any kind in %d contexts, five in two' % len(PRE)),
                  units=units([dict(n=2, line='λμχ', pre=p, post='') for p in PRE] +
                              [dict(n=3, line='λμχ', pre=p, post='') for p in ('', 'a:\n', 'a:\n- x\n', 'a:\nk = x\n', '-- m\n-- m\n', 'a: x\nb < a\n')] +
                              [dict(n=4, line='ξμχ', pre=p, post='') for p in ('', 'a:\n', '# s\n', 'a: x\n-- m\n-- m\n')],
                              [dict(n=n, line='λμχ', pre=p, post='') for n in (2, 3, 4) for p in PRE] +
                              [dict(n=5, line='λμχ', pre=p, post='') for p in ('', 'a:\n')])),
    'shape': dict(fn=shape, bounds='%d layouts with escaped keys, comments, blank lines and copies between the attached lines' % len(SHAPES),
                  units=lambda tier: [dict(t=t) for t in SHAPES]),
    'alphabet': alphabets([('a:-|\n', 9), ('a:=\\\n', 9)],
                         [('a:-|\n', 11), ('a:=\\\n', 11), ('a:=-|\n', 10), ('a:=-|>\n ', 8)]),
    'words': words(same_tree),
    'sequence': sequence(same_tree, pre=('κ: ν\n', 'κ:\n- x\n', 'κ:\nb = x\n', 'c < κ\n', '-- a\nx\n-- a\n', '# a\n')),
    'extreme': large.entry(same_tree, large.EXTREME['attached'], 'beyond all limits'),
    'large': large.entry(same_tree, large.ATTACHED),
}
