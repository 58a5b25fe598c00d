"""Value composition: the value of a field, item or entry over its continuation lines."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'item', 'entry'}
M = {'ω': '|\\', 'π': '|\\> ', 'χ': 'xy ', 'ν': LINE, 'ι': INK}
HEADS = ['a:', 'a:\n- ', 'a:\nk =', '# s\na: ', 'a:\n- x\n- ', '`a` :', 'b: c\na: ', 'a:\nk = x\n|y\nl =']


def conts(S, n, head, first, line, post):
    """n continuation lines with solver-chosen operators and values"""
    same_tree(S, doc(S, head + first + ('\n' + line) * n + post, marks=M))


def value(S, n, head, post):
    """an arbitrary single-line value"""
    v = S.text('value', n, LINE)
    same_tree(S, S.const(head) + v + S.const(post))


def cont_value(S, n, head, post):
    v = S.text('value', n, LINE)
    same_tree(S, S.const(head) + v + S.const(post))


POST = ['', '\n', '\n\nz: y\n', '\n> c\nz: y']
HARNESSES = {
    'conts': dict(fn=conts, bounds=dict(quick='up to 5 continuation lines (2 with arbitrary values) of either kind, blank and commented ones included, behind 8 heads',
                                        thorough='up to 6 continuation lines behind 8 heads'),
                  units=units([dict(n=n, head=h, first=f, line='ωχ', post='') for h in HEADS for n in (2, 3, 4) for f in ('χ',)] +
                              [dict(n=3, head=h, first='χ', line='πχ', post=p) for h, p in zip(HEADS[:4], POST)] +
                              [dict(n=2, head=h, first='ν', line='ωνν', post='') for h in HEADS[:4]] +
                              [dict(n=5, head=h, first='χ', line='ωχ', post='') for h in HEADS[:3]],
                              [dict(n=n, head=h, first=f, line='ωχ', post='\n') for h in HEADS for n in (2, 3, 4, 5, 6) for f in ('χ', 'νν')] +
                              [dict(n=n, head=h, first='χ', line='πχ', post=p) for h in HEADS for p in POST for n in (3, 4)] +
                              [dict(n=n, head=h, first='νν', line='ωνν', post='') for h in HEADS for n in (2, 3)])),
    'value': dict(fn=value, bounds=dict(quick='every value text of up to 8 characters behind 8 heads', thorough='every value text of up to 11 characters behind 8 heads'),
                  units=units([dict(n=n, head=h, post=p) for h, p in zip(HEADS, POST * 2) for n in (1, 3, 6, 8)],
                              [dict(n=n, head=h, post=p) for h, p in zip(HEADS, POST * 2) for n in range(0, 12)])),
    'cont_value': dict(fn=cont_value, bounds=dict(quick='every continuation text of up to 7 characters behind 8 heads', thorough='every continuation text of up to 10 characters'),
                       units=units([dict(n=n, head=h + 'x\n' + o, post=p) for h, p in zip(HEADS, POST * 2) for o in '|\\' for n in (1, 3, 5, 7)],
                                   [dict(n=n, head=h + 'x\n' + o, post=p) for h, p in zip(HEADS, POST * 2) for o in '|\\' for n in range(0, 11)])),
    'alphabet': alphabets([('x|\\\n ', 7, 'a:'), ('x|\n', 9, 'a:\n-'), ('x \\\n', 8, 'a:\nk=')],
                         [('x|\\\n ', 10, 'a:'), ('x|\\\n ', 9, 'a:\n-'), ('x|\\>\n ', 9, 'a:\nk='), ('x|\\>\n ', 9, '# s\na:')]),
    'words': words(same_tree),
    'extreme': large.entry(same_tree, large.EXTREME['continued'], 'beyond all limits'),
    'large': large.entry(same_tree, large.CONTINUED),
}
