"""Expressiveness: everything the API can show can be written, and reads back the same."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'multiline', 'none', 'list', 'fieldset', 'section', 'empty', 'escaped', 'comment', 'comments', 'read'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# ', 'η': '-=', 'σ': SPACE, 'ι': INK, 'Ω': ANY, 'ψ': 'a-:=>|#\n`'}


def key(S, k, ticks=0):
    """a key between as many backticks as it needs"""
    n = 1 + ticks
    while '`' * n in k:
        n += 1
    S.reach('escaped')
    return '`' * n + ' ' + k + ' ' + '`' * n


def comment(S, c):
    if c is None:
        return S.const('')
    out = S.const('')
    rows = c.split('\n')
    for r in rows:
        out = out + ('> ' + r if len(r) else S.const('>')) + '\n'
    S.reach('comments' if len(rows) > 1 else 'comment')
    return out


def value(S, v):
    return S.const('') if v is None else ' ' + v


def plain(S, v):
    """can a value be written behind an operator?"""
    return len(v) > 0 and '\n' not in v and not v[0].isspace() and not v[-1].isspace()


def write(S, nodes, depth=0):
    """the notation of a tree"""
    out = S.const('')
    for kind, k, c, v in nodes:
        out = out + comment(S, c)
        if kind == 'field' and v is not None and plain(S, v):
            out = out + key(S, k) + ': ' + v + '\n'
            S.reach('field')
        elif kind == 'field':
            n = 2
            while v is not None and '-' * n in v:
                n += 1
            line = '-' * n + ' ' + k + '\n'
            out = out + line + (S.const('') if v is None else v + '\n') + line
            S.reach('none' if v is None else 'multiline')
        elif kind == 'section':
            out = out + '#' * (depth + 1) + ' ' + key(S, k) + '\n' + write(S, v, depth + 1)
            S.reach('section')
        else:
            out = out + key(S, k) + ':\n'
            S.reach(kind)
            for x in v or ():
                out = out + comment(S, x[2]) + (S.const('-') if kind == 'list' else key(S, x[1]) + ' =') + value(S, x[3]) + '\n'
    return out


def orderly(nodes):
    """what stands behind a section belongs to it: only sections can follow sections (copying can make other orders)"""
    kinds = [n[0] == 'section' for n in nodes]
    return kinds == sorted(kinds) and all(orderly(n[3]) for n in nodes if n[0] == 'section')


def back(S, tree):
    text = write(S, tree)
    d, err = parse(S, text)
    S.check(err is None, 'what was written is rejected: %r' % (err,))
    S.check(S.eq(observe.elements(d), tree), 'what was written reads differently')
    S.check(S.eq(observe.raw(d.raw()['elements']), tree), 'what was written reads differently in raw()')
    return text


def read(S, text):
    """a document is read, written and read again"""
    d, err = parse(S, text)
    if err is not None:
        return
    tree = observe.elements(d)
    if orderly(tree):
        back(S, tree)
        S.reach('read')


def shape(S, t):
    read(S, doc(S, t, marks=M))


def name(S, what, n):
    """any key: visible at both ends"""
    return S.text(what, n, [INK] + [LINE] * (n - 2) + [INK] * (n > 1))


def made(S, kind, n, m, deep):
    """an element with any key of n characters and any value of m characters, deep in sections"""
    k = name(S, 'key', n)
    if kind == 'field':
        node = ['field', k, None, S.text('value', m, ANY)]
    elif kind == 'none':
        node = ['field', k, None, None]
    elif kind == 'list':
        node = ['list', k, None, [['item', None, None, name(S, 'value', m)], ['item', None, None, None], ['item', None, None, name(S, 'value2', 2)]]]
    elif kind == 'fieldset':
        node = ['fieldset', k, None, [['entry', name(S, 'name', n), None, name(S, 'value', m)], ['entry', name(S, 'name2', 1), None, None]]]
    elif kind == 'comment':
        node = ['field', 'a', name(S, 'comment', n) + '\n' + ' ' * m + name(S, 'second', n), 'x']
    else:
        node = ['empty', k, None, None]
    tree = [node]
    for i in range(deep):
        tree = [['section', name(S, 'section%d' % i, 1), None, tree]]
    back(S, tree)


DOCS = ['κ: χ\nω ν\nκ:\n- x\n> ν\n-', '> χ\n>ν\nκ:\nκ = χ\nω\nb =', '# κ\nb: x\n## c\n# d < κ\nb: y\n', '-- κι\nν\n-- κι\nb < a', 'a:\n- χ\nb < a\n- χ\nc < b\n- x', 'a:\nκ = x\nb < a\nκ = y\nc < b\nκ = z', '# a\n> ν\nκ:\n# b < a\n# c << b\n', '# a\n## κ\nx: y\n# b << a\n## κ\nz: χ\n# c << b\n',
        '-- a\nνν\nν\n-- a', '-- a\n-ν\n--ν\n-- a', '`ιι`: ν\n``ιι``:\n', '> νν\n> ν\n\n>χ\n>χχν\n>\n> χχx\n# κ\n', '# ι\n## ιι\n### ν\nι: ν', 'a:\n> ν\n- ν\nω ν\n- ν', 'a:\n>χ\nι = ν\n`ι` = ν\n']
HARNESSES = {
    'read': dict(fn=shape, bounds=dict(quick='%d layouts, every text of up to 4 characters and every 7 characters over a - : = > | # ` and the line feed' % len(DOCS), thorough='every text of up to 6 characters, every 8 characters over these'),
                 units=lambda tier: [dict(t=t) for t in DOCS] + [dict(t='Ω' * n) for n in range(7 if tier == 'thorough' else 5)] + [dict(t='ψ' * (8 if tier == 'thorough' else 7))]),
    'made': dict(fn=made, bounds=dict(quick='every key of up to 3 characters with every value of up to 4 characters, up to 3 sections deep', thorough='every key of up to 4 characters with every value of up to 6 characters'),
                 units=lambda tier: [dict(kind=k, n=n, m=m, deep=d) for k in ('field', 'none', 'list', 'fieldset', 'empty', 'comment') for n, m, d in
                                     ((1, 1, 0), (2, 1, 1), (3, 1, 0), (1, 2, 2), (1, 3, 0), (1, 4, 0), (2, 3, 3)) + (((4, 1, 0), (1, 5, 0), (2, 4, 0), (1, 6, 0), (3, 3, 0)) if tier == 'thorough' else ()) if k != 'fieldset' or n * m < 6]),
    'words': words(read),
    'sequence': sequence(read),
    'extreme': large.entry(read, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(read, large.SECTIONS + large.ATTACHED + large.CONTINUED + large.MULTILINE + large.KEYS + large.COMMENTED + large.COPIED + large.SECTION_COPIES + large.MANY),
}
