"""Copied sections: what a section copied with < or << contains, at every depth."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'list', 'fieldset', 'section', 'empty', 'extended', 'merged'}
ASSUMPTIONS = ['a section with its own template that an enclosing deep copy would also merge, and a template that lies '
               'inside a section which is itself extended, are outside the claim']
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'φ': 'pq', 'ο': ':=', 'δ': '< ', 'Ε': '< '}


def outside(S, doc):
    """two sources for one section, or a source inside an extended section"""
    nodes = [n for n in eno.walk(doc) if n.kind == 'section']

    def inside_copy(n):
        p = n.parent
        while p.kind == 'section':
            if p.template is not None:
                return True
            p = p.parent
        return False

    for n in nodes:
        if n.template is not None and (inside_copy(n) or inside_copy(n.source)):
            return True
    return False


def shape(S, t):
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if not bad and outside(S, d):
        S.reach('outside')
        document, err = parse(S, text)
        if err is not None and is_parse_error(S, err):
            S.check(err.text.endswith('is copied into itself.'), 'a valid document was rejected: %s' % err.text)
            return
        S.check(err is None, 'parsing raised %r' % (err,))
        S.check(S.eq(observe.raw(document.raw()['elements']), observe.elements(document)), 'raw() and the elements of a section differ')
        return
    document, outs = same_tree(S, text)
    if document is None:
        return
    S.check(S.eq(observe.raw(document.raw()['elements']), eno.plain(outs)), 'raw() of a document with copied sections differs from its elements')
    seen(S, d, '<<' in t)


def seen(S, d, deep):
    for n in eno.walk(d):
        if n.kind == 'section' and n.template is not None and n.kids:
            S.reach('merged' if n.deep else 'extended')


SHAPES = [
    # shallow
    '# a\np: ν\nq:\n- x\n# b < a\n# c < b', '# a\np: x\nq: y\n# b < a\nφ: ν\n# c < b\nφ: z\n# d < c', '# a\np: x\np: y\nq: z\n# b < a\nφ: 1\nφ: 2', '> χ\n# a\n> χ\np: x\n> χ\n# b < a\n> χ\nq: y\n>χ\n# c < b',
    '# a\n# b < a\np: x', '# b < a\nφ: x\n# a\nφ: y\n> χ\nr: z', '# a\n## s\np: x\n## t\nq: y\n# b < a\n## φ\nr: z', '# a\np: x\n## s\nφ: y\n# b < a\n## s\nφ: z\n# c << a\n## s\nφ: z\n',
    # deep
    '# a\n## s\np: x\nq: y\n# b << a\n## s\nφ: ν', '# a\n## s\n### t\np: x\n### u\nq: y\n# b << a\n## s\n### κ\nφ: z', '# a\n## s\n### t\np: x\nφ: k\n#### w\nr: 1\n# b << a\n## s\n### t\nφ: z\n#### w\ns: 2\n',
    '# a\n## s\np: x\n## s\nq: y\n# b << a\n## s\nφ: z', '# a\n## s\np: x\n# b << a\n## s\nφ: y\n## s\nφ: z', '# a\ns: x\n# b << a\n## s\nφ: y', '# a\n## s\nφ: y\n# b << a\ns: x', '# a\n## s\np:\n- x\n# b << a\n## s\np:\n- y\n# c << b\n## s\nφ: z',
    '# a\n## s\np: x\n# b < a\n# c << b\n## s\nφ: y', '# a\n## s\np: x\n# b << a\n## t\nq: y\n# c << b\n## s\nφ: y\n## t\nφ: w', '# a\n## s\np: x\n# b << a\n## s\nq: y\n# c << b\n## s\nφ: y\nr: z', '> χ\n# a\n> χ\n## s\np: x\n>χ\n# b << a\n>χ\n## s\nφ: y\n# c << b\n## s\nq: z',
    '# a\n## s\n### t\np: x\n# b < a\n# c << b\n## s\n### t\nφ: y', '# a\n## s\np: x\n# b < a\nr: y\n# c << b\n## s\nφ: y', '# c << b\n## s\nφ: y\n# b << a\n## s\nφ: z\n# a\n## s\nφ: w\nr: k',
    # solver-chosen templates and operators
    '# Κ\np: x\n# Κ δ Κ\nφ: y\n# Κ δ Κ\nφ: z', '# Κ <δ Κ\n## s\np: x\n# Κ <δ Κ\n## s\nφ: y\n# Κ\n## s\nφ: z', '# κ\n## κ\np: x\n# c << κ\n## κ\nφ: y', '# κ\n## κ\np: x\n# c < κ\n## κ\nφ: y',
    # inside sections, mixed with element copies
    '# e\n## a\np: x\n## b < a\nφ: y\n# f\n## c < b\nφ: z', '# e\n## a\n### s\np: x\n## b << a\n### s\nφ: y\n# f\n## c << b\n### s\nq: z', '# a\np: x\nq < p\n# b < a\nφ: ν\nr < p', '# a\np:\n- x\nq < p\n- y\n# b < a\nr < q\n- z',
    '# a\np:\nφ = 1\nq < p\nφ = 2\n# b << a\nr < q\nφ = 3', '# a\n-- p\nνν\n-- p\nq < p\n# b < a\nc: d\n# c < b', '# a\np\n', '# a\n# b < a\n# c << b\n## s\np: x', '# `a b`\np: x\n# `c` < a b\nφ: y\n# d << c\nφ: z',
    'e:\n' * 10 + '# a\n## s\np: ν\n# b << a\n## s\nφ: y\n> χ\n# c << b\n', '# a\n## s\np: x\n## t < s\nφ: y\n# b\n## u << t\nφ: z', '# s\n## s\np: x\n# t << s\n## s\nφ: y', '# a\n## p\nq: 1\n### r\ns: 2\n# b < a\nt: 3\n# c << b\n## p\n### r\nu: 4\n',
    '# a\n## s\np: x\n# b\n## s\nq: y\n# c << a\n## s ΕΕ b\nφ: 1', '# a\n## Κ\np: x\n# b <δ a\n## Κ\nq: y\n# c <δ Κ\n## Κ\nφ: 1', '# Κ\n## Κ <δ Κ\np: 1\n## Κ\nφ: 2\n# Κ <δ Κ\n## Κ\nφ: 3',
    '# a\n## b\n### c\n#### d\n##### e\np: 1\n# f << a\n## b\n### c\n#### d\n##### e\nφ: 2', '# a\n## b\nx: 1\n## c\ny: 2\n## d\nz: 3\n# e << a\n## c\nφ: 4\n## b\nφ: 5', '# a\nx: 1\n## b\ny: 2\n# c < a\n## b\nz: 3\nx: 4',
    # copies that are resolved before the copies inside of their templates
    '# b << a\n## c\n### x\nφ: 1\n# a\n## c < d\n# d\n## x\nφ: 2\nr: 3', '# b << a\n## c\n### x\nφ: 1\n# a\n## c Ε d\n## e Ε d\n> χ\n# d\n## x\nφ: 2', '# b << a\n## c\nφ: 1\n# a\n## c < d\n> χ\n# d\np: 2\n# e << b\n## c\nφ: 3', '# b < a\nr: 1\n# a\n## c\n### e < f\nφ: 1\n# f < g\np: 2\n# g\nφ: 3',
    '# b << a\n## c\n### e\n#### x\nφ: 1\n# a\n## c\n### e < d\n# d\n## x\nφ: 2\nr: 3', '# e << b\n## c\n### x\nφ: 0\n# b << a\n## c\nr: 1\n# a\n## c < d\n# d\n## x\nφ: 2',
    # templates and keys of any visible characters
    '# ι\np: x\n# b < ι', '# ιι\np: x\n# b << ιι', '# `ι`\np: x\n# b < ι\nq: y', '# a\nι: x\n# b < a\nι: y', '# a\n## ι\np: x\n# b << a\n## ι\nq: y', '# a\n## `ι`\np: x\n# b << a\n## ι\nq: y', '# ι < ι\n# ι\nx: y', '# aι\nx: 1\n# aι\nx: 2\n# b < aι', '# a\n-- ι\nx\n-- ι\n# b < a\nι: y',
]


def order(S, n, deep):
    """n sections; each is the original or a copy of any other"""
    names = 'abcd'[:n]
    t = ''
    for k in names:
        t += '# %s ωτ\n' % k if not deep else '# %s ωωτ\n## s\n%s: 1\n' % (k, k)
        t += 'φ: %s\n%s: %s\n' % (k, k, k)
    shape2(S, t, {'ω': ' <', 'τ': names + ' ', 'φ': 'pq'})


def shape2(S, t, marks):
    text = doc(S, t, marks=marks)
    d, outs, bad = reference(S, text)
    if not bad and outside(S, d):
        document, err = parse(S, text)
        if err is not None and is_parse_error(S, err):
            S.check(err.text.endswith('is copied into itself.'), 'a valid document was rejected: %s' % err.text)
            return
        S.check(err is None, 'parsing raised %r' % (err,))
        S.check(S.eq(observe.raw(document.raw()['elements']), observe.elements(document)), 'raw() and the elements of a section differ')
        return
    document, outs = same_tree(S, text)
    if document is not None:
        S.check(S.eq(observe.raw(document.raw()['elements']), eno.plain(outs)), 'raw() of a document with copied sections differs from its elements')


HARNESSES = {
    'shape': dict(fn=shape, bounds='%d layouts of copied sections with solver-chosen keys, templates, operators, values and comments' % len(SHAPES), units=lambda tier: [dict(t=t) for t in SHAPES]),
    'order': dict(fn=order, bounds=dict(quick='3 sections, each the original or a shallow or deep copy of any other', thorough='4 sections'),
                  units=units([dict(n=n, deep=d) for n in (2, 3) for d in (0, 1)], [dict(n=n, deep=d) for n in (2, 3, 4) for d in (0, 1)])),
    'alphabet': alphabets([('ab#<\n ', 7, '# c\nx: 1\n', '\ny: 2'), ('#ab:\n', 7, '# a\nb: 1\n## b\na: 2\n# c << a\n')], [('ab#<\n ', 9, '# c\nx: 1\n', '\ny: 2'), ('#ab:\n ', 9, '# a\nb: 1\n## b\na: 2\n# c << a\n'), ('#ab:\n ', 9, '# a\nb: 1\n## b\na: 2\n# c < a\n')]),
    'words': words(same_tree),
    'sequence': sequence(same_tree, pre=('# a\nb: x\n# c << a\n', '# a\n## κ\n# c << a\n## κ\n')),
    'extreme': large.entry(same_tree, large.EXTREME['section copies'], 'beyond all limits'),
    'large': large.entry(same_tree, large.SECTION_COPIES),
}
