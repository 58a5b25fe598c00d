"""Errors of copies: missing, ambiguous and cyclic templates are rejected, in any order; nothing else is."""
from harness import large
from harness.common import *

REQUIRED = {'accepted', 'reject:non_section_element_not_found', 'reject:section_not_found', 'reject:two_or_more_templates_found',
            'reject:cyclic_dependency', 'reject:missing_list_for_list_item', 'reject:missing_fieldset_for_fieldset_entry'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'φ': 'pq', 'ο': ':<', 'δ': '< ', 'σ': SPACE}


def resolved(S, text):
    d, outs, bad = reference(S, text)
    document, err = parse(S, text)
    if bad:
        check_error(S, text, err, bad)
        return
    if err is not None and is_parse_error(S, err) and deep(d):
        S.check(err.text.endswith('is copied into itself.'), 'a valid document was rejected: %s' % err.text)
        return
    S.check(err is None, 'a valid document was rejected: %r' % (err,))
    S.reach('accepted')
    S.note(observe.raw(document.raw()['elements']))


def deep(d):
    return any(n.kind == 'section' and n.deep for n in eno.walk(d))


def shape(S, t):
    resolved(S, doc(S, t, marks=M))


def elements(S, n, names):
    """n elements, each with a solver-chosen key, copied or not"""
    resolved(S, doc(S, 'κοτ\n' * n, marks={'κ': names, 'ο': ':<', 'τ': names}))


def sections(S, n, names):
    resolved(S, doc(S, '# κοτ\n' * n, marks={'κ': names, 'ο': ' <', 'τ': names + ' '}))


def nested(S, n, names):
    """n section lines with solver-chosen depth, key and template"""
    resolved(S, doc(S, '#δκοτ\n' * n, marks={'δ': '# ', 'κ': names, 'ο': ' <', 'τ': names + ' '}))


SHAPES = ['Κ < Κ\nΚ < Κ\nΚ < Κ', 'Κ: x\nΚ < Κ\nΚ < Κ', '# Κ < Κ\n# Κ < Κ\n# Κ', '# κ\n## κ < κ\n# κ << κ', '# κ < κ\n## κ\n### κ < κ', '# a\n## b\n### c < Κ\n# d < Κ', '# a\n## b\n### c\n# d < b\n## e < Κ',
          '# d < b\n# a\n## b\n### c < Κ', '-- a\nx\n-- a\nb < Κ', 'κ < κ\n# κ < κ\nκ: x', '# κ\nκ < κ\n# κ\nκ: x', 'a < b\n# a\nb < κ\n## b\nκ: x', 'a:\n- x\nb < κ\nφ = y', '# a\nx < y\n# b < c', '# b < c\nx < y', 'x < y\ny < x\n# b < c',
          '# b < b\nx < x', 'a: x\nb < a\n- y\n# c < d', '`a` < Κ\n``a b`` < κ\na b: x', 'a < a b\na b: x\nc < ab', '# a < a b\n# a b', '# `a` < Κ\n# Κ', 'aσσ<σσb\nb: x', 'z:\n' * 10 + 'a < κ\nb < κ', '> c\na < κ\n> c\nb < κ\n> c\nc: x',
          'a: x\nb: y\na: z\nc < κ', '# a\n# b\n## a\n# c < κ', '-- b\n-- b\na < b\nb: x', 'a < b\nc < b\nb < d\nd < κ', '# a < b\n# b < c\n# c < d\n# d < Κ', 'a < b\nb < c\nc < d\nd < Κ', 'a:\np = x\nb < a\nc < b\n- y\nd < c',
          'b:\n- x\na < b\np = 1\nc < d\nd:\nq = 2\ne < d\n- y', '# a\n## b << c\n# c\n## d << κ\n# e << κ']
HARNESSES = {
    'elements': dict(fn=elements, bounds=dict(quick='up to 4 elements with solver-chosen keys and templates', thorough='up to 5 elements'),
                     units=units([dict(n=n, names=x) for n in (1, 2, 3) for x in ('ab', 'abc')] + [dict(n=4, names='ab')],
                                 [dict(n=n, names=x) for n in (1, 2, 3, 4) for x in ('ab', 'abc', 'abcd')] + [dict(n=5, names='ab')])),
    'sections': dict(fn=sections, bounds=dict(quick='up to 4 sections with solver-chosen keys and templates', thorough='up to 5 sections'),
                     units=units([dict(n=n, names=x) for n in (1, 2, 3) for x in ('ab', 'abc')] + [dict(n=4, names='ab')],
                                 [dict(n=n, names=x) for n in (1, 2, 3, 4) for x in ('ab', 'abc', 'abcd')] + [dict(n=5, names='ab')])),
    'nested': dict(fn=nested, bounds=dict(quick='up to 3 nested sections with solver-chosen depth, key and template', thorough='up to 5 nested sections'),
                   units=units([dict(n=n, names=x) for n in (2, 3) for x in ('ab', 'abc')], [dict(n=n, names=x) for n in (2, 3, 4) for x in ('ab', 'abc')] + [dict(n=5, names='ab')])),
    'shape': dict(fn=shape, bounds='%d layouts of copies inside and across sections' % len(SHAPES), units=lambda tier: [dict(t=t) for t in SHAPES]),
    'words': words(resolved),
    'sequence': sequence(resolved, pre=('a < κ\n', '# c < κ\n')),
    'extreme': large.entry(resolved, large.EXTREME['cycles'] + large.EXTREME['copied'] + large.EXTREME['section copies'], 'beyond all limits'),
    'large': large.entry(resolved, large.CYCLES + large.COPIED + large.SECTION_COPIES),
}
