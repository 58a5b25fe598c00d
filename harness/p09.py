"""Copied elements: what an element copied with < contains."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'list', 'fieldset', 'empty', 'reject:missing_list_for_list_item', 'reject:missing_fieldset_for_fieldset_entry'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'φ': 'pq', 'ο': ':='}


def shape(S, t):
    document, outs = same_tree(S, doc(S, t, marks=M))
    if document is None:
        return
    S.check(S.eq(observe.raw(document.raw()['elements']), eno.plain(outs)), 'raw() of a document with copies differs from its elements')


SHAPES = [
    # fields
    'a: ν\nb < a\nc < b\nd < c', 'a:\n|χ\n\\χ\n|χ\nb < a', '> χ\na: x\n> χ\nb < a\n>χ\nc < b', 'Κ < Κ\nΚ < Κ\nΚ: ν', 'Κ: ν\nΚ < Κ\nΚ < Κ\nΚ: y',
    '-- a\nνν\nν\n-- a\nb < a\nc < b', '-- a\n-- a\nb < a', 'a:\nb < a\nc < b\n', 'a:χ\nb < a\n\nc < b\n> χ\nd < c',
    # lists
    'a:\n- ν\n- χ\nb < a\n- ν\nc < b\n- ν\n|χ', 'a:\n- ν\nb < a\nc < b\n- y\nd < c\n-χ', 'a:\nb < a\n- ν', 'a:\n> χ\n- ν\n> χ\n-ν\nb < a\n> χ\n- ν', 'a < b\n- x\nb < c\n- y\nc:\n- z',
    'Κ:\n- x\nΚ < Κ\n- y\nΚ < Κ', 'a < b\n- x\n-y\n-z\n- w\nb:\n-χ\n- u\n-v\nc < a\n- ν',
    # fieldsets
    'a:\nφ=ν\nφ=y\nb < a\nφ=z\nc < b\nφ=w', 'a:\nφ=x\nφ=y\nb < a\nφ=z\nφ=w', 'a:\n> χ\nφ=x\nb < a\n> χ\nφ=y\nc < b', 'a < b\nφ=x\nb < c\nφ=y\nc:\nφ=z\np=u', 'a:\nb < a\nφ=ν\nc < b\nφ=x',
    'a:\np=x\nq=y\nr=z\nb < a\nφ=ν\n|χ\nc < b\nr=χ\nd < c', 'a:\n`φ φ`=x\nb < a\n`φ φ`=y', 'a:\np=1\nφ=2\nr=3\ns=4\nb<a\nr=5\nφ=6\nt=7\nc<b\nu=8\nφ=9',
    # kinds that do not fit
    'a: x\nb < a\n- y', 'a:\n- x\nb < a\np = y', 'a:\np = x\nb < a\n- y', '-- a\nx\n-- a\nb < a\nλοχ', 'aοχ\nb < a\nλοχ', 'a:\nλοχ\nb < a\nλοχ', 'a: x\nb < a\nc < b\nλοχ', 'a:\n-x\nb < a\n-y\nc < b\nλοχ',
    # across sections
    'a: ν\n# s\nb < a\n## t\nκ < b\nc < κ', '# s\na < b\n# t\nb:\n- ν\nc < a\n- x', '# s\nΚ < Κ\n# t\nΚ < Κ\n## u\nΚ: ν', '# s\na:\nφ=1\n# t\n> χ\nb < a\nφ=2\n# u\nb:\n',
    'e:\n' * 10 + 'a: ν\nb < a\n> χ\nc < b', '`a b`: ν\n`a κ` < a κ\nc < a b', 'a: x\na < a\nb < a', 'κ: x\nκ < κ', 'a: ν\na < a\n',
    # templates of any visible characters
    'ι: x\nb < ι', 'ιι: x\nb < ιι', '`ι`: x\nb < ι', '`ιι`: x\n`b` < ιι', '-- ι\nx\n-- ι\nb < ι', 'ι:\n- x\nb < ι\n- y', 'ι < ι\nι: x', 'aι: x\naι: y\nb < aι', 'ι: x\nι: y\nbb < ι', 'ι:\nq = x\n# s\nb < ι\nq = y',
    'κ:\n- x\nb < κ\nc < κ\n- y\nd < κ\n- z', 'κ:\np = x\nb < κ\nc < κ\np = y\nd < κ\nq = z',
]


def chain(S, n, kind):
    """n copies, each of a solver-chosen element, in any order"""
    t = ''
    for k in range(n):
        t += 'Κ%d < Κ%d\n%s' % (k, (k + 1) % n, {'list': '- χ\n', 'fieldset': 'φ = %d\n' % k, 'none': '', 'comment': ''}[kind])
        if kind == 'comment':
            t = t[:t.rstrip('\n').rfind('\n') + 1] + '>χ\n' + t[t.rstrip('\n').rfind('\n') + 1:]
    t += 'Κ%d:%s' % (n, {'list': '\n- y', 'fieldset': '\nφ = y\np = z', 'none': ' χ', 'comment': ' x'}[kind])
    shape(S, t.replace('0', ''))


def order(S, n, kind):
    """n elements; every one is a copy of a solver-chosen other one or the original"""
    names = 'abcd'[:n]
    t = ''
    for k in names:
        t += '%sωτ\n%s' % (k, {'list': '- %s\n' % k, 'fieldset': '%s = x\np = %s\n' % (k, k), 'none': ''}[kind])
    document, outs = same_tree(S, doc(S, t, marks={'ω': ':<', 'τ': names + ' ', 'χ': 'x '}))
    if document is not None:
        S.check(S.eq(observe.raw(document.raw()['elements']), eno.plain(outs)), 'raw() of a document with copies differs from its elements')


HARNESSES = {
    'shape': dict(fn=shape, bounds='%d layouts of copies, with solver-chosen keys, templates, values, comments and line kinds' % len(SHAPES), units=lambda tier: [dict(t=t) for t in SHAPES]),
    'order': dict(fn=order, bounds=dict(quick='4 elements, each the original or a copy of any other', thorough='5 elements, each the original or a copy of any other'),
                  units=units([dict(n=n, kind=k) for n in (2, 3, 4) for k in ('none', 'list', 'fieldset')], [dict(n=n, kind=k) for n in (2, 3, 4, 5) for k in ('none', 'list', 'fieldset')])),
    'chain': dict(fn=chain, bounds=dict(quick='chains of up to 3 copies', thorough='chains of up to 5 copies'),
                  units=units([dict(n=n, kind=k) for n in (2, 3) for k in ('none', 'list', 'fieldset', 'comment')], [dict(n=n, kind=k) for n in (2, 3, 4, 5) for k in ('none', 'list', 'fieldset', 'comment')])),
    'alphabet': alphabets([('ab<\n', 10, '', '\na:'), ('b<-=\n', 7, 'a:\n- x\nb<')], [('ab<\n', 12, '', '\na:'), ('ab:<\n', 11), ('b<-=\n', 9, 'a:\n- x\nb<'), ('b<-=\n', 9, 'a:\nb=x\nb<')]),
    'words': words(same_tree),
    'sequence': sequence(same_tree, pre=('κ:\n- x\n', 'κ:\nb = x\nc < κ\n', '-- κ\nν\n-- κ\n')),
    'extreme': large.entry(same_tree, large.EXTREME['copied'], 'beyond all limits'),
    'large': large.entry(same_tree, large.COPIED),
}
