"""Section hierarchy: depth of the operator decides the parent; skipping a level is rejected."""
from harness import large
from harness.common import *

REQUIRED = {'section', 'field', 'reject:section_hierarchy_layer_skip'}


def levels(S, n, width, pad):
    """n section lines, each with 1..width # (the solver chooses), a field below every section"""
    t = pad + 'f: v\n' * bool(pad)
    for k in range(n):
        t += '#' + 'δ' * (width - 1) + 's%d\n' % k + ('f%d: ν\n' % k if k < n - 1 else '')
    text = doc(S, t, marks={'δ': '# '})
    nested(S, text)


def nested(S, text):
    document, outs = same_tree(S, text)
    if document is not None:
        owners(S, document)


def owners(S, section):
    """parent() of every element leads back to the section it was read from"""
    for e in section.elements():
        if e.yields_section():
            s = e.to_section()
            p = s.parent()
            S.check(p is not None and S.eq(p.string_key(), section.string_key()), 'parent() of a section is not its parent')
            owners(S, s)


def escaped(S, n):
    t = ''
    for k in range(n):
        t += '#δ`κ` \nκ: ν\n'
    same_tree(S, doc(S, t, marks={'δ': '# '}))


def mixed(S, t):
    same_tree(S, doc(S, t, marks={'δ': '# ', 'ε': '#a', 'σ': ' \t\u2003', 'ζ': '#k-:>|'}))


MIXED = ['δδκ\nδδκ\nδδκ\n', 'ε κ\nεε κ: ν\nεε κ:ν', '#κ\nk:\n- ν\n#δκ\n-χ', '# κ\n## κ\n### κ\n#### κ\n##### κ\nδδδδδδ κ\nk: ν',
         '# κ\n## κ\n### κ\nδδδδκ\nδδδδκ\nk: v', 'k:\n#δκ\n|ν', '>c\n#δκ\n>c\n\n#δκ\nκ:ν', '## κ', 'κ:ν\n#δκ', 'σ#σκ\nσ#δκ\nσ#δδκ',
         '# κ\n-- m\n## ν\n-- m\n#δδκ\nκ:ν', '# a\nζζζ κ\nζζζ κ: ν\nκ: ν', '#δδ κ < κ', '# κ\n#δδκ\nκ < κ\nκ: ν',
         '# a\n## b\n### c\n#### d\n#δδδδ e\nk: ν\n#δδδδ f\nk: ν']

HARNESSES = {
    'levels': dict(fn=levels, bounds=dict(quick='up to 5 sections with operators of 1 to 4 characters, at the top and after 10 lines',
                                          thorough='up to 6 sections with operators of 1 to 5 characters'),
                   units=units([dict(n=n, width=w, pad=p) for n, w, p in
                                [(2, 4, ''), (3, 4, ''), (4, 4, ''), (5, 3, ''), (5, 4, ''), (4, 4, 'e:\n' * 9)]],
                               [dict(n=n, width=w, pad=p) for n in range(1, 7) for w in (3, 4, 5) for p in ('', 'e:\n' * 9)])),
    'escaped': dict(fn=escaped, bounds='up to 4 sections with escaped keys',
                    units=lambda tier: [dict(n=n) for n in (2, 3, 4)]),
    'mixed': dict(fn=mixed, bounds='%d layouts mixing sections up to depth 6 with every other kind of line' % len(MIXED),
                  units=lambda tier: [dict(t=t) for t in MIXED]),
    'alphabet': alphabets([('# a:\n', 7), ('#a\n', 9)],
                         [('# a:\n', 10), ('#a\n', 12)]),
    'words': words(nested),
    'sequence': sequence(nested, plain=3),
    'extreme': large.entry(nested, large.EXTREME['sections'], 'beyond all limits'),
    'large': large.entry(nested, large.SECTIONS),
}
