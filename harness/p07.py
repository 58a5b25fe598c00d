"""Keys: every key can be written escaped and is read back unchanged; escaping never leaks."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'section', 'fieldset', 'roundtrip', 'reject:unterminated_escaped_key'}

KINDS = ['{e}: v', '{e} : v', '# {e}', '#{e} \nk: v', 'p:\n{e} = v', 'p:\n {e}\t=v', '{e}:\n- x', '{e}:\n{e} = x', '{e} < ttttttt\n\nttttttt: v',
         '# {e} < ttttttt\n# ttttttt\nk: v', '{e}:', 'p:\n{e}=v\n{e} = w', '# a\n## {e}\n{e}: v', '# a\n##{e}<<ttttttt\nt: v\n# ttttttt\n{e}: x', '# ttttttt\nk: v\n#{e}<<ttttttt']


def _trimmed(S, k):
    S.assume(not k[0].isspace() and not k[-1].isspace())


def escaped(S, n, ticks, kind):
    """key of n arbitrary characters between backticks; longer runs of backticks inside are excluded"""
    k = S.text('key', n, LINE)
    _trimmed(S, k)
    tick = '`' * ticks
    S.assume(tick not in k)
    pad = S.const(' ')
    e = S.const(tick) + pad + k + pad + S.const(tick)
    text = S.const('')
    for i, part in enumerate(kind.split('{e}')):
        text = text + (e if i else S.const('')) + S.const(part)
    document, outs = same_tree(S, text)
    if document is None:
        return
    found = [0]
    keys(S, document, k, found)
    S.check(found[0] >= kind.count('{e}'), 'a key written in backticks was not read back unchanged')
    S.reach('roundtrip')


def keys(S, section, k, found):
    for e in section.elements():
        if S.eq(e.string_key(), k):
            found[0] += 1
            if not e.yields_section():
                S.check(any(x is e for x in section.elements(k)), 'the element cannot be looked up by its key')
        if e.yields_section():
            keys(S, e.to_section(), k, found)
        elif e.yields_fieldset() and not e.yields_field():
            f = e.to_fieldset()
            for x in f.entries():
                if S.eq(x.string_key(), k):
                    found[0] += 1
                    S.check(any(y is x for y in f.entries(k)), 'the entry cannot be looked up by its key')


def bare(S, n, kind):
    """a key without operator characters needs no escaping"""
    k = S.text('key', n, LINE)
    _trimmed(S, k)
    for c in k:
        S.assume(not S.isin(c, ':=<'))
    S.assume(not S.isin(k[0], '-#>|\\`'))
    text = S.const('')
    for i, part in enumerate(kind.split('{e}')):
        text = text + (k if i else S.const('')) + S.const(part)
    document, outs = same_tree(S, text)
    S.check(document is not None, 'a plain key was rejected')
    found = [0]
    keys(S, document, k, found)
    S.check(found[0] >= kind.count('{e}'), 'a plain key was not read back unchanged')
    S.reach('roundtrip')


def tail(S, n, head):
    """arbitrary text behind an opening backtick"""
    same_tree(S, S.const(head) + S.text('text', n, LINE))


HARNESSES = {
    'escaped': dict(fn=escaped, bounds=dict(quick='every key of up to 4 characters, 1 to 3 backticks, %d layouts' % len(KINDS),
                                            thorough='every key of up to 6 characters, 1 to 4 backticks, %d layouts' % len(KINDS)),
                    units=units([dict(n=n, ticks=t, kind=k) for k in KINDS for n, t in ((1, 1), (2, 2), (3, 1), (4, 3))],
                                [dict(n=n, ticks=t, kind=k) for k in KINDS for n in range(1, 7) for t in range(1, 5)])),
    'bare': dict(fn=bare, bounds=dict(quick='every unescaped key of up to 4 characters', thorough='every unescaped key of up to 6 characters'),
                 units=units([dict(n=n, kind=k) for k in KINDS for n in (1, 2, 4)],
                             [dict(n=n, kind=k) for k in KINDS for n in range(1, 7)])),
    'tail': dict(fn=tail, bounds=dict(quick='every text of up to 6 characters behind an opening backtick', thorough='every text of up to 9 characters behind one or two opening backticks'),
                 units=units([dict(n=n, head=h) for h in ('`', '``', '#`', 'a:\n`') for n in (2, 4, 6)],
                             [dict(n=n, head=h) for h in ('`', '``', '#`', 'a:\n`', '# a\n# `', '```') for n in range(1, 10)])),
    'alphabet': alphabets([('a`: ', 8), ('a`=<', 6, 'a:\n'), ('#`a <', 7)], [('a`: ', 10), ('a`=<', 9, 'a:\n'), ('#`a <', 9), ('a`:=< #', 8)]),
    'words': words(same_tree),
    'extreme': large.entry(same_tree, large.EXTREME['keys'], 'beyond all limits'),
    'large': large.entry(same_tree, large.KEYS, 'with long keys'),
}
