"""parent(): from everything that was found one gets back to where it was found, up to the document."""
from harness import large
from harness.queries import *
from harness.lookups import owner

REQUIRED = {'field', 'empty', 'list', 'fieldset', 'section', 'item', 'entry', 'document', 'lookup', 'lookup:item', 'lookup:entry', 'lookup:section', 'chain', 'untouched', 'untouched:nested'}
M = {'κ': 'ab', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# '}


def down(S, section, outs):
    """everything below a section leads back to it"""
    for e, o in zip(section.elements(), outs):
        x = getattr(e, 'to_' + o.kind)()
        S.check(x.parent() is section, 'the parent of a %s is not the section it was found in' % o.kind)
        S.reach(o.kind)
        if o.kind == 'section':
            down(S, x, o.kids)
        elif o.kind in ('list', 'fieldset'):
            for i in x.items() if o.kind == 'list' else x.entries():
                S.check(i.parent() is x, 'the parent of an item or entry is not what it was found in')
                S.reach('item' if o.kind == 'list' else 'entry')


def tree(S, t):
    large_tree(S, doc(S, t, marks=M))


def large_tree(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    S.check(document.parent() is None, 'the document has a parent')
    S.reach('document')
    down(S, document, outs)


def queried(S, t):
    """the same through queries"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    todo = [(S.lib.parse(text), outs)]
    while todo:
        section, kids = todo.pop()
        for o in kids:
            if len(matching(S, kids, o.key)) > 1:
                continue
            x = getattr(section, o.kind)(o.key)
            S.check(x.parent() is section, 'the parent of a queried %s is another section' % o.kind)
            if o.kind == 'section':
                todo.append((x, o.kids))
            if o.kind == 'fieldset':
                for k in o.kids:
                    if len(matching(S, o.kids, k.key)) == 1:
                        S.check(x.entry(k.key).parent() is x, 'the parent of a queried entry is another fieldset')


def ancestors(S, t):
    """an element found by lookup() leads to the document through the sections around it"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    line = S.index(S.int('line', 0, len(text.split('\n')) - 1))
    node = owner(d, line)
    e = S.lib.lookup(text, line=line, column=0)['element']
    kind = e.raw()['type']
    if kind == 'document':
        return
    climb(S, text, d, node, getattr(e, 'to_' + {'empty_element': 'empty'}.get(kind, kind))())
    S.reach('lookup')


def climb(S, text, d, node, x):
    """x, which stands at node, leads to the document through everything around it in the text"""
    while True:
        up, err = S.call(x.parent)
        S.check(err is None, 'parent() failed: %r' % (err,))
        if node is d:
            S.check(up is None, 'the document has a parent')
            break
        S.reach('lookup:' + node.kind)
        node = node.parent
        S.check(up is not None and S.eq(up.string_key(), node.key), 'the parent is another one')
        where = positions(S, text, up.error('m').selection)
        S.check(where[:2] == (node.line, 0), 'the parent is at another place')
        want = {'document': 'Section', 'section': 'Section', 'list': 'List', 'fieldset': 'Fieldset'}[node.kind]
        S.check(type(up).__name__ == want, 'the parent is a %s instead of a %s' % (type(up).__name__, want))
        x = up
        S.reach('chain')


def untouched(S, t):
    """so does the one that assert_all_touched() hands to the function for the message"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad or '<' in text:
        return
    document = S.lib.parse(text)
    leaves = []

    def convert(section, outs):
        for e, o in zip(section.elements(), outs):
            x = getattr(e, 'to_' + o.kind)()
            if o.kind == 'section':
                convert(x, o.kids)
                if not o.kids:
                    leaves.append((x, o))
            elif o.kind in ('list', 'fieldset'):
                leaves.extend(zip(x.items() if o.kind == 'list' else x.entries(), o.kids))
            else:
                leaves.append((x, o))

    convert(document, outs)
    left = [(x, o) for x, o in leaves if o.kind != 'section']
    if not left:
        return
    at = S.index(S.int('left', 0, len(left) - 1))
    for n, (x, o) in enumerate(left):
        if n != at:
            x.touch()
    seen = []
    S.call(document.assert_all_touched, lambda e: seen.append(e) or 'm')
    S.check(len(seen) == 1, 'the function was not called once')
    node, e = left[at][1].node, seen[0]
    S.check(positions(S, text, e.error('m').selection)[:2] == (node.line, 0), 'another element is said to be untouched')
    kind = left[at][1].kind
    climb(S, text, d, node, getattr(e, 'to_' + {'item': 'list_item', 'entry': 'fieldset_entry'}.get(kind, kind))())
    S.reach('untouched' if node.parent is d else 'untouched:nested')


DOCS = ['κ: χ\n# κ\nb: x\n## c\nκ:\n', '#κ\nδa\n#χ\nl:\n- x\nλ y', 'f:\nκ = χ\nκ =\n# s\nf:\nκ=x', 'a: x\nb < a\nκ:\nc < κ', 'l:\n- χ\nm < l\n- x\nn < m\n', 'f:\nκ = x\ng < f\nb = y\nh < g', '# a\nx:\n- y\n## κ\nf:\na=b\n# b < a\n# c << a\n## κ\nq:', '-- κ\nν\n-- κ\nb < κ\n# c\nd < κ',
        '# a\n## b\n### c\n#### d\nδx:\nκ: y\n## e\nz:', 'κ\nν', 'κ:\nω χ\nλ x\n']
HARNESSES = {
    'tree': dict(fn=tree, bounds='%d layouts with solver-chosen keys and line kinds' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'queried': dict(fn=queried, bounds='%d layouts' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'ancestors': dict(fn=ancestors, bounds='every line of %d layouts' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'untouched': dict(fn=untouched, bounds='every item, entry, field and empty element of %d layouts left untouched' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS if '<' not in t]),
    'any': dict(fn=ancestors, bounds=dict(quick='every line of every text of 8 characters over a - # : x and the line feed that begins in one of five ways', thorough='10 characters'),
                units=lambda tier: [dict(t=p + 'ψ' * (4 if tier == 'quick' else 6)) for p in ('# a\n## b\n', 'a:\n- x\n', 'a:\nx = y\n', 'a: x\n#b\n', '#a\n##b\n###c\n#d\n')]),
    'words': words(large_tree),
    'sequence': sequence(large_tree),
    'extreme': large.entry(large_tree, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(large_tree, large.MANY + large.SECTION_COPIES + large.COPIED),
}
M['ψ'] = 'a-#:=\n|'
