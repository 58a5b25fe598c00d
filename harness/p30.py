"""raw(): the whole document as plain data, the same as what the accessors say."""
from harness import large
from harness import large
from harness.queries import *

REQUIRED = {'document', 'empty', 'field', 'list', 'fieldset', 'section', 'item', 'entry', 'comment', 'copy', 'lookup'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|> a', 'δ': '# ', 'η': '-='}
TYPE = {'empty': 'empty_element', 'field': 'field', 'list': 'list', 'fieldset': 'fieldset', 'section': 'section', 'item': 'list_item', 'entry': 'fieldset_entry'}
KIDS = {'list': 'items', 'fieldset': 'entries', 'section': 'elements'}
FIELDS = {'empty': {'key'}, 'field': {'key', 'value'}, 'item': {'value'}, 'entry': {'key', 'value'}, 'list': {'key', 'items'}, 'fieldset': {'key', 'entries'}, 'section': {'key', 'elements'}}


def same(S, r, o):
    """r is the raw form of o"""
    S.check(isinstance(r, dict) and r.get('type') == TYPE[o.kind], 'raw() names another type: %r instead of %s' % (r.get('type'), TYPE[o.kind]))
    S.check(set(r) - {'type', 'comment'} == FIELDS[o.kind], 'raw() of a %s has other parts: %s' % (o.kind, sorted(r)))
    S.check(S.eq(r.get('comment'), o.comment()), 'raw() has another comment')
    if o.comments is not None:
        S.reach('comment')
    else:
        S.check('comment' not in r, 'raw() has a comment where there is none')
    if 'key' in r:
        S.check(S.eq(r['key'], o.key), 'raw() has another key')
    if 'value' in r:
        S.check(S.eq(r['value'], o.value), 'raw() has another value')
    if o.kind in KIDS:
        kids = r[KIDS[o.kind]]
        S.check(len(kids) == len(o.kids), 'raw() has more or fewer parts')
        for a, b in zip(kids, o.kids):
            same(S, a, b)
    S.reach(o.kind)


def document_raw(S, r, outs):
    S.check(isinstance(r, dict) and set(r) == {'type', 'elements'} and r['type'] == 'document' and len(r['elements']) == len(outs), 'raw() of the document is wrong')
    for a, b in zip(r['elements'], outs):
        same(S, a, b)
    S.reach('document')


def every(S, section, outs):
    for e, o in zip(section.elements(), outs):
        same(S, e.raw(), o)
        x = getattr(e, 'to_' + o.kind)()
        same(S, x.raw(), o)
        if o.kind == 'section':
            every(S, x, o.kids)
        elif o.kind in ('list', 'fieldset'):
            for i, p in zip(x.items() if o.kind == 'list' else x.entries(), o.kids):
                same(S, i.raw(), p)


def tree(S, t, first):
    whole(S, doc(S, t, marks=M), first)


def whole(S, text, first):
    """first: what is asked for first, since results are kept"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    if first == 'document':
        document_raw(S, document.raw(), outs)
    elif first == 'tree':
        S.check(S.eq(observe.elements(document), eno.plain(outs)), 'the document reads differently')
    elif first == 'last':
        for e, o in reversed(list(zip(document.elements(), outs))):
            same(S, e.raw(), o)
    every(S, document, outs)
    document_raw(S, document.raw(), outs)
    S.check(S.eq(observe.elements(document), eno.plain(outs)), 'the document reads differently after raw()')
    if '<' in text:
        S.reach('copy')


def found(S, t):
    """raw() of what lookup() finds"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    todo, flat = list(outs), {}
    while todo:
        o = todo.pop()
        flat.setdefault(o.node.line, []).append(o)
        todo += o.kids or []
    line = S.index(S.int('line', 0, len(text.split('\n')) - 1))
    if line not in flat:
        return
    r = S.lib.lookup(text, line=line, column=0)['element'].raw()
    for o in flat[line]:
        if o.kind != 'section' or len(flat[line]) == 1:
            same(S, r, o)
            S.reach('lookup')


DOCS = ['> ν\nκ: χ\nω ν\nκ:\n\n>χ\n>ν\nb:', '>χ\nκ:\n> ν\n-χ\nω x\n-\n- ν', '> ν\n\nκ:\n>χ\nκ = ν\nb =χ\n', '> ν\n# κ\nb: χ\n##χ\n> ν\nc:\n', '-- κ\nν\n-- κ\n>χ\nb < κ', 'κ:\n- x\n>χ\nb < κ\n- χ\nc < b', '> ν\ng:\n> x\nκ = χ\nf < g\nΚ = y\nh < f', '>χ\n# a\nκ: x\n> y\n# b < a\nb: χ\n#c << b\n',
        '# a\n## κ\nx: y\n# b << a\n## κ\n> ν\nx: z\ny:\n# c < b', 'κ\nν', 'a:\nb < a\nλ=χ', '# a < b\nκ:x\n# b\nκ:y\nc:', 'κοχ\nκοχ', '#κ\nδb\nc:\nη x=y', 'a:\nb < a\n# c\nd < b\n']
HARNESSES = {
    'tree': dict(fn=tree, bounds='%d layouts with solver-chosen keys, operators and characters, four orders of asking' % len(DOCS), units=lambda tier: [dict(t=t, first=f) for t in DOCS for f in ('document', 'tree', 'last', 'every')]),
    'found': dict(fn=found, bounds='every line of %d layouts' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'any': dict(fn=tree, bounds=dict(quick='every text of up to 3 characters', thorough='every text of up to 5 characters'), units=units([dict(t='Ω' * n, first='document') for n in range(4)], [dict(t='Ω' * n, first='document') for n in range(6)])),
    'lines': dict(fn=tree, bounds=dict(quick='every text of 6 characters over a - : = > | x # and the line feed', thorough='every text of 8 characters over a - : = > | # and the line feed'), units=lambda tier: [dict(t='ψ' * (6 if tier == 'quick' else 8), first='document')]),
    'words': words(lambda S, text: whole(S, text, 'document')),
    'sequence': sequence(lambda S, text: whole(S, text, 'document')),
    'extreme': large.entry(lambda S, text: whole(S, text, 'document'), large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(lambda S, text: whole(S, text, 'document'), large.MANY + large.GOOD + large.SECTION_COPIES + large.COPIED),
}
M['ψ'] = 'a-:=>|#\n'
