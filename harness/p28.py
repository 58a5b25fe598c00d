"""yields_*() and to_*(): an element can be taken as what it is, and only as one thing."""
from harness.queries import *
from harness.lookups import identity, owner

REQUIRED = {'yields', 'refused', 'again', 'taken', 'lookup', 'item', 'entry', 'empty'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-| a', 'δ': '# '}
TO = ('empty', 'field', 'fieldset', 'list', 'section')
TYPES = {'empty': 'Empty', 'field': 'Field', 'fieldset': 'Fieldset', 'list': 'List', 'section': 'Section', 'fieldset_entry': 'FieldsetEntry', 'list_item': 'ListItem'}


def fits(o_kind, k):
    return o_kind in FITS[k] if k in FITS else {'list_item': 'item', 'fieldset_entry': 'entry'}[k] == o_kind


def conversions(S, e, kind, forms, steps):
    """a sequence of conversions chosen by the solver"""
    for f in forms:
        S.check(getattr(e, 'yields_' + f)() is fits(kind, f), 'yields_%s() is wrong' % f)
    S.reach('yields')
    taken = {}
    for s in steps:
        f = forms[ord(pick(S, s, [chr(97 + i) for i in range(len(forms))])) - 97]
        got, err = S.call(getattr(e, 'to_' + f))
        if f in taken:
            S.check(err is None and got is taken[f], 'an element converted again is another one')
            S.reach('again')
        elif taken and f in TO and f != 'section' and any(t in TO for t in taken):
            S.check(type(err) is TypeError or (not fits(kind, f) and is_validation_error(S, err)), 'an element is taken as two things, or the wrong error: %r' % (err,))
            S.reach('taken')
        elif not fits(kind, f):
            S.check(err is not None and is_validation_error(S, err) and S.eq(err.text, getattr(S.lib.mod('messages.en'), 'expected_' + f)), 'an element that is no %s is taken as one, or the wrong error: %r' % (f, err))
            S.reach('refused')
        else:
            S.check(err is None and type(got).__name__ == TYPES[f], 'an element cannot be taken as what it is: %r' % (err,))
            taken[f] = got
    for f in forms:
        S.check(getattr(e, 'yields_' + f)() is fits(kind, f), 'yields_%s() changed' % f)
    return taken


def flat(outs, e):
    """all elements of a section, with their Outs"""
    for x, o in zip(e.elements(), outs):
        yield x, o
        if o.kind == 'section':
            yield from flat(o.kids, x.to_section())


def elements(S, t, which, n):
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    todo = document.elements()
    S.assume(len(todo) > which)
    e, o = todo[which], outs[which]
    taken = conversions(S, e, o.kind, TO, S.text('steps', n, ''.join(chr(97 + i) for i in range(len(TO)))))
    for f, x in taken.items():
        S.check(S.eq(content(S, x, f), expected(o, f)), 'a converted element has other content')
        if f != 'empty' and o.kind == 'empty':
            S.reach('empty')


def deep(S, t):
    """every element at every depth says what it is"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    for e, o in flat(outs, S.lib.parse(text)):
        for f in TO:
            S.check(getattr(e, 'yields_' + f)() is fits(o.kind, f), 'yields_%s() is wrong' % f)
            if not fits(o.kind, f):
                S.check(is_validation_error(S, S.call(getattr(e, 'to_' + f))[1]), 'an element that is no %s is taken as one' % f)
        S.reach('yields')


def found(S, t, n):
    """elements found by lookup() can be taken as what they are, items and entries included"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    lines = text.split('\n')
    line = S.index(S.int('line', 0, len(lines) - 1))
    node = owner(d, line)
    e = S.lib.lookup(text, line=line, column=0)['element']
    if node is d:
        return
    if node.template is not None:
        return
    kind = {'multiline': 'field'}.get(node.kind, node.kind)
    forms = TO + ('fieldset_entry', 'list_item')
    taken = conversions(S, e, kind, forms, S.text('steps', n, ''.join(chr(97 + i) for i in range(len(forms)))))
    for f, x in taken.items():
        if f in ('field', 'list_item', 'fieldset_entry'):
            S.check(S.eq(x.optional_string_value(), node.value()), 'a converted element has another value')
        if f in ('list_item', 'fieldset_entry'):
            S.reach('item' if f == 'list_item' else 'entry')
    S.reach('lookup')


DOCS = [('κ: χ', 1), ('κ:\nκ:χ', 2), ('κ:\n- χ', 1), ('κ:\na=χ', 1), ('#κ', 1), ('-- κ\nν\n-- κ', 1), ('-- κ\n-- κ\nb < κ', 2), ('a:χ\nb < a', 2), ('a:\n-χ\nb < a', 2), ('a:\nk=χ\nb < a', 2), ('# a\nx: y\n# b < a', 2), ('a:\nb < a', 2), ('a:\nω χ', 1), ('aοχ', 1), ('a:\nλ b', 1), ('b\nν', 1)]
DEEP = ['# a\nκ: χ\n## b\n- x', '# a\nκ: χ\n## b\nκ:\n- x\n# c << a\n## d\nδe', '#κ\na:\nλ b\n#χ\nbοχ', 'κ:\nb < κ\nλ x', '# κ\n# b < κ\na:χ\n#c << b\nd: e', '-- κ\nν\n-- κ\n# b\nc:\nλ=x']
FOUND = ['κ: χ\nω y', 'κ:\n- χ\nω y\n- z', 'κ:\na = χ\nω\n\nb=', '# κ\nb:\n\nc: χ', '-- κ\nν\n-- κ', 'κ:\nλ χ']
HARNESSES = {
    'elements': dict(fn=elements, bounds=dict(quick='%d layouts, every sequence of 2 conversions' % len(DOCS), thorough='%d layouts, every sequence of up to 4 conversions' % len(DOCS)),
                     units=units([dict(t=t, which=i, n=2) for t, k in DOCS for i in range(k)], [dict(t=t, which=i, n=n) for t, k in DOCS for i in range(k) for n in (1, 3, 4)])),
    'deep': dict(fn=deep, bounds='%d layouts' % len(DEEP), units=lambda tier: [dict(t=t) for t in DEEP]),
    'found': dict(fn=found, bounds=dict(quick='%d layouts, every line, every sequence of 2 conversions' % len(FOUND), thorough='%d layouts, every line, every sequence of up to 3 conversions' % len(FOUND)),
                  units=units([dict(t=t, n=2) for t in FOUND], [dict(t=t, n=n) for t in FOUND for n in (1, 2, 3)])),
}
