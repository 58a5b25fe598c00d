"""What lookup() finds is the element itself: it answers like the same element reached from the document."""
from harness import large
from harness.queries import *
from harness.lookups import owner

REQUIRED = {'document', 'field', 'empty', 'multiline', 'list', 'fieldset', 'section', 'item', 'entry', 'missing', 'loader', 'unsure'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-| a', 'δ': '# ', 'ι': INK}
FORMS = ('empty', 'field', 'fieldset', 'list', 'section')


def error(e):
    return None if e is None else [type(e).__name__, e.text, e.snippet, e.selection['from']['index'], e.selection['to']['index']]


def answer(x):
    """what a query gave, as plain data"""
    if isinstance(x, (list, tuple)):
        return [answer(y) for y in x]
    if x is None or not hasattr(x, 'string_key') and not type(x).__name__.startswith('Missing'):
        return x
    if type(x).__name__.startswith('Missing'):
        return type(x).__name__
    return [type(x).__name__, x.error('m').selection['from']['index']]


def asked(S, f, *args):
    x, err = S.call(f, *args)
    if err is not None and not is_validation_error(S, err):
        return type(err).__name__
    return error(err) or ['got', answer(x)]


def refuse(value):
    if len(value) % 2:
        raise ValueError('no ' + value)
    return ['loaded', value]


def base(S, x, form):
    out = [error(x.error('m')), error(x.comment_error('m')), asked(S, x.required_string_comment), asked(S, x.optional_comment, refuse)]
    return out + ([] if form == 'item' else [x.string_key(), error(x.key_error('m')), asked(S, x.key, refuse)])


def profile(S, x, form):
    """everything an element of a form says, with its errors"""
    out = base(S, x, form)
    if form in ('field', 'item', 'entry'):
        out += [error(x.value_error('m')), asked(S, x.optional_value, refuse), asked(S, x.required_value, refuse), asked(S, x.required_string_value)]
        S.reach('loader')
    elif form == 'list':
        out += [asked(S, x.required_string_values), asked(S, x.optional_values, refuse), asked(S, x.items), len(x.items()), [profile(S, i, 'item') for i in x.items()]]
    elif form == 'fieldset':
        out += [asked(S, x.assert_all_touched), asked(S, x.entries), [profile(S, i, 'entry') for i in x.entries()]]
        for key in ('zz', 'b', None):
            out += [asked(S, f, *([] if key is None else [S.const(key)])) for f in (x.entry, x.optional_entry, x.required_entry, x.entries)]
        S.reach('missing')
        x.touch()
        out += [asked(S, x.assert_all_touched), x.all_entries_required(), asked(S, x.entry, S.const('zz'))]
    elif form == 'section':
        out += [asked(S, x.assert_all_touched), answer(x.elements()), observe.elements(x)]
        for key in ('zz', 'b', None):
            for kind in KINDS:
                out += [asked(S, getattr(x, p + kind), *([] if key is None else [S.const(key)])) for p in ('', 'optional_', 'required_')]
        x.touch()
        out += [asked(S, x.assert_all_touched), x.all_elements_required(), asked(S, x.field, S.const('zz'))]
    return out


def place(e):
    """the position an element begins at; None for the document"""
    return e.error('m').selection['from']['index'] if e is not None else None


def walk(S, section, top):
    """(place of the parent, element, form or None) of everything in a section"""
    for e in section.elements():
        yield top, e, None
        k = observe.kind(e)
        if k == 'section':
            yield from walk(S, e.to_section(), place(e))
        elif k in ('list', 'fieldset'):
            y = getattr(e, 'to_' + k)()
            for i in y.items() if k == 'list' else y.entries():
                yield place(e), i, 'item' if k == 'list' else 'entry'


def parent_of(x):
    p = x.parent()
    return None if p is None or p.raw()['type'] == 'document' else place(p)


def converted(S, e, form):
    return getattr(e, 'to_' + {'item': 'list_item', 'entry': 'fieldset_entry'}.get(form, form))()


def found(S, text, form=None):
    """the element of any line, found and reached"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    line = S.index(S.int('line', 0, len(text.split('\n')) - 1))
    node = owner(d, line)
    if node is d:
        e = S.lib.lookup(text, line=line, column=0)['element']
        S.check(S.eq(error(e.error('m')), error(S.lib.parse(text).error('m'))), 'what lookup() finds outside of all elements does not report like the document')
        S.reach('document')
        return
    at = sum(len(r) + 1 for r in text.split('\n')[:node.line])
    up = None if node.parent is d else sum(len(r) + 1 for r in text.split('\n')[:node.parent.line])
    here = [(e, k) for p, e, k in walk(S, S.lib.parse(text), None) if p == up and place(e) == at]
    S.check(len(here) == 1, 'an element cannot be reached exactly once from the document')
    reached, leaf = here[0]
    seen = S.lib.lookup(text, line=line, column=0)['element']
    S.check(S.eq(base(S, seen, leaf), base(S, reached, leaf)), 'what lookup() finds does not report like the element reached from the document')
    if leaf is not None:
        yields = [f for f in FORMS + ('list_item', 'fieldset_entry') if getattr(seen, 'yields_' + f)()]
        S.check(yields == [{'item': 'list_item', 'entry': 'fieldset_entry'}[leaf]], 'a found %s yields %r' % (leaf, yields))
        got, want = converted(S, seen, leaf), reached
        S.check(S.eq(profile(S, got, leaf), profile(S, want, leaf)), 'a found %s does not answer like the one reached from the document' % leaf)
        S.check(place(got.parent()) == place(want.parent()), 'a found %s has another parent' % leaf)
        S.reach(leaf)
        return
    reached = fresh(S, text, up, at)
    can = [f for f in FORMS if getattr(reached, 'yields_' + f)()]
    S.check([f for f in FORMS if getattr(seen, 'yields_' + f)()] == can, 'what lookup() finds yields something else than the element reached from the document')
    S.check(not seen.yields_list_item() and not seen.yields_fieldset_entry(), 'a found element yields an item or entry')
    for f in [f for f in FORMS + ('list_item', 'fieldset_entry') if f not in can]:
        x, err = S.call(getattr(seen, 'to_' + f))
        S.check(err is not None and is_validation_error(S, err), 'a found element can be taken as a ' + f)
        if f in FORMS:
            S.check(S.eq(error(err), error(S.call(getattr(reached, 'to_' + f))[1])), 'a found element refuses another way')
    if len(can) > 1:
        form = can[S.index(S.int('form', 0, len(can) - 1))] if form is None else form
        S.reach('unsure')
    else:
        form = can[0]
    got, want = converted(S, seen, form), converted(S, reached, form)
    S.check(S.eq(profile(S, got, form), profile(S, want, form)), 'a found %s does not answer like the one reached from the document' % form)
    S.check(parent_of(got) == parent_of(want), 'a found %s has another parent' % form)
    S.reach(form)
    if node.kind == 'multiline':
        S.reach('multiline')


def fresh(S, text, up, at):
    """the element of a document in which nothing else was asked before"""
    def down(section, top):
        for e in section.elements():
            if top == up and place(e) == at:
                return e
            if observe.kind(e) == 'section':
                x = down(e.to_section(), place(e))
                if x is not None:
                    return x
    return down(S.lib.parse(text), None)


def shape(S, t):
    found(S, doc(S, t, marks=M))


DOCS = ['κ: χ\nω ν\n\nκ:', '-- κ\nν\n\n-- κ\nb < κ', '> χ\n\n> ν\nκ:\n-ν\n> c\n- x\nω\n-\n', 'κ:\nb = χ\n> c\nκ=ν\nb =', 'κ:\nb < κ\na:\n- χ', '# κ\nb:\n## b\n\n### κ\nb: ν\n# b', '# a\n## κ\nx: ν\n# b << a\n## κ\nx:\n- y\n\nz:\nk = x', '# a\nl:\n- x\n# b < a\nl < l\n- χ', 'f:\nκ = x\ng < f\nb = χ\nc < g\n',
        'l:\n- χ\nm < l\n|x\n\n- y\nn < m', 'κοχ\nλοχ\nλοχ', '', '\n> ν\n\n', '# κ\n> χ\nb: x\nb: y\n## b\n# b\nb: z', 'δκ\n#κ\nb = ν\nκοχ', '`ι`:ι\nι < ι\n# `ι`\nι:', '# a\nκ:\n- x\n- y\nb:\nb = x\nb = y\n> χ\n-- c\n-- c']
HARNESSES = {
    'found': dict(fn=shape, bounds='every line of %d layouts with solver-chosen keys, values and line kinds' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'words': words(found),
    'sequence': sequence(found),
    'extreme': large.entry(found, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED[:1]),
    'large': large.entry(found, large.MANY[1:4] + large.GOOD[2:4], quick=large.MANY[1:3]),
}
