"""Missing elements: asking further is always possible, optional reads are empty, required ones name what is missing."""
from harness.queries import *

REQUIRED = {'error', 'empty', 'chain', 'entry'}
DOCS = ['', 'a: x', '# s\nq: x\n# t', 'f:\na = x\nl:\n- x', '> c\n# s\n## t\nq: x\n## u < t\n# v << s']
GIVES = {'element': None, 'empty': 'Empty', 'field': 'Field', 'fieldset': 'Fieldset', 'list': 'List', 'section': 'Section'}


def parents(S, document):
    """every section of the document, and the document"""
    out = [(document, None)]
    for e in document.elements():
        if e.yields_section():
            s = e.to_section()
            out.append((s, s))
            for x in s.elements():
                if x.yields_section():
                    out.append((x.to_section(), x.to_section()))
    return out


def names(S, kind, key):
    """the messages that may be given for a missing element"""
    kinds = {'empty': ('empty', 'element'), 'any': ('element',)}.get(kind, (kind,))
    return [message(S, 'missing_' + k, key) for k in kinds]


def raises(S, fn, allowed, what, where):
    r, err = S.call(fn)
    S.check(err is not None and is_validation_error(S, err), 'a missing %s: no ValidationError, got %r' % (what, err))
    S.check(any(S.same(err.text, a) for a in allowed), 'a missing %s: wrong message %s' % (what, err.text))
    S.check(err.selection['from'] == where, 'a missing %s: the error is located elsewhere' % what)
    S.reach('error')


def value_like(S, m, allowed, what, where):
    base(S, m, allowed, what, where)
    for r in (m.optional_string_value(), m.optional_value(lambda v: v)):
        S.check(r is None, 'a missing %s has a value' % what)
    raises(S, m.required_string_value, allowed, what, where)
    raises(S, lambda: m.required_value(lambda v: v), allowed, what, where)


def base(S, m, allowed, what, where):
    for r in (m.optional_string_comment(), m.optional_comment(lambda v: v), m.raw()):
        S.check(r is None, 'a missing %s is not empty' % what)
    S.reach('empty')
    for f in (m.string_key, lambda: m.key(lambda k: k), m.required_string_comment, lambda: m.required_comment(lambda c: c)):
        raises(S, f, allowed, what, where)
    S.check(isinstance(repr(m), str), 'no representation')


def list_like(S, m, allowed, what, where):
    base(S, m, allowed, what, where)
    for r in (m.items(), m.optional_string_values(), m.required_string_values(), m.optional_values(lambda v: v), m.required_values(lambda v: v)):
        S.check(r == [], 'a missing list has items')
    S.check(m.length() == 0, 'a missing list has a length')


def fieldset_like(S, m, allowed, what, where, deeper=True):
    base(S, m, allowed, what, where)
    S.check(m.entries() == [] and m.entries('k') == [] and m.optional_entry() is None and m.optional_entry('k') is None, 'a missing fieldset has entries')
    raises(S, m.required_entry, allowed, what, where)
    raises(S, lambda: m.required_entry('k'), allowed, what, where)
    value_like(S, m.entry('k'), allowed, what, where)
    value_like(S, m.entry(), allowed, what, where)


def section_like(S, m, allowed, what, where, depth):
    base(S, m, allowed, what, where)
    for kind in KINDS:
        if kind != 'empty':
            f = getattr(m, kind + 's')
            S.check(f() == [] and f('k') == [], 'a missing section has elements')
        f = getattr(m, 'optional_' + kind)
        S.check(f() is None and f('k') is None, 'a missing section has an element')
        raises(S, getattr(m, 'required_' + kind), allowed, what, where)
        raises(S, lambda: getattr(m, 'required_' + kind)('k'), allowed, what, where)
    if depth:
        S.reach('chain')
        for kind in KINDS:
            proxy(S, getattr(m, kind)('k'), kind, allowed, what, where, depth - 1)
            proxy(S, getattr(m, kind)(), kind, allowed, what, where, depth - 1)


def proxy(S, m, kind, allowed, what, where, depth):
    S.check(m is not None, 'no missing element')
    if kind == 'field':
        value_like(S, m, allowed, what, where)
    elif kind == 'list':
        list_like(S, m, allowed, what, where)
    elif kind == 'fieldset':
        fieldset_like(S, m, allowed, what, where)
    elif kind == 'section':
        section_like(S, m, allowed, what, where, depth)
    elif kind == 'empty':
        base(S, m, allowed, what, where)
    else:
        base(S, m, allowed, what, where)
        for k in GIVES:
            if k != 'element':
                S.check(getattr(m, 'yields_' + k)() is True, 'a missing element does not yield a ' + k)


def location(S, section):
    """where a missing element of a section is reported"""
    if section is None:
        return {'line': 0, 'column': 0, 'index': 0}
    x = section.error('m').selection['from']
    r = S.call(section.required_element, 'zz')[1].selection['from']
    S.check(r['line'] == x['line'], 'the error is not located in the section')
    return r


def sections(S, n, d, kind, depth, p):
    key = S.text('key', n, LINE) if n else None
    if n:
        S.assume(not S.isin(key[0], 'astuvflq'))
    args = (key,) if n else ()
    ps = parents(S, S.lib.parse(S.const(DOCS[d])))
    s, owner = ps[p]
    if not n and s.elements():
        return
    where = location(S, owner)
    m = getattr(s, kind)(*args)
    S.check(type(m).__name__.startswith('Missing'), 'no missing element')
    proxy(S, m, kind, names(S, kind, key), kind, where, depth)
    if kind == 'element':
        for k in GIVES:
            if k != 'element':
                proxy(S, getattr(m, 'to_' + k)(), k, names(S, k, key), k, where, depth)


def entry(S, n, t):
    """a missing entry of a fieldset that exists"""
    key = S.text('key', n, LINE) if n else None
    if n:
        S.assume(not S.isin(key[0], 'a'))
    f = S.lib.parse(S.const(t)).fieldset(S.const('f'))
    if not n and f.entries():
        return
    where = S.call(f.required_entry, S.const('zz'))[1].selection['from']
    S.check(where['line'] == f.error('m').selection['from']['line'], 'the error is not located at the fieldset')
    m = f.entry(*((key,) if n else ()))
    value_like(S, m, [message(S, 'missing_fieldset_entry', key)], 'entry', where)
    S.reach('entry')


def containers(S, section, owner=None):
    """every section and fieldset, and the element a missing part of it is reported at"""
    yield 'section', section, owner
    for e in section.elements():
        k = observe.kind(e)
        if k == 'section':
            x = e.to_section()
            yield from containers(S, x, x)
        elif k == 'fieldset':
            x = e.to_fieldset()
            yield k, x, x


def anywhere(S, text, depth=0):
    """something missing in any section or fieldset of a document"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    places = list(containers(S, S.lib.parse(text)))
    kind, x, owner = places[S.index(S.int('place', 0, len(places) - 1))]
    key = S.text('key', 1, 'abczk')
    there = [e.string_key() for e in (x.elements() if kind == 'section' else x.entries())]
    if any(S.same(k, key) for k in there):
        return
    if kind == 'fieldset':
        where = S.call(x.required_entry, S.const('zz'))[1].selection['from']
        S.check(where['line'] == x.error('m').selection['from']['line'], 'the error is not located at the fieldset')
        value_like(S, x.entry(key), [message(S, 'missing_fieldset_entry', key)], 'entry', where)
        S.reach('entry')
        return
    where = location(S, owner)
    for k in KINDS:
        m = getattr(x, k)(key)
        S.check(type(m).__name__.startswith('Missing'), 'no missing element')
        proxy(S, m, k, names(S, k, key), k, where, depth)
        if k == 'element':
            for t in FITS:
                if t != 'element':
                    proxy(S, getattr(m, 'to_' + t)(), t, names(S, t, key), t, where, depth)


HARNESSES = {
    'sections': dict(fn=sections, bounds=dict(quick='every key of up to two characters, or none, in %d documents, every accessor, two levels below a missing section' % len(DOCS), thorough='every key of up to 3 characters, or none, in %d documents, three levels below a missing section' % len(DOCS)),
                     units=units([dict(n=n, d=d, kind=k, depth=1, p=p) for n in (0, 1, 2) for d, q in enumerate((1, 1, 3, 1, 7)) for k in GIVES for p in range(q)],
                                 [dict(n=n, d=d, kind=k, depth=2, p=p) for n in (0, 1, 2, 3) for d, q in enumerate((1, 1, 3, 1, 7)) for k in GIVES for p in range(q)])),
    'words': words(anywhere),
    'sequence': sequence(anywhere),
    'entry': dict(fn=entry, bounds='every key of up to 3 characters, or none, of 5 fieldsets', units=lambda tier: [dict(n=n, t=t) for n in (0, 1, 2, 3) for t in ('f:', 'f:\na = x', 'g:\na=x\nf < g', 'g:\na=x\nf < g\na=y', '> c\nf:\n')]),
}
