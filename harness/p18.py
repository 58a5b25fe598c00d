"""Queries of sections: the right element, None, a proxy or the right error for every content, key and accessor."""
from harness import large
from harness.queries import *

REQUIRED = {h + ':' + w for h in ('plain', 'optional', 'required', 'plural') for w in
            (('one', 'missing', 'single', 'kind') if h != 'plural' else ('many', 'kind'))}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'λ': 'a-|', 'μ': ' -', 'φ': 'pq', 'η': '-=', 'δ': '# '}


def query(S, t, kind, how, within=None, keyed=True, names='abc'):
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    key = S.text('key', 1, names) if keyed else None
    section = S.lib.parse(text)
    if within:
        section = section.section(S.const(within))
        outs = [o for o in outs if S.same(o.key, within)][0].kids
    ask(S, section, outs, kind, key, how)


def ask(S, section, outs, kind, key, how):
    got, err = fetch(S, section, kind, key, how)
    want = plural(S, outs, kind, key) if how == 'plural' else single(S, outs, kind, key, how)
    if want[0] == 'error':
        S.check(err is not None and is_validation_error(S, err), '%s: no error, got %s' % (want[1], type(got).__name__))
        S.check(S.eq(err.text, message(S, want[1], key)), 'wrong message, expected ' + want[1])
        S.reach(how + ':' + ('missing' if 'missing' in want[1] else 'single' if 'single' in want[1] else 'kind'))
        return
    S.check(err is None, 'an answer was expected, but %r was raised' % (err,))
    if want[0] == 'none':
        S.check(got is None, 'None was expected')
        S.reach(how + ':missing')
    elif want[0] == 'proxy':
        S.check(type(got).__name__.startswith('Missing'), 'a missing element was expected')
        S.check(got.optional_string_comment() is None and got.raw() is None, 'a missing element has content')
        S.reach(how + ':missing')
    elif want[0] == 'one':
        S.check(S.eq(content(S, got, kind), expected(want[1], kind)), 'the wrong element was found')
        again, err = fetch(S, section, kind, key, how)
        S.check(again is got, 'asking again gives another element')
        S.reach(how + ':one')
    else:
        S.check(S.eq([content(S, g, kind) for g in got], [expected(o, kind) for o in want[1]]), 'the wrong elements were found')
        S.reach(how + ':many')


def everything(S, t, within=None):
    """every accessor, one after the other, on the same document: elements are not changed by asking"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    for kind in KINDS:
        for how in ('plain', 'optional', 'required', 'plural'):
            if (kind, how) == ('empty', 'plural'):
                continue
            section = S.lib.parse(text)
            ask(S, section, outs, kind, S.const('a'), how)
            section = S.lib.parse(text)
            ask(S, section, outs, kind, None, how)


LINES = ['κ:χ\nκ:χ\nκ:χ', 'κ:\nη = x\n# κ\nb: c', 'a:\n- x\nb:\nη=y\nκ:ν', '# κ\nx: y\n#δκ\nκ: x', 'κ < κ\nκ:\n- x\n- y', '-- κ\nν\n-- κ\n> ν\nκ:χ', '`κ`: x\n# `κ`\n', 'κ:\nb:\nc: χ\na: x', '# a\nκ: x\nκ:χ\n# b < a\nκ:\n- ν\n', '', 'κ: ν\n|χ',
         '# a\np: x\n# b < a\nκ: y', '# κ\n## s\np: x\n# c << κ\n## s\nφ: y', '> ν\n# a\n# κ\n# κ\n', '# κ\n## κ\n### κ\n']
def asked(S, text):
    """every accessor for one solver-chosen key, in the document and in every section"""
    d, outs, bad = reference(S, text)
    if bad:
        return
    k = S.text('key', 1, 'akpsx')
    for kind in KINDS:
        for how in ('plain', 'optional', 'required', 'plural'):
            if (kind, how) == ('empty', 'plural'):
                continue
            for key in (k, None):
                section, kids = S.lib.parse(text), outs
                ask(S, section, kids, kind, key, how)
                while kids and kids[-1].kind == 'section' and len(matching(S, kids, kids[-1].key)) == 1:
                    section, kids = section.section(kids[-1].key), kids[-1].kids
                ask(S, section, kids, kind, key, how)


HARNESSES = {
    'query': dict(fn=query, bounds='%d layouts, a solver-chosen key or no key, every accessor' % len(LINES),
                  units=lambda tier: [dict(t=t, kind=k, how=h, keyed=y) for t in LINES for k in KINDS for h in ('plain', 'optional', 'required', 'plural') for y in (True, False) if (k, h) != ('empty', 'plural')]),
    'within': dict(fn=query, bounds='the accessors of a section inside a document and of copied sections',
                   units=lambda tier: [dict(t=t, kind=k, how=h, within=w) for t, w in (('a: x\n# s\nκ:χ\nκ:χ\n# t\nc: x', 's'), ('# s\nκ:χ\nκ:\n- x\n# b < s\nκ: y\n', 'b'), ('# s\nκ:χ\n## κ\n# b << s\n## κ\nκ:x', 'b'), ('# s\nκ: x\n# b < s', 'b'))
                                       for k in KINDS for h in ('plain', 'optional', 'required', 'plural') if (k, h) != ('empty', 'plural')]),
    'everything': dict(fn=everything, bounds=dict(quick='three lines of any kind with solver-chosen keys, every accessor', thorough='four lines of any kind with solver-chosen keys, every accessor'),
                       units=units([dict(t='λοχ\nλοχ\nλοχ')], [dict(t='λοχ\nλοχ\nλοχ'), dict(t='λοχ\nλοχ\nλοχ\nλοχ'), dict(t='κοχ\nκοχ\nμκοχ\nκοχ'), dict(t='#δκ\nκοχ\n#δκ\nκοχ')])),
    'words': words(asked),
    'sequence': sequence(asked),
    'extreme': large.entry(asked, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED[1:2] + large.SELECTED[5:]),
    'large': large.entry(asked, large.MANY + large.COPIED + large.SECTION_COPIES, 'and every accessor', quick=large.MANY[:5]),
}
