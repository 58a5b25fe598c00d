"""What the queries of a section, list or fieldset must answer, from the reference reading."""
from harness.reports import *

FITS = {'element': ('field', 'list', 'fieldset', 'empty', 'section'), 'empty': ('empty',), 'field': ('field', 'empty'),
        'fieldset': ('fieldset', 'empty'), 'list': ('list', 'empty'), 'section': ('section',)}
KINDS = tuple(FITS)


def matching(S, outs, key):
    return [o for o in outs if key is None or S.same(o.key, key)]


def single(S, outs, kind, key, how):
    """-> ('one', out) | ('none',) | ('proxy',) | ('error', message, [out])"""
    found = matching(S, outs, key)
    if not found:
        return ('error', 'missing_' + kind, []) if how == 'required' else ('none',) if how == 'optional' else ('proxy',)
    if len(found) > 1:
        return 'error', 'expected_single_' + kind, found
    if kind != 'fieldset_entry' and found[0].kind not in FITS[kind]:
        return 'error', 'expected_' + kind, found
    return 'one', found[0]


def plural(S, outs, kind, key):
    found = matching(S, outs, key)
    for o in found:
        if o.kind not in FITS[kind]:
            return 'error', 'expected_%ss' % kind, [o]
    return 'many', found


def message(S, name, key, locale='en'):
    m = S.lib.mod('messages.' + locale)
    if key is None:
        return getattr(m, name)
    return getattr(m, name + '_with_key')(key)


def content(S, x, kind):
    """an answer read through its own API, in the shape of eno.plain()"""
    key, comment = x.string_key(), x.optional_string_comment()
    if kind == 'element':
        return observe.element(x)
    if kind == 'empty':
        return ['empty', key, comment, None]
    if kind == 'field':
        return ['field', key, comment, x.optional_string_value()]
    if kind == 'list':
        return ['list', key, comment, [['item', None, i.optional_string_comment(), i.optional_string_value()] for i in x.items()]]
    if kind == 'fieldset':
        return ['fieldset', key, comment, [['entry', i.string_key(), i.optional_string_comment(), i.optional_string_value()] for i in x.entries()]]
    return ['section', key, comment, observe.elements(x)]


def expected(o, kind):
    p = eno.plain([o])[0]
    if p[0] == 'empty' and kind in ('field', 'list', 'fieldset'):
        p = [kind, p[1], p[2], None if kind == 'field' else []]
    return p


def fetch(S, section, kind, key, how):
    name = {'plain': kind, 'optional': 'optional_' + kind, 'required': 'required_' + kind, 'plural': kind + 's'}[how]
    f = getattr(section, name)
    return S.call(f) if key is None else S.call(f, key)
