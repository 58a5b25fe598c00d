"""Queries of fieldsets and lists."""
from harness import large
from harness.queries import *

REQUIRED = {'entry:one', 'entry:missing', 'entry:single', 'entries', 'items', 'items:value', 'values'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\'}


def out_of(S, outs, key):
    return [o for o in outs if S.same(o.key, key)][0]


def item(x):
    return [x.optional_string_comment(), x.optional_string_value()]


def entries(S, t, keyed):
    """the entries of fieldset f"""
    entries_of(S, doc(S, t, marks=M), keyed)


def entries_of(S, text, keyed):
    d, outs, bad = reference(S, text)
    if bad:
        return
    key = S.text('key', 1, 'abc') if keyed else None
    args = (key,) if keyed else ()
    kids = out_of(S, outs, 'f').kids or []
    found = matching(S, kids, key)
    want = [['entry', o.key, o.comment(), o.value] for o in found]
    f = S.lib.parse(text).fieldset(S.const('f'))
    everyone = f.entries()
    S.check(S.eq([x.string_key() for x in everyone], [o.key for o in kids]), 'entries() is incomplete or in another order')
    got = f.entries(*args)
    S.check(S.eq([['entry', x.string_key()] + item(x) for x in got], want), 'entries() gives the wrong entries')
    S.check(all(any(x is y for y in everyone) for x in got), 'entries() makes new entries')
    S.reach('entries')
    for how in ('plain', 'optional', 'required'):
        ask = getattr(f, {'plain': 'entry', 'optional': 'optional_entry', 'required': 'required_entry'}[how])
        got, err = S.call(ask, *args)
        r = single(S, kids, 'fieldset_entry', key, how)
        if r[0] == 'error':
            S.check(err is not None and is_validation_error(S, err), '%s: no error' % r[1])
            S.check(S.eq(err.text, message(S, r[1], key)), 'wrong message, expected ' + r[1])
            S.reach('entry:' + ('missing' if 'missing' in r[1] else 'single'))
            continue
        S.check(err is None, 'an answer was expected, but %r was raised' % (err,))
        if r[0] == 'none':
            S.check(got is None, 'None was expected')
        elif r[0] == 'proxy':
            S.check(type(got).__name__.startswith('Missing') and got.optional_string_value() is None, 'a missing entry was expected')
        else:
            o = r[1]
            S.check(any(got is x for x in everyone) and S.eq([got.string_key()] + item(got), [o.key, o.comment(), o.value]), 'the wrong entry was found')
            S.reach('entry:one')


def items(S, t):
    """the items of list l"""
    items_of(S, doc(S, t, marks=M))


def items_of(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        return
    kids = out_of(S, outs, 'l').kids or []
    values = [o.value for o in kids]
    l = S.lib.parse(text).list(S.const('l'))
    S.check(l.length() == len(kids), 'length() is wrong')
    got = l.items()
    S.check(S.eq([item(x) for x in got], [[o.comment(), o.value] for o in kids]), 'items() gives the wrong items')
    S.check(all(x is y for x, y in zip(got, l.items())), 'items() makes new items')
    S.check(S.eq(l.optional_string_values(), values), 'optional_string_values() is wrong')
    S.reach('items')
    seen = []
    S.check(S.eq(l.optional_values(lambda v: seen.append(v) or [v]), [None if v is None else [v] for v in values]), 'optional_values() is wrong')
    S.check(S.eq(seen, [v for v in values if v is not None]), 'the loader is called with other values')
    for ask, wrap in ((lambda: l.required_string_values(), lambda v: v), (lambda: l.required_values(lambda v: [v]), lambda v: [v])):
        r, err = S.call(ask)
        empty = [o for o in kids if o.value is None]
        if empty:
            S.check(err is not None and is_validation_error(S, err), 'an empty item was accepted')
            S.check(S.eq(err.text, S.lib.mod('messages.en').missing_list_item_value(empty[0].node.parent.key)), 'wrong message for an empty item')
            S.reach('items:value')
        else:
            S.check(err is None and S.eq(r, [wrap(v) for v in values]), 'required values are wrong')
            S.reach('values')


def of_many(S, text):
    entries_of(S, text, True)
    entries_of(S, text, False)


FIELDSETS = ['f:\nκ = χ\nκ = χ\nκ = χ', 'f:', 'f:\n> ν\nκ = ν\n\n> χ\nκ =\n|ν', 'g:\nΚ = x\nΚ = y\nf < g', 'g:\nΚ = x\nΚ = y\nf < g\nΚ = z\n> χ\nκ = w', 'g:\nκ = 1\nh < g\nκ = 2\nf < h\nΚ = 3\n', 'g:\nf < g\nκ = χ', 'f < g\nκ = x\ng:\nΚ = y\n> ν\nΚ = z',
             'f:\n`κ` = χ\n``κ``=ν', 'e:\nκ=x\nf:\nκ=y\ng:\nκ=z', 'g:\nf < g', 'g:\na = 1\nb = 2\na = 3\nf < g\nκ = 4', 'f:\nκ = x\nbκ = y\nκb = z', 'f:\na=\nb=\n\nc=χ\nb=χ']
LISTS = ['l:\n- χ\n- χ\n- χ', 'l:', 'l:\n> ν\n- ν\n> χ\n-\nωχ\n- x', 'm:\n- χ\nl < m\n- χ\n-χ', 'm:\n- χ\nn < m\n- ν\nl < n\n> x\n-χ', 'm:\nl < m\n-χ\nωχ', 'l < m\n- x\nm:\n-χ\n- y\n', 'm:\n- χ\n> ν\n-χ\nl < m', 'l:\n-\n-\n-χ\n-', 'k:\n- 1\nl:\n- χ\nm:\n- 3', 'm:\n-χ\nn < m\nl < n\n- χ']
HARNESSES = {
    'entries': dict(fn=entries, bounds='%d layouts of fieldsets and copies, a solver-chosen key or no key, every accessor' % len(FIELDSETS), units=lambda tier: [dict(t=t, keyed=y) for t in FIELDSETS for y in (True, False)]),
    'items': dict(fn=items, bounds='%d layouts of lists and copies, every accessor' % len(LISTS), units=lambda tier: [dict(t=t) for t in LISTS]),
    'many': dict(fn=entries, bounds=dict(quick='up to 5 entries with solver-chosen keys', thorough='up to 7 entries with solver-chosen keys'),
                 units=units([dict(t='f:' + '\nκ=χ' * n, keyed=True) for n in (1, 2, 3, 4, 5)], [dict(t='f:' + '\nκ=χ' * n, keyed=True) for n in (3, 5, 6, 7)] + [dict(t='g:' + '\nΚ=x' * n + '\nf < g' + '\nΚ=y' * n, keyed=True) for n in (1, 2, 3)])),
    'longer': dict(fn=items, bounds=dict(quick='up to 5 items', thorough='up to 7 items'), units=units([dict(t='l:' + '\n-χ' * n) for n in (1, 4, 5)], [dict(t='l:' + '\n-χ' * n) for n in (6, 7)] + [dict(t='m:' + '\n-χ' * n + '\nl < m' + '\n-χ' * n) for n in (1, 2, 3)])),
    'large': large.entry(of_many, large.FIELDSETS),
    'long_lists': large.entry(items_of, large.LISTS),
}
