"""Loaders: called once with the exact text, their result returned, their ValueErrors turned into errors about the element."""
from harness.queries import *

REQUIRED = {'wrap', 'none', 'falsy', 'ValueError', 'other', 'absent', 'missing', 'helper', 'callable', 'all'}
M = {'κ': LINE, 'χ': 'x ', 'ν': LINE, 'ο': '|\\'}
MODES = ('wrap', 'none', 'falsy', 'ValueError', 'sub', 'other')


class Loader:
    def __init__(self, S, mode, message):
        self.S, self.mode, self.message, self.seen = S, mode, message, []

    def __call__(self, text):
        self.seen.append(text)
        if self.mode == 'ValueError':
            raise ValueError(self.message)
        if self.mode == 'sub':
            raise Picky(self.message)
        if self.mode == 'other':
            raise Other(self.message)
        return {'wrap': [text], 'none': None, 'falsy': ''}[self.mode]


class Picky(ValueError):
    pass


class Other(Exception):
    pass


def once(S, ask, loader, text, required, missing, wrong, who):
    got, err = S.call(ask, loader)
    if text is None:
        S.check(loader.seen == [], 'the loader is called without a text')
        if required:
            S.check(err is not None and is_validation_error(S, err) and S.same(err.text, missing), 'a required %s is missing, wrong or no error: %r' % (who, err))
            S.reach('missing')
        else:
            S.check(err is None and got is None, 'None was expected for a missing %s' % who)
            S.reach('absent')
        return
    S.check(len(loader.seen) == 1 and S.eq(loader.seen[0], text), 'the loader is called with another text, or not once')
    if loader.mode in ('ValueError', 'sub'):
        S.check(err is not None and is_validation_error(S, err), 'a ValueError of a loader became %r' % (err,))
        S.check(S.eq(err.text, wrong(loader.message)), 'wrong message for a ValueError: ' + err.text)
    elif loader.mode == 'other':
        S.check(type(err) is Other, 'another error of the loader did not come through')
    else:
        S.check(err is None and S.eq(got, {'wrap': [text], 'none': None, 'falsy': ''}[loader.mode]), 'the result of the loader is lost')
    S.reach(loader.mode)


def settle(S, ask, loader, text, required, missing, wrong, who):
    """one call with a loader, and two more: text is the exact text, or None if there is none"""
    mode = loader.mode
    for loader.mode in (mode, mode, 'ValueError' if mode == 'wrap' else 'wrap'):
        loader.seen = []
        once(S, ask, loader, text, required, missing, wrong, who)


def target(S, document, d, outs, path):
    """-> (element, its Out, is it a list or a fieldset child)"""
    x, o = document, None
    kids = outs
    for step in path:
        kind, i = step
        S.assume(i < len(kids) and (kind == E or kids[i].kind == kind or (kind == 'field' and kids[i].kind == 'empty')))
        if kind == 'el':
            x = x.elements()[i]
        elif kind in ('item', 'entry'):
            x = (x.items() if kind == 'item' else x.entries())[i]
        else:
            x = getattr(x.elements()[i], 'to_' + kind)()
        o = kids[i]
        kids = o.kids or []
    return x, o


def load(S, t, path, mode, what, required, msg):
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    m = S.lib.mod('messages.en')
    x, o = target(S, S.lib.parse(text), d, outs, path)
    loader = Loader(S, mode, S.text('message', msg, ANY))
    key = o.key if o and o.kind != 'item' else o and o.node.parent.key
    if what == 'key':
        return settle(S, x.key, loader, key, False, None, m.key_error, 'key') if o else None
    how = ('required_' if required else 'optional_') + what
    value = o.value if what == 'value' else o.comment() if o else None
    missing = m.missing_comment if what == 'comment' else {'item': m.missing_list_item_value, 'entry': m.missing_fieldset_entry_value}.get(o.kind, m.missing_field_value)(key)
    settle(S, getattr(x, how), loader, value, required, missing, m.comment_error if what == 'comment' else m.value_error, what)
    # the string accessor is the one without loader
    got, err = S.call(getattr(x, how.replace('_' + what, '_string_' + what)))
    if value is None and required:
        S.check(err is not None and is_validation_error(S, err) and S.same(err.text, missing), 'the string accessor does not miss anything')
    else:
        S.check(err is None and S.eq(got, value), 'the string accessor gives another text')


def helpers(S, t, path, msg, n):
    """error(), key_error(), value_error() and comment_error() make errors with the message or what a function makes of the element"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    m = S.lib.mod('messages.en')
    x, o = target(S, S.lib.parse(text), d, outs, path)
    message = S.text('message', n, ANY)
    key = o.key if o and o.kind != 'item' else o and o.node.parent.key
    for name, wrap, exact in (('error', lambda v: v, x), ('key_error', m.key_error, key), ('comment_error', m.comment_error, o.comment() if o else None), ('value_error', m.value_error, o and o.value)):
        if not hasattr(x, name):
            continue
        seen = []
        for arg in ((message,), (lambda v: seen.append(v) or message,)):
            err, bad = S.call(getattr(x, name), *arg)
            S.check(bad is None, '%s() failed: %r' % (name, bad))
            S.check(is_validation_error(S, err) and S.eq(err.text, wrap(message)), '%s(): wrong message' % name)
        S.check(len(seen) == 1 and (seen[0] is x if name == 'error' else S.eq(seen[0], exact)), '%s(): the function is called with something else' % name)
        S.reach('callable')
    S.reach('helper')


def every(S, t, n, mode, required):
    """the loader of a list is called once for every item that has a value, in order"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    m = S.lib.mod('messages.en')
    x, o = target(S, S.lib.parse(text), d, outs, [('list', n)])
    loader = Loader(S, mode, S.text('message', 1, LINE))
    got, err = S.call(x.required_values if required else x.optional_values, loader)
    want, out = [], []
    for k in o.kids or []:
        v = k.value
        if v is None:
            if required:
                S.check(err is not None and S.eq(err.text, m.missing_list_item_value(k.node.parent.key)), 'an empty item was accepted')
                S.check(S.eq(loader.seen, want), 'the loader was called with other texts')
                return S.reach('all')
            out.append(None)
            continue
        want.append(v)
        if mode in ('ValueError', 'other'):
            S.check(err is not None and (S.eq(err.text, m.value_error(loader.message)) if mode == 'ValueError' else type(err) is Other), 'the error of the loader is lost')
            S.check(S.eq(loader.seen, want), 'the loader was called with other texts')
            return S.reach('all')
        out.append({'wrap': [v], 'none': None, 'falsy': ''}[mode])
    S.check(err is None and S.eq(got, out) and S.eq(loader.seen, want), 'the values of a list are wrong')
    S.reach('all')


E, F, L, SET, SEC, EMP = 'el', 'field', 'list', 'fieldset', 'section', 'empty'
VALUES = [('f: ν', [(F, 0)]), ('f:', [(F, 0)]), ('f: χ\nο ν', [(F, 0)]), ('-- f\nν\n-- f', [(F, 0)]), ('-- f\n-- f', [(F, 0)]), ('-- f\n\n-- f', [(F, 0)]), ('-- g\n\n-- g\nf < g', [(F, 1)]), ('l:\n- x\n- ν\nο', [(L, 0), ('item', 1)]), ('l:\n-\n- x', [(L, 0), ('item', 0)]),
          ('s:\na = x\nb = ν', [(SET, 0), ('entry', 1)]), ('s:\n`ν` =', [(SET, 0), ('entry', 0)]), ('g: ν\nf < g', [(F, 1)]), ('# s\nf: ν', [(SEC, 0), (F, 0)]), ('-- g\nνν\n-- g\nf < g', [(F, 1)]), ('m:\n- ν\nl < m\n- x', [(L, 1), ('item', 0)])]
COMMENTS = [('> ν\nf: x', [(F, 0)]), ('>\nf: x', [(E, 0)]), ('f: x', [(E, 0)]), ('> ν\n> ν\ne:', [(EMP, 0)]), ('> χ\n# s', [(SEC, 0)]), ('l:\n> ν\n- x', [(L, 0), ('item', 0)]), ('> ν\nl:\n> x\n- x', [(L, 0)]), ('s:\n> ν\n\n> ν\na = x', [(SET, 0), ('entry', 0)]),
            ('> ν\ng:\nf < g', [(E, 1)]), ('> ν\n# s\n# t < s\na: b', [(SEC, 1)]), ('> x\n', []), ('> a\n-- m\n-- m', [(F, 0)])]
KEYS = [('`κ`: x', [(F, 0)]), ('`κ`:', [(EMP, 0)]), ('-- κ\n-- κ', [(F, 0)]), ('l`κ:\n- x', [(L, 0), ('item', 0)]), ('f:\n`κ` = x', [(SET, 0), ('entry', 0)]), ('# κ', [(SEC, 0)]), ('``κ``:\nx=y', [(SET, 0)]), ('g: x\n`κ` < g', [(E, 1)]), ('g:\n- x\nκ < g\n- y', [(L, 1), ('item', 0)]), ('x: y', [])]
HARNESSES = {
    'value': dict(fn=load, bounds=dict(quick='%d layouts, six outcomes of the loader, optional and required' % len(VALUES), thorough='%d layouts, six outcomes of the loader with messages of any 2 characters' % len(VALUES)),
                  units=lambda tier: [dict(t=t, path=p, mode=x, what='value', required=r, msg=2 if tier == 'thorough' else 1) for t, p in VALUES for x in MODES for r in (False, True)]),
    'comment': dict(fn=load, bounds='%d layouts, six outcomes of the loader, optional and required' % len(COMMENTS),
                    units=lambda tier: [dict(t=t, path=p, mode=x, what='comment', required=r, msg=1) for t, p in COMMENTS for x in MODES for r in (False, True)]),
    'key': dict(fn=load, bounds='%d layouts, six outcomes of the loader' % len(KEYS), units=lambda tier: [dict(t=t, path=p, mode=x, what='key', required=False, msg=1) for t, p in KEYS for x in MODES]),
    'helpers': dict(fn=helpers, bounds=dict(quick='%d elements, any message of up to one character, given or made by a function' % len(VALUES + COMMENTS + KEYS), thorough='any message of up to three characters'),
                    units=lambda tier: [dict(t=t, path=p, msg=1, n=n) for t, p in VALUES + COMMENTS + KEYS for n in ((0, 1, 2, 3) if tier == 'thorough' else (0, 1))]),
    'every': dict(fn=every, bounds='lists of up to four items, five outcomes of the loader', units=lambda tier: [dict(t=t, n=n, mode=x, required=r) for t, n in (('l:\n- χ\n-χ\n- ν', 0), ('l:', 0), ('m:\n- χ\nl < m\n-χ\nο χ\n- χ', 1), ('# m\nl:\n- x', 0), ('l:\n-ν\n-\n-χ\n- y', 0))
                                                                                                       if not t.startswith('#') for x in ('wrap', 'none', 'falsy', 'ValueError', 'other') for r in (False, True)]),
}
