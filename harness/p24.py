"""all_elements_required and all_entries_required: the last call on a section or anything around it counts, whenever elements are fetched."""
from harness.queries import *

REQUIRED = {'on', 'off', 'section', 'fieldset'}


class Spot:
    """a section or fieldset, fetched when it is first needed"""

    def __init__(self, S, kind, up, i, x=None):
        self.S, self.kind, self.up, self.i, self._x, self.stamp = S, kind, up, i, x, None

    def x(self):
        if self._x is None:
            self._x = getattr(self.up.x().elements()[self.i], 'to_' + self.kind)()
        return self._x

    def flag(self):
        """the last call on this or on anything around it"""
        best, s = (-1, False), self
        while s:
            if s.stamp and s.stamp[0] > best[0]:
                best = s.stamp
            s = s.up
        return best[1]


def spots(S, document, outs):
    top = Spot(S, 'section', None, 0, document)
    res, todo = [top], [(top, outs)]
    while todo:
        s, kids = todo.pop(0)
        for i, o in enumerate(kids):
            if o.kind in ('section', 'fieldset', 'empty'):
                res.append(Spot(S, 'fieldset' if o.kind == 'empty' else o.kind, s, i))
                if o.kind == 'section':
                    todo.append((res[-1], o.kids))
    return res


def ask(S, s, key):
    """a missing element is asked for"""
    x, on = s.x(), s.flag()
    for kind in KINDS if s.kind == 'section' else ('fieldset_entry',):
        name = 'entry' if kind == 'fieldset_entry' else kind
        text = message(S, 'missing_' + kind, key)
        got, err = S.call(getattr(x, name), key)
        if on:
            S.check(err is not None and is_validation_error(S, err) and S.same(err.text, text), 'all elements are required, but a missing one gives %s' % (type(got).__name__ if err is None else repr(err)))
        else:
            S.check(err is None and type(got).__name__.startswith('Missing'), 'not all elements are required, but %r was raised' % (err,))
            got, err = S.call(getattr(x, 'optional_' + name), key)
            S.check(err is None and got is None, 'an optional element is required')
        got, err = S.call(getattr(x, 'required_' + name), key)
        S.check(err is not None and S.same(err.text, text), 'a required element is not required')
    S.reach('on' if on else 'off')
    S.reach(s.kind)


def history(S, t, n):
    """n steps chosen by the solver: fetch one of the elements, or call all_*_required on it"""
    text = S.const(t)
    d, outs, bad = reference(S, text)
    all_ = spots(S, S.lib.parse(text), outs)
    steps = S.text('steps', n, ''.join(chr(65 + i) for i in range(4 * len(all_))))
    for i in range(n):
        step = pick(S, steps[i], [chr(65 + i) for i in range(4 * len(all_))])
        s, op = all_[(ord(step) - 65) // 4], (ord(step) - 65) % 4
        x = s.x()
        if op:
            f = x.all_elements_required if s.kind == 'section' else x.all_entries_required
            f(*[(), (True,), (False,)][op - 1])
            s.stamp = (i, op != 3)
    order = all_ if pick(S, S.text('order', 1, 'fb'), 'fb') == 'f' else list(reversed(all_))
    key = S.text('key', 1, 'xyz')
    for s in order:
        ask(S, s, key)


def present(S, t, kinds):
    """elements that are there are found as before"""
    text = doc(S, t, marks={'κ': 'ab', 'χ': 'x '})
    d, outs, bad = reference(S, text)
    if bad:
        return
    key = S.text('key', 1, 'ab')
    section = S.lib.parse(text)
    section.all_elements_required()
    for kind in kinds:
        section = S.lib.parse(text)
        section.all_elements_required()
        for how in ('required', 'plain', 'plural'):
            want = plural(S, outs, kind, key) if how == 'plural' and kind != 'empty' else single(S, outs, kind, key, 'required')
            if how == 'plural' and kind == 'empty':
                continue
            got, err = fetch(S, section, kind, key, how)
            if want[0] == 'error':
                S.check(err is not None and is_validation_error(S, err) and S.same(err.text, message(S, want[1], key)), 'wrong or no error, expected ' + want[1])
            elif want[0] == 'one':
                S.check(err is None and S.eq(content(S, got, kind), expected(want[1], kind)), 'an element that is there is not found')
            else:
                S.check(err is None and len(got) == len(want[1]), 'elements that are there are not found')


DOCS = ['# s\nf:\na=x\n## t\nq:\n# u\n', 'f:\na = x\ng < f\nb = x\n', '# s\na:\n# t < s\n', 'f:\na = x\ng < f\nh < g\n', '# s\nf:\na = x\n# t < s\n# u < t\n', '# s\n## t\n### u\nf:\na=x', '# s\n## t\na: x\n# u << s\n## t\nb:\n', '']
HARNESSES = {
    'history': dict(fn=history, bounds=dict(quick='8 documents, every history of up to 2 steps (fetching, requiring, not requiring any more)', thorough='8 documents, every history of up to 3 steps'),
                    units=lambda tier: [dict(t=t, n=n) for t in DOCS for n in ((0, 1, 2, 3) if tier == 'thorough' else (0, 1, 2))]),
    'present': dict(fn=present, bounds='6 layouts, a solver-chosen key', units=lambda tier: [dict(t=t, kinds=[k]) for t in ('κ: χ\nκ:χ', 'κ:\n- x\nb: y', 'κ:\na=b', '# κ\na: x\n# b', '-- κ\nx\n-- κ', 'κ: x\nb < κ') for k in KINDS]),
}
