"""Touching: assert_all_touched() complains exactly when something was left unread."""
from harness import large
from harness.queries import *

REQUIRED = {'complete', 'untouched:field', 'untouched:empty', 'untouched:list', 'untouched:fieldset', 'untouched:section', 'untouched:item', 'untouched:entry', 'skip', 'only', 'message', 'touch', 'empty:section', 'empty:list', 'empty:fieldset', 'values'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE}
READS = ('string_key', 'key', 'optional_string_comment', 'optional_comment', 'optional_string_value', 'optional_value', 'touch')


def read(S, x, how):
    """one of the ways to read an element"""
    f = getattr(x, READS[how % len(READS)], None)
    if f is None:
        return x.string_key()
    return f(lambda v: v) if READS[how % len(READS)] in ('key', 'optional_comment', 'optional_value') else f()


WAYS = {
    'section': [lambda x, f=h + k, a=a: getattr(x, f)(*a) for k in ('section', 'field', 'list', 'element', 'fieldset', 'empty') for h in ('', 'optional_', 'required_') for a in (('zz',), ())] +
               [lambda x, f=k + 's', a=a: getattr(x, f)(*a) for k in ('element', 'field', 'fieldset', 'list', 'section') for a in (('zz',), ())],
    'fieldset': [lambda x, f=h + 'entry', a=a: getattr(x, f)(*a) for h in ('', 'optional_', 'required_') for a in (('zz',), ())] + [lambda x: x.entries(), lambda x: x.entries('zz')],
    'list': [lambda x: x.items(), lambda x: x.length(), lambda x: x.optional_string_values(), lambda x: x.required_string_values(), lambda x: x.optional_values(str), lambda x: x.required_values(str)],
}


def read_empty(S, x, kind, how):
    """one of the ways to read a section, fieldset or list that contains nothing"""
    ways = WAYS[kind]
    if how % (len(ways) + 3) < 3:
        return read(S, x, how)
    S.call(ways[how % (len(ways) + 3) - 3], x)
    S.reach('empty:' + kind)


class Run:
    """performs one action per element, chosen by the solver, and keeps account of what stays untouched"""

    def __init__(self, S, actions, reads):
        self.S, self.actions, self.n, self.reads = S, actions, 0, reads

    def act(self, options):
        if self.n == len(self.actions):
            return options[0]
        self.n += 1
        return pick(self.S, self.actions[self.n - 1], options)

    def section(self, x, outs):
        """everything in a section"""
        kids = x.elements()
        return [u for k, o in zip(kids, outs) for u in self.element(k, o)]

    def element(self, k, o):
        """-> the untouched elements within"""
        S = self.S
        if o.kind in ('field', 'empty'):
            a = self.act('nyrt')
            if a == 'n':
                return [o]
            if a == 't':
                k.touch()
                S.reach('touch')
                return []
            form = 'field' if o.kind == 'field' else ('empty', 'field', 'list', 'fieldset')[(self.reads + self.n) % 4]
            x = getattr(k, 'to_' + form)()
            if a == 'y':
                return [o]
            if form in WAYS:
                read_empty(S, x, form, (self.reads + self.n) // 4)
            else:
                read(S, x, self.reads + self.n)
            return []
        a = self.act('nyrat')
        if a == 'n':
            return [o]
        if a == 't':
            k.touch()
            S.reach('touch')
            return []
        x = getattr(k, 'to_' + o.kind)()
        if a == 'y':
            return [o]
        if a == 'a':
            if o.kind == 'list' and self.reads % 2 and all(y.value is not None for y in o.kids):
                WAYS['list'][2 + self.reads // 2 % 4](x)
                S.reach('values')
            else:
                x.touch()
                S.reach('touch')
            return []
        if not o.kids:
            read_empty(S, x, o.kind, self.reads + self.n)
            return []
        if o.kind == 'section':
            return self.section(x, o.kids)
        kids = x.items() if o.kind == 'list' else x.entries()
        left = []
        for i, y in zip(kids, o.kids):
            if self.act('nr') == 'n':
                left.append(i and y)
            else:
                read(S, i, self.reads + self.n)
        return left


def judge(S, text, ask, left, key=lambda m: m.string_key(), **k):
    """ask assert_all_touched in three ways"""
    seen = []
    for i, msg in enumerate(((), ('oh',), (lambda m: seen.append(m) or 'well',))):
        got, err = S.call(ask, *msg, **k)
        if not left:
            S.check(err is None and got is None, 'everything was touched, but %r was raised' % (err,))
            continue
        S.check(err is not None and is_validation_error(S, err), 'something was not touched, and no error was raised')
        S.check(S.eq(err.text, (S.lib.mod('messages.en').unexpected_element, 'oh', 'well')[i]), 'wrong message')
        row = positions(S, text, err.selection)[0]
        hit = [o for o in left if o.node.line == row]
        S.check(len(hit) > 0 and err.selection['from']['column'] == 0, 'the reported element was touched')
        S.reach('untouched:' + hit[0].kind)
        if seen:
            S.check(len(seen) == 1 and S.eq(key(seen[0]), hit[0].key if hit[0].kind != 'item' else hit[0].node.parent.key), 'the message is asked for with another element')
            S.reach('message')
    if not left:
        S.reach('complete')


def whole(S, t, n, reads=0):
    """every combination of reading, yielding, touching and leaving alone, in a document"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    left = Run(S, S.text('actions', n, 'nyrat'), reads).section(document, outs)
    judge(S, text, document.assert_all_touched, left)


def chosen(S, t, n, which, keys):
    """only= and skip= restrict the complaint to some keys"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    names = [S.text('name%d' % i, 1, 'abz') for i in range(keys)]
    document = S.lib.parse(text)
    run = Run(S, S.text('actions', n, 'nyrat'), 0)
    left = []
    for k, o in zip(document.elements(), outs):
        u = run.element(k, o)
        named = any(S.same(o.key, x) for x in names)
        if named == (which == 'only') or (which == 'only' and not keys):
            left += u
    judge(S, text, document.assert_all_touched, left, **{which: names})
    S.reach(which)


def fieldset(S, t, which, keys, n):
    """assert_all_touched of a fieldset"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    names = [S.text('name%d' % i, 1, 'abz') for i in range(keys)]
    actions = S.text('actions', n, 'nr')
    f = S.lib.parse(text).fieldset(S.const('f'))
    kids = [o for o in outs if S.same(o.key, 'f')][0].kids or []
    left = []
    for i, (x, o) in enumerate(zip(f.entries(), kids)):
        if i < n and pick(S, actions[i], 'nr') == 'r':
            read(S, x, i)
            continue
        if which:
            named = any(S.same(o.key, y) for y in names)
            if named != (which == 'only') and not (which == 'only' and not keys):
                continue
        left.append(o)
    judge(S, text, f.assert_all_touched, left, **({which: names} if which else {}))


def apart(S, t, n):
    """reading a copy does not touch its template, nor the other way round"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    run = Run(S, S.text('actions', n, 'nyrat'), 0)
    left = {}
    for i in pick(S, S.text('order', 1, 'fb'), 'fb') == 'f' and (0, 1) or (1, 0):
        left[i] = run.element(document.elements()[i], outs[i])
    judge(S, text, document.assert_all_touched, left[0] + left[1])
    for i in (0, 1):
        got, err = S.call(document.assert_all_touched, only=[outs[i].key])
        S.check((err is None) == (not left[i]), 'reading a copy touches its template, or the other way round')


DOCS = [('κ: ν\nκ:\nκ: x', 3), ('l:\n- x\n-\nκ: x', 4), ('f:\nκ =\nκ = ν\ne:', 4), ('# s\nκ: x\n## t\n> c\nq:\n# u', 5), ('# s\nl:\n- x\n- y\n# t\nf:\na=x', 6), ('-- m\nx\n-- m\ne:\n', 2), ('', 0),
        ('a: x\nb < a\nc:\n', 3), ('l:\n- x\nm < l\n- y\n', 5), ('f:\na=x\ng < f\nκ=y', 5), ('# s\nq: x\n# t < s\nκ: y\n', 6), ('# s\n## t\n### u\nq:\n', 4), ('# s\n## t\nl:\n-x\n# u << s\n## t\nm: y', 7)]
class AllBut(Run):
    """reads everything but one element, item or entry that the solver chooses"""

    def __init__(self, S, size):
        Run.__init__(self, S, '', 0)
        self.left = S.int('left', 0, size)

    def act(self, options):
        self.n += 1
        return 'n' if self.n == self.left else 'r'


def count(outs):
    return sum(1 + count(o.kids or []) for o in outs)


def all_but_one(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    left = AllBut(S, count(outs)).section(document, outs)
    judge(S, text, document.assert_all_touched, left)


FORMS = ('', 'optional_', 'required_', 's', 'element', 'optional_element', 'required_element')


class Queries(AllBut):
    """reaches everything by queries for its key, of one form, and leaves out one element, item or entry that the solver chooses"""

    def __init__(self, S, size, form):
        AllBut.__init__(self, S, size)
        self.form = form

    def obtain(self, x, outs, o):
        same, f = matching(self.S, outs, o.key), self.form
        kind = 'entry' if o.kind == 'entry' else o.kind
        if len(same) == 1 and (kind != 'entry' or f != 's'):
            if kind == 'entry':
                return getattr(x, f.replace('element', 'entry') if 'element' in f else f + 'entry')(o.key)
            if f == 's':
                return x.elements(o.key)[0].to_empty() if kind == 'empty' else getattr(x, kind + 's')(o.key)[0]
            return getattr(getattr(x, f)(o.key), 'to_' + kind)() if 'element' in f else getattr(x, f + kind)(o.key)
        i = [y is o for y in same].index(True)
        if kind == 'entry':
            return x.entries(o.key)[i]
        return x.elements(o.key)[i].to_empty() if kind == 'empty' else getattr(x.elements(o.key)[i], 'to_' + kind)()

    def section(self, x, outs, owner=None):
        """-> what is left untouched; the section itself, where nothing in it was asked for"""
        S, left, asked = self.S, [], False
        for o in outs:
            if self.act('') == 'n':
                left.append(o)
                continue
            asked = True
            y = self.obtain(x, outs, o)
            if o.kind in ('section', 'fieldset') and o.kids:
                left += self.section(y, o.kids, o)
            elif o.kind == 'list' and o.kids:
                for z, i in zip(y.items(), o.kids):
                    if self.act('') == 'n':
                        left.append(i)
                    else:
                        read(S, z, self.n)
            elif o.kind in WAYS:
                read_empty(S, y, o.kind, self.n)
            else:
                read(S, y, self.n)
        return left if asked or owner is None else [owner]


def by_query(S, text, form):
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    left = Queries(S, count(outs), form).section(document, outs)
    judge(S, text, document.assert_all_touched, left)


def queried(S, t, form):
    by_query(S, doc(S, t, marks=M), form)


def queried_some(S, text):
    by_query(S, text, FORMS[len(text) % len(FORMS)])


QUERIED = ['# s\nκ: x\n', 'f:\nκ = x\n', '# s\nκ: x\nb:\n## t\nκ:\nl:\n- x\nf:\nκ = x\nb = y\n', '# s\nκ:\nκ: x\n# t < s\nκ: y\n', 'f:\nκ = x\nb = y\nκ =\ng < f\nκ = z', '-- m\nx\n-- m\nn < m\n# s\n## t\n### u\nκ:\n# v << s\n## t\ne:\n', 'l:\n- x\n- y\nm < l\n- z\nn < l\n']
EMPTY = [('e:', 1), ('# s', 1), ('g:\nf < g', 2), ('# s\n# t < s\n## u', 2), ('> c\n\n# s\ne:\n', 2), ('l:\n- x\n- y\nm < l\n-z', 1)]
HARNESSES = {
    'whole': dict(fn=whole, bounds=dict(quick='%d layouts, every combination of leaving, yielding, reading and touching up to 7 elements' % len(DOCS), thorough='%d layouts, every combination, seven ways of reading' % len(DOCS)),
                  units=lambda tier: [dict(t=t, n=n, reads=r) for t, n in DOCS for r in (range(7) if tier == 'thorough' else (DOCS.index((t, n)) % 7,))]),
    'chosen': dict(fn=chosen, bounds='six layouts, lists of up to two solver-chosen keys for only and skip',
                   units=lambda tier: [dict(t=t, n=n, which=w, keys=k) for t, n in (('κ: x\nκ:\nκ: y', 3), ('a:\n- x\nκ: y', 3), ('# a\nκ: x\n# b', 3), ('-- κ\nx\n-- κ\nb: y', 2), ('z:\na = x\nκ:', 3), ('a: x\nκ < a', 2)) for w in ('only', 'skip') for k in ((0, 1, 2) if tier == 'thorough' or n < 3 or w == 'skip' else (0, 1))]),
    'fieldset': dict(fn=fieldset, bounds='five layouts of a fieldset, lists of up to two solver-chosen keys for only and skip',
                     units=lambda tier: [dict(t=t, n=n, which=w, keys=k) for t, n in (('f:\nκ = x\nκ =\nκ = y', 3), ('f:', 0), ('g:\nκ = x\nf < g\nκ = y', 2), ('g:\nκ = x\nb = y\nf < g', 2), ('> c\nf:\n> d\nκ=\n| ν', 1)) for w, k in ((None, 0), ('only', 0), ('only', 1), ('only', 2), ('skip', 0), ('skip', 1), ('skip', 2))]),
    'empty': dict(fn=whole, bounds='%d layouts, every way of reading what contains nothing, and lists by their values' % len(EMPTY), units=lambda tier: [dict(t=t, n=n, reads=r) for t, n in EMPTY for r in range(52)]),
    'apart': dict(fn=apart, bounds='copies of six kinds, every combination of reading either',
                  units=lambda tier: [dict(t=t, n=n) for t, n in (('a: x\nb < a', 2), ('b < a\na: x', 2), ('a:\n- x\nb < a', 4), ('a:\nq=x\nb < a', 4), ('# a\nq: x\n# b < a', 4), ('# a\nq: x\n# b < a\nr: y', 5), ('# a\n## s\nq:x\n# b << a\n## s\nr:y', 6))]),
    'queried': dict(fn=queried, bounds='%d layouts, everything reached by queries of %d forms and one element, item or entry left out' % (len(QUERIED), len(FORMS)), units=lambda tier: [dict(t=t, form=f) for t in QUERIED for f in FORMS]),
    'words': words(all_but_one),
    'sequence': sequence(all_but_one),
    'asked': sequence(queried_some),
    'extreme': large.entry(all_but_one, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED[:1]),
    'large': large.entry(all_but_one, large.MANY[:5] + large.SECTION_COPIES + large.COPIED + large.SECTIONS[:2], 'where everything is read but one'),
}
