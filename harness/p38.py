"""Documents are independent: however many are parsed and read in turn, each gives what it gives alone."""
from harness.p33 import errors
from harness.reports import *

REQUIRED = {'rejected', 'accepted', 'alone', 'together', 'three'}
ASSUMPTIONS = ['one thread; a switch between documents is possible between any two calls', 'loaders registered with register() are shared on purpose and left out']
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'η': '-='}
OPTIONS = [dict(), dict(locale='de', reporter='TerminalReporter', source='first.eno'), dict(locale='es', reporter='HtmlReporter'), dict(reporter='TerminalReporter'), dict(locale='de'), dict(source='second.eno')]


def seen(e):
    """what can be seen of an error"""
    return None if e is None else [type(e).__name__, getattr(e, 'text', None), getattr(e, 'snippet', None), getattr(e, 'selection', None)]


def options(S, o):
    o = dict(o)
    if 'locale' in o:
        o['locale'] = S.lib.mod('messages.' + o['locale'])
    if 'reporter' in o:
        o['reporter'] = getattr(S.lib.mod('reporters'), o['reporter'])
    return o


class Use:
    """one document and what is done with it, step by step"""

    def __init__(self, S, text, o, ops):
        self.S, self.text, self.o, self.todo, self.got, self.d = S, text, o, 'P' + ops + 'Z', [], None

    def step(self):
        op, self.todo = self.todo[0], self.todo[1:]
        if op == 'P':
            self.d, e = parse(self.S, self.text, **options(self.S, self.o))
            self.got.append(seen(e))
        elif self.d is not None:
            self.got.append(getattr(self, op)())

    def A(self):
        """all the errors"""
        out = []
        errors(self.S, self.d, out)
        return [seen(e) for e in out]

    def R(self):
        """one element is read"""
        e = self.d.elements()
        return [repr(type(e[0]).__name__), observe.element(e[0])] if e else None

    def Q(self):
        out = []
        for k in ('a', 'b', 'zz'):
            for f in ('element', 'field', 'list', 'fieldset', 'section', 'empty'):
                x, e = self.S.call(getattr(self.d, f), self.S.const(k))
                out.append([seen(e), None if x is None else x.raw()])
        return out

    def T(self):
        out = [seen(self.S.call(self.d.assert_all_touched)[1])]
        self.d.touch()
        return out + [seen(self.S.call(self.d.assert_all_touched)[1])]

    def N(self):
        """everything is required from now on"""
        self.d.all_elements_required()
        return [seen(self.S.call(getattr(self.d, f), self.S.const('zz'))[1]) for f in ('field', 'list', 'section')]

    def L(self):
        """every line of the text is looked up"""
        found = [self.S.lib.lookup(self.text, line=i, column=0, **options(self.S, self.o)) for i in range(self.text.count('\n') + 1)]
        return [[x['range'], x['element'].raw()] for x in found]

    def M(self):
        return [seen(self.S.call(self.d.section(self.S.const('zz')).field, 'y')[1]), seen(self.S.call(self.d.assert_all_touched, 'm')[1])]

    def Z(self):
        """in the end: what is left to be read, all of the document"""
        return [seen(self.S.call(self.d.assert_all_touched)[1]), seen(self.S.call(self.d.element, self.S.const('zz'))[1]), observe.elements(self.d), self.d.raw(), seen(self.d.error('m')), repr_of(self.d)]


def repr_of(d):
    return d.__repr__()


def run(S, uses):
    for u in uses:
        S.lib.activate()
        while u.todo:
            u.step()


def together(S, docs):
    """docs: (text, options, steps); the solver chooses whose turn it is"""
    alone = [Use(S, *x) for x in docs]
    run(S, alone)
    for u in alone:
        S.reach('rejected' if u.d is None else 'accepted')
    S.reach('alone')
    S.lib.activate()
    uses = [Use(S, *x) for x in docs]
    n = sum(len(u.todo) for u in uses)
    turns = S.text('turns', n, 'abc'[:len(docs)])
    for i in range(n):
        left = [j for j, u in enumerate(uses) if u.todo]
        if len(left) == 1:
            j = left[0]
        else:
            j = 'abc'.index(pick(S, turns[i], ['abc'[j] for j in left]))
        uses[j].step()
    for a, u in zip(alone, uses):
        S.check(len(a.got) == len(u.got), 'another document decides whether this one is accepted')
        for i, (x, y) in enumerate(zip(a.got, u.got)):
            S.check(S.eq(x, y), 'another document changes what this one gives')
    S.reach('together' if len(docs) == 2 else 'three')


def two(S, t, u, ops, sec, o, p):
    together(S, [(doc(S, t, 'first', marks=M), OPTIONS[o], ops), (doc(S, u, 'second', marks=M), OPTIONS[p], sec)])


def three(S, t, o):
    together(S, [(doc(S, x, 'text%d' % i, marks=M), OPTIONS[(o + i) % len(OPTIONS)], y) for i, (x, y) in enumerate(zip(t, ('', 'R', '') if len(t[0]) % 2 else ('', '', 'N')))])


PAIRS = [('κ: χ\n# b\na:', 'κ: y\n- χ'), ('-- a\nκ\n-- a', '--- a\nκ\n--- a\n'), ('κ:\n- x', 'κ:\n- y\n- χ'), ('κ:\na = x', 'a:\nκ = y\nb ='), ('# κ\nb: x', '# κ\nb: χ\n## b\n'), ('a: x\nb < κ', 'a: y\nb < a'), ('a:\n- x\nb < a\n- y', 'a:\n- χ\nb < a\n- y'),
         ('# a\nx: y\n# b < κ', '# a\nx: χ\n# b < κ'), ('# a\n## c\nx: 1\n# b << a\n## c\ny: 2', '# a\n## c\nκ: 1\n# b << a\n## c\nx: 2'), ('> χ\na: x', '> y\na: χ'), ('a\nb', 'a: χ'), ('a: x\n| κ', '\na: x\n\\ κ'), ('# a\n> ν\nb:\n', 'a:\nb:\na:')]
STEPS = 'ARQTNML'


def pairs(tier):
    n = 0
    for i, (t, u) in enumerate(PAIRS):
        for x in STEPS:
            for y in STEPS:
                n += 1
                if tier != 'thorough' and (n + i) % 4:
                    continue
                yield dict(t=t, u=u, ops=x, sec=y, o=n % len(OPTIONS), p=(n + i + 1) % len(OPTIONS))


SAY = '%d pairs of documents, %%s%d x %d steps between parsing and reading in the end, every order of the six steps, pairs of %d sets of options' % (len(PAIRS), len(STEPS), len(STEPS), len(OPTIONS))
HARNESSES = {
    'two': dict(fn=two, bounds=dict(quick=SAY % 'a quarter of the ', thorough=SAY % ''), units=lambda tier: list(pairs(tier))),
    'three': dict(fn=three, bounds='three documents, every order of seven steps', units=lambda tier: [dict(t=[t, u, PAIRS[(i + 3) % len(PAIRS)][1].replace('κ', 'b')], o=i) for i, (t, u) in enumerate(PAIRS[::1 if tier == 'thorough' else 3])]),
}
