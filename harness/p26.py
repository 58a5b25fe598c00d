"""register(): a registered loader gives accessors that work like the generic ones with that loader."""
from harness.queries import *

REQUIRED = {'list', 'dict', 'keyword', 'key', 'comment', 'value', 'values', 'missing', 'error', 'again', 'class'}
M = {'κ': LINE, 'χ': 'x ', 'ν': LINE, 'ο': '|\\'}


class Loader:
    """answers with its own name; refuses texts that begin with a character chosen by the solver"""

    def __init__(self, S, name, refuse):
        self.S, self.__name__, self.refuse, self.seen = S, name, refuse, []

    def __call__(self, text):
        self.seen.append(text)
        if text is not None and len(text) and self.S.same(text[0], self.refuse):
            raise ValueError('not ' + self.__name__)
        return [self.__name__, text]


def as_class(f):
    """a class can be a loader as well"""
    def new(cls, text):
        cls.seen.append(text)
        if text is not None and len(text) and f.S.same(text[0], f.refuse):
            raise ValueError('not ' + f.__name__)
        return [f.__name__, text]
    return type(f.__name__, (), {'__new__': new, 'seen': []})


def enlist(S, loaders, way):
    """the ways of registering"""
    register = S.lib.mod('register').register
    if way == 'list':
        register(*loaders)
    elif way == 'dict':
        register({f.__name__: f for f in loaders})
    elif way == 'keyword':
        register(**{f.__name__: f for f in loaders})
    else:
        register(loaders[0], {f.__name__: f for f in loaders[1:2]}, **{f.__name__: f for f in loaders[2:]})
    S.reach('dict' if way == 'mixed' else way)


def alike(S, f, ask, generic):
    """the registered accessor and the generic one agree, and call the loader alike"""
    f.seen = []
    a, ae = S.call(ask)
    x, f.seen = f.seen, []
    b, be = S.call(generic, f)
    S.check(S.eq(x, f.seen), 'the loader is called with something else')
    S.check((ae is None) == (be is None), 'only one of the accessors fails: %r, %r' % (ae, be))
    if ae is None:
        S.check(S.eq(a, b), 'the registered accessor answers differently')
    else:
        S.check(type(ae) is type(be) and S.eq(ae.text, be.text) and S.eq(ae.selection, be.selection) and S.eq(ae.snippet, be.snippet), 'another error')
        S.reach('error')


def element(S, f, x):
    n = f.__name__
    alike(S, f, getattr(x, n + '_key'), x.key)
    S.reach('key')
    for how in ('optional', 'required'):
        for what in ('comment', 'value', 'values'):
            generic = getattr(x, '%s_%s' % (how, what), None)
            mine = getattr(x, '%s_%s_%s' % (how, n, what), None)
            S.check((generic is None) == (mine is None), 'the accessor %s_%s_%s is missing' % (how, n, what))
            if generic:
                alike(S, f, mine, generic)
                S.reach(what)


def everything(S, loaders, document):
    for f in loaders:
        for e in document.elements():
            element(S, f, e)
            for kind in ('field', 'list', 'fieldset', 'section', 'empty'):
                if getattr(e, 'yields_' + kind)():
                    x = getattr(e, 'to_' + kind)()
                    element(S, f, x)
                    for y in x.items() if kind == 'list' else x.entries() if kind == 'fieldset' else ():
                        element(S, f, y)
                    break


def loaders_of(S, names, classes=False):
    loaders = [Loader(S, n, S.text('refuse_' + n, 1, 'xa' if i else LINE)) for i, n in enumerate(names)]
    return [as_class(f) for f in loaders] if classes else loaders


def registered(S, t, names, way, classes=False):
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    loaders = loaders_of(S, names, classes)
    enlist(S, loaders, way)
    if classes:
        S.reach('class')
    everything(S, loaders, S.lib.parse(text))


def again(S, t, way, way2):
    """registering a name again replaces its loader, and only its"""
    old, new, other = (Loader(S, n, S.text('refuse%d' % i, 1, LINE)) for i, n in enumerate(('again', 'again', 'other')))
    enlist(S, [old, other], way)
    enlist(S, [new], way2)
    old.seen = []
    everything(S, [new, other], S.lib.parse(doc(S, t, marks=M)))
    S.check(old.seen == [], 'the replaced loader is still called')
    S.reach('again')


def missing(S, names, way):
    """on missing elements registered accessors work like the string ones"""
    loaders = loaders_of(S, names)
    enlist(S, loaders, way)
    document = S.lib.parse(S.const('a: x'))
    key = S.text('key', 1, 'xyz')
    for f in loaders:
        for kind in KINDS:
            x = getattr(document, kind)(key)
            pairs = [('%s_key', 'string_key')] + [('%s_%%s_%s' % (h, w), '%s_string_%s' % (h, w)) for h in ('optional', 'required') for w in ('comment', 'value', 'values')]
            for mine, generic in pairs:
                generic, mine = getattr(x, generic, None), getattr(x, mine % f.__name__, None)
                S.check((generic is None) == (mine is None), 'a registered accessor is missing on a missing element')
                if generic:
                    alike(S, f, mine, lambda _: generic())
        S.check(f.seen == [], 'the loader is called for a missing element')
    S.reach('missing')


DOCS = ['κ: ν', '>χ\nκ:\nο ν', 'l:\n- χ\n> ν\n-\n- ν', '> ν\nf:\nκ = ν\n>χ\nb =', '> ν\n# κ\n', '-- κ\nν\n-- κ', 'a: ν\nκ < a', 'κ:']
WAYS = ('list', 'dict', 'keyword', 'mixed')
HARNESSES = {
    'registered': dict(fn=registered, bounds=dict(quick='%d layouts, up to three loaders registered in four ways' % len(DOCS), thorough='%d layouts, up to four loaders registered in four ways' % len(DOCS)),
                       units=lambda tier: [dict(t=t, names=names, way=w) for t in DOCS for w in WAYS for names in (['color'], ['color', 'bigSize', 'n9']) + ((['a', 'b', 'c', 'd'],) if tier == 'thorough' else ())] + [dict(t=t, names=['Color', 'n9'], way=w, classes=True) for t in DOCS for w in WAYS[:2]]),
    'again': dict(fn=again, bounds='four ways of registering, twice', units=lambda tier: [dict(t=t, way=w, way2=v) for t in ('k: ν', '> ν\nl:\n- ν') for w in WAYS for v in WAYS[:3]]),
    'missing': dict(fn=missing, bounds='six kinds of missing elements, four ways of registering', units=lambda tier: [dict(names=['color', 'bigSize', 'n9'], way=w) for w in WAYS]),
}
