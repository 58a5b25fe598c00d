"""Reading changes nothing: whatever was asked before, in whatever order, a document reads the same."""
from harness.queries import *

REQUIRED = {'raw', 'tree', 'errors', 'queries', 'touch', 'copies', 'twice', 'then', 'again'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\'}


def reports(S, x):
    """every error that can be made about an element and its children"""
    out = [x.error('m'), x.key_error('m'), x.comment_error('m'), S.call(x.required_string_comment)[1]]
    return [e and (e.text, e.snippet) for e in out]


def everything(S, x, visit):
    """visit every element below x"""
    for e in x.elements():
        visit(e)
        k = observe.kind(e)
        if k == 'section':
            y = e.to_section()
            visit(y)
            everything(S, y, visit)
        elif k in ('list', 'fieldset'):
            y = getattr(e, 'to_' + k)()
            visit(y)
            for i in y.items() if k == 'list' else y.entries():
                visit(i)


def perform(S, op, document, text):
    if op == 'r':
        everything(S, document, lambda x: x.raw())
        document.raw()
        S.reach('raw')
    elif op == 'o':
        observe.elements(document)
        S.reach('tree')
    elif op == 'e':
        everything(S, document, lambda x: reports(S, x))
        S.reach('errors')
    elif op == 'q':
        for k in KINDS:
            for f in (k, 'optional_' + k, 'required_' + k) + ((k + 's',) if k != 'empty' else ()):
                if k in ('element', 'section'):
                    for key in 'ab':
                        S.call(getattr(document, f), S.const(key))
                    S.call(getattr(document, f))
        S.reach('queries')
    elif op == 't':
        document.touch()
        S.call(document.assert_all_touched)
        S.reach('touch')
    elif op == 'f':
        S.call(document.assert_all_touched, lambda e: e.string_key())
        everything(S, document, lambda x: S.call(x.required_string_comment))
    elif op == 'p':
        everything(S, document, lambda x: x.parent() if hasattr(x, 'parent') else None)
    else:
        everything(S, document, repr)


OPS = 'roeqtfpz'


def history(S, t, n):
    """n operations chosen by the solver, then the document is read"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    ops = S.text('ops', n, OPS)
    document = S.lib.parse(text)
    for i in range(n):
        perform(S, pick(S, ops[i], OPS), document, text)
    want = eno.plain(outs)
    S.check(S.eq(observe.elements(document), want), 'the document reads differently after it was used')
    raw = document.raw()
    S.check(S.eq(observe.raw(raw['elements']), want), 'raw() differs after the document was used')
    spoil(raw)
    S.check(S.eq(observe.raw(document.raw()['elements']), want), 'changing a result of raw() changes the document')
    if '<' in t:
        S.reach('copies')


def spoil(r):
    """change everything that can be changed in a result of raw()"""
    for k in ('elements', 'items', 'entries'):
        for x in r.get(k, ()):
            spoil(x)
        if k in r:
            r[k].append({'type': 'field', 'key': 'spoilt', 'value': 'spoilt'})
    r['key'] = 'spoilt'
    r['value'] = 'spoilt'


def twice(S, t, bad):
    """two documents from the same text are independent, and errors are the same"""
    text = doc(S, t, marks=M)
    (a, ae), (b, be) = parse(S, text), parse(S, text)
    S.check((ae is None) == (be is None), 'the same text is accepted once and rejected once')
    if ae is not None:
        S.check(S.eq([ae.text, ae.snippet, ae.selection], [be.text, be.snippet, be.selection]), 'the same text is rejected in two ways')
    else:
        first = observe.elements(a)
        everything(S, a, lambda x: x.touch() if x.raw() else None)
        S.check(S.call(a.assert_all_touched)[1] is None, 'touching everything is not enough')
        S.check((S.call(b.assert_all_touched)[1] is not None) == (len(first) > 0), 'reading one document touches another')
        S.check(S.eq(first, observe.elements(b)), 'the same text reads in two ways')
        S.reach('twice')


def outcome(S, text, **options):
    """all that can be seen of a text"""
    d, err = parse(S, text, **options)
    if err is not None:
        S.check(is_parse_error(S, err), 'parsing raised %r' % (err,))
        return [err.text, err.snippet, err.selection]
    out = [observe.elements(d), d.raw()]
    everything(S, d, lambda x: out.append(reports(S, x)))
    for key in 'ab':
        for f in (d.element, d.field, d.required_list, d.optional_fieldset, d.section):
            x, e = S.call(f, S.const(key))
            out.append([getattr(e, a, None) for a in ('text', 'snippet', 'selection')] if e is not None else x and x.raw())
    return out


def then(S, t, u):
    """one document, another one, and the first again: nothing is left behind"""
    first = S.text('first', len(t), [dict(MARKS, **M).get(c, c) for c in t])
    second = doc(S, u, marks=M)
    a = outcome(S, first)
    d, outs, bad = reference(S, second)
    b = outcome(S, second)
    if not bad:
        S.check(isinstance(b[0], list), 'a document is rejected after another one was read')
        S.check(S.eq(b[0], eno.plain(outs)), 'a document reads differently after another one was read')
    S.check(S.eq(outcome(S, first), a), 'a document is different after another one was read')
    S.check(S.eq(outcome(S, second), b), 'a document is different the second time')
    S.reach('then')


def errors(S, t, op):
    """an error is the same whatever was read before it"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    fresh, used = S.lib.parse(text), S.lib.parse(text)
    a, b = [], []
    everything(S, fresh, lambda x: a.append(reports(S, x)))
    perform(S, op, used, text)
    everything(S, used, lambda x: b.append(reports(S, x)))
    S.check(S.eq(a, b), 'errors look different after the document was used')
    S.reach('again')


DOCS = ['κ: χ\nω ν\nκ:\n- x\n> ν\n-', '> χ\n>ν\nκ:\nκ = χ\nω\nb =', '# κ\nb: x\n## c\n# d < κ\nb: y\n', '-- κ\nν\n-- κ\nb < κ', 'a:\n- χ\nb < a\n- χ\nc < b\n- x', 'a:\nκ = x\nb < a\nκ = y\nc < b\nκ = z', '# a\n> ν\nκ:\n# b < a\n# c << b\n', '# a\n## κ\nx: y\n# b << a\n## κ\nz: χ\n# c << b\n',
        'a: χ\nb < a\nω ν\nc < b', 'κ\nν', 'a:\nb < a\nχοy', '# a < b\nκ:x\n# b\nκ:y\n']
# copies that are resolved in the other order, and errors
TWICE = DOCS + ['c < b\nb < a\na: χ', 'd < c\nc < b\nb < a\n- ν\na:\n- x', 'Κ < Κ\nΚ < Κ\nΚ: x', '# c < b\n# b < a\n# a\nκ: x', '# d << c\n# c < b\n## κ\nx: y\n# b << a\n# a\n## κ\nz: χ', '# Κ < Κ\n# Κ < Κ\n# Κ\nx: y', '# a\n## b < c\n# c\n## d < e\n# e\nf: κ',
                '-- κ\nν\n', '`κ: x', '# κ\n### κ', 'κ: x\nκ: y\nb < κ', '- ν', 'a: x\n- ν', '| ν', 'a = ν', 'b < a\na: x\n# b < a']
PAIRS = [('κ: χ', 'κ: y'), ('-- a\nκ\n-- a', '--- a\nκ\n--- a\n'), ('-- κ\nx\n-- κ', '-- κ\n\nx\n-- κ'), ('κ:\n- x', 'κ:\n- y\n- χ'), ('κ:\na = x', 'a:\nκ = y\nb ='), ('# κ\nb: x', '# κ\nb: χ\n## b\n'), ('a: x\nb < κ', 'a: y\nb < κ'), ('a:\n- x\nb < a\n- y', 'a:\n- χ\nb < a\n- y'),
         ('# a\nx: y\n# b < κ', '# a\nx: χ\n# b < κ'), ('# a\n## c\nx: 1\n# b << a\n## c\ny: 2', '# a\n## c\nκ: 1\n# b << a\n## c\nx: 2'), ('> χ\na: x', '> y\na: χ'), ('> κ\n> b\na:', '> κ\n>  b\na:'), ('κ < a\na < b', 'a: x\nb < a'), ('c < b\nb < a\na: x', 'c < b\nb < a\na: χ'),
         ('a\nb', 'a: χ'), ('# a\nκ', '# a\nκ: x'), ('a: x\n| κ', 'a: x\n\\ κ'), ('`κ`: x', '``κ``: χ'), ('a: x\nb: χ', 'c: y\na: x')]
HARNESSES = {
    'then': dict(fn=then, bounds='%d pairs of documents, read in turn' % len(PAIRS), units=lambda tier: [dict(t=t, u=u) for t, u in PAIRS] + [dict(t=u, u=t) for t, u in PAIRS]),
    'history': dict(fn=history, bounds=dict(quick='%d layouts, every history of up to 2 of %d kinds of operations' % (len(DOCS), len(OPS)), thorough='%d layouts, every history of up to 3 of %d kinds of operations' % (len(DOCS), len(OPS))),
                    units=units([dict(t=t, n=n) for t in DOCS for n in (0, 1, 2)], [dict(t=t, n=n) for t in DOCS for n in (0, 1, 2, 3)])),
    'twice': dict(fn=twice, bounds=dict(quick='%d layouts; every text of 3 characters' % len(TWICE), thorough='%d layouts; every text of up to 5 characters' % len(TWICE)),
                  units=units([dict(t=t, bad=False) for t in TWICE] + [dict(t='ΩΩΩ', bad=True)], [dict(t=t, bad=False) for t in TWICE] + [dict(t='Ω' * n, bad=True) for n in range(6)])),
    'errors': dict(fn=errors, bounds='%d layouts, every error of every element, after each of %d kinds of operations' % (len(DOCS), len(OPS)), units=lambda tier: [dict(t=t, op=op) for t in DOCS for op in OPS]),
}
