"""Locale, reporter and source label: they change words and presentation, never the outcome."""
import os
import re

from harness.queries import *
from harness.p13 import BAD

REQUIRED = {'catalogue', 'rejected', 'query', 'value', 'tree', 'source', 'headers'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\'}
LOCALES = ('en', 'de', 'es')
ROOT = os.path.join(os.environ.get('ENOLIB_REPO', '/repo'), 'locales')


def specification():
    """the canonical catalogue -> {python name: (arguments, English text)}"""
    out, name, on = {}, None, False
    for line in open(os.path.join(ROOT, 'specification.eno'), encoding='utf-8'):
        line = line.rstrip('\n')
        if line.startswith('#'):
            on = line.startswith('# Messages') or (on and line.startswith('## '))
            group = line.strip('# ')
        elif on and line.endswith(':'):
            name = line[:-1]
        elif on and ' = ' in line and name:
            args, _, text = line.partition(' = ')
            out[name] = ([a.strip() for a in args.split(',')], text)
            name = None
        elif on and ': ' in line and group != 'Terminology':
            key, _, text = line.partition(': ')
            out[key] = ([], text)
    return {k.lower().replace(' ', '_').replace('-', '_'): v for k, v in out.items()}


def translations(locale):
    """English text -> translation"""
    body = open(os.path.join(ROOT, 'translations', locale + '.po'), encoding='utf-8').read()
    return dict(re.findall(r'msgid "(.*)"\nmsgstr "(.*)"', body))


def template(locale, name):
    args, text = specification()[name]
    return args, translations(locale).get(text) or text


def fill(S, args, text, values):
    out = S.const('')
    for part in re.split(r'(\[[A-Z]+\])', text):
        out = out + (values[args.index(part[1:-1])] if part[1:-1] in args else part)
    return out


def catalogue(S, locale, name, n):
    """a message is its translation with the arguments filled in"""
    args, text = template(locale, name)
    m = getattr(S.lib.mod('messages.' + locale), name, None)
    S.check(m is not None, 'the message %s does not exist' % name)
    if not args:
        S.check(isinstance(m, str) and m == text, 'the message %s is not the one of the catalogue' % name)
    else:
        values = [S.text('arg%d' % i, n, ANY) for i in range(len(args))]
        got, err = S.call(m, *values)
        S.check(err is None and S.eq(got, fill(S, args, text, values)), 'the message %s is not the one of the catalogue' % name)
    S.reach('catalogue')


def options(S, locale, reporter, source):
    return dict(locale=S.lib.mod('messages.' + locale), reporter=getattr(S.lib.mod('reporters'), reporter), source=source)


def headers(S, err, opts):
    """the words of the reporter"""
    m = opts['locale']
    S.check(opts['reporter'].__name__ == 'TerminalReporter' or (m.gutter_header in err.snippet and m.content_header in err.snippet), 'the headers are not those of the locale')
    S.check(S.eq(err.message, err.text + '\n\n' + err.snippet) and S.eq(str(err.args[0]), err.message), 'the message is not made of text and snippet')
    S.reach('headers')
    if opts['source'] is not None:
        S.check(opts['source'] in err.snippet, 'the source is not named')
        S.reach('source')


def rejected(S, t, locale, reporter, source):
    """the same parse error in other words"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if not bad:
        return
    opts = options(S, locale, reporter, source)
    a, b = parse(S, text)[1], parse(S, text, **opts)[1]
    S.check(b is not None and is_parse_error(S, b), 'a document is rejected or not depending on the options')
    S.check(S.eq(a.selection, b.selection) and S.eq(b.cursor, a.cursor), 'the selection depends on the options')
    hit = [x for x in bad if S.same(expected_error(S, text, x)[0], a.text)]
    S.check(any(S.same(reword(S, text, x, opts['locale']), b.text) for x in hit), 'the message is not the one of the locale: ' + b.text)
    headers(S, b, opts)
    S.reach('rejected')


def reword(S, text, bad, m):
    class Lib:
        mod = staticmethod(lambda name: m)

    class T:
        lib = Lib
    return expected_error(T, text, bad)[0]


def queries(S, t, kind, how, locale, reporter, source):
    """the same answers and errors, in other words"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    key = S.text('key', 1, 'abc') if how != 'plain' else None
    opts = options(S, locale, reporter, source)
    (x, a), (y, b) = fetch(S, S.lib.parse(text), kind, key, how), fetch(S, S.lib.parse(text, **opts), kind, key, how)
    S.check((a is None) == (b is None), 'the answer depends on the options')
    if a is None:
        return S.check(type(x).__name__ == type(y).__name__, 'the answer depends on the options')
    want = plural(S, outs, kind, key) if how == 'plural' else single(S, outs, kind, key, how)
    S.check(S.eq(b.text, message(S, want[1], key, locale)), 'the message is not the one of the locale: ' + b.text)
    S.check(S.eq(a.selection, b.selection), 'the selection depends on the options')
    headers(S, b, opts)
    S.reach('query')


def fail(v):
    raise ValueError('no')


def values(S, t, locale, reporter, source):
    """errors about keys, comments, values and untouched elements"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad or not outs:
        return
    opts, m = options(S, locale, reporter, source), S.lib.mod('messages.' + locale)
    two = S.lib.parse(text, **opts)
    for x in (S.call(two.assert_all_touched)[1],):
        S.check(S.eq(x.text, m.unexpected_element), 'the message is not the one of the locale')
    o, x = outs[0], two.elements()[0]
    errs = [(x.key_error('no'), m.key_error('no')), (S.call(x.key, fail)[1], m.key_error('no')), (x.comment_error('no'), m.comment_error('no'))]
    errs += [(S.call(x.required_string_comment)[1], m.missing_comment)] if o.comment() is None else [(S.call(x.required_comment, fail)[1], m.comment_error('no'))]
    for k in KINDS[1:]:
        if o.kind not in FITS[k]:
            errs.append((S.call(getattr(x, 'to_' + k))[1], getattr(m, 'expected_' + k)))
    y = getattr(x, 'to_' + o.kind)() if o.kind != 'empty' else x.to_field()
    if o.kind in ('empty', 'field'):
        errs.append((y.value_error('no'), m.value_error('no')))
        errs.append((S.call(y.required_string_value)[1], m.missing_field_value(o.key)) if o.value is None else (S.call(y.optional_value, fail)[1], m.value_error('no')))
    if o.kind in ('list', 'fieldset') and o.kids:
        i, p = (y.items() if o.kind == 'list' else y.entries())[0], o.kids[0]
        errs.append((i.value_error('no'), m.value_error('no')))
        if p.value is None:
            errs.append((S.call(i.required_string_value)[1], m.missing_list_item_value(o.node.key) if o.kind == 'list' else m.missing_fieldset_entry_value(p.key)))
    if o.kind == 'fieldset':
        errs.append((S.call(y.required_entry, 'zz')[1], m.missing_fieldset_entry_with_key('zz')))
        for p in o.kids:
            if len(matching(S, o.kids, p.key)) > 1:
                errs.append((S.call(y.entry, p.key)[1], m.expected_single_fieldset_entry_with_key(p.key)))
        if len(o.kids) > 1:
            errs.append((S.call(y.entry)[1], m.expected_single_fieldset_entry))
        if not o.kids:
            errs.append((S.call(y.required_entry)[1], m.missing_fieldset_entry))
    for err, want in errs:
        S.check(is_validation_error(S, err) and S.eq(err.text, want), 'the message is not the one of the locale: %r' % (err,))
        headers(S, err, opts)
    S.reach('value')


def tree(S, t, locale, reporter, source):
    """the same reading"""
    text = doc(S, t, marks=M)
    same_tree(S, text, **options(S, locale, reporter, source))
    S.reach('tree')


GOOD = ['κ: χ\nω ν\nκ:\n- x\n', '> ν\n# s\nκ:\nκ = χ\n\n## t < s\n', 'κοχ', 'κ\nν', '-- κ\nν\n-- κ\nb < κ', '#κ\nb: χ\n#b < κ\nc:', 'κ: x\nbοΚ']
FIRST = ['κ: χ\nω ν', '> ν\nκ:', '-- κ\nν\n-- κ', '-- κ\n-- κ', 'κ:\n-χ\n-', 'κ:\nκ=χ\nb=', '>χ\n# κ\nb:', 'κ:\na=χ\n', 'g:\nf < g', 'κ:\nb=x\nκ=y']
LAYOUTS = ['', 'κ: x\nκ:', 'κ:\n- x\nκ: y', 'κ:\na = x', '# κ\nb: x', '-- κ\nx\n-- κ\nb:']
WAYS = [('de', 'TextReporter', None), ('es', 'TerminalReporter', 'src'), ('de', 'HtmlReporter', 'src'), ('en', 'TextReporter', 'src')]
NAMES = sorted(specification())


def ways(lst, tier):
    """every third way for every layout, or all of them"""
    return [dict(p, locale=w[0], reporter=w[1], source=w[2]) for i, p in enumerate(lst) for j, w in enumerate(WAYS) if tier == 'thorough' or (i + j) % 2 == 0]


HARNESSES = {
    'catalogue': dict(fn=catalogue, bounds=dict(quick='all messages of the three locales, every argument of 1 character', thorough='all messages of the three locales, every argument of 3 characters'),
                      units=lambda tier: [dict(locale=l, name=n, n=k) for l in LOCALES for n in NAMES for k in ((1, 3) if tier == 'thorough' else (1,))]),
    'rejected': dict(fn=rejected, bounds='%d layouts of rejected documents, four combinations of locale, reporter and source' % len(BAD), units=lambda tier: ways([dict(t=t) for t in BAD], tier)),
    'queries': dict(fn=queries, bounds='%d layouts, every accessor, four combinations of locale, reporter and source' % len(LAYOUTS), units=lambda tier: ways([dict(t=t, kind=k, how=h) for t in LAYOUTS for k in KINDS for h in ('plain', 'required', 'plural', 'optional') if (k, h) != ('empty', 'plural')], tier)),
    'values': dict(fn=values, bounds='%d layouts, every error about the first element' % len(FIRST), units=lambda tier: ways([dict(t=t) for t in FIRST], 'thorough')),
    'tree': dict(fn=tree, bounds='%d layouts, four combinations of locale, reporter and source' % len(GOOD), units=lambda tier: ways([dict(t=t) for t in GOOD], 'thorough')),
}
