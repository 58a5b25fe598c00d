"""repr(): every element can be printed, says what it is, and stays unread."""
from harness import common, large
from harness.queries import *
from harness.lookups import owner

REQUIRED = {'document', 'empty', 'field', 'list', 'fieldset', 'section', 'item', 'entry', 'none', 'short', 'long', 'feed', 'untouched', 'touched', 'missing', 'missing:anonymous', 'lookup', 'lookup:item', 'lookup:document'}
M = {'κ': 'ab', 'ι': INK, 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'λ': '-|>', 'δ': '# '}
NAMES = {'empty': 'Empty', 'field': 'Field', 'list': 'List', 'fieldset': 'Fieldset', 'section': 'Section', 'item': 'ListItem', 'entry': 'FieldsetEntry'}


def preview(S, value):
    """how a value is shown: abbreviated, on one line"""
    if value is None:
        S.reach('none')
        return S.const('None')
    S.reach('long' if len(value) > 14 else 'short')
    out = S.const('')
    for c in value[:11] if len(value) > 14 else value:
        if S.same(c, '\n'):
            S.reach('feed')
            c = '\\n'
        out = out + c
    return out + '...' if len(value) > 14 else out


def shows(S, x, want, what):
    # repr() itself would turn a symbolic text into a plain one
    S.check(S.eq(x.__repr__(), want), 'repr() of %s is another' % what)


def words(S, o):
    """what is printed of an element"""
    n = NAMES[o.kind]
    if o.kind == 'item':
        return S.const('<class ListItem value=') + preview(S, o.value) + '>'
    if o.kind == 'section':
        return S.const('<class Section key="') + o.key + '" elements=%d>' % len(o.kids)
    head = S.const('<class %s key=' % n) + o.key
    if o.kind == 'empty':
        return head + '>'
    if o.kind == 'list':
        return head + ' items=%d>' % len(o.kids)
    if o.kind == 'fieldset':
        return head + ' entries=%d>' % len(o.kids)
    return head + ' value=' + preview(S, o.value) + '>'


def down(S, section, outs):
    leaves = 0
    for e, o in zip(section.elements(), outs):
        shows(S, e, S.const('<class SectionElement key=') + o.key + '>', 'a section element')
        x = getattr(e, 'to_' + o.kind)()
        shows(S, x, words(S, o), 'a ' + o.kind)
        shows(S, e, S.const('<class SectionElement key=') + o.key + '>', 'a converted section element')
        S.reach(o.kind)
        if o.kind == 'section':
            leaves += down(S, x, o.kids)
        elif o.kind in ('list', 'fieldset'):
            for i, p in zip(x.items() if o.kind == 'list' else x.entries(), o.kids):
                shows(S, i, words(S, p), 'an ' + p.kind)
                S.reach(p.kind)
                leaves += 1
        else:
            leaves += 1
    return leaves


def tree(S, t):
    whole(S, doc(S, t, marks=M))


def whole(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    shows(S, document, S.const('<class Section document elements=%d>' % len(outs)), 'the document')
    err = S.call(document.assert_all_touched)[1]
    S.check((err is not None) == bool(outs), 'printing the document touched its elements')
    S.reach('document')
    leaves = down(S, document, outs)
    err = S.call(document.assert_all_touched)[1]
    if leaves:
        S.check(err is not None and is_validation_error(S, err), 'printing an element touched it')
        S.reach('untouched')
    else:
        S.check(err is None, 'nothing was left, but something is untouched: %r' % (err,))
        S.reach('touched')
    S.check(S.eq(observe.elements(document), eno.plain(outs)), 'the document reads differently after printing')


def missing(S, t):
    document = S.lib.parse(doc(S, t, marks=M))
    key = S.text('key', 2, [INK, LINE])
    if any(S.same(e.string_key(), key) for e in document.elements()):
        return
    todo = [document]
    for depth in range(2):
        section = todo.pop()
        for kind, name in (('element', 'SectionElement'), ('empty', 'Empty'), ('field', 'Field'), ('fieldset', 'Fieldset'), ('list', 'List'), ('section', 'Section')):
            x = getattr(section, kind)(key)
            shows(S, x, S.const('<class Missing%s key=' % name) + key + '>', 'a missing ' + kind)
            if kind == 'section':
                todo.append(x)
            if kind == 'fieldset':
                shows(S, x.entry(key), S.const('<class MissingFieldsetEntry key=') + key + '>', 'a missing entry')
                shows(S, x.entry(), S.const('<class MissingFieldsetEntry>'), 'a missing entry')
            if kind == 'element':
                for k in ('empty', 'field', 'fieldset', 'list', 'section'):
                    shows(S, getattr(x, 'to_' + k)(), S.const('<class Missing%s key=' % k.capitalize()) + key + '>', 'a converted missing element')
            if depth:
                shows(S, getattr(section, kind)(), S.const('<class Missing%s>' % name), 'a missing %s of any key' % kind)
                S.reach('missing:anonymous')
        S.reach('missing')


def found(S, t):
    """what lookup() finds can be printed"""
    text = doc(S, t, marks=M)
    d, outs, bad = reference(S, text)
    if bad:
        return
    line = S.index(S.int('line', 0, len(text.split('\n')) - 1))
    node = owner(d, line)
    e = S.lib.lookup(text, line=line, column=0)['element']
    got, err = S.call(e.__repr__)
    S.check(err is None, 'what lookup() found cannot be printed: %r' % (err,))
    if node is d:
        S.reach('lookup:document')
        return
    S.check(S.eq(got, S.const('<class Element key=') + (node.parent if node.kind == 'item' else node).key + '>'), 'what lookup() found is printed otherwise')
    S.reach('lookup:item' if node.kind == 'item' else 'lookup')


DOCS = ['κ: χ\nω ν\nω\n\nκ: x', 'ι:\nι: ι\n', 'κ: xxxxxxxxxxxνν\nν', 'κ: xxxxxxxxxxxxxxx\nωννν\n', '-- κ\nν\nν\n-- κ', '-- κ\nxxxxxxxxx\nν\nν\nx\n-- κ', '-- κ\n\n-- κ\n-- b\n-- b', 'κ:\n-ν\n- x\nωνν\n-\n', 'κ:\nι=\nb=ν\nι = xxxxxxxxxxxxνν', '-- κ\nxxxxxxxxxx\nxx\nx\n-- κ\nb < κ\n',
        '# ι\nκ:\n## b\n### c\nx: ν\n# d', '#κ\nδb\n#c\nl:\n- x\nm < l\n- y\n', 'f:\nκ = x\ng < f\nb = χ\n', '# a\n## κ\nx: y\n# b << a\n## κ\nx: z\ny:\n# c < b', '> ν\nκοχ\nκοχ', 'κ\nν', '# a\n# κ\n## b\n', '', '#κ\n#κ']
HARNESSES = {
    'tree': dict(fn=tree, bounds='%d layouts with solver-chosen keys, values and line kinds' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'missing': dict(fn=missing, bounds='every missing key of two characters in four documents, two levels of missing elements', units=lambda tier: [dict(t=t) for t in ('', 'κ:', '# κ\na:', 'κ: x')]),
    'found': dict(fn=found, bounds='every line of %d layouts' % len(DOCS), units=lambda tier: [dict(t=t) for t in DOCS]),
    'lines': dict(fn=tree, bounds=dict(quick='every text of 6 characters over a - : = > | # and the line feed', thorough='every text of 8 characters over a - : = > | # and the line feed'), units=lambda tier: [dict(t='ψ' * (6 if tier == 'quick' else 8))]),
    'words': common.words(whole),
    'sequence': sequence(whole),
    'extreme': large.entry(whole, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(whole, large.MANY + large.GOOD + large.SECTION_COPIES + large.COPIED),
}
M['ψ'] = 'a-:=>|#\n'
