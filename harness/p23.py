"""Where validation errors point: selections of every error the API can raise or make."""
from harness import large
from harness.queries import *

REQUIRED = {'element', 'key', 'comment', 'comments', 'no comment', 'missing comment', 'value', 'value:copy', 'value:multiline', 'value:conts', 'missing value', 'multiple', 'type', 'missing', 'document', 'untouched'}
M = {'κ': 'ab', 'χ': 'x ', 'ν': LINE, 'ο': ':=<', 'ω': '|\\', 'σ': SPACE, 'λ': '-|>', 'δ': '# ', 'η': '-='}


def last(n):
    """the last line of an element"""
    if n.kind == 'multiline':
        return n.end[0]
    at = n.conts[-1][0] if n.conts else n.line
    return last(n.kids[-1]) if n.kids else at


class Where:
    def __init__(self, text):
        self.text, self.rows = text, text.split('\n')

    def whole(self, n):
        l = last(n)
        return n.line, 0, l, len(self.rows[l])

    def token(self, line, r):
        return line, r[0], line, r[1]

    def key(self, n):
        n = n.parent if n.kind == 'item' else n
        return self.token(n.line, n.tok.ranges['key'])

    def comment(self, n):
        c = n.comments
        if not c:
            return n.line, 0, n.line, 0
        if len(c) == 1:
            return self.token(c[0][0], c[0][1].ranges.get('comment', (0, len(self.rows[c[0][0]]))))
        return c[0][0], 0, c[-1][0], len(self.rows[c[-1][0]])

    def missing_comment(self, n):
        return n.line, 0, n.line, 0

    def operator(self, n):
        r = n.tok.ranges
        for name in ('template', 'element_operator', 'entry_operator', 'item_operator'):
            if name in r:
                return r[name][1]
        return len(self.rows[n.line])

    def missing_value(self, n):
        l = last(n) if n.kind != 'multiline' else n.line
        return n.line, self.operator(n), l, len(self.rows[l])

    def value(self, n):
        """-> (what, selection)"""
        if n.template is not None:
            return 'value:copy', self.key(n)
        if n.kind == 'multiline':
            if not n.lines:
                return 'value:multiline', (n.line, len(self.rows[n.line]), n.line, len(self.rows[n.line]))
            a, b = n.line + 1, n.end[0] - 1
            return 'value:multiline', (a, 0, b, len(self.rows[b]))
        r = n.tok.ranges.get('value')
        if n.conts:
            l = n.conts[-1][0]
            return 'value:conts', (n.line, r[0] if r else self.operator(n), l, len(self.rows[l]))
        return 'value', (n.line, r[0] if r else self.operator(n), n.line, r[1] if r else len(self.rows[n.line]))

    def missing(self, n):
        """something is missing in a section or fieldset"""
        return (0, 0, 0, 0) if n is None else (n.line, len(self.rows[n.line]), n.line, len(self.rows[n.line]))


def at(S, err, want, text, what):
    S.check(is_validation_error(S, err), '%s: not a validation error but %r' % (what, err))
    got = positions(S, text, err.selection)
    S.check(S.eq(err.cursor, err.selection['from']), 'the cursor is not the start of the selection')
    S.check(got == want, '%s: the error points to %r instead of %r' % (what, got, want))
    S.reach(what)


def fail(v):
    raise ValueError('no')


def one(S, w, x, o):
    """every error about one element"""
    n, t = o.node, w.text
    at(S, x.error('m'), w.whole(n), t, 'element')
    at(S, x.key_error('m'), w.key(n), t, 'key')
    at(S, S.call(x.key, fail)[1], w.key(n), t, 'key')
    if o.comments and not n.comments:
        return                      # a comment taken over from the template
    what = 'no comment' if not n.comments else 'comment' if len(n.comments) == 1 else 'comments'
    at(S, x.comment_error('m'), w.comment(n), t, what)
    if o.comment() is None:
        at(S, S.call(x.required_string_comment)[1], w.missing_comment(n), t, 'missing comment')
    else:
        at(S, S.call(x.required_comment, fail)[1], w.comment(n), t, what)


def value(S, w, x, o):
    if o.kind == 'empty' and o.node.template is not None:
        return
    what, where = w.value(o.node)
    at(S, x.value_error('m'), where, w.text, what)
    if o.value is not None:
        at(S, S.call(x.optional_value, fail)[1], where, w.text, what)
    elif o.node.template is None:
        at(S, S.call(x.required_string_value)[1], w.missing_value(o.node), w.text, 'missing value')


def tree(S, w, section, outs, owner):
    t = w.text
    els = section.elements()
    missing = w.missing(owner)
    absent = S.const('zz')
    for k in KINDS:
        at(S, S.call(getattr(section, 'required_' + k), absent)[1], missing, t, 'missing' if owner else 'document')
    at(S, S.call(lambda: section.field(absent).required_string_value())[1], missing, t, 'missing' if owner else 'document')
    for o in outs:
        same = matching(S, outs, o.key)
        if len(same) > 1:
            for k in KINDS:
                at(S, S.call(getattr(section, k), o.key)[1], w.whole(same[0].node), t, 'multiple')
        for k in KINDS:
            if o.kind in FITS[k]:
                continue
            if len(same) == 1:
                at(S, S.call(getattr(section, k), o.key)[1], w.whole(o.node), t, 'type')
            if k != 'empty':
                wrong = [p for p in same if p.kind not in FITS[k]]
                if wrong[0] is not same[0]:
                    continue            # those before it would be yielded
                at(S, S.call(getattr(section, k + 's'), o.key)[1], w.whole(wrong[0].node), t, 'type')
    for e, o in zip(els, outs):
        at(S, S.call(section.assert_all_touched, only=[o.key])[1], w.whole(matching(S, outs, o.key)[0].node), t, 'untouched')
    for e, o in zip(els, outs):
        one(S, w, e, o)
        for k in KINDS:
            if o.kind not in FITS[k]:
                at(S, S.call(getattr(e, 'to_' + k))[1], w.whole(o.node), t, 'type')
        x = getattr(e, 'to_' + ('field' if o.kind == 'empty' else o.kind))()
        one(S, w, x, o)
        if o.kind in ('field', 'empty'):
            value(S, w, x, o)
        elif o.kind == 'section':
            tree(S, w, x, o.kids, o.node)
        elif o.kind == 'list':
            for i, p in zip(x.items(), o.kids):
                one(S, w, i, p)
                value(S, w, i, p)
        else:
            at(S, S.call(x.required_entry, absent)[1], w.missing(o.node), t, 'missing')
            for i, p in zip(x.entries(), o.kids):
                at(S, S.call(x.assert_all_touched, only=[p.key])[1], w.whole(matching(S, o.kids, p.key)[0].node), t, 'untouched')
            for i, p in zip(x.entries(), o.kids):
                one(S, w, i, p)
                value(S, w, i, p)
                same = matching(S, o.kids, p.key)
                if len(same) > 1:
                    at(S, S.call(x.entry, p.key)[1], w.whole(same[0].node), t, 'multiple')


def shape(S, t, pad=''):
    spots(S, doc(S, pad + t, marks=M))


def spots(S, text):
    d, outs, bad = reference(S, text)
    if bad:
        return
    document = S.lib.parse(text)
    for e in (document.error('m'), document.key_error('m'), document.comment_error('m'), S.call(document.required_string_comment)[1]):
        at(S, e, (0, 0, 0, 0), text, 'document')
    tree(S, Where(text), document, outs, None)


DOCS = ['κ: χ\nω ν\nω\n\nκ: x', '> ν\n> ν\nκ: ν\n\nκ:', '>χ\nκ:\nη χ\n> c\nη\n\n', 'κ:\n- x\nω ν\n-\nλ y\n', 'κ:\na = ν\nω\nκ =\nω y\n\n', '-- κ\nν\n-- κ\nb: x', '-- κ\n-- κ\nb < κ', '--κ\n\nν\n  --  κ \nb:x\n',
        '# κ\nb: χ\n\n## b\n> x\n\nδ x\n', '# s\n\n# t\nκ: x\nλ y\n\n## u\n', 'κ: x\nb < κ\nω y', 'κ:\n- x\nω y\nb < κ\nλ y\n', 'g:\na = x\nf < g\nκ = y\nω', '# a\nq: χ\n> χ\nκ:\n# b < a\n> z\nr:\n- x\n', '# a\n## s\nq: x\n# b << a\n## s\nr: χ\n', '`κ`:χ\n`κ`  =ν',
        '``κ``: x\n`` κ``<ν\n', 'κ', '>χ\n\n>χ\n>\nκοχ\n', 'κ:\nω\nω\n\n>\n', 'κ ο χ', 'κ ο χ\nbοχ', '#κ\n##κ\n###κ\n#χ\n', '>χ\nκ:\n> ν\n>χ\n-χ\nωχ\n\nωχ\n-\n']
INDENTED = DOCS[:3] + DOCS[4:7] + DOCS[8:10] + DOCS[12:15] + DOCS[16:17]
HARNESSES = {
    'shape': dict(fn=shape, bounds=dict(quick='%d layouts with solver-chosen keys, operators and characters, every error of every element; %d of them also with white space around every line' % (len(DOCS), len(INDENTED)), thorough='%d layouts, also with white space around every line, after an empty line and after a comment' % len(DOCS)),
                  units=units([dict(t=t) for t in DOCS] + [dict(t=shifted(t)) for t in INDENTED[::2]] + [dict(t=padded(t)) for t in INDENTED], [dict(t=t, pad=p) for t in DOCS for p in ('', '\n', '> c\n\n', 'κ:\n')] + [dict(t=f(t)) for t in DOCS for f in (shifted, padded)])),
    'words': words(spots),
    'sequence': sequence(spots, pre=('', '# s\nl:\n- x\nm < l\nf:\nk = x\ng < f\n')),
    'extreme': large.entry(spots, large.EVERYTHING, 'beyond all limits', quick=large.SELECTED),
    'large': large.entry(spots, large.GOOD + large.MANY + large.COPIED[:3], quick=large.GOOD[1:] + large.MANY[:5]),
}
