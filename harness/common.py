"""Shared by the harnesses: symbolic documents and comparisons with the reference."""
from engine import charset as CS
from ref import eno, observe

ANY = CS.UNIVERSE
LINE = CS.comp(CS.of('\n'))                 # any character but the line feed
SPACE = CS.inter(CS.SPACE, LINE)            # white space within a line
INK = CS.comp(CS.SPACE)                     # any visible character
SAFE = CS.comp(CS.norm(CS.SPACE + CS.of('`#<>:=|\\-')))     # no white space, no operator

# a marker in a document template stands for one symbolic character
MARKS = {
    'κ': 'ab',          # key letter: equalities between keys are left to the solver
    'Κ': 'abc',
    'ν': LINE,
    'ι': INK,
    'α': SAFE,
    'σ': SPACE,
    'χ': 'x ',          # a character or nothing
    'ο': ':=',
    'λ': 'a-|\\>#',     # line kinds by first character
    'Ω': ANY,
}


def doc(S, template, name='text', marks=None):
    """one symbolic text: markers become symbolic characters, everything else is literal"""
    m = dict(MARKS, **marks) if marks else MARKS
    return S.text(name, len(template), [m.get(c, c) for c in template])


def is_parse_error(S, e):
    return isinstance(e, S.lib.mod('error_types').ParseError)


def is_validation_error(S, e):
    return isinstance(e, S.lib.mod('error_types').ValidationError)


def reference(S, text):
    """-> (doc, outs, None) or (doc, None, [Bad...]): the errors the document admits"""
    try:
        d = eno.parse(S, text)
    except eno.Bad as b:
        return None, None, [b]
    errs = eno.resolve_errors(S, d)
    if errs:
        return d, None, [eno.Bad(k, l, key=key, node=n) for k, l, key, n in errs]
    return d, eno.resolve(S, d), None


def parse(S, text, **k):
    return S.call(S.lib.parse, text, **k)


def expect(S, text, **k):
    """parse; -> (document, outs) if the reference accepts the text, (None, None) if both reject it"""
    d, outs, bad = reference(S, text)
    document, err = parse(S, text, **k)
    if bad:
        S.check(err is not None and is_parse_error(S, err),
                'a document with an error (%s in line %d) was not rejected with a ParseError' % (bad[0].kind, bad[0].line))
        S.reach('reject:' + bad[0].kind)
        return None, None
    S.check(err is None, 'a valid document was rejected: %r' % (err,))
    return document, outs


def same_tree(S, text, **k):
    """the public reading of the document equals the reference reading"""
    document, outs = expect(S, text, **k)
    if document is None:
        return None, None
    got = observe.elements(document)
    S.check(S.eq(got, eno.plain(outs)), 'the document read back differs from what the text says')
    S.note(got)
    tags(S, outs)
    return document, outs


def tags(S, outs):
    for o in outs:
        S.reach(o.kind)
        if o.kids:
            tags(S, o.kids)


def units(quick, thorough):
    return lambda tier: thorough if tier == 'thorough' else quick


def indent(text, n):
    return '\n'.join([''] * n) + text


def shifted(template):
    """the template with white space in front of every line outside of multiline fields"""
    out, inside = [], False
    for row in template.split('\n'):
        ends = row.startswith('--')
        out.append(row if inside and not ends or not row else 'σ' + row)
        inside ^= ends
    return '\n'.join(out)


def padded(template, indent='  ', trail=' \t'):
    """the template with the same white space around every line outside of multiline fields"""
    out, inside = [], False
    for row in template.split('\n'):
        ends = row.startswith('--')
        out.append(row if inside and not ends else indent + row + trail)
        inside ^= ends
    return '\n'.join(out)


def alphabet(S, n, dom, pre='', post=''):
    """every text of n characters over a small alphabet"""
    same_tree(S, S.const(pre) + S.text('text', n, dom) + S.const(post))


def alphabets(quick, thorough):
    """harness entry: lists of (alphabet, length[, pre, post])"""
    def us(lst):
        return [dict(n=x[1], dom=x[0], pre=(x + ('', ''))[2] if len(x) > 2 else '', post=x[3] if len(x) > 3 else '') for x in lst]
    say = lambda lst: 'every text over ' + ', '.join('%r of length %d' % (x[0], x[1]) for x in lst)    # noqa: E731
    return dict(fn=alphabet, units=units(us(quick), us(thorough)), bounds=dict(quick=say(quick), thorough=say(thorough)))


def expected_error(S, text, b):
    """-> (message, from column, to line, to column) of an admissible parse error"""
    m = S.lib.mod('messages.en')
    rows = text.split('\n')
    n = b.line + 1
    whole = (0, b.line, len(rows[b.line]))
    f = getattr(m, b.kind)
    if b.kind in ('non_section_element_not_found', 'section_not_found'):
        return (f(n, b.key),) + whole
    if b.kind == 'two_or_more_templates_found':
        return (f(b.key),) + whole
    if b.kind == 'unterminated_multiline_field':
        return (f(b.key, n),) + whole
    if b.kind == 'cyclic_dependency':
        r = b.node.tok.ranges['template']
        return f(n, b.key), r[0], b.line, r[1]
    if b.kind == 'unterminated_escaped_key':
        return f(n), b.column, b.line, len(rows[b.line])
    return (f(n),) + whole


def positions(S, text, sel):
    """selection -> (from line, from column, to line, to column); also checks that it is sound"""
    starts, at = [], 0
    for r in text.split('\n'):
        starts.append((at, len(r)))
        at += len(r) + 1
    for end in ('from', 'to'):
        c = sel[end]
        S.check(0 <= c['line'] < len(starts), 'selection outside of the document')
        S.check(0 <= c['column'] <= starts[c['line']][1], 'selection column outside of its line')
        S.check(c['index'] == starts[c['line']][0] + c['column'], 'selection index does not fit line and column')
    S.check(sel['from']['index'] <= sel['to']['index'], 'selection ends before it begins')
    return sel['from']['line'], sel['from']['column'], sel['to']['line'], sel['to']['column']


def check_error(S, text, err, bad):
    """a ParseError has the message and the selection of one of the admissible errors"""
    S.check(err is not None and is_parse_error(S, err), 'a document with an error (%s in line %d) was not rejected with a ParseError' % (bad[0].kind, bad[0].line))
    where = positions(S, text, err.selection)
    S.check(S.eq(err.cursor, err.selection['from']), 'the cursor is not the start of the selection')
    for b in bad:
        msg, c, tl, tc = expected_error(S, text, b)
        if where == (b.line, c, tl, tc) and S.same(err.text, msg):
            S.reach('reject:' + b.kind)
            return b
    want = expected_error(S, text, bad[0])
    S.check(False, 'wrong error: %s at %r instead of %s in line %d %r' % (type(err).__name__, where, bad[0].kind, bad[0].line, want[1:]))


def pick(S, ch, options):
    """the option a symbolic character stands for"""
    for o in options[:-1]:
        if S.same(ch, o):
            return o
    S.assume(S.same(ch, options[-1]))
    return options[-1]


LINES = ['κ: ν', 'κ:', 'κ:\n- ν', 'κ:\nκ = ν', 'κ: x\n\\ ν', '# κ', '## κ', '# κ\nκ: ν', '-- κ\nν\n-- κ', 'c < κ', 'κ: x\nc < κ', '# κ\n# c < κ', '- ν', 'κ = ν', '| ν', '> ν', '', '`κ`: ν']


PLAIN = ['κ: x', 'κ:', '- x', 'k = x', '| x', '# κ', '## c', '> x', '', 'c < κ', '# c < κ', '-- κ\nx\n-- κ']


def blocks(S, first, n, sep='', ask=same_tree, kinds=None, marks=None):
    """the text `first` followed by n blocks chosen by the solver, each after the text `sep`"""
    t, kinds = first, kinds or LINES
    for i in range(n):
        t += '\n' + sep + kinds[S.index(S.int('block%d' % i, 0, len(kinds) - 1))]
    ask(S, doc(S, t, marks=marks))


def sequence(ask, pre=(), plain=2, **marks):
    """harness entry: sequences of blocks of every kind; shorter ones with arbitrary characters, longer ones with solver-chosen keys"""
    def fn(S, first, n, plain=False):
        blocks(S, first, n, '', ask, PLAIN if plain else LINES, marks)
    pre = pre or ('',)
    us = lambda n, m: [dict(first=p + l, n=n) for p in pre for l in LINES] + [dict(first=p + l + '\n' + k, n=m - 1, plain=True) for p in pre for l in PLAIN for k in PLAIN]     # noqa: E731
    say = 'every sequence of %%d of %d kinds of line with arbitrary characters and of %%d of %d kinds of line with solver-chosen keys' % (len(LINES), len(PLAIN))
    return dict(fn=fn, bounds=dict(quick=say % (2, 1 + plain), thorough=say % (3, 2 + plain)), units=units(us(1, plain), us(2, plain + 1)))


# ① to ⑥ stand for whole words
WORDED = ['①: ②\n| ③\n\\ ④', '①:\n- ②\n- ③\n| ④', '①:\n② = ③\n④ =\n', '# ①\n②: ③\n## ④\n⑤:', '-- ①\n② ③\n-- ①\n④: ⑤', '> ①\n> ②\n③: ④\n\n> ⑤\n', '①: ②\n③ < ①', '①:\n- ②\n③ < ①\n- ④', '①:\n② = ③\n④ < ①\n② = ⑤', '# ①\n②: ③\n# ④ < ①\n⑤:',
          '# ①\n## ②\n③: ④\n# ⑤ << ①\n## ②\n⑥:', '`①`: ②\n# ``③``', '① < ②', '# ① < ②', '-- ①\n②', '①\n②', '`① ②', '①: ②\n- ③', '# ①\n### ②', '① < ②\n② < ①', '①: ②\n①: ③\n④ < ①', '> ①\n# ②\n> ③\n④:\n> ⑤\n- ⑥', '①:\n①:\n# ②\n# ②']


def words(ask, dom=SAFE, layouts=None, quick=(4, 6, 7, 8, 9, 12)):
    """harness entry: documents of whole words of any characters, of every length in turn"""
    layouts = layouts or WORDED

    def fn(S, t, n):
        text, got = S.const(''), {}
        for c in t:
            if c in '①②③④⑤⑥':
                got[c] = got[c] if c in got else S.text('word' + str('①②③④⑤⑥'.index(c)), n, dom)
                c = got[c]
            text = text + c
        ask(S, text)
    say = '%d layouts of words without operators and white space, of %%s characters' % len(layouts)
    return dict(fn=fn, bounds=dict(quick=say % ', '.join(map(str, quick)), thorough=say % '4 to 20'), units=lambda tier: [dict(t=t, n=n) for t in layouts for n in (range(4, 21) if tier == 'thorough' else quick)])
