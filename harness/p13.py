"""Snippets: the reported lines, what is around them, and nothing else, exactly as they are in the text."""
from harness import large
from harness.queries import *

KINDS = ('invalid_line', 'missing_element_for_continuation', 'missing_fieldset_for_fieldset_entry', 'missing_list_for_list_item',
         'section_hierarchy_layer_skip', 'unterminated_escaped_key', 'unterminated_multiline_field', 'non_section_element_not_found',
         'section_not_found', 'cyclic_dependency', 'two_or_more_templates_found')
REQUIRED = {'reject:' + k for k in KINDS} | {'element', 'key', 'comment', 'value', 'collection', 'missing', 'multiple', 'untouched', 'type', 'multiple entries', 'document'}
ASSUMPTIONS = ['texts shown by the terminal reporter contain no escape characters (U+001B)', 'a line of white space only may be shown as an empty line']
NOESC = CS.inter(LINE, CS.comp(CS.of('\x1b')))
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': NOESC, 'σ': SPACE, 'λ': 'a-|\\>#', 'ο': ':=<', 'β': ' a-|\\>', '¶': '\n ', 'η': 'x>\n', 'ι': CS.inter(INK, NOESC)}
PLAIN_HTML = CS.comp(CS.of('&>"\'/`'))          # of the characters to be escaped only < (P14 has them all)
REP = ('TextReporter', 'TerminalReporter', 'HtmlReporter')


def rejected(S, text, reporter, source):
    d, outs, bad = reference(S, text)
    document, err = parse(S, text, reporter=getattr(S.lib.mod('reporters'), reporter), source=source)
    if not bad:
        return None, None
    b = check_error(S, text, err, bad)
    got = READ[reporter](S, err.snippet, source=source)
    shown = [(g[0], g[1]) for g in got if g is not None]
    faithful(S, text, got, parse_tags(S, d, text, b, shown), reporter == 'HtmlReporter')


def chars(S, n, pre, post, reporter):
    rejected(S, S.const(pre) + S.text('text', n, NOESC if n < 2 else CS.comp(CS.of('\x1b'))) + S.const(post), reporter, None)


def shape(S, t, reporter):
    rejected(S, doc(S, t, marks=M), reporter, 'some file.eno' if len(t) % 2 else None)


def snippet_of(S, text, err, reporter, tags):
    S.check(err is not None and is_validation_error(S, err), 'no error was created')
    check_snippet(S, text, err.snippet, reporter, tags)


def pairs(S, elements, outs):
    for e, o in zip(elements, outs):
        yield e, o
        if o.kind == 'section':
            yield from pairs(S, e.to_section().elements(), o.kids)
        elif o.kind == 'list':
            for x, y in zip(e.to_list().items(), o.kids):
                yield x, y
        elif o.kind == 'fieldset':
            for x, y in zip(e.to_fieldset().entries(), o.kids):
                yield x, y


def reports(S, t, reporter):
    """every error that can be raised for an element of a valid document"""
    every(S, doc(S, t, marks=dict(M, ν=CS.inter(M['ν'], PLAIN_HTML), ι=CS.inter(M['ι'], PLAIN_HTML)) if reporter == 'HtmlReporter' else M), reporter)


def every(S, text, reporter):
    d, outs, bad = reference(S, text)
    document, err = parse(S, text, reporter=getattr(S.lib.mod('reporters'), reporter))
    if bad:
        return
    S.check(err is None, 'a valid document was rejected: %r' % (err,))
    for e, o in pairs(S, document.elements(), outs):
        n = o.node
        snippet_of(S, text, e.error('m'), reporter, tag_node(n))
        S.reach('element')
        if o.kind != 'item':
            snippet_of(S, text, e.key_error('m'), reporter, {n.line: '>'})
            S.reach('key')
        tags = {n.line: '*'}
        for l, _ in o.comments or ():
            tags[l] = '>'
        snippet_of(S, text, e.comment_error('m'), reporter, tags)
        if o.comments:
            S.reach('comment')
        else:
            snippet_of(S, text, S.call(e.required_string_comment)[1], reporter, {n.line: '>'})
        if o.kind in ('field', 'item', 'entry'):
            v = e if o.kind != 'field' else e.to_field()
            if n.kind == 'multiline' and n.lines:
                tags = {l: '>' for l in range(n.line + 1, n.end[0])}
            elif n.kind == 'multiline' or not (n.kind == 'empty' and n.source is not None):
                tags = tag_node(n)
            else:
                tags = {n.line: '>'}
            snippet_of(S, text, v.value_error('m'), reporter, tags)
            if o.value is None:
                snippet_of(S, text, S.call(v.required_string_value)[1], reporter, tag_node(n))
            S.reach('value')
        if o.kind in ('list', 'fieldset', 'section'):
            S.reach('collection')
    document, err = parse(S, text, reporter=getattr(S.lib.mod('reporters'), reporter))
    for x in (document.error('m'), document.key_error('m'), document.comment_error('m'), S.call(document.required_string_comment)[1]):
        snippet_of(S, text, x, reporter, {})
        S.reach('document')
    queried(S, text, document, outs, None, reporter)


def some(S, text, snippet, reporter, must, may):
    """marked are the lines that must be, and of the others only those that may be"""
    got = READ[reporter](S, snippet)
    tags = {g[0]: g[1] for g in got if g is not None and g[1] != ' '}
    if must or may:
        S.check(all(l in tags for l in must), 'a line the error is about is not marked')
        S.check(all(l in must or l in may for l in tags), 'a line the error is not about is marked')
    else:
        tags = {}
    faithful(S, text, got, tags, reporter == 'HtmlReporter')


def owned(n):
    """-> (lines of a section or fieldset where something is missing, lines in between)"""
    if n is None:
        return set(), set()
    must, at = {n.line}, n.line
    for k in n.kids:
        if k.kind == 'section':
            return must, set(range(n.line, k.line)) - must
        at = last_line(k)
        must |= set(range(k.line, at + 1))
    return must, set(range(n.line, at + 1)) - must


def queried(S, text, section, outs, node, reporter):
    """errors of queries, conversions and assertions"""
    must, may = owned(node)
    some(S, text, S.call(section.required_field, 'zz')[1].snippet, reporter, must, may)
    some(S, text, S.call(lambda: section.section('zz').field('y').required_string_value())[1].snippet, reporter, must, may)
    S.reach('missing')
    firsts = []
    for o in outs:
        same = matching(S, outs, o.key)
        if len(same) > 1 and same[0] is o:
            tags = {}
            for x in same:
                tags.update(tag_node(x.node))
            snippet_of(S, text, S.call(section.element, o.key)[1], reporter, tags)
            S.reach('multiple')
        if same[0] is o:
            firsts.append(o)
    for o in firsts:
        snippet_of(S, text, S.call(section.assert_all_touched, only=[o.key])[1], reporter, tag_node(o.node))
        S.reach('untouched')
    for e, o in zip(section.elements(), outs):
        wrong = 'section' if o.kind != 'section' else 'list'
        snippet_of(S, text, S.call(getattr(e, 'to_' + wrong))[1], reporter, tag_node(o.node))
        S.reach('type')
    for e, o in zip(section.elements(), outs):
        if o.kind == 'section':
            queried(S, text, e.to_section(), o.kids, o.node, reporter)
        elif o.kind == 'fieldset':
            x = e.to_fieldset()
            must, may = owned(o.node)
            some(S, text, S.call(x.required_entry, 'zz')[1].snippet, reporter, must, may)
            for p in o.kids:
                same = matching(S, o.kids, p.key)
                if same[0] is not p:
                    continue
                snippet_of(S, text, S.call(x.assert_all_touched, only=[p.key])[1], reporter, tag_node(p.node))
                if len(same) > 1:
                    tags = {}
                    for y in same:
                        tags.update(tag_node(y.node))
                    snippet_of(S, text, S.call(x.entry, p.key)[1], reporter, tags)
                    S.reach('multiple entries')
        elif o.kind == 'list':
            for i, p in zip(e.to_list().items(), o.kids):
                snippet_of(S, text, i.key_error('m'), reporter, {p.node.parent.line: '>'})


PAD = 'e:\n- x\n\n> c\nf: y\n| z\n-- m\n\nl\n-- m\n'        # ten lines of every kind
BAD = [PAD + t for t in ('λοχ\nλοχ\n', '#χ\n##χ\n', '-- κ\n\nν', 'κ < κ\n\n', '> c\n> d\nν', 'κ < κ\nκ < κ')] + [p + PAD for p in ('ν\n', 'λοχ\n', '> c\nν\n\n', '# κ < b\n', '## b\n', 'κ < κ\n', 'κ:x\nκ < κ\nκ < Κ\n')] + [
    PAD + '|ν\n' + PAD, 'a < b\n' + PAD + 'b < κ', '# a\n' + PAD + '# b\n### c\n', '# a < b\n' + PAD + '# b < a\n' + PAD, 'a:x\n' + PAD + 'a:y\n' + PAD + 'b < a\n\n', '# a\n' + PAD + '# a\n\n\n# b < a', '## a\n> c\n> d\n' + PAD, '> c\n> d\n\n> e\nν\nx',
    '-- a\nν\n\n\n> c\n-- b', '-- a', '-- a\n', '> c\n-- a\n', '# a\n## b\n## c\n#### d\ne: x', 'a:\n¶¶¶ι' + '¶¶¶¶', 'z:\n¶\n¶\nι', '# a\n## b\n# c << b\n## d\n### e\n#### f << c', '# a\n## b << a', '# a\n\n\n\n\n\n\n## b << c\n\n\n\n\n# c << a\n\n',
    'a < b\n\n\n\n\n\n\nb < c\n\n\n\n\n\n\nc < a\n\n\n\n\n\n\nd: x', '# κ\n## κ\n### κ < κ\n', '\n\n\n\n`ν', '\n\n\n\n\n## `ν\n\n\n', 'ν\nν', ' σ-σ\n', '> ν\n|ν\n> ν', '-- κ\nν\n> ν\n-- b\n']
GOOD = [PAD + 'κ: ν\n' + PAD, PAD + '> ν\n>\n> x\nκ:\n- ν\n|ν\n\n-\n\\ν\n> c\n-\n' + PAD, '# a\n> ν\nb:\n\n\n- x\n> c\n\n- y\n|ν\n## c\n\n> d\n\nd:\nk = ν\n|x\n\n> c\n\\x\n# e\n\n', '-- a\n\nν\n\n\n-- a\n-- b\n-- b\n-- c\nν\n-- c\n> x\nb < a\n',
        'a:\nb:\n\n\n\n\n\n\nc:\n|\n\n\n\n\n\n> c\n\\\n', '# a\nx: ν\ny:\n> c\n- x\n\n\n\n\n\n# b < a\n# c < b\nz: ν\n\n\n\n\n\n> c\n# d << c', 'a:\n> ν\n- x\nb < a\n- y\nc < b\n- z\n\n\n\n\nd:\nk = x\ne < d\nl = ν\n', '> ν\n> x\n\n\n\n\na: ν\n\n> c\n|ν\n\n\\x\n\n\n\n> ν\nb:x\n> z\n',
        '-- a\nν\nν\n-- a\nb < a\n\n\n\n\n\nc < b\n> ν\nd < b', '`a`: x\n``κ``: ν\n# `a`\n`b`:\n`κ` = ν\n', '> ν\nβοχ\nβοχ\nβοχ', 'a:\nβοχ\nη\nβοχ', '# a\n## b\n### c\n#### d\n##### e\nk: x\n# f << a\n## b\nl: ν\n', '# s\na:\n- x\nb < a\nc: ν\nd:\n', '# s\na:\nk = x\nb < a\n\n\nc:ν\n## t < b\n# b\n', '\n\n\n\n\n\na: ν', '# s\n\n\n\n\n\n\n\na: ν\n| x', 'a: ν\n\n\n\n\n\n\n']
def big(S, text):
    """errors far down, with line numbers of up to three digits; two of the three reporters each"""
    for i, r in enumerate(REP):
        if i != len(text) % 3:
            rejected(S, text, r, None)
            every(S, text, r)


def one_reporter(S, text):
    r = REP[len(text) % 3]
    rejected(S, text, r, None)
    every(S, text, r)


def rejections(S, text):
    """line numbers of four and five digits"""
    for r in REP[:2]:
        rejected(S, text, r, None)


BEFORE = '# s\nl:\n- x\nm < l\nf:\nk = x\ng < f\n'
HARNESSES = {
    'chars': dict(fn=chars, bounds=dict(quick='every text of up to 5 characters; every 3 characters after, before and between ten other lines', thorough='every text of up to 6 characters; every 4 characters after, before and between ten lines'),
                  units=units([dict(n=n, pre='', post='', reporter=r) for n in range(0, 6) for r in (REP if n < 5 else REP[:2])] + [dict(n=3, pre=p, post=q, reporter=r) for p, q in ((PAD, ''), ('', '\n' + PAD), (PAD, '\n' + PAD)) for r in REP],
                              [dict(n=n, pre='', post='', reporter=r) for n in range(0, 7) for r in REP] + [dict(n=n, pre=p, post=q, reporter=r) for n in (1, 2, 3, 4) for p, q in ((PAD, ''), ('', '\n' + PAD), (PAD, '\n' + PAD)) for r in REP])),
    'shape': dict(fn=shape, bounds='%d layouts of rejected documents of up to 22 lines, as they are and with white space around every line' % len(BAD), units=lambda tier: [dict(t=f, reporter=r) for t in BAD for f in (t, padded(t)) for r in REP]),
    'reports': dict(fn=reports, bounds=dict(quick='%d layouts of valid documents of up to 28 lines, some of them also with white space around every line, every error of every element' % len(GOOD), thorough='%d layouts of valid documents of up to 28 lines, as they are and with white space around every line, every error of every element' % len(GOOD)),
                    units=units([dict(t=t, reporter=r) for t in GOOD + [padded(t) for t in GOOD[::3]] for r in REP], [dict(t=f, reporter=r) for t in GOOD for f in (t, padded(t)) for r in REP])),
    'words': words(big, dom=CS.inter(CS.inter(SAFE, NOESC), CS.inter(PLAIN_HTML, CS.comp(CS.of('<')))), quick=(4, 8, 9)),
    'sequence': sequence(big, ν=NOESC),
    'within': sequence(one_reporter, pre=(BEFORE,), plain=1, ν=NOESC),
    'extreme': large.entry(big, large.EVERYTHING + large.REJECTED, 'beyond all limits', quick=large.SELECTED[:2] + large.REJECTED[5:7], ν=M['ν']),
    'large': large.entry(big, large.BAD + large.CYCLES + large.GOOD + large.MANY, 'of documents, half of them rejected', quick=large.BAD + large.CYCLES[:4] + large.GOOD[1:] + large.MANY[:2], ν=NOESC),
    'huge': large.entry(rejections, large.HUGE, quick=large.HUGE[1:], ν=NOESC),
}
