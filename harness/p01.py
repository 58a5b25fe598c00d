"""Totality: every text either parses or is rejected with a ParseError, under every reporter;
whatever parses can be read and reported on without an unexpected exception."""
from harness import large
from harness.common import *

REQUIRED = {'accepted', 'rejected'}
ASSUMPTIONS = ['texts contain no surrogates and no code points of planes 15 and 16']


def _total(S, text, reporter):
    R = S.lib.mod('reporters')
    document, err = parse(S, text, reporter=getattr(R, reporter))
    if err is not None:
        S.check(is_parse_error(S, err), 'parsing raised %s instead of a ParseError' % type(err).__name__)
        sel = err.selection
        S.check(err.snippet is not None and err.text is not None and err.message is not None, 'incomplete error')
        S.note(err.text, sel['from']['line'], sel['from']['column'], sel['to']['line'], sel['to']['column'])
        S.reach('rejected')
        return None
    S.reach('accepted')
    S.note(document.raw())
    S.note(observe.elements(document))
    return document


def chars(S, n, reporter):
    _total(S, S.text('text', n), reporter)


def walk(S, sec, out):
    for e in sec.elements():
        out.append(e)
        if e.yields_section():
            walk(S, e.to_section(), out)


def reports(S, n, reporter):
    """error objects can be made for every element of every accepted text"""
    document = _total(S, S.text('text', n), reporter)
    if document is None:
        return
    out = []
    walk(S, document, out)
    for e in out:
        for make in (lambda: e.error('m'), lambda: e.key_error('m'), lambda: e.comment_error('m')):
            x, err = S.call(make)
            S.check(err is None and is_validation_error(S, x), 'reporting on an element raised %r' % (err,))
            S.note(x.text, x.selection['from']['index'], x.selection['to']['index'])
    for ask in (lambda: document.required_field('zz'), lambda: document.section('zz').required_field('y'),
                lambda: document.assert_all_touched()):
        x, err = S.call(ask)
        S.check(err is None or is_validation_error(S, err), 'a query raised %r' % (err,))


def shaped(S, t, reporter):
    _total(S, doc(S, t), reporter)


REP = ('TextReporter', 'HtmlReporter', 'TerminalReporter')
COPIES = ['κ < κ\nκ < κ\nκ:ν\nκ < κ', '# κ < κ\n## κ << κ\n# κ\n## κ < κ', 'κ:\n-ν\nκ < κ\nχ = ν', 'κ:\nκ=ν\nκ<κ\nκ=ν\nκ<κ\n-ν',
          '# κ\nκ:ν\n# κ << κ\nκ:\n-ν\n# κ < κ\nκ=ν', '> χ\n# κ < κ\n## κ\n### κ < κ\n> χ\n## κ\nκ < κ',
          '-- κ\nν\n-- κ\nκ < κ\n|ν', 'κ:\n|ν\n\\χ\n> χ\n- ν\nκ < κ', '# κ\n\n-- κ\nνν\n--κ\n--κ',
          '# κ\n## κ\n### κ < κ\n# κ < κ', '#κ\nλ:ν\nλ=ν\nλ ν\n', 'λ:ν\nλ=ν\nλοχ\n']

def everyway(S, text):
    for r in REP:
        _total(S, text, r)


def deep(S, kind, n):
    """chains of copies and sections within sections, very many of them"""
    text = DEEP[kind](n) + S.const(': ') + S.text('value', 2, 'x y')
    got, err = S.call(S.lib.parse, text)
    short = n < 300
    if isinstance(err, RecursionError) and not short:
        S.check(False, 'parsing ended in a RecursionError', known='deep')
    S.check(err is None, 'a valid document was rejected: %s' % type(err).__name__)
    if short:
        S.note(document_values(got))
    S.reach('accepted')


def document_values(document):
    return [e.to_field().optional_string_value() for e in document.elements() if e.yields_field()]


DEEP = {
    'copies': lambda n: ''.join('a%d < a%d\n' % (i, i + 1) for i in range(n)) + 'a%d' % n,
    'copied sections': lambda n: ''.join('# a%d < a%d\n' % (i, i + 1) for i in range(n)) + '# a%d\nk' % n,
}
HARNESSES = {
    'chars': dict(fn=chars, bounds=dict(quick='every text of up to 7 characters', thorough='every text of up to 8 characters'),
                  units=units([dict(n=n, reporter=REP[0]) for n in range(0, 8)],
                              [dict(n=n, reporter=REP[0]) for n in range(0, 9)])),
    'reports': dict(fn=reports, bounds=dict(quick='every text of up to 5 characters, three reporters',
                                            thorough='every text of up to 6 characters, three reporters'),
                    units=units([dict(n=n, reporter=r) for r in REP for n in range(0, 6)],
                                [dict(n=n, reporter=r) for r in REP for n in range(0, 7)])),
    'shaped': dict(fn=shaped, bounds='documents with copies, hierarchies and attachments: %d shapes with symbolic keys, '
                   'values and operators, three reporters' % len(COPIES),
                   units=lambda tier: [dict(t=t, reporter=r) for t in COPIES for r in REP]),
    'deep': dict(fn=deep, bounds='chains of 120 copies; of 1200, which are a known finding', units=lambda tier: [dict(kind=k, n=n) for k in DEEP for n in (120, 1200)]),
    'words': words(everyway, dom=CS.inter(SAFE, CS.comp(CS.of('&<>"\'`/\x1b'))), quick=(4, 8, 9)),
    'sequence': sequence(everyway),
    'extreme': large.entry(everyway, large.EVERYTHING + large.REJECTED, 'beyond all limits', quick=large.SELECTED + large.REJECTED[:4]),
    'large': large.entry(everyway, large.SECTIONS + large.ATTACHED + large.MULTILINE + large.COMMENTED + large.CYCLES + large.BAD + large.GOOD + large.MANY, 'under three reporters'),
}
