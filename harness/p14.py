"""HTML snippets: whatever the document or the source label contains is shown as text, never as markup."""
from harness import large
from harness.p13 import *

REQUIRED = {'rejected', 'element', 'value', 'comment', 'source'}
ASSUMPTIONS = ['a line of white space only may be shown as an empty line']
H = '<>&"\'x'
M = dict(M, ν=LINE, η=H, κ='ab', ι='<>&"\'x', ω='<&>"\'/= ')


def rejected(S, text, source):
    d, outs, bad = reference(S, text)
    document, err = parse(S, text, reporter=S.lib.mod('reporters').HtmlReporter, source=source)
    if not bad:
        return
    b = check_error(S, text, err, bad)
    got = read_html(S, err.snippet, source=source)
    faithful(S, text, got, parse_tags(S, d, text, b, [(g[0], g[1]) for g in got if g is not None]), True)
    S.reach('rejected')
    if source is not None:
        S.reach('source')


def chars(S, n, m):
    rejected(S, S.text('text', n, ANY), S.text('source', m, ANY) if m else None)


def alphabet_(S, n, dom, pre, post):
    rejected(S, S.const(pre) + S.text('text', n, dom) + S.const(post), None)


def label(S, n, t):
    """an arbitrary source label on every kind of error"""
    source = S.text('source', n, ANY)
    rejected(S, S.const(t), source)
    document, err = parse(S, S.const('a: x\n'), reporter=S.lib.mod('reporters').HtmlReporter, source=source)
    for e in (document.elements()[0].error('m'), S.call(document.required_field, 'b')[1]):
        read_html(S, e.snippet, source=source)


def shape(S, t):
    rejected(S, doc(S, t, marks=M), None)


def good(S, t):
    reports(S, t, 'HtmlReporter')


BAD2 = [t.replace('ν', 'η') for t in BAD if 'ν' in t] + ['ηηη', 'ωωω', '`ηη', 'a:\n> ηηη\n- ηη\nk = x', '# ηηη\n\n### ηη', 'κηη < ηη', '-- ηη\nη\n\nηη', 'a: ηηη\n\n\nηη\nb:ηηη']
GOOD2 = [t.replace('ν', 'η') for t in GOOD] + ['κη: ηηη', '> ηηη\nκ:\n- ηη\n> η\n- η', '-- aηη\nηηη\n-- aηη', '# κηη\n`ηη`:\n`η` = η']
def big(S, text):
    """errors far down, with line numbers of up to three digits"""
    rejected(S, text, None)
    every(S, text, 'HtmlReporter')


HARNESSES = {
    'chars': dict(fn=chars, bounds=dict(quick='every text of up to 4 characters, every source label of up to 3 characters', thorough='every text of up to 5 characters, every source label of up to 4 characters'),
                  units=units([dict(n=n, m=0) for n in range(0, 5)] + [dict(n=2, m=m) for m in (1, 2)], [dict(n=n, m=0) for n in range(0, 6)] + [dict(n=2, m=m) for m in (1, 2, 3, 4)])),
    'alphabet': dict(fn=alphabet_, bounds=dict(quick='every text of 5 characters over < > & " \' x and the line feed', thorough='every text of 6 characters over < > & " \' x and the line feed'),
                     units=units([dict(n=5, dom=H + '\n', pre='', post=''), dict(n=4, dom=H + '\n', pre='> ', post='\nx')], [dict(n=6, dom=H + '\n', pre='', post=''), dict(n=5, dom=H + '\n', pre='> ', post='\nx')])),
    'label': dict(fn=label, bounds=dict(quick='every non-empty source label of up to 4 characters', thorough='every source label of up to 6 characters'),
                  units=units([dict(n=n, t=t) for n in (1, 2, 4) for t in ('x', 'a < b')], [dict(n=n, t=t) for n in range(1, 7) for t in ('x', 'a < b')])),
    'shape': dict(fn=shape, bounds='%d layouts of rejected documents with markup characters' % len(BAD2), units=lambda tier: [dict(t=t) for t in BAD2]),
    'reports': dict(fn=good, bounds='%d layouts of valid documents with markup characters, every error of every element' % len(GOOD2), units=lambda tier: [dict(t=t) for t in GOOD2]),
    'large': large.entry(big, large.BAD + large.CYCLES + large.GOOD + large.MANY, 'of documents, half of them rejected', quick=large.BAD[:4] + large.CYCLES[:2] + large.GOOD[1:3], ν=LINE),
}
