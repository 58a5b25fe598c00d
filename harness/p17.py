"""Layout: white space around tokens and blank lines between lines make no difference to what is read."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'section', 'list', 'fieldset', 'empty', 'rejected', 'copy', 'blank'}
ASSUMPTIONS = ['white space inside keys and values, in front of comments of several lines and in the content of multiline fields belongs to the text and is not claimed to be free']
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'ι': INK, 'σ': SPACE, 'ω': '|\\', 'δ': '# ', 'η': '-=', 'ο': ':=', 'α': SAFE}
FREE = 'σ¶'


def free(S, text):
    """the given text and the one without its σ and ¶ read alike; text is a pair (text, layout)"""
    text, t = text
    bare, blank = S.const(''), '¶' in t
    for c, m in zip(text, t):
        if m not in FREE:
            bare = bare + c
    (a, ae), (b, be) = parse(S, bare), parse(S, text)
    S.check((ae is None) == (be is None), 'white space decides whether a document is accepted')
    if ae is not None:
        S.check(is_parse_error(S, ae) and is_parse_error(S, be), 'parsing raised %r' % (be,))
        if not blank:
            S.check(S.eq(ae.text, be.text), 'white space changes an error: %s' % be.text)
            S.check(ae.selection['from']['line'] == be.selection['from']['line'], 'white space moves an error to another line')
        S.reach('rejected')
        return
    x, y = observe.elements(a), observe.elements(b)
    S.check(S.eq(x, y), 'white space changes what is read')
    S.check(S.eq(observe.raw(b.raw()['elements']), x), 'white space changes raw()')
    note(S, x)
    if '<' in t:
        S.reach('copy')
    if blank:
        S.reach('blank')


def note(S, nodes):
    for n in nodes:
        S.reach(n[0])
        if n[0] == 'section':
            note(S, n[3])


def around(S, text, left, right):
    """the text with white space at both ends of every line"""
    rows = text.split('\n')
    comments = 0
    for r in rows:
        r = r.strip()
        S.assume(not (len(r) > 1 and S.same(r[0], '-') and S.same(r[1], '-')))     # what follows may be content
        comments += len(r) > 0 and S.same(r[0], '>')
    S.assume(comments < 2)
    wide = S.const('')
    for k, r in enumerate(rows):
        wide = wide + ('\n' if k else '') + left + r + right
    (a, ae), (b, be) = parse(S, text), parse(S, wide)
    S.check((ae is None) == (be is None), 'white space decides whether a document is accepted')
    if ae is not None:
        S.check(is_parse_error(S, ae) and is_parse_error(S, be), 'parsing raised %r' % (be,))
        S.check(ae.selection['from']['line'] == be.selection['from']['line'], 'white space moves an error to another line')
        S.reach('rejected')
        return
    x = observe.elements(a)
    S.check(S.eq(x, observe.elements(b)), 'white space changes what is read')
    note(S, x)


def every_text(S, n, left, right):
    around(S, S.text('text', n, ANY), S.text('left', left, SPACE), S.text('right', right, SPACE))


def bigger(S, text):
    around(S, text, S.text('left', 1, ' \t'), S.text('right', 2, ' \t'))


def shape(S, t):
    free(S, (doc(S, t.replace('¶', '\n'), marks=M), t))


# what white space may surround, line by line; {} stands for one character of white space, or several
LINES = ['{}κ{}:{}ινι{}', '{}a{}:{}', '{}`{}ακ{}`{}:{}ι{}', '{}``{} `κ{}``{}:{}', '{}#{}κ{}', '{}##{}`{}κ{}`{}', 'a:\n{}-{} ινι{}', 'a:\n{}-{}', 'a:\n{}κ{}={}ινι{}', 'a:\n{}`{}κ{}`{}={}', 'a: x\n{}ω{}ινι{}', 'a: x\n{}ω{}', 'κ: x\nb{}<{}κ{}', '{}`{}b{}`{}<{}a{}\na:x', '# κ\nx: y\n{}#{}b{}<{}κ{}',
         '# a\n## x\nk: y\n{}#{}b{}<<{}a{}\n## x\nl: ι', '{}>{} ινι{}\na: x', '{}>{} ινι{}\n\n{}> χι\na: x', 'x:y\n--{}κ\nνν\n{}--{}κ{}', '{}--{} κι{}\n{}--{} κι{}', '# a\n{}`{}b{}`{}:\n{}- x\n{}ω{}ι', '{}κι{}', '{}##{} κι{}', '{}a{}<{}κ{}', '{}-{} ι', '{}ω{}ι{}', 'a:\n{}`κι{}\n', '{}--{}a{}\nb',
         '-- a\nι\n{}--{}a{}\n{}κ{}<{}a{}', '# κ\n{}##{}κ{}<<{}κ{}', '{}###{}a{}']
# blank lines, with or without white space
BLANKS = ['¶κ: ν¶¶\n¶b: x¶', 'a:¶\n¶σ¶- ν¶\n¶ω χ¶¶¶\n- x¶', 'a:¶σ\nκ = ν\n¶ω ι¶¶\nb = x¶', '¶# κ¶σ¶\n¶## b¶\n¶a: ν¶', '¶¶> ν\n> ν\nκ: x', 'a: x¶\n¶ω ν\n¶¶ω ι\nb: y', 'a: x¶¶\nb < κ¶¶\n¶c < b', '# a\n¶x: ν\n¶# b < a¶¶\nx: κ¶', '¶-- κ\nν\n\n-- κ¶\n¶b: x', '¶κ\n¶b: x', 'a: x¶\n¶- ν', '# a¶\n¶### b¶',
          'a < κ¶¶\n¶b: x¶', '¶¶¶¶¶¶¶¶¶¶¶¶κ: ν', 'a:\n- x¶¶¶¶¶¶¶¶¶¶¶¶\n| ν\n¶¶¶¶¶¶¶¶¶¶¶¶- y', '# a\n## b\nx: y¶¶\n# c << κ¶σ¶\n## b¶\nz: w¶']


def single(t):
    """each place once, with one character of white space"""
    parts = t.split('{}')
    out = []
    for k in range(len(parts) - 1):
        out.append(''.join(parts[:k + 1]) + 'σ' + ''.join(parts[k + 1:]))
    return out


def every(t, n):
    return t.replace('{}', 'σ' * n)


def alternate(t, k):
    parts = t.split('{}')
    return ''.join(p + ('σ' * (1 + 3 * ((i + k) % 2)) if (i + k) % 3 else '') for i, p in enumerate(parts[:-1])) + parts[-1]


QUICK = [x for t in LINES for x in single(t) + [every(t, 1), every(t, 2), alternate(t, 0), alternate(t, 1)]] + BLANKS
THOROUGH = QUICK + [x for t in LINES for x in (every(t, 3), every(t, 7), alternate(t, 2))]
# between any two of these lines
FULL = ['σκσ:σισ', '¶', 'σ#σκσ', 'σcσ:', 'σ-σ xσ', 'σωσ yσ', '¶σ¶', 'σdσ:', 'σκσ=σzσ', 'σ-- mσ']


def document(S, which):
    """several such lines in one document"""
    t = '\n'.join(FULL[i] if FULL[i] != 'σ-- mσ' else 'σ--σmσ\n κ \nσ--σmσ' for i in which)
    shape(S, t)


HARNESSES = {
    'around': dict(fn=every_text, bounds=dict(quick='every text of up to 5 characters (up to one comment line, no multiline field) with any white space at both ends of every line', thorough='every text of up to 6 characters'),
                   units=lambda tier: [dict(n=n, left=l, right=r) for n in range(7 if tier == 'thorough' else 6) for l, r in ((1, 0), (0, 1), (2, 1)) if n < 5 or l < 2]),
    'extreme': large.entry(bigger, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(bigger, large.SECTIONS + large.ATTACHED + large.CONTINUED + large.COPIED + large.SECTION_COPIES + large.CYCLES + large.BAD + large.MANY),
    'line': dict(fn=shape, bounds=dict(quick='%d lines, up to four characters of any white space at each place where white space is free, and blank lines in %d layouts' % (len(QUICK) - len(BLANKS), len(BLANKS)), thorough='%d lines, up to seven white space characters at each place' % (len(THOROUGH) - len(BLANKS))),
                 units=lambda tier: [dict(t=t) for t in (THOROUGH if tier == 'thorough' else QUICK)]),
    'document': dict(fn=document, bounds='documents of up to 9 lines with white space everywhere', units=lambda tier: [dict(which=list(w)) for w in
                     ((0, 1, 2, 3, 1, 4, 6, 5), (3, 4, 1, 5, 2, 0, 6, 7), (7, 8, 5, 1, 8, 6, 2, 0), (9, 1, 2, 9, 6, 3, 4), (2, 2, 3, 4, 5, 5, 1, 4), (0, 5, 6, 5, 1, 7, 8))]),
}
