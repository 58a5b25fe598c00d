"""Parse errors: the first offending line is reported, with the right message, selection and cursor."""
from harness import large
from harness.common import *

KINDS = ('invalid_line', 'missing_element_for_continuation', 'missing_fieldset_for_fieldset_entry', 'missing_list_for_list_item',
         'section_hierarchy_layer_skip', 'unterminated_escaped_key', 'unterminated_multiline_field', 'non_section_element_not_found',
         'section_not_found', 'cyclic_dependency', 'two_or_more_templates_found')
REQUIRED = {'reject:' + k for k in KINDS} | {'accepted'}
M = {'κ': 'ab', 'Κ': 'abc', 'χ': 'x ', 'ν': LINE, 'σ': SPACE, 'β': 'x -', 'λ': 'a-|\\>#`', 'ο': ':=<', 'ι': INK, '¶': ' \n'}


def located(S, text):
    d, outs, bad = reference(S, text)
    document, err = parse(S, text)
    if not bad:
        S.check(err is None, 'a valid document was rejected: %r' % (err,))
        S.reach('accepted')
        return
    check_error(S, text, err, bad)
    S.check(err.text in err.message and err.snippet in err.message, 'the message lacks the text or the snippet')
    S.note(err.text)


def chars(S, n, pre, post):
    located(S, S.const(pre) + S.text('text', n) + S.const(post))


def line(S, n, pre, post):
    located(S, S.const(pre) + S.text('line', n, LINE) + S.const(post))


def shape(S, t):
    located(S, doc(S, t, marks=M))


PAD = 'e:\n- x\n\n> c\nf: y\n| z\n-- m\n\nl\n-- m\n'        # ten lines of every kind
SHAPES = [PAD + t for t in ('λοχ\nλοχ', 'ν\nν', '#χ\n##χ\n', '-- κ\n\nν', 'κ < κ', '# κ < κ\n# κ', 'σ`κκχ', 'σ###σ``κ`χ', 'σλχχ')] + [
    'σσ`σκκσ`χ', 'σ##σ`κχ', '`\n', '``\nk', '```κ``', 'σ-ν\na: x', 'a: x\n\n\n\nσ- ν', 'a: x\nσκ = ν\nx', 'a:\n- x\n> c\nσκ = ν', 'a:\nk = x\n\nσ- ν\n- y', 'σ| ν', 'σ\\ ν\n\nx', '# a\nσ| ν', '-- a\n-- a\n| ν',
    '# a\n## b\n# c\n### d\nν', '# a\nk: v\n### b\n#### c', '## a', '> c\n> d\n## a', '-- a', '-- a\n', '-- a\n--a b\n-- aν', '>c\n-- a\n>c', '> c\nx\ny', '> c\n> d\n\n> e\nν\nx', 'a < κ\nb < κ\n', '# a < b\n\n# b < Κ\n\n# c < Κ',
    'a: 1\nb: 2\na: 3\nc < κ\nd < a', '# a\n## a\n# b < a', 'a < b\nb < Κ\nc < b', '# s\na < b\n- x\n# t\nb: y', '`a` < `b`\n``b``: κ', 'a < b\nb:x\nb<b\nb < χ', '# κ\n## κ\n### κ < κ\n',
]
HARNESSES = {
    'chars': dict(fn=chars, bounds=dict(quick='every text of up to 6 characters; every 4 characters in five contexts of up to 12 lines', thorough='every text of up to 8 characters; every 6 characters in context'),
                  units=units([dict(n=n, pre='', post='') for n in range(0, 7)] + [dict(n=4, pre=p, post=q) for p, q in ((PAD, ''), ('> c\n', '\nx'), ('# a\n', '\n'), ('-- a\n', ''), ('a: x\nb < a\n', '\n- x'))],
                              [dict(n=n, pre='', post='') for n in range(0, 9)] + [dict(n=n, pre=p, post=q) for n in (2, 4, 5, 6) for p, q in ((PAD, ''), ('> c\n', '\nx'), ('# a\n', '\n'), ('-- a\n', ''), ('a: x\nb < a\n', '\n- x'))])),
    'line': dict(fn=line, bounds=dict(quick='every line of up to 7 characters', thorough='every line of up to 9 characters, in context'),
                 units=units([dict(n=n, pre='', post='\nk: v') for n in (3, 5, 7)] + [dict(n=5, pre=PAD, post='\n\nx')], [dict(n=n, pre=p, post='\n\nx') for p in ('', PAD) for n in range(1, 10)])),
    'shape': dict(fn=shape, bounds='%d layouts of up to 14 lines, as they are and with white space around every line' % len(SHAPES), units=lambda tier: [dict(t=f) for t in SHAPES for f in (t, padded(t))]),
    'words': words(located),
    'sequence': sequence(located, plain=3),
    'extreme': large.entry(located, large.REJECTED, 'beyond all limits'),
    'large': large.entry(located, large.BAD + large.CYCLES),
}
