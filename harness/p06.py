"""Multiline fields: the content between the two delimiters is delivered verbatim."""
from harness import large
from harness.common import *

REQUIRED = {'field', 'verbatim', 'reject:unterminated_multiline_field'}


def body(S, n, head, post, pre):
    """arbitrary content (line feeds included) between the delimiters"""
    t = S.text('content', n)
    text = S.const(pre + head + '\n') + t + S.const('\n' + head + post)
    document, outs = same_tree(S, text)
    if document is None:
        return
    S.reach('verbatim')
    first = document.elements()[0]
    if first.yields_field() and len(document.elements()) == 1 and not post.strip() and not pre:
        S.check(S.eq(first.to_field().required_string_value(), t), 'the content was altered')


def key(S, n, dashes, extra):
    """an arbitrary key, regular expression characters included"""
    k = S.text('key', n, INK)
    d = '-' * dashes
    text = S.const(d + ' ') + k + S.const('\nx\n' + extra) + S.const(d + ' ') + k + S.const('\nb: c')
    same_tree(S, text)


def shape(S, t):
    same_tree(S, doc(S, t, marks={'δ': '- ', 'κ': 'ab', 'ψ': 'a-\n', 'σ': SPACE, 'ξ': '.a*'}))


SHAPES = ['--δκ\n--δκ\n--δκ\n--δκ\n', 'δ--δκ\nκ\nδ--δκ', '---δκ\n--κ\nδ---κ', '-- κ\nκ\n--κσ\nκ: ν', '--κκ\nκ\n--κ\n--κκ', '--κ\n--κψ\n--κ',
          '--σκσκσ\nνν\nσ--σκσκσ', '-- κ\nψψψψψ-- κ', '--ξξ\n--ξξ\nx\n--ξξ', '-- κ\n\n\n-- κ', '-- κ\nν\n\n-- κ\n\n> c\n-- κ\n\n-- κ',
          '# s\n> c\n-- κ\n# ν\nκ: ν\n-- κ\nκ < κ', '-- κ', '-- κ\n', '-- κ\nν', '-- κ\nν\n-- κν', '-- κ\n-- κ\n-- κ', '-- κ\n-- κψ', '--`κ`\nν\n--`κ`',
          'κ:\n' * 10 + '-- κ\nνν\nν\n-- κ\n|ν', '-- κ\nν\n-- κ\nb < κ\nc < b', '-- κ\nν\n-- κ\n-ν', '-- κ\nν\n--κ\nκ=ν',
          '-- κ\nν\n-- κ\n--- κ\nν\n-- κ\n--- κ', '--- κ\n--κ\n--- κ\n-- κ\n--- κ\n-- κ', '--κ\nδκ\n--κ\n\n--κ\nδκ\n--κ\n---κ\nδ--κ']

HARNESSES = {
    'body': dict(fn=body, bounds=dict(quick='every content of up to 7 characters between two delimiters, three layouts', thorough='every content of up to 9 characters, three layouts'),
                 units=units([dict(n=n, head='-- a', post='', pre='') for n in range(0, 8)] + [dict(n=n, head='-- a', post='\nb: c', pre='b: c\n') for n in (0, 1, 3, 5, 6)] +
                             [dict(n=n, head='--- .*', post=' ', pre='# s\n') for n in (1, 4, 6)],
                             [dict(n=n, head='-- a', post='', pre='') for n in range(0, 10)] + [dict(n=n, head='-- a', post='\nb: c', pre='b: c\n') for n in range(9)] +
                             [dict(n=n, head='--- .*', post=' ', pre='# s\n') for n in range(8)])),
    'key': dict(fn=key, bounds=dict(quick='every key of up to 5 characters', thorough='every key of up to 8 characters'),
                units=units([dict(n=n, dashes=d, extra=e) for n in (1, 2, 3, 4, 5) for d, e in ((2, ''), (3, '-- a\n'))],
                            [dict(n=n, dashes=d, extra=e) for n in range(1, 9) for d, e in ((2, ''), (3, '-- a\n'), (4, '--- a\n'))])),
    'shape': dict(fn=shape, bounds='%d layouts with solver-chosen delimiters, keys and content lines' % len(SHAPES),
                  units=lambda tier: [dict(t=t) for t in SHAPES]),
    'alphabet': alphabets([('-a\n ', 8, '--a\n'), ('-a\n', 9, '', '--a'), ('-a\n', 9, '--a\n', '\n--a')],
                         [('-a\n ', 11, '--a\n'), ('-a\n', 12, '', '--a'), ('-a\n ', 10, '--a\n', '\n--a')]),
    'words': words(same_tree),
    'extreme': large.entry(same_tree, large.EXTREME['multiline'], 'beyond all limits'),
    'large': large.entry(same_tree, large.MULTILINE),
}
