"""Line grammar: what one line means."""
from harness import large
from harness.common import *

REQUIRED = {'empty', 'field', 'section', 'fieldset', 'list', 'reject:invalid_line', 'reject:unterminated_escaped_key',
            'reject:non_section_element_not_found', 'reject:section_not_found'}

def line(S, n, context):
    s = S.text('line', n, LINE)
    pre, post = context.split('{}')
    same_tree(S, S.const(pre) + s + S.const(post))


def shape(S, t, context):
    s = doc(S, t, 'line')
    pre, post = context.split('{}')
    same_tree(S, S.const(pre) + s + S.const(post))


SHAPES = ['σκσκσ:σισισ', 'σκικσ=σισισ', 'σκσκσ<σaσ', 'σ-σισισισ', 'σ##σκσκσ', '#σκσκσ<σaσ', '#κσ<<σaσ', '#κ<<<ι',
          'σ`σκικσ`σ:σισ', '``κ`κ``σ=ι', '``ικι``ο', '```κ``ι```:ν', '#σ`σκικσ`σ', '#``κ`κ``σ<ιι', '`κι`κι`:ι',
          'σ>σισισισ', 'σ|σισισ', 'σ\\σισισ', '`κν`ν`νο', 'κκκκκκκκκκκκ:ι', 'κι:ιοιο', 'κ<ι:ι', '#`κ`ν', '`κ`ν<ι']

HARNESSES = {
    'line': dict(fn=line, bounds=dict(quick='one line of up to 8 arbitrary characters (6 in the other contexts)',
                                      thorough='one line of up to 10 arbitrary characters (8 in the other contexts)'),
                 units=units([dict(n=n, context='{}') for n in range(0, 9)] +
                             [dict(n=n, context=c) for n in range(1, 7) for c in ('a:\n{}', 'a: v\n{}', '{}\nk: v', '# a\n\n{}', 'a:\n- x\n{}', 'a:\nk = x\n{}')],
                             [dict(n=n, context=c) for n in range(0, 9) for c in ('a:\n{}', 'a: v\n{}', '{}\nk: v', '# a\n\n{}', 'a:\n- x\n{}', 'a:\nk = x\n{}')] +
                             [dict(n=n, context='{}') for n in range(0, 11)])),
    'shape': dict(fn=shape, bounds='%d line shapes of 8 to 14 characters with symbolic white space, key and value characters, bare and after a template' % len(SHAPES),
                  units=lambda tier: [dict(t=t, context=c) for t in SHAPES for c in ('a:\n{}', '# a\n{}')]),
    'words': words(same_tree),
    'extreme': large.entry(same_tree, large.EVERYTHING, 'beyond all limits'),
    'large': large.entry(same_tree, large.KEYS + large.MULTILINE + large.SECTIONS + large.COMMENTED, 'with long lines and long operators', quick=large.KEYS + large.MULTILINE + large.SECTIONS[:2] + large.COMMENTED[:3]),
}
