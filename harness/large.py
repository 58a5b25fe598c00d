"""Documents that are larger than what is explored character by character: many lines, deep levels, long
chains, long lines; a few characters are left to the solver.  Markers as in harness/common.py."""
from harness.common import doc, MARKS as COMMON

LEVELS = ''.join('%s s%d\n' % ('#' * k, k) for k in range(1, 10))       # nine levels
NINE = 'k1: x\nk2:\n- x\n\n> c\nk3:\ne = x\n| y\nk4: x\n'            # nine lines, four elements


def lines(n, fmt='k%d: x\n'):
    return ''.join(fmt % k for k in range(n))


# sections: deep levels, back by any number of levels, many siblings
SECTIONS = [LEVELS + 'δ' * 9 + ' t\nk: ν\n', LEVELS + '#' * 9 + 'δδ t\nk: ν\nδδ u', lines(30, '# s%d\nk: x\n') + 'δδδ t\nk: ν', LEVELS + lines(4, '### u%d\nk: x\n') + 'δδδδδ t\n#δ u\nk: ν',
            '# a\n' + lines(12, '## s%d\n') + '#δδ t\n' + lines(12, '## u%d\n') + 'k: ν']
# what belongs to what, far away
ATTACHED = ['a:\n' + lines(20, '- %d\n') + 'βμχ\n- z', 'a:\n' + lines(20, 'k%d = x\n') + 'βμχ\nl = z', 'a:\n' + '\n' * 15 + 'βμχ\n' + '\n' * 6 + 'βμχ', 'a: x\n' + '> c\n' * 15 + 'βμχ\n\n> c\nβμχ', 'a:\n' + lines(12, '- x\n| %d\n') + 'βμχ\n| z',
            'a: x\n' + lines(12, '\\ %d\n') + '\n\nβμχ', '-- m\n' + lines(12, '- %d\n') + '-- m\nβμχ', lines(15, 'k%d:\n') + 'βμχ\nβμχ']
# continuations
CONTINUED = [h + ' x' + '\nωx' * 7 + p for h, p in (('a:', ''), ('a:\n-', '\n- y'), ('a:\nk =', '\nl = y'))] + [h + '\n|' * 9 + '\n\\' * 3 + '\nωχ\nωy' for h in ('a:', 'a:\n-', 'a: x')] + ['a: x\n' + lines(25, '| %d\n') + 'ω χν\n' + lines(25, '\\ %d\n') + 'ωχ']
# multiline fields
MULTILINE = ['-- a\n' + lines(25, 'line %d\n') + 'δ- a\n' + lines(12, '-- b\n%d\n') + '-- a\nk: ν', '-' * 12 + ' a\nx\n' + '-' * 11 + 'θ a\n> y\n' + ('-' * 12 + ' a\n') * 2, ''.join('%s κ\n-- κ\nν\n%s κ\n' % ('-' * n, '-' * n) for n in (3, 5, 8)).replace('κ', 'a'), '-- a long key with blanks κ\nν\n-- a long  key with blanks a\n-- a long key with blanks κ\n',
             '-- a\n' + '\n' * 15 + 'ν\n' + '\n' * 15 + '--σa', '-- a' + ' ' * 20 + 'κ\nx\n--' + ' ' * 20 + 'a' + ' ' * 20 + 'κ', '-- a\n' + ' ' * 12 + 'νx' + ' ' * 12 + '\n-- a\nk: x']
# keys: long, many backticks
KEYS = ['the key of an element with twenty or more characterκ: ν', '`' * 7 + ' κ``````ι ' + '`' * 7 + ': ν', '# ' + '`' * 9 + 'κι' + '`' * 8 + 'ι' + '`' * 9, 'a:\n' + '`' * 6 + 'ι' + '`' * 5 + 'ι' + '`' * 6 + ' = x', '`' * 8 + 'κν' + '`' * 7 + 'σ: x',
        ' ' * 12 + '`' + ' ' * 12 + 'κι' + ' ' * 12 + '`' + ' ' * 12 + ':' + ' ' * 12 + 'ν', 'κ' + ' ' * 15 + 'κ' + ' ' * 15 + '<' + ' ' * 15 + 'a' + ' ' * 15 + '\na: x', 'x' * 40 + 'ι' + 'x' * 40 + ':' + ' y' * 20 + 'ν']
# comments
COMMENTED = [''.join('>%sx\n' % (' ' * k) for k in range(3, 15)) + '>χχx\na: v', '> \n' * 8 + '>χ x\n' + '>\n' * 8 + '>  χ\n' + '>\n' * 5 + 'a: v', ' ' * 9 + '>' + ' ' * 9 + 'χ\n' + '>' + ' ' * 12 + 'χx\na: v', '# s\n' + lines(15, '> c%d\n') + 'χ\n' + lines(12, '> d%d\n') + '> χ\na: v',
             'a:\n' + lines(12, '>  c%d\n') + 'βχ- x\n- y']
# copies
COPIED = ['a: ν\n' + ''.join('%s < %s\n' % (y, x) for x, y in zip('abcdefghi', 'bcdefghij')) + 'k < κ', 'a:\n- ν\n' + ''.join('%s < %s\n- %s\n' % (y, x, y) for x, y in zip('abcdef', 'bcdefg')), 'a:\nφ = ν\nr = s\n' + ''.join('%s < %s\nφ = %s\n' % (y, x, y) for x, y in zip('abcd', 'bcde')),
          ''.join('%s < %s\n' % (x, y) for x, y in zip('abcdefgh', 'bcdefghi')) + 'i: ν', 'a:\n' + lines(15, '- %d\n') + 'b < a\n' + lines(15, '- 1%d\n') + 'c < b\n- ν', 'a:\n' + lines(12, 'k%d = x\n') + 'b < a\nkφ = y\nk7 = z\nk11 = w\nk0 = ν', lines(20) + 'a: ν\n' + lines(20) .replace('k', 'm') + 'b < a\nc < b']
SECTION_COPIES = ['# a\nx: ν\n' + ''.join('# %s < %s\n%s: 1\n' % (y, x, y) for x, y in zip('abcdef', 'bcdefg')) + '# h < g', '# a\n## s\nx: ν\n' + ''.join('# %s << %s\n## s\nφ%s: 1\n' % (y, x, y) for x, y in zip('abcd', 'bcde')), '# a\n' + lines(12) + '# b < a\nkφ: 1\nk3: 2\nk11: 3\n# c < b',
                  '# a\n' + ''.join('%s s%d\n' % ('#' * k, k) for k in range(2, 8)) + 'x: 1\n# b << a\n' + ''.join('%s s%d\n' % ('#' * k, k) for k in range(2, 8)) + 'φ: ν\n', '# a\n' + lines(8, '## s%d\nx: 1\n') + '# b << a\n' + lines(8, '## s%d\nφ: 2\n').replace('φ', 'y', 6),
                  ''.join('# %s < %s\n' % (x, y) for x, y in zip('abcdefg', 'bcdefgh')) + '# h\nx: ν']
CYCLES = [''.join('%s < %s\n' % (x, y) for x, y in zip('abcdefgh', 'bcdefgh')) + 'h < Λ\nz: x', ''.join('# %s < %s\n' % (x, y) for x, y in zip('abcdefg', 'bcdefg')) + '# g < Λ\n# z\n', '# a\n## b\n### c\n#### d\n##### e\n###### f < Λ\n# z', lines(20) + 'a < κ\n' + lines(20) + 'κ: x\n',
          lines(12, '# s%d\n') + '# a < s1κ\n# b < s3\n' + lines(3, '## t%d\n'), 'a < b\n' + lines(25, '# s%d\nk: x\n') + 'b < κ\n', lines(20, 'x%d < a\n') + 'Λ: x']
MARKS = {'θ': '- ', 'δ': '# ', 'β': ' -|=>a', 'μ': ':=<', 'ω': '|\\', 'Λ': 'abcdefghz', 'φ': 'pqk1'}
# errors behind, before and between many lines
LONG = lines(50, 'k%d: x\n- ') .replace('\n- ', '\n')
BAD = [lines(98) + 'λοχ\nν\n' + lines(3), lines(112) + '> c\n\nν\n\n', 'ν\n' + lines(105), '# a\n' + lines(103) + '### κ\n' + lines(3), 'a < κ\n' + lines(104, 'm%d: x\n') + 'b: x\n', 'a < b\n' + lines(101, 'm%d: x\n') + 'b < κ\n', '# a\n' + lines(50) + '# a\n' + lines(50) + '# b < κ\n',
       lines(9, '# s%d\n') + '-- m\n' + lines(95, 'x%d\n') + '-- κ\n', lines(12, 'a < b%d\n') + 'b0: x\n']
GOOD = [lines(97) + 'κ: ν\n\n\n' + lines(4), '# a\n' + lines(12) + '\n\n\n> χ\nb:\n' + lines(12, '- %d\n') + '\n\n\n- χ\n' + '\n' * 6 + '# c\n', 'a:\n' + lines(12, 'e%d = x\n| y\n') + '\n\nκ = ν\n\n\n', '-- a\n' + lines(24, 'x%d\n') + 'ν\n-- a\nb < a\n', 'a: ν\n' + lines(12, '| %d\n\n') + '\nb: x\n', lines(15, '> c%d\n') + '>χ\na: x\n' + '\n' * 5, lines(15, '> c%d\n') + '> χ\n\n> d\n\na: x\n' + lines(15, '> c%d\n') + '| y\n' + lines(15, '> c%d\n')]


def entry(fn, texts, what='', quick=None, **more):
    """harness: fn on every one of these texts; quick: only some of them in the quick tier"""
    def large(S, t):
        fn(S, doc(S, t, marks=dict(MARKS, **more)))
    say = lambda ts: '%d layouts%s of up to %d lines, up to %d characters left to the solver' % (      # noqa: E731
        len(ts), ' ' + what if what else '', max(t.count('\n') + 1 for t in ts), max(sum(c in MARKS or c in COMMON for c in t) for t in ts))
    quick = texts if quick is None else quick
    return dict(fn=large, units=lambda tier: [dict(t=t) for t in (texts if tier == 'thorough' else quick)], bounds=dict(quick=say(quick), thorough=say(texts)))


# valid documents with many of everything
MANY_FIELDS = ''.join('k%d: x\n' % k for k in range(12)) + 'κ: χ\n' + ''.join('k%d:\n' % k for k in range(12)) + 'κ:\n'
MANY_LISTS = ''.join('l%d:\n%s' % (k, '- x\n' * k) for k in range(5)) + 'κ:\n' + '- χ\n' * 3 + lines(12, '- %d\n') + '-χ\n'
MANY_ENTRIES = 'a:\n' + lines(12, 'k%d = x\n') + 'κ = χ\nk3 = y\n' + 'b < a\n' + lines(4, 'k%d = z\n') + 'κ =\nc < b\nκ = χ\n'
TREE = '# s\nk: x\n## t\n### κ\n#### v\nl:\n' + lines(12, '- %d\n') + '##### w\n> χ\nf:\n' + lines(11, 'k%d = x\n') + 'κ =χ\n###### y\nk: χ\n# κ\n## t\nk:\n'
NESTED = ''.join('%s s\nk: x\n' % ('#' * k) for k in range(1, 10)) + '##δδ κ\nκ: χ\n'
LATE = lines(40) + '\n\n> ν\n> χ\nκ: x\n| χ\n\n\\ y\n\n' + '# s\n' + lines(12) + '-- m\n' + lines(12, 'x%d\n') + 'χ\n-- m\n> c\nκ:\n\n\n> d\n- χ\n' + lines(10, '- %d\n') + '> e\n| ν\n'
MANY = [MANY_FIELDS, MANY_LISTS, MANY_ENTRIES, TREE, NESTED, LATE]
FIELDSETS = ['f:\n' + lines(12, 'k%d = x\n') + 'κ = χ\n' + lines(12, 'a%d =\n') + 'κ = ν', 'g:\n' + lines(12, 'a%d = x\n') + 'κ = χ\nh < g\n' + lines(5, 'b%d = y\n') + 'a3 = z\nκ = χ\nf < h\nκ = ν\na3 = w\n', 'f:\n' + 'a = x\n' * 12 + 'κ = χ',
             'f:\n' + '\n' * 12 + 'κ = χ\n' + '\n' * 12 + '> ν\n' + '> y\n' * 11 + 'b =\n' + '| χ\n' + '| z\n' * 5] + [''.join('%s < %s\n%s = x\n' % (x, y, k) for x, y, k in zip('fghij', 'ghijk', 'κab0κ')) + 'k:\n' + lines(4, 'a%d = x\n')]
LISTS = ['l:\n' + lines(20, '- %d\n') + '-χ\n' + lines(12, '- %d\n| y\n'), 'm:\n' + lines(12, '- %d\n') + '-χ\nn < m\n' + lines(12, '- 1%d\n') + '- χ\nl < n\n-ν\n', 'l:\n' + '-\n' * 12 + '-χ\n' + '> ν\n- x\n> y\n- χ', 'l < m\n-χ\n' + lines(12, '- %d\n') + 'm < n\n-χ\nn:\n-ν\n']
# line numbers of four and five digits
HUGE = ['\n' * 997 + 'λοχ\n\nν\n\n' + lines(4), '# a\n' + '\n' * 996 + 'κ: ν\n' + lines(6) + '\n\n', '\n' * 9997 + 'κ:\nν\n\n']
# extremes: what no document should need, and still has to work (beyond any limit one might think of)
DEEP = ''.join('%s s%d\n' % ('#' * k, k) for k in range(1, 46))


def chain(n, fmt):
    return ''.join(fmt.format(k, k + 1) for k in range(n))


EXTREME = {
    'sections': [DEEP + '#' * 45 + 'δδ t\nk: ν\n', DEEP + '#' * 33 + 'δ t\nk: ν\n#δ u', lines(150, '# s%d\nk: x\n') + 'δδδ t\nk: ν'],
    'attached': ['a:\n' + lines(150, '- %d\n') + 'βμχ\n- z', 'a:\n' + lines(150, 'k%d = x\n') + 'βμχ\nl = z', 'a:\n' + '\n' * 150 + 'βμχ', 'a:\n' + '> c\n' * 150 + 'βμχ\n\n> c\nβμχ'],
    'continued': [h + ' x' + '\nωx' * 2 + '\n| y' * 150 + '\nωχ' for h in ('a:', 'a:\n-')] + ['a:' + '\n|' * 150 + '\nωχν', 'a: ' + 'word ' * 60 + 'ν\nω' + ' word' * 60 + 'ν'],
    'multiline': ['-' * 45 + ' a\nx\n' + '-' * 44 + 'θ a\n> y\n' + ('-' * 45 + ' a\n') * 2, '-- a\n' + lines(150, 'line %d\n') + 'ν\n-θa\n-- a', '-- ' + 'word ' * 60 + 'κ\nχ\n-- ' + 'word ' * 60 + 'κ', '-- a\n' + 'word ' * 60 + 'ν\n-- a', '-- a\n' + '\n' * 150 + 'ν\n-- a'],
    'keys': ['`' * 41 + ' κ' + '`' * 40 + 'ι ' + '`' * 41 + ': ν', '# ' + '`' * 41 + 'κι' + '`' * 40 + 'ι' + '`' * 41, 'word ' * 60 + 'κ: x', '# ' + 'word ' * 60 + 'κ', '`' + 'word ' * 60 + 'κ`:\n`' + 'word ' * 60 + 'κ` = x', 'word ' * 60 + 'κ < ' + 'word ' * 60 + 'κ\n' + 'word ' * 60 + 'κ: ν'],
    'commented': ['> a\n' + '>' + ' ' * 90 + 'χx\na: v', ' ' * 90 + '> x\n> χx\na: v', '> c\n' * 150 + '>χ x\n' + 'a: v', '>\n' * 150 + '>χ\n' + '>\n' * 150 + 'a: v', '> ' + 'word ' * 60 + 'χ\na: v', '> x\n> ' + 'word ' * 60 + 'χ\n# v'],
    'copied': ['t0: ν\n' + chain(60, 't{1} < t{0}\n') + 'k < t6κ', 't0:\n- ν\n' + chain(30, 't{1} < t{0}\n- {1}\n') + 'k < t3κ', 't0:\nφ = ν\n' + chain(30, 't{1} < t{0}\nk{1} = x\nq = y\n') + 't < t30\nφ = z', 'a:\n' + lines(150, '- %d\n') + 'b < a\n- ν', 'a:\n' + lines(150, 'k%d = x\n') + 'b < a\nkφ = ν', 'a: ν\n' + lines(150, 'c%d < a\n') + 'd < κ'],
    'section copies': ['# t0\nx: ν\n' + chain(60, '# t{1} < t{0}\n') + '# k < t6κ', '# t0\nx: ν\n' + chain(30, '# t{1} < t{0}\nk{1}: y\nq: z\n') + '# t < t30\nφ: z', '# t0\n## s\nx: ν\n' + chain(20, '# t{1} << t{0}\n## s\nk{1}: 1\n') + '# t << t20\n## s\nφ7: z', '# a\n' + DEEP[5:170] + 'x: ν\n# b << a\n' + DEEP[5:170] + 'φ: y', '# a\n## s\nx: 1\n## s\ny: 2\n## t\nz: 3\n# b << a\n' + lines(9, '## u%d\n') + '## s\nφ: ν\n## t\nφ: ν', '# a\n' + lines(150) + '# b < a\nkφ: ν'],
    'cycles': [chain(60, 't{0} < t{1}\n') + 't60 < t5κ\nz: x', chain(40, '# t{0} < t{1}\n') + '# t40 < t1κ\n# z', chain(60, 't{1} < t{0}\n') + 't0: ν'],
}
EVERYTHING = [t for ts in EXTREME.values() for t in ts]
SELECTED = [EXTREME['sections'][1], EXTREME['attached'][0], EXTREME['continued'][2], EXTREME['multiline'][1], EXTREME['commented'][2], EXTREME['copied'][4], EXTREME['section copies'][5]]
REJECTED = [DEEP + '#' * 45 + 'δδ t\n####### κ', lines(300) + 'λοχ\nν\n' + lines(300, 'm%d: y\n'), 'ν\n' + lines(300), lines(300) + '-- a\n' + lines(300, 'm%d\n') + '-- κ', 'a:\n' + lines(150, '- %d\n') + 'k = χ', '# ' + 'word ' * 60 + 'κ\n### ' + 'word ' * 60, 'word ' * 60 + 'κ < ' + 'other ' * 60 + 'κ'] + EXTREME['cycles']
