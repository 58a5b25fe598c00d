"""What lookup() must answer, from the reference reading of a document."""
from harness.reports import *


def spanning(node, line):
    """the innermost element, item or entry that begins before and ends after a line"""
    for k in node.kids:
        if k.kind == 'section':
            continue
        if k.line < line <= last_line(k):
            return spanning(k, line) or k
    return None


def owner(d, line):
    if line in d.what:
        return d.what[line][0]
    section = d
    for n in eno.walk(d):
        if n.kind == 'section' and n.line < line:
            section = n
    return spanning(section, line) or section


def line_of(index, text):
    """-> (line, column) of a concrete index"""
    at = 0
    for l, r in enumerate(text.split('\n')):
        if index <= at + len(r):
            return l, index - at
        at += len(r) + 1


def identity(S, e):
    """(type, line) of an element, through the API"""
    t = e.raw()['type']
    if t == 'document':
        return t, None
    x = e.error('m')
    return t, x.selection['from']['line']


KIND = {'empty': 'empty_element', 'multiline': 'field', 'field': 'field', 'item': 'list_item', 'entry': 'fieldset_entry',
        'list': 'list', 'fieldset': 'fieldset', 'section': 'section', 'document': 'document'}


def effective(n):
    """the type an element reads as"""
    k = n
    while k.kind == 'empty' and k.source is not None:
        k = k.source
    return KIND[k.kind]


def matched(S, d, line, column, got):
    """got: the answer of lookup() for one position"""
    o = owner(d, line)
    want = (effective(o), None if o.kind == 'document' else o.line)
    have = identity(S, got['element'])
    S.check(have == want, 'lookup in line %d found %s of line %s instead of %s of line %s' % (line + 1, have[0], have[1], want[0], want[1]))
    S.check(S.eq(got['element'].string_key(), o.parent.key if o.kind == 'item' else o.key), 'lookup found an element with another key')


def token(S, d, line, column):
    """-> (known, name): the token at a column; comments above an element are not claimed"""
    if line in d.what:
        ranges = d.what[line][1].ranges
    else:
        t = eno.tokenize(S, d.rows[line])
        if t.kind == 'comment':
            for n in eno.walk(d):
                for m in [n] + (n.kids if n.kind in ('list', 'fieldset') else []):
                    if m.comments and any(l == line for l, _ in m.comments):
                        return False, None
        ranges = t.ranges
    best = None
    for name, (b, e) in ranges.items():
        if b <= column <= e and (best is None or b > best[0]):
            best = (b, name)
    return True, best and best[1]
