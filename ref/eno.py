"""Independent reference reading of an eno document, written from the language
description and the documentation (not from the implementation's regular
expressions).  Runs unchanged over concrete and over symbolic strings; every
character test forks the symbolic execution, so a comparison with the
implementation is decided for all characters on the path."""


class Tok(dict):
    __getattr__ = dict.get


# ------------------------------------------------------------------ one line

def _skip(s, i, end=None):
    end = len(s) if end is None else end
    while i < end and s[i].isspace():
        i += 1
    return i


def _trim(s, b, e):
    """the span of s[b:e] without surrounding whitespace, or None if blank"""
    b = _skip(s, b, e)
    while e > b and s[e - 1].isspace():
        e -= 1
    return (b, e) if e > b else None


def _run(S, s, i, ch):
    j = i
    while j < len(s) and S.same(s[j], ch):
        j += 1
    return j


def _optional(t, s, name, i):
    sp = _trim(s, i, len(s))
    if sp:
        t.ranges[name] = sp
        t['value'] = s[sp[0]:sp[1]]
    else:
        t['value'] = None


def tokenize(S, s):
    """-> Tok with kind, ranges (column spans) and the texts, kind 'invalid' if no line pattern fits"""
    i = _skip(s, 0)
    t = Tok(kind='invalid', ranges={}, text=s)
    if i == len(s):
        t['kind'] = 'blank'
        return t
    c = s[i]
    if S.same(c, '|'):
        t['kind'] = 'continuation'
        t['spaced'] = False
        t.ranges['direct_line_continuation_operator'] = (i, i + 1)
        _optional(t, s, 'value', i + 1)
    elif S.same(c, '\\'):
        t['kind'] = 'continuation'
        t['spaced'] = True
        t.ranges['spaced_line_continuation_operator'] = (i, i + 1)
        _optional(t, s, 'value', i + 1)
    elif S.same(c, '>'):
        t['kind'] = 'comment'
        t.ranges['comment_operator'] = (i, i + 1)
        _optional(t, s, 'comment', i + 1)
    elif S.same(c, '-'):
        j = _run(S, s, i, '-')
        if j - i == 1:
            t['kind'] = 'item'
            t.ranges['item_operator'] = (i, j)
            _optional(t, s, 'value', j)
        else:
            sp = _trim(s, j, len(s))
            if sp:
                t['kind'] = 'multiline'
                t['dashes'] = j - i
                t.ranges['multiline_field_operator'] = (i, j)
                t.ranges['key'] = sp
                t['key'] = s[sp[0]:sp[1]]
    elif S.same(c, '#'):
        j = _run(S, s, i, '#')
        _section(S, t, s, (i, j))
    else:
        _late(S, t, s, i)
    return t


def _section(S, t, s, op):
    r = _skip(s, op[1])
    if r == len(s):
        return
    t['depth'] = op[1] - op[0]
    if S.same(s[r], '`'):
        for rng, key, after in _escaped(S, s, r):
            m = _section_tail(S, s, after)
            if m is not None:
                t['kind'] = 'section'
                t['key'] = key
                t.ranges.update(rng)
                break
        else:
            return
    else:
        if S.same(s[r], '<'):
            return
        p = r
        while p < len(s) and not S.same(s[p], '<'):
            p += 1
        m = _section_tail(S, s, p)
        if m is None:
            return
        sp = _trim(s, r, p)
        t['kind'] = 'section'
        t['key'] = s[sp[0]:sp[1]]
        t.ranges['key'] = sp
    t.ranges['section_operator'] = op
    if m:
        t['deep'] = m[0][1] - m[0][0] == 2
        t.ranges['deep_copy_operator' if t.deep else 'copy_operator'] = m[0]
        t.ranges['template'] = m[1]
        t['template'] = s[m[1][0]:m[1][1]]


def _section_tail(S, s, i):
    """() nothing, ((op), (template)) a copy, None no valid tail"""
    i = _skip(s, i)
    if i == len(s):
        return ()
    if not S.same(s[i], '<'):
        return None
    n = 2 if i + 1 < len(s) and S.same(s[i + 1], '<') else 1
    sp = _trim(s, i + n, len(s))
    return ((i, i + n), sp) if sp else None


def _escaped(S, s, i):
    """the readings of an escaped key beginning at i, shortest key first"""
    j = _run(S, s, i, '`')
    n = j - i
    b = _skip(s, j)
    if b == len(s):
        return
    for e in range(b + 1, len(s)):
        q = _skip(s, e)
        if q + n > len(s):
            return
        if all(S.same(s[q + k], '`') for k in range(n)):
            yield {'escape_begin_operator': (i, j), 'key': (b, e),
                   'escape_end_operator': (q, q + n)}, s[b:e], q + n


def _operator(S, s, i):
    """after a key: -> (operator, its index) or None"""
    i = _skip(s, i)
    if i == len(s):
        return None
    for op in ':=<':
        if S.same(s[i], op):
            if op == '<' and _trim(s, i + 1, len(s)) is None:
                return None
            return op, i
    return None


def _late(S, t, s, i):
    if S.same(s[i], '`'):
        for rng, key, after in _escaped(S, s, i):
            m = _operator(S, s, after)
            if m:
                t.ranges.update(rng)
                t['key'] = key
                break
        else:
            return
    else:
        if S.isin(s[i], ':=<'):
            return
        p = i
        while p < len(s) and not S.isin(s[p], ':=<'):
            p += 1
        m = _operator(S, s, p)
        if not m:
            return
        sp = _trim(s, i, p)
        t['key'] = s[sp[0]:sp[1]]
        t.ranges['key'] = sp
    op, p = m
    if op == ':':
        t['kind'] = 'element'
        t.ranges['element_operator'] = (p, p + 1)
        _optional(t, s, 'value', p + 1)
    elif op == '=':
        t['kind'] = 'entry'
        t.ranges['entry_operator'] = (p, p + 1)
        _optional(t, s, 'value', p + 1)
    else:
        sp = _trim(s, p + 1, len(s))
        t['kind'] = 'copy'
        t.ranges['copy_operator'] = (p, p + 1)
        t.ranges['template'] = sp
        t['template'] = s[sp[0]:sp[1]]


def unterminated_escape(S, s):
    """column after the opening backticks if the line is an escaped key that is never closed"""
    i = _skip(s, 0)
    i = _run(S, s, i, '#')
    i = _skip(s, i)
    j = _run(S, s, i, '`')
    n = j - i
    if n == 0 or j == len(s):
        return None
    for q in range(j, len(s) - n + 1):
        if all(S.same(s[q + k], '`') for k in range(n)):
            return None
    return j


def is_terminator(S, s, dashes, key):
    """-> ranges if the line closes a multiline field"""
    i = _skip(s, 0)
    j = _run(S, s, i, '-')
    if j - i != dashes:
        return None
    sp = _trim(s, j, len(s))
    if sp is None or not S.same(s[sp[0]:sp[1]], key):
        return None
    return {'multiline_field_operator': (i, j), 'key': sp}


# ------------------------------------------------------------------ document

class Bad(Exception):
    def __init__(self, kind, line, **k):
        self.kind, self.line = kind, line
        self.__dict__.update(k)


class Node:
    def __init__(self, kind, line, tok, parent):
        self.kind, self.line, self.tok, self.parent = kind, line, tok, parent
        self.key = tok.key if tok else None
        self.comments = None        # list of (line, tok)
        self.value0 = tok.value if tok else None
        self.conts = []             # (line, tok)
        self.kids = []              # items, entries or section elements
        self.template = tok.template if tok else None
        self.source = None
        self.deep = bool(tok and tok.deep)
        self.lines = None           # multiline content
        self.end = None
        self.end_line = line

    def value(self):
        if self.kind == 'multiline':
            return '\n'.join(self.lines) if self.lines else None
        v, space = self.value0, False
        for _, t in self.conts:
            if v is None:
                v, space = t.value, False
            elif t.value is None:
                space = space or t.spaced
            else:
                v = v + (' ' if t.spaced or space else '') + t.value
                space = False
        return v

    def comment(self):
        return comment_text(self.comments)


def join(S, sep, parts):
    out = None
    for p in parts:
        out = p if out is None else out + sep + p
    return out


def comment_text(comments):
    if not comments:
        return None
    cols = [(t.ranges['comment'][0], t.value) if t.value is not None else None for _, t in comments]
    while cols and cols[0] is None:
        cols.pop(0)
    while cols and cols[-1] is None:
        cols.pop()
    if not cols:
        return None
    left = min(c[0] for c in cols if c)
    out = None
    for c in cols:
        text = '' if c is None else ' ' * (c[0] - left) + c[1]
        out = text if out is None else out + '\n' + text
    return out


def parse(S, text):
    """-> document Node (unresolved); raises Bad for the first offending line"""
    doc = Node('document', 0, None, None)
    doc.rows = text.split('\n')
    doc.what = {}                   # line -> (owner node, tok/role)
    section, element, target, pending = doc, None, None, None
    doc.depth = 0
    lineno = 0
    rows = doc.rows
    while lineno < len(rows):
        row = rows[lineno]
        t = tokenize(S, row)
        k = t.kind
        if k == 'invalid':
            col = unterminated_escape(S, row)
            raise Bad('unterminated_escaped_key' if col is not None else 'invalid_line', lineno, column=col)
        if k == 'blank':
            pending = None
        elif k == 'comment':
            pending = (pending or []) + [(lineno, t)]
        elif k == 'continuation':
            if target is None:
                raise Bad('missing_element_for_continuation', lineno)
            pending = None
            target.conts.append((lineno, t))
            if target.kind == 'empty':
                target.kind = 'field'
            doc.what[lineno] = (target, t)
        elif k in ('item', 'entry'):
            want = 'list' if k == 'item' else 'fieldset'
            if element is None or element.kind not in ('empty', want):
                raise Bad('missing_list_for_list_item' if k == 'item' else 'missing_fieldset_for_fieldset_entry',
                          lineno)
            n = Node(k, lineno, t, element)
            n.comments, pending = pending, None
            element.kind = want
            element.kids.append(n)
            doc.what[lineno] = (n, t)
            target = n
        elif k == 'section':
            if t.depth > section_depth(section) + 1:
                raise Bad('section_hierarchy_layer_skip', lineno, section=section)
            while section_depth(section) >= t.depth:
                section = section.parent
            n = Node('section', lineno, t, section)
            n.depth = t.depth
            n.comments, pending = pending, None
            section.kids.append(n)
            doc.what[lineno] = (n, t)
            section, element, target = n, None, None
        else:
            n = Node({'element': 'empty' if t.value is None else 'field', 'copy': 'empty',
                      'multiline': 'multiline'}[k], lineno, t, section)
            n.comments, pending = pending, None
            section.kids.append(n)
            doc.what[lineno] = (n, t)
            element = n
            target = n if k == 'element' else None
            if k == 'multiline':
                start = lineno + 1
                for j in range(start, len(rows)):
                    r = is_terminator(S, rows[j], t.dashes, t.key)
                    if r:
                        break
                else:
                    raise Bad('unterminated_multiline_field', lineno, key=t.key)
                n.lines = rows[start:j]
                for x in range(start, j):
                    doc.what[x] = (n, Tok(kind='content', ranges={'value': (0, len(rows[x]))}))
                n.end = (j, r)
                doc.what[j] = (n, Tok(kind='end', ranges=r))
                lineno = j
        lineno += 1
    return doc


def section_depth(n):
    return n.depth


def walk(node):
    for k in node.kids:
        yield k
        if k.kind == 'section':
            yield from walk(k)


# ---------------------------------------------------------------- resolution

class Out:
    """a resolved element"""
    __slots__ = ('kind', 'key', 'comments', 'value', 'kids', 'node')

    def __init__(self, kind, key, comments, value=None, kids=None, node=None):
        self.kind, self.key, self.comments, self.value, self.kids, self.node = \
            kind, key, comments, value, kids, node

    def comment(self):
        return comment_text(self.comments)


def resolve_errors(S, doc):
    """every error the document's copies may be rejected with: list of (kind, line, key, node)"""
    errs = []
    nodes = list(walk(doc))
    for want in (False, True):      # elements, then sections
        group = [n for n in nodes if (n.kind == 'section') == want]
        for n in group:
            n.source = None
            if n.template is None:
                continue
            earlier = [e for e in errs if e[3].line < n.line and (e[3].kind == 'section') == want]
            cands = [c for c in group if S.same(c.key, n.template)
                     and not (c.template is not None and S.same(c.key, c.template))]
            # of several copies that lack a template, or that name the same ambiguous one, the first is reported
            if not cands:
                if any(e[0] != 'two_or_more_templates_found' for e in earlier):
                    continue
                errs.append(('section_not_found' if want else 'non_section_element_not_found', n.line, n.template, n))
            elif len(cands) > 1:
                if any(e[0] == 'two_or_more_templates_found' and S.same(e[2], n.template) for e in earlier):
                    continue
                errs.append(('two_or_more_templates_found', n.line, n.template, n))
            else:
                n.source = cands[0]
    for n in nodes:                 # cycles
        if n.source is None:
            continue
        seen, todo = set(), _deps(n)
        while todo:
            d = todo.pop()
            if id(d) in seen:
                continue
            seen.add(id(d))
            if d is n:
                errs.append(('cyclic_dependency', n.line, n.template, n))
                break
            todo.extend(_deps(d))
    for n in nodes:                 # items or entries on top of something else
        if n.kind in ('list', 'fieldset') and n.source is not None:
            k, seen = n.source, {id(n)}
            while k.kind == 'empty' and k.source is not None and id(k) not in seen:
                seen.add(id(k))
                k = k.source
            if k.kind != n.kind and k.kind != 'empty':
                errs.append(('missing_list_for_list_item' if n.kind == 'list' else
                             'missing_fieldset_for_fieldset_entry', n.kids[0].line, None, n.kids[0]))
    return errs


def _deps(n):
    out = []
    if n.source is not None:
        out.append(n.source)
    if n.kind == 'section':
        out.extend(k for k in n.kids if k.kind == 'section')
    return out


def resolve(S, doc):
    """-> list of Out, for a document without resolve_errors"""
    done = {}

    def one(n):
        if id(n) not in done:
            done[id(n)] = section(n) if n.kind == 'section' else element(n)
        return done[id(n)]

    def leaf(n):
        return Out(n.kind, n.key, n.comments, n.value(), None, n)

    def element(n):
        kind = 'field' if n.kind == 'multiline' else n.kind
        kids = [leaf(k) for k in n.kids] if kind in ('list', 'fieldset') else None
        value = n.value() if kind == 'field' else None
        comments = n.comments
        if n.template is not None:
            t = one(n.source)
            if comments is None:
                comments = t.comments
            if kind == 'empty':
                kind, value, kids = t.kind, t.value, t.kids
            elif t.kind == kind:
                if kind == 'list':
                    kids = t.kids + kids
                else:
                    kids = [k for k in t.kids if not any(S.same(k.key, o.key) for o in kids)] + kids
        return Out(kind, n.key, comments, value, kids, n)

    def merge(own, comments, key, node, t, deep):
        """own elements over those of template t"""
        if comments is None:
            comments = t.comments
        if not own:
            return Out('section', key, comments, None, t.kids, node)
        kids = []
        for k in t.kids:
            if not any(S.same(k.key, o.key) for o in own):
                kids.append(k)
        for o in own:
            if deep and o.kind == 'section':
                mine = [x for x in own if S.same(x.key, o.key)]
                theirs = [x for x in t.kids if S.same(x.key, o.key)]
                if len(mine) == 1 and len(theirs) == 1 and theirs[0].kind == 'section':
                    o = merge(o.kids, o.comments, o.key, o.node, theirs[0], True)
            kids.append(o)
        return Out('section', key, comments, None, kids, node)

    def section(n):
        own = [one(k) for k in n.kids]
        if n.template is None:
            return Out('section', n.key, n.comments, None, own, n)
        return merge(own, n.comments, n.key, n, one(n.source), n.deep)

    return [one(k) for k in doc.kids]


def plain(outs):
    """Out tree -> nested lists comparable with observe()"""
    res = []
    for o in outs:
        if o.kind in ('field', 'item', 'entry'):
            p = o.value
        elif o.kind == 'empty':
            p = None
        else:
            p = plain(o.kids)
        key = None if o.kind == 'item' else o.key
        res.append([o.kind, key, o.comment(), p])
    return res
