"""What snippets and selections of errors must look like, from the reference reading of a document."""
from harness.common import *

SHOWN = {'>': 'E', '*': 'I', '?': 'Q', ' ': 'D'}


def last_line(n):
    """the last line that belongs to a node"""
    last = n.line
    for l, _ in n.conts:
        last = max(last, l)
    for k in n.kids:
        last = max(last, last_line(k))
    if n.end is not None:
        last = max(last, n.end[0])
    return last


def tag_node(n, tags=None):
    tags = {} if tags is None else tags
    for l in range(n.line + 1, last_line(n) + 1):
        tags[l] = '*'
    tags[n.line] = '>'
    return tags


def layout(tags, count):
    """tagged lines -> the rows of a snippet: (line, tag), None for an omission"""
    if not tags:
        return [(l, '?') for l in range(count)]
    rows, gap = [], False
    for l in range(count):
        if l in tags:
            rows.append((l, tags[l]))
            gap = False
        elif any(l + d in tags for d in (-2, -1, 1, 2)):
            rows.append((l, ' '))
            gap = False
        elif not gap:
            rows.append(None)
            gap = True
    return rows


def read_text(S, snippet, source=None, gutter='Line', content='Content'):
    head = ('' if source is None else '-- ' + source + ' --\n\n') + '  ' + gutter.rjust(5) + ' | ' + content + '\n'
    S.check(S.eq(snippet[:len(head)], head), 'the snippet does not start with the header')
    out = []
    for r in snippet[len(head):].split('\n'):
        if len(r) == 6 and S.same(r, '   ...'):
            out.append(None)
            continue
        S.check(len(r) >= 10 and S.same(r[0], ' ') and S.same(r[7:10], ' | ') and S.isin(r[6], '0123456789'), 'malformed snippet line')
        out.append((int(str(r[2:7])) - 1, str(r[1]), r[10:]))
    return out


def strip(S, s):
    """without ANSI escape sequences"""
    out, i = '', 0
    while i < len(s):
        if S.same(s[i], '\x1b'):
            while not S.same(s[i], 'm'):
                i += 1
        else:
            out = out + s[i]
        i += 1
    return out


def read_terminal(S, snippet, source=None):
    rows = strip(S, snippet).split('\n')
    head, rows = (rows[0], rows[1:]) if source is not None else (None, rows)
    w = 4                                           # the width of the line numbers: five digits need five columns
    for r in rows:
        if len(r) >= 4 and not S.same(r[:4], '   .'):
            n = 3
            while n < len(r) and S.same(r[n], ' '):
                n += 1
            while n < len(r) and S.isin(r[n], '0123456789'):
                n += 1
            w = max(w, n - 3)
    if source is not None:
        S.check(S.eq(head, ' > ' + ' ' * (w + 2) + source), 'the snippet does not name the source')
    out = []
    for r in rows:
        if S.same(r, '...'.rjust(w + 2) + '  '):
            out.append(None)
            continue
        S.check(len(r) >= w + 5 and S.same(r[0], ' ') and S.same(r[2], ' ') and S.same(r[w + 3:w + 5], '  '), 'malformed snippet line')
        out.append((int(str(r[3:w + 3])) - 1, str(r[1]), r[w + 5:]))
    return out


ESC = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '"': '&quot;', "'": '&#x27;'}


def escaped(S, s):
    out = S.const('')
    for c in s:
        for k in ESC:
            if S.same(c, k):
                out = out + S.const(ESC[k])
                break
        else:
            out = out + c
    return out


def read_html(S, snippet, source=None, gutter='Line', content='Content'):
    """-> (line, tag, escaped content); fails unless the markup is exactly the intended one"""
    def row(cls, g):
        return '<div class="eno-report-line %s"><div class="eno-report-gutter">%s</div><div class="eno-report-content">' % (cls, g.rjust(10))
    pre = '<pre class="eno-report">' + row('', gutter) + content + '</div></div>'
    if source is not None:
        pre = '<div><div>' + escaped(S, source) + '</div>' + pre
    post = '</pre>' + ('</div>' if source is not None else '')
    S.check(S.eq(snippet[:len(pre)], pre), 'the snippet does not start with the intended markup')
    S.check(S.eq(snippet[len(snippet) - len(post):], post), 'the snippet does not end with the intended markup')
    out = []
    for r in snippet[len(pre):len(snippet) - len(post)].split('\n'):
        if S.same(r, row('', '...') + '...</div></div>'):
            out.append(None)
            continue
        for cls, tag in (('', ' '), ('eno-report-line-emphasized', '>'), ('eno-report-line-indicated', '*'), ('eno-report-line-questioned', '?')):
            n = len(row(cls, ''))
            g = len('<div class="eno-report-line %s"><div class="eno-report-gutter">' % cls)
            if len(r) >= n and S.same(r[:g], row(cls, '')[:g]):
                break
        else:
            S.check(False, 'malformed snippet line')
        num = str(r[g:g + 10])
        S.check(S.eq(r[:n], row(cls, num.strip())), 'malformed snippet line')
        S.check(S.eq(r[len(r) - 12:], '</div></div>'), 'malformed snippet line')
        out.append((int(str(num)) - 1, tag, r[n:len(r) - 12]))
    return out


READ = {'TextReporter': read_text, 'TerminalReporter': read_terminal, 'HtmlReporter': read_html}


def faithful(S, text, got, tags, html=False):
    """rows read from a snippet against the expected tags and the text"""
    lines = text.split('\n')
    want = layout(tags, len(lines))
    shown = [None if g is None else (g[0], g[1]) for g in got]
    S.check(shown == want, 'the snippet shows %s instead of %s' % (brief(shown), brief(want)))
    for g in got:
        if g is None:
            continue
        row = lines[g[0]]
        if len(g[2]) == 0 and len(row) and row.isspace():
            continue
        S.check(S.eq(g[2], escaped(S, row) if html else row), 'a line is not shown as it is')


def brief(rows):
    return ' '.join('...' if r is None else '%s%d' % (r[1].strip(), r[0] + 1) for r in rows)


def check_snippet(S, text, snippet, reporter, tags, **k):
    faithful(S, text, READ[reporter](S, snippet, **k), tags, reporter == 'HtmlReporter')


def parse_tags(S, d, text, b, got):
    """expected tags of an admissible parse error; got: the tags shown (where several choices are right)"""
    tags = {b.line: '>'}
    k = b.kind
    lines = text.split('\n')
    if k == 'section_hierarchy_layer_skip' and b.section.kind == 'section':
        tags[b.section.line] = '*'
    elif k == 'unterminated_multiline_field':
        for l in range(b.line + 1, len(lines)):
            tags[l] = '*'
    elif k == 'two_or_more_templates_found':
        cand = [n for n in eno.walk(d) if (n.kind == 'section') == (b.node.kind == 'section') and S.same(n.key, b.key)
                and not (n.template is not None and S.same(n.key, n.template))]
        shown = [l for l, t in got if t == '?']
        S.check(len(shown) + (b.line in [c.line for c in cand]) >= 2 and all(any(c.line == l for c in cand) for l in shown),
                'the candidates for the template are not shown')
        for l in shown:
            tags[l] = '?'
        if not any(t == '>' for _, t in got):
            tags[b.line] = '?'
    elif k == 'cyclic_dependency':
        shown = [l for l, t in got if t == '*']
        nodes = {n.line: n for n in eno.walk(d)}
        S.check(all(l in nodes and cyclic(nodes[l]) for l in shown), 'a line that is not part of the cycle is indicated')
        for l in shown:
            tags[l] = '*'
    return tags


def cyclic(n):
    seen, todo = set(), eno._deps(n)
    while todo:
        d = todo.pop()
        if d is n:
            return True
        if id(d) in seen:
            continue
        seen.add(id(d))
        todo.extend(eno._deps(d))
    return False
