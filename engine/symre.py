"""A symbolic `re`: first-match (backtracking priority) semantics over strings
whose length is concrete and whose characters may be symbolic.

match(p) enumerates, in priority order, the outcomes (spans of all groups) the
backtracking matcher can produce, each with the condition on the characters
under which that alternative succeeds; the engine then forks over the outcomes,
an outcome being taken only where every earlier one fails."""
import re as _re
import warnings
import z3
from . import charset as CS, core
from .core import f_and, f_not, f_or
from .sym import BASE, SymStr, SymInt, _raw, is_sym, eng, ch_in, ch_eq

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import re._parser as _parser
    from re import _constants as _c

error = _re.error
A = ASCII = _re.A
I = IGNORECASE = _re.I
M = MULTILINE = _re.M
S = DOTALL = _re.S
X = VERBOSE = _re.X
U = UNICODE = _re.U
NOFLAG = _re.NOFLAG
RegexFlag = _re.RegexFlag
Match = _re.Match
MAX_OUTCOMES = 20000

_CAT = {
    _c.CATEGORY_SPACE: lambda: CS.SPACE,
    _c.CATEGORY_NOT_SPACE: lambda: CS.comp(CS.SPACE),
    _c.CATEGORY_DIGIT: CS.digits,
    _c.CATEGORY_NOT_DIGIT: lambda: CS.comp(CS.digits()),
    _c.CATEGORY_WORD: CS.word,
    _c.CATEGORY_NOT_WORD: lambda: CS.comp(CS.word()),
}

ESC_BASE = 0x10F000     # marks (in a pattern string) a literal taken from re.escape()
_escaped = {}


def _charset(op, av, flags):
    if op is _c.LITERAL:
        s = CS.single(av)
    elif op is _c.NOT_LITERAL:
        s = CS.comp(CS.single(av))
    elif op is _c.ANY:
        s = CS.UNIVERSE if flags & _re.S else CS.comp(CS.single(10))
        return s
    elif op is _c.IN:
        s, neg = (), False
        for o, a in av:
            if o is _c.NEGATE:
                neg = True
            elif o is _c.LITERAL:
                if a >= BASE:
                    raise core.Inconclusive('symbolic character inside a regex character class')
                s = CS.union(s, CS.single(a))
            elif o is _c.RANGE:
                s = CS.union(s, (tuple(a),))
            elif o is _c.CATEGORY:
                s = CS.union(s, _CAT[a]())
            else:
                return None
        if flags & _re.I:
            s = _ci(s)
        return CS.comp(s) if neg else s
    else:
        return None
    if flags & _re.I:
        s = _ci(s)
    return s


def _ci(s):
    if CS.size(s) > 2000:
        return s
    out = list(s)
    for lo, hi in s:
        for c in range(lo, hi + 1):
            for k in (chr(c).lower(), chr(c).upper()):
                if len(k) == 1:
                    out.append((ord(k), ord(k)))
    return CS.norm(out)


class _Prog:
    """a parsed pattern: nested tuples interpreted by _m"""

    def __init__(self, pattern, flags):
        self.subst = {}
        self.tree = _parser.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.groups = self.tree.state.groups - 1
        self.groupindex = dict(self.tree.state.groupdict)
        self.nodes = self.conv(self.tree, self.flags)

    def conv(self, tree, flags):
        out = []
        for op, av in tree:
            s = None
            if op is _c.LITERAL and av >= BASE:
                out.append(('sym', av))
                continue
            if op in (_c.LITERAL, _c.NOT_LITERAL, _c.ANY, _c.IN):
                s = _charset(op, av, flags)
            if s is not None:
                out.append(('set', s))
            elif op is _c.SUBPATTERN:
                g, add, rem, p = av
                out.append(('group', g, self.conv(p, (flags | add) & ~rem)))
            elif op is _c.BRANCH:
                out.append(('alt', [self.conv(p, flags) for p in av[1]]))
            elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
                lo, hi, p = av
                hi = None if hi is _c.MAXREPEAT else hi
                body = self.conv(p, flags)
                one = len(body) == 1 and body[0][0] == 'set'
                out.append(('rep', op is _c.MAX_REPEAT, lo, hi, body, body[0][1] if one else None))
            elif op is _c.ASSERT or op is _c.ASSERT_NOT:
                direction, p = av
                if direction < 0:
                    w = p.getwidth()
                    if w[0] != w[1]:
                        raise core.Inconclusive('variable look-behind')
                    out.append(('behind', op is _c.ASSERT, w[0], self.conv(p, flags)))
                else:
                    out.append(('ahead', op is _c.ASSERT, self.conv(p, flags)))
            elif op is _c.AT:
                out.append(('at', av, flags))
            elif op is _c.GROUPREF:
                out.append(('ref', av))
            elif op is _c.ATOMIC_GROUP:
                out.append(('atomic', self.conv(av, flags)))
            elif op is _c.POSSESSIVE_REPEAT:
                lo, hi, p = av
                hi = None if hi is _c.MAXREPEAT else hi
                out.append(('atomic', [('rep', True, lo, hi, self.conv(p, flags), None)]))
            elif op is _c.GROUPREF_EXISTS:
                g, yes, no = av
                out.append(('cond', g, self.conv(yes, flags), self.conv(no, flags) if no else []))
            else:
                raise core.Inconclusive('regular expression construct %s' % op)
        return out


# cond: (dict char -> set, tuple of opaque formulas); kept persistent by copying

class _Run:
    def __init__(self, text, endpos):
        self.t = text
        self.n = endpos
        self.e = eng()

    def test(self, cond, code, st):
        if code < BASE:
            return cond if CS.has(st, code) else None
        i = self.e.find(code - BASE) if self.e else code - BASE
        u, x = cond
        cur = u.get(i)
        if cur is None:
            cur = self.e.dom[i]
        nxt = CS.inter(cur, st)
        if not nxt:
            return None
        if nxt == cur:
            return cond
        u = dict(u)
        u[i] = nxt
        return (u, x)

    def same(self, cond, a, b):
        f = ch_eq(a, b)
        if f is True:
            return cond
        if f is False:
            return None
        if f[0] == 'in':
            return self.test(cond, BASE + f[1], f[2])
        i, j = self.e.find(f[1]), self.e.find(f[2])
        if i == j:
            return cond
        u, x = cond
        di, dj = u.get(i, self.e.dom[i]), u.get(j, self.e.dom[j])
        d = CS.inter(di, dj)
        if not d:
            return None
        if di == dj and CS.size(d) == 1:
            return cond
        if ('eq', i, j) in x:
            return cond
        return (u, x + (('eq', i, j),))

    # m yields (pos, caps, cond) in priority order
    def m(self, nodes, k, pos, caps, cond):
        if k == len(nodes):
            yield pos, caps, cond
            return
        nd = nodes[k]
        op = nd[0]
        if op == 'set':
            if pos < self.n:
                c = self.test(cond, ord(self.t[pos]), nd[1])
                if c is not None:
                    yield from self.m(nodes, k + 1, pos + 1, caps, c)
        elif op == 'sym':
            if pos < self.n:
                c = self.same(cond, ord(self.t[pos]), nd[1])
                if c is not None:
                    yield from self.m(nodes, k + 1, pos + 1, caps, c)
        elif op == 'group':
            g = nd[1]
            for p, cs, cd in self.m(nd[2], 0, pos, caps, cond):
                if g is not None:
                    cs = dict(cs)
                    cs[g] = (pos, p)
                    cs['last'] = g
                yield from self.m(nodes, k + 1, p, cs, cd)
        elif op == 'alt':
            for b in nd[1]:
                for p, cs, cd in self.m(b, 0, pos, caps, cond):
                    yield from self.m(nodes, k + 1, p, cs, cd)
        elif op == 'rep':
            if nd[5] is not None:
                yield from self.rep1(nodes, k, pos, caps, cond)
            else:
                for p, cs, cd in self.repn(nd[4], nd[1], nd[2], nd[3], 0, pos, None, caps, cond):
                    yield from self.m(nodes, k + 1, p, cs, cd)
        elif op == 'ahead':
            yield from self.look(nodes, k, pos, pos, nd[1], nd[2], caps, cond, None)
        elif op == 'behind':
            s = pos - nd[2]
            if s < 0:
                if not nd[1]:
                    yield from self.m(nodes, k + 1, pos, caps, cond)
            else:
                yield from self.look(nodes, k, pos, s, nd[1], nd[3], caps, cond, pos)
        elif op == 'at':
            for c in self.at(nd[1], nd[2], pos, cond):
                yield from self.m(nodes, k + 1, pos, caps, c)
        elif op == 'ref':
            sp = caps.get(nd[1])
            if sp is None:
                return
            w = sp[1] - sp[0]
            if pos + w > self.n:
                return
            c = cond
            for i in range(w):
                c = self.same(c, ord(self.t[sp[0] + i]), ord(self.t[pos + i]))
                if c is None:
                    return
            yield from self.m(nodes, k + 1, pos + w, caps, c)
        elif op == 'cond':
            b = nd[2] if caps.get(nd[1]) is not None else nd[3]
            for p, cs, cd in self.m(b, 0, pos, caps, cond):
                yield from self.m(nodes, k + 1, p, cs, cd)
        elif op == 'atomic':
            prev = []
            for p, cs, cd in self.m(nd[1], 0, pos, caps, cond):
                f = self.delta(cond, cd)
                c2 = cd
                for g in prev:
                    c2 = self.neg(c2, g)
                    if c2 is None:
                        break
                prev.append(f)
                if c2 is not None:
                    yield from self.m(nodes, k + 1, p, cs, c2)
                if f is True:
                    break
        else:
            raise core.Inconclusive('regex op ' + op)

    def rep1(self, nodes, k, pos, caps, cond):
        _, greedy, lo, hi, _b, st = nodes[k]
        conds = [cond]
        p = pos
        while p < self.n and (hi is None or len(conds) <= hi):
            c = self.test(conds[-1], ord(self.t[p]), st)
            if c is None:
                break
            conds.append(c)
            p += 1
        order = range(len(conds) - 1, lo - 1, -1) if greedy else range(lo, len(conds))
        for q in order:
            yield from self.m(nodes, k + 1, pos + q, caps, conds[q])

    def repn(self, body, greedy, lo, hi, cnt, pos, last, caps, cond):
        can = (hi is None or cnt < hi) and not (cnt >= lo and last == pos)
        if not greedy and cnt >= lo:
            yield pos, caps, cond
        if can:
            for p, cs, cd in self.m(body, 0, pos, caps, cond):
                yield from self.repn(body, greedy, lo, hi, cnt + 1, p, pos, cs, cd)
        if greedy and cnt >= lo:
            yield pos, caps, cond

    def delta(self, base, cd):
        fs = [('in', i, s) for i, s in cd[0].items() if base[0].get(i) != s]
        fs += [x for x in cd[1] if x not in base[1]]
        return f_and(fs)

    def neg(self, cond, f):
        """cond AND NOT f (None if trivially false)"""
        if f is True:
            return None
        if f is False:
            return cond
        if f[0] == 'in':
            return self.test(cond, BASE + f[1], CS.comp(f[2]))
        if f[0] == 'and':
            live = []
            for g in f[1]:
                if g[0] == 'in':
                    cur = cond[0].get(g[1], self.e.dom[g[1]])
                    x = CS.inter(cur, g[2])
                    if not x:
                        return cond
                    if x == cur:
                        continue
                live.append(g)
            if not live:
                return None
            if len(live) == 1:
                return self.neg(cond, live[0])
        nf = f_not(f)
        return cond if nf in cond[1] else (cond[0], cond[1] + (nf,))

    def look(self, nodes, k, pos, start, positive, body, caps, cond, must_end):
        c2 = cond
        for p, cs, cd in self.m(body, 0, start, caps, cond):
            if must_end is not None and p != must_end:
                continue
            f = self.delta(cond, cd)
            if positive:
                # first successful alternative wins (captures inside are kept)
                cc = c2
                if f is not True:
                    cc = (dict(c2[0]), c2[1])
                    for i, s in cd[0].items():
                        cur = cc[0].get(i, self.e.dom[i])
                        x = CS.inter(cur, s)
                        if not x:
                            cc = None
                            break
                        cc[0][i] = x
                    if cc is not None:
                        cc = (cc[0], cc[1] + tuple(x for x in cd[1] if x not in cc[1]))
                if cc is not None:
                    yield from self.m(nodes, k + 1, pos, cs, cc)
            c2 = self.neg(c2, f)
            if c2 is None:
                return
        if not positive:
            yield from self.m(nodes, k + 1, pos, caps, c2)

    def at(self, where, flags, pos, cond):
        t, n = self.t, self.n
        if where is _c.AT_BEGINNING or where is _c.AT_BEGINNING_STRING:
            if pos == 0:
                yield cond
            elif where is _c.AT_BEGINNING and flags & _re.M:
                c = self.test(cond, ord(t[pos - 1]), CS.single(10))
                if c is not None:
                    yield c
        elif where is _c.AT_END_STRING:
            if pos == n:
                yield cond
        elif where is _c.AT_END:
            if pos == n:
                yield cond
            elif pos == n - 1 or flags & _re.M:
                c = self.test(cond, ord(t[pos]), CS.single(10))
                if c is not None:
                    yield c
        elif where in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            w = CS.word()
            l = ch_in(ord(t[pos - 1]), w) if pos > 0 else False
            r = ch_in(ord(t[pos]), w) if pos < n else False
            f = f_or([f_and([l, f_not(r)]), f_and([f_not(l), r])])
            if where is _c.AT_NON_BOUNDARY:
                f = f_not(f)
            if f is True:
                yield cond
            elif f is not False:
                yield (cond[0], cond[1] + (f,))
        else:
            raise core.Inconclusive('regex anchor %s' % where)


def _box_implies(a, b, dom):
    """cond a (box) is contained in cond b (box without opaque parts)"""
    if b[1]:
        return False
    u = a[0]
    for i, s in b[0].items():
        x = u.get(i)
        if x is None:
            x = dom[i]
        if not CS.subset(x, s):
            return False
    return True


def _outcomes(prog, text, pos, endpos, full):
    """[(end, caps, formula)] in priority order, merged and pruned"""
    run = _Run(text, endpos)
    e = run.e
    raw_out, n = [], 0
    kept = []
    for p, caps, cond in run.m(prog.nodes, 0, pos, {}, ({}, ())):
        if full and p != endpos:
            continue
        n += 1
        if n > MAX_OUTCOMES:
            raise core.Inconclusive('too many regular expression outcomes')
        if any(_box_implies(cond, k, e.dom) for k in kept[-5:]):
            continue
        kept.append(cond)
        raw_out.append((p, caps, tuple(sorted(cond[0].items())), cond[1]))
        if not cond[0] and not cond[1]:
            break
    return raw_out


def _tree(outs, depth=0):
    """outcomes in priority order -> nested [(char, set, subtree)] | outcome leaves"""
    out, k = [], 0
    while k < len(outs):
        box = outs[k][2]
        if len(box) == depth:
            out.append(outs[k])
            k += 1
            continue
        c = box[depth]
        j = k + 1
        while j < len(outs) and len(outs[j][2]) > depth and outs[j][2][depth] == c:
            j += 1
        out.append((c[0], c[1], _tree(outs[k:j], depth + 1)))
        k = j
    return out


def _choose(e, tree):
    """decide which outcome is the first to apply, splitting one character's domain at a time;
    an outcome is taken where its whole condition holds and no earlier one does"""
    for nd in tree:
        if len(nd) == 3:
            if e.fork(('in', nd[0], nd[1])):
                r = _choose(e, nd[2])
                if r is not None:
                    return r
        elif all(e.fork(f) for f in nd[3]):
            return nd
    return None


class SymMatch:
    def __init__(self, pattern, string, pos, endpos, start, end, caps):
        self.re, self.string, self.pos, self.endpos = pattern, string, pos, endpos
        self._s = {0: (start, end)}
        self._last = caps.get('last')
        for k, v in caps.items():
            if k != 'last':
                self._s[k] = v

    def _g(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[g]
        g = g.__index__()
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        sp = self._s.get(self._g(g))
        return default if sp is None else self.string[sp[0]:sp[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    def __getitem__(self, g):
        return self._get(g)

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        return self._s.get(self._g(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        return self._last

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self._last:
                return k
        return None

    @property
    def regs(self):
        return tuple(self.span(i) for i in range(self.re.groups + 1))

    def expand(self, template):
        raise core.Inconclusive('Match.expand')

    def __bool__(self):
        return True

    def __repr__(self):
        return '<SymMatch>'


class LazyMatch:
    """a match that certainly exists and starts after `after`; which one is only
    decided (forked) when something other than "does it start at <= after" is asked"""

    def __init__(self, pattern, string, pos, endpos, first):
        self.__dict__['_a'] = (pattern, string, pos, endpos, first)
        self.__dict__['_m'] = None

    def _lazy(self):
        if self._m is None:
            pattern, string, pos, endpos, first = self._a
            self.__dict__['_m'] = pattern._search(string, pos, endpos, first, lazy=False)
        return self._m

    def start(self, g=0):
        if g == 0 and self._m is None:
            return LazyStart(self)
        return self._lazy().start(g)

    def span(self, g=0):
        return self._lazy().span(g)

    def __bool__(self):
        return True

    def __getattr__(self, n):
        return getattr(self._lazy(), n)

    def __getitem__(self, g):
        return self._lazy()[g]


class LazyStart:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def _lazy_resolve(self):
        return self.m._lazy().start()

    def _early(self, o):
        return isinstance(o, int) and self.m._m is None and o < self.m._a[4]

    def __eq__(self, o):
        return False if self._early(o) else self._lazy_resolve() == o

    def __ne__(self, o):
        return True if self._early(o) else self._lazy_resolve() != o

    def __gt__(self, o):
        return True if self._early(o) else self._lazy_resolve() > o

    def __ge__(self, o):
        return True if self._early(o) else self._lazy_resolve() >= o

    def __lt__(self, o):
        return False if self._early(o) else self._lazy_resolve() < o

    def __le__(self, o):
        return False if self._early(o) else self._lazy_resolve() <= o

    def __index__(self):
        return self._lazy_resolve()
    __int__ = __index__

    def __hash__(self):
        return hash(self._lazy_resolve())

    def __add__(self, o):
        return self._lazy_resolve() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._lazy_resolve() - o

    def __rsub__(self, o):
        return o - self._lazy_resolve()

    def __bool__(self):
        return bool(self._lazy_resolve())


def _ends_with_always(prog, text, endpos):
    """some start position matches whatever the characters are"""
    for s in range(endpos, -1, -1):
        o = _outcomes(prog, text, s, endpos, False)
        if o and not o[-1][2] and not o[-1][3]:
            return s
        if s < endpos - 1:
            break
    return None


class SymPattern:
    def __init__(self, pattern, flags):
        self.pattern = pattern
        p = _raw(pattern)
        if is_sym(p):
            p = _resolve_pattern(p)
        self._prog = _Prog(p, flags)
        self._conc = None if is_sym(p) else _re.compile(p, flags)
        self.flags = self._prog.flags | (0 if self._conc is None else self._conc.flags)
        self.groups = self._prog.groups
        self.groupindex = self._prog.groupindex

    def _is_conc(self, s):
        return self._conc is not None and not is_sym(s)

    def _wrapc(self, m, string):
        if m is None:
            return None
        caps = {i: m.span(i) for i in range(1, self.groups + 1) if m.span(i) != (-1, -1)}
        if m.lastindex is not None:
            caps['last'] = m.lastindex
        return SymMatch(self, string, m.pos, m.endpos, m.start(), m.end(), caps)

    def _norm(self, string, pos, endpos):
        n = len(string)
        pos = 0 if pos is None else max(0, min(pos.__index__(), n))
        endpos = n if endpos is None else max(0, min(endpos.__index__(), n))
        return pos, endpos

    def _at(self, string, pos, endpos, start, full):
        if start > endpos:
            return None
        e, t = eng(), _raw(string)
        tree = e.memo(lambda: _tree(_outcomes(self._prog, t, start, endpos, full)))
        o = _choose(e, tree)
        if o is None:
            return None
        return SymMatch(self, string, pos, endpos, start, o[0], o[1])

    def match(self, string, pos=None, endpos=None):
        string = string if isinstance(string, SymStr) else SymStr(string)
        pos, endpos = self._norm(string, pos, endpos)
        if self._is_conc(string):
            return self._wrapc(self._conc.match(_raw(string), pos, endpos), string)
        return self._at(string, pos, endpos, pos, False)

    def fullmatch(self, string, pos=None, endpos=None):
        string = string if isinstance(string, SymStr) else SymStr(string)
        pos, endpos = self._norm(string, pos, endpos)
        if self._is_conc(string):
            return self._wrapc(self._conc.fullmatch(_raw(string), pos, endpos), string)
        return self._at(string, pos, endpos, pos, True)

    def _search(self, string, pos, endpos, first, lazy):
        for s in range(first, endpos + 1):
            m = self._at(string, pos, endpos, s, False)
            if m is not None:
                return m
            if lazy and s == first:
                e = eng()
                t = _raw(string)
                if e.memo(lambda: _ends_with_always(self._prog, t, endpos)) is not None:
                    return LazyMatch(self, string, pos, endpos, s + 1)
        return None

    def search(self, string, pos=None, endpos=None):
        string = string if isinstance(string, SymStr) else SymStr(string)
        pos, endpos = self._norm(string, pos, endpos)
        if self._is_conc(string):
            return self._wrapc(self._conc.search(_raw(string), pos, endpos), string)
        return self._search(string, pos, endpos, pos, True)

    def finditer(self, string, pos=None, endpos=None):
        string = string if isinstance(string, SymStr) else SymStr(string)
        pos, endpos = self._norm(string, pos, endpos)
        if self._is_conc(string):
            for m in self._conc.finditer(_raw(string), pos, endpos):
                yield self._wrapc(m, string)
            return
        cur, must = pos, False
        while cur <= endpos:
            m = None
            for s in range(cur, endpos + 1):
                m = self._at(string, pos, endpos, s, False)
                if m is not None and not (must and m.end() == m.start() == cur):
                    break
                m = None
            if m is None:
                return
            yield m
            cur = m.end()
            must = True

    def findall(self, string, pos=None, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else SymStr(''))
            else:
                out.append(m.groups(SymStr('')))
        return out

    def split(self, string, maxsplit=0):
        out, cur = [], 0
        string = SymStr(string)
        for n, m in enumerate(self.finditer(string)):
            if maxsplit and n >= maxsplit:
                break
            out.append(string[cur:m.start()])
            out.extend(m.groups())
            cur = m.end()
        out.append(string[cur:])
        return out

    def subn(self, repl, string, count=0):
        string = SymStr(string)
        if self._is_conc(string) and not callable(repl) and not is_sym(repl):
            r, n = self._conc.subn(_raw(repl), _raw(string), count)
            return SymStr(r), n
        out, cur, n = SymStr(''), 0, 0
        for m in self.finditer(string):
            if count and n >= count:
                break
            n += 1
            out = out + string[cur:m.start()]
            if callable(repl):
                out = out + repl(m)
            else:
                out = out + _expand(repl, m)
            cur = m.end()
        return out + string[cur:], n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def _expand(repl, m):
    r = _raw(repl)
    if '\\' not in r:
        return SymStr(r)
    out, i = SymStr(''), 0
    for k in _re.finditer(r'\\(\d{1,2}|g<(\w+)>|n|t|\\)', r):
        out = out + r[i:k.start()]
        s = k.group(1)
        if s == 'n':
            out = out + '\n'
        elif s == 't':
            out = out + '\t'
        elif s == '\\':
            out = out + '\\'
        else:
            g = k.group(2) or s
            g = int(g) if g.isdigit() else g
            out = out + (m.group(g) if m.group(g) is not None else '')
        i = k.end()
    return out + r[i:]


SPECIAL = '.^$*+?{}[]\\|()'


def _resolve_pattern(p):
    """symbolic characters inserted raw into a pattern: decide for each whether it is one
    of the metacharacters (then it acts as one) or an ordinary literal"""
    out, prev_bs = [], False
    e = eng()
    i = 0
    while i < len(p):
        c = p[i]
        if c == '\uE000' and i + 1 < len(p) and ord(p[i + 1]) >= BASE:   # from escape()
            out.append(p[i + 1])
            i += 2
            continue
        if ord(c) >= BASE:
            d = e.domain(ord(c) - BASE)
            if CS.size(d) == 1:
                out.append(chr(d[0][0]))
            else:
                for s in SPECIAL:
                    if e.fork(('in', ord(c) - BASE, CS.of(s))):
                        out.append(s)
                        break
                else:
                    out.append(c)
        else:
            out.append(c)
        i += 1
    return ''.join(out)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(flags, RegexFlag):
        flags = flags.value
    p = _raw(pattern)
    if is_sym(p):
        return SymPattern(p, flags)
    k = (p, flags)
    if k not in _cache:
        _cache[k] = SymPattern(p, flags)
    return _cache[k]


def escape(s):
    p = _raw(s)
    if not is_sym(p):
        return SymStr(_re.escape(p)) if isinstance(s, SymStr) else _re.escape(p)
    out = []
    for c in p:
        # \uE000 marks a symbolic character whose literal meaning is already protected
        out.append('\uE000' + c if ord(c) >= BASE else _re.escape(c))
    return SymStr(''.join(out))


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def purge():
    pass


Pattern = SymPattern
