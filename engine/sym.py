"""Symbolic values: SymStr (a str whose plane-15/16 code points stand for
symbolic characters), SymInt and SymBool."""
import re
import unicodedata

import z3
from . import charset as CS
from . import core
from .core import f_and, f_not, f_or

BASE = CS.SYM_BASE
_str = str


def eng():
    return core.CURRENT


def is_sym(s):
    """does this plain or symbolic string contain symbolic characters?"""
    if str.isascii(s):
        return False
    return max(_raw(s)) >= _BASECH


_BASECH = chr(BASE)


def _raw(s):
    # str.__getitem__ of the full slice of a subclass yields an exact str
    return str.__getitem__(s, slice(None)) if type(s) is not str else s


def ch_in(code, st):
    """formula: character (code point or symbolic) belongs to set"""
    if code >= BASE:
        return ('in', code - BASE, st)
    return CS.has(st, code)


def ch_eq(a, b):
    if a == b:
        return True
    if a >= BASE:
        if b >= BASE:
            return ('eq', a - BASE, b - BASE)
        return ('in', a - BASE, CS.single(b))
    if b >= BASE:
        return ('in', b - BASE, CS.single(a))
    return False


def ch_lt(a, b):
    if a >= BASE and b >= BASE:
        return ('lt', a - BASE, b - BASE)
    if a >= BASE:
        return ('in', a - BASE, ((0, b - 1),) if b else ())
    if b >= BASE:
        return ('in', b - BASE, ((a + 1, 0xEFFFF),))
    return a < b


def str_eq(a, b):
    if len(a) != len(b):
        return False
    a, b = _raw(a), _raw(b)
    if a == b:
        return True
    out = []
    for x, y in zip(a, b):
        if x != y:
            f = ch_eq(ord(x), ord(y))
            if f is False:
                return False
            out.append(f)
    return f_and(out)


_places = {}


def candidate(a, sep, i):
    """the first place from i on where the plain or symbolic text a may contain sep, or -1"""
    sep = _raw(sep)
    p = _places.get(sep)
    if p is None:
        if len(_places) > 5000:
            _places.clear()
        any_ = '[%s-\U0010ffff]' % _BASECH
        p = _places[sep] = re.compile(''.join('.' if c >= _BASECH else '(?:%s|%s)' % (re.escape(c), any_) for c in sep), re.S)
    f = p.search(a, i)
    return f.start() if f else -1


class SymBool:
    __slots__ = ('f', 'full')

    def __init__(self, f, full=None):
        self.f = f
        self.full = full

    def __bool__(self):
        if self.f is True or self.f is False:
            return self.f
        return eng().fork(self.f)

    def __and__(self, o):
        return mkbool(f_and([self.f, formula(o)]))

    def __or__(self, o):
        return mkbool(f_or([self.f, formula(o)]))
    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return '<SymBool>'


def mkbool(f):
    return f if f is True or f is False else SymBool(f)


def formula(x):
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


class SymInt:
    """a mathematical integer (z3 Int)"""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @staticmethod
    def _z(o):
        if isinstance(o, SymInt):
            return o.z
        if isinstance(o, (bool, SymBool)):
            return z3.IntVal(int(bool(o)))
        if isinstance(o, int):
            return z3.IntVal(o)
        return None

    def _cmp(self, o, op):
        if hasattr(o, '_lazy_resolve'):
            o = o._lazy_resolve()
        z = self._z(o)
        if z is None:
            return NotImplemented
        e = z3.simplify(op(self.z, z))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(('z', e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, op):
        z = self._z(o)
        if z is None:
            return NotImplemented
        return SymInt(z3.simplify(op(self.z, z)))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, str):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return self.__index__() // o

    def __mod__(self, o):
        return self.__index__() % o

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        e = eng()
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        while True:       # complete enumeration of the feasible values
            v = e.memo(lambda: e.model_value(self.z).as_long())
            if e.fork(('z', z3.simplify(self.z == v))):
                return v
    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __format__(self, spec):
        return '\u00abint\u00bb'      # text of messages about the queried position is not modelled

    def __str__(self):
        return '\u00abint\u00bb'
    __repr__ = __str__


def mk(s):
    return SymStr(s)


class SymStr(str):
    """str with symbolic characters; every comparison is symbolic."""
    __slots__ = ()

    def __hash__(self):
        return 0

    # -- comparisons
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        if not isinstance(o, str):
            return True
        return mkbool(f_not(str_eq(self, o)))

    def _lt(self, o, or_eq):
        a, b = _raw(self), _raw(o)
        for x, y in zip(a, b):
            if eng_true(ch_eq(ord(x), ord(y))):
                continue
            return eng_true(ch_lt(ord(x), ord(y)))
        return len(a) <= len(b) if or_eq else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return not self._lt(o, True)

    def __ge__(self, o):
        return not self._lt(o, False)

    # -- sequence
    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[x.__index__() if x is not None else None for x in (i.start, i.stop, i.step)])
        elif not isinstance(i, int):
            i = i.__index__()
        return SymStr(str.__getitem__(self, i))

    def __iter__(self):
        return iter([SymStr(c) for c in _raw(self)])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(_raw(self) + _raw(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(_raw(o) + _raw(self))

    def __mul__(self, n):
        return SymStr(_raw(self) * int(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return SymStr(_raw(self) % args)

    def __str__(self):
        return self

    def __repr__(self):
        return "'" + _raw(self) + "'"

    def __format__(self, spec):
        return format(_raw(self), spec)

    def __bool__(self):
        return len(self) > 0

    def __contains__(self, sub):
        if not isinstance(sub, str):
            raise TypeError('in <string> requires string as left operand')
        n, m = len(self), len(sub)
        a, b = _raw(self), _raw(sub)
        return eng_true(f_or([str_eq(a[i:i + m], b) for i in range(n - m + 1)]))

    # -- searching
    def _bounds(self, start, end):
        n = len(self)
        s, e, _ = slice(None if start is None else start.__index__(),
                        None if end is None else end.__index__()).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        if start is not None and start > len(self):
            return -1
        a, b, m = _raw(self), _raw(sub), len(sub)
        i = s
        while i <= e - m:
            i = candidate(a, b, i)
            if i < 0 or i > e - m:
                break
            if eng_true(str_eq(a[i:i + m], b)):
                return i
            i += 1
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        a, b, m = _raw(self), _raw(sub), len(sub)
        for i in range(e - m, s - 1, -1):
            if eng_true(str_eq(a[i:i + m], b)):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = self._bounds(start, end)
        a, b, m = _raw(self), _raw(sub), len(sub)
        if m == 0:
            return e - s + 1
        n, i = 0, s
        while i <= e - m:
            if eng_true(str_eq(a[i:i + m], b)):
                n += 1
                i += m
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        s, e = self._bounds(start, end)
        a = _raw(self)[s:e]
        return len(a) >= len(p) and eng_true(str_eq(a[:len(p)], p))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        s, e = self._bounds(start, end)
        a = _raw(self)[s:e]
        return len(a) >= len(p) and eng_true(str_eq(a[len(a) - len(p):], p))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # -- stripping and splitting
    def _in(self, c, chars):
        if chars is None:
            return eng_true(ch_in(ord(c), CS.SPACE))
        return eng_true(f_or([ch_eq(ord(c), ord(x)) for x in _raw(chars)]))

    def lstrip(self, chars=None):
        a = _raw(self)
        i = 0
        while i < len(a) and self._in(a[i], chars):
            i += 1
        return SymStr(a[i:])

    def rstrip(self, chars=None):
        a = _raw(self)
        j = len(a)
        while j > 0 and self._in(a[j - 1], chars):
            j -= 1
        return SymStr(a[:j])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        a = _raw(self)
        out = []
        if sep is None:
            i, n = 0, len(a)
            while True:
                while i < n and self._in(a[i], None):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(SymStr(a[i:]).rstrip())
                    return out
                j = i
                while j < n and not self._in(a[j], None):
                    j += 1
                out.append(SymStr(a[i:j]))
                i = j
        if not sep:
            raise ValueError('empty separator')
        i = start = 0
        m = len(sep)
        while maxsplit < 0 or len(out) < maxsplit:
            i = candidate(a, sep, i)
            if i < 0:
                break
            if eng_true(str_eq(a[i:i + m], sep)):
                out.append(SymStr(a[start:i]))
                i += m
                start = i
            else:
                i += 1
        out.append(SymStr(a[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise core.Inconclusive('rsplit on whitespace with maxsplit')
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        head = parts[0]
        for p in parts[1:k]:
            head = head + sep + p
        return [head] + parts[k:]

    def splitlines(self, keepends=False):
        a = _raw(self)
        brk = CS.of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')
        out, start, i = [], 0, 0
        while i < len(a):
            if eng_true(ch_in(ord(a[i]), brk)):
                e = i + 1
                if eng_true(ch_eq(ord(a[i]), 13)) and e < len(a) and eng_true(ch_eq(ord(a[e]), 10)):
                    e += 1
                out.append(SymStr(a[start:e if keepends else i]))
                start = i = e
            else:
                i += 1
        if start < len(a):
            out.append(SymStr(a[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymStr(''), SymStr('')
        return self[:i], SymStr(sep), self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return SymStr(''), SymStr(''), self
        return self[:i], SymStr(sep), self[i + len(sep):]

    def replace(self, old, new, count=-1):
        a, m = _raw(self), len(old)
        if not is_sym(a) and not is_sym(old):
            return SymStr(a.replace(_raw(old), _raw(new), count))
        if m == 0:
            return SymStr(a.replace('', _raw(new), count))
        out, i, n, done = [], 0, 0, 0
        while count < 0 or n < count:
            i = candidate(a, old, i)
            if i < 0:
                break
            if eng_true(str_eq(a[i:i + m], old)):
                out += [a[done:i], _raw(new)]
                i += m
                done = i
                n += 1
            else:
                i += 1
        return SymStr(''.join(out) + a[done:])

    def translate(self, table):
        out = []
        for c in _raw(self):
            if ord(c) < BASE:
                out.append(c.translate(table))
                continue
            for k, v in table.items():
                if eng_true(ch_eq(ord(c), k)):
                    out.append('' if v is None else chr(v) if isinstance(v, int) else _raw(v))
                    break
            else:
                out.append(c)
        return SymStr(''.join(out))

    def join(self, it):
        return SymStr(str.join(_raw(self), [_raw(x) if isinstance(x, str) else x for x in it]))

    # -- padding
    def ljust(self, *a):
        return SymStr(_raw(self).ljust(*a))

    def rjust(self, *a):
        return SymStr(_raw(self).rjust(*a))

    def center(self, *a):
        return SymStr(_raw(self).center(*a))

    def zfill(self, n):
        return SymStr(_raw(self).zfill(n))

    def format(self, *a, **k):
        return SymStr(_raw(self).format(*a, **k))

    # -- predicates
    def _all(self, name):
        a = _raw(self)
        return len(a) > 0 and all(eng_true(ch_in(ord(c), CS.where(name))) for c in a)

    def isspace(self):
        a = _raw(self)
        return len(a) > 0 and all(eng_true(ch_in(ord(c), CS.SPACE)) for c in a)

    def isalpha(self):
        return self._all('isalpha')

    def isdigit(self):
        return self._all('isdigit')

    def isdecimal(self):
        return self._all('isdecimal')

    def isnumeric(self):
        return self._all('isnumeric')

    def isalnum(self):
        return self._all('isalnum')

    def isprintable(self):
        a = _raw(self)
        return all(eng_true(ch_in(ord(c), CS.where('isprintable'))) for c in a)

    def isascii(self):
        return all(eng_true(ch_in(ord(c), ((0, 127),))) for c in _raw(self))

    # -- operations that depend on the concrete character: pin it (cut, reported)
    def _conc(self):
        return concretise(self)

    def lower(self):
        return self._map('lower')

    def upper(self):
        return self._map('upper')

    def casefold(self):
        return self._map('casefold')

    def title(self):
        return self._map('title')

    def capitalize(self):
        return self._map('capitalize')

    def swapcase(self):
        return self._map('swapcase')

    def _map(self, name):
        a = _raw(self)
        if not is_sym(a):
            return SymStr(getattr(a, name)())
        if name in ('title', 'capitalize'):
            return SymStr(getattr(concretise(self), name)())
        changed = CS.changed(name)
        if not any(eng_true(ch_in(ord(c), changed)) for c in a):
            return self
        if name == 'lower' and any(eng_true(ch_in(ord(c), CS.of('\u03a3'))) for c in a):
            return SymStr(concretise(self).lower())         # depends on what stands around it
        out = []
        for c in a:
            if ord(c) < BASE:
                out.append(getattr(c, name)())
            elif eng_true(ch_in(ord(c), changed)):
                out.append(getattr(pin(ord(c) - BASE), name)())
            else:
                out.append(c)
        return SymStr(''.join(out))

    def encode(self, *x):
        return concretise(self).encode(*x)

    def expandtabs(self, *x):
        a = _raw(self)
        for c in a:
            if eng_true(ch_in(ord(c), CS.of('\t\n\r'))):
                return SymStr(concretise(self).expandtabs(*x))
        return self

    def isidentifier(self):
        return concretise(self).isidentifier()

    def isupper(self):
        return concretise(self).isupper()

    def islower(self):
        return concretise(self).islower()

    def istitle(self):
        return concretise(self).istitle()

    def __getnewargs__(self):
        return (_raw(self),)

    def __reduce__(self):
        return (SymStr, (_raw(self),))


def pin(i):
    """one character for the symbolic one: every value of a small domain, otherwise one value of each
    class of characters (an under-approximation, reported)"""
    e = eng()
    d = e.domain(i)
    if CS.size(d) <= 8:
        values = [x for lo, hi in d for x in range(lo, hi + 1)]
        for v in values[:-1]:
            if e.fork(('in', i, CS.single(v))):
                return chr(v)
        e.assume(('in', i, CS.single(values[-1])))
        return chr(values[-1])
    for k in CS.classes():
        x = CS.inter(e.domain(i), k)
        if x and x != e.domain(i) and e.fork(('in', i, k)):
            break
    v = e.memo(lambda: e.model_value(core.zchar(i)).as_long())
    e.stats.concretised += 1
    if 'character pinned to one value' not in e.stats.cut:
        e.stats.cut.append('character pinned to one value')
    e.assume(('in', i, CS.single(v)))
    return chr(v)


def concretise(s):
    """pin every symbolic character to feasible values"""
    a = _raw(s)
    if not is_sym(a):
        return a
    return ''.join(c if ord(c) < BASE else pin(ord(c) - BASE) for c in a)


def normalize(form, s):
    """unicodedata.normalize()"""
    a = _raw(s)
    if not any(eng_true(ch_in(ord(c), CS.changed('normalize'))) for c in a):
        return s
    return SymStr(unicodedata.normalize(form, concretise(s)))


def eng_true(f):
    if f is True or f is False:
        return f
    return eng().fork(f)


class Val:
    """one valuation of the current path: z3's model for the characters that are related to others,
    a value of its (independent) domain for every other one"""

    def __init__(self, e, rng):
        self.e, self.rng = e, rng
        self.c = {}
        self._m = None

    @property
    def m(self):
        if self._m is None:
            self._m = self.e.solver.model()
        return self._m

    def char(self, i):
        r = self.e.find(i)
        v = self.c.get(r)
        if v is None:
            if r in self.e.ent:
                v = self.m.eval(core.zchar(i), model_completion=True).as_long()
            else:
                d = self.e.dom[r]
                lo, hi = self.rng.choice(d)
                k = self.rng.random()
                if k < 0.5 and lo < 127 and hi > 32:
                    v = self.rng.randint(max(lo, 33), min(hi, 126)) if hi > 33 else hi
                else:
                    v = lo if k < 0.6 else hi if k < 0.7 else self.rng.randint(lo, hi)
            self.c[r] = v
        return v

    def str(self, s):
        s = _raw(s)
        if s.isascii():
            return s
        return ''.join([c if ord(c) < BASE else chr(self.char(ord(c) - BASE)) for c in s])

    def any(self, v):
        if isinstance(v, str):
            return self.str(v)
        if isinstance(v, SymInt):
            return self.m.eval(v.z, model_completion=True).as_long()
        if isinstance(v, SymBool):
            return z3.is_true(self.m.eval(core.zf(v.f), model_completion=True))
        if isinstance(v, dict):
            return {self.any(k): self.any(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return type(v)(self.any(x) for x in v)
        return v


def full_eq(a, b):
    """any_eq() without the shortcut for identical symbols, or True where nothing is symbolic;
    only for values that any_eq() has found to be of the same shape"""
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        return any_eq(a, b)
    if isinstance(a, str):
        return f_and([('eq', x - BASE, x - BASE) if x == y else ch_eq(x, y)
                      for x, y in zip(map(ord, _raw(a)), map(ord, _raw(b))) if x >= BASE or y >= BASE])
    if isinstance(a, (list, tuple)):
        return f_and([full_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return f_and([full_eq(a[k], b[k]) for k in a])
    return True


def any_eq(a, b):
    """formula: two observation values (nested lists/tuples/dicts/strings) are equal"""
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if a is None or b is None:
            return False
        return formula(a == b) if isinstance(a, SymInt) else formula(b == a)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, (bool, SymBool)) or not isinstance(b, (bool, SymBool)):
            return False
        fa, fb = formula(a), formula(b)
        return f_or([f_and([fa, fb]), f_and([f_not(fa), f_not(fb)])])
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = any_eq(x, y)
            if f is False:
                return False
            fs.append(f)
        return f_and(fs)
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return f_and([any_eq(a[k], b[k]) for k in a])
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    return bool(a == b)
