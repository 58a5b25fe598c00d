"""Sets of Unicode code points as sorted interval tuples, with cached algebra.

The universe is every Unicode scalar value of planes 0-14 (surrogates and the
private-use planes 15/16 are left out: plane 15/16 code points are used inside
the engine to stand for symbolic characters)."""
from functools import lru_cache

UNIVERSE = ((0, 0xD7FF), (0xE000, 0xEFFFF))
EMPTY = ()
SYM_BASE = 0xF0000          # chr(SYM_BASE + i) stands for symbolic character i


def norm(ivs):
    out = []
    for lo, hi in sorted(ivs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


@lru_cache(maxsize=200000)
def inter(a, b):
    if a is b:
        return a
    out, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        lo = a[i][0] if a[i][0] > b[j][0] else b[j][0]
        hi = a[i][1] if a[i][1] < b[j][1] else b[j][1]
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


@lru_cache(maxsize=50000)
def union(a, b):
    return norm(a + b)


@lru_cache(maxsize=50000)
def comp(a):
    out = []
    for lo, hi in UNIVERSE:
        cur = lo
        for x, y in a:
            if y < cur:
                continue
            if x > hi:
                break
            if x > cur:
                out.append((cur, x - 1))
            cur = y + 1
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


@lru_cache(maxsize=200000)
def subset(a, b):
    return inter(a, b) == a


def has(a, c):
    for lo, hi in a:
        if c < lo:
            return False
        if c <= hi:
            return True
    return False


def size(a):
    return sum(hi - lo + 1 for lo, hi in a)


@lru_cache(maxsize=None)
def single(c):
    return ((c, c),)


@lru_cache(maxsize=None)
def of(chars):
    return norm([(ord(c), ord(c)) for c in chars])


@lru_cache(maxsize=None)
def where(name):
    """code points whose one-character string satisfies str.<name>()"""
    import unicodedata  # noqa: F401
    f = getattr(str, name)
    out, start, prev = [], None, None
    for lo, hi in UNIVERSE:
        for c in range(lo, hi + 1):
            if f(chr(c)):
                if start is None:
                    start = c
                prev = c
            elif start is not None:
                out.append((start, prev))
                start = None
        if start is not None:
            out.append((start, prev))
            start = None
    return tuple(out)


# str.isspace() and the \s class of re agree for str patterns in CPython
SPACE = norm([(c, c) for c in range(0x3001) if chr(c).isspace()])
DIGIT = None


def digits():
    return where('isdecimal')


@lru_cache(maxsize=None)
def word():
    return norm(where('isalnum') + single(ord('_')))


@lru_cache(maxsize=None)
def changed(name):
    """characters a method changes; for 'normalize' the ones that change or combine with others in any form"""
    if name == 'normalize':
        import unicodedata as u
        seconds = set(range(0x1161, 0x1176)) | set(range(0x11a8, 0x11c3))
        for lo, hi in UNIVERSE:
            for c in range(lo, hi + 1):
                d = u.decomposition(chr(c)).split()
                if len(d) == 2 and not d[0].startswith('<'):
                    seconds.add(int(d[1], 16))

        def f(c):
            x = chr(c)
            return c in seconds or u.combining(x) != 0 or any(not u.is_normalized(k, x) for k in ('NFC', 'NFD', 'NFKC', 'NFKD'))
    else:
        def f(c):
            return getattr(chr(c), name)() != chr(c)
    return norm(tuple((c, c) for lo, hi in UNIVERSE for c in range(lo, hi + 1) if f(c)))


@lru_cache(maxsize=None)
def classes():
    """kinds of characters that operations on the concrete character tell apart"""
    special = norm(tuple((c, c) for lo, hi in UNIVERSE for c in range(max(lo, 128), hi + 1) if len(chr(c).casefold()) != 1 or len(chr(c).upper()) != 1))
    return (of('abcdefghijklmnopqrstuvwxyz'), of('ABCDEFGHIJKLMNOPQRSTUVWXYZ'), of('0123456789'), SPACE, of('\\{}%&<>"\'$'), ((0, 127),), special,
            inter(changed('casefold'), ((128, 0xEFFFF),)), changed('normalize'), ((128, 0xFFFF),))
