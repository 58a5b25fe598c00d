from . import charset as CS, core
from .core import f_or
from .provider import Conc, norm   # noqa: F401
from .sym import (BASE, SymBool, SymInt, SymStr, _raw, Val, any_eq, ch_eq, ch_in, eng_true,
                  formula, full_eq, mkbool)
import z3


class Sym:
    sym = True

    def __init__(self, lib, engine):
        self.lib = lib
        self.e = engine
        self.spec = []          # (name, value) of the inputs
        self.notes = []
        self.witness = set()

    def begin(self):
        self.spec = []
        self.notes = []

    def text(self, name, n, dom=None):
        if dom is None:
            dom = CS.UNIVERSE
        elif isinstance(dom, str):
            dom = CS.of(dom)
        out = []
        for k in range(n):
            d = dom[k] if isinstance(dom, list) else dom
            if isinstance(d, str):
                if len(d) == 1:
                    out.append(d)
                    continue
                d = CS.of(d)
            out.append(chr(BASE + self.e.new_domain_char(d)))
        s = SymStr(''.join(out))
        self.spec.append((name, s))
        return s

    def int(self, name, lo, hi):
        z = z3.Int('i_' + name)
        self.e.assume(('z', z3.And(z >= lo, z <= hi)))
        v = SymInt(z)
        self.spec.append((name, v))
        return v

    def const(self, s):
        return SymStr(s)

    def assume(self, c):
        self.e.assume(formula(c))

    def check(self, c, msg, known=None):
        f = formula(c)
        if known is not None:
            if not (f if isinstance(f, bool) else self.e.fork(f)):
                raise core.Violation(msg, known)
            return
        self.e.check(f, msg, c.full if isinstance(c, SymBool) else None)

    def eq(self, a, b):
        f = any_eq(a, b)
        if f is False:
            return False
        full = full_eq(a, b)
        return mkbool(f) if full is True else SymBool(f, full)

    def note(self, *v):
        self.notes.append(list(v))

    def reach(self, tag):
        self.witness.add(tag)

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:      # noqa: BLE001
            return None, e

    def isin(self, ch, chars):
        o = ord(_raw(ch))
        if o < BASE:
            return _raw(ch) in chars
        return eng_true(('in', o - BASE, CS.of(chars)))

    def same(self, a, b):
        return bool(a == b)

    def index(self, n):
        return n.__index__()

    def inputs(self, val):
        return {n: val.any(v) for n, v in self.spec}

    def eval_notes(self, val):
        return norm(val.any(self.notes))
