"""The two sides of a harness.

A harness is `def h(S, **params)`.  Under Sym it runs over symbolic inputs with
the instrumented package; under Conc it runs over one concrete input with the
unmodified package (validation of explored paths, replay of counterexamples)."""


class Failed(BaseException):
    """the property does not hold on the current input"""

    def __init__(self, msg, known=None):
        self.msg, self.known = msg, known


class Skip(BaseException):
    """the current input is outside the harness's assumptions"""


def norm(v):
    """observation values in a form comparable across the two package copies"""
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if isinstance(v, str):
        return str(v)
    if v is None or isinstance(v, (bool, int, float)):
        return v
    return '<%s>' % type(v).__name__


class Conc:
    sym = False

    def __init__(self, lib, inputs):
        self.lib = lib
        self.inputs = inputs
        self.notes = []
        self.witness = set()

    def text(self, name, n, dom=None):
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self.inputs[name]

    def const(self, s):
        return s

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, known=None):
        if not c:
            raise Failed(msg, known)

    def eq(self, a, b):
        return norm(a) == norm(b)

    def note(self, *v):
        self.notes.append(norm(list(v)))

    def reach(self, tag):
        self.witness.add(tag)

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:      # noqa: BLE001 - any exception is an observation
            return None, e

    # character tests that work on both sides
    def isin(self, ch, chars):
        return ch in chars

    def same(self, a, b):
        return a == b

    def index(self, n):
        return n
