"""Path-exploring symbolic executor.

The real (AST-instrumented) Python code runs natively over symbolic strings,
integers and booleans.  Every branch on a symbolic condition calls
Engine.fork(); Engine explores every feasible branch by re-execution, the
feasibility of each side being decided by z3 (or by interval propagation when
the condition concerns one otherwise unconstrained character).  Engine.check()
asks z3 whether path-condition AND NOT property has a model."""
import time
import z3
from . import charset as CS

MAX_TRACE = 20000


class PathAbort(BaseException):
    """the path condition became unsatisfiable / an assume failed"""


class Inconclusive(BaseException):
    def __init__(self, why):
        self.why = why


class Violation(BaseException):
    def __init__(self, msg, known=None):
        self.msg, self.known = msg, known


CURRENT = None      # the engine that is executing, if any


def engine():
    return CURRENT


# ---------------------------------------------------------------- formulas
# True | False | ('in', ch, set) | ('eq', ch, ch) | ('and', tuple)
# | ('or', tuple) | ('not', f) | ('lt', ch, ch) | ('z', z3expr)

def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    if f[0] == 'in':
        return ('in', f[1], CS.comp(f[2]))
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == 'and':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f[0] == 'or':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


class Stats:
    FIELDS = ('paths', 'aborted', 'solver_queries', 'branch_queries', 'assertion_queries',
              'assertions', 'propagated', 'validated', 'concretised', 'witness_queries',
              'path_obligation_queries', 'obligations', 'audited_paths', 'audited_branches')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.cut = []

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        d['cut'] = list(self.cut)
        return d


def merge_stats(ds):
    tot = {f: 0 for f in Stats.FIELDS}
    tot['solver_s'] = 0.0
    tot['cut'] = []
    for d in ds:
        for k, v in d.items():
            if k == 'cut':
                tot[k] = sorted(set(tot[k]) | set(v))
            else:
                tot[k] = tot.get(k, 0) + v
    return tot


class Node:
    __slots__ = ('f', 'val', 'alt', 'cache')

    def __init__(self, f, val, alt, cache=None):
        self.f, self.val, self.alt, self.cache = f, val, alt, cache


_zc = {}


def zchar(i):
    v = _zc.get(i)
    if v is None:
        v = _zc[i] = z3.Int('c%d' % i)
    return v


_zin = {}


def zin(i, s):
    k = (i, s)
    v = _zin.get(k)
    if v is None:
        c = zchar(i)

        def rng(ivs):
            return z3.Or([c == lo if lo == hi else z3.And(c >= lo, c <= hi) for lo, hi in ivs])
        co = CS.comp(s)
        if not s:
            v = z3.BoolVal(False)
        elif not co:
            v = z3.BoolVal(True)
        elif len(co) < len(s):
            v = z3.Not(rng(co))
        else:
            v = rng(s)
        _zin[k] = v
    return v


_zd = {}


def zdom(i, dom):
    v = _zd.get((i, dom))
    if v is None:
        c = zchar(i)
        v = _zd[(i, dom)] = z3.And(c >= 0, c <= CS.UNIVERSE[-1][1], z3.Or(c < 0xD800, c > 0xDFFF), zin(i, dom))
    return v


def zf(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    t = f[0]
    if t == 'in':
        return zin(f[1], f[2])
    if t == 'eq':
        return zchar(f[1]) == zchar(f[2])
    if t == 'lt':
        return zchar(f[1]) < zchar(f[2])
    if t == 'and':
        return z3.And([zf(g) for g in f[1]])
    if t == 'or':
        return z3.Or([zf(g) for g in f[1]])
    if t == 'not':
        return z3.Not(zf(f[1]))
    return f[1]


class Engine:
    def __init__(self, query_timeout_ms=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stats = Stats()
        self.trace = []
        self.prefix = ()         # decisions of an enclosing exploration, taken without asking
        self.deadline = None
        self.zlevel = 0          # trace nodes already pushed to z3
        self.zstack = []         # per pushed node: True
        self.audit = False       # let z3 confirm every decision made by propagation
        self._reset_path()

    # ------------------------------------------------------------ per path
    def _reset_path(self):
        self.pos = 0
        self.nchars = 0
        self.nints = 0
        self.dom = []            # char id -> set (of representative)
        self.rep = []
        self.ent = set()         # representatives under non-unary constraints
        self.diseq = set()
        self.known = {}
        self.inputs = []         # (name, kind, payload)
        self.notes = []
        self.anonymous = {}
        self.owed = []           # formulas every model of this path has to satisfy

    def new_char(self, dom=CS.UNIVERSE):
        i = self.nchars
        self.nchars += 1
        self.dom.append(dom)
        self.rep.append(i)
        return i

    def find(self, i):
        rep = self.rep
        while rep[i] != i:
            i = rep[i]
        return i

    def domain(self, i):
        return self.dom[self.find(i)]

    # --------------------------------------------------------- quick eval
    def quick(self, f):
        """True / False / None under interval propagation"""
        if f is True or f is False:
            return f
        t = f[0]
        if t == 'in':
            d = self.dom[self.find(f[1])]
            x = CS.inter(d, f[2])
            if not x:
                return False
            if x == d:
                return True
            return self.known.get(f)
        if t == 'eq':
            a, b = self.find(f[1]), self.find(f[2])
            if a == b:
                return True
            da, db = self.dom[a], self.dom[b]
            x = CS.inter(da, db)
            if not x:
                return False
            if da == db and len(da) == 1 and da[0][0] == da[0][1]:
                return True
            if ((a, b) if a < b else (b, a)) in self.diseq:
                return False
            return None
        if t == 'and':
            r = True
            for g in f[1]:
                q = self.quick(g)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r if r else self.known.get(f)
        if t == 'or':
            r = False
            for g in f[1]:
                q = self.quick(g)
                if q is True:
                    return True
                if q is None:
                    r = None
            return r if r is False else self.known.get(f)
        if t == 'not':
            q = self.quick(f[1])
            return None if q is None else not q
        if t == 'lt':
            a, b = self.domain(f[1]), self.domain(f[2])
            if a[-1][1] < b[0][0]:
                return True
            if a[0][0] >= b[-1][1]:
                return False
            return None
        return self.known.get(f[1].get_id()) if t == 'z' else None

    def learn(self, f, val):
        if f is True or f is False:
            return
        t = f[0]
        if t == 'not':
            return self.learn(f[1], not val)
        if t == 'in':
            r = self.find(f[1])
            self.dom[r] = CS.inter(self.dom[r], f[2] if val else CS.comp(f[2]))
            return
        if t == 'eq':
            a, b = self.find(f[1]), self.find(f[2])
            if a == b:
                return
            if val:
                d = CS.inter(self.dom[a], self.dom[b])
                if a > b:
                    a, b = b, a
                self.rep[b] = a
                self.dom[a] = d
                e = a in self.ent or b in self.ent
                if e:
                    self.ent.add(a)
                if self.diseq:
                    self.diseq = {tuple(sorted((self.find(x), self.find(y)))) for x, y in self.diseq}
            else:
                da, db = self.dom[a], self.dom[b]
                if CS.size(db) == 1:
                    self.dom[a] = CS.inter(da, CS.comp(db))
                elif CS.size(da) == 1:
                    self.dom[b] = CS.inter(db, CS.comp(da))
                else:
                    self.diseq.add((a, b) if a < b else (b, a))
                    self.ent.add(a)
                    self.ent.add(b)
            return
        if (t == 'and' and val) or (t == 'or' and not val):
            for g in f[1]:
                self.learn(g, val)
            return
        if t == 'z':
            self.known[f[1].get_id()] = val
            self._keep = getattr(self, '_keep', [])
            self._keep.append(f[1])
            return
        self.known[f] = val
        # a clause: unit propagation where possible
        if t in ('and', 'or'):
            rest = [g for g in f[1] if self.quick(g) is None]
            if len(rest) == 1:
                return self.learn(rest[0], val)
        self._entangle(f)

    def _entangle(self, f):
        t = f[0]
        if t == 'in':
            self.ent.add(self.find(f[1]))
        elif t in ('eq', 'lt'):
            self.ent.add(self.find(f[1]))
            self.ent.add(self.find(f[2]))
        elif t in ('and', 'or'):
            for g in f[1]:
                if g is not True and g is not False:
                    self._entangle(g)
        elif t == 'not':
            self._entangle(f[1])

    # ------------------------------------------------------------- solver
    def _sync(self):
        """push every trace node before self.pos that z3 has not seen"""
        while self.zlevel < self.pos:
            n = self.trace[self.zlevel]
            if n.f is not None and (n.alt is not None):
                self.solver.push()
                self.zstack.append(self.zlevel)
                self.solver.add(zf(n.f) if n.val else z3.Not(zf(n.f)))
            self.zlevel += 1

    def _solve(self, *extra):
        self._sync()
        s = self.solver
        t = time.perf_counter()
        r = s.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.solver_queries += 1
        if r == z3.unknown:
            raise Inconclusive('solver returned unknown: %s' % s.reason_unknown())
        return r == z3.sat

    def fork(self, f):
        if f is True or f is False:
            return f
        if f[0] == 'in':
            r = self.rep
            i = f[1]
            while r[i] != i:
                i = r[i]
            d = self.dom[i]
            x = CS.inter(d, f[2])
            if not x:
                if self.audit:
                    self.owed.append(f_not(f))
                return False
            if x is d or x == d:
                if self.audit:
                    self.owed.append(f)
                return True
            q = self.known.get(f) if i in self.ent else None
        else:
            q = self.quick(f)
        if q is not None:
            self.stats.propagated += 1
            if self.audit:
                self.owed.append(f if q else ('not', f))
            return q
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self.pos += 1
            self.learn(f, n.val)
            return n.val
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.trace.append(Node(f, val, False))
            self.pos += 1
            self.learn(f, val)
            return val
        if self.pos > MAX_TRACE:
            raise Inconclusive('path too long')
        # a new decision
        free = f[0] == 'in' and self.find(f[1]) not in self.ent
        if free:
            both, val = True, True
        else:
            z = zf(f)
            self.stats.branch_queries += 1
            if not self._solve(z):
                both, val = False, False
            else:
                self.stats.branch_queries += 1
                both, val = self._solve(z3.Not(z)), True
        self.trace.append(Node(f, val, True if both else None))
        self.pos += 1
        self.learn(f, val)
        return val

    def memo(self, compute):
        """cache a deterministic computation at this position of the path"""
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self.pos += 1
            return n.cache
        v = self.prefix[self.pos] if self.pos < len(self.prefix) else None
        if v is None:
            v = compute()
        self.trace.append(Node(None, None, None, v))
        self.pos += 1
        return v

    def assume(self, f):
        q = self.quick(f)
        if q is True:
            return
        if q is False:
            raise PathAbort()
        if self.pos < len(self.trace):
            n = self.trace[self.pos]
            self.pos += 1
            self.learn(f, True)
            return
        if self.pos >= len(self.prefix) and not self._solve(zf(f)):
            raise PathAbort()
        self.trace.append(Node(f, True, False))
        self.pos += 1
        self.learn(f, True)

    def new_domain_char(self, dom):
        i = self.new_char(dom)
        # the declared domain is an assumption every query sees
        if self.pos < len(self.trace):
            self.pos += 1
        else:
            self.trace.append(Node(('z', zdom(i, dom)), True, False))
            self.pos += 1
        return i

    def check(self, f, msg, full=None):
        self.stats.assertions += 1
        q = self.quick(f)
        if q is True:
            # discharged by z3 at the end of the path, together with the others
            if full is not None and full is not True:
                self.owed.append(full)
            elif f is not True:
                self.owed.append(f)
            return
        if q is None:
            if self.pos < len(self.trace):      # discharged on an earlier path with this prefix
                self.pos += 1
                return
            if self.pos < len(self.prefix):
                self.trace.append(Node(None, None, None))
                self.pos += 1
                return
            self.stats.assertion_queries += 1
            if not self._solve(z3.Not(zf(f))):
                self.trace.append(Node(None, None, None))
                self.pos += 1
                return
        # violated for some values: pin them
        if self.pos < len(self.trace):
            del self.trace[self.pos:]
            self._unwind_z(self.pos)
        if q is not False:
            self.trace.append(Node(f, False, False))
            self.pos += 1
            self.learn(f, False)
        raise Violation(msg)

    def _unwind_z(self, level):
        while self.zstack and self.zstack[-1] >= level:
            self.solver.pop()
            self.zstack.pop()
        if self.zlevel > level:
            self.zlevel = level

    def settle(self):
        """no model of the path violates an assertion (or a decision made by propagation)"""
        if not self.owed:
            return True
        self.pos = len(self.trace)
        self.stats.path_obligation_queries += 1
        self.stats.obligations += len(self.owed)
        return not self._solve(z3.Not(z3.And([zf(f) for f in self.owed])))

    def model(self):
        self.stats.witness_queries += 1
        return self._solve()

    # --------------------------------------------------------- exploration
    def backtrack(self):
        while self.trace:
            n = self.trace[-1]
            if n.alt:
                n.alt = False
                n.val = not n.val
                self._unwind_z(len(self.trace) - 1)
                return True
            self.trace.pop()
        self._unwind_z(0)
        return False

    def pending(self):
        """prefixes of the alternatives not yet explored (to be explored elsewhere)"""
        out, vals = [], []
        for n in self.trace:
            if n.alt is True:
                out.append(tuple(vals) + (not n.val,))
            if n.f is None:
                vals.append(n.cache if isinstance(n.cache, int) else None)
            else:
                vals.append(n.val)
        return out

    def run_path(self, fn):
        global CURRENT
        self._reset_path()
        CURRENT = self
        try:
            return fn()
        finally:
            CURRENT = None
            del self.trace[self.pos:]
            self._unwind_z(self.pos)

    # ---------------------------------------------------------- concretise
    def model_value(self, z):
        if not self._solve():
            raise PathAbort()
        return self.solver.model().eval(z, model_completion=True)
