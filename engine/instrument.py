"""Loads the package under test from its current source, twice:

  load_symbolic()  the AST is rewritten so that the operations Python performs on
                   str in C (f-strings, 'sep'.join(..), `x in 'abc'`, '%', the re
                   module, len/ord/int conversions) go through the symbolic layer;
                   nothing else is changed: control flow, data structures and
                   calls are the repository's own.
  load_plain()     unmodified, for replaying counterexamples and validating paths.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types
import unicodedata

from . import core, symre
from .sym import (BASE, SymBool, SymInt, SymStr, _raw, concretise, eng_true, is_sym, mkbool, normalize,
                  str_eq)
from .core import f_or
from .state import Keeper

REPO = os.environ.get('ENOLIB_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'python', 'enolib')

STR_METHODS = {m for m in dir(str) if not m.startswith('_')}


def _has_sym(x):
    return isinstance(x, str) and (type(x) is SymStr or is_sym(x))


def rt_fstr(*parts):
    out, sym = [], False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            if isinstance(v, str):
                sym = sym or _has_sym(v)
                v = format(_raw(v), spec)
            else:
                v = format(v, spec)
                sym = sym or _has_sym(v)
            out.append(_raw(v))
        else:
            out.append(p)
    r = ''.join(out)
    return SymStr(r) if sym or is_sym(r) else r


def rt_mcall(obj, name, *a, **k):
    if obj is str and a and isinstance(a[0], str):      # str.strip(x)
        obj, a = a[0], a[1:]
    if type(obj) is str:
        if name == 'join' and len(a) == 1 and not k:
            it = list(a[0])
            if any(_has_sym(x) for x in it):
                return SymStr(obj).join(it)
            return obj.join(it)
        if is_sym(obj) or any(_has_sym(x) or (isinstance(x, tuple) and any(map(_has_sym, x))) for x in a) \
                or any(_has_sym(x) for x in k.values()):
            return getattr(SymStr(obj), name)(*a, **k)
    return getattr(obj, name)(*a, **k)


def rt_in(a, b):
    if type(b) is str and _has_sym(a):
        return SymStr(b).__contains__(a)
    if isinstance(b, (set, frozenset)) and _has_sym(a):
        return any(bool(a == x) for x in b)
    if isinstance(b, dict) and type(a) is SymStr and any(type(x) is str for x in b):
        return any(bool(a == x) for x in b)
    return a in b


def rt_is(a, b):
    """identity of texts, as in CPython: one object, or equal and at most one character below 256"""
    if a is b or not (isinstance(a, str) and isinstance(b, str) and (_has_sym(a) or _has_sym(b))):
        return a is b
    return len(a) == len(b) < 2 and (len(a) == 0 or bool(SymStr(a) == b) and bool(SymStr(a) <= chr(255)))


def rt_mod(a, b):
    if type(a) is str:
        vals = b if isinstance(b, tuple) else (b,)
        if any(_has_sym(v) for v in vals):
            return SymStr(a % (tuple(_raw(v) if isinstance(v, str) else v for v in vals)
                              if isinstance(b, tuple) else _raw(b)))
    return a % b


def rt_ord(c):
    return ord(concretise(c)) if _has_sym(c) else ord(c)


def rt_int(*a):
    if a and _has_sym(a[0]):
        return int(concretise(a[0]), *a[1:])
    if a and isinstance(a[0], SymInt):
        return a[0]
    return int(*a)


def rt_strcall(*a, **k):
    r = str(*a, **k)
    return SymStr(r) if type(r) is str and is_sym(r) else r


def rt_unbound(name):
    return lambda obj, *a, **k: rt_mcall(obj, name, *a, **k)


def rt_ext(f, *a, **k):
    """a function of another module: it gets concrete texts"""
    if any(map(_has_sym, a)) or any(map(_has_sym, k.values())):
        if f is unicodedata.normalize:
            return normalize(*a)
        return f(*[concretise(x) if _has_sym(x) else x for x in a], **{n: concretise(x) if _has_sym(x) else x for n, x in k.items()})
    return f(*a, **k)


def _pinned(f):
    return lambda *a, **k: f(*[concretise(x) if _has_sym(x) else x for x in a], **k)


RUNTIME = {'rtx__float': _pinned(float), 'rtx__bytes': _pinned(bytes), 'rtx__bytearray': _pinned(bytearray),
           'rtx__repr': _pinned(repr), 'rtx__ascii': _pinned(ascii), 'rtx__hash': _pinned(hash),
           'rtx__unbound': rt_unbound, 'rtx__ext': rt_ext, 'rtx__fstr': rt_fstr, 'rtx__mcall': rt_mcall, 'rtx__in': rt_in, 'rtx__is': rt_is, 'rtx__mod': rt_mod,
           'rtx__ord': rt_ord, 'rtx__int': rt_int, 'rtx__str': rt_strcall}


# modules whose functions work on symbolic texts as they are
TRANSPARENT = {'re', 'html', 'math', 'enum', 'typing', 'dataclasses', 'itertools', 'functools', 'operator', 'copy', 'collections',
               'abc', 'sys', 'contextlib', 'types', '__future__', 'enolib', 'warnings', 'engine', 'weakref', 'bisect', 'heapq'}


class Rewrite(ast.NodeTransformer):
    def visit_Module(self, node):
        self.foreign = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Import):
                self.foreign.update((a.asname or a.name).split('.')[0] for a in n.names if a.name.split('.')[0] not in TRANSPARENT)
            elif isinstance(n, ast.ImportFrom) and n.level == 0 and (n.module or '').split('.')[0] not in TRANSPARENT:
                self.foreign.update(a.asname or a.name for a in n.names)
        return self.generic_visit(node)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == 'str' and node.attr in STR_METHODS and node.attr != 'maketrans':
            return ast.copy_location(ast.Call(ast.Name('rtx__unbound', ast.Load()), [ast.Constant(node.attr)], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name('rtx__fstr', ast.Load()), parts, []), node)

    def visit_FormattedValue(self, node):
        return self.generic_visit(node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id in self.foreign:
            return ast.copy_location(ast.Call(ast.Name('rtx__ext', ast.Load()), [f] + node.args, node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (
                isinstance(f.value, ast.Name) and f.value.id in ('re', 'super')):
            return ast.copy_location(ast.Call(
                ast.Name('rtx__mcall', ast.Load()),
                [f.value, ast.Constant(f.attr)] + node.args, node.keywords), node)
        if isinstance(f, ast.Name) and f.id in ('ord', 'int', 'str', 'float', 'bytes', 'bytearray', 'repr', 'ascii', 'hash'):
            return ast.copy_location(ast.Call(ast.Name('rtx__' + f.id, ast.Load()),
                                              node.args, node.keywords), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(ast.Name('rtx__in', ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        other = node.comparators[0]
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and not (
                isinstance(other, ast.Constant) and not isinstance(other.value, str) or isinstance(other, ast.Attribute)
                and isinstance(other.value, ast.Name) and other.value.id[:1].isupper()):
            call = ast.Call(ast.Name('rtx__is', ast.Load()), [node.left, other], [])
            if isinstance(node.ops[0], ast.IsNot):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('rtx__mod', ast.Load()),
                                              [node.left, node.right], []), node)
        return node

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == 're':
                out.append(ast.copy_location(ast.ImportFrom(
                    'engine', [ast.alias('symre', a.asname or 're')], 0), node))
            else:
                out.append(ast.copy_location(ast.Import([a]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == 're' and node.level == 0:
            node.module = 'engine.symre'
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    symbolic = True

    def get_code(self, fullname):
        src = self.get_data(self.path)
        tree = ast.parse(src, self.path)
        if self.symbolic:
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
        return compile(tree, self.path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        super().exec_module(module)


class _PlainLoader(_Loader):
    symbolic = False

    def exec_module(self, module):
        importlib.machinery.SourceFileLoader.exec_module(self, module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, loader):
        self.root, self.loader = root, loader

    def find_spec(self, name, path=None, target=None):
        if name != self.root and not name.startswith(self.root + '.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(PKG_DIR, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if not os.path.exists(f):
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            return importlib.util.spec_from_file_location(
                name, f, loader=self.loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f))
        return None


class Lib:
    """one loaded copy of the package"""

    def __init__(self, symbolic):
        self.symbolic = symbolic
        # both copies are called enolib while they load, so that absolute imports also resolve
        self.modules = {}
        saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'enolib' or k.startswith('enolib.')}
        finder = _Finder('enolib', _Loader if symbolic else _PlainLoader)
        sys.meta_path.insert(0, finder)
        try:
            self.enolib = importlib.import_module('enolib')
            names = []
            for dp, dn, fn in os.walk(PKG_DIR):
                for f in fn:
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(dp, f), PKG_DIR)[:-3].replace(os.sep, '.')
                        if rel.endswith('__init__'):
                            rel = rel[:-9].rstrip('.')
                        if rel:
                            names.append('enolib.' + rel)
            for n in sorted(names):
                importlib.import_module(n)
            self.modules = {k: v for k, v in sys.modules.items() if k == 'enolib' or k.startswith('enolib.')}
        finally:
            sys.meta_path.remove(finder)
            for k in list(sys.modules):
                if k == 'enolib' or k.startswith('enolib.'):
                    del sys.modules[k]
            sys.modules.update(saved)
        self.keeper = Keeper(self.modules.values())

    def activate(self):
        """make this copy the one that imports executed inside functions find"""
        if sys.modules.get('enolib') is not self.enolib:
            sys.modules.update(self.modules)
        self.keeper.restore()

    def mod(self, name):
        return self.modules['enolib.' + name] if name else self.enolib

    def __getattr__(self, n):
        return getattr(self.enolib, n)


_libs = {}


def load(symbolic):
    if symbolic not in _libs:
        _libs[symbolic] = Lib(symbolic)
    return _libs[symbolic]
