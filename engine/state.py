"""State the package under test keeps outside of documents (module globals, class attributes, default
arguments, closures, caches): put back to what it was after import before every path, so that a path
depends on its own inputs only, and what one call leaves behind for the next is seen where a harness
calls twice."""
import enum
import types
from collections import deque


class Keeper:
    def __init__(self, modules):
        self.seen = {}
        self.modules, self.classes, self.boxes, self.functions, self.cells, self.objects, self.caches = [], [], [], [], [], [], []
        for m in modules:
            names = {k: v for k, v in vars(m).items() if not (k.startswith('__') and k.endswith('__'))}
            self.modules.append((vars(m), names))
        for _, names in list(self.modules):
            for v in names.values():
                self.visit(v)
        self.settled()

    def visit(self, v):
        if isinstance(v, (str, bytes, int, float, complex, type(None), enum.Enum, types.ModuleType)) or id(v) in self.seen:
            return
        self.seen[id(v)] = v
        t = type(v)
        if isinstance(v, (dict, list, set, deque, bytearray)):
            self.boxes.append((v, dict(v) if isinstance(v, dict) else list(v)))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self.visit(x)
        elif isinstance(v, (tuple, frozenset)):
            for x in v:
                self.visit(x)
        elif isinstance(v, type):
            if v.__module__.split('.')[0] != 'enolib' or issubclass(v, enum.Enum):
                return
            own = {k: x for k, x in vars(v).items() if k not in ('__dict__', '__weakref__', '__doc__', '__module__')}
            self.classes.append((v, own))
            for x in own.values():
                self.visit(x)
        elif isinstance(v, types.FunctionType):
            if v.__module__.split('.')[0] != 'enolib':
                return
            self.functions.append((v, dict(v.__dict__)))
            for x in v.__defaults__ or ():
                self.visit(x)
            for x in (v.__kwdefaults__ or {}).values():
                self.visit(x)
            for x in v.__dict__.values():
                self.visit(x)
            for c in v.__closure__ or ():
                try:
                    self.cells.append((c, c.cell_contents))
                except ValueError:
                    continue
                self.visit(c.cell_contents)
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__)
        elif isinstance(v, property):
            for x in (v.fget, v.fset, v.fdel):
                self.visit(x)
        elif hasattr(v, 'cache_clear') and hasattr(v, '__wrapped__'):
            self.caches.append(v)
            self.visit(v.__wrapped__)
        elif t.__module__.split('.')[0] == 'enolib' and hasattr(v, '__dict__'):
            self.objects.append((v, dict(v.__dict__)))
            for x in v.__dict__.values():
                self.visit(x)

    def settled(self):
        """remember what the namespaces contain when nothing has changed"""
        self.now = [tuple(map(id, d.values())) for d, _ in self.modules] + [tuple(map(id, vars(c).values())) for c, _ in self.classes]

    def restore(self):
        now_ = iter(self.now)
        for d, names in self.modules:
            if tuple(map(id, d.values())) == next(now_):
                continue
            if len(d) != len(names) or any(d.get(k) is not v for k, v in names.items()):
                for k in list(d):
                    if k not in names and not (k.startswith('__') and k.endswith('__')) and not isinstance(d[k], types.ModuleType):
                        del d[k]
                d.update(names)
        for c, own in self.classes:
            if tuple(map(id, vars(c).values())) == next(now_):
                continue
            now = vars(c)
            if any(now.get(k) is not v for k, v in own.items()) or any(k not in own for k in now):
                for k in list(now):
                    if k not in own and k not in ('__dict__', '__weakref__', '__doc__', '__module__'):
                        delattr(c, k)
                for k, v in own.items():
                    if now.get(k) is not v:
                        setattr(c, k, v)
        for b, was in self.boxes:
            if isinstance(b, dict):
                if len(b) != len(was) or any(x is not y for x, y in zip(b.values(), was.values())):
                    b.clear()
                    b.update(was)
            elif isinstance(b, set):
                if len(b) != len(was):
                    b.clear()
                    b.update(was)
            elif len(b) != len(was) or any(x is not y for x, y in zip(b, was)):
                b.clear()
                b.extend(was)
        for f, was in self.functions:
            if f.__dict__ != was:
                f.__dict__.clear()
                f.__dict__.update(was)
        for c, was in self.cells:
            if c.cell_contents is not was:
                c.cell_contents = was
        for o, was in self.objects:
            if len(o.__dict__) != len(was) or any(o.__dict__.get(k) is not v for k, v in was.items()):
                o.__dict__.clear()
                o.__dict__.update(was)
        for c in self.caches:
            c.cache_clear()
