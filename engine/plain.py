"""The unmodified package, imported normally from the repository's working tree."""
import importlib
import os
import sys

REPO = os.environ.get('ENOLIB_REPO', '/repo')


class PlainLib:
    def __init__(self):
        sys.dont_write_bytecode = True
        sys.path.insert(0, os.path.join(REPO, 'python'))
        self.enolib = importlib.import_module('enolib')
        self.keeper = None

    def mod(self, name):
        return importlib.import_module('enolib.' + name if name else 'enolib')

    def activate(self):
        """put back what the modules contained at the first call"""
        if self.keeper is None:
            from .state import Keeper
            for dp, _, fn in os.walk(os.path.join(REPO, 'python', 'enolib')):
                for f in fn:
                    if f.endswith('.py'):
                        rel = os.path.relpath(os.path.join(dp, f), os.path.join(REPO, 'python'))[:-3].replace(os.sep, '.')
                        importlib.import_module(rel[:-9] if rel.endswith('.__init__') else rel)
            self.keeper = Keeper([m for k, m in sys.modules.items() if k == 'enolib' or k.startswith('enolib.')])
        self.keeper.restore()

    def __getattr__(self, n):
        return getattr(self.enolib, n)
