"""replay.py FILE: runs one recorded counterexample on the unmodified package, imported normally
from /repo's working tree.  Exit 1 if the property fails on it, 0 if it holds."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    rec = json.load(open(sys.argv[1]))
    from engine import plain, runner
    lib = plain.PlainLib()
    mod = importlib.import_module('harness.' + rec['property'].lower())
    fn = mod.HARNESSES[rec['harness']]['fn']
    status, msg, known, notes, _ = runner.conc_run(lib, fn, rec['inputs'], rec['params'])
    print('property %s, harness %s %s' % (rec['property'], rec['harness'], json.dumps(rec['params'])))
    for k, v in rec['inputs'].items():
        print('  %s = %r' % (k, v))
    print('  %s%s' % (status, ': ' + str(msg) if msg else ''))
    print('  observed %r' % (notes,))
    return 1 if status == 'failed' else 0


if __name__ == '__main__':
    sys.exit(main())
