"""A fresh interpreter that runs one piece of work against a build of the package: a pickled
(root, module, function, arguments) comes in on stdin, the pickled result goes to fd 3."""
import os
import pickle
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

if __name__ == '__main__':
    root, module, fn, args = pickle.load(sys.stdin.buffer)
    sys.path.insert(0, root)
    import importlib
    import traceon
    assert traceon.__file__.startswith(root)
    try:
        out = ('ok', getattr(importlib.import_module(module), fn)(*args))
    except Exception as e:
        out = ('exc', f'{type(e).__name__}: {e}')
    with os.fdopen(3, 'wb') as f:
        pickle.dump(out, f, protocol=4)
