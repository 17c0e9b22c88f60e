"""Entry of the Python harnesses: import the package built from the repository and explore.

usage: <harness>.py PACKAGE_ROOT [explorer arguments]
"""
import os
import sys

sys.dont_write_bytecode = True
import mc  # noqa: E402

SITE = "/opt/dune/venv/lib/python3.12/site-packages"
sys.path.append(SITE)


def start(main, extension=None):
    root = sys.argv[1]
    ex = mc.Explorer(sys.argv[2:])
    sys.path[:0] = [root]
    try:
        import dune.geometry as geo
        import dune.geometry._referenceelements
        assert os.path.realpath(geo._geometry.__file__).startswith(os.path.realpath(root)), "not the module under test"
        args = [geo]
        if extension:
            import importlib
            args.append(importlib.import_module(extension))
        main(ex, *args)
    except AssertionError:
        raise
    except Exception as e:
        def again(e=e):
            raise e
        ex.counter, ex.shards, ex.only = 0, 1, set()
        ex.run("setting up", again)
    ex.finish()


def forget(module, name):
    """Empty a table of the package, if it is there, so that a history starts afresh."""
    table = getattr(module, name, None)
    if isinstance(table, dict):
        table.clear()
