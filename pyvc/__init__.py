from . import live  # noqa: F401  (puts the z3 bindings and /repo/src on sys.path)
