"""Access to the code under test."""
import ast
import importlib
import os
import sys
import types

SRC = os.path.join(os.environ.get("EXPDB_REPO", "/repo"), "blueprint", "src", "python")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
os.environ.setdefault("MPLBACKEND", "Agg")


def mod(name):
    return importlib.import_module(name)


def derived():
    """The module `derived` with its trailing module-level calls (which run a long proof) left out."""
    if "derived" in sys.modules:
        return sys.modules["derived"]
    path = os.path.join(SRC, "derived.py")
    with open(path) as f:
        tree = ast.parse(f.read(), path)
    tree.body = [n for n in tree.body
                 if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call))]
    m = types.ModuleType("derived")
    m.__file__ = path
    sys.modules["derived"] = m
    exec(compile(tree, path, "exec"), m.__dict__)
    return m
