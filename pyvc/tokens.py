"""Constants that occur in the current source of the code under test, for use
in the generators of concrete inputs (never in proofs)."""
import ast
import importlib
import inspect


def of_modules(*names):
    """-> (strings, ints) written in these modules, without docstrings"""
    strs, ints = [], []
    for n in names:
        try:
            tree = ast.parse(inspect.getsource(importlib.import_module(n)))
        except Exception:
            continue
        docs = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                docs.add(id(x.value))
        for x in ast.walk(tree):
            if isinstance(x, ast.Constant) and id(x) not in docs:
                v = x.value
                if type(v) is str and len(v) <= 40 and v not in strs:
                    strs.append(v)
                elif type(v) is int and v not in ints:
                    ints.append(v)
    return strs, ints


BLANKS = [" ", "\t", "\n", "\u00a0"]


def texts(*names, extra=()):
    """short texts likely to reach special cases"""
    s, _ = of_modules(*names)
    out = list(extra) + [x for x in s if len(x) <= 12] + BLANKS + ["0", "1", "-", "é", "A", "a a"]
    seen, r = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            r.append(x)
    return r


def numbers(*names, extra=()):
    _, i = of_modules(*names)
    r = set(extra)
    for v in i:
        if abs(v) < 10 ** 6:
            r |= {v - 1, v, v + 1}
    return sorted(r)
