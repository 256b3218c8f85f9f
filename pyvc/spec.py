"""
Specification vocabulary, with one meaning on symbolic and concrete values.
"""
import numpy as np
import z3

from .core import Unsupported, cur, in_ctx
from .vals import *
from . import nparr


def _sym(*xs):
    return any(is_sym(x) for x in xs)


def exists(lo, hi, p):
    """some i in [lo, hi) with p(i)"""
    if in_ctx() and _is_symbolic_range(lo, hi):
        return mkbool(nparr.qexists(lo, hi, lambda i: tbool(_nb(p, SInt(i)))))
    r = False
    for i in range(_n(lo), _n(hi)):
        r = r | p(i)
        if r is True:
            return True
    return r


def forall(lo, hi, p):
    if in_ctx() and _is_symbolic_range(lo, hi):
        return mkbool(nparr.qforall(lo, hi, lambda i: tbool(_nb(p, SInt(i)))))
    r = True
    for i in range(_n(lo), _n(hi)):
        r = r & p(i)
        if r is False:
            return False
    return r


def first(lo, hi, p):
    """smallest i in [lo, hi) with p(i); the caller has made sure one exists"""
    if in_ctx() and _is_symbolic_range(lo, hi):
        c = cur()
        w = c.int("first")
        c.assume(z3.And(tint(lo) <= w, w < tint(hi), tbool(_nb(p, SInt(w)))))
        c.assume(nparr.qforall(lo, SInt(w), lambda i: z3.Not(tbool(_nb(p, SInt(i))))))
        return SInt(w)
    for i in range(_n(lo), _n(hi)):
        if p(i):
            return i
    raise AssertionError("first: none")


def last(lo, hi, p):
    if in_ctx() and _is_symbolic_range(lo, hi):
        c = cur()
        w = c.int("last")
        c.assume(z3.And(tint(lo) <= w, w < tint(hi), tbool(_nb(p, SInt(w)))))
        c.assume(nparr.qforall(SInt(w + 1), hi, lambda i: z3.Not(tbool(_nb(p, SInt(i))))))
        return SInt(w)
    for i in range(_n(hi) - 1, _n(lo) - 1, -1):
        if p(i):
            return i
    raise AssertionError("last: none")


def _n(x):
    return int(x)


def _is_symbolic_range(lo, hi):
    return is_sym(lo) or is_sym(hi)


def _nb(p, i):
    c = cur()
    c.nobranch += 1
    try:
        return p(i)
    finally:
        c.nobranch -= 1


def implies(a, b):
    if _sym(a, b):
        return mkbool(z3.Implies(tbool(a), tbool(b)))
    return (not a) or b


def both(*xs):
    if _sym(*xs):
        return mkbool(z3.And(*[tbool(x) for x in xs]))
    return all(bool(x) for x in xs)


def either(*xs):
    if _sym(*xs):
        return mkbool(z3.Or(*[tbool(x) for x in xs]))
    return any(bool(x) for x in xs)


def no(x):
    return mkbool(z3.Not(tbool(x))) if _sym(x) else (not x)


def ite(c, a, b):
    """integer conditional without a path split"""
    if is_sym(c):
        return mkint(z3.If(tbool(c), tint(a), tint(b)))
    return a if c else b


def imin(a, b):
    return ite(a <= b, a, b)


def imax(a, b):
    return ite(a >= b, a, b)


def shape(m):
    return m.shape


def full(m, r, c):
    """state of a cell; cells outside the sheet are empty (no negative wrap)"""
    nr, nc = m.shape
    if isinstance(m, nparr.SMat):
        r, c = tint(r), tint(c)
        return mkbool(z3.And(0 <= r, r < tint(nr), 0 <= c, c < tint(nc), m.at(r, c)))
    return bool(0 <= r < nr and 0 <= c < nc and m[int(r), int(c)])
