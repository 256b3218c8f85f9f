"""
Unbounded 1-D / 2-D numpy arrays as (size, element-function) pairs.

Trusted model of the numpy operations named here: basic indexing with
Python's negative-index and slice clamping rules, any/all, nonzero, where,
diff, len, astype, ~, reductions of index arrays.  Elements of a *states
matrix* are booleans.
"""
import numpy as np
import z3

from .core import Unsupported, cur
from .vals import (Sym, SInt, SBool, mkbool, mkint, tint, tbool, isintlike, is_sym)


def trust(what):
    cur().eng.stats.trust("numpy model: " + what)


def qexists(lo, hi, body, hint="q"):
    """lo <= i < hi and body(i), as a term"""
    i = z3.Int(cur().fresh(hint))
    lo, hi = tint(lo), tint(hi)
    return z3.Exists([i], z3.And(lo <= i, i < hi, body(i)))


def qforall(lo, hi, body, hint="q"):
    i = z3.Int(cur().fresh(hint))
    lo, hi = tint(lo), tint(hi)
    return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), body(i)))


def norm_index(i, n):
    """numpy/list scalar index -> term in range, or IndexError"""
    it, nt = tint(i), tint(n)
    ctx = cur()
    if ctx.branch(it < 0):
        it = it + nt
        if ctx.branch(it < 0):
            raise IndexError("index out of bounds")
        return z3.simplify(it)
    if ctx.branch(it >= nt):
        raise IndexError("index out of bounds")
    return z3.simplify(it)


def _slice_end(x, n, default):
    if x is None:
        return default
    x = tint(x)
    return z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))


def norm_slice(s, n):
    """-> (offset term, step +1/-1, length term)"""
    nt = tint(n)
    step = s.step
    if step is None:
        step = 1
    step = int(step)
    if step == -1:
        if s.start is not None or s.stop is not None:
            raise Unsupported("bounded reverse slice")
        return nt - 1, -1, nt
    if step != 1:
        raise Unsupported("slice step")
    lo = z3.simplify(_slice_end(s.start, nt, z3.IntVal(0)))
    hi = z3.simplify(_slice_end(s.stop, nt, nt))
    return lo, 1, z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))


class SArr(Sym):
    def __array__(self, *a, **k):
        raise Unsupported("numpy wants the buffer of a symbolic array")

    def __array_function__(self, func, types, args, kwargs):
        f = _NPFUNCS.get(func)
        if f is None:
            raise Unsupported("numpy function %s" % getattr(func, "__name__", func))
        return f(*args, **kwargs)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and ufunc in _UFUNCS and not kw:
            return _UFUNCS[ufunc](*inputs)
        raise Unsupported("numpy ufunc %s" % ufunc)

    def __bool__(self):
        raise Unsupported("truth of a symbolic array")


class SVec(SArr):
    """kind 'b' (booleans), 'i' (ints); element i is base(off + step*i), so
    that quantifiers range over the coordinates of the underlying array"""

    def __init__(self, n, base, kind="b", off=None, step=1, truth=None, shifts=(0,)):
        self.n, self.base, self.kind = n, base, kind
        self.truth_, self.shifts = truth, shifts
        self.off = z3.IntVal(0) if off is None else off
        self.step = step

    def at(self, i):
        return self.base(z3.simplify(self.off + self.step * i))

    def view(self, f, kind):
        base = self.base
        return SVec(self.n, lambda a: f(base(a)), kind, self.off, self.step)

    def arange(self):
        """absolute coordinates [lo, hi)"""
        n = tint(self.n)
        if self.step == 1:
            return z3.simplify(self.off), z3.simplify(self.off + n)
        return z3.simplify(self.off - n + 1), z3.simplify(self.off + 1)

    def __len__(self):
        return self.slen().__index__() if is_sym(self.slen()) else self.slen()

    def slen(self):
        return mkint(tint(self.n))

    @property
    def size(self):
        return self.slen()

    @property
    def shape(self):
        return (self.slen(),)

    def _true(self, a):
        if self.truth_ is not None:
            return self.truth_(a)
        return self.base(a) if self.kind == "b" else self.base(a) != 0

    def assume_none(self, lo, hi):
        """no true element at absolute coordinates [lo, hi); stated once per
        shift so that each array term can act as an instantiation pattern"""
        ctx = cur()
        for sh in self.shifts:
            ctx.assume(qforall(SInt(z3.simplify(tint(lo) + sh)), SInt(z3.simplify(tint(hi) + sh)),
                               lambda a: z3.Not(self._true(z3.simplify(a - sh)))))

    def elem(self, i):
        t = self.at(i)
        return mkbool(t) if self.kind == "b" else mkint(t)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            off, step, ln = norm_slice(k, self.n)
            return SVec(ln, self.base, self.kind, z3.simplify(self.off + self.step * off),
                        self.step * step, self.truth_, self.shifts)
        if isintlike(k):
            return self.elem(norm_index(k, self.n))
        raise Unsupported("vector index %r" % type(k))

    def any(self, axis=None):
        trust("any/all are exists/forall over the elements")
        lo, hi = self.arange()
        return mkbool(qexists(lo, hi, self._true))

    def all(self, axis=None):
        trust("any/all are exists/forall over the elements")
        lo, hi = self.arange()
        return mkbool(qforall(lo, hi, self._true))

    def nonzero(self):
        trust("nonzero()[0] is the increasing list of indices of true elements")
        return (SIndices(self),)

    def astype(self, ty, *a, **k):
        if ty in (int, np.int64, np.int32, np.int8, np.int16) and self.kind == "b":
            v = self.view(lambda t: z3.If(t, z3.IntVal(1), z3.IntVal(0)), "i")
            v.truth_ = self._true
            return v
        if ty is bool:
            return self.view(lambda t: t if self.kind == "b" else t != 0, "b")
        if ty is int:
            return self
        raise Unsupported("astype(%s)" % ty)

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("~ of ints")
        return self.view(z3.Not, "b")

    def argmax(self, axis=None):
        trust("argmax of booleans is the first true index, else 0")
        if self.kind != "b":
            raise Unsupported("argmax of ints")
        if cur().branch(tint(self.n) == 0):
            raise ValueError("attempt to get argmax of an empty sequence")
        if cur().branch(tbool(self.any())):
            return SIndices(self).min()
        return 0

    def argmin(self, axis=None):
        return (~self).argmax()

    def __iter__(self):
        from . import loops
        return iter(loops.SymSeq(self.n, lambda i: self.elem(i)).force())

    def symiter(self):
        from . import loops
        return loops.SymSeq(self.n, lambda i: self.elem(i))

    def sum(self, axis=None):
        raise Unsupported("sum of a symbolic vector")

    def tolist(self):
        return self.symiter()


class SIndices(SArr):
    """The increasing sequence of the i in [0, n) with element i true."""

    def __init__(self, vec):
        self.vec = vec

    def _nonempty(self):
        lo, hi = self.vec.arange()
        return qexists(lo, hi, self.vec._true)

    @property
    def size(self):
        return SCount(self)

    def __len__(self):
        raise Unsupported("count of true elements")

    def slen(self):
        return SCount(self)

    def _end(self, which, smallest):
        if not cur().branch(self._nonempty()):
            raise ValueError("zero-size array to reduction operation %s" % which)
        ctx = cur()
        v = self.vec
        lo, hi = v.arange()
        w = ctx.int(which)
        ctx.assume(z3.And(lo <= w, w < hi, v._true(w)))
        if smallest == (v.step == 1):
            v.assume_none(lo, w)
        else:
            v.assume_none(w + 1, hi)
        return mkint(v.step * (w - v.off))

    def min(self, axis=None):
        return self._end("min", True)

    def max(self, axis=None):
        return self._end("max", False)

    def __getitem__(self, k):
        if isinstance(k, int) and not is_sym(k) and k in (0, -1):
            if not cur().branch(self._nonempty()):
                raise IndexError("index out of bounds")
            return self.min() if k == 0 else self.max()
        raise Unsupported("index array item")

    def any(self):
        lo, hi = self.vec.arange()
        v = self.vec
        return mkbool(qexists(lo, hi, lambda a: z3.And(v._true(a), a != v.off)))


def w_(t):
    return SInt(t)


class SCount(Sym):
    """number of true elements: only its truth / comparison with 0 is modelled"""

    def __init__(self, idx):
        self.idx = idx

    def __bool__(self):
        return cur().branch(self.idx._nonempty())

    def __eq__(self, o):
        if isinstance(o, int) and not is_sym(o) and o == 0:
            return mkbool(z3.Not(self.idx._nonempty()))
        raise Unsupported("count of true elements")

    def __gt__(self, o):
        if isinstance(o, int) and not is_sym(o) and o == 0:
            return mkbool(self.idx._nonempty())
        raise Unsupported("count of true elements")

    __hash__ = Sym.__hash__


class SMat(SArr):
    """nr x nc booleans; element (i, j) is base(o1 + s1*i, o2 + s2*j)"""

    def __init__(self, nr, nc, base, o1=None, s1=1, o2=None, s2=1):
        self.nr, self.nc, self.base = nr, nc, base
        self.o1 = z3.IntVal(0) if o1 is None else o1
        self.o2 = z3.IntVal(0) if o2 is None else o2
        self.s1, self.s2 = s1, s2

    def at(self, i, j):
        return self.base(z3.simplify(self.o1 + self.s1 * i), z3.simplify(self.o2 + self.s2 * j))

    def rowvec(self, i):
        a = z3.simplify(self.o1 + self.s1 * i)
        base = self.base
        return SVec(self.nc, lambda y: base(a, y), "b", self.o2, self.s2)

    def colvec(self, j):
        a = z3.simplify(self.o2 + self.s2 * j)
        base = self.base
        return SVec(self.nr, lambda x: base(x, a), "b", self.o1, self.s1)

    def rows(self):
        return SVec(self.nr, None, "b", self.o1, self.s1).arange()

    def cols(self):
        return SVec(self.nc, None, "b", self.o2, self.s2).arange()

    kind = "b"
    ndim = 2

    @property
    def shape(self):
        return (mkint(tint(self.nr)), mkint(tint(self.nc)))

    @property
    def size(self):
        return mkint(tint(self.nr) * tint(self.nc))

    def slen(self):
        return self.shape[0]

    def __len__(self):
        n = self.slen()
        return n.__index__() if is_sym(n) else n

    def elem(self, r, c):
        return mkbool(self.at(tint(r), tint(c)))

    def __getitem__(self, k):
        trust("2-D basic indexing: negative wrap, slice clamping, IndexError out of range")
        if isinstance(k, np.ndarray):
            if k.ndim == 1 and len(k) == 0:
                raise Unsupported("empty fancy index")
            raise Unsupported("fancy indexing")
        if not isinstance(k, tuple):
            k = (k, slice(None))
        if len(k) != 2:
            if len(k) > 2:
                raise IndexError("too many indices")
            k = tuple(k) + (slice(None),) * (2 - len(k))
        a, b = k
        at = self.at
        if isintlike(a) and isintlike(b):
            i = norm_index(a, self.nr)
            j = norm_index(b, self.nc)
            return self.elem(SInt(i), SInt(j))
        if isintlike(a) and isinstance(b, slice):
            return self.rowvec(norm_index(a, self.nr))[b]
        if isinstance(a, slice) and isintlike(b):
            return self.colvec(norm_index(b, self.nc))[a]
        if isinstance(a, slice) and isinstance(b, slice):
            o1, s1, l1 = norm_slice(a, self.nr)
            o2, s2, l2 = norm_slice(b, self.nc)
            return SMat(l1, l2, self.base, z3.simplify(self.o1 + self.s1 * o1), self.s1 * s1,
                        z3.simplify(self.o2 + self.s2 * o2), self.s2 * s2)
        raise Unsupported("matrix index")

    def any(self, axis=None):
        trust("any/all are exists/forall over the elements")
        (l1, h1), (l2, h2) = self.rows(), self.cols()
        base = self.base
        if axis is None:
            i, j = z3.Int(cur().fresh("qi")), z3.Int(cur().fresh("qj"))
            return mkbool(z3.Exists([i, j], z3.And(
                l1 <= i, i < h1, l2 <= j, j < h2, base(i, j))))
        if axis in (1, -1):
            return SVec(self.nr, lambda i: qexists(l2, h2, lambda j: base(i, j)), "b",
                        self.o1, self.s1)
        if axis == 0:
            return SVec(self.nc, lambda j: qexists(l1, h1, lambda i: base(i, j)), "b",
                        self.o2, self.s2)
        raise Unsupported("axis")

    def all(self, axis=None):
        r = (~self).any(axis)
        return (not r) if isinstance(r, bool) else ~r

    @property
    def T(self):
        base = self.base
        return SMat(self.nc, self.nr, lambda i, j: base(j, i), self.o2, self.s2, self.o1, self.s1)

    def nonzero(self):
        return _where(self)

    def __invert__(self):
        base = self.base
        return SMat(self.nr, self.nc, lambda i, j: z3.Not(base(i, j)),
                    self.o1, self.s1, self.o2, self.s2)

    def _bin(op):
        def f(self, o):
            if not isinstance(o, SMat):
                raise Unsupported("matrix op")
            a, b = self.at, o.at
            return SMat(self.nr, self.nc, lambda i, j: op(a(i, j), b(i, j)))
        return f

    __and__ = _bin(lambda a, b: z3.And(a, b))
    __or__ = _bin(lambda a, b: z3.Or(a, b))

    def astype(self, ty, *a, **k):
        if ty is bool:
            return self
        raise Unsupported("matrix astype")

    def __iter__(self):
        raise Unsupported("iteration over matrix rows")


class SWhereAxis(SArr):
    def __init__(self, mat, axis):
        self.mat, self.axis = mat, axis

    def _idx(self):
        return SIndices(self.mat.any(1 if self.axis == 0 else 0))

    def min(self, axis=None):
        return self._idx().min()

    def max(self, axis=None):
        return self._idx().max()

    @property
    def size(self):
        return SCount(self._idx())

    def slen(self):
        return SCount(self._idx())


class SWhere(SArr):
    """2 x N (rows=axes) or N x 2 (transposed) array of full coordinates"""

    def __init__(self, mat, transposed=False):
        self.mat, self.transposed = mat, transposed

    @property
    def T(self):
        return SWhere(self.mat, not self.transposed)

    def _red(self, op, axis):
        if (axis == 0) != self.transposed:
            raise Unsupported("reduction axis")
        out = np.empty(2, dtype=object)
        for ax in (0, 1):
            out[ax] = getattr(SWhereAxis(self.mat, ax), op)()
        return out.view(OArr)

    def min(self, axis=None):
        return self._red("min", axis % 2 if axis is not None else None)

    def max(self, axis=None):
        return self._red("max", axis % 2 if axis is not None else None)

    def fits(self, dtype):
        if dtype is None or np.dtype(dtype).kind not in "iu":
            if dtype is not None:
                raise Unsupported("index dtype %s" % dtype)
            return
        ii = np.iinfo(dtype)
        ctx = cur()
        trust("matrix dimensions are at most 2**31-1 where a 32-bit index dtype is used")
        big = z3.Or(tint(self.mat.nr) - 1 > ii.max, tint(self.mat.nc) - 1 > ii.max)
        if ii.bits >= 32:
            ctx.assume(z3.Not(big))
        else:
            ctx.prove("index fits %s" % np.dtype(dtype).name, z3.Not(big))


def _where(m, *rest):
    if rest or not isinstance(m, SMat):
        if isinstance(m, SVec) and not rest:
            return m.nonzero()
        raise Unsupported("np.where form")
    trust("where/nonzero enumerate exactly the coordinates of true elements")
    return (SWhereAxis(m, 0), SWhereAxis(m, 1))


class OArr(np.ndarray):
    """small object array of symbolic ints; comparisons stay symbolic"""

    def _cmp(name):
        import operator
        op = getattr(operator, name)

        def f(self, o):
            a = np.broadcast_arrays(np.asarray(self), np.asarray(o, dtype=object))
            out = np.empty(a[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = op(a[0][i], a[1][i])
            return out.view(OArr)
        return f

    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = map(_cmp, ["eq", "ne", "lt", "le", "gt", "ge"])
    __hash__ = None

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("all(axis)")
        return mkbool(z3.And(*[tbool(x) for x in np.asarray(self).ravel()]))

    def any(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("any(axis)")
        return mkbool(z3.Or(*[tbool(x) for x in np.asarray(self).ravel()]))

    def sort(self, axis=-1, *a, **k):
        if self.ndim == 2 and axis == 0 and self.shape[0] == 2 or self.ndim == 1 and len(self) == 2:
            lo, hi = np.asarray(self[0]), np.asarray(self[1])
            v = np.asarray(self)
            for i in (np.ndindex(v.shape[1:]) if self.ndim == 2 else [()]):
                x, y = (v[(0,) + i], v[(1,) + i])
                x, y = tint(x), tint(y)
                v[(0,) + i] = mkint(z3.If(x <= y, x, y))
                v[(1,) + i] = mkint(z3.If(x <= y, y, x))
            return
        np.asarray(self).sort(axis)

    def min(self, axis=None, **k):
        return _omin(self, axis, lambda a, b: a < b)

    def max(self, axis=None, **k):
        return _omin(self, axis, lambda a, b: a > b)

    def __array_function__(self, func, types, args, kwargs):
        if func in (np.all, np.any, np.min, np.max):
            return getattr(args[0].view(OArr), func.__name__.replace("a", "a"))(*args[1:], **kwargs)
        if func is np.array_equal:
            x, y = [np.asarray(v, dtype=object).view(OArr) for v in args[:2]]
            return False if x.shape != y.shape else (x == y).all()
        return super().__array_function__(func, types, args, kwargs)


def _omin(arr, axis, lt):
    v = np.asarray(arr)
    if axis is not None and v.ndim == 2:
        w = v if axis == 0 else v.T
        out = np.empty(w.shape[1], dtype=object)
        for j in range(w.shape[1]):
            out[j] = _omin(w[:, j], None, lt)
        return out.view(OArr)
    r = tint(v.ravel()[0])
    for x in v.ravel()[1:]:
        r = z3.If(lt(tint(x), r), tint(x), r)
    return mkint(r)


def np_array(x, dtype=None, copy=None, **kw):
    """np.array / np.asarray on arguments that hold symbolic parts"""
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(v, SWhereAxis) for v in x) \
            and x[0].mat is x[1].mat and (x[0].axis, x[1].axis) == (0, 1):
        w = SWhere(x[0].mat)
        w.fits(dtype)
        return w
    if isinstance(x, SWhere):
        x.fits(dtype)
        return x
    if isinstance(x, (SVec, SMat, SIndices, SWhereAxis)):
        if dtype in (None, bool) and getattr(x, "kind", "b") == "b":
            return x
        if isinstance(x, SVec):
            return x.astype(dtype)
        if dtype is None:
            return x
        raise Unsupported("array conversion")
    if dtype not in (None, int, object, np.int64, np.int32):
        raise Unsupported("dtype %s of symbolic entries" % dtype)
    if isinstance(x, OArr) and copy is False:
        return x
    return np.array(x, dtype=object).view(OArr)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, OArr):
        return x
    return np_array(x, dtype, **kw)


def _diff(v, n=1, axis=-1):
    trust("diff(v)[i] == v[i+1] - v[i]")
    if not isinstance(v, SVec) or n != 1:
        raise Unsupported("np.diff form")
    n = mkint(z3.If(tint(v.n) > 0, tint(v.n) - 1, z3.IntVal(0)))
    base, st = v.base, v.step
    if v.kind == "b":
        return SVec(n, lambda a: base(a + st) != base(a), "b", v.off, st, None, (0, st))
    truth = None
    if v.truth_ is not None:
        t = v.truth_
        # 0/1 valued: the difference is nonzero iff the truth values differ
        truth = lambda a: t(z3.simplify(a + st)) != t(a)
    return SVec(n, lambda a: base(a + st) - base(a), "i", v.off, st, truth, (0, st))


_NPFUNCS = {
    np.where: _where,
    np.nonzero: lambda m: m.nonzero(),
    np.flatnonzero: lambda m: m.nonzero()[0],
    np.diff: _diff,
    np.any: lambda a, axis=None, **k: a.any(axis),
    np.all: lambda a, axis=None, **k: a.all(axis),
    np.argmax: lambda a, axis=None, **k: a.argmax(axis),
    np.argmin: lambda a, axis=None, **k: a.argmin(axis),
    np.argwhere: lambda m: SWhere(m, True),
    np.transpose: lambda a: a.T,
    np.flip: lambda a, axis=None: a[::-1],
    np.shape: lambda a: a.shape,
    np.size: lambda a: a.size,
    np.asarray: np_asarray,
}
_UFUNCS = {
    np.logical_not: lambda a: ~a,
    np.invert: lambda a: ~a,
    np.logical_and: lambda a, b: a & b,
    np.logical_or: lambda a, b: a | b,
}
