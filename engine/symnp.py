"""Symbolic numpy: arrays of unbounded symbolic shape with numpy's view /
in-place semantics, masks, broadcasting and reductions."""
import os
import itertools
from fractions import Fraction
import numpy as _np
from .core import *
import z3
from . import core


# --------------------------------------------------------------- dims
class Prod:
    """product axis (flattened several axes); its indices are tuples"""
    def __init__(self, dims):
        self.dims = tuple(dims)

    def __eq__(self, o): return same_dim(self, o)
    def __ne__(self, o): return not same_dim(self, o)
    def __hash__(self): return 7
    def __repr__(self): return 'Prod%s' % (self.dims,)
    def __mul__(self, o): return Prod(factors(self) + factors(o))


class MaskDim:
    """axis of the selected cells of a boolean mask; its indices are the base
    indices, valid where the mask holds"""
    def __init__(self, snap, dims):
        self.snap, self.dims = snap, tuple(dims)
        if all(isinstance(d, int) for d in flat_dims(self.dims)):
            self.key = ('m',) + tuple(zb(snap(i)).sexpr() if not isinstance(snap(i), bool) else str(snap(i)) for i in enum_idx(self.dims))
        else:
            c = canon_idx(self.dims)
            self.key = ('m', tuple(map(str, self.dims)), zb(as_bool(snap(c))).sexpr())

    def cond(self, idx):
        return as_bool(self.snap(idx))

    def __eq__(self, o): return same_dim(self, o)
    def __ne__(self, o): return not same_dim(self, o)
    def __hash__(self): return 7
    def __repr__(self): return 'MaskDim%s' % (self.dims,)


class CountDim:
    """np.sum(mask): number of selected cells, usable as a repeat count"""
    def __init__(self, md):
        self.md = md

    def __eq__(self, o): return as_R(self.num()) == o
    def num(self):
        return reduce_elems('sum', self.md.snap, list(self.md.dims))
    def __gt__(self, o): return self.num() > o
    def __lt__(self, o): return self.num() < o
    def __repr__(self): return '<count>'


def flat_dims(ds):
    out = []
    for d in ds:
        if isinstance(d, Prod):
            out += flat_dims(d.dims)
        elif isinstance(d, MaskDim):
            out += flat_dims(d.dims)
        else:
            out.append(d)
    return out


_CAN = {}


def canon_idx(dims):
    out = []
    n = [0]

    def one(d):
        if isinstance(d, Prod):
            return tuple(one(x) for x in d.dims)
        if isinstance(d, MaskDim):
            return tuple(one(x) for x in d.dims)
        n[0] += 1
        return N(z3.Int('$c%d' % n[0]))
    return tuple(one(d) for d in dims)


def enum_dim(d):
    if isinstance(d, int):
        return list(range(d))
    if isinstance(d, Prod):
        return list(itertools.product(*[enum_dim(x) for x in d.dims]))
    if isinstance(d, MaskDim):
        return list(itertools.product(*[enum_dim(x) for x in d.dims]))
    raise Unsupported('enumerate symbolic dim')


def enum_idx(dims):
    return itertools.product(*[enum_dim(d) for d in dims])


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Prod) or isinstance(b, Prod):
        fa, fb = factors(a), factors(b)
        return len(fa) == len(fb) and all(same_dim(x, y) for x, y in zip(fa, fb))
    if isinstance(a, MaskDim) or isinstance(b, MaskDim):
        return isinstance(a, MaskDim) and isinstance(b, MaskDim) and a.key == b.key
    if isinstance(a, (N, int)) and isinstance(b, (N, int)):
        d = z3.simplify(zint(a) - zint(b))
        if z3.is_int_value(d):
            return d.as_long() == 0
        # decided on this path?
        r, _ = core._check(core.ctx.hyps + [zint(a) != zint(b)], 1000)
        return r == z3.unsat
    return False


def factors(d):
    if isinstance(d, Prod):
        out = []
        for x in d.dims:
            out += factors(x)
        return out
    if isinstance(d, int) and d == 1:
        return []
    return [d]


def idx_key(x):
    if isinstance(x, tuple):
        return tuple(idx_key(y) for y in x)
    if isinstance(x, N):
        return x.v.get_id()
    return ('i', int(x))


def idx_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            raise Unsupported('index tuple vs scalar')
        return band(*[idx_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return as_bool(mkB(z3.simplify(zint(a) == zint(b))))


def i_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return as_bool(mkB(z3.simplify(zint(a) < zint(b))))


def i_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return as_bool(mkB(z3.simplify(zint(a) <= zint(b))))


def in_range(i, d):
    """0 <= i < d (and the mask condition for mask axes)"""
    if isinstance(d, Prod):
        return band(*[in_range(x, y) for x, y in zip(i, d.dims)])
    if isinstance(d, MaskDim):
        return band(*([in_range(x, y) for x, y in zip(i, d.dims)] + [d.cond(i)]))
    return band(i_le(0, i), i_lt(i, d))


# --------------------------------------------------------------- buffers
class Snap:
    __slots__ = ('fn', 'cache')

    def __init__(self, fn):
        self.fn, self.cache = fn, {}

    def __call__(self, idx):
        k = idx_key(idx)
        r = self.cache.get(k)
        if r is None:
            v = self.fn(idx)
            self.cache[k] = (v, idx)     # keep idx alive (ids are recycled otherwise)
            return v
        return r[0]


class Buf:
    _n = 0

    def __init__(self, fn, shape, dtype='f'):
        self.snap = fn if isinstance(fn, Snap) else Snap(fn)
        self.shape, self.dtype = tuple(shape), dtype
        Buf._n += 1
        self.id = Buf._n

    def write(self, cond, val):
        """new contents: where cond(idx): val(idx) else old"""
        old = self.snap
        if core.ctx.trace is not None:
            core.ctx.trace.note_write(self, old)

        def f(idx):
            c = cond(idx)
            c = as_bool(c)
            if c is False:
                return old(idx)
            if c is True:
                return val(idx)
            return r_ite(c, val(idx), old(idx))
        self.snap = Snap(f)


_DT = {'f': 'float64', 'b': 'bool', 'i': 'int64', 'c': 'complex128'}


class DT(str):
    @property
    def name(self): return str(self)
    @property
    def kind(self): return {'float64': 'f', 'bool': 'b', 'int64': 'i', 'complex128': 'c'}[str(self)]


class ndarray:
    _is_arr = True
    __array_priority__ = 2000
    __hash__ = object.__hash__

    def __init__(self, buf, fwd, inv, shape):
        self.buf, self.fwd, self.inv, self.shape_ = buf, fwd, inv, tuple(shape)

    # ------------------------------------------------ basics
    @property
    def shape(self): return Shape(self.shape_)
    @property
    def ndim(self): return len(self.shape_)
    @property
    def dtype(self): return DT(_DT[self.buf.dtype])
    @property
    def size(self): return dim_prod(self.shape_)
    @property
    def T(self): return transpose(self)
    @property
    def real(self): return self.map(lambda x: x.re if isinstance(x, Cx) else x)
    @property
    def imag(self): return self.map(lambda x: x.im if isinstance(x, Cx) else R(Fraction(0)))

    def __repr__(self): return '<symarray %s>' % (self.shape_,)

    def snap(self):
        s, fwd = self.buf.snap, self.fwd
        if fwd is None:
            return s
        return Snap(lambda idx: s(fwd(idx)))

    def at(self, idx):
        """element at a full index"""
        return self.buf.snap(self.fwd(idx) if self.fwd else idx)

    def map(self, f, dtype=None):
        s = self.snap()
        return new(lambda idx: f(s(idx)), self.shape_, dtype or self.buf.dtype)

    def copy(self, *a, **k): return new(self.snap(), self.shape_, self.buf.dtype)
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, t, **k):
        if t in (bool, 'bool'):
            return self.map(lambda x: x if isinstance(x, (B, bool)) else as_R(x) != 0, 'b')
        if t in (int, 'int', 'int64', _np.int64):
            return self.map(lambda x: x if isinstance(x, (N, int)) else r_trunc(as_R(x)), 'i')
        return self.map(lambda x: x.num() if isinstance(x, B) else (as_R(x) if isinstance(x, (bool, N, int)) else x), 'f')
    def tolist(self): raise Unsupported('tolist')
    def item(self, *a):
        if self.size == 1:
            return self.at(tuple(0 for _ in self.shape_))
        raise Unsupported('item')
    def fill(self, v): self[...] = v

    def __len__(self):
        d = self.shape_[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len() of symbolic axis')

    def __iter__(self):
        d = self.shape_[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        return SymIter(self, d)

    def __bool__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape_):
            x = self.at(tuple(0 for _ in self.shape_))
            return bool(x)
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        if all(isinstance(d, int) and d == 1 for d in self.shape_):
            return self.at(tuple(0 for _ in self.shape_))
        raise TypeError('only size-1 arrays can be converted')

    # ------------------------------------------------ indexing
    def __getitem__(self, key):
        v, mask = index(self, key)
        return v

    def __setitem__(self, key, rhs):
        setitem(self, key, rhs)

    # ------------------------------------------------ shape ops
    def reshape(self, *shp, **k):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        return reshape(self, shp)
    def flatten(self): return reshape(self, (-1,)).copy()
    def ravel(self): return reshape(self, (-1,))
    def squeeze(self, axis=None):
        return reshape(self, tuple(d for d in self.shape_ if not (isinstance(d, int) and d == 1)))
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def transpose(self, *a): return transpose(self)

    # ------------------------------------------------ reductions
    def sum(self, axis=None, keepdims=False, **k): return reduce_('sum', self, axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce_('max', self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **k): return reduce_('min', self, axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return reduce_('mean', self, axis, keepdims)
    def any(self, axis=None, keepdims=False, **k): return reduce_('any', self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **k): return reduce_('all', self, axis, keepdims)
    def cumsum(self, axis=None): return cumsum(self, axis)

    # ------------------------------------------------ arithmetic
    def __add__(self, o): return binop(self, o, lambda a, b: a + b)
    def __radd__(self, o): return binop(o, self, lambda a, b: a + b)
    def __sub__(self, o): return binop(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return binop(o, self, lambda a, b: a - b)
    def __mul__(self, o): return binop(self, o, lambda a, b: a * b)
    def __rmul__(self, o): return binop(o, self, lambda a, b: a * b)
    def __truediv__(self, o): return binop(self, o, lambda a, b: a / b)
    def __rtruediv__(self, o): return binop(o, self, lambda a, b: a / b)
    def __floordiv__(self, o): return binop(self, o, lambda a, b: as_R(a) // b)
    def __mod__(self, o): return binop(self, o, lambda a, b: a % b)
    def __rmod__(self, o): return binop(o, self, lambda a, b: a % b)
    def __pow__(self, o): return binop(self, o, lambda a, b: a ** b)
    def __rpow__(self, o): return binop(o, self, lambda a, b: a ** b)
    def __neg__(self): return self.map(lambda a: -a)
    def __pos__(self): return self.copy()
    def __abs__(self): return self.map(lambda a: abs(a))
    def __invert__(self): return self.map(lambda a: (not a) if isinstance(a, bool) else ~a, 'b')
    def __and__(self, o): return binop(self, o, lambda a, b: a & b, 'b')
    def __rand__(self, o): return binop(o, self, lambda a, b: a & b, 'b')
    def __or__(self, o): return binop(self, o, lambda a, b: a | b, 'b')
    def __ror__(self, o): return binop(o, self, lambda a, b: a | b, 'b')
    def __xor__(self, o): return binop(self, o, lambda a, b: a ^ b, 'b')
    def __lt__(self, o): return binop(self, o, lambda a, b: a < b, 'b')
    def __le__(self, o): return binop(self, o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return binop(self, o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return binop(self, o, lambda a, b: a >= b, 'b')
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop(self, o, lambda a, b: a == b, 'b')
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop(self, o, lambda a, b: (a != b), 'b')

    def _inplace(self, o, f):
        self[...] = f(self, o)
        return self
    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)
    def __ifloordiv__(self, o): return self._inplace(o, lambda a, b: a // b)
    def __ipow__(self, o): return self._inplace(o, lambda a, b: a ** b)
    def __iand__(self, o): return self._inplace(o, lambda a, b: a & b)
    def __ior__(self, o): return self._inplace(o, lambda a, b: a | b)


class Shape(tuple):
    pass


class SymIter:
    def __init__(self, arr, d):
        self.arr, self.d = arr, d

    def __iter__(self): return self
    def __next__(self): raise Unsupported('python iteration over a symbolic axis')


def is_arr(x):
    return isinstance(x, ndarray)


def new(fn, shape, dtype='f'):
    b = Buf(fn, shape, dtype)
    return ndarray(b, None, None, b.shape)


def dim_prod(ds):
    fs = []
    c = 1
    for d in ds:
        for f in factors(d):
            if isinstance(f, int):
                c *= f
            else:
                fs.append(f)
    if not fs:
        return c
    if c == 1 and len(fs) == 1:
        return fs[0]
    if all(isinstance(f, N) for f in fs):
        r = c
        for f in fs:
            r = f * r
        return r
    return Prod(fs if c == 1 else [c] + fs)


# --------------------------------------------------------------- conversion
def pyelem(x):
    if isinstance(x, complex) or type(x).__name__ == 'complex128':
        return Cx(x.real, x.imag)
    if isinstance(x, (R, B, N, Cx, bool)):
        return x
    if isinstance(x, _np.bool_):
        return bool(x)
    if isinstance(x, ndarray):
        if x.ndim == 0:
            return x.at(())
        raise Unsupported('nested')
    if isinstance(x, int):
        return x
    if isinstance(x, CountDim):
        return x.num()
    return as_R(x)


def asarray(x, dtype=None, **k):
    if is_arr(x):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, (list, tuple)) and any(type(q).__name__ == 'S' and type(q).__module__.endswith('symstr') for q in x):
        from . import symstr
        return symstr.Words(x)
    if isinstance(x, _np.ndarray):
        if x.dtype == object or x.dtype.kind in 'US':
            return x
        dt = {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c', 'u': 'i'}[x.dtype.kind]
        y = x.copy()

        def f(idx, y=y):
            if all(isinstance(i, int) for i in idx):
                return pyelem(y[idx])
            r = None
            for j in _np.ndindex(*y.shape):
                c = band(*[idx_eq(a, b) for a, b in zip(idx, j)])
                e = pyelem(y[j])
                r = e if r is None else r_ite(c, e, r)
            return r
        return new(f, y.shape, dt)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return new(lambda idx: R(Fraction(0)), (0,))
        if any(isinstance(e, str) for e in x):
            return _np.asarray(x)
        if any(is_arr(e) or isinstance(e, (list, tuple, _np.ndarray)) for e in x):
            es = [asarray(e) for e in x]
            sn = [e.snap() for e in es]

            def f(idx, sn=sn):
                if isinstance(idx[0], int):
                    return sn[idx[0]](idx[1:])
                r = sn[0](idx[1:])
                for q in range(1, len(sn)):
                    r = r_ite(idx_eq(idx[0], q), sn[q](idx[1:]), r)
                return r
            return new(f, (len(es),) + es[0].shape_, es[0].buf.dtype)
        es = [pyelem(e) for e in x]
        dt = 'b' if all(isinstance(e, (B, bool)) for e in es) else ('i' if all(isinstance(e, (int, N)) for e in es) else 'f')

        def f(idx, es=es):
            if isinstance(idx[0], int):
                return es[idx[0]]
            r = es[0]
            for q in range(1, len(es)):
                r = r_ite(idx_eq(idx[0], q), es[q], r)
            return r
        return new(f, (len(es),), dt)
    if isinstance(x, str) or x is None:
        return _np.asarray(x)
    e = pyelem(x)
    return new(lambda idx: e, (), 'b' if isinstance(e, (B, bool)) else 'f')


# --------------------------------------------------------------- broadcasting
def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not same_dim(d, e):
                if isinstance(d, int) and isinstance(e, int):
                    raise ValueError('operands could not be broadcast together with shapes %s' % (shapes,))
                raise Unsupported('broadcast %s with %s' % (d, e))
        out.append(d)
    return tuple(out)


def bidx(idx, shape):
    """index into an operand of the given shape for a broadcast result index"""
    off = len(idx) - len(shape)
    return tuple((0 if (isinstance(d, int) and d == 1) else conv_idx(idx[off + k], d)) for k, d in enumerate(shape))


def conv_idx(i, d):
    return i


def binop(a, b, f, dtype=None):
    a = asarray(a) if not is_arr(a) else a
    b = asarray(b) if not is_arr(b) else b
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        raise Unsupported('string array op')
    shp = bshape([a.shape_, b.shape_])
    sa, sb, ha, hb = a.snap(), b.snap(), a.shape_, b.shape_
    dt = dtype or ('f' if 'f' in (a.buf.dtype, b.buf.dtype) else ('b' if a.buf.dtype == b.buf.dtype == 'b' else 'f'))
    r = new(lambda idx: f(sa(bidx(idx, ha)), sb(bidx(idx, hb))), shp, dt)
    return r


def elementwise(f, *args, dtype=None):
    if not any(is_arr(a) or isinstance(a, (list, tuple, _np.ndarray)) for a in args):
        return f(*[pyelem(a) for a in args])
    arrs = [asarray(a) for a in args]
    shp = bshape([a.shape_ for a in arrs])
    sn = [a.snap() for a in arrs]
    hs = [a.shape_ for a in arrs]
    return new(lambda idx: f(*[s(bidx(idx, h)) for s, h in zip(sn, hs)]), shp, dtype or 'f')


# --------------------------------------------------------------- indexing
def norm_i(i, d):
    """normalise an integer index (negative from the end)"""
    if isinstance(i, _np.integer):
        i = int(i)
    if isinstance(i, int):
        if i < 0:
            if isinstance(d, (Prod, MaskDim)):
                raise Unsupported('negative index on product axis')
            return d + i
        if isinstance(d, int) and i >= d:
            raise IndexError('index %d is out of bounds for axis with size %d' % (i, d))
        if isinstance(d, Prod):
            if i == 0:
                return tuple(norm_i(0, x) for x in d.dims)
            raise Unsupported('integer index on product axis')
        return i
    if isinstance(i, N):
        # a symbolic index is taken as non-negative when provable
        if isinstance(d, (Prod, MaskDim)):
            raise Unsupported('symbolic index on product axis')
        t = z3.simplify(i.v)
        if z3.is_const(t) and t.decl().name().startswith('$'):
            return i       # bound variables range over non-negative indices
        s = core._check(core.ctx.hyps + [t < 0], 1000)[0]
        if s == z3.unsat:
            return i
        s2 = core._check(core.ctx.hyps + [t >= 0], 1000)[0]
        if s2 == z3.unsat:
            return d + i
        raise Unsupported('sign of index %s unknown' % t)
    if isinstance(i, tuple):
        return i
    if isinstance(i, R):
        if isnum(i.v):
            return norm_i(int(i.v), d)
        raise Unsupported('real index')
    raise Unsupported('index %r' % (i,))


def clamp_dim(x):
    """max(x,0) for a slice length"""
    if isinstance(x, int):
        return max(x, 0)
    r, _ = core._check(core.ctx.hyps + [x.v < 0], 1000)
    if r == z3.unsat:
        return x
    return mkN(z3.If(x.v < 0, z3.IntVal(0), x.v))


def norm_slice(sl, d):
    """-> (start, step, length)"""
    step = 1 if sl.step is None else int(sl.step)
    if sl.start is None and sl.stop is None and step == 1:
        return 0, 1, d
    if isinstance(d, (Prod, MaskDim)):
        raise Unsupported('slice of product axis')

    def nb(v, dflt):
        if v is None:
            return dflt
        if isinstance(v, _np.integer):
            v = int(v)
        if isinstance(v, int):
            if v < 0:
                v = d + v
                if isinstance(v, int):
                    v = max(v, 0)
            elif isinstance(d, int):
                v = min(v, d)
            return v
        if isinstance(v, N):
            return v
        if isinstance(v, R) and isnum(v.v):
            return nb(int(v.v), dflt)
        raise Unsupported('slice bound %r' % (v,))
    if step == 1:
        a, b = nb(sl.start, 0), nb(sl.stop, d)
        # symbolic bounds beyond the axis are clipped by numpy; require provable
        if isinstance(b, int) and isinstance(d, N):
            r, _ = core._check(core.ctx.hyps + [zint(d) < b], 1000)
            if r != z3.unsat:
                b = mkN(z3.If(zint(d) < b, zint(d), z3.IntVal(b)))
        elif isinstance(b, N):
            r, _ = core._check(core.ctx.hyps + [zint(d) < b.v], 1000)
            if r != z3.unsat:
                b = mkN(z3.If(zint(d) < b.v, zint(d), b.v))
            r, _ = core._check(core.ctx.hyps + [zint(b) < 0], 1000)
            if r != z3.unsat:
                raise Unsupported('slice stop may be negative')
        if isinstance(a, N):
            r, _ = core._check(core.ctx.hyps + [a.v < 0], 1000)
            if r != z3.unsat:
                raise Unsupported('slice start may be negative')
        return a, 1, clamp_dim(b - a)
    if step == -1 and sl.start is None and sl.stop is None:
        return d - 1, -1, d
    if isinstance(d, int):
        a, b, s = sl.indices(d)
        return a, s, len(range(a, b, s))
    raise Unsupported('slice step')


class View:
    """description of one indexing operation; axes: per parent axis
    ('f', c) fixed / ('s', child axis, start, step) / ('m', child axis, [..])"""


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    nd = a.ndim
    # resolve number of consumed axes
    cons = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if is_arr(k) and k.buf.dtype == 'b':
            cons += k.ndim
        else:
            cons += 1
    res = []
    seen = False
    for k in key:
        if k is Ellipsis:
            res += [slice(None)] * (nd - cons)
            seen = True
        else:
            res.append(k)
    if not seen:
        res += [slice(None)] * (nd - cons)
    return res


def index_plan(a, key):
    """returns dict with: basic (bool), shape, fwd(child idx)->parent idx,
    inv(parent idx)->(cond, child idx)"""
    if isinstance(key, _np.ndarray):
        key = asarray(key)
    if isinstance(key, list):
        key = asarray(key)
    key = expand_key(a, key)
    shape = []
    plan = []        # per parent axis group
    ax = 0
    masks = []
    fancy_axes = []
    intlists = []
    for k in key:
        if k is None:
            shape.append(1)
            continue
        if isinstance(k, (bool, B)) :
            raise Unsupported('bool scalar index')
        if isinstance(k, (_np.ndarray, list)):
            k = asarray(k)
        if isinstance(k, CountDim):
            k = k.num()
        if is_arr(k) and k.ndim == 0:
            k = k.at(())
        if is_arr(k) and k.buf.dtype == 'b':
            dims = a.shape_[ax:ax + k.ndim]
            for x, y in zip(dims, k.shape_):
                if not same_dim(x, y):
                    if isinstance(x, int) and isinstance(y, int):
                        raise IndexError('boolean index did not match indexed array')
                    raise Unsupported('mask shape %s vs %s' % (k.shape_, dims))
            sn = k.snap()
            bs = Snap(lambda idx, sn=sn: as_bool_el(sn(idx)))
            if masks:
                # several masks: broadcast together; must be the same mask
                raise Unsupported('two masks in one index')
            md = MaskDim(bs, dims)
            masks.append(md)
            plan.append(('m', len(shape), k.ndim, bs))
            fancy_axes.append(len(shape))
            shape.append(md)
            ax += k.ndim
            continue
        d = a.shape_[ax]
        if isinstance(k, slice):
            st, step, ln = norm_slice(k, d)
            plan.append(('s', len(shape), st, step, ln))
            shape.append(ln)
        elif is_arr(k):
            plan.append(('g', len(shape), k))
            intlists.append(len(plan) - 1)
            shape.append(('ADV',))
        else:
            plan.append(('f', norm_i(k, d)))
        ax += 1
    return plan, shape, masks, intlists


def as_bool_el(x):
    if isinstance(x, (B, bool)):
        return as_bool(x)
    return as_bool(as_R(x) != 0)


def index(a, key):
    plan, shape, masks, intl = index_plan(a, key)
    if intl:
        return gather(a, plan, shape), None
    nshape = len(shape)

    def fwd(idx):
        out = []
        for p in plan:
            if p[0] == 'f':
                out.append(p[1])
            elif p[0] == 's':
                _, cax, st, step, ln = p
                i = idx[cax]
                if isinstance(st, int) and st == 0 and step == 1:
                    out.append(i)
                elif step == 1:
                    out.append(i + st)
                else:
                    out.append(st + i * step)
            else:
                _, cax, n, bs = p
                i = idx[cax]
                out.extend(i)
        return tuple(out)

    if masks:
        src = a.snap()
        return new(lambda idx: src(fwd(idx)), shape, a.buf.dtype), masks[0]
    if nshape == 0 and all(p[0] == 'f' for p in plan):
        return a.at(tuple(p[1] for p in plan)), None

    def inv(pidx):
        conds = []
        child = [0] * nshape
        for k, p in enumerate(plan):
            i = pidx[k]
            if p[0] == 'f':
                conds.append(idx_eq(i, p[1]))
            else:
                _, cax, st, step, ln = p
                if isinstance(st, int) and st == 0 and step == 1:
                    if isinstance(i, tuple):
                        child[cax] = i
                        continue
                    child[cax] = i
                    if not (ln is a_shape[k] or same_dim_cheap(ln, a_shape[k])):
                        conds.append(i_lt(i, ln))
                elif step == 1:
                    conds.append(i_le(st, i))
                    conds.append(i_lt(i, st + ln))
                    child[cax] = i - st
                elif step == -1:
                    child[cax] = st - i
                else:
                    if not isinstance(i, int) or not isinstance(st, int):
                        if not isinstance(st, int) or step < 0:
                            raise Unsupported('strided view write')
                        conds.append(i_le(st, i))
                        conds.append(as_bool(((i - st) % step) == 0))
                        q = (i - st) // step
                        conds.append(i_lt(q, ln))
                        child[cax] = q
                        continue
                    q, r = divmod(i - st, step)
                    conds.append(r == 0 and 0 <= q < ln)
                    child[cax] = q
        return band(*conds), tuple(child)
    a_shape = a.shape_
    pf, pi = a.fwd, a.inv

    def fwd2(idx):
        j = fwd(idx)
        return pf(j) if pf else j

    def inv2(bidx_):
        if pi is None:
            return inv(bidx_)
        c, j = pi(bidx_)
        if c is False:
            return False, None
        c2, i = inv(j)
        return band(c, c2), i
    return ndarray(a.buf, fwd2, inv2, shape), None


def same_dim_cheap(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if isinstance(a, N) and isinstance(b, N):
        return a.v.eq(b.v)
    return False


def gather(a, plan, shape):
    """integer-array indexing (read only)"""
    arrs = [p[2] for p in plan if p[0] == 'g']
    if any(p[0] == 'm' for p in plan):
        raise Unsupported('mask and integer-array index')
    bs = bshape([x.shape_ for x in arrs])
    sn = [x.snap() for x in arrs]
    hs = [x.shape_ for x in arrs]
    # adjacency
    pos = [k for k, p in enumerate(plan) if p[0] == 'g']
    first = shape.index(('ADV',))
    adv_ok = all(plan[k][0] in ('g', 'f') for k in range(pos[0], pos[-1] + 1))
    oshape, amap = [], {}
    if not adv_ok:
        oshape = list(bs)
    for k, s in enumerate(shape):
        if s == ('ADV',):
            if k == first and adv_ok:
                off = len(oshape)
                oshape += list(bs)
        else:
            amap[k] = len(oshape)
            oshape.append(s)
    off = off if adv_ok else 0
    src = a.snap()
    ash = a.shape_

    def f(idx):
        ai = idx[off:off + len(bs)]
        out = []
        g = 0
        for k, p in enumerate(plan):
            if p[0] == 'f':
                out.append(p[1])
            elif p[0] == 's':
                i = idx[amap[p[1]]]
                out.append(p[2] + i * p[3] if not (isinstance(p[2], int) and p[2] == 0 and p[3] == 1) else i)
            else:
                e = sn[g](bidx(ai, hs[g]))
                g += 1
                out.append(elem_to_index(e, ash[k]))
        return src(tuple(out))
    return new(f, oshape, a.buf.dtype)


def elem_to_index(e, d):
    if isinstance(e, R):
        if isnum(e.v):
            e = int(e.v)
        else:
            e = mkN(z3.ToInt(e.v))
    if isinstance(e, int):
        return norm_i(e, d)
    return e


def setitem(a, key, rhs):
    plan, shape, masks, intl = index_plan(a, key)
    if intl:
        raise Unsupported('integer-array assignment')
    rhs_el = None
    if not (is_arr(rhs) or isinstance(rhs, (list, tuple, _np.ndarray))):
        rhs_el = pyelem(rhs)
        if a.buf.dtype == 'f' and isinstance(rhs_el, (bool, B, N, int)):
            rhs_el = as_R(rhs_el)
        elif a.buf.dtype == 'i' and isinstance(rhs_el, R):
            rhs_el = r_to_int(rhs_el)
    else:
        rhs = asarray(rhs)
        # drop extra leading 1-axes of the value
        rs = list(rhs.shape_)
        while len(rs) > len(shape) and isinstance(rs[0], int) and rs[0] == 1:
            rs = rs[1:]
        if len(rs) != rhs.ndim:
            rhs = reshape(rhs, tuple(rs))
        # check broadcastability
        if len(rhs.shape_) > len(shape):
            raise ValueError('could not broadcast input array')
        for d, e in zip(rhs.shape_[::-1], shape[::-1]):
            if isinstance(d, int) and d == 1:
                continue
            if not same_dim(d, e):
                if isinstance(d, int) and isinstance(e, int):
                    raise ValueError('could not broadcast input array from shape into shape')
                raise Unsupported('assign shape %s <- %s' % (shape, rhs.shape_))
        rsn, rh = rhs.snap(), rhs.shape_
        if a.buf.dtype == 'f' and rhs.buf.dtype in 'bi':
            rsn0 = rsn
            rsn = Snap(lambda i: as_R(rsn0(i)) if not isinstance(rsn0(i), bool) else as_R(bool(rsn0(i))))
        elif a.buf.dtype == 'i' and rhs.buf.dtype == 'f':
            rsn0 = rsn
            rsn = Snap(lambda i: r_to_int(as_R(rsn0(i))))
    ash = a.shape_

    def inv(pidx):
        conds = []
        child = [0] * len(shape)
        ax = 0
        for p in plan:
            if p[0] == 'f':
                conds.append(idx_eq(pidx[ax], p[1]))
                ax += 1
            elif p[0] == 's':
                _, cax, st, step, ln = p
                i = pidx[ax]
                if isinstance(st, int) and st == 0 and step == 1:
                    child[cax] = i
                    if not isinstance(i, tuple) and not same_dim_cheap(ln, ash[ax]):
                        conds.append(i_lt(i, ln))
                elif step == 1:
                    conds.append(i_le(st, i))
                    conds.append(i_lt(i, st + ln))
                    child[cax] = i - st
                elif step == -1:
                    child[cax] = st - i
                else:
                    if not (isinstance(i, int) and isinstance(st, int)):
                        raise Unsupported('strided assign')
                    q, r = divmod(i - st, step)
                    conds.append(r == 0 and 0 <= q < ln)
                    child[cax] = q
                ax += 1
            else:
                _, cax, n, bs = p
                base = tuple(pidx[ax:ax + n])
                conds.append(bs(base))
                child[cax] = base
                ax += n
            if conds and conds[-1] is False:
                return False, None
        return band(*conds), tuple(child)

    binv = a.inv

    def full(bi):
        if binv is None:
            return inv(bi)
        c, j = binv(bi)
        if c is False:
            return False, None
        c2, i = inv(j)
        if c2 is False:
            return False, None
        return band(c, c2), i
    memo = {}

    def mfull(bi):
        k = idx_key(bi)
        if k not in memo:
            memo[k] = (full(bi), bi)
        return memo[k][0]

    def cond(bi):
        return mfull(bi)[0]

    def val(bi):
        if rhs_el is not None:
            return rhs_el
        i = mfull(bi)[1]
        return rsn(bidx(i, rh))
    a.buf.write(cond, val)


# --------------------------------------------------------------- shape ops
def regroup(shape_from, shape_to):
    """index conversion to->from by regrouping factor lists, or flat arithmetic"""
    ff = []
    for d in shape_from:
        ff += factors(d)
    ft = []
    for d in shape_to:
        ft += factors(d)
    if len(ff) == len(ft) and all(same_dim(x, y) for x, y in zip(ff, ft)):
        def conv(idx, sf, st):
            flat = []

            def fl(i, d):
                if isinstance(d, Prod):
                    for x, y in zip(i, d.dims):
                        fl(x, y)
                elif isinstance(d, int) and d == 1:
                    pass
                else:
                    flat.append(i)
            for i, d in zip(idx, st):
                fl(i, d)
            it = iter(flat)

            def bu(d):
                if isinstance(d, Prod):
                    return tuple(bu(x) for x in d.dims)
                if isinstance(d, int) and d == 1:
                    return 0
                return next(it)
            return tuple(bu(d) for d in sf)
        return lambda idx: conv(idx, shape_from, shape_to), lambda idx: conv(idx, shape_to, shape_from)
    if all(isinstance(d, int) for d in list(shape_from) + list(shape_to)):
        def conv(idx, sf, st):
            f = 0
            for i, d in zip(idx, st):
                if not isinstance(i, int):
                    raise Unsupported('symbolic index through flat reshape')
                f = f * d + i
            out = []
            for d in reversed(sf):
                out.append(f % d if d else 0)
                f //= d if d else 1
            return tuple(reversed(out))
        return lambda idx: conv(idx, shape_from, shape_to), lambda idx: conv(idx, shape_to, shape_from)
    raise Unsupported('reshape %s -> %s' % (shape_from, shape_to))


def reshape(a, shp):
    if not isinstance(shp, (tuple, list)):
        shp = (shp,)
    shp = list(shp)
    if any(isinstance(d, int) and d == -1 for d in shp):
        k = [i for i, d in enumerate(shp) if isinstance(d, int) and d == -1][0]
        ff = []
        for d in a.shape_:
            ff += factors(d)
        if all(isinstance(d, int) for d in ff) and all(isinstance(d, int) for d in shp):
            tot = 1
            for d in ff:
                tot *= d
            oth = 1
            for i, d in enumerate(shp):
                if i != k:
                    oth *= d
            shp[k] = tot // oth if oth else 0
        else:
            pre, post = [], []
            for d in shp[:k]:
                pre += factors(d)
            for d in shp[k + 1:]:
                post += factors(d)
            mid = ff[len(pre):len(ff) - len(post)]
            shp[k] = 1 if not mid else (mid[0] if len(mid) == 1 else Prod(mid))
    shp = [d if not (isinstance(d, N)) else d for d in shp]
    to_from, from_to = regroup(a.shape_, tuple(shp))
    pf, pi = a.fwd, a.inv

    def fwd(idx):
        j = to_from(idx)
        return pf(j) if pf else j

    def inv(bi):
        if pi is None:
            return True, from_to(bi)
        c, j = pi(bi)
        if c is False:
            return False, None
        return c, from_to(j)
    return ndarray(a.buf, fwd, inv, shp)


def transpose(a):
    pf, pi = a.fwd, a.inv

    def fwd(idx):
        j = tuple(reversed(idx))
        return pf(j) if pf else j

    def inv(bi):
        if pi is None:
            return True, tuple(reversed(bi))
        c, j = pi(bi)
        return (False, None) if c is False else (c, tuple(reversed(j)))
    return ndarray(a.buf, fwd, inv, tuple(reversed(a.shape_)))


def repeat(a, n, axis=None):
    a = asarray(a)
    if a.ndim == 0:
        a = reshape(a, (1,))
        axis = 0
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('repeat flat')
        axis = 0
    if axis < 0:
        axis += a.ndim
    if isinstance(n, R) and isnum(n.v):
        n = int(n.v)
    d = a.shape_[axis]
    sn = a.snap()
    if isinstance(d, int) and d == 1:
        nd = n.md if isinstance(n, CountDim) else n
        if not isinstance(nd, (int, N, Prod, MaskDim)):
            raise Unsupported('repeat count %r' % (n,))
        shp = list(a.shape_)
        shp[axis] = nd
        return new(lambda idx: sn(idx[:axis] + (0,) + idx[axis + 1:]), shp, a.buf.dtype)
    if isinstance(n, int) and n == 1:
        return a.copy()
    if isinstance(d, int) and isinstance(n, int):
        shp = list(a.shape_)
        shp[axis] = d * n
        def f(idx):
            i = idx[axis]
            return sn(idx[:axis] + (i // n,) + idx[axis + 1:])
        return new(f, shp, a.buf.dtype)
    raise Unsupported('repeat of a non-unit axis')


def tile(a, reps):
    a = asarray(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    nd = max(len(reps), a.ndim)
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    b = reshape(a, (1,) * (nd - a.ndim) + a.shape_) if nd > a.ndim else a
    for k, r in enumerate(reps):
        if isinstance(r, int) and r == 1:
            continue
        if isinstance(b.shape_[k], int) and b.shape_[k] == 1:
            b = repeat(b, r, k)
        elif isinstance(b.shape_[k], int) and isinstance(r, int):
            b = concatenate([b] * r, axis=k)
        else:
            raise Unsupported('tile')
    return b.copy()


def concatenate(arrs, axis=0):
    arrs = [asarray(x) for x in arrs]
    if axis < 0:
        axis += arrs[0].ndim
    tot = 0
    offs = []
    for x in arrs:
        offs.append(tot)
        tot = x.shape_[axis] + tot
    sn = [x.snap() for x in arrs]

    def f(idx):
        r = None
        i = idx[axis]
        for k in range(len(arrs) - 1, -1, -1):
            j = i - offs[k]
            if isinstance(i, int) and isinstance(offs[k], int) and isinstance(arrs[k].shape_[axis], int):
                if 0 <= j < arrs[k].shape_[axis]:
                    return sn[k](idx[:axis] + (j,) + idx[axis + 1:])
                continue
            e = sn[k](idx[:axis] + (j,) + idx[axis + 1:])
            r = e if r is None else r_ite(i_lt(i, offs[k + 1]), e, r)
        return r
    shp = list(arrs[0].shape_)
    shp[axis] = tot
    return new(f, shp, arrs[0].buf.dtype)


# --------------------------------------------------------------- reductions
EXPAND_MAX = 4096


def expand_dims_list(dims):
    """elementary axes of the reduced dims"""
    return dims


def reduce_elems(kind, f, dims):
    """reduce f(idx) over all idx in dims.  kind: sum any all max min"""
    if kind == 'all':
        r = reduce_elems('any', lambda i: mkB(bnot(as_bool_el(f(i)))), dims)
        return (not r) if isinstance(r, bool) else ~r
    if kind == 'min':
        return -reduce_elems('max', lambda i: -as_R(f(i)), dims)
    # mask axes: base axes with a condition
    if any(isinstance(d, (MaskDim, Prod)) for d in dims):
        nd, cnt, masks = [], [], []
        for d in dims:
            if isinstance(d, (MaskDim, Prod)):
                cnt.append((d, len(d.dims)))
                nd += list(d.dims)
            else:
                cnt.append((d, None))
                nd.append(d)

        def pack(i):
            out, k, cond = [], 0, []
            for d, n in cnt:
                if n is None:
                    out.append(i[k])
                    k += 1
                else:
                    t = tuple(i[k:k + n])
                    k += n
                    out.append(t)
                    if isinstance(d, MaskDim):
                        cond.append(d.cond(t))
            return tuple(out), band(*cond)

        def g(i):
            j, c = pack(i)
            if c is True:
                return f(j)
            if kind == 'sum':
                return r_ite(c, as_R(f(j)), R(Fraction(0)))
            if kind == 'any':
                return mkB(band(c, as_bool_el(f(j))))
            return r_ite(c, as_R(f(j)), R(Fraction(0), m=True))
        return reduce_elems(kind, g, nd)
    syms = [k for k, d in enumerate(dims) if not isinstance(d, int)]
    ints = [k for k, d in enumerate(dims) if isinstance(d, int)]
    if ints:
        import math
        if math.prod(dims[k] for k in ints) > EXPAND_MAX:
            raise Unsupported('expansion too large')

        def h(si):
            acc = None
            for ci in itertools.product(*[range(dims[k]) for k in ints]):
                idx = [None] * len(dims)
                for k, v in zip(ints, ci):
                    idx[k] = v
                for k, v in zip(syms, si):
                    idx[k] = v
                e = f(tuple(idx))
                if kind == 'sum':
                    e = as_R(e)
                    acc = e if acc is None else acc + e
                elif kind == 'any':
                    e = as_bool_el(e)
                    acc = e if acc is None else bor(acc, e)
                else:
                    acc = as_R(e) if acc is None else r_max(acc, e)
            if acc is None:
                if kind == 'sum':
                    return R(Fraction(0))
                if kind == 'any':
                    return False
                raise ValueError('zero-size array to reduction operation')
            return mkB(acc) if kind == 'any' else acc
        if not syms:
            return h(())
        return reduce_elems(kind, h, [dims[k] for k in syms])
    # all symbolic
    bv = [z3.Int('$k%d_%d' % (core.next_bv(), j)) for j in range(len(dims))]
    bounds = [(z3.IntVal(0), zint(d)) for d in dims]
    for v, (lo, hi) in zip(bv, bounds):
        core.ctx.index(v, lo, hi)
    h0 = core.ctx.hyps
    core.ctx.hyps = h0 + [z3.And(v >= lo, v < hi) for v, (lo, hi) in zip(bv, bounds)]
    nh = len(core.ctx.hyps)
    try:
        e = f(tuple(N(v) for v in bv))
        extra = core.ctx.hyps[nh:]
    finally:
        core.ctx.hyps = h0
    if extra:
        if any(contains_any(x, {v.get_id() for v in bv}) for x in extra):
            raise Unsupported('branch on a bound variable')
        core.ctx.hyps = h0 + extra
    return reduce_term(kind, e, bv, bounds)


def prune_ites(t, vids, limit=16):
    """drop branches on bound variables that the standing facts decide"""
    for rnd in range(3):
        t = z3.simplify(t)
        seen, st, subs = set(), [t], []
        while st and len(subs) < limit:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            _, kids, nm = core.tinfo(x, i)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and contains_any(kids[0], vids):
                if core.settled_false(kids[0]):
                    subs.append((x, kids[2]))
                elif core.settled_false(z3.Not(kids[0])):
                    subs.append((x, kids[1]))
            st.extend(kids)
        if not subs:
            return t
        t = z3.substitute(t, *subs)
    return t


def reduce_term(kind, e, bv, bounds):
    if kind == 'any':
        b = as_bool_el(e)
        if isinstance(b, bool):
            if b is False:
                return False
            return mkB(z3.simplify(z3.And(*[lo < hi for lo, hi in bounds])))
        b = z3.simplify(b)
        if z3.is_true(b) or z3.is_false(b):
            return reduce_term(kind, z3.is_true(b), bv, bounds)
        if not contains_any(b, {v.get_id() for v in bv}):
            return mkB(z3.And(b, *[z3.simplify(lo < hi) for lo, hi in bounds]))
        return mkB(mk_atom('any', bv, bounds, b))
    e = as_R(e)
    vids = {v.get_id() for v in bv}

    def anyf(fl):
        if fl is False:
            return False
        if fl is True:
            return z3.simplify(z3.And(*[lo < hi for lo, hi in bounds]))
        fl = z3.simplify(fl)
        if z3.is_false(fl) or core.settled_false(fl):
            return False
        return as_bool(reduce_term('any', mkB(fl), bv, bounds))
    n, p, m = anyf(e.n), anyf(e.p), anyf(e.m)
    if kind == 'sum':
        v = prune_ites(zr(e.v), vids)
        # flagged elements do not contribute a value
        for k in range(len(bv) - 1, -1, -1):
            v = mk_sum(bv[k], bounds[k][0], bounds[k][1], v)
        if z3.is_rational_value(v):
            v = v.as_fraction()
        if n is False and p is False and m is False:
            return R(v)
        nn = bor(n, band(p, m))
        return R(v, nn, band(bnot(nn), p), band(bnot(nn), m))
    # max
    v = zr(e.v)
    if not contains_any(v, vids) and e.fin():
        return R(e.v)
    if e.m is not False:
        # over-approximation: any value
        return R(core.ctx.fresh('hv'), core.ctx.fresh('hvn', 'B'), False, False)
    app = mk_atom('max', bv, bounds, z3.simplify(v))
    return R(app, n, band(bnot(n), p), False)


_bvn = [0]


def _next_bv():
    _bvn[0] += 1
    return _bvn[0]


core.next_bv = _next_bv


def reduce_(kind, a, axis=None, keepdims=False, nanskip=False):
    a = asarray(a)
    if a.ndim == 0:
        return a.at(())
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, int):
        axes = (axis,)
    else:
        axes = tuple(axis)
    axes = tuple(x + a.ndim if x < 0 else x for x in axes)
    sn = a.snap()
    rd = [a.shape_[k] for k in axes]
    if kind == 'sum' and a.buf.dtype == 'b' and len(axes) == a.ndim:
        bs = Snap(lambda idx: as_bool_el(sn(idx)))
        if all(isinstance(d, int) for d in flat_dims(rd)):
            es = [bs(i) for i in enum_idx(a.shape_)]
            if all(isinstance(e, bool) for e in es):
                return sum(es)
        return CountDim(MaskDim(bs, a.shape_))
    rest = [k for k in range(a.ndim) if k not in axes]

    def at(ridx):
        def f(i):
            idx = [None] * a.ndim
            for k, v in zip(axes, i):
                idx[k] = v
            for k, v in zip(rest, ridx):
                idx[k] = v
            return sn(tuple(idx))
        if kind in ('sum', 'max', 'min', 'any', 'all') and not nanskip:
            return reduce_elems(kind, f, rd)
        if nanskip:
            def g(i):
                e = as_R(f(i))
                return r_ite(e.n, R(Fraction(0)), R(e.v, False, e.p, e.m))

            def c(i):
                e = as_R(f(i))
                return r_ite(e.n, R(Fraction(0)), R(Fraction(1)))
            if kind == 'sum':
                return reduce_elems('sum', g, rd)
            if kind == 'mean':
                return reduce_elems('sum', g, rd) / reduce_elems('sum', c, rd)
            raise Unsupported('nan' + kind)
        if kind == 'mean':
            tot = reduce_elems('sum', f, rd)
            n = dim_prod(rd)
            if isinstance(n, (Prod, MaskDim)):
                n = reduce_elems('sum', lambda i: R(Fraction(1)), rd)
            return tot / as_R(n)
        raise Unsupported(kind)
    if not rest and not keepdims:
        return at(())
    dt = 'b' if kind in ('any', 'all') else 'f'
    if keepdims:
        shp = [1 if k in axes else a.shape_[k] for k in range(a.ndim)]
        return new(lambda idx: at(tuple(idx[k] for k in rest)), shp, dt)
    return new(at, [a.shape_[k] for k in rest], dt)


def cumsum(a, axis=None):
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('cumsum flat')
        axis = 0
    if axis < 0:
        axis += a.ndim
    sn = a.snap()

    def f(idx):
        i = idx[axis]
        if isinstance(i, int):
            acc = None
            for k in range(i + 1):
                e = as_R(sn(idx[:axis] + (k,) + idx[axis + 1:]))
                acc = e if acc is None else acc + e
            return acc
        bv = z3.Int('$k%d_0' % _next_bv())
        e = sn(idx[:axis] + (N(bv),) + idx[axis + 1:])
        return reduce_term('sum', e, [bv], [(z3.IntVal(0), zint(i) + 1)])
    return new(f, a.shape_, 'f')


# --------------------------------------------------------------- the np namespace
def _full(shape, v, dtype='f'):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = tuple(int(d.v) if isinstance(d, R) and isnum(d.v) else split_product(d) for d in shape)
    return new(lambda idx: v, shape, dtype)


DIM_ORDER = []     # declared dimensions, outermost first


def split_product(d):
    """an axis whose length is a product of declared dimensions is laid out row-major
    over them (any layout will do for a constant array; arrays with another layout
    do not combine with it)"""
    if isinstance(d, N) and not isinstance(d.v, int) and z3.is_mul(d.v):
        ch = d.v.children()
        pos = []
        for c in ch:
            k = [i for i, t in enumerate(DIM_ORDER) if t.eq(c)]
            if not k:
                return d
            pos.append(k[0])
        if len(set(pos)) == len(pos):
            return Prod([N(DIM_ORDER[k]) for k in sorted(pos)])
    return d


def r_trunc(a):
    a = as_R(a)
    return r_ite(r_lt(a, R(Fraction(0))), r_ceil(a), r_floor(a))


def r_to_int(x):
    """the integer stored when a real is assigned to an integer array (truncation)"""
    if isnum(x.v):
        return int(x.v)
    return mkN(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))


def r_log10(a):
    return r_log(as_R(a)) / R(frac(2.302585092994046))


LOOPVARS = []    # variables of the symbolic loops being executed


def arg_extreme(kind, a, axis):
    """index of the first extreme along an axis, by its contract: inside the axis, the extreme there
    (for booleans: the first true, or 0 when none is true)"""
    a = asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported(kind + ' of a flattened array')
        axis = 0
    if axis < 0:
        axis += a.ndim
    sn, n = a.snap(), a.shape_[axis]
    if isinstance(n, (Prod, MaskDim)):
        raise Unsupported(kind)
    isb = a.buf.dtype == 'b'
    neg = kind.endswith('min')
    full = lambda ridx, k: tuple(ridx[:axis]) + (k,) + tuple(ridx[axis:])

    def better(x, y):
        """x strictly before y"""
        if isb:
            x, y = as_bool_el(x), as_bool_el(y)
            return band(bnot(x), y) if neg else band(x, bnot(y))
        x, y = as_R(x), as_R(y)
        c = r_lt(x, y) if neg else r_lt(y, x)
        return bor(band(bnot(x.n), y.n), band(bnot(x.n), as_bool(c))) if kind.startswith('nan') else bor(band(x.n, bnot(y.n)), band(bnot(y.n), as_bool(c)))
    if isinstance(n, int):
        def at(ridx):
            best, bv = 0, sn(full(ridx, 0))
            for k in range(1, n):
                c = as_bool(better(sn(full(ridx, k)), bv))
                v = sn(full(ridx, k))
                best = k if c is True else best if c is False else mkN(z3.If(zb(c), z3.IntVal(k), zint(best)))
                bv = v if c is True else bv if c is False else (mkB(z3.If(zb(c), zb(as_bool_el(v)), zb(as_bool_el(bv)))) if isb else r_ite(c, v, bv))
            if a.ndim == 1 and 'argmin.split' in core.HOOKS:   # one path per index
                return next((k for k in range(n - 1) if bool(best == k)), n - 1)
            return best
    else:
        _ARGN[0] += 1
        lv = list(LOOPVARS)
        nm = '$%s%d' % (kind, _ARGN[0])
        nr = a.ndim - 1
        f = z3.Function(nm, *([z3.IntSort()] * (len(lv) + nr) + [z3.IntSort()]))

        def facts(app):
            kids = app.children()
            pairs = list(zip(lv, kids[:len(lv)]))
            ridx = [mkN(k) for k in kids[len(lv):]]
            out = [app >= 0, z3.Implies(zint(n) > 0, app < zint(n))]
            from .loader import subst_el
            e = sn(full(ridx, mkN(app)))
            e = subst_el(e, pairs) if pairs else e
            first = sn(full(ridx, 0))
            first = subst_el(first, pairs) if pairs else first
            if isb:
                hit = as_bool_el(e) if not neg else bnot(as_bool_el(e))
                out.append(zb(bor(hit, mkB(app == 0))))
            else:
                if kind.startswith('nan'):
                    out.append(zb(bnot(as_R(e).n)))
                out.append(zb(bnot(as_bool(better(first, e)))))
            return out
        core.INPUT_FACTS[nm] = facts

        def at(ridx):
            return mkN(f(*(lv + [zint(k) for k in ridx])))
    if a.ndim == 1:
        return at(())
    return new(at, a.shape_[:axis] + a.shape_[axis + 1:], 'i')


_ARGN = [0]


class _LA:
    pass


class NP:
    """stand-in for the numpy module inside the symbolically executed source"""
    ndarray = ndarray
    newaxis = None

    class errstate:
        """floating point warnings are not modelled"""
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    pi = R(frac(3.141592653589793))
    e = R(frac(2.718281828459045))
    inf = R(Fraction(0), p=True)
    Inf = inf
    nan = R(Fraction(0), n=True)
    NaN = nan
    float64 = float
    float32 = float
    int64 = int
    int32 = int
    bool_ = bool
    str_ = str

    def __getattr__(self, k):
        raise Unsupported('numpy.%s' % k)

    @property
    def random(self):
        from .loader import Opaque
        return Opaque('numpy.random')

    @staticmethod
    def argwhere(a):
        from .loader import Opaque
        return Opaque('numpy.argwhere')  # only ever printed

    argmax = staticmethod(lambda a, axis=None, **k: arg_extreme('argmax', a, axis))
    argmin = staticmethod(lambda a, axis=None, **k: arg_extreme('argmin', a, axis))
    nanargmax = staticmethod(lambda a, axis=None, **k: arg_extreme('nanargmax', a, axis))
    nanargmin = staticmethod(lambda a, axis=None, **k: arg_extreme('nanargmin', a, axis))

    @staticmethod
    def zeros(shape, dtype=None, **k):
        if dtype in (bool, 'bool'):
            return _full(shape, False, 'b')
        if dtype in (int, 'int'):
            return _full(shape, 0, 'i')
        return _full(shape, R(Fraction(0)))

    @staticmethod
    def ones(shape, dtype=None, **k):
        if dtype in (bool, 'bool'):
            return _full(shape, True, 'b')
        return _full(shape, R(Fraction(1)))

    @staticmethod
    def full(shape, v, dtype=None, **k):
        v = pyelem(v)
        return _full(shape, v, 'b' if isinstance(v, (bool, B)) else 'f')
    empty = zeros

    @staticmethod
    def log10(a): return elementwise(r_log10, a)

    @staticmethod
    def zeros_like(a, **k):
        if a.buf.dtype == 'i':
            return _full(a.shape_, 0, 'i')
        return _full(a.shape_, R(Fraction(0)))
    @staticmethod
    def ones_like(a, **k): return _full(a.shape_, R(Fraction(1)))
    @staticmethod
    def full_like(a, v, **k): return _full(a.shape_, pyelem(v))
    empty_like = zeros_like
    asarray = staticmethod(asarray)
    asmatrix = staticmethod(lambda x: Matrix(asarray(x)))

    @staticmethod
    def array(x, dtype=None, **k):
        a = asarray(x)
        return a.copy() if is_arr(a) else a

    @staticmethod
    def copy(x): return asarray(x).copy()

    @staticmethod
    def arange(*a):
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            lo, hi, st = a[0], a[1], 1
        else:
            lo, hi, st = a
        if all(isinstance(x, int) for x in (lo, hi, st)):
            return asarray(_np.arange(lo, hi, st))
        if isinstance(lo, (int, N)) and isinstance(hi, (int, N)) and isinstance(st, int) and st == 1:
            r = new(lambda idx: idx[0] + lo, (hi - lo,), 'i')
            r.rng = (lo, hi, r.buf.snap)
            return r
        raise Unsupported('arange')

    @staticmethod
    def meshgrid(a, b, indexing='xy', **k):
        a, b = asarray(a), asarray(b)
        if indexing != 'xy' or k or a.ndim != 1 or b.ndim != 1:
            raise Unsupported('meshgrid')
        shp = (b.shape_[0], a.shape_[0])
        sa, sb = a.snap(), b.snap()
        return new(lambda idx: sa((idx[1],)), shp, a.buf.dtype), new(lambda idx: sb((idx[0],)), shp, b.buf.dtype)

    maximum = staticmethod(lambda a, b: elementwise(r_max, a, b))
    minimum = staticmethod(lambda a, b: elementwise(r_min, a, b))
    fmax, fmin = maximum, minimum
    sqrt = staticmethod(lambda a: elementwise(r_sqrt, a))
    abs = staticmethod(lambda a: elementwise(lambda x: abs(as_R(x)), a))
    absolute = abs
    fabs = abs
    exp = staticmethod(lambda a: elementwise(lambda x: r_fun(EXP, x), a))
    log = staticmethod(lambda a: elementwise(r_log, a))
    sin = staticmethod(lambda a: elementwise(lambda x: r_fun(SIN, x), a))
    cos = staticmethod(lambda a: elementwise(lambda x: r_fun(COS, x), a))
    tan = staticmethod(lambda a: elementwise(lambda x: r_fun(TAN, x), a))
    tanh = staticmethod(lambda a: elementwise(lambda x: r_fun(TANH, x), a))
    arctan = staticmethod(lambda a: elementwise(lambda x: r_fun(ATAN, x), a))
    arctan2 = staticmethod(lambda a, b: elementwise(lambda x, y: R(ATAN2(zr(as_R(x).v), zr(as_R(y).v)), bor(as_R(x).n, as_R(y).n)), a, b))
    hypot = staticmethod(lambda a, b: elementwise(lambda x, y: r_sqrt(as_R(x) * x + as_R(y) * y), a, b))
    power = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) ** y, a, b))
    square = staticmethod(lambda a: elementwise(lambda x: as_R(x) * x, a))
    floor = staticmethod(lambda a: elementwise(lambda x: r_floor(as_R(x)), a))
    ceil = staticmethod(lambda a: elementwise(lambda x: r_ceil(as_R(x)), a))
    sign = staticmethod(lambda a: elementwise(lambda x: r_ite(r_lt(as_R(x), R(Fraction(0))), R(Fraction(-1)), r_ite(_z_el(x), R(Fraction(0)), R(Fraction(1)))), a))
    mod = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) % y, a, b))
    add = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) + y, a, b))
    subtract = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) - y, a, b))
    multiply = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) * y, a, b))
    divide = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) / y, a, b))
    true_divide = divide
    deg2rad = staticmethod(lambda a: elementwise(lambda x: as_R(x) * (NP.pi / 180), a))
    radians = deg2rad
    rad2deg = staticmethod(lambda a: elementwise(lambda x: as_R(x) * (180 / NP.pi), a))
    isnan = staticmethod(lambda a: elementwise(lambda x: r_isnan(x), a, dtype='b'))
    isfinite = staticmethod(lambda a: elementwise(lambda x: mkB(as_R(x).finite()), a, dtype='b'))
    isinf = staticmethod(lambda a: elementwise(lambda x: mkB(as_R(x).inf()), a, dtype='b'))
    logical_and = staticmethod(lambda a, b: elementwise(lambda x, y: mkB(band(as_bool_el(x), as_bool_el(y))), a, b, dtype='b'))
    logical_or = staticmethod(lambda a, b: elementwise(lambda x, y: mkB(bor(as_bool_el(x), as_bool_el(y))), a, b, dtype='b'))
    logical_not = staticmethod(lambda a: elementwise(lambda x: mkB(bnot(as_bool_el(x))), a, dtype='b'))
    greater = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) > y, a, b, dtype='b'))
    less = staticmethod(lambda a, b: elementwise(lambda x, y: as_R(x) < y, a, b, dtype='b'))
    real = staticmethod(lambda a: elementwise(lambda x: x.re if isinstance(x, Cx) else x, a))
    imag = staticmethod(lambda a: elementwise(lambda x: x.im if isinstance(x, Cx) else R(Fraction(0)), a))

    @staticmethod
    def nan_to_num(a, nan=0.0, **k):
        nn = as_R(nan)
        return elementwise(lambda x: r_ite(as_R(x).n, nn, R(as_R(x).v, False, as_R(x).p, as_R(x).m)), a)

    @staticmethod
    def clip(a, lo, hi):
        return elementwise(lambda x, l, h: r_min(r_max(x, l), h), a, lo, hi)

    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            raise Unsupported('where(cond)')
        return elementwise(lambda c, x, y: r_ite(as_bool_el(c), x, y), c, a, b)

    @staticmethod
    def sum(a, axis=None, keepdims=False, **k):
        if isinstance(a, (R, N, B)):
            return a
        return reduce_('sum', asarray(a), axis, keepdims)
    @staticmethod
    def nansum(a, axis=None, keepdims=False, **k): return reduce_('sum', asarray(a), axis, keepdims, nanskip=True)
    @staticmethod
    def nanmean(a, axis=None, keepdims=False, **k): return reduce_('mean', asarray(a), axis, keepdims, nanskip=True)
    @staticmethod
    def mean(a, axis=None, keepdims=False, **k): return reduce_('mean', asarray(a), axis, keepdims)
    average = mean
    @staticmethod
    def any(a, axis=None, keepdims=False, **k):
        if isinstance(a, (bool, B)):
            return a
        return reduce_('any', asarray(a), axis, keepdims)
    @staticmethod
    def all(a, axis=None, keepdims=False, **k):
        if isinstance(a, (bool, B)):
            return a
        return reduce_('all', asarray(a), axis, keepdims)
    @staticmethod
    def max(a, axis=None, keepdims=False, **k): return reduce_('max', asarray(a), axis, keepdims)
    @staticmethod
    def min(a, axis=None, keepdims=False, **k): return reduce_('min', asarray(a), axis, keepdims)
    amax, amin = max, min
    cumsum = staticmethod(cumsum)
    repeat = staticmethod(repeat)
    tile = staticmethod(tile)
    concatenate = staticmethod(concatenate)
    reshape = staticmethod(lambda a, s: reshape(asarray(a), s))
    transpose = staticmethod(lambda a: transpose(asarray(a)))

    @staticmethod
    def broadcast_to(a, shape, **k):
        a = asarray(a)
        shape = tuple(shape) if not isinstance(shape, (int, N)) else (shape,)
        sn, sh = a.snap(), a.shape_
        return new(lambda idx: sn(bidx(idx, sh)), shape, a.buf.dtype)

    @staticmethod
    def flip(a, axis=None):
        a = asarray(a)
        if axis is None:
            key = tuple([slice(None, None, -1)] * a.ndim)
        else:
            key = tuple(slice(None, None, -1) if k == axis % a.ndim else slice(None) for k in range(a.ndim))
        return a[key]

    @staticmethod
    def shape(a): return asarray(a).shape
    @staticmethod
    def ndim(a): return asarray(a).ndim
    @staticmethod
    def size(a, axis=None):
        a = asarray(a)
        return a.size if axis is None else a.shape_[axis]

    @staticmethod
    def diff(a, axis=-1):
        a = asarray(a)
        axis = axis % a.ndim
        k1 = tuple(slice(1, None) if k == axis else slice(None) for k in range(a.ndim))
        k0 = tuple(slice(None, -1) if k == axis else slice(None) for k in range(a.ndim))
        return a[k1] - a[k0]

    @staticmethod
    def insert(a, pos, v, axis=None):
        a = asarray(a)
        if a.ndim == 1 and isinstance(pos, int) and pos == 0:
            return concatenate([asarray([v]), a])
        raise Unsupported('insert')

    @staticmethod
    def append(a, v): return concatenate([asarray(a), asarray(v) if is_arr(v) else asarray([v])])

    @staticmethod
    def isscalar(x): return not is_arr(x)

    @staticmethod
    def roll(a, n, axis=None):
        a = asarray(a)
        if axis is None:
            raise Unsupported('roll flat')
        axis = axis % a.ndim
        d = a.shape_[axis]
        sn = a.snap()
        n = int(n)
        if isinstance(d, int):
            return new(lambda idx: sn(idx[:axis] + ((idx[axis] - n) % d if isinstance(idx[axis], int) else roll_idx(idx[axis], n, d),) + idx[axis + 1:]), a.shape_, a.buf.dtype)
        if abs(n) != 1:
            raise Unsupported('roll')
        return new(lambda idx: sn(idx[:axis] + (roll_idx(idx[axis], n, d),) + idx[axis + 1:]), a.shape_, a.buf.dtype)

    @staticmethod
    def interp(x, xp, fp, **k):
        h = core.HOOKS.get('interp')
        if h:
            return h(x, xp, fp, **k)
        # numpy.interp for an increasing xp: the segment that holds x, constant outside
        if set(k) - {'left', 'right', 'period'} or k:
            raise Unsupported('np.interp keywords')
        xp, fp = asarray(xp), asarray(fp)
        n = xp.shape_[0]
        sx, sf = xp.snap(), fp.snap()

        def one(v):
            v = as_R(v)
            first, last = as_R(sx((0,))), as_R(sx((n - 1,)))
            def seg(i):
                j = i[0]
                a, b = as_R(sx((j,))), as_R(sx((j + 1,)))
                fa, fb = as_R(sf((j,))), as_R(sf((j + 1,)))
                return r_ite(band(r_le(a, v), r_lt(v, b)), fa + (fb - fa) * (v - a) / (b - a), R(Fraction(0)))
            if isinstance(n, int):
                t = R(Fraction(0))
                for j in range(n - 1):
                    t = t + seg((j,))
            else:
                t = reduce_elems('sum', seg, [n - 1])
            return r_ite(r_lt(v, first), as_R(sf((0,))), r_ite(r_le(last, v), as_R(sf((n - 1,))), t))
        if is_arr(x):
            return elementwise(one, x)
        return one(x)


def _z_el(x):
    return as_bool(as_R(x) == 0)


def roll_idx(i, n, d):
    j = i - n
    if n > 0:
        return mkN(z3.If(zint(j) < 0, zint(j) + zint(d), zint(j)))
    return mkN(z3.If(zint(j) >= zint(d), zint(j) - zint(d), zint(j)))


core.HOOKS = {}


class Matrix(ndarray):
    """np.matrix: only what rotate() uses (left factor of a product)"""
    def __init__(self, a):
        ndarray.__init__(self, a.buf, a.fwd, a.inv, a.shape_)

    def __mul__(self, o): return matmul(self, o)
    def __rmul__(self, o): return matmul(asarray(o), self)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    sa, sb = a.snap(), b.snap()
    k = a.shape_[1]
    return new(lambda idx: reduce_elems('sum', lambda j: as_R(sa((idx[0], j[0]))) * sb((j[0], idx[1])), [k]), (a.shape_[0], b.shape_[1]))


np = NP()
