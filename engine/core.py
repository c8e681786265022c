"""Symbolic core: terms, extended reals, path context, reduction atoms, axiom
instantiation and obligation discharge.

Elements of arrays are *extended reals*: a mathematical real plus three flags
(nan / +inf / -inf).  Machine rounding is not modelled (stated assumption).
"""
import sys, time, os, subprocess, tempfile
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import algebra

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """construct outside the verifier's reach (falls back to bounded stand-in)"""


class PathEnd(Exception):
    """this path is finished (infeasible or loop body done)"""


# --------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.reset()
        self.feas_timeout = 3000
        self.stats = dict(queries=0, time=0.0)

    def reset(self, prefix=()):
        self.prefix = list(prefix)
        self.decisions = []      # list of (term,bool)
        self.hyps = []           # assumed facts (z3 Bool)
        self.pending = []        # alternative prefixes
        self.counter = 0
        self.skol = []           # list of (term, dim)
        self.obligs = []
        self.trace = None
        self.nofork = 0
        self.temp = 0
        self.substack = []       # sub-exploration stack
        self.perm = []           # facts that hold on the whole path
        self.ranges = {}         # range facts of fresh index variables
        self.rdims = {}
        self.settled = {}
        self.settle_left = 40.0

    def fresh(self, base, sort='R'):
        self.counter += 1
        nm = '%s!%d' % (base, self.counter)
        return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[sort](nm)

    def assume(self, b):
        b = as_bool(b)
        if b is True:
            return
        self.hyps.append(z3.BoolVal(False) if b is False else b)
        if not self.substack and not self.temp:
            self.perm.append(self.hyps[-1])

    def index(self, v, lo, hi):
        """fresh index variable v ranges over lo <= v < hi wherever it occurs"""
        self.ranges[v.get_id()] = z3.And(lo <= v, v < hi)
        self.rdims[v.get_id()] = (v, hi)

    def pathcond(self):
        return list(self.hyps)

    def decide(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.substack:
            return self.substack[-1].decide(term)
        n = len(self.decisions)
        # already implied by an identical decision?
        for t, v in self.decisions:
            if t.eq(term):
                return v
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            ft = feasible(self.hyps + [term], self.feas_timeout)
            ff = feasible(self.hyps + [z3.Not(term)], self.feas_timeout)
            if ft and ff and has_sum(self.hyps + [term]):
                # the arithmetic of sums may still exclude one side
                sk = self.skol
                if prove(self.hyps, z3.Not(term), timeout=1500, cheap=True).status == 'proved':
                    ft = False
                elif prove(self.hyps, term, timeout=1500, cheap=True).status == 'proved':
                    ff = False
                self.skol = sk
            if ft and ff:
                v = True
                self.pending.append([d[1] for d in self.decisions] + [False])
            elif ft:
                v = True
            elif ff:
                v = False
            else:
                raise PathEnd('infeasible')
        self.decisions.append((term, v))
        self.hyps.append(term if v else z3.Not(term))
        if not self.temp:
            self.perm.append(self.hyps[-1])
        return v


ctx = Ctx()


# --------------------------------------------------------------- booleans
def as_bool(b):
    if isinstance(b, B):
        b = b.v
    if isinstance(b, (bool,)):
        return b
    if isinstance(b, z3.BoolRef):
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return b
    if isinstance(b, int):
        return bool(b)
    try:
        import numpy
        if isinstance(b, numpy.bool_):
            return bool(b)
    except ImportError:
        pass
    raise Unsupported('as_bool %r' % type(b))


def bnot(a):
    a = as_bool(a)
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        x = as_bool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return z3.If(c, a, b)


def zb(x):
    x = as_bool(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


class B:
    """symbolic boolean"""
    __slots__ = ('v',)
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        v = as_bool(self.v)
        if isinstance(v, bool):
            return v
        return ctx.decide(v)

    def _l(self, o, f):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        if isinstance(o, (B, bool, z3.BoolRef)):
            return mkB(f(as_bool(self.v), as_bool(o)))
        return NotImplemented

    def __and__(self, o): return self._l(o, band)
    def __or__(self, o): return self._l(o, bor)
    __rand__ = __and__
    __ror__ = __or__
    def __xor__(self, o): return self._l(o, lambda a, b: bite(a, bnot(b), b))
    def __invert__(self): return mkB(bnot(self.v))
    def num(self): return R(ite_v(as_bool(self.v), Fraction(1), Fraction(0)))
    def __mul__(self, o):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        if isinstance(o, (B, bool)):
            return mkB(band(self.v, o))
        return self.num() * o
    __rmul__ = __mul__
    def __add__(self, o):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        return self.num() + (o.num() if isinstance(o, B) else o)
    __radd__ = __add__
    def __sub__(self, o):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        return self.num() - (o.num() if isinstance(o, B) else o)
    def __rsub__(self, o): return o - self.num()
    def __truediv__(self, o): return self.num() / o
    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            return mkB(bite(as_bool(self.v), as_bool(o), bnot(o)))
        return self.num() == o
    def __ne__(self, o): return ~(self == o)
    __hash__ = object.__hash__
    def __repr__(self): return 'B(%s)' % (self.v,)


def mkB(v):
    v = as_bool(v)
    return v if isinstance(v, bool) else B(v)


# --------------------------------------------------------------- ints
class N:
    """symbolic integer (dimensions, loop indices)"""
    __slots__ = ('v',)
    __array_priority__ = 1000

    def __init__(self, v):
        self.v = v

    def __hash__(self): return hash(('N', self.v.get_id()))

    def _b(self, o, f, r=None):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        if isinstance(o, B):
            o = o.num()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, N):
            return mkN(f(self.v, o.v))
        if isinstance(o, int) or type(o).__name__ in ('int64', 'int32'):
            return mkN(f(self.v, z3.IntVal(int(o))))
        if isinstance(o, (float, R, Fraction)):
            return None
        return NotImplemented

    def _mix(self, o, f, name):
        r = self._b(o, f)
        if r is None:
            return getattr(self.real(), name)(o)
        return r

    def real(self): return R(z3.ToReal(self.v))
    def __add__(self, o): return self._mix(o, lambda a, b: a + b, '__add__')
    def __radd__(self, o): return self._mix(o, lambda a, b: b + a, '__radd__')
    def __sub__(self, o): return self._mix(o, lambda a, b: a - b, '__sub__')
    def __rsub__(self, o): return self._mix(o, lambda a, b: b - a, '__rsub__')
    def __mul__(self, o): return self._mix(o, lambda a, b: a * b, '__mul__')
    def __rmul__(self, o): return self._mix(o, lambda a, b: b * a, '__rmul__')
    def __neg__(self): return mkN(-self.v)
    def __abs__(self): return mkN(z3.If(self.v >= 0, self.v, -self.v))
    def __truediv__(self, o): return self.real() / o
    def __rtruediv__(self, o): return o / self.real()
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkN(self.v / z3.IntVal(o))
        raise Unsupported('int floordiv')
    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkN(self.v % z3.IntVal(o))
        raise Unsupported('int mod')
    def __pow__(self, o): return self.real() ** o
    def __rpow__(self, o): return as_R(o) ** self.real()

    def _c(self, o, f, name):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        if isinstance(o, N):
            return mkB(z3.simplify(f(self.v, o.v)))
        if isinstance(o, int) or type(o).__name__ in ('int64', 'int32'):
            return mkB(z3.simplify(f(self.v, z3.IntVal(int(o)))))
        if isinstance(o, (float, R, Fraction)):
            return getattr(self.real(), name)(o)
        return NotImplemented

    def __lt__(self, o): return self._c(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._c(o, lambda a, b: a == b, '__eq__')
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return self._c(o, lambda a, b: a != b, '__ne__')
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return 'N(%s)' % self.v
    def __index__(self): raise Unsupported('symbolic int used as a concrete index')
    __int__ = __index__


def mkN(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return N(t)


def zint(x):
    if isinstance(x, N):
        return x.v
    if isinstance(x, (int,)) or type(x).__name__ in ('int64', 'int32'):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('zint %r' % (x,))


# --------------------------------------------------------------- reals
def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if x == x and abs(x) < 1e6:
        q = Fraction(x).limit_denominator(1000)
        if float(q) == x:
            return q     # a quotient of small integers folded by Python (1/3)
    return Fraction('%.14g' % x)   # decimal reading of a float literal; rounding of constants folded by Python dropped


def zr(v):
    """python number / z3 term -> z3 real"""
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (int, float)):
        return z3.RealVal(frac(v))
    return v


def isnum(v):
    return isinstance(v, Fraction)


def ite_v(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isnum(a) and isnum(b) and a == b:
        return a
    a_, b_ = zr(a), zr(b)
    if a_.eq(b_):
        return a
    return z3.If(c, a_, b_)


DIMS = set()
POS_CONST = {}    # decl name -> 'pos' / 'nonneg'


def sign_hint(t, depth=0):
    """cheap syntactic sign: 'pos', 'nonneg' or None"""
    if isnum(t):
        return 'pos' if t > 0 else ('nonneg' if t == 0 else None)
    if depth > 12:
        return None
    if z3.is_rational_value(t) or z3.is_int_value(t):
        f = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
        return 'pos' if f > 0 else ('nonneg' if f == 0 else None)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if t.num_args() and nm in ATOMS and ATOMS[nm].kind == 'sum':
                a, bounds, params = atom_parts(t)
                h = sign_hint(atom_body_at(t, [z3.Int('k$h')]), depth + 1)
                lo, hi = bounds[0]
                if h == 'pos' and not (z3.is_int_value(lo) and lo.as_long() == 0 and hi.get_id() in DIMS):
                    h = 'nonneg'
                return h
            if nm == '$sqrt':
                return sign_hint(t.arg(0), depth + 1)
            if nm == '$exp':
                return 'pos'
            return POS_CONST.get(nm)
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            ch = t.children()
            if len(ch) == 2 and ch[0].eq(ch[1]) and k == z3.Z3_OP_MUL:
                return 'pos' if sign_hint(ch[0], depth + 1) == 'pos' else 'nonneg'
            hs = [sign_hint(c, depth + 1) for c in ch]
            if any(h is None for h in hs):
                return None
            return 'pos' if all(h == 'pos' for h in hs) else 'nonneg'
        if k == z3.Z3_OP_ADD:
            hs = [sign_hint(c, depth + 1) for c in t.children()]
            if any(h is None for h in hs):
                return None
            return 'pos' if any(h == 'pos' for h in hs) else 'nonneg'
        if k == z3.Z3_OP_ITE:
            a, b = sign_hint(t.arg(1), depth + 1), sign_hint(t.arg(2), depth + 1)
            # max/min pattern: if(a<=b, ...) handled conservatively
            if a is None or b is None:
                return None
            return 'pos' if a == b == 'pos' else 'nonneg'
        if k == z3.Z3_OP_TO_REAL:
            return sign_hint(t.arg(0), depth + 1)
    return None


class R:
    """symbolic extended real"""
    __slots__ = ('v', 'n', 'p', 'm')
    __array_priority__ = 1000

    def __init__(self, v, n=False, p=False, m=False):
        self.v, self.n, self.p, self.m = v, n, p, m

    # flags
    def fin(self):
        return self.n is False and self.p is False and self.m is False

    def finite(self):
        return bnot(bor(self.n, self.p, self.m))

    def inf(self):
        return bor(self.p, self.m)

    def __repr__(self):
        return 'R(%s%s)' % (self.v, '' if self.fin() else '; nan=%s +inf=%s -inf=%s' % (self.n, self.p, self.m))

    __hash__ = object.__hash__

    def _co(self, o):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        return as_R(o)

    def __add__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_add(self, o)
    def __radd__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_add(o, self)
    def __sub__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_add(self, r_neg(o))
    def __rsub__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_add(o, r_neg(self))
    def __mul__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_mul(self, o)
    def __rmul__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_mul(o, self)
    def __truediv__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_div(self, o)
    def __rtruediv__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_div(o, self)
    def __floordiv__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_floor(r_div(self, o))
    def __rfloordiv__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else r_floor(r_div(o, self))
    def __mod__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return self - o * r_floor(r_div(self, o))
    def __rmod__(self, o): return as_R(o) % self
    def __neg__(self): return r_neg(self)
    def __pos__(self): return self
    def __abs__(self): return r_abs(self)
    def __pow__(self, o):
        o2 = self._co(o)
        return o2 if o2 is NotImplemented else r_pow(self, o2)
    def __rpow__(self, o):
        o2 = self._co(o)
        return o2 if o2 is NotImplemented else r_pow(o2, self)
    def __lt__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else mkB(r_lt(self, o))
    def __gt__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else mkB(r_lt(o, self))
    def __le__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else mkB(r_le(self, o))
    def __ge__(self, o):
        o = self._co(o)
        return o if o is NotImplemented else mkB(r_le(o, self))
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        o = self._co(o)
        return o if o is NotImplemented else mkB(r_eq(self, o))
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        o = self._co(o)
        return o if o is NotImplemented else mkB(bnot(r_eq(self, o)))
    def __bool__(self): return bool(self != 0)
    def __int__(self): raise Unsupported('int() of a symbolic real')
    def __float__(self):
        if isnum(self.v) and self.fin():
            return float(self.v)
        raise Unsupported('float() of a symbolic real')
    # numpy scalar look-alikes
    def copy(self): return self
    @property
    def ndim(self): return 0
    @property
    def shape(self): return ()
    def min(self, **k): return self
    def max(self, **k): return self
    def sum(self, **k): return self
    def mean(self, **k): return self
    @property
    def real(self): return self
    @property
    def imag(self): return R(Fraction(0))
    def item(self): return self
    def __round__(self, n=None): raise Unsupported('round')


class Cx:
    """complex element (masks)"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = as_R(re), as_R(im)


def as_R(x):
    if isinstance(x, R):
        return x
    if isinstance(x, N):
        return x.real()
    if isinstance(x, B):
        return x.num()
    if isinstance(x, bool):
        return R(Fraction(int(x)))
    if isinstance(x, Fraction):
        return R(x)
    if isinstance(x, int):
        return R(Fraction(x))
    if isinstance(x, z3.ArithRef):
        return R(z3.ToReal(x) if x.is_int() else x)
    if hasattr(x, 'dtype') and hasattr(x, 'item') and not hasattr(x, '_is_arr'):
        x = x.item()
        return as_R(x)
    if isinstance(x, float):
        if x != x:
            return R(Fraction(0), n=True)
        if x == float('inf'):
            return R(Fraction(0), p=True)
        if x == float('-inf'):
            return R(Fraction(0), m=True)
        return R(frac(x))
    raise Unsupported('as_R %r' % type(x))


def v_add(a, b):
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    return zr(a) + zr(b)


def v_mul(a, b):
    if isnum(a) and isnum(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return zr(a) * zr(b)


def v_neg(a):
    return -a if isnum(a) else -zr(a)


def v_lt(a, b):
    if isnum(a) and isnum(b):
        return a < b
    return zr(a) < zr(b)


def v_le(a, b):
    if isnum(a) and isnum(b):
        return a <= b
    return zr(a) <= zr(b)


def v_eq(a, b):
    if isnum(a) and isnum(b):
        return a == b
    a, b = zr(a), zr(b)
    if a.eq(b):
        return True
    return a == b


def r_neg(a):
    return R(v_neg(a.v), a.n, a.m, a.p)


def r_add(a, b):
    v = v_add(a.v, b.v)
    if a.fin() and b.fin():
        return R(v)
    n = bor(a.n, b.n, band(a.p, b.m), band(a.m, b.p))
    return R(v, n, band(bnot(n), bor(a.p, b.p)), band(bnot(n), bor(a.m, b.m)))


def _gt0(a):
    return bor(a.p, band(a.finite(), v_lt(Fraction(0), a.v)))


def _lt0(a):
    return bor(a.m, band(a.finite(), v_lt(a.v, Fraction(0))))


def _z(a):
    return band(a.finite(), v_eq(a.v, Fraction(0)))


def r_mul(a, b):
    v = v_mul(a.v, b.v)
    if a.fin() and b.fin():
        return R(v)
    n = bor(a.n, b.n, band(a.inf(), _z(b)), band(_z(a), b.inf()))
    anyinf = bor(a.inf(), b.inf())
    same = bor(band(_gt0(a), _gt0(b)), band(_lt0(a), _lt0(b)))
    opp = bor(band(_gt0(a), _lt0(b)), band(_lt0(a), _gt0(b)))
    return R(v, n, band(bnot(n), anyinf, same), band(bnot(n), anyinf, opp))


def r_div(a, b):
    if isnum(b.v) and b.fin() and b.v != 0:
        if isnum(a.v):
            v = a.v / b.v
        else:
            v = zr(a.v) / zr(b.v)
        if a.fin():
            return R(v)
        return R(v, a.n, a.p if b.v > 0 else a.m, a.m if b.v > 0 else a.p)
    nz = sign_hint(b.v) == 'pos' or (isnum(b.v) and b.v != 0)
    if a.fin() and b.fin() and nz:
        if isnum(a.v) and a.v == 0:
            return R(Fraction(0))
        return R(zr(a.v) / zr(b.v))
    bz = False if (nz and b.fin()) else (False if nz else settle(band(b.finite(), v_eq(b.v, Fraction(0)))))
    if bz is False and a.fin() and b.fin() and not (isnum(b.v) and b.v == 0):
        return R(Fraction(0)) if isnum(a.v) and a.v == 0 else R(zr(a.v) / zr(b.v))
    n = bor(a.n, b.n, band(a.inf(), b.inf()), band(bz, _z(a)))
    if isnum(b.v) and b.v == 0:
        v = Fraction(0)
    elif isnum(a.v) and isnum(b.v):
        v = a.v / b.v
    elif isnum(a.v) and a.v == 0:
        v = Fraction(0)
    else:
        v = zr(a.v) / zr(b.v)
    v = ite_v(b.inf(), Fraction(0), v)
    # zeros are taken as +0
    p = bor(band(bz, _gt0(a)), band(a.p, bor(_gt0(b), bz)), band(a.m, _lt0(b)))
    m = bor(band(bz, _lt0(a)), band(a.m, bor(_gt0(b), bz)), band(a.p, _lt0(b)))
    return R(v, n, band(bnot(n), p), band(bnot(n), m))


def settled_false(b):
    """is the boolean b excluded by the standing hypotheses of this path?"""
    b = as_bool(b)
    if isinstance(b, bool):
        return b is False
    if ctx.settle_left <= 0 or not ctx.perm:
        return False
    k = b.get_id()
    r = ctx.settled.get(k)
    if r is None:
        t0 = time.time()
        vs = const_ids(b)
        hy = ctx.perm + [f for i, f in ctx.ranges.items() if i in vs]
        sv = ctx.skol
        ctx.skol = [(t, d) for t, d in ctx.rdims.values() if t.get_id() in vs]
        try:
            res = prove(hy, z3.Not(b), timeout=700, cheap=True).status == 'proved'
        finally:
            ctx.skol = sv
        r = (res, b)
        ctx.settled[k] = r
        ctx.settle_left -= time.time() - t0
    return r[0]


def settle(b):
    return False if settled_false(b) else b


def r_lt(a, b):
    if a.fin() and b.fin():
        return v_lt(a.v, b.v)
    f = band(a.finite(), b.finite(), v_lt(a.v, b.v))
    return band(bnot(a.n), bnot(b.n), bor(band(a.m, bnot(b.m)), band(b.p, bnot(a.p)), f))


def r_le(a, b):
    if a.fin() and b.fin():
        return v_le(a.v, b.v)
    f = band(a.finite(), b.finite(), v_le(a.v, b.v))
    return band(bnot(a.n), bnot(b.n), bor(a.m, b.p, f))


def r_eq(a, b):
    if a.fin() and b.fin():
        return v_eq(a.v, b.v)
    f = band(a.finite(), b.finite(), v_eq(a.v, b.v))
    return band(bnot(a.n), bnot(b.n), bor(band(a.p, b.p), band(a.m, b.m), f))


def r_ite(c, a, b):
    c = as_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return mkB(bite(c, as_bool(a), as_bool(b)))
    if isinstance(a, Cx) or isinstance(b, Cx):
        return Cx(r_ite(c, a.re, b.re), r_ite(c, a.im, b.im))
    if isinstance(a, N) and isinstance(b, (N, int)) or isinstance(a, int) and isinstance(b, N):
        return mkN(z3.If(c, zint(a), zint(b)))
    a, b = as_R(a), as_R(b)
    if not a.fin():
        a = R(a.v, *[never(c, x) for x in (a.n, a.p, a.m)])
    if not b.fin():
        b = R(b.v, *[never(bnot(c), x) for x in (b.n, b.p, b.m)])
    return R(ite_v(c, a.v, b.v), bite(c, a.n, b.n), bite(c, a.p, b.p), bite(c, a.m, b.m))


_NEVER = {}


def never(c, flag):
    """the flag, or False when condition c alone excludes it"""
    if isinstance(flag, bool):
        return flag
    k = (c.get_id(), flag.get_id())
    r = _NEVER.get(k)
    if r is None:
        s = z3.Solver()
        s.set('timeout', 60)
        s.add(c, flag)
        r = (s.check() == z3.unsat, c, flag)
        _NEVER[k] = r
    return False if r[0] else flag


def r_max(a, b):
    a, b = as_R(a), as_R(b)
    if a.fin() and b.fin():
        if isnum(a.v) and isnum(b.v):
            return a if a.v >= b.v else b
        return R(ite_v(v_le(b.v, a.v), a.v, b.v))
    n = bor(a.n, b.n)
    r = r_ite(r_le(b, a), a, b)
    return R(r.v, n, band(bnot(n), r.p), band(bnot(n), r.m))


def r_min(a, b):
    return r_neg(r_max(r_neg(as_R(a)), r_neg(as_R(b))))


def r_abs(a):
    if isnum(a.v):
        v = abs(a.v)
    elif sign_hint(a.v):
        v = a.v
    else:
        v = z3.If(a.v >= 0, a.v, -a.v)
    return R(v, a.n, bor(a.p, a.m), False)


_UF = {}


def uf(name, *sorts):
    k = (name, tuple(str(s) for s in sorts))
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SPECIAL = {}    # name -> axiom instantiator(app) -> list of z3 facts


def special(name, ar=1):
    f = uf('$' + name, *([RS] * (ar + 1)))

    def deco(ax):
        SPECIAL['$' + name] = ax
        return ax
    return f, deco


SQRT, _d = special('sqrt')
@_d
def _(t):
    x = t.arg(0)
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0)]

EXP, _d = special('exp')
@_d
def _(t):
    x = t.arg(0)
    return [t > 0, z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1), z3.Implies(x < 0, t < 1),
            z3.Implies(x > 0, t > 1)]

LOG, _d = special('log')
@_d
def _(t):
    x = t.arg(0)
    return [z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0), z3.Implies(x == 1, t == 0)]

SIN, _d = special('sin')
@_d
def _(t):
    x = t.arg(0)
    c = COS(x)
    return [t * t + c * c == 1, t <= 1, t >= -1, z3.Implies(x == 0, t == 0)] + trig_shift(t, x, True)

COS, _d = special('cos')
@_d
def _(t):
    x = t.arg(0)
    s = SIN(x)
    return [t * t + s * s == 1, t <= 1, t >= -1, z3.Implies(x == 0, t == 1)] + trig_shift(t, x, False)


PI_FRAC = Fraction(str(3.141592653589793))


def trig_shift(t, x, sine):
    """quadrant relations: argument = rest + k * pi/2 (the double pi stands for pi)"""
    x = z3.simplify(x, som=True)
    k, rest = None, None
    if z3.is_rational_value(x):
        k, rest = x.as_fraction() / (PI_FRAC / 2), z3.RealVal(0)
    elif z3.is_add(x):
        for i in range(x.num_args()):
            if z3.is_rational_value(x.arg(i)):
                k = x.arg(i).as_fraction() / (PI_FRAC / 2)
                rest = z3.simplify(x - x.arg(i), som=True)
    if k is None:
        return []
    if abs(k - round(k)) > Fraction(1, 10 ** 12) or round(k) == 0:
        return []
    k = round(k) % 4
    if z3.is_rational_value(x):
        s, c = z3.RealVal(0), z3.RealVal(1)
    else:
        s, c = SIN(rest), COS(rest)
    return [t == ([s, c, -s, -c] if sine else [c, -s, -c, s])[k]]

TAN, _d = special('tan')
@_d
def _(t):
    x = t.arg(0)
    return [z3.Implies(z3.And(x > 0, x < z3.Q(157, 100)), t > 0), z3.Implies(x == 0, t == 0),
            z3.Implies(z3.And(x < 0, x > -z3.Q(157, 100)), t < 0)]

TANH, _d = special('tanh')
@_d
def _(t):
    x = t.arg(0)
    return [t < 1, t > -1, z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0), z3.Implies(x == 0, t == 0)]

ATAN, _d = special('arctan')
@_d
def _(t):
    x = t.arg(0)
    h = z3.Q(15708, 10000)
    return [t < h, t > -h, z3.Implies(x > 0, t > 0), z3.Implies(x < 0, t < 0), z3.Implies(x == 0, t == 0), COS(t) > 0, SIN(t) == x * COS(t)]

ATAN2, _d = special('arctan2', 2)
@_d
def _(t):
    y, x = t.arg(0), t.arg(1)
    h = SQRT(x * x + y * y)
    return [h * COS(t) == x, h * SIN(t) == y]

POW, _d = special('pow', 2)
@_d
def _(t):
    x = t.arg(0)
    return [z3.Implies(x > 0, t > 0), z3.Implies(x == 0, t == 0), z3.Implies(x == 1, t == 1)]

MONO = {'$exp': 1, '$log': 'pos', '$tanh': 1, '$arctan': 1, '$sqrt': 'nonneg'}


def r_floor(a):
    v = Fraction(a.v.__floor__()) if isnum(a.v) else z3.ToReal(z3.ToInt(a.v))
    return R(v, a.n, a.p, a.m)


def r_ceil(a):
    return r_neg(r_floor(r_neg(a)))


def exact_sqrt(f):
    import math
    if f < 0:
        return None
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)


def r_sqrt(a):
    a = as_R(a)
    if isnum(a.v):
        e = exact_sqrt(a.v)
        v = e if e is not None else SQRT(zr(a.v))
        neg = a.v < 0
    else:
        v = SQRT(a.v)
        s = sign_hint(a.v)
        if s:
            neg = False
            POS_HINT[v.get_id()] = (v, s)
        else:
            neg = settle(a.v < 0)
    return R(v, bor(a.n, a.m, band(a.finite(), neg)), a.p, False)


POS_HINT = {}


def _leading_negative(x):
    x = z3.simplify(x, som=True)
    if z3.is_add(x):
        x = min(x.children(), key=lambda c: (z3.is_rational_value(c), _absid(c)))
    if z3.is_rational_value(x):
        return x.as_fraction() < 0
    return z3.is_mul(x) and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() < 0


def _absid(c):
    if z3.is_mul(c) and z3.is_rational_value(c.arg(0)):
        k = c.children()[1:]
        return tuple(sorted(str(q) for q in k))
    return (str(c),)


ODD = {}


def r_fun(f, a, pos=False):
    a = as_R(a)
    par = ODD.get(f)
    if par is not None and not isnum(a.v) and _leading_negative(zr(a.v)):
        r = r_fun0(f, r_neg(a), pos)
        return r_neg(r) if par == 'odd' else r
    return r_fun0(f, a, pos)


def r_fun0(f, a, pos=False):
    a = as_R(a)
    if not a.fin():
        # only exp has useful infinite behaviour
        if f is EXP:
            return R(ite_v(a.m, Fraction(0), EXP(zr(a.v))), a.n, a.p, False)
        if f is TANH:
            return R(ite_v(a.p, Fraction(1), ite_v(a.m, Fraction(-1), TANH(zr(a.v)))), a.n)
        return R(f(zr(a.v)), bor(a.n, a.p, a.m))
    return R(f(zr(a.v)))


ODD.update({SIN: 'odd', COS: 'even', TAN: 'odd', TANH: 'odd'})


def r_log(a):
    a = as_R(a)
    if isnum(a.v) and a.fin() and a.v == 1:
        return R(Fraction(0))
    s = sign_hint(a.v)
    v = LOG(zr(a.v))
    if s == 'pos':
        return R(v, a.n, a.p, False)
    if a.fin() and settled_false(v_le(a.v, Fraction(0))):
        return R(v)
    neg = False if s else settle(band(a.finite(), v_lt(a.v, Fraction(0))))
    return R(v, bor(a.n, a.m, neg), a.p, band(a.finite(), v_eq(a.v, Fraction(0))))


def r_pow(a, b):
    if isnum(b.v) and b.fin():
        if b.v.denominator == 1 and 0 <= b.v <= 8:
            k = int(b.v)
            if k == 0:
                return R(Fraction(1))
            r = a
            for _ in range(k - 1):
                r = r_mul(r, a)
            return r
        if b.v.denominator == 1 and -8 <= b.v < 0:
            return r_div(R(Fraction(1)), r_pow(a, R(-b.v)))
        if b.v == Fraction(1, 2):
            return r_sqrt(a)
        if b.v == Fraction(-1, 2):
            return r_div(R(Fraction(1)), r_sqrt(a))
    if isnum(a.v) and isnum(b.v) and a.fin() and b.fin() and a.v > 0:
        v = POW(zr(a.v), zr(b.v))
        return R(v)
    s = sign_hint(a.v)
    v = POW(zr(a.v), zr(b.v))
    if not b.fin():
        raise Unsupported('pow with infinite exponent')
    if a.fin():
        if s == 'pos' or (not isnum(a.v) and settled_false(v_le(a.v, Fraction(0)))):
            return R(v)
        neg = False if s else settle(v_lt(a.v, Fraction(0)))
        # 0**negative = +inf
        zp = band(v_eq(a.v, Fraction(0)), v_lt(b.v, Fraction(0)))
        return R(v, neg, band(bnot(neg), zp), False)
    neg = bor(a.n, a.m, False if s else band(a.finite(), v_lt(a.v, Fraction(0))))
    zneg = v_lt(b.v, Fraction(0))
    zp = band(a.finite(), v_eq(a.v, Fraction(0)), zneg)
    v = ite_v(band(a.p, zneg), Fraction(0), v)
    return R(v, neg, band(bnot(neg), bor(zp, band(a.p, bnot(zneg)))), False)


def r_isnan(a):
    return mkB(as_R(a).n)


# --------------------------------------------------------------- z3 helpers
_VARS = {}


def const_ids(t):
    """ids of the 0-ary uninterpreted constants in t (memoised)"""
    i = t.get_id()
    r = _VARS.get(i)
    if r is not None:
        return r[0]
    st = [(t, False)]
    while st:
        x, done = st.pop()
        xi = x.get_id()
        if xi in _VARS:
            continue
        _, kids, nm = tinfo(x, xi)
        if not kids:
            _VARS[xi] = (frozenset((xi,)) if nm is not None else frozenset(), x)
        elif done:
            u = frozenset()
            for k in kids:
                q = _VARS[k.get_id()][0]
                u = q if not u else (u if q <= u else u | q)
            _VARS[xi] = (u, x)
        else:
            st.append((x, True))
            for k in kids:
                if k.get_id() not in _VARS:
                    st.append((k, False))
    return _VARS[i][0]


def contains(t, v, _c=None):
    """does the z3 term t contain constant v?"""
    return v.get_id() in const_ids(t)


def contains_any(t, vids):
    c = const_ids(t)
    return any(v in c for v in vids)


# --------------------------------------------------------------- reductions
class Atom:
    """a quantified reduction: sum / any / max over bound integer variables,
    abstracted as an uninterpreted function of its free sub-terms."""
    def __init__(self, kind, decl, pvars, bvar, body, nb):
        self.kind, self.decl, self.pvars, self.bvar, self.body, self.nb = kind, decl, pvars, bvar, body, nb


ATOMS = {}       # decl name -> Atom
_ATOM_BY_KEY = {}


def abstract(body, bvars, base):
    """replace bvars by canonical constants and maximal bvar-free subterms by
    placeholders; returns (key, canonical body, params list, placeholder list)"""
    vids = {b.get_id() for b in bvars}
    cb = [z3.Const('$b%d' % i, b.sort()) for i, b in enumerate(bvars)]
    params, pl, cache = [], [], {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        if i in vids:
            for b, c in zip(bvars, cb):
                if b.get_id() == i:
                    r = c
        elif not contains_any(t, vids):
            if z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                r = t
            else:
                r = None
                for p, q in zip(params, pl):
                    if p.eq(t):
                        r = q
                if r is None:
                    r = z3.Const('$p%d_%s' % (len(params), t.sort().name()), t.sort())
                    params.append(t)
                    pl.append(r)
        else:
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch)
        cache[i] = r
        return r
    cbody = go(body)
    key = (base, cbody.sexpr())
    return key, cbody, params, pl, cb


def mk_atom(kind, bvars, bounds, body):
    """bounds: list of (lo,hi) z3 ints; returns z3 app"""
    key, cbody, params, pl, cb = abstract(body, bvars, kind)
    ent = _ATOM_BY_KEY.get(key)
    if ent is None:
        nm = '$%s%d' % (kind, len(_ATOM_BY_KEY))
        rs = {'sum': RS, 'any': BS, 'max': RS}[kind]
        decl = z3.Function(nm, *([IS] * (2 * len(bvars)) + [p.sort() for p in params] + [rs]))
        ent = Atom(kind, decl, pl, cb, cbody, len(bvars))
        _ATOM_BY_KEY[key] = ent
        ATOMS[nm] = ent
    args = []
    for lo, hi in bounds:
        args += [lo, hi]
    return ent.decl(*(args + params))


_PARTS = {}


def atom_parts(app):
    i = app.get_id()
    r = _PARTS.get(i)
    if r is None:
        a = ATOMS[app.decl().name()]
        ch = app.children()
        bounds = [(ch[2 * i], ch[2 * i + 1]) for i in range(a.nb)]
        params = ch[2 * a.nb:]
        r = (a, bounds, params, app)
        _PARTS[i] = r
    return r[:3]


def atom_body_at(app, idx):
    a, bounds, params = atom_parts(app)
    sub = list(zip(a.pvars, params)) + list(zip(a.bvar, idx))
    return z3.substitute(a.body, *sub) if sub else a.body


_LIN = {}


def lin(t, v, vid, depth=0):
    """t as a list of (coef free of v, kernel term or None for 1)"""
    k = (t.get_id(), vid)
    r = _LIN.get(k)
    if r is None:
        r = (_lin(t, v, vid, depth), t, v)
        _LIN[k] = r
    return r[0]


def _lin(t, v, vid, depth=0):
    if not contains(t, v):
        return [(t, None)]
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        out = []
        for c in ch:
            out += lin(c, v, vid, depth + 1)
        return out
    if k == z3.Z3_OP_SUB:
        out = lin(ch[0], v, vid, depth + 1)
        for c in ch[1:]:
            out += [(-a, b) for a, b in lin(c, v, vid, depth + 1)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(-a, b) for a, b in lin(ch[0], v, vid, depth + 1)]
    if k == z3.Z3_OP_MUL:
        acc = [(z3.RealVal(1), [])]
        for c in ch:
            lc = lin(c, v, vid, depth + 1)
            if len(acc) * len(lc) > 64:
                return [(z3.RealVal(1), t)]
            acc = [(a1 * a2, k1 + ([k2] if k2 is not None else [])) for a1, k1 in acc for a2, k2 in lc]
        return [(a, mkprod(ks)) for a, ks in acc]
    if k == z3.Z3_OP_DIV:
        if not contains(ch[1], v):
            return [(a / ch[1], b) for a, b in lin(ch[0], v, vid, depth + 1)]
        return [(a, (b if b is not None else z3.RealVal(1)) / ch[1]) for a, b in lin(ch[0], v, vid, depth + 1)]
    if k == z3.Z3_OP_ITE:
        c, x, y = ch
        if not contains(c, v):
            return [(z3.If(c, a, z3.RealVal(0)), b) for a, b in lin(x, v, vid, depth + 1)] + \
                   [(z3.If(c, z3.RealVal(0), a), b) for a, b in lin(y, v, vid, depth + 1)]
        one, zero = z3.RealVal(1), z3.RealVal(0)
        if z3.is_not(c):
            c, x, y = c.arg(0), y, x
        out = []
        for a, b in lin(x, v, vid, depth + 1):
            out.append((a, z3.If(c, b if b is not None else one, zero)))
        for a, b in lin(y, v, vid, depth + 1):
            # canonical polarity: [not c] b = b - [c] b
            out.append((a, b))
            out.append((-a, z3.If(c, b if b is not None else one, zero)))
        return out
    return [(z3.RealVal(1), t)]


def mkprod(ks):
    if not ks:
        return None
    ks = sorted(ks, key=lambda x: x.sexpr())
    r = ks[0]
    for x in ks[1:]:
        r = r * x
    return r


def mk_sum(v, lo, hi, body):
    """Sum_{lo<=v<hi} body (z3 real term) with linearity normal form"""
    body = z3.simplify(body)
    parts = lin(body, v, v.get_id())
    tot = z3.RealVal(0)
    acc = {}
    order = []
    for coef, ker in parts:
        coef = z3.simplify(coef)
        if z3.is_rational_value(coef) and coef.as_fraction() == 0:
            continue
        if ker is None:
            app = z3.If(hi > lo, z3.ToReal(hi - lo), z3.RealVal(0))
        else:
            ker = z3.simplify(ker)
            if z3.is_rational_value(ker) and ker.as_fraction() == 0:
                continue
            # simplification may pull a rational factor to the front
            if z3.is_mul(ker) and z3.is_rational_value(ker.arg(0)):
                coef = coef * ker.arg(0)
                rest = ker.children()[1:]
                ker = rest[0]
                for x in rest[1:]:
                    ker = ker * x
            app = mk_atom('sum', [v], [(lo, hi)], ker)
        i = app.get_id()
        if i in acc:
            acc[i] = (acc[i][0] + coef, app)
        else:
            acc[i] = (coef, app)
            order.append(i)
    for i in order:
        coef, app = acc[i]
        tot = tot + coef * app
    return z3.simplify(tot)


# --------------------------------------------------------------- saturation
INPUT_DIMS = {}      # decl name -> z3 dims of its arguments
KTRIG = z3.Int('k$trig')
INPUT_FACTS = {}     # decl name -> fn(app) -> list of facts


def dimkey(d):
    return d.sexpr() if hasattr(d, 'sexpr') else str(d)


_TI = {}
_IFACT = {}
_INST = {}


def tinfo(t, i):
    """(term, children, name if uninterpreted application) cached by id"""
    r = _TI.get(i)
    if r is None:
        nm = None
        kids = ()
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
            kids = t.children()
        r = (t, kids, nm)
        _TI[i] = r
    return r


def saturate(forms, rounds=6, cands=None, budget=6000):
    """instantiate axioms for every special app / atom / input app reachable"""
    facts = []
    seen_ids = set()
    seen_apps = {}
    inst = set()
    mono = {}
    sums = []
    work = list(forms)
    cand = {}        # dimkey -> list of terms
    candids = set()

    def addcand(term, dim):
        k = dimkey(dim)
        if (k, term.get_id()) in candids:
            return False
        if len(cand.get(k, ())) >= 14:
            return False
        candids.add((k, term.get_id()))
        cand.setdefault(k, []).append(term)
        return True
    occ = set()
    known_false = set()
    for f in forms:
        occ |= const_ids(f)
        if z3.is_not(f):
            known_false.add(f.arg(0).get_id())
    for t, d in (cands or []):
        if const_ids(t) <= occ:
            addcand(t, d)
    def trig1(kids, nm):
        for x, d in zip(kids, INPUT_DIMS[nm]):
            if d is not None and KTRIG.get_id() not in const_ids(x):
                addcand(x, d)

    def trig(b):
        st, sn = [b], set()
        while st:
            x = st.pop()
            i = x.get_id()
            if i in sn:
                continue
            sn.add(i)
            _, kids, nm = tinfo(x, i)
            if nm in INPUT_DIMS:
                trig1(kids, nm)
            st.extend(kids)
    atoms = []
    sgroups = {}
    for rnd in range(rounds):
        newfacts = []
        while work:
            t = work.pop()
            i = t.get_id()
            if i in seen_ids:
                continue
            seen_ids.add(i)
            t, kids, nm = tinfo(t, i)
            if nm is not None:
                if nm in SPECIAL:
                    newfacts += SPECIAL[nm](t)
                    if nm in MONO:
                        for o in mono.setdefault(nm, []):
                            x, y = o.arg(0), t.arg(0)
                            g = {'pos': z3.And(x > 0, y > 0), 'nonneg': z3.And(x >= 0, y >= 0)}.get(MONO[nm], z3.BoolVal(True))
                            newfacts.append(z3.Implies(g, z3.And(z3.Implies(x < y, o < t), z3.Implies(y < x, t < o))))
                        mono[nm].append(t)
                elif nm in ATOMS:
                    atoms.append(t)
                    if ATOMS[nm].kind == 'sum':
                        trig(atom_body_at(t, [z3.Int('k$trig')]))
                elif nm in INPUT_DIMS:
                    trig1(kids, nm)
                if nm in INPUT_FACTS:
                    fk = (nm, i)
                    q = _IFACT.get(fk)
                    if q is None or q[0] is not INPUT_FACTS[nm]:
                        q = (INPUT_FACTS[nm], INPUT_FACTS[nm](t), t)
                        _IFACT[fk] = q
                    newfacts += q[1]
            work.extend(kids)
        # atoms
        for app in list(atoms):
            a, bounds, params = atom_parts(app)
            import itertools
            lists = []
            for lo, hi in bounds:
                lists.append(list(cand.get(dimkey(hi), [])))
            if a.kind in ('any', 'max'):
                w = [z3.Function('%s$w%d' % (a.decl.name(), j), *([c.sort() for c in app.children()] + [IS]))(*app.children()) for j in range(a.nb)]
                kk = (app.get_id(), 'w')
                if kk not in inst and app.get_id() not in known_false:
                    inst.add(kk)
                    rng = z3.And(*[z3.And(lo <= x, x < hi) for x, (lo, hi) in zip(w, bounds)])
                    bw = atom_body_at(app, w)
                    if a.kind == 'any':
                        newfacts.append(z3.Implies(app, z3.And(rng, bw)))
                    else:
                        ne = z3.And(*[lo < hi for lo, hi in bounds])
                        newfacts.append(z3.Implies(ne, z3.And(rng, bw == app)))
                    for x, (lo, hi) in zip(w, bounds):
                        addcand(x, hi)
                for combo in itertools.product(*lists):
                    kk = (app.get_id(),) + tuple(c.get_id() for c in combo)
                    if kk in inst or len(inst) > budget:
                        continue
                    inst.add(kk)
                    q = _INST.get(kk)
                    if q is None:
                        rng = z3.And(*[z3.And(lo <= x, x < hi) for x, (lo, hi) in zip(combo, bounds)])
                        b = atom_body_at(app, combo)
                        q = (z3.Implies(z3.And(rng, b), app) if a.kind == 'any' else z3.Implies(rng, b <= app), app, combo)
                        _INST[kk] = q
                    newfacts.append(q[0])
            else:
                lo, hi = bounds[0]
                kk = (app.get_id(), 's')
                if kk not in inst:
                    inst.add(kk)
                    newfacts.append(z3.Implies(hi <= lo, app == 0))
                    # a range that ends one further: S(lo,h+1) = S(lo,h)+body(h)
                    gk = (a.decl.name(), lo.get_id()) + tuple(x.get_id() for x in params)
                    grp = sgroups.setdefault(gk, [])
                    grp.append(app)
                    for o in grp[:-1]:
                        oa, ob, op = atom_parts(o)
                        if True:
                            d = z3.simplify(ob[0][1] - hi)
                            if z3.is_int_value(d):
                                d = d.as_long()
                                if d == 1:
                                    newfacts.append(z3.Implies(hi >= lo, o == app + atom_body_at(app, [hi])))
                                elif d == -1:
                                    newfacts.append(z3.Implies(ob[0][1] >= lo, app == o + atom_body_at(app, [ob[0][1]])))
        if not newfacts:
            break
        facts += newfacts
        work = list(newfacts)
        if len(facts) > budget:
            break
    # axiom for remaining cands of later rounds is best effort (sound either way)
    return facts, [a for a in atoms if ATOMS[a.decl().name()].kind == 'sum'], cand


def _purify_ground(fs):
    """replace uninterpreted apps on literal arguments by constants (helps nlsat)"""
    return fs


def feasible(hyps, timeout):
    facts, sums, _ = saturate(hyps, cands=ctx.skol, rounds=3, budget=1500)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyps)
    s.add(*facts)
    t0 = time.time()
    r = s.check()
    ctx.stats['queries'] += 1
    ctx.stats['time'] += time.time() - t0
    return r != z3.unsat


def _check(forms, timeout, tactic=None, seed=None):
    t0 = time.time()
    if tactic:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout))
    if seed is not None and not tactic:
        s.set('random_seed', seed)
    s.add(*forms)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    ctx.stats['queries'] += 1
    ctx.stats['time'] += time.time() - t0
    return r, s


def relax_to_real(forms):
    """Ackermannise all uninterpreted apps and relax Int to Real.
    Sound for proving unsat (the relaxation only adds models)."""
    cache = {}
    apps = {}
    consts = {}
    side = []

    def real(t):
        i = t.get_id()
        if i in cache:
            return cache[i][0]
        r = _real(t)
        cache[i] = (r, t)
        return r

    def _real(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        d = t.decl()
        k = d.kind()
        ch = [real(c) for c in t.children()]
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                if t.sort() == IS:
                    return z3.Real(d.name() + '$r')
                return t
            so = RS if t.sort() in (IS, RS) else BS
            nm = '%s@%d' % (d.name(), len(apps))
            c = z3.Const(nm, so)
            apps[t.get_id()] = (d.name(), ch, c)
            return c
        if k == z3.Z3_OP_TO_REAL:
            return ch[0]
        if k == z3.Z3_OP_TO_INT:
            c = z3.Real('toint@%d' % len(consts))
            consts[t.get_id()] = c
            side.append(z3.And(c <= ch[0], ch[0] < c + 1))
            return c
        isint = any(c.sort() == IS for c in t.children())
        if isint:
            a = ch
            if k == z3.Z3_OP_LT:
                return a[0] + 1 <= a[1]
            if k == z3.Z3_OP_GT:
                return a[0] >= a[1] + 1
            if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                c = z3.Real('idiv@%d' % len(consts))
                consts[t.get_id()] = c
                return c
        m = {z3.Z3_OP_ADD: lambda a: z3.Sum(a), z3.Z3_OP_MUL: lambda a: z3.Product(a),
             z3.Z3_OP_SUB: lambda a: a[0] - a[1] if len(a) == 2 else a[0] - z3.Sum(a[1:]),
             z3.Z3_OP_UMINUS: lambda a: -a[0], z3.Z3_OP_DIV: lambda a: a[0] / a[1],
             z3.Z3_OP_LE: lambda a: a[0] <= a[1], z3.Z3_OP_GE: lambda a: a[0] >= a[1],
             z3.Z3_OP_LT: lambda a: a[0] < a[1], z3.Z3_OP_GT: lambda a: a[0] > a[1],
             z3.Z3_OP_EQ: lambda a: a[0] == a[1], z3.Z3_OP_ITE: lambda a: z3.If(*a),
             z3.Z3_OP_AND: lambda a: z3.And(*a), z3.Z3_OP_OR: lambda a: z3.Or(*a),
             z3.Z3_OP_NOT: lambda a: z3.Not(a[0]), z3.Z3_OP_IMPLIES: lambda a: z3.Implies(*a),
             z3.Z3_OP_IFF: lambda a: a[0] == a[1], z3.Z3_OP_XOR: lambda a: z3.Xor(*a),
             z3.Z3_OP_DISTINCT: lambda a: z3.Distinct(*a)}
        if k in m:
            return m[k](ch)
        raise Unsupported('relax kind %s' % d.name())
    # integer disequality: a<b or a>b with unit gap
    out = [real(f) for f in forms]
    by = {}
    for _, (nm, ch, c) in apps.items():
        by.setdefault(nm, []).append((ch, c))
    for nm, lst in by.items():
        if len(lst) > 40:
            continue
        for i in range(len(lst)):
            for j in range(i):
                eqs = []
                distinct = False
                for a, b in zip(lst[i][0], lst[j][0]):
                    e = z3.simplify(a == b)
                    if z3.is_false(e):
                        distinct = True
                        break
                    if not z3.is_true(e):
                        eqs.append(e)
                if distinct:
                    continue
                side.append(z3.Implies(z3.And(*eqs) if eqs else z3.BoolVal(True), lst[i][1] == lst[j][1]))
    return out + side


def has_sum(forms):
    seen = set()
    st = list(forms)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().name() in ATOMS and ATOMS[x.decl().name()].kind == 'sum':
            return True
        st.extend(x.children())
    return False


class Result:
    def __init__(self, status, by, t, model=None, forms=None):
        self.status, self.by, self.t, self.model, self.forms = status, by, t, model, forms


_SIGN_CACHE = {}      # app id -> [(hyp id set, 'nonneg'|'nonpos'|None, keepalive)]
_PAIR_CACHE = {}


def _cache_get(cache, key, hs):
    for ids, v, _ in cache.get(key, []):
        if v is not None and ids <= hs:
            return True, v
        if v is None and ids == hs:
            return True, None
    return False, None


def sum_lemmas(sums, hyps, facts, cand, timeout=1000, pairs=False, deadline=None):
    """side lemmas on Sum atoms, each discharged by its own query"""
    out = []
    import itertools
    hs = frozenset(h.get_id() for h in hyps)
    for app in sums:
        if deadline and time.time() > deadline:
            break
        a, bounds, params = atom_parts(app)
        lo, hi = bounds[0]
        hit, sg = _cache_get(_SIGN_CACHE, app.get_id(), hs)
        if not hit:
            sg = None
            k = z3.Int('k$lem')
            body = atom_body_at(app, [k])
            fs = hyps + [k >= lo, k < hi]
            sat_facts, _, _ = saturate(fs + [body >= 0], cands=[(k, hi)])
            base = fs + sat_facts
            r, _ = _check(base + [body < 0], timeout)
            if r == z3.unsat:
                sg = 'nonneg'
                r, _ = _check(base + [body <= 0], timeout)
                if r == z3.unsat:
                    sg = 'pos'
            else:
                r, _ = _check(base + [body > 0], timeout)
                if r == z3.unsat:
                    sg = 'nonpos'
            _SIGN_CACHE.setdefault(app.get_id(), []).append((hs, sg, (app, hyps)))
        if sg == 'pos':
            out.append(z3.Implies(hi > lo, app > 0))
        if sg in ('nonneg', 'pos'):
            out.append(z3.Implies(hi >= lo, app >= 0))
            for c in cand.get(dimkey(hi), []) + [lo]:
                out.append(z3.Implies(z3.And(c >= lo, c < hi), app >= atom_body_at(app, [c])))
        elif sg == 'nonpos':
            out.append(z3.Implies(hi >= lo, app <= 0))
            for c in cand.get(dimkey(hi), []):
                out.append(z3.Implies(z3.And(c >= lo, c < hi), app <= atom_body_at(app, [c])))
    if pairs:
        n = 0
        for x, y in itertools.permutations(sums, 2):
            if deadline and time.time() > deadline:
                break
            ax, bx, px = atom_parts(x)
            ay, by_, py = atom_parts(y)
            if not (bx[0][0].eq(by_[0][0]) and bx[0][1].eq(by_[0][1])):
                continue
            n += 1
            if n > 60:
                break
            lo, hi = bx[0]
            hit, v = _cache_get(_PAIR_CACHE, (x.get_id(), y.get_id()), hs)
            if not hit:
                k = z3.Int('k$lem')
                b1, b2 = atom_body_at(x, [k]), atom_body_at(y, [k])
                fs = hyps + [k >= lo, k < hi]
                sf, _, _ = saturate(fs + [b1 <= b2], cands=[(k, hi)])
                r, _ = _check(fs + sf + [b1 > b2], timeout)
                v = True if r == z3.unsat else None
                _PAIR_CACHE.setdefault((x.get_id(), y.get_id()), []).append((hs, v, (x, y, hyps)))
            if v:
                out.append(x <= y)
    return out


def head_lemmas(sums, hyps, facts, timeout=1000, deadline=None):
    """sums whose terms after the first all vanish equal their first term"""
    out = []
    for app in sums:
        if deadline and time.time() > deadline:
            break
        _, bounds, _ = atom_parts(app)
        lo, hi = bounds[0]
        k = z3.Int('k$lem')
        body = atom_body_at(app, [k])
        fs = hyps + [k > lo, k < hi, body != 0]
        sf, _, _ = saturate(fs, cands=[(k, hi)])
        r, _ = _check(fs + facts + sf, timeout)
        if r == z3.unsat:
            out.append(z3.Implies(hi > lo, app == atom_body_at(app, [lo])))
    return out


def nonlinear_eq(g):
    """a real equation with products or quotients somewhere in the goal"""
    eq = nl = False
    seen, st = set(), [g]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            eq = eq or (k == z3.Z3_OP_EQ and z3.is_real(x.arg(0)))
            nl = nl or k == z3.Z3_OP_DIV or (k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in x.children()) > 1)
            st.extend(x.children())
    return eq and nl


def prove(hyps, goal, cands=(), timeout=10000, hints=(), cheap=False):
    """returns Result(status in proved/refuted/unknown)"""
    t0 = time.time()
    goal = zb(goal)
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return Result('proved', 'simplifier', time.time() - t0)
    hyps = list(hyps) + [zb(h) for h in hints]
    neg = z3.Not(goal)
    facts, sums, cand = saturate(hyps + [neg], cands=list(ctx.skol) + list(cands), budget=1500 if cheap else 6000)
    forms = hyps + facts + [neg]
    alg = not cheap and not sums and nonlinear_eq(goal)
    r, s = _check(forms, min(timeout, 1000 if alg else 4000))
    if r == z3.unsat:
        return Result('proved', 'z3', time.time() - t0)
    if alg and r == z3.unknown:
        if algebra.prove(hyps, facts, goal, sign_hint, budget=timeout / 1000):
            return Result('proved', 'z3+polynomial identity', time.time() - t0)
        r, s = _check(forms, min(timeout, 4000))
        if r == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
    extra = []
    if sums:
        extra = sum_lemmas(sums, hyps, facts, cand, deadline=t0 + 2 * timeout / 1000)
        if extra:
            r2, s2 = _check(forms + extra, timeout)
            if r2 == z3.unsat:
                return Result('proved', 'z3+sum-lemmas', time.time() - t0)
            r, s = r2, s2
        if cheap:
            return Result('unknown', 'z3', time.time() - t0, None, forms)
        extra2 = sum_lemmas(sums, hyps, facts, cand, pairs=True, deadline=t0 + 3 * timeout / 1000)
        if len(extra2) > len(extra):
            extra = extra + extra2
            r2, s2 = _check(forms + extra, timeout)
            if r2 == z3.unsat:
                return Result('proved', 'z3+sum-lemmas', time.time() - t0)
            r, s = r2, s2
    if cheap and r != z3.unsat and not (r == z3.sat and not sums):
        return Result('unknown', 'z3', time.time() - t0, None, forms)
    if sums:
        extra3 = head_lemmas(sums, hyps + [neg], facts, deadline=t0 + 4 * timeout / 1000)
        if extra3:
            extra = extra + extra3
            r2, s2 = _check(forms + extra, timeout)
            if r2 == z3.unsat:
                return Result('proved', 'z3+sum-lemmas', time.time() - t0)
            r, s = r2, s2
    if r == z3.sat and not sums:
        return Result('refuted', 'z3', time.time() - t0, s.model(), forms)
    # nlsat on the real relaxation
    allf = forms + extra
    try:
        rel = relax_to_real(allf)
        tac = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'simplify', 'tseitin-cnf', 'nlsat')
        r3, s3 = _check(rel, timeout, tactic=tac)
        if r3 == z3.unsat:
            return Result('proved', 'z3-nlsat', time.time() - t0)
    except (Unsupported, z3.Z3Exception):
        pass
    if r == z3.unknown:
        r4, s4 = _check(allf, timeout, seed=7)
        if r4 == z3.unsat:
            return Result('proved', 'z3', time.time() - t0)
        if r4 == z3.sat:
            r, s = r4, s4
        else:
            c = cvc5_check(allf, timeout)
            if c == 'unsat':
                return Result('proved', 'cvc5', time.time() - t0)
    if r == z3.sat:
        return Result('refuted', 'z3', time.time() - t0, s.model(), allf)
    return Result('unknown', 'z3', time.time() - t0, None, allf)


def cvc5_check(forms, timeout):
    s = z3.Solver()
    s.add(*forms)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass
    ctx.stats['queries'] += 1
    ctx.stats['time'] += time.time() - t0
    return out
