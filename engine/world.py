"""One contract text, four readings:

 sym    symbolic values, symbolic (unbounded) dimensions  -> proof obligations
 bnd    symbolic values, small concrete dimensions        -> bounded obligations / counterexamples
 run    random concrete inputs on the real code under CPython/numpy
 replay given concrete inputs on the real code
"""
import sys, os, json, random, math, importlib, itertools, traceback
import numpy as _np
from fractions import Fraction
from .core import *
from . import core, symnp, loader, symstr
import re as _re
from .symnp import *


class Reject(Exception):
    """concrete sample outside the precondition"""


class ContractFail(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name + ' ' + detail)
        self.name, self.detail = name, detail


class WBase:
    symbolic = False
    contract_facts = None

    # --- logic shared by all readings
    def forall(self, dims, f, name=None):
        raise NotImplementedError


# =========================================================== symbolic reading
class Fact:
    """a statement whose obligations are already generated"""
    def __init__(self, c): self.c = c


class SymWorld(WBase):
    symbolic = True

    def __init__(self, ldr, bnd=None, choices=()):
        self.ldr = ldr
        self.bnd = bnd            # None: unbounded, else dict of concrete dims
        self.mode = 'bnd' if bnd is not None else 'sym'
        self.choice_prefix = list(choices)
        self.choices_made = []
        self.choice_pending = []
        self.inputs = {}          # name -> description for model extraction
        self.goals = []           # (name, hyps, goal)
        self.np = symnp.np
        self.nan, self.inf = symnp.NP.nan, symnp.NP.inf
        self.stubs = []
        self.trusted = []
        core.ctx.W = self

    # ---- modules
    def mod(self, name):
        return self.ldr.load('aeolis.' + name)

    def watch(self, *texts):
        """log messages the contract reads (blocks that only write other messages are skipped)"""
        loader.VC.watch = texts

    def stub(self, modname, fname, fn, real_name=None):
        """replace a callee by its contract (modular verification)"""
        m = self.mod(modname)
        for mm in self.ldr.mods.values():
            if fname in mm.__dict__ and mm.__dict__[fname] is m.__dict__.get(fname):
                self.stubs.append((mm, fname, mm.__dict__[fname]))
        old = m.__dict__.get(fname)
        for mm in list(self.ldr.mods.values()):
            if old is not None and mm.__dict__.get(fname) is old:
                mm.__dict__[fname] = fn

    def unstub(self):
        for mm, f, o in reversed(self.stubs):
            mm.__dict__[f] = o
        self.stubs = []

    def loop(self, fname, ordn, contract):
        loader.VC.loop_contracts[(fname, ordn)] = contract

    def while_loop(self, fname, ordn, check, havoc):
        """contract of a while loop: check(entry) states the obligations at the start of the loop (entry: True)
        and after an arbitrary iteration (False); havoc() puts the state that the loop changes into an arbitrary
        one that satisfies the invariant.  Local variables carried between iterations are not supported."""
        n = [0]

        def lc():
            n[0] += 1
            check(n[0] == 1)
            if n[0] > 1:
                raise core.PathEnd('end of the arbitrary iteration')
            havoc()
        loader.VC.while_contracts[(fname, ordn)] = lc

    def hook(self, name, fn):
        core.HOOKS[name] = fn

    # ---- inputs
    def choice(self, name, opts):
        k = len(self.choices_made)
        if k < len(self.choice_prefix):
            v = self.choice_prefix[k]
        else:
            v = 0
            for j in range(len(opts) - 1, 0, -1):
                self.choice_pending.append([c for _, c in self.choices_made] + [j])
        self.choices_made.append((name, v))
        self.inputs[name] = ('choice', opts[v])
        return opts[v]

    def dim(self, name, lo=1, hi=None, conc=None):
        if self.bnd is not None:
            v = self.bnd.get(name, max(lo, 2))
            v = max(v, lo)
            self.inputs[name] = ('dim', v)
            return v
        if conc is not None:
            self.inputs[name] = ('dim', conc)
            return conc
        t = z3.Int(name)
        core.ctx.assume(t >= lo)
        if hi is not None:
            core.ctx.assume(t <= hi)
        self.inputs[name] = ('dim', t)
        core.DIMS.add(t.get_id())
        if not any(q.eq(t) for q in symnp.DIM_ORDER):
            symnp.DIM_ORDER.append(t)
        return N(t)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        if lo is not None:
            core.ctx.assume(t >= lo)
        if hi is not None:
            core.ctx.assume(t <= hi)
        self.inputs[name] = ('int', t)
        return N(t)

    def real(self, name, lo=None, hi=None, pos=False, typ=None, **k):
        t = z3.Real(name)
        if pos:
            POS_CONST[name] = 'pos'
            core.ctx.assume(t > 0)
        elif lo is not None and lo >= 0:
            POS_CONST[name] = 'nonneg' if lo == 0 else 'pos'
        if lo is not None:
            core.ctx.assume(t >= zr(frac(lo)))
        if hi is not None:
            core.ctx.assume(t <= zr(frac(hi)))
        self.inputs[name] = ('real', t)
        return R(t)

    def flag(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ('bool', t)
        return B(t)

    def text(self, name, cls='token', gen=None):
        s = symstr.text(name, cls)
        self.inputs[name] = ('text', s.parts[0].t)
        return s

    def matches(self, s, pat):
        return mkB(z3.InRe(s.term(), symstr.language(pat, 'fullmatch'))) if isinstance(s, symstr.S) else _re.fullmatch(pat, s) is not None

    def intof(self, s): return mkN(symstr.INT_OF(s.term())) if isinstance(s, symstr.S) else int(s)
    def floatof(self, s): return R(symstr.FLOAT_OF(s.term())) if isinstance(s, symstr.S) else float(s)

    def typeof(self, x):
        return {R: float, N: int, B: bool, symstr.S: str}.get(type(x), type(x))

    def _flat(self, idx):
        out = []
        for i in idx:
            if isinstance(i, tuple):
                out += self._flat(i)
            else:
                out.append(zint(i))
        return out

    def array(self, name, dims, lo=None, hi=None, pos=False, facts=None, inf=False, nan=False, gen=None, integer=False, typ=None, **k):
        n = len(flat_dims(dims))
        f = z3.Function(name, *([IS] * n + [RS]))
        POS_CONST.pop(name, None)
        if pos:
            POS_CONST[name] = 'pos'
        elif lo is not None and lo >= 0:
            POS_CONST[name] = 'nonneg' if lo == 0 else 'pos'

        def ax(app):
            out = []
            if pos:
                out.append(app > 0)
            if lo is not None:
                out.append(app >= zr(frac(lo)))
            if hi is not None:
                out.append(app <= zr(frac(hi)))
            if integer:
                out.append(z3.IsInt(app))
            if facts is not None:
                idx = [mkN(x) for x in app.children()]
                for q in facts(R(app), *idx):
                    q = as_bool(q)
                    if q is not True:
                        out.append(zb(q))
            return out
        INPUT_FACTS[name] = ax
        INPUT_DIMS[name] = [None if isinstance(d, int) else zint(d) for d in flat_dims(dims)]
        fi = z3.Function(name + '$inf', *([IS] * n + [BS])) if inf else None
        fn = z3.Function(name + '$nan', *([IS] * n + [BS])) if nan else None
        self.inputs[name] = ('array', dims, f, fi, fn)

        def get(idx):
            a = self._flat(idx)
            return R(f(*a), fn(*a) if nan else False, fi(*a) if inf else False, False)
        return new(get, dims, 'f')

    def bools(self, name, dims, **k):
        n = len(flat_dims(dims))
        f = z3.Function(name, *([IS] * n + [BS]))
        self.inputs[name] = ('barray', dims, f)
        return new(lambda idx: B(f(*self._flat(idx))), dims, 'b')

    def complexmask(self, name, dims, **k):
        re = self.array(name + '_re', dims)
        im = self.array(name + '_im', dims)
        sr, si = re.snap(), im.snap()
        return new(lambda idx: Cx(sr(idx), si(idx)), dims, 'c')

    def split(self, i):
        """indices of a flattened axis"""
        return tuple(i)

    def cmask(self, re, im):
        sr, si = re.snap(), im.snap()
        return new(lambda idx: Cx(sr(idx), si(idx)), re.shape_, 'c')

    def zeros(self, dims): return symnp.NP.zeros(tuple(dims))
    def full(self, dims, v): return symnp.NP.full(tuple(dims), v)
    def const_array(self, vals): return symnp.asarray(list(vals))

    # ---- facts
    def assume(self, c):
        core.ctx.assume(as_bool(c))

    def require_path(self):
        pass

    def call(self, fn, *a, **k):
        return fn(*a, **k)

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def skolem(self, d, nm='i'):
        if isinstance(d, Prod):
            return tuple(self.skolem(x, nm) for x in d.dims)
        if isinstance(d, MaskDim):
            return tuple(self.skolem(x, nm) for x in d.dims)
        t = core.ctx.fresh(nm, 'I')
        core.ctx.skol.append((t, zint(d)))
        core.ctx.index(t, z3.IntVal(0), zint(d))
        return N(t)

    def forall(self, dims, f, name=None, hints=None):
        dims = tuple(dims)
        if all(isinstance(d, int) for d in flat_dims(dims)):
            for idx in enum_idx(dims):
                self.ensure('%s%s' % (name or 'post', list(idx)), f(*idx))
            return
        idx = tuple(0 if isinstance(d, int) and d == 1 else self.skolem(d) for d in dims)
        rng = band(*[in_range(i, d) for i, d in zip(idx, dims)])
        n0 = len(core.ctx.hyps)
        core.ctx.temp += 1
        core.ctx.assume(rng)
        if hints is not None:
            for q, h in enumerate(hints(*idx)):
                if isinstance(h, Fact):
                    core.ctx.assume(h.c)
                else:
                    self.goals.append(((name or 'post') + '.step%d' % q, list(core.ctx.hyps), zb(h), list(core.ctx.skol)))
                    core.ctx.assume(as_bool(h))
        g = f(*idx)
        core.ctx.temp -= 1
        hs = list(core.ctx.hyps)
        core.ctx.hyps = core.ctx.hyps[:n0]
        if isinstance(g, list):
            for nm, q in g:
                self.goals.append((('%s.%s' % (name, nm)), hs, zb(q), list(core.ctx.skol)))
        else:
            self.goals.append((name or 'post', hs, zb(g), list(core.ctx.skol)))

    def ensure(self, name, c):
        self.goals.append((name, list(core.ctx.hyps), zb(c), list(core.ctx.skol)))

    def sum_nonneg(self, dims, f, name='sum-sign'):
        """lemma: a sum of non-negative terms is not negative (the terms: an obligation)"""
        dims = dims if isinstance(dims, tuple) else (dims,)
        self.forall(dims, lambda *i: self.ge(f(*i), 0), name=name)
        return Fact(zb(as_bool(self.ge(self.sum(dims if len(dims) > 1 else dims[0], f), 0))))

    def sum_elem(self, d, f, k, name='sum-sign'):
        """lemma: one of the non-negative terms is at most their sum"""
        self.forall((d,), lambda i: self.ge(f(i), 0), name=name)
        return Fact(zb(as_bool(self.Implies(in_range(k, d), lambda: self.ge(self.sum(d, f), f(k))))))

    def sum_split(self, d, f, c):
        """lemma: the sum of the first c terms and the sum of the others"""
        return Fact(zb(as_bool(self.Implies(self.And(self.le(0, c), self.le(c, d)), lambda: self.eq(self.sum(d, f), self.sum(c, f) + self.sum(d - c, lambda j: f(c + j)))))))

    def lemma(self, name, c):
        """prove c, then use it"""
        self.ensure(name, c)
        core.ctx.assume(as_bool(c))

    # ---- terms
    def eq(self, a, b, scale=None, tol=None):
        a, b = self.el(a), self.el(b)
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
            return mkB(el_same_b(a, b))
        return mkB(r_eq(as_R(a), as_R(b)))

    def same(self, a, b):
        """identical, nan included"""
        return mkB(loader.el_same(self.el(a), self.el(b)))

    def el(self, a):
        if is_arr(a):
            return a.at(tuple(0 for _ in a.shape_))
        return a

    def le(self, a, b, scale=None): return mkB(r_le(as_R(self.el(a)), as_R(self.el(b))))
    def lt(self, a, b): return mkB(r_lt(as_R(self.el(a)), as_R(self.el(b))))
    def ge(self, a, b, scale=None): return self.le(b, a)
    def gt(self, a, b): return self.lt(b, a)
    # strict comparisons used as *conditions* of the spec (exact in concrete mode)
    def And(self, *xs): return mkB(band(*[as_bool(x) for x in xs]))
    def Or(self, *xs): return mkB(bor(*[as_bool(x) for x in xs]))
    def Not(self, x): return mkB(bnot(as_bool(x)))
    def Implies(self, a, b):
        if callable(b):
            b = self._under(as_bool(a), b, True)
        return mkB(bor(bnot(as_bool(a)), as_bool(b)))

    def _under(self, c, f, dflt):
        """evaluate f() knowing that c holds"""
        c = as_bool(c)
        if c is False:
            return dflt
        if c is True:
            return f()
        h = core.ctx.hyps
        n0 = len(h)
        core.ctx.temp += 1
        core.ctx.assume(c)
        n1 = len(h)
        try:
            v = f()
        finally:
            core.ctx.temp -= 1
            more = h[n1:]
            del h[n0:]
        for q in more:
            core.ctx.assume(z3.Implies(zb(c), q))
        return v

    def ite(self, c, a, b):
        c = as_bool(c)
        if callable(a):
            a = self._under(c, a, 0)
        if callable(b):
            b = self._under(bnot(c), b, 0)
        return r_ite(c, a, b)
    def isnan(self, a): return mkB(as_R(a).n)
    def isinf(self, a): return mkB(as_R(a).p)
    def finite(self, a): return mkB(as_R(self.el(a)).finite())
    def max(self, a, b): return r_max(as_R(a), as_R(b))
    def min(self, a, b): return r_min(as_R(a), as_R(b))
    def abs(self, a): return abs(as_R(a))
    def sqrt(self, a): return r_sqrt(as_R(a))
    def exp(self, a): return r_fun(EXP, as_R(a))
    def log(self, a): return r_log(as_R(a))
    def atan2(self, a, b): return symnp.NP.arctan2(as_R(a), as_R(b))
    def log10(self, a): return symnp.r_log10(a)
    def sin(self, a): return r_fun(SIN, as_R(a))
    def cos(self, a): return r_fun(COS, as_R(a))
    def tan(self, a): return r_fun(TAN, as_R(a))
    def tanh(self, a): return r_fun(TANH, as_R(a))
    def pow(self, a, b): return as_R(a) ** b
    def num(self, x): return R(frac(x))

    def sum(self, dims, f):
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        return reduce_elems('sum', lambda i: as_R(f(*i)), list(dims))

    def maxover(self, dims, f):
        return reduce_elems('max', lambda i: as_R(f(*i)), list(dims))

    def exists(self, dims, f):
        return mkB(as_bool(reduce_elems('any', lambda i: f(*i), list(dims))))

    def all(self, dims, f):
        """bounded universal as a term (usable in hypotheses)"""
        return self.Not(self.exists(dims, lambda *i: self.Not(f(*i))))

    def copy(self, x):
        return x.copy() if is_arr(x) else x

    def isarr(self, x): return is_arr(x) or isinstance(x, symstr.Words)
    def ndim(self, x): return x.ndim if is_arr(x) else 0

    def bool(self, c):
        """branch of the harness on a condition (path split)"""
        return bool(c if isinstance(c, bool) else mkB(as_bool(c)))

    def at(self, a, *idx):
        if not is_arr(a):
            return a
        return a.at(tuple(idx))

    pi = R(frac(3.141592653589793))

    def re(self, a, *idx):
        v = a.at(tuple(idx))
        return v.re if isinstance(v, Cx) else v

    def im(self, a, *idx):
        v = a.at(tuple(idx))
        return v.im if isinstance(v, Cx) else R(Fraction(0))

    def flatidx(self, dims, idx):
        """index on a flattened axis"""
        if all(isinstance(d, int) for d in dims):
            k = 0
            for d, i in zip(dims, idx):
                k = k * d + i
            return k
        return tuple(i for d, i in zip(dims, idx) if not (isinstance(d, int) and d == 1)) if sum(1 for d in dims if not (isinstance(d, int) and d == 1)) > 1 else [i for d, i in zip(dims, idx) if not (isinstance(d, int) and d == 1)][0]


def el_same_b(a, b):
    a, b = as_bool(a), as_bool(b)
    return bite(a, b, bnot(b))


core.DIMS.clear()


def _w(f):
    def g(self, *a):
        with _np.errstate(all='ignore'):
            return f(*[_np.float64(x) for x in a])
    return g


# =========================================================== concrete reading
class Padded(dict):
    """the dictionaries of a contract hold what the function is known to need; anything else of the model
    state or configuration that the code happens to read is supplied on first use"""
    def __init__(self, d, world, others):
        dict.__init__(self, d)
        self.w, self.others = world, others

    def __missing__(self, k):
        from aeolis import constants as C
        rng = random.Random('%s' % k)
        for dims, names in C.MODEL_STATE.items():
            if k in names:
                v = _np.array([rng.uniform(0., 1.) for _ in range(int(_np.prod([self.size(d) for d in dims])))]).reshape([self.size(d) for d in dims])
                self[k] = v
                return v
        if k in C.DEFAULT_CONFIG:
            return C.DEFAULT_CONFIG[k]
        raise KeyError(k)

    def size(self, dim):
        from aeolis import constants as C
        for d in [self] + self.others:
            for dims, names in C.MODEL_STATE.items():
                if dim in dims:
                    for n in names:
                        a = dict.get(d, n)
                        if isinstance(a, _np.ndarray) and a.ndim == len(dims):
                            return a.shape[dims.index(dim)]
        raise KeyError(dim)


def padded(W, a):
    """(arguments, function that writes the result back)"""
    ds = [x for x in a if type(x) is dict]
    m = {id(x): Padded(x, W, ds) for x in ds}

    def back(r):
        for x in ds:
            n = m[id(x)]
            x.clear()
            x.update(n)
        inv = {id(m[id(x)]): x for x in ds}
        if isinstance(r, tuple):
            return tuple(inv.get(id(q), q) for q in r)
        return inv.get(id(r), r)
    return [m.get(id(x), x) for x in a], back


class RunWorld(WBase):
    symbolic = False
    mode = 'run'
    RT, AT = 1e-7, 1e-9

    def __init__(self, rng, given=None, dimcap=4):
        self.rng = rng
        self.given = given         # replay values
        self.rec = {}
        self.np = _np
        self.nan, self.inf = float('nan'), float('inf')
        self.fails = []
        self.evals = 0
        self.nontriv = 0
        self.dimcap = dimcap
        self._st = []
        self.firstfail = None

    def mod(self, name):
        return importlib.import_module('aeolis.' + name)

    def stub(self, *a, **k): pass
    def loop(self, *a): pass
    def while_loop(self, *a): pass
    def hook(self, *a): pass
    def lemma(self, name, c): pass

    def patch(self, obj, name, val):
        """concrete replacement (e.g. randomness made observable)"""
        self._st.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def unstub(self):
        for o, n, v in reversed(self._st):
            setattr(o, n, v)
        self._st = []

    def _given(self, name):
        if self.given is not None and name in self.given:
            return True, self.given[name]
        return False, None

    def choice(self, name, opts):
        ok, v = self._given(name)
        if ok:
            for o in opts:
                if o == v or repr(o) == repr(v) or (isinstance(o, tuple) and list(o) == v):
                    self.rec[name] = o
                    return o
        v = self.rng.choice(list(opts))
        self.rec[name] = v
        return v

    def dim(self, name, lo=1, hi=None, conc=None):
        ok, v = self._given(name)
        if not ok:
            v = self.rng.randint(lo, min(hi if hi is not None else lo + self.dimcap - 1, lo + self.dimcap - 1))
        if conc is not None:
            v = conc
        self.rec[name] = int(v)
        return int(v)

    def int(self, name, lo=None, hi=None):
        ok, v = self._given(name)
        if not ok:
            lo = -5 if lo is None else lo
            v = self.rng.randint(lo, lo + 8 if hi is None else hi)
        self.rec[name] = int(v)
        return int(v)

    def _scal(self, lo, hi, pos, typ):
        r = self.rng
        if typ is not None and r.random() < 0.8:
            if isinstance(typ, (tuple, list)):
                v = r.uniform(*typ)
            else:
                v = typ * math.exp(r.uniform(-1, 1))
        else:
            k = r.random()
            if k < 0.5:
                v = r.uniform(-3, 3)
            elif k < 0.7:
                v = math.exp(r.uniform(-5, 5)) * r.choice([-1, 1])
            elif k < 0.8:
                v = 0.
            elif k < 0.9 and lo is not None:
                v = lo
            elif hi is not None:
                v = hi
            else:
                v = float(r.randint(-3, 3))
        if pos and v <= 0:
            v = abs(v) or 0.5
        if lo is not None and hi is not None and not (lo <= v <= hi):
            v = r.uniform(lo, hi)
        if lo is not None and v < lo:
            v = lo + abs(v - lo)
        if hi is not None and v > hi:
            v = hi - abs(v - hi)
        return float(v)

    def real(self, name, lo=None, hi=None, pos=False, typ=None, **k):
        ok, v = self._given(name)
        if not ok:
            v = self._scal(lo, hi, pos, typ)
        v = self._declared(float(v), lo, hi, pos)
        self.rec[name] = v
        return v

    def _declared(self, v, lo, hi, pos):
        """entries a solver model leaves open get values inside the declared range"""
        if pos and v <= 0:
            return 1.0
        if lo is not None and v < lo:
            return float(lo)
        if hi is not None and v > hi:
            return float(hi)
        return v

    def text(self, name, cls='token', gen=None):
        ok, v = self._given(name)
        if not ok:
            r = self.rng
            tok = ''.join(chr(c) for c in range(33, 127) if chr(c) != '%')
            if cls == 'blank':
                v = ''.join(r.choice(' \t\n') for _ in range(r.choice([0, 0, 1, 2])))
            elif cls == 'any':
                v = ''.join(r.choice(tok + ' %') for _ in range(r.choice([0, 1, 5])))
            elif gen is not None and r.random() < .8:
                v = gen(r)
            else:
                v = ''.join(r.choice(r.choice([tok, '0123456789.-eE', 'TFNone'])) for _ in range(r.choice([1, 1, 2, 4])))
        self.rec[name] = v
        return v

    def matches(self, s, pat): return _re.fullmatch(pat, s) is not None
    def intof(self, s): return int(s)
    def floatof(self, s): return float(s)
    def typeof(self, x): return type(x)

    def flag(self, name):
        ok, v = self._given(name)
        if not ok:
            v = self.rng.random() < 0.5
        self.rec[name] = bool(v)
        return bool(v)

    def array(self, name, dims, lo=None, hi=None, pos=False, facts=None, inf=False, nan=False, gen=None, integer=False, typ=None, **k):
        dims = tuple(int(d) for d in dims)
        ok, v = self._given(name)
        if ok:
            a = _np.array(v, dtype=float).reshape(dims)
            if gen is None and (pos or lo is not None or hi is not None):
                a = _np.array([self._declared(float(q), lo, hi, pos) for q in a.flatten()], dtype=float).reshape(dims)
        elif gen is not None:
            a = _np.array(gen(self.rng, dims), dtype=float).reshape(dims)
        else:
            r = self.rng
            n = int(_np.prod(dims))
            style = r.random()
            if style < 0.12:
                c = self._scal(lo, hi, pos, typ)
                vals = [c] * n
            elif style < 0.3:
                # few distinct values (ties)
                pool = [self._scal(lo, hi, pos, typ) for _ in range(2)] + [0.0 if not pos else 1.0]
                vals = [r.choice(pool) for _ in range(n)]
            elif style < 0.5:
                # sparse
                vals = [self._scal(lo, hi, pos, typ) if r.random() < 0.4 else (0. if not pos else 1.) for _ in range(n)]
            else:
                sc = r.choice([1., 1., 0.1, 10.]) if typ is None else 1.
                vals = [self._scal(lo, hi, pos, typ) * sc for _ in range(n)]
            vals = [min(max(x, lo if lo is not None else x), hi if hi is not None else float('inf')) for x in vals]
            if integer:
                vals = [float(round(x)) for x in vals]
            a = _np.array(vals, dtype=float).reshape(dims)
            if inf and r.random() < 0.5:
                m = _np.array([r.random() < 0.3 for _ in range(n)]).reshape(dims)
                a[m] = _np.inf
            if nan and r.random() < 0.5:
                m = _np.array([r.random() < 0.3 for _ in range(n)]).reshape(dims)
                a[m] = _np.nan
        if facts is not None:
            for idx in _np.ndindex(*dims):
                for q in facts(a[idx], *idx):
                    if not q:
                        raise Reject()
        self.rec[name] = a.tolist()
        return a

    def bools(self, name, dims, **k):
        dims = tuple(int(d) for d in dims)
        ok, v = self._given(name)
        if ok:
            a = _np.array(v, dtype=bool).reshape(dims)
        else:
            p = self.rng.choice([0., 0.3, 0.5, 0.7, 1.])
            a = _np.array([self.rng.random() < p for _ in range(int(_np.prod(dims)))], dtype=bool).reshape(dims)
        self.rec[name] = a.tolist()
        return a

    def complexmask(self, name, dims, **k):
        return self.array(name + '_re', dims) + 1j * self.array(name + '_im', dims)

    def cmask(self, re, im): return re + 1j * im

    def zeros(self, dims): return _np.zeros(tuple(dims))
    def full(self, dims, v): return _np.full(tuple(dims), v)
    def const_array(self, vals): return _np.array(list(vals))

    def assume(self, c):
        if not bool(c):
            raise Reject()

    def call(self, fn, *a, **k):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with _np.errstate(all='ignore'):
                try:
                    b, back = padded(self, a)
                    return back(fn(*b, **k))
                except Reject:
                    raise
                except ContractFail:
                    raise
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    if isinstance(e, TypeError) and len(tb) == 1:
                        raise      # the signature changed: not a failure of the function
                    where = ' at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
                    raise ContractFail('does-not-raise', '%s: %s%s' % (type(e).__name__, str(e)[:200], where))

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def forall(self, dims, f, name=None, hints=None):
        with _np.errstate(all='ignore'):
            for idx in itertools.product(*[range(int(d)) for d in dims]):
                g = f(*idx)
                if isinstance(g, list):
                    for nm, q in g:
                        self._one('%s.%s' % (name, nm), q, idx)
                else:
                    self._one(name or 'post', g, idx)

    def _one(self, name, q, idx):
        self.evals += 1
        if not bool(q):
            raise ContractFail(name, 'at index %s' % (list(idx),))

    def ensure(self, name, c):
        self.evals += 1
        if not bool(c):
            raise ContractFail(name)

    def el(self, a): return a

    def eq(self, a, b, scale=None, tol=None):
        if isinstance(a, (bool, _np.bool_)) and isinstance(b, (bool, _np.bool_)):
            return bool(a) == bool(b)
        a, b = self._f(a), self._f(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        s = max(abs(a), abs(b), self._f(scale) if scale is not None else 0.)
        return abs(a - b) <= (self.AT + (tol or self.RT) * s)

    def _f(self, a):
        if isinstance(a, _np.ndarray):
            a = a.reshape(-1)[0]
        if isinstance(a, complex):
            a = a.real
        return float(a)

    def same(self, a, b):
        if isinstance(a, (bool, _np.bool_)):
            return bool(a) == bool(b)
        a, b = self._f(a), self._f(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return self.eq(a, b)

    def le(self, a, b, scale=None):
        a, b = self._f(a), self._f(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        s = max(abs(a), abs(b), self._f(scale) if scale is not None else 0.)
        return a <= b + self.AT + self.RT * s

    def lt(self, a, b): return self._f(a) < self._f(b)
    def ge(self, a, b, scale=None): return self.le(b, a, scale)
    def gt(self, a, b): return self._f(a) > self._f(b)
    def And(self, *xs): return all(bool(x) for x in xs)
    def Or(self, *xs): return any(bool(x) for x in xs)
    def Not(self, x): return not bool(x)
    def Implies(self, a, b):
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)
    def ite(self, c, a, b):
        v = a if bool(c) else b
        return v() if callable(v) else v
    def isnan(self, a): return math.isnan(self._f(a))
    def isinf(self, a): return math.isinf(self._f(a)) and self._f(a) > 0
    def finite(self, a): return math.isfinite(self._f(a))
    def max(self, a, b): return _np.maximum(a, b)
    def min(self, a, b): return _np.minimum(a, b)
    def abs(self, a): return abs(a)
    sqrt = _w(_np.sqrt)
    exp = _w(_np.exp)
    log = _w(_np.log)
    def atan2(self, a, b): return math.atan2(a, b)
    def log10(self, a): return float(_np.log10(a))
    sin = _w(_np.sin)
    cos = _w(_np.cos)
    tan = _w(_np.tan)
    tanh = _w(_np.tanh)
    pow = _w(_np.power)
    def num(self, x): return float(x)

    def sum(self, dims, f):
        if not isinstance(dims, (tuple, list)):
            dims = (dims,)
        return math.fsum(self._f(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def maxover(self, dims, f):
        return max(self._f(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def exists(self, dims, f):
        return any(bool(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def all(self, dims, f):
        return all(bool(f(*i)) for i in itertools.product(*[range(int(d)) for d in dims]))

    def copy(self, x):
        return x.copy() if isinstance(x, _np.ndarray) else x

    def isarr(self, x): return isinstance(x, _np.ndarray)
    def ndim(self, x): return _np.ndim(x)
    def bool(self, c): return bool(c)

    def at(self, a, *idx):
        return a[tuple(idx)] if isinstance(a, _np.ndarray) else a

    pi = math.pi
    def re(self, a, *idx): return float(_np.real(a[tuple(idx)]))
    def im(self, a, *idx): return float(_np.imag(a[tuple(idx)]))

    def flatidx(self, dims, idx):
        return int(_np.ravel_multi_index(tuple(int(i) for i in idx), tuple(int(d) for d in dims)))


# =========================================================== loop contracts
def functional_loop(F, rows=False):
    """loop contract in functional form: F[name](i, idx, olds) gives the content
    of the array ``name`` when iteration i is about to start.  Obligations:
    initialisation, preservation by one arbitrary iteration, frame."""
    def lc(it, body, lcl):
        ctx = core.ctx
        W = ctx.W
        arrs, olds = {}, {}
        for n in F:
            if n not in lcl or not is_arr(lcl[n]):
                raise Unsupported('loop contract: no array %s' % n)
            a = lcl[n]
            arrs[n], olds[n] = a, a.snap()
        oldsnaps = {n: a.buf.snap for n, a in arrs.items()}
        ro = {}
        for n, v in lcl.items():
            if is_arr(v) and n not in F:
                ro[n] = v.snap()
        olds['_ro'] = ro

        def setstate(i):
            for n, a in arrs.items():
                inv = a.inv
                a.buf.snap = Snap(lambda bi, n=n, inv=inv: F[n](i, inv(bi)[1] if inv else bi, olds))
        loader.VC._loopn += 1
        iv = z3.Int('$L%d' % loader.VC._loopn)
        lo, hi = it.lo, it.hi
        ctx.index(iv, zint(lo), zint(hi))
        h0 = list(ctx.hyps)
        for n, a in arrs.items():
            W.forall(a.shape_, lambda *idx, n=n: W.same(F[n](lo, idx, olds), olds[n](idx)), name='loop-init.%s' % n)
        base = h0 + [zint(lo) <= iv, iv < zint(hi)]
        maxid = symnp.Buf._n
        outer = ctx.trace
        ids = {a.buf.id for a in arrs.values()}
        todo = [[]]
        npath = 0
        end = hi
        r, _ = core._check(h0 + [zint(hi) < zint(lo)], 2000)
        if r != z3.unsat:
            end = mkN(z3.If(zint(hi) < zint(lo), zint(lo), zint(hi)))
        while todo:
            npath += 1
            if npath > 32:
                raise Unsupported('too many paths in a loop body')
            ctx.hyps = list(base)
            tr = loader.Trace(maxid)
            se = loader.SubExplore()
            se.prefix = todo.pop()
            setstate(N(iv))
            start = {n: a.buf.snap for n, a in arrs.items()}
            ctx.trace = tr
            ctx.substack.append(se)
            kind = 'preserve'
            try:
                symnp.LOOPVARS.append(iv)
                body(N(iv))
            except loader.BreakLoop:
                kind = 'break'
            except PathEnd:
                kind = None
            finally:
                symnp.LOOPVARS.pop()
                ctx.substack.pop()
                ctx.trace = outer
            todo += se.pending
            if kind is None:
                continue
            for i in tr.first:
                if i not in ids:
                    raise Unsupported('loop modifies an array outside its contract frame')
            for n, a in arrs.items():
                sn = a.snap()
                nxt = N(iv) + 1 if kind == 'preserve' else end
                if rows:   # the row of this iteration and the others (together: all)
                    W.forall(a.shape_[1:], lambda *idx, n=n, sn=sn: W.same(sn((N(iv),) + idx), F[n](nxt, (N(iv),) + idx, olds)), name='loop-%s.%s.row' % (kind, n))
                    W.forall(a.shape_, lambda r, *idx, n=n, sn=sn: W.Implies(W.Not(W.eq(r, N(iv))), W.same(sn((r,) + idx), F[n](nxt, (r,) + idx, olds))), name='loop-%s.%s' % (kind, n))
                    continue
                W.forall(a.shape_, lambda *idx, n=n, sn=sn: W.same(sn(idx), F[n](nxt, idx, olds)), name='loop-%s.%s' % (kind, n))
        ctx.hyps = list(h0)
        setstate(end)
        if outer is not None:
            for n, a in arrs.items():
                outer.note_write(a.buf, oldsnaps[n])
    return lc


def invariant_loop(state, inv=None, step=None):
    """loop contract by an invariant.  state: {name: function of the locals giving an array}; one arbitrary
    iteration starts from arbitrary finite contents of these arrays that satisfy inv[name](value, idx, entry)
    and must end with contents that satisfy it [and step(i, before, after, broke)]; every other array the
    iteration writes has arbitrary finite contents at its start and after the loop."""
    inv = inv or {}

    def lc(it, body, lcl, carr):
        ctx = core.ctx
        W = ctx.W
        if getattr(it, 'step', 1) != 1:
            raise Unsupported('symbolic range step')
        arrs = {n: g(lcl) for n, g in state.items()}
        entry = {n: a.copy() for n, a in arrs.items()}
        for n, a in arrs.items():
            if a.inv is not None:
                raise Unsupported('loop state is a view')
        loader.VC._loopn += 1
        L = loader.VC._loopn
        iv = z3.Int('$V%d' % L)
        lo, hi = it.lo, it.hi
        for x in carr:
            if x not in lcl or not is_arr(lcl[x]):
                raise Unsupported('loop carries %s' % x)

        def check(now, what):
            for n in arrs:
                W.forall(now[n].shape_, lambda *idx: band(as_R(now[n].at(idx)).finite(), as_bool(inv[n](now[n].at(idx), idx, entry)) if n in inv else True), name='loop-%s.%s' % (what, n))
        check(entry, 'init')
        h0 = list(ctx.hyps)
        bufs = {a.buf.id: (n, a.buf, a.buf.snap) for n, a in arrs.items()}
        maxid = symnp.Buf._n
        outer = ctx.trace
        extra = {}     # other buffers written by the body
        cnt = [0]

        def havoc():
            for n, b, o in bufs.values():
                cnt[0] += 1
                b.snap = W.array('$v%d_%d' % (L, cnt[0]), b.shape, facts=(lambda v, *idx, n=n: [inv[n](v, idx, entry)]) if n in inv else None).buf.snap
            for b, o in extra.values():
                cnt[0] += 1
                nm = '$v%d_%d' % (L, cnt[0])
                if b.dtype == 'f':
                    b.snap = W.array(nm, b.shape).buf.snap   # finite: an obligation
                elif b.dtype == 'b':
                    b.snap = W.bools(nm, b.shape).buf.snap
                else:
                    raise Unsupported('loop writes an array of type %s' % b.dtype)
        view = lambda: {n: a.copy() for n, a in arrs.items()}

        def finite(b, sn):
            if b.dtype == 'f':
                W.forall(b.shape, lambda *idx: as_R(sn(idx)).finite(), name='loop-scratch-finite')
        while True:
            known = set(extra)
            todo = [[]]
            npath = 0
            ng = len(W.goals)
            while todo and set(extra) == known:
                npath += 1
                if npath > 32:
                    raise Unsupported('too many paths in a loop body')
                ctx.hyps = list(h0) + [zint(lo) <= iv, iv < zint(hi)]
                tr = loader.Trace(maxid)
                se = loader.SubExplore()
                se.prefix = todo.pop()
                havoc()
                before = view()
                ctx.trace = tr
                ctx.substack.append(se)
                broke = False
                try:
                    symnp.LOOPVARS.append(iv)
                    body(N(iv))
                except loader.BreakLoop:
                    broke = True
                except PathEnd:
                    broke = None
                finally:
                    symnp.LOOPVARS.pop()
                    ctx.substack.pop()
                    ctx.trace = outer
                todo += se.pending
                for i, (b, o) in tr.first.items():
                    if i not in bufs and i not in extra:
                        extra[i] = (b, o)
                if broke is None or set(extra) != known:
                    continue
                now = view()
                if step is not None:
                    step(N(iv), before, now, broke)
                check(now, 'break' if broke else 'preserve')
                for b, o in extra.values():
                    finite(b, b.snap)
            if set(extra) == known:
                break
            del W.goals[ng:]
        ctx.hyps = list(h0)
        for b, o in extra.values():
            finite(b, o)
        havoc()
        if outer is not None:
            for n, b, o in bufs.values():
                outer.note_write(b, o)
            for b, o in extra.values():
                outer.note_write(b, o)
    lc.havoc = True
    return lc


def carry_loop(state):
    """contract of a loop that only accumulates scalars.  state: {name: value}; a number states that the variable
    keeps that value, None that it stays finite (any finite value afterwards).  Obligations: initially and after
    one arbitrary iteration."""
    def lc(it, body, lcl, carr):
        ctx = core.ctx
        W = ctx.W
        if getattr(it, 'step', 1) != 1:
            raise Unsupported('symbolic range step')
        for x in carr:
            if x not in state:
                raise Unsupported('loop carries %s' % x)
        loader.VC._loopn += 1
        L = loader.VC._loopn
        iv = z3.Int('$C%d' % L)
        lo, hi = it.lo, it.hi

        def good(n, v):
            v = as_R(v)
            return band(v.finite(), r_eq(v, R(frac(state[n]))) if state[n] is not None else True)
        for n in state:
            if n not in lcl:
                raise Unsupported('no local %s before the loop' % n)
            W.ensure('loop-init.%s' % n, good(n, lcl[n]))
        h0 = list(ctx.hyps)
        maxid = symnp.Buf._n
        outer = ctx.trace
        todo, npath = [[]], 0
        while todo:
            npath += 1
            if npath > 32:
                raise Unsupported('too many paths in a loop body')
            ctx.hyps = h0 + [zint(lo) <= iv, iv < zint(hi)]
            h = {n: R(frac(v)) if v is not None else R(z3.Real('$c%d.%s' % (L, n))) for n, v in state.items()}
            tr = loader.Trace(maxid)
            se = loader.SubExplore()
            se.prefix = todo.pop()
            ctx.trace = tr
            ctx.substack.append(se)
            done = True
            try:
                symnp.LOOPVARS.append(iv)
                body(N(iv), h)
            except PathEnd:
                done = False
            finally:
                symnp.LOOPVARS.pop()
                ctx.substack.pop()
                ctx.trace = outer
            todo += se.pending
            if tr.first:
                raise Unsupported('loop writes arrays')
            if done:
                for n in state:
                    W.ensure('loop-preserve.%s' % n, good(n, h['$' + n]))
        ctx.hyps = h0
        out = {}
        for n, v in state.items():
            if v is not None:
                out[n] = R(frac(v))
            else:
                vs = [x for x in symnp.LOOPVARS]
                out[n] = R(z3.Function('$acc%d.%s' % (L, n), *[z3.IntSort()] * len(vs), z3.RealSort())(*vs) if vs else z3.Real('$acc%d.%s' % (L, n)))
        return out
    lc.havoc = True
    return lc


def sum_loop(name, term, nested=False):
    """contract of a loop that adds term(k, idx) to the carried array ``name`` in iteration k (also by rebinding it).
    Obligation: one arbitrary iteration started with arbitrary finite contents adds exactly the term; by induction
    the loop adds the sum of the terms.  Other arrays from outside the loop stay as they are."""
    def lc(it, body, lcl, carr):
        ctx = core.ctx
        W = ctx.W
        if getattr(it, 'step', 1) != 1:
            raise Unsupported('symbolic range step')
        for x in carr:
            if x != name:
                raise Unsupported('loop carries %s' % x)
        a = lcl.get(name)
        if not is_arr(a):
            raise Unsupported('no array %s before the loop' % name)
        loader.VC._loopn += 1
        L = loader.VC._loopn
        iv = z3.Int('$S%d' % L)
        lo, hi = it.lo, it.hi
        first = a.snap()
        shape = a.shape_
        up = [N(v) for v in symnp.LOOPVARS]     # variables of the surrounding loops
        trm = (lambda k, idx: term(k, idx, up)) if nested else term
        h0 = list(ctx.hyps)
        W.forall(shape, lambda *idx: as_R(first(idx)).finite(), name='loop-init.%s' % name)
        maxid = symnp.Buf._n
        outer = ctx.trace
        todo, npath = [[]], 0
        while todo:
            npath += 1
            if npath > 32:
                raise Unsupported('too many paths in a loop body')
            ctx.hyps = h0 + [zint(lo) <= iv, iv < zint(hi)]
            start = W.array('$s%d_%d' % (L, npath), shape)
            h = {name: start.copy()}
            maxid = symnp.Buf._n
            own = h[name].buf.id
            tr = loader.Trace(maxid)
            se = loader.SubExplore()
            se.prefix = todo.pop()
            ctx.trace = tr
            ctx.substack.append(se)
            done = True
            try:
                symnp.LOOPVARS.append(iv)
                body(N(iv), h)
            except PathEnd:
                done = False
            finally:
                symnp.LOOPVARS.pop()
                ctx.substack.pop()
                ctx.trace = outer
            todo += se.pending
            for i in tr.first:
                if i != own:
                    raise Unsupported('loop modifies an array outside its contract frame')
            if done:
                end = h['$' + name]
                if not is_arr(end) or end.ndim != len(shape):
                    raise Unsupported('loop changes the type of %s' % name)
                for p_, q_ in zip(end.shape_, shape):
                    W.ensure('loop-shape.%s' % name, N(zint(p_)) == N(zint(q_)) if not (isinstance(p_, int) and isinstance(q_, int)) else p_ == q_)
                W.forall(shape, lambda *idx: W.same(end.at(idx), as_R(start.at(idx)) + as_R(trm(N(iv), idx))), name='loop-adds.%s' % name)
        ctx.hyps = h0
        if isinstance(hi, int) and isinstance(lo, int):
            raise Unsupported('concrete range')
        n = hi - lo
        res = symnp.new(lambda idx: as_R(first(idx)) + W.sum(n, lambda k: trm(k + lo, idx)), shape)
        return {name: res}
    lc.havoc = True
    return lc
