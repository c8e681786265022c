"""Loads the real source of /repo/aeolis for symbolic execution.

The text executed is the repository's own: each module is parsed with ``ast``
on every run and executed in a namespace whose ``numpy`` is the symbolic one.
The only rewriting is (1) loops, which get a second, loop-contract form used when
the iteration range is symbolic, (2) ``import`` targets outside the package
become opaque stand-ins.  Nothing else is dropped.
"""
import ast, copy, os, sys, types, builtins, math
from .core import *
from . import core, symnp, symstr
from .symnp import *

REPO = os.environ.get('VERIF_REPO', '/repo')


class Undef:
    def __getattr__(self, k): raise Unsupported('loop-carried local variable')
    def _x(self, *a): raise Unsupported('loop-carried local variable')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _x
    __lt__ = __le__ = __gt__ = __ge__ = __getitem__ = __setitem__ = __bool__ = __iadd__ = __call__ = _x
    __eq__ = __ne__ = __iter__ = __len__ = __and__ = __or__ = __invert__ = __neg__ = _x
    __hash__ = object.__hash__


UNDEF = Undef()


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise Unsupported('loop over a symbolic range (break/return or no contract)')

    def __len__(self):
        raise Unsupported('len of symbolic range')


def sym_range(*a):
    a = [int(x.v) if isinstance(x, R) and isnum(x.v) and x.v.denominator == 1 else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if any(isinstance(x, R) for x in a):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if isinstance(a[2], int) and a[2] == 1:
        return SymRange(a[0], a[1])
    return SymRange(*a)


def sym_len(x):
    if is_arr(x):
        return x.shape_[0]
    return len(x)


def sym_int(x=0, *a):
    if isinstance(x, symstr.S):
        return symstr.to_int(x)
    if isinstance(x, R):
        if isnum(x.v):
            return int(x.v)
        return mkN(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))
    if isinstance(x, (N, B)):
        return x if isinstance(x, N) else mkN(z3.If(zb(x), z3.IntVal(1), z3.IntVal(0)))
    if is_arr(x):
        return sym_int(x.__float__())
    return int(x, *a)


def sym_float(x=0.):
    if isinstance(x, symstr.S):
        return symstr.to_float(x)
    if isinstance(x, (R, N, B)):
        return as_R(x)
    if is_arr(x):
        return x.__float__()
    return float(x)


def sym_minmax(kind):
    f = r_max if kind == 'max' else r_min
    bf = builtins.max if kind == 'max' else builtins.min

    def g(*a, **k):
        if len(a) == 1:
            if is_arr(a[0]):
                return reduce_(kind, a[0], None)
            a = tuple(a[0])
        if any(isinstance(x, (R, N, B)) for x in a) and not k:
            if all(isinstance(x, (N, int)) for x in a):
                r = a[0]
                for x in a[1:]:
                    r = mkN(z3.If(zint(r) >= zint(x), zint(r), zint(x)) if kind == 'max' else z3.If(zint(r) <= zint(x), zint(r), zint(x)))
                return r
            r = as_R(a[0])
            for x in a[1:]:
                r = f(r, as_R(x))
            return r
        return bf(*a, **k)
    return g


def sym_sum(x, start=0):
    if is_arr(x):
        if x.ndim == 1:
            return reduce_('sum', x, 0)
        raise Unsupported('builtin sum')
    return builtins.sum(x, start)


class IsInst(type):
    pass


def sym_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(str if q is symstr.to_str else q for q in ts)
    if isinstance(x, R):
        return any(q in (float, sym_float) or q is R for q in ts)
    if isinstance(x, N):
        return any(q in (int, sym_int) for q in ts)
    if isinstance(x, B):
        return any(q is bool for q in ts)
    if isinstance(x, symstr.S):
        return any(q is str for q in ts)
    ts = tuple({sym_int: int, sym_float: float}.get(q, q) if callable(q) and not isinstance(q, type) else q for q in ts)
    ts = tuple(q for q in ts if isinstance(q, type))
    return builtins.isinstance(x, ts)


class Opaque:
    """stand-in for anything outside the package; using it is unsupported"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Opaque(self._n + '.' + k)
    def __call__(self, *a, **k):
        n = self._n
        if n in core.HOOKS:
            return core.HOOKS[n](*a, **k)
        raise Unsupported('call of external %s' % n)
    def __mro_entries__(self, bases): return (object,)


class QuietLogger:
    def __getattr__(self, k):
        def f(*a, **kw):
            if k == 'log_and_raise':
                raise kw.get('exc', Exception)(*a)
        return f
    handlers = []


class LoggingStub:
    DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50
    NOTSET = 0
    def getLogger(self, *a): return QuietLogger()
    def getLoggerClass(self): return object
    def setLoggerClass(self, c): pass
    def __getattr__(self, k): return Opaque('logging.' + k)
    class Formatter:
        def __init__(self, *a, **k): pass
    class StreamHandler:
        def __init__(self, *a, **k): pass
        def __getattr__(self, k): return lambda *a, **kw: None
    class FileHandler(StreamHandler): pass
    def shutdown(self): pass
    class Logger: pass
    def addLevelName(self, *a): pass
    def basicConfig(self, *a, **k): pass


def identity_decorator(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class MathStub:
    def __getattr__(self, k):
        m = {'sqrt': NP.sqrt, 'exp': NP.exp, 'log': NP.log, 'sin': NP.sin, 'cos': NP.cos, 'tan': NP.tan,
             'atan': NP.arctan, 'atan2': NP.arctan2, 'pi': NP.pi, 'floor': NP.floor, 'ceil': NP.ceil, 'fabs': NP.abs,
             'hypot': NP.hypot, 'isnan': NP.isnan, 'inf': NP.inf, 'nan': NP.nan, 'pow': NP.power,
             'radians': NP.deg2rad, 'degrees': NP.rad2deg}
        if k in m:
            return m[k]
        raise Unsupported('math.' + k)


# --------------------------------------------------------------- AST rewriting
def assigned(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def has_exit(body, breaks=True):
    """break of this loop, return or yield inside"""
    found = [False]

    class V(ast.NodeVisitor):
        def __init__(self): self.depth = 0
        def visit_Break(self, n):
            if self.depth == 0 and breaks:
                found[0] = True
        def visit_Return(self, n): found[0] = True
        def visit_Yield(self, n): found[0] = True
        def visit_For(self, n):
            self.depth += 1
            self.generic_visit(n)
            self.depth -= 1
        visit_While = visit_For
        def visit_FunctionDef(self, n): pass
        def visit_Lambda(self, n): pass
        def visit_Nonlocal(self, n): found[0] = True
        def visit_Global(self, n): found[0] = True
    v = V()
    for b in body:
        v.visit(b)
    return found[0]


class BreakLoop(Exception):
    pass


def carried(target, body, names):
    """names that an iteration may read before it assigns them (values carried from one iteration to the next)"""
    out = set()

    def reads(node, have):
        if node is None:
            return
        for c in ast.walk(node):
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load) and c.id in names and c.id not in have:
                out.add(c.id)

    def stores(node):
        return {c.id for c in ast.walk(node) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)}

    def block(stmts, have):
        """definitely assigned after the block (None: does not end normally)"""
        for s in stmts:
            if have is None:
                return None
            if isinstance(s, ast.AugAssign):
                reads(s.value, have)
                for c in ast.walk(s.target):
                    if isinstance(c, ast.Name) and c.id in names and c.id not in have:
                        out.add(c.id)
            elif isinstance(s, ast.Assign):
                reads(s.value, have)
                for x in s.targets:
                    reads(x, have)
                have = have | set().union(*[stores(x) for x in s.targets])
            elif isinstance(s, ast.If):
                reads(s.test, have)
                a, b = block(s.body, have), block(s.orelse, have)
                have = b if a is None else a if b is None else a & b
            elif isinstance(s, (ast.For, ast.While)):
                reads(s.iter if isinstance(s, ast.For) else s.test, have)
                block(s.body, have | (stores(s.target) if isinstance(s, ast.For) else set()))
                block(s.orelse, have)
            elif isinstance(s, (ast.Break, ast.Continue, ast.Return, ast.Raise)):
                reads(s, have)
                return None
            elif isinstance(s, ast.Try):
                a = block(s.body, have)
                for h in s.handlers:
                    block(h.body, have)
                block(s.orelse, a if a is not None else have)
                block(s.finalbody, have)
            elif isinstance(s, ast.With):
                for it in s.items:
                    reads(it.context_expr, have)
                have = block(s.body, have)
            else:
                reads(s, have)
        return have
    block(body, {c.id for c in ast.walk(target) if isinstance(c, ast.Name)})
    return sorted(out)


class ContToReturn(ast.NodeTransformer):
    def visit_Break(self, n):
        return ast.copy_location(ast.Raise(exc=ast.Call(func=vc('Break'), args=[], keywords=[]), cause=None), n)
    def visit_Continue(self, n): return ast.copy_location(ast.Return(value=None), n)
    def visit_For(self, n): return n
    def visit_While(self, n): return n
    def visit_FunctionDef(self, n): return n


def log_only(body):
    """the texts of a block that only writes to the log or counts events, else None"""
    out = []
    for s in body:
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name)):
            return None
        o, a = s.value.func.value.id, s.value.func.attr
        if (o, a) == ('self', '_count'):
            continue
        if o != 'logger' or a not in ('debug', 'info', 'warning', 'warn', 'error', 'critical'):
            return None
        out += [c.value for c in ast.walk(s.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
    return ' '.join(out)


class LoopT(ast.NodeTransformer):
    def __init__(self):
        self.fn = []
        self.k = 0

    def visit_FunctionDef(self, n):
        self.fn.append([n.name, 0, 0])
        n.body = [self.visit(b) if not isinstance(b, list) else b for b in n.body]
        n.body = flat(n.body)
        self.fn.pop()
        # numba / other decorators keep their names; resolved in the namespace
        return n

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                nv = []
                for x in v:
                    if isinstance(x, ast.AST):
                        y = self.visit(x)
                        if y is None:
                            continue
                        if isinstance(y, list):
                            nv += y
                        else:
                            nv.append(y)
                    else:
                        nv.append(x)
                setattr(node, f, nv)
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_While(self, n):
        if self.fn:
            carr = carried(ast.Tuple(elts=[], ctx=ast.Store()), [ast.Expr(n.test)] + n.body, assigned(n.body))
            ordn = self.fn[-1][2]
            self.fn[-1][2] += 1
        self.generic_visit(n)
        if not self.fn:
            return n
        self.k += 1
        n.test = ast.Call(func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr='wh', ctx=ast.Load()),
                          args=[ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.test),
                                ast.Constant(self.fn[-1][0]), ast.Constant(ordn), ast.Constant(tuple(carr))], keywords=[])
        return ast.fix_missing_locations(n)

    def visit_If(self, n):
        self.generic_visit(n)
        msgs = log_only(n.body)
        if self.fn and msgs is not None and not n.orelse:
            n.test = ast.Call(func=vc('logs'), args=[n.test, ast.Constant(msgs)], keywords=[])
            return ast.fix_missing_locations(n)
        return n

    def visit_For(self, n):
        if self.fn:
            ordn = self.fn[-1][1]
            self.fn[-1][1] += 1
        # on the text of the source, before nested loops are replaced
        carr = carried(n.target, n.body, assigned([n.target] + n.body))
        aug = {id(c.target) for b in n.body for c in ast.walk(b) if isinstance(c, ast.AugAssign)}
        rebound = {c.id for b in n.body for c in ast.walk(b) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and id(c) not in aug}
        self.generic_visit(n)
        if not self.fn or n.orelse:
            return n
        self.k += 1
        k = self.k
        fname = self.fn[-1][0]
        it = '__it%d' % k
        asg_it = ast.Assign(targets=[ast.Name(id=it, ctx=ast.Store())], value=n.iter)
        native = ast.For(target=n.target, iter=ast.Name(id=it, ctx=ast.Load()), body=n.body, orelse=[])
        if has_exit(n.body, breaks=False):
            return flat([ast.fix_missing_locations(ast.copy_location(x, n)) for x in (asg_it, native)])
        names = sorted(x for x in assigned([n.target] + n.body) if not x.startswith('__'))
        inner = copy.deepcopy(n.body)
        inner = [ContToReturn().visit(b) for b in inner]
        inner = flat(inner)
        bname = '__body%d' % k
        argn = '__t%d' % k
        fb = []
        # names bound by nested symbolic bodies
        nl = sorted(names)
        if nl:
            fb.append(ast.Nonlocal(names=nl))
        fb.append(ast.Assign(targets=[copy.deepcopy(n.target)], value=ast.Name(id=argn, ctx=ast.Load())))
        for x in carr:  # a loop contract may start the iteration from other values
            fb.append(ast.If(test=ast.Compare(left=ast.Constant(x), ops=[ast.In()], comparators=[ast.Name(id=argn + 'h', ctx=ast.Load())]),
                             body=[ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=ast.Subscript(value=ast.Name(id=argn + 'h', ctx=ast.Load()), slice=ast.Constant(x), ctx=ast.Load()))], orelse=[]))
        fb += inner
        if carr:  # the values at the end of the iteration
            fb = [ast.Try(body=fb, handlers=[], orelse=[], finalbody=[ast.Assign(targets=[ast.Subscript(value=ast.Name(id=argn + 'h', ctx=ast.Load()), slice=ast.Constant('$' + x), ctx=ast.Store())], value=ast.Name(id=x, ctx=ast.Load())) for x in carr])]
            if nl:
                fb.insert(0, fb[0].body.pop(0))
        fd = ast.FunctionDef(name=bname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=argn), ast.arg(arg=argn + 'h')], kwonlyargs=[], kw_defaults=[], defaults=[ast.Dict(keys=[], values=[])]),
                             body=fb, decorator_list=[], type_params=[])
        und = [ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=vc('UNDEF')) for x in nl]
        for x in nl:
            und.append(ast.If(test=ast.Compare(left=ast.Constant(x), ops=[ast.In()], comparators=[ast.Name(id=it + 'r', ctx=ast.Load())]),
                              body=[ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=ast.Subscript(value=ast.Name(id=it + 'r', ctx=ast.Load()), slice=ast.Constant(x), ctx=ast.Load()))], orelse=[]))
        call = ast.Assign(targets=[ast.Name(id=it + 'r', ctx=ast.Store())], value=ast.Call(func=vc('symloop'), args=[ast.Name(id=it, ctx=ast.Load()), ast.Name(id=bname, ctx=ast.Load()),
                                                          ast.Constant(fname), ast.Constant(ordn), ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[]),
                                                          ast.Tuple(elts=[ast.Constant(x) for x in carr] + [ast.Constant('!' + x) for x in carr if x in rebound], ctx=ast.Load())], keywords=[]))
        cond = ast.If(test=ast.Call(func=vc('is_sym'), args=[ast.Name(id=it, ctx=ast.Load())], keywords=[]),
                      body=[fd, call] + copy.deepcopy(und), orelse=[native])
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in (asg_it, cond)]


def vc(a):
    return ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr=a, ctx=ast.Load())


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += flat(x)
        elif x is not None:
            out.append(x)
    return out


# --------------------------------------------------------------- symbolic loops
def symrange(it):
    """an unmodified numpy.arange of symbolic length counts like a range"""
    r = getattr(it, 'rng', None)
    if is_arr(it) and r is not None and it.buf.snap is r[2]:
        return SymRange(r[0], r[1])


class Trace:
    def __init__(self, maxid):
        self.first = {}
        self.maxid = maxid

    def note_write(self, buf, old):
        if buf.id <= self.maxid and buf.id not in self.first:
            self.first[buf.id] = (buf, old)


class SubExplore:
    def __init__(self):
        self.prefix = []
        self.dec = []
        self.pending = []

    def decide(self, term):
        for t, v in self.dec:
            if t.eq(term):
                return v
        n = len(self.dec)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            ft = feasible(core.ctx.hyps + [term], 2000)
            ff = feasible(core.ctx.hyps + [z3.Not(term)], 2000)
            if ft and ff:
                v = True
                self.pending.append([d[1] for d in self.dec] + [False])
            elif ft or ff:
                v = ft
            else:
                raise PathEnd('infeasible')
        self.dec.append((term, v))
        core.ctx.hyps.append(term if v else z3.Not(term))
        return v


def subst_el(e, pairs):
    if isinstance(e, bool) or isinstance(e, int):
        return e
    if isinstance(e, B):
        return mkB(z3.substitute(zb(e), *pairs))
    if isinstance(e, N):
        return mkN(z3.substitute(e.v, *pairs))
    if isinstance(e, Cx):
        return Cx(subst_el(e.re, pairs), subst_el(e.im, pairs))
    e = as_R(e)
    s = lambda x: x if isinstance(x, (bool, Fraction)) else z3.substitute(x, *pairs)
    return R(s(e.v), s(e.n), s(e.p), s(e.m))


class VC:
    UNDEF = UNDEF
    fmt = staticmethod(symstr.fmt)
    join = staticmethod(symstr.join)
    to_str = staticmethod(symstr.to_str)
    to_repr = staticmethod(symstr.to_repr)
    Break = BreakLoop
    _loopn = 0
    loop_contracts = {}
    while_contracts = {}

    @staticmethod
    def first(elt, conds, it, numbered, unpack):
        """next(elt for ... in it if conds)"""
        if not (is_arr(it) and not isinstance(it.shape_[0], int)):
            for x in (enumerate(it) if numbered else it):
                a = tuple(x) if unpack else (x,)
                if all(bool(c) for c in conds(*a)):
                    return elt(*a)
            raise StopIteration()
        n = it.shape_[0]

        def args(j):
            v = it[j] if len(it.shape_) > 1 else it.at((j,))
            return (j, v) if numbered and unpack else ((j, v),) if numbered else tuple(v) if unpack else (v,)
        hit = lambda j: band(*[as_bool(c) for c in conds(*args(j))])
        core.ctx.skol.append((zint(n) - 1, zint(n)))
        if not bool(mkB(as_bool(symnp.reduce_elems('any', lambda i: mkB(hit(i[0]) if isinstance(i, tuple) else hit(i)), [n])))):
            raise StopIteration()
        j = core.ctx.fresh('first', 'I')
        core.ctx.index(j, z3.IntVal(0), zint(n))
        core.ctx.assume(z3.And(j >= 0, j < zint(n)))
        core.ctx.skol += [(j, zint(n)), (j - 1, zint(n)), (j - 1, j)]
        J = N(j)
        core.ctx.assume(zb(hit(J)))
        core.ctx.assume(zb(bnot(as_bool(symnp.reduce_elems('any', lambda i: mkB(hit(i[0]) if isinstance(i, tuple) else hit(i)), [J])))))
        return elt(*args(J))

    @staticmethod
    def is_sym(it):
        return isinstance(it, SymRange) or symrange(it) is not None

    watch = ()

    @classmethod
    def logs(cls, cond, msgs):
        """condition of a block that only logs: undecided ones are skipped unless the contract reads that message"""
        if isinstance(cond, (B, R, N)) and not any(w in msgs for w in cls.watch):
            return False
        return cond

    @staticmethod
    def wh(test, fname, ordn, carr=()):
        """condition of a while loop; with a contract the loop runs once, from an arbitrary state"""
        c = core.ctx
        lc = VC.while_contracts.get((fname, ordn))
        if lc is not None:
            if carr:
                raise Unsupported('while loop carries %s' % ', '.join(carr))
            lc()
            return test()
        cond = test()
        if isinstance(cond, (B, R)):
            c.whiles = getattr(c, 'whiles', 0) + 1
            if c.whiles > 40:
                raise Unsupported('while loop without contract')
        return cond

    @classmethod
    def symloop(cls, it, body, fname, ordn, lcl, carr=()):
        r = symrange(it)
        it = it if r is None else r
        lc = cls.loop_contracts.get((fname, ordn))
        if getattr(lc, 'havoc', False):
            return lc(it, body, lcl, [x for x in carr if x[0] != '!']) or {}
        for x in carr:  # values carried between iterations other than the content of arrays
            if x not in lcl or not is_arr(lcl[x]):
                raise Unsupported('loop carries %s' % x)
        if lc is not None:
            lc(it, body, lcl)
        else:
            cls.maploop(it, body)
        return {}

    @classmethod
    def maploop(cls, it, body):
        ctx = core.ctx
        if it.step != 1:
            raise Unsupported('symbolic range step')
        cls._loopn += 1
        iv = z3.Int('$i%d' % cls._loopn)
        I = N(iv)
        lo, hi = it.lo, it.hi
        hyps0 = list(ctx.hyps)
        base = hyps0 + [zint(lo) <= iv, iv < zint(hi)]
        if not feasible(base, 2000):
            return       # empty range
        maxid = Buf._n
        outer = ctx.trace
        results = []     # (cond term, {bufid: Snap})
        firsts = {}
        todo = [[]]
        n = 0
        while todo:
            n += 1
            if n > 64:
                raise Unsupported('too many paths in loop body')
            se = SubExplore()
            se.prefix = todo.pop()
            tr = Trace(maxid)
            ctx.trace = tr
            ctx.hyps = list(base)
            ctx.substack.append(se)
            cnt = ctx.counter
            ok = True
            symnp.LOOPVARS.append(iv)
            try:
                body(I)
            except PathEnd:
                ok = False
            except BreakLoop:
                raise Unsupported('break out of a symbolic loop without a contract')
            finally:
                symnp.LOOPVARS.pop()
                ctx.substack.pop()
                ctx.trace = outer
            if ctx.counter != cnt:
                raise Unsupported('fresh symbols inside a summarised loop')
            if len(ctx.hyps) != len(base) + len(se.dec):
                raise Unsupported('assumption inside a summarised loop')
            ctx.hyps = list(hyps0)
            if ok:
                pc = z3.And(*[t if v else z3.Not(t) for t, v in se.dec]) if se.dec else z3.BoolVal(True)
                results.append((pc, {i: b.snap for i, (b, o) in tr.first.items()}))
            for i, (b, o) in tr.first.items():
                firsts.setdefault(i, (b, o))
                b.snap = o       # restore
            todo += se.pending
        if not results:
            return
        allb = {i: b for i, (b, o) in firsts.items()}
        axes = {}
        # recording of the reads of modified buffers
        for i, b in allb.items():
            old = firsts[i][1]
            axes[i] = cls.find_axis(b, old, results, iv, lo, hi, base)
        for i, b in allb.items():
            cls.summarise(b, firsts[i][1], [(pc, r.get(i)) for pc, r in results], iv, lo, hi, axes[i], allb, axes, firsts, base)

    @staticmethod
    def find_axis(b, old, results, iv, lo, hi, base):
        g = symnp.canon_idx(b.shape)
        for a, d in enumerate(b.shape):
            if isinstance(d, (Prod, MaskDim)):
                continue
            ok = True
            for pc, r in results:
                sn = r.get(b.id)
                if sn is None:
                    continue
                ne = zint(g[a]) != iv
                eqv = el_same(sn(g), old(g))
                if eqv is True:
                    continue
                rr, _ = core._check(base + [pc, zb(symnp.in_range(g, Prod(b.shape))), ne, z3.Not(zb(eqv))], 4000)
                if rr != z3.unsat:
                    ok = False
                    break
            if ok:
                return a
        raise Unsupported('loop body writes outside slice i')

    @staticmethod
    def summarise(b, old, rs, iv, lo, hi, a, allb, axes, firsts, base):
        # dependency check: values at slice i must not read modified buffers
        # at other slices.  Old contents are re-expressed through marker
        # functions so that reads are visible.
        g = symnp.canon_idx(b.shape)
        gi = tuple(N(iv) if k == a else x for k, x in enumerate(g))
        reads = []
        saved = []
        for i, bb in allb.items():
            o = firsts[i][1]
            saved.append((o, o.fn))

            def rec(idx, fn=o.fn, i=i):
                reads.append((i, idx))
                return fn(idx)
            o.fn = rec
            o.cache = {}
        for pc, sn in rs:
            if sn is not None:
                clear(sn)
                sn(gi)
        for o, fn in saved:
            o.fn = fn
        for i, idx in reads:
            e = idx[axes[i]]
            if isinstance(e, N) and e.v.eq(iv):
                continue
            # a read elsewhere is fine only in unreachable branches; be strict
            raise Unsupported('loop-carried dependency through an array')

        def f(idx):
            e = idx[a]
            guard = band(symnp.i_le(lo, e), symnp.i_lt(e, hi))
            if guard is False:
                return old(idx)
            ii = tuple(N(iv) if k == a else x for k, x in enumerate(idx))
            pairs = [(iv, zint(e))]
            v = None
            for pc, sn in reversed(rs):
                x = subst_el(sn(ii) if sn is not None else old(ii), pairs)
                v = x if v is None else r_ite(as_bool(z3.simplify(z3.substitute(pc, *pairs))), x, v)
            return v if guard is True else r_ite(guard, v, old(idx))
        ntr = core.ctx.trace
        if ntr is not None:
            ntr.note_write(b, old)
        b.snap = Snap(f)


def clear(sn):
    sn.cache = {}


def el_same(a, b):
    """strict element identity (flags included)"""
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return as_bool(mkB(bite(as_bool(a), as_bool(b), bnot(b))))
    if isinstance(a, (N, int)) and isinstance(b, (N, int)) and not isinstance(a, bool):
        return idx_eq(a, b)
    if isinstance(a, Cx):
        return band(el_same(a.re, b.re), el_same(a.im, b.im))
    a, b = as_R(a), as_R(b)
    same = lambda x, y: bite(x, y, bnot(y)) if not isinstance(x, bool) else (y if x else bnot(y))
    if a.fin() and b.fin():
        return v_eq(a.v, b.v)
    return band(same(a.n, b.n), same(a.p, b.p), same(a.m, b.m), bor(bnot(a.finite()), v_eq(a.v, b.v)))


class FirstT(ast.NodeTransformer):
    """next(... for ... in ... if ...): the first element that satisfies a condition"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'next' and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1:
            g = n.args[0].generators[0]
            names = g.target.elts if isinstance(g.target, ast.Tuple) else [g.target]
            if all(isinstance(a, ast.Name) for a in names):
                # the first element that satisfies the conditions
                numbered = isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == 'enumerate' and len(g.iter.args) == 1 and not g.iter.keywords
                lam = lambda b: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a.id) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b)
                return ast.Call(func=vc('first'), args=[lam(n.args[0].elt), lam(ast.Tuple(g.ifs, ast.Load())), g.iter.args[0] if numbered else g.iter, ast.Constant(numbered), ast.Constant(isinstance(g.target, ast.Tuple))], keywords=[])
        return n


class TextT(ast.NodeTransformer):
    """literal % x and literal.join(x) may yield symbolic texts"""
    def call(self, f, *a):
        return ast.Call(func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()), attr=f, ctx=ast.Load()), args=list(a), keywords=[])

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and not isinstance(n.left, ast.Constant) or isinstance(n.op, ast.Mod) and isinstance(n.left.value, str):
            return self.call('fmt', n.left, n.right)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and len(n.args) == 1 and not n.keywords:
            return self.call('join', n.func.value, n.args[0])
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(v)
            elif v.format_spec is None and v.conversion == -1:
                ps.append(self.call('to_str', v.value))
            elif v.format_spec is None and v.conversion == 114:
                ps.append(self.call('to_repr', v.value))
            else:
                return n
        return self.call('join', ast.Constant(''), ast.List(ps, ast.Load()))


# --------------------------------------------------------------- module loading
class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}

    def path(self, name):
        return os.path.join(self.repo, *name.split('.')) + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path(name)
        src = open(p).read()
        self.sources[name] = src
        tree = ast.parse(src, p)
        tree = FirstT().visit(LoopT().visit(tree))
        if name in ('aeolis.inout', 'aeolis.utils'):
            tree = TextT().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = p
        self.mods[name] = m
        b = dict(vars(builtins))
        b.update(range=sym_range, len=sym_len, min=sym_minmax('min'), max=sym_minmax('max'), sum=sym_sum,
                 isinstance=sym_isinstance, int=sym_int, float=sym_float, __import__=self._import, print=lambda *a, **k: None)
        if name in ('aeolis.inout', 'aeolis.utils'):
            b.update(str=symstr.to_str, repr=symstr.to_repr)
        m.__dict__['__builtins__'] = b
        m.__dict__['__vc__'] = VC
        m.__dict__['__name__'] = name
        exec(compile(tree, p, 'exec'), m.__dict__)
        if name == 'aeolis.utils' and 'isiterable' in m.__dict__:
            orig = m.__dict__['isiterable']
            # contract of isiterable for arrays (python-level iteration over a
            # symbolic axis is not executable): arrays of rank >= 1 iterate
            # log text has no effect on the state
            m.__dict__['format_log'] = lambda *a, **k: 'log'
            m.__dict__['isiterable'] = lambda x: True if (is_arr(x) and x.ndim > 0) else orig(x)
        return m

    EXT_REAL = {'operator', 're', 'os', 'sys', 'time', 'glob', 'copy', 'string', 'textwrap', 'typing', '__future__', 'functools', 'itertools',
                'datetime', 'collections', 'warnings', 'abc', 'types'}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split('.')[0]
        if top == 'aeolis':
            if name == 'aeolis' and fromlist:
                pkg = types.ModuleType('aeolis')
                for f in fromlist:
                    try:
                        setattr(pkg, f, self.load('aeolis.' + f))
                    except FileNotFoundError:
                        setattr(pkg, f, Opaque('aeolis.' + f))
                return pkg
            m = self.load(name) if name != 'aeolis' else None
            if fromlist:
                return m
            pkg = types.ModuleType('aeolis')
            for k, v in self.mods.items():
                setattr(pkg, k.split('.')[-1], v)
            return pkg
        if top == 'numpy':
            if name == 'numpy' :
                if fromlist:
                    pk = types.SimpleNamespace()
                    for f in fromlist:
                        try:
                            setattr(pk, f, getattr(symnp.np, f))
                        except Unsupported:
                            setattr(pk, f, Opaque('numpy.' + f))
                    return pk
                return symnp.np
            return symnp.np if not fromlist else Opaque(name)
        if name == 're':
            return symstr.RE
        if name == 'os':
            return symstr.OS
        if name == 'os.path':
            return symstr.OS if not fromlist else symstr.OS.path
        if name == 'builtins' and fromlist and isinstance((globals or {}).get('__builtins__'), dict):
            return types.SimpleNamespace(**globals['__builtins__'])
        if top == 'logging':
            return LoggingStub()
        if top == 'math':
            return MathStub()
        if top == 'numba':
            ns = types.SimpleNamespace(njit=identity_decorator, jit=identity_decorator, prange=sym_range, vectorize=identity_decorator)
            return ns
        if top in self.EXT_REAL:
            return builtins.__import__(name, globals, locals, fromlist, level)
        if name in core.HOOKS:
            return core.HOOKS[name]
        if top == 'importlib':
            return types.SimpleNamespace(version=lambda *a: '0', metadata=types.SimpleNamespace(version=lambda *a: '0'))
        o = Opaque(name if fromlist else top)
        return o
