"""Symbolic text.

A text is a concatenation of literals and atoms.  An atom is a z3 String
constant of a declared class: 'token' (not empty, printable ASCII without blanks
and percent signs), 'blank' (any white space) or 'any' (printable ASCII and
blanks).  Splitting and stripping are done on the structure; what the structure
leaves open is undecided (Unsupported), never guessed.  Regular expressions of
the source are translated to z3 regular expressions; numbers denoted by texts
are uninterpreted functions of the text.
"""
import re as _re, os as _os, string
try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse
import z3
from .core import *
from . import core

WS = ' \t\n\r\x0b\x0c'
PRINT = [chr(c) for c in range(33, 127)]
INT_OF = z3.Function('int_of_text', z3.StringSort(), z3.IntSort())
FLOAT_OF = z3.Function('float_of_text', z3.StringSort(), z3.RealSort())


def chars(cs):
    cs = [z3.Re(z3.StringVal(c)) for c in cs]
    return cs[0] if len(cs) == 1 else z3.Union(*cs)


def rng(a, b):
    return z3.Range(z3.StringVal(chr(a)), z3.StringVal(chr(b)))


TOKEN = z3.Union(rng(33, 36), rng(38, 126))
CLASSES = {'token': z3.Plus(TOKEN), 'blank': z3.Star(z3.Union(*[z3.Re(z3.StringVal(c)) for c in WS])),
           'any': z3.Star(rng(32, 126))}


class Atom:
    def __init__(self, name, cls):
        self.t, self.cls = z3.String(name), cls
        self.name = name


def text(name, cls):
    a = Atom(name, cls)
    core.ctx.assume(z3.InRe(a.t, CLASSES[cls]))
    return S([a])


def _norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def make(parts):
    parts = _norm(parts)
    if not parts:
        return ''
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return S(parts)


class S:
    """symbolic str"""
    __hash__ = None

    def __init__(self, parts):
        self.parts = _norm(parts)

    def term(self):
        ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in self.parts]
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def __repr__(self): return 'S(%s)' % ''.join(p if isinstance(p, str) else '{%s}' % p.name for p in self.parts)
    def __str__(self): raise Unsupported('str() of a symbolic text')
    def __len__(self): raise Unsupported('len of a symbolic text')
    def __iter__(self): raise Unsupported('iteration over a symbolic text')
    def __getattr__(self, k): raise Unsupported('symbolic text: ' + k)
    def __add__(self, o): return make(self.parts + (o.parts if isinstance(o, S) else [o]))
    def __radd__(self, o): return make([o] + self.parts)

    def __bool__(self):
        if any(isinstance(p, str) or p.cls == 'token' for p in self.parts):
            return True
        return bool(mkB(self.term() != z3.StringVal('')))

    def __eq__(self, o):
        if isinstance(o, S):
            return mkB(self.term() == o.term())
        if isinstance(o, str):
            if o == '' and any(isinstance(p, str) or p.cls == 'token' for p in self.parts):
                return False
            return mkB(self.term() == z3.StringVal(o))
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __contains__(self, c):
        if not isinstance(c, str):
            raise Unsupported('in of a symbolic text')
        if any(isinstance(p, str) and c in p for p in self.parts):
            return True
        if len(c) == 1 and (c in WS or c == '%') and all(isinstance(p, str) or p.cls == 'token' for p in self.parts):
            return False
        return bool(mkB(z3.Contains(self.term(), z3.StringVal(c))))

    def _cut(self, sep):
        """parts before and after the first occurrence of sep, or None"""
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported('split of a symbolic text')
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                if sep in p:
                    k = p.index(sep)
                    return make(self.parts[:i] + [p[:k]]), make([p[k + 1:]] + self.parts[i + 1:])
            elif p.cls == 'any' or (p.cls == 'token' and not (sep in WS or sep == '%')) or (p.cls == 'blank' and sep in WS):
                raise Unsupported('split of a symbolic text at an unknown place')
        return None

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return _words(self)
        r = self._cut(sep)
        if r is None:
            return [self]
        return LazySplit(r, sep)

    def partition(self, sep):
        r = self._cut(sep)
        return (self, '', '') if r is None else (r[0], sep, r[1])

    def _strip(self, left, right, cs):
        if cs is not None:
            raise Unsupported('strip of given characters')
        ps = list(self.parts)
        for side in ([0] if left else []) + ([-1] if right else []):
            while ps:
                p = ps[side]
                if isinstance(p, str):
                    q = p.lstrip(WS) if side == 0 else p.rstrip(WS)
                    if q:
                        ps[side] = q
                        break
                    del ps[side]
                elif p.cls == 'blank':
                    del ps[side]
                elif p.cls == 'token':
                    break
                else:
                    raise Unsupported('strip of a symbolic text')
        return make(ps)

    def strip(self, cs=None): return self._strip(True, True, cs)
    def lstrip(self, cs=None): return self._strip(True, False, cs)
    def rstrip(self, cs=None): return self._strip(False, True, cs)

    def startswith(self, c):
        if not isinstance(c, str):
            raise Unsupported('startswith')
        return mkB(z3.PrefixOf(z3.StringVal(c), self.term()))

    def endswith(self, c):
        if not isinstance(c, str):
            raise Unsupported('endswith')
        return mkB(z3.SuffixOf(z3.StringVal(c), self.term()))


def _words(s):
    """the words of a text made of tokens and blanks that are known not to be empty"""
    words, cur = [], []
    for p in s.parts:
        if isinstance(p, str):
            for k, piece in enumerate(_re.split('([%s]+)' % WS, p)):
                if piece and piece[0] in WS:
                    if cur:
                        words.append(make(cur))
                    cur = []
                elif piece:
                    cur.append(piece)
        elif p.cls == 'token':
            cur.append(p)
        else:
            raise Unsupported('words of a symbolic text')
    if cur:
        words.append(make(cur))
    return words


class LazySplit:
    def __init__(self, r, sep): self.r, self.sep = r, sep
    def __getitem__(self, k):
        if k == 0:
            return self.r[0]
        raise Unsupported('part of a split text')


# ------------------------------------------------------------ regular expressions
def _tr(tree, ic=False):
    out = []
    for op, a in tree:
        n = str(op)
        if n == 'LITERAL':
            out.append(chars([chr(a)]))
        elif n == 'NOT_LITERAL':
            out.append(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(chars([chr(a)]))))
        elif n == 'ANY':
            out.append(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(chars(['\n']))))
        elif n == 'IN':
            out.append(_set(a))
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = a
            r = _tr(sub)
            if str(hi) == 'MAXREPEAT':
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            elif (lo, hi) == (0, 1):
                out.append(z3.Option(r))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif n == 'SUBPATTERN':
            out.append(_tr(a[-1]))
        elif n == 'BRANCH':
            bs = [_tr(b) for b in a[1]]
            out.append(z3.Union(*bs) if len(bs) > 1 else bs[0])
        elif n == 'AT' and str(a) in ('AT_BEGINNING', 'AT_BEGINNING_STRING', 'AT_END', 'AT_END_STRING'):
            raise Unsupported('anchor inside a regular expression')
        else:
            raise Unsupported('regular expression ' + n)
    if not out:
        return z3.Re(z3.StringVal(''))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def _set(items):
    neg, rs = False, []
    for op, a in items:
        n = str(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            rs.append(chars([chr(a)]))
        elif n == 'RANGE':
            rs.append(rng(*a))
        elif n == 'CATEGORY':
            c = str(a)
            if c == 'CATEGORY_DIGIT':
                rs.append(rng(48, 57))           # ASCII texts
            elif c == 'CATEGORY_SPACE':
                rs.append(chars(WS))
            elif c == 'CATEGORY_WORD':
                rs += [rng(48, 57), rng(65, 90), rng(97, 122), chars(['_'])]
            else:
                raise Unsupported('regular expression ' + c)
        else:
            raise Unsupported('regular expression ' + n)
    r = rs[0] if len(rs) == 1 else z3.Union(*rs)
    return z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(r)) if neg else r


ANYRE = z3.Full(z3.ReSort(z3.StringSort()))
NLOPT = z3.Option(z3.Re(z3.StringVal('\n')))


def language(pat, mode):
    """texts on which re.<mode>(pat, text) succeeds"""
    def seq(tree):
        tree = list(tree)
        head = tail = None
        while tree and str(tree[0][0]) == 'AT' and str(tree[0][1]).startswith('AT_BEGINNING'):
            head = True
            tree = tree[1:]
        while tree and str(tree[-1][0]) == 'AT' and str(tree[-1][1]).startswith('AT_END'):
            tail = str(tree[-1][1]) if tail is None else tail
            tree = tree[:-1]
        if len(tree) == 1 and str(tree[0][0]) == 'BRANCH' and not head and not tail:
            return z3.Union(*[seq(b) for b in tree[0][1][1]])
        r = _tr(tree)
        if mode == 'search' and not head:
            r = z3.Concat(ANYRE, r)
        if tail:
            return z3.Concat(r, NLOPT) if tail == 'AT_END' and mode != 'fullmatch' else r
        return r if mode == 'fullmatch' else z3.Concat(r, ANYRE)
    return seq(sre_parse.parse(pat))


class Match:
    """the result of a match: only whether there is one"""
    def __init__(self, b): self.b = b
    def __bool__(self): return bool(self.b)
    def __getattr__(self, k): raise Unsupported('groups of a match')
    def __eq__(self, o): raise Unsupported('comparison of a match')
    __hash__ = None


class ReShim:
    def _f(self, mode, pat, s, *fl):
        if isinstance(s, S):
            if fl or not isinstance(pat, str):
                raise Unsupported('flags of a regular expression')
            return Match(mkB(z3.InRe(s.term(), language(pat, mode))))
        return getattr(_re, mode)(pat, s, *fl)

    def match(self, *a): return self._f('match', *a)
    def search(self, *a): return self._f('search', *a)
    def fullmatch(self, *a): return self._f('fullmatch', *a)

    def compile(self, pat, *fl):
        outer = self

        class P:
            def match(self, s): return outer.match(pat, s, *fl)
            def search(self, s): return outer.search(pat, s, *fl)
            def fullmatch(self, s): return outer.fullmatch(pat, s, *fl)
        return P()

    def __getattr__(self, k):
        return getattr(_re, k)


class PathShim:
    def __getattr__(self, k):
        f = getattr(_os.path, k)

        def g(*a, **kw):
            h = core.HOOKS.get('os.path.' + k)
            if h is not None:
                return h(*a, **kw)
            if any(isinstance(x, S) for x in a):
                raise Unsupported('os.path.%s of a symbolic text' % k)
            return f(*a, **kw)
        return g if callable(f) else f


class OsShim:
    path = PathShim()
    def __getattr__(self, k):
        if 'os.' + k in core.HOOKS:
            return core.HOOKS['os.' + k]
        return getattr(_os, k)


RE, OS = ReShim(), OsShim()
INTS = language('[+-]?[0-9]+(_[0-9]+)*', 'fullmatch')
DIG = '[0-9]+(_[0-9]+)*'
FLOATS = language(r'[+-]?((%s)(\.(%s)?)?|\.(%s))([eE][+-]?%s)?' % (DIG, DIG, DIG, DIG), 'fullmatch')
NOFLOAT = language(r'[+-]?([iI]|[nN]).*', 'fullmatch')


def to_int(s):
    s = s.strip()
    if not isinstance(s, S):
        return int(s)
    if not bool(mkB(z3.InRe(s.term(), INTS))):
        raise ValueError('invalid literal for int()')
    return mkN(INT_OF(s.term()))


def to_float(s):
    s = s.strip()
    if not isinstance(s, S):
        return float(s)
    if not bool(mkB(z3.InRe(s.term(), FLOATS))):
        if bool(mkB(z3.InRe(s.term(), NOFLOAT))):
            raise Unsupported('inf, nan as text')
        raise ValueError('could not convert string to float')
    return R(FLOAT_OF(s.term()))


# ------------------------------------------------------------ formatting
TEXT_OF_INT = z3.Function('text_of_int', z3.IntSort(), z3.StringSort())
TEXT_OF_REAL = z3.Function('repr_of_float', z3.RealSort(), z3.StringSort())
INT_TEXT = language('-?(0|[1-9][0-9]*)', 'fullmatch')
# repr of a finite float: digits with a decimal point, or scientific notation
REPR_TEXT = language(r'-?[0-9]+(\.[0-9]+)?(e[-+][0-9]+)?', 'fullmatch')
NOT_INT = z3.Complement(language('-?[0-9]+', 'fullmatch'))


class Term(Atom):
    """atom given by a term (never empty, no blanks, no percent sign)"""
    def __init__(self, t, name):
        self.t, self.cls, self.name = t, 'token', name


def of_int(x):
    t = TEXT_OF_INT(zint(x))
    core.ctx.assume(z3.And(z3.InRe(t, INT_TEXT), INT_OF(t) == zint(x)))
    return S([Term(t, 'int')])


def of_real(x):
    """repr of a float: the shortest text that denotes the same float"""
    x = as_R(x)
    if not x.fin():
        raise Unsupported('text of a number that may not be finite')
    v = zr(x.v)
    t = TEXT_OF_REAL(v)
    core.ctx.assume(z3.And(z3.InRe(t, z3.Intersect(REPR_TEXT, NOT_INT)), FLOAT_OF(t) == v))
    return S([Term(t, 'real')])


def rounded(spec, x):
    """a number formatted with a limited number of digits: some decimal text of it"""
    x = as_R(x)
    if not x.fin():
        raise Unsupported('text of a number that may not be finite')
    f = z3.Function('format_' + _re.sub('[^0-9a-z]', '_', spec), z3.RealSort(), z3.StringSort())
    t = f(zr(x.v))
    core.ctx.assume(z3.InRe(t, language(r'-?[0-9]+(\.[0-9]+)?(e[-+][0-9]+)?', 'fullmatch')))
    return S([Term(t, 'number')])


def to_str(x=''):
    if isinstance(x, S):
        return x
    if isinstance(x, N):
        return of_int(x)
    if isinstance(x, R):
        return of_real(x)
    if isinstance(x, B):
        return 'True' if bool(x) else 'False'
    return str(x)


def to_repr(x):
    if isinstance(x, (R, N, B)):
        return to_str(x)
    if isinstance(x, S):
        raise Unsupported('repr of a symbolic text')
    return repr(x)


SPEC = _re.compile(r'%(?:(%)|([-+ #0]*)(\d+)?(\.\d+)?([a-zA-Z]))')


def fmt(pat, args):
    if not isinstance(pat, str):
        return pat % args
    tup = args if isinstance(args, tuple) else (args,)
    if not any(isinstance(a, (S, N, R, B)) for a in tup):
        return pat % args
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(pat):
        out.append(pat[pos:m.start()])
        pos = m.end()
        if m.group(1):
            out.append('%')
            continue
        a, k = tup[k], k + 1
        flags, width, prec, conv = m.group(2), m.group(3), m.group(4), m.group(5)
        if not isinstance(a, (S, N, R, B)):
            out.append(m.group(0) % (a,))
        elif flags or width:
            raise Unsupported('padded text')
        elif conv == 's' and not prec:
            t = to_str(a)
            out += t.parts if isinstance(t, S) else [t]
        elif conv == 'r' and not prec:
            t = to_repr(a)
            out += t.parts if isinstance(t, S) else [t]
        elif conv in 'di' and isinstance(a, N):
            out += of_int(a).parts
        elif conv in 'eEfFgG' and isinstance(a, (N, R)):
            out += rounded(m.group(0), a).parts
        else:
            raise Unsupported('format ' + m.group(0))
    out.append(pat[pos:])
    return make(out)


def join(sep, items):
    items = list(items)
    if not any(isinstance(x, S) for x in items):
        return sep.join(items)
    out = []
    for k, x in enumerate(items):
        if k:
            out.append(sep)
        out += x.parts if isinstance(x, S) else [x]
    return make(out)


class Words(list):
    """one-dimensional array of texts"""
    ndim = 1
    shape = property(lambda self: (len(self),))
    size = property(lambda self: len(self))
    def __getattr__(self, k): raise Unsupported('array of texts: ' + k)
