"""Polynomial identities under case splits: a proof step for goals with many
conditionals and quotients that the SMT solvers do not close by themselves.

1. conditions of real-valued conditionals that the hypotheses decide are
   replaced by their value (each by an SMT query);
2. the remaining conditions are split on (infeasible cases dropped);
3. in each case the goal is a clause of equations; with every quotient written
   over a common denominator (each proved non-zero under the hypotheses) the
   numerator must vanish or be a multiple of a hypothesis' numerator, or the SMT
   solver must accept the case.
Only ever answers 'proved' or gives up."""
import time
import z3
from fractions import Fraction


class Give(Exception):
    pass


def _unsat(fs, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*fs)
    return s.check() == z3.unsat


def real_conds(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                out[x.arg(0).get_id()] = x.arg(0)
            st.extend(x.children())
    return list(out.values())


# ------------------------------------------------------------- polynomials
def p_add(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 60000:
        raise Give
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            q = m_mul(m, n)
            v = r.get(q, 0) + k * l
            if v:
                r[q] = v
            else:
                r.pop(q, None)
    return r


def p_const(c): return {(): Fraction(c)} if c else {}


def p_key(p): return tuple(sorted(p.items()))


def m_div(a, b):
    d = dict(a)
    for v, e in b:
        if d.get(v, 0) < e:
            return None
        d[v] -= e
    return tuple(sorted((v, e) for v, e in d.items() if e))


def m_ord(m):
    return (sum(e for _, e in m), m)


def p_divides(h, g, steps=400):
    """is g a multiple of h"""
    if not h:
        return not g
    lm = max(h, key=m_ord)
    r = dict(g)
    for _ in range(steps):
        if not r:
            return True
        m = max(r, key=m_ord)
        # the leading monomial of a multiple is a multiple of the leading one
        q = m_div(m, lm)
        if q is None:
            return False
        r = p_add(r, p_mul({q: r[m] / h[lm]}, h), -1)
    return False


class Rat:
    """num / product of den polynomials"""
    def __init__(self, num, den=None): self.num, self.den = num, den or {}


class Ctx:
    def __init__(self):
        self.atoms, self.polys, self.memo, self.keep = {}, {}, {}, []

    def atom(self, t):
        i = t.get_id()
        self.atoms[i] = t
        return {((i, 1),): Fraction(1)}

    def dkey(self, p):
        """normalise a denominator polynomial (leading coefficient one): key, coefficient, monomial split"""
        lm = max(p, key=m_ord)
        c = p[lm]
        q = {m: k / c for m, k in p.items()}
        k = p_key(q)
        self.polys[k] = q
        return k, c

    def den_of(self, p):
        """split a denominator into factors: single variables and the rest"""
        den = {}
        if len(p) == 1:
            (m, c), = p.items()
            for v, e in m:
                k, _ = self.dkey({((v, 1),): Fraction(1)})
                den[k] = den.get(k, 0) + e
            return den, c
        k, c = self.dkey(p)
        return {k: 1}, c

    def add(self, a, b, sg=1):
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = max(den.get(k, 0), e)
        return Rat(p_add(self.lift(a, den), self.lift(b, den), sg), den)

    def lift(self, a, den):
        n = a.num
        for k, e in den.items():
            for _ in range(e - a.den.get(k, 0)):
                n = p_mul(n, self.polys[k])
        return n

    def mul(self, a, b):
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = den.get(k, 0) + e
        return self.cancel(Rat(p_mul(a.num, b.num), den))

    def cancel(self, r):
        """cancel monomial factors"""
        num, den = r.num, dict(r.den)
        for k in list(den):
            p = self.polys[k]
            if len(p) != 1:
                continue
            (m, _), = p.items()
            while den.get(k, 0) and num and all(m_div(x, m) is not None for x in num):
                num = {m_div(x, m): c for x, c in num.items()}
                den[k] -= 1
                if not den[k]:
                    del den[k]
        return Rat(num, den)

    def inv(self, b):
        if not b.num:
            raise Give
        den, c = self.den_of(b.num)
        n = p_const(1 / c)
        for k, e in b.den.items():
            for _ in range(e):
                n = p_mul(n, self.polys[k])
        return self.cancel(Rat(n, den))

    def rat(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        r = self._rat(t)
        if len(r.num) > 3000:
            raise Give
        self.memo[i] = r
        return r

    def _rat(self, t):
        if z3.is_rational_value(t):
            return Rat(p_const(t.as_fraction()))
        if z3.is_int_value(t):
            return Rat(p_const(t.as_long()))
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rat(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rat(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add(Rat({}), self.rat(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.rat(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.rat(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.rat(ch[0]), self.inv(self.rat(ch[1])))
        if k == z3.Z3_OP_POWER and (z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1])):
            e = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else Fraction(ch[1].as_long())
            if e.denominator == 1 and 0 <= e <= 4:
                r = Rat(p_const(1))
                for _ in range(int(e)):
                    r = self.mul(r, self.rat(ch[0]))
                return r
        return Rat(self.atom(t))

    def den_term(self, p):
        s = None
        for m, c in p.items():
            x = z3.RealVal(c)
            for v, e in m:
                a = self.atoms[v]
                for _ in range(e):
                    x = x * (z3.ToReal(a) if a.is_int() else a)
            s = x if s is None else s + x
        return s


def literals(g):
    if z3.is_or(g):
        return [l for c in g.children() for l in literals(c)]
    return [g]


def close(g, hyps, sign_hint):
    """one case: g simplified, no conditionals"""
    if z3.is_true(g):
        return True
    if z3.is_and(g):
        return all(close(c, hyps, sign_hint) for c in g.children())
    if z3.is_not(g) and z3.is_and(g.arg(0)):
        ls = [z3.simplify(z3.Not(c)) for c in g.arg(0).children()]
    else:
        ls = literals(g)
    cx = Ctx()
    goals, eqs = [], []
    for l in ls:
        if z3.is_eq(l) and z3.is_real(l.arg(0)):
            goals.append(l)
        elif z3.is_not(l) and z3.is_eq(l.arg(0)) and z3.is_real(l.arg(0).arg(0)):
            eqs.append(l.arg(0))
    try:
        rh = []
        for e in eqs:
            rh.append(cx.add(cx.rat(e.arg(0)), cx.rat(e.arg(1)), -1))
        for e in goals:
            r = cx.add(cx.rat(e.arg(0)), cx.rat(e.arg(1)), -1)
            ok, used = not r.num, [r]
            if not ok:
                for h in rh:
                    den = dict(r.den)
                    for k, x in h.den.items():
                        den[k] = max(den.get(k, 0), x)
                    n = r.num
                    for k, x in den.items():
                        for _ in range(x):
                            n = p_mul(n, cx.polys[k])
                    if p_divides(h.num, r.num) or p_divides(h.num, n):
                        ok, used = True, [r, h]
                        break
            if ok:
                dens = {}
                for q in used:
                    dens.update(q.den)
                # every denominator met on the way, cancelled or not
                dens = {k: 1 for k in cx.polys}
                if all(nonzero(cx, cx.polys[k], hyps, sign_hint) for k in dens):
                    return True
    except Give:
        pass
    return _unsat(hyps + [z3.Not(g)], 1500)


def nonzero(cx, p, hyps, sign_hint):
    t = z3.simplify(cx.den_term(p))
    if sign_hint(t) == 'pos':
        return True
    return _unsat(hyps + [t == 0], 1000)


class Inc:
    """incremental queries over fixed hypotheses"""
    def __init__(self, hyps):
        self.s = z3.Solver()
        self.s.add(*hyps)
        self.n = 0

    def unsat(self, extra, ms):
        self.s.set('timeout', ms)
        self.s.push()
        self.s.add(*extra)
        r = self.s.check() == z3.unsat
        self.s.pop()
        return r


def first_cond(t, nested=False):
    """an innermost condition of a real-valued conditional"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            ch = x.children()
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = first_cond(ch[0])
                return c if c is not None else ch[0]
            st.extend(ch)
    return None


def prove(hyps, facts, goal, sign_hint, budget=8.0, maxcases=300):
    t0 = time.time()
    g = z3.simplify(goal)
    h1, h2 = Inc(hyps), Inc(hyps + facts) if facts else None
    done = {}
    for rnd in range(5):
        subs = []
        for c in real_conds(g):
            if time.time() - t0 > budget:
                return False
            if c.get_id() in done or first_cond(c) is not None:
                continue
            done[c.get_id()] = c
            for h in (h1, h2):
                if h is None:
                    continue
                if h.unsat([z3.Not(c)], 300):
                    subs.append((c, z3.BoolVal(True)))
                    break
                if h.unsat([c], 300):
                    subs.append((c, z3.BoolVal(False)))
                    break
        if not subs:
            break
        g = z3.simplify(z3.substitute(g, *subs))
    todo, n = [(g, [])], 0
    while todo:
        if time.time() - t0 > budget or n > maxcases:
            return False
        g, cs = todo.pop()
        n += 1
        if z3.is_true(g):
            continue
        c = first_cond(g)
        if c is None:
            if not close(g, hyps + cs, sign_hint):
                return False
            continue
        for v in (True, False):
            k = c if v else z3.Not(c)
            if h1.unsat(cs + [k], 200):
                continue
            todo.append((z3.simplify(z3.substitute(g, (c, z3.BoolVal(v)))), cs + [k]))
    return True
