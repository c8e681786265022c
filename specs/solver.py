# properties: T03 T04
"""Transport solvers: discretised advection equation, boundaries, supply limit."""
import os
from engine.runner import *


def num(W, v): return W.num(v) if W.symbolic else v


class Log:
    def __init__(self): self.msgs = []
    def log_and_raise(self, m, exc=Exception): raise exc(m)
    def __getattr__(self, k): return lambda *a, **kw: self.msgs.append((k, str(a[0]) if a else ''))


class Self:
    """the attributes of a model the solvers use"""
    def __init__(self, **k): self.__dict__.update(k)
    def _count(self, *a, **k): pass


OFF = ['flux', 'constant', 'uniform', 'gradient']
ALLPAIRS = [a + '/' + b for a in OFF for b in OFF]
NOFLUX = ['noflux/uniform', 'gradient/noflux', 'noflux/noflux', 'noflux/constant', 'noflux/flux', 'flux/noflux', 'constant/noflux', 'uniform/noflux']
FLUXPAIRS = ['flux/flux', 'gradient/gradient', 'flux/gradient', 'gradient/flux']
# every offshore and every onshore condition once; all combinations in the thorough tier and in the runs
PAIRS = lambda: ALLPAIRS if os.environ.get('VERIF_TIER') == 'thorough' else ['flux/flux', 'constant/gradient', 'uniform/constant', 'gradient/uniform']


def world(W, ny, nx, nf, form):
    """ny, nx: number of cells"""
    A = W.array
    s = dict(zb=A('zb', (ny, nx)), uw=A('uw', (ny, nx), pos=True, typ=8.),
             us=A('us', (ny, nx, nf), typ=(-1., 1.)), un=A('un', (ny, nx, nf), typ=(-1., 1.)) if ny > 1 else W.zeros((ny, nx, nf)), u=A('u', (ny, nx, nf), pos=True, typ=1.),
             Ct=A('Ct', (ny, nx, nf), lo=0, typ=(0., .1)), Cu=A('Cu', (ny, nx, nf), lo=0, typ=(0., .1)), Cu0=A('Cu0', (ny, nx, nf), lo=0, typ=(0., .1)),
             mass=A('mass', (ny, nx, 1, nf), lo=0, typ=(0., .2)), pickup=W.zeros((ny, nx, nf)))
    if ny == 1:   # a transect has unit width and its own cell sizes
        s['ds'], s['dn'] = A('ds', (ny, nx), pos=True, typ=(.5, 2.)), W.full((ny, nx), W.num(1.))
    else:
        s['ds'], s['dn'] = W.full((ny, nx), W.real('ds', pos=True, typ=1.)), W.full((ny, nx), W.real('dn', pos=True, typ=1.))
    s['dsdn'] = s['ds'] * s['dn']
    s['dsdni'] = 1. / s['dsdn']
    l = dict(uw=W.copy(s['uw']), w=A('lw', (ny, nx, nf), lo=0, hi=1), Ct=A('lCt', (ny, nx, nf), lo=0, typ=(0., .1)), Cu=A('lCu', (ny, nx, nf), lo=0, typ=(0., .1)))
    # the concentration above the fluid threshold never exceeds the one above the impact threshold
    s['Cuf'], l['Cuf'] = s['Cu'] * A('fr', (ny, nx, nf), lo=0, hi=1), l['Cu'] * A('lfr', (ny, nx, nf), lo=0, hi=1)
    pairs = (FLUXPAIRS[:2] if W.symbolic else FLUXPAIRS) if form == 'flux' else PAIRS() if W.symbolic else ALLPAIRS
    if form == 'closed':   # no flux is known to this solver only
        pairs = pairs + (NOFLUX if len(pairs) > 4 else NOFLUX[:2])
    off, on = W.choice('boundaries', pairs).split('/')
    p = dict(nx=nx - 1, ny=ny - 1, nfractions=nf, T=W.real('T', pos=True, typ=1.), max_iter=1 if W.symbolic else 1000, max_error=num(W, 1e-6) if W.symbolic else 1e-6, bi=W.real('bi', lo=0, hi=1), grain_dist=W.array('grain_dist', (nf,), lo=0, hi=1, typ=(.1, 1.)), bedcomp_file=None,
             boundary_offshore=off, boundary_onshore=on, boundary_lateral='circular', solver='trunk', scheme='euler_forward',
             offshore_flux=W.real('offshore_flux', lo=0, typ=1.), onshore_flux=W.real('onshore_flux', lo=0, typ=1.), constant_offshore_flux=W.real('coff', lo=0, typ=1.), constant_onshore_flux=W.real('con', lo=0, typ=1.))
    dt = W.real('dt', pos=True, typ=1.)
    m = Self(s=s, l=l, p=p, dt=dt, t=W.num(W.choice('t', [10., 0.] if form != 'flux' else [10.])))
    return m


def capture(W, raw, base=None):
    """scipy.sparse by contract: spsolve(A, y) returns x with A x = y"""
    if W.symbolic:
        W.hook('scipy.sparse.diags', lambda ds, offs, **k: (list(ds), list(offs)))

        def spsolve(Am, y):
            N = y.shape_[0]
            x = W.array('x%d' % len(raw), (N,))
            dg = [(d.snap(), o) for d, o in zip(*Am)]
            xs, ys = x.snap(), y.snap()

            def row(r):
                t = W.num(0)
                for d, o in dg:
                    c = r + o
                    ok = W.And(W.ge(c, 0), W.lt(c, N))
                    q = as_bool(ok)
                    if q is False:
                        continue
                    v = d((r if o >= 0 else c,)) * xs((c,))
                    t = t + (v if q is True else W.ite(ok, v, W.num(0)))
                return W.eq(t, ys((r,)))
            b0 = base.flatten().snap() if base is not None else None
            W.assume(W.all((N,), lambda r: W.ge(xs((r,)) + b0((r,)) if b0 else xs((r,)), 0)))  # the rescaling of negative values is left to the runs
            raw.append(row)
            return x.copy()
        W.hook('scipy.sparse.linalg.spsolve', spsolve)
    else:
        import scipy.sparse.linalg as L
        real = L.spsolve
        def sp(A, y, *a, **k):
            x = real(A, y, *a, **k)
            raw.append(lambda r: True)
            raw.last = x.copy()
            raw.clipped |= bool(x.min() < 0)
            if base is not None and (x + base[:, :, len(raw) - 1].flatten()).min() < -1e-12:
                raw.negative = True
            return x
        W.patch(L, 'spsolve', sp)


class Systems(list):
    """solved systems"""
    negative, clipped, last = False, False, None


def rescaled(W, raw, base, C):
    """concentrations C of a fraction are those of the solution without its negative values, the others make up for them"""
    x = (raw.last + base).reshape(C.shape)
    x[(x < 0) & (x > -1e-6)] = 0
    pos = x[x > 0].sum()
    f = max(0., 1 + x[x < 0].sum() / pos) if pos > 0 else 0.
    want = W.np.where(x > 0, x * f, 0.)
    W.ensure('removal-of-negative-concentrations', bool((C >= 0).all()) and bool((abs(C - want) <= 1e-6 * abs(x).max() + 2e-6).all()))


def flow(W, s, dt, C, y, x, ny, nx, i, wrap=True):
    """upwind advection out of an interior cell of column x"""
    f = lambda n, d, j, k: dt * s[n][j, k, i] / s[d][y, x]
    us, un = s['us'][y, x, i], s['un'][y, x, i]
    fx = W.ite(W.ge(us, 0), f('us', 'ds', y, x) * C(y, x) - f('us', 'ds', y, x - 1) * C(y, x - 1), -f('us', 'ds', y, x) * C(y, x) + f('us', 'ds', y, x + 1) * C(y, x + 1))
    if ny == 1:
        return fx
    yb, ya = (y - 1) % ny, (y + 1) % ny
    fy = W.ite(W.ge(un, 0), f('un', 'dn', y, x) * C(y, x) - f('un', 'dn', max(y - 1, 0), x) * C(yb, x), -f('un', 'dn', y, x) * C(y, x) + f('un', 'dn', min(y + 1, ny - 1), x) * C(ya, x))
    return fx + fy


def weights(W, m, ny, nx, nf):
    """the weights by their contract (G01); the weights the solution starts from"""
    seen, init = [], []
    if W.symbolic:
        wts = [W.array('w%d' % k, (ny, nx, nf), lo=0, hi=1) for k in range(4)]
        init.append(W.copy(wts[0]))
        W.stub('transport', 'compute_weights', lambda s_, p_: (wts[0], wts[1], wts[2]))

        def ren(w_, i_):
            seen.append(w_.copy())
            return wts[3].copy()
        W.stub('transport', 'renormalize_weights', ren)
    else:
        tr = W.mod('transport')
        init.append(tr.compute_weights(m.s, m.p)[0])
        real = tr.renormalize_weights

        def ren(w_, i_):
            seen.append(w_.copy())
            return real(w_, i_)
        W.patch(tr, 'renormalize_weights', ren)

    def check():
        gd = m.p['grain_dist']
        t0 = m.t == (W.num(0) if W.symbolic else 0)
        if seen:
            W.forall((ny, nx, nf), lambda y, x, k: W.eq(seen[0][y, x, k], gd[k] if t0 else init[0][y, x, k], scale=1e-6), 'weights-start-from-the-grain-sizes-then-from-bed-and-air')
    return check


def solver(W, steady, ny, nx, nf):
    m = world(W, ny, nx, nf, None if steady else 'closed')
    raw, log = Systems(), Log()
    capture(W, raw)
    mod = W.mod('model')
    if W.symbolic:
        W.watch('not converged')
        mod.__dict__['logger'] = log
        W.stub('model', 'format_log', lambda msg, *a, **k: msg)
    else:
        W.patch(mod, 'logger', log)
    alpha = 1. if steady else W.choice('alpha', [.5] if W.symbolic and ny != 1 and os.environ.get('VERIF_TIER') != 'thorough' else [1., .5, 0.])
    s, l, p, dt = m.s, m.l, m.p, m.dt
    given = weights(W, m, ny, nx, nf)
    s0 = {k: W.copy(v) for k, v in s.items()}
    r = W.call(mod.AeoLiS.solve_steadystate, m) if steady else W.call(mod.AeoLiS.solve, m, alpha, 1.)
    given()
    a = W.num(Fraction(alpha)) if W.symbolic else alpha
    conv = not any('not converged' in t or 'egative' in t for _, t in log.msgs)
    Ct, w, T = r['Ct'], r['w'], p['T']
    Ti = dt / T
    S = lambda y, x: W.sum(nf, lambda k: W.ite(W.gt(s0['Cu'][y, x, k], 0), s0['Ct'][y, x, k] / W.ite(W.gt(s0['Cu'][y, x, k], 0), s0['Cu'][y, x, k], 1), 0))
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.eq(r['qs'][y, x, k], Ct[y, x, k] * s0['us'][y, x, k], scale=1e-9), W.eq(r['qn'][y, x, k], Ct[y, x, k] * s0['un'][y, x, k], scale=1e-9)), 'flux-is-concentration-times-velocity')
    if not W.symbolic:
        rescaled(W, raw, 0, Ct[:, :, nf - 1])
    if not conv or raw.clipped:   # negative values, however small, were set to zero
        return m, r, raw, log, s0
    W.forall((ny, nx, nf), lambda y, x, k: W.ge(Ct[y, x, k], num(W, -1e-6)), 'concentration-not-negative')
    W.forall((ny, nx, nf), lambda y, x, k: W.le(r['pickup'][y, x, k], s0['mass'][y, x, 0, k], scale=1e-3), 'pickup-limited-by-the-supply-in-the-top-layer')
    e_ = nf - 1
    W.forall((ny, nx), lambda y, x: W.eq(r['pickup'][y, x, e_], W.min((w[y, x, e_] * s0['Cu'][y, x, e_] - Ct[y, x, e_]) / T * dt, s0['mass'][y, x, 0, e_]), scale=1e-3), 'pickup-relaxes-to-saturation')
    src = lambda wt, cf, c: lambda y, x, k: Ti * wt[y, x, k] * (cf[y, x, k] * (1 - S(y, x)) + c[y, x, k] * S(y, x))
    imp, exp = src(w, s0['Cuf'], s0['Cu']), src(l['w'], l['Cuf'], l['Cu'])

    def eqn(y, x, k):
        C, L = (lambda j, i: Ct[j, i, k]), (lambda j, i: l['Ct'][j, i, k])
        out = flow(W, s0, dt, C, y, x, ny, nx, k) + Ti * C(y, x)
        if steady:
            return W.eq(out, imp(y, x, k), scale=1e-3)
        lhs = C(y, x) + a * out
        rhs = L(y, x) + a * imp(y, x, k) + (1 - a) * (exp(y, x, k) - flow(W, s0, dt, L, y, x, ny, nx, k) - Ti * L(y, x))
        return W.eq(lhs, rhs, scale=1e-2)
    # the linear system of the last fraction, row by row
    row = lambda y, x: raw[-1](W.flatidx((ny, nx), (y, x)))
    # the weights of earlier fractions are renormalised afterwards: the returned ones are those of the last fraction
    W.forall((ny, nx - 2), lambda y, x: W.Implies(row(y, x + 1), eqn(y, x + 1, nf - 1)), 'upwind-advection-with-saturation-source')
    e = nx - 1
    if p['boundary_offshore'] == 'noflux':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, 0), W.eq(Ct[y, 0, k], 0, scale=1e-6)), 'offshore-boundary')
    elif p['boundary_offshore'] == 'flux':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, 0), W.eq(Ct[y, 0, k], p['offshore_flux'] * s0['Cu0'][y, 0, k], scale=1e-6)), 'offshore-boundary')
    elif p['boundary_offshore'] == 'constant':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, 0), W.eq(Ct[y, 0, k] * s0['u'][y, 0, k], p['constant_offshore_flux'], scale=1e-6)), 'offshore-boundary')
    elif p['boundary_offshore'] == 'uniform':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, 0), W.eq(Ct[y, 0, k], Ct[y, 1, k], scale=1e-3)), 'offshore-boundary')
    else:
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, 0), W.eq(Ct[y, 0, k] - Ct[y, 1, k], (Ct[y, 1, k] - Ct[y, 2, k]) * s0['ds'][y, 1] / s0['ds'][y, 2], scale=1e-2)), 'offshore-boundary')
    if p['boundary_onshore'] == 'noflux':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, e), W.eq(Ct[y, e, k], 0, scale=1e-6)), 'onshore-boundary')
    elif p['boundary_onshore'] == 'flux':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, e), W.eq(Ct[y, e, k], p['onshore_flux'] * s0['Cu0'][y, e, k], scale=1e-6)), 'onshore-boundary')
    elif p['boundary_onshore'] == 'constant':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, e), W.eq(Ct[y, e, k] * s0['u'][y, e, k], p['constant_onshore_flux'], scale=1e-6)), 'onshore-boundary')
    elif p['boundary_onshore'] == 'uniform':
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, e), W.eq(Ct[y, e, k], Ct[y, e - 1, k], scale=1e-3)), 'onshore-boundary')
    else:
        W.forall((ny, nf), lambda y, k: W.Implies(row(y, e), W.eq(Ct[y, e, k] - Ct[y, e - 1, k], (Ct[y, e - 1, k] - Ct[y, e - 2, k]) * s0['ds'][y, e - 1] / s0['ds'][y, e - 2], scale=1e-2)), 'onshore-boundary')
    return m, r, raw, log, s0


@contract('T03', 'model.solve/1d', functions=['model.solve'], bounded=[dict(nx=4, nf=1)], runs=400, dimcap=8)
def solve1(W):
    solver(W, False, 1, W.dim('nx', 4), 1 if W.symbolic else W.dim('nf', 1, 3))


@contract('T03', 'model.solve/2d', functions=['model.solve'], bounded=[dict(ny=3, nx=4, nf=1)], runs=500, unbounded=False, dimcap=6)
def solve2(W):
    solver(W, False, W.dim('ny', 3), W.dim('nx', 4), W.dim('nf', 1, 3))


@contract('T03', 'model.solve_steadystate/1d', functions=['model.solve_steadystate'], bounded=[dict(nx=4, nf=1)], runs=300, dimcap=8)
def ss1(W):
    solver(W, True, 1, W.dim('nx', 4), 1 if W.symbolic else W.dim('nf', 1, 3))


@contract('T03', 'model.solve_steadystate/2d', functions=['model.solve_steadystate'], bounded=[dict(ny=3, nx=4, nf=1)], runs=400, unbounded=False, dimcap=6)
def ss2(W):
    solver(W, True, W.dim('ny', 3), W.dim('nx', 4), W.dim('nf', 1, 3))


# ----------------------------------------------------------------- flux form
def fluxform(W, steady, ny, nx, nf):
    m = world(W, ny, nx, nf, 'flux')
    raw, log = Systems(), Log()
    capture(W, raw, W.copy(m.s['Ct']))
    mod = W.mod('model')
    if W.symbolic:
        W.watch('not converged')
        mod.__dict__['logger'] = log
        W.stub('model', 'format_log', lambda msg, *a, **k: msg)
    else:
        W.patch(mod, 'logger', log)
    alpha = 1. if steady else W.choice('alpha', [.5] if W.symbolic and ny != 1 and os.environ.get('VERIF_TIER') != 'thorough' else [1., .5, 0.])
    s, l, p, dt = m.s, m.l, m.p, m.dt
    off, on = p['boundary_offshore'], p['boundary_onshore']
    p.update(boundary_lateral=W.choice('lateral', ['circular', 'flux', 'gradient'] if ny > 1 else ['circular']), max_iter=1)
    p.update(lateral_flux=W.real('lateral_flux', lo=0, typ=1.))
    s['qs'], s['qn'] = W.zeros((ny, nx, nf)), W.zeros((ny, nx, nf))
    given = weights(W, m, ny, nx, nf)
    s0 = {k: W.copy(v) for k, v in s.items()}
    r = W.call(mod.AeoLiS.solve_steadystatepieter, m) if steady else W.call(mod.AeoLiS.solve_pieter, m, alpha, 1.)
    given()
    a = W.num(Fraction(alpha)) if W.symbolic else alpha
    Ct, w, T = r['Ct'], r['w'], p['T']
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.eq(r['qs'][y, x, k], Ct[y, x, k] * s0['us'][y, x, k], scale=1e-9), W.eq(r['qn'][y, x, k], Ct[y, x, k] * s0['un'][y, x, k], scale=1e-9)), 'flux-is-concentration-times-velocity')
    if not W.symbolic:
        rescaled(W, raw, s0['Ct'][:, :, nf - 1].flatten(), Ct[:, :, nf - 1])
    if any('not converged' in t or 'egative' in t for _, t in log.msgs):
        return
    k = nf - 1
    tiny = 1e-6 if not W.symbolic else W.num(Fraction(1, 10**6))
    W.forall((ny, nx), lambda y, x: W.ge(Ct[y, x, k], -tiny), 'concentration-not-negative')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(r['pickup'][y, x, k], (w[y, x, k] * s0['Cu'][y, x, k] - Ct[y, x, k]) / T * dt, scale=1e-3), W.le(r['pickup'][y, x, k], s0['mass'][y, x, 0, k] + tiny, scale=1e-3)), 'pickup-relaxes-to-saturation-within-supply')
    if raw.negative:
        return   # negative values were rescaled: the balance is broken on purpose
    ar, ds, dn = s0['dsdn'], s0['ds'], s0['dn']
    mid = lambda y, x: a * Ct[y, x, k] + (1 - a) * l['Ct'][y, x, k]
    us, un = s0['us'], s0['un']
    half = W.num(Fraction(1, 2)) if W.symbolic else .5

    def fx(y, x):
        """sediment through the face between columns x-1 and x"""
        u = half * (us[y, x - 1, k] + us[y, x, k])
        return dn[y, x] * u * W.ite(W.ge(u, 0), mid(y, x - 1), mid(y, x))

    def fy(y0, y1, x):
        """sediment through the face between rows y0 and y1"""
        u = half * (un[y0, x, k] + un[y1, x, k])
        return ds[y1, x] * u * W.ite(W.ge(u, 0), mid(y0, x), mid(y1, x))

    def change(y, x):
        cu = w[y, x, k] * a * s0['Cu'][y, x, k] + (1 - a) * l['w'][y, x, k] * l['Cu'][y, x, k]
        old = a * s0['Ct'][y, x, k] + (1 - a) * l['Ct'][y, x, k]
        e = W.min(ar[y, x] / T * cu, ar[y, x] / T * (s0['mass'][y, x, 0, k] + old))
        gone = ar[y, x] / T * mid(y, x) - e
        return gone if steady else gone + ar[y, x] / dt * (Ct[y, x, k] - l['Ct'][y, x, k])

    def yfaces(y, x):
        if ny == 1:
            return W.num(0)
        lo, hi = y > 0, y < ny - 1
        lat = p['boundary_lateral']
        low = fy(y - 1, y, x) if lo else None
        up = fy(y, y + 1, x) if hi else None
        if lat == 'circular':
            low = fy(ny - 1, 0, x) if low is None else low
            up = fy(ny - 1, 0, x) if up is None else up
        elif lat == 'flux':
            lf = lambda j: ds[j, x] * un[j, x, k] * s0['Cu0'][j, x, k] * p['lateral_flux']
            low = lf(y) if low is None else low
            up = lf(y) if up is None else up
        else:
            low, up = (up if low is None else low), (low if up is None else up)
        return low - up
    row = lambda y, x: raw[-1](W.flatidx((ny, nx), (y, x)))
    bal = lambda y, x, i, o: W.Implies(row(y, x), W.eq(change(y, x), i - o + yfaces(y, x), scale=1e-6))
    W.forall((ny, nx - 2), lambda y, x: bal(y, x + 1, fx(y, x + 1), fx(y, x + 2)), 'sediment-balance-of-a-cell')
    inflow = lambda y: dn[y, 0] * us[y, 0, k] * s0['Cu0'][y, 0, k] * p['offshore_flux']
    W.forall((ny,), lambda y: bal(y, 0, inflow(y) if off == 'flux' else fx(y, 1), fx(y, 1)), 'sediment-balance-of-an-offshore-cell')
    outflow = lambda y: dn[y, nx - 1] * us[y, nx - 1, k] * s0['Cu0'][y, nx - 1, k] * p['onshore_flux']
    W.forall((ny,), lambda y: bal(y, nx - 1, fx(y, nx - 1), outflow(y) if on == 'flux' else fx(y, nx - 1)), 'sediment-balance-of-an-onshore-cell')
    if not W.symbolic:
        net = sum(inflow(y) for y in range(ny)) if off == 'flux' else sum(fx(y, 1) for y in range(ny))
        net -= sum(outflow(y) for y in range(ny)) if on == 'flux' else sum(fx(y, nx - 1) for y in range(ny))
        net += sum(yfaces(y, x) for y in range(ny) for x in range(nx)) if p['boundary_lateral'] != 'circular' else 0
        W.ensure('sediment-balance-of-the-domain', W.eq(sum(change(y, x) for y in range(ny) for x in range(nx)), net, scale=1e-6))


@contract('T04', 'model.solve_pieter/1d', functions=['model.solve_pieter'], bounded=[dict(nx=4, nf=1)], runs=300, dimcap=8)
def pieter1(W):
    fluxform(W, False, 1, W.dim('nx', 4), 1 if W.symbolic else W.dim('nf', 1, 3))


@contract('T04', 'model.solve_pieter/2d', functions=['model.solve_pieter'], bounded=[dict(ny=3, nx=3, nf=1)], runs=400, unbounded=False, dimcap=6)
def pieter2(W):
    fluxform(W, False, W.dim('ny', 3), W.dim('nx', 3), W.dim('nf', 1, 3))


@contract('T04', 'model.solve_steadystatepieter/1d', functions=['model.solve_steadystatepieter'], bounded=[dict(nx=4, nf=1)], runs=300, dimcap=8)
def sspieter1(W):
    fluxform(W, True, 1, W.dim('nx', 4), 1 if W.symbolic else W.dim('nf', 1, 3))


@contract('T04', 'model.solve_steadystatepieter/2d', functions=['model.solve_steadystatepieter'], bounded=[dict(ny=3, nx=3, nf=1)], runs=400, unbounded=False, dimcap=6)
def sspieter2(W):
    fluxform(W, True, W.dim('ny', 3), W.dim('nx', 3), W.dim('nf', 1, 3))
