# properties: T01 T02
"""Equilibrium concentration and grain speed."""
from engine.runner import *

FORMULA = dict(
    bagnold=lambda W, C, ust, uth, u, d: C['Cb'] * C['rg'] * (ust - uth) ** 3 / u,
    bagnold_gs=lambda W, C, ust, uth, u, d: C['Cb'] * W.sqrt(d / C['Dref']) * C['rg'] * (ust - uth) ** 3 / u,
    kawamura=lambda W, C, ust, uth, u, d: C['Ck'] * C['rg'] * (ust + uth) ** 2 * (ust - uth) / u,
    lettau=lambda W, C, ust, uth, u, d: C['Cl'] * C['rg'] * ust ** 2 * (ust - uth) / u,
    dk=lambda W, C, ust, uth, u, d: C['Cdk'] * C['rg'] * (C['f8'] * uth) * (ust ** 2 - (C['f8'] * uth) ** 2) / u,
    sauermann=lambda W, C, ust, uth, u, d: C['s7'] * C['rg'] * (ust ** 2 - uth ** 2),
    vanrijn_strypsteen=lambda W, C, ust, uth, u, d: C['Cb'] * C['rg'] * (ust ** 3 - uth ** 3) / u)


def state(W, ny, nx, nf, inf=True):
    f2 = lambda n, **k: W.array(n, (ny, nx), **k)
    f3 = lambda n, **k: W.array(n, (ny, nx, nf), **k)
    s = dict(uw=f2('uw', lo=0, typ=10.), uws=f2('uws', typ=(-10., 10.)), uwn=f2('uwn', typ=(-10., 10.)), ustar=f2('ustar', lo=0, typ=0.5), ustars=f2('ustars', typ=(-.5, .5)), ustarn=f2('ustarn', typ=(-.5, .5)),
             ustar0=f2('ustar0', lo=0, typ=0.5), uth=f3('uth', lo=0, inf=inf, typ=0.3), uthf=f3('uthf', lo=0, inf=inf, typ=0.3), uth0=f3('uth0', lo=0, inf=inf, typ=0.25),
             Cu=f3('Cu_prev', typ=1.), Cuf=f3('Cuf_prev', typ=1.), Cu0=f3('Cu0_prev', typ=1.), u=f3('u_prev'), us=f3('us_prev'), un=f3('un_prev'), u0=f3('u0_prev'))
    return s


def eq_body(W, methods):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    s = state(W, ny, nx, nf)
    meth = W.choice('method', methods)
    speed = W.choice('grainspeed', ['windspeed', 'constant'])
    p = dict(process_transport=True, nfractions=nf, nx=nx - 1, ny=ny - 1, method_grainspeed=speed, method_transport=meth, rhoa=W.real('rhoa', pos=True, typ=1.2), g=W.real('g', pos=True, typ=9.8),
             Cb=W.real('Cb', pos=True, typ=1.5), Ck=W.real('Ck', pos=True, typ=2.8), Cl=W.real('Cl', pos=True, typ=6.7), Cdk=W.real('Cdk', pos=True, typ=5.), accfac=W.real('accfac', lo=1, hi=50),
             grain_size=W.array('grain_size', (nf,), pos=True, typ=3e-4))
    i = {k: W.copy(v) for k, v in s.items()}
    num = (lambda a, b: W.num(Fraction(a, b))) if W.symbolic else (lambda a, b: a / b)
    C = {k: p[k] for k in ('Cb', 'Ck', 'Cl', 'Cdk')}
    C.update(rg=p['rhoa'] / p['g'], Dref=num(25, 100000), f8=num(8, 10), s7=num(7, 10))
    if W.symbolic:
        C.update(Dref=W.num(0.000250), f8=W.num(0.8), s7=2 * W.num(0.35))
    s = W.call(W.mod('transport').equilibrium, s, p)
    F = FORMULA[meth]
    sel = lambda y, x, k: W.And(W.Not(W.eq(i['ustar'][y, x], 0) if W.symbolic else i['ustar'][y, x] == 0), W.Not(W.eq(s['u'][y, x, k], 0) if W.symbolic else s['u'][y, x, k] == 0))
    for out, us_, ut in (('Cu', 'ustar', 'uth'), ('Cuf', 'ustar', 'uthf'), ('Cu0', 'ustar0', 'uth0')):
        W.forall((ny, nx, nf), lambda y, x, k: W.And(W.ge(s[out][y, x, k], 0), W.finite(s[out][y, x, k])), out + '-not-negative')
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.Not(sel(y, x, k)), lambda: W.eq(s[out][y, x, k], 0)), out + '-zero-without-wind-shear')
        if out == 'Cu0' and meth in ('kawamura', 'lettau'):
            continue
        if meth in ('bagnold_gs', 'vanrijn_strypsteen') and out == 'Cuf' or meth == 'bagnold_gs' and out == 'Cu0':
            us_, ut = 'ustar', 'uth'
        if meth != 'dk':
            W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(sel(y, x, k), W.le(i[us_][y, x], i[ut][y, x, k])), lambda: W.eq(s[out][y, x, k], 0, scale=1e-9)), out + '-zero-below-threshold')
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(sel(y, x, k), W.finite(i[ut][y, x, k]), W.gt(i[us_][y, x], i[ut][y, x, k])), lambda: W.eq(s[out][y, x, k], p['accfac'] * W.max(0., F(W, C, i[us_][y, x], i[ut][y, x, k], s['u'][y, x, k], p['grain_size'][k])), scale=1e-9)), out + '-follows-the-formulation')
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.same(s['uth'][y, x, k], i['uth'][y, x, k]), W.same(s['uth0'][y, x, k], i['uth0'][y, x, k]), W.eq(s['ustar'][y, x], i['ustar'][y, x])), 'frame')


BND = [dict(ny=1, nx=1, nf=1)]


@contract('T01', 'transport.equilibrium/cubic', functions=['transport.equilibrium', 'transport.constant_grainspeed'], bounded=BND, runs=500)
def eq1(W): eq_body(W, ['bagnold', 'kawamura', 'lettau'])


@contract('T01', 'transport.equilibrium/others', functions=['transport.equilibrium', 'transport.constant_grainspeed'], bounded=BND, runs=700)
def eq2(W): eq_body(W, ['bagnold_gs', 'dk', 'sauermann', 'vanrijn_strypsteen'])


@contract('T01', 'transport.equilibrium/unknown', functions=['transport.equilibrium'], bounded=BND, runs=50)
def equnk(W):
    s = state(W, 1, 2, 1)
    p = dict(process_transport=True, nfractions=1, nx=1, ny=0, method_grainspeed='windspeed', method_transport='nonsense', rhoa=1., g=9.8, Cb=1., Ck=1., Cl=1., Cdk=1., accfac=1., grain_size=W.array('grain_size', (1,), pos=True))
    if not W.symbolic:
        import aeolis.transport as T
        class L:
            def log_and_raise(self, m, exc=Exception): raise exc(m)
            def __getattr__(self, k): return lambda *a, **kw: None
        W.patch(T, 'logger', L())
    W.ensure('unknown-formulation-refused', W.raises(ValueError, W.mod('transport').equilibrium, s, p))


@contract('T02', 'transport.constant_grainspeed', functions=['transport.constant_grainspeed'], bounded=BND, runs=400)
def const(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    s = state(W, ny, nx, nf)
    i = {k: W.copy(v) for k, v in s.items()}
    s = W.call(W.mod('transport').constant_grainspeed, s, dict(nfractions=nf))
    moving = lambda y, x: W.Not(W.eq(i['ustar'][y, x], 0) if W.symbolic else i['ustar'][y, x] == 0)
    wind = lambda y, x: W.Not(W.eq(i['uw'][y, x], 0) if W.symbolic else i['uw'][y, x] == 0)
    for c, d in (('us', 's'), ('un', 'n')):
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(moving(y, x), lambda: W.eq(s[c][y, x, k] * i['ustar'][y, x], i['ustar' + d][y, x], scale=1e-6)), c + '-along-the-shear-velocity')
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(W.Not(moving(y, x)), wind(y, x)), lambda: W.eq(s[c][y, x, k] * i['uw'][y, x], i['uw' + d][y, x], scale=1e-6)), c + '-along-the-wind-where-shear-vanishes')
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(W.Not(moving(y, x)), W.Not(wind(y, x))), lambda: W.eq(s[c][y, x, k], 0)), c + '-zero-without-wind')
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.eq(s['u'][y, x, k] ** 2, s['us'][y, x, k] ** 2 + s['un'][y, x, k] ** 2, scale=1e-6), W.ge(s['u'][y, x, k], 0)), 'speed-is-the-length-of-the-velocity')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in ('uw', 'uws', 'uwn', 'ustar', 'ustars', 'ustarn', 'ustar0')]), 'frame')


def duran_ref(W, p, i, num, nx, ny):
    """saltation velocity of Duran (2007): balance of drag, bed friction and gravity on the slope"""
    sq, lg = (W.np.sqrt, W.np.log)
    g, v, ka = p['g'], p['v'], p['kappa']
    rel = p['rhog'] / p['rhoa']

    def size(k):
        d = p['grain_size'][k]
        third = (1 / 3)
        tv = (v / g ** 2) ** third
        lv = (v ** 2 / (p['Aa'] ** 2 * g * (rel - 1))) ** third
        a = num(0.17) * d / lv
        S = d / (4 * v) * sq(g * d * (rel - 1))
        Cd = num(4 / 3) * (num(0.95) + sq(2 * a) * num(5.12) / S) ** 2
        uf = sq(4 / (3 * Cd) * (rel - 1) * g * d)
        return num(14. / (1. + 1.4 * 1.)) * tv, num(35.) * lv, d / num(20.), a, uf

    def speed(ust, y, x, k):
        zt, z1, z0, a, uf = size(k)
        ut = i['uth0'][y, x, k]
        return (ut / ka) * (lg(z1 / z0) + z1 / (zt * ut) * (ust / ut - 1))

    def slope(y, x, along):
        c = (lambda a, j, n: W.ite(j < 1, lambda: a(1), lambda: W.ite(j >= n - 1, lambda: a(n - 2), lambda: a(j))))
        if along == 's':
            return c(lambda j: (i['zb'][y, j + 1] - i['zb'][y, j - 1]) / (i['x'][y, j + 1] - i['x'][y, j - 1]), x, nx)
        return c(lambda j: (i['zb'][j + 1, x] - i['zb'][j - 1, x]) / (i['y'][j + 1, x] - i['y'][j - 1, x]), y, ny)

    def velocity(y, x, k, along):
        _, _, _, a, uf = size(k)
        ust = i['ustar'][y, x]
        e = lambda c: W.ite(ust >= num(0.05), lambda: i['ustar' + c][y, x] / ust, lambda: i['uw' + c][y, x] / i['uw'][y, x])
        h = {c: slope(y, x, c) for c in 'sn'}
        A = W.np.hypot(e('s') + 2 * a * h['s'], e('n') + 2 * a * h['n'])
        ue = W.ite(ust >= i['uth0'][y, x, k], lambda: speed(ust, y, x, k), lambda: num(0.))
        # no direction at all where A vanishes
        return W.gt(A, num(1e-3)), lambda: (ue - uf / (sq(2 * a) * A)) * e(along) - (sq(2 * a) * uf / A) * h[along]

    def undisturbed(y, x, k):
        _, _, _, a, uf = size(k)
        return speed(i['ustar0'][y, x], y, x, k) - uf / sq(2 * a)
    return velocity, undisturbed


@contract('T02', 'transport.duran_grainspeed', functions=['transport.duran_grainspeed'], bounded=[dict(ny=3, nx=3, nf=1)], runs=300, timeout=6000)
def duran(W):
    ny, nx, nf = W.dim('ny', 3), W.dim('nx', 3), W.dim('nf', 1)
    s = state(W, ny, nx, nf, inf=False)
    for n in ('uth', 'uth0'):
        s[n] = W.array(n + 'p', (ny, nx, nf), pos=True, typ=0.3)
    s['uw'] = W.array('uwp', (ny, nx), pos=True, typ=10.)
    s['zb'] = W.array('zb', (ny, nx), typ=(0., 1.))
    s['zsep'] = W.array('zsep', (ny, nx), typ=(0., 1.))
    dx, dy = W.real('dx', pos=True, typ=1.), W.real('dy', pos=True, typ=1.)
    if W.symbolic:
        s['x'] = W.np.arange(nx)[None, :].repeat(ny, axis=0) * dx
        s['y'] = W.np.arange(ny)[:, None].repeat(nx, axis=1) * dy
    else:
        import numpy as np
        s['x'], s['y'] = np.meshgrid(np.arange(nx) * dx, np.arange(ny) * dy)
    num = lambda v: W.num(v) if W.symbolic else v
    p = dict(nfractions=nf, ny=ny - 1, nx=nx - 1, grain_size=W.array('grain_size', (nf,), pos=True, typ=3e-4), rhog=num(2650.), rhoa=num(1.225), g=num(9.81), v=num(0.000015), Aa=num(0.085), kappa=num(0.41))
    i = {k: W.copy(v) for k, v in s.items()}
    u0, us, un, u = W.call(W.mod('transport').duran_grainspeed, s, p)
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.finite(us[y, x, k]), lambda: W.Implies(W.finite(un[y, x, k]), lambda: W.eq(u[y, x, k] ** 2, us[y, x, k] ** 2 + un[y, x, k] ** 2, scale=1e-6))), 'speed-is-the-length-of-the-velocity')
    sep = lambda y, x: W.gt(i['zsep'][y, x], i['zb'][y, x] + num(0.01))
    low = lambda y, x: W.lt(i['ustar'][y, x], num(0.05))
    for c, q, d in (('us', us, 's'), ('un', un, 'n')):
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(sep(y, x), lambda: W.ite(low(y, x), W.eq(q[y, x, k] * i['uw'][y, x], num(0.1) * i['uw' + d][y, x], scale=1e-6), W.Implies(W.Not(low(y, x)), lambda: W.eq(q[y, x, k] * i['ustar'][y, x], num(0.1) * i['ustar' + d][y, x], scale=1e-6)))), c + '-slow-in-the-separation-bubble')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in ('uw', 'uws', 'uwn', 'ustar', 'ustars', 'ustarn', 'ustar0', 'zb', 'zsep')]), 'frame')
    vel, und = duran_ref(W, p, i, num, nx, ny)
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(u0[y, x, k], und(y, x, k), scale=1.), 'speed-over-a-flat-bed')

    def balance(c, q):
        def f(y, x, k):
            some, v = vel(y, x, k, c)
            return W.Implies(W.And(W.Not(sep(y, x)), some), lambda: W.eq(q[y, x, k], v(), scale=1.))
        return f
    for c, q in () if W.symbolic else (('s', us), ('n', un)):     # runs only
        W.forall((ny, nx, nf), balance(c, q), 'u' + c + '-drag-friction-and-slope')
