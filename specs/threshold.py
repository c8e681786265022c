# properties: H01 H02
"""Shear velocity threshold."""
from engine.runner import *

BND = [dict(ny=1, nx=1, nf=2)]


def num(W, v): return W.num(v) if W.symbolic else v


def params(W, nf, **k):
    p = dict(nfractions=nf, Aa=W.real('Aa', pos=True, typ=0.1), rhog=W.real('rhog', pos=True, typ=2650.), rhoa=W.real('rhoa', pos=True, typ=1.2), rhow=W.real('rhow', pos=True, typ=1025.), g=W.real('g', pos=True, typ=9.8),
             porosity=W.real('porosity', lo=0, hi=0.9), resw_moist=W.real('resw_moist', lo=0, hi=0.1), w1_5=W.real('w1_5', pos=True, typ=0.02), grain_size=W.array('grain_size', (nf,), pos=True, typ=3e-4), grain_dist=W.array('grain_dist', (nf,), pos=True, typ=(0.1, 1.)))
    W.assume(p['rhog'] > p['rhoa'])
    p.update(k)
    return p


@contract('H01', 'threshold.compute_grainsize', functions=['threshold.compute_grainsize'], bounded=BND, runs=300)
def grain(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    p = params(W, nf)
    s = dict(uth=W.array('uth', (ny, nx, nf), inf=True), uth0=W.array('uth0', (ny, nx, nf)))
    s = W.call(W.mod('threshold').compute_grainsize, s, p)
    want = lambda k: p['Aa'] * W.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * p['grain_size'][k])
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.eq(s['uth'][y, x, k], want(k)), W.eq(s['uth0'][y, x, k], want(k))), 'fluid-threshold-of-the-grain-size')
    W.forall((ny, nx, nf), lambda y, x, k: W.gt(s['uth'][y, x, k], 0), 'positive')
    s['uth'][0, 0, 0] = 77.
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(s['uth0'][y, x, k], want(k)), 'reference-threshold-not-aliased')


GROW = ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear_mod', 'shao', 'dong_2002', 'gregory_darwish']


def moist_formula(W, m, p, mg, u0, d):
    n = lambda v: num(W, v)
    if m == 'belly_johnson':
        return u0 * W.max(n(1.), n(1.8) + n(0.6) * W.log10(mg * 100))
    if m == 'hotta':
        return u0 + n(7.5) * mg
    if m == 'chepil':
        return W.sqrt(u0 ** 2 + n(0.6) * mg ** 2 / (p['rhoa'] * p['w1_5'] ** 2))
    if m == 'saleh_fryear':
        return n(0.305) + n(0.022) * mg / p['w1_5'] + n(0.506) * (mg / p['w1_5']) ** 2
    if m == 'saleh_fryear_mod':
        return u0 + n(0.022) * mg / p['w1_5'] + n(0.506) * (mg / p['w1_5']) ** 2
    if m == 'shao':
        return u0 * W.exp(n(22.7) * mg)
    if m == 'dong_2002':
        D = d * 1000
        K = W.ite(W.lt(D, n(0.135)), n(2.51), W.ite(W.lt(D, n(0.150)), n(2.05), W.ite(W.lt(D, n(0.200)), n(2.75), W.ite(W.lt(D, n(0.250)), n(1.59), W.ite(W.lt(D, n(0.400)), n(1.87), n(2.15))))))
        return u0 * W.sqrt(1 + K * 100 * mg)
    if m == 'dong_2007':
        return n(0.16) * W.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + n(478.2) * W.pow(mg, n(1.52)))


def moisture_body(W, methods, check_formula=True):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    m = W.choice('method', methods)
    p = params(W, nf, method_moist_threshold=m)
    s = dict(moist=W.array('moist', (ny, nx), lo=0, hi=1, typ=(0., 0.15)), uth=W.array('uth', (ny, nx, nf), pos=True, typ=0.3))
    u0, w0 = W.copy(s['uth']), W.copy(s['moist'])
    s = W.call(W.mod('threshold').compute_moisture, s, p)
    bulk = p['rhog'] * (1 - p['porosity'])
    mg = lambda y, x: w0[y, x] * p['rhow'] / bulk
    moist = lambda y, x: W.gt(mg(y, x), p['resw_moist'] * p['rhow'] / bulk + num(W, 0.005))
    wet = lambda y, x: W.gt(mg(y, x), num(W, 0.064))
    u1 = s['uth']
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(wet(y, x), lambda: W.isinf(u1[y, x, k])), 'no-transport-above-the-wet-limit')
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(W.Not(wet(y, x)), W.Not(moist(y, x))), lambda: W.eq(u1[y, x, k], u0[y, x, k])), 'dry-sand-unchanged')
    if m in GROW:
        W.forall((ny, nx, nf), lambda y, x, k: W.ge(u1[y, x, k], u0[y, x, k], scale=1e-6), 'moisture-never-lowers-the-threshold')
    W.forall((ny, nx, nf), lambda y, x, k: W.ge(u1[y, x, k], 0), 'not-negative')
    d = W.sum(nf, lambda k: p['grain_size'][k] * p['grain_dist'][k])
    if not W.symbolic:
        import numpy as np
        d = float(np.sum(p['grain_size'] * p['grain_dist']))
    if check_formula:
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(W.Not(wet(y, x)), moist(y, x)), lambda: W.eq(u1[y, x, k], moist_formula(W, m, p, mg(y, x), u0[y, x, k], d), scale=1e-6)), 'follows-the-formulation')
    W.forall((ny, nx), lambda y, x: W.eq(s['moist'][y, x], w0[y, x]), 'frame')


@contract('H01', 'threshold.compute_moisture/1', functions=['threshold.compute_moisture'], bounded=BND, runs=400)
def moist1(W): moisture_body(W, ['belly_johnson', 'hotta', 'chepil', 'saleh_fryear'])


@contract('H01', 'threshold.compute_moisture/2', functions=['threshold.compute_moisture'], bounded=BND, runs=400)
def moist2(W): moisture_body(W, ['saleh_fryear_mod', 'shao', 'dong_2002', 'dong_2007'])


@contract('H01', 'threshold.compute_moisture/3', functions=['threshold.compute_moisture'], bounded=BND, runs=300)
def moist3(W): moisture_body(W, ['gregory_darwish', 'cornelis'], False)


@contract('H01', 'threshold.compute_salt', functions=['threshold.compute_salt'], bounded=BND, runs=200)
def salt(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    s = dict(salt=W.array('salt', (ny, nx, 1), lo=0, hi=1), uth=W.array('uth', (ny, nx, nf), pos=True, typ=0.3))
    p = dict(nx=nx - 1, ny=ny - 1, nfractions=nf, csalt=W.real('csalt', lo=0, hi=1, typ=0.03))
    u0 = W.copy(s['uth'])
    W.assume(p['csalt'] <= num(W, 0.1))
    s = W.call(W.mod('threshold').compute_salt, s, p)
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(s['uth'][y, x, k], u0[y, x, k] * num(W, 1.03) * W.exp(num(W, .1027) * num(W, 1000.) * p['csalt'] * (1 - s['salt'][y, x, 0])), scale=1e-6), 'grows-with-the-salt-content')
    W.forall((ny, nx, nf), lambda y, x, k: W.ge(s['uth'][y, x, k], u0[y, x, k]), 'salt-never-lowers-the-threshold')


@contract('H01', 'threshold.compute_sheltering', functions=['threshold.compute_sheltering'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=300)
def shelter(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=(0., 5.)), uth=W.array('uth', (ny, nx, nf), pos=True, typ=0.3), ustar=W.array('ustar', (ny, nx), lo=0, typ=0.4))
    W.assume(W.all((ny, nx), lambda y, x: W.gt(W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.num(0))))
    p = dict(nx=nx - 1, ny=ny - 1, nfractions=nf, m=W.real('m', lo=0, hi=1), beta=W.real('beta', pos=True, typ=130.), sigma=W.real('sigma', pos=True, typ=4.2))
    u0, m0 = W.copy(s['uth']), W.copy(s['mass'])
    def gd(i, idx, o):
        y, x = W.split(idx[0])
        return W.sum(i, lambda k: W.ite(W.le(s['ustar'][y, x], u0[y, x, k]), m0[y, x, 0, k], 0.))
    W.loop('compute_sheltering', 0, functional_loop({'gd': gd}))
    s = W.call(W.mod('threshold').compute_sheltering, s, p)
    tot = lambda y, x: W.sum(nf, lambda k: m0[y, x, 0, k])
    rough = lambda y, x: W.sum(nf, lambda k: W.ite(W.le(s['ustar'][y, x], u0[y, x, k]), m0[y, x, 0, k], 0.)) / tot(y, x)
    fac = lambda y, x: W.sqrt((1 - p['m'] * rough(y, x)) * (1 + p['m'] * p['beta'] / p['sigma'] * rough(y, x)))
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(s['uth'][y, x, k], u0[y, x, k] * fac(y, x), scale=1e-6), 'raupach-roughness-factor')
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.eq(s['mass'][y, x, l, k], m0[y, x, l, k]), 'frame')


@contract('H02', 'threshold.non_erodible', functions=['threshold.non_erodible'], bounded=BND, runs=300)
def nonero(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    ne = W.array('ne_file', (ny, nx), typ=(0., 1.))
    s = dict(zb=W.array('zb', (ny, nx), typ=(0., 1.)), zne=W.array('zne', (ny, nx)), uth=W.array('uth', (ny, nx, nf), pos=True, inf=True, typ=0.3))
    u0, z0 = W.copy(s['uth']), W.copy(s['zb'])
    s = W.call(W.mod('threshold').non_erodible, s, dict(nfractions=nf, ne_file=ne))
    exposed = lambda y, x: W.le(z0[y, x], ne[y, x] + num(W, 0.01))
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(exposed(y, x), lambda: W.isinf(s['uth'][y, x, k])), 'exposed-non-erodible-layer-never-erodes')
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.Not(exposed(y, x)), lambda: W.same(s['uth'][y, x, k], u0[y, x, k])), 'covered-cells-unchanged')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['zb'][y, x], z0[y, x]), W.eq(s['zne'][y, x], ne[y, x])), 'frame')


@contract('H02', 'threshold.compute', functions=['threshold.compute', 'threshold.compute_grainsize', 'utils.apply_mask', 'threshold.non_erodible'], bounded=BND, runs=500)
def comp(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    ne = W.array('ne_file', (ny, nx), typ=(0., 1.))
    p = params(W, nf, process_threshold=W.choice('on', [True, False]), threshold_file=None, th_grainsize=True, th_bedslope=W.choice('th_bedslope', [False, True]), th_moisture=W.choice('th_moisture', [False, True]),
               process_tide=W.choice('tide', [False, True]), th_drylayer=False, th_humidity=False, th_salt=False, th_sheltering=False, th_nelayer=W.choice('ne', [False, True]), ne_file=ne,
               eps=W.real('eps', lo=0, hi=0.1), method_moist_threshold='hotta')
    s = dict(zb=W.array('zb', (ny, nx), typ=(0., 1.)), zs=W.array('zs', (ny, nx), typ=(0., 1.)), zne=W.array('zne', (ny, nx)), uth=W.array('uth', (ny, nx, nf), pos=True, inf=True), uthf=W.array('uthf', (ny, nx, nf)),
             uth0=W.array('uth0', (ny, nx, nf)), moist=W.array('moist', (ny, nx), lo=0, hi=1, typ=(0., 0.15)))
    mre, mim = W.array('mask_re', (ny, nx), pos=True, typ=(0.5, 2.)), W.array('mask_im', (ny, nx), lo=0, typ=(0., 1.))
    s['threshold_mask'] = W.cmask(mre, mim)
    prev, prevf = W.copy(s['uth']), W.copy(s['uthf'])
    zb, zs, w = W.copy(s['zb']), W.copy(s['zs']), W.copy(s['moist'])
    s = W.call(W.mod('threshold').compute, s, p)
    exposed = lambda y, x: W.And(p['th_nelayer'], W.le(zb[y, x], ne[y, x] + num(W, 0.01)))
    if not p['process_threshold']:
        W.forall((ny, nx, nf), lambda y, x, k: W.ite(exposed(y, x), W.isinf(s['uth'][y, x, k]), W.same(s['uth'][y, x, k], prev[y, x, k])), 'prescribed-threshold-kept')
        return
    base = lambda k: p['Aa'] * W.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * p['grain_size'][k])
    bulk = p['rhog'] * (1 - p['porosity'])
    mg = lambda y, x: w[y, x] * p['rhow'] / bulk
    if p['th_moisture']:
        dead = lambda y, x: W.gt(mg(y, x), num(W, 0.064))
        add = lambda y, x: W.ite(W.gt(mg(y, x), p['resw_moist'] * p['rhow'] / bulk + num(W, 0.005)), num(W, 7.5) * mg(y, x), 0.)
    else:
        dead = lambda y, x: W.And(p['process_tide'], W.lt(zb[y, x] - zs[y, x], -p['eps']))
        add = lambda y, x: 0.
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.Or(dead(y, x), exposed(y, x)), lambda: W.isinf(s['uth'][y, x, k])), 'no-transport-under-water-or-on-bare-non-erodible-layer')
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.Not(W.Or(dead(y, x), exposed(y, x))), lambda: W.eq(s['uth'][y, x, k], mre[y, x] * (base(k) + add(y, x)) + mim[y, x], scale=1e-6)), 'grain-size-threshold-with-modifications-and-mask')
    W.forall((ny, nx, nf), lambda y, x, k: W.ite(dead(y, x), W.isinf(s['uthf'][y, x, k]), W.eq(s['uthf'][y, x, k], mre[y, x] * (base(k) + add(y, x)) + mim[y, x], scale=1e-6)), 'threshold-without-the-non-erodible-layer')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['zb'][y, x], zb[y, x]), W.eq(s['zs'][y, x], zs[y, x]), W.eq(s['moist'][y, x], w[y, x])), 'frame')
