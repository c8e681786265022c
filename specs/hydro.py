# properties: Y01 Y02 Y03 Y04
"""Hydrodynamics: water levels, waves, runup; surface moisture; groundwater."""
from engine.runner import *
from specs.forcing import times, lerp


def num(W, v): return W.num(v) if W.symbolic else v


def series(W, nm, n, cols):
    """a time series file: time, columns"""
    t = times(W, n)
    a = [W.array('%s%d' % (nm, c), (n,), **kw) for c, kw in enumerate(cols)]
    return t, W.np.concatenate([t[:, None]] + [q[:, None] for q in a], axis=1), a


def interp_stub(W, n, mod):
    """utils.interp_circular by contract (U02): a function of the time and the series (compared at a generic entry)"""
    if not W.symbolic:
        return lambda x, t, v: lerp(W, x, t, v, n)
    g = W.int('g', 0)
    W.assume(g < n)
    G = core.z3.Function('Interp', core.z3.RealSort(), core.z3.RealSort(), core.z3.RealSort(), core.z3.RealSort())

    def itp(x, xp, fp, **k):
        return core.R(G(core.zr(as_R(x).v), core.zr(as_R(xp.at((g,))).v), core.zr(as_R(fp.at((g,))).v)))
    W.stub(mod, 'interp_circular', itp)
    return itp


def stockdon(W, H, T, beta):
    """Stockdon et al. (2006)"""
    q = lambda: W.sqrt(H * lo)
    lo = num(W, 9.81) * T * T / (2 * W.pi)
    diss = lambda: W.lt(beta * beta * lo, num(W, 0.09) * H)    # surf similarity below 0.3
    eta_d, sig_d, R_d = (lambda: num(W, 0.043) * q() - num(W, 0.023) * q()), (lambda: num(W, 0.023) * q()), (lambda: num(W, 0.043) * q())
    eta = lambda: num(W, 0.35) * beta * q()
    sig = lambda: W.sqrt(H * lo * (num(W, 0.563) * beta * beta + num(W, 0.0004))) / 2
    on = W.And(W.gt(H, 0), W.gt(T, 0), W.gt(beta, 0))
    pick = lambda a, b: W.ite(on, lambda: W.ite(diss(), a, b), 0)
    return pick(eta_d, eta), pick(sig_d, sig), pick(R_d, lambda: num(W, 1.1) * (eta() + sig()))


def near_switch(W, H, T, beta):
    """not within rounding of the switch between the two formulations"""
    if W.symbolic:
        return True
    lo = 9.81 * T * T / (2 * W.pi)
    return abs(beta * beta * lo - 0.09 * H) > 1e-9 * (abs(H) + lo)


@contract('Y02', 'hydro.calc_runup_stockdon/scalar', functions=['hydro.calc_runup_stockdon'], bounded=[dict()], runs=500)
def runup(W):
    H, T, beta = W.real('Hs', lo=0, typ=(0., 5.)), W.real('Tp', lo=0, typ=(0., 15.)), W.real('beta', lo=0, typ=(0., .3))
    W.assume(near_switch(W, H, T, beta))
    e, s, r = W.call(W.mod('hydro').calc_runup_stockdon, H, T, beta)
    E, S, R = stockdon(W, H, T, beta)
    W.ensure('setup', W.eq(e, E, scale=1e-3))
    W.ensure('swash', W.eq(s, S, scale=1e-3))
    W.ensure('runup', W.eq(r, R, scale=1e-3))
    W.ensure('runup-includes-the-setup', W.And(W.ge(e, 0), W.ge(s, 0), W.ge(r, e)))


@contract('Y02', 'hydro.calc_runup_stockdon/array', functions=['hydro.calc_runup_stockdon'], bounded=[dict(ny=1, nx=2)], runs=500)
def runup_arr(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    H, T, beta = W.array('Hs', (ny, nx), lo=0, typ=(0., 5.)), W.array('Tp', (ny, nx), pos=True, typ=(1., 15.)), W.real('beta', pos=True, typ=(.01, .3))
    W.assume(W.all((ny, nx), lambda y, x: near_switch(W, H[y, x], T[y, x], beta)) if not W.symbolic else True)
    H0, T0 = W.copy(H), W.copy(T)
    e, s, r = W.call(W.mod('hydro').calc_runup_stockdon, H, T, beta)
    want = lambda y, x: stockdon(W, H0[y, x], T0[y, x], beta)
    for k, (nm, a) in enumerate((('setup', e), ('swash', s), ('runup', r))):
        W.forall((ny, nx), lambda y, x: W.eq(a[y, x], want(y, x)[k], scale=1e-3), nm)
    W.forall((ny, nx), lambda y, x: W.And(W.eq(H[y, x], H0[y, x]), W.eq(T[y, x], T0[y, x])), 'frame')


FIELDS = ['SWL', 'TWL', 'DSWL', 'Hs', 'Tp', 'Hsmix', 'R', 'eta', 'sigma_s', 'zs']


@contract('Y01', 'hydro.interpolate', functions=['hydro.interpolate', 'hydro.calc_runup_stockdon', 'utils.apply_mask'], bounded=[dict(ny=1, nx=2, n=2)], runs=600)
def interp(W):
    """water level, waves and runup of the current time step"""
    ny, nx, n = W.dim('ny', 1), W.dim('nx', 1), W.dim('n', 2)
    tide, wave, run = W.choice('tide', [True, False]), W.choice('wave', [True, False]), W.choice('runup', [True, False])
    tt, tf, (lev,) = series(W, 'tide', n, [dict(typ=(-2., 2.))])
    if W.symbolic:
        wf_t, (hs, tp) = tt, [W.array('wave%d' % c, (n,), lo=0) for c in range(2)]
        wf = W.np.concatenate([tt[:, None], hs[:, None], tp[:, None]], axis=1)
    else:
        wf_t, hs, tp = tt, W.array('wave0', (n,), lo=0, typ=(0., 4.)), W.array('wave1', (n,), lo=0, typ=(1., 12.))
        wf = W.np.concatenate([tt[:, None], hs[:, None], tp[:, None]], axis=1)
    has_t, has_w = W.choice('tide_file', [True, False]), W.choice('wave_file', [True, False])
    p = dict(process_tide=tide, process_wave=wave, process_runup=run, process_moist=False, tide_file=tf if has_t else None, wave_file=wf if has_w else None, external_vars=[], ny=ny - 1, nx=nx - 1,
             gamma=W.real('gamma', pos=True, typ=0.5), beach_slope=W.real('beach_slope', pos=True, typ=0.1), eps=num(W, 1e-3), method_moist_process='infiltration', meteo_file=None)
    s = {k: W.array(k, (ny, nx), typ=(-1., 1.)) for k in FIELDS}
    s['zb'] = W.array('zb', (ny, nx), typ=(-3., 3.))
    M = {}
    for k in ('tide', 'wave', 'runup'):
        M[k] = W.array(k + '_re', (ny, nx), lo=0, typ=(0., 2.)), W.array(k + '_im', (ny, nx), lo=0, typ=(0., .5))
        s[k + '_mask'] = W.cmask(*M[k])
    mask = lambda k, v, y, x: v * M[k][0][y, x] + M[k][1][y, x]
    i = {k: W.copy(v) for k, v in s.items()}
    t = W.real('t', typ=(-5., 20.))
    W.assume(W.And(W.le(W.at(tt, 0), t), W.le(t, W.at(tt, n - 1))))
    itp = interp_stub(W, n, 'hydro')
    if W.symbolic:
        W.assume(W.And(W.ge(itp(t, tt, hs), 0), W.ge(itp(t, tt, tp), 0)))
    s = W.call(W.mod('hydro').interpolate, s, p, t)
    L, H, T = itp(t, tt, lev), itp(t, wf_t, hs), itp(t, wf_t, tp)
    W.forall((ny, nx), lambda y, x: W.eq(s['SWL'][y, x], (mask('tide', L if has_t else 0, y, x)) if tide else 0, scale=1e-3), 'still-water-level-of-the-tide-series')
    if wave and has_w:
        W.forall((ny, nx), lambda y, x: W.eq(s['Hs'][y, x], mask('wave', W.min(W.max(s['SWL'][y, x] - i['zb'][y, x], 0) * p['gamma'], H), y, x), scale=1e-3), 'wave-height-limited-by-the-depth')
        W.forall((ny, nx), lambda y, x: W.eq(s['Tp'][y, x], mask('wave', T, y, x), scale=1e-3), 'wave-period')
        W.forall((ny, nx), lambda y, x: W.eq(s['Hsmix'][y, x], mask('wave', W.min(W.max(s['TWL'][y, x] - i['zb'][y, x], 0) * p['gamma'], H), y, x), scale=1e-3), 'mixing-wave-height-limited-by-the-depth-including-runup')
    else:
        W.forall((ny, nx), lambda y, x: W.And(W.eq(s['Hs'][y, x], 0), W.eq(s['Tp'][y, x], 0), W.eq(s['Hsmix'][y, x], i['Hsmix'][y, x])), 'no-waves')
    if run:
        def ru(y, x):
            a, b, be = s['Hs'][y, 0], s['Tp'][y, 0], p['beach_slope']
            if not near_switch(W, a, b, be):
                return True
            e, sg, R = stockdon(W, a, b, be)
            return W.And(W.eq(s['eta'][y, x], mask('runup', e, y, x), scale=1e-3), W.eq(s['R'][y, x], mask('runup', R, y, x), scale=1e-3), W.eq(s['sigma_s'][y, x], sg, scale=1e-3))
        W.forall((ny, nx), ru, 'runup-of-the-offshore-waves-per-transect')
        W.forall((ny, nx), lambda y, x: W.And(W.eq(s['TWL'][y, x], s['SWL'][y, x] + s['R'][y, x], scale=1e-3), W.eq(s['DSWL'][y, x], s['SWL'][y, x] + s['eta'][y, x], scale=1e-3)), 'total-water-level-adds-the-runup')
    else:
        W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], s['SWL'][y, x]) for k in ('TWL', 'DSWL')], *[W.eq(s[k][y, x], i[k][y, x]) for k in ('R', 'eta', 'sigma_s')]), 'no-runup')
    W.forall((ny, nx), lambda y, x: W.eq(s['zs'][y, x], W.max(s['SWL'][y, x], i['zb'][y, x])), 'water-level-never-below-the-bed')
    W.forall((ny, nx), lambda y, x: W.eq(s['zb'][y, x], i['zb'][y, x]), 'frame')


class Raised(Exception): pass


class Log:
    def log_and_raise(self, m, exc=Exception): raise exc(m)
    def __getattr__(self, k): return lambda *a, **kw: None


def logger(W):
    m = W.mod('hydro')
    if W.symbolic:
        m.__dict__['logger'] = Log()
    else:
        W.patch(m, 'logger', Log())
    return m


def base(W, ny, nx):
    s = dict(zb=W.array('zb', (ny, nx), typ=(0., 2.)), TWL=W.array('TWL', (ny, nx), typ=(0., 2.)), moist=W.array('moist', (ny, nx), lo=0, typ=(0., .6)), salt=W.array('salt', (ny, nx, 2), lo=0, hi=1),
             uw=W.array('uw', (ny, nx), lo=0, typ=(0., 20.)), gw=W.array('gw', (ny, nx), typ=(0., 2.)))
    p = dict(process_groundwater=False, process_moist=True, process_salt=False, process_scanning=False, porosity=W.real('porosity', pos=True, hi=1, typ=.4), Tdry=W.real('Tdry', pos=True, typ=(1., 5400.)), eps=W.real('eps', lo=0, typ=.001),
             Tsalt=W.real('Tsalt', pos=True, typ=(100., 2592000.)), layer_thickness=W.real('layer_thickness', pos=True, typ=.01))
    return s, p


def decay(W, dt, T):
    """half-life decay"""
    return W.exp(-(-W.log(num(W, .5)) / T) * dt)


@contract('Y03', 'hydro.interpolate/meteo', functions=['hydro.interpolate', 'utils.interp_array'], bounded=[dict(ny=1, nx=1, n=2)], runs=200)
def weather(W):
    """the weather of the current time step"""
    ny, nx, n = W.dim('ny', 1), W.dim('nx', 1), W.dim('n', 2)
    tt, mf, cols = series(W, 'meteo', n, [dict(typ=(0., 20.)) for _ in range(5)])
    on, has, method = W.choice('moist', [True, False]), W.choice('meteo_file', [True, False]), W.choice('method', ['surf_moisture', 'Surf_Moisture', 'infiltration'])
    p = dict(process_tide=False, process_wave=False, process_runup=False, process_moist=on, tide_file=None, wave_file=None, external_vars=[], ny=ny - 1, nx=nx - 1, method_moist_process=method, meteo_file=mf if has else None)
    s = {k: W.array(k, (ny, nx), typ=(-1., 1.)) for k in FIELDS}
    s['zb'] = W.array('zb', (ny, nx), typ=(-3., 3.))
    for k in ('tide', 'wave', 'runup'):
        s[k + '_mask'] = None
    t = W.real('t', typ=(-5., 20.))
    W.assume(W.And(W.le(W.at(tt, 0), t), W.le(t, W.at(tt, n - 1))))
    itp = interp_stub(W, n, 'hydro')
    if W.symbolic:
        W.stub('utils', 'interp_circular', itp)
    s = W.call(W.mod('hydro').interpolate, s, p, t)
    if on and has and method.lower() == 'surf_moisture':
        W.ensure('all-parameters', sorted(s['meteo']) == ['P', 'Q', 'RH', 'T', 'U'])
        W.ensure('weather-of-the-time', W.And(*[W.eq(s['meteo'][k], itp(t, tt, c), scale=1e-3) for k, c in zip(('T', 'Q', 'RH', 'P', 'U'), cols)]))
    else:
        W.ensure('no-weather-read', 'meteo' not in s)


@contract('Y03', 'hydro.update/infiltration', functions=['hydro.update'], bounded=[dict(ny=1, nx=2)], runs=400)
def infil(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s, p = base(W, ny, nx)
    p['process_moist'] = W.choice('moist', [True, False])
    p['method_moist_process'] = W.choice('method', ['infiltration', 'Infiltration'])
    i = {k: W.copy(v) for k, v in s.items()}
    dt = W.real('dt', pos=True, typ=(1., 3600.))
    s = W.call(logger(W).update, s, p, dt, W.real('t', lo=0))
    if not p['process_moist']:
        W.forall((ny, nx), lambda y, x: W.eq(s['moist'][y, x], i['moist'][y, x]), 'moisture-kept')
    else:
        wet = lambda y, x: W.gt(i['TWL'][y, x] - i['zb'][y, x], p['eps'])
        W.forall((ny, nx), lambda y, x: W.Implies(wet(y, x), lambda: W.eq(s['moist'][y, x], p['porosity'])), 'flooded-cells-are-saturated')
        W.forall((ny, nx), lambda y, x: W.Implies(W.Not(wet(y, x)), lambda: W.eq(s['moist'][y, x], W.min(i['moist'][y, x] * decay(W, dt, p['Tdry']), p['porosity']), scale=1e-6)), 'dry-cells-drain-with-their-half-life')
        W.forall((ny, nx), lambda y, x: W.And(W.ge(s['moist'][y, x], 0), W.le(s['moist'][y, x], p['porosity'])), 'between-dry-and-saturated')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('zb', 'TWL', 'uw', 'gw')], W.eq(s['salt'][y, x, 0], i['salt'][y, x, 0])), 'frame')


@contract('Y03', 'hydro.update/unknown', functions=['hydro.update'], bounded=[dict(ny=1, nx=1)], runs=20)
def unknown(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s, p = base(W, ny, nx)
    p['method_moist_process'] = W.choice('method', ['none', 'surface'])
    W.ensure('unknown-moisture-process-refused', W.raises(ValueError, logger(W).update, s, p, W.real('dt', pos=True), W.real('t', lo=0)))


def penman(W, met, p, uw):
    """Penman (Shuttleworth, 1993), mm/day"""
    n = lambda v: num(W, v)
    sat = n(.6108) * W.exp(n(17.27) * met['T'] / (met['T'] + n(237.3)))
    m = n(4098.) * sat / (met['T'] + n(237.3)) ** 2
    delta = sat * (1 - met['U'] / 100)
    gam = p['cpair'] * met['P'] / (n(.622) * n(2.26))
    return lambda y, x: (m * met['Q'] + n(6.43) * gam * delta * (1 + n(.86) * (n(.174) / W.log10(p['z'] / 2) * uw[y, x]))) / (n(2.26) * (m + gam))


@contract('Y03', 'hydro.update/surface-moisture', functions=['hydro.update', 'hydro.evaporation', 'hydro.saturation_pressure', 'hydro.vaporation_pressure_slope'], bounded=[dict(ny=1, nx=2)], runs=400)
def surf(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s, p = base(W, ny, nx)
    p['method_moist_process'] = 'surf_moisture'
    r = lambda k, **kw: p.__setitem__(k, W.real(k, **kw))
    r('fc', lo=0, typ=.11); r('resw_moist', lo=0, typ=(0., .05)); r('resd_moist', lo=0, typ=(0., .05)); r('thick_moist', pos=True, typ=.002); r('cpair', pos=True, typ=.0010035); r('z', pos=True, typ=(3., 10.))
    p['satw_moist'], p['satd_moist'] = p['resw_moist'] + W.real('dw', pos=True, typ=.3), p['resw_moist'] + p['resd_moist'] + W.real('dd', pos=True, typ=.4)
    r('alfaw_moist', pos=True, typ=.07); r('alfad_moist', pos=True, typ=.05); r('nw_moist', pos=True, typ=(2., 8.)); r('nd_moist', pos=True, typ=(2., 5.)); r('mw_moist', pos=True, typ=.8); r('md_moist', pos=True, typ=.7)
    W.assume(p['z'] > num(W, 2.5))
    s['meteo'] = {k: W.real('met_' + k, **kw) for k, kw in dict(T=dict(lo=0, typ=(0., 30.)), Q=dict(typ=(-10., 30.)), RH=dict(lo=0, typ=(0., 5.)), P=dict(pos=True, typ=101.), U=dict(lo=0, hi=120)).items()}
    s['wetting'] = W.bools('wetting', (ny, nx))
    s['moist_swr'] = W.array('swr', (ny, nx), lo=0)
    wet0 = W.copy(s['wetting'])
    i = {k: W.copy(v) for k, v in s.items() if k not in ('meteo', 'wetting')}
    dt = W.real('dt', pos=True, typ=(1., 3600.))
    s = W.call(logger(W).update, s, p, dt, W.real('t', lo=0))
    flooded = lambda y, x: W.gt(i['TWL'][y, x], i['zb'][y, x])
    W.forall((ny, nx), lambda y, x: W.Implies(flooded(y, x), lambda: W.eq(s['moist'][y, x], p['satd_moist'])), 'flooded-cells-are-saturated')
    W.forall((ny, nx), lambda y, x: W.And(W.ge(s['moist'][y, x], p['resw_moist']), W.le(s['moist'][y, x], p['satd_moist'])), 'between-residual-and-saturated')
    h = lambda y, x: W.max((i['zb'][y, x] - i['gw'][y, x]) * 100, 0)

    def curve(y, x, k):
        return p['res%s_moist' % k] + (p['sat%s_moist' % k] - p['res%s_moist' % k]) / (1 + W.pow(W.abs(p['alfa%s_moist' % k] * h(y, x)), p['n%s_moist' % k])) ** p['m%s_moist' % k]
    swr = lambda y, x: W.ite(wet0[y, x], lambda: curve(y, x, 'w'), lambda: curve(y, x, 'd'))
    W.forall((ny, nx), lambda y, x: W.eq(s['moist_swr'][y, x], swr(y, x), scale=1e-6), 'capillary-moisture-of-the-wetting-or-drying-curve')
    met = s['meteo']
    E = penman(W, met, p, i['uw'])
    drained = lambda y, x: i['moist'][y, x] + W.min((i['moist'][y, x] - p['fc']) * (decay(W, dt, p['Tdry']) - 1), 0)
    net = lambda y, x: (met['RH'] / 3600 / 1000 - E(y, x) / 24 / 3600 / 1000) * dt / p['thick_moist']
    want = lambda y, x: W.min(W.max(W.min(W.max(drained(y, x) + net(y, x), p['resw_moist']), p['satd_moist']), s['moist_swr'][y, x]), p['satd_moist'])
    W.forall((ny, nx), lambda y, x: W.Implies(W.Not(flooded(y, x)), lambda: W.eq(s['moist'][y, x], want(y, x), scale=1e-4)), 'drainage-rain-evaporation-and-capillary-rise')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('zb', 'TWL', 'uw', 'gw')]), 'frame')


def retention(W, ny, nx):
    """parameters of the soil water retention curves; moisture lies between the curves"""
    p = {}
    r = lambda k, **kw: p.__setitem__(k, W.real(k, **kw))
    r('resw_moist', lo=0, typ=(0., .05)); r('alfaw_moist', pos=True, typ=.07); r('alfad_moist', pos=True, typ=.05); r('nw_moist', pos=True, typ=(2., 8.)); r('nd_moist', pos=True, typ=(2., 5.)); r('mw_moist', pos=True, typ=.8); r('md_moist', pos=True, typ=.7)
    p['resd_moist'] = p['resw_moist'] + (W.real('dres', lo=0) if W.symbolic else 0.)
    p['satw_moist'] = p['resw_moist'] + W.real('dw', lo=num(W, .001), typ=(.1, .3))
    if not W.symbolic:   # rounding
        W.assume(all(1 <= p[k] <= 10 for k in ('nw_moist', 'nd_moist')) and all(.1 <= p[k] <= 2 for k in ('mw_moist', 'md_moist')) and all(.01 <= p[k] <= 1 for k in ('alfaw_moist', 'alfad_moist')))
    p['satd_moist'] = p['satw_moist'] + p['resd_moist'] - p['resw_moist'] + W.real('dd', pos=True, typ=.1)
    return p


def vgm(W, p, k, h):
    """van Genuchten curve"""
    if not W.symbolic:
        return p['res%s_moist' % k] + (p['sat%s_moist' % k] - p['res%s_moist' % k]) / (1 + (p['alfa%s_moist' % k] * h) ** p['n%s_moist' % k]) ** p['m%s_moist' % k]
    return p['res%s_moist' % k] + (p['sat%s_moist' % k] - p['res%s_moist' % k]) / (1 + W.pow(W.abs(p['alfa%s_moist' % k] * h), p['n%s_moist' % k])) ** p['m%s_moist' % k]


def flags(W, nm, ny, nx):
    return W.bools(nm, (ny, nx))


@contract('Y03', 'hydro.SWR_curve', functions=['hydro.SWR_curve'], bounded=[dict(ny=1, nx=2)], runs=400)
def swrcurve(W):
    """selection of the retention curve of each cell: main wetting and drying curves and the scanning curves between them"""
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    A = {k: W.array(k, (ny, nx), lo=0, hi=1) for k in ('gw', 'gw_prev', 'moist_swr', 'w_h', 'scan_w_moist', 'd_h', 'scan_d_moist')}
    if not W.symbolic:
        same_ = W.np.random.RandomState(W.int('seed', 0, 1000)).rand(ny, nx) < .2
        A['gw_prev'][same_] = A['gw'][same_]
    B = {k: flags(W, k, ny, nx) for k in ('wetting', 'scan_w', 'scan_d')}
    i, b = {k: W.copy(v) for k, v in A.items()}, {k: W.copy(v) for k, v in B.items()}
    swr, sd, sw = W.call(W.mod('hydro').SWR_curve, B['wetting'], A['gw'], A['gw_prev'], B['scan_w'], A['moist_swr'], A['w_h'], B['scan_d'], A['scan_w_moist'], A['d_h'], A['scan_d_moist'])

    def want(y, x):
        v = {k: q[y, x] for k, q in i.items()}
        rise = W.ge(v['gw'], v['gw_prev'])
        wet, w, d = (b[k][y, x] for k in ('wetting', 'scan_w', 'scan_d'))
        main_w, main_d = W.And(wet, W.Not(w)), W.And(W.Not(wet), W.Not(d))
        m = W.ite(rise, lambda: W.ite(main_w, v['w_h'], v['scan_w_moist']), lambda: W.ite(main_d, v['d_h'], v['scan_d_moist']))
        return m, W.And(rise, W.Not(main_w), W.gt(v['scan_w_moist'], v['w_h'])), W.And(W.Not(rise), W.Not(main_d), W.lt(v['scan_d_moist'], v['d_h']))
    iff = lambda a, c: W.ite(c, lambda: a, lambda: W.Not(a))
    W.forall((ny, nx), lambda y, x: W.eq(swr[y, x], want(y, x)[0]), 'moisture-of-the-curve-followed')
    W.forall((ny, nx), lambda y, x: iff(sw[y, x], want(y, x)[1]), 'wetting-scanning-curve-until-the-main-curve')
    W.forall((ny, nx), lambda y, x: iff(sd[y, x], want(y, x)[2]), 'drying-scanning-curve-until-the-main-curve')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(A[k][y, x], i[k][y, x]) for k in ('gw', 'gw_prev', 'w_h', 'd_h', 'scan_w_moist', 'scan_d_moist')], iff(B['wetting'][y, x], b['wetting'][y, x])), 'frame')


@contract('Y03', 'hydro.hdelta', functions=['hydro.hdelta'], bounded=[dict(ny=1, nx=2)], runs=300)
def hdelta(W):
    """suction at the last reversal between wetting and drying"""
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    p = retention(W, ny, nx)
    gw, gp, hd, zb = (W.array(k, (ny, nx), typ=(0., .5)) for k in ('gw', 'gw_prev', 'h_delta', 'zb'))
    wet, sw, sd = (flags(W, k, ny, nx) for k in ('wetting', 'scan_w', 'scan_d'))
    if W.symbolic:
        wh, dh, swm, sdm = (W.array(k, (ny, nx), lo=0) for k in ('w_h', 'd_h', 'scan_w_moist', 'scan_d_moist'))
        # the suction of a reversal on a drying scanning curve is found by search, see the runs
        W.assume(W.all((ny, nx), lambda y, x: W.Not(W.And(sd[y, x], W.Not(wet[y, x]), W.gt(gw[y, x], gp[y, x])))))
    else:
        h = (zb - gw).clip(0) * 100
        wh, dh = vgm(W, p, 'w', h), vgm(W, p, 'd', h)
        f, g = W.array('f', (ny, nx), lo=0, hi=1), W.array('g', (ny, nx), lo=num(W, .3), hi=1)
        swm, sdm = wh + f * (dh - wh), wh + g * (dh - wh)
        W.assume(bool((dh > wh + 1e-3).all()))
    i = dict(h_delta=W.copy(hd), gw=W.copy(gw), gw_prev=W.copy(gp), zb=W.copy(zb), w_h=W.copy(wh), d_h=W.copy(dh), scan_w_moist=W.copy(swm), scan_d_moist=W.copy(sdm))
    q = {k: (float(v) if not W.symbolic else v) for k, v in p.items()}
    r = W.call(W.mod('hydro').hdelta, wet, sw, gw, gp, sd, hd, zb, swm, sdm, wh, q['satd_moist'], dh, q['satw_moist'], q['alfaw_moist'], q['alfad_moist'], q['resw_moist'], q['resd_moist'], q['mw_moist'], q['md_moist'], q['nw_moist'], q['nd_moist'])
    fall, rise = (lambda y, x: W.lt(i['gw'][y, x], i['gw_prev'][y, x])), (lambda y, x: W.gt(i['gw'][y, x], i['gw_prev'][y, x]))
    main = lambda y, x: W.Or(W.And(W.Not(sw[y, x]), wet[y, x], fall(y, x)), W.And(W.Not(sd[y, x]), W.Not(wet[y, x]), rise(y, x)))
    onw = lambda y, x: W.And(sw[y, x], wet[y, x], fall(y, x))
    ond = lambda y, x: W.And(sd[y, x], W.Not(wet[y, x]), rise(y, x))

    def ratio(y, x):
        a, w, d = i['scan_w_moist'][y, x], i['w_h'][y, x], i['d_h'][y, x]
        m = W.min((a - w) * (p['satd_moist'] - w) / (d - w) + w, p['satw_moist'])
        return (p['satw_moist'] - p['resw_moist']) / W.max(m - p['resw_moist'], num(W, .00001))

    def back(y, x):
        e = ratio(y, x)
        return W.max(1 / p['alfaw_moist'] * W.pow(W.pow(e, 1 / p['mw_moist']) - 1, 1 / p['nw_moist']), 0)
    W.forall((ny, nx), lambda y, x: W.Implies(main(y, x), lambda: W.eq(r[y, x], W.max((i['zb'][y, x] - i['gw'][y, x]) * 100, 0))), 'suction-at-a-reversal-on-a-main-curve')
    if W.symbolic:
        W.assume(W.all((ny, nx), lambda y, x: W.Implies(onw(y, x), lambda: W.And(W.gt(i['d_h'][y, x], i['w_h'][y, x]), W.ge(i['scan_w_moist'][y, x], i['w_h'][y, x]),
                    W.Implies(W.ge(ratio(y, x), 1), lambda: W.ge(W.pow(ratio(y, x), 1 / p['mw_moist']), 1))))))   # a power of a number above one
    W.forall((ny, nx), lambda y, x: W.Implies(onw(y, x), lambda: W.eq(r[y, x], back(y, x), scale=1e-4)), 'suction-at-a-reversal-on-a-wetting-scanning-curve')
    if not W.symbolic:
        def found(y, x):
            w, a, k = i['w_h'][y, x], i['scan_d_moist'][y, x], r[y, x]
            F = lambda k: w + (p['satw_moist'] - w) / max(p['satw_moist'] - vgm(W, p, 'w', k), .0001) * (vgm(W, p, 'd', k) - vgm(W, p, 'w', k)) - a
            return k > 0 and F(k) <= .01 + 1e-6 and (k <= .0101 or F(k - .01) > .01 - 1e-6)
        W.forall((ny, nx), lambda y, x: W.Implies(ond(y, x), lambda: found(y, x)), 'suction-at-a-reversal-on-a-drying-scanning-curve')
    W.forall((ny, nx), lambda y, x: W.Implies(W.Not(W.Or(main(y, x), onw(y, x), ond(y, x))), lambda: W.eq(r[y, x], i['h_delta'][y, x])), 'kept-without-a-reversal')
    A = dict(gw=gw, gw_prev=gp, zb=zb, w_h=wh, d_h=dh, scan_w_moist=swm, scan_d_moist=sdm)
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(A[k][y, x], i[k][y, x]) for k in A]), 'frame')


@contract('Y03', 'hydro.update/scanning', functions=['hydro.update', 'hydro.hdelta', 'hydro.SWR_curve'], bounded=[dict(ny=1, nx=2)], runs=300)
def scanning(W):
    """capillary moisture with hysteresis: scanning curves between the main curves"""
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s, p = base(W, ny, nx)
    p.update(retention(W, ny, nx))
    p.update(method_moist_process='surf_moisture', process_scanning=True, fc=W.real('fc', lo=0, typ=.11), thick_moist=W.real('thick', pos=True, typ=.002), cpair=num(W, .001), z=num(W, 10.))
    F = ['moist_swr', 'h_delta', 'w_h', 'd_h', 'w_hdelta', 'd_hdelta', 'scan_w_moist', 'scan_d_moist', 'gw_prev']
    for k in F:
        s[k] = W.array(k, (ny, nx), lo=0, typ=(0., .4))
    for k in ('wetting', 'scan_w', 'scan_d'):
        s[k] = flags(W, k, ny, nx)
    s['meteo'] = dict(T=num(W, 10.), Q=num(W, 0.), RH=num(W, 0.), P=num(W, 101.), U=num(W, 100.))
    start = W.choice('start', [False, False, True])
    t = num(W, 0.) if start else W.real('t', pos=True, typ=(1., 100.))
    m = logger(W)
    i = {k: W.copy(v) for k, v in s.items() if k != 'meteo'}
    out, hd = W.array('swr_out', (ny, nx), lo=0, typ=(0., .4)), W.array('hd_out', (ny, nx), lo=0, typ=(0., 100.))
    o0, h0 = W.copy(out), W.copy(hd)
    seen = {}

    def f_hd(*a):
        seen['hd'] = [W.copy(v) if W.isarr(v) else v for v in a]
        return hd

    def f_swr(*a):
        seen['swr'] = [W.copy(v) for v in a]
        return out, a[6], a[3]
    for f, g in (('hdelta', f_hd), ('SWR_curve', f_swr), ('evaporation', lambda s_, p_, m_: W.zeros((ny, nx)))):
        W.stub('hydro', f, g) if W.symbolic else W.patch(m, f, g)
    dt = W.real('dt', pos=True, typ=(1., 3600.))
    s = W.call(m.update, s, p, dt, t)
    h = lambda y, x: W.max((i['zb'][y, x] - i['gw'][y, x]) * 100, 0)
    flooded = lambda y, x: W.gt(i['TWL'][y, x], i['zb'][y, x])
    drained = lambda y, x: W.ite(flooded(y, x), lambda: p['satd_moist'], lambda: W.min(W.max(i['moist'][y, x] + W.min((i['moist'][y, x] - p['fc']) * (decay(W, dt, p['Tdry']) - 1), 0), p['resw_moist']), p['satd_moist']))
    if start:
        W.ensure('no-history-at-the-start', not seen)
        W.forall((ny, nx), lambda y, x: W.eq(s['moist_swr'][y, x], vgm(W, p, 'w', h(y, x)), scale=1e-6), 'starts-on-the-wetting-curve')
        W.forall((ny, nx), lambda y, x: W.eq(s['h_delta'][y, x], h(y, x)), 'starts-at-its-own-suction')
    else:
        W.ensure('each-evaluated-once', set(seen) == {'hd', 'swr'})
        for k, j in (('gw', 2), ('gw_prev', 3), ('h_delta', 5), ('zb', 6), ('scan_w_moist', 7), ('scan_d_moist', 8), ('w_h', 9), ('d_h', 11)):
            W.forall((ny, nx), lambda y, x: W.eq(seen['hd'][j][y, x], i[k][y, x]), 'suction-from-the-previous-state')
        for k, j in (('satd_moist', 10), ('satw_moist', 12), ('alfaw_moist', 13), ('alfad_moist', 14), ('resw_moist', 15), ('resd_moist', 16), ('mw_moist', 17), ('md_moist', 18), ('nw_moist', 19), ('nd_moist', 20)):
            W.ensure('parameters-of-the-curves', W.eq(seen['hd'][j], p[k]))
        C = lambda y, x: (vgm(W, p, 'w', h(y, x)), vgm(W, p, 'd', h(y, x)), vgm(W, p, 'w', h0[y, x]), vgm(W, p, 'd', h0[y, x]))

        def scan(y, x):
            w, d, wd, dd = C(y, x)
            sw = W.max(W.min(w + (p['satw_moist'] - w) / W.max(p['satw_moist'] - wd, num(W, .0001)) * (dd - wd), d), w)
            sd = W.max(W.min(w + (wd - w) / W.max(p['satd_moist'] - w, num(W, .0001)) * (d - w), d), w)
            return sw, sd
        for k, j, f in (('w_h', 5, lambda y, x: C(y, x)[0]), ('d_h', 8, lambda y, x: C(y, x)[1]), ('scan_w_moist', 7, lambda y, x: scan(y, x)[0]), ('scan_d_moist', 9, lambda y, x: scan(y, x)[1])):
            W.forall((ny, nx), lambda y, x: W.And(W.eq(s[k][y, x], f(y, x), scale=1e-6), W.eq(seen['swr'][j][y, x], s[k][y, x])), 'curve-' + k)
        for k, j in (('gw', 1), ('gw_prev', 2), ('moist_swr', 4)):
            W.forall((ny, nx), lambda y, x: W.eq(seen['swr'][j][y, x], i[k][y, x]), 'selection-from-the-current-levels')
        W.forall((ny, nx), lambda y, x: W.And(W.eq(s['moist_swr'][y, x], o0[y, x]), W.eq(s['h_delta'][y, x], h0[y, x])), 'moisture-of-the-selected-curve')
    W.forall((ny, nx), lambda y, x: W.eq(s['moist'][y, x], W.min(W.max(drained(y, x), s['moist_swr'][y, x]), p['satd_moist']), scale=1e-6), 'at-least-the-capillary-moisture')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('zb', 'TWL', 'gw', 'gw_prev')]), 'frame')


@contract('Y03', 'hydro.update/salt', functions=['hydro.update'], bounded=[dict(ny=1, nx=2)], runs=300)
def salt(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s, p = base(W, ny, nx)
    p['process_salt'], p['method_moist_process'] = True, 'infiltration'
    s['meteo'] = dict(RH=W.real('RH', lo=0, typ=(0., 5.)))
    i = {k: W.copy(v) for k, v in s.items() if k != 'meteo'}
    dt = W.real('dt', pos=True, typ=(1., 3600.))
    s = W.call(logger(W).update, s, p, dt, W.real('t', lo=0))
    wet = lambda y, x: W.gt(i['TWL'][y, x] - i['zb'][y, x], p['eps'])
    gain = s['meteo']['RH'] / 3600 / 1000 * dt / p['layer_thickness']
    W.forall((ny, nx), lambda y, x: W.eq(s['salt'][y, x, 0], W.min(1, W.ite(wet(y, x), num(W, 1.), lambda: i['salt'][y, x, 0] * decay(W, dt, p['Tsalt'])) + gain), scale=1e-6), 'flooding-salts-and-salt-washes-out')
    W.forall((ny, nx), lambda y, x: W.And(W.ge(s['salt'][y, x, 0], 0), W.le(s['salt'][y, x, 0], 1)), 'salt-content-between-0-and-1')
    W.forall((ny, nx), lambda y, x: W.eq(s['salt'][y, x, 1], i['salt'][y, x, 1]), 'deeper-layers-keep-their-salt')


@contract('Y04', 'hydro.update/groundwater', functions=['hydro.update', 'hydro.interpolate', 'utils.apply_mask'], bounded=[dict(ny=1, nx=6)], runs=300)
def ground(W):
    """one groundwater step; the Boussinesq tendency and the overheight distribution by their contracts (any field)"""
    ny, nx = (W.dim('ny', 1), W.dim('nx', 6)) if W.symbolic else (W.dim('ny', 1, 2), W.dim('nx', 6))
    s, p = base(W, ny, nx)
    s['DSWL'] = W.array('DSWL', (ny, nx), typ=(0., 1.)) if W.symbolic else W.full((ny, nx), W.real('dswl', typ=(0.2, 1.)))
    if not W.symbolic:   # a beach profile rising from below to above the water
        s['zb'] = W.np.sort(W.array('zb_', (ny, nx), typ=(0., 2.)), axis=1)
        s['zb'][:, :2], s['zb'][:, -2:] = s['zb'][:, :2] - 3., s['zb'][:, -2:] + 3.
        s['TWL'] = s['DSWL'] + W.real('run', lo=0, typ=(0., 1.))
        # the sea is at the offshore side, the dune at the other
        W.assume(bool((s['zb'][:, 1] < s['DSWL'][:, 0]).all()) and bool((s['zb'][:, -2] > s['TWL'][:, 0]).all()))
    s['gw_prev'], s['wetting'] = W.array('gw_prev', (ny, nx), typ=(0., 1.)), W.bools('wetting', (ny, nx))
    s['x'] = W.np.repeat((W.np.arange(nx) * 1.)[None, :], ny, axis=0)
    s['ds'] = W.full((ny, nx), num(W, 1.))
    s['gw_mask'] = W.cmask(*[W.array('gw_' + k, (ny, nx), lo=0, typ=(.5, 1.)) if k == 're' else W.array('gw_' + k, (ny, nx), lo=0, typ=(0., .1)) for k in ('re', 'im')])
    re, im = W.np.real(s['gw_mask']).copy(), W.np.imag(s['gw_mask']).copy()
    p.update(process_groundwater=True, process_moist=False, process_wave=W.choice('wave', [True, False]), process_seepage_face=W.choice('seepage', [True, False]), boundary_gw=W.choice('bound', ['no_flow', 'static', 'Static']),
             in_gw=W.real('in_gw', typ=(0., 1.)), tstart=num(W, 0.), tfac_gw=1, GW_stat=W.real('GW_stat', typ=(0., 1.)), K_gw=W.real('K_gw', lo=0, typ=1e-4), ne_gw=W.real('ne_gw', pos=True, typ=.3), D_gw=W.real('D_gw', pos=True, typ=20.), Cl_gw=W.real('Cl_gw', lo=0, typ=.1))
    first = W.choice('first', [True, False])
    t = p['tstart'] if first else p['tstart'] + W.real('later', pos=True, typ=(1., 100.))
    i = {k: W.copy(v) for k, v in s.items()}
    m = logger(W)
    calls, over = [], []

    if W.symbolic:
        def bq(GW, DSWL, ds, stat, K, ne, D, shl, bound, zb, seep):
            f = W.array('f%d' % len(calls), (ny, nx))
            calls.append((GW.copy(), f, stat, K, ne, D, bound))
            return f.copy()

        def rod(fx, ix, shl, run, x):
            v = W.array('fx', (ny, nx), lo=0)
            fx[:, :] = v
            over.append(v)
            return fx
        W.stub('hydro', 'Boussinesq', bq)
        W.stub('hydro', 'runup_overheight_distr', rod)
        W.stub('hydro', 'interpolate', lambda s_, p_, t_: s_)
    else:
        real, rrod = m.Boussinesq, m.runup_overheight_distr

        def bq(GW, DSWL, ds, stat, K, ne, D, shl, bound, zb, seep):
            before = GW.copy()
            f = real(GW, DSWL, ds, float(stat), float(K), float(ne), float(D), shl, bound, zb, seep)
            calls.append((before, f.copy(), stat, K, ne, D, bound, GW.copy()))
            return f

        def rod(fx, ix, shl, run, x):
            rrod(fx, ix, shl, run, x)
            over.append(fx.copy())
            return fx
        W.patch(m, 'Boussinesq', bq)
        W.patch(m, 'runup_overheight_distr', rod)
        W.patch(m, 'interpolate', lambda s_, p_, t_: s_)
    dt = 1
    s = W.call(m.update, s, p, dt, t)
    g0 = lambda y, x: p['in_gw'] if first else i['gw'][y, x]
    W.ensure('four-evaluations', len(calls) == 4)
    W.ensure('parameters-of-the-aquifer', all(W.bool(W.And(W.eq(c[2], p['GW_stat']), W.eq(c[3], p['K_gw']), W.eq(c[4], p['ne_gw']), W.eq(c[5], p['D_gw']))) and c[6] == (0 if p['boundary_gw'] == 'no_flow' else 1) for c in calls) if not W.symbolic else W.And(*[W.And(W.eq(c[2], p['GW_stat']), W.eq(c[3], p['K_gw']), W.eq(c[4], p['ne_gw']), W.eq(c[5], p['D_gw']), c[6] == (0 if p['boundary_gw'] == 'no_flow' else 1)) for c in calls]))
    F = [c[1] for c in calls]
    if W.symbolic:
        W.forall((ny, nx), lambda y, x: W.And(W.eq(calls[0][0][y, x], g0(y, x)), W.eq(calls[1][0][y, x], g0(y, x) + F[0][y, x] / 2), W.eq(calls[2][0][y, x], g0(y, x) + F[1][y, x] / 2), W.eq(calls[3][0][y, x], g0(y, x) + F[2][y, x])), 'runge-kutta-stages')
    else:
        b = calls[0][7]
        W.forall((ny, nx), lambda y, x: W.And(W.eq(calls[0][0][y, x], g0(y, x)), W.eq(calls[1][0][y, x], b[y, x] + F[0][y, x] / 2), W.eq(calls[2][0][y, x], b[y, x] + F[1][y, x] / 2), W.eq(calls[3][0][y, x], b[y, x] + F[2][y, x])), 'runge-kutta-stages')
    same = (lambda y, x: True) if W.symbolic else (lambda y, x: calls[0][7][y, x] == calls[0][0][y, x])
    W.forall((ny, nx), lambda y, x: W.Implies(same(y, x), lambda: W.eq(s['gw_prev'][y, x], g0(y, x))), 'previous-level-is-kept')
    pw = (lambda y, x: g0(y, x)) if first else (lambda y, x: i['gw_prev'][y, x])
    W.forall((ny, nx), lambda y, x: W.ite(W.gt(g0(y, x), pw(y, x)), lambda: s['wetting'][y, x], lambda: W.Not(s['wetting'][y, x])), 'wetting-where-the-level-rose')
    raw = lambda y, x: (g0(y, x) if W.symbolic else calls[0][7][y, x]) + (F[0][y, x] + 2 * F[1][y, x] + 2 * F[2][y, x] + F[3][y, x]) / 6 + (p['Cl_gw'] * over[0][y, x] if p['process_wave'] else 0)
    W.ensure('overheight-with-waves-only', len(over) == (1 if p['process_wave'] else 0))
    W.forall((ny, nx), lambda y, x: W.eq(s['gw'][y, x], W.ite(W.lt(i['zb'][y, x], i['DSWL'][y, x]), i['DSWL'][y, x], W.min(raw(y, x) * re[y, x] + im[y, x], i['zb'][y, x])), scale=1e-3), 'runge-kutta-step-with-overheight-and-mask')
    W.forall((ny, nx), lambda y, x: W.ite(W.lt(i['zb'][y, x], i['DSWL'][y, x]), W.eq(s['gw'][y, x], i['DSWL'][y, x]), W.le(s['gw'][y, x], i['zb'][y, x])), 'never-above-the-bed-and-at-the-setup-level-under-water')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('zb', 'DSWL', 'TWL', 'ds', 'moist')]), 'frame')


@contract('Y04', 'hydro.update/substeps', functions=['hydro.update'], bounded=[dict(ny=1, nx=6)], runs=100)
def substeps(W):
    """groundwater substeps: a whole number of equal steps, each with the water levels of its own time"""
    ny, nx = W.dim('ny', 1), W.dim('nx', 6)
    s, p = base(W, ny, nx)
    s['DSWL'] = W.array('DSWL', (ny, nx), lo=0, hi=1)
    s['gw_prev'], s['wetting'], s['gw_mask'] = W.array('gw_prev', (ny, nx)), W.bools('wetting', (ny, nx)), None
    s['x'], s['ds'] = W.array('x', (ny, nx)), W.full((ny, nx), num(W, 1.))
    dt, tfac = W.choice('steps', [(6, 2), (60, 10), (7, 2), (5, 1), (9, 4)])
    p.update(process_groundwater=True, process_moist=False, process_wave=False, process_seepage_face=False, boundary_gw='no_flow', in_gw=num(W, 0.), tstart=num(W, 0.), tfac_gw=tfac, GW_stat=num(W, 0.), K_gw=num(W, 1.), ne_gw=num(W, 1.), D_gw=num(W, 1.), Cl_gw=num(W, 0.))
    m = logger(W)
    times_, rate = [], W.array('rate', (ny, nx), lo=num(W, -.01), hi=num(W, .01))
    r0 = W.copy(rate)
    s['zb'][:, :] = 1000.
    s['gw'][:, :] = 0.
    bq = lambda GW, *a: r0.copy()
    ip = lambda s_, p_, t_: (times_.append(t_), s_)[1]
    for f, g in (('Boussinesq', bq), ('interpolate', ip), ('apply_mask', lambda a, k: a)):
        W.stub('hydro', f, g) if W.symbolic else W.patch(m, f, g)
    t0 = W.real('t', pos=True, typ=(1., 100.))
    s = W.call(m.update, s, p, dt, t0)
    h = int(dt / tfac)
    n = int(dt / h)
    W.ensure('number-of-substeps', len(times_) == n)
    W.ensure('levels-of-the-time-of-the-substep', W.And(*[W.eq(times_[k], t0 + k * h) for k in range(min(n, len(times_)))]))
    W.forall((ny, nx), lambda y, x: W.eq(s['gw'][y, x], n * h * r0[y, x]), 'substeps-add-up')


def bouss(W, seep):
    """tendency of the groundwater level: Boussinesq equation between shoreline and landward boundary of every transect"""
    nx = W.dim('nx', 6)
    ny = W.choice('rows', [1, 2])
    shl = [W.int('shl%d' % i, 1, None if W.symbolic else 12) for i in range(ny)]
    for v in shl:
        W.assume(v <= nx - 2)
    GW, DS, zb = W.array('GW', (ny, nx), typ=(0., 2.)), W.array('DSWL', (ny, nx), typ=(0., 1.)), W.array('zb', (ny, nx), typ=(0., 3.))
    d = W.real('d', pos=True, typ=1.)
    ds = W.full((ny, nx), d)
    stat, K, ne, D = W.real('stat', typ=(0., 1.)), W.real('K', lo=0, typ=1e-3), W.real('ne', pos=True, typ=.3), W.real('D', pos=True, typ=20.)
    bound = W.choice('bound', [0, 1])
    G0, D0, Z0 = W.copy(GW), W.copy(DS), W.copy(zb)
    sh = W.const_array(shl) if W.symbolic else W.np.array([int(v) for v in shl])
    r = W.call(W.mod('hydro').Boussinesq, GW, DS, ds, stat, K, ne, D, sh, bound, zb, seep)
    if seep:   # exit point: the first cell where groundwater is clearly below the bed
        face = []
        for i in range(ny):
            dry = G1(W, G0, D0, shl, stat, bound, nx, i)
            low = [x for x in range(nx) if dry(x) + .05 < Z0[i, x]]
            face.append((int(shl[i]), (low[0] if low else 0) - 1))
    for i in range(ny):
        base_ = G1(W, G0, D0, shl, stat, bound, nx, i)
        g = (lambda x: Z0[i, x] if face[i][0] <= x < face[i][1] else base_(x)) if seep else base_
        W.forall((nx,), lambda x: W.eq(GW[i, x], g(x)), 'boundary-values')
        inner = lambda x: W.And(W.gt(x, shl[i]), W.lt(x, nx - 3))

        def flux(x):
            b = lambda j: g(j) * (g(j + 1) + g(j - 1)) / d
            lap = (g(x + 1) - 2 * g(x) + g(x - 1)) / (d * d)
            return K / ne * (D * lap + (b(x + 1) - b(x - 1)) / d)
        W.forall((nx,), lambda x: W.ite(inner(x), lambda: W.eq(r[i, x], flux(x), scale=1e-6), W.eq(r[i, x], 0)), 'boussinesq-tendency')
        W.forall((nx,), lambda x: W.And(W.eq(DS[i, x], D0[i, x]), W.eq(zb[i, x], Z0[i, x])), 'frame')


def G1(W, G0, D0, shl, stat, bound, nx, i):
    """groundwater with its seaward and landward boundary values"""
    sea = lambda x: W.ite(W.Or(W.eq(x, shl[i]), W.eq(x, shl[i] - 1)), lambda: D0[i, x], lambda: G0[i, x])
    land = (lambda: sea(nx - 4)) if bound == 0 else (lambda: stat)
    return lambda x: W.ite(W.ge(x, nx - 3), land, lambda: sea(x))


@contract('Y04', 'hydro.Boussinesq', functions=['hydro.Boussinesq'], bounded=[dict(nx=7)], runs=400)
def bouss1(W):
    bouss(W, False)


@contract('Y04', 'hydro.Boussinesq/seepage', functions=['hydro.Boussinesq'], runs=300, sym=False, unbounded=False)
def bouss2(W):
    bouss(W, True)


@contract('Y04', 'hydro.runup_overheight_distr', functions=['hydro.runup_overheight_distr'], bounded=[dict(nx=7)], runs=400)
def overheight(W):
    """triangular distribution of the infiltrated runup between shoreline and runup limit, peak at two thirds"""
    nx = W.dim('nx', 4)
    ny = W.choice('rows', [1, 2])
    sh = [W.int('shl%d' % i, 0, None if W.symbolic else 6) for i in range(ny)]
    ru = [v + W.int('wide%d' % i, 0, None if W.symbolic else 8) for i, v in enumerate(sh)]
    for v in ru:
        W.assume(v <= nx - 1)
    x = W.array('x', (ny, nx))
    for i in range(ny):
        if W.symbolic:
            W.assume(W.Implies(W.lt(sh[i], ru[i]), lambda: W.lt(x[i, sh[i]], x[i, ru[i]])))
    if not W.symbolic:
        x = W.np.sort(x, axis=1) + W.np.arange(nx)[None, :]
    fx, ix = W.zeros((ny, nx)), W.np.zeros((ny,), dtype=int)
    X0 = W.copy(x)
    arr = W.const_array if W.symbolic else (lambda v: W.np.array([int(q) for q in v]))
    r = W.call(W.mod('hydro').runup_overheight_distr, fx, ix, arr(sh), arr(ru), x)
    for i in range(ny):
        L = lambda: X0[i, ru[i]] - X0[i, sh[i]]
        pk = ix[i]
        W.ensure('peak-at-two-thirds', W.And(W.le(3 * (pk - sh[i]), 2 * (ru[i] - sh[i])), W.gt(3 * (pk - sh[i] + 1), 2 * (ru[i] - sh[i]))) if W.symbolic else abs(pk - sh[i] - 2 / 3 * (ru[i] - sh[i])) < 1 + 1e-9)

        def want(j):
            up = lambda: (X0[i, j] - X0[i, sh[i]]) / (num(W, 2.) / 3 * L())
            dn = lambda: 3 - (X0[i, j] - X0[i, sh[i]]) / (num(W, 1.) / 3 * L())
            return W.ite(W.eq(j, pk), 1, lambda: W.ite(W.And(W.ge(j, sh[i]), W.lt(j, pk)), up, lambda: W.ite(W.And(W.gt(j, pk), W.lt(j, ru[i])), dn, 0)))
        W.forall((nx,), lambda j: W.eq(fx[i, j], want(j), scale=1e-6), 'triangular-distribution')
        W.forall((nx,), lambda j: W.eq(x[i, j], X0[i, j]), 'frame')


@contract('Y04', 'hydro.update/unknown-boundary', functions=['hydro.update'], bounded=[dict(ny=1, nx=6)], runs=30)
def unknown_bound(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 6)
    s, p = base(W, ny, nx)
    s['DSWL'], s['gw_prev'], s['wetting'] = W.array('DSWL', (ny, nx)), W.array('gw_prev', (ny, nx)), W.bools('wetting', (ny, nx))
    p.update(process_groundwater=True, process_moist=False, boundary_gw=W.choice('bound', ['none', 'flow']), in_gw=num(W, 0.), tstart=num(W, 0.), tfac_gw=1)
    m = logger(W)
    W.stub('hydro', 'interpolate', lambda s_, p_, t_: s_) if W.symbolic else W.patch(m, 'interpolate', lambda s_, p_, t_: s_)
    W.ensure('unknown-landward-boundary-refused', W.raises(ValueError, m.update, s, p, 1, num(W, 0.)))
