# properties: W01 W02
"""Wind: decomposition, logarithmic profile, stress/velocity conversion, 1D shear."""
from engine.runner import *
from specs.forcing import times, lerp

BND = [dict(ny=1, nx=2)]


def num(W, v): return W.num(v) if W.symbolic else v


def fields(W, ny, nx, names):
    return {n: W.array(n, (ny, nx), typ=(-1., 1.)) for n in names}


V = ['ustar', 'ustars', 'ustarn', 'tau', 'taus', 'taun']


@contract('W01', 'wind.velocity_stress', functions=['wind.velocity_stress'], bounded=BND, runs=400)
def vs(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = fields(W, ny, nx, V + ['uw'])
    # the magnitude is the length of the components
    s['ustar'] = W.np.hypot(s['ustars'], s['ustarn'])
    i = {k: W.copy(v) for k, v in s.items()}
    p = dict(rhoa=W.real('rhoa', pos=True, typ=1.2))
    s = W.call(W.mod('wind').velocity_stress, s, p)
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['taus'][y, x], p['rhoa'] * i['ustar'][y, x] * i['ustars'][y, x], scale=1e-6), W.eq(s['taun'][y, x], p['rhoa'] * i['ustar'][y, x] * i['ustarn'][y, x], scale=1e-6)), 'quadratic-drag-along-the-shear-velocity')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['tau'][y, x], p['rhoa'] * i['ustar'][y, x] ** 2, scale=1e-6), W.ge(s['tau'][y, x], 0)), 'magnitude')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in ('ustar', 'ustars', 'ustarn', 'uw')]), 'frame')


@contract('W01', 'wind.stress_velocity', functions=['wind.stress_velocity'], bounded=BND, runs=400)
def sv(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = fields(W, ny, nx, V + ['uw'])
    s['tau'] = W.np.hypot(s['taus'], s['taun'])
    i = {k: W.copy(v) for k, v in s.items()}
    p = dict(rhoa=W.real('rhoa', pos=True, typ=1.2))
    s = W.call(W.mod('wind').stress_velocity, s, p)
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['ustar'][y, x] ** 2 * p['rhoa'], i['tau'][y, x], scale=1e-6), W.ge(s['ustar'][y, x], 0)), 'inverse-of-quadratic-drag')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['ustars'][y, x] * i['tau'][y, x], s['ustar'][y, x] * i['taus'][y, x], scale=1e-6), W.eq(s['ustarn'][y, x] * i['tau'][y, x], s['ustar'][y, x] * i['taun'][y, x], scale=1e-6)), 'same-direction-as-the-stress')
    W.forall((ny, nx), lambda y, x: W.eq(s['ustars'][y, x] ** 2 + s['ustarn'][y, x] ** 2, s['ustar'][y, x] ** 2, scale=1e-6), 'components-add-up-to-the-magnitude')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in ('tau', 'taus', 'taun', 'uw')]), 'frame')


@contract('W01', 'wind.velocity_stress/round-trip', functions=['wind.stress_velocity', 'wind.velocity_stress'], bounded=BND, runs=300)
def rt(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = fields(W, ny, nx, V)
    s['ustar'] = W.np.hypot(s['ustars'], s['ustarn'])
    i = {k: W.copy(v) for k, v in s.items()}
    p = dict(rhoa=W.real('rhoa', pos=True, typ=1.2))
    m = W.mod('wind')
    s = W.call(m.velocity_stress, s, p)
    s = W.call(m.stress_velocity, s, p)
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x], scale=1e-6) for n in ('ustar', 'ustars', 'ustarn')]), 'round-trip')


def wind_file(W, n):
    t = times(W, n)
    sp = W.array('speed', (n,), lo=0, typ=10.)
    dr = W.array('dir', (n,), typ=(0., 360.))
    return t, sp, dr


@contract('W01', 'wind.interpolate', functions=['wind.interpolate', 'wind.calculate_z0', 'wind.velocity_stress'], bounded=[dict(ny=1, nx=2, n=2)], runs=500)
def interp(W):
    ny, nx, n = W.dim('ny', 1), W.dim('nx', 1), W.dim('n', 2)
    t, sp, dr = wind_file(W, n)
    on = W.choice('wind', [True, False])
    wf = W.np.concatenate([t[:, None], sp[:, None], dr[:, None]], axis=1) if W.choice('file', [True, False]) else None
    z0m = W.choice('roughness', ['constant', 'constant_nikuradse'])
    p = dict(process_wind=on, wind_file=wf, alfa=W.real('alfa', typ=(-180., 180.)), kappa=W.real('kappa', pos=True, typ=0.41), z=W.real('z', pos=True, typ=10.), k=W.real('k', pos=True, typ=0.001), method_roughness=z0m, rhoa=W.real('rhoa', pos=True, typ=1.2))
    W.assume(p['z'] > p['k'] * 2)
    s = fields(W, ny, nx, V + ['uw', 'udir', 'uws', 'uwn', 'ustar0', 'ustars0', 'ustarn0', 'tau0', 'taus0', 'taun0'])
    s['uw'] = W.array('uw_prev', (ny, nx), lo=0, typ=10.)
    i = {k: W.copy(v) for k, v in s.items()}
    time = W.real('time', typ=(-5., 20.))
    W.assume(W.And(W.le(W.at(t, 0), time), W.le(time, W.at(t, n - 1))))
    if W.symbolic:
        W.assume(W.And(W.eq(t.min(), W.at(t, 0)), W.eq(t.max(), W.at(t, n - 1))))
    if W.symbolic:
        # utils.interp_circular by contract (proved under U02): a function of the time and the series,
        # compared at a generic entry g of the series; not negative for a non-negative series
        g = W.int('g', 0)
        W.assume(g < n)
        G = core.z3.Function('Interp', core.z3.RealSort(), core.z3.RealSort(), core.z3.RealSort(), core.z3.RealSort())
        def itp(x, xp, fp, **k):
            r = core.R(G(core.zr(as_R(x).v), core.zr(as_R(xp.at((g,))).v), core.zr(as_R(fp.at((g,))).v)))
            return r
        W.assume(W.ge(itp(time, t, sp), 0))
        W.stub('wind', 'interp_circular', itp)
        lerp_ = lambda W_, x, xp, fp, n_: itp(x, xp, fp)
    else:
        lerp_ = lerp
    s = W.call(W.mod('wind').interpolate, s, p, time)
    rad = (lambda a: a / 180 * W.pi)
    if on and wf is not None:
        speed = lerp_(W, time, t, sp, n)
        S = lerp_(W, time, t, W.np.sin(dr / 180. * W.np.pi), n)
        C = lerp_(W, time, t, W.np.cos(dr / 180. * W.np.pi), n)
        W.forall((ny, nx), lambda y, x: W.eq(s['uw'][y, x], speed, scale=1e-3), 'speed-interpolated-in-time')
        if W.symbolic:
            W.forall((ny, nx), lambda y, x: W.eq(s['udir'][y, x], W.atan2(S, C) * 180 / W.pi), 'direction-interpolated-by-its-components')
        elif abs(S) + abs(C) > 1e-6:
            W.forall((ny, nx), lambda y, x: W.And(W.eq(W.sin(rad(s['udir'][y, x])) * (S * S + C * C) ** 0.5, S, scale=1e-3), W.eq(W.cos(rad(s['udir'][y, x])) * (S * S + C * C) ** 0.5, C, scale=1e-3)), 'direction-interpolated-by-its-components')
    else:
        W.forall((ny, nx), lambda y, x: W.And(W.eq(s['uw'][y, x], i['uw'][y, x]), W.eq(s['udir'][y, x], i['udir'][y, x])), 'wind-kept')
    ang = lambda y, x: rad(s['udir'][y, x] - p['alfa'])
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['uws'][y, x], -s['uw'][y, x] * W.sin(ang(y, x)), scale=1e-3), W.eq(s['uwn'][y, x], -s['uw'][y, x] * W.cos(ang(y, x)), scale=1e-3)), 'wind-from-the-given-direction-in-grid-coordinates')
    W.forall((ny, nx), lambda y, x: W.eq(s['uws'][y, x] ** 2 + s['uwn'][y, x] ** 2, s['uw'][y, x] ** 2, scale=1e-3), 'components-add-up-to-the-speed')
    z0 = p['k'] if z0m == 'constant' else p['k'] / 30
    f = p['kappa'] / W.log(p['z'] / z0)
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['ustars'][y, x], s['uws'][y, x] * f, scale=1e-6), W.eq(s['ustarn'][y, x], s['uwn'][y, x] * f, scale=1e-6)), 'logarithmic-profile')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['ustar'][y, x] ** 2, s['ustars'][y, x] ** 2 + s['ustarn'][y, x] ** 2, scale=1e-6), W.ge(s['ustar'][y, x], 0)), 'shear-velocity-magnitude')
    W.forall((ny, nx), lambda y, x: W.eq(s['taus'][y, x], p['rhoa'] * s['ustar'][y, x] * s['ustars'][y, x], scale=1e-6), 'shear-stress')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n + '0'][y, x], s[n][y, x]) for n in V]), 'flat-bed-reference')
    # what later processes do to the shear in place does not reach the reference
    ref = {n: W.copy(s[n + '0']) for n in V}
    for n in V:
        s[n] *= 2
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n + '0'][y, x], ref[n][y, x]) for n in V]), 'reference-is-kept-apart')


@contract('W01', 'wind.calculate_z0', functions=['wind.calculate_z0', 'utils.calc_mean_grain_size'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=300)
def z0c(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    m = W.choice('method', ['constant', 'constant_nikuradse', 'mean_grainsize_initial', 'mean_grainsize_adaptive'])
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=(0., 5.)))
    W.assume(W.all((ny, nx), lambda y, x: W.gt(W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.num(0))))
    p = dict(method_roughness=m, k=W.real('k', pos=True, typ=0.001), grain_size=W.array('grain_size', (nf,), pos=True, typ=3e-4), grain_dist=W.array('grain_dist', (nf,), pos=True, typ=(0.1, 1.)))
    r = W.call(W.mod('wind').calculate_z0, p, s)
    if m == 'constant':
        W.ensure('roughness-length-as-given', W.eq(r, p['k']))
    elif m == 'constant_nikuradse':
        W.ensure('nikuradse-roughness', W.eq(r * 30, p['k']))
    elif m == 'mean_grainsize_initial':
        W.ensure('mean-grain-size-over-30', W.eq(r * 30, W.sum(nf, lambda k: p['grain_size'][k] * p['grain_dist'][k]), scale=1e-9))
    else:
        W.forall((ny, nx), lambda y, x: W.eq(r[y, x] * 30 * W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.sum(nf, lambda k: p['grain_size'][k] * s['mass'][y, x, 0, k]), scale=1e-9), 'local-mean-grain-size-over-30')


@contract('W01', 'wind.calculate_z0/percentiles', functions=['wind.calculate_z0'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=300, assumes=['calc_grain_size returns the percentile grain size of every cell (decided under G02)'])
def z0p(W):
    ny, nx, nl = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1)
    nf = 1 if W.choice('single-grain', [True, False]) else W.dim('nf', 2)
    m = W.choice('method', ['median_grainsize_adaptive', 'vanrijn_strypsteen'])
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=(0.5, 5.)), uw=W.array('uw', (ny, nx), lo=0, typ=(5., 20.)))
    W.assume(W.all((ny, nx), lambda y, x: W.gt(W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.num(0))))
    if W.symbolic:
        gs = W.array('grain_size', (nf,), pos=True, hi=0.001)
    else:
        gs = W.np.sort(W.array('grain_size', (nf,), pos=True, lo=1e-4, hi=1e-3, typ=3e-4))
    p = dict(method_roughness=m, grain_size=gs, grain_dist=W.array('grain_dist', (nf,), pos=True, typ=(0.1, 1.)), kappa=W.real('kappa', pos=True, lo=0.3, hi=0.5, typ=0.41), z=W.real('z', pos=True, lo=1, hi=20, typ=10.), g=W.num(9.81), rhog=W.real('rhog', lo=2000, hi=3000, typ=2650.), rhoa=W.real('rhoa', lo=1, hi=1.5, typ=1.2))
    if W.symbolic:
        D = {50: W.array('d50', (ny, nx), pos=True, hi=0.01), 90: W.array('d90', (ny, nx), pos=True, hi=0.01)}
        W.stub('wind', 'calc_grain_size', lambda p_, s_, q: D[int(q)])
        d = lambda q: (lambda y, x: D[q][y, x])
    else:
        import aeolis.utils as U
        D = {q: U.calc_grain_size(p, s, q) for q in (50, 90)}
        d = lambda q: (lambda y, x: D[q][y, x])
    if m == 'vanrijn_strypsteen' and isinstance(nf, int) and nf == 1:
        d = lambda q: (lambda y, x: gs[0] * (1 if q == 50 else 2))
    r = W.call(W.mod('wind').calculate_z0, p, s)
    if m == 'median_grainsize_adaptive':
        W.forall((ny, nx), lambda y, x: W.eq(r[y, x] * 15, d(50)(y, x), scale=1e-9), 'a-fifteenth-of-the-local-median-grain-size')
    else:
        def cond(y, x):
            u = p['kappa'] * s['uw'][y, x] / W.log(p['z'] * 30 / d(90)(y, x))
            th2 = num(W, 0.01) * (p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d(50)(y, x)
            T = (u * u - th2) / th2
            def q():
                e = (d(90)(y, x) + 15 * d(50)(y, x) * (1 + T)) 
                return W.eq(r[y, x] * 30, e, scale=1e-6)
            return W.Implies(W.Not(W.le(W.abs(T), num(W, 1e-6))), q)
        W.forall((ny, nx), cond, 'roughness-of-van-rijn-and-strypsteen')


@contract('W01', 'wind.initialize', functions=['wind.initialize'], bounded=[dict(n=2)], runs=200)
def init(W):
    n = W.dim('n', 1)
    t, sp, dr = (W.array('t', (n,)), W.array('speed', (n,), lo=0), W.array('dir', (n,), typ=(0., 360.)))
    conv = W.choice('convention', ['nautical', 'cartesian', 'other'])
    wf = W.np.concatenate([t[:, None], sp[:, None], dr[:, None]], axis=1)
    p = dict(wind_file=wf, wind_convention=conv, process_shear=False, method_roughness='constant', k=W.num(0.001), ny=0)
    if conv == 'other':
        if not W.symbolic:
            import aeolis.wind as T
            class L:
                def log_and_raise(self, m, exc=Exception): raise exc(m)
                def __getattr__(self, k): return lambda *a, **kw: None
            W.patch(T, 'logger', L())
        W.ensure('unknown-convention-refused', W.raises(ValueError, W.mod('wind').initialize, {}, p))
        return
    W.call(W.mod('wind').initialize, {}, p)
    r = p['wind_file']
    special = 0 if conv == 'nautical' else 270
    nau = lambda i: dr[i] if conv == 'nautical' else 270 - dr[i]
    W.forall((n,), lambda i: W.Implies(W.Not(W.eq(dr[i], special) if W.symbolic else dr[i] == special), lambda: W.eq(r[i, 2], nau(i), scale=1e-3)), 'directions-in-the-nautical-convention')
    W.forall((n,), lambda i: W.And(W.le(W.abs(r[i, 2] - nau(i)), num(W, 0.011)), W.eq(r[i, 0], t[i]), W.eq(r[i, 1], sp[i])), 'time-and-speed-kept')


@contract('W02', 'wind.compute_shear1d', functions=['wind.compute_shear1d'], bounded=[dict(nx=3)], runs=300, sym=True)
def shear1d(W):
    nx = W.dim('nx', 3)
    s = fields(W, 1, nx, ['tau', 'taus', 'taun', 'zb'])
    s['tau'] = W.np.hypot(s['taus'], s['taun'])
    dx = W.real('dx', pos=True, typ=1.)
    s['x'] = W.np.arange(nx)[None, :] * dx
    i = {k: W.copy(v) for k, v in s.items()}
    if W.mode == 'sym':
        W.loop('compute_shear1d', 1, carry_loop({'integ': None}))
    s = W.call(W.mod('wind').compute_shear1d, s, {})
    W.forall((nx,), lambda x: W.ge(s['tau'][0, x], num(W, 0.1) * i['tau'][0, x], scale=1e-6), 'never-below-a-tenth-of-the-undisturbed-stress')
    W.forall((nx,), lambda x: W.And(W.eq(s['taus'][0, x] * i['tau'][0, x], s['tau'][0, x] * i['taus'][0, x], scale=1e-6), W.eq(s['taun'][0, x] * i['tau'][0, x], s['tau'][0, x] * i['taun'][0, x], scale=1e-6)), 'direction-of-the-stress-kept')
    W.forall((nx,), lambda x: W.eq(s['tau'][0, x] ** 2, s['taus'][0, x] ** 2 + s['taun'][0, x] ** 2, scale=1e-6), 'magnitude')
    W.forall((nx,), lambda x: W.And(W.eq(s['zb'][0, x], i['zb'][0, x]), W.eq(s['x'][0, x], i['x'][0, x])), 'frame')


@contract('W02', 'wind.compute_shear1d/perturbation', functions=['wind.compute_shear1d'], bounded=[dict(nx=3), dict(nx=4), dict(nx=6)], runs=300, unbounded=False)
def shear1dform(W):
    """streamwise slope and its Hilbert integral raise the stress; mirrored profile and wind give the mirrored stress"""
    nx = W.dim('nx', 3)
    s = fields(W, 1, nx, ['tau', 'taus', 'taun', 'zb'])
    s['tau'] = W.np.hypot(s['taus'], s['taun'])
    dx = W.real('dx', pos=True, typ=1.)
    s['x'] = W.np.arange(nx)[None, :] * dx
    back = W.choice('back', [False, True])
    tot = W.sum(nx, lambda x: s['taus'][0, x])
    W.assume(W.lt(tot, 0) if back else W.gt(tot, 0))
    if not W.symbolic:
        W.assume(abs(tot) > 1e-9)
    i = {k: W.copy(v) for k, v in s.items()}
    s = W.call(W.mod('wind').compute_shear1d, s, {})
    zb = lambda x: i['zb'][0, nx - 1 - x if back else x]
    slope = lambda x: (zb(x + 1) - zb(x - 1)) / (2 * dx) if 0 < x < nx - 1 else num(W, 0.)

    def factor(x):
        r = slope(x)
        for k in range(1, nx):
            if k != x:
                r = r + slope(k) / ((x - k) * W.pi)
        return W.max(num(W, .1), 1 + 3 * r)
    W.forall((nx,), lambda x: W.eq(s['tau'][0, x], i['tau'][0, x] * factor(nx - 1 - x if back else x), scale=1e-3), 'slope-and-hilbert-integral-of-the-bed')
    m = {k: W.copy(v[:, ::-1]) for k, v in i.items() if k != 'x'}
    m['taus'], m['x'] = -m['taus'], W.copy(i['x'])
    m = W.call(W.mod('wind').compute_shear1d, m, {})
    W.forall((nx,), lambda x: W.And(W.eq(m['tau'][0, x], s['tau'][0, nx - 1 - x], scale=1e-3), W.eq(m['taus'][0, x], -s['taus'][0, nx - 1 - x], scale=1e-3), W.eq(m['taun'][0, x], s['taun'][0, nx - 1 - x], scale=1e-3)), 'mirrored-profile-and-wind-give-the-mirrored-stress')


@contract('W02', 'wind.compute_shear1d/flat', functions=['wind.compute_shear1d'], bounded=[dict(nx=3)], runs=200)
def shear1dflat(W):
    nx = W.dim('nx', 3)
    s = fields(W, 1, nx, ['tau', 'taus', 'taun'])
    s['tau'] = W.np.hypot(s['taus'], s['taun'])
    h = W.real('level')
    s['zb'] = W.full((1, nx), h)
    s['x'] = W.np.arange(nx)[None, :] * W.real('dx', pos=True, typ=1.)
    i = {k: W.copy(v) for k, v in s.items()}
    if W.mode == 'sym':
        W.loop('compute_shear1d', 1, carry_loop({'integ': 0}))
    s = W.call(W.mod('wind').compute_shear1d, s, {})
    W.forall((nx,), lambda x: W.And(*[W.eq(s[n][0, x], i[n][0, x], scale=1e-6) for n in ('tau', 'taus', 'taun')]), 'no-perturbation-over-a-flat-bed')


def sepworld(W, nx):
    """1D profile with a separation bubble"""
    s = fields(W, 1, nx, V)
    s['taus'] = W.array('taus_pos', (1, nx), pos=True, typ=0.3)
    s['tau'] = W.np.hypot(s['taus'], s['taun'])
    s['zb'] = W.array('zb', (1, nx), typ=(0., 3.))
    s['udir'] = W.full((1, nx), W.choice('udir', [270., 280., 250., 90., 100.]))
    s['uw'] = W.full((1, nx), 8.)
    return s


@contract('W02', 'wind.separation1d', functions=['wind.separation1d'], runs=400, sym=False, dimcap=30)
def sep(W):
    nx = W.dim('nx', 10)
    s = sepworld(W, nx)
    dx = W.real('dx', pos=True, typ=1.)
    s['x'] = W.np.arange(nx)[None, :] * dx
    p = dict(dx=dx, c_b=0.2, mu_b=W.real('mu_b', lo=10, hi=35))
    i = {k: W.copy(v) for k, v in s.items()}
    z = W.call(W.mod('wind').separation1d, s, p)
    W.forall((nx,), lambda x: W.And(W.ge(z[x], i['zb'][0, x], scale=1e-9), W.finite(z[x])), 'separation-surface-never-below-the-bed')
    W.forall((nx,), lambda x: W.And(*[W.eq(s[n][0, x], i[n][0, x]) for n in s]), 'frame')


@contract('W02', 'wind.separation1d/lee', functions=['wind.separation1d'], runs=300, sym=False, dimcap=30)
def seplee(W):
    """separation only behind steep lee slopes, whichever way the wind blows"""
    nx = W.dim('nx', 10)
    s = sepworld(W, nx)
    dx = W.real('dx', pos=True, typ=1.)
    p = dict(dx=dx, c_b=0.2, mu_b=W.real('mu_b', lo=10, hi=35))
    kind = W.choice('kind', ['any', 'gentle', 'cliff'])
    rel, west = W.choice('angle', [0., 10., -20., 45.]), W.choice('west', [True, False])
    if kind == 'gentle':   # nowhere steeper than the wind can follow
        z = s['zb'] - s['zb'].min()
        s['zb'] = z * (.95 * W.np.tan(W.np.deg2rad(p['mu_b'])) * dx / max(float(abs(W.np.diff(z)).max()), 1e-12))
    if kind == 'cliff':    # a plateau that drops to a plain over two cells
        h, b = W.real('h', lo=1, typ=(1., 4.)), nx // 3
        x = W.np.arange(nx)
        s['zb'] = (h * W.np.clip((b + 2. - x) / 2., 0, 1))[None, :]
        p['dx'] = dx = h / 4.
        west = True
    s['x'] = W.np.arange(nx)[None, :] * dx
    s['udir'] = W.full((1, nx), 270. + rel if west else 90. + rel)
    i = {k: W.copy(v) for k, v in s.items()}
    f = W.mod('wind').separation1d
    z = W.call(f, s, p)
    m = {k: W.copy(v) for k, v in i.items()}
    m['zb'], m['udir'] = W.copy(i['zb'][:, ::-1]), W.full((1, nx), 90. + rel if west else 270. + rel)
    zm = W.call(f, m, p)
    W.forall((nx,), lambda x: W.eq(zm[x], z[nx - 1 - x], scale=1e-3), 'mirrored-profile-and-wind-give-the-mirrored-surface')
    if kind == 'gentle':
        W.forall((nx,), lambda x: W.eq(z[x], i['zb'][0, x], scale=1e-9), 'no-separation-over-gentle-slopes')
    if kind == 'cliff':
        b = nx // 3
        W.ensure('separation-behind-a-steep-lee-slope', nx < 16 or bool((z - i['zb'][0])[b:b + 5].max() > 0.01 * h))
        back = {k: W.copy(v) for k, v in i.items()}
        back['udir'] = W.full((1, nx), 90. + rel)
        zb_ = W.call(f, back, p)
        W.forall((nx,), lambda x: W.eq(zb_[x], i['zb'][0, x], scale=1e-9), 'no-separation-at-a-steep-windward-slope')


@contract('W02', 'wind.shear/1d', functions=['wind.shear', 'wind.stress_velocity', 'wind.compute_shear1d'], runs=300, bounded=[dict(nx=3)], dimcap=20, assumes=['separation1d returns a surface not below the bed (its own contract)'])
def shear(W):
    nx = W.dim('nx', 3)
    s = sepworld(W, nx)
    dx = W.real('dx', pos=True, typ=1.)
    s['x'] = W.np.arange(nx)[None, :] * dx
    p = dict(process_shear=True, process_separation=W.choice('sep', [False, True]), ny=0, rhoa=W.real('rhoa', pos=True, typ=1.2), dx=dx, c_b=0.2, mu_b=20.)
    i = {k: W.copy(v) for k, v in s.items()}
    if W.symbolic:
        zs_ = W.array('zsep', (nx,))
        W.assume(W.all((nx,), lambda x: W.ge(zs_[x], s['zb'][0, x])))
        W.stub('wind', 'separation1d', lambda s_, p_: zs_)
        ratio = W.array('ratio', (1, nx), lo=0)
        def c1d(s_, p_):
            t = s_['tau'].copy()
            ok = t != 0
            s_['tau'] = t * ratio
            s_['taus'] = s_['taus'] * ratio
            s_['taun'] = s_['taun'] * ratio
            return s_
        W.stub('wind', 'compute_shear1d', c1d)
    s = W.call(W.mod('wind').shear, s, p)
    W.forall((nx,), lambda x: W.And(W.eq(s['ustar'][0, x] ** 2, s['ustars'][0, x] ** 2 + s['ustarn'][0, x] ** 2, scale=1e-6), W.ge(s['ustar'][0, x], 0)), 'components-add-up-to-the-magnitude')
    W.forall((nx,), lambda x: W.eq(s['ustar'][0, x] ** 2 * p['rhoa'], s['tau'][0, x], scale=1e-6), 'stress-and-velocity-agree')
    if p['process_separation']:
        W.forall((nx,), lambda x: W.And(W.eq(s['hsep'][0, x], s['zsep'][x if not W.symbolic else x] - i['zb'][0, x], scale=1e-6), W.ge(s['hsep'][0, x], 0, scale=1e-9)), 'height-of-the-separation-surface')
        W.forall((nx,), lambda x: W.Implies(W.ge(s['hsep'][0, x], num(W, 0.1001)), lambda: W.And(W.eq(s['ustar'][0, x], 0), W.eq(s['taus'][0, x], 0), W.eq(s['taun'][0, x], 0))), 'no-shear-deep-inside-the-separation-bubble')
    W.forall((nx,), lambda x: W.eq(s['zb'][0, x], i['zb'][0, x]), 'frame')
