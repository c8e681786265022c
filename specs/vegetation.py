# properties: V01 V02
"""Vegetation: growth, germination, mortality, shear reduction."""
from engine.runner import *

YEAR = Fraction(36525 * 24 * 36, 1)   # 365.25 days in seconds


def yr(W): return YEAR if W.symbolic else 365.25 * 24. * 3600.


def fields(W, ny, nx):
    A = W.array
    hmax = W.real('hveg_max', lo=.01, hi=10, typ=(.2, 2.))
    s = dict(hveg=A('hv', (ny, nx), lo=0, hi=1) * hmax, rhoveg=A('rho', (ny, nx), lo=0, hi=1), dhveg=A('dhveg', (ny, nx), typ=(-1., 2.)), drhoveg=A('drho', (ny, nx), lo=0, hi=4), germinate=A('germ', (ny, nx), lo=0, hi=1, typ=(0., 1.)),
             lateral=A('lat', (ny, nx), lo=0, hi=1, typ=(0., 1.)), dzbveg=A('dzbveg', (ny, nx), typ=(-1., 1.)), zb=A('zb', (ny, nx), typ=(2., 5.)), zs=A('zs', (ny, nx), typ=(2., 5.)))
    return s, hmax


@contract('V01', 'vegetation.grow', functions=['vegetation.grow'], bounded=[dict(ny=1, nx=2)], runs=500)
def grow(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    s, hmax = fields(W, ny, nx)
    kind = W.choice('type', ['orig', 'duranmoore14'])
    tide = W.choice('tide', [False, True])
    vver = W.real('V_ver', lo=0, typ=(0., 5.)) if W.choice('growing', [True, False]) else W.num(0)
    # flags and existing plants, as germination leaves them
    g = W.bools('g', (ny, nx)), W.bools('l', (ny, nx)), W.bools('v', (ny, nx))
    if W.symbolic:
        for k, b in (('germinate', g[0]), ('lateral', g[1])):
            s[k] = W.np.where(b, W.num(1), W.num(0)) if hasattr(W, 'np') and W.np is not None else s[k]
    else:
        s['germinate'], s['lateral'] = g[0] * 1., g[1] * 1.
        s['hveg'], s['rhoveg'] = s['hveg'] * g[2], s['rhoveg'] * g[2]
    rmax = W.real('rhoveg_max', lo=.1, hi=1)
    p = dict(V_ver=vver, hveg_max=hmax, dzb_opt=W.real('dzb_opt', typ=(-.5, .5)), veg_gamma=W.real('veg_gamma', lo=0, typ=(0., 2.)), veggrowth_type=kind, dt_opt=W.real('dt_opt', pos=True, typ=(1e4, 1e6)), dt=W.real('dt', pos=True, typ=1e5),
             accfac=W.real('accfac', lo=1, hi=10), t_veg=W.real('t_veg', pos=True, typ=(1., 100.)), v_gam=W.real('v_gam', lo=0, typ=(0., 2.)), rhoveg_max=rmax, process_tide=tide, veg_min_elevation=W.real('zmin', typ=(2., 4.)))
    o = {k: W.copy(v) for k, v in s.items()}
    r = W.call(W.mod('vegetation').grow, s, p)
    step = p['dt_opt'] * p['accfac'] / yr(W)
    W.forall((ny, nx), lambda i, j: W.And(W.ge(r['hveg'][i, j], 0), W.ge(r['rhoveg'][i, j], 0)), 'never-negative')
    if kind == 'orig':
        W.forall((ny, nx), lambda i, j: W.And(W.le(r['hveg'][i, j], hmax, scale=1e-9), W.le(r['rhoveg'][i, j], 1, scale=1e-9)), 'never-above-the-maximum')
    cent = W.num(Fraction(1, 100)) if W.symbolic else .01
    wet = lambda i, j: W.Or(W.lt(o['zb'][i, j], p['veg_min_elevation']), W.And(tide, W.lt(o['zb'][i, j] + cent, o['zs'][i, j])))
    W.forall((ny, nx), lambda i, j: W.Implies(wet(i, j), W.And(*[W.eq(r[k][i, j], 0) for k in ('hveg', 'rhoveg', 'germinate', 'lateral')])), 'no-plants-below-the-limit-or-under-water')
    est = lambda i, j: W.And(W.gt(vver, 0), W.Or(W.Not(W.eq(o['germinate'][i, j], 0)), W.Not(W.eq(o['lateral'][i, j], 0))))
    clip = lambda x, b: W.max(0, W.min(x, b))
    bur = lambda i, j: W.abs(o['dzbveg'][i, j] - p['dzb_opt']) * p['veg_gamma']
    if kind == 'orig':
        rate = lambda i, j: vver * (1 - o['hveg'][i, j] / hmax) - bur(i, j)
        W.forall((ny, nx), lambda i, j: W.Implies(W.Not(wet(i, j)), W.eq(r['hveg'][i, j], W.ite(est(i, j), clip(o['hveg'][i, j] + rate(i, j) * step, hmax), o['hveg'][i, j]), scale=1e-3)), 'height-follows-the-growth-law')
        W.forall((ny, nx), lambda i, j: W.eq(r['rhoveg'][i, j] * hmax * hmax, r['hveg'][i, j] * r['hveg'][i, j], scale=1e-3), 'density-follows-the-height')
    else:
        r0 = lambda i, j: W.min(o['rhoveg'][i, j], rmax)
        rate = lambda i, j: (rmax - r0(i, j)) / (p['t_veg'] / 365) - p['v_gam'] / hmax * bur(i, j)
        W.forall((ny, nx), lambda i, j: W.Implies(W.Not(wet(i, j)), W.eq(r['rhoveg'][i, j], W.ite(W.le(o['rhoveg'][i, j], 0), 0, W.ite(est(i, j), W.max(0, r0(i, j) + rate(i, j) * step), r0(i, j))), scale=1e-3)), 'density-follows-the-growth-law')
        W.forall((ny, nx), lambda i, j: W.eq(r['rhoveg'][i, j] * hmax * hmax, r['hveg'][i, j] * r['hveg'][i, j], scale=1e-3), 'height-follows-the-density')
    W.forall((ny, nx), lambda i, j: W.Implies(W.Not(W.gt(r['rhoveg'][i, j], 0)), W.And(W.eq(r['germinate'][i, j], 0), W.eq(r['lateral'][i, j], 0))), 'dead-plots-have-to-germinate-again')
    W.forall((ny, nx), lambda i, j: W.And(W.same(r['zb'][i, j], o['zb'][i, j]), W.same(r['zs'][i, j], o['zs'][i, j]), W.same(r['dzbveg'][i, j], o['dzbveg'][i, j])), 'bed-untouched')


@contract('V01', 'vegetation.germinate', functions=['vegetation.germinate'], bounded=[dict(ny=1, nx=2), dict(ny=3, nx=3)], runs=500, dimcap=5)
def germ(W):
    ny, nx = W.dim('ny'), W.dim('nx', 3)
    s, hmax = fields(W, ny, nx)
    d = W.real('ds', pos=True, typ=(.2, 5.))
    s['ds'], s['dn'] = W.full((ny, nx), d), W.full((ny, nx), W.real('dn', pos=True, typ=(.2, 5.)))
    if not W.symbolic:
        s['rhoveg'] = s['rhoveg'] * W.bools('v', (ny, nx))
    pg, pl = W.real('pg', lo=0, hi=1), W.real('pl', lo=0, hi=1)
    p = dict(nx=nx - 1, ny=ny - 1, dt_opt=W.real('dt_opt', pos=True, typ=(1e4, 1e7)), accfac=W.real('accfac', lo=1, hi=10), germinate=pg, lateral=pl, dx=d)
    rnd = W.array('rnd', (ny, nx), lo=0, hi=1, typ=(0., .05))
    if W.symbolic:
        for n in ('random', 'rand', 'uniform', 'random_sample'):
            W.hook('numpy.random.' + n, lambda *a, **k: rnd)
    else:
        W.patch(W.np.random, 'random', lambda *a, **k: rnd.copy())
    o = {k: W.copy(v) for k, v in s.items()}
    r = W.call(W.mod('vegetation').germinate, s, p)
    years = p['dt_opt'] * p['accfac'] / yr(W)
    prob = lambda q: 1 - W.pow(1 - q, years)
    R = lambda i, j: o['rhoveg'][i, j]
    W.forall((ny, nx), lambda i, j: W.And(*[W.And(W.ge(r[k][i, j], 0), W.le(r[k][i, j], 1)) for k in ('germinate', 'lateral')]), 'flags-between-zero-and-one')
    W.forall((ny, nx), lambda i, j: W.Implies(W.gt(R(i, j), 0), W.eq(r['germinate'][i, j], 1)), 'vegetated-plots-count-as-germinated')
    new = lambda i, j: W.And(W.ge(o['dzbveg'][i, j], 0), W.le(rnd[i, j], prob(pg)))
    if W.symbolic or True:
        slack = 0 if W.symbolic else 1e-9
        W.forall((ny, nx), lambda i, j: W.Implies(W.And(W.le(R(i, j), 0), W.Or(W.lt(o['dzbveg'][i, j], 0), W.gt(rnd[i, j], prob(pg) + slack))), W.eq(r['germinate'][i, j], 0)), 'bare-plots-germinate-by-chance-and-not-while-eroding')
        W.forall((ny, nx), lambda i, j: W.Implies(W.And(W.ge(o['dzbveg'][i, j], 0), W.lt(rnd[i, j], prob(pg) - slack)), W.eq(r['germinate'][i, j], 1)), 'plots-germinate-with-the-yearly-chance')
    def nb(i, j):
        c = []
        for di, dj in ((0, 1), (0, -1), (1, 0), (-1, 0)):
            a, b = i + di, j + dj
            inside = W.And(W.ge(a, 0), W.lt(a, ny), W.ge(b, 0), W.lt(b, nx))
            c.append(W.ite(inside, lambda a=a, b=b: W.ite(W.gt(R(a, b), R(i, j)), 1, 0), lambda: 0))
        return c[0] + c[1] + c[2] + c[3]
    W.forall((ny, nx), lambda i, j: W.Implies(W.And(W.eq(nb(i, j), 0), W.gt(rnd[i, j], 0)), W.eq(r['lateral'][i, j], o['lateral'][i, j])), 'lateral-expansion-from-denser-neighbours-only')
    if not W.symbolic:
        pc = 1 - (1 - prob(pl)) ** (1. / float(d))
        W.forall((ny, nx), lambda i, j: abs(rnd[i, j] - pc * nb(i, j)) < 1e-9 or (r['lateral'][i, j] == (1 if rnd[i, j] <= pc * nb(i, j) else o['lateral'][i, j])) or (r['lateral'][i, j] == 1 and o['lateral'][i, j] == 1), 'lateral-expansion-by-chance')
    W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in ('rhoveg', 'hveg', 'zb', 'dzbveg')]), 'plants-and-bed-untouched')


@contract('V01', 'vegetation.initialize', functions=['vegetation.initialize'], bounded=[dict(ny=1, nx=2)], runs=200)
def init(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    s, hmax = fields(W, ny, nx)
    o = {k: W.copy(v) for k, v in s.items()}
    vf = W.array('veg', (ny, nx), hi=1, typ=(-.2, 1.)) if W.choice('file', [True, False]) else None
    V = W.copy(vf) if vf is not None else None
    r = W.call(W.mod('vegetation').initialize, s, dict(veg_file=vf, hveg_max=hmax))
    if vf is None:
        W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in o]), 'untouched-without-a-file')
        return
    W.forall((ny, nx), lambda i, j: W.eq(r['rhoveg'][i, j], W.max(V[i, j], 0)), 'density-of-the-file')
    W.forall((ny, nx), lambda i, j: W.And(W.ge(r['hveg'][i, j], 0), W.eq(r['hveg'][i, j] * r['hveg'][i, j], r['rhoveg'][i, j] * hmax * hmax, scale=1e-3)), 'height-follows-the-density')
    W.forall((ny, nx), lambda i, j: W.And(W.eq(r['germinate'][i, j], W.ite(W.gt(V[i, j], 0), 1, 0)), W.eq(r['lateral'][i, j], 0)), 'vegetated-plots-have-germinated')


def wind(W, ny, nx):
    """a wind field whose magnitude belongs to its components"""
    a, b = W.array('us', (ny, nx), typ=(-1., 1.)), W.array('un', (ny, nx), typ=(-1., 1.))
    if not W.symbolic:
        m = W.bools('on', (ny, nx))
        a, b = a * m, b * m
    return dict(ustar=W.np.hypot(a, b), ustars=a, ustarn=b, tau=W.zeros((ny, nx)), taus=W.array('ts', (ny, nx)), taun=W.array('tn', (ny, nx)))


def consistent(W, r, o, ny, nx, rhoa):
    W.forall((ny, nx), lambda i, j: W.And(W.eq(r['ustars'][i, j] * o['ustar'][i, j], r['ustar'][i, j] * o['ustars'][i, j], scale=1e-6), W.eq(r['ustarn'][i, j] * o['ustar'][i, j], r['ustar'][i, j] * o['ustarn'][i, j], scale=1e-6)), 'direction-of-the-shear-is-kept')
    W.forall((ny, nx), lambda i, j: W.Implies(W.gt(o['ustar'][i, j], 0), W.And(W.eq(r['tau'][i, j], rhoa * r['ustar'][i, j] * r['ustar'][i, j], scale=1e-3), W.eq(r['taus'][i, j], rhoa * r['ustar'][i, j] * r['ustars'][i, j], scale=1e-3), W.eq(r['taun'][i, j], rhoa * r['ustar'][i, j] * r['ustarn'][i, j], scale=1e-3))), 'stress-belongs-to-the-shear-velocity')


@contract('V02', 'vegetation.vegshear/raupach', functions=['vegetation.vegshear', 'vegetation.vegshear_raupach', 'wind.velocity_stress'], bounded=[dict(ny=1, nx=2)], runs=400)
def raupach(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    s = wind(W, ny, nx)
    s.update(rhoveg=W.array('rho', (ny, nx), lo=0, hi=1), zb=W.array('zb', (ny, nx)))
    sm = W.choice('smooth', [False, True])
    p = dict(ny=ny - 1, nx=nx - 1, vegshear_type=W.choice('type', ['raupach', 'okin']), gamma_vegshear=W.real('gamma', lo=0, hi=100, typ=16.), veg_sigma=W.num(0) if not sm else W.num(1), rhoa=W.real('rhoa', pos=True, typ=1.2))
    if p['vegshear_type'] == 'okin':
        W.assume(W.gt(ny, 1))
    seen = []
    if W.symbolic:   # smoothing by contract: weighted averages of the field
        def gauss(a, sigma=0, **k):
            seen.append(a.copy())
            if not sm:
                return a.copy()
            g = W.array('gf', (ny, nx), lo=0, hi=1)
            return g
        W.hook('scipy.ndimage.gaussian_filter', gauss)
    o = {k: W.copy(v) for k, v in s.items()}
    r = W.call(W.mod('vegetation').vegshear, s, p)
    W.forall((ny, nx), lambda i, j: W.And(W.ge(r['ustar'][i, j], 0), W.le(r['ustar'][i, j], o['ustar'][i, j], scale=1e-9)), 'shear-never-increased')
    fac = lambda i, j: 1 / W.sqrt(1 + p['gamma_vegshear'] * o['rhoveg'][i, j])
    if not sm:
        W.forall((ny, nx), lambda i, j: W.eq(r['ustar'][i, j], o['ustar'][i, j] * fac(i, j), scale=1e-6), 'reduction-by-the-cover')
    elif W.symbolic:
        W.ensure('the-reduction-is-smoothed-once', len(seen) == 1)
        W.forall((ny, nx), lambda i, j: W.eq(seen[0][i, j], fac(i, j)), 'the-reduction-of-each-cell-is-smoothed')
    else:
        from scipy import ndimage
        F = ndimage.gaussian_filter(1. / W.np.sqrt(1. + p['gamma_vegshear'] * o['rhoveg']), sigma=1.)
        W.forall((ny, nx), lambda i, j: W.eq(r['ustar'][i, j], o['ustar'][i, j] * F[i, j], scale=1e-6), 'reduction-by-the-smoothed-cover')
    consistent(W, r, o, ny, nx, p['rhoa'])
    W.forall((ny, nx), lambda i, j: W.And(W.same(r['rhoveg'][i, j], o['rhoveg'][i, j]), W.same(r['zb'][i, j], o['zb'][i, j])), 'plants-and-bed-untouched')


@contract('V02', 'vegetation.vegshear/okin', functions=['vegetation.vegshear', 'vegetation.vegshear_okin', 'wind.velocity_stress'], bounded=[dict(nx=2)], runs=600, dimcap=8)
def okin(W):
    ny, nx = 1, W.dim('nx', 2)
    s = wind(W, ny, nx)
    x = W.array('x', (1, nx)) if W.symbolic else W.np.cumsum(W.array('dx', (nx,), pos=True, typ=(.1, 2.))).reshape((1, nx))
    h = W.array('h', (ny, nx), lo=0, hi=2, typ=(.05, 1.))
    if not W.symbolic:
        h = h * W.bools('plant', (ny, nx))
    side = W.choice('wind', ['left', 'right', 'right, from 180 to 360'])
    udir = W.real('ud', lo=0, hi=180) if side == 'left' else W.real('ur', lo=-180, hi=-1) if side == 'right' else W.real('uw_', lo=181, hi=359)
    s.update(hveg=h, x=x, zb=W.array('zb', (ny, nx)), udir=W.full((ny, nx), udir))
    p = dict(ny=0, nx=nx - 1, vegshear_type='okin', okin_c1_veg=W.real('c1', pos=True, hi=2, typ=.5), okin_initialred_veg=W.real('r0', lo=0, hi=1), rhoa=W.real('rhoa', pos=True, typ=1.2))
    o = {k: W.copy(v) for k, v in s.items()}
    cent, tiny = (W.num(Fraction(1, 100)), W.num(Fraction(1, 100000))) if W.symbolic else (.01, 1e-5)

    def red(k, j):
        """reduction in cell j by the plant of cell k"""
        rel = (o['x'][0, j] - o['x'][0, k]) * (-1 if side == 'left' else 1)
        hk = o['hveg'][0, k]
        def v():
            q = (1 - p['okin_initialred_veg']) * W.exp(-rel * p['okin_c1_veg'] / hk)
            return W.ite(W.lt(q, tiny), 0, q)
        return W.ite(W.And(W.gt(hk, 0), W.ge(rel, 0), W.lt(rel, 20 * hk)), v, lambda: 0)
    tot = lambda j: W.sum(nx, lambda k: red(k, j))
    if W.mode == 'sym':
        W.loop('vegshear_okin', 0, sum_loop('red_all', lambda k, idx: red(k, idx[0])))
    r = W.call(W.mod('vegetation').vegshear, s, p)
    W.forall((nx,), lambda j: W.eq(r['ustar'][0, j], W.max(cent, o['ustar'][0, j] * (1 - W.min(1, tot(j)))), scale=1e-3), 'reduction-downwind-of-the-plants')
    W.forall((nx,), lambda j: W.And(W.gt(r['ustar'][0, j], 0), W.le(r['ustar'][0, j], W.max(cent, o['ustar'][0, j]), scale=1e-9)), 'shear-never-increased-above-a-small-floor')
    consistent(W, r, o, ny, nx, p['rhoa'])
