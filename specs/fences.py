# properties: F01
"""Sand fences: heights over the moving bed and reduction of the shear in their lee."""
from engine.runner import *
from specs.vegetation import wind, consistent


def num(W, a, b=1): return W.num(Fraction(a, b)) if W.symbolic else a / b


@contract('F01', 'fences.initialize', functions=['fences.initialize'], bounded=[dict(ny=1, nx=2)], runs=200)
def init(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    A = lambda k: W.array(k, (ny, nx), typ=(-1., 2.))
    s = dict(zb=A('zb'), fence_height=A('h'), fence_base=A('b'), fence_top=A('t'), fence_height_init=A('hi'), zf=A('zf'))
    f = A('file')
    on = W.choice('fences', [True, False])
    o, F = {k: W.copy(v) for k, v in s.items()}, W.copy(f)
    r = W.call(W.mod('fences').initialize, s, dict(process_fences=on, fence_file=f))
    if not on:
        W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in o]), 'nothing-without-fences')
        return
    W.forall((ny, nx), lambda i, j: W.And(W.eq(r['fence_height'][i, j], F[i, j]), W.eq(r['fence_height_init'][i, j], F[i, j]), W.eq(r['fence_base'][i, j], o['zb'][i, j]), W.eq(r['fence_top'][i, j], o['zb'][i, j] + F[i, j], scale=1e-6)), 'fences-of-the-file-stand-on-the-initial-bed')
    W.forall((ny, nx), lambda i, j: W.same(r['zb'][i, j], o['zb'][i, j]), 'bed-untouched')
    # the bed moves later on, the fences do not: the base keeps the initial bed level
    r['zb'][:, :] = r['zb'] + 1
    W.forall((ny, nx), lambda i, j: W.And(W.eq(r['fence_base'][i, j], o['zb'][i, j]), W.eq(r['fence_top'][i, j], o['zb'][i, j] + F[i, j], scale=1e-6)), 'fences-do-not-move-with-the-bed')


@contract('F01', 'fences.update_fence_height', functions=['fences.update_fence_height'], bounded=[dict(ny=1, nx=2)], runs=400)
def height(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    A = lambda k, **a: W.array(k, (ny, nx), **a)
    s = dict(zb=A('zb', typ=(0., 3.)), fence_height=A('h', typ=(0., 2.)), fence_base=A('b', typ=(0., 2.)), fence_top=A('t', typ=(0., 4.)), fence_height_init=A('hi', lo=0, typ=(0., 2.)))
    if not W.symbolic:
        s['fence_height_init'] = s['fence_height_init'] * W.bools('has', (ny, nx))
    o = {k: W.copy(v) for k, v in s.items()}
    r = W.call(W.mod('fences').update_fence_height, s, {})
    d, top = num(W, 1, 10), num(W, 3, 2)
    e = lambda i, j: o['fence_top'][i, j] - o['zb'][i, j]
    stands = lambda i, j: W.And(W.ge(o['fence_height_init'][i, j], d), W.ge(o['fence_top'][i, j], d), W.ge(e(i, j), d))
    gone = lambda i, j: W.And(stands(i, j), W.gt(e(i, j), top))
    W.forall((ny, nx), lambda i, j: W.eq(r['fence_height'][i, j], W.ite(W.And(stands(i, j), W.Not(gone(i, j))), e(i, j), 0), scale=1e-6), 'height-over-the-bed-while-it-stands-and-is-not-buried')
    W.forall((ny, nx), lambda i, j: W.eq(r['fence_height_init'][i, j], W.ite(gone(i, j), 0, o['fence_height_init'][i, j])), 'undermined-fences-are-gone-for-good')
    W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in ('zb', 'fence_top', 'fence_base')]), 'bed-and-position-of-the-fences-untouched')


@contract('F01', 'fences.update_fences/gone', functions=['fences.update_fence_height'], bounded=[dict(ny=1, nx=2)], runs=200)
def gone(W):
    """two consecutive steps with any bed levels: what was undermined once never returns, what was buried does"""
    ny, nx = W.dim('ny'), W.dim('nx')
    A = lambda k, **a: W.array(k, (ny, nx), **a)
    s = dict(zb=A('zb', typ=(0., 3.)), fence_height=A('h', typ=(0., 2.)), fence_top=A('t', typ=(0., 4.)), fence_height_init=A('hi', lo=0, typ=(0., 2.)))
    z2 = A('zb2', typ=(0., 3.))
    f = W.mod('fences').update_fence_height
    t, hi = W.copy(s['fence_top']), W.copy(s['fence_height_init'])
    s = W.call(f, s, {})
    h1, i1 = W.copy(s['fence_height']), W.copy(s['fence_height_init'])
    s['zb'] = z2
    s = W.call(f, s, {})
    d = num(W, 1, 10)
    W.forall((ny, nx), lambda i, j: W.Implies(W.eq(i1[i, j], 0), lambda: W.eq(s['fence_height'][i, j], 0)), 'no-return')
    W.forall((ny, nx), lambda i, j: W.Implies(W.And(W.ge(hi[i, j], d), W.ge(t[i, j], d), W.Not(W.eq(i1[i, j], 0)), W.ge(t[i, j] - z2[i, j], d), W.le(t[i, j] - z2[i, j], num(W, 3, 2))), lambda: W.eq(s['fence_height'][i, j], t[i, j] - z2[i, j], scale=1e-6)), 'uncovered-fences-work-again')


def okin(W, p, h, rel):
    """reduction at a distance downwind of a fence"""
    tiny = num(W, 1, 100000)
    def v():
        q = (1 - p['okin_initialred_fence']) * W.exp(-rel * p['okin_c1_fence'] / h)
        return W.ite(W.lt(q, tiny), 0, q)
    return W.ite(W.And(W.gt(h, 0), W.ge(rel, 0), W.lt(rel, 20 * h)), v, lambda: 0)


def par(W, **k):
    p = dict(process_fences=True, okin_c1_fence=W.real('c1', pos=True, hi=2, typ=.5), okin_initialred_fence=W.real('r0', lo=0, hi=1), rhoa=W.real('rhoa', pos=True, typ=1.2))
    p.update(k)
    return p


@contract('F01', 'fences.fence_shear1d', functions=['fences.update_fences', 'fences.fence_shear1d', 'fences.update_fence_height', 'wind.velocity_stress'], bounded=[dict(nx=2)], runs=600, dimcap=8)
def sh1(W):
    ny, nx = 1, W.dim('nx', 2)
    s = wind(W, ny, nx)
    x = W.array('x', (1, nx)) if W.symbolic else W.np.cumsum(W.array('dx', (nx,), pos=True, typ=(.1, 2.))).reshape((1, nx))
    h = W.array('h', (ny, nx), lo=0, hi=1.4, typ=(.2, 1.)) if not W.symbolic else W.array('h', (ny, nx), lo=0, hi=Fraction(7, 5))
    if not W.symbolic:
        h = h * W.bools('fence', (ny, nx))
    side = W.choice('wind', ['left', 'right', 'right, from 180 to 360'])
    udir = W.real('ud', lo=0, hi=180) if side == 'left' else W.real('ur', lo=-179, hi=-1) if side == 'right' else W.real('uw_', lo=181, hi=359)
    zb = W.array('zb', (ny, nx), lo=1, typ=(1., 3.))
    s.update(fence_height=W.copy(h), fence_top=zb + h, fence_height_init=W.copy(h), fence_base=W.copy(zb), x=x, zb=zb, udir=W.full((ny, nx), udir))
    p = par(W, ny=0, nx=nx - 1)
    o = {k: W.copy(v) for k, v in s.items()}
    he = lambda k: W.ite(W.lt(o['fence_height_init'][0, k], num(W, 1, 10)), 0, o['fence_top'][0, k] - o['zb'][0, k])
    if not W.symbolic:   # keep away from the limit height, rounding decides there
        W.assume(bool((abs(h - .1) > 1e-6).all()))
    red = lambda k, j: okin(W, p, W.ite(W.lt(he(k), num(W, 1, 10)), 0, he(k)), (o['x'][0, j] - o['x'][0, k]) * (-1 if side == 'left' else 1))
    tot = lambda j: W.sum(nx, lambda k: red(k, j))
    if W.mode == 'sym':
        W.loop('fence_shear1d', 0, sum_loop('red_all', lambda k, idx: red(k, idx[0])))
    r = W.call(W.mod('fences').update_fences, s, p)
    cent = num(W, 1, 100)
    W.forall((nx,), lambda j: W.eq(r['ustar'][0, j], W.max(cent, o['ustar'][0, j] * (1 - W.min(1, tot(j)))), scale=1e-3), 'reduction-downwind-of-the-fences')
    W.forall((nx,), lambda j: W.And(W.gt(r['ustar'][0, j], 0), W.le(r['ustar'][0, j], W.max(cent, o['ustar'][0, j]), scale=1e-9)), 'shear-never-increased-above-a-small-floor')
    consistent(W, r, o, ny, nx, p['rhoa'])
    W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in ('zb', 'x', 'udir', 'fence_top', 'fence_base')]), 'frame')


@contract('F01', 'fences.compute_fenceshear', functions=['fences.compute_fenceshear'], bounded=[dict(ny=3, nx=3)], runs=300, dimcap=9)
def sh2(W):
    ny, nx = W.dim('ny', 3), W.dim('nx', 3)
    d = W.real('dx', pos=True, lo=num(W, 1, 10), typ=1.)
    h = W.array('h', (ny, nx), lo=0, hi=2, typ=(.1, 1.))
    if not W.symbolic:
        h = h * W.bools('fence', (ny, nx))
    elif W.mode != 'sym':     # bounded: without fences in the first and the last row
        h[0, :], h[ny - 1, :] = W.num(0), W.num(0)
    a = W.np.arange(nx)
    xi, yi = W.np.meshgrid(a * d, W.np.arange(ny) * d)
    # distances count along the wind; the position of the turned grid is irrelevant
    g = dict(z=h, xi=xi, yi=yi, x=W.array('x', (ny, nx), typ=(-9., 9.)), y=W.array('y', (ny, nx), typ=(-9., 9.)), dx=d, dy=d)
    p = par(W)
    H = W.copy(h)
    inner = lambda i, j: W.And(W.gt(i, 0), W.lt(i, ny - 1), W.gt(j, 0), W.lt(j, nx - 1))
    tot = lambda i, j: W.sum(nx, lambda k: okin(W, p, H[i, k], (j - k) * d))
    if W.mode == 'sym':
        done = lambda i, idx, olds: W.ite(W.And(W.ge(idx[0], 0), W.lt(idx[0], i)), lambda: 1 - W.min(1, tot(*idx)), lambda: olds['mult_all'](idx))
        W.loop('compute_fenceshear', 0, functional_loop({'mult_all': done}, rows=True))
        W.loop('compute_fenceshear', 1, sum_loop('red_all', lambda k, idx, up: okin(W, p, H[up[-1], k], (idx[0] - k) * d), nested=True))
    g = W.call(W.mod('fences').compute_fenceshear, dict(), g, W.real('udir', typ=(0., 360.)), p)
    W.forall((ny, nx), lambda i, j: W.eq(g['mult_all'][i, j], W.ite(inner(i, j), lambda: 1 - W.min(1, tot(i, j)), lambda: 1), scale=1e-3), 'reduction-downwind-of-the-fences')
    W.forall((ny, nx), lambda i, j: W.same(g['z'][i, j], H[i, j]), 'frame')


@contract('F01', 'fences.update_fences/2d', functions=['fences.update_fences', 'fences.fence_shear2d', 'fences.initialize_computational_grid', 'fences.set_computational_grid', 'fences.calc_fence_shear', 'fences.populate_computational_grid', 'fences.compute_fenceshear', 'fences.get_exact_grid', 'fences.rotate', 'fences.interpolate', 'wind.velocity_stress'], sym=False, runs=20, timeout=300)
def whole(W):
    np = W.np
    ny, nx = 8 + W.choice('rows', [0, 3]), 12
    dx = W.choice('cell', [5., 4.])
    x, y = np.meshgrid(np.arange(nx) * dx + W.real('ox', typ=(-50., 50.), lo=-1000, hi=1000), np.arange(ny) * dx + W.real('oy', typ=(-50., 50.), lo=-1000, hi=1000))
    ud = W.choice('wind', [270., 90., 0., 180., 300., 225., 45., -30.])
    a = (270. - ud) / 180. * np.pi
    us = W.real('ustar', lo=.1, hi=1., typ=.4)
    zb = np.full((ny, nx), W.real('bed', lo=.5, hi=10., typ=2.))
    f = np.zeros((ny, nx))
    fy, fx = W.choice('fence', [(4, 6), (3, 5), None]) or (None, None)
    if fy:
        f[fy - 1:fy + 2, fx] = 1.
    s = dict(x=x, y=y, zb=zb, ustar=np.full((ny, nx), us), ustars=np.full((ny, nx), us * np.cos(a)), ustarn=np.full((ny, nx), us * np.sin(a)), udir=np.full((ny, nx), ud), fence_height=np.zeros((ny, nx)))
    s.update({k: np.zeros((ny, nx)) for k in ('tau', 'taus', 'taun')})
    p = par(W, ny=ny - 1, nx=nx - 1, dx=dx, fence_file=f, okin_c1_fence=.48, okin_initialred_fence=.32)
    p['rhoa'] = 1.25
    o = {k: W.copy(v) for k, v in s.items()}
    m = W.mod('fences')
    s = W.call(m.initialize, s, p)
    r = W.call(m.update_fences, s, p)
    al = r['ustars'] * np.cos(a) + r['ustarn'] * np.sin(a)
    ac = -r['ustars'] * np.sin(a) + r['ustarn'] * np.cos(a)
    W.ensure('direction-of-the-shear-is-kept', bool(abs(ac).max() < 1e-3 * us))
    W.ensure('shear-never-increased', bool(al.max() <= us * (1 + 1e-6)))
    W.ensure('shear-never-against-the-wind', bool(al.min() >= -1e-9))
    W.ensure('stress-belongs-to-the-shear-velocity', bool(np.allclose(r['ustar'], np.hypot(r['ustars'], r['ustarn'])) and np.allclose(r['tau'], 1.25 * r['ustar'] ** 2) and np.allclose(r['taus'], 1.25 * r['ustar'] * r['ustars']) and np.allclose(r['taun'], 1.25 * r['ustar'] * r['ustarn'])))
    if not fy:
        W.ensure('unchanged-without-fences', bool(np.allclose(al, us, rtol=1e-6)))
        return
    # positions relative to the fence, along and across the wind
    u = (x - x[fy, fx]) * np.cos(a) + (y - y[fy, fx]) * np.sin(a)
    v = -(x - x[fy, fx]) * np.sin(a) + (y - y[fy, fx]) * np.cos(a)
    half = 1.5 * dx    # a fence is at most three cells long
    W.ensure('unchanged-upwind', bool(np.allclose(al[u < -half - 2 * dx], us, rtol=1e-6)))
    W.ensure('unchanged-beside', bool(np.allclose(al[abs(v) > half + 2 * dx], us, rtol=1e-6)))
    W.ensure('reduced-at-the-fence', bool(al[fy, fx] < .75 * us))
    W.ensure('unchanged-beyond-its-reach', bool(np.allclose(al[u > half + 20. * 1. + 2 * dx], us, rtol=1e-6)))
    if ud in (270., 90.):   # wind square to the fence: the reduction fades with the distance
        e = 1 if ud == 270. else -1
        row = al[fy, fx:][:] if e == 1 else al[fy, fx::-1]
        W.ensure('recovers-downwind', bool((np.diff(row) >= -1e-6 * us).all() and row[1] < us * .995))
    for k in ('zb', 'x', 'y', 'udir'):
        W.ensure('frame', bool((r[k] == o[k]).all()))
