# properties: S01
"""Two-dimensional wind shear over topography (WindShear)."""
from engine.runner import *


def num(W, v): return W.num(v) if W.symbolic else v


def windshear(W, **k):
    c = W.mod('shear').WindShear
    m = object.__new__(c)
    m.__dict__.update(dict(igrid={}, cgrid={}, istransect=False, x0=0., y0=0.))
    m.__dict__.update(k)
    return m


@contract('S01', 'shear.add_shear', functions=['shear.add_shear'], bounded=[dict(ny=1, nx=2)], runs=300)
def add(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    g = {k: W.array(k, (ny, nx), typ=(-1., 1.)) for k in ('taux', 'tauy', 'dtaux', 'dtauy')}
    i = {k: W.copy(v) for k, v in g.items()}
    m = windshear(W, cgrid=g)
    W.call(m.add_shear)
    t = lambda y, x: W.sqrt(i['taux'][y, x] * i['taux'][y, x] + i['tauy'][y, x] * i['tauy'][y, x])
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(m.cgrid['tau' + c][y, x], i['tau' + c][y, x] + t(y, x) * i['dtau' + c][y, x], scale=1e-6) for c in 'xy']), 'perturbation-relative-to-the-undisturbed-stress')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(m.cgrid['dtau' + c][y, x], i['dtau' + c][y, x]) for c in 'xy']), 'frame')


@contract('S01', 'shear.separation_shear', functions=['shear.separation_shear'], bounded=[dict(ny=1, nx=2)], runs=300)
def sepshear(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    g = {k: W.array(k, (ny, nx), typ=(-1., 1.)) for k in ('taux', 'tauy')}
    h = W.array('hsep', (ny, nx), lo=0, typ=(0., .2))
    i = {k: W.copy(v) for k, v in g.items()}
    h0 = W.copy(h)
    m = windshear(W, cgrid=g)
    W.call(m.separation_shear, h)
    f = lambda y, x: W.max(1 - h0[y, x] / num(W, .1), num(W, 0))
    if not W.symbolic:
        W.forall((ny, nx), lambda y, x: W.And(*[W.eq(m.cgrid[k][y, x], i[k][y, x] * f(y, x), scale=1e-6) for k in i]), 'shear-fades-over-a-tenth-of-a-metre-in-the-bubble')
    W.forall((ny, nx), lambda y, x: W.Implies(W.ge(h0[y, x], num(W, .1001)), lambda: W.And(*[W.eq(m.cgrid[k][y, x], 0) for k in i])), 'no-shear-deep-inside-the-bubble')
    W.forall((ny, nx), lambda y, x: W.Implies(W.eq(h0[y, x], 0), lambda: W.And(*[W.eq(m.cgrid[k][y, x], i[k][y, x]) for k in i])), 'unchanged-outside-the-bubble')
    W.forall((ny, nx), lambda y, x: W.And(*[W.And(W.le(W.abs(m.cgrid[k][y, x]), W.abs(i[k][y, x])), W.ge(m.cgrid[k][y, x] * i[k][y, x], 0)) for k in i]), 'only-reduced-and-never-turned')
    W.forall((ny, nx), lambda y, x: W.eq(h[y, x], h0[y, x]), 'frame')


@contract('S01', 'shear.filter_highfrequenies', functions=['shear.filter_highfrequenies'], bounded=[dict(ny=1, nx=2)], runs=300)
def filt(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    dx, dy = W.real('dx', pos=True, typ=1.), W.real('dy', pos=True, typ=1.)
    kx, ky = W.array('kx', (ny, nx), pos=True, typ=(.1, 6.)), W.array('ky', (ny, nx), pos=True, typ=(.1, 6.))
    hs = W.array('hs', (ny, nx), typ=(-5., 5.))
    h0 = W.copy(hs)
    m = windshear(W, cgrid=dict(dx=dx, dy=dy))
    on = W.choice('filter', [True, False])
    r = W.call(m.filter_highfrequenies, kx, ky, hs, (1., 2.) if on else None)
    if not on:
        W.forall((ny, nx), lambda y, x: W.eq(r[y, x], h0[y, x]), 'no-filter')
        return
    W.forall((ny, nx), lambda y, x: W.And(W.le(W.abs(r[y, x]), W.abs(h0[y, x])), W.ge(r[y, x] * h0[y, x], 0)), 'never-amplifies')
    # wave lengths of three cells and more pass, shorter ones fade
    n = lambda k, d: 2 * W.pi / d / k
    if not W.symbolic:
        W.forall((ny, nx), lambda y, x: W.Implies(W.And(W.ge(n(kx[y, x], dx), 3), W.ge(n(ky[y, x], dy), 3)), lambda: W.ge(W.abs(r[y, x]), num(W, .97) * W.abs(h0[y, x]))), 'long-waves-pass')
        W.forall((ny, nx), lambda y, x: W.Implies(n(kx[y, x], dx) <= .5, lambda: W.le(W.abs(r[y, x]), .11 * W.abs(h0[y, x]))), 'waves-shorter-than-a-cell-fade')
        W.forall((ny, nx), lambda y, x: W.Implies(n(ky[y, x], dy) <= .5, lambda: W.le(W.abs(r[y, x]), .25 * W.abs(h0[y, x]))), 'waves-shorter-than-a-cell-fade')


@contract('S01', 'wind.shear/2d', functions=['wind.shear', 'wind.stress_velocity'], bounded=[dict(ny=1, nx=2)], runs=300)
def wire(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    s = {k: W.array(k, (ny, nx), typ=(-1., 1.)) for k in ('x', 'y', 'zb', 'taus', 'taun', 'tau', 'taus0', 'taun0', 'ustar', 'ustars', 'ustarn', 'uw', 'udir', 'hsep', 'zsep')}
    new = {k: W.array('new_' + k, (ny, nx), typ=(-1., 1.)) for k in ('taus', 'taun')}
    new['hsep'] = W.array('new_hsep', (ny, nx), lo=0, typ=(0., 1.))
    on, sep = W.choice('shear', [True, False]), W.choice('separation', [True, False])
    i = {k: W.copy(v) for k, v in s.items()}
    ni = {k: W.copy(v) for k, v in new.items()}
    calls = []

    class Sh:
        def __call__(self, **k):
            calls.append(k)
            return self
        def get_shear(self): return new['taus'], new['taun']
        def get_separation(self): return new['hsep']
    s['shear'] = Sh()
    p = dict(process_shear=on, process_separation=sep, ny=2, c_b=W.real('c_b'), mu_b=W.real('mu_b'), sep_filter_iterations=3, zsep_y_filter=W.choice('yfilter', [True, False]), rhoa=W.real('rhoa', pos=True, typ=1.2))
    s = W.call(W.mod('wind').shear, s, p)
    if not on:
        W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in i]), 'off')
        W.ensure('not-called', len(calls) == 0)
        return
    W.ensure('called-once', len(calls) == 1)
    c = calls[0]
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(c[a][y, x], i[b][y, x]) for a, b in (('x', 'x'), ('y', 'y'), ('z', 'zb'), ('taux', 'taus'), ('tauy', 'taun'))]), 'current-grid-bed-and-stress')
    W.ensure('current-wind', W.And(*[W.eq(c[a], i[b][0, 0]) for a, b in (('u0', 'uw'), ('udir', 'udir'), ('taus0', 'taus0'), ('taun0', 'taun0'))]))
    W.ensure('settings', W.And(W.eq(c['c'], p['c_b']), W.eq(c['mu_b'], p['mu_b']), bool(c['process_separation']) == sep, c['sep_filter_iterations'] == 3, bool(c['zsep_y_filter']) == p['zsep_y_filter']))
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], ni[k][y, x]) for k in ('taus', 'taun')]), 'resulting-stress')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['tau'][y, x] ** 2, ni['taus'][y, x] ** 2 + ni['taun'][y, x] ** 2, scale=1e-6), W.ge(s['tau'][y, x], 0)), 'magnitude-of-the-stress')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['ustar'][y, x] ** 2 * p['rhoa'], s['tau'][y, x], scale=1e-6), W.eq(s['ustars'][y, x] * s['tau'][y, x], s['ustar'][y, x] * s['taus'][y, x], scale=1e-6), W.eq(s['ustarn'][y, x] * s['tau'][y, x], s['ustar'][y, x] * s['taun'][y, x], scale=1e-6)), 'shear-velocity-of-that-stress')
    if sep:
        W.forall((ny, nx), lambda y, x: W.And(W.eq(s['hsep'][y, x], ni['hsep'][y, x]), W.eq(s['zsep'][y, x], i['zb'][y, x] + ni['hsep'][y, x], scale=1e-6)), 'separation-surface-on-the-bed')
    else:
        W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('hsep', 'zsep')]), 'no-separation')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[k][y, x], i[k][y, x]) for k in ('x', 'y', 'zb', 'uw', 'udir', 'taus0', 'taun0')]), 'frame')


# ---------------------------------------------------------------- on the real code only (FFT, Bessel functions)
def grid(W, ny, nx, dx, dy, ang, ox, oy):
    """equidistant rectangular grid, its cross-shore axis turned by ang"""
    a = ang / 180. * W.np.pi
    X, Y = W.np.meshgrid(W.np.arange(nx) * dx, W.np.arange(ny) * dy)
    return ox + X * W.np.cos(a) - Y * W.np.sin(a), oy + X * W.np.sin(a) + Y * W.np.cos(a)


@contract('S01', 'shear.rotate', functions=['shear.rotate'], bounded=[dict(ny=1, nx=2)], runs=200)
def rot(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    x, y = W.array('x', (ny, nx), typ=(-10., 10.)), W.array('y', (ny, nx), typ=(-10., 10.))
    a = W.real('alpha', typ=(-720., 720.))
    o = (W.real('ox', typ=(-10., 10.)), W.real('oy', typ=(-10., 10.)))
    x0, y0 = W.copy(x), W.copy(y)
    r = W.mod('shear').WindShear.rotate
    xr, yr = W.call(r, x, y, a, o)
    c, n = W.cos(a / 180 * W.pi), W.sin(a / 180 * W.pi)
    W.forall((ny, nx), lambda j, i: W.And(W.eq(xr[j, i], o[0] + c * (x0[j, i] - o[0]) + n * (y0[j, i] - o[1]), scale=1e-3), W.eq(yr[j, i], o[1] - n * (x0[j, i] - o[0]) + c * (y0[j, i] - o[1]), scale=1e-3)), 'clockwise-turn-about-the-origin')
    W.forall((ny, nx), lambda j, i: W.And(W.eq(x[j, i], x0[j, i]), W.eq(y[j, i], y0[j, i])), 'frame')


@contract('S01', 'shear.set_computational_grid', functions=['shear.set_computational_grid', 'shear.maxDiff', 'shear.get_exact_grid'], sym=False, runs=400)
def cgrid(W):
    ny, nx = W.dim('ny', 2), W.dim('nx', 2)
    dx, dy = W.real('dx', lo=.5, hi=5, typ=1.), W.real('dy', lo=.5, hi=5, typ=1.)
    x, y = grid(W, ny, nx, dx, dy, W.choice('orientation', [0., 30., 90., 200., -45.]), W.real('ox', typ=(-100., 100.)), W.real('oy', typ=(-100., 100.)))
    cdx, cdy = W.real('cdx', lo=.5, hi=2, typ=1.), W.real('cdy', lo=.5, hi=2, typ=1.)
    buf = W.real('buffer', lo=1, hi=10, typ=5.)
    udir = W.choice('udir', [270., 0., 90., 180., 360., -90., 269.9995]) if W.choice('along-axes', [True, False]) else W.real('udir', lo=-360, hi=720, typ=(0., 360.))
    m = windshear(W, igrid=dict(x=x, y=y), cgrid=dict(dx=cdx, dy=cdy), buffer_width=buf)
    x0, y0 = W.copy(x), W.copy(y)
    W.call(m.set_computational_grid, udir)
    xi, yi = m.cgrid['xi'], m.cgrid['yi']
    W.ensure('about-the-centre-of-the-domain', W.And(W.eq(m.x0, float(x0.mean()), scale=1.), W.eq(m.y0, float(y0.mean()), scale=1.)))
    W.ensure('equidistant-with-the-requested-cell-size', bool(W.np.allclose(W.np.diff(xi, axis=1), cdx) and W.np.allclose(W.np.diff(yi, axis=0), cdy) and W.np.allclose(W.np.diff(yi, axis=1), 0) and W.np.allclose(W.np.diff(xi, axis=0), 0)))
    # in the frame of the wind every cell lies inside the grid, the buffer included
    a = (270. - udir) / 180. * W.np.pi
    X = m.x0 + (x0 - m.x0) * W.np.cos(a) + (y0 - m.y0) * W.np.sin(a)
    Y = m.y0 - (x0 - m.x0) * W.np.sin(a) + (y0 - m.y0) * W.np.cos(a)
    tx = cdx + .01 * (abs(X - m.x0).max() + abs(Y - m.y0).max())
    ty = cdy + .01 * (abs(X - m.x0).max() + abs(Y - m.y0).max())
    W.ensure('covers-the-domain-with-its-buffer', bool(xi.min() <= X.min() - buf + tx and xi.max() >= X.max() + buf - tx and yi.min() <= Y.min() - buf + ty and yi.max() >= Y.max() + buf - ty))
    W.ensure('domain-untouched', bool((x == x0).all() and (y == y0).all()))


@contract('S01', 'shear.interpolate', functions=['shear.interpolate'], sym=False, runs=300)
def itp(W):
    ny, nx = W.dim('ny', 2), W.dim('nx', 2)
    dx, dy = W.real('dx', lo=.5, hi=5, typ=1.), W.real('dy', lo=.5, hi=5, typ=1.)
    ang = W.choice('orientation', [0., 20., 45., 120., 180., 200., 250., 300., -10.])
    x, y = grid(W, ny, nx, dx, dy, ang, W.real('ox', typ=(-10., 10.)), W.real('oy', typ=(-10., 10.)))
    z = W.array('z', (ny, nx), typ=(-5., 5.))
    n = W.dim('n', 1)
    # points inside: fractions of the extent
    fx, fy = W.array('fx', (1, n), lo=0, hi=1, typ=(0., 1.)), W.array('fy', (1, n), lo=0, hi=1, typ=(0., 1.))
    a = ang / 180. * W.np.pi
    u, v = fx * (nx - 1) * dx, fy * (ny - 1) * dy
    xi, yi = x[0, 0] + u * W.np.cos(a) - v * W.np.sin(a), y[0, 0] + u * W.np.sin(a) + v * W.np.cos(a)
    m = windshear(W, x0=float(x.mean()), y0=float(y.mean()))
    z0 = W.copy(z)
    r = W.call(m.interpolate, x, y, z, xi, yi, 0.)
    p = lambda i, j: z0[j, i]

    def bil(_, k):
        s, t = fx[0, k] * (nx - 1), fy[0, k] * (ny - 1)
        i, j = min(int(s), nx - 2), min(int(t), ny - 2)
        s, t = s - i, t - j
        e = (1 - s) * (1 - t) * z0[j, i] + s * (1 - t) * z0[j, i + 1] + (1 - s) * t * z0[j + 1, i] + s * t * z0[j + 1, i + 1]
        return W.eq(r[0, k], e, scale=1e-2, tol=1e-6) if abs(z0).max() < 1e6 else True
    W.forall((1, n), bil, 'bilinear-between-the-surrounding-cells')


@contract('S01', 'shear.compute_shear', functions=['shear.compute_shear', 'shear.filter_highfrequenies'], sym=False, runs=200, dimcap=7)
def pert(W):
    from scipy.special import kv
    ny, nx = W.dim('ny', 2), W.dim('nx', 3)
    dx, dy = W.real('dx', lo=.5, hi=5, typ=1.), W.real('dy', lo=.5, hi=5, typ=1.)
    z0, L, l = W.real('z0', lo=1e-5, hi=1e-3, typ=1e-4), W.real('L', lo=20, hi=200, typ=100.), W.real('l', lo=1, hi=20, typ=10.)
    z = W.array('z', (ny, nx), lo=-50, hi=50, typ=(-5., 5.))
    u0 = W.choice('u0', [0., 8.])
    m = windshear(W, cgrid=dict(dx=dx, dy=dy, z=z, x=W.zeros((ny, nx)), y=W.zeros((ny, nx))), L=L, l=l, z0=z0)
    zi = W.copy(z)
    W.call(m.compute_shear, u0, (1., 2.))
    tx, ty = m.cgrid['dtaux'], m.cgrid['dtauy']
    W.forall((ny, nx), lambda j, i: W.eq(m.cgrid['z'][j, i], zi[j, i]), 'bed-untouched')
    if u0 == 0.:
        W.forall((ny, nx), lambda j, i: W.And(W.eq(tx[j, i], 0), W.eq(ty[j, i], 0)), 'no-perturbation-without-wind')
        return
    # the analytical solution, summed over all Fourier components
    Lk = L / 4.
    ll, hm = l, 1.
    for _ in range(5):
        ll = 2 * .41 ** 2 * Lk / W.log(ll / z0)
    for _ in range(5):
        hm = Lk / W.sqrt(W.log(hm / z0))
    U = W.log(ll / z0) / W.log(hm / z0)
    np, pi = W.np, W.pi
    ex, ey = np.zeros((ny, nx)), np.zeros((ny, nx))
    J, I = np.meshgrid(np.arange(ny), np.arange(nx), indexing='ij')
    f = lambda n, s: 1 / (1 + W.exp(-(n - 1) * W.log(99.) / s))
    fq = lambda q, n: q if q < (n + 1) // 2 else q - n
    for b in range(ny):
        for a in range(nx):
            kx, ky = 2 * pi * fq(a, nx) / (nx * dx), 2 * pi * fq(b, ny) / (ny * dy)
            if a == 0:
                continue           # uniform along the wind: nothing to flow over
            h = (zi * np.exp(-2j * pi * (a * I / nx + b * J / ny))).sum() * f(2 * pi / dx / abs(kx), 1) * (f(2 * pi / dy / abs(ky), 2) if ky else 1.)
            k = (kx * kx + ky * ky) ** .5
            sg = np.sqrt(1j * Lk * kx * z0 / ll)
            A = h * kx ** 2 / k * 2 / U ** 2 * (-1 + (2 * W.log(ll / z0) + k ** 2 / kx ** 2) * sg * kv(1, 2 * sg) / kv(0, 2 * sg))
            B = h * kx * ky / k * 2 / U ** 2 * 2 * 2 ** .5 * sg * kv(1, 2 * 2 ** .5 * sg)
            w = np.exp(2j * pi * (a * I / nx + b * J / ny)) / (nx * ny)
            ex, ey = ex + (A * w).real, ey + (B * w).real
    sc = abs(zi).max() + 1e-3
    W.forall((ny, nx), lambda j, i: W.And(W.eq(tx[j, i], ex[j, i], scale=sc, tol=1e-6), W.eq(ty[j, i], ey[j, i], scale=sc, tol=1e-6)), 'analytical-perturbation-of-the-topography')


def wbed(W, ny, nx):
    kind = W.choice('bed', ['steps', 'rough', 'low', 'ramp'])
    z = W.array('z', (ny, nx), typ=(0., 3.), lo=-20, hi=20)
    if kind == 'low':
        z = z - 5.
    if kind == 'ramp':
        z = W.np.linspace(0, 1, nx)[None, :] * .2 * nx + 0 * z - 2.
    if kind == 'steps':
        z = W.np.round(z) * 2
    return z


@contract('S01', 'shear.separation', functions=['shear.separation'], sym=False, runs=400, dimcap=24)
def sepsurf(W):
    ny, nx = W.dim('ny', 3), W.dim('nx', 10)
    dx = W.real('dx', lo=.5, hi=3, typ=1.)
    z = wbed(W, ny, nx)
    c, mu = .2, W.real('mu_b', lo=10, hi=35, typ=20.)
    its, yf = W.choice('iterations', [0, 0, 1]), W.choice('yfilter', [False, True])
    X, Y = W.np.meshgrid(W.np.arange(nx) * dx, W.np.arange(ny) * dx)
    m = windshear(W, cgrid=dict(x=X, y=Y, z=z, dx=dx, dy=dx, taux=W.full((ny, nx), .3), tauy=W.zeros((ny, nx))))
    z0 = W.copy(z)
    r = W.call(m.separation, c, mu, its, yf)
    W.forall((ny, nx), lambda j, i: W.And(W.ge(r[j, i], z0[j, i], scale=1e-9), W.finite(r[j, i]), W.eq(z[j, i], z0[j, i])), 'never-below-the-bed')
    np = W.np
    sl = np.zeros((ny, nx))
    sl[:, :-2] = (z0[:, 2:] - z0[:, :-2]) / (2 * dx)
    sl[:, -2:] = sl[:, -3:-2]
    steep = sl < -np.tan(mu / 180 * np.pi)
    if (abs(np.rad2deg(np.arctan(sl)) + mu) < 1e-6).any():
        return
    if yf or its:
        W.forall((ny, nx), lambda j, i: W.Implies(bool(not steep[max(0, j - 2):j + 3].any()), lambda: W.Or(W.eq(r[j, i], z0[j, i], scale=1e-6), yf)), 'bed-itself-where-the-wind-follows-it')
        return
    # Duran (2010): a cubic that leaves the brink along the bed and lands horizontally
    def row(j):
        e = z0[j].copy()
        st = steep[j].astype(float)
        s2 = st.copy()
        s2[1:-1] = np.where((st[1:-1] == 0) & (st[:-2] > 0) & (st[2:] > 0), 1., st[1:-1])
        for i in range(1, nx - 1):
            if not (s2[i - 1] == 0 and s2[i] > 0):
                continue
            lee = [q for q in range(i + 5, nx) if not sl[j, q] < 0]
            H = z0[j, i] - (z0[j, lee[0]] if lee else 0)
            d = (z0[j, i] - z0[j, i - 3]) / (3 * dx)
            a = d / c
            ls = min(max(1.5 * H / c * (1 + a / 4 + a * a / 8), .1), 200.)
            for q in range(i, min(i + int(ls / dx) + 1, nx - 1)):
                t = (q - i) * dx / ls
                # Hermite interpolation: height and slope at the brink, H lower and flat at the landing point
                e[q] = max(e[q], z0[j, i] * (1 - 3 * t * t + 2 * t ** 3) + (z0[j, i] - H) * (3 * t * t - 2 * t ** 3) + d * ls * t * (1 - t) ** 2)
        return e
    E = [row(j) for j in range(ny)]
    edge = [steep[j, :3].any() for j in range(ny)]
    W.forall((ny, nx), lambda j, i: True if edge[j] else W.eq(r[j, i], E[j][i], scale=1e-3, tol=1e-6), 'leaves-the-brink-along-the-bed-and-lands-smoothly')


@contract('S01', 'shear.WindShear', functions=['shear.__init__', 'shear.__call__', 'shear.set_computational_grid', 'shear.interpolate', 'shear.rotate', 'shear.add_shear', 'shear.compute_shear', 'shear.separation', 'shear.separation_shear', 'shear.get_shear', 'shear.get_separation'], sym=False, runs=250, dimcap=10)
def whole(W):
    np = W.np
    ny, nx = W.dim('ny', 2), W.dim('nx', 3)
    dx, dy = W.choice('dx', [1., 2.]), W.choice('dy', [1., 3.])
    ang = W.choice('orientation', [0., 0., 25., 90., 180., 215.])
    x, y = grid(W, ny, nx, dx, dy, ang, W.real('ox', typ=(-10., 10.)), W.real('oy', typ=(-10., 10.)))
    kind = W.choice('bed', ['flat', 'hill', 'rough'])
    lev = W.real('level', lo=-20, hi=20, typ=(-5., 5.))
    zr = W.array('z', (ny, nx), lo=-3, hi=3, typ=(0., 1.))
    z = np.full((ny, nx), lev) if kind == 'flat' else lev + zr if kind == 'rough' else lev + 1.5 * np.exp(-((x - x.mean()) ** 2 + (y - y.mean()) ** 2) / 8.)
    udir = W.choice('udir', [270., 300., 225., 90., 0., 180., 45., 359., 100.])
    tau = W.real('tau', lo=0, hi=2, typ=(0., 1.))
    u = (270. - udir) / 180. * np.pi
    ts, tn = tau * np.cos(u), tau * np.sin(u)
    sep = W.choice('separation', [False, True])
    w = W.call(W.mod('shear').WindShear, x, y, z, 1., 1., 100., 10., 1e-3, 5.)
    i = [W.copy(q) for q in (x, y, z)]
    one = lambda z_: W.call(w, x, y, z_, np.full((ny, nx), ts), np.full((ny, nx), tn), 8., udir, sep, .2, 25., ts, tn, 0, False)
    one(z)
    a, b = [W.copy(q) for q in w.get_shear()]
    W.ensure('input-untouched', all(bool((q == r).all()) for q, r in zip((x, y, z), i)))
    W.forall((ny, nx), lambda j, k: W.And(W.finite(a[j, k]), W.finite(b[j, k]), W.ge(a[j, k] * np.cos(u) + b[j, k] * np.sin(u), 0, scale=1e-6)), 'never-against-the-wind')
    if kind == 'flat':
        W.forall((ny, nx), lambda j, k: W.And(W.eq(a[j, k], ts, scale=1e-2, tol=1e-6), W.eq(b[j, k], tn, scale=1e-2, tol=1e-6)), 'flat-bed-keeps-the-stress-at-any-level')
    elif not sep:
        # raising the whole bed changes nothing
        one(z + 7.)
        c, d = w.get_shear()
        W.forall((ny, nx), lambda j, k: W.And(W.eq(a[j, k], c[j, k], scale=1e-1, tol=1e-5), W.eq(b[j, k], d[j, k], scale=1e-1, tol=1e-5)), 'independent-of-the-reference-level')
    if sep:
        one(z)
        h = w.get_separation()
        W.forall((ny, nx), lambda j, k: W.And(W.finite(h[j, k]), W.ge(h[j, k], 0, scale=1e-9)), 'separation-surface-not-below-the-bed')
        if kind == 'flat':
            W.forall((ny, nx), lambda j, k: W.eq(h[j, k], 0, scale=1e-3), 'no-separation-over-a-flat-bed')
