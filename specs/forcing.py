# properties: U01 U02 U03
"""Forcing: masks, time series interpolation, rotation of coordinates."""
from engine.runner import *


@contract('U01', 'utils.apply_mask/2d', functions=['utils.apply_mask'], bounded=[dict(ny=2, nx=2)], runs=200)
def mask2(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    a, m = W.array('a', (ny, nx)), W.complexmask('m', (ny, nx))
    a0 = W.copy(a)
    m0 = W.copy(m)
    r = W.call(W.mod('utils').apply_mask, a, m)
    W.forall((ny, nx), lambda y, x: W.eq(r[y, x], a0[y, x] * W.re(m0, y, x) + W.im(m0, y, x), scale=1e-6), 'real-part-scales-imaginary-part-adds')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(W.re(m, y, x), W.re(m0, y, x)), W.eq(W.im(m, y, x), W.im(m0, y, x))), 'mask-kept')


@contract('U01', 'utils.apply_mask/3d', functions=['utils.apply_mask'], bounded=[dict(ny=1, nx=2, nf=2)], runs=200)
def mask3(W):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    a, m = W.array('a', (ny, nx, nf)), W.complexmask('m', (ny, nx))
    a0 = W.copy(a)
    r = W.call(W.mod('utils').apply_mask, a, m)
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(r[y, x, k], a0[y, x, k] * W.re(m, y, x) + W.im(m, y, x), scale=1e-6), 'mask-repeated-over-further-dimensions')


@contract('U01', 'utils.apply_mask/4d', functions=['utils.apply_mask'], bounded=[dict(ny=1, nx=2, nl=2, nf=2)], runs=200)
def mask4(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    a, m = W.array('a', (ny, nx, nl, nf)), W.complexmask('m', (ny, nx))
    a0 = W.copy(a)
    r = W.call(W.mod('utils').apply_mask, a, m)
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.eq(r[y, x, l, k], a0[y, x, l, k] * W.re(m, y, x) + W.im(m, y, x), scale=1e-6), 'mask-repeated-over-further-dimensions')


def times(W, n):
    """strictly increasing times"""
    def gen(r, dims):
        t, out = r.choice([0., 0., r.uniform(-5, 5)]), []
        for _ in range(dims[0]):
            out.append(t)
            t += r.choice([r.uniform(0.01, 3.), float(r.randint(1, 5)), 3600.])
        return out
    xp = W.array('t', (n,), gen=gen)
    W.assume(W.all((n - 1,), lambda i: W.lt(xp[i], xp[i + 1])))
    return xp


def lerp(W, x, xp, fp, n):
    """piecewise linear interpolation, written independently of numpy.interp in run mode"""
    if W.symbolic:
        return W.np.interp(x, xp, fp)
    if x <= xp[0]:
        return fp[0]
    if x >= xp[-1]:
        return fp[-1]
    for i in range(n - 1):
        if xp[i] <= x <= xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])


@contract('U02', 'utils.interp_circular/in-range', functions=['utils.interp_circular'], bounded=[dict(n=3)], runs=400)
def circ(W):
    n = W.dim('n', 2)
    xp = times(W, n)
    fp = W.array('v', (n,))
    x = W.real('x', typ=(-5., 20.))
    W.assume(W.And(W.le(W.at(xp, 0), x), W.le(x, W.at(xp, n - 1))))
    if W.symbolic:      # the extremes of an increasing series are its ends
        W.assume(W.And(W.eq(xp.min(), W.at(xp, 0)), W.eq(xp.max(), W.at(xp, n - 1))))
    r = W.call(W.mod('utils').interp_circular, x, xp, fp)
    want = lerp(W, x, xp, fp, n)
    tol = 1e-6 if W.symbolic else 1e-6 * (1 + float(abs(fp).max()))
    W.ensure('linear-interpolation-inside-the-series', W.eq(r, want, scale=tol * 1e3))


@contract('U02', 'utils.interp_circular/periodic', functions=['utils.interp_circular'], bounded=[dict(n=2), dict(n=3)], runs=400)
def circ_per(W):
    n = W.dim('n', 2)
    xp = times(W, n)
    fp = W.array('v', (n,))
    x = W.real('x', typ=(-5., 20.))
    if W.symbolic:
        W.assume(W.And(W.eq(xp.min(), W.at(xp, 0)), W.eq(xp.max(), W.at(xp, n - 1))))
    rng = W.at(xp, n - 1) - W.at(xp, 0)
    k = W.int('k', 0, 3)
    W.assume(W.And(W.le(W.at(xp, 0), x), W.le(x, W.at(xp, n - 1))))
    sc = 1. if W.symbolic else (float(abs(fp).max()) + 1.) * 1e3
    a = W.call(W.mod('utils').interp_circular, x + k * (rng + 1), xp, fp)
    b = lerp(W, x, xp, fp, n)
    W.ensure('the-series-repeats', W.eq(a, b, scale=sc))
    # in the second between the end of the series and its repetition the last value is held
    d = W.real('d', lo=0, hi=1)
    W.assume(W.And(d >= W.num(Fraction(1, 100)) if W.symbolic else d >= 0.01, d <= W.num(Fraction(99, 100)) if W.symbolic else d <= 0.99))
    c = W.call(W.mod('utils').interp_circular, W.at(xp, n - 1) + d + k * (rng + 1), xp, fp)
    W.ensure('last-value-held-until-the-repetition', W.eq(c, W.at(fp, n - 1), scale=sc))


def on_a_segment(W, n, v, xp, fp):
    """numpy.interp: linear on a segment that holds v, constant outside the series (a value between the first and the
    last time always lies on some segment)"""
    j = W.int('segment', 0)
    W.assume(j < n - 1)
    inside = W.And(W.le(W.at(xp, 0), v), W.lt(v, W.at(xp, n - 1)))
    W.assume(W.Implies(inside, W.And(W.le(xp[j], v), W.lt(v, xp[j + 1]))))
    return W.ite(W.lt(v, W.at(xp, 0)), W.at(fp, 0), W.ite(W.le(W.at(xp, n - 1), v), W.at(fp, n - 1), fp[j] + (fp[j + 1] - fp[j]) * ((v - xp[j]) / (xp[j + 1] - xp[j]))))


@contract('U02', 'utils.interp_circular/bounds', functions=['utils.interp_circular'], bounded=[dict(n=2), dict(n=3)], runs=400, assumes=['numpy.interp is linear on a segment that holds the value and constant outside the series'])
def circ_bounds(W):
    n = W.dim('n', 2)
    xp = times(W, n)
    fp = W.array('v', (n,))
    x = W.real('x', typ=(-50., 200.))
    if W.mode == 'sym':
        W.hook('interp', lambda v, xp, fp: on_a_segment(W, n, v, xp, fp))
    r = W.call(W.mod('utils').interp_circular, x, xp, fp)
    lo, hi = fp.min(), fp.max()
    W.ensure('within-the-range-of-the-series', W.And(W.le(lo, r, scale=1e-6), W.le(r, hi, scale=1e-6)))


@contract('U02', 'utils.interp_array/2-columns', functions=['utils.interp_array', 'utils.interp_circular'], bounded=[dict(n=3)], runs=300)
def arr(W):
    n = W.dim('n', 2)
    xp = times(W, n)
    fp = W.array('v', (n, 2))
    x = W.real('x', typ=(-5., 20.))
    circular = W.choice('circular', [False, True])
    if W.symbolic:
        W.assume(W.And(W.eq(xp.min(), W.at(xp, 0)), W.eq(xp.max(), W.at(xp, n - 1))))
    if circular:
        W.assume(W.And(W.le(W.at(xp, 0), x), W.le(x, W.at(xp, n - 1))))
    r = W.call(W.mod('utils').interp_array, x, xp, fp, circular=circular)
    sc = 1. if W.symbolic else (float(abs(fp).max()) + 1.) * 1e3
    for c in range(2):
        W.ensure('column-%d' % c, W.eq(r[c], lerp(W, x, xp, fp[:, c], n), scale=sc))


@contract('U03', 'utils.rotate', functions=['utils.rotate'], bounded=[dict(ny=1, nx=2)], runs=300)
def rot(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    x, y = W.array('x', (ny, nx), typ=(-50., 50.)), W.array('y', (ny, nx), typ=(-50., 50.))
    a = W.real('alpha', typ=(-360., 360.))
    ox, oy = W.real('ox', typ=(-5., 5.)), W.real('oy', typ=(-5., 5.))
    x0, y0 = W.copy(x), W.copy(y)
    xr, yr = W.call(W.mod('utils').rotate, x, y, a, origin=(ox, oy))
    ang = a / 180 * W.pi
    c, s = W.cos(ang), W.sin(ang)
    X = lambda i, j: x0[i, j] - ox
    Y = lambda i, j: y0[i, j] - oy
    W.forall((ny, nx), lambda i, j: W.And(W.eq(xr[i, j], ox + c * X(i, j) + s * Y(i, j), scale=1e-3), W.eq(yr[i, j], oy - s * X(i, j) + c * Y(i, j), scale=1e-3)), 'rotation-about-the-origin')
    W.forall((ny, nx), lambda i, j: W.eq((xr[i, j] - ox) ** 2 + (yr[i, j] - oy) ** 2, X(i, j) ** 2 + Y(i, j) ** 2, scale=1e-3), 'distance-to-the-origin-kept')
    W.forall((ny, nx), lambda i, j: W.And(W.eq(x[i, j], x0[i, j]), W.eq(y[i, j], y0[i, j])), 'inputs-kept')


@contract('U03', 'utils.rotate/back', functions=['utils.rotate'], bounded=[dict(ny=1, nx=2)], runs=300)
def rotback(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    x, y = W.array('x', (ny, nx), typ=(-50., 50.)), W.array('y', (ny, nx), typ=(-50., 50.))
    a = W.real('alpha', typ=(-360., 360.))
    ox, oy = W.real('ox', typ=(-5., 5.)), W.real('oy', typ=(-5., 5.))
    x0, y0 = W.copy(x), W.copy(y)
    xr, yr = W.call(W.mod('utils').rotate, x, y, a, origin=(ox, oy))
    xb, yb = W.call(W.mod('utils').rotate, xr, yr, -a, origin=(ox, oy))
    W.forall((ny, nx), lambda i, j: W.And(W.eq(xb[i, j], x0[i, j], scale=1e-3), W.eq(yb[i, j], y0[i, j], scale=1e-3)), 'opposite-angle-restores')
