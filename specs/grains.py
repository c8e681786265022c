# properties: G01 G02
"""Normalisation, weights and grain statistics."""
from engine.runner import *


@contract('G01', 'utils.normalize', functions=['utils.normalize'], bounded=[dict(n=1, m=2)], runs=300)
def norm(W):
    n, m = W.dim('n', 1), W.dim('m', 1)
    x = W.array('x', (n, m), lo=0)
    fill = W.real('fill')
    x0 = W.copy(x)
    y = W.call(W.mod('utils').normalize, x, axis=1, fill=fill)
    tot = lambda i: W.sum(m, lambda j: x0[i, j])
    W.forall((n, m), lambda i, j: W.Implies(tot(i) > 0, lambda: W.And(W.ge(y[i, j], 0), W.le(y[i, j], 1, scale=1e-6), W.eq(y[i, j] * tot(i), x0[i, j], scale=1e-6))), 'share-of-the-total')
    W.forall((n, m), lambda i, j: W.Implies(W.Not(tot(i) > 0), lambda: W.eq(y[i, j], fill)), 'fill-where-the-total-is-zero')
    W.forall((n,), lambda i: W.Implies(tot(i) > 0, lambda: W.eq(W.sum(m, lambda j: y[i, j]), 1)), 'sums-to-one')
    W.forall((n, m), lambda i, j: W.eq(x[i, j], x0[i, j]), 'argument-kept')


@contract('G01', 'utils.normalize/axis0', functions=['utils.normalize'], bounded=[dict(n=2)], runs=300)
def norm0(W):
    n = W.dim('n', 1)
    x = W.array('x', (n,), lo=0)
    x0 = W.copy(x)
    y = W.call(W.mod('utils').normalize, x)
    tot = lambda: W.sum(n, lambda j: x0[j])
    W.forall((n,), lambda j: W.ite(tot() > 0, W.eq(y[j] * tot(), x0[j], scale=1e-6), W.eq(y[j], 0)), 'share-of-the-total')


@contract('G01', 'utils.normalize/ref', functions=['utils.normalize'], bounded=[dict(n=1, m=2)], runs=300)
def normref(W):
    n, m = W.dim('n', 1), W.dim('m', 1)
    x, ref = W.array('x', (n, m)), W.array('ref', (n, m))
    y = W.call(W.mod('utils').normalize, x, ref)
    W.forall((n, m), lambda i, j: W.ite(W.eq(ref[i, j], 0) if W.symbolic else ref[i, j] == 0, W.eq(y[i, j], 0), W.eq(y[i, j] * ref[i, j], x[i, j], scale=1e-6)), 'relative-to-the-reference')


@contract('G01', 'transport.compute_weights', functions=['transport.compute_weights', 'utils.normalize'], bounded=[dict(ny=1, nx=1, nl=1, nf=2)], runs=400)
def weights(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=(0., 5.)), Cu=W.array('Cu', (ny, nx, nf), lo=0, typ=0.1), Ct=W.array('Ct', (ny, nx, nf), lo=0, typ=0.1))
    p = dict(grain_dist=None, bi=W.real('bi', lo=0, hi=1))
    W.assume(W.all((ny, nx), lambda y, x: W.gt(W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.num(0))))
    m0, Cu, Ct = W.copy(s['mass']), W.copy(s['Cu']), W.copy(s['Ct'])
    w, wa, wb = W.call(W.mod('transport').compute_weights, s, p)
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.ge(w[y, x, k], 0), W.le(w[y, x, k], 1, scale=1e-6)), 'weights-between-0-and-1',
             hints=lambda y, x, k: [W.eq(W.sum(nf, lambda j: w[y, x, j]), 1), W.sum_elem(nf, lambda j: w[y, x, j], k)])
    W.forall((ny, nx), lambda y, x: W.eq(W.sum(nf, lambda k: w[y, x, k]), 1), 'weights-sum-to-one')
    tot = lambda y, x: W.sum(nf, lambda k: m0[y, x, 0, k])
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(wb[y, x, k] * tot(y, x), m0[y, x, 0, k], scale=1e-6), 'bed-weight-is-the-share-of-the-top-layer')
    W.forall((ny, nx, nf), lambda y, x, k: W.ite(Cu[y, x, k] > 0, W.eq(wa[y, x, k] * Cu[y, x, k], Ct[y, x, k], scale=1e-6), W.eq(wa[y, x, k], 0)), 'air-weight-is-the-saturation')
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.And(W.eq(s['mass'][y, x, l, k], m0[y, x, l, k]), W.eq(s['Cu'][y, x, k], Cu[y, x, k]), W.eq(s['Ct'][y, x, k], Ct[y, x, k])), 'frame')


@contract('G01', 'transport.renormalize_weights', functions=['transport.renormalize_weights', 'utils.normalize'], bounded=[dict(ny=1, nx=1, nf=2)], runs=300)
def renorm(W):
    renormalise(W, False)


@contract('G01', 'transport.renormalize_weights/kept', functions=['transport.renormalize_weights', 'utils.normalize'], bounded=[dict(ny=1, nx=1, nf=3)], runs=300)
def renorm_kept(W):
    renormalise(W, True)


def renormalise(W, kept):
    ny, nx, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nf', 1)
    w = W.array('w', (ny, nx, nf), lo=0, hi=1)
    k0 = W.choice('ifraction', [0, 1, 2]) if kept and W.mode != 'sym' else W.int('ifraction', 0, None) if W.symbolic else W.int('ifraction', 0, nf - 1)
    W.assume(W.And(k0 >= 0, k0 < nf))
    # what was already given away does not exceed the whole
    pre = W.np.sum(w[:, :, :k0], axis=2) if W.symbolic else w[:, :, :k0].sum(axis=2)
    W.assume(W.all((ny, nx), lambda y, x: pre[y, x] <= 1))
    w0 = W.copy(w)
    r = W.call(W.mod('transport').renormalize_weights, w, k0)
    rest = lambda y, x: W.sum(nf - k0, lambda j: w0[y, x, k0 + j])
    whole = None
    if kept and W.mode == 'sym':
        # the weights given away and the rest make a whole before the final normalisation
        a = lambda y, x, k: W.ite(W.lt(k, k0), lambda: w0[y, x, k], lambda: w0[y, x, k] / rest(y, x) * (1 - pre[y, x]))
        whole = lambda y, x, k: [W.sum_split(nf, lambda j: a(y, x, j), k0), W.Implies(rest(y, x) > 0, lambda: W.eq(W.sum(k0, lambda j: a(y, x, j)), pre[y, x])),
                                 W.Implies(rest(y, x) > 0, lambda: W.eq(W.sum(nf - k0, lambda j: a(y, x, k0 + j)), 1 - pre[y, x])), W.Implies(rest(y, x) > 0, lambda: W.eq(W.sum(nf, lambda j: a(y, x, j)), 1))]
    if kept:
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.And(W.lt(k, k0), rest(y, x) > 0), lambda: W.eq(r[y, x, k], w0[y, x, k])), 'earlier-fractions-kept', **(dict(hints=whole) if whole else {}))
        return
    W.forall((ny, nx, nf), lambda y, x, k: W.And(W.ge(r[y, x, k], 0, scale=1e-6), W.le(r[y, x, k], 1, scale=1e-6)), 'weights-between-0-and-1',
             hints=lambda y, x, k: [W.eq(W.sum(nf, lambda j: r[y, x, j]), 1), W.sum_elem(nf, lambda j: r[y, x, j], k)])
    W.forall((ny, nx), lambda y, x: W.eq(W.sum(nf, lambda k: r[y, x, k]), 1), 'weights-sum-to-one')


@contract('G02', 'utils.calc_mean_grain_size', functions=['utils.calc_mean_grain_size'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=300)
def meangs(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=(0., 5.)))
    p = dict(grain_size=W.array('grain_size', (nf,), pos=True, typ=3e-4))
    W.assume(W.all((ny, nx), lambda y, x: W.gt(W.sum(nf, lambda k: s['mass'][y, x, 0, k]), W.num(0))))
    m0 = W.copy(s['mass'])
    lo, hi = W.real('lo', pos=True, typ=1e-4), W.real('hi', pos=True, typ=1e-3)
    if not W.symbolic:
        lo, hi = p['grain_size'].min(), p['grain_size'].max()
    W.assume(W.all((nf,), lambda k: W.And(W.le(lo, p['grain_size'][k]), W.le(p['grain_size'][k], hi))))
    D = W.call(W.mod('utils').calc_mean_grain_size, p, s)
    tot = lambda y, x: W.sum(nf, lambda k: m0[y, x, 0, k])
    W.forall((ny, nx), lambda y, x: W.eq(D[y, x] * tot(y, x), W.sum(nf, lambda k: p['grain_size'][k] * m0[y, x, 0, k]), scale=1e-9), 'mass-weighted-mean-of-the-top-layer')
    W.forall((ny, nx), lambda y, x: W.And(W.le(lo * tot(y, x), D[y, x] * tot(y, x), scale=1e-9), W.le(D[y, x] * tot(y, x), hi * tot(y, x), scale=1e-9)), 'between-the-smallest-and-largest-grains',
             hints=lambda y, x: [W.sum_nonneg(nf, lambda k: (hi - p['grain_size'][k]) * m0[y, x, 0, k]), W.sum_nonneg(nf, lambda k: (p['grain_size'][k] - lo) * m0[y, x, 0, k])])
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.eq(s['mass'][y, x, l, k], m0[y, x, l, k]), 'frame')


@contract('G02', 'utils.calc_grain_size', functions=['utils.calc_grain_size'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=500, sym=False)
def d50(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), pos=True, typ=(0.01, 5.)))
    p = dict(grain_size=W.array('grain_size', (nf,), gen=lambda r, d: sorted(r.uniform(1e-5, 2e-3) for _ in range(d[0]))))
    m0 = W.copy(s['mass'])
    pc = W.real('percent', lo=0, hi=100, typ=(0., 100.))
    D = W.call(W.mod('utils').calc_grain_size, p, s, pc)
    gs = p['grain_size']

    def want(y, x):
        tot = sum(m0[y, x, 0, :])
        cum, lo = 0., 0.
        for k in range(nf):
            nxt = cum + m0[y, x, 0, k]
            if pc / 100. * tot <= nxt or k == nf - 1:
                return lo + (gs[k] - lo) * (pc / 100. * tot - cum) / (nxt - cum)
            cum, lo = nxt, gs[k]
    W.forall((ny, nx), lambda y, x: W.eq(D[y, x], want(y, x), scale=1e-3), 'percentile-of-the-cumulative-distribution')
    W.forall((ny, nx), lambda y, x: W.And(W.ge(D[y, x], 0, scale=1e-3), W.le(D[y, x], gs[-1], scale=1e-3)), 'within-the-grain-sizes')
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.eq(s['mass'][y, x, l, k], m0[y, x, l, k]), 'frame')
