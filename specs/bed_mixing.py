# properties: B03
"""Mixing of the top layers by waves."""
from engine.runner import *


@contract('B03', 'bed.mixtoplayer', functions=['bed.mixtoplayer'], bounded=[dict(ny=1, nx=1, nl=2, nf=2), dict(ny=1, nx=2, nl=3, nf=1)], runs=500)
def mix(W):
    """conservation, frame"""
    body(W, False)


@contract('B03', 'bed.mixtoplayer/average', functions=['bed.mixtoplayer'], bounded=[dict(ny=1, nx=1, nl=2, nf=2), dict(ny=1, nx=2, nl=3, nf=1)], runs=500)
def mix_avg(W):
    body(W, True)


def body(W, average):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    s = dict(mass=W.array('mass', (ny, nx, nl, nf), lo=0, typ=4.), thlyr=W.array('thlyr', (ny, nx, nl), pos=True, typ=0.3), Hsmix=W.array('Hsmix', (ny, nx), lo=0, typ=2.))
    p = dict(process_mixtoplayer=W.choice('on', [True, False]), nx=nx - 1, ny=ny - 1, nlayers=nl, nfractions=nf, facDOD=W.real('facDOD', lo=0, hi=1))
    m0, th, hs = W.copy(s['mass']), W.copy(s['thlyr']), W.copy(s['Hsmix'])
    s = W.call(W.mod('bed').mixtoplayer, s, p)
    m1 = s['mass']
    if not p['process_mixtoplayer']:
        W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.eq(m1[y, x, l, k], m0[y, x, l, k]), 'off-unchanged')
        return
    dod = lambda y, x: p['facDOD'] * hs[y, x]
    W.forall((ny, nx, nf), lambda y, x, k: W.eq(W.sum(nl, lambda l: m1[y, x, l, k]), W.sum(nl, lambda l: m0[y, x, l, k])), 'fraction-mass-conserved')
    # layers with their underside below the depth of disturbance keep their sediment
    cum = th.cumsum(axis=2)
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.Implies(W.And(l > 0, W.Or(cum[y, x, l] > dod(y, x), W.Not(dod(y, x) > 0))), lambda: W.eq(m1[y, x, l, k], m0[y, x, l, k])), 'deeper-layers-untouched')
    if average:
      W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.Implies(W.Not(dod(y, x) > 0), lambda: W.eq(m1[y, x, l, k], m0[y, x, l, k])), 'no-waves-no-mixing')
    # mixed layers move towards the average over the mixed layers
    inn = lambda y, x, l: W.Or(W.Not(l > 0), W.And(cum[y, x, l] <= dod(y, x), dod(y, x) > 0))
    tot = lambda y, x: W.sum(nl, lambda l: th[y, x, l])

    def avg(y, x, l, k):
        def q():
            n = W.sum(nl, lambda j: W.ite(inn(y, x, j), 1., 0.))
            S = W.sum(nl, lambda j: W.ite(inn(y, x, j), m0[y, x, j, k], 0.))
            t, d = tot(y, x), dod(y, x)
            return W.And(W.Implies(W.ge(t, d), lambda: W.eq(m1[y, x, l, k] * n, S)),
                         W.Implies(t < d, lambda: W.eq(m1[y, x, l, k] * n * d, t * S + (d - t) * m0[y, x, l, k] * n)))
        return W.Implies(W.And(dod(y, x) > 0, inn(y, x, l)), q)
    if average:
      W.forall((ny, nx, nl, nf), avg, 'mixed-layers-approach-their-average')
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.ge(m1[y, x, l, k], 0), 'no-negative-mass')
    W.forall((ny, nx, nl), lambda y, x, l: W.And(W.eq(s['thlyr'][y, x, l], th[y, x, l]), W.eq(s['Hsmix'][y, x], hs[y, x])), 'frame')
