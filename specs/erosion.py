# properties: D01
"""Wave-driven dune erosion (Palmsten and Holman, 2012)."""
from engine.runner import *
from specs.hydro import series, interp_stub


def num(W, v): return W.num(v) if W.symbolic else v


@contract('D01', 'erosion.run_ph12', functions=['erosion.run_ph12', 'utils.interp_circular'], bounded=[dict(ny=1, nx=2, nw=2, nt=2), dict(ny=1, nx=3, nw=2, nt=2)], unbounded=False, runs=1500, dimcap=7, timeout=20)
def ph12(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 2)
    n, m = W.dim('nw', 2), W.dim('nt', 2)
    _, wf, _w = series(W, 'w', n, [dict(lo=0, typ=(0., 4.)), dict(lo=1, typ=(2., 12.))])
    _, tf, _t = series(W, 'z', m, [dict(typ=(-1., 2.))])
    d = W.num(1) if W.symbolic and nx == 3 else W.real('dx', lo=num(W, .1), hi=10, typ=1.)    # three cells: of 1 m in the proof
    A = lambda k, **a: W.array(k, (ny, nx), **a)
    if W.symbolic:
        zb = A('zb')
    else:   # beach with a dune, with some noise
        zb = W.np.cumsum(A('steps', lo=-20, hi=20, typ=(-.3, 1.5)), axis=1) + W.real('base', lo=-20, hi=20, typ=(-1., 3.))
    row = W.np.arange(nx) * d
    x = W.zeros((ny, nx)) + row[None, :] + W.real('x0', lo=-1000, hi=1000, typ=(-5., 5.))
    s = dict(x=x, zb=zb, R=A('R', lo=0, hi=20, typ=(0., 4.)), eta=A('eta', lo=0, hi=5, typ=(0., 1.)), sigma_s=A('sigma', pos=True, lo=num(W, .01), hi=5, typ=(.1, 1.)))
    calm = W.choice('calm', [False, True])
    if calm:
        s['sigma_s'] = W.zeros((ny, nx))
    p = dict(ny=ny - 1, nx=nx - 1, wave_file=wf, tide_file=tf, dune_toe_elevation=W.real('toe', lo=-10, hi=20, typ=(1., 4.)), beach_slope=W.real('beta', lo=0, hi=1, typ=(.02, .2)), dt_opt=W.real('dt', pos=True, lo=1, hi=1e6, typ=3600.), Cs=W.real('Cs', lo=0, hi=1, typ=(.0001, .01)))
    t = W.real('time', typ=(0., 20.), lo=-1e4, hi=1e6)
    probs = []
    mod = W.mod('erosion')
    if W.symbolic:
        W.hook('argmin.split', True)

        def cdf(v, mean=0, sd=1):
            q = W.real('P%d' % len(probs), lo=0, hi=1)
            probs.append((v, mean, sd, q))
            return q
        W.hook('scipy.stats.norm.cdf', cdf)
        W.hook('norm.cdf', cdf)
    itp = interp_stub(W, n, 'erosion') if W.symbolic else interp_circular_of(W)
    wl, Tp = itp(t, tf[:, 0], tf[:, 1]), itp(t, wf[:, 0], wf[:, 2])
    if W.symbolic:
        W.assume(W.gt(Tp, 0))
    o = {k: W.copy(v) for k, v in s.items()}
    Z = p['dune_toe_elevation']
    r = W.call(mod.run_ph12, s, p, t)
    used = 0
    for i in range(ny):
        old = [o['zb'][i, k] for k in range(nx)]
        new = [r['zb'][i, k] for k in range(nx)]
        twl = o['R'][i, 0] * num(W, 1.26) + wl
        if not W.symbolic and abs(twl - Z) < 1e-9:
            continue
        if W.symbolic:
            hit = bool(W.gt(twl, Z))
        else:
            hit = twl > Z
        if not hit or calm:
            W.ensure('no-erosion-without-waves-above-the-dune-toe', W.And(*[W.same(new[k], old[k]) for k in range(nx)]))
            continue
        dist = [W.abs(z - Z) for z in old]
        if W.symbolic:
            k0 = next((k for k in range(nx - 1) if bool(W.And(*[W.le(dist[k], dist[q]) for q in range(k + 1, nx)]))), nx - 1)
            if used < len(probs):
                v, mean, sd, P = probs[used]
                W.ensure('collisions-of-the-swash-with-the-toe', W.And(W.eq(v, Z), W.eq(mean, o['eta'][i, 0] + wl), W.eq(sd, o['sigma_s'][i, 0])))
            else:
                W.ensure('collisions-of-the-swash-with-the-toe', False)
                return
            used += 1
        else:
            from math import erf
            k0 = min(range(nx), key=lambda k: dist[k])
            if sorted(dist)[0] > sorted(dist)[1] - 1e-9:
                continue
            u = (Z - (o['eta'][i, 0] + wl)) / o['sigma_s'][i, 0]
            P = .5 * (1 + erf(u / 2 ** .5))
        e = twl - Z
        dV = 4 * p['Cs'] * e * e * ((1 - P) * p['dt_opt'] / Tp)
        T = {k: W.min(old[k], num(W, .54) * p['beach_slope'] * d * (k - k0) + Z) for k in range(k0, nx)}
        tol = 1e-9 * (1 + max(abs(v) for v in old)) if not W.symbolic else 0
        near = lambda a, b: W.eq(a, b, scale=1e-6) if W.symbolic else abs(a - b) <= tol
        W.ensure('only-cells-landward-of-the-toe-erode', W.And(*[W.same(new[k], old[k]) for k in range(k0)]))
        W.ensure('bed-is-lowered-to-the-trajectory-of-the-toe-or-left', W.And(*[W.Or(near(new[k], old[k]), near(new[k], T[k])) for k in range(k0, nx)]))
        W.ensure('bed-never-raised', W.And(*[W.le(new[k], old[k] if W.symbolic else old[k] + tol) for k in range(nx)]))
        W.ensure('retreat-starts-at-the-toe', W.And(*[W.Implies(W.Not(near(new[k + 1], old[k + 1])), lambda k=k: near(new[k], T[k])) for k in range(k0, nx - 1)]))
        out = sum(((old[k] - new[k]) * d for k in range(k0, nx)), num(W, 0))
        slack = 0 if W.symbolic else 1e-7 * (1 + abs(dV) + max(abs(v) for v in old) * d * nx)
        vol = lambda c: sum(((old[k] - T[k]) * d for k in range(k0, k0 + c)), num(W, 0))
        for c in range(nx - k0):
            W.ensure('eroded-volume-closest-to-the-demand', W.le(W.abs(out - dV), W.abs(vol(c) - dV) + slack))
    W.forall((ny, nx), lambda i, j: W.And(*[W.same(r[k][i, j], o[k][i, j]) for k in ('x', 'R', 'eta', 'sigma_s')]), 'frame')


def interp_circular_of(W):
    import numpy as np
    def f(t, xp, fp):
        rng = xp[-1] - xp[0]
        if not xp[0] <= t <= xp[-1]:
            t = xp[0] + (t - xp[-1] - 1) % (rng + 1)
        for k in range(len(xp) - 1):
            if xp[k] <= t <= xp[k + 1]:
                return fp[k] + (fp[k + 1] - fp[k]) * (t - xp[k]) / (xp[k + 1] - xp[k])
        return fp[-1]
    return f


@contract('D01', 'erosion.run_ph12/rows', functions=['erosion.run_ph12'], sym=False, runs=300, dimcap=6)
def rows(W):
    """every row erodes by its own bed and its own runup: a row on its own gives the same result"""
    ny, nx = W.dim('ny', 2), W.dim('nx', 2)
    np = W.np
    tf = np.array([[0., W.real('wl', lo=-2, hi=3, typ=(0., 2.))], [1e6, 1.]])
    wf = np.array([[0., 2., W.real('Tp', lo=2, hi=15, typ=8.)], [1e6, 2., 8.]])
    d = W.choice('dx', [1., 2., .5])
    zb = np.cumsum(W.array('steps', (ny, nx), lo=-2, hi=2, typ=(-.3, 1.5)), axis=1)
    s = dict(x=np.tile(np.arange(nx) * d, (ny, 1)), zb=zb, R=W.array('R', (ny, nx), lo=0, hi=10, typ=(0., 4.)), eta=W.array('eta', (ny, nx), lo=0, hi=3, typ=(0., 1.)), sigma_s=W.array('sigma', (ny, nx), lo=.1, hi=3, typ=(.1, 1.)))
    p = dict(ny=ny - 1, nx=nx - 1, wave_file=wf, tide_file=tf, dune_toe_elevation=W.real('toe', lo=0, hi=5, typ=(1., 3.)), beach_slope=.1, dt_opt=3600., Cs=W.real('Cs', lo=0, hi=.1, typ=(.0001, .01)))
    one = [{k: v[i:i + 1].copy() for k, v in s.items()} for i in range(ny)]
    r = W.call(W.mod('erosion').run_ph12, s, p, 0.)
    q = [W.call(W.mod('erosion').run_ph12, o, dict(p, ny=0), 0.) for o in one]
    W.forall((ny, nx), lambda i, j: W.eq(r['zb'][i, j], q[i]['zb'][0, j], scale=1e-6), 'rows-are-independent')
