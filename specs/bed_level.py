# properties: B02
"""Bed level: follows the exchanged mass, wet bed reset, averaging."""
from engine.runner import *
from specs.bed_mass import base_state, arrange_F, prevent_stub


@contract('B02', 'bed.update/level', functions=['bed.update'], bounded=[dict(ny=1, nx=2, nl=1, nf=2)], runs=400)
def level(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    LM = W.array('LM', (ny, nx), pos=True, typ=5.)

    def gen(r, dims):
        import numpy as np
        m = np.array([r.uniform(0.01, 1.) for _ in range(int(np.prod(dims)))]).reshape(dims)
        return m / m.sum(axis=-1, keepdims=True) * LM[:, :, None, None]
    mass = W.array('mass', (ny, nx, nl, nf), lo=0, gen=gen)
    W.assume(W.all((ny, nx, nl), lambda y, x, l: W.eq(W.sum(nf, lambda k: mass[y, x, l, k]), LM[y, x])))
    m0 = W.copy(mass)
    pick = W.array('pickup', (ny, nx, nf), typ=(-6., 0.4))
    s, p = base_state(W, ny, nx, nl, nf, mass, level=True)
    p['grain_dist'] = W.array('grain_dist', (nf,), pos=True, typ=(0.1, 1.))
    s['pickup'] = pick
    pk0, zb0, zs0 = W.copy(pick), W.copy(s['zb']), W.copy(s['zs'])
    W.loop('arrange_layers', 0, functional_loop(arrange_F()))
    W.stub('bed', 'prevent_negative_mass', prevent_stub(W, LM))
    s = W.call(W.mod('bed').update, s, p)
    dz = lambda y, x: -W.sum(nf, lambda k: pk0[y, x, k]) / (p['rhog'] * (1 - p['porosity']))
    if p['process_bedupdate']:
        W.forall((ny, nx), lambda y, x: W.eq(s['zb'][y, x], zb0[y, x] + dz(y, x), scale=1e-6), 'bed-level-follows-net-pickup')
        W.forall((ny, nx), lambda y, x: W.eq(s['dzb'][y, x], dz(y, x), scale=1e-6), 'recorded-change')
    else:
        W.forall((ny, nx), lambda y, x: W.eq(s['zb'][y, x], zb0[y, x]), 'bed-level-frozen')
    if p['process_bedupdate'] and p['process_tide']:
        W.forall((ny, nx), lambda y, x: W.eq(s['zs'][y, x], zs0[y, x] + dz(y, x), scale=1e-6), 'water-level-follows')
    else:
        W.forall((ny, nx), lambda y, x: W.eq(s['zs'][y, x], zs0[y, x]), 'water-level-untouched')


@contract('B02', 'bed.wet_bed_reset', functions=['bed.wet_bed_reset'], bounded=[dict(ny=1, nx=2)], runs=300)
def wet(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = dict(zb=W.array('zb', (ny, nx)), zb0=W.array('zb0', (ny, nx)), zs=W.array('zs', (ny, nx)))
    p = dict(process_wet_bed_reset=W.choice('on', [True, False]), dt_opt=W.real('dt_opt', pos=True, typ=3600.), Tbedreset=W.real('Tbedreset', pos=True, typ=86400.))
    zb0 = W.copy(s['zb'])
    ref = W.copy(s['zb0'])
    zs0 = W.copy(s['zs'])
    s = W.call(W.mod('bed').wet_bed_reset, s, p)

    def post(y, x):
        wet = W.And(p['process_wet_bed_reset'], W.gt(zs0[y, x], zb0[y, x] + W.num(Fraction(1, 100)) if W.symbolic else zb0[y, x] + 0.01))
        f = p['dt_opt'] / p['Tbedreset']
        return W.eq(s['zb'][y, x], W.ite(wet, zb0[y, x] + (ref[y, x] - zb0[y, x]) * f, zb0[y, x]))
    W.forall((ny, nx), post, 'wet-cells-relax-to-the-initial-bed')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['zb0'][y, x], ref[y, x]), W.eq(s['zs'][y, x], zs0[y, x])), 'frame')
    # never overshoots the initial bed when the step is within the reset period
    W.assume(p['dt_opt'] <= p['Tbedreset'])
    W.forall((ny, nx), lambda y, x: W.And(W.le(W.min(zb0[y, x], ref[y, x]), s['zb'][y, x]), W.le(s['zb'][y, x], W.max(zb0[y, x], ref[y, x]))), 'no-overshoot')


@contract('B02', 'bed.average_change', functions=['bed.average_change'], bounded=[dict(ny=1, nx=2)], runs=300)
def avg(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = dict(zb=W.array('zb', (ny, nx)), dzb=W.array('dzb', (ny, nx)), dzbveg=W.array('dzbveg', (ny, nx)), dzbavg=W.array('dzbavg', (ny, nx)), dzbyear=W.array('dzbyear', (ny, nx)))
    l = dict(zb=W.array('zbl', (ny, nx)), dzbavg=W.array('dzbavgl', (ny, nx)))
    p = dict(dt_opt=W.real('dt_opt', pos=True, typ=3600.), accfac=W.real('accfac', lo=1, hi=100), avg_time=W.real('avg_time', pos=True, typ=86400.))
    z0, zl, al = W.copy(s['zb']), W.copy(l['zb']), W.copy(l['dzbavg'])
    s = W.call(W.mod('bed').average_change, l, s, p)
    T = p['dt_opt'] * p['accfac']
    yr = 3600 * 24 * Fraction(1461, 4)
    if not W.symbolic:
        yr = float(yr)
    W.forall((ny, nx), lambda y, x: W.eq(s['dzb'][y, x], z0[y, x] - zl[y, x]), 'change-over-the-step')
    W.forall((ny, nx), lambda y, x: W.eq(s['dzbyear'][y, x] * T, (z0[y, x] - zl[y, x]) * yr, scale=1.), 'yearly-rate')
    W.forall((ny, nx), lambda y, x: W.eq(s['dzbveg'][y, x] * T, (z0[y, x] - zl[y, x]) * yr, scale=1.), 'rate-seen-by-vegetation')
    W.forall((ny, nx), lambda y, x: W.eq(s['dzbavg'][y, x] * p['avg_time'], (z0[y, x] - zl[y, x]) * yr + (p['avg_time'] - T) * al[y, x], scale=abs((z0[y, x] - zl[y, x]) * yr) + abs(T * al[y, x])), 'running-average')
    W.forall((ny, nx), lambda y, x: W.And(W.eq(s['zb'][y, x], z0[y, x]), W.eq(l['zb'][y, x], zl[y, x])), 'frame')
