# properties: X01
"""Invariants of the model state over whole steps of the model with all processes together."""
from engine.runner import *
from specs.run import scratch, At


def case(W):
    """a small model: files and settings"""
    np = W.np
    c = W.choice
    rows = c('rows', [1, 1, 3, 4, 5])
    nx = W.int('nx', lo=4, hi=9)
    dx, dy = c('dx', [1., 2., .5]), c('dy', [1., 2.])
    turn = c('orientation', [0., 0., 30., 90.]) if rows > 1 else 0.
    a, b = np.meshgrid(np.arange(nx) * dx, np.arange(rows) * dy)
    r = np.deg2rad(turn)
    x, y = a * np.cos(r) - b * np.sin(r), a * np.sin(r) + b * np.cos(r)
    kind = c('bed', ['flat', 'beach', 'hill', 'cliff'])
    lev = W.real('level', lo=-2, hi=5, typ=(.5, 4.))
    z = np.full((rows, nx), lev)
    if kind == 'beach':
        z = lev - 1 + .15 * a / dx
    if kind == 'hill':
        z = lev + .4 * np.exp(-((a - a.mean()) / (2 * dx)) ** 2)
    if kind == 'cliff':
        z = lev + 1.5 * (a > a.mean())
    z = z + .02 * W.array('dz', (rows, nx), lo=-1, hi=1, typ=(-1., 1.))
    nf, nl = c('fractions', [1, 2, 3]), c('layers', [1, 2, 3])
    size = [2e-4, 3.5e-4, 6e-4][:nf]
    dist = [[1.], [.6, .4], [.5, .3, .2]][nf - 1]
    u = [W.real('u%d' % k, lo=0, hi=30, typ=(4., 14.)) * c('calm%d' % k, [1, 1, 1, 1, 0]) for k in range(3)]
    ud = [W.real('ud%d' % k, lo=0, hi=360, typ=(0., 360.)) if rows > 1 else c('ud1%d' % k, [270., 270., 300., 240.]) for k in range(3)]
    wet = c('water', ['none', 'tide', 'tide and waves', 'tide, waves and runup'])
    f = dict(x=x if rows > 1 else x[0], y=y if rows > 1 else y[0] * 0, z=z if rows > 1 else z[0],
             wind=np.array([[120. * k, u[k], ud[k]] for k in range(3)] + [[1e9, u[2], ud[2]]]))
    p = dict(nlayers=nl, layer_thickness=c('thickness', [.01, .002]), grain_size=size, grain_dist=dist, tstart=0., tstop=1e6, dt=c('dt', [60., 30., 10.]), output_times=120.,
             scheme=c('scheme', ['euler_backward', 'euler_backward', 'crank_nicolson']), solver=c('solver', ['trunk', 'trunk', 'pieter', 'steadystate', 'steadystatepieter']),
             accfac=c('accfac', [1., 1., 3.]), boundary_offshore=c('off', ['constant', 'flux']), boundary_onshore='gradient', boundary_lateral='circular',
             method_transport=c('formula', ['bagnold', 'kawamura', 'lettau', 'dk']), method_grainspeed=c('speed', ['windspeed', 'windspeed', 'duran']), bi=c('bi', [1., .05]), T=c('T', [1., 5.]),
             process_shear=bool(rows > 1 and c('shear', [0, 0, 1])), process_avalanche=bool(c('avalanche', [0, 1])), process_mixtoplayer=bool(c('mix', [0, 1]) and wet != 'none'),
             process_tide=wet != 'none', process_wave=wet in ('tide and waves', 'tide, waves and runup'), process_runup=wet == 'tide, waves and runup',
             process_moist=bool(c('moist', [0, 1]) and wet != 'none'), process_wet_bed_reset=bool(c('reset', [0, 0, 1]) and wet != 'none'), th_bedslope=False,
             process_vegetation=bool(c('vegetation', [0, 0, 1])), th_nelayer=False, output_vars=['zb', 'Ct', 'mass', 'uw', 'q'], output_types=c('statistics', [['avg', 'max'], ['var', 'min', 'sum']]), output_file='out.nc', wind_convention='nautical')
    p['th_moisture'] = p['process_moist']
    if wet != 'none':
        w = [W.real('wl%d' % k, lo=-2, hi=4, typ=(-.5, 3.)) for k in range(2)]
        f['tide'] = np.array([[0., w[0]], [240., w[1]], [1e9, w[1]]])
        h = W.real('Hs', lo=0, hi=4, typ=(0., 2.))
        f['wave'] = np.array([[0., h, 6.], [1e9, h, 8.]])
        if p['process_moist'] and nx > 6 and c('surface moisture', [0, 1]):
            # groundwater is defined on transects that run from the sea to dry land
            f['z'][..., :2] = min(w) - 1
            f['z'][..., -3:] = max(w) + 8
            p['process_avalanche'] = False
            # rain, radiation, temperature, humidity and so on
            f['meteo'] = np.array([[t, 12. + k, 1. + k, 200., 15. + k, 101.3] for k, t in enumerate((0., 300., 1e9))])
            p.update(method_moist_process='surf_moisture', process_groundwater=True, process_scanning=bool(c('scanning', [0, 1])), in_gw=-1., GW_stat=.5, boundary_gw=c('gw', ['no_flow', 'static']))
        p.update(process_salt=bool(c('salt', [0, 0, 1]) and 'meteo' in f))     # salt is washed by the rain of the meteo file
        if p['process_runup'] and c('dune erosion', [0, 1]):
            p.update(process_dune_erosion=True, dune_toe_elevation=lev + .3, Cs=1e-4, dt_opt=60.)
    if c('fences', [0, 0, 0, 1]) and rows == 1:
        f['fence'] = np.where(np.arange(nx) == nx // 2, 1., 0.)
        p.update(process_fences=True)
    if p['process_shear'] and c('separation', [0, 1]):
        p.update(process_separation=True)
    if p['process_vegetation']:
        f['veg'] = np.abs(W.array('veg', (rows, nx), lo=0, hi=1, typ=(0., .6)))
        p.update(V_ver=5., veg_min_elevation=-9.)
    if c('ne', [0, 0, 1]):
        f['ne'] = f['z'] - .05
        p.update(th_nelayer=True)
    return rows, nx, nl, nf, f, p


def write(W, f, p):
    np = W.np
    names = dict(x='xgrid_file', y='ygrid_file', z='bed_file', wind='wind_file', tide='tide_file', wave='wave_file', veg='veg_file', ne='ne_file', fence='fence_file', meteo='meteo_file')
    for k, v in f.items():
        np.savetxt(k + '.txt', v, fmt='%.17g')
        p[names[k]] = k + '.txt'
    with open('case.txt', 'w') as fp:
        for k, v in p.items():
            fp.write('%s = %s\n' % (k, ' '.join(repr(q) if not isinstance(q, str) else q for q in v) if isinstance(v, list) else 'T' if v is True else 'F' if v is False else v))


def same(np, a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == object or np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')


@contract('X01', 'model.AeoLiS', functions=['model.initialize', 'model.update', 'model.set_timestep', 'bed.update', 'bed.initialize', 'bed.mixtoplayer', 'hydro.update', 'hydro.interpolate', 'transport.equilibrium', 'threshold.compute', 'model.solve', 'model.solve_pieter', 'model.solve_steadystate', 'model.solve_steadystatepieter'], sym=False, runs=150, timeout=300)
def whole(W):
    import os, warnings
    np = W.np
    rows, nx, nl, nf, f, p = case(W)
    nsteps = W.choice('steps', [2, 3, 5])
    d = scratch()
    M = W.mod('model')
    with At(d):
        write(W, f, p)
        m = M.AeoLiS('case.txt')
        r = M.AeoLiSRunner('case.txt')
        W.call(m.initialize)
        W.call(r.initialize)
        q = m.p
        layer = q['rhog'] * (1 - q['porosity']) * q['layer_thickness']
        bulk = q['rhog'] * (1 - q['porosity'])
        np.random.seed(1)
        hist = []
        for k in range(nsteps):
            old = {v: np.array(m.s[v], copy=True) for v in ('zb', 'mass', 'zs', 'zne')}
            t0 = m.t
            st = np.random.get_state()
            W.call(m.update)
            s = m.s
            for v in sorted(M.AeoLiS.dimensions()):
                if v not in s or np.ndim(s[v]) == 0:      # single values stand for the whole field
                    continue
                W.ensure('fields-keep-their-shape:' + v, np.shape(s[v]) == m._dims2shape(M.AeoLiS.dimensions(v)))
            for v in ('zb', 'Ct', 'Cu', 'pickup', 'mass', 'uth', 'ustar', 'uw', 'tau', 'qs', 'qn', 'w', 'moist', 'zs', 'Hs'):
                W.ensure('fields-stay-defined:' + v, not bool(np.isnan(s[v]).any()) and (v == 'uth' or bool(np.isfinite(s[v]).all())))
            W.ensure('clock', W.And(W.eq(m.t, t0 + m.dt * q['accfac'], scale=1.), W.gt(m.dt, 0), W.le(m.dt, q['dt'])))
            W.ensure('concentrations-not-negative', bool((s['Ct'] >= -1e-12).all() and (s['Cu'] >= 0).all()))
            W.ensure('no-negative-mass', bool((s['mass'] >= -1e-9 * layer).all()))
            W.ensure('every-layer-keeps-its-mass', bool(np.allclose(s['mass'].sum(axis=-1), layer, rtol=1e-6)))
            blow = np.sum(s['uw']) != 0
            if blow and not q['process_avalanche'] and not q['process_wet_bed_reset'] and not q['process_dune_erosion']:
                dz = s['zb'] - old['zb']
                few = dz < q['layer_thickness'] * .999      # what fills whole layers is taken off the pickup by the bed update
                W.ensure('bed-level-follows-the-exchanged-mass', bool(np.allclose(dz[few], (-s['pickup'].sum(axis=-1) / bulk)[few], rtol=1e-6, atol=1e-12)))
            if not blow:
                W.ensure('nothing-moves-without-wind', bool((s['zb'] == old['zb']).all()) or q['process_wet_bed_reset'] or q['process_dune_erosion'])
            W.ensure('water-not-below-the-bed', bool((s['zs'] >= s['zb'] - 1e-9).all()) or not q['process_tide'] or q['process_avalanche'])
            W.ensure('moisture-in-its-range', bool((s['moist'] >= 0).all() and (s['moist'] <= max(q['porosity'], q['satd_moist']) + 1e-9).all()))
            if q['process_vegetation']:
                W.ensure('vegetation-in-its-range', bool((s['hveg'] >= 0).all() and (s['hveg'] <= q['hveg_max'] + 1e-9).all() and (s['rhoveg'] >= 0).all() and (s['rhoveg'] <= 1 + 1e-9).all()))
            W.ensure('grid-unchanged', bool(np.allclose(s['x'], np.reshape(f['x'], (rows, nx)), atol=1e-6)))
            # the same run with output gives the same state
            np.random.set_state(st)
            W.call(r.update)
            r.output_write()
            for v in sorted(set(s) - {"q"}):
                W.ensure('output-does-not-change-the-results:' + v, W.eq(r.t, m.t) and same(np, r.s[v], s[v]))
