# properties: N01
"""netCDF output: what is written is what the model computed."""
from engine.runner import *
import os, tempfile

UNITS = {'zb': 'm', 'Ct': 'kg/m^2', 'mass': 'kg/m^2', 'ustar': 'm/s', 'moist': '1', 'uth': 'm/s', 'qs': 'kg/m/s', 'thlyr': 'm', 'pickup': 'kg/m^2'}
DIMS = {'zb': ('ny', 'nx'), 'moist': ('ny', 'nx'), 'ustar': ('ny', 'nx'), 'Ct': ('ny', 'nx', 'nfractions'), 'uth': ('ny', 'nx', 'nfractions'), 'qs': ('ny', 'nx', 'nfractions'), 'pickup': ('ny', 'nx', 'nfractions'), 'thlyr': ('ny', 'nx', 'nlayers'), 'mass': ('ny', 'nx', 'nlayers', 'nfractions')}


class Dataset:
    """an open file by contract: variables along an unlimited time axis; assignments are recorded in order, as
    (variable, record, value) or, for the bounds, (variable, (record, column), value)"""
    def __init__(self, W, vars, times):
        self.log, self.mode = [], []
        log = self.log

        def beyond():
            if not W.symbolic:
                raise Reject()      # more of netCDF4 than this stand-in has: left to the contracts with real files
            raise core.Unsupported('netCDF4 stand-in')

        class Axis:
            name = 'time'
            size = property(lambda s: len(times))
            def __len__(s): return len(times)
            def isunlimited(s): return True

        class V:
            def __init__(s, name): s.name = name
            shape = property(lambda s: (len(times),) + ((2,) if s.name == 'time_bounds' else ()))
            size = property(lambda s: len(times) * (2 if s.name == 'time_bounds' else 1))
            def __len__(s): return len(times)
            def __getattr__(s, n): beyond()
            def __getitem__(s, i):
                if s.name != 'time':
                    beyond()
                return times[i]
            def __setitem__(s, i, v):
                i = i if isinstance(i, tuple) else (i,)
                r, rest = i[0], [q for q in i[1:] if not (q is Ellipsis or q == slice(None))]
                if isinstance(r, slice):
                    if r.step not in (None, 1) or not isinstance(r.start, int) or r.stop not in (None, r.start + 1):
                        beyond()
                    r = r.start
                    v = v[0] if getattr(v, 'ndim', 0) or isinstance(v, (list, tuple)) else v
                if not isinstance(r, int):
                    try:
                        r = r.__index__()
                    except Exception:
                        beyond()
                r = r + len(times) if r < 0 else r
                if s.name == 'time':
                    log.append((s.name, r, v))
                    assert r == len(times) and not rest
                    times.append(v)
                elif s.name == 'time_bounds':
                    if not rest:
                        for c in (0, 1):
                            log.append((s.name, (r, c), v[c] if getattr(v, 'ndim', 0) or isinstance(v, (list, tuple)) else v))
                    else:
                        log.append((s.name, (r, rest[0] % 2), v))
                elif rest:
                    beyond()
                else:
                    log.append((s.name, r, v))
        self.variables = {k: V(k) for k in vars}
        self.dimensions = {'time': Axis()}
        self._beyond = beyond
    def __getattr__(self, n):
        if n == '_beyond' or n.startswith('__'):
            raise AttributeError(n)
        self._beyond()
    def __getitem__(self, k): return self.variables[k]
    def __call__(self, path, mode='r', **k):
        self.mode.append((path, mode))
        return self
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def sync(self): pass


@contract('N01', 'netcdf.append', functions=['netcdf.append', 'netcdf.set_bounds'], bounded=[dict(ny=1, nx=2)], runs=200)
def app(W):
    """one more time slice: time, all given fields, bounds from the previous output to this one"""
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    n = W.choice('outputs so far', [0, 1, 3])
    old = [W.real('t%d' % i, typ=(0., 1e4)) for i in range(n)]
    times = list(old)
    d = Dataset(W, ['time', 'time_bounds', 'zb', 'Ct', 'Ct_avg', 'other'], times)
    t = W.real('t', typ=(1e4, 1e5))
    v = dict(zb=W.array('zb', (ny, nx)), Ct=W.array('Ct', (ny, nx, nf)), Ct_avg=W.array('Cta', (ny, nx, nf)))
    o = {k: W.copy(q) for k, q in v.items()}
    m = W.mod('netcdf')
    given = dict([('time', t)] + list(v.items()) if W.choice('time first', [True, False]) else list(v.items()) + [('time', t)])
    if W.symbolic:
        W.hook('netCDF4.Dataset', d)
    else:
        W.patch(m.netCDF4, 'Dataset', d)
    W.call(m.append, 'out.nc', given)
    W.ensure('existing-file-is-extended', all(q in (('out.nc', 'a'), ('out.nc', 'r+')) for q in d.mode))
    got = {}
    for name, i, x in d.log:
        got.setdefault(name, []).append((i, x))
    W.ensure('time-axis-grows-by-one', len(times) == n + 1 and W.eq(times[n], t))
    W.ensure('all-given-fields-once-and-nothing-else', set(got) == set(v) | {'time', 'time_bounds'} and all(len(got[k]) == 1 for k in set(v) | {'time'}))
    for k in v:
        i, x = got[k][0]
        W.ensure('at-the-new-time', i == n)
        W.forall((ny, nx) + ((nf,) if k != 'zb' else ()), lambda *j, k=k, x=x: W.eq(x[j], o[k][j]), 'fields-as-given')
    b = {i: x for i, x in got['time_bounds']}
    if set(b) == {(n, 0), (n, 1)}:
        W.ensure('bounds-span-from-the-previous-output', W.And(W.eq(b[n, 0], old[-1] if n else 0), W.eq(b[n, 1], t)))
    else:
        W.ensure('bounds-of-the-new-time', False)


def setup(W):
    np = W.np
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    size = dict(ny=ny, nx=nx, nlayers=nl, nfractions=nf)
    dim = W.mod('model').AeoLiS.dimensions()
    shp = lambda k: tuple(size[q] for q in DIMS[k])
    s = {k: W.array('s_' + k, shp(k), typ=(-5., 5.)) for k in DIMS}
    s['x'], s['y'] = W.array('x', (ny, nx), typ=(-100., 100.)), W.array('y', (ny, nx), typ=(-100., 100.))
    p = dict(nx=nx - 1, ny=ny - 1, nlayers=nl, nfractions=nf, refdate='2020-01-01 00:00', grain_size=W.array('gs', (nf,), pos=True, typ=(1e-4, 1e-3)))
    exts = W.choice('statistics', [[None], [None, 'avg'], ['min', 'max', 'sum', 'avg', 'var', None]])
    names = W.choice('variables', [['zb', 'Ct', 'mass'], ['moist', 'qs', 'thlyr', 'pickup'], sorted(DIMS)])
    out = {k: list(exts) for k in names}
    return s, p, out, dim, shp, (ny, nx, nl, nf)


@contract('N01', 'netcdf.initialize', functions=['netcdf.initialize', 'netcdf.append', 'netcdf.set_bounds', 'netcdf.parse_metadata', 'model.dimensions'], sym=False, runs=40, dimcap=4, timeout=120)
def whole(W):
    """real files: what is read back are the values that were appended, at their times"""
    np = W.np
    import netCDF4
    s, p, out, dim, shp, (ny, nx, nl, nf) = setup(W)
    n = W.choice('outputs', [1, 2, 3])
    times, t = [], W.choice('start', [0., 3600., 1e8 + .5])
    m = W.mod('netcdf')
    f32 = lambda a: np.asarray(a, dtype='float32')
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'out.nc')
        if W.choice('older file', [False, True]):
            with netCDF4.Dataset(f, 'w') as nc:
                nc.createDimension('time', 3)
        S = {k: v.copy() for k, v in s.items()}
        W.call(m.initialize, f, out, s, p, dim)
        hist = []
        for i in range(n):
            v = {('%s_%s' % (k, e) if e else k): W.array('v%d_%s_%s' % (i, k, e), shp(k), typ=(-100., 100.), lo=-1e30, hi=1e30) for k, es in out.items() for e in es}
            hist.append({k: a.copy() for k, a in v.items()})
            times.append(t)
            W.call(m.append, f, dict(v, time=t))
            t += W.real('dt%d' % i, pos=True, lo=.01, hi=1e7, typ=600.)
        with netCDF4.Dataset(f) as nc:
            nc.set_auto_mask(False)
            R = {k: nc.variables[k][...] for k in nc.variables}
            U = {k: getattr(nc.variables[k], 'units', None) for k in nc.variables}
            D = {k: nc.variables[k].dimensions for k in nc.variables}
    W.ensure('every-output-at-its-time', R['time'].shape == (n,) and bool((R['time'] == np.array(times)).all()))
    W.ensure('bounds-between-outputs', R['time_bounds'].shape == (n, 2) and bool(np.allclose(R['time_bounds'][:, 1], times, rtol=1e-6) and np.allclose(R['time_bounds'][1:, 0], times[:-1], rtol=1e-6) and R['time_bounds'][0, 0] == 0))
    for k, es in out.items():
        for e in es:
            q = '%s_%s' % (k, e) if e else k
            if q not in R:
                W.ensure('every-requested-variable', False)
                continue
            W.ensure('values-in-single-precision', R[q].shape == (n,) + shp(k) and all(bool((R[q][i] == f32(hist[i][q])).all()) for i in range(n)))
            W.ensure('units-of-the-variable', U[q] == UNITS[k])
            W.ensure('named-dimensions', D[q] == ('time',) + tuple({'ny': 'n', 'nx': 's', 'nlayers': 'layers', 'nfractions': 'fractions'}[z] for z in DIMS[k]))
    W.ensure('coordinates', bool((R['x'] == f32(S['x'])).all() and (R['y'] == f32(S['y'])).all() and (R['fractions'] == f32(p['grain_size'])).all() and (R['s'] == np.arange(nx)).all() and (R['n'] == np.arange(ny)).all() and (R['layers'] == np.arange(nl)).all()))
    W.ensure('time-reference', U['time'] == 'seconds since 2020-01-01 00:00')
    W.ensure('state-untouched', all(bool((s[k] == S[k]).all()) for k in S))


@contract('N01', 'netcdf.dump', functions=['netcdf.dump', 'bed.initialize'], sym=False, runs=20, dimcap=4, timeout=120)
def dump(W):
    """a dumped bed composition is the initial composition of the next run"""
    np = W.np
    s, p, out, dim, shp, (ny, nx, nl, nf) = setup(W)
    n = W.choice('outputs', [1, 3])
    m = W.mod('netcdf')
    with tempfile.TemporaryDirectory() as d:
        f, g = os.path.join(d, 'out.nc'), os.path.join(d, 'bedcomp.txt')
        W.call(m.initialize, f, {'mass': [None], 'zb': [None]}, s, p, dim)
        v = [dict(mass=W.array('m%d' % i, shp('mass'), lo=0, hi=1e6, typ=(0., 100.)), zb=W.array('z%d' % i, shp('zb'), lo=-1e6, hi=1e6, typ=(-5., 5.))) for i in range(n)]
        for i in range(n):
            W.call(m.append, f, dict(v[i], time=600. * i))
        ix = W.choice('slice', [-1, 0])
        W.call(m.dump, f, g, **({} if ix == -1 else dict(ix=0)))
        comp = np.loadtxt(g)
        q = dict(zb=W.zeros((ny, nx)), zb0=W.zeros((ny, nx)), zne=W.zeros((ny, nx)), zdry=W.zeros((ny, nx)), thlyr=W.zeros((ny, nx, nl)), mass=W.zeros((ny, nx, nl, nf)), uth=W.zeros((ny, nx, nf)))
        r = W.mod('bed').initialize(q, dict(ny=ny - 1, nx=nx - 1, nlayers=nl, nfractions=nf, bed_file=W.zeros((ny, nx)), ne_file=W.zeros((ny, nx)), layer_thickness=.1, grain_dist=np.ones(nf), bedcomp_file=comp, rhog=2650., porosity=.4, threshold_file=None))
        W.ensure('dumped-composition-reads-back', bool(np.allclose(r['mass'], v[ix]['mass'], rtol=1e-6, atol=1e-30)))
        W.call(m.dump, f, g, var='zb')
        z = np.loadtxt(g, ndmin=2)
        W.ensure('dumped-field-keeps-its-shape', z.shape == (ny, nx) and bool(np.allclose(z, v[-1]['zb'], rtol=1e-6)) or (z.size == ny * nx and 1 in (ny, nx)))
