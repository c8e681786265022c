# properties: M03 M04 M05
"""Output statistics, access to the model state, restart."""
from engine.runner import *


def runner(W, cls='AeoLiSRunner', **k):
    c = getattr(W.mod('model'), cls)
    m = object.__new__(c)
    d = dict(t=W.num(0), dt=W.num(0), configfile='', l={}, s={}, p={}, c={}, t0=None, tout=W.num(0), tlog=0., plog=-1., trestart=W.num(0), n=0, o={}, changed=False, clear=False, cwd=None)
    d.update(k)
    m.__dict__.update(d)
    return m


def fields(W, ny, nx, nf, tag=''):
    return dict(zb=W.array('zb' + tag, (ny, nx), typ=(-5., 5.)), Ct=W.array('Ct' + tag, (ny, nx, nf), lo=0, typ=(0., 1.)), qs=W.array('qs' + tag, (ny, nx, nf), typ=(-1., 1.)), qn=W.array('qn' + tag, (ny, nx, nf), typ=(-1., 1.)), moist_swr=W.array('moist_swr' + tag, (ny, nx), lo=0, typ=(0., 1.)))


@contract('M03', 'model.output_update', functions=['model.output_update', 'model.output_clear', 'model.get_statistic', 'model.get_var', 'model.get_var_shape'], bounded=[dict(ny=1, nx=2, nf=1)], runs=300)
def stats(W):
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    nsteps = W.choice('steps', [1, 2, 3, 0])
    exts = ['min', 'max', 'sum', 'avg', 'var']
    only = W.choice('types', ['all', 'avg', 'var'])
    if only != 'all':
        exts = [only]
    acc = W.real('accfac', lo=1, hi=10, typ=(1., 5.))
    st = [fields(W, ny, nx, nf, '_%d' % k) for k in range(nsteps + 1)]
    m = runner(W, s=dict(st[0], q=W.array('q', (ny, nx, nf), lo=0, typ=(0., 1.))), p=dict(accfac=acc, _output_vars={k: [None] + exts for k in ('zb', 'Ct', 'moist_swr', 'q')}))
    # statistics of an earlier interval have to be gone
    m.o = {'zb': dict(min=W.full((ny, nx), -99.), max=W.full((ny, nx), 99.), sum=W.full((ny, nx), 5.), var=W.full((ny, nx), 5.))}
    m.n = 7
    W.call(m.output_clear)
    for k in range(nsteps):
        m.s.update({a: W.copy(b) for a, b in st[k + 1].items()})
        W.call(m.output_update)
    W.ensure('number-of-steps', m.n == nsteps)
    for v, dims, f in (('zb', (ny, nx), 1), ('Ct', (ny, nx, nf), acc), ('moist_swr', (ny, nx), 1), ('q', (ny, nx, nf), 1)):
        H = lambda k, ix: W.np.hypot(st[k]['qs'][ix], st[k]['qn'][ix]) if v == 'q' else st[k][v][ix] / f
        out = {e: W.call(m.get_var, v + '_' + e) for e in exts}
        for e in exts:
            r = out[e]

            def val(*ix):
                h = [H(k, ix) for k in range(1, nsteps + 1)]
                if e == 'sum':
                    return W.eq(r[ix], sum(h) if h else 0, scale=1e-3)
                if e == 'avg':
                    return W.eq(r[ix], sum(h) / len(h) if h else 0, scale=1e-3)
                if e == 'var':
                    a = sum(h) / len(h) if h else 0
                    return W.eq(r[ix], sum((x - a) * (x - a) for x in h) / (len(h) - 1) if len(h) > 1 else 0, scale=1e-3)
                if not h:
                    return True
                b = h[0]
                for x in h[1:]:
                    b = W.min(b, x) if e == 'min' else W.max(b, x)
                return W.eq(r[ix], b)
            W.forall(dims, val, 'statistic-of-all-steps-since-the-last-output')
    if nsteps:
        W.forall((ny, nx, nf), lambda i, j, k: W.eq(m.s['q'][i, j, k] * m.s['q'][i, j, k], st[-1]['qs'][i, j, k] * st[-1]['qs'][i, j, k] + st[-1]['qn'][i, j, k] * st[-1]['qn'][i, j, k], scale=1e-3), 'transport-magnitude')


def replace(W, mod, name, fn):
    if W.symbolic:
        W.stub(mod, name, fn)
    else:
        W.patch(W.mod(mod), name, fn)


@contract('M03', 'model.output_write', functions=['model.output_write', 'model.output_clear', 'model.get_statistic', 'model.get_var'], bounded=[dict(ny=1, nx=2, nf=1)], runs=300)
def write(W):
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    acc, n = W.real('accfac', lo=1, hi=10, typ=(1., 5.)), 3
    s = fields(W, ny, nx, nf)
    t = W.num(0) if W.choice('start', [False, True]) else W.real('t', pos=True, typ=(1., 200.))
    tout, trestart = W.real('tout', lo=0, typ=(0., 100.)), W.real('trestart', lo=0, typ=(0., 100.))
    W.assume(W.And(W.le(tout, t), W.le(trestart, t)))
    rs = W.real('restart', pos=True, typ=(1., 100.)) if W.choice('restarts', [False, True]) else None
    m = runner(W, s=s, t=t, tout=tout, trestart=trestart, n=n, p=dict(accfac=acc, output_times=W.real('interval', pos=True, typ=(1., 100.)), restart=rs, output_file='o.nc', _output_vars={'zb': [None, 'avg', 'min'], 'Ct': [None, 'sum']}))
    m.o = {k: {q: W.array('%s_%s' % (k, q), d, typ=(-1., 1.)) for q in ('min', 'max', 'sum', 'var')} for k, d in (('zb', (ny, nx)), ('Ct', (ny, nx, nf)))}
    old = {k: {q: W.copy(v) for q, v in d.items()} for k, d in m.o.items()}
    out, dumps = [], []
    replace(W, 'netcdf', 'append', lambda f, v: out.append((f, {k: W.copy(x) for k, x in v.items()})))
    m.dump_restartfile = lambda: dumps.append(1)
    W.call(m.output_write)
    due = W.Or(W.ge(t - tout, m.p['output_times']), W.eq(t, 0))
    W.ensure('output-exactly-when-the-interval-has-passed', W.Implies(due, len(out) == 1))
    W.ensure('output-exactly-when-the-interval-has-passed', W.Implies(W.Not(due), len(out) == 0))
    rdue = W.ge(t - trestart, rs) if rs is not None else False
    W.ensure('restart-file-exactly-when-its-interval-has-passed', W.Implies(rdue, len(dumps) == 1))
    W.ensure('restart-file-exactly-when-its-interval-has-passed', W.Implies(W.Not(rdue), len(dumps) == 0))
    W.ensure('time-of-the-last-restart-file', W.eq(m.trestart, t if dumps else trestart))
    W.ensure('time-of-the-last-output', W.eq(m.tout, t if out else tout))
    W.ensure('statistics-restart-after-output-only', m.n == (0 if out else n))
    if out:
        f, v = out[0]
        W.ensure('fields-written', f == 'o.nc' and set(v) == {'time', 'zb', 'zb_avg', 'zb_min', 'Ct', 'Ct_sum'})
        W.ensure('time-written', W.eq(v['time'], t))
        W.forall((ny, nx), lambda i, j: W.And(W.eq(v['zb'][i, j], s['zb'][i, j]), W.eq(v['zb_avg'][i, j], old['zb']['sum'][i, j] / n), W.eq(v['zb_min'][i, j], old['zb']['min'][i, j])), 'values-written')
        W.forall((ny, nx, nf), lambda i, j, k: W.And(W.eq(v['Ct'][i, j, k], s['Ct'][i, j, k] / acc), W.eq(v['Ct_sum'][i, j, k], old['Ct']['sum'][i, j, k])), 'values-written')


@contract('M03', 'model.output_init', functions=['model.output_init', 'utils.makeiterable'], bounded=[dict(ny=1, nx=1, nf=1)], runs=200)
def oinit(W):
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    vs = W.choice('vars', [['zb'], ['zb', 'Ct_avg'], ['zb_max', 'zb', 'moist_swr'], ['moist_swr_avg', 'Ct', 'Ct_sum']])
    ts = W.choice('types', [[], ['avg'], ['max', 'sum']])
    single = W.choice('single', [False, True]) and len(vs) == 1
    m = runner(W, s=fields(W, ny, nx, nf), p=dict(output_vars=vs[0] if single else list(vs), output_types=(ts[0] if len(ts) == 1 and single else list(ts)) or None, output_file='o.nc', accfac=W.num(1)))
    calls = []
    replace(W, 'netcdf', 'initialize', lambda f, v, s_, p_, d: calls.append((f, v)))
    if W.symbolic:
        W.stub('model', 'makeiterable', lambda x: [] if x is None else [x] if isinstance(x, str) else x)
    m.dimensions = lambda: {}
    W.call(m.output_init)
    want = {}
    for v in vs:
        v0, e = (v, None) if v in m.s else v.rsplit('_', 1)
        for q in [e] + ts:
            want.setdefault(v0, set()).add(q)
    got = m.p['_output_vars']
    W.ensure('each-variable-with-its-requested-statistics-once', set(got) == set(want) and all(len(list(got[k])) == len(set(got[k])) and set(got[k]) == want[k] for k in want))
    W.ensure('output-file-created-for-them', len(calls) == 1 and calls[0][0] == 'o.nc' and set(calls[0][1]) == set(want))
    W.ensure('statistics-start-empty', m.n == 0 and set(m.o) == set(want))


@contract('M04', 'model.get_set', functions=['model.get_var', 'model.set_var', 'model.set_var_index', 'model.get_var_name', 'model.get_var_shape', 'model.get_var_rank', 'model.get_var_type', 'model.get_var_count', 'model.__setitem__', 'model.set_immutable', 'model.set_mutable'], bounded=[dict(ny=1, nx=2, nf=1)], runs=300)
def getset(W):
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    cls = W.choice('class', ['AeoLiS', 'AeoLiSRunner'])
    MS = W.mod('model').ModelState
    ms = MS()
    f = fields(W, ny, nx, nf)
    for k, v in f.items():
        ms[k] = v
    acc = W.real('accfac', lo=1, hi=10, typ=(1., 5.))
    m = runner(W, cls, s=ms, p=dict(accfac=acc, tstart=W.real('t0'), tstop=W.real('t1'), grain_size=W.array('gs', (nf,), pos=True), max_bedlevel_change=W.real('mx')), t=W.real('tc'))
    if cls == 'AeoLiSRunner' and W.choice('stats', [False, True]):
        m.o = {'zb': {'sum': W.zeros((ny, nx))}}
    W.ensure('clock-and-period', W.And(W.eq(m.get_current_time(), m.t), W.eq(m.get_start_time(), m.p['tstart']), W.eq(m.get_end_time(), m.p['tstop'])))
    for k in ('zb', 'moist_swr', 'Ct'):
        r = W.copy(W.call(m.get_var, k))
        a = acc if k == 'Ct' else 1
        W.forall((ny, nx, nf) if k == 'Ct' else (ny, nx), lambda *ix: W.eq(r[ix], f[k][ix] / a), 'field-by-name')
    W.ensure('parameter-by-name', W.And(W.call(m.get_var, 'grain_size') is m.p['grain_size'], W.eq(W.call(m.get_var, 'tstop'), m.p['tstop']), W.eq(W.call(m.get_var, 'max_bedlevel_change'), m.p['max_bedlevel_change'])))
    W.ensure('unknown-name', m.get_var('nothing_there') is None and m.get_var('nope') is None and m.get_var_shape('nope') == -1 and m.get_var_rank('nope') == -1 and m.get_var_type('nope') == -1 and m.get_var_name(len(f)) == -1)
    W.ensure('names-in-alphabetical-order', m.get_var_count() == len(f) and [m.get_var_name(i) for i in range(len(f))] == sorted(f))
    W.ensure('shapes', W.And(m.get_var_rank('Ct') == 3, m.get_var_rank('zb') == 2, W.eq(m.get_var_shape('Ct')[2], nf), W.eq(m.get_var_shape('zb')[0], ny), W.eq(m.get_var_shape('zb')[1], nx)))
    k = W.choice('target', ['zb', 'moist_swr', 'Ct'])
    lock = W.choice('lock', ['no', 'locked', 'released'])
    if lock != 'no':
        ms.set_immutable(k)
    if lock == 'released':
        ms.set_mutable(k)
    new = W.array('new', (ny, nx), typ=1.)
    first = W.array('first', (ny, nx), typ=2.)
    how = W.choice('how', ['name', 'index', 'update'])
    # an attempt to set a field does not change whether it can be set
    before = set(ms.ismutable) if hasattr(ms, 'ismutable') else None
    for v in (first, new):
        if how == 'name':
            W.call(m.set_var, k, v)
        elif how == 'index':
            W.call(m.set_var_index, sorted(f).index(k), v)
        else:
            ms.update({k: v})
    if before is not None:
        W.ensure('setting-keeps-mutability', set(ms.ismutable) == before)
    if how == 'update':
        ms.update({'w': new})
        W.ensure('new-fields-are-added', ms['w'] is new)
    W.ensure('only-the-addressed-field-changes-and-only-if-mutable', all((ms[q] is new) if q == k and lock != 'locked' else (ms[q] is f[q]) for q in f))
    m.set_var('tstop', W.num(5))
    m.set_var('nope', W.num(5))
    W.ensure('parameters-are-set-by-name', W.And(W.eq(m.p['tstop'], 5), 'nope' not in m.p, 'nope' not in ms, 'tstop' not in ms))


@contract('M05', 'model.restart', functions=['model.dump_restartfile', 'model.load_restartfile'], bounded=[dict(ny=1, nx=2, nf=1)], runs=200)
def restart(W):
    import os, tempfile
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or '/tmp')
    store = []
    if W.symbolic:
        W.hook('pickle.dump', lambda o, fp, *a, **k: store.append(o))
        W.hook('pickle.load', lambda fp, *a, **k: store[-1])
    MS = W.mod('model').ModelState
    ms = MS()
    f = fields(W, ny, nx, nf)
    for k, v in f.items():
        ms[k] = v
    lock = W.choice('lock', [None, 'zb', 'Ct'])
    if lock:
        ms.set_immutable(lock)
    tt = W.choice('t', [0., 12., 3600.5])
    l = {k: W.copy(v) for k, v in fields(W, ny, nx, nf, 'l').items()}
    m = runner(W, s=ms, l=l, t=tt, c={'time': 3, 'matrixsolve': 7}, p=dict(output_file=os.path.join(d, 'out.nc'), nx=nx - 1, ny=ny - 1, dt=W.real('dt', pos=True), scheme='trunk', wind_file=W.array('wf', (nx, 3))))
    try:
        W.call(m.dump_restartfile)
        fname = os.path.join(d, 'out.r%010d' % int(tt))
        W.ensure('file-named-after-the-output-and-the-time', os.listdir(d) == ['out.r%010d' % int(tt)])
        m2 = runner(W, s=MS(), p=dict(output_file='other.nc'))
        W.ensure('a-missing-restart-file-is-reported', W.raises(IOError, m2.load_restartfile, os.path.join(d, 'nothing')))
        W.ensure('no-restart-file-asked-for', not m2.load_restartfile(None) and m2.p['output_file'] == 'other.nc')
        ok = W.call(m2.load_restartfile, fname)
        W.ensure('restart-file-is-loaded', bool(ok) and m2.t == tt and m2.trestart == tt and m2.c == {'time': 3, 'matrixsolve': 7})
        W.ensure('all-fields-restored', set(m2.s) == set(f) and set(m2.l) == set(l) and set(m2.p) == set(m.p) and m2.p['scheme'] == 'trunk')
        for k, v in f.items():
            dims = (ny, nx, nf) if k in ('Ct', 'qs', 'qn') else (ny, nx)
            W.forall(dims, lambda *ix: W.And(W.same(m2.s[k][ix], v[ix]), W.same(m2.l[k][ix], l[k][ix])), 'all-fields-restored')
        W.ensure('parameters-restored', W.eq(m2.p['dt'], m.p['dt']))
        new = W.array('new', (ny, nx), typ=1.)
        for k in f:
            m2.s[k] = new
            W.ensure('immutable-fields-stay-immutable', (m2.s[k] is new) == (k != lock))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


@contract('M05', 'model.load_hotstartfiles', functions=['model.load_hotstartfiles'], sym=False, runs=120)
def hotstart(W):
    import os, tempfile, shutil
    ny, nx, nf = W.dim('ny'), W.dim('nx'), W.dim('nf')
    np = W.np
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or '/tmp')
    cwd = os.getcwd()
    ms = W.mod('model').ModelState()
    f = fields(W, ny, nx, nf)
    for k, v in f.items():
        ms[k] = v
    hot = {k: v for k, v in fields(W, ny, nx, nf, 'hot').items() if W.choice('hot_' + k, [True, False])}
    m = runner(W, s=ms)
    try:
        os.chdir(d)
        for k, v in hot.items():
            np.savetxt(k + '.hotstart', v.reshape((v.shape[0], -1)), fmt='%.17g')
        with open('unknown.hotstart', 'w') as fp:
            fp.write('1.\n')
        W.call(m.load_hotstartfiles)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    W.ensure('only-known-fields', set(m.s) == set(f))
    for k in f:
        want = hot.get(k, f[k])
        W.ensure('fields-from-the-hotstart-files', m.s[k].shape == want.shape and bool(np.all(m.s[k] == want)))
        m.s[k] = 0
        W.ensure('hotstarted-fields-are-not-overwritten', (np.ndim(m.s[k]) == 0) == (k not in hot))
