# properties: R01
"""A model run from the configuration to the last time step."""
from engine.runner import *
from specs.state import runner, replace


def scratch():
    import os, tempfile
    return os.path.realpath(tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or '/tmp'))


class At:
    """working directory, quiet log and clean handlers while a run is observed"""
    def __init__(self, d): self.d = d

    def __enter__(self):
        import os, sys, io
        self.cwd, self.err = os.getcwd(), sys.stderr
        os.chdir(self.d)
        sys.stderr = io.StringIO()

    def __exit__(self, *a):
        import os, sys, logging, shutil
        sys.stderr = self.err
        os.chdir(self.cwd)
        for n in ('aeolis', 'aeolis.model', 'aeolis.inout', 'aeolis.console'):
            g = logging.getLogger(n)
            for h in list(g.handlers):
                g.removeHandler(h)
                h.close()
        shutil.rmtree(self.d, ignore_errors=True)


@contract('R01', 'model.run', functions=['model.run', 'model.parse_callback', 'model.finalize', 'model.set_params', 'model.get_current_time', 'model.get_start_time', 'model.get_end_time'], runs=200)
def run(W):
    import os
    d = scratch()
    cfg = os.path.join(d, 'case')
    os.mkdir(cfg)
    home = W.choice('started in', ['elsewhere', 'model directory'])
    start = cfg if home == 'model directory' else d
    ev = []
    ghost = dict(t=None)
    T0, T1 = W.real('tstart', typ=(0., 100.)), W.real('tstop', typ=(0., 400.))
    hot = W.real('t of the restart file', typ=(0., 400.))
    cb = W.choice('callback', ['none', 'argument', 'configuration'])
    rst = W.choice('restart', [None, 'state.r0000000010'])
    Base = W.mod('model').AeoLiSRunner
    seen = []

    def note(name):
        def f(m, *a, **k):
            ev.append(name)
            seen.append((name, os.getcwd(), a))
        return f

    def initialize(m, *a):
        note('initialize')(m, *a)
        m.t = T0

    def restart(m, f=None):
        note('restart')(m, f)
        if f is None:
            return False
        m.t = hot
        return True

    def update(m, *a):
        note('update')(m, *a)
        W.ensure('steps-only-until-the-end-time', W.le(m.t, m.p['tstop']))
        m.t = m.t + W.num(1) * step()
        ghost['steps'] = ghost.get('steps', 0) + 1

    def write(m, *a):
        note('write')(m, *a)
        ghost['t'] = m.t

    k = [0]

    def step():
        k[0] += 1
        return W.real('dt%d' % k[0], pos=True, lo=None if W.symbolic else 50, hi=None if W.symbolic else 200, typ=100.)
    C = type('Observed', (Base,), dict(initialize=initialize, load_hotstartfiles=note('hotstart'), load_restartfile=restart, update=update, output_write=write,
                                       print_progress=note('progress'), print_params=note('settings'), write_params=note('write settings'), print_stats=note('statistics'), finalize=note('finalize')))
    called = []

    def back(model):
        called.append((model, model.t))
        ev.append('callback')
    m = object.__new__(C)
    m.__dict__.update(t=W.num(0), dt=W.num(0), configfile=os.path.join(cfg, 'aeolis.txt'), l={}, s={}, p=dict(callback=back if cb == 'configuration' else None), c={}, t0=None, tout=W.num(0), tlog=0., plog=-1., trestart=W.num(0), n=0, o={}, changed=False, clear=False, cwd=None, dt_array=[])
    W.call(m.set_params, tstart=T0, tstop=T1)
    W.ensure('changed-settings-are-noticed', m.changed and set(m.p) == {'callback', 'tstart', 'tstop'})
    W.ensure('times-of-the-configuration', W.And(W.eq(m.get_start_time(), T0), W.eq(m.get_end_time(), T1)))
    want = ['callback'] * (cb != 'none') + ['update', 'write']
    only = lambda names: [q for q in ev if q in names]
    main = ('initialize', 'hotstart', 'restart', 'write', 'callback', 'update', 'finalize', 'statistics')
    before = ['initialize', 'hotstart', 'restart', 'write']

    def check(entry):
        W.ensure('initial-state-is-completed-and-written-before-the-first-step' if entry else 'each-step-calls-back-updates-and-writes', only(main) == (before if entry else want))
        W.ensure('the-present-state-is-written', W.eq(ghost['t'], m.t))
        if not entry:
            W.ensure('callback-sees-the-model-at-the-start-of-the-step', len(called) == (cb != 'none') and all(a is m for a, b in called))
            W.ensure('callback-sees-the-model-at-the-start-of-the-step', W.And(*[W.eq(b, ghost['t0']) for a, b in called]))
            W.ensure('nothing-else-changes', all(m.__dict__[q] is r or m.__dict__[q] == r for q, r in keep.items()))
    keep = {}

    def havoc():
        ev[:], called[:] = [], []
        m.t = ghost['t'] = ghost['t0'] = W.real('$t')
        keep.update({q: r for q, r in m.__dict__.items() if q != 't'})
    W.while_loop('run', 0, check, havoc)
    with At(d):
        os.chdir(start)
        W.call(m.run, **dict(dict(callback=back) if cb == 'argument' else {}, **(dict(restartfile=rst) if rst else {})))
        W.ensure('back-in-the-directory-it-was-started-in', os.getcwd() == start)
        if not W.symbolic:
            W.ensure('log-file-beside-the-configuration', sorted(os.listdir(cfg)) == ['aeolis.log'] and os.listdir(d) == ['case'])
    W.ensure('runs-in-the-directory-of-the-configuration', all(q == cfg for _, q, _ in seen))
    W.ensure('restart-file-passed-on', [a for n, _, a in seen if n == 'restart'] in ([(rst,)], [()] if rst is None else None))
    W.ensure('changed-settings-are-written-before-they-are-read', 'write settings' in ev[:ev.index('initialize')] if 'initialize' in ev else True)
    W.ensure('ends-after-the-end-time', W.gt(m.t, T1))
    if W.symbolic:
        W.ensure('finalized-after-the-last-step', only(main) == ['finalize', 'statistics'])
    else:
        n = ghost.get('steps', 0)
        W.ensure('each-step-calls-back-updates-and-writes', only(main) == before + want * n + ['finalize', 'statistics'])
        W.ensure('callback-sees-the-model-at-the-start-of-the-step', len(called) == (n if cb != 'none' else 0) and all(a is m for a, b in called))


@contract('R01', 'model.parse_callback', functions=['model.parse_callback'], sym=False, runs=60)
def callback(W):
    import os
    d = scratch()
    m = runner(W)
    kind = W.choice('callback', ['script', 'missing script', 'missing function', 'function', 'object', 'none', 'number', 'word'])
    with At(d):
        k = W.int('k', lo=0, hi=1000)
        with open('cb.py', 'w') as fp:
            fp.write('def other(model):\n    return -1\n\n\ndef mine(model):\n    return model.x + %d\n' % k)

        class Obj:
            x = 5
            def __call__(self, model): return model.x + k
        f = lambda model: model.x + k
        if kind == 'missing script':
            W.ensure('missing-script-is-reported', W.raises(IOError, m.parse_callback, 'nothing.py:mine'))
            return
        o = Obj()
        r = W.call(m.parse_callback, {'script': W.choice('path', ['cb.py', os.path.join(d, 'cb.py')]) + ':mine', 'missing function': 'cb.py:nothing', 'function': f, 'object': o, 'none': None, 'number': 3, 'word': 'cb'}[kind])
        if kind in ('function', 'object'):
            W.ensure('functions-are-used-as-they-are', r is (f if kind == 'function' else o))
        elif kind == 'script':
            W.ensure('function-of-the-script', callable(r) and r.__name__ == 'mine' and r(Obj()) == 5 + k)
        else:
            W.ensure('no-callback', r is None)


@contract('R01', 'model.initialize', functions=['model.initialize', 'model._dims2shape', 'model.dimensions', 'model.__init__', 'model.get_current_time', 'model.__enter__', 'model.__exit__', 'model.get_count', 'model._count'], bounded=[dict(ny=2, nx=2, nl=1, nf=2)], runs=100, dimcap=4)
def initialize(W):
    ny, nx, nl, nf = W.dim('ny'), W.dim('nx'), W.dim('nl'), W.dim('nf')
    one = W.choice('grid', ['rows', 'transect'])
    runner_ = W.choice('model', ['AeoLiS', 'AeoLiSRunner'])
    via = W.choice('by', ['initialize', 'with'])
    x = W.array('x', (nx,) if one == 'transect' else (ny, nx), typ=(0., 100.))
    T0 = W.real('tstart', typ=(0., 100.))
    p = dict(W.mod('constants').DEFAULT_CONFIG, xgrid_file=x, nlayers=nl, grain_size=W.array('d', (nf,), pos=True), tstart=T0, visualization=False, output_vars=['zb'], output_types=[], output_file='out.nc')
    ev = []

    def note(name, ret):
        def f(*a, **k):
            ev.append((name, a))
            return ret(*a)
        return f
    keep = lambda s, q: (s, q)
    same = lambda s, q: s
    for mod, nm, ret in (('inout', 'read_configfile', lambda f: p), ('inout', 'check_configuration', lambda q: None), ('gridparams', 'initialize', keep), ('bed', 'initialize', same), ('wind', 'initialize', same), ('vegetation', 'initialize', same), ('fences', 'initialize', same), ('netcdf', 'initialize', lambda *a: None)):
        replace(W, mod, nm, note(mod + '.' + nm, ret))
    C = getattr(W.mod('model'), runner_)
    m = object.__new__(C)
    if runner_ == 'AeoLiS':
        W.call(m.__init__, 'case.txt')
    else:
        m.__dict__.update(runner(W, s=W.mod('model').ModelState(), configfile='case.txt').__dict__)
    ended = []
    W_ = type('Observed', (C,), dict(finalize=lambda q: ended.append(q)))
    m.__class__ = W_
    if via == 'with':
        W.ensure('context-is-the-initialized-model', W.call(m.__enter__) is m and not ended)
        W.call(m.__exit__, None, None, None)
        W.ensure('context-is-finalized', ended == [m])
    else:
        W.call(m.initialize)
    names = [a for a, _ in ev]
    W.ensure('configuration-is-read-and-checked-first', names[:2] == ['inout.read_configfile', 'inout.check_configuration'] and ev[0][1] == ('case.txt',) and ev[1][1][0] is p)
    rest = ['gridparams.initialize', 'bed.initialize', 'wind.initialize', 'vegetation.initialize', 'fences.initialize']
    W.ensure('grid-then-bed-then-the-processes-on-it', names[2:4] == rest[:2] and sorted(names[4:7]) == sorted(rest[2:]) and names[7:] == ['netcdf.initialize'] * (runner_ != 'AeoLiS'))
    W.ensure('all-work-on-the-state-of-the-model', all(a[0] is m.s and a[1] is p for n, a in ev if n in rest))
    rows = 1 if one == 'transect' else ny
    W.ensure('numbers-of-cells-and-fractions-of-the-configuration', W.And(W.eq(m.p['nx'], nx - 1), W.eq(m.p['ny'], rows - 1), W.eq(m.p['nfractions'], nf), m.p is p))
    W.ensure('starts-at-the-start-time', W.And(W.eq(m.t, T0), W.eq(W.call(m.get_current_time), T0)))
    size = dict(ny=rows, nx=nx, nlayers=nl, nfractions=nf)
    D = W.call(C.dimensions)
    from_constants = {s: d for d, v in W.mod('constants').MODEL_STATE.items() for s in v}
    W.ensure('all-fields-of-the-model', set(m.s) == set(D) == set(from_constants) and set(m.l) == set(D))
    for k in sorted(D):
        want = tuple(size[q] for q in from_constants[k])
        W.ensure('named-dimensions', W.call(C.dimensions, k) == from_constants[k] and W.call(m.get_var_rank, k) == len(want))
        for a in (m.s[k], m.l[k]):
            W.ensure('shape-of-the-named-dimensions', W.And(len(a.shape) == len(want), *[W.eq(b, c) for b, c in zip(a.shape, want)]))
            W.forall(want, lambda *ix: W.eq(a[ix], 0), 'fields-start-empty')
        W.ensure('previous-fields-are-kept-apart', m.s[k] is not m.l[k])
    W.ensure('no-dimensions-of-unknown-fields', C.dimensions('nothing') is None)
    W.call(m._count, 'time')
    W.call(m._count, 'time', 4)
    W.ensure('counters', m.get_count('time') == 5 and m.get_count('nothing') == 0)


@contract('R01', 'model.write_params', functions=['model.__init__', 'model.set_configfile', 'model.set_params', 'model.write_params', 'inout.read_configfile', 'inout.write_configfile', 'inout.backup'], sym=False, runs=60)
def settings(W):
    """settings given from outside reach the model through the configuration file, the former file is kept"""
    import os
    np = W.np
    d = scratch()
    kind = W.choice('configuration', ['file', 'file in another directory', 'default', 'missing'])
    n = W.int('changes', lo=0, hi=2)
    with At(d):
        os.mkdir('case')
        name = 'case/aeolis.txt' if kind == 'file in another directory' else 'aeolis.txt'
        text = 'tstop = 77.\nxgrid_file = x.grd\nscheme = crank_nicolson\n'
        M = W.mod('model').AeoLiSRunner
        if kind == 'missing':
            W.ensure('missing-configuration-is-reported', W.raises(IOError, M, 'nothing.txt'))
            return
        if kind != 'default':
            with open(name, 'w') as fp:
                fp.write(text)
            with open(os.path.join(os.path.dirname(name), 'x.grd'), 'w') as fp:
                fp.write('0. 1. 2.\n')
        before = repr(W.mod('constants').DEFAULT_CONFIG)
        m = W.call(M, 'DEFAULT' if kind == 'default' else name)
        W.ensure('absolute-path', m.configfile == os.path.join(d, name))
        if kind == 'default':
            W.ensure('default-run-has-a-grid-bed-and-wind', len(m.p['xgrid_file']) == len(m.p['bed_file']) == m.p['nx'] + 1 and m.p['ny'] == 0 and np.shape(m.p['wind_file'])[1] == 3 and m.p['wind_file'][-1][0] >= m.p['tstop'])
            W.ensure('defaults-untouched', repr(W.mod('constants').DEFAULT_CONFIG) == before)
        else:
            W.ensure('settings-of-the-file', m.p['tstop'] == 77. and m.p['scheme'] == 'crank_nicolson' and m.p['xgrid_file'] == 'x.grd')
        v = [W.real('v%d' % q, lo=1, hi=1e6, typ=(1., 100.)) for q in range(n)]
        W.call(m.set_params, **dict(zip(['tstop', 'Cb'], v)))
        base = os.path.join(d, os.path.dirname(name))
        os.chdir(base)
        old = set(os.listdir('.'))
        W.call(m.write_params)
        new = set(os.listdir('.')) - old
        if kind != 'default' and n == 0:
            W.ensure('unchanged-settings-leave-the-file-alone', open('aeolis.txt').read() == text and not new)
        else:
            if kind != 'default':
                W.ensure('former-file-is-kept', len([q for q in new if open(q).read() == text]) == 1)
            p = W.call(W.mod('inout').read_configfile, m.configfile, kind == 'default')
            for q, a in zip(['tstop', 'Cb'], v):
                W.ensure('settings-given-reach-the-file', p[q] == a)
            if kind == 'default':
                W.ensure('default-run-reads-back', all(bool(np.all(np.asarray(p[q]) == m.p[q])) for q in ('xgrid_file', 'bed_file', 'wind_file')))
            else:
                W.ensure('other-settings-stay', p['scheme'] == 'crank_nicolson' and p['xgrid_file'] == 'x.grd' and (n > 0 or p['tstop'] == 77.))
            # once written, the next run leaves the file alone
            st = (open('aeolis.txt').read(), sorted(os.listdir('.')))
            W.call(m.write_params)
            W.ensure('written-once', st == (open('aeolis.txt').read(), sorted(os.listdir('.'))))


@contract('R01', 'console.run', functions=['console.run', 'console.wind', 'console.examples', 'model.run', 'model.print_progress', 'model.print_params', 'model.print_stats', 'netcdf.append'], sym=False, runs=12, timeout=200)
def console(W):
    """the command line: a whole run of the model, with the output at the requested times"""
    import os, io, contextlib
    from aeolis import console as C
    import netCDF4
    np = W.np
    d = scratch()
    what = W.choice('command', ['run', 'run', 'run', 'wind', 'examples'])
    cb = W.choice('callback', [None, 'cb.py:mine'])
    nout = W.choice('output every', [1, 2])
    u = W.real('wind', lo=0, hi=20, typ=(0., 12.))
    T = W.choice('tstop', [3., 4.]) * 60
    with At(d):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if what == 'wind':
                W.call(C.wind, 'w.txt', mean=8., max=20., duration=600, timestep=60)
                a = np.loadtxt('w.txt')
                W.ensure('wind-file', a.shape[1] == 3 and a[-1, 0] >= 600 and bool((a[:, 1] <= 20).all() and (a[:, 1] >= 0).all()))
                return
            if what == 'examples':
                W.call(C.examples, 'ex')
                found = sorted(os.listdir('ex/aeolis-examples'))
                W.ensure('examples-are-copied', found == ['Parabolic_dune', 'sandengine_small_grids'] and all(any(f.endswith('.txt') for f in os.listdir('ex/aeolis-examples/' + q)) for q in found))
                return
            os.mkdir('case')
            nx = 5
            np.savetxt('case/x.grd', np.arange(nx) * 2.)
            np.savetxt('case/z.grd', np.full(nx, 1.) + .1 * np.arange(nx))
            np.savetxt('case/wind.txt', [[0., u, 0.], [T + 300., u, 0.]])
            with open('case/cb.py', 'w') as fp:
                fp.write("def mine(model):\n    with open('calls.txt', 'a') as fp:\n        fp.write('%r\\n' % model.t)\n")
            with open('case/aeolis.txt', 'w') as fp:
                fp.write('xgrid_file = x.grd\nbed_file = z.grd\nwind_file = wind.txt\ntide_file = None\nwave_file = None\nprocess_tide = F\nprocess_wave = F\nprocess_runup = F\nprocess_moist = F\nth_moisture = F\nprocess_mixtoplayer = F\n'
                         'tstart = 0.\ntstop = %r\ndt = 60.\noutput_times = %r\noutput_vars = zb uw\noutput_types = avg max\nnlayers = 1\ngrain_size = 0.0002\ngrain_dist = 1.\n' % (T, 60. * nout))
            W.call(C.run, 'case/aeolis.txt', callback=cb, restart=None)
        W.ensure('back-in-the-directory-it-was-started-in', os.getcwd() == d and os.listdir(d) == ['case'])
        with netCDF4.Dataset('case/aeolis.nc') as nc:
            t, z, ua, um = [np.array(nc.variables[q][:]) for q in ('time', 'zb', 'uw_avg', 'uw_max')]
        steps = np.arange(0., T + 61., 60.)
        want = [0.] + [q for q in steps[1:] if (q / 60) % nout == 0]
        W.ensure('output-at-the-requested-times', list(t) == want)
        W.ensure('statistics-of-the-wind', bool(np.allclose(ua[1:], u, rtol=1e-5) and np.allclose(um[1:], u, rtol=1e-5)))
        W.ensure('bed-stays-defined', bool(np.isfinite(z).all()) and bool(np.allclose(z[0, 0], 1. + .1 * np.arange(nx), rtol=1e-6)))
        if cb:
            W.ensure('callback-at-the-start-of-every-step', [float(q) for q in open('case/calls.txt')] == list(steps[:-1]))
        W.ensure('log-beside-the-configuration', os.path.exists('case/aeolis.log'))
