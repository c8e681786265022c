# properties: M01 M02
"""Time stepping and orchestration of the model."""
from engine.runner import *


def replace(W, mod, name, fn):
    """stand-in for a callee, in every world"""
    if W.symbolic:
        W.stub(mod, name, fn)
    else:
        W.patch(W.mod(mod), name, fn)


class Self:
    """a model: its attributes; methods are those of the class under verification"""
    def __init__(self, cls, **k):
        self.__dict__.update(k)
        self.__dict__['_cls'] = cls

    def __getattr__(self, k):
        f = getattr(self.__dict__['_cls'], k)
        return lambda *a, **kw: f(self, *a, **kw)


@contract('M01', 'model.set_timestep', functions=['model.set_timestep'], bounded=[dict(ny=1, nx=2)], runs=600)
def timestep(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    case = W.choice('request', ['default', 'given', 'skip'])
    dt = {'default': W.real('dt0', lo=-1, hi=0, typ=(-1., 0.)), 'given': W.real('dt1', pos=True, typ=(.1, 100.)), 'skip': -1 - W.real('dt2', pos=True, typ=1.)}[case]
    scheme = W.choice('scheme', ['euler_forward', 'euler_backward', 'crank_nicolson'])
    lim = W.choice('limit', [False, True])
    calm = W.choice('calm', [False, True])
    s = dict(uws=W.zeros((ny, nx)) if calm else W.array('uws', (ny, nx), typ=(-10., 10.)), uwn=W.zeros((ny, nx)) if calm else W.array('uwn', (ny, nx), typ=(-10., 10.)),
             ds=W.array('ds', (ny, nx), pos=True, typ=1.), dn=W.array('dn', (ny, nx), pos=True, typ=1.), dzb=W.array('dzb', (ny, nx), typ=(-.1, .1)))
    p = dict(dt=W.real('pdt', pos=True, typ=(1., 100.)), scheme=scheme, CFL=W.real('CFL', typ=(-.2, 2.)), max_bedlevel_change=W.real('dmax', pos=True, hi=998, typ=(.01, 1.)) if lim else 999., dt_opt=W.num(7))
    mod = W.mod('model')
    m = Self(mod.AeoLiS, s=s, p=p, t=W.real('t', lo=0, typ=10.), dt=W.num(5), dt_prev=W.real('dtp', typ=(-3., 50.)), l={}, c={})
    t0, cfl, dtp = m.t, p['CFL'], m.dt_prev
    r = W.call(mod.AeoLiS.set_timestep, m, dt)
    if case == 'skip':
        W.ensure('skipping-advances-the-clock-without-computing', W.And(not r, W.eq(m.t, t0 - dt), W.eq(p['dt_opt'], 7)))
        return
    W.ensure('clock-untouched', W.eq(m.t, t0))
    want = dt if case == 'given' else p['dt']
    W.ensure('at-most-the-requested-step', W.And(W.gt(m.dt, 0), W.le(m.dt, want)))
    cmax = lambda u, d: W.maxover((ny, nx), lambda i, j: W.abs(s[u][i, j]) / s[d][i, j])
    explicit = scheme == 'euler_forward'
    if explicit and calm:
        W.ensure('no-step-without-wind', W.Implies(W.gt(cfl, 0), W.And(not r, W.le(m.dt, 1))))
    if not r:
        W.ensure('refused-only-for-an-explicit-scheme-without-wind', W.And(explicit, W.gt(cfl, 0), W.all((ny, nx), lambda i, j: W.And(W.eq(s['uws'][i, j], 0), W.eq(s['uwn'][i, j], 0)))))
        return
    W.ensure('step-is-registered', W.eq(p['dt_opt'], m.dt))
    if explicit:
        W.forall((ny, nx), lambda i, j: W.Implies(W.gt(cfl, 0), W.le(m.dt * (W.abs(s['uws'][i, j]) / s['ds'][i, j] + W.abs(s['uwn'][i, j]) / s['dn'][i, j]), cfl)), 'courant-number-within-limit')
        ref = cmax('uws', 'ds') + cmax('uwn', 'dn')
    if lim:
        W.forall((ny, nx), lambda i, j: W.Implies(W.gt(dtp, 0), W.le(m.dt * W.abs(s['dzb'][i, j]), dtp * p['max_bedlevel_change'])), 'bed-level-change-within-limit')
    if not explicit and not lim:
        W.ensure('the-requested-step', W.eq(m.dt, want))
    if explicit and not lim:
        W.ensure('the-largest-stable-step', W.Or(W.eq(m.dt, want), W.And(W.gt(cfl, 0), W.eq(m.dt * ref, cfl))))
    if lim and not explicit:
        W.ensure('the-largest-step-within-the-limit', W.Or(W.eq(m.dt, want), W.eq(m.dt * W.maxover((ny, nx), lambda i, j: W.abs(s['dzb'][i, j])), dtp * p['max_bedlevel_change'])))


VEC = ('taus', 'taus0', 'ustars', 'ustars0', 'uws')
PAIR = {'taus': 'taun', 'taus0': 'taun0', 'ustars': 'ustarn', 'ustars0': 'ustarn0', 'uws': 'uwn'}


def vectors(W, ny, nx, nf):
    s = {k: W.array(k, (ny, nx), typ=(-5., 5.)) for k in ('x', 'y', 'udir') + VEC + tuple(PAIR.values())}
    for k in ('qs', 'qn'):
        s[k] = W.array(k, (ny, nx, nf), typ=(-1., 1.))
    return s


def turned(W, a, b, ang, ox=0, oy=0):
    """clockwise turn by ang degrees about an origin"""
    r = ang / 180 * W.pi
    c, n = W.cos(r), W.sin(r)
    return ox + c * (a - ox) + n * (b - oy), oy - n * (a - ox) + c * (b - oy)


@contract('M02', 'model.grid_rotate', functions=['model.grid_rotate', 'utils.rotate'], bounded=[dict(ny=2, nx=2, nf=1)], runs=300)
def gridrotate(W):
    ny, nx = W.dim('ny'), W.dim('nx')
    nf = 2
    s = vectors(W, ny, nx, nf)
    al = W.real('alpha', typ=(-180., 180.))
    s0 = {k: W.copy(v) for k, v in s.items()}
    mod = W.mod('model')
    m = Self(mod.AeoLiS, s=s, p=dict(nfractions=nf, nx=nx - 1, ny=ny - 1))
    r = W.call(mod.AeoLiS.grid_rotate, m, al)
    mean = lambda k: W.sum((ny, nx), lambda i, j: s0[k][i, j]) / (ny * nx)
    mx, my = mean('x'), mean('y')
    r1 = {k: W.copy(v) for k, v in m.s.items()}
    for a, b, q in [(k, PAIR[k], 0) for k in VEC] + [('x', 'y', 1)]:
        def vec(i, j):
            u, v = turned(W, s0[a][i, j], s0[b][i, j], al, mx if q else 0, my if q else 0)
            return W.And(W.eq(r1[a][i, j], u, scale=1e-3), W.eq(r1[b][i, j], v, scale=1e-3))
        W.forall((ny, nx), vec, 'turned-by-the-angle')
    def vec(i, j, k):
        u, v = turned(W, s0['qs'][i, j, k], s0['qn'][i, j, k], al)
        return W.And(W.eq(r1['qs'][i, j, k], u, scale=1e-3), W.eq(r1['qn'][i, j, k], v, scale=1e-3))
    W.forall((ny, nx, nf), vec, 'turned-by-the-angle')
    W.forall((ny, nx), lambda i, j: W.eq(r1['udir'][i, j], s0['udir'][i, j] + al), 'wind-direction-turned-along')


STEPS = [('wind', 'interpolate'), ('wind', 'shear'), ('fences', 'update_fences'), ('vegetation', 'vegshear'), ('hydro', 'interpolate'), ('hydro', 'update'), ('bed', 'mixtoplayer'), ('threshold', 'compute'),
         ('transport', 'equilibrium'), ('bed', 'update'), ('avalanching', 'angele_of_repose'), ('avalanching', 'avalanche'), ('bed', 'wet_bed_reset'), ('bed', 'average_change'), ('erosion', 'run_ph12'),
         ('vegetation', 'germinate'), ('vegetation', 'grow')]
# what has to precede what: each process reads what the earlier one writes
ORDER = [('wind.interpolate', 'wind.shear'), ('wind.shear', 'fences.update_fences'), ('fences.update_fences', 'vegetation.vegshear'), ('vegetation.vegshear', 'threshold.compute'), ('wind.shear', 'threshold.compute'),
         ('hydro.interpolate', 'hydro.update'), ('hydro.update', 'bed.mixtoplayer'), ('hydro.update', 'threshold.compute'), ('bed.mixtoplayer', 'threshold.compute'), ('threshold.compute', 'transport.equilibrium'),
         ('vegetation.vegshear', 'transport.equilibrium'), ('transport.equilibrium', 'solve'), ('solve', 'bed.update'), ('bed.update', 'avalanching.avalanche'), ('avalanching.angele_of_repose', 'avalanching.avalanche'),
         ('avalanching.avalanche', 'bed.wet_bed_reset'), ('bed.wet_bed_reset', 'bed.average_change'), ('bed.average_change', 'erosion.run_ph12'), ('erosion.run_ph12', 'vegetation.grow'), ('solve', 'erosion.run_ph12'),
         ('bed.update', 'vegetation.grow'), ('vegetation.vegshear', 'vegetation.grow'), ('vegetation.germinate', 'vegetation.grow')]


def step(W, calm, scheme='euler_backward', dt=-1.):
    ny, nx, nf = W.dim('ny', 2), W.dim('nx', 2), 1
    mod = W.mod('model')
    s = vectors(W, ny, nx, nf)
    for k in ('zb', 'dzbavg', 'uw', 'ds', 'dn', 'dzb', 'uw1', 'uws1', 'uwn1', 'Cu1', 'zb1'):
        s[k] = W.array(k, (ny, nx), pos=k in ('uw', 'uw1', 'ds', 'dn'), typ=1.)
    new = {k: s.pop(k + '1') for k in ('uw', 'uws', 'uwn', 'Cu', 'zb')}
    if calm:
        new.update({k: W.zeros((ny, nx)) for k in ('uw', 'uws', 'uwn')})
    else:
        W.assume(W.gt(W.sum((ny, nx), lambda i, j: new['uw'][i, j]), 0))
        W.assume(W.Not(W.eq(new['uws'][0, 0], 0)))
    for k in ('Cu', 'Ct'):
        s[k] = W.array(k, (ny, nx, nf), lo=0, typ=.1)
    sw = {k: W.choice(k, [True, False]) for k in ('process_fences', 'process_vegetation', 'process_dune_erosion')} if scheme == 'euler_backward' and not calm else dict(process_fences=False, process_vegetation=True, process_dune_erosion=True)
    p = dict(sw, nfractions=nf, nx=nx - 1, ny=ny - 1, alpha=W.real('alpha', typ=(-180., 180.)), dt=W.real('pdt', pos=True, typ=10.), scheme=scheme, solver='trunk', CFL=W.real('CFL', pos=True, typ=1.),
             max_bedlevel_change=999., accfac=W.real('accfac', lo=1, hi=10, typ=(1., 3.)), visualization=False)
    t0 = W.real('t', lo=0, typ=100.)
    log = []
    m = Self(mod.AeoLiS, s=s, l={}, p=p, c={}, t=t0, dt=W.num(3), dt_prev=W.num(0), windy=not calm)
    old = {k: W.copy(v) for k, v in s.items()}
    seen = []

    def stand(mod_, name):
        def f(s_, *a, **k):
            first = s_
            if mod_ == 'bed' and name == 'average_change':
                W.forall((ny, nx), lambda i, j: W.And(W.same(s_['zb'][i, j], old['zb'][i, j]), W.same(s_['dzbavg'][i, j], old['dzbavg'][i, j])), 'rates-of-change-refer-to-the-state-before-the-step')
                first = a[0]
            log.append(mod_ + '.' + name)
            if mod_ == 'wind' and name == 'interpolate':
                W.ensure('wind-of-the-current-time', W.eq(a[1], t0))
                for q in ('uw', 'uws', 'uwn'):
                    first[q] = W.copy(new[q])
            elif mod_ == 'hydro' and name == 'interpolate':
                W.ensure('water-levels-of-the-current-time', W.eq(a[1], t0))
            elif mod_ == 'hydro' and name == 'update':
                W.ensure('moisture-over-the-time-step', W.And(W.eq(a[1], m.dt), W.eq(a[2], t0)))
            elif mod_ == 'transport':
                first['Cu'] = new['Cu'].reshape((ny, nx, 1)) if nf == 1 else None
            elif mod_ == 'bed' and name == 'update':
                first['zb'] += new['zb']
                first['dzbavg'] += new['zb']
            elif mod_ == 'wind' and name == 'shear':
                mean = lambda k: W.sum((ny, nx), lambda i, j: old[k][i, j]) / (ny * nx)
                mx, my = mean('x'), mean('y')
                X, Y = W.copy(first['x']), W.copy(first['y'])

                def al(i, j):
                    u, v = turned(W, old['x'][i, j], old['y'][i, j], p['alpha'], mx, my)
                    return W.And(W.eq(X[i, j], u, scale=1e-3), W.eq(Y[i, j], v, scale=1e-3))
                W.forall((ny, nx), al, 'processes-act-on-the-grid-aligned-with-its-axes')
            return first
        return f
    for a, b in STEPS:
        replace(W, a, b, stand(a, b))

    def solve(*a, **k):
        log.append('solve')
        W.forall((ny, nx), lambda i, j: W.And(W.same(m.l['Ct'][i, j, 0], old['Ct'][i, j, 0]), W.same(m.l['Cu'][i, j, 0], old['Cu'][i, j, 0])), 'the-scheme-starts-from-the-previous-concentrations')
        return dict(Ct=W.zeros((ny, nx, nf)))
    m.solve = solve
    return m, log, old, t0, ny, nx, dt, mod


@contract('M02', 'model.update/steps', functions=['model.update', 'model.grid_rotate', 'model.set_timestep', 'model.euler_backward'], bounded=[dict(ny=2, nx=2)], runs=200)
def steps(W):
    m, log, old, t0, ny, nx, dt, mod = step(W, W.choice('calm', [False, True]))
    W.call(mod.AeoLiS.update, m)
    finish(W, m, log, old, t0, ny, nx)


def finish(W, m, log, old, t0, ny, nx):
    p = m.p
    want = {'wind.interpolate': 1, 'hydro.interpolate': 1, 'hydro.update': 1, 'bed.mixtoplayer': 1}
    if m.windy:
        want.update({'wind.shear': 1, 'threshold.compute': 1, 'transport.equilibrium': 1, 'solve': 1, 'bed.update': 1, 'bed.wet_bed_reset': 1, 'bed.average_change': 1})
    if p['process_fences']:
        want['fences.update_fences'] = 1
    if p['process_vegetation']:
        want.update({'vegetation.vegshear': 1, 'vegetation.germinate': 1, 'vegetation.grow': 1})
    if p['process_dune_erosion']:
        want['erosion.run_ph12'] = 1
    n = (1 if m.windy else 0) + (1 if p['process_dune_erosion'] else 0)
    if n:
        want['avalanching.angele_of_repose'] = want['avalanching.avalanche'] = n
    got = {k: log.count(k) for k in set(log)}
    W.ensure('every-process-that-is-switched-on-runs-once', got == want)
    for a, b in ORDER:
        if a in log and b in log:
            W.ensure('processes-in-order', log.index(a) < log.index(b))
    if p['process_dune_erosion']:
        W.ensure('avalanching-follows-dune-erosion', max(i for i, k in enumerate(log) if k == 'avalanching.avalanche') > log.index('erosion.run_ph12'))
    W.ensure('clock-advanced-by-the-accelerated-step', W.And(W.eq(m.t, t0 + m.dt * p['accfac']), m.c.get('time') == 1))
    back(W, m, old, ny, nx)


def back(W, m, old, ny, nx):
    for k in ('x', 'y', 'udir', 'taus', 'taun', 'ustars0', 'ustarn0'):
        r = W.copy(m.s[k])
        W.forall((ny, nx), lambda i, j: W.eq(r[i, j], old[k][i, j], scale=1e-3), 'grid-is-back-in-its-own-orientation')


@contract('M02', 'model.update/no-step', functions=['model.update', 'model.grid_rotate', 'model.set_timestep'], bounded=[dict(ny=2, nx=2)], runs=200)
def nostep(W):
    skip = W.choice('skip', [True, False])
    m, log, old, t0, ny, nx, dt, mod = step(W, True, 'euler_forward')
    d = W.real('dt', pos=True, typ=10.)
    W.call(mod.AeoLiS.update, m, -1 - d if skip else -1.)
    W.ensure('nothing-computed', not any(k.split('.')[0] in ('bed', 'transport', 'threshold', 'avalanching', 'erosion', 'solve') for k in log))
    W.ensure('time-proceeds', W.eq(m.t, t0 + d + 1) if skip else W.gt(m.t, t0))
    back(W, m, old, ny, nx)


@contract('M02', 'model.update/scheme', functions=['model.update', 'model.euler_forward', 'model.euler_backward', 'model.crank_nicolson'], bounded=[dict(ny=2, nx=2)], runs=200)
def schemes(W):
    scheme = W.choice('scheme', ['euler_forward', 'euler_backward', 'crank_nicolson', 'other'])
    m, log, old, t0, ny, nx, dt, mod = step(W, False, scheme)
    m.p['solver'] = W.choice('solver', ['trunk', 'Pieter', 'steadystate', 'SteadyStatePieter'])
    used = []
    for k in ('solve', 'solve_pieter', 'solve_steadystate', 'solve_steadystatepieter'):
        def f(alpha=.5, beta=1., k=k):
            used.append((k, alpha, beta))
            return dict(Ct=W.copy(old['Ct']))
        setattr(m, k, f)
    if scheme == 'other':
        W.ensure('unknown-scheme-refused', W.raises(ValueError, mod.AeoLiS.update, m))
        return
    W.call(mod.AeoLiS.update, m)
    k = {'trunk': 'solve', 'Pieter': 'solve_pieter', 'steadystate': 'solve_steadystate', 'SteadyStatePieter': 'solve_steadystatepieter'}[m.p['solver']]
    al = {'euler_forward': 0, 'euler_backward': 1, 'crank_nicolson': Fraction(1, 2)}[scheme]
    W.ensure('the-chosen-solver-once', [u[0] for u in used] == [k])
    if not k.startswith('solve_steady'):
        W.ensure('implicitness-of-the-scheme', W.And(W.eq(used[0][1], W.num(al)), W.eq(used[0][2], 1)))
