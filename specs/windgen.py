# properties: K01
"""Generated wind time series."""
from engine.runner import *
import os, tempfile, signal


def num(W, v): return W.num(v) if W.symbolic else v


def gen(W, **k):
    c = W.mod('model').WindGenerator
    g = object.__new__(c)
    g.__dict__.update(k)
    return g


@contract('K01', 'model.WindGenerator.update', functions=['model.update'], bounded=[dict(n=2), dict(n=3)], runs=500, dimcap=8)
def step(W):
    n = W.dim('n', 2)
    size, dt, t = W.real('bin', pos=True, lo=num(W, .01), hi=5, typ=1.), W.real('dt', pos=True, typ=60.), W.real('t', lo=0, typ=600.)
    def mk(r, dims):
        import numpy as np
        a = np.cumsum([[r.random() for _ in range(dims[1])] for _ in range(dims[0])], axis=1)
        return a / a[:, -1:]
    C = W.array('cum', (n, n), lo=0, hi=1, gen=mk)
    if W.mode == 'sym':     # any row of the transition probabilities
        state = W.int('state', 0)
        W.assume(W.And(state < n, W.eq(C[state, n - 1], 1)))
        W.assume(W.all((n,), lambda j: W.Implies(W.gt(j, 0), lambda: W.le(C[state, j - 1], C[state, j]))))
    else:
        W.assume(W.And(*[W.eq(C[i, n - 1], 1) for i in range(n)] + [W.le(C[i, j], C[i, j + 1]) for i in range(n) for j in range(n - 1)]))
        state = W.choice('state', [0, 1])
    r = [W.real('r1', lo=0, hi=1, typ=(0., 1.)), W.real('r2', lo=0, hi=1, typ=(0., 1.))]
    W.assume(W.And(W.lt(r[0], 1), W.lt(r[1], 1)))
    q = list(r)
    draw = lambda *a, **k: q.pop(0)
    if W.symbolic:
        for nm in ('random', 'rand', 'uniform', 'random_sample'):
            W.hook('numpy.random.' + nm, draw)
    else:
        W.patch(W.np.random, 'uniform', draw)
    bins = (W.np.arange(n) + num(W, .5)) * size
    mid = lambda k: (num(W, .5) + k) * size
    g = gen(W, MTMcum=C, bins=bins, bin_size=size, dt=dt, t=t, state=state, states=[], wind_speeds=[], randoms1=[], randoms2=[])
    W.call(g.update)
    j = g.state
    W.ensure('next-state-drawn-from-the-transition-probabilities', W.And(W.ge(j, 0), W.lt(j, n), W.gt(C[state, j], r[0]), W.Implies(W.gt(j, 0), lambda: W.le(C[state, j - 1], r[0]))))
    u = g.wind_speeds[0]
    W.ensure('speed-inside-the-bin-of-the-state', W.And(W.ge(u, mid(j) - size / 2 - num(W, 0 if W.symbolic else 1e-9)), W.le(u, mid(j) + size / 2 + num(W, 0 if W.symbolic else 1e-9)), W.ge(u, 0)))
    W.ensure('speed-spread-over-the-bin', W.eq(u, mid(j) + (r[1] - num(W, .5)) * size, scale=1e-6))
    W.ensure('time-and-record', W.And(W.eq(g.t, t + dt), len(g.states) == 1, W.eq(g.states[0], j), len(g.wind_speeds) == 1))


@contract('K01', 'model.WindGenerator.matmult4', functions=['model.matmult4', 'model.weibullpdf'], bounded=[dict(n=3)], unbounded=False, runs=200, dimcap=5)
def mm(W):
    n = W.dim('n', 1)
    A, B, v = W.array('A', (n, n), typ=(-1., 1.)), W.array('B', (n, n), typ=(-1., 1.)), W.array('v', (n,), typ=(-1., 1.))
    m = W.mod('model').WindGenerator.matmult4
    p, q = W.call(m, A, v), W.call(m, A, B)
    for i in range(n):
        W.ensure('matrix-times-vector', W.eq(p[i], sum((A[i, k] * v[k] for k in range(n)), num(W, 0)), scale=1e-3))
        for j in range(n):
            W.ensure('matrix-product', W.eq(q[i][j], sum((A[i, k] * B[k, j] for k in range(n)), num(W, 0)), scale=1e-3))


class Hang(Exception):
    pass


def build(W, **k):
    """the generator; its iteration takes seconds, a minute of processor time means that it does not end"""
    def hit(*a): raise Hang()
    old = signal.signal(signal.SIGVTALRM, hit)
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        return W.mod('model').WindGenerator(**k)
    except Hang:
        W.ensure('the-iteration-for-the-transition-probabilities-ends', False)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def params(W):
    mx = W.choice('max', [11., 22., 30., 20., 15., 60., 25., 30, 28.5])
    return dict(mean_speed=W.choice('mean', [9., 10., 6.]), max_speed=mx, dt=W.choice('dt', [60., 600., 60, 3600.]))


@contract('K01', 'model.WindGenerator.__init__', functions=['model.__init__', 'model.weibullpdf', 'model.matmult4'], sym=False, runs=6, timeout=120)
def setup(W):
    np = W.np
    k = params(W)
    n, shape, scale = W.choice('states', [30, 20]), W.choice('shape', [2., 1.8]), 2.
    g = build(W, n_states=n, shape=shape, scale=scale, **k)
    if g is None:
        return
    size = k['max_speed'] / n
    W.ensure('bins-divide-the-range-of-speeds', len(g.bins) == n and bool(np.allclose(g.bins, (np.arange(n) + .5) * size)))
    W.ensure('rows-are-cumulative-probabilities', g.MTMcum.shape == (n, n) and bool((np.diff(g.MTMcum, axis=1) >= -1e-12).all() and np.allclose(g.MTMcum[:, -1], 1) and (g.MTMcum >= 0).all()))
    # the chain leaves the Weibull distribution of the speeds unchanged
    lam = scale * k['mean_speed'] / np.sqrt(np.pi)
    w = shape / lam * (g.bins / lam) ** (shape - 1) * np.exp(-(g.bins / lam) ** shape)
    w /= w.sum()
    M = np.diff(np.concatenate([np.zeros((n, 1)), g.MTMcum], axis=1), axis=1)
    W.ensure('weibull-distribution-is-stationary', bool(np.allclose(w @ M, w, atol=1e-5)))


@contract('K01', 'model.WindGenerator.generate', functions=['model.generate', 'model.update', 'model.get_time_series', 'model.write_time_series', 'model.__getitem__'], sym=False, runs=6, timeout=120)
def series(W):
    np = W.np
    k = params(W)
    dur = W.choice('duration', [3600., 3700., 86400., 60., 1.])
    np.random.seed(W.choice('seed', [1, 2, 3]))
    g = build(W, **k)
    if g is None:
        return
    W.call(g.generate, dur)
    check(W, g.get_time_series(), k, dur)
    W.call(g.generate, dur)
    t, u = g.get_time_series()
    check(W, (t, u), k, dur)
    W.ensure('items', bool(np.all(g[:] == u)) and float(g[0]) == u[0])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'wind.txt')
        W.call(g.write_time_series, f)
        a = np.loadtxt(f, ndmin=2)
        W.ensure('file-holds-the-series-for-use-as-wind-file', a.shape == (len(t), 3) and bool(np.allclose(a[:, 0], t) and np.allclose(a[:, 1], u) and (a[:, 2] == 0).all()))


def check(W, tu, k, dur):
    np = W.np
    t, u = tu
    W.ensure('starts-at-zero-with-the-time-step', bool(t[0] == 0 and np.allclose(np.diff(t), k['dt'])))
    W.ensure('covers-the-duration', len(t) == len(u) and t[-1] >= dur and t[-1] < dur + k['dt'] + 1e-9)
    W.ensure('speeds-between-zero-and-the-maximum', bool((u >= 0).all() and (u <= k['max_speed'] + 1e-9).all()))
