# properties: A01
"""Avalanching: slope computation, redistribution of one iteration, stop criterion."""
from engine.runner import *

@contract('A01', 'avalanching.calc_gradients', functions=['avalanching.calc_gradients'], bounded=[dict(ny=3, nx=3)], runs=500)
def grad(W):
    """downslope gradient of every interior cell towards its lower neighbour, per direction"""
    ny = W.dim('ny', 3) if W.choice('rows', ['2D', '1D']) == '2D' else 1
    nx = W.dim('nx', 3)
    zb, zne = W.array('zb', (ny, nx), typ=(-1., 1.)), W.array('zne', (ny, nx), typ=(-3., -1.))
    ds, dn = W.array('ds', (ny, nx), pos=True, typ=1.), W.array('dn', (ny, nx), pos=True, typ=1.)
    zb0, ds0, dn0 = W.copy(zb), W.copy(ds), W.copy(dn)
    mx, H, G = W.call(W.mod('avalanching').calc_gradients, zb, nx, ny, ds, dn, zne)
    inner = lambda y, x: W.And(W.gt(x, 0), W.lt(x, nx - 1), *([W.gt(y, 0), W.lt(y, ny - 1)] if ny != 1 else []))

    def axis(y, x, k, dy, dx, d, zone):
        """k: the component towards +, k+2 towards -"""
        g, h = G[y, x, k], G[y, x, k + 2]

        def val():
            c, p, m = zb0[y, x], zb0[y + dy, x + dx], zb0[y - dy, x - dx]
            drop = W.max(c - W.min(p, m), 0) / d
            return W.ite(W.lt(p, m), W.And(W.eq(g, drop, scale=1e-6), W.eq(h, -drop, scale=1e-6)),
                         W.ite(W.lt(m, p), W.And(W.eq(g, -drop, scale=1e-6), W.eq(h, drop, scale=1e-6)), W.And(W.eq(g, drop, scale=1e-6), W.eq(h, drop, scale=1e-6))))
        return W.ite(zone, val, W.And(W.eq(g, 0), W.eq(h, 0)))
    W.forall((ny, nx), lambda y, x: axis(y, x, 0, 0, 1, ds0[y, x], inner(y, x)), 'cross-shore-downslope')
    W.forall((ny, nx), lambda y, x: axis(y, x, 1, 1, 0, dn0[y, x], inner(y, x) if ny != 1 else False), 'alongshore-downslope')
    W.forall((ny, nx), lambda y, x: W.And(W.ge(H[y, x], 0), W.eq(2 * H[y, x] ** 2, G[y, x, 0] ** 2 + G[y, x, 1] ** 2 + G[y, x, 2] ** 2 + G[y, x, 3] ** 2, scale=1e-6)), 'slope-magnitude')
    W.forall((ny, nx), lambda y, x: W.ge(mx, H[y, x]), 'maximum-bounds-every-slope')
    W.ensure('maximum-attained', W.exists((ny, nx), lambda y, x: W.eq(mx, H[y, x])))
    W.forall((ny, nx), lambda y, x: W.And(W.eq(zb[y, x], zb0[y, x]), W.eq(ds[y, x], ds0[y, x]), W.eq(dn[y, x], dn0[y, x])), 'frame')


EDGE = lambda W, ny, nx: lambda y, x: W.Or(W.le(x, 0), W.ge(x, nx - 1), *([W.le(y, 0), W.ge(y, ny - 1)] if ny != 1 else []))
# neighbour a component of the gradient points to: sign, component -> row, column
DIRS = [((0, 1), 0, 2), ((1, 0), 1, 3), ((0, -1), 2, 0), ((-1, 0), 3, 1)]


def world(W, iters, strict=True):
    ny = W.dim('ny', 3) if W.choice('rows', ['2D', '1D']) == '2D' else 1
    nx = W.dim('nx', 3)
    s = dict(zb=W.array('zb', (ny, nx), typ=(-1., 1.)), ds=W.array('ds', (ny, nx), pos=True, typ=1.), dn=W.array('dn', (ny, nx), pos=True, typ=1.))
    s['zne'] = s['zb'] - W.array('thick', (ny, nx), lo=0, typ=(0., 2.))
    s['theta_stat'], s['theta_dyn'] = W.real('theta_stat', pos=True, typ=(20., 50.)), W.real('theta_dyn', pos=True, typ=(10., 45.))
    W.assume(W.And(s['theta_stat'] < 89, s['theta_dyn'] < 89))
    tan = lambda a: W.np.tan(W.np.deg2rad(a))
    ts, td = tan(s['theta_stat']), tan(s['theta_dyn'])
    W.assume(W.And(W.gt(ts, 0), W.gt(td, 0)))   # angles between 0 and 90 degrees
    p = dict(process_avalanche=True, nx=nx - 1, ny=ny - 1 if ny != 1 else 0, max_iter_ava=iters)
    calls = []
    if W.symbolic:
        edge = EDGE(W, ny, nx)

        def cg(zb, nx_, ny_, ds, dn, zne):
            """calc_gradients by its contract: zero at the boundaries, components point to lower neighbours"""
            k = len(calls)
            z = zb.snap()

            def fh(v, y, x):
                return [W.Implies(edge(y, x), lambda: W.eq(v, 0))]

            def fg(v, y, x, c):
                out = [W.Implies(edge(y, x), lambda: W.eq(v, 0))]
                for (dy, dx), up, dw in DIRS:
                    if ny == 1 and dy:
                        continue
                    out.append(W.Implies(W.And(W.Not(edge(y, x)), W.Or(W.And(W.eq(c, up), W.gt(v, 0)), W.And(W.eq(c, dw), W.lt(v, 0)))), lambda: W.lt(z((y + dy, x + dx)), z((y, x)))))
                return out
            H = W.array('H%d' % k, (ny, nx), lo=0, facts=fh)
            G = W.array('G%d' % k, (ny, nx, 4), facts=fg)
            mx = W.real('mx%d' % k)
            calls.append((mx, H.copy(), G.copy(), zb.copy()))
            return mx, H.copy(), G.copy()
        W.stub('avalanching', 'calc_gradients', cg)
    return ny, nx, s, p, ts, td, calls


def gives(W, s, zb, H, G, td):
    """sediment (bed level) a cell gives to each neighbour in one iteration"""
    def slope(y, x):
        room = (zb[y, x] - s['zne'][y, x]) / s['ds'][y, x]
        sd = W.ite(W.And(W.gt(H[y, x], td), W.gt(room, 0)), lambda: W.tanh(H[y, x]) - W.tanh(0.9 * td), 0)
        return W.ite(W.lt(room, H[y, x] - td), lambda: W.tanh(room), sd)

    def give(y, x, up, dw):
        f = lambda k: W.ite(W.eq(H[y, x], 0), 0, lambda: slope(y, x) * G[y, x, k] / H[y, x])
        return 0.2 * 0.5 * (W.max(f(up), 0) - W.min(f(dw), 0))
    return give


def exchange(W, ny, nx, s, zb, H, G, td, zb1, tag=''):
    give = gives(W, s, zb, H, G, td)
    edge = EDGE(W, ny, nx)
    dirs = [d for d in DIRS if ny != 1 or d[0][0] == 0]

    def bal(y, x):
        inn = lambda: sum((give(y - dy, x - dx, up, dw) for (dy, dx), up, dw in dirs), 0)
        out = lambda: sum((give(y, x, up, dw) for (dy, dx), up, dw in dirs), 0)
        return W.Implies(W.Not(edge(y, x)), lambda: W.eq(zb1[y, x], zb[y, x] + inn() - out(), scale=1e-3))
    W.forall((ny, nx), bal, tag + 'what-a-cell-gives-its-lower-neighbours-receive')
    W.forall((ny, nx), lambda y, x: W.Implies(edge(y, x), lambda: W.eq(zb1[y, x], zb[y, x])), tag + 'boundary-cells-fixed')
    for (dy, dx), up, dw in dirs:
        W.forall((ny, nx), lambda y, x: W.Implies(W.And(W.Not(edge(y, x)), W.ge(zb[y, x], s['zne'][y, x])), lambda: W.And(
            W.ge(give(y, x, up, dw), 0), W.Implies(W.gt(give(y, x, up, dw), 0), lambda: W.And(W.lt(zb[y + dy, x + dx], zb[y, x]), W.gt(H[y, x], td), W.gt(zb[y, x], s['zne'][y, x]))))), tag + 'only-steep-erodible-cells-give-and-only-downhill')


@contract('A01', 'avalanching.avalanche', functions=['avalanching.avalanche', 'avalanching.calc_gradients'], bounded=[dict(ny=3, nx=3)], runs=500)
def aval(W):
    """every iteration of the redistribution"""
    iters = W.int('max_iter', 1, 6) if W.symbolic else 1
    ny, nx, s, p, ts, td, calls = world(W, iters)
    i = {k: W.copy(v) for k, v in s.items()}
    m = W.mod('avalanching')
    if W.symbolic:
        def step(it, before, now, broke):
            mx, H, G, z = calls[-1]
            W.forall((ny, nx), lambda y, x: W.eq(z[y, x], before['zb'][y, x]), 'gradients-of-the-current-bed')
            if broke:
                W.forall((ny, nx), lambda y, x: W.eq(now['zb'][y, x], before['zb'][y, x]), 'bed-kept-when-stable')
                W.ensure('stops-below-the-dynamic-angle', W.lt(mx, td))
            else:
                W.ensure('continues-above-the-dynamic-angle', W.ge(mx, td))
                exchange(W, ny, nx, i, before['zb'], H, G, td, now['zb'])
        edge = EDGE(W, ny, nx)
        W.loop('avalanche', 0, invariant_loop({'zb': lambda l: l['s']['zb']}, {'zb': lambda v, idx, e: W.Implies(edge(*idx), lambda: W.eq(v, e['zb'].at(idx)))}, step))
    else:
        mx, H, G = W.call(m.calc_gradients, i['zb'].copy(), nx, ny, i['ds'], i['dn'], i['zne'])
        calls.append((mx, H, G, i['zb']))
    s = W.call(m.avalanche, s, p)
    mx, H, G, z = calls[0]
    W.forall((ny, nx), lambda y, x: W.eq(s['gradh'][y, x], H[y, x]), 'slope-before-avalanching-recorded')
    W.forall((ny, nx), lambda y, x: W.Implies(W.le(mx, ts), lambda: W.eq(s['zb'][y, x], i['zb'][y, x])), 'stable-below-the-static-angle')
    W.forall((ny, nx), lambda y, x: W.Implies(EDGE(W, ny, nx)(y, x), lambda: W.eq(s['zb'][y, x], i['zb'][y, x])), 'boundary-cells-fixed')
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in ('ds', 'dn', 'zne')]), 'frame')
    if not W.symbolic:
        if mx > ts and mx >= td:
            exchange(W, ny, nx, i, i['zb'], H, G, td, s['zb'])
        elif mx > ts:
            W.forall((ny, nx), lambda y, x: W.eq(s['zb'][y, x], i['zb'][y, x]), 'bed-kept-when-stable')


@contract('A01', 'avalanching.avalanche/iterations', functions=['avalanching.avalanche', 'avalanching.calc_gradients'], runs=250, sym=False, unbounded=False)
def many(W):
    """iterating is repeating the iteration; it ends when stable or exhausted; no sediment is created"""
    ny, nx, s, p, ts, td, calls = world(W, W.choice('iters', [2, 5, 60]))
    i = {k: W.copy(v) for k, v in s.items()}
    m = W.mod('avalanching')
    s = W.call(m.avalanche, s, p)
    tot = lambda a: float(a.sum())
    W.ensure('no-sediment-created', W.le(tot(s['zb']), tot(i['zb']) + 1e-9) if (s['zb'] >= i['zne'] - 0.01).all() else True)
    mx = m.calc_gradients(i['zb'].copy(), nx, ny, i['ds'], i['dn'], i['zne'])[0]
    z = {k: W.copy(v) for k, v in i.items()}
    n = 0
    if mx > ts:
        z['theta_stat'] = min(i['theta_dyn'], i['theta_stat']) * 0.5
        while n < p['max_iter_ava'] and m.calc_gradients(z['zb'].copy(), nx, ny, i['ds'], i['dn'], i['zne'])[0] >= td:
            z = W.call(m.avalanche, z, dict(p, max_iter_ava=1))
            n += 1
    W.forall((ny, nx), lambda y, x: W.eq(s['zb'][y, x], z['zb'][y, x], scale=1.), 'repeated-single-iterations')
    end = m.calc_gradients(s['zb'].copy(), nx, ny, i['ds'], i['dn'], i['zne'])[0]
    W.ensure('ends-stable-or-exhausted', mx <= ts or end < td * (1 + 1e-9) or n == p['max_iter_ava'])


@contract('A01', 'avalanching.avalanche/off', functions=['avalanching.avalanche', 'avalanching.angele_of_repose'], bounded=[dict(ny=1, nx=2)], runs=100)
def off(W):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    s = dict(zb=W.array('zb', (ny, nx)), zne=W.array('zne', (ny, nx)), ds=W.array('ds', (ny, nx), pos=True), dn=W.array('dn', (ny, nx), pos=True))
    i = {k: W.copy(v) for k, v in s.items()}
    p = dict(process_avalanche=False, nx=nx - 1, ny=ny - 1, max_iter_ava=100, theta_stat=W.real('ts', typ=(20., 40.)), theta_dyn=W.real('td', typ=(20., 40.)))
    m = W.mod('avalanching')
    s = W.call(m.angele_of_repose, s, p)
    W.ensure('angles-of-the-configuration', W.And(W.eq(s['theta_stat'], p['theta_stat']), W.eq(s['theta_dyn'], p['theta_dyn'])))
    s = W.call(m.avalanche, s, p)
    W.forall((ny, nx), lambda y, x: W.And(*[W.eq(s[n][y, x], i[n][y, x]) for n in i]), 'nothing-changes')
