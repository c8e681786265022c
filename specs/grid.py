# properties: C01
"""Grid geometry: orientation, cell sizes and areas from the coordinates."""
from engine.runner import *


def state(W, ny, nx):
    s = {k: W.zeros((ny, nx)) for k in ('x', 'y', 'ds', 'dn', 'dsdn', 'dsdni')}
    return s


@contract('C01', 'gridparams.initialize', functions=['gridparams.initialize', 'utils.rotate'], bounded=[dict(ny=2, nx=3)], runs=500)
def grid(W):
    ny = W.dim('ny', 2) if W.choice('rows', ['2D', '1D']) == '2D' else 1
    nx = W.dim('nx', 2)
    ori = W.real('orient', typ=(-3.1, 3.1)) if not W.symbolic else None
    if W.symbolic:
        x, y = W.array('x', (ny, nx)), W.array('y', (ny, nx))
    else:   # an equidistant rectangular grid of any orientation; coordinates of a single transect are cross-shore distances
        a, b = W.real('dx', pos=True, typ=(.1, 10.)), W.real('dy', pos=True, typ=(.1, 10.))
        if W.choice('axis', [False, True]):
            ori = W.choice('turn', [0., .5, 1., -.5]) * W.pi
        i, j = W.np.meshgrid(W.np.arange(nx), W.np.arange(ny))
        c, q = round(W.cos(ori), 12), round(W.sin(ori), 12)
        if ny == 1:
            x, y = W.np.cumsum(W.array('steps', (ny, nx), pos=True, typ=(.1, 2.)), axis=1), W.zeros((ny, nx))
        else:
            x, y = 100. + a * i * c - b * j * q, 200. + a * i * q + b * j * c
    X, Y = W.copy(x), W.copy(y)
    s = state(W, ny, nx)
    p = dict(xgrid_file=x, ygrid_file=y, ny=ny - 1, nx=nx - 1)
    if ny == 1:
        Y = W.zeros((ny, nx))
        if W.symbolic:
            W.assume(W.all((nx - 1,), lambda j: W.lt(X[0, j], X[0, j + 1])))
    dx, dy = X[0, 1] - X[0, 0], Y[0, 1] - Y[0, 0]
    W.assume(W.Or(W.Not(W.eq(dx, 0)), W.Not(W.eq(dy, 0))))
    if ny != 1:
        W.assume(W.Or(W.Not(W.eq(X[1, 0], X[0, 0])), W.Not(W.eq(Y[1, 0], Y[0, 0]))))
    s, p = W.call(W.mod('gridparams').initialize, s, p)
    W.forall((ny, nx), lambda i, j: W.And(W.eq(s['x'][i, j], X[i, j]), W.eq(s['y'][i, j], Y[i, j])), 'coordinates-of-the-grid-files')
    al = p['alpha'] / 180 * W.pi
    h = W.sqrt(dx * dx + dy * dy)
    W.ensure('orientation-of-the-cross-shore-axis', W.And(W.eq(h * W.cos(al), dx, scale=1e-3), W.eq(h * W.sin(al), dy, scale=1e-3)))
    if ny == 1:
        W.forall((ny, nx), lambda i, j: W.And(W.eq(s['dn'][i, j], 1), W.ite(W.gt(j, 0), lambda: W.eq(s['ds'][i, j], X[i, j] - X[i, j - 1]), lambda: W.eq(s['ds'][i, j], X[i, 1] - X[i, 0]))), 'cell-sizes-of-a-transect')
    else:
        ex, ey = X[1, 0] - X[0, 0], Y[1, 0] - Y[0, 0]
        W.forall((ny, nx), lambda i, j: W.And(W.eq(s['ds'][i, j], h, scale=1e-3), W.eq(s['dn'][i, j], W.sqrt(ex * ex + ey * ey), scale=1e-3)), 'cell-sizes-along-both-axes')
    W.forall((ny, nx), lambda i, j: W.And(W.eq(s['dsdn'][i, j], s['ds'][i, j] * s['dn'][i, j]), W.Implies(W.gt(s['dsdn'][i, j], 0), lambda: W.eq(s['dsdni'][i, j], 1 / s['dsdn'][i, j]))), 'cell-area')
