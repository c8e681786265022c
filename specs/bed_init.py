# properties: B04
"""Initial bathymetry, bed composition, masks and threshold as configured."""
from engine.runner import *


def num(W, v): return W.num(v) if W.symbolic else v


@contract('B04', 'bed.initialize', functions=['bed.initialize', 'utils.makeiterable'], bounded=[dict(ny=1, nx=2, nl=2, nf=2)], runs=800, dimcap=4)
def init(W):
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    A = lambda k, **a: W.array(k, (ny, nx), **a)
    bed, ne = A('bed', typ=(-2., 8.)), A('ne', typ=(-10., 0.))
    s = dict(zb=W.zeros((ny, nx)), zb0=W.zeros((ny, nx)), zne=W.zeros((ny, nx)), zdry=W.zeros((ny, nx)), thlyr=W.zeros((ny, nx, nl)), mass=W.zeros((ny, nx, nl, nf)), uth=W.zeros((ny, nx, nf)))
    for k in ('wave', 'bedcomp', 'threshold', 'tide'):
        s[k + '_mask'] = W.zeros((ny, nx))
    kinds = ['one distribution', 'distribution per layer', 'composition file'] + ([] if W.symbolic else ['whole numbers', 'composition file and whole numbers'])
    kind = W.choice('composition', kinds)
    comp = None
    if 'layer' in kind:
        gd = W.array('grain_dist', (nl, nf), pos=True, typ=(.1, 1.))
    else:
        gd = W.array('grain_dist', (nf,), pos=True, lo=num(W, .01), hi=100, typ=(.1, 5.))
    if not W.symbolic and 'whole numbers' in kind:
        gd = W.np.maximum(W.np.round(gd), 1).astype(int)
    if 'file' in kind:
        comp = W.array('comp', (ny, nx, nl, nf), lo=0, typ=(0., 100.))
    C = W.copy(comp) if comp is not None else None
    if comp is not None and not W.symbolic:   # as read from file
        comp = W.choice('layout', [comp, comp.reshape((-1, nx)), comp.reshape(-1)])
    masks = {'wave_mask': W.cmask(A('wre', typ=(0., 1.)), A('wim', typ=(0., 1.))), 'tide_mask': None, 'threshold_mask': A('tm', typ=(0., 1.))}
    thf = A('uth', lo=0, typ=(0., 1.)) if W.choice('threshold file', [True, False]) else None
    p = dict(ny=ny - 1, nx=nx - 1, nlayers=nl, nfractions=nf, bed_file=bed, ne_file=ne, layer_thickness=W.real('thickness', pos=True, typ=.1), grain_dist=gd, bedcomp_file=comp, rhog=W.real('rhog', pos=True, typ=2650.), porosity=W.real('porosity', lo=0, hi=num(W, .9), typ=.4), threshold_file=thf)
    p.update(masks)
    G, o = W.copy(gd), {k: W.copy(v) for k, v in s.items()}
    i = {k: W.copy(v) for k, v in (('bed', bed), ('ne', ne))}
    M = {k: W.copy(v) for k, v in masks.items() if v is not None}
    TH = W.copy(thf) if thf is not None else None
    r = W.call(W.mod('bed').initialize, s, p)
    W.forall((ny, nx), lambda y, x: W.And(W.eq(r['zb'][y, x], i['bed'][y, x]), W.eq(r['zb0'][y, x], i['bed'][y, x]), W.eq(r['zne'][y, x], i['ne'][y, x])), 'bathymetry-of-the-file')
    W.forall((ny, nx, nl), lambda y, x, l: W.eq(r['thlyr'][y, x, l], p['layer_thickness']), 'layer-thickness')
    if C is None:
        g = (lambda l, f: G[l, f]) if 'layer' in kind else (lambda l, f: G[f])
        tot = lambda l: W.sum(nf, lambda f: g(l, f))
        W.forall((ny, nx, nl, nf), lambda y, x, l, f: W.eq(r['mass'][y, x, l, f] * tot(l), p['rhog'] * (1 - p['porosity']) * p['layer_thickness'] * g(l, f), scale=1e-6), 'grain-size-distribution-of-the-configuration-in-each-layer')
        if not W.symbolic:
            W.forall((ny, nx, nl), lambda y, x, l: W.eq(W.sum(nf, lambda f: r['mass'][y, x, l, f]), p['rhog'] * (1 - p['porosity']) * p['layer_thickness'], scale=1e-6), 'layers-are-filled')
    else:
        W.forall((ny, nx, nl, nf), lambda y, x, l, f: W.eq(r['mass'][y, x, l, f], C[y, x, l, f]), 'composition-of-the-file')
    if W.symbolic:
        W.forall((ny, nx), lambda y, x: W.And(*[W.eq(r[k][y, x], M[k][y, x]) for k in ('threshold_mask',)]), 'masks-of-the-files')
    else:
        W.forall((ny, nx), lambda y, x: bool(r['wave_mask'][y, x] == M['wave_mask'][y, x] and r['threshold_mask'][y, x] == M['threshold_mask'][y, x]), 'masks-of-the-files')
    W.ensure('no-mask-means-one', W.eq(r['tide_mask'], 1))
    W.forall((ny, nx, nf), lambda y, x, f: W.eq(r['uth'][y, x, f], TH[y, x] if TH is not None else o['uth'][y, x, f]), 'threshold-of-the-file')
    # the model moves the bed later on, the initial level and the configured one stay
    r['zb'][:, :] = r['zb'] + 1
    W.forall((ny, nx), lambda y, x: W.And(W.eq(r['zb0'][y, x], i['bed'][y, x]), W.eq(p['bed_file'][y, x], i['bed'][y, x])), 'initial-level-does-not-move-with-the-bed')


@contract('B04', 'bed.initialize/layers', functions=['bed.initialize'], bounded=[dict(ny=1, nx=2, nl=2, nf=2)], runs=100, dimcap=4)
def wrong(W):
    """a distribution per layer has to have a row for each layer"""
    ny, nx, nl, nf = W.dim('ny', 1), W.dim('nx', 1), W.dim('nl', 1), W.dim('nf', 1)
    if W.mode == 'sym':
        rows = W.dim('rows', 1)
        W.assume(W.Not(W.eq(rows, nl)))
    else:
        rows = W.choice('rows', [0, 1])
        rows = nl + 1 - 2 * rows if nl > 1 else nl + 1
    gd = W.array('grain_dist', (rows, nf), pos=True, typ=(.1, 1.))
    s = dict(zb=W.zeros((ny, nx)), zb0=W.zeros((ny, nx)), zne=W.zeros((ny, nx)), zdry=W.zeros((ny, nx)), thlyr=W.zeros((ny, nx, nl)), mass=W.zeros((ny, nx, nl, nf)), uth=W.zeros((ny, nx, nf)))
    p = dict(ny=ny - 1, nx=nx - 1, nlayers=nl, nfractions=nf, bed_file=W.zeros((ny, nx)), ne_file=W.zeros((ny, nx)), layer_thickness=num(W, .1), grain_dist=gd, bedcomp_file=None, rhog=num(W, 2650.), porosity=num(W, .4), threshold_file=None)
    W.ensure('refused', W.raises(ValueError, W.mod('bed').initialize, s, p))
