# properties: B01
"""Bed composition: mass bookkeeping of bed.update and its helpers."""
from engine.runner import *


def arrange_F():
    def m(i, idx, o):
        c, l, k = idx
        dm, d = o['_ro']['dm'], o['_ro']['d']
        er, dp = o['_ro']['ix_ero'], o['_ro']['ix_dep']
        cell = (c,)
        W = core.ctx.W
        v = o['m'](idx)
        dmv = as_R(dm((c, k)))
        inn = lambda a, x, b: W.And(W.le(a, x), W.lt(x, b))   # a <= x < b
        e = W.ite(inn(0, l, i - 1), dmv * d((c, l + 1, k)), 0)
        e2 = W.ite(inn(1, l, i), dmv * d((c, l, k)), 0)
        g = W.ite(inn(0, l, i - 1), dmv * d((c, l, k)), 0)
        g2 = W.ite(inn(1, l, i), dmv * d((c, l - 1, k)), 0)
        v = W.ite(er(cell), v - e + e2, v)
        v = W.ite(dp(cell), v - g + g2, v)
        return v
    return {'m': m}


def exchanged(W, m, q, d, l, nl):
    """mass of layer l after exchange of a mass q with its neighbours of composition d"""
    up_e = W.ite(W.lt(l, nl - 1), lambda: -q * d(l + 1), 0)
    dn_e = W.ite(W.gt(l, 0), q * d(l), 0)
    up_d = W.ite(W.gt(l, 0), lambda: q * d(l - 1), 0)
    dn_d = -q * d(l)
    return m + W.ite(q < 0, up_e + dn_e, W.ite(q > 0, up_d + dn_d, 0))


@contract('B01', 'bed.arrange_layers', functions=['bed.arrange_layers'], bounded=[dict(nc=1, nl=1, nf=1), dict(nc=1, nl=3, nf=2)])
def arrange(W):
    nc, nl, nf = W.dim('nc'), W.dim('nl'), W.dim('nf')
    m = W.array('m', (nc, nl, nf), lo=0)
    d = W.array('d', (nc, nl, nf), lo=0, hi=1)
    x = W.array('dmx', (nc,))
    dm = W.np.repeat(x[:, None], nf, axis=1)
    ero, dep = dm[:, 0] < 0., dm[:, 0] > 0.
    m0, d0 = W.copy(m), W.copy(d)
    W.loop('arrange_layers', 0, functional_loop(arrange_F()))
    r = W.call(W.mod('bed').arrange_layers, m, dm, d, nl, ero, dep)

    def post(c, l, k):
        return W.eq(r[c, l, k], exchanged(W, W.at(m0, c, l, k), x[c], lambda j: W.at(d0, c, j, k), l, nl), scale=abs(x[c]))
    W.forall((nc, nl, nf), post, 'exchange-with-neighbouring-layers')
    if W.mode != 'sym':
        W.forall((nc, nf), lambda c, k: W.eq(W.sum(nl, lambda l: r[c, l, k]), W.sum(nl, lambda l: m0[c, l, k]) + stack_change(W, x[c], lambda l: d0[c, l, k], nl, nl), scale=abs(x[c])), 'stack-exchanges-with-the-base-only')


def stack_change(W, q, d, n, nl):
    """change of the mass in the upper n of nl layers by the exchange between layers"""
    if not W.symbolic:
        return (-q * d(n) if n < nl else 0.) if q < 0 else -q * d(n - 1) if q > 0 else 0.
    return W.ite(W.lt(q, 0), W.ite(W.lt(n, nl), -q * d(n), 0), W.ite(W.gt(q, 0), -q * d(n - 1), 0))


@contract('B01', 'bed.arrange_layers/stack', functions=['bed.arrange_layers'], runs=20)
def telescope(W):
    """lemma over the contract of arrange_layers, by induction over the layers: what leaves a layer enters its neighbour"""
    nl, n = W.dim('nl'), W.dim('n')
    m, d, q = W.array('m', (nl,)), W.array('d', (nl + 1,)), W.real('q')
    D = lambda l: W.at(d, l)
    new = lambda l: exchanged(W, m[l], q, D, l, nl)
    upto = lambda n: W.eq(W.sum(n, new), W.sum(n, lambda l: m[l]) + stack_change(W, q, D, n, nl), scale=100)
    W.ensure('one-layer', upto(1))
    if W.symbolic:
        W.assume(W.And(W.lt(n, nl), upto(n)))
        W.ensure('one-more-layer', upto(n + 1))
    else:
        W.ensure('all-layers', upto(nl))


def stack(W, extra=()):
    ny, nx = W.dim('ny', 1), W.dim('nx', 1)
    nl, nf = W.dim('nl', 1), W.dim('nf', 1)
    return ny, nx, nl, nf


def base_state(W, ny, nx, nl, nf, mass, level=False):
    # the bed level and water level updates are the subject of B02 (level=True), here off
    p = dict(nx=nx - 1, ny=ny - 1, nlayers=nl, nfractions=nf, max_error=W.real('max_error', lo=0, hi=1e-6), rhog=W.real('rhog', pos=True, typ=2650.),
             porosity=W.real('porosity', lo=0, hi=0.9), process_bedupdate=W.choice('process_bedupdate', [True, False]) if level else False,
             process_tide=W.choice('process_tide', [True, False]) if level else False, _time=0., bedcomp_file=None)
    W.assume(p['porosity'] < 1)
    s = dict(mass=mass, zb=W.array('zb', (ny, nx)), zs=W.array('zs', (ny, nx)), uw=W.array('uw', (ny, nx)), dzb=W.zeros((ny, nx)))
    return s, p


@contract('B01', 'bed.prevent_negative_mass/fits', functions=['bed.prevent_negative_mass', 'utils.normalize'],
          bounded=[dict(nc=1, nl=1, nf=2), dict(nc=1, nl=2, nf=2)], runs=300, unbounded=False)
def prevent_fits(W):
    """deposits smaller than the top layer"""
    prevent(W, True)


@contract('B01', 'bed.prevent_negative_mass', functions=['bed.prevent_negative_mass', 'utils.normalize'],
          bounded=[dict(nc=1, nl=1, nf=2), dict(nc=1, nl=2, nf=2)], runs=400)
def prevent_over(W):
    prevent(W, False)


def fill_F():
    """state of prevent_negative_mass when layer i is about to be filled: the upper layers of cells that
    receive more than a layer are filled with fresh deposit, the older layers are moved down"""
    def done(i, c, o):
        n = z3.ToInt(as_R(o['_ro']['n']((c, 0))).v)
        i = zint(i)
        return mkN(z3.simplify(z3.If(n <= 0, z3.IntVal(0), z3.If(i <= n, i, n))))

    def m(i, idx, o):
        c, l, k = idx
        j = done(i, c, o)
        return core.ctx.W.ite(l < j, as_R(o['_ro']['mx']((c, 0))) * o['_ro']['d']((c, k)), o['m']((c, l - j, k)))

    def pickup(i, idx, o):
        c, k = idx
        return o['pickup'](idx) + as_R(done(i, c, o)) * (as_R(o['_ro']['mx']((c, 0))) * o['_ro']['d']((c, k)))
    return {'m': m, 'pickup': pickup}


def prevent(W, fits):
    """cells whose deposit fits in the top layer keep every layer below and the
    balance of each fraction; cells with larger deposits get whole layers of the
    fresh deposit and only a remainder smaller than a layer is passed on"""
    nc, nl, nf = W.dim('nc'), W.dim('nl'), W.dim('nf')
    LM = W.array('LM', (nc,), pos=True, typ=5.)

    import numpy as np

    def gen(r, dims):
        q = np.array([r.uniform(0.01, 1.) for _ in range(int(np.prod(dims)))]).reshape(dims)
        return q / q.sum(axis=-1, keepdims=True) * LM[:, None, None]
    m = W.array('mass', (nc, nl, nf), lo=0, gen=gen)
    # all layers of a cell hold the same mass LM
    W.assume(W.all((nc, nl), lambda c, l: W.eq(W.sum(nf, lambda k: m[c, l, k]), LM[c])))
    # transport never picks up more than the top layer holds
    pk = W.array('pickup', (nc, nf), gen=lambda r, dims: np.minimum(np.array([r.choice([0., 1., -1.]) if r.random() < .1 else r.uniform(-1., 2.) if fits else r.uniform(-12., 3.) for _ in range(nc * nf)]).reshape(dims), m[:, 0, :]))
    W.assume(W.all((nc, nf), lambda c, k: W.le(pk[c, k], m[c, 0, k])))
    dm = W.np.repeat(-W.np.sum(pk, axis=-1, keepdims=True), nf, axis=-1)
    m0, pk0, dm0 = W.copy(m), W.copy(pk), W.copy(dm)
    if fits:
        W.assume(W.all((nc,), lambda c: W.lt(dm0[c, 0], LM[c])))
    net = lambda c: dm0[c, 0]
    ero = lambda c, k: W.max(0, pk0[c, k])
    dep = lambda c, k: ero(c, k) - pk0[c, k]
    E, D = lambda c: W.sum(nf, lambda k: ero(c, k)), lambda c: W.sum(nf, lambda k: dep(c, k))

    if W.mode == 'sym':
        # sums of erosion and deposition have the sign of their terms; the net exchange is their difference
        known = [((nc,), lambda c: W.And(W.ge(E(c), 0), W.ge(D(c), 0), W.eq(net(c), D(c) - E(c)), W.eq(W.sum(nf, lambda j: -W.min(0, pk0[c, j])), D(c)))),
                 ((nc, nf), lambda c, k: W.And(W.le(ero(c, k), E(c)), W.le(dep(c, k), D(c))))]
        for dims, f in known:
            W.forall(dims, f, 'sums', hints=lambda c, k=None: [
                W.sum_nonneg(nf, lambda j: ero(c, j)), W.sum_nonneg(nf, lambda j: dep(c, j)),
                W.sum_nonneg(nf, lambda j: -W.min(0, pk0[c, j]) - dep(c, j)), W.sum_nonneg(nf, lambda j: dep(c, j) + W.min(0, pk0[c, j]))] +
                ([] if k is None else [W.sum_elem(nf, lambda j: ero(c, j), k), W.sum_elem(nf, lambda j: dep(c, j), k)]))
        for dims, f in known:
            W.assume(W.all(dims, f))
    state = {}

    def cut(it, body, l):
        """the state before the layers are filled: all that the rest of the function may use of it"""
        a = {n: l[n] for n in ('m', 'pickup', 'dm', 'mx', 'd', 'n')}
        now = {n: v.copy() for n, v in a.items()}
        at = lambda n, *i: as_R(now[n].at(i))
        up = lambda c: W.gt(net(c), 0)
        facts = [
            ('top-layer-mass', (nc,), lambda c: W.eq(at('mx', c, 0), LM[c])),
            ('whole-layers', (nc,), lambda c: W.eq(at('n', c, 0), r_floor(at('dm', c, 0) / LM[c]))),
            ('exchange', (nc, nf), lambda c, k: W.eq(at('dm', c, k), net(c))),
            ('net', (nc,), lambda c: W.eq(W.sum(nf, lambda k: at('pickup', c, k)), -net(c))),
            ('sign', (nc, nf), lambda c, k: W.And(W.finite(at('pickup', c, k)), W.Implies(up(c), lambda: W.le(at('pickup', c, k), 0)))),
            ('erosion-cells', (nc, nf), lambda c, k: W.Implies(W.Not(up(c)), lambda: W.eq(at('pickup', c, k), pk0[c, k]))),
            ('top-layer', (nc, nf), lambda c, k: W.And(W.ge(at('m', c, 0, k), 0), W.eq(at('m', c, 0, k) - at('pickup', c, k), m0[c, 0, k] - pk0[c, k]))),
            ('layers', (nc, nl, nf), lambda c, l, k: W.Implies(W.gt(l, 0), lambda: W.eq(at('m', c, l, k), m0[c, l, k]))),
            ('layer-total', (nc, nl), lambda c, l: W.eq(W.sum(nf, lambda k: at('m', c, l, k)), LM[c])),
            ('share', (nc, nf), lambda c, k: W.Implies(up(c), lambda: W.And(W.ge(at('d', c, k), 0), W.eq(at('d', c, k) * net(c), -at('pickup', c, k))))),
            ('shares', (nc,), lambda c: W.Implies(up(c), lambda: W.eq(W.sum(nf, lambda k: at('d', c, k)), 1))),
        ]
        for nm, dims, f in facts:
            W.forall(dims, f, 'fill.' + nm, hints=(lambda c: [facts[0][2](c), W.eq(at('dm', c, 0), net(c))]) if nm == 'whole-layers' else None)
        core.ctx.hyps = core.ctx.hyps[:n0[0]]
        for n in a:
            if n != 'n':
                a[n].buf.snap = W.array('$cut_' + n, a[n].buf.shape).buf.snap
                now[n] = a[n].copy()
        a['n'].buf.snap = symnp.Snap(lambda idx: r_floor(at('dm', idx[0], 0) / LM[idx[0]]))
        now['n'] = a['n'].copy()
        for nm, dims, f in facts:
            W.assume(W.all(dims, f))
        state.update(now)
        functional_loop(fill_F())(it, body, l)
    n0 = [0]
    if W.symbolic:
        core.ctx.settle_left = 0.   # no case splits of the terms: faster here
        n0[0] = len(core.ctx.hyps)
        W.loop('prevent_negative_mass', 0, cut if W.mode == 'sym' else functional_loop(fill_F()))
    def moved(c, l):
        """where the contents of layer l come from"""
        if not state:
            return []
        n = z3.ToInt(as_R(net(c) / LM[c]).v)
        j = mkN(z3.If(n <= 0, z3.IntVal(0), n))
        total = lambda f: W.sum(nf, f)
        q = l - j
        return [W.Implies(W.lt(l, j), lambda: W.eq(total(lambda k: m1[c, l, k]), total(lambda k: LM[c] * state['d'].at((c, k))))),
                W.Implies(W.ge(l, j), lambda: W.eq(total(lambda k: state['m'].at((c, q, k))), LM[c])),
                W.Implies(W.ge(l, j), lambda: W.eq(total(lambda k: m1[c, l, k]), total(lambda k: state['m'].at((c, q, k)))))]
    m1, dm1, pk1 = W.call(W.mod('bed').prevent_negative_mass, m, dm, pk)
    W.forall((nc, nf), lambda c, k: W.Implies(W.lt(net(c), LM[c]), lambda: W.eq(m1[c, 0, k] - pk1[c, k], m0[c, 0, k] - pk0[c, k], scale=LM[c])), 'fraction-balance-in-top-layer')
    W.forall((nc, nl, nf), lambda c, l, k: W.Implies(W.And(W.lt(net(c), LM[c]), W.gt(l, 0)), lambda: W.eq(m1[c, l, k], m0[c, l, k])), 'deeper-layers-untouched')
    W.forall((nc, nf), lambda c, k: W.Implies(W.gt(net(c), 0), lambda: W.le(pk1[c, k], 0, scale=LM[c])), 'no-erosional-fraction-left-in-deposition-cells')
    W.forall((nc, nf), lambda c, k: W.Implies(W.le(net(c), 0), lambda: W.And(W.eq(pk1[c, k], pk0[c, k]), W.eq(dm1[c, k], dm0[c, k]))), 'erosion-cells-untouched')
    W.forall((nc, nf), lambda c, k: W.eq(W.sum(nf, lambda j: pk1[c, j]), -dm1[c, k], scale=LM[c]), 'exchange-mass-is-the-net-pickup')
    W.forall((nc, nl, nf), lambda c, l, k: W.ge(m1[c, l, k], 0, scale=LM[c]), 'no-negative-mass')
    W.forall((nc,), lambda c: W.lt(dm1[c, 0], LM[c] * 1.000001), 'remainder-smaller-than-a-layer')
    W.forall((nc, nl), lambda c, l: W.eq(W.sum(nf, lambda k: m1[c, l, k]), LM[c]), 'layer-mass-constant', **(dict(hints=moved) if W.mode == 'sym' else {}))
    if W.mode != 'sym':
        # whole layers of fresh deposit on top, the older layers moved down unchanged
        W.forall((nc, nl, nf), lambda c, l, k: W.Implies(W.ge(net(c), (l + 1) * LM[c] * 1.000001), lambda: W.eq(m1[c, l, k] * D(c), LM[c] * dep(c, k), scale=LM[c])), 'layers-filled-with-fresh-deposit')


def prevent_stub(W, LM, out=None):
    """contract of prevent_negative_mass (checked above), used by its caller"""
    def fn(m, dm, pickup):
        c_, l_, f_ = m.shape_
        m2 = W.array('m_pnm', (c_, l_, f_), lo=0)
        pk2 = W.array('pickup_pnm', (c_, f_))
        dm2 = W.np.repeat(-W.np.sum(pk2, axis=-1, keepdims=True), f_, axis=-1)
        S2 = m2.sum(axis=-1)
        lm = LM.reshape(-1)
        W.assume(W.all((c_, l_), lambda c, l: W.And(W.gt(S2.at((c, l)), 0), W.eq(S2.at((c, l)), lm.at((c,))))))
        # the sign of the exchange never flips; it stays zero when it was zero
        W.assume(W.all((c_,), lambda c: W.And(W.Implies(dm.at((c, 0)) > 0, dm2.at((c, 0)) >= 0), W.Implies(dm.at((c, 0)) <= 0, W.eq(dm2.at((c, 0)), dm.at((c, 0)))))))
        if out is not None:
            out.update(m=m2.copy(), q=dm2.copy(), pk=pk2.copy())
        return m2, dm2, pk2
    return fn


@contract('B01', 'bed.update/each-layer', functions=['bed.update', 'utils.normalize', 'utils.prevent_tiny_negatives'], bounded=[dict(ny=1, nx=1, nl=2, nf=2)], runs=10)
def update_each_layer(W):
    """after large deposits are handled (prevent_negative_mass) the pickup leaves the top layer, neighbouring
    layers exchange the net mass, and the deepest layer is fed by the base"""
    ny, nx, nl, nf = stack(W)
    LM = W.array('LM', (ny, nx), pos=True, typ=5.)
    mass = W.array('mass', (ny, nx, nl, nf), pos=True, typ=1.)
    s, p = base_state(W, ny, nx, nl, nf, mass)
    p['max_error'] = 0.
    kind = W.choice('base', ['grain_dist', 'layered', 'bedcomp'])
    gd = W.array('grain_dist', (nl, nf), pos=True, typ=1.)
    p['grain_dist'] = gd if kind == 'layered' else gd[0, :]
    if kind == 'bedcomp':
        bc = W.array('bedcomp', (ny, nx, nl, nf), pos=True, typ=1.)
        p['bedcomp_file'] = W.copy(bc)
    row = nl - 1 if kind == 'layered' else 0
    s['pickup'] = W.array('pickup', (ny, nx, nf), typ=(-1., .4))
    out = {}
    if W.symbolic:
        W.loop('arrange_layers', 0, functional_loop(arrange_F()))
        W.stub('bed', 'prevent_negative_mass', prevent_stub(W, LM, out))
    s = W.call(W.mod('bed').update, s, p)
    m1 = s['mass']
    if not W.symbolic:
        W.ensure('nothing-to-replay', True)
        return
    def g(y, x, k):
        h = (lambda j: W.at(bc, y, x, nl - 1, j)) if kind == 'bedcomp' else lambda j: W.at(gd, row, j)
        return h(k) / W.sum(nf, h)
    at = lambda n, y, x, *i: out[n].at((W.flatidx((ny, nx), (y, x)),) + i)

    def post(y, x, l, k):
        q = at('q', y, x, k)
        d = lambda j: at('m', y, x, j, k) / LM[y, x]
        top = W.ite(W.eq(l, 0), at('pk', y, x, k), 0)
        base = W.ite(W.And(W.eq(l, nl - 1), W.lt(q, 0)), -q * g(y, x, k), 0)
        return W.eq(m1[y, x, l, k], exchanged(W, at('m', y, x, l, k) - top + base, q, d, l, nl))
    W.forall((ny, nx, nl, nf), post, 'layer-by-layer')


@contract('B01', 'bed.update/stack', functions=['bed.update'], runs=20)
def update_stack(W):
    """lemma over the contracts of prevent_negative_mass (deposits that fit) and update, by induction over the layers"""
    nl, n = W.dim('nl'), W.dim('n')
    m0, q, pk0, pk, g = W.array('m', (nl + 1,)), W.real('q'), W.real('pk0'), W.real('pk'), W.real('g')
    LM = W.real('LM', pos=True, typ=5.)
    # fraction-balance-in-top-layer, deeper-layers-untouched
    m2 = lambda l: m0[l] + W.ite(W.eq(l, 0), pk - pk0, 0)
    d = lambda j: m2(j) / LM
    new = lambda l: exchanged(W, m2(l) - W.ite(W.eq(l, 0), pk, 0) + W.ite(W.And(W.eq(l, nl - 1), W.lt(q, 0)), -q * g, 0), q, d, l, nl)
    upto = lambda n: W.eq(W.sum(n, new), W.sum(n, lambda l: m0[l]) - pk0 + stack_change(W, q, d, n, nl) + W.ite(W.And(W.eq(n, nl), W.lt(q, 0)), -q * g, 0), scale=100)
    W.ensure('one-layer', upto(1))
    if W.symbolic:
        W.assume(W.And(W.lt(n, nl), upto(n)))
        W.ensure('one-more-layer', upto(n + 1))
    else:
        W.ensure('all-layers', upto(nl))


@contract('B01', 'bed.update/layers', functions=['bed.update', 'utils.normalize', 'utils.prevent_tiny_negatives'],
          bounded=[dict(ny=1, nx=1, nl=2, nf=2)])
def update_layers(W):
    ny, nx, nl, nf = stack(W)
    LM = W.array('LM', (ny, nx), pos=True, typ=5.)

    def gen(r, dims):
        import numpy as np
        m = np.array([r.uniform(0.01, 1.) for _ in range(int(np.prod(dims)))]).reshape(dims)
        return m / m.sum(axis=-1, keepdims=True) * LM[:, :, None, None]
    mass = W.array('mass', (ny, nx, nl, nf), lo=0, gen=gen)
    W.assume(W.all((ny, nx, nl), lambda y, x, l: W.eq(W.sum(nf, lambda k: mass[y, x, l, k]), LM[y, x])))
    m0 = W.copy(mass)
    pick = W.array('pickup', (ny, nx, nf), typ=(-4., 0.4))
    s, p = base_state(W, ny, nx, nl, nf, mass)
    p['max_error'] = 0.
    gd = W.array('grain_dist', (nf,), pos=True, typ=(0.1, 1.))
    p['grain_dist'] = gd
    if W.choice('bedcomp', [False, True]):
        p['bedcomp_file'] = W.array('bedcomp_file', (ny, nx, nl, nf), pos=True, typ=1.)
    s['pickup'] = pick
    W.loop('arrange_layers', 0, functional_loop(arrange_F()))
    W.stub('bed', 'prevent_negative_mass', prevent_stub(W, LM))
    s = W.call(W.mod('bed').update, s, p)
    m1 = s['mass']
    W.forall((ny, nx, nl), lambda y, x, l: W.eq(W.sum(nf, lambda k: m1[y, x, l, k]), LM[y, x]), 'layer-mass-constant')


@contract('B01', 'bed.update/fractions', functions=['bed.update', 'bed.prevent_negative_mass', 'bed.arrange_layers', 'utils.normalize', 'utils.prevent_tiny_negatives'],
          bounded=[dict(ny=1, nx=1, nl=1, nf=2), dict(ny=1, nx=1, nl=2, nf=1)], unbounded=False, runs=500, timeout=3000)
def update_fractions(W):
    """every fraction: change of the stack = -pickup + exchange with the base"""
    ny, nx, nl, nf = stack(W)
    LM = W.array('LM', (ny, nx), pos=True, typ=5.)
    mass = W.array('fr', (ny, nx, nl, nf), pos=True, typ=1.)
    mass = mass / mass.sum(axis=-1, keepdims=True) * LM[:, :, None, None]
    pick = W.np.minimum(W.array('pickup', (ny, nx, nf), typ=(-4., 2.)), mass[:, :, 0, :])
    s, p = base_state(W, ny, nx, nl, nf, mass)
    p['max_error'] = 0.
    kind = W.choice('base', ['grain_dist', 'layered', 'bedcomp'])
    base = W.array('base_dist', (ny, nx, nl, nf), pos=True, typ=1.)
    if kind == 'grain_dist':
        p['grain_dist'] = base[0, 0, 0, :]
        g = lambda y, x, k: base[0, 0, 0, k] / W.sum(nf, lambda j: base[0, 0, 0, j])
    elif kind == 'layered':
        p['grain_dist'] = base[0, 0, :, :]
        g = lambda y, x, k: base[0, 0, nl - 1, k] / W.sum(nf, lambda j: base[0, 0, nl - 1, j])
    else:
        if W.symbolic:
            raise Unsupported('bedcomp_file type test')
        p['grain_dist'] = base[0, 0, 0, :]
        p['bedcomp_file'] = base
        g = lambda y, x, k: base[y, x, nl - 1, k] / W.sum(nf, lambda j: base[y, x, nl - 1, j])
    s['pickup'] = pick
    m0, pk0 = W.copy(mass), W.copy(pick)
    s = W.call(W.mod('bed').update, s, p)
    m1 = s['mass']
    net = lambda y, x: W.sum(nf, lambda k: pk0[y, x, k])
    S = lambda m, y, x, k: W.sum(nl, lambda l: m[y, x, l, k])
    W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.ge(net(y, x), 0), lambda: W.eq(S(m1, y, x, k), S(m0, y, x, k) - pk0[y, x, k] + net(y, x) * g(y, x, k), scale=LM[y, x])), 'eroded-fractions-leave-the-stack')
    small = lambda y, x: W.And(W.lt(net(y, x), 0), W.lt(-net(y, x), LM[y, x] * 0.999999))
    if nl > 1:
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(small(y, x), lambda: W.eq(S(m1, y, x, k), S(m0, y, x, k) - pk0[y, x, k] + net(y, x) * m0[y, x, nl - 1, k] / LM[y, x], scale=LM[y, x])), 'deposited-fractions-enter-the-stack')
    # the lower exchange is with the neighbouring layer only
    W.forall((ny, nx, nl, nf), lambda y, x, l, k: W.ge(m1[y, x, l, k], 0, scale=LM[y, x]), 'no-negative-mass')
    if nl > 2:
        W.forall((ny, nx, nf), lambda y, x, k: W.Implies(W.ge(net(y, x), 0), lambda: W.eq(m1[y, x, 0, k], m0[y, x, 0, k] - pk0[y, x, k] + net(y, x) * m0[y, x, 1, k] / LM[y, x], scale=LM[y, x])), 'top-layer-replenished-from-the-layer-below')
