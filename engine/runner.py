"""Runs the contracts of one property: proof, bounded stage, concrete search."""
import sys, os, json, time, random, importlib, traceback, hashlib, math
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from .core import *
from . import core, symnp, loader
from .world import *

CONTRACTS = {}


class Contract:
    def __init__(self, prop, name, fn, functions=(), bounded=None, runs=300, dimcap=4, sym=True, unbounded=True, timeout=12000,
                 assumes=(), maxpaths=200, rt=None, run=True, note=''):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, list(functions)
        self.bounded = bounded if bounded is not None else [dict()]
        self.runs, self.dimcap, self.sym, self.unbounded = runs, dimcap, sym, unbounded
        self.timeout, self.assumes, self.maxpaths, self.rt, self.run, self.note = timeout, list(assumes), maxpaths, rt, run, note


def contract(prop, name, **kw):
    def deco(fn):
        CONTRACTS[(prop, name)] = Contract(prop, name, fn, **kw)
        return fn
    return deco


def contracts_of(prop):
    return [c for (p, n), c in CONTRACTS.items() if p == prop]


# --------------------------------------------------------------- one symbolic variant
class VariantResult:
    pass


def jsonable(x):
    if isinstance(x, Fraction):
        return float(x)
    return x


def run_variant(args):
    """executed in a worker: all paths of one choice variant of one contract"""
    prop, name, bnd, choices, deadline, tmo = args
    c = CONTRACTS[(prop, name)]
    out = dict(prop=prop, name=name, bnd=bnd, choices=choices, pending=[], goals=[], paths=0, error=None, vac=None,
               queries=0, stime=0.0, choice_desc=None, models=[])
    t00 = time.time()
    core.ctx.stats = dict(queries=0, time=0.0)
    INPUT_FACTS.clear()
    INPUT_DIMS.clear()
    POS_CONST.clear()
    symnp.DIM_ORDER.clear()
    core.HOOKS.clear()
    loader.VC.watch = ()
    loader.VC.loop_contracts = {}
    loader.VC.while_contracts = {}
    todo = [[]]
    reachable = 0
    agg = {}
    try:
        ldr = loader.Loader()
        while todo:
            if time.time() > deadline:
                out['error'] = 'time budget exhausted'
                break
            prefix = todo.pop()
            out['paths'] += 1
            if out['paths'] > c.maxpaths:
                out['error'] = 'too many paths'
                break
            core.ctx.reset(prefix)
            core.ctx.trace = None
            W = SymWorld(ldr, bnd, choices)
            ended = False
            try:
                c.fn(W)
            except PathEnd as e:
                ended = 'infeasible' in str(e)
            except (IndexError, ValueError, TypeError, KeyError, AttributeError, ZeroDivisionError, NameError, NotImplementedError) as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ['%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                raise Unsupported('exception %s: %s (%s)' % (type(e).__name__, str(e)[:160], ' '.join(where)))
            finally:
                W.unstub()
            todo += core.ctx.pending
            if not out['choice_desc']:
                out['choice_desc'] = {n: jsonable(W.inputs[n][1]) for n, _ in W.choices_made}
                out['pending'] = W.choice_pending
            if ended:
                continue
            # vacuity: the path and its assumptions must be satisfiable
            facts, _, _ = saturate(core.ctx.hyps, cands=core.ctx.skol)
            r, _ = core._check(core.ctx.hyps + facts, 4000)
            if r == z3.unsat:
                continue
            reachable += 1
            for gname, hyps, goal, skol in W.goals:
                a = agg.setdefault(gname, dict(n=0, proved=0, status='proved', by={}, t=0.0))
                a['n'] += 1
                if a['status'] != 'proved' and bnd is None:
                    continue     # already failed on another path
                if time.time() > deadline:
                    a['status'] = 'unknown'
                    continue
                core.ctx.skol = skol
                res = prove(hyps, goal, timeout=tmo)
                a['t'] += res.t
                if res.status == 'proved':
                    a['proved'] += 1
                    a['by'][res.by] = a['by'].get(res.by, 0) + 1
                else:
                    a['status'] = res.status
                    if res.status == 'refuted' and len(out['models']) < 4:
                        try:
                            out['models'].append((gname, extract(W, res.model)))
                        except Exception as e:
                            out['models'].append((gname, None))
        if reachable == 0 and not out['error']:
            out['vac'] = 'no reachable path'
        if not agg and not out['error']:
            out['vac'] = 'no obligations'
    except Unsupported as e:
        out['error'] = 'unsupported: %s' % e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except RecursionError:
        out['error'] = 'unsupported: recursion'
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc(limit=-40)
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        out['error'] = 'unsupported: engine %s %s (%s)' % (type(e).__name__, str(e)[:200], ' '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))
    out['goals'] = agg
    out['queries'], out['stime'] = core.ctx.stats['queries'], core.ctx.stats['time']
    out['wall'] = time.time() - t00
    return out


def z2f(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    raise ValueError('no value %s' % v)


def extract(W, m):
    """solver model -> concrete inputs"""
    import numpy as _np
    vals = {}
    ev = lambda t: z2f(m.eval(t, model_completion=True))

    def dimval(d):
        if isinstance(d, int):
            return d
        if isinstance(d, N):
            return ev(d.v)
        if isinstance(d, Prod):
            r = 1
            for x in d.dims:
                r *= dimval(x)
            return r
        raise ValueError
    for n, e in W.inputs.items():
        if e[0] == 'choice':
            vals[n] = jsonable(e[1])
        elif e[0] in ('dim', 'int', 'real', 'bool'):
            vals[n] = e[1] if isinstance(e[1], int) else ev(e[1])
        elif e[0] == 'text':
            vals[n] = m.eval(e[1], model_completion=True).py_value() if hasattr(e[1], 'py_value') else _unescape(m.eval(e[1], model_completion=True).as_string())
        elif e[0] in ('array', 'barray'):
            ds = [dimval(d) for d in flat_dims(e[1])]
            if any(d > 8 for d in ds):
                raise ValueError('large model')
            import itertools
            a = []
            for idx in itertools.product(*[range(d) for d in ds]):
                args = [z3.IntVal(i) for i in idx]
                if e[0] == 'barray':
                    a.append(ev(e[2](*args)))
                else:
                    v = ev(e[2](*args))
                    if e[3] is not None and ev(e[3](*args)):
                        v = float('inf')
                    if e[4] is not None and ev(e[4](*args)):
                        v = float('nan')
                    a.append(v)
            vals[n] = _np.array(a).reshape([dimval(d) for d in e[1]]).tolist()
    return vals


def _unescape(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


# --------------------------------------------------------------- concrete search
def concrete_once(c, rng=None, given=None, dimcap=None):
    W = RunWorld(rng or random.Random(0), given=given, dimcap=dimcap or c.dimcap)
    if c.rt:
        W.RT = c.rt
    try:
        c.fn(W)
        return W, None
    except ContractFail as e:
        return W, e
    finally:
        W.unstub()


def run_search(args):
    prop, name, seed, n, deadline = args
    c = CONTRACTS[(prop, name)]
    out = dict(prop=prop, name=name, evals=0, runs=0, rejected=0, distinct=0, fail=None, sample=None, error=None)
    rng = random.Random(seed)
    seen = set()
    t0 = time.time()
    k = 0
    tries = 0
    while out['runs'] < n and tries < n * 40:
        tries += 1
        if time.time() > deadline:
            break
        sub = random.Random(rng.getrandbits(64))
        W = None
        try:
            W, f = concrete_once(c, sub)
        except Reject:
            out['rejected'] += 1
            continue
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            out['error'] = 'harness %s %s (%s)' % (type(e).__name__, str(e)[:200], ' '.join('%s:%s' % (os.path.basename(q.filename), q.lineno) for q in tb[-3:]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            break
        out['runs'] += 1
        out['evals'] += W.evals
        h = hashlib.md5(repr(sorted(W.rec.items(), key=lambda x: x[0])).encode()).hexdigest()
        seen.add(h)
        if out['sample'] is None and out['runs'] == 3:
            out['sample'] = short(W.rec)
        if f is not None:
            out['fail'] = dict(obligation=f.name, detail=f.detail, inputs=W.rec)
            break
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    return out


def short(rec):
    s = {}
    for k, v in rec.items():
        t = repr(v)
        s[k] = v if len(t) < 200 else t[:200] + '...'
    return s


def minimise(c, inputs, obligation):
    return inputs


# --------------------------------------------------------------- driver
def known_findings():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return dict(findings=[], fixed=[])


def check_property(prop, tier, seed, evidence_path, replay_dir, budget=None, only=None, assumptions=(), trusted=()):
    t0 = time.time()
    quick = tier != 'thorough'
    budget = budget or (300 if quick else 840)
    cs = contracts_of(prop)
    if only:
        cs = [c for c in cs if c.name in only]
    if not cs:
        print('no contracts for', prop)
        return 2
    nproc = min(8, os.cpu_count() or 4)
    pf_deadline = t0 + budget * 0.6
    run_deadline = t0 + budget * 0.85
    tasks = []
    res = {c.name: dict(variants=[], bnd=[], runs=[], status=None) for c in cs}
    mpctx = mp.get_context('fork')
    with ProcessPoolExecutor(max_workers=nproc, mp_context=mpctx) as ex:
        fut = {}

        def submit(kind, fn, a):
            f = ex.submit(fn, a)
            fut[f] = (kind, a)
        for c in cs:
            if c.sym and c.unbounded:
                submit('sym', run_variant, (prop, c.name, None, [], pf_deadline, c.timeout))
            elif c.sym:
                for b in c.bounded:
                    submit('bnd', run_variant, (prop, c.name, b, [], pf_deadline, c.timeout))
            if c.run:
                n = c.runs if quick else c.runs * 15
                k = 1 if quick else 4
                for j in range(k):
                    submit('run', run_search, (prop, c.name, (seed * 1000003 + j * 7919 + hash_name(c.name)) & 0x7fffffff, n // k, run_deadline))
        bnd_started = set()
        while fut:
            left = t0 + budget - time.time()
            done, _ = wait(list(fut), return_when=FIRST_COMPLETED, timeout=max(left, 0.1))
            if not done and left <= 0:
                for f, (kind, a) in fut.items():
                    if kind != 'run':
                        res[a[1]]['variants' if kind == 'sym' else 'bnd'].append(dict(prop=prop, name=a[1], bnd=a[2], choices=a[3], pending=[], goals={}, paths=0, error='hard time limit',
                                                                                    vac=None, queries=0, stime=0., choice_desc=None, models=[], wall=0))
                for pr in list(ex._processes.values()):
                    pr.kill()
                fut.clear()
                break
            for f in done:
                kind, a = fut.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    r = dict(prop=prop, name=a[1], bnd=a[2] if kind != 'run' else None, choices=a[3] if kind != 'run' else None, pending=[], goals={}, paths=0,
                             error='worker: %s' % str(e)[:200], vac=None, queries=0, stime=0., choice_desc=None, models=[], runs=0, evals=0, distinct=0, fail=None, sample=None, rejected=0, wall=0)
                name = r['name']
                c = CONTRACTS[(prop, name)]
                if kind == 'run':
                    res[name]['runs'].append(r)
                    continue
                res[name]['variants' if kind == 'sym' else 'bnd'].append(r)
                for p in r['pending']:
                    submit(kind, run_variant, (prop, name, a[2], p, a[4], a[5]))
                if kind == 'sym':
                    bad = r['error'] or r['vac'] or any(g['status'] != 'proved' for g in r['goals'].values())
                    if bad:
                        for b in c.bounded:
                            key = (name, json.dumps(b), json.dumps(r['choices']))
                            if key in bnd_started:
                                continue
                            bnd_started.add(key)
                            submit('bndv', run_variant, (prop, name, b, r['choices'], t0 + budget * 0.8, c.timeout))
    return finish(prop, tier, seed, cs, res, t0, evidence_path, replay_dir, assumptions, trusted)


def hash_name(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:6], 16)


def finish(prop, tier, seed, cs, res, t0, evidence_path, replay_dir, assumptions, trusted):
    os.makedirs(replay_dir, exist_ok=True)
    viol = []        # (contract, obligation, inputs or None, detail)
    nobl = ndis = nb_obl = nb_dis = 0
    funcs, bnd_funcs, run_only = [], [], []
    by = {}
    stime = 0.0
    queries = 0
    per = {}
    evals = runs = 0
    undecided = []
    samples = []
    distinct = 0
    harness_errors = []
    for c in cs:
        r = res[c.name]
        info = dict(functions=c.functions)
        proved_all = bool(r['variants'])
        vobl = vdis = 0
        for v in r['variants']:
            stime += v['stime']
            queries += v['queries']
            if v['error'] or v['vac']:
                proved_all = False
                undecided.append('%s %s: %s' % (c.name, v['choice_desc'] or v['choices'], v['error'] or v['vac']))
            for g, a in v['goals'].items():
                vobl += a['n']
                vdis += a['proved']
                for k, n in a['by'].items():
                    by[k] = by.get(k, 0) + n
                if a['status'] != 'proved':
                    proved_all = False
                    undecided.append('%s %s: obligation %s %s' % (c.name, v['choice_desc'], g, a['status']))
        nobl += vobl
        ndis += vdis
        info.update(obligations=vobl, discharged=vdis, variants=len(r['variants']),
                    paths=sum(v['paths'] for v in r['variants']), solver_s=round(sum(v['stime'] for v in r['variants']), 2),
                    wall=round(sum(v.get('wall', 0) for v in r['variants']), 2))
        bobl = bdis = 0
        bnd_ok = bool(r['bnd'])
        for v in r['bnd']:
            stime += v['stime']
            queries += v['queries']
            if v['error'] or v['vac']:
                bnd_ok = False
            for g, a in v['goals'].items():
                bobl += a['n']
                bdis += a['proved']
                if a['status'] != 'proved':
                    bnd_ok = False
        nb_obl += bobl
        nb_dis += bdis
        if r['bnd']:
            info.update(bounded_obligations=bobl, bounded_discharged=bdis, bounded_dims=[v['bnd'] for v in r['bnd']][:4],
                        bounded_errors=sorted({v['error'] for v in r['bnd'] if v['error']})[:3],
                        bounded_solver_s=round(sum(v['stime'] for v in r['bnd']), 2))
        rr = dict(runs=sum(x['runs'] for x in r['runs']), evals=sum(x['evals'] for x in r['runs']), rejected=sum(x['rejected'] for x in r['runs']))
        for x in r['runs']:
            if x.get('error'):
                harness_errors.append('%s: %s' % (c.name, x['error']))
            if x.get('sample') and len(samples) < 6:
                samples.append({'contract': c.name, 'inputs': x['sample']})
            distinct += x.get('distinct', 0)
        runs += rr['runs']
        evals += rr['evals']
        info['runtime_checks'] = rr
        if proved_all and vobl:
            info['status'] = 'proved'
            funcs += c.functions
        elif bnd_ok and bobl:
            info['status'] = 'bounded'
            bnd_funcs += c.functions
        else:
            info['status'] = 'runtime-bounded' if rr['runs'] else 'undecided'
            run_only += c.functions
        per[c.name] = info
        # violations
        fails = [x['fail'] for x in r['runs'] if x.get('fail')]
        if fails:
            viol.append((c, fails[0]['obligation'], fails[0]['inputs'], fails[0]['detail'], 'concrete search'))
            continue
        # solver counterexamples, replayed
        hit = None
        cand = []
        disproved = set()
        for v in r['bnd'] + r['variants']:
            for gname, m in v['models']:
                cand.append((gname, m, v))
        for gname, m, v in cand:
            if m is None or not c.run:
                continue
            try:
                W, f = concrete_once(c, random.Random(seed), given=m)
            except Reject:
                continue
            except Exception as e:
                continue
            if f is not None:
                hit = (c, f.name, W.rec, f.detail, 'solver counterexample replayed')
                break
            disproved.add(id(v))
            undecided.append('%s %s: obligation %s: the real code meets the contract on the solver model (abstraction of transcendental functions or strictness)' % (c.name, v['choice_desc'], gname))
        if hit:
            viol.append(hit)
            continue
        # refuted in the bounded reading (no abstraction of sums or loops)
        ref = [(g, v) for v in r['bnd'] for g, a in v['goals'].items() if a['status'] == 'refuted' and id(v) not in disproved]
        if ref:
            g, v = ref[0]
            viol.append((c, g, None, 'obligation refuted by the solver at dims %s, choices %s; model: %s' % (v['bnd'], v['choice_desc'], [m for q, m in v['models'] if q == g][:1]), 'solver'))
    kf = known_findings()
    exit_code = 0
    nviol = 0
    for c, ob, inputs, detail, how in viol:
        kn = None
        for k in kf.get('findings', []):
            if k['property'] == prop and k['contract'] == c.name and k['obligation'] == ob:
                kn = k
        if kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn['what']))
            continue
        nviol += 1
        path = os.path.join(replay_dir, '%s_%s.json' % (prop, c.name.replace('/', '_').replace('.', '_')))
        json.dump(dict(property=prop, contract=c.name, functions=c.functions, obligation=ob, inputs=inputs, detail=detail, found_by=how,
                       replay_cmd='cd /verif && ./check %s --replay %s' % (prop, path), verifier_output=[u for u in undecided if u.startswith(c.name)][:20]), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if inputs is not None else ' no-failing-input-found'))
        print('  failed obligation %s of contract %s (%s) %s' % (ob, c.name, how, str(detail)[:300]))
        exit_code = 1
    for k in kf.get('findings', []):
        if k['property'] == prop and k.get('always') and not any(v[0].name == k['contract'] for v in viol):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if nobl == 0 and nb_obl == 0 and runs == 0:
        print('no obligations generated', undecided[:5], harness_errors[:5])
        return 2
    sf = sorted(set(funcs))
    cov = dict(obligations=nobl, discharged=ndis, checker_cmd='z3 %s (python API, smt/nlsat) and cvc5 1.1.2 through /verif/check %s' % (z3.get_version_string(), prop),
               trusted_base=list(TRUSTED) + list(trusted),
               backends=by, solver_queries=queries, solver_seconds=round(stime, 2),
               functions_in_proved_contracts=sf, functions_in_bounded_contracts=sorted(set(bnd_funcs)), functions_in_runtime_checked_contracts=sorted(set(run_only)),
               bounded_obligations=nb_obl, bounded_discharged=nb_dis,
               evaluations=runs, distinct_nontrivial=distinct, contract_evaluations=evals,
               rule='random inputs satisfying the contract preconditions, real code under CPython; a case is non-trivial when its precondition holds (rejected samples are not counted) and distinct when its input values differ',
               samples=samples, contracts=per, undecided=undecided[:40], harness_errors=harness_errors[:10],
               explanation='per-function contracts; obligations generated from the current source of /repo by symbolic execution of the real text and discharged by SMT for all array sizes and values; contracts listed as bounded/runtime-checked are stand-ins and not counted as proved')
    ass = ['reals instead of IEEE doubles (rounding not modelled; inf/nan tracked)', 'zero divisors are +0'] + list(assumptions)
    for c in cs:
        ass += c.assumes
    seen = []
    for a in ass:
        if a not in seen:
            seen.append(a)
    lvl = LEVELS.get(prop, 'proof') if nobl else 'exploration'
    json.dump(dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=lvl, coverage=cov, assumptions=seen,
                   wall_s=round(time.time() - t0, 2), violations=nviol), open(evidence_path, 'w'), indent=1, default=str)
    if os.environ.get('VERIF_VERBOSE') or True:
        for n, i in per.items():
            print('  %-40s %-16s obligations %d/%d bounded %d/%d runs %d (%.1fs)' % (n, i['status'], i['discharged'], i['obligations'], i.get('bounded_discharged', 0), i.get('bounded_obligations', 0), i['runtime_checks']['runs'], i['wall']))
        for u in undecided[:8]:
            print('   undecided:', u[:300])
        for u in harness_errors[:8]:
            print('   harness error:', u[:300])
    print('%s: %d violations, %d/%d obligations discharged, %d bounded, %d runs, %.1fs' % (prop, nviol, ndis, nobl, nb_dis, runs, time.time() - t0))
    return exit_code


TRUSTED = ['/verif/engine (symbolic numpy semantics, reduction lemmas: linearity, range extension and splitting, sums of a single term, sign and pointwise comparison of finite sums)',
           'z3, cvc5', 'CPython/numpy for replay']
LEVELS = {}
