# properties: I01 I02
"""Reading, checking and writing model configurations."""
import itertools, os, shutil, tempfile
from engine.runner import *


class Dir:
    """a scratch directory as working directory"""
    def __enter__(self):
        self.cwd, self.d = os.getcwd(), tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH') or '/tmp')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


def number(W, tag):
    """a number and a text that denotes it"""
    k = W.choice(tag + 'kind', ['int', 'dec', 'exp', 'big'])
    v = W.real(tag, typ=(-100., 100.))
    if k == 'int':
        return int(v), '%d' % int(v)
    if k == 'dec':
        t = '%.*f' % (W.choice(tag + 'digits', [1, 3, 6]), v)
    else:
        t = '%.*e' % (W.choice(tag + 'digits', [0, 3, 12]), v * (1e9 if k == 'big' else 1e-7))
    if W.choice(tag + 'short', [False, True]) and t.startswith('0.'):
        t = t[1:]
    return float(t), t


WORDS = ['euler_forward', 'zb', 'wind.txt', 'Ct_avg', 'a-b', 'T1', 'Tb', 'x1.2', 'belly_johnson', 'TF', 'e5', 'True']


def scalar(W, tag):
    k = W.choice(tag + 'type', ['bool', 'number', 'word', 'empty', 'none'])
    if k == 'bool':
        b = W.choice(tag + 'b', [True, False])
        return b, 'T' if b else 'F'
    if k == 'number':
        return number(W, tag)
    if k == 'word':
        w = W.choice(tag + 'w', WORDS)
        return w, w
    return None, '' if k == 'empty' else 'None'


def same(a, b):
    if a is None or isinstance(a, (bool, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, int):
        return isinstance(b, int) and not isinstance(b, bool) and a == b
    return isinstance(b, float) and a == b


@contract('I01', 'inout.parse_value', functions=['inout.parse_value'], sym=False, runs=3000)
def parse(W):
    pv = W.mod('inout').parse_value
    pad = lambda t: W.choice('pad1', ['', ' ', '  ']) + t + W.choice('pad2', ['', ' ', '\n', '  %  a comment', ' % T', '% 1 2 3'])
    kind = W.choice('kind', ['scalar', 'numbers', 'words'])
    with Dir():
        if kind == 'scalar':
            v, t = scalar(W, 'v')
            r = W.call(pv, pad(t))
            W.ensure('value-and-type-of-the-text', same(v, r))
            return
        n = W.choice('n', [2, 3, 4])
        sep = W.choice('sep', [' ', '  ', '   '])
        if kind == 'numbers':
            vs = [number(W, 'v%d' % i) for i in range(n)]
        else:
            vs = [(w, w) for w in (W.choice('w%d' % i, WORDS) for i in range(n))]
        r = W.call(pv, pad(sep.join(t for _, t in vs)))
        W.ensure('list-of-all-values', W.isarr(r) and r.shape == (n,) and all(r[i] == vs[i][0] for i in range(n)))


def sometext(r):
    return r.choice([lambda: '%d' % r.randint(-99, 99), lambda: '%.3f' % r.uniform(-9, 9), lambda: '%.2e' % r.uniform(-1e-7, 1e9), lambda: r.choice(WORDS + ['T', 'F', 'None', '1.2.3', '-', '.', '1-2', 'e1', '1e', 'None1', '2020-01-01']),
                     lambda: '%d.' % r.randint(-9, 9), lambda: '.%d' % r.randint(0, 99), lambda: '%dE%+d' % (r.randint(-9, 9), r.randint(-9, 9))])()


NUMBER = r'-?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?'


@contract('I01', 'inout.parse_value/text', functions=['inout.parse_value'], sym=True, unbounded=True, runs=2000)
def onevalue(W):
    """every text without blanks gets the value and type it denotes, whatever blanks and comments surround it"""
    v = W.text('v', 'token', gen=sometext)
    t = W.text('before', 'blank') + v + W.text('after', 'blank')
    if W.choice('comment', [False, True]):
        t = t + '%' + W.text('comment_text', 'any')
    isfile = lambda x: False
    W.hook('os.path.isfile', isfile)
    with Dir():
        r = W.call(W.mod('inout').parse_value, t)
    if W.matches(v, '[TF]'):
        W.ensure('booleans', W.typeof(r) is bool)
        W.ensure('boolean-value', W.And(W.Implies(v == 'T', r), W.Implies(v == 'F', W.Not(r))))
    elif W.matches(v, '-?[0-9]+'):
        W.ensure('integers', W.typeof(r) is int)
        W.ensure('integer-value', W.eq(r, W.intof(v)))
    elif W.matches(v, NUMBER):
        W.ensure('reals', W.typeof(r) is float)
        W.ensure('real-value', W.eq(r, W.floatof(v)))
    elif W.matches(v, 'None'):
        W.ensure('nothing', r is None)
    else:
        W.ensure('words', W.typeof(r) is str)
        W.ensure('word-itself', r == v)


@contract('I01', 'inout.parse_value/empty', functions=['inout.parse_value'], sym=True, unbounded=True, runs=50)
def novalue(W):
    """nothing but blanks and comments denotes no value"""
    t = W.text('before', 'blank') + W.choice('comment', ['', '%', '% note']) + W.text('after', 'blank')
    W.hook('os.path.isfile', lambda x: False)
    W.ensure('nothing', W.call(W.mod('inout').parse_value, t) is None)


@contract('I01', 'inout.parse_value/files', functions=['inout.parse_value'], sym=False, runs=200)
def parsefile(W):
    np = W.np
    pv = W.mod('inout').parse_value
    with Dir():
        A = W.array('A', (W.dim('n', 2, 4), W.dim('m', 2, 4)), typ=(-10., 10.))
        if W.choice('complex', [False, True]):
            A = A + 1j * W.array('B', A.shape, typ=(-1., 1.))
        name = W.choice('name', ['x.txt', 'wind', 'bed.grd'])
        with open(name, 'w') as fp:
            for row in A:
                fp.write(' '.join('%.17g' % x if not np.iscomplexobj(A) else '%.17g%+.17gj' % (x.real, x.imag) for x in row) + '\n')
        r = W.call(pv, ' %s \n' % name)
        W.ensure('matrix-of-the-file', r.shape == A.shape and bool(np.all(r == A)))
        W.ensure('name-only-when-files-are-not-parsed', pv(name, parse_files=False) == name)
        with open('note.txt', 'w') as fp:
            fp.write('no numbers here\n')
        W.ensure('other-files-are-kept-by-name', W.call(pv, 'note.txt') == 'note.txt')


@contract('I01', 'inout.read_configfile', functions=['inout.read_configfile', 'inout.parse_value', 'utils.makeiterable'], sym=False, runs=300)
def readconfig(W):
    np = W.np
    io, C = W.mod('inout'), W.mod('constants').DEFAULT_CONFIG
    before = {k: (list(v) if isinstance(v, list) else v) for k, v in C.items()}
    keys = ['dt', 'tstop', 'scheme', 'process_moist', 'rhoa', 'max_bedlevel_change', 'user_key', 'callback']
    given = {}
    for k in keys:
        if W.choice('has_' + k, [True, False]):
            given[k] = (1.5, '1.5') if k in ('dt', 'tstop') else scalar(W, k)
    gs = W.choice('grains', [None, [0.0002], [0.0002, 0.0003, 0.0004]])
    with Dir():
        with open('case.txt', 'w') as fp:
            fp.write('%' * 40 + '\n%% dt = 99\nsome text without assignment\n\n')
            for k, (v, t) in given.items():
                fp.write('%s = %s%s\n' % (k, t, W.choice('tail_' + k, ['', '   % remark'])))
            if gs:
                fp.write('grain_size = %s\n' % ' '.join(repr(g) for g in gs))
                fp.write('grain_dist = %s\n' % ' '.join('1' for g in gs))
        p = W.call(io.read_configfile, 'case.txt')
        q = W.call(io.read_configfile, 'case.txt', load_defaults=False) if gs else None
        W.ensure('a-missing-file-is-reported', W.raises(IOError, io.read_configfile, 'nothing.txt'))
    W.ensure('settings-of-the-file', all(same(v, p[k]) for k, (v, t) in given.items()))
    derived = {'grain_size', 'grain_dist', 'output_file', 'h', 'nsavetimes', 'external_vars', 'process_fences'}
    W.ensure('defaults-for-everything-else', all(k in p and (p[k] is v or p[k] == v) for k, v in before.items() if k not in given and k not in derived))
    W.ensure('grain-sizes-are-lists', W.isarr(p['grain_size']) and list(p['grain_size']) == (gs or before['grain_size']) and W.isarr(p['grain_dist']) and len(p['grain_dist']) == len(gs or [1]))
    W.ensure('name-of-the-output-file', p['output_file'] == 'case.nc')
    W.ensure('saltation-height-defaults-to-the-wind-height', p['h'] == p['z'])
    W.ensure('nothing-but-the-file-without-defaults', q is None or set(q) == set(given) | {'grain_size', 'grain_dist'})
    W.ensure('defaults-are-not-altered', all(C[k] == v for k, v in before.items()) and set(C) == set(before))


@contract('I01', 'inout.check_configuration', functions=['inout.check_configuration'], sym=False, runs=400)
def check(W):
    io, np = W.mod('inout'), W.np
    mk = lambda tag, ok: {'ok': np.zeros((3, ok)), 'wide': np.zeros((3, ok + 2)), 'narrow': np.zeros((3, ok - 1)), 'flat': np.zeros(ok), 'none': None}[W.choice(tag, ['ok', 'ok', 'wide', 'none', 'narrow', 'flat'])]
    grid = lambda tag: W.choice(tag, [np.zeros((2, 3)), np.zeros((2, 3)), np.zeros((2, 3)), np.zeros(3), None, 'x.txt'])
    p = dict(xgrid_file=grid('x'), ygrid_file=grid('y'), bed_file=grid('b'), ny=W.choice('ny', [0, 1]), wind_file=mk('wind', 3), tide_file=mk('tide', 2), meteo_file=mk('meteo', 6), th_humidity=W.choice('hum', [False, True]), th_salt=W.choice('salt', [False, True]), method_roughness=W.choice('rough', ['constant', 'other']))
    isa = lambda a: isinstance(a, np.ndarray)
    bad = not isa(p['xgrid_file']) or not isa(p['bed_file']) or (not isa(p['ygrid_file']) and p['ny'] > 0)
    for k, n in (('wind_file', 3), ('tide_file', 2), ('meteo_file', 6)):
        bad = bad or isa(p[k]) and (p[k].ndim != 2 or p[k].shape[1] < n)
    if bad:
        W.ensure('invalid-input-is-refused', W.raises(ValueError, io.check_configuration, p))
    else:
        W.call(io.check_configuration, p)


def value(W, k):
    t = W.choice(k + 'type', ['bool', 'int', 'float', 'small', 'large', 'word', 'none', 'list', 'words'])
    v = float(W.real(k, typ=(-100., 100.)))
    return {'bool': bool(v > 0), 'int': int(v), 'float': v, 'small': v * 1e-8, 'large': v * 1e12, 'word': [w for w in WORDS if w != 'wind.txt'][int(abs(v)) % (len(WORDS) - 1)], 'none': None, 'list': [v, v / 3, 2.], 'words': ['zb', 'Ct_avg', 'T1']}[t]


def eqv(W, a, b):
    np = W.np
    if isinstance(a, (list, np.ndarray)):
        a = np.asarray(a)
        b = np.atleast_1d(np.asarray(b if b is not None else []))
        return a.shape == b.shape and bool(np.all(a == b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


@contract('I02', 'inout.write_configfile', functions=['inout.write_configfile', 'inout.read_configfile', 'inout.parse_value', 'utils.print_value', 'inout.backup', 'inout.get_backupfilename'], sym=False, runs=400)
def writeread(W):
    io, np = W.mod('inout'), W.np
    p = {k: value(W, k) for k in ('dt', 'scheme', 'longer_parameter_name', 'k')}
    p['wind_file'] = W.array('wind', (W.dim('n', 2, 4), 3), typ=(-10., 10.))
    p['bed_file'] = W.choice('bed', [None, 'bed_of_yesterday.grd'])
    with Dir():
        old = W.choice('old', [None, 'previous contents'])
        if old:
            with open('wind.txt', 'w') as fp:
                fp.write(old)
        W.call(io.write_configfile, 'c.txt', p)
        r = W.call(io.read_configfile, 'c.txt', load_defaults=False)
        W.ensure('reading-back-gives-the-same-settings', set(r) == set(p) and all(eqv(W, p[k], r[k]) for k in p))
        W.ensure('matrix-goes-to-its-own-file', io.read_configfile('c.txt', parse_files=False, load_defaults=False)['wind_file'] == 'wind.txt')
        if old:
            with open('wind.txt~001') as fp:
                W.ensure('an-existing-file-is-backed-up', fp.read() == old)


@contract('I02', 'inout.format_value/read-back', functions=['inout.format_value', 'inout.parse_value', 'utils.print_value', 'utils.isiterable'], sym=True, unbounded=True, runs=800)
def roundtrip(W):
    """the text written for a value is read as the same value"""
    io = W.mod('inout')
    W.hook('os.path.isfile', lambda x: False)
    kind = W.choice('kind', ['bool', 'int', 'real', 'word', 'none', 'reals', 'words'])
    if kind == 'bool':
        v = W.choice('b', [True, False])
    elif kind == 'int':
        v = W.int('i', None if W.symbolic else -1000, None if W.symbolic else 1000)
    elif kind == 'real':
        v = W.real('x') * W.choice('scale', [1, 1000000]) if W.symbolic else W.real('x', typ=(-1., 1.)) * W.choice('scale', [1e-9, 1., 1e12])
    elif kind in ('word', 'words'):
        def word(k):
            w = W.text(k, 'token', gen=lambda r: r.choice(WORDS))
            W.assume(W.Not(W.Or(W.matches(w, '[TF]|None'), W.matches(w, NUMBER))))
            return w
        v = word('w') if kind == 'word' else [word('w%d' % k) for k in range(W.choice('n', [2, 3]))]
    elif kind == 'reals':
        v = [W.real('x%d' % k) for k in range(W.choice('n', [2, 3]))]
    else:
        v = None
    with Dir():
        f = getattr(io, 'format_value', None) or io.print_value
        t = W.call(f, v)
        r = W.call(io.parse_value, ' ' + t + '\n')
    if kind == 'none':
        W.ensure('nothing', r is None)
    elif kind == 'bool':
        W.ensure('bool', W.typeof(r) is bool)
        W.ensure('bool-value', W.eq(W.ite(r, 1, 0), 1 if v else 0))
    elif kind == 'int':
        W.ensure('int', W.typeof(r) is int)
        W.ensure('int-value', W.eq(r, v))
    elif kind == 'real':
        W.ensure('real', W.typeof(r) is float)
        W.ensure('full-precision', W.eq(r, v) if W.symbolic else r == v)
    elif kind == 'word':
        W.ensure('word', W.typeof(r) is str)
        W.ensure('word-itself', r == v)
    else:
        W.ensure('list', W.isarr(r) and r.shape[0] == len(v))
        W.ensure('list-values', W.And(*[(W.eq(r[k], v[k]) if kind == 'reals' and W.symbolic else r[k] == v[k]) for k in range(len(v))]))


@contract('I02', 'inout.write_configfile/default', functions=['inout.write_configfile', 'inout.read_configfile'], sym=False, runs=3)
def default(W):
    io, C = W.mod('inout'), W.mod('constants')
    with Dir():
        W.call(io.write_configfile, 'c.txt')
        r = W.call(io.read_configfile, 'c.txt', load_defaults=False)
    skip = {'refdate', 'h', 'output_file', 'external_vars', 'nsavetimes', 'output_types'}
    W.ensure('default-settings-survive', all(eqv(W, v, r[k]) for k, v in C.DEFAULT_CONFIG.items() if k not in skip))
    names = {k for v in C.MODEL_STATE.values() for k in v}
    W.ensure('default-output-consists-of-existing-fields', all(k in names for k in C.DEFAULT_CONFIG['output_vars']))


@contract('I02', 'inout.backup', functions=['inout.backup', 'inout.get_backupfilename'], sym=False, runs=60)
def backup(W):
    io = W.mod('inout')
    used = [n for n in range(1, 6) if W.choice('used%d' % n, [True, False])]
    full = W.choice('full', [False] * 9 + [True])
    with Dir():
        W.call(io.backup, 'f.txt')
        W.ensure('nothing-to-back-up', os.listdir('.') == [])
        with open('f.txt', 'w') as fp:
            fp.write('content')
        for n in (range(1, 1000) if full else used):
            with open('f.txt~%03d' % n, 'w') as fp:
                fp.write('b%d' % n)
        if full:
            W.ensure('no-backup-is-overwritten', W.raises(ValueError, io.backup, 'f.txt'))
        else:
            W.call(io.backup, 'f.txt')
            new = set(os.listdir('.')) - {'f.txt'} - {'f.txt~%03d' % n for n in used}
            W.ensure('one-new-backup-with-the-contents', len(new) == 1 and open(new.pop()).read() == 'content')
        W.ensure('existing-backups-are-kept', all(open('f.txt~%03d' % n).read() == 'b%d' % n for n in (range(1, 1000) if full else used)) and open('f.txt').read() == 'content')
