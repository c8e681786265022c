"""tools/many.py PROP CONTRACT N [SEED]: all kinds of failures of a runtime contract over N random inputs"""
import sys, random, collections, traceback, os, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import logging
logging.disable(logging.CRITICAL)
from engine import runner
from engine.world import Reject
import glob, importlib
for f in glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', '*.py')):
    if sys.argv[1] in open(f).readline():
        importlib.import_module('specs.' + os.path.basename(f)[:-3])
c = runner.CONTRACTS[(sys.argv[1], sys.argv[2])]
fails = collections.OrderedDict()
rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
n = 0
for k in range(int(sys.argv[3])):
    sub = random.Random(rng.getrandbits(64))
    try:
        W, e = runner.concrete_once(c, rng=sub)
    except Reject:
        continue
    n += 1
    if e is not None:
        fails.setdefault(str(e)[:200], []).append(W)
print(n, 'runs')
for m, ws in fails.items():
    print(len(ws), m)
    com = None
    for w in ws:
        r = {a: b for a, b in w.rec.items() if isinstance(b, (str, int, float, bool)) or b is None}
        com = set(r.items()) if com is None else com & set(r.items())
    print('     common:', sorted(com, key=str)[:40])
