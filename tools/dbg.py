"""debug: run one variant of one contract in this process
usage: dbg.py PROP CONTRACT [BND-JSON|-] [CHOICES-JSON]   (env DBG_T = seconds until stack dump)"""
import sys, os, json, time, faulthandler, logging, importlib, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
logging.disable(logging.CRITICAL)
from engine import runner, core
from engine.runner import *
prop, name = sys.argv[1:3]
b = sys.argv[3] if len(sys.argv) > 3 else '-'
bnd = None if b == '-' else json.loads(b)
ch = json.loads(sys.argv[4]) if len(sys.argv) > 4 else []
for f in sorted(glob.glob(here + '/specs/*.py')):
    if prop in open(f).readline().split():
        importlib.import_module('specs.' + os.path.basename(f)[:-3])
import signal, traceback
def _h(*a):
    print('STACK', ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in reversed(traceback.extract_stack()[-40:-1])), flush=True)
signal.signal(signal.SIGALRM, _h)
signal.setitimer(signal.ITIMER_REAL, float(os.environ.get('DBG_T', '40')), float(os.environ.get('DBG_T', '40')))
os.environ['VERIF_DEBUG'] = '1'
c = CONTRACTS[(prop, name)]
T = float(os.environ.get('DBG_B', '120'))
r = run_variant((prop, name, bnd, ch, time.time() + T, c.timeout))
signal.setitimer(signal.ITIMER_REAL, 0)
for k in ('choice_desc', 'error', 'vac', 'paths', 'queries', 'stime', 'wall'):
    print(k, r[k])
for g, a in r['goals'].items():
    print('  ', g, a)
for g, m in r['models']:
    print('model', g, str(m)[:1500])
    if os.environ.get('DBG_REPLAY') and m:
        import random
        print(concrete_once(c, random.Random(0), given=m)[1])
