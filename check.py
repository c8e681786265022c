import faulthandler, signal
faulthandler.register(signal.SIGUSR1, all_threads=True)
import sys, os, json, glob, importlib, warnings, logging
warnings.simplefilter('ignore')
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from engine import runner
from engine.runner import *


def main():
    prop = sys.argv[1]
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    logging.disable(logging.CRITICAL)
    import aeolis   # the real package, imported once before forking
    meta = {}
    for f in sorted(glob.glob(os.path.join(here, 'specs', '*.py'))):
        b = os.path.basename(f)[:-3]
        if b.startswith('_'):
            continue
        # a spec file states at its head which properties it holds
        head = open(f).readline()
        if prop in head.split():
            importlib.import_module('specs.' + b)
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        c = CONTRACTS[(d['property'], d['contract'])]
        if d['inputs'] is None:
            print('no failing input recorded; obligation', d['obligation'], d['detail'])
            return 1
        W, f = concrete_once(c, random.Random(0), given=d['inputs'])
        print('contract %s on the recorded inputs: %s' % (c.name, 'FAILS obligation %s %s' % (f.name, f.detail) if f else 'holds'))
        return 1 if f else 0
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check_property(prop, tier, seed, os.path.join(here, 'evidence', prop + '.json'), os.path.join(here, 'replays'), only=only, budget=float(os.environ['VERIF_BUDGET']) if 'VERIF_BUDGET' in os.environ else None)


if __name__ == '__main__':
    sys.exit(main())
