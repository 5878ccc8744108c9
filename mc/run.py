import sys, os, importlib, json, warnings, logging
os.environ.setdefault('OMP_NUM_THREADS', '1')
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import clawpack.pyclaw            # import once, children are forked from this image
from clawpack import riemann
logging.disable(logging.CRITICAL)
import gc
from mc import core


def main():
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            r = json.load(f)
        mod = importlib.import_module('mc.' + r['property'].lower())
        import tempfile, shutil
        base = tempfile.mkdtemp(prefix='mc_replay_')
        try:
            res = core.execute(mod, r['items'], r['tier'], [list(range(len(r['items'])))], base, stop_after=1 << 30, nproc=1)
        finally:
            shutil.rmtree(base, ignore_errors=True)
        for (k, sig, msg, detail, idxs) in res['fails']:
            print('FAIL item %d %s: %s' % (k, sig, msg))
            print(json.dumps(detail, indent=1, default=core.jdefault)[:4000])
        print('reproduced' if any(f[1] == r['signature'] for f in res['fails']) else 'not reproduced')
        return 1 if res['fails'] else 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('mc.' + pid.lower())
    gc.collect()
    gc.freeze()
    return core.main(mod, tier, seed)


if __name__ == '__main__':
    sys.exit(main())
