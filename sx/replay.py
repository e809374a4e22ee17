"""
sx.replay -- run harness cases on the real, uninstrumented code with concrete inputs.
  replay.py serve <harness> <tier>      JSON lines in, JSON lines out
  replay.py file <path>                 replay one recorded violation; exit 1 if it still fails
"""
import sys, os, json, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import env
from sx.ctx import ConcCtx, CheckFailed, AssumptionFailed, plainValue
REPO = os.environ.get('SX_REPO', '/repo')

class Hang(BaseException): pass
def _alarm(*a): raise Hang()

def runOne(fn, params, inputs, limit=20):
    ctx = ConcCtx(inputs)
    res = {'status': 'ok', 'label': None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(ctx, **params)
    except CheckFailed as e: res = {'status': 'violation', 'label': e.label}
    except AssumptionFailed: res = {'status': 'assumption', 'label': None}
    except Hang: res = {'status': 'violation', 'label': 'no answer (does not terminate)'}
    except SystemExit as e: res = {'status': 'violation', 'label': 'uncaught SystemExit'}
    except Exception as e:
        import traceback
        res = {'status': 'violation', 'label': 'uncaught ' + type(e).__name__, 'detail': repr(e)[:300] + ' ' + traceback.format_exc()[-1500:]}
    except BaseException as e:
        res = {'status': 'violation', 'label': 'uncaught ' + type(e).__name__}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res['observed'] = ctx.observed
    return res

def load(harness, tier):
    import importlib
    sys.path.insert(0, REPO)
    mod = importlib.import_module('harness.' + harness)
    mod.setup()
    return {c[0]: c for c in mod.cases(tier)}

def bye(rc):
    import shutil
    shutil.rmtree(os.environ['HOME'], ignore_errors=True)
    os._exit(rc)

def main():
    env.prepare()
    real = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1); sys.stdout = open(os.devnull, 'w')
    if sys.argv[1] == 'serve':
        cs = load(sys.argv[2], sys.argv[3])
        real.write('READY\n'); real.flush()
        for line in sys.stdin:
            q = json.loads(line)
            c = cs[q['case']]
            r = runOne(c[1], c[2], q['inputs'])
            real.write(json.dumps(r) + '\n'); real.flush()
    else:
        d = json.load(open(sys.argv[2]))
        cs = load(d['harness'], d['tier'])
        c = cs[d['case']]
        r = runOne(c[1], c[2], d['inputs'])
        real.write(json.dumps({'expected': d['label'], 'got': r['status'], 'label': r['label'], 'inputs': d['inputs'], 'detail': r.get('detail')}, indent=1, ensure_ascii=True) + '\n'); real.flush()
        if r['status'] == 'violation':
            real.write('VIOLATION property=%s replay=%s\n' % (d['property'], os.path.abspath(sys.argv[2]))); real.flush()
            bye(1)
    bye(0)
main()
