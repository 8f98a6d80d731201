#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]   (run in /verif)"""
import argparse, importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['TQDM_DISABLE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(v, '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    ctx = core.Ctx(a.pid, a.seed, a.tier)
    try:
        mod = importlib.import_module('props.' + a.pid.lower())
        if a.replay:
            mod.run(ctx, [json.load(open(a.replay))['scenario']])
        else:
            mod.run(ctx)
        code = core.finish(ctx, getattr(mod, 'LEVEL', 'model_checking'), getattr(mod, 'ASSUMPTIONS', ()))
    except core.MachineryError as e:
        print('MACHINERY FAILURE: %s' % e)
        code = 2
    except Exception:
        traceback.print_exc()
        print('MACHINERY FAILURE')
        code = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


main()
