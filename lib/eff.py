"""The code under test, imported from the current working tree."""
import os, sys, warnings
import core
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
import numpy as np
np.seterr(all='ignore')
sys.path.insert(0, core.REPO)
import matplotlib
matplotlib.use('Agg')
import effector
assert os.path.abspath(effector.__file__).startswith(os.path.abspath(core.REPO) + os.sep), effector.__file__
import effector.binning_methods as bm


class Refused(Exception):
    pass


def guarded(ctx, sc, clause, fn, seconds=120, refusal_ok=False):
    """run fn; an exception of the code where a value is expected is a violation.  Returns (ok, value)"""
    try:
        with core.time_limit(seconds):
            return True, fn()
    except core.CaseTimeout as e:
        ctx.fail(sc, clause, 'no answer: %s' % e)
    except Exception as e:
        if refusal_ok:
            return False, e
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1] if tb else None
        ctx.fail(sc, clause, 'unexpected %s: %s (%s:%s)' % (type(e).__name__, e, last and last.filename, last and last.lineno))
    return False, None
import effector.interaction
