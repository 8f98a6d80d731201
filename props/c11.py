"""C11: evaluating or plotting a node is the global method on the node's instances (Regional.tla); answers do not depend on
the history of calls (Session.tla)."""
import random
import regcase, regional, session
from props import c01

ASSUMPTIONS = ['the global methods are validated by C02-C05, C07, C08, C15 and C16; here regional answers are compared with them, and with the exact effects of the specification on lattice scenarios']


def scenarios(ctx, r):
    out = [regcase.gen(r, k) for k in ('rpdp', 'rdpdp', 'rale', 'rrhale') for _ in range(ctx.n(60, 500))]
    out += [regcase.gen(r, 'rshap') for _ in range(ctx.n(16, 100))]
    out += [regcase.gen(r, k, exact=True) for k in ('rpdp', 'rdpdp', 'rale', 'rrhale') for _ in range(ctx.n(25, 200))]
    for sc in out:              # keep more than the root
        if r.random() < .7:
            sc['cfg']['heter_pcg_drop_thres'] = r.choice([0.0, -5.0])
            sc['cfg']['heter_small_enough'] = 0.0
    r.shuffle(out)
    return out


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 11)
    if scs is not None:
        for sc in scs:
            if 'hist' in sc:
                session.replay(ctx, sc['setup'], session.Table(sc['setup']), sc['hist'], sc['seed'])
            else:
                regional.run(ctx, [sc])
        return
    regional.run(ctx, scenarios(ctx, r))
    if ctx.enough:
        return
    c01.run_kinds(ctx, r, [k for k in session.REGIONAL if k != 'rshap'], ['fit', 'eval', 'plot', 'report'], pairs=ctx.n(60, 1000), longs=ctx.n(20, 150), worlds=ctx.n(1, 4), bad=1)
    c01.run_kinds(ctx, r, ['rshap'], ['fit', 'eval', 'plot', 'report'], pairs=ctx.n(8, 100), longs=ctx.n(6, 40), worlds=ctx.n(1, 2), bad=1)
