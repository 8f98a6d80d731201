import random
import pdpcase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 3)
    scen = scenarios or [pdpcase.gen(r, tall=True) for _ in range(ctx.n(240, 3000))]
    recs = ctx.tlc_by_id('Effects', scenarios=scen, shards=4, workers=2)
    for i, sc in ctx.having(recs, scen):
        pdpcase.check(ctx, sc, recs[i][0], [False])
        if ctx.enough:
            break
