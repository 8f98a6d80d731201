import random
import shapcase

ASSUMPTIONS = ['scipy.interpolate.UnivariateSpline is a trusted operator', 'Shapley values are compared for at most 100 instances and 4 features']


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 16)
    scen = scenarios or [shapcase.gen(r) for _ in range(ctx.n(140, 1500))]
    recs = ctx.tlc_by_id('Effects', scenarios=scen, shards=6, workers=1)
    for i, sc in ctx.having(recs, scen):
        shapcase.check(ctx, sc, recs[i][0], [False])
        if ctx.enough:
            break
