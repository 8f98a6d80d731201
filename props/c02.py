import random
import pdpcase, acccase, shapcase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 2)
    cent = ['zero_start', 'zero_integral', True]
    if scenarios is None:
        pdp = [pdpcase.gen(r, tall=True) for _ in range(ctx.n(130, 1500))]
        acc = [acccase.gen(r, None, easy=True, named=r.choice(['', '', 'name'])) for _ in range(ctx.n(130, 1500))]
        shp = [shapcase.gen(r) for _ in range(ctx.n(40, 500))]
    else:
        pdp = [s for s in scenarios if s['kind'] == 'pdp']
        shp = [s for s in scenarios if s['kind'] == 'shap']
        acc = [s for s in scenarios if s['kind'] in ('fixed', 'limits')]
    recs = ctx.tlc_by_id('Effects', scenarios=pdp, shards=4, workers=2)
    for i, sc in ctx.having(recs, pdp):
        pdpcase.check(ctx, sc, recs[i][0], cent)
        if ctx.enough:
            return
    acccase.run_fixed(ctx, [dict(s, kind='fixed') for s in acc if s['method'] == 'fixed'], cent)
    acccase.run_searched(ctx, [s for s in acc if s['method'] != 'fixed'], cent)
    recs = ctx.tlc_by_id('Effects', scenarios=shp, shards=4, workers=2)
    for i, sc in ctx.having(recs, shp):
        shapcase.check(ctx, sc, recs[i][0], cent)
        if ctx.enough:
            return
