import random
import acccase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 5)
    scen = scenarios or [acccase.gen(r, 'rhale', easy=r.random() < .7) for _ in range(ctx.n(300, 3000))]
    acccase.run_fixed(ctx, [s for s in scen if s['kind'] == 'fixed' and s['method'] == 'fixed'], [False])
    acccase.run_searched(ctx, [dict(s, kind='limits') for s in scen if s['method'] != 'fixed'], [False])
