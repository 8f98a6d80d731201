import random
import acccase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 4)
    scen = scenarios or [acccase.gen(r, 'ale', easy=r.random() < .5) for _ in range(ctx.n(260, 3000))]
    acccase.run_fixed(ctx, scen, [False])
