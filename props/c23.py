"""C23: an answer does not depend on how the problem is written down (Symmetry.tla: rewritings composed by the specification,
carried over on small worlds exactly, and carried out on real problems)."""
import random
import symcase
from eff import guarded

ASSUMPTIONS = ['units are powers of two and origins dyadic, so that rewriting is exact; answers are compared up to 1e-6 of their range',
               'the Jacobian or the effects are given (a finite difference has a step in the units of the feature)',
               'the smoothing of a SHAP spline is absolute, so the unit of the output is left alone for SHAP-DP']


def small_worlds(r, n):
    out = []
    for _ in range(n):
        N = r.choice([2, 3])
        while True:
            X = [[r.randint(0, 3), r.randint(0, 3)] for _ in range(N)]
            if all(len({u[d] for u in X}) > 1 for d in range(2)):
                break
        ts = [dict(c=r.choice([-1, 1, 2]), p=[1, 1], g=[]), dict(c=r.choice([-1, 2]), p=[r.randint(0, 1), r.randint(0, 1)], g=[[r.randint(1, 2), r.randint(0, 2), r.choice([1, -1, 0])]])]
        p = list(range(1, N + 1))
        r.shuffle(p)
        gens = [dict(k='rows', p=p), dict(k='repeat', a=r.randint(0, 1)), dict(k='cols', p=[2, 1]), dict(k='dummy', a=r.randint(1, 3)), dict(k='unit', a=r.randint(1, 2), b=1),
                dict(k='origin', a=r.randint(1, 2), b=r.choice([-2, -1, 1, 3])), dict(k='outunit', b=1), dict(k='outorigin', b=r.choice([-4, 1, 5]))]
        out.append(dict(free=1, depth=3, X=X, limits=[0, r.choice([1, 2]), 3], model=[dict(m=0, t=ts)], gens=gens))
    return out


def compare(ctx, item):
    sc, rec = item
    j = symcase.Judge(ctx, sc, rec)
    guarded(ctx, sc, 'rewriting', j.judge, seconds=600)


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 23)
    if scs is None:
        ctx.tlc('Symmetry', scenarios=small_worlds(r, ctx.n(8, 40)), shards=4, workers=1)
        n = {'pdp': 60, 'dpdp': 40, 'ale': 60, 'rhale': 90, 'shap': 30, 'hindex': 30, 'repid': 20, 'rpdp': 40, 'rdpdp': 30, 'rale': 45, 'rrhale': 60, 'rshap': 16}
        scs = [symcase.gen(r, k) for k, m in n.items() for _ in range(ctx.n(m, 12 * m))]
        r.shuffle(scs)
    recs = ctx.tlc_by_id('Symmetry', scenarios=scs, shards=4, workers=1)
    items = [(sc, recs[i][0]) for i, sc in ctx.having(recs, scs)]
    ctx.pmap(compare, items)
    ctx.traces += len(items)
    for g in {g['k'] for sc in scs for g in sc['gens']}:
        ctx.count('rewritten: ' + g, sum(any(h['k'] == g for h in sc['gens']) for sc in scs))
    if items:
        ctx.sample(dict(kind=items[0][0]['kind'], gens=items[0][0]['gens'], weight=items[0][1]['weight']))
