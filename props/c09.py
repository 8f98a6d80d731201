"""C09: the tree of subregions partitions the data as its conditions say (Regions.tla; shared driver of C09 and C10)."""
import random
import regcase

ASSUMPTIONS = ['the heterogeneity of a region is what the global method of the tree under test returns for the instances of the region (C02-C05 and C16 validate it)',
               'ties and thresholds are judged with a tolerance of 1e-5 of the largest heterogeneity']
TAGS = ('tree', 'heterogeneity', 'name')


def scenarios(ctx, r):
    out = [regcase.gen(r, k) for k in ('rpdp', 'rdpdp', 'rale', 'rrhale') for _ in range(ctx.n(180, 1500))]
    out += [regcase.gen(r, 'rshap') for _ in range(ctx.n(50, 300))]
    out += [regcase.gen(r, k, exact=True) for k in ('rpdp', 'rdpdp', 'rale', 'rrhale') for _ in range(ctx.n(20, 150))]
    # homogeneous models: every split leaves nothing acceptable
    for _ in range(ctx.n(20, 80)):
        sc = regcase.gen(r, r.choice(['rpdp', 'rdpdp', 'rale', 'rrhale']))
        D = len(sc['X'][0])
        sc['model'] = [dict(m=0, t=[dict(c=2, p=[1 if q == d else 0 for q in range(D)], g=[]) for d in range(D)])]
        sc['effects'] = False
        out.append(sc)
    for sc in out:
        if sc['kind'] != 'rshap' and r.random() < .15:          # outputs in a tiny unit (cents, bytes, ...)
            sc['alpha'], sc['beta'] = 0.0, r.choice([-1, 1]) * 2.0 ** r.choice([24, 27, 30, 40])
    r.shuffle(out)
    return out


def run(ctx, scs=None, tags=TAGS, salt=9):
    r = random.Random(ctx.seed * 1000 + salt)
    if scs is None:
        scs = scenarios(ctx, r)
    recs = ctx.pmap(regcase.record, scs)
    if ctx.enough:
        return
    idx = [i for i, q in enumerate(recs) if q]
    out = ctx.tlc_by_id('Regions', scenarios=[recs[i] for i in idx], shards=8, workers=1)
    for j, i in ctx.having(out, idx):
        bad = [b for q in out[j] for b in q['bad'] if b[0] in tags]
        ctx.traces += 1
        ctx.count('trees with %d levels' % out[j][0]['lev'])
        ctx.count('kept levels %d' % max([n['level'] for n in recs[i]['pruned']] + [0]))
        if bad:
            ctx.fail(scs[i], bad[0][0], bad)
    ctx.count('not judged', len(scs) - len(idx))
    if idx:
        k = max(idx, key=lambda i: len(recs[i]['full']))
        ctx.sample(dict(kind=scs[k]['kind'], cfg=scs[k]['cfg'], nodes=[(n['name'], n['n'], n['h']) for n in recs[k]['full']]))
