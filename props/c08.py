import random
import bincase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 8)
    scen = scenarios or [bincase.gen_search(r, 'greedy') for _ in range(ctx.n(180, 2500))]
    todo = []
    for sc in scen:
        if not bincase.inside(sc):
            continue
        o = bincase.observe(ctx, sc, 'greedy')
        if o is None:
            continue
        what, lim, ll = o
        t = bincase.tla(sc, 'greedy', e=bincase.true_effects(sc))
        t['drv'] = dict(sc=sc, obs=[] if what == 'refused' else (ll if ll is not None else ['off grid']), lim=lim)
        todo.append(t)
    recs = ctx.tlc_by_id('Binning', scenarios=todo, shards=6, workers=1)
    for k, t in ctx.having(recs, todo):
        outs = [q['r']['out'] for q in recs[k]]
        if recs[k][0]['r']['searched']:
            ctx.count('searched')
        if len(outs) > 1:
            ctx.count('ties')
        if t['drv']['obs'] == [] and not recs[k][0]['r']['settled']:
            continue
        if t['drv']['obs'] not in outs:
            ctx.fail(t['drv']['sc'], 'greedy', 'limits %r, the merge rule gives %r (empty = refusal)' % (t['drv']['obs'], outs[:3]))
        ctx.traces += 1
    if todo:
        ctx.sample({k: v for k, v in todo[0].items() if k != 'drv'})
