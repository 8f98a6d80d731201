import random
import bincase


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 7)
    scen = scenarios or [bincase.gen_search(r, 'dp') for _ in range(ctx.n(180, 2500))]
    todo = []
    for sc in scen:
        if not bincase.inside(sc):
            continue
        o = bincase.observe(ctx, sc, 'dp')
        if o is None:
            continue
        what, lim, ll = o
        idx = []
        if what == 'limits':
            step = (sc['hi'] - sc['lo']) // sc['K']
            idx = [(v - sc['lo']) // step for v in ll] if ll and all((v - sc['lo']) % step == 0 for v in ll) else [0]
        t = bincase.tla(sc, 'dp', e=bincase.true_effects(sc), lim=idx, refused=int(what == 'refused'))
        t['drv'] = dict(sc=sc, ll=ll or [])
        todo.append(t)
    recs = ctx.tlc_by_id('Binning', scenarios=todo, shards=6, workers=1)
    for k, t in ctx.having(recs, todo):
        r_ = recs[k][0]['r']
        sc, ll = t['drv']['sc'], t['drv']['ll']
        out = r_['out']
        if t['refused'] and not r_['settled']:
            continue
        if r_['searched']:
            ctx.count('searched')
            ok_shape = t['lim'] and t['lim'][0] == 0 and t['lim'][-1] == sc['K'] and all(p < q for p, q in zip(t['lim'], t['lim'][1:]))
            if t['refused'] or not ok_shape:
                ctx.fail(sc, 'dp', 'a partition exists but the code %s' % ('refused' if t['refused'] else 'returned %r' % ll))
            elif not out['optimal']:
                ctx.fail(sc, 'dp', 'not optimal: cells %r cost %r, optimum %r (base 10^4 digits)' % (t['lim'], out['cost'], out['opt']))
        elif (out == [] and not t['refused']) or (out and (t['refused'] or ll != out)):
            ctx.fail(sc, 'direct', 'expected %r, observed %r refused=%d' % (out, ll, t['refused']))
        ctx.traces += 1
    if todo:
        ctx.sample({k: v for k, v in todo[0].items() if k != 'drv'})
