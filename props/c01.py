import random
import core, session

ASSUMPTIONS = ['histories of two calls exhaustively, longer ones at random; two features; fresh objects of the same tree are the oracle']


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 1)
    if scenarios is not None:
        for sc in scenarios:
            session.replay(ctx, sc['setup'], session.Table(sc['setup']), sc['hist'], sc['seed'])
        return
    mutants(ctx)
    run_kinds(ctx, r, session.GLOBAL, ['fit', 'eval', 'plot', 'bad'])


def mutants(ctx):
    """the invariants of the specification are not vacuous: broken designs are rejected"""
    for m in (1, 2, 3):
        path = ctx.write('mutant-%d.json' % m, dict(D=2, C=2, len=2, ops=['fit', 'eval', 'bad'], bad=1, mutant=m, possible=[[1, 1, 0], [1, 1, 1]], answers=[[1, 1, 0], [1, 1, 1]]))
        try:
            ctx.tlc('Session', env={'SCEN': path}, workers=2)
        except core.MachineryError as e:
            if 'Invariant' not in str(e):
                raise
        else:
            raise core.MachineryError('the broken design %d is not rejected by Session.tla' % m)


def run_kinds(ctx, r, kinds, ops, pairs=None, longs=None, worlds=None, bad=None):
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for kind in kinds:
        slow = kind in ('shap', 'rshap') or kind in session.REGIONAL
        for k in range(worlds or ctx.n(2, 8)):
            su = session.gen_setup(r, kind)
            try:
                tab = session.Table(su)
            except Exception as e:
                ctx.fail(dict(setup=su, hist=[], seed=0), 'construct', '%s: %s' % (type(e).__name__, e))
                continue
            for (f, c), e in tab.t.items():
                if e.get('broken'):
                    o = next(o for o in e['ans'].values() if o.refused)
                    if any(not q.refused for q in e['ans'].values()):
                        ctx.fail(dict(setup=su, hist=[], seed=0), 'fresh', 'eval of a fitted feature %d (configuration %d) fails for some options only: %s: %s' % (f, c, type(o.err).__name__, o.err))
            jobs.append((kind, su, tab, slow, r.randrange(10 ** 6), bad or len(session.Session(su).bad_calls(1))))
    if ctx.failures:
        return

    def tlc(j):
        kind, su, tab, slow, seed, nbad = j
        hs = session.behaviours(ctx, tab, 2, ops, nbad)
        ln = session.behaviours(ctx, tab, 9, ops, nbad, simulate=ctx.n(longs or (40 if slow else 80), 600), seed=seed)
        return hs, ln
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(tlc, jobs))
    items = []
    for j, (hs, ln) in zip(jobs, res):
        cap = pairs or ctx.n(120 if j[3] else 500, 100000)
        short = hs if len(hs) <= cap else r.sample(hs, cap)
        ctx.count('behaviours', len(hs) + len(ln))
        for h in short + ln:
            items.append((j[1], j[2], h, r.randrange(10 ** 6)))
    r.shuffle(items)
    ctx.pmap(lambda sub, it: session.replay(sub, *it), items)
    if items:
        ctx.sample(dict(kind=items[0][0]['kind'], hist=items[0][2]))
