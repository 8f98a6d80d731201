import random
import numpy as np
import acccase, bincase
import lattice as la
from eff import effector, bm, guarded


def gen_rank(r):
    """arbitrary reals: random positions, scales and magnitudes; judged by order only"""
    N = r.choice([1, 2, 3, 5, 10, 12, 20, 40, 60])
    method = r.choice(['fixed', 'greedy', 'dp'])
    mag = r.choice([0, 0, 0, 1e3, -1e6, 1e9])
    scale = r.choice([1, 1, 1e-9, 1e-3, 1e6, 1e12]) if not mag else abs(mag) * r.choice([1e-6, 1e-3, 1])
    t = r.choice(['u', 'u', 'n', 'dup', 'grid', 'int'])
    pool = [r.random() for _ in range(max(2, N // 3))]
    z = []
    for _ in range(N):
        z.append({'u': r.random(), 'n': r.gauss(0, 1), 'dup': r.choice(pool), 'grid': r.randint(0, 10) / 10,
                  'int': r.randint(0, 30)}[t])
    x = [mag + scale * v for v in z]
    lim = None
    if r.random() < .6:
        s = sorted(set(x))
        if r.random() < .5 or len(s) < 2:
            lim = [min(x) - r.random() * scale, max(x) + r.random() * scale]
        else:
            i = r.randrange(len(s) - 1)
            lim = [s[i], s[r.randrange(i + 1, len(s))]]
            if r.random() < .5:
                lim[1] = lim[0] + (lim[1] - lim[0]) * (.3 + r.random())
        if not lim[0] < lim[1]:
            lim = None
    return dict(kind='rank', x=x, lim=lim, method=method, ale=int(method == 'fixed' and r.random() < .5),
                K=r.choice([1, 2, 3, 7, 10, 20] if method == 'dp' else [1, 2, 3, 5, 7, 10, 33, 100]),
                minp=r.choice([0, 0, 1, 2, 3, 5, 10]), cat=r.choice([0, 2, 5, 10, 15]), disc=30, eseed=r.randrange(10 ** 6))


def run_rank(ctx, scen):
    todo = []
    for sc in scen:
        x = np.array(sc['x'])
        rs = np.random.RandomState(sc['eseed'])
        data = np.stack([rs.rand(len(x)), x], axis=1)
        L = None
        lo, hi = x.min(), x.max()
        if sc['lim'] is not None:
            lo, hi = sc['lim']
            L = np.array([[0.2, lo], [0.7, hi]])
        ins = x[(x >= lo) & (x <= hi)]
        if len(ins) == 0:
            continue
        kw = dict(min_points_per_bin=sc['minp'], cat_limit=sc['cat'])
        b = (bm.Fixed(nof_bins=sc['K'], **kw) if sc['method'] == 'fixed' else
             bm.Greedy(init_nof_bins=sc['K'], **kw) if sc['method'] == 'greedy' else bm.DynamicProgramming(max_nof_bins=sc['K'], **kw))

        def go():
            eff = np.stack([rs.randn(len(x)), np.rint(3 * rs.randn(len(x)))], axis=1)
            if sc['ale']:
                o = effector.ALE(data, lambda z: z[:, 0] + z[:, 1] ** 2, axis_limits=L)
            else:
                o = effector.RHALE(data, lambda z: z[:, 0] + z[:, 1] ** 2, axis_limits=L, data_effect=eff)
            o.fit(1, b, False)
            return acccase.limits_of(o, 1)
        ok, out = guarded(ctx, sc, 'rank', go, refusal_ok=True)
        if not ok and out is None:
            continue
        rec = dict(kind='rank', K=sc['K'], minp=sc['minp'], cat=sc['cat'], disc=30, method=sc['method'], e=[],
                   refused=0 if ok else 1, lim=[], cell=[], x=[], lo=0, hi=0)
        lim = np.asarray(out, dtype=float) if ok else np.array([])
        vals = np.unique(np.concatenate([ins, lim, [lo, hi]]))
        rank = lambda a: [int(v) for v in np.searchsorted(vals, a)]
        rec['x'], rec['lim'] = rank(ins), rank(lim)
        rec['lo'], rec['hi'] = rank([lo])[0], rank([hi])[0]
        rec['cell'] = [int(round(float((v - lo) / (hi - lo)) * 1e6)) for v in lim] if hi > lo else [0] * len(lim)
        if len(np.unique(ins)) <= sc['cat']:
            rec['cell'] = [0] * len(lim)
            # midpoints
            if ok:
                u = np.unique(ins)
                want = np.concatenate([[u[0] - (u[1] - u[0]) / 2], (u[:-1] + u[1:]) / 2, [u[-1] + (u[-1] - u[-2]) / 2]]) if len(u) > 1 else lim
                if lim.shape != want.shape or np.max(np.abs(lim - want)) > 1e-9 * (u[-1] - u[0]) + 1e-14 * np.abs(u).max():
                    ctx.fail(sc, 'rank', 'categorical limits are not midway between the values: %r' % lim)
        rec['drv'] = sc
        todo.append(rec)
    recs = ctx.tlc_by_id('Binning', scenarios=todo, shards=4, workers=2)
    for k, rec in ctx.having(recs, todo):
        bad = recs[k][0]['r']['out']
        if bad:
            ctx.fail(rec['drv'], 'rank', '; '.join(bad) + ' refused=%d limits(rank)=%r' % (rec['refused'], rec['lim']))
        ctx.traces += 1


def run_valid(ctx, scen):
    todo = []
    for sc in scen:
        if not inside(sc):
            continue
        o = bincase.observe(ctx, sc, 'valid')
        if o is None:
            continue
        what, lim, ll = o
        if what == 'limits' and ll is None:
            ctx.fail(sc, 'valid', 'limits are not on the grid: %r' % lim)
            continue
        t = bincase.tla(sc, 'valid', refused=int(what == 'refused'), lim=ll or [])
        t['drv'] = sc
        todo.append(t)
    recs = ctx.tlc_by_id('Binning', scenarios=todo, shards=4, workers=2)
    for k, t in ctx.having(recs, todo):
        bad = recs[k][0]['r']['out']
        ctx.count('refused', t['refused'])
        if bad:
            ctx.fail(t['drv'], 'valid', '%s; method=%s K=%d min=%d cat=%d limits=%r refused=%d' % (
                '; '.join(bad), t['method'], t['K'], t['minp'], t['cat'], t['lim'], t['refused']))
        ctx.traces += 1
    if todo:
        ctx.sample({k: v for k, v in todo[0].items() if k != 'drv'})


inside = bincase.inside


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 6)
    if scenarios:
        run_rank(ctx, [s for s in scenarios if s['kind'] == 'rank'])
        run_valid(ctx, [s for s in scenarios if s['kind'] != 'rank'])
        return
    run_valid(ctx, [acccase.gen(r, None, easy=r.random() < .5) for _ in range(ctx.n(250, 3000))])
    run_rank(ctx, [gen_rank(r) for _ in range(ctx.n(400, 5000))])
