"""Drives regional objects through all their nodes and compares every answer with the global method on the node's
instances (as Regional.tla gives them), exactly where the specification evaluates the effect itself."""
import random
import numpy as np
import lattice as la
import core, regcase, draw, pdpcase, acccase
from session import same, CENS, Out
from eff import guarded

HET = {'pdp': [False, 'std', 'std_err', 'ice', True], 'dpdp': [False, 'std', 'std_err', 'ice', True], 'shap': [False, 'std', 'shap_values', True],
       'ale': [False, True, 'std'], 'rhale': [False, True, 'std']}


def cens(r):
    return [(c, r.choice(v)) for c, v in CENS.items()]


def points(c, r):
    """evaluation points: lattice points in and around the range of the feature (ints)"""
    col = [u[c.f] for u in c.sc['X']]
    lo, hi = min(col), max(col)
    return [r.choice(col), r.choice(col), r.randint(lo, hi), r.randint(lo, hi), lo, hi] + ([lo - 3, hi + 3] if c.base != 'shap' else [])


def value(fn):
    """('ok', value) or ('refused', text)"""
    try:
        with core.time_limit(90):
            return 'ok', fn()
    except core.CaseTimeout:
        raise
    except Exception as e:
        return 'refused', '%s: %s' % (type(e).__name__, e)


def plot_args(c, r):
    sx = sy = None
    if r.random() < .5:
        sx = [dict(mean=float(r.randint(-3, 9)), std=float(r.choice([.5, 2., 10., 1.25]))) for _ in range(c.D)]
    if r.random() < .5:
        sy = dict(mean=3.0, std=float(r.choice([.25, 4., 1.5])))
    kw = dict(heterogeneity=r.choice(HET[c.base]), centering=r.choice([q for v in CENS.values() for q in v]), scale_x_list=sx, scale_y=sy)
    if r.random() < .3:
        kw['y_limits'] = [-7, 11]
    if c.base in ('ale', 'rhale') and r.random() < .3:
        kw['dy_limits'] = [-2, 3.5]
    return kw


def observe(ctx, sc):
    """fit, evaluate all nodes in a random order with plots and reports in between"""
    r = random.Random(sc['seed'] + 7)
    c = regcase.Case(sc)

    def go():
        o = c.build()
        c.fit(o)
        t = o.tree_pruned['feature_%d' % c.f]
        if t is None:
            return c, None
        nodes = regcase.tree_record(c, t, c.effects())
        xi = points(c, r)
        x = c.w.real(c.f, xi)
        todo = [(n['idx'], cen, v, het) for n in nodes for cen, v in cens(r) for het in (False, True)]
        r.shuffle(todo)
        ev, plots = [], []
        for i, (k, cen, v, het) in enumerate(todo):
            ev.append((k, cen, v, het, value(lambda: o.eval(c.f, k, x, het, v))))
            if i % max(1, len(todo) // 3) == 1:
                k2 = r.choice(nodes)['idx']
                kw = plot_args(c, r)
                plots.append((k2, kw, value(lambda: draw.draw(lambda: o.plot(c.f, k2, **kw))[0])))
                if r.random() < .3:
                    Out(lambda: r.choice([o.show_partitioning, o.describe_subregions])(c.f, r.random() < .5, kw['scale_x_list']))
        # the same question again
        k, cen, v, het, a = r.choice(ev)
        ev.append((k, cen, v, het, value(lambda: o.eval(c.f, k, x, het, v))))
        return c, (nodes, xi, ev, plots)
    ok, out = guarded(ctx, sc, 'fit', go, seconds=200)
    if not ok or out[1] is None:
        return None
    c, (nodes, xi, ev, plots) = out
    index = {n['idx']: i + 1 for i, n in enumerate(nodes)}
    labels = []
    for k, kw, (st, d) in plots:
        if st != 'ok' or not d:
            continue
        name = d[-1]['xlabel']
        path, n = [], nodes[index[k] - 1]
        while n['parent']:
            path.insert(0, n)
            n = nodes[n['parent'] - 1]
        real = []
        for n in path:
            pos = c.w.real(n['d'] - 1, [float(n['pos'][0]) / n['pos'][1]])[0] if n['d'] and n['pos'][1] else 0.0
            if kw['scale_x_list']:
                s = kw['scale_x_list'][n['d'] - 1]
                pos = pos * s['std'] + s['mean']
            real.append(int(round(10000 * pos)) if abs(pos) < 200000 else 2000000001)
        labels.append(dict(node=index[k], real=real, name=regcase.parse_name(name, c.names, c.f)))
    scen = dict(X=sc['X'], f=c.f + 1, nodes=[dict(parent=n['parent'], d=n['d'], op=n['op'], pos=n['pos']) for n in nodes], labels=labels,
                xs=xi, kind='none', E=[], lo=0, hi=0, der=int(c.base in ('dpdp', 'rhale')), model=sc['model'])
    if sc['exact'] and c.base in ('pdp', 'dpdp'):
        scen.update(kind='pdp', P=100, sq=int(sq_ok(c)))
    elif sc['exact'] and c.base in ('ale', 'rhale'):
        b = sc['cfg']['binning_method'][1]
        scen.update(kind='fixed', K=b['nof_bins'], minp=b['min_points_per_bin'], cat=0, E=sc['E'])
    return dict(scen=scen, nodes=nodes, xi=xi, ev=ev, plots=plots)


def sq_ok(c):
    m = la.max_abs(c.sc['model'], c.sc['X'], c.f, sorted({u[c.f] for u in c.sc['X']} | {0, 99, 198, 297}), c.base == 'dpdp')
    return 2 * m * 100 * c.N < 46000


def judge(ctx, item):
    """compare one observed object with the regions and effects of the specification"""
    sc, ob, rec = item
    r = random.Random(sc['seed'] + 8)
    c = regcase.Case(sc)
    eff = c.effects()
    nodes, xi = ob['nodes'], ob['xi']
    x = c.w.real(c.f, xi)
    index = {n['idx']: i for i, n in enumerate(nodes)}
    for j in rec['badlabels']:
        l = ob['scen']['labels'][j - 1]
        ctx.fail(sc, 'plot label', 'node %d is labelled %r, its conditions are at %r' % (l['node'] - 1, l['name'], l['real']))
        return

    def fresh(k, v):
        rows = [i - 1 for i in rec['rows'][index[k]]]
        g = c.glob(rows, None, eff, r.choice([None, c.names]))
        if c.base in ('ale', 'rhale'):
            g.fit(c.f, c.bins(), v)
        return g
    memo = {}
    for k, cen, v, het, got in ob['ev']:
        key = k, cen, het
        if key not in memo:
            memo[key] = value(lambda: fresh(k, v).eval(c.f, x, het, v))
        want = memo[key]
        tag = 'eval(node %d, centering=%s, heterogeneity=%s)' % (k, v, het)
        if got[0] != want[0]:
            ctx.fail(sc, 'eval', '%s: %s, the global method on the region: %s' % (tag, got, want))
            return
        ctx.count('evaluations')
        if got[0] == 'ok' and not same(got[1], want[1], 1e-8):
            ctx.fail(sc, 'eval', '%s: %s, the global method on the region: %s' % (tag, got[1], want[1]))
            return
        if got[0] == 'ok':
            if not exact(ctx, sc, c, rec, index[k], v, het, got[1], tag, xi):
                return
    for k, kw, got in ob['plots']:
        rows = [i - 1 for i in rec['rows'][index[k]]]
        a = dict(kw)
        sx = a.pop('scale_x_list')
        a['scale_x'] = sx[c.f] if sx else None
        want = value(lambda: draw.draw(lambda: fresh(k, kw['centering']).plot(c.f, **a))[0])
        tag = 'plot(node %d, %s)' % (k, kw)
        if got[0] != want[0]:
            ctx.fail(sc, 'plot', '%s: %s, the global method on the region: %s' % (tag, got[0] if got[0] == 'ok' else got, want[0] if want[0] == 'ok' else want))
            return
        if got[0] == 'ok':
            g, w = got[1], want[1]
            for q in g + w:
                if q['xlabel']:
                    q['xlabel'] = '<label>'
            d = draw.differ(g, w, 1e-7)
            ctx.count('plots')
            if d:
                ctx.fail(sc, 'plot', '%s differs from the plot of the global method on the region: %s' % (tag, d))
                return
    ctx.traces += 1


def exact(ctx, sc, c, rec, i, v, het, got, tag, xi):
    """the specification evaluated the effect of this node"""
    o = rec['r'][i]
    if not o:
        return True
    o = o[0]
    X = [sc['X'][q - 1] for q in rec['rows'][i]]
    lo, hi = rec['limits'][i]
    m0 = la.max_abs(sc['model'], X, c.f, xi)
    q = dict(X=X, f=c.f + 1, lo=lo, hi=hi, xs=xi, der=int(c.base in ('dpdp', 'rhale')), drv=dict(numeric=False, dtype='float64', m0=m0, src='jac'))
    if c.base in ('pdp', 'dpdp'):
        _, mean, std = pdpcase.expected(q, c.w, o, v) if not (v not in (False, 'zero_start') and not o['zi']) else (0, None, None)
        tol = pdpcase.scale_of(q, c.w, o)
        slack = 0
    else:
        if o['refused'] or not o['defined']:
            if o['refused']:
                ctx.fail(sc, 'exact', tag + ': answered although bins are impossible')
            return not o['refused']
        mean, std, slack = acccase.expected(q, c.w, o, v)
        tol = acccase.tol_of(q, c.w, o)
    if mean is None:
        return True
    y, s = (got if het else (got, None))
    ctx.count('exact evaluations')
    if not la.isclose(y, mean, tol + slack):
        ctx.fail(sc, 'exact', '%s: mean %s' % (tag, la.maxdiff(y, mean)))
        return False
    if het and not la.isclose(s, std, 3 * tol):
        ctx.fail(sc, 'exact', '%s: heterogeneity %s' % (tag, la.maxdiff(s, std)))
        return False
    return True


def run(ctx, scs):
    obs = ctx.pmap(observe, scs)
    if ctx.enough:
        return
    idx = [i for i, q in enumerate(obs) if q]
    out = ctx.tlc_by_id('Regional', scenarios=[obs[i]['scen'] for i in idx], shards=8, workers=1, simpler=lambda s: dict(s, kind='none'))
    ctx.pmap(judge, [(scs[i], obs[i], out[j][0]) for j, i in enumerate(idx) if j in out])
    ctx.count('trees', len(idx))
    ctx.count('nodes', sum(len(obs[i]['nodes']) for i in idx))
    if idx:
        k = max(idx, key=lambda i: len(obs[i]['nodes']))
        ctx.sample(dict(kind=scs[k]['kind'], cfg=scs[k]['cfg'], evaluated=[e[:4] for e in obs[k]['ev'][:6]], plotted=[p[:2] for p in obs[k]['plots']]))
