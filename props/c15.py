"""C15: the artists of a figure against Plots.tla, given what eval returns for the same request."""
import contextlib, io, random
import numpy as np
import lattice as la, pdpcase, acccase, shapcase, draw
from eff import effector, guarded

ASSUMPTIONS = ['matplotlib draws the artists it was given']
STD = [(1, 1), (2, 1), (1, 2), (5, 2), (10, 1), (1, 8), (3, 4), (1, 10)]


def scaling(r):
    if r.random() < .35:
        return None
    p, q = r.choice(STD)
    return dict(p=p, q=q, mean=float(r.choice([0, 0, 3, -7.5, 40])))


def gen(r, kind):
    while True:
        if kind in ('pdp', 'dpdp'):
            sc = pdpcase.gen(r, r.choice(['small', 'small', 'small', 'one', 'p100', 'large']))
            if sc['der'] != (kind == 'dpdp') or sc['drv']['numeric']:
                continue
            ins = [u for u in sc['X'] if sc['lo'] <= u[sc['f'] - 1] <= sc['hi']]
            if not ins:
                continue
        elif kind == 'shap':
            sc = shapcase.gen(r)
        else:
            sc = acccase.gen(r, kind, easy=True, named='')
            if sc['drv']['src'] == 'numeric' or sum(sc['lo'] <= u[sc['f'] - 1] <= sc['hi'] for u in sc['X']) < 2:
                continue
        break
    d = sc['drv']
    D = len(sc['X'][0])
    ab = [r.choice([(0.0, 1.0), (0.0, 1.0), (-3.0, .5), (10.25, .125), (0.0, 16.0)]) for _ in range(D)]
    d['a'], d['b'] = [q[0] for q in ab], [q[1] for q in ab]
    d['alpha'], d['beta'] = r.choice([(0.0, 1.0), (0., 1.), (5.5, -2.0), (-100.0, 0.25), (0.0, 1e-3), (1., 100.)])
    if kind in ('pdp', 'dpdp'):
        d['vec'] = True
        d['nof'] = 'all'
    d['dtype'] = 'float64'
    het = {'pdp': [False, True, 'std', 'std_err', 'ice', 'ice', 'ice'], 'shap': [False, True, 'std', 'shap_values', 'shap_values'], 'ale': [False, True, True, 'std']}
    sc['plot'] = dict(heterogeneity=r.choice(het.get({'dpdp': 'pdp', 'rhale': 'ale'}.get(kind, kind))), centering=r.choice([False, True, 'zero_integral', 'zero_start']), sx=scaling(r), sy=scaling(r),
                      avg=r.choice([None, None, 'model', 'given', 'off']), names=r.random() < .6, target=r.random() < .5,
                      ylim=r.random() < .4, dylim=r.random() < .4, n=r.choice([None, 2, 7, 30, 13] if len(sc['X']) < 100 else [2, 5]), some=r.choice(['all', 'all', 1, 2, 5, 400, None] + ([110, 200] if len(sc['X']) > 100 else [])), before=r.random() < .5, kind=kind, seed=r.randrange(10 ** 6),
                      vec=r.random() < .5)
    p = sc['plot']
    if d['beta'] == 1e-3 and (p['avg'] == 'given' or p['ylim'] or p['sy'] and p['sy']['mean']):
        d['beta'] = .25         # all heights of a figure share one fixed-point unit: it has to tell the instances apart
    return sc


def make(sc, o_kw):
    """the object with label options: the constructors of the case modules, with extra arguments"""
    kind = sc['plot']['kind']
    cls = {'pdp': 'PDP', 'dpdp': 'DerPDP', 'ale': 'ALE', 'rhale': 'RHALE', 'shap': 'ShapDP'}[kind]
    orig = getattr(effector, cls)
    mod = {'pdp': pdpcase, 'dpdp': pdpcase, 'ale': acccase, 'rhale': acccase, 'shap': shapcase}[kind]
    try:
        setattr(effector, cls, lambda *a, **k: orig(*a, **k, **o_kw))
        out = mod.build(sc)
    finally:
        setattr(effector, cls, orig)
    return out[0], out[1]


class FP:
    """fixed point with a unit chosen from all the values seen"""
    def __init__(self, *arrays):
        v = np.concatenate([np.ravel(np.asarray(a, dtype=float)) for a in arrays] + [np.zeros(1)])
        v = v[np.isfinite(v)]
        self.u = max(float(np.max(np.abs(v))), 1e-300) / 1e7

    def __call__(self, v):
        v = np.asarray(v, dtype=float)
        if v.ndim == 0:
            return int(round(float(v) / self.u)) if np.isfinite(v) else 0
        return [self(q) for q in v]


def one(ctx, item):
    sc, phi = item
    if phi is None and sc['plot']['kind'] == 'shap':
        return None
    p = sc['plot']
    r = random.Random(p['seed'])
    kind = p['kind']
    acc = kind in ('ale', 'rhale')
    f, D = sc['f'] - 1, len(sc['X'][0])
    names = ['feat é%d' % (7 * d % 5) for d in range(D)] if p['names'] else None
    kw = {}
    if names:
        kw['feature_names'] = names
    if p['target']:
        kw['target_name'] = 'target ü'
    given = None
    if p['avg'] == 'given':
        given = kw['avg_output'] = float(r.choice([0.0, 12.5, -3.0]))

    def go():
        w, o = make(sc, kw)
        c = p['centering']
        with contextlib.redirect_stdout(io.StringIO()):
            if acc:
                try:
                    o.fit(f, acccase.binning(sc), c) if r.random() < .7 else o.fit(f, acccase.binning(sc))
                except (AssertionError, ValueError):        # whether a refusal is right is decided by C06 and C07
                    return None
            elif r.random() < .5:
                o.fit(f, centering=c)
        x0 = w.real(f, [sc['lo'], sc['hi']])
        if p['before']:
            o.eval(f, x0, True, r.choice([False, 'zero_start', True]))
        k = dict(heterogeneity=p['heterogeneity'], centering=c)
        for key, v in (('scale_x', p['sx']), ('scale_y', p['sy'])):
            if v or r.random() < .3:
                k[key] = v and dict(std=v['p'] / v['q'], mean=v['mean'])
        n = 0
        if not acc:
            n = p['n'] or 30
            if p['n']:
                k['nof_points'] = n
            if p['some'] is not None:
                k['nof_shap_values' if kind == 'shap' else 'nof_ice'] = p['some']
            if kind != 'shap' and p['vec']:
                k['use_vectorized'] = r.random() < .5
        if p['avg'] not in (None, 'off') or p['avg'] == 'off':
            k['show_avg_output'] = p['avg'] != 'off'
        lim = {}
        if p['ylim']:
            lim['y_limits'] = (-float(r.randint(1, 9)), float(r.randint(1, 20)))
        if acc and p['dylim']:
            lim['dy_limits'] = [-float(r.randint(1, 9)), float(r.randint(1, 20))]
        axes, _ = draw.draw(lambda: o.plot(f, **k, **lim))
        return w, o, axes, n, lim
    ok, out = guarded(ctx, sc, 'plot', go)
    if not ok:
        return None
    if out is None:
        ctx.count('refused binnings')
        return None
    w, o, axes, n, lim = out
    c = p['centering']
    sx = p['sx'] or dict(p=1, q=1, mean=0.0)
    sy = p['sy'] or dict(p=1, q=1, mean=0.0)
    if len(axes) != (2 if acc else 1):
        ctx.fail(sc, 'axes', '%d axes' % len(axes))
        return None
    items = []
    for ai, a in enumerate(axes):
        if acc and ai == 1:
            if a['lines'] or a['bands'] or a['hlines']:
                items.append(dict(t='other'))
            items += [dict(t='bar', l=b[0], r=b[0] + b[2], h=b[1] + b[3]) for b in a['bars']] + [dict(t='err', x=e[0], lo=e[1], hi=e[2]) for e in a['errs']]
            items += [dict(t='text', what='dy label', s=a['ylabel']), dict(t='text', what='x label', s=a['xlabel']), dict(t='limit', what='dy', lo=a['ylim'][0], hi=a['ylim'][1])]
            continue
        for l in a['lines']:
            if l['color'][:3] == (0.0, 0.0, 1.0):
                items.append(dict(t='curve', x=l['x'], y=l['y']))
            elif l['marker'] == 'x':
                items += [dict(t='point', x=u, y=v, label=int(not l['label'].startswith('_'))) for u, v in zip(l['x'], l['y'])]
            elif l['color'][:3] == (1.0, 0.0, 0.0):
                items.append(dict(t='ice', x=l['x'], y=l['y'], label=int(not l['label'].startswith('_'))))
            else:
                items.append(dict(t='other'))
        items += [dict(t='avg', y=h['y'][0]) for h in a['hlines']]
        items += [dict(t='band', x=b['x'], lo=b['lo'], hi=b['hi']) for b in a['bands']]
        if a['bars'] or a['errs']:
            items.append(dict(t='other'))
        items += [dict(t='text', what='title', s=a['title']), dict(t='text', what='y label', s=a['ylabel']), dict(t='limit', what='y', lo=a['ylim'][0], hi=a['ylim'][1])]
        if not acc:
            items.append(dict(t='text', what='x label', s=a['xlabel']))
    curve = [i for i in items if i['t'] == 'curve']
    if not curve or len(curve[0]['x']) < 2:
        ctx.fail(sc, 'curve', 'no curve')
        return None
    # what eval returns for the same request
    xs = (curve[0]['x'] - sx['mean']) * sx['q'] / sx['p'] if acc else np.linspace(*w.real(f, [sc['lo'], sc['hi']]), n)
    if acc:
        keep = sorted({0, len(xs) - 1} | {len(xs) * q // 24 for q in range(24)}) if len(xs) > 40 else list(range(len(xs)))
        xs = xs[keep]
        curve[0].update(x=curve[0]['x'][keep], y=curve[0]['y'][keep])

    def truth():
        y, s = o.eval(f, xs, True, c)
        ice = o.eval(f, xs, False, c, return_all=True) if kind in ('pdp', 'dpdp') else np.zeros((0, 0))
        bins, raw = [], 0.
        if acc:
            lims = acccase.limits_of(o, f)
            yl, sl = o.eval(f, lims, True, False)
            wd = np.diff(lims)
            bins = [lims[:-1], lims[1:], np.diff(yl) / wd, np.diff(sl) / wd]
        if kind == 'shap':
            raw = float(o.eval(f, xs[:1], False, False)[0] - y[0])
        return y, s, ice, bins, raw
    ok, t = guarded(ctx, sc, 'eval', truth)
    if not ok:
        return None
    y, s, ice, bins, raw = t
    if not all(np.all(np.isfinite(np.asarray(q, dtype=float))) for q in (y, s, ice, bins)):
        ctx.count('not finite %s' % kind)
        return None
    points = []
    if kind == 'shap':
        ph = w.beta * np.array(phi['phi'], dtype=float) / phi['den']
        points = [w.real(f, phi['x']), ph - raw]
        if p['heterogeneity'] == 'shap_values':    # the shap package treats nearly equal values as equal
            ctx.count('scattered')
    avg = [given if given is not None else float(np.mean(w.model(w.data())))] if p['avg'] in ('model', 'given') else []
    N = ice.shape[1] if len(ice) else len(points[0]) if points else len(sc['X'])
    collect = lambda *ks: [np.ravel(i[k]) for i in items for k in ks if k in i and i['t'] not in ('text',)]
    der = kind == 'dpdp'
    X = FP(*[np.ravel(i['x']) for i in items if 'x' in i], *[[i['l'], i['r']] for i in items if 't' in i and i['t'] == 'bar'], xs, *(bins[:2] if acc else []), *points[:1], [sx['mean']])
    yy = [np.ravel(i[k]) for i in items if i['t'] in ('curve', 'ice', 'avg', 'point') for k in ('y',)] + [np.ravel(i[k]) for i in items if i['t'] == 'band' for k in ('lo', 'hi')]
    noise = [1e-5 * (abs(w.alpha) + abs(w.beta))]     # of what is zero but for rounding, no digits are compared
    Y = FP(*yy, noise, y, s, ice, *points[1:], [sy['mean']] if not der or avg else [0], avg, lim.get('y_limits', [0]))
    B = FP(*[[i['h']] for i in items if i['t'] == 'bar'], *[[i['lo'], i['hi']] for i in items if i['t'] == 'err'], *bins[2:], lim.get('dy_limits', [0]))
    rec_items = []
    for i in items:
        q = dict(t=i['t'], bad=int(any(not np.all(np.isfinite(np.asarray(v, dtype=float))) for k, v in i.items() if k in ('x', 'y', 'lo', 'hi', 'l', 'r', 'h'))))
        slope = i['t'] in ('err',) or i.get('what') == 'dy'
        for k, v in i.items():
            if k in ('x', 'l', 'r'):
                q[k] = X(v)
            elif k in ('lo', 'hi'):
                fp = B if slope else Y
                if i['t'] == 'limit' and not (lim.get('dy_limits') if slope else lim.get('y_limits')):
                    v = 0.
                q[k] = fp(np.clip(v, -2e7 * fp.u, 2e7 * fp.u))
            elif k == 'y':
                q[k] = Y(v)
            elif k == 'h':
                q[k] = B(v)
            elif k in ('what', 's', 'label'):
                q[k] = v
        rec_items.append(q)
    title = {'pdp': 'PDP', 'dpdp': 'd-PDP', 'ale': 'ALE plot', 'rhale': 'RHALE plot', 'shap': 'SHAP Dependence Plot'}[kind]
    title = [title] if not acc else [title, title.replace('RHALE', 'rhale').replace('ALE', 'ale')]
    target = 'target ü' if p['target'] else 'y'
    xlabel = names[f] if names else 'x_%d' % f
    texts = [['title', q] for q in title] + [['x label', xlabel]] + [['y label', 'dy/dx' if der else target], ['dy label', 'dy/dx']]
    het = p['heterogeneity']
    het = 'none' if het is False else 'std' if het is True else het
    lims = lim.get('y_limits'), lim.get('dy_limits')
    some = p['some']
    rec = dict(method='acc' if acc else kind, heter=het, sx=dict(p=sx['p'], q=sx['q'], m=X(sx['mean'])), sy=dict(p=sy['p'], q=sy['q'], m=Y(sy['mean']) if not der or avg else 0),
               curve=dict(x=X(xs), y=Y(y), sd=Y(s)), n=n, lo=X(w.real(f, sc['lo'])), hi=X(w.real(f, sc['hi'])), N=N,
               ice=[Y(col) for col in ice.T] if het == 'ice' else [], points=[[X(u), Y(v)] for u, v in zip(*points)] if het == 'shap_values' else [],
               shown=min(N, some) if isinstance(some, int) else N, avg=[Y(q) for q in avg],
               bins=[dict(l=X(u), r=X(v), e=B(e), s=B(q)) for u, v, e, q in zip(*bins)] if acc else [],
               texts=texts, ylim=Y(lims[0]) if lims[0] else [], dylim=B(lims[1]) if lims[1] else [], items=rec_items)
    rec['barx'] = [q['l'] + q['r'] for q in rec_items if q['t'] == 'bar']
    if len(rec['barx']) < len(rec['bins']):
        rec['barx'] += [0] * (len(rec['bins']) - len(rec['barx']))
    if acc:
        rec['lo'], rec['hi'] = X(bins[0][0]), X(bins[1][-1])
    return rec


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 15)
    scs = scs or [gen(r, k) for k in ['pdp', 'pdp', 'dpdp', 'ale', 'rhale', 'rhale', 'shap', 'shap'] * ctx.n(60, 600)]
    shp = [i for i, s in enumerate(scs) if s['plot']['kind'] == 'shap']
    phis = ctx.tlc_by_id('Effects', scenarios=[{k: v for k, v in scs[i].items() if k not in ('drv', 'plot')} for i in shp], shards=6, workers=1)
    phi = {i: phis[j][0]['r'] for j, i in ctx.having(phis, shp)}
    obs = ctx.pmap(one, [(s, phi.get(i)) for i, s in enumerate(scs)])
    idx = [i for i, q in enumerate(obs) if q]
    recs = ctx.tlc_by_id('Plots', scenarios=[obs[i] for i in idx], shards=8, workers=1)
    for j, i in ctx.having(recs, idx):
        ctx.traces += 1
        p = scs[i]['plot']
        ctx.count('%s %s' % (p['kind'], obs[i]['heter']))
        ctx.count('artists', len(obs[i]['items']))
        bad = recs[j][0]['bad']
        if bad:
            k = min(max(recs[j][0]['at'] - 2, 0), len(obs[i]['items']) - 1)
            ctx.fail(scs[i], bad[0], '%s plot, %s: artist %d %s' % (p['kind'], {q: v for q, v in p.items() if q not in ('kind', 'seed')}, k, str(obs[i]['items'][k])[:400]))
    if idx:
        ctx.sample({k: v for k, v in obs[idx[0]].items() if k not in ('items', 'ice', 'curve')})
