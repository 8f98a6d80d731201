"""Conformance of ALE / RHALE with Effects.tla (kinds "fixed" and "limits"): the spec emits bins, members, the integer
statistics of every bin, the interpolation sources and the accumulation weights of every evaluation point."""
import numpy as np
from fractions import Fraction
import lattice as la
from eff import effector, bm, guarded

METHODS = {'fixed': bm.Fixed, 'greedy': bm.Greedy, 'dp': bm.DynamicProgramming}
# what the documented names stand for: cells, minimum, discount (percent), categorical limit
CLASSDEF = {'fixed': (100, 10, 0, 15), 'greedy': (100, 10, 30, 15), 'dp': (20, 10, 30, 15)}
NAMED = {'fixed': (20, 0, 0, 15), 'greedy': (100, 0, 30, 15), 'dp': (20, 0, 30, 15)}


def gen(r, kind=None, method=None, named=None, mild=False, small=False, easy=False):
    """kind 'ale' / 'rhale'; method fixed/greedy/dp; everything about the feature of interest lies on even lattice points"""
    kind = kind or r.choice(['ale', 'rhale'])
    method = 'fixed' if kind == 'ale' else (method or r.choice(['fixed', 'greedy', 'dp']))
    named = r.choice(['', '', '', '', 'name', 'name', 'class']) if named is None else named
    D = r.choice([1, 2, 2, 3, 4])
    f = r.randrange(D)
    big = not small and not named == 'class' and r.random() < .15
    N = r.choice([1, 2, 3, 5, 8, 12, 20, 30]) if not big else r.choice([80, 80, 150, 150, 300, 300, 1100])
    if easy:
        N = max(N, 8)
    if named == 'class':
        N = r.choice([9, 12, 19, 20, 25, 40, 60, 90])
    if named:
        K, minp, disc, cat = NAMED[method] if named == 'name' else CLASSDEF[method]
    else:
        K = r.choice([1, 2, 3, 4, 5, 8, 10, 20] if method != 'dp' else [2, 3, 4, 5, 6, 8])
        if method == 'greedy':
            K = r.choice([2, 3, 5, 8, 10, 20, 30])
        minp = r.choice([0, 0, 0, 1, 2, 3, 5, 10, None]) if not easy else r.choice([0, 0, 1])
        disc = r.choice([0, 10, 25, 30, 50, 75, 90, 100])
        cat = r.choice([0, 1, 2, 5, 10, 15, 15])
        if easy and N <= cat:
            cat = 2
    step = 2 * r.choice([1, 1, 2, 5])
    width = K * step
    fkind = r.choice(['num', 'num', 'num', 'edge', 'skew', 'cat', 'bool', 'const'] if not easy else ['num', 'num', 'edge', 'skew', 'cat'])
    X = la.gen_X(r, N, D, f, fkind, width // 2 if fkind != 'edge' else width // 2, span=r.choice([3, 8, 12]))
    if fkind == 'edge':      # values on the limits of the grid
        for u in X:
            if r.random() < .7:
                u[f] = (step // 2) * r.randint(0, K)
    shift = r.choice([0, 0, 0, -5, 7])
    for u in X:
        u[f] = 2 * (u[f] + shift)
    col = [u[f] for u in X]
    lo, hi = min(col), max(col)
    limits = None
    lattice_ok = (hi - lo) % (2 * K) == 0 and hi > lo
    if not lattice_ok or r.random() < .4:
        t = r.random()
        if t < .4:
            lo, hi = 2 * shift, 2 * shift + width
        elif t < .7:       # narrower than the data
            lo = r.choice(col)
            s2 = max(2, step // 2 * 2 if step < 4 else step // 4 * 2)
            hi = lo + K * s2
        else:              # wider
            lo = min(col) - 2 * r.randint(0, 4)
            hi = lo + (-(-(max(col) - lo) // (2 * K)) or 1) * 2 * K
        limits = la.others_box(r, X, f, lo, hi)
    nout = sum(1 for c in col if lo <= c <= hi)
    deriv = kind == 'rhale'
    src = r.choice(['jac', 'jac', 'effects', 'effects_only', 'numeric']) if deriv else 'model'
    small_ = src == 'numeric'
    a, b = la.pick_embedding(r, D, mild=mild or small_)
    alpha, beta = r.choice(la.OUTPUTS)
    umax = [max(abs(u[d]) for u in X) for d in range(D)]
    umax[f] = max(umax[f], abs(lo), abs(hi)) + 2
    grid = sorted({lo + (hi - lo) * k // K for k in range(K + 1)} | set(col))
    for k in range(60):
        model = la.gen_model(r, D, f, deriv=deriv, maxdeg=2 if k < 30 else 1, coeff=4 if k < 30 else 2,
                             mod=r.choice([5, 11, 19]), ncut=12)
        if la.term_bound(model, umax) > 10 ** 9:
            continue
        m = la.max_abs(model, X, f, col if deriv else grid, deriv)
        m0 = la.max_abs(model, X, f, grid)
        if (m if deriv else 2 * m) * N < 40000:
            break
    else:
        model = [dict(m=0, t=[dict(c=1, p=[1 if d == f else 0 for d in range(D)], g=[])])]
        m, m0 = 1, max(abs(g) for g in grid)
    E = []
    if src in ('effects', 'effects_only') and r.random() < .6:
        E = [r.randint(-20, 20) for _ in range(N)]       # given derivatives need not come from the model
    T = r.choice([1, 3, 6, 9])
    inner = [lo + (hi - lo) * k // K for k in range(K + 1)]
    xs = [r.choice([r.randint(lo, hi), r.randint(lo - 6, hi + 6), lo, hi, r.choice(inner), r.choice(col)]) for _ in range(T)]
    xs += [lo, hi]
    ints_only = all(float(x).is_integer() for x in a + b)
    smallr = max(abs(x) for x in a) + 200 * max(b) < 1e6
    dtypes = ['float64', 'float64', 'float64']
    if ints_only and smallr:
        dtypes += ['int64']
    sc = dict(kind='fixed', X=X, model=model, f=f + 1, lo=lo, hi=hi, der=int(deriv), E=E, xs=xs,
                K=K, minp=0 if minp is None else minp, cat=cat, method=method, disc=disc,
                drv=dict(m0=m0, a=a, b=b, alpha=alpha, beta=beta, L=limits, dtype=r.choice(dtypes), order=r.choice('CCF'),
                         src=src, named=named, minp=minp, fit=r.choice(['fit', 'fit', 'all', 'list', 'no' if named == 'name' and method == ('fixed' if kind == 'ale' else 'greedy') else 'fit']),
                         readonly=r.random() < .3, nout=nout, nof=r.choice(['all', N, N + 3, None])))
    if N <= 60 and r.random() < .12:
        la.widen(r, sc)
    return sc


def binning(sc):
    d = sc['drv']
    if d['named'] == 'name':
        return sc['method']
    if d['named'] == 'class':
        return METHODS[sc['method']]()
    kw = {'min_points_per_bin': d['minp'], 'cat_limit': sc['cat']}
    if sc['method'] == 'fixed':
        return bm.Fixed(nof_bins=sc['K'], **kw)
    if sc['method'] == 'greedy':
        return bm.Greedy(init_nof_bins=sc['K'], discount=sc['disc'] / 100, **kw)
    return bm.DynamicProgramming(max_nof_bins=sc['K'], discount=sc['disc'] / 100, **kw)


def build(sc, log=None):
    d = sc['drv']
    w = la.World(dict(X=sc['X'], model=sc['model'], a=d['a'], b=d['b'], alpha=d['alpha'], beta=d['beta']), log)
    data = w.data(d['dtype'], d['order'])
    kw = {}
    if d['L'] is not None:
        kw['axis_limits'] = w.limits(d['L'])
    if d['nof'] is not None:
        kw['nof_instances'] = d['nof']
    if sc['der']:
        eff = None
        if d['src'] in ('effects', 'effects_only'):
            base = w.data()
            eff = w.jac(base)
            if sc['E']:
                eff = np.random.RandomState(3).rand(*base.shape) * 7 - 3
                eff[:, sc['f'] - 1] = w.beta * np.array(sc['E']) / w.b[sc['f'] - 1]
            if d['readonly']:
                eff.setflags(write=False)
            kw['data_effect'] = eff
            if w.log is not None:
                del w.log[:]
    if d['readonly']:
        data.setflags(write=False)
    if sc['der']:
        jac = {'jac': w.jac, 'effects': w.jac, 'effects_only': None, 'numeric': None}[d['src']]
        obj = effector.RHALE(data, w.model, jac, **kw)
    else:
        obj = effector.ALE(data, w.model, **kw)
    return w, obj


def do_fit(sc, obj, centering=False):
    d = sc['drv']
    f = sc['f'] - 1
    if d['fit'] == 'no':
        return
    feats = 'all' if d['fit'] == 'all' and len(sc['X'][0]) == 1 else ([f] if d['fit'] == 'list' else f)
    b = binning(sc)
    if d['named'] == 'name' and d['fit'] == 'all' and b == ('greedy' if sc['der'] else 'fixed'):
        obj.fit(feats, centering=centering)
    else:
        obj.fit(feats, b, centering)


def limits_of(obj, f):
    """the bin limits of a fitted feature: from the fitted parameters, else from the bars of the plot"""
    fe = getattr(obj, 'feature_effect', {}).get('feature_%d' % f, {})
    if isinstance(fe, dict) and 'limits' in fe:
        return np.asarray(fe['limits'], dtype=float)
    import matplotlib.pyplot as plt
    plt.close('all')
    obj.plot(f)
    bars = [p for a in plt.gcf().axes for c in a.containers for p in getattr(c, 'patches', [])]
    xs = [p.get_x() for p in bars] + [bars[-1].get_x() + bars[-1].get_width()]
    plt.close('all')
    return np.asarray(xs)


def lattice_limits(sc, w, lim):
    """lattice image of the limits, or None when they are not lattice points"""
    f = sc['f'] - 1
    u = (np.asarray(lim, dtype=float) - w.a[f]) / w.b[f]
    k = np.rint(u)
    if u.ndim != 1 or not np.all(np.isfinite(u)) or np.any(np.abs(u - k) > 1e-6) or np.any(np.abs(k) > 10 ** 6):
        return None
    return [int(v) for v in k]


def curves(sc, w, rec):
    """exact eff/std per bin -> function centering -> (mean curve, std curve)"""
    f = sc['f'] - 1
    K = len(rec['n'])
    mean = [Fraction(rec['sum'][k], rec['d'][k] * rec['n'][k]) if rec['n'][k] else None for k in range(K)]
    var = [Fraction(rec['var'][k], (rec['d'][k] * rec['n'][k]) ** 2) if rec['n'][k] >= 2 else None for k in range(K)]

    def fill(v, src):
        out = []
        for k in range(K):
            l, q = src[k]
            out.append(v[l - 1] if l == q else v[l - 1] + Fraction(k + 1 - l, q - l) * (v[q - 1] - v[l - 1]))
        return out
    eff = fill(mean, rec['effsrc'])
    vr = fill(var, rec['varsrc'])
    sd = [float(np.sqrt(float(v))) for v in vr]
    return eff, vr, sd


def expected(sc, w, rec, centering):
    eff, vr, sd = curves(sc, w, rec)
    acc = [sum(p * e for p, e in zip(row, eff)) for row in rec['parts']]
    std = [sum(p * e for p, e in zip(row, sd)) for row in rec['parts']]
    slack = 0.0
    if centering == 'zero_start':
        c = sum(p * e for p, e in zip(rec['start'], eff))
        acc = [v - c for v in acc]
    elif centering:
        c = sum(p * e for p, e in zip(rec['integral2'], eff)) / (2 * rec['width'])
        acc = [v - c for v in acc]
        # the mean over the axis is taken numerically: bound of the midpoint rule on 99 cells, per kink of the curve
        ext = [0] + list(eff) + [0]
        jumps = sum(abs(ext[k + 1] - ext[k]) for k in range(len(ext) - 1))
        slack = 4 * float(jumps) * (rec['width'] / 99.0) ** 2 / 8 / rec['width']
    y = w.beta * np.array([float(v) for v in acc])
    s = abs(w.beta) * np.array(std)
    return y, s, abs(w.beta) * slack


def tol_of(sc, w, rec):
    K = len(rec['n'])
    m = max([1] + [abs(v) for v in rec['sum']])
    tot = max(1, sc['hi'] - sc['lo'])
    base = (sum(abs(rec['sum'][k]) / max(1, rec['n'][k] * rec['d'][k]) * (rec['limits'][k + 1] - rec['limits'][k]) for k in range(K))
            + max([abs(v) for v in rec['sum']] + [1]) * tot / max(1, min(rec['d'])))
    tol = 1e-9 * abs(w.beta) * base + 1e-12 * (abs(w.alpha) + abs(w.beta) * sc['drv']['m0']) * (K + 1) * 4
    if sc['drv']['src'] == 'numeric':
        f = sc['f'] - 1
        y = abs(w.alpha) + abs(w.beta) * max(1, sc['drv']['m0'])
        tol += 1e-6 * y * tot * w.b[f] + 1e-5 * abs(w.beta) * base
    return tol


def check(ctx, sc, rec, centerings, obj=None, w=None, clause=''):
    """rec: output of the spec for the actual bins.  Everything eval returns is compared."""
    f = sc['f'] - 1
    for c in centerings:
        def go():
            ww, o = build(sc)
            do_fit(sc, o, c)
            x = ww.real(f, sc['xs'])
            if sc['drv']['readonly']:
                x.setflags(write=False)
            y1 = o.eval(f, x, centering=c)
            y2 = o.eval(f, x, heterogeneity=True, centering=c)
            return ww, o, y1, y2
        ok, out = guarded(ctx, sc, clause + 'eval', go)
        if not ok:
            return
        w, o, y1, y2 = out
        y, s, slack = expected(sc, w, rec, c)
        tol = tol_of(sc, w, rec)
        if not la.isclose(y1, y, tol + slack):
            ctx.fail(sc, clause + 'mean', 'centering=%s: %s' % (c, la.maxdiff(y1, y)))
        if not (isinstance(y2, tuple) and len(y2) == 2):
            ctx.fail(sc, clause + 'het', 'heterogeneity=True does not return (y, std)')
            continue
        if not la.isclose(y2[0], y, tol + slack):
            ctx.fail(sc, clause + 'mean', 'het centering=%s: %s' % (c, la.maxdiff(y2[0], y)))
        if not la.isclose(y2[1], s, tol * 3):
            ctx.fail(sc, clause + 'std', 'centering=%s: %s' % (c, la.maxdiff(y2[1], s)))
        if c:     # a centered curve differs from the uncentered one by one constant
            y0 = expected(sc, w, rec, False)[0]
            dd = np.asarray(y1, dtype=float) - y0
            if not (np.max(dd) - np.min(dd) <= 4 * tol):
                ctx.fail(sc, clause + 'shift', 'centering=%s: eval is not the uncentered curve minus one constant (spread %g)' % (c, np.max(dd) - np.min(dd)))
        ctx.traces += 1
    if len(sc['X']) <= 8:
        ctx.sample({k: sc[k] for k in ('X', 'f', 'lo', 'hi', 'K', 'xs')})


def run_fixed(ctx, scen, centerings, clause=''):
    """kind fixed: the spec decides the bins or the refusal"""
    recs = ctx.tlc_by_id('Effects', scenarios=scen, shards=4, workers=2)
    for i, sc in ctx.having(recs, scen):
        rec = recs[i][0]['r']
        if sc['drv']['nout'] == 0:
            continue
        if rec['refused']:
            refusal(ctx, sc, clause)
        elif rec['defined']:
            check(ctx, sc, rec, centerings, clause=clause)
        if ctx.enough:
            break


def refusal(ctx, sc, clause=''):
    def go():
        w, o = build(sc)
        do_fit(sc, o)
        return o.eval(sc['f'] - 1, w.real(sc['f'] - 1, sc['xs']))
    ok, out = guarded(ctx, sc, clause + 'refusal', go, refusal_ok=True)
    ctx.count('refusals')
    if ok:
        ctx.fail(sc, clause + 'refusal', 'bins are impossible but eval returned %r' % (out,))


def run_searched(ctx, scen, centerings, clause=''):
    """greedy / dp: take the limits the code found, let the spec check and evaluate the curve on them"""
    todo = []
    for sc in scen:
        if sc['drv']['nout'] == 0:
            continue

        def go():
            w, o = build(sc)
            do_fit(sc, o)
            if sc['drv']['fit'] == 'no':
                o.eval(sc['f'] - 1, w.real(sc['f'] - 1, sc['xs']))
            return w, limits_of(o, sc['f'] - 1)
        ok, out = guarded(ctx, sc, clause + 'fit', go, refusal_ok=True)
        if not ok:
            ctx.count('refused')
            continue
        w, lim = out
        ll = lattice_limits(sc, w, lim)
        if ll is None:
            ctx.fail(sc, clause + 'limits', 'limits are not on the grid: %r' % lim)
            continue
        s2 = dict(sc)
        s2['limits'] = ll
        s2['kind'] = 'limits'
        todo.append(s2)
        if ctx.enough:
            return
    recs = ctx.tlc_by_id('Effects', scenarios=todo, shards=4, workers=2)
    for i, sc in ctx.having(recs, todo):
        rec = recs[i][0]['r']
        if rec['bad']:
            ctx.fail(sc, clause + 'limits', 'the bins %r are not increasing or do not contain every instance' % (sc['limits'],))
        elif rec['defined']:
            check(ctx, sc, rec, centerings, clause=clause)
        if ctx.enough:
            break
