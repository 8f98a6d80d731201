"""Conformance of PDP / d-PDP with Effects.tla (kind "pdp"): the spec emits the exact ICE matrix, the centering
constants and the row statistics; the real object is built, fitted and evaluated on the same scenario."""
import numpy as np
from fractions import Fraction
import lattice as la
from eff import effector, guarded


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


def gen(r, variant=None, center=False, tall=False):
    v = variant or r.choice(['small', 'small', 'small', 'p100', 'large', 'one'])
    D = r.choice([1, 2, 2, 3, 4, 5])
    f = r.randrange(D)
    der = r.random() < .4
    numeric = der and r.random() < .4
    fkind = r.choice(['num', 'num', 'edge', 'cat', 'bool', 'skew'])
    if v == 'p100':
        N, span, fkind = r.randint(1, 8), 99, r.choice(['num', 'edge'])
    elif v == 'large':
        N, span = r.choice([120, 250, 299, 300, 301, 420]), r.choice([6, 12, 20])
    elif v == 'one':
        N, span = 1, 10
    else:
        N, span = r.randint(2, 18), r.choice([4, 6, 10, 12])
    X = la.gen_X(r, N, D, f, fkind, span, span=r.choice([3, 8, span]))
    col = [u[f] for u in X]
    limits = None
    lo, hi = min(col), max(col)
    if lo == hi or r.random() < .5 or (v == 'p100' and hi - lo != 99):
        if v == 'p100':
            lo, hi = 0, 99
        else:
            t = r.random()
            if t < .5:      # narrow: some instances lie outside, bounds often on instances
                lo = r.choice(col)
                hi = max([c for c in col if c > lo] or [lo + 2]) if r.random() < .5 else lo + r.randint(1, max(2, span // 2))
            else:
                lo, hi = lo - r.randint(0, 3), hi + r.randint(1, 4)
            if lo >= hi:
                hi = lo + 2
        limits = la.others_box(r, X, f, lo, hi)
    w = hi - lo
    if v == 'p100':
        P = 100
    else:
        P = r.choice([d + 1 for d in divisors(w)])
        if r.random() < .1:
            P = 0
    plain = numeric
    a, b = la.pick_embedding(r, D, plain=plain and r.random() < .5, mild=plain)
    alpha, beta = r.choice(la.OUTPUTS)
    sq = 1
    for _ in range(50):
        model = la.gen_model(r, D, f, deriv=der, maxdeg=2 if v != 'large' else 1, coeff=4 if v != 'large' else 2,
                             mod=None if v != 'large' else r.choice([5, 11, 19]), ncut=span)
        if v == 'large' and not der and r.random() < .8:
            model = [dict(m=r.choice([5, 11, 19]), t=model[0]['t'])]
        umax = [max(abs(u[d]) for u in X) for d in range(D)]
        umax[f] = max(abs(lo - 5), abs(hi + 5), umax[f])
        if la.term_bound(model, umax) > 10 ** 9:
            continue
        grid = range(lo - 5, hi + 6)
        m = la.max_abs(model, X, f, grid, der)
        m0 = la.max_abs(model, X, f, grid) if numeric else m
        if m * N * max(2, P or N) < 10 ** 9 and m < 3 * 10 ** 6:
            sq = 1 if 2 * m * max(P, 2 if P else N) * N < 46000 else 0
            break
    else:
        m, m0 = 5, 5
        model = [dict(m=5, t=[dict(c=1, p=[1] * D, g=[])])]
        der = numeric = False
        sq = 0
    ints_only = all(float(x).is_integer() for x in a + b)
    small = max(abs(x) for x in a) + 40 * max(b) < 1e6
    dtypes = ['float64', 'float64']
    if ints_only and small:
        dtypes += ['int64', 'int32']
        if all(0 <= c <= 1 for u in X for c in u) and set(a) == {0.0} and set(b) == {1.0}:
            dtypes += ['bool', 'int8']
    if small and not numeric and min(b) >= 2 ** -3:
        dtypes.append('float32')
    T = r.choice([1, 2, 3, 5, 7]) if v != 'large' else r.choice([1, 2])
    xs = [r.choice([r.randint(lo, hi), r.randint(lo - 5, hi + 5), lo, hi]) for _ in range(T)]
    if T > 2 and r.random() < .4:
        xs[1] = xs[0]
    sc = dict(kind='pdp', X=X, model=model, f=f + 1, lo=lo, hi=hi, der=int(der), P=P, sq=sq, xs=xs,
              drv=dict(m0=m0, a=a, b=b, alpha=alpha, beta=beta, L=limits, dtype=r.choice(dtypes), order=r.choice('CCF'),
                         numeric=bool(numeric), nof=r.choice(['all', N, N + 7]) if N > 300 or r.random() < .7 else None,
                         fit=r.choice(['no', 'fit', 'fit_all', 'list']), vec=r.choice([True, True, False]),
                         ixs=ints_only and small and r.random() < .2, readonly=r.random() < .3, seedno=r.randrange(10 ** 6)))
    if v in ('small', 'one') and r.random() < .12 and sc['drv']['dtype'] not in ('bool', 'int8'):
        la.widen(r, sc)
    elif tall and r.random() < .12:
        # the same instances many times over and the same points many times over: thousands of questions at once
        d = sc['drv']
        d['tile'] = max(1, r.choice([400, 1100, 2600]) // N)
        d['rep'] = r.choice([0, 40, 130, 257])
        d['nof'] = r.choice(['all', N * d['tile'], N * d['tile'] + 7])
    return sc


def build(sc, log=None):
    d = sc['drv']
    w = la.World(dict(X=sc['X'], model=sc['model'], a=d['a'], b=d['b'], alpha=d['alpha'], beta=d['beta']), log)
    data = w.data(d['dtype'], d['order'])
    if d.get('tile', 1) > 1:
        data = np.array(np.tile(data, (d['tile'], 1)), order=d['order'])
    if d['readonly']:
        data.setflags(write=False)
    kw = {}
    if d['L'] is not None:
        kw['axis_limits'] = w.limits(d['L'])
    if d['nof'] is not None:
        kw['nof_instances'] = d['nof']
    if sc['der']:
        obj = effector.DerPDP(data, w.model, None if d['numeric'] else w.jac, **kw)
    else:
        obj = effector.PDP(data, w.model, **kw)
    return w, obj, data


def scale_of(sc, w, rec):
    f = sc['f'] - 1
    flat = [v for row in rec['ice'] for v in row] + list(rec['start'])
    k = abs(w.beta) * max([1] + [abs(v) for v in flat])
    if sc['der']:
        tol = 1e-7 * k / w.b[f]
        if sc['drv']['numeric']:
            tol += 1e-9 * (abs(w.alpha) + abs(w.beta) * sc['drv']['m0']) * 5
            tol += 4e-10 * (abs(w.a[f]) + 200 * w.b[f]) * k / w.b[f]       # rounding of the points a step of 1e-6 apart
        return tol
    tol = 1e-8 * k + 1e-12 * abs(w.alpha)
    if sc['drv']['dtype'] == 'float32':
        tol += 1e-5 * k
    # rounding of inexact centering points, amplified by the slope
    tol += 1e-15 * abs(w.a[f]) / w.b[f] * k * 50
    return tol


def real_ice(sc, w, ints):
    """ints: array of exact lattice values (or Fractions) of the spec -> real outputs"""
    x = np.array(ints, dtype=float)
    return w.beta * x / w.b[sc['f'] - 1] if sc['der'] else w.alpha + w.beta * x


def expected(sc, w, rec, centering):
    """(ice matrix, mean, std) expected by the spec"""
    ice = [[Fraction(v) for v in row] for row in rec['ice']]
    n = len(rec['rows'])
    if centering == 'zero_start':
        ice = [[v - s for v, s in zip(row, rec['start'])] for row in ice]
        stat, den = rec['zs'], 1
    elif centering:
        ice = [[v - Fraction(s, rec['P']) for v, s in zip(row, rec['integral'])] for row in ice]
        stat, den = rec['zi'], rec['P']
    else:
        stat, den = rec['raw'], 1
    slope = w.beta / w.b[sc['f'] - 1] if sc['der'] else w.beta
    off = 0.0 if (sc['der'] or centering) else w.alpha
    m = np.array([[float(v) for v in row] for row in ice]).reshape(len(sc['xs']), n)
    if stat and 'var' in stat[0]:
        mean = np.array([float(Fraction(s['sum'], s['n'] * den)) for s in stat])
        var = np.array([float(Fraction(s['var'], (s['n'] * den) ** 2)) for s in stat])
    else:
        mean = np.array([float(sum(row) / n) for row in ice])
        var = np.array([float(sum(v * v for v in row) / n - (sum(row) / n) ** 2) for row in ice])
    k, q = sc['drv'].get('tile', 1), rep_of(sc)
    return off + slope * np.tile(m, (1, k))[q], (off + slope * mean)[q], (abs(slope) * np.sqrt(var))[q]


def rep_of(sc):
    """which of the scenario's points are asked for, in which order"""
    T, n = len(sc['xs']), sc.get('drv', {}).get('rep', 0)
    return np.random.RandomState(sc['drv']['seedno']).randint(T, size=n) if n else np.arange(T)


def do_fit(sc, obj, centering):
    d = sc['drv']
    f = sc['f'] - 1
    P = 'all' if sc['P'] == 0 else sc['P']
    if d['fit'] == 'no' and centering in (False, 'zero_start') or (d['fit'] == 'no' and P == 100):
        return
    kw = dict(centering=centering, use_vectorized=d['vec'])
    if not (P == 100 and d['seedno'] % 2):
        kw['points_for_centering'] = P
    feats = f if d['fit'] in ('no', 'fit') else ('all' if d['fit'] == 'fit_all' else [f])
    obj.fit(feats, **kw)


def xs_of(sc, w):
    x = w.real(sc['f'] - 1, np.array(sc['xs'])[rep_of(sc)])
    if sc['drv']['ixs']:
        x = x.astype(np.int64)
    if sc['drv']['readonly']:
        x.setflags(write=False)
    return x


def check(ctx, sc, rec, centerings):
    """compare every evaluation option of the real object with the specification"""
    rec = rec['r']
    f = sc['f'] - 1
    if not rec['rows']:
        return
    for c in centerings:
        name = str(c)

        def go():
            w, obj, _ = build(sc)
            do_fit(sc, obj, c)
            x = xs_of(sc, w)
            res = {}
            for vec in (True, False):
                res['all', vec] = obj.eval(f, x, False, c, return_all=True, use_vectorized=vec)
                res['mean', vec] = obj.eval(f, x, False, c, use_vectorized=vec)
                res['het', vec] = obj.eval(f, x, heterogeneity=True, centering=c, use_vectorized=vec)
            return w, res
        ok, out = guarded(ctx, sc, 'eval', go)
        if not ok:
            return
        w, res = out
        ice, mean, std = expected(sc, w, rec, c)
        tol = scale_of(sc, w, rec)
        for vec in (True, False):
            tag = 'centering=%s vectorized=%s' % (name, vec)
            if not la.isclose(res['all', vec], ice, tol):
                ctx.fail(sc, 'ice', '%s: %s' % (tag, la.maxdiff(res['all', vec], ice)))
            if not la.isclose(res['mean', vec], mean, tol):
                ctx.fail(sc, 'mean', '%s: %s' % (tag, la.maxdiff(res['mean', vec], mean)))
            h = res['het', vec]
            if not (isinstance(h, tuple) and len(h) == 2):
                ctx.fail(sc, 'het', '%s: heterogeneity=True does not return (y, std)' % tag)
                continue
            if not la.isclose(h[0], mean, tol):
                ctx.fail(sc, 'mean', '%s het: %s' % (tag, la.maxdiff(h[0], mean)))
            if not la.isclose(h[1], std, tol):
                ctx.fail(sc, 'std', '%s: %s' % (tag, la.maxdiff(h[1], std)))
        ctx.traces += 1
    ctx.sample({k: sc[k] for k in ('X', 'f', 'lo', 'hi', 'xs', 'P')} if len(sc['X']) < 8 else {k: sc[k] for k in ('f', 'lo', 'hi', 'xs', 'P')})
