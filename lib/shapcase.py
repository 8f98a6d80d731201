"""Conformance of SHAP-DP with Effects.tla (kind "shap").  The spec gives the exact Shapley values; the smoothing spline
(scipy.interpolate.UnivariateSpline) is a trusted, uninterpreted operator applied to them; for additive models that are
cubic in the feature the spec gives the curve itself."""
import numpy as np
from scipy.interpolate import UnivariateSpline
import lattice as la
from eff import effector, guarded


def gen(r, additive=None):
    additive = (r.random() < .4) if additive is None else additive
    D = r.choice([1, 2, 2, 3, 3, 4]) if not additive else r.choice([1, 2, 3])
    N = r.choice([5, 6, 8, 12, 18, 30]) if D < 4 else r.choice([5, 8, 10])
    f = r.randrange(D)
    for _ in range(200):
        span = r.choice([6, 10, 16, 30])
        X = la.gen_X(r, N, D, f, r.choice(['num', 'num', 'skew', 'edge']), span, span=r.choice([3, 8]))
        col = [u[f] for u in X]
        L = None
        lo, hi = min(col), max(col)
        if lo == hi:
            continue
        if r.random() < .5:
            if r.random() < .6:
                s = sorted(set(col))
                lo, hi = r.choice(s[:max(1, len(s) // 3)]), r.choice(s[-max(1, len(s) // 3):])
                if r.random() < .3:
                    hi += 1
            else:
                lo, hi = lo - r.randint(0, 2), hi + r.randint(0, 2)
            L = la.others_box(r, X, f, lo, hi)
        if lo >= hi:
            continue
        ins = [c for c in col if lo <= c <= hi]
        if len(ins) < 5 or len(set(ins)) < 5:
            continue
        if additive:
            p = [0] * D
            parts = [dict(m=0, t=[dict(c=r.choice([-2, -1, 1, 2, 3]), p=[e if d == f else 0 for d in range(D)], g=[])
                                  for e in r.sample([1, 2, 3], r.choice([1, 2]))])]
            if D > 1:
                d = r.choice([q for q in range(D) if q != f])
                parts.append(dict(m=r.choice([0, 5, 7]), t=[dict(c=3, p=[2 if q == d else 0 for q in range(D)],
                                                               g=[[d + 1, 3, 1]] if r.random() < .5 else [])]))
            model = parts
        else:
            model = la.gen_model(r, D, f, maxdeg=2, coeff=3, ncut=span)
        umax = [max(abs(u[d]) for u in X) for d in range(D)]
        umax[f] = max(umax[f], abs(lo), abs(hi)) + 2
        if la.term_bound(model, umax) * N * 24 * 2 > 2 * 10 ** 9:
            continue
        break
    else:
        return gen(r, additive)
    # the shap package treats values that agree to a relative 1e-5 as equal, so offsets stay small against the scale
    ab = [r.choice([(0.0, 1.0), (0.0, 1.0), (-3.0, .5), (10.25, .125), (1.0, .125), (-7.0, 1024.0), (0.0, 2.0 ** -12), (0.0, 2.0 ** 20)]) for _ in range(D)]
    a, b = [q[0] for q in ab], [q[1] for q in ab]
    alpha, beta = r.choice([(0.0, 1.0), (0.0, 1.0), (5.5, -2.0), (-100.0, 0.25), (1024.0, 0.0625)])
    xs = [r.choice([r.randint(min(ins), max(ins)), r.randint(lo, hi), lo, hi]) for _ in range(r.choice([1, 3, 7]))]
    return dict(kind='shap', X=X, model=model, f=f + 1, lo=lo, hi=hi, xs=xs, additive=int(additive), der=0, E=[],
                drv=dict(a=a, b=b, alpha=alpha, beta=beta, L=L, nof=r.choice([None, 'all', N, N + 5]),
                         dtype='int64' if all(float(q).is_integer() for q in a + b) and r.random() < .3 else 'float64',
                         order=r.choice('CF'), readonly=r.random() < .3, fit=r.choice(['no', 'fit', 'list']),
                         P=r.choice([100, 100, 20, 37])))


def build(sc):
    d = sc['drv']
    w = la.World(dict(X=sc['X'], model=sc['model'], a=d['a'], b=d['b'], alpha=d['alpha'], beta=d['beta']))
    data = w.data(d['dtype'], d['order'])
    if d['readonly']:
        data.setflags(write=False)
    kw = {}
    if d['L'] is not None:
        kw['axis_limits'] = w.limits(d['L'])
    if d['nof'] is not None:
        kw['nof_instances'] = d['nof']
    return w, effector.ShapDP(data, w.model, **kw)


def operator(x, phi):
    idx = np.argsort(x)
    x, phi = x[idx], phi[idx]
    m = UnivariateSpline(x, phi)
    return m, UnivariateSpline(x, np.abs(phi - m(x)))


def check(ctx, sc, rec, centerings):
    rec = rec['r']
    f = sc['f'] - 1
    for c in centerings:
        def go():
            w, o = build(sc)
            P = sc['drv']['P']
            if sc['drv']['fit'] != 'no':
                kw = {} if P == 100 else dict(points_for_centering=P)
                o.fit(f if sc['drv']['fit'] == 'fit' else [f], centering=c, **kw)
            x = w.real(f, sc['xs'])
            return w, o.eval(f, x, centering=c), o.eval(f, x, True, c)
        ok, out = guarded(ctx, sc, 'shap eval', go)
        if not ok:
            return
        w, y1, y2 = out
        x = w.real(f, rec['x'])
        phi = w.beta * np.array(rec['phi'], dtype=float) / rec['den']
        m, s = operator(x, phi)
        xs = w.real(f, sc['xs'])
        lo, hi = w.real(f, sc['lo']), w.real(f, sc['hi'])
        grid = m(np.linspace(lo, hi, 400))
        scale = np.max(np.abs(phi)) + np.max(np.abs(grid)) + 1e-9 * abs(w.alpha) + 1e-6 * abs(w.beta)
        # the spline's knots depend on a threshold of the residuals: rounding may only matter through it
        m2, s2 = operator(x, phi * (1 + 1e-9))
        unstable = np.max(np.abs(m2(np.linspace(lo, hi, 50)) - m(np.linspace(lo, hi, 50)))) > 1e-6 * scale \
            or np.max(np.abs(s2(xs) - s(xs))) > 1e-6 * scale
        tol = 1e-6 * scale + 1e-9 * abs(w.alpha)
        want, slack = m(xs), 0.0
        if c == 'zero_start':
            want = want - m(lo)
        elif c:
            want = want - np.mean((lambda t: (t[1:] + t[:-1]) / 2)(m(np.linspace(lo, hi, 4001))))
            slack = (0.02 if sc['drv']['P'] == 100 else .1) * (np.max(grid) - np.min(grid))
        if unstable or not np.all(np.isfinite(np.concatenate([grid, s(xs), m(xs)]))):
            ctx.count('unstable')
            continue
        if not la.isclose(y1, want, tol + slack):
            ctx.fail(sc, 'shap mean', 'centering=%s: %s' % (c, la.maxdiff(y1, want)))
        if not (isinstance(y2, tuple) and len(y2) == 2):
            ctx.fail(sc, 'shap het', 'heterogeneity=True does not return (y, std)')
            continue
        if not la.isclose(y2[0], y1, 0):
            ctx.fail(sc, 'shap mean', 'with and without heterogeneity differ: %s' % la.maxdiff(y2[0], y1))
        if not la.isclose(y2[1], s(xs), tol * 10):
            ctx.fail(sc, 'shap std', 'centering=%s: %s' % (c, la.maxdiff(y2[1], s(xs))))
        if c:
            d = np.asarray(y1) - m(xs)
            if np.max(d) - np.min(d) > 4 * tol:
                ctx.fail(sc, 'shap shift', 'centering=%s is not a constant shift' % c)
        if sc['additive'] and c is False:
            want = w.beta * np.array(rec['comp'], dtype=float) / len(rec['x'])
            if not la.isclose(y1, want, 1e-6 * (scale + np.max(np.abs(want)))):
                ctx.fail(sc, 'shap additive', la.maxdiff(y1, want))
            if np.max(np.abs(y2[1])) > 1e-6 * scale:
                ctx.fail(sc, 'shap additive', 'heterogeneity of an additive model is %r' % y2[1])
        ctx.traces += 1
    ctx.sample({k: sc[k] for k in ('X', 'f', 'lo', 'hi', 'xs')})
