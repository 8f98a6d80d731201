import contextlib, io, random
import numpy as np
import core, session
from eff import effector, bm, guarded

ASSUMPTIONS = ['the rows are recognised by their (pairwise different) values in the questions the model and the Jacobian get',
               'randomness of the subset is judged over 150 constructions: every row can be taken without any other row']

DEFAULT = {'pdp': 300, 'dpdp': 300, 'ale': -1, 'rhale': -1, 'shap': 100, 'rpdp': 1000, 'rdpdp': 1000, 'rale': -1, 'rrhale': -1, 'rshap': 100, 'hindex': 1000}
GLOBAL, REGIONAL = session.GLOBAL, session.REGIONAL


class Box:
    """a model whose questions are logged; every column of the data identifies the row"""
    def __init__(self, sc):
        g = np.random.RandomState(sc['seed'])
        self.N, self.D = sc['N'], sc['D']
        self.X = np.round(np.stack([g.permutation(self.N) for _ in range(self.D)], axis=1) + g.uniform(.05, .95, (self.N, self.D)), 6)
        self.w = g.uniform(-2, 2, self.D)
        self.E = g.uniform(-3, 3, (self.N, self.D))
        self.log = []

    def f(self, X):
        X = np.asarray(X, dtype=float)
        return X @ self.w + np.sin(X[:, 0] * .7) * X[:, -1] + .01 * X[:, 0] ** 2

    def df(self, X):
        X = np.asarray(X, dtype=float)
        J = np.tile(self.w, (X.shape[0], 1))
        J[:, 0] += .7 * np.cos(X[:, 0] * .7) * X[:, -1] + .02 * X[:, 0]
        J[:, -1] += np.sin(X[:, 0] * .7)
        return J

    def model(self, X):
        self.log.append(np.array(X, dtype=float, copy=True))
        return self.f(X)

    def jac(self, X):
        self.log.append(np.array(X, dtype=float, copy=True))
        return self.df(X)

    def ids(self, A, of=None):
        """row numbers (1..N) of complete rows, 0 for anything else"""
        of = self.X if of is None else of
        look = {tuple(r): i + 1 for i, r in enumerate(of.tolist())}
        A = np.asarray(A, dtype=float)
        if A.ndim != 2:
            return [0]
        return [look.get(tuple(r), 0) for r in A.tolist()]

    def seen(self, log):
        """rows of which some value occurs in the questions"""
        out = set()
        for A in log:
            for d in range(self.D):
                v = np.unique(A[:, d])
                out |= set((np.nonzero(np.isin(self.X[:, d], v))[0] + 1).tolist())
        return sorted(out)


def make(sc, b, data, eff, nof):
    kw = {} if nof is None else dict(nof_instances=nof)
    if sc['limits']:
        kw['axis_limits'] = np.stack([np.full(b.D, -.03125), np.full(b.D, b.N + .015625)])
    jac = b.jac if sc['jac'] else None
    k = sc['of']
    e = eff if sc['effects'] else None
    if k in REGIONAL and (nof == 'all' and len(data) < b.N or sc['seed'] % 2):
        # left out, the types are those of all the caller's rows (more than 10 different values)
        kw['feature_types'] = ['cont'] * b.D
    return {'pdp': lambda: effector.PDP(data, b.model, **kw), 'dpdp': lambda: effector.DerPDP(data, b.model, jac, **kw),
            'ale': lambda: effector.ALE(data, b.model, **kw), 'rhale': lambda: effector.RHALE(data, b.model, jac, data_effect=e, **kw),
            'shap': lambda: effector.ShapDP(data, b.model, **kw),
            'rpdp': lambda: effector.RegionalPDP(data, b.model, **kw), 'rdpdp': lambda: effector.RegionalDerPDP(data, b.model, jac, **kw),
            'rale': lambda: effector.RegionalALE(data, b.model, **kw),
            'rrhale': lambda: effector.RegionalRHALE(data, b.model, jac, instance_effects=e, **kw),
            'rshap': lambda: effector.RegionalShapDP(data, b.model, **kw),
            'hindex': lambda: effector.interaction.HIndex(data, b.model, **({} if nof is None else dict(nof_instances=nof))),
            'repid': lambda: effector.interaction.REPID(data, b.model, jac, nof)}[k]()


def use(sc, o, b, stage):
    """fit and evaluate; returns a flat list of numbers"""
    k, f = sc['of'], sc['f']
    x = np.linspace(.4375, b.N - .4375, 5) + 2 ** -9
    with contextlib.redirect_stdout(io.StringIO()):
        if k == 'hindex':
            return [o.eval_pairwise(f, (f + 1) % b.D), o.eval_one_vs_all(f)]
        if k == 'repid':
            return [o.eval_one_vs_all(f)]
        base = k[1:] if k in REGIONAL else k
        kw = {}
        if base in ('ale', 'rhale'):
            kw['binning_method'] = bm.Fixed(nof_bins=3 if sc['size'] > 3 else 1, min_points_per_bin=0, cat_limit=0)
        if k in GLOBAL:
            if base in ('pdp', 'dpdp', 'shap'):
                kw['points_for_centering'] = 7
            o.fit(f, centering=sc['cen'], **kw)
            out = [np.asarray(v, dtype=float) for v in o.eval(f, x, True, sc['cen'])]
            out.append(np.asarray(o.eval(f, x, False, False), dtype=float))
            if base in ('pdp', 'dpdp'):
                out.append(np.asarray(o.eval(f, x, False, False, return_all=True), dtype=float))
            return [v for a in out for v in a.ravel().tolist()]
        kw['centering'] = sc['cen']
        if base in ('pdp', 'dpdp', 'shap'):
            kw['points_for_centering'] = 7
        o.fit(f, heter_small_enough=0.0, heter_pcg_drop_thres=.05, max_depth=1, nof_candidate_splits_for_numerical=3, min_points_per_subregion=max(2, min(4, sc['size'] // 2)), **kw)
        t = o.tree_pruned['feature_%d' % f]
        out = []
        for n in (t.nodes if t is not None else []):
            out += [n.data['heterogeneity'], n.data['weight'], n.data['nof_instances']]
            try:
                out += [v for a in o.eval(f, n.idx, x, True, sc['cen']) for v in np.asarray(a, dtype=float).ravel().tolist()]
            except ValueError:      # a region whose bins cannot be filled, a spline without a solution
                out.append(-1e7)
        return out


def diff(a, b):
    if len(a) != len(b):
        return 2
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    if a.size == 0:
        return 0
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return 3
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    return int(np.any(np.abs(a - b) > 1e-7 * (1 + np.abs(b))))


def trace(ctx, sc):
    ev, names = [], []

    def add(e, name):
        ev.append(e)
        names.append(name)

    def go():
        b = Box(sc)
        k = sc['of']
        nof = None if sc['arg'] == 'default' else sc['arg']
        np.random.seed(sc['seed'] % 2 ** 31)
        o = make(sc, b, b.X, b.E, nof)
        if k in GLOBAL:
            # the average output is the only question a constructor asks: its rows in their order
            first = b.ids(b.log[0]) if b.log else [0]
            add(dict(op='construct', rows=first), 'rows chosen at construction')
            add(dict(op='query', rows=b.seen(b.log)), 'questions of the constructor')
            rows = first
            if getattr(o, 'data', None) is not None:
                add(dict(op='aligned', rows=b.ids(o.data)), 'obj.data')
            if sc['effects'] and k == 'rhale':
                add(dict(op='aligned', rows=b.ids(o.data_effect, b.E)), 'obj.data_effect')
        del b.log[:]
        a1 = use(sc, o, b, 1)
        q = b.seen(b.log)
        if k in REGIONAL:
            t = o.tree_full['feature_%d' % sc['f']]
            if t is None:
                return None
            root = t.nodes[0]
            rows = b.ids(root.data['data'])
            add(dict(op='construct', rows=rows), 'instances of the root')
            if k == 'rrhale' and sc['effects']:
                add(dict(op='aligned', rows=b.ids(root.data['data_effect'], b.E)), 'effects of the root')
        elif k in ('hindex', 'repid'):
            rows = q
            add(dict(op='set', rows=q), 'rows asked about')
        if q and not (k == 'rrhale' and sc['effects']):
            add(dict(op='query', rows=q), 'questions of fit and eval')
        if 0 in rows or not rows:
            return ev
        S = np.array(rows) - 1
        o2 = make(sc, b, b.X[S], b.E[S], 'all')
        a2 = use(sc, o2, b, 2)
        add(dict(op='result', diff=diff(a1, a2)), 'results against an object built from the chosen rows alone')
        del b.log[:]
        a3 = use(sc, o, b, 3)
        if not (k == 'rrhale' and sc['effects']):
            add(dict(op='query', rows=b.seen(b.log)), 'questions of a second fit')
        add(dict(op='result', diff=diff(a3, a1)), 'results of a second fit')
        return ev
    ok, out = guarded(ctx, sc, 'sampling', go, seconds=120)
    if not ok or out is None:
        return None
    return dict(kind='trace', N=sc['N'], nof=sc['nof'], ev=ev, names=names)


def draws(ctx, sc):
    def go():
        b = Box(sc)
        out = []
        np.random.seed(sc['seed'] % 2 ** 31)
        for _ in range(150):
            del b.log[:]
            o = make(sc, b, b.X, b.E, sc['arg'])
            if sc['of'] in GLOBAL:
                out.append(b.ids(b.log[0]) if b.log else [0])
            elif sc['of'] in REGIONAL:
                out.append(b.ids(o.data))
            else:
                o.eval_one_vs_all(sc['f'])
                out.append(b.seen(b.log))
        return out
    ok, out = guarded(ctx, sc, 'sampling', go, seconds=300)
    return dict(kind='trace', N=sc['N'], nof=sc['nof'], ev=[dict(op='draws', draws=out)], names=['150 constructions']) if ok else None


def gen(r, k):
    arg = r.choice(['all', 'below', 'below', 'below', 'below', 'equal', 'above', 'default'] if k != 'repid' else ['all', 'below', 'below', 'equal', 'above'])
    slow = k in ('shap', 'rshap')
    N = r.choice([6, 9, 14] if slow else [6, 9, 14, 25, 40])
    regional = k in REGIONAL
    low = 4 if slow else 2 if not regional else 5
    if regional:
        N = max(N, 14)
    if arg == 'below':
        nof = r.choice([max(low, N // 2), N - 1, max(low, N // 3)])
        arg = nof
    elif arg == 'equal':
        nof = arg = N
    elif arg == 'above':
        nof = arg = N + r.choice([1, 7, 1000])
    elif arg == 'all':
        nof = -1
    else:
        nof = DEFAULT[k]
        if nof > 0 and r.random() < .4 and not (k in ('rpdp', 'rdpdp', 'hindex')):
            N = nof + r.choice([1, 5, 20])
    return dict(of=k, N=N, D=r.choice([2, 3]), f=r.randrange(2), nof=nof, arg=arg, size=N if nof < 0 else min(nof, N), seed=r.randrange(10 ** 6),
                limits=r.random() < .5, jac=r.random() < .8, effects=r.random() < .6 and k in ('rhale', 'rrhale'), cen=r.choice([False, 'zero_start', 'zero_integral', True]), draws=False)


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 12)
    kinds = GLOBAL + REGIONAL + ['hindex', 'repid']
    if scenarios is None:
        design(ctx)
        scenarios = []
        for k in kinds:
            slow = k in ('shap', 'rshap')
            for _ in range(ctx.n(10 if slow else 40, 60 if slow else 300)):
                scenarios.append(gen(r, k))
            sc = gen(r, k)
            sc.update(N=7, D=3, f=0, nof=3 if k != 'hindex' else 4, arg=3 if k != 'hindex' else 4, size=3, draws=True)
            scenarios.append(sc)
            if k in ('rpdp', 'rdpdp', 'hindex') and (ctx.thorough or k != 'hindex'):
                sc = gen(r, k)
                sc.update(N=1003, nof=1000, arg='default', size=1000, f=0)
                scenarios.append(sc)
        r.shuffle(scenarios)
    todo = ctx.pmap(lambda sub, sc: draws(sub, sc) if sc['draws'] else trace(sub, sc), scenarios)
    idx = [i for i, t in enumerate(todo) if t]
    recs = ctx.tlc_by_id('Sampling', scenarios=[{q: v for q, v in todo[i].items() if q != 'names'} for i in idx], shards=6, workers=1)
    for j, i in ctx.having(recs, idx):
        bad = recs[j][0]['bad']
        ctx.traces += 1
        if bad:
            e = todo[i]['ev'][bad - 1]
            ctx.fail(scenarios[i], 'sampling', '%s, N=%d, nof_instances=%s: %s is not what the caller\'s rows allow: %s' % (
                scenarios[i]['of'], scenarios[i]['N'], scenarios[i]['arg'], todo[i]['names'][bad - 1], str(e)[:300]))
    if idx:
        ctx.sample(dict(scenario=scenarios[idx[0]], events=[str(e)[:120] for e in todo[idx[0]]['ev']]))


def design(ctx):
    ctx.tlc('Sampling', scenarios=[dict(kind='design', N=n, nof=k, ev=[]) for n in (1, 2, 3, 4, 5) for k in (-1, 0, 1, 2, 3, 5, 9)], workers=2)
