"""Replays the behaviours of Session.tla on real objects.  The oracle of every observation is a fresh object that was
fitted only with the configuration the specification names."""
import contextlib, io, os, random
import numpy as np
import lattice as la
import core
from eff import effector, bm
import matplotlib.pyplot as plt
os.environ.setdefault('TQDM_DISABLE', '1')

CENS = {0: [False], 1: ['zero_start'], 2: ['zero_integral', True]}
GLOBAL = ['pdp', 'dpdp', 'ale', 'rhale', 'shap']
REGIONAL = ['rpdp', 'rdpdp', 'rale', 'rrhale', 'rshap']
HET = {'pdp': [False, 'std', 'std_err', 'ice', True], 'shap': [False, 'std', 'std_err', 'shap_values', True]}


class Out:
    """outcome of a call: a value, or a refusal"""
    def __init__(self, fn):
        self.err = self.val = None
        try:
            with core.time_limit(60), contextlib.redirect_stdout(io.StringIO()):
                self.val = fn()
        except core.CaseTimeout:
            raise
        except Exception as e:
            self.err = e
        finally:
            if plt.get_fignums():
                plt.close('all')

    @property
    def refused(self):
        return self.err is not None


def binning(spec):
    if spec is None or isinstance(spec, str):
        return spec
    kind, kw = spec
    return {'fixed': bm.Fixed, 'greedy': bm.Greedy, 'dp': bm.DynamicProgramming}[kind](**kw)


def gen_setup(r, kind):
    """world, configurations and wrong calls of one session"""
    regional = kind in REGIONAL
    base = kind[1:] if regional else kind
    D = 2 if not regional else r.choice([2, 3])
    deriv = base in ('dpdp', 'rhale')
    N = r.choice([14, 20, 33]) if not regional else r.choice([24, 30, 40])
    if base == 'shap':
        N = r.choice([10, 14]) if not regional else r.choice([16, 24])
    kinds = ['num', 'num', 'num', 'skew', 'cat'] if not (base == 'shap') else ['num', 'skew']
    cols = [la.column(r, N, r.choice(kinds if d else ['num']), r.choice([20, 60])) for d in range(D)]
    if not regional and base != 'shap' and r.random() < .1:
        cols[1] = [3] * N
    X = [list(t) for t in zip(*cols)]
    model = la.gen_model(r, D, r.randrange(D), deriv=deriv, maxdeg=2, coeff=3, ncut=20)
    a, b = la.pick_embedding(r, D, mild=True)
    alpha, beta = r.choice([(0.0, 1.0), (5.5, -2.0), (1.0, .25)])
    L = None
    if r.random() < .5:
        L = [[], []]
        for d in range(D):
            col = [u[d] for u in X]
            lo, hi = min(col), max(col)
            t = r.random()
            if base != 'shap' and t < .4 and not regional:
                inner = lo + (hi - lo) // 5, hi - (hi - lo) // 5
                if sum(inner[0] <= v <= inner[1] for v in col) > 1:          # (limits without instances answer nothing)
                    lo, hi = inner
            elif t < .7:
                lo, hi = lo - 1, hi + 3
            L[0].append(lo)
            L[1].append(hi if hi > lo or not r.random() < .7 else lo + 4)
    big = N + 1
    if not regional:
        if base == 'pdp' or base == 'dpdp':
            cfg = [None, 5, 20, 'all']
        elif base == 'shap':
            cfg = [None, 7, 31]
        elif base == 'ale':
            cfg = [None, ['fixed', dict(nof_bins=7, min_points_per_bin=0)], ['fixed', dict(nof_bins=3, min_points_per_bin=r.choice([2, 3]), cat_limit=r.choice([2, 15]))],
                   ['fixed', dict(nof_bins=4, min_points_per_bin=big, cat_limit=1)], 'fixed']
        else:
            cfg = [None, 'dp', ['fixed', dict(nof_bins=4, min_points_per_bin=0)], ['greedy', dict(init_nof_bins=10, discount=.1, min_points_per_bin=r.choice([2, 4]))],
                   ['dp', dict(max_nof_bins=5, min_points_per_bin=big)], ['greedy', dict(init_nof_bins=30, discount=.5, min_points_per_bin=0)]]
    else:
        one = dict(heter_small_enough=0.0, heter_pcg_drop_thres=r.choice([.01, .1, .3]), max_depth=min(2, D - 1), nof_candidate_splits_for_numerical=r.choice([2, 3]), min_points_per_subregion=4)
        two = dict(heter_small_enough=0.0, heter_pcg_drop_thres=0.0, max_depth=1, nof_candidate_splits_for_numerical=4, min_points_per_subregion=5,
                   candidate_conditioning_features=[r.randrange(D)] if r.random() < .3 else 'all', split_categorical_features=r.random() < .5,
                   centering=r.choice([False, True, 'zero_start']))
        thr = dict(max_depth=D + 1, nof_candidate_splits_for_numerical=2)
        if base == 'ale':
            one['binning_method'] = ['fixed', dict(nof_bins=5, min_points_per_bin=0)]
            two['binning_method'] = r.choice(['fixed', ['fixed', dict(nof_bins=3, min_points_per_bin=2)]])
        if base == 'rhale':
            one['binning_method'] = ['fixed', dict(nof_bins=5, min_points_per_bin=0)]
            two['binning_method'] = r.choice(['dp', ['dp', dict(max_nof_bins=4, min_points_per_bin=2)], ['greedy', dict(init_nof_bins=8, min_points_per_bin=2)]])
        cfg = [None, one, two, thr]
    su = dict(kind=kind, X=X, model=model, a=a, b=b, alpha=alpha, beta=beta, L=L, cfg=cfg, effects=int(r.random() < .4), jac=int(r.random() < .8),
                names=int(r.random() < .4), xi=[[r.random() * 1.3 - .15 for _ in range(4)] + [0.0, 1.0] for _ in range(D)])
    if not regional and base != 'shap' and r.random() < .35:
        # the features of the session are two of eleven or more; their numbers may have two digits
        su['f'] = 1
        su['at'] = la.widen(r, su)[0]
        del su['f']
    return su


class Session:
    """one real object and the calls of the specification on it"""
    def __init__(self, su, seed=0, own=None):
        self.own = own or (lambda name, v: v)
        self.su, self.kind = su, su['kind']
        self.regional = self.kind in REGIONAL
        self.base = self.kind[1:] if self.regional else self.kind
        self.r = random.Random(seed)
        w = self.w = la.World({k: su[k] for k in ('X', 'model', 'a', 'b', 'alpha', 'beta')})
        self.at = su.get('at') or list(range(w.D))      # the features the session is about
        self.D = len(self.at)
        data = self.own('data', w.data())
        kw = {'nof_instances': su.get('nof', 'all')}
        if su['L']:
            kw['axis_limits'] = self.own('axis_limits', w.limits(su['L']))
        if su['names']:
            kw['feature_names'] = self.own('feature_names', ['f%d' % d for d in range(w.D)])
            kw['target_name'] = 'out'
        if su.get('types'):
            kw['feature_types'] = self.own('feature_types', list(su['types']))
        jac = w.jac if su['jac'] else None
        eff = self.own('effects', w.jac(data)) if su['effects'] else None
        c = {'pdp': lambda: effector.PDP(data, w.model, **kw), 'dpdp': lambda: effector.DerPDP(data, w.model, jac, **kw),
             'ale': lambda: effector.ALE(data, w.model, **kw), 'rhale': lambda: effector.RHALE(data, w.model, jac, data_effect=eff, **kw),
             'shap': lambda: effector.ShapDP(data, w.model, **kw),
             'rpdp': lambda: effector.RegionalPDP(data, w.model, **kw), 'rdpdp': lambda: effector.RegionalDerPDP(data, w.model, jac, **kw),
             'rale': lambda: effector.RegionalALE(data, w.model, **kw),
             'rrhale': lambda: effector.RegionalRHALE(data, w.model, jac, instance_effects=eff, **kw),
             'rshap': lambda: effector.RegionalShapDP(data, w.model, **kw)}
        with core.time_limit(60):
            self.obj = c[self.kind]()
        self.pool = {}

    # ---- configurations
    def config(self, c):
        """the configuration object; the same object is handed to several calls of one session"""
        if c not in self.pool:
            v = self.su['cfg'][c]
            if isinstance(v, dict):
                v = dict(v)
                if 'binning_method' in v:
                    v['binning_method'] = binning(v['binning_method'])
            elif self.base in ('ale', 'rhale'):
                v = binning(v)
            self.pool[c] = self.own('configuration', v)
        return self.pool[c]

    def fit(self, fs, c, cen, noise=True):
        r = self.r
        feats = [self.at[f - 1] for f in fs]
        if len(feats) == 1 and r.random() < .6:
            feats = feats[0]
        elif feats == list(range(self.w.D)) and r.random() < .5:
            feats = 'all'
        self.own('features', feats)
        kw = {}
        cv = r.choice(CENS[cen]) if noise else CENS[cen][0]
        dflt = {'pdp': True, 'dpdp': False, 'ale': 'zero_integral', 'rhale': False, 'shap': False}[self.base] if not self.regional else False
        if not (noise and cv in (dflt,) and r.random() < .4):
            kw['centering'] = cv
        v = self.config(c)
        if self.regional:
            # the centering of a regional fit is one of its search parameters: it belongs to the configuration
            if self.base in ('pdp', 'dpdp'):
                kw.pop('centering', None)
            kw.update(v or {})
        elif v is not None:
            kw['points_for_centering' if self.base in ('pdp', 'dpdp', 'shap') else 'binning_method'] = v
        if noise and self.base in ('pdp', 'dpdp') and r.random() < .5:
            kw['use_vectorized'] = r.random() < .5
        return Out(lambda: self.obj.fit(feats, **kw))

    def xs(self, f):
        g = self.at[f - 1]
        col = self.w.data()[:, g]
        lo, hi = (col.min(), col.max()) if not self.su['L'] else self.w.limits(self.su['L'])[:, g]
        return lo + (hi - lo) * np.array(self.su['xi'][f - 1])

    def eval(self, f, cen, het=None, node=None, noise=True):
        r = self.r
        het = r.random() < .5 if het is None else het
        cv = r.choice(CENS[cen]) if noise else CENS[cen][0]
        x = self.own('xs', self.xs(f))
        if self.regional:
            return self.ret(Out(lambda: self.obj.eval(self.at[f - 1], node, x, het, cv)))
        kw = {}
        if noise and self.base in ('pdp', 'dpdp') and r.random() < .4:
            kw['use_vectorized'] = r.random() < .5
        if noise and self.base in ('pdp', 'dpdp') and r.random() < .2:
            self.ret(Out(lambda: self.obj.eval(self.at[f - 1], x, het, cv, return_all=True)))
        return self.ret(Out(lambda: self.obj.eval(self.at[f - 1], x, het, cv, **kw)))

    def ret(self, o):
        if not o.refused:
            for v in (o.val if isinstance(o.val, tuple) else (o.val,)):
                self.own('returned', v)
        return o

    def scale(self):
        r = self.r
        if r.random() < .5:
            return None, None
        return (self.own('scale_x', [dict(mean=float(r.randint(-3, 9)), std=float(r.choice([.5, 2, 10]))) for _ in range(self.w.D)]), self.own('scale_y', dict(mean=3.0, std=4.0)))

    def plot(self, f, cen, node=None):
        r = self.r
        sx, sy = self.scale()
        het = r.choice(HET.get(self.base, [False, True, 'std'] if self.base != 'dpdp' else HET['pdp']))
        cv = r.choice(CENS[cen])
        if self.regional:
            return Out(lambda: self.obj.plot(self.at[f - 1], node, het, cv, sx, sy))
        kw = dict(heterogeneity=het, centering=cv, scale_x=sx[self.at[f - 1]] if sx else None, scale_y=sy, show_avg_output=r.random() < .5)
        if r.random() < .3:
            kw['y_limits'] = self.own('y_limits', [-5, 5])
        return Out(lambda: self.obj.plot(self.at[f - 1], **kw))

    def report(self, f):
        sx, _ = self.scale()
        imp = self.r.random() < .5
        feats = self.own('features', self.r.choice([self.at[f - 1], [self.at[f - 1]]]))
        if self.r.random() < .5:
            return Out(lambda: self.obj.show_partitioning(feats, imp, sx))
        return Out(lambda: self.obj.describe_subregions(feats, imp, sx))

    # ---- wrong calls
    def bad_calls(self, f):
        o, x, g = self.obj, self.xs(f), self.at[f - 1]
        b = []
        ev = (lambda c: o.eval(g, 0, x, False, c)) if self.regional else (lambda c: o.eval(g, x, False, c))
        evh = (lambda c: o.eval(g, 0, x, True, c)) if self.regional else (lambda c: o.eval(g, x, True, c))
        pl = (lambda **kw: o.plot(g, 0, **kw)) if self.regional else (lambda **kw: o.plot(g, **kw))
        b += [('eval centering', lambda: ev('foo')), ('eval centering het', lambda: evh('zero')), ('eval centering int', lambda: ev(3)),
              ('plot centering', lambda: pl(centering='foo')), ('plot heterogeneity', lambda: pl(heterogeneity='foo')),
              ('plot heterogeneity int', lambda: pl(heterogeneity=2))]
        if not self.regional:
            b += [('fit centering', lambda: o.fit(g, centering='foo')), ('fit centering int', lambda: o.fit([g], centering=7))]
            if self.base in ('ale', 'rhale'):
                b += [('binning name', lambda: o.fit(g, binning_method='kmeans')), ('binning type', lambda: o.fit('all', binning_method=12))]
            if self.base == 'ale':
                b += [('ale greedy', lambda: o.fit(g, binning_method='greedy')), ('ale dp', lambda: o.fit(g, 'dp')),
                      ('ale Greedy()', lambda: o.fit(g, bm.Greedy(min_points_per_bin=0))), ('ale DP()', lambda: o.fit(g, bm.DynamicProgramming(min_points_per_bin=0)))]
        else:
            b += [('min points', lambda: o.fit(g, min_points_per_subregion=1)), ('min points 0', lambda: o.fit([g], min_points_per_subregion=0)),
                  ('depth', lambda: o.fit(g, max_depth=self.w.D + 1, split_categorical_features=True)), ('depth foc', lambda: o.fit(g, max_depth=2, candidate_conditioning_features=[(g + 1) % self.w.D], split_categorical_features=True)),
                  ('node', lambda: o.eval(g, 99, x)), ('node het', lambda: o.eval(g, 57, x, True, 'zero_start')), ('node -1', lambda: o.eval(g, -1, x)),
                  ('plot node', lambda: o.plot(g, 99)), ('plot node scaled', lambda: o.plot(g, 57, scale_x_list=[dict(mean=0., std=2.)] * self.w.D))]
            if self.base in ('ale', 'rhale'):
                b += [('binning name', lambda: o.fit(g, binning_method='kmeans')), ('binning type', lambda: o.fit(g, binning_method=12))]
        return b

    def nodes(self, f):
        """node indices that exist (of the pruned tree, which is what eval shows)"""
        t = self.obj.tree_pruned.get('feature_%d' % self.at[f - 1])
        return None if t is None else sorted(n.idx for n in t.nodes)


def flat(v):
    return [np.asarray(q, dtype=float) for q in (v if isinstance(v, tuple) else (v,))]


def same(got, want, tol=1e-9):
    got, want = flat(got), flat(want)
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g.shape != w.shape:
            return False
        s = tol * (1 + np.max(np.abs(np.where(np.isfinite(w), w, 0)))) if w.size else tol
        if not (np.array_equal(np.isnan(g), np.isnan(w)) and np.all((np.abs(g - w) <= s) | np.isnan(w) | (g == w))):
            return False
    return True


class Table:
    """fresh object fitted only with configuration c for feature f, and everything it answers"""
    def __init__(self, su):
        self.su, self.D = su, len(su.get('at') or su['X'][0])
        self.C = len(su['cfg']) - 1
        self.t = {}
        for f in range(1, self.D + 1):
            for c in range(self.C + 1):
                s = Session(su)
                fit = s.fit([f], c, 0, noise=False)
                e = dict(fit=not fit.refused, err=fit.err, nodes=None, ans={}, ok=False)
                self.t[f, c] = e
                if fit.refused:
                    continue
                if s.regional:
                    e['nodes'] = s.nodes(f)
                for cen in (0, 1, 2):
                    for node in ([None] if not s.regional else (e['nodes'] or [])):
                        for het in (False, True):
                            s2 = s
                            if not s.regional and cen:
                                s2 = Session(su)
                                s2.fit([f], c, cen, noise=False)
                            o = s2.eval(f, cen, het, node, noise=False)
                            e['ans'][cen, node, het] = o
                e['ok'] = bool(e['ans']) and not any(o.refused for o in e['ans'].values())
                e['broken'] = bool(e['ans']) and any(o.refused for o in e['ans'].values())

    def setup(self, length, ops, bad, mutant=0):
        return dict(D=self.D, C=self.C, len=length, ops=ops, bad=bad, mutant=mutant,
                    possible=[[int(self.t[f, c]['fit']) for c in range(self.C + 1)] for f in range(1, self.D + 1)],
                    answers=[[int(self.t[f, c]['ok']) for c in range(self.C + 1)] for f in range(1, self.D + 1)])


def observe(ctx, sc, s, tab, f, c, cen, where, all_nodes=True):
    """the object must answer like the fresh one fitted with configuration c"""
    e = tab.t[f, c]
    nodes = [None]
    if s.regional:
        nodes = e['nodes'] or []
        if not all_nodes and nodes:
            nodes = [s.r.choice(nodes)]
        if not nodes or not e['fit']:
            o = s.eval(f, cen, node=0)
            if not o.refused:
                ctx.fail(sc, 'refusal', '%s: eval of feature %d answered although there are no subregions' % (where, f))
            return
        if all_nodes:
            missing = max(nodes) + 1
            if not s.eval(f, cen, node=missing).refused:
                ctx.fail(sc, 'stale node', '%s: node %d of feature %d does not exist in the last fit but is answered' % (where, missing, f))
    for node in nodes:
        for het in ((False, True) if s.r.random() < .5 else (True, False)):
            o = s.eval(f, cen, het, node)
            if not e['fit']:
                if not o.refused:
                    ctx.fail(sc, 'refusal', '%s: eval of feature %d answered %r but configuration %d is impossible' % (where, f, o.val, c))
                continue
            w = e['ans'][cen, node, het]
            tag = '%s: eval(feature %d, %s centering=%d, heterogeneity=%s)' % (where, f, '' if node is None else 'node %d,' % node, cen, het)
            if w.refused:
                if not o.refused:
                    ctx.fail(sc, 'refusal', tag + ' answered, a fresh object refuses')
            elif o.refused:
                ctx.fail(sc, 'history', tag + ' failed with %s: %s' % (type(o.err).__name__, o.err))
            elif not same(o.val, w.val):
                ctx.fail(sc, 'history', tag + ' differs from a fresh object fitted with configuration %d: %s instead of %s' % (c, o.val, w.val))


def replay(ctx, su, tab, hist, seed, own=None):
    sc = dict(setup=su, hist=hist, seed=seed)
    s = Session(su, seed, own)
    n0 = len(ctx.failures)
    for i, h in enumerate(hist):
        where = 'call %d (%s)' % (i + 1, h['op'])
        if h['op'] == 'fit':
            o = s.fit(h['fs'], h['c'], h['cen'])
        elif h['op'] == 'eval':
            observe(ctx, sc, s, tab, h['f'], h['want'][h['f'] - 1], h['cen'], where, all_nodes=False)
            o = None
        elif h['op'] == 'plot':
            node = None
            if s.regional:
                nodes = tab.t[h['f'], h['want'][h['f'] - 1]]['nodes'] or [0]
                node = s.r.choice(nodes)
            o = s.plot(h['f'], h['cen'], node)
        elif h['op'] == 'report':
            o = s.report(h['f'])
        else:
            calls = s.bad_calls(h['f'])
            name, fn = calls[(h['k'] - 1) % len(calls)]
            where += ' ' + name
            o = Out(fn)
            ctx.count('refusals tried')
        if o is not None and o.refused != h['refused']:
            if o.refused:
                ctx.fail(sc, 'history', '%s %s failed with %s: %s' % (where, {k: v for k, v in h.items() if k != 'want'}, type(o.err).__name__, o.err))
            else:
                ctx.fail(sc, 'refusal', '%s %s was not refused' % (where, {k: v for k, v in h.items() if k != 'want'}))
        if len(ctx.failures) > n0:
            return
    want = hist[-1]['want'] if hist else [0] * s.D
    todo = [(f, cen) for f in range(1, s.D + 1) for cen in (0, 1, 2)]
    s.r.shuffle(todo)
    for f, cen in todo:
        observe(ctx, sc, s, tab, f, want[f - 1], cen, 'at the end')
        if len(ctx.failures) > n0:
            return
    ctx.traces += 1


def behaviours(ctx, tab, length, ops, bad, simulate=None, seed=1):
    """all behaviours of the given length (exhaustive), or random longer ones"""
    path = ctx.write('setup-%d.json' % random.randrange(10 ** 9), tab.setup(length, ops, bad))
    kw = dict(env={'SCEN': path}, workers=1)
    if simulate:
        kw.update(simulate='num=%d' % simulate, extra=['-depth', str(length + 2), '-seed', str(seed)])
    return [q['h'] for q in ctx.tlc('Session', **kw)]
