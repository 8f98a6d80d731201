"""C21: programs written in two ways and in the canonical way by Requests.tla; the code has to answer the three alike."""
import contextlib, io, random
import numpy as np
import core, draw
from eff import effector, bm
from effector.interaction import HIndex, REPID

ASSUMPTIONS = ['the fixed bins of ALE by name: 20 bins without a minimum (the docstring of ALE.fit names 10 points, the code has never asked for them)']
CLASSES = {c: getattr(effector, c) for c in ('PDP', 'DerPDP', 'ALE', 'RHALE', 'ShapDP', 'RegionalPDP', 'RegionalDerPDP', 'RegionalALE', 'RegionalRHALE', 'RegionalShapDP')}
CLASSES.update(HIndex=HIndex, REPID=REPID)
NOF = dict(PDP=300, DerPDP=300, ShapDP=100, RegionalPDP=1000, RegionalDerPDP=1000, RegionalShapDP=100, HIndex=1000)
MULTI = ('features',)

Num, Str, Ext, Real, List = (lambda n: dict(t='n', n=n)), (lambda s: dict(t='s', s=s)), (lambda s: dict(t='x', s=s)), (lambda s: dict(t='f', s=s)), (lambda l: dict(t='l', l=l))
Yes, No, Nil, All = dict(t='b', b=True), dict(t='b', b=False), dict(t='none'), Str('all')


def Bin(o, **kw):
    return dict(t='o', o=o, pos=[], kw=[dict(n=k, v=Real(str(v)) if k == 'discount' else Num(v)) for k, v in kw.items()])


# ---------------------------------------------------------------- worlds

def column(rng, N, kind):
    if kind == 'real':
        return rng.uniform(-1, 1, N)
    if kind == 'skew':
        return rng.uniform(0, 1, N) ** 3
    if kind == 'spaced':
        return rng.permutation(N).astype(float)
    k = int(kind)                                   # exactly k different values
    v = np.round(np.sort(rng.uniform(-1, 1, k)), 3) + np.arange(k)
    return rng.permutation(v[np.r_[np.arange(k), rng.integers(0, k, N - k)]] if N > k else v[:N])


class Model:
    def __init__(self, m):
        self.m = m

    def __call__(self, X):
        X = np.asarray(X, dtype=float)
        y = np.zeros(len(X))
        for d, (a, q) in enumerate(self.m['main']):
            y = y + a * X[:, d] + q * X[:, d] ** 2
        for i, j, c in self.m['prod']:
            y = y + c * X[:, i] * X[:, j]
        for i, j, t, e in self.m['step']:
            y = y + e * X[:, i] * (X[:, j] > t)
        return self.m['scale'] * y

    def jac(self, X):
        X = np.asarray(X, dtype=float)
        J = np.zeros(X.shape)
        for d, (a, q) in enumerate(self.m['main']):
            J[:, d] += a + 2 * q * X[:, d]
        for i, j, c in self.m['prod']:
            J[:, i] += c * X[:, j]
            J[:, j] += c * X[:, i]
        for i, j, t, e in self.m['step']:
            J[:, i] += e * (X[:, j] > t)
        return self.m['scale'] * J


def data_of(w):
    rng = np.random.default_rng(w['drv']['seed'])
    return np.column_stack([column(rng, w['N'], k) for k in w['drv']['cols']])


def world(r, cls, emph):
    regional, D, N = cls.startswith('Regional'), 2, r.choice([20, 30, 41])
    cols = ['real'] * 3
    menu, auto = {}, 1
    step = []
    scale = r.choice([1.0, 1.0, 5.0])
    base = cls.replace('Regional', '').lower()
    if emph == 'sample':                                     # more rows than the default number of instances
        N, auto = NOF[cls] + r.choice([1, 1, 2, 10]), 0
    elif emph == 'bins':
        N = r.choice([40, 60, 90, 150])
        cols[0] = r.choice(['real', 'skew', 'skew', '14', '15', '16', 'spaced'])
        cols[1] = r.choice(['14', '15', '16', 'real'])
    elif emph == 'named':                                    # the parameters the names stand for: limits, minima, discount
        N = r.choice([60, 90, 150, 300])
        cols[0] = r.choice(['9', '10', '11', '12', '13', '14', '14', '15', '16', 'real', 'skew', 'spaced'])
    elif emph == 'hundred':                                  # 100 bins with 10 points each
        N, cols = r.choice([1000, 1000, 995]), ['spaced'] * 3
    elif emph == 'cat':
        N = r.choice([60, 90])
        cols[1] = r.choice(['9', '10', '11'])
    elif emph in ('small', 'drop'):
        D, N = (3 if emph == 'drop' else 2), r.choice([60, 80])
    elif emph == 'points':
        N = r.choice([19, 20, 21, 22, 26, 33])
    elif emph == 'depth':
        D, N = 3, 80
    elif D == 2 and r.random() < .3 and cls != 'ShapDP' and cls != 'RegionalShapDP':
        D = 3
    cols = cols[:D]
    if base == 'hindex' or base == 'repid':
        D = max(D, 2)
    mid = lambda k: round(r.uniform(-.5, .5), 3) if k in ('real',) else round(r.uniform(.1, .5), 3) if k == 'skew' else N / 2 + .25 if k == 'spaced' else int(k) / 2 - .25
    if regional:
        step = [[0, 1, mid(cols[1]), r.choice([1.5, 3.0])]]
        if D == 3 and emph != 'drop':
            step += [[0, 2, mid(cols[2]), r.choice([1.0, 2.0])], [1, 2, mid(cols[2]), 1.0]]
        if emph == 'points':
            step[0][2] = round(r.choice([-1, 1]) * r.uniform(.2, .8), 3)
    prod = [[0, 1, r.choice([0.0, .1, .5, -1.0])]] if not regional or r.random() < .5 else []
    if cols[0] == 'spaced':
        scale = scale / N
    if emph == 'drop':                                       # only feature 1 may explain; feature 2 is noise
        prod = [[0, 2, 1.0]]
    w = dict(cls=cls, N=N, D=D, auto=auto, drv=dict(emph=emph, seed=r.randrange(10 ** 6), cols=cols, nseed=r.randrange(10 ** 6),
             model=dict(main=[[round(r.uniform(-2, 2), 2), round(r.uniform(-2, 2), 2)] for _ in range(D)], prod=prod, step=step, scale=scale)))
    feats = [List([f]) for f in range(D)]
    everything = List(list(range(D)))
    two = List(r.sample(range(D), 2))
    own = (lambda p: r.random() < p) if emph in ('any', 'bins') else (lambda p: r.random() < p / 4)
    # construction
    menu['new.data'], menu['new.model'] = [Ext('data')], [Ext('model')]
    menu['new.model_jac'] = [Ext('jac')]
    if base == 'repid':
        menu['new.nof_instances'] = [Num(N)]
    elif emph != 'sample' and own(.3):
        menu['new.nof_instances'] = [Num(N), Num(max(2, N // 2))] if auto == 0 else [Num(N)]
    if own(.3):
        menu['new.target_name'] = [Nil, Str('out')]
        menu['new.feature_names'] = [Nil, Ext('own names')]
    if own(.2):
        menu['new.avg_output'] = [Nil, Ext('own average')]
    if own(.3) and base not in ('hindex', 'repid'):
        menu['new.axis_limits'] = [Nil, Ext('own limits')]
    if emph == 'cat' and r.random() < .3:
        menu['new.cat_limit'] = [Num(10), Num(r.choice([9, 11, 12]))]
    # fit
    req = base in ('repid',)
    if base != 'hindex':
        menu['fit.features'] = [everything, r.choice(feats), r.choice([two] + feats)]
        if regional and emph not in ('any', 'bins'):
            menu['fit.features'] = [feats[0], feats[0], everything]
            if emph in ('small', 'drop', 'sample'):
                menu['fit.features'] = [feats[0]]
    cen = [No, Str('zero_integral'), Str('zero_start')]
    if own(.5):
        menu['fit.centering'] = cen
    if own(.3):
        menu['fit.points_for_centering'] = [Num(100), Num(r.choice([5, 99, 101]))]
    bins = []
    if base == 'ale':
        bins = [Str('fixed'), Str('fixed'), Bin('Fixed'), Bin('Fixed', nof_bins=r.choice([3, 5, 20])), Bin('Fixed', nof_bins=r.choice([3, 4, 5, 20]), min_points_per_bin=0),
                Bin('Fixed', nof_bins=20, min_points_per_bin=0, cat_limit=r.choice([14, 15, 16]))]
    if base == 'rhale':
        bins = [Str('greedy'), Str('dp'), Str('fixed'), Bin('Greedy', min_points_per_bin=r.choice([2, 5, 9])), Bin('DynamicProgramming', min_points_per_bin=r.choice([2, 5])),
                Bin('DynamicProgramming', max_nof_bins=r.choice([19, 21, 5])), Bin('Greedy', discount=r.choice([.1, .5])), Bin('Greedy', init_nof_bins=r.choice([10, 30])),
                Bin('Fixed', nof_bins=5), Bin('Fixed', nof_bins=20, min_points_per_bin=0), Bin('DynamicProgramming', cat_limit=14), Bin('Greedy', cat_limit=16)]
    if bins:
        if emph == 'hundred':
            menu['fit.binning_method'] = [Bin('Fixed')] + ([Str('fixed'), Bin('Greedy')] if base == 'rhale' else [])
        elif emph == 'named':
            menu['fit.binning_method'] = [Str('fixed')] if base == 'ale' else [Str('dp'), Str('dp'), Str('greedy'), Str('fixed')]
            w['named'] = 1
        elif emph == 'bins':
            menu['fit.binning_method'] = bins
        elif own(.4):
            menu['fit.binning_method'] = [r.choice(bins)]
    if regional:
        if emph == 'any':
            menu['fit.max_depth'] = [Num(1), Num(1), Num(2)] if D > 2 else [Num(1)]
            menu['fit.nof_candidate_splits_for_numerical'] = [Num(20), Num(5)]
            menu['fit.min_points_per_subregion'] = [Num(10), Num(4)]
            menu['fit.heter_small_enough'] = [Real('0.1'), Real('0.0')]
            menu['fit.heter_pcg_drop_thres'] = [Real('0.1'), Real('0.3')]
        if emph in ('depth', 'points', 'cat'):
            menu['fit.heter_small_enough'] = [Real('0.0')]
            menu['fit.heter_pcg_drop_thres'] = [Real('0.0')]
        if emph == 'sample':
            menu['fit.nof_candidate_splits_for_numerical'] = [Num(2)]
            menu['fit.heter_small_enough'] = [Real('0.0')]
        if emph == 'small':
            menu['fit.heter_pcg_drop_thres'] = [Real('0.0')]
        if emph == 'drop':
            menu['fit.heter_small_enough'] = [Real('0.0')]
        if base == 'shapdp':
            menu['fit.nof_candidate_splits_for_numerical'] = [Num(3)]
        menu['fit.candidate_conditioning_features'] = [List([1])] if emph == 'drop' else [All] if r.random() < .8 else [All, List([1])]
        menu['fit.split_categorical_features'] = [No] if r.random() < .7 else [No, Yes]
    # questions
    ask = [Num(f) for f in range(D)]
    menu['eval.feature'] = menu['plot.feature'] = menu['eval_one_vs_all.feat'] = ask
    menu['eval_pairwise.feat_1'], menu['eval_pairwise.feat_2'] = ([Num(0)], [Num(1)]) if r.random() < .5 else ([Num(1)], [Num(0)])
    menu['eval.xs'] = [Ext('xs')]
    menu['eval.node_idx'] = menu['plot.node_idx'] = [Num(0), Num(r.choice([1, 2]))]
    menu['eval.heterogeneity'] = [No, Yes]
    menu['eval.return_all'] = [No, No, Yes]
    menu['eval.centering'] = menu['plot.centering'] = [No] + cen
    menu['plot.heterogeneity'] = [No, Str('std')] + ([] if regional else [Str('std_err')] if base in ('ale', 'rhale') else [Str('shap_values')] if base == 'shapdp' else [Str('ice')])
    menu['plot.nof_points'] = [Num(30), Num(30), Num(7)]
    menu['plot.show_avg_output'] = [No, Yes]
    menu['plot.scale_x'] = [Nil, Ext('own scale')]
    menu['plot.scale_y'] = [Nil, Ext('own scale')]
    menu['plot.scale_x_list'] = [Nil, Ext('own scales')]
    menu['plot.y_limits'] = [Nil, Nil, Ext('y range')]
    menu['plot.dy_limits'] = [Nil, Nil, Ext('y range')]
    menu['fit.pairwise_matrix'] = menu['fit.one_vs_all'] = menu['plot.interaction_matrix'] = menu['plot.one_vs_all'] = [Yes, Yes, No]
    for q in ('show_partitioning', 'describe_subregions'):
        menu[q + '.features'] = [everything] + feats if emph == 'any' else feats[:1]
        menu[q + '.only_important'] = [Yes, Yes, No]
        menu[q + '.scale_x_list'] = [Nil, Ext('own scales')]
    if base == 'hindex':
        w['steps'] = [['new'], ['fit', 'eval_pairwise'], ['plot', 'eval_one_vs_all'], ['plot', 'eval_pairwise', 'eval_one_vs_all']]
    elif base == 'repid':
        w['steps'] = [['new'], ['fit', 'eval_one_vs_all'], ['plot', 'fit']]
    elif regional:
        w['steps'] = [['new'], ['fit'], ['eval', 'plot'], ['show_partitioning', 'describe_subregions']] + ([['eval', 'plot', 'show_partitioning', 'describe_subregions', 'fit']] if emph == 'any' else [])
        if emph == 'sample':
            w['steps'] = w['steps'][:3]
    else:
        w['steps'] = [['new'], ['fit'], ['eval', 'plot']] + ([['eval', 'plot', 'fit'], ['eval', 'plot']] if emph == 'any' else [['eval', 'plot']])
    w['menu'] = menu
    if emph in ('small', 'drop'):
        tune(r, w)
    if emph == 'points':
        aim(r, w)
    return w


def aim(r, w):
    """the step is at a candidate position that leaves 9, 10 or 11 instances on one side"""
    want = r.choice([9, 10, 10, 11])
    for _ in range(200):
        x = data_of(w)[:, 1]
        for k in range(1, 19):
            t = x.min() + (k + .5) / 20 * (x.max() - x.min())
            if want in (np.sum(x <= t), np.sum(x > t)) and min(np.abs(x - t)) > 1e-6:
                w['drv']['model']['step'][0][2] = float(t)
                return
        w['drv']['seed'] += 1


def root_heterogeneity(w, level=0):
    """weighted heterogeneity of a level of the tree of feature 0 (all options at their defaults, no thresholds)"""
    e = Env(w)
    o = e.make()
    kw = dict(heter_small_enough=0.0, heter_pcg_drop_thres=0.0, candidate_conditioning_features=[1])
    if w['cls'] == 'RegionalShapDP':
        kw['nof_candidate_splits_for_numerical'] = 3
    with contextlib.redirect_stderr(io.StringIO()):
        o.fit([0], **kw)
    t = o.tree_full['feature_0']
    nodes = [n for n in t.nodes if n.level == level]
    return sum(n.data['heterogeneity'] * n.data['weight'] for n in nodes) if nodes else None


def tune(r, w):
    """bring the quantity a default threshold is compared with close to the threshold"""
    try:
        m = w['drv']['model']
        if w['drv']['emph'] == 'small':
            h = root_heterogeneity(w)
            m['scale'] *= 2
            p = np.log2(root_heterogeneity(w) / h)
            m['scale'] *= .5 * (.1 * r.choice([.4, .9, .98, .995, 1.005, 1.02, 1.1, 1.9]) / h) ** (1 / p)
        else:
            target, lo, hi = .1 * r.choice([.5, .9, .97, 1.03, 1.1, 1.5, 2.5]), 1e-3, 4.0
            for _ in range(9):
                m['step'][0][3] = e = (lo * hi) ** .5
                h0, h1 = root_heterogeneity(w), root_heterogeneity(w, 1)
                if h1 is None or (h0 - h1) / h0 < target:
                    lo = e
                else:
                    hi = e
    except Exception:
        pass                                        # no such region: the world stays as it is


# ---------------------------------------------------------------- the real calls

class Env:
    """the things a program refers to"""
    def __init__(self, w):
        self.w = w
        self.model = Model(w['drv']['model'])
        self.data = data_of(w)
        rng = np.random.default_rng(w['drv']['seed'] + 1)
        lo, hi = self.data.min(axis=0), self.data.max(axis=0)
        self.xs = lo + (hi - lo) * rng.uniform(-.1, 1.1, (9, w['D']))
        self.scales = [dict(mean=round(float(rng.uniform(-3, 3)), 2), std=round(float(rng.uniform(.2, 4)), 2)) for _ in range(w['D'])]

    def make(self):
        c = self.w['cls']
        return CLASSES[c](self.data, self.model, self.model.jac, nof_instances='all') if c in ('RegionalDerPDP', 'RegionalRHALE') else CLASSES[c](self.data, self.model, nof_instances='all')

    def ext(self, s, f, cat_limit):
        if s == 'data':
            return self.data
        if s == 'model':
            return self.model
        if s == 'jac':
            return self.model.jac
        if s in ('effects',):
            return self.model.jac(self.data)
        if s == 'axis_limits':
            return np.array([self.data.min(axis=0), self.data.max(axis=0)])
        if s == 'own limits':
            lo, hi = self.data.min(axis=0), self.data.max(axis=0)
            return np.array([lo - .05 * (hi - lo), hi + .1 * (hi - lo)])
        if s == 'feature_names':
            return ['x_%d' % d for d in range(self.w['D'])]
        if s == 'own names':
            return ['f%d' % d for d in range(self.w['D'])]
        if s == 'target_name':
            return 'y'
        if s == 'avg_output':
            return float(np.mean(self.model(self.data)))
        if s == 'own average':
            return 1.25
        if s == 'feature_types':
            return ['cat' if len(set(self.data[:, d])) < cat_limit else 'cont' for d in range(self.w['D'])]
        if s == 'xs':
            return self.xs[:, f].copy()
        if s in ('scale_x', 'scale_y'):
            return dict(mean=0.0, std=1.0)
        if s == 'own scale':
            return dict(self.scales[0])
        if s == 'own scales':
            return [dict(q) for q in self.scales]
        if s == 'y range':
            return [-3.0, 4.5]
        raise core.MachineryError('unknown %r' % s)

    def value(self, v, f, cat_limit):
        t = v['t']
        if t == 'n':
            return v['n']
        if t == 's':
            return v['s']
        if t == 'b':
            return v['b']
        if t == 'f':
            return float(v['s'])
        if t == 'none':
            return None
        if t == 'l':
            return list(v['l'])
        if t == 'o':
            return getattr(bm, v['o'])(*[self.value(q, f, cat_limit) for q in v['pos']], **{q['n']: self.value(q['v'], f, cat_limit) for q in v['kw']})
        return self.ext(v['s'], f, cat_limit)

    def args(self, call, full):
        """the arguments of a written call; full: the canonical way of the same call"""
        kw = {q['n']: q['v'] for q in full['kw']}
        f = next((kw[k]['n'] for k in ('feature', 'feat', 'feat_1') if k in kw), 0)
        cl = kw['cat_limit']['n'] if 'cat_limit' in kw else 10
        return [self.value(q, f, cl) for q in call['pos']], {q['n']: self.value(q['v'], f, cl) for q in call['kw']}


class Answer:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


def one_call(o, m, pos, kw):
    out = io.StringIO()
    if m == 'plot':
        return draw.draw(lambda: o.plot(*pos, **kw))[0]
    with contextlib.redirect_stdout(out):
        v = getattr(o, m)(*pos, **kw)
    if m == 'fit':
        return []
    return out.getvalue() if m in ('show_partitioning', 'describe_subregions') else v


def perform(env, prog, way):
    """the answers to a program written in one way, and to the same final questions"""
    o, out = None, []
    for k, call in enumerate(prog):
        calls = call['c'] if way == 'c' else [call[way]]
        ans = None
        for q in calls:
            pos, kw = env.args(q, call['c'][0])
            np.random.seed(env.w['drv']['nseed'] + k)
            try:
                with core.time_limit(120), contextlib.redirect_stderr(io.StringIO()):
                    if call['m'] == 'new':
                        o = CLASSES[env.w['cls']](*pos, **kw)
                        v = []
                    else:
                        v = one_call(o, call['m'], pos, kw)
            except core.CaseTimeout:
                raise
            except Exception as e:
                ans = Answer('refused', '%s: %s' % (type(e).__name__, str(e)[:200]))
                break
            ans = Answer('value', v if ans is None or not isinstance(v, str) else ans.v + v)
        out.append(ans)
        if o is None:
            return out, None
    for f in range(env.w['D']):
        for m, pos, kw in probes(env, o, f):
            np.random.seed(env.w['drv']['nseed'] - 1)
            try:
                with core.time_limit(120), contextlib.redirect_stderr(io.StringIO()):
                    out.append(Answer('value', one_call(o, m, pos, kw)))
            except core.CaseTimeout:
                raise
            except Exception as e:
                out.append(Answer('refused', '%s: %s' % (type(e).__name__, str(e)[:200])))
    return out, o


def probes(env, o, f):
    c = env.w['cls']
    if c == 'HIndex':
        return [('eval_one_vs_all', [f], {})]
    if c == 'REPID':
        return [('eval_one_vs_all', [f], {})]
    x = env.xs[:, f].copy()
    if not c.startswith('Regional'):
        return [('eval', [f, x], dict(heterogeneity=True, centering=False)), ('eval', [f, x], dict(heterogeneity=False, centering='zero_integral'))]
    t = o.tree_full.get('feature_%d' % f)           # only what was fitted
    if t is None:
        return []
    return [('show_partitioning', [[f]], dict(only_important=False)), ('show_partitioning', [[f]], dict(only_important=True))] + \
           [('eval', [f, n.idx, x], dict(heterogeneity=True, centering=False)) for n in t.nodes[:5]]


def matched(a, b):
    """drawings whose lines are the same in another order"""
    if not (isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and isinstance(a[0], dict)):
        return False
    for p, q in zip(a, b):
        if len(p['lines']) != len(q['lines']) or {l['label'] for l in p['lines']} != {l['label'] for l in q['lines']}:
            return False
        # (one of the curves is drawn twice, for the legend; a label stands on one of the lines it is for)
        if not all(any(not draw.differ(l, t, skip=('label',)) for t in y['lines']) for x, y in ((p, q), (q, p)) for l in x['lines']):
            return False
    return draw.differ(a, b, skip=('lines',)) is None


def differs(p, q):
    if p.kind != q.kind:
        return '%s, but %s' % tuple('refused (%s)' % z.v if z.kind == 'refused' else 'answered' for z in (p, q))
    if p.kind == 'refused':
        return None
    d = draw.differ(p.v if not isinstance(p.v, tuple) else list(p.v), q.v if not isinstance(q.v, tuple) else list(q.v))
    return d if d and not matched(p.v, q.v) else None


def compare(xs, ys):
    if len(xs) != len(ys):
        return 0, '%d answers, but %d' % (len(xs), len(ys))
    for k, (x, y) in enumerate(zip(xs, ys)):
        d = differs(x, y)
        if d:
            return k, d
    return None


def written(call, way, cls):
    w = call[way] if way != 'c' else call['c'][0]
    t = lambda v: {'n': lambda: str(v['n']), 's': lambda: repr(v['s']), 'b': lambda: str(v['b']), 'f': lambda: v['s'], 'none': lambda: 'None', 'x': lambda: '<%s>' % v['s'], 'l': lambda: str(v['l']),
                   'o': lambda: '%s(%s)' % (v['o'], ', '.join([t(q) for q in v['pos']] + ['%s=%s' % (q['n'], t(q['v'])) for q in v['kw']]))}[v['t']]()
    return '%s(%s)' % (cls if call['m'] == 'new' else call['m'], ', '.join([t(q) for q in w['pos']] + ['%s=%s' % (q['n'], t(q['v'])) for q in w['kw']]))


def judge(ctx, w, prog):
    env = Env(w)
    sc = dict(w={k: v for k, v in w.items() if k != 'menu'}, prog=prog)
    cls = w['cls']
    try:
        full, o = perform(env, prog, 'c')
        sampled = w['auto'] == 0 and o is not None and len(o.data) < w['N']
        if sampled and compare(full, perform(env, prog, 'c')[0]):
            sampled = 'irreproducible'              # numpy's generator does not decide which rows are taken
        for way in 'ab':
            got, q = perform(env, prog, way)
            ctx.traces += 1
            bad = compare(got, full) if sampled != 'irreproducible' else None
            if not bad and o is not None and q is not None and len(q.data) != len(o.data):
                bad = 0, '%d instances, but %d' % (len(q.data), len(o.data))
            if bad:
                k, d = bad
                call = prog[min(k, len(prog) - 1)]
                ctx.fail(sc, 'spelling', '%s; written as %s: answer %d (%s) differs from the one to the canonical way: %s' % (
                    w['drv']['emph'], '; '.join(written(c, way, cls) for c in prog[:k + 1]), k + 1, call['m'] if k < len(prog) else 'final question', d))
                return
        ctx.count('answers', sum(a.kind == 'value' for a in full))
        ctx.count('refusals', sum(a.kind == 'refused' for a in full))
        if sampled:
            ctx.count('sampled' if sampled is True else 'irreproducible samples')
        sensitive(ctx, env, prog, full)
    except core.CaseTimeout as e:
        ctx.fail(sc, 'spelling', 'no answer: %s' % e)


def sensitive(ctx, env, prog, full):
    """would another default have been noticed?  One parameter left out in a or b is given another value (a measure of the
    check itself, kept in the evidence)"""
    r = random.Random(repr(prog))
    out = []
    for k, call in enumerate(prog):
        for q in call['c']:
            for i, x in enumerate(q['kw']):
                given = [any(y['n'] == x['n'] for y in call[w]['kw']) or i < len(call[w]['pos']) for w in 'ab']
                if not all(given) and other(x['v']) is not None and x['n'] != 'use_vectorized':
                    out.append((k, i))
    out = sorted(set(out))
    if not out:
        return
    aim = dict(small='heter_small_enough', drop='heter_pcg_drop_thres', points='min_points_per_subregion', cat='cat_limit', sample='nof_instances', bins='binning_method', named='binning_method', hundred='binning_method')
    name = lambda q: prog[q[0]]['c'][0]['kw'][q[1]]['n']
    if any(name(q) == aim.get(env.w['drv']['emph']) for q in out):
        out = [q for q in out if name(q) == aim[env.w['drv']['emph']]]
    k, i = r.choice(out)
    up = r.random() < .5
    alt = [dict(c, c=[dict(q, kw=[dict(x, v=other(x['v'], up)) if j == i else x for j, x in enumerate(q['kw'])]) for q in c['c']]) if n == k else c for n, c in enumerate(prog)]
    what = '%s.%s' % (prog[k]['m'], prog[k]['c'][0]['kw'][i]['n'])
    ctx.count('left out ' + what)
    if compare(perform(env, alt, 'c')[0], full):
        ctx.count('left out and told apart ' + what)


def other(v, up=True):
    if v['t'] == 'n':
        return Num(v['n'] + (1 if up else -1))
    if v['t'] == 'f':
        return Real(str(float(v['s']) * (1.5 if up else .67)))
    if v['t'] == 'b':
        return No if v['b'] else Yes
    if v['t'] == 's' and v['s'] == 'zero_integral':
        return No
    if v['t'] == 'o':
        kw = [dict(q) for q in v['kw']]
        kw[1]['v'] = Num(kw[1]['v']['n'] + (1 if up or not kw[1]['v']['n'] else -1))
        return dict(v, kw=kw)
    return None


PLAN = [('PDP', 'any', 10), ('PDP', 'sample', 6), ('DerPDP', 'any', 8), ('DerPDP', 'sample', 4), ('ALE', 'any', 8), ('ALE', 'bins', 14), ('ALE', 'named', 3), ('ALE', 'hundred', 4), ('RHALE', 'any', 8),
        ('RHALE', 'bins', 24), ('RHALE', 'named', 12), ('RHALE', 'hundred', 6), ('ShapDP', 'any', 4), ('ShapDP', 'sample', 3),
        ('RegionalPDP', 'any', 6), ('RegionalPDP', 'sample', 2), ('RegionalPDP', 'points', 4), ('RegionalPDP', 'small', 3), ('RegionalPDP', 'drop', 3), ('RegionalPDP', 'cat', 3), ('RegionalPDP', 'depth', 2),
        ('RegionalDerPDP', 'any', 4), ('RegionalDerPDP', 'sample', 2), ('RegionalDerPDP', 'points', 3), ('RegionalDerPDP', 'small', 2), ('RegionalDerPDP', 'drop', 2), ('RegionalDerPDP', 'cat', 3), ('RegionalDerPDP', 'depth', 2),
        ('RegionalALE', 'any', 5), ('RegionalALE', 'bins', 6), ('RegionalALE', 'named', 3), ('RegionalALE', 'hundred', 1), ('RegionalALE', 'points', 4), ('RegionalALE', 'small', 2), ('RegionalALE', 'drop', 2), ('RegionalALE', 'cat', 3), ('RegionalALE', 'depth', 2),
        ('RegionalRHALE', 'any', 5), ('RegionalRHALE', 'bins', 8), ('RegionalRHALE', 'named', 16), ('RegionalRHALE', 'hundred', 1), ('RegionalRHALE', 'points', 4), ('RegionalRHALE', 'small', 2), ('RegionalRHALE', 'drop', 2), ('RegionalRHALE', 'cat', 3), ('RegionalRHALE', 'depth', 2),
        ('RegionalShapDP', 'points', 1), ('RegionalShapDP', 'sample', 1), ('RegionalShapDP', 'small', 1), ('RegionalShapDP', 'cat', 1),
        ('HIndex', 'any', 3), ('HIndex', 'sample', 1), ('REPID', 'any', 3)]


def run(ctx, scenarios=None):
    if scenarios is not None:
        for sc in scenarios:
            judge(ctx, sc['w'], sc['prog'])
        return
    r = random.Random(ctx.seed * 1000 + 21)
    plan = [(c, e) for c, e, n in PLAN for _ in range(ctx.n(n, 8 * n))]
    seeds = [r.randrange(10 ** 9) for _ in plan]
    worlds = ctx.pmap(lambda sub, q: world(random.Random(q[1]), *q[0]), list(zip(plan, seeds)))
    keep = [{k: v for k, v in w.items() if k != 'drv'} for w in worlds]
    shards = 4
    todo, lock = [], []

    def tlc(j):
        path = ctx.write('scen-req-%d.json' % j, keep[j::shards])
        n = len(keep[j::shards])
        return [(worlds[j + shards * (q['id'] - 1)], q['prog']) for q in ctx.tlc('Requests', env={'SCEN': path}, workers=1, simulate='num=%d' % (4 * n), extra=['-depth', '400', '-seed', str(ctx.seed * 10 + j)])]
    with core.ThreadPoolExecutor(shards) as ex:
        got = [q for part in ex.map(tlc, range(shards)) for q in part]
    # about one program per world, from every world if possible
    r.shuffle(got)
    seen, first, rest = set(), [], []
    for w, p in got:
        (rest if id(w) in seen else first).append((w, p))
        seen.add(id(w))
    todo = first + [q for q in rest if q[0]['drv']['emph'] in ('any', 'bins')]
    ctx.count('worlds', len(worlds))
    ctx.count('worlds with a program', len(first))
    todo.sort(key=lambda q: (q[0]['drv']['emph'] != 'sample', not q[0]['cls'].startswith('Regional')))
    ctx.pmap(lambda sub, q: judge(sub, *q), todo)
    ctx.sample(dict(program=[written(c, 'a', todo[-1][0]['cls']) for c in todo[-1][1]], canonical=[written(c, 'c', todo[-1][0]['cls']) for c in todo[-1][1]]))
