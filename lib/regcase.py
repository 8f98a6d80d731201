"""Regional effects: scenarios on a lattice, recorded trees, and the heterogeneity of every candidate region as the global
method gives it (fixed point), for Regions.tla / Regional.tla / Reports.tla."""
import contextlib, io, random, re
from fractions import Fraction
import numpy as np
import lattice as la
import core
from session import binning
from eff import effector, guarded

KINDS = ['rpdp', 'rdpdp', 'rale', 'rrhale', 'rshap']
UNIT = 100000          # the largest heterogeneity of a scenario in fixed point


def coincide(vals, n):
    """does a candidate position of n cells lie on a value without being a binary fraction of a lattice step?"""
    lo, hi = min(vals), max(vals)
    if (hi - lo) % n == 0:
        return False
    v = set(vals)
    return any(Fraction(lo) + Fraction((2 * k + 1) * (hi - lo), 2 * n) in v for k in range(n))


def gen(r, kind=None, exact=False, deep=None):
    kind = kind or r.choice(KINDS)
    base = kind[1:]
    shap = base == 'shap'
    D = r.choice([2, 3, 3, 3, 4]) if not shap else r.choice([2, 2, 3])
    N = r.choice([8, 14, 20, 30, 44, 60]) if not shap else r.choice([10, 16, 24])
    f = r.randrange(D)
    n = r.choice([1, 2, 3, 4, 5, 20] if not shap else [2, 3])
    K = r.choice([1, 2, 3, 5])
    cols, types = [], []
    for d in range(D):
        if d == f:
            ck = r.choice(['num', 'num', 'num', 'skew', 'edge'] + ([] if shap else ['cat', 'bool']))
            c = la.column(r, N, ck, r.choice([8, 20]))
            c = [2 * K * v for v in c] if exact and base in ('ale', 'rhale') else [99 * (v % 4) for v in c] if exact else [2 * v for v in c]
        else:
            ck = r.choice(['num', 'num', 'edge', 'skew', 'cat', 'bool', 'cat', 'few', 'const'])
            c = la.column(r, N, ck, r.choice([6, 12, 20])) if ck != 'few' else [r.randint(0, 2) for _ in range(N)]
        cols.append(c)
        types.append('cat' if r.random() < (.8 if ck in ('cat', 'bool', 'few') else .1) else 'cont')
    X = [list(t) for t in zip(*cols)]
    t = r.random()
    declared = types if t < .6 else None
    cat_limit = r.choice([10, 10, 2, 4, 7])
    if declared is None:
        types = ['cat' if len(set(c)) < cat_limit else 'cont' for c in cols]
    if any(types[d] == 'cont' and len(set(cols[d])) > 1 and coincide(cols[d], n) for d in range(D)):
        for n in (2, 4, 1):
            if not any(types[d] == 'cont' and len(set(cols[d])) > 1 and coincide(cols[d], n) for d in range(D)):
                break
        else:
            return gen(r, kind, exact, deep)
    others = [d for d in range(D) if d != f]
    foc = 'all' if r.random() < .7 else r.sample(others, r.randint(1, len(others)))
    if foc != 'all' and r.random() < .15:
        foc = foc + [f]
    nf = len(others) if foc == 'all' else len(foc)
    depth = r.choice([0] + [1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3] if deep is None else [deep])
    depth = min(depth, nf, 2 if (n > 5 or shap or N < 14) else 3)
    minp = r.choice([2, 2, 2, 3, 3, 5, min(10, N), max(2, N // 3), max(2, N // 2)])
    if r.random() < .25:        # the size of some candidate region
        d = r.choice(others)
        v = r.choice(cols[d])
        part = sum(q == v if types[d] == 'cat' else q <= v for q in cols[d])
        minp = max(2, r.choice([part, N - part]))
    elif r.random() < .06:
        minp = N + 1
    der = base in ('dpdp', 'rhale')
    a, b = la.pick_embedding(r, D, mild=True)
    alpha, beta = r.choice([(0.0, 1.0), (0.0, 1.0), (5.5, -2.0), (-100.0, 0.25), (0.0, 1e-3), (0.0, 100.0)])
    style = r.choice(['inter', 'inter', 'inter', 'gated', 'gated', 'gated', 'random', 'additive'])
    model = None
    if style == 'random':
        model = la.gen_model(r, D, f, deriv=der or exact and base == 'rhale', maxdeg=2, coeff=4, ncut=12, mod=r.choice([5, 11]))
    elif style == 'additive':
        model = [dict(m=0, t=[dict(c=r.randint(-3, 3) or 1, p=[1 if q == d else 0 for q in range(D)], g=[]) for d in range(D)])]
    else:
        ts = [dict(c=r.randint(1, 4), p=[r.choice([0, 1]) if q == f else 0 for q in range(D)], g=[])]
        for d in others[:2]:
            col = cols[d]
            cut = r.choice(col)
            p = [0] * D
            p[f] = r.choice([1, 1, 2]) if not exact else 1
            if style == 'inter' and r.random() < .4:
                p[d] = 1
                g = []
            else:
                g = [[d + 1, cut, r.choice([1, -1, 0])]]
            ts.append(dict(c=r.choice([-1, 1]) * r.randint(1, 5), p=p, g=g))
        model = [dict(m=0, t=ts)]
    if exact:
        umax = [max(abs(v) for v in c) + 10 for c in cols]
        if la.term_bound(model, umax) > 10 ** 8:
            return gen(r, kind, exact, deep)
        m = la.max_abs(model, X, f, sorted(set(cols[f])), der)
        if m * N * 200 > 10 ** 9:
            return gen(r, kind, exact, deep)
    cfg = dict(heter_pcg_drop_thres=r.choice([0.0, 0.0, .02, .05, .1, .2, .3, .5]), heter_small_enough=r.choice([0.0, 0.0, .1, .5, 2.0]), max_depth=depth,
               nof_candidate_splits_for_numerical=n, min_points_per_subregion=minp, candidate_conditioning_features=foc, split_categorical_features=r.random() < (.75 if types[f] == 'cat' else .5))
    if base in ('ale', 'rhale'):
        m = r.choice(['fixed', 'fixed', 'fixed', 'name', 'greedy', 'dp'] if base == 'rhale' and not exact else ['fixed', 'fixed', 'fixed', 'name'] if not exact else ['fixed'])
        cfg['binning_method'] = {'fixed': ['fixed', dict(nof_bins=K if exact else r.choice([1, 3, 5, 8]), min_points_per_bin=r.choice([0, 0, 2]), cat_limit=0 if exact else r.choice([0, 5, 15]))],
                                 'greedy': ['greedy', dict(init_nof_bins=r.choice([5, 12]), discount=.2, min_points_per_bin=r.choice([0, 2]))],
                                 'dp': ['dp', dict(max_nof_bins=r.choice([2, 4]), discount=.2, min_points_per_bin=r.choice([2, 3]))],
                                 'name': r.choice(['fixed'] if base == 'ale' else ['fixed', 'greedy', 'dp'])}[m]
    elif r.random() < .5:
        cfg['points_for_centering'] = r.choice([4, 11])
    if r.random() < .5:
        cfg['centering'] = r.choice([False, True, 'zero_start', 'zero_integral'])
    if base in ('pdp', 'dpdp') and r.random() < .3:
        cfg['use_vectorized'] = False
    for k, v in (('heter_pcg_drop_thres', .1), ('heter_small_enough', .1), ('max_depth', 1), ('candidate_conditioning_features', 'all'), ('split_categorical_features', False)):
        if cfg[k] == v and r.random() < .5:
            del cfg[k]          # left to the documented default
    L = None
    if r.random() < .2:         # axis limits around the data
        L = [[min(c) - r.choice([0, 1, 4]) for c in cols], [max(c) + r.choice([0, 2, 5]) for c in cols]]
        L = [[l - (l == h) for l, h in zip(*L)], L[1]]
    E = [r.randint(-9, 9) for _ in range(N)] if exact and base == 'rhale' and r.random() < .4 else []
    sc = dict(kind=kind, X=X, model=model, a=a, b=b, alpha=alpha, beta=beta, f=f, types=types, L=L, E=E, declared=declared is not None, cat_limit=cat_limit,
                names=[r.choice(['x', 'temp', 'n o', 'Ä']) + str(d) for d in range(D)] if r.random() < .4 else None,
                effects=r.random() < .4, jac=r.random() < .8 or base == 'dpdp' or bool(exact), cfg=cfg, exact=K if exact else 0,
                effseed=r.randrange(10 ** 6), feats=r.choice(['one', 'list', 'all']), seed=r.randrange(10 ** 6))
    if not shap and r.random() < .1:
        widen(r, sc)
    return sc


def widen(r, sc):
    D, types, names = len(sc['X'][0]), sc['types'], sc['names']
    foc = sc['cfg'].get('candidate_conditioning_features', 'all')
    if foc == 'all' and (sc['cfg'].get('max_depth', 1) > 1 or sc['cfg']['nof_candidate_splits_for_numerical'] > 5):
        foc = [d for d in range(D) if d != sc['f']]
    pos, W = la.widen(r, sc, f1=False)
    if foc != 'all':
        sc['cfg']['candidate_conditioning_features'] = [pos[d] for d in foc]
    at = {q: d for d, q in enumerate(pos)}
    kinds = ['cat' if r.random() < .6 else 'cont' for _ in range(W)] if sc['declared'] else \
            ['cat' if len({u[q] for u in sc['X']}) < sc['cat_limit'] else 'cont' for q in range(W)]
    sc['types'] = [types[at[q]] if q in at else kinds[q] for q in range(W)]
    if names:
        sc['names'] = [names[at[q]] if q in at else 'x' + str(q) + '_' for q in range(W)]
    n = sc['cfg']['nof_candidate_splits_for_numerical']
    if foc == 'all' and any(sc['types'][q] == 'cont' and coincide([u[q] for u in sc['X']], n) for q in range(W) if len({u[q] for u in sc['X']}) > 1):
        sc['cfg']['candidate_conditioning_features'] = [pos[d] for d in range(D) if pos[d] != sc['f']]


class Case:
    def __init__(self, sc):
        self.sc = sc
        self.base = sc['kind'][1:]
        self.w = la.World({k: sc[k] for k in ('X', 'model', 'a', 'b', 'alpha', 'beta')})
        self.D, self.N, self.f = self.w.D, self.w.N, sc['f']
        self.data = self.w.data()
        self.jac = self.w.jac if sc['jac'] else None
        self.eff = None
        if self.base == 'rhale' and sc.get('E'):
            g = np.random.RandomState(sc['effseed'])
            self.eff = np.round(g.uniform(-1, 1, self.data.shape), 6)
            self.eff[:, self.f] = self.w.beta * np.array(sc['E']) / self.w.b[self.f]
        elif self.base == 'rhale' and sc['effects'] and not sc['exact']:
            # given derivatives: any numbers, distinct, so that rows can be told apart
            g = np.random.RandomState(sc['effseed'])
            self.eff = self.w.jac(self.data) + g.uniform(-1, 1, self.data.shape) * abs(self.w.beta)
            self.eff = np.round(self.eff, 9)
        self.names = sc['names'] or ['x_%d' % d for d in range(self.D)]
        self.cfg = dict(sc['cfg'])
        if 'binning_method' in self.cfg:
            self.cfg['binning_method'] = binning(self.cfg['binning_method'])

    def get(self, k):
        return self.sc['cfg'].get(k, dict(heter_pcg_drop_thres=.1, heter_small_enough=.1, max_depth=1, nof_candidate_splits_for_numerical=20, min_points_per_subregion=10,
                                          candidate_conditioning_features='all', split_categorical_features=False, centering=False, points_for_centering=100).get(k))

    def build(self, **kw):
        sc, w = self.sc, self.w
        kw = dict(dict(cat_limit=sc['cat_limit'], nof_instances='all'), **kw)
        if sc.get('L'):
            kw['axis_limits'] = w.limits(sc['L'])
        if sc['declared']:
            kw['feature_types'] = list(sc['types'])
        if sc['names']:
            kw['feature_names'] = list(sc['names'])
            kw['target_name'] = 'out'
        return {'rpdp': lambda: effector.RegionalPDP(self.data, w.model, **kw), 'rdpdp': lambda: effector.RegionalDerPDP(self.data, w.model, self.jac, **kw),
                'rale': lambda: effector.RegionalALE(self.data, w.model, **kw),
                'rrhale': lambda: effector.RegionalRHALE(self.data, w.model, self.jac, instance_effects=None if self.eff is None else self.eff.copy(), **kw),
                'rshap': lambda: effector.RegionalShapDP(self.data, w.model, **kw)}[sc['kind']]()

    def effects(self):
        """the derivatives RegionalRHALE works with"""
        if self.base != 'rhale':
            return None
        if self.eff is not None:
            return self.eff
        if self.jac is not None:
            return self.jac(self.data)
        return effector.utils.compute_jacobian_numerically(self.w.model, self.data)

    def fit(self, o):
        f = {'one': self.f, 'list': [self.f], 'all': [self.f]}[self.sc['feats']]
        with contextlib.redirect_stdout(io.StringIO()):
            o.fit(f, **self.cfg)

    # ------------------------------------------------------------- the global method on some instances
    def glob(self, m, limits=None, eff=None, names=None):
        m = np.asarray(m, dtype=int)
        data = self.data[m]
        kw = dict(nof_instances='all')
        if limits is not None:
            kw['axis_limits'] = limits
        if names is not None:
            kw['feature_names'] = names
        if self.sc['names']:
            kw['target_name'] = 'out'
        w = self.w
        e = None if eff is None else eff[m]
        return {'pdp': lambda: effector.PDP(data, w.model, **kw), 'dpdp': lambda: effector.DerPDP(data, w.model, self.jac, **kw),
                'ale': lambda: effector.ALE(data, w.model, **kw), 'rhale': lambda: effector.RHALE(data, w.model, self.jac, data_effect=e, **kw),
                'shap': lambda: effector.ShapDP(data, w.model, **kw)}[self.base]()

    def limits_of(self, m):
        d = self.data[np.asarray(m, dtype=int)]
        return np.stack([d.min(0), d.max(0)])

    def heter(self, m, eff):
        """None: the method fails / too few instances; else the heterogeneity of the region"""
        if len(m) < self.get('min_points_per_subregion'):
            return None
        cen = self.get('centering')
        lim = self.limits_of(m)
        lo, hi = lim[:, self.f]
        wide = self.base in ('pdp', 'dpdp')
        try:
            g = self.glob(m, (self.w.limits(self.sc['L']) if self.sc.get('L') else self.limits_of(range(self.N))) if wide else lim, eff)
            if self.base in ('ale', 'rhale'):
                g.fit(self.f, self.bins(), cen)
                return float(np.asarray(g.eval(self.f, np.array([hi]), True)[1])[0])
            g.fit(self.f, centering=cen, points_for_centering=self.get('points_for_centering'))
            z = g.eval(self.f, np.linspace(lo, hi, 10), True, cen if wide else False)[1]
            z = float(np.mean(z))
            return z if np.isfinite(z) else None
        except core.CaseTimeout:
            raise
        except Exception:
            return None

    def bins(self):
        """the binning of the regional fit; a name means the class with its defaults"""
        from eff import bm
        b = self.cfg.get('binning_method', default_binning(self.base))
        return {'fixed': bm.Fixed, 'greedy': bm.Greedy, 'dp': bm.DynamicProgramming}[b]() if isinstance(b, str) else b

    def foc(self):
        c = self.get('candidate_conditioning_features')
        return [d for d in range(self.D) if d != self.f] if c == 'all' else list(c)

    def candidates(self):
        """(feature, position as a Fraction on the lattice)"""
        out = []
        n = self.get('nof_candidate_splits_for_numerical')
        for d in self.foc():
            col = [u[d] for u in self.sc['X']]
            if self.sc['types'][d] == 'cat':
                out += [(d, Fraction(v)) for v in sorted(set(col))]
            else:
                out += [(d, Fraction(min(col)) + Fraction((2 * k + 1) * (max(col) - min(col)), 2 * n)) for k in range(n)]
        return out

    def divide(self, m, d, pos):
        X = self.sc['X']
        if self.sc['types'][d] == 'cat':
            a = [i for i in m if X[i][d] == pos]
        else:
            a = [i for i in m if X[i][d] <= pos]
        s = set(a)
        return a, [i for i in m if i not in s]


def default_binning(base):
    """the documented default of RegionalALE / RegionalRHALE"""
    from eff import bm
    return bm.Fixed(nof_bins=20, min_points_per_bin=0) if base == 'ale' else 'greedy'


# ------------------------------------------------------------------ recording
def lattice_pos(c, d, pos):
    u = (float(pos) - c.w.a[d]) / c.w.b[d]
    if not np.isfinite(u) or abs(u) > 10 ** 6:
        return [0, 0]
    q = Fraction(u).limit_denominator(100)
    if abs(float(q) - u) > 1e-7 * (1 + abs(u)):
        return [0, 0]
    return [q.numerator, q.denominator]


NAME = re.compile(r'^(.*?) (==|!=|<=| >) ([-+0-9.eE]+|nan|inf)$')


def parse_name(name, names, foi):
    """'foi | a <= 1.0 and b  > 2.0' -> [[feature, op, value in 1/10000]], [] for anything else with 0-features"""
    root = names[foi]
    if name == root:
        return []
    if not name.startswith(root + ' | '):
        return [[0, '?', 0]]
    out = []
    for part in name[len(root) + 3:].split(' and '):
        m = NAME.match(part)
        if not m or m.group(1).rstrip() not in names:
            return [[0, '?', 0]]
        v = float(m.group(3))
        out.append([names.index(m.group(1).rstrip()) + 1, m.group(2).strip(), int(round(v * 10000)) if np.isfinite(v) and abs(v) < 200000 else 2000000001])
    return out


def fix(h, unit, sentinel=9e7):
    """[big, value] of a heterogeneity; sentinel: from here on it can only mean a region that cannot be used"""
    if h is None or h >= sentinel:
        return 1, 0
    v = h / unit
    return 0, int(round(v)) if np.isfinite(v) and abs(v) < 1e9 else 1999999999


def int_rows(c, A):
    A = np.asarray(A, dtype=float)
    if A.ndim != 2 or A.shape[1] != c.D:
        return [[999999]]
    U = (A - c.w.a) / c.w.b
    return [[int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-6 and abs(v) < 10 ** 8 else 999999999 for v in row] for row in U]


def eff_ids(c, eff, A):
    """which row of the effects every row is (first match), 0 for none"""
    A = np.asarray(A, dtype=float)
    if A.ndim != 2 or A.shape[1] != c.D:
        return [0]
    return [next((int(i) + 1 for i in np.nonzero(np.all(np.abs(eff - row) <= 1e-6 * (1 + np.abs(eff)), axis=1))[0]), 0) for row in A]


def tree_record(c, tree, eff, foi=None):
    """the nodes of a tree as integers"""
    foi = c.f if foi is None else foi
    out = []
    nodes = tree.nodes
    index = {id(n): k + 1 for k, n in enumerate(nodes)}
    for n in nodes:
        q = n.data
        par = index.get(id(n.parent_node), 0) if n.parent_node is not None else 0
        d = q.get('feature')
        ismember = isinstance(d, (int, np.integer)) and n.level > 0
        pos = q.get('position')
        out.append(dict(idx=int(n.idx), level=int(n.level), parent=par, rows=int_rows(c, q['data']),
                        eff=[] if q.get('data_effect') is None else eff_ids(c, eff, q['data_effect']) if eff is not None else [0],
                        d=int(d) + 1 if ismember else 0, op={'==': '==', '!=': '!=', '<=': '<=', '>': '>'}.get(q.get('comparison'), '') if ismember else '',
                        typ=str(q.get('feature_type', '')) if ismember else '',
                        pos=lattice_pos(c, int(d), pos) if ismember else [0, 1],
                        real=int(round(10000 * float(pos))) if ismember and abs(float(pos)) < 200000 else 0,
                        name=parse_name(n.name, c.names, foi), n=int(q['nof_instances']), w=int(round(float(q['weight']) * 1000000)), h=float(q['heterogeneity'])))
    return out


def record(ctx, sc):
    """fit, record both trees and the heterogeneities of all candidate regions of the recorded search"""
    c = Case(sc)

    def go():
        o = c.build()
        c.fit(o)
        k = 'feature_%d' % c.f
        return o, o.tree_full[k], o.tree_pruned[k]
    ok, out = guarded(ctx, sc, 'fit', go, seconds=150)
    if not ok:
        return None
    o, full, pruned = out
    eff = c.effects()
    trees = [None if t is None else tree_record(c, t, eff) for t in (full, pruned)]
    # all regions TLC may ask for: the candidates' regions along the recorded path
    memo = {}

    def H(m):
        m = tuple(m)
        if m not in memo:
            memo[m] = c.heter(list(m), eff)
        return memo[m]
    regs = [list(range(c.N))]
    H(regs[0])
    cand = c.candidates()
    depth = c.get('max_depth')
    for lev in range(depth):
        if any(len(m) < c.get('min_points_per_subregion') for m in regs):
            break
        for d, pos in cand:
            for m in regs:
                for part in c.divide(m, d, pos):
                    H(part)
        if trees[0] is None:
            break
        nxt = [n for n in trees[0] if n['level'] == lev + 1]
        if not nxt or nxt[0]['d'] == 0 or nxt[0]['pos'][1] == 0:
            break
        d, pos = nxt[0]['d'] - 1, Fraction(*nxt[0]['pos'])
        regs = [p for m in regs for p in c.divide(m, d, pos)]
        for m in regs:
            H(m)
    vals = [v for v in memo.values() if v is not None]
    if not np.all(np.isfinite(vals)) or c.base == 'shap' and max(np.abs(vals + [0.0])) > 9e7:
        return None             # (a spline through a few points may leave every bound)
    top = max([abs(v) for v in vals] + [0.0])
    if 30 * top > max(9e7, 1e4 * (memo[tuple(range(c.N))] or 0)):
        return None             # the root does not tell how heterogeneous the maximum has to be
    sentinel = max(9e7, 30 * top)
    unit = top / UNIT if top > 0 else 1.0
    noise = abs(c.w.beta) * 1e-7        # below: rounding errors of a region without heterogeneity
    if top < noise:
        unit = noise / 10
    big = any(v is None for v in memo.values())
    # the sentinel (1e8 or 10^4 times the heterogeneity of the root) takes part in the sums of the code: its rounding is the tolerance
    tol = 3 + int(np.ceil(2e-15 * max(1e8, 1e4 * (memo[tuple(range(c.N))] or 0)) / unit)) if big else 3
    if tol > 2000:
        return None             # everything below the resolution of the sentinel
    if top < noise:
        tol += 10
    for t in trees:
        for n in t or []:
            n['big'], n['h'] = fix(n['h'], unit, sentinel)
    col = [[u[d] for u in sc['X']] for d in range(c.D)]
    small = c.get('heter_small_enough') / unit
    thr = Fraction(c.get('heter_pcg_drop_thres')).limit_denominator(1000)
    return dict(X=sc['X'], f=c.f + 1, D=c.D, types=[1 if t == 'cat' else 0 for t in sc['types']], foc=[d + 1 for d in c.foc()], depth=depth,
                n=c.get('nof_candidate_splits_for_numerical'), minp=c.get('min_points_per_subregion'), thr=[thr.numerator, thr.denominator],
                small=int(min(10 * UNIT, round(small))), splitcat=int(bool(c.get('split_categorical_features'))),
                H=[dict(m=[i + 1 for i in m], big=int(v is None), h=fix(v, unit, np.inf)[1]) for m, v in memo.items()], tol=tol,
                eff=0 if eff is None else 1, effid=[] if eff is None else eff_ids(c, eff, eff),
                none=[int(t is None) for t in trees], full=trees[0] or [], pruned=trees[1] or [])
