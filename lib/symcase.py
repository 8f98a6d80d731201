"""One problem written down in two ways (Symmetry.tla): the real problem, the calls that are made on it, and what the calls
answer.  Everything a caller hands over and gets back goes through a Problem, which knows how it is written."""
import contextlib, io, random, re
import numpy as np
import core, draw
from eff import effector, bm

GLOBAL = ['pdp', 'dpdp', 'ale', 'rhale', 'shap']
REGIONAL = ['rpdp', 'rdpdp', 'rale', 'rrhale', 'rshap']
OTHER = ['hindex', 'repid']
CENS = [False, True, 'zero_start', 'zero_integral']


# ------------------------------------------------------------------ scenarios
def gen_problem(r, kind):
    regional = kind in REGIONAL
    base = kind[1:] if regional else kind
    D = r.choice([2, 3, 3, 4]) if base != 'shap' else r.choice([2, 3])
    N = r.choice([12, 20, 33, 40]) if not regional else r.choice([24, 33, 48])
    if base == 'shap':
        N = r.choice([12, 18, 24])
    if kind in ('pdp', 'ale', 'rhale', 'dpdp') and r.random() < (.06 if 'pdp' in kind else .2):
        N = r.choice([130, 260])
    f = r.randrange(D)
    cols, cats = [], []
    for d in range(D):
        k = r.choice(['num', 'num', 'num', 'skew', 'cat']) if d != f or base == 'shap' else r.choice(['num', 'num', 'skew', 'num', 'cat'])
        if base == 'shap' and d == f:
            k = 'num'
        if k == 'cat':
            vals = r.sample(range(-3, 9), r.choice([2, 3, 4] if not regional else [3, 4]))     # (with two values, either can be split off)
            c = [float(v) for v in vals] + [float(r.choice(vals)) for _ in range(N - len(vals))]
            r.shuffle(c)
        else:
            hi = r.choice([4, 12])
            c = [(r.randint(0, hi) if k == 'num' else hi * (r.random() ** 3)) + r.randint(1, 1023) / 1024 for _ in range(N)]
            c = [round(v * 1024) / 1024 for v in c]
            if N > 100 and (d == f or r.random() < .6):     # many instances at few values, the others anywhere
                s = sorted(set(c))
                atoms = r.choice([s[:3], s[-3:], c[:3]])
                c = [v if i % 5 < 1 else r.choice(atoms) for i, v in enumerate(c)]
                c = [v + i / 65536 if v not in atoms else v for i, v in enumerate(c)]
            elif len(set(c)) < N:
                c = [v + i / 65536 for i, v in enumerate(c)] if base != 'shap' else [v + i / 256 for i, v in enumerate(sorted(c))]
        cols.append(c)
        cats.append(k == 'cat')
    X = [list(t) for t in zip(*cols)]
    terms = []
    for d in range(D):
        terms.append([r.choice(['lin', 'sin', 'sq', 'sin']), r.choice([-2, -1, 1, 2, 3]) / 2, d, 0, 0.0])
    terms.append(['sin', r.choice([-.75, .375, 1.25]), f, 0, 0.0])      # (never the same derivative twice)
    for d in range(D):
        if d != f:
            c = r.choice(cols[d]) + 1 / 4096
            terms.append([r.choice(['mul', 'gate', 'gate', 'wave']), r.choice([-3, -2, 2, 3, 4]) / 2, f, d, c])
    if D > 2 and r.random() < .5:
        a, b = r.sample(range(D), 2)
        terms.append(['mul', r.choice([-1, 1]) / 4, a, b, 0.0])
    return dict(X=X, terms=terms, f=f, cats=cats)


def gen_rewriting(r, kind, X, f, allow):
    N, D = len(X), len(X[0])
    # (the shap package takes values that differ by less than 1e-8 or 1e-5 of their size as equal)
    mild = 'shap' in kind
    """a chain of rewritings the specification composes"""
    gens, n, d = [], N, D
    for j in range(r.choice([1, 1, 2, 3, 5])):
        k = r.choice(allow) if N < 100 or j else 'rows'
        if k == 'rows':
            p = list(range(1, n + 1))
            how = r.random()
            if how < (.35 if N < 100 or j else .8):       # sorted by a column
                d0 = f if r.random() < (.6 if N < 100 else .9) else r.randrange(D)
                p.sort(key=lambda i: X[(i - 1) % N][d0], reverse=r.random() < .5)
            else:
                r.shuffle(p) if how < .85 else p.reverse()
            gens.append(dict(k=k, p=p))
        elif k == 'repeat':
            if n > 100:
                continue
            gens.append(dict(k=k, a=r.randint(0, 1)))
            n *= 2
        elif k == 'cols':
            p = list(range(1, d + 1))
            r.shuffle(p) if r.random() < .8 else p.reverse()
            gens.append(dict(k=k, p=p))
        elif k == 'dummy':
            if d > D + 1:
                continue
            gens.append(dict(k=k, a=r.randint(1, d + 1)))
            d += 1
        elif k == 'unit':
            gens.append(dict(k=k, a=r.randint(1, d), b=r.choice([-20, -10, -7, -3, -1, 1, 2, 5, 10, 20] if not mild else [-1, 1, 2, 5])))
        elif k == 'origin':
            gens.append(dict(k=k, a=r.randint(1, d), b=r.choice([-1000, -40, -7, -1, 1, 3, 12, 300] if not mild else [-7, -1, 1, 3])))
        elif k == 'outunit':
            gens.append(dict(k=k, b=r.choice([-30, -20, -10, -3, -1, 1, 4, 10, 20, 30])))
        else:
            gens.append(dict(k=k, b=r.choice([-1000, -30, -2, 1, 5, 100, 700])))
    return gens


def allowed(kind, plan):
    regional = kind in REGIONAL
    base = kind[1:] if regional else kind
    out = ['rows', 'cols', 'unit', 'unit', 'origin', 'origin', 'outorigin']
    if kind == 'rshap':
        out = ['rows', 'cols', 'outorigin']     # (the smoothing is found up to 1e-3, in the units of the feature)
    if base != 'shap':
        out += ['outunit', 'outunit']          # (the smoothing of a spline is absolute)
    if not regional or plan['cfg'].get('candidate_conditioning_features', 'all') != 'all':
        out.append('dummy')
    if kind in ('pdp', 'dpdp', 'hindex', 'repid') or kind in ('ale', 'rhale') and plan['bins'][0] == 'fixed' and not plan['bins'][1].get('min_points_per_bin', 0):
        out.append('repeat')
    return out


def gen_bins(r, base):
    k = r.choice(['fixed', 'fixed', 'name'] if base == 'ale' else ['fixed', 'greedy', 'dp', 'name', 'greedy', 'dp'])
    if k == 'name':
        return ['name', r.choice(['fixed'] if base == 'ale' else ['fixed', 'greedy', 'dp'])]
    cat = r.choice([0, 5, 15])
    return [k, {'fixed': dict(nof_bins=r.choice([1, 3, 5, 8, 20]), min_points_per_bin=r.choice([0, 0, 2]), cat_limit=cat),
                'greedy': dict(init_nof_bins=r.choice([5, 12, 50]), discount=r.choice([0.0, .2, .5]), min_points_per_bin=r.choice([0, 2, 3]), cat_limit=cat),
                'dp': dict(max_nof_bins=r.choice([2, 5, 12]), discount=r.choice([0.0, .2, .5]), min_points_per_bin=r.choice([2, 3]), cat_limit=cat)}[k]]


def gen(r, kind=None):
    kind = kind or r.choice(GLOBAL + REGIONAL + OTHER)
    regional = kind in REGIONAL
    base = kind[1:] if regional else kind
    pb = gen_problem(r, kind)
    X, f = pb['X'], pb['f']
    N, D = len(X), len(X[0])
    col = [u[f] for u in X]
    lo, hi = min(col), max(col)
    plan = dict(cfg={}, bins=['name', 'fixed'], seed=r.randrange(10 ** 6))
    plan['names'] = r.random() < .6 or regional
    plan['xs'] = [r.choice(col), lo, hi] + [lo + (hi - lo) * r.randint(1, 63) / 64 for _ in range(4)] + ([lo - 1.5, hi + 2.0] if base != 'shap' else [])
    plan['P'] = r.choice([None, 3, 10, 30])
    plan['fit'] = r.choice([False, True, 'zero_start', 'zero_integral', None])
    plan['vec'] = r.random() < .7
    plan['L'] = None
    if base != 'shap' and r.random() < .35 and kind not in ('hindex', 'repid'):
        L = [[min(u[d] for u in X) - r.choice([0, .5, 2]) for d in range(D)], [max(u[d] for u in X) + r.choice([0, .25, 3]) for d in range(D)]]
        if not regional and not pb['cats'][f] and r.random() < .6:   # inside the data
            s = sorted(set(col))
            L[0][f], L[1][f] = s[len(s) // 6] - 1 / 8192, s[-1 - len(s) // 6] + 1 / 8192
        plan['L'] = L
    if base in ('ale', 'rhale'):
        plan['bins'] = gen_bins(r, base)
        if plan['bins'][0] in ('greedy', 'dp') and pb['cats'][f]:       # (bins of one value cost nothing, where they end is a matter of rounding)
            plan['bins'][1]['cat_limit'] = 15
    plan['given'] = base == 'rhale' and r.random() < .4
    plan['scale'] = [[float(r.choice([-3, 0, 2, 10])), float(r.choice([.5, 1, 2, 8]))] for _ in range(D)], [float(r.choice([-3, 0, 2, 10])), float(r.choice([.5, 1, 2, 8]))]
    if regional:
        others = [d for d in range(D) if d != f]
        cfg = dict(heter_pcg_drop_thres=r.choice([0.0, .02, .1, .3]), heter_small_enough=r.choice([0.0, 0.0, .1, .5]), max_depth=min(len(others), r.choice([1, 1, 2, 2])),
                   nof_candidate_splits_for_numerical=r.choice([1, 2, 5, 9] if base != 'shap' else [1, 3]), min_points_per_subregion=r.choice([2, 4, 8]),
                   candidate_conditioning_features='all' if r.random() < .6 else r.sample(others, r.randint(1, len(others))), split_categorical_features=r.random() < .6)
        if cfg['candidate_conditioning_features'] != 'all':
            cfg['max_depth'] = min(cfg['max_depth'], len(cfg['candidate_conditioning_features']))
        plan['cfg'] = cfg
        plan['types'] = r.choice(['given', 'found'])
    gens = gen_rewriting(r, kind, X, f, allowed(kind, plan))
    return dict(kind=kind, free=0, X=[[0] * D] * N, gens=gens, drv=dict(pb=pb, plan=plan))


# ------------------------------------------------------------------ a written problem
class Problem:
    def __init__(self, sc, T=None, col=None):
        drv = sc['drv']
        self.sc, self.plan, pb = sc, drv['plan'], drv['pb']
        B = np.array(pb['X'])
        N, D = B.shape
        T = T or dict(rows=list(range(1, N + 1)), cols=list(range(1, D + 1)), ue=[0] * D, sh=[0] * D, oe=0, oc=0)
        self.base, self.D, self.terms = B, D, pb['terms']
        self.rows = [i - 1 for i in T['rows']]
        self.cols = [q - 1 for q in T['cols']]
        self.col = [self.cols.index(d) for d in range(D)] if col is None else [q - 1 for q in col]
        self.ue, self.sh, self.oe, self.oc = T['ue'], T['sh'], T['oe'], T['oc']
        self.W = len(self.cols)
        g = np.random.RandomState(self.plan['seed'])
        self.data = np.column_stack([self.pt(d, B[self.rows, d]) if d >= 0 else g.randint(0, 50, len(self.rows)) + g.rand(len(self.rows)) for d in self.cols])
        self.f = self.col[pb['f']]
        self.cats = pb['cats']

    def pt(self, d, xs):
        """values of the base feature d as they are written"""
        q = self.col[d]
        return np.ldexp(np.asarray(xs, dtype=float) + self.sh[q], self.ue[q])

    def back(self, A):
        A = np.asarray(A, dtype=float)
        return np.column_stack([np.ldexp(A[:, q], -self.ue[q]) - self.sh[q] for q in self.col])

    def model(self, A):
        u = self.back(A)
        y = np.zeros(len(u))
        for k, c, i, j, t in self.terms:
            a, b = u[:, i], u[:, j]
            y = y + c * {'lin': lambda: a, 'sin': lambda: 3 * np.sin(a), 'sq': lambda: a * a / 8, 'mul': lambda: a * b / 4, 'gate': lambda: np.where(b > t, a, 0.0),
                         'wave': lambda: np.where(b > t, 2.0, -1.0) * np.sin(a)}[k]()
        return np.ldexp(y + self.oc, self.oe)

    def jac(self, A):
        u = self.back(A)
        J = np.zeros((len(u), self.W))
        for k, c, i, j, t in self.terms:
            a, b = u[:, i], u[:, j]
            J[:, self.col[i]] += c * {'lin': lambda: np.ones(len(u)), 'sin': lambda: 3 * np.cos(a), 'sq': lambda: a / 4, 'mul': lambda: b / 4, 'gate': lambda: np.where(b > t, 1.0, 0.0),
                                      'wave': lambda: np.where(b > t, 2.0, -1.0) * np.cos(a)}[k]()
            if k == 'mul':
                J[:, self.col[j]] += c * a / 4
        for q in range(self.W):
            J[:, q] = np.ldexp(J[:, q], self.oe - self.ue[q])
        return J

    def effects(self):
        """given derivatives: not those of the model, but carried over like them"""
        g = np.random.RandomState(self.plan['seed'] + 1)
        E = np.round(g.normal(size=self.base.shape), 4)
        out = np.zeros((len(self.rows), self.W))
        for q, d in enumerate(self.cols):
            out[:, q] = np.ldexp(E[self.rows, d], self.oe - self.ue[q]) if d >= 0 else g.rand(len(self.rows))
        return out

    def limits(self, L):
        out = np.stack([self.data.min(0), self.data.max(0)])
        for d in range(self.D):
            out[:, self.col[d]] = self.pt(d, [L[0][d], L[1][d]])
        return out

    def args(self):
        p = self.plan
        kw = dict(nof_instances='all')
        if p['L'] is not None:
            kw['axis_limits'] = self.limits(p['L'])
        if p['names']:
            kw['feature_names'] = ['n%d' % d if d >= 0 else 'extra%d' % q for q, d in enumerate(self.cols)]
            kw['target_name'] = 'out'
        return kw

    def bins(self):
        k, kw = self.plan['bins']
        return kw if k == 'name' else {'fixed': bm.Fixed, 'greedy': bm.Greedy, 'dp': bm.DynamicProgramming}[k](**kw)

    # the units undone: what is drawn and printed is then what the base problem draws and prints
    def scale_x(self, q):
        d = self.cols[q]
        m, s = self.plan['scale'][0][d] if d >= 0 else (0.0, 1.0)
        return dict(mean=m - s * self.sh[q], std=float(np.ldexp(s, -self.ue[q])))

    def scale_y(self, shifted):
        m, s = self.plan['scale'][1]
        return dict(mean=m - s * self.oc * shifted, std=float(np.ldexp(s, -self.oe)))


# ------------------------------------------------------------------ what is asked
def attempt(fn, seconds=90):
    try:
        with core.time_limit(seconds), contextlib.redirect_stdout(io.StringIO()):
            return 'ok', fn()
    except core.CaseTimeout:
        raise
    except Exception as e:
        return 'refused', '%s: %s' % (type(e).__name__, e)


class Answers(list):
    """(label, quantity, base feature, value); value of a refused call: ('refused', why)"""
    def ask(self, label, quantity, f, fn):
        st, v = attempt(fn)
        if st == 'refused':
            self.append((label, 'refused', f, v))
            return None
        v = v if isinstance(v, tuple) else (v,)
        for i, (q, a) in enumerate(zip(quantity, v)):
            if q:
                self.append(('%s [%d]' % (label, i), q, f, np.asarray(a, dtype=float)))
        return v


def ask_global(P, r):
    p, kind = P.plan, P.sc['kind']
    f, q = P.sc['drv']['pb']['f'], P.f
    out = Answers()
    kw = P.args()
    o = {'pdp': lambda: effector.PDP(P.data, P.model, **kw), 'dpdp': lambda: effector.DerPDP(P.data, P.model, P.jac, **kw),
         'ale': lambda: effector.ALE(P.data, P.model, **kw),
         'rhale': lambda: effector.RHALE(P.data, P.model, None if p['given'] else P.jac, data_effect=P.effects() if p['given'] else None, **kw),
         'shap': lambda: effector.ShapDP(P.data, P.model, **kw)}[kind]()
    fit = {}
    if kind in ('ale', 'rhale'):
        fit['binning_method'] = P.bins()
    elif p['P']:
        fit['points_for_centering'] = p['P']
    if p['fit'] is not None:
        fit['centering'] = p['fit']
    if fit:
        st, v = attempt(lambda: o.fit(q, **fit))
        if st == 'refused':
            out.append(('fit', 'refused', f, v))
            return out
    x = P.pt(f, p['xs'])
    raw, cen, spread = {'pdp': ('output', 'centered', 'spread'), 'dpdp': ('derivative', 'derivative', 'derivative'), 'ale': ('accumulated',) * 3,
                        'rhale': ('accumulated',) * 3, 'shap': ('shap',) * 3}[kind]
    todo = [(c, het) for c in CENS for het in (False, True)]
    r.shuffle(todo)
    vec = dict(use_vectorized=p['vec']) if kind in ('pdp', 'dpdp') else {}
    lim = p['L'] and (p['L'][0][f], p['L'][1][f])
    inside = [i for i in range(len(P.base)) if lim is None or lim[0] <= P.base[i, f] <= lim[1]]
    rank = {i: k for k, i in enumerate(inside)}
    skip_het = kind in ('ale', 'rhale')       # (a repeated instance is two instances, which is enough for a spread)
    for i, (c, het) in enumerate(todo):
        name = 'eval(%s, %s)' % (het, c)
        if het and skip_het and len(P.rows) > len(P.base):
            out.ask(name, (cen if c else raw, None), f, lambda: o.eval(q, x, het, c, **vec))
        else:
            out.ask(name, (cen if c else raw, spread), f, lambda: o.eval(q, x, het, c, **vec))
        if kind in ('pdp', 'dpdp') and i == 3:
            st, m = attempt(lambda: np.asarray(o.eval(q, x, False, c, return_all=True, **vec)))
            mine = [i for i in P.rows if i in rank]
            if st == 'ok' and m.shape == (len(x), len(mine)):
                # one column per instance; the columns of the base problem in its order
                first = {}
                for k, i in enumerate(mine):
                    first.setdefault(i, []).append(k)
                for k in range(min(len(v) for v in first.values())):
                    out.append(('ice of %s, copy %d' % (c, k), cen if c and kind == 'pdp' else 'output' if kind == 'pdp' else 'derivative', f, m[:, [first[i][k] for i in inside]]))
            else:
                out.append(('ice of %s' % (c,), 'refused' if st == 'refused' else 'shape', f, m if st == 'refused' else str(m.shape)))
    if p['names']:
        het = r.choice({'pdp': [False, 'std', 'std_err', True, 'ice'], 'dpdp': [False, 'std', 'std_err', True, 'ice'], 'ale': [False, True], 'rhale': [False, True],
                        'shap': [False, 'std', 'shap_values', True]}[kind])
        c = r.choice(CENS)
        avg = r.random() < .4 and not c and kind == 'pdp'
        shifted = int(kind == 'pdp' and not c)
        if not (skip_het and het and len(P.rows) > len(P.base)) and not (het == 'std_err' and len(P.rows) > len(P.base)):
            kw = dict(heterogeneity=het, centering=c, scale_x=P.scale_x(q), scale_y=P.scale_y(shifted))
            if avg:
                kw['show_avg_output'] = True
            st, v = attempt(lambda: draw.draw(lambda: o.plot(q, **kw))[0])
            out.append(('plot(%s, %s)' % (het, c), 'refused' if st == 'refused' else 'drawing', f, v))
    return out


def ask_interaction(P, r):
    kind = P.sc['kind']
    out = Answers()
    D = P.D
    if kind == 'hindex':
        o = effector.interaction.HIndex(P.data, P.model, nof_instances='all')
        for a in range(D):
            for b in range(D):
                if a < b:
                    out.ask('pairwise %d %d' % (a, b), ('hindex',), a, lambda: o.eval_pairwise(P.col[a], P.col[b]))
            out.ask('one vs all %d' % a, ('hindex',), a, lambda: o.eval_one_vs_all(P.col[a]))
    else:
        o = effector.interaction.REPID(P.data, P.model, P.jac, nof_instances='all')
        for a in range(D):
            out.ask('repid %d' % a, ('repid',), a, lambda: o.eval_one_vs_all(P.col[a]))
    return out


def ask_regional(P, r):
    """the trees as (level, parent, condition, rows, heterogeneity) and the answers of their nodes"""
    p, kind = P.plan, P.sc['kind']
    base = kind[1:]
    f, q = P.sc['drv']['pb']['f'], P.f
    kw = P.args()
    kw['cat_limit'] = 10
    if p['types'] == 'given':
        kw['feature_types'] = ['cat' if d >= 0 and P.cats[d] else 'cont' for d in P.cols]
    o = {'rpdp': lambda: effector.RegionalPDP(P.data, P.model, **kw), 'rdpdp': lambda: effector.RegionalDerPDP(P.data, P.model, P.jac, **kw),
         'rale': lambda: effector.RegionalALE(P.data, P.model, **kw),
         'rrhale': lambda: effector.RegionalRHALE(P.data, P.model, None if p['given'] else P.jac, instance_effects=P.effects() if p['given'] else None, **kw),
         'rshap': lambda: effector.RegionalShapDP(P.data, P.model, **kw)}[kind]()
    cfg = dict(p['cfg'])
    het_w = P.oe - (P.ue[q] if base == 'dpdp' else 0)
    cfg['heter_small_enough'] = float(np.ldexp(cfg['heter_small_enough'], het_w))
    if cfg['candidate_conditioning_features'] != 'all':
        cfg['candidate_conditioning_features'] = [P.col[d] for d in cfg['candidate_conditioning_features']]
    if base in ('ale', 'rhale'):
        cfg['binning_method'] = P.bins()
    elif p['P']:
        cfg['points_for_centering'] = p['P']
    if p['fit'] is not None:
        cfg['centering'] = p['fit']
    st, v = attempt(lambda: o.fit(q, **cfg), 200)
    if st == 'refused':
        return dict(refused=v)
    trees = []
    for t in (o.tree_full, o.tree_pruned):
        t = t['feature_%d' % q]
        nodes = []
        for n in (t.nodes if t is not None else []):
            par = n.parent_node
            d = n.data.get('feature') if n.level > 0 else None
            e = n.data.get('data_effect')
            pos = n.data.get('position') if n.level > 0 else None
            nodes.append(dict(idx=int(n.idx), level=int(n.level), parent=None if par is None else int(par.idx), h=float(n.data['heterogeneity']),
                              n=int(n.data['nof_instances']), w=float(n.data['weight']), d=None if d is None else P.cols[int(d)] , q=None if d is None else int(d),
                              op=n.data.get('comparison') if n.level > 0 else None, pos=None if pos is None else float(pos),
                              data=np.asarray(n.data['data'], dtype=float), eff=None if e is None else np.asarray(e, dtype=float)))
        trees.append(None if t is None else nodes)
    out = dict(trees=trees, answers=[], report=None, o=o)
    if trees[1]:
        for n in trees[1]:
            x = P.pt(f, p['xs'] if base != 'shap' else p['xs'][:3])
            a = Answers()
            c, het = r.choice(CENS), r.random() < .6
            raw, cen, spread = {'pdp': ('output', 'centered', 'spread'), 'dpdp': ('derivative',) * 3, 'ale': ('accumulated',) * 3, 'rhale': ('accumulated',) * 3, 'shap': ('shap',) * 3}[base]
            a.ask('eval(node %d, %s, %s)' % (n['idx'], het, c), (cen if c else raw, spread), f, lambda: o.eval(q, n['idx'], x, het, c))
            if r.random() < .5:
                kw = dict(heterogeneity=r.choice([False, True]), centering=c, scale_x_list=[P.scale_x(k) for k in range(P.W)], scale_y=P.scale_y(int(base == 'pdp' and not c)))
                st, v = attempt(lambda: draw.draw(lambda: o.plot(q, n['idx'], **kw))[0])
                a.append(('plot(node %d, %s)' % (n['idx'], kw['heterogeneity']), 'refused' if st == 'refused' else 'drawing', f, v))
            out['answers'].append((n['idx'], a))
        which, only = r.choice(['show_partitioning', 'describe_subregions']), r.random() < .5
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            st, v = attempt(lambda: None)
        try:
            with core.time_limit(60), contextlib.redirect_stdout(buf):
                getattr(o, which)(q, only, [P.scale_x(k) for k in range(P.W)])
            out['report'] = which, buf.getvalue().replace('Feature %d ' % q, 'Feature # ').replace('feature %d\n' % q, 'feature #\n').replace('feature %d ' % q, 'feature # ')
        except core.CaseTimeout:
            raise
        except Exception as e:
            out['report'] = which, 'refused %s' % type(e).__name__
    return out


def observe(P):
    r = random.Random(P.plan['seed'] + 3)
    kind = P.sc['kind']
    with core.time_limit(250):
        return (ask_global if kind in GLOBAL else ask_interaction if kind in OTHER else ask_regional)(P, r)


# ------------------------------------------------------------------ the comparison
NUM = re.compile(r'-?\d+(?:\.\d+)?(?:e[-+]?\d+)?')


class Judge:
    def __init__(self, ctx, sc, rec):
        self.ctx, self.sc, self.rec = ctx, sc, rec
        self.P0 = Problem(sc)
        self.P1 = Problem(sc, rec['T'], rec['col'])
        y = self.P0.model(self.P0.base)
        self.out = float(np.max(np.abs(y)) + np.ptp(y) + abs(self.P1.oc) * 1e-3 + 1)
        j = float(np.max(np.abs(self.P0.jac(self.P0.base))) + 1)
        span = [float(np.ptp(self.P0.base[:, d]) + 4) for d in range(self.P0.D)]
        self.scale = {'output': self.out, 'centered': self.out, 'spread': self.out, 'accumulated': self.out + 10 * j * max(span), 'shap': self.out, 'repid': self.out,
                      'derivative': 4 * j, 'hindex': 1.0}

    def fail(self, clause, detail):
        self.ctx.fail(self.sc, clause, detail)
        return True

    def value(self, quantity, f, v):
        """a written answer in the terms of the base problem"""
        k = self.rec['weight'][f][quantity]
        return np.ldexp(v, -k['w']) - k['c']

    def entries(self, a, b):
        """two lists of answers; True: differ"""
        names = [q[0] for q in b if q[0] in {z[0] for z in a}] if self.sc['kind'] in GLOBAL else None
        da = {q[0]: q for q in a}
        for label, quantity, f, v in b:
            key = label.replace('copy 1', 'copy 0').replace('copy 2', 'copy 0').replace('copy 3', 'copy 0')
            if key not in da:
                if quantity == 'refused' and any(k.startswith(label) for k in da):
                    return self.fail('refused', '%s is refused (%s) when the problem is written as %s' % (label, v, self.how()))
                if any(k == label.split(' [')[0] and q[1] == 'refused' for k, q in da.items()):
                    return self.fail('refused', '%s is refused (%s) but not when the problem is written as %s' % (label, da[label.split(' [')[0]][3], self.how()))
                continue
            q0, v0 = da[key][1], da[key][3]
            if (q0 == 'refused') != (quantity == 'refused'):
                return self.fail('refused', '%s: %r, but %r when the problem is written as %s' % (label, v0 if q0 == 'refused' else 'answered', v if quantity == 'refused' else 'answered', self.how()))
            if quantity == 'refused':
                self.ctx.count('refused in both')
                continue
            if quantity == 'shape':
                return self.fail('values', '%s has shape %s' % (label, v))
            if quantity == 'drawing' and 'shap' in self.sc['kind'] and self.rec['weight'][f]['point']['w']:
                continue
            if quantity == 'drawing':
                d = self.drawings(v0, v)
                if d:
                    return self.fail('plot', '%s: %s (written as %s)' % (label, d, self.how()))
                self.ctx.count('plots')
                continue
            if quantity == 'shap' and self.rec['weight'][f]['point']['w']:
                continue                # (the smoothing of a spline is found by a search that is not free of the unit of x)
            w = self.value(quantity, f, v)
            if w.shape != v0.shape:
                return self.fail('values', '%s has shape %s instead of %s' % (label, w.shape, v0.shape))
            tol = 1e-6 * self.scale[quantity]
            bad = ~((np.abs(w - v0) <= tol) | (np.isnan(w) & np.isnan(v0)) | (w == v0))
            if quantity == 'shap':
                bad &= ~(np.abs(w - v0) <= 1e-5 * self.out)
                bad &= ~((np.abs(v0) > 100 * self.out) & (np.abs(w - v0) <= 1e-4 * np.abs(v0)))
            if bad.any():
                k = np.argwhere(bad)[0]
                return self.fail('values', '%s at %s: %r, but %r (%s) when the problem is written as %s' % (label, k.tolist(), float(v0[tuple(k)]), float(w[tuple(k)]), quantity, self.how()))
            self.ctx.count('answers')
        return False

    def how(self):
        T = self.rec['T']
        return 'rows %s, columns %s, units 2^%s, origins %s, output 2^%d (y + %d)' % (
            'as they are' if T['rows'] == list(range(1, len(T['rows']) + 1)) and self.rec['copies'] == 1 else '%s...' % T['rows'][:6], T['cols'], T['ue'], T['sh'], T['oe'], T['oc'])

    def drawings(self, a, b):
        for d, e in zip(a, b):
            for l in d['lines'] + e['lines']:
                if l['style'] == 'None' and len(l['x']):      # points: in no order
                    o = np.lexsort((l['y'], np.round(l['x'], 6)))
                    l['x'], l['y'] = l['x'][o], l['y'][o]
            # lines: in no order (one per instance), every line beside the one nearest to it
            for ax in (d, e):
                ax['named'] = sorted(l['label'] for l in ax['lines'] if not l['label'].startswith('_'))
            for ax in (d, e):               # (and is drawn twice)
                ls = ax['lines']
                if len(ls) > 1 and ls[0]['color'] == ls[1]['color'] and ls[0]['style'] == '-' and np.array_equal(ls[0]['y'], ls[1]['y']):
                    ax['lines'] = ls[1:]
            left, pairs = list(e['lines']), []
            for l in d['lines'] + e['lines']:
                l['label'] = ''
            for l in d['lines']:
                near = [m for m in left if m['color'] == l['color'] and m['style'] == l['style'] and m['y'].shape == l['y'].shape]
                if near:
                    m = min(near, key=lambda m: float(np.nanmax(np.abs(m['y'] - l['y']))) if len(l['y']) and np.isfinite(m['y']).any() else 0.0)
                    left = [q for q in left if q is not m]
                    pairs.append(m)
            e['lines'] = pairs + left
        m = max([abs(float(v)) for d in a for l in d['lines'] for v in l['y'] if np.isfinite(v)] + [1.0])
        many = self.rec['copies'] > 1
        skip = ('images',) + (('lines', 'ylim') if many else ())
        # everything that is near zero is near zero: absolute tolerance through an added scale
        return close(a, b, 5e-3 if self.sc['kind'] == 'shap' else 1e-5, m, skip)

    def judge(self):
        kind = self.sc['kind']
        a, b = observe(self.P0), observe(self.P1)
        if kind not in REGIONAL:
            return self.entries(a, b)
        if 'refused' in a or 'refused' in b:
            if ('refused' in a) != ('refused' in b):
                return self.fail('refused', 'fit: %s / %s when written as %s' % (a.get('refused', 'answered'), b.get('refused', 'answered'), self.how()))
            return False
        same = self.trees(a['trees'], b['trees'])
        if same is None:
            return True
        if not same:
            self.ctx.count('trees not compared to the end')
            return False
        self.ctx.count('trees with %d levels' % max([n['level'] for n in a['trees'][0] or []] + [0]))
        for (i, x), (j, y) in zip(a['answers'], b['answers']):
            if self.entries(x, y):
                return True
        return self.reports(a['report'], b['report'])

    def trees(self, a, b):
        """True: the same; False: from some point on they need not be; None: they differ (reported)"""
        P0, P1 = self.P0, self.P1
        f = self.sc['drv']['pb']['f']
        quantity = 'derivative' if self.sc['kind'] == 'rdpdp' else 'spread'
        sentinel = 9e7
        full = True
        for which, (s, t) in enumerate(zip(a, b)):
            name = ['full', 'pruned'][which]
            if which == 1 and not full:
                return False
            if (s is None) != (t is None):
                return self._differ('%s tree: %s / %s' % (name, 'none' if s is None else 'there', 'none' if t is None else 'there'))
            if s is None:
                continue
            byl = lambda nodes: {l: [n for n in nodes if n['level'] == l] for l in {n['level'] for n in nodes}}
            A, B = byl(s), byl(t)
            weighted = None
            for l in range(0, max(list(A) + list(B)) + 1):
                if which == 0 and l > 0 and self.vague(A[l - 1], f):
                    full = False
                    break
                if l > 0 and l in A and l in B and (all(any(q['h'] >= 9e7 for q in S[l]) for S in (A, B)) or
                                                    self.vague(A[l], f) and self.vague([dict(q, h=float(self.value(quantity, f, q['h']))) for q in B[l]], f)):
                    full = False        # every candidate leaves an unusable region, or several leave nothing: any of them may be taken
                    break
                if (l in A) != (l in B):
                    return self._differ('%s tree has %d / %d levels' % (name, max(A), max(B)))
                for m, n in zip(A[l], B[l]):
                    d = self.nodes(m, n, quantity, f)
                    if d:
                        return self._differ('%s tree, node %d: %s' % (name, m['idx'], d))
                if len(A[l]) != len(B[l]):
                    return self._differ('%s tree: %d / %d nodes' % (name, len(A[l]), len(B[l])))
            if which == 0 and full and not self.clear(A):
                full = False
        return True

    def _differ(self, d):
        self.fail('regions', '%s (written as %s)' % (d, self.how()))

    def vague(self, level, f):
        """after this level nothing is left to tell candidates apart (or some region is unusable)"""
        n = sum(q['n'] for q in level)
        h = sum(q['n'] * q['h'] for q in level) / max(1, n)
        return not np.isfinite(h) or any(q['h'] >= 9e7 for q in level) or h < 1e-4 * self.scale['spread' if self.sc['kind'] != 'rdpdp' else 'derivative']

    def clear(self, levels):
        """are the decisions of the pruning clear?"""
        cfg = self.P0.plan['cfg']
        h = [sum(q['w'] * q['h'] for q in levels[l]) for l in sorted(levels)]
        if any(q['h'] >= 9e7 for l in levels.values() for q in l):
            return False
        if abs(h[0] - cfg['heter_small_enough']) < 1e-5 * self.scale['spread']:
            return False
        return all(abs((a - b) - cfg['heter_pcg_drop_thres'] * a) > 1e-5 * max(abs(a), 1e-3) for a, b in zip(h, h[1:]))

    def nodes(self, m, n, quantity, f):
        P0, P1 = self.P0, self.P1
        for k in ('idx', 'parent', 'n', 'op'):
            if m[k] != n[k]:
                return '%s is %r / %r' % (k, m[k], n[k])
        if abs(m['w'] - n['w']) > 1e-9:
            return 'weight is %r / %r' % (m['w'], n['w'])
        # the same instances, each complete, in the order of the problem
        a, b = m['data'], P1.back(n['data'])
        if a.shape != b.shape:
            return 'data has shape %s / %s' % (a.shape, b.shape)
        rank = {tuple(u): k for k, u in enumerate(map(tuple, np.round(P1.base[P1.rows], 6)))}
        if len(rank) == len(P1.rows):
            order = [rank.get(tuple(u), -1) for u in np.round(b, 6)]
            if order != sorted(order) or sorted(map(tuple, np.round(a, 6))) != sorted(map(tuple, np.round(b, 6))):
                return 'it holds other instances'
        if m['d'] != n['d']:
            self.ctx.count('same regions by another feature')
        elif m['d'] is not None:
            q = n['q']
            pos = float(np.ldexp(n['pos'], -P1.ue[q]) - P1.sh[q])
            if abs(pos - m['pos']) > 1e-6 * (20 + abs(P1.sh[q]) * 1e-3):
                return 'position is %r / %r' % (m['pos'], pos)
        h = float(self.value(quantity, f, n['h']))
        big = m['h'] >= 9e7, n['h'] >= min(9e7, 1e4)
        if m['h'] >= 9e7:
            return None if n['h'] >= 9e7 else 'heterogeneity is maximal / %r' % h
        if self.sc['kind'] == 'rshap' and abs(m['h']) > 100 * self.out:
            return None if abs(h - m['h']) <= 1e-4 * abs(m['h']) else 'heterogeneity is %r / %r' % (m['h'], h)
        if not (abs(h - m['h']) <= 2e-6 * self.scale['spread' if quantity == 'spread' else 'derivative']) and not (np.isnan(h) and np.isnan(m['h'])):
            return 'heterogeneity is %r / %r' % (m['h'], h)
        return None

    def reports(self, a, b):
        """the printed numbers up to the rounding of their digits; heterogeneities only where their unit is the same"""
        if a is None or b is None:
            return False
        P1 = self.P1
        w = self.rec['weight'][self.sc['drv']['pb']['f']]['derivative' if self.sc['kind'] == 'rdpdp' else 'spread']['w']
        x, y = a[1], b[1]
        if x.startswith('refused') or y.startswith('refused'):
            return x != y and self.fail('report', '%s: %s / %s' % (a[0], x[:60], y[:60]))
        if any(abs(s) >= 1000 for s in P1.sh) or 'BIG' in x:
            return False
        if NUM.sub('#', x) != NUM.sub('#', y) and not (w and 'e+' in y + x):
            k = next((i for i, (p, q) in enumerate(zip(NUM.sub('#', x).split('\n'), NUM.sub('#', y).split('\n'))) if p != q), 0)
            return self.fail('report', '%s: line %r instead of %r (written as %s)' % (a[0], y.split('\n')[k], x.split('\n')[k], self.how()))
        for p, q in zip(x.split('\n'), y.split('\n')):
            for (u, v), pre in zip(zip(NUM.findall(p), NUM.findall(q)), NUM.split(p)):
                if w and re.search(r'(?i)heter', pre) and 'drop' not in pre.lower() or w and 'drop' in pre.lower() and not pre.rstrip().endswith('('):
                    continue
                u, v = float(u), float(v)
                if abs(u - v) > .0102 + 1e-4 * abs(u):
                    return self.fail('report', '%s: line %r instead of %r (written as %s)' % (a[0], q, p, self.how()))
        self.ctx.count('reports')
        return False


def close(a, b, tol, scale, skip=()):
    """like draw.differ with an absolute tolerance"""
    if isinstance(a, dict):
        if set(a) != set(b):
            return 'structure'
        return next(('%s: %s' % (k, d) for k in a if k not in skip for d in [close(a[k], b[k], tol, scale, skip)] if d), None)
    if isinstance(a, (list, tuple)) and not (a and all(isinstance(q, (int, float)) for q in a)):
        if len(a) != len(b):
            return '%d instead of %d' % (len(b), len(a))
        return next(('[%d] %s' % (i, d) for i, (p, q) in enumerate(zip(a, b)) for d in [close(p, q, tol, scale, skip)] if d), None)
    if isinstance(a, str):
        if a == b:
            return None
        if NUM.sub('#', a) == NUM.sub('#', b) and all(abs(float(u) - float(v)) <= .0102 + 1e-4 * abs(float(u)) for u, v in zip(NUM.findall(a), NUM.findall(b))):
            return None
        return '%r instead of %r' % (b, a)
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return 'shape %s instead of %s' % (y.shape, x.shape)
    bad = ~((np.abs(x - y) <= tol * (scale + np.abs(x))) | (np.isnan(x) & np.isnan(y)) | (x == y))
    return '%r instead of %r' % (y.ravel()[bad.ravel()][:4].tolist(), x.ravel()[bad.ravel()][:4].tolist()) if bad.any() else None
