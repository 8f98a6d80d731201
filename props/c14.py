"""C14: H-index and REPID against Interaction.tla: every emitted history is replayed on a fresh object and every answer,
the remembered matrices and the plots are compared with the exact values."""
import contextlib, io, random
from fractions import Fraction
import numpy as np
import lattice as la, draw
from eff import effector, guarded
from effector.interaction import HIndex, REPID

ASSUMPTIONS = ['the H-index of a model without any variation is undefined']


def gen(r, kind, hist):
    """hist: 'all' (every history over a small menu), 'rand' (one random history)"""
    while True:
        D = r.choice([2, 3]) if hist == 'all' else r.choice([1, 2, 3, 3, 4, 5])
        N = r.choice([1, 2, 3, 5, 6, 8, 8, 12, 24, 40]) if kind == 'h' else r.choice([2, 3, 5, 8, 12, 24, 40])
        if hist == 'all':
            N = min(N, 6)
        rows = []
        for d in range(D):
            ck = r.choice(['num', 'num', 'cat', 'bool', 'edge', 'skew'] + (['const'] if kind == 'h' else []))
            c = la.column(r, N, ck, r.choice([3, 6, 12]))
            if kind == 'repid':
                c = [40 * (v % 4) for v in c]
            rows.append(c)
        X = [list(t) for t in zip(*rows)]
        style = r.choice(['random', 'random', 'additive', 'partly', 'product'])
        span = max(max(c) for c in rows) or 1
        if style == 'random':
            model = la.gen_model(r, D, None, maxdeg=2 if kind == 'h' else 1, ncut=span, mod=r.choice([5, 7, 11, 19]))
        elif style == 'product':
            model = [dict(m=r.choice([0, 7]), t=[dict(c=r.choice([1, 2, -1]), p=[1] * D, g=[])])]
        else:
            terms = []
            for d in range(D):
                p = [0] * D
                p[d] = r.choice([1, 1, 2])
                terms.append(dict(c=r.choice([-3, -1, 1, 2]), p=p, g=[[d + 1, r.randint(0, span), r.choice([1, -1, 0])]] if r.random() < .4 else []))
            if style == 'partly' and D > 1:
                i, j = r.sample(range(D), 2)
                if r.random() < .5:
                    terms[i]['g'].append([j + 1, r.randint(0, span), r.choice([1, -1])])
                else:
                    terms[i]['p'][j] = 1
            model = [dict(m=0, t=terms)]
        umax = [max(abs(u[d]) for u in X) for d in range(D)]
        if la.term_bound(model, umax) > 10 ** 8:
            continue
        w = la.World(dict(X=X, model=model, a=[0] * D, b=[1] * D, alpha=0, beta=1))
        m = max(abs(int(v)) for q in range(60) for v in w.F(np.array([[r.choice(X)[d] if r.random() < .8 else umax[d] for d in range(D)] for _ in range(20)], dtype=float)))
        m = 2 * m + 1
        if kind == 'h':
            if 2 * N * N * m * 4 > 10 ** 9:
                continue
            sq = int(40 * N ** 5 * m * m < 2 * 10 ** 9)
        else:
            if m > 10 ** 7:
                continue
            sq = int(8 * m * m * N * N < 2 * 10 ** 9)
        break
    a, b = la.pick_embedding(r, D, mild=r.random() < .5)
    alpha, beta = r.choice([(0.0, 1.0), (0.0, 1.0), (5.5, -2.0), (-100.0, 0.25), (0.0, 1e-3), (0.0, 1e4), (1e4, 3.)])
    used = N if r.random() < .6 else r.choice([max(1, N // 2), max(2, N - 2), N, N + 3])
    sc = dict(kind=kind, X=X, model=model, a=a, b=b, alpha=alpha, beta=beta, sq=sq, used='all' if used == N and r.random() < .7 else used, seed=r.randrange(10 ** 6),
              dtype=r.choice(['float64', 'float64', 'int']) if all(float(q).is_integer() for q in a + b) and max(map(abs, a)) < 1e6 else 'float64')
    pair = lambda: ['pair'] + r.sample(range(1, D + 1), 2)
    one = lambda: ['one', r.randint(1, D), 0]
    if kind == 'h':
        pool = [one, one] + ([pair, pair, pair] if D > 1 else [])
        rare = [lambda: ['fitpairs', 0, 0], lambda: ['fitones', 0, 0], lambda: ['fit', 0, 0], lambda: ['plotpairs', 0, 0], lambda: ['plotones', 0, 0], lambda: ['plot', 0, 0]]
    else:
        pool = [one]
        rare = [lambda: ['fitones', 0, 0], lambda: ['plotones', 0, 0]]
    if hist == 'all':
        menu = [['pair', 1, 2], ['pair', 2, 1], ['one', 1, 0], ['one', 2, 0], ['fitpairs', 0, 0], ['fitones', 0, 0]] if kind == 'h' else [['one', 1, 0], ['one', 2, 0], ['fitones', 0, 0]]
        menu += r.sample([['plotpairs', 0, 0], ['plotones', 0, 0], ['plot', 0, 0], ['fit', 0, 0]], 1) if kind == 'h' else []
        sc['menu'] = [menu] * 3
    else:
        sc['menu'] = [[(r.choice(pool) if r.random() < .75 else r.choice(rare))()] for _ in range(r.choice([3, 5, 7]))]
    return sc


def build(sc):
    w = la.World(sc)
    data = w.data()
    if sc['dtype'] == 'int':
        data = data.astype(int)
    np.random.seed(sc['seed'])
    if sc['kind'] == 'h':
        o = HIndex(data, w.model, nof_instances=sc['used']) if sc['used'] != 'all' or sc['seed'] % 2 else HIndex(data, w.model, 'all')
    else:
        o = REPID(data, w.model, w.jac if sc['seed'] % 2 else None, sc['used'])
    return o, w


def numbers(sc, X):
    """(whether the numbers of the specification fit TLC's integers, whether the sums of squares fit too)"""
    N, D = X.shape
    w = la.World(dict(X=sc['X'], model=sc['model'], a=[0] * D, b=[1] * D, alpha=0, beta=1))
    if sc['kind'] == 'h':
        m = 1
        sets = {frozenset(q) for i in range(D) for j in range(D) for q in ([i], [i, j], set(range(D)) - {i})}
        for T in sets:
            T = sorted(T)
            M = np.repeat(X[None], N, 0)                     # M[u, v]: instance v with the features T of u
            M[:, :, T] = X[:, None, T]
            m = max(m, int(np.max(np.abs(w.F(M.reshape(-1, D))))))
        return 2 * N * N * m * 4 < 10 ** 9, int(40 * N ** 5 * m * m < 2 * 10 ** 9)
    m = 1
    for i in range(D):
        lo, hi = X[:, i].min(), X[:, i].max()
        for t in [lo] + [lo + (2 * k + 1) * (hi - lo) / 40 for k in range(20)]:
            Y = X.copy()
            Y[:, i] = t
            m = max(m, 2 * int(np.max(np.abs(w.F(Y)))))
    return 2 * N * m < 2 * 10 ** 9, int(8 * m * m * N * N < 2 * 10 ** 9)


def prepare(ctx, sc):
    """the rows the object uses"""
    ok, out = guarded(ctx, sc, 'construct', lambda: build(sc))
    if not ok:
        return None
    U = out[1].lattice(out[0].data)
    if not np.all(U == np.rint(U)):
        ctx.fail(sc, 'instances', 'the instances held are not rows of the data')
        return None
    X = [[int(q) for q in u] for u in U]
    rows = sorted(map(tuple, sc['X']))
    n = len(rows) if sc['used'] == 'all' else min(sc['used'], len(rows))
    if len(X) != n or any(X.count(list(t)) > rows.count(t) for t in set(map(tuple, X))):
        ctx.fail(sc, 'instances', 'the instances held are not %d rows of the data' % n)
        return None
    fit, sq = numbers(sc, np.array(X, dtype=float))
    if not fit:
        ctx.count('out of range')
        return None
    return dict({k: sc[k] for k in ('kind', 'model', 'menu')}, sq=sq, X=X, ask=[int(min(u[d] for u in X) < max(u[d] for u in X)) for d in range(len(X[0]))])


class Want:
    """exact values of a scenario with tolerances; None: undefined"""
    def __init__(self, sc, rec, val):
        self.sc, self.rec = sc, rec
        self.D, self.N = len(sc['X'][0]), len(rec['X'])
        w = la.World(sc)
        self.scale = w.yscale([0]) + abs(sc['beta']) * (1 + max(abs(v) for v in w.F(w.data()).tolist()))
        self.pairs = {(i, j): self.index(val['pair'][i][j]) for i in range(self.D) for j in range(self.D) if i != j} if sc['kind'] == 'h' else {}
        self.ones = {i: self.index(val['one'][i]) if sc['kind'] == 'h' else self.repid(val['one'][i], i) for i in range(self.D)}

    def index(self, v):
        if 'num' in v:
            num, den = v['num'], v['den']
        else:
            num, den = sum(q * q for q in v['rest']), sum(q * q for q in v['whole'])
        if den == 0:
            return None
        # rounding: noise of the centered values relative to their size
        rms = abs(self.sc['beta']) * float(Fraction(den, self.N)) ** .5 / self.N ** 2
        noise = 200 * 2.3e-16 * self.scale / rms
        if noise > 1e-4:
            return None
        h = float(Fraction(num, den))
        return h, 1e-9 * (h + 1e-3) + 4 * noise * (h ** .5 + noise) + noise * h

    def repid(self, v, i):
        if v == [] or not self.rec['ask'][i]:
            return None
        if 'var' in v:
            var = [Fraction(q, self.N ** 2) for q in v['var']]
        else:
            var = [Fraction(self.N * sum(q * q for q in c) - sum(c) ** 2, self.N ** 2) for c in v['curves']]
        h = abs(self.sc['beta']) * float(np.mean([float(q) ** .5 for q in var]))
        return h, 1e-9 * h + 1e-12 * self.scale * 40


def differs(got, want):
    """None if fine"""
    if want is None:
        return None
    if not (np.ndim(got) == 0 and np.isfinite(float(got)) and abs(float(got) - want[0]) <= want[1]):
        return '%r instead of %.12g' % (got, want[0])


def replay(ctx, sc, want, hist):
    o, w = build(sc)
    D = want.D
    single = sc['kind'] == 'repid'
    labels = ['feature %d' % (k + 1) for k in range(D)]

    def table(vals, keys, what):
        for k in keys:
            d = differs(vals(k), (want.ones if isinstance(k, int) else want.pairs)[k])
            if d:
                return '%s of %s: %s' % (what, k, d)

    fitted = set()
    for step, (op, i, j) in enumerate(hist):
        bad = None
        matrices = (np.array(o.interaction_matrix), np.array(o.one_vs_all_matrix))
        if op == 'pair':
            bad = table(lambda k: o.eval_pairwise(*k), [(i - 1, j - 1)], 'pairwise index')
        elif op == 'one':
            if single and not want.rec['ask'][i - 1]:
                continue
            bad = table(lambda k: o.eval_one_vs_all(k), [i - 1], 'index')
        elif single and not all(want.rec['ask']):
            continue
        elif op.startswith('fit'):
            if single:
                o.fit(*r_features(sc, D, step))
            else:
                o.fit(*{'fitpairs': (True, False), 'fitones': (False, True), 'fit': ()}[op])
            fitted |= {'fitpairs': {'pairs'}, 'fitones': {'ones'} if not single else set(), 'fit': {'pairs', 'ones'}}[op]
            if op != 'fitones':
                bad = table(lambda k: o.interaction_matrix[k], [k for k in want.pairs], 'interaction matrix')
            if op != 'fitpairs' and not single:
                bad = bad or table(lambda k: o.one_vs_all_matrix[k], list(range(D)), 'fitted one-vs-all index')
        else:
            args = () if single else {'plotpairs': (True, False), 'plotones': (False, True), 'plot': ()}[op]
            axes, _ = draw.draw(lambda: o.plot(*args))
            ctx.count('plots')
            if ('pairs' in fitted and not np.array_equal(matrices[0], o.interaction_matrix, equal_nan=True)) or ('ones' in fitted and not np.array_equal(matrices[1], o.one_vs_all_matrix, equal_nan=True)):
                return step, 'plot changed fitted values'
            heat = [a for a in axes if a['images'] and a['images'][0].shape == (D, D)]
            bars = [a for a in axes if a['bars']]
            if op != 'plotones':
                if not heat:
                    bad = 'no heatmap'
                else:
                    bad = table(lambda k: heat[0]['images'][0][k], [k for k in want.pairs], 'heatmap')
                    if heat[0]['ticks'] != [labels, labels]:
                        bad = bad or 'labels of the heatmap: %s' % heat[0]['ticks']
                    txt = {tuple(int(round(q)) for q in p): t for p, t in heat[0]['texts']}
                    for (p, q), v in want.pairs.items():
                        t = txt.get((q, p))
                        if v is not None and not bad and (t is None or abs(float(t) - v[0]) > .0050001 + v[1]):
                            bad = 'text at row %d, column %d of the heatmap: %r instead of %.3f' % (p, q, t, v[0])
            if op != 'plotpairs' and not bad:
                got = {int(round(y + h / 2)): x + wd for x, y, wd, h in bars[0]['bars']} if bars else {}
                if set(got) != set(range(D)):
                    bad = 'no bar chart of all features'
                elif bars[0]['ticks'][1] != labels:
                    bad = 'labels of the bars: %s' % bars[0]['ticks'][1]
                elif not single or all(want.rec['ask']):
                    bad = table(lambda k: got[k], list(range(D)), 'bar')
        if bad:
            return step, bad
        ctx.count('answers')
    return None


def r_features(sc, D, step):
    r = random.Random(sc['seed'] + step)
    t = r.random()
    return () if t < .4 else (('all',) if t < .6 else (r.sample(range(D), r.randint(1, D)),) if t < .85 else (r.randrange(D),))


def one(ctx, item):
    sc, rec, val, hists = item
    want = Want(sc, rec, val)
    for h in hists:
        s = dict(sc, menu=[[c] for c in h])
        with contextlib.redirect_stdout(io.StringIO()):
            ok, bad = guarded(ctx, s, 'call', lambda: replay(ctx, sc, want, h))
        if ok and bad:
            ctx.fail(s, 'value', 'call %d %s: %s' % (bad[0], h[bad[0]], bad[1]))
        ctx.traces += 1
        ctx.count('replayed histories')
        if ctx.enough:
            return


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 14)
    if scs is None:
        scs = [gen(r, 'h', 'rand') for _ in range(ctx.n(220, 2400))] + [gen(r, 'repid', 'rand') for _ in range(ctx.n(70, 800))]
        scs += [gen(r, k, 'all') for k in ['h', 'h', 'repid'] * ctx.n(1, 6)]
    recs = [q for q in ((s, prepare(ctx, s)) for s in scs) if q[1]]
    if ctx.enough:
        return
    out = ctx.tlc_by_id('Interaction', scenarios=[q[1] for q in recs], shards=8, workers=1)
    items = []
    for k, (sc, rec) in ctx.having(out, recs):
        val = next(q['val'] for q in out[k] if 'val' in q)
        hs = [q['hist'] for q in out[k] if 'hist' in q]
        for c in range(0, len(hs), 40):
            items.append((sc, rec, val, hs[c:c + 40]))
    ctx.pmap(one, items)
    if items:
        ctx.sample(dict(scenario={k: v for k, v in items[0][1].items()}, values=items[0][2]))
