"""C19: the data transformer against Transformer.tla."""
import random, re
import numpy as np
import lattice as la
from eff import effector, guarded
from effector.partitioning import DataTransformer

ASSUMPTIONS = ['conditioning features are never missing']
MISSING = 9999          # +inf where the feature is a condition of a split, otherwise inf or nan
PART = re.compile(r'^x(\d+)(<=|>|!=|=)(-?\d+\.\d\d)$')


def gen(r):
    D = r.choice([1, 2, 2, 3, 3, 4, 5])
    splits, used = [], set()
    style = r.choice(['sparse', 'any', 'any', 'deep'])
    cols = [r.choice(['num', 'cat', 'bool', 'edge']) for _ in range(D)]
    span = r.choice([2, 4, 9])
    for f in range(D):
        n = r.choice({'sparse': [0, 0, 0, 1, 2], 'any': [0, 1, 1, 2, 2, 3], 'deep': [0, 1, 2, 3, 4]}[style])
        sp = []
        for _ in range(n):
            d = r.choice([q for q in range(D) if q != f or r.random() < .1] or [f])
            if sp and r.random() < .15:
                d = sp[-1][0] - 1
            t = int(r.random() < .45)
            sp.append([d + 1, r.choice([2 * r.randint(0, span), 2 * r.randint(0, span), 2 * r.randint(0, span) + 1, -3, 2 * span + 5]), t])
            used.add(d)
        splits.append(sp)
    sets = []
    for _ in range(r.choice([1, 2, 3])):
        N = r.choice([0, 1, 2, 5, 12, 30])
        X = [list(t) for t in zip(*[la.column(r, N, c, span) for c in cols])]
        if r.random() < .15:
            for u in X:
                if r.random() < .3:
                    u[r.randrange(D)] = MISSING
        sets.append(X)
    a, b = la.pick_embedding(r, D, mild=True)
    order = list(range(D))
    if r.random() < .4:
        r.shuffle(order)
    return dict(splits=splits, X=sets, a=a, b=b, order=order, used=sorted(used), dtype=r.choice(['float64', 'float64', 'float32', 'int', 'bool']), seed=r.randrange(10 ** 6))


def real(sc, X, r):
    D = len(sc['splits'])
    out = np.empty((len(X), D))
    for i, u in enumerate(X):
        for d in range(D):
            out[i, d] = sc['a'][d] + sc['b'][d] * u[d] if u[d] != MISSING else (np.inf if d in sc['used'] or r.random() < .5 else np.nan)
    if sc['dtype'] in ('int', 'bool') and all(float(q).is_integer() for q in sc['a'] + sc['b']) and np.all(np.isfinite(out)) and np.all(np.abs(out) < 1e9):
        if sc['dtype'] == 'int':
            return out.astype(np.int64)
        if np.all((out == 0) | (out == 1)):
            return out.astype(bool)
    elif sc['dtype'] == 'float32' and np.array_equal(out.astype(np.float32), out, equal_nan=True):
        return out.astype(np.float32)
    return np.asfortranarray(out) if r.random() < .3 else out


def position(sc, d, p2):
    return sc['a'][d] + sc['b'][d] * p2 / 2


def name_ok(sc, name, col):
    f = col['f'] - 1
    if not col['conds']:
        return name == 'x%d' % f
    head, _, tail = name.partition(' | ')
    parts = [PART.match(q) for q in tail.split(' & ')]
    if head != 'x%d' % f or len(parts) != len(col['conds']) or not all(parts):
        return False
    return all(int(p[1]) == d - 1 and p[2] == op and abs(float(p[3]) - position(sc, d - 1, q)) <= .0050001 + 1e-12 * abs(position(sc, d - 1, q)) for p, (d, op, q) in zip(parts, col['conds']))


def one(ctx, item):
    sc, recs = item
    r = random.Random(sc['seed'])
    cast = r.choice([float, np.float64, lambda v: int(v) if float(v).is_integer() else float(v)])
    d = {'feat_%d' % f: [dict(feature=q[0] - 1, position=cast(position(sc, q[0] - 1, q[1])), type='cat' if q[2] else 'cont') for q in sc['splits'][f]] for f in sc['order']}
    ok, tr = guarded(ctx, sc, 'construct', lambda: DataTransformer(d))
    if not ok:
        return
    for rec in sorted(recs, key=lambda q: q['k']):
        X = real(sc, sc['X'][rec['k'] - 1], r)
        if X.shape[0] == 0:
            X = X.reshape(0, len(sc['splits']))
        before = X.copy()
        ok, got = guarded(ctx, sc, 'transform', lambda: np.array(tr.transform(X)))
        if not ok:
            return
        mask = np.array(rec['mask']).reshape(len(X), len(rec['cols']))
        src = [c['f'] - 1 for c in rec['cols']]
        want = np.where(mask == 1, before[:, src].astype(float), 0.)
        if got.shape != want.shape:
            return ctx.fail(sc, 'columns', 'data set %d: shape %s instead of %s' % (rec['k'], got.shape, want.shape))
        if not np.array_equal(got.astype(float), want, equal_nan=True):
            i, j = np.argwhere(~((got == want) | (np.isnan(got.astype(float)) & np.isnan(want))))[0]
            return ctx.fail(sc, 'values', 'data set %d, row %d, column %d: %r instead of %r' % (rec['k'], i, j, got[i, j], want[i, j]))
        if not np.array_equal(np.asarray(tr.mask, dtype=float), mask):
            return ctx.fail(sc, 'mask', 'data set %d: the mask differs' % rec['k'])
        if not np.array_equal(before, X, equal_nan=True):
            return ctx.fail(sc, 'input', 'the data were changed')
        names = list(tr.new_names)
        bad = [n for n, c in zip(names, rec['cols']) if not name_ok(sc, n, c)]
        if bad or len(names) != len(rec['cols']):
            return ctx.fail(sc, 'names', '%d names for %d columns, wrong: %s' % (len(names), len(rec['cols']), bad[:3]))
        ctx.traces += 1
        ctx.count('transforms')
        ctx.count('columns', len(names))


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 19)
    scs = scs or [gen(r) for _ in range(ctx.n(900, 9000))]
    recs = ctx.tlc_by_id('Transformer', scenarios=[{k: s[k] for k in ('splits', 'X')} for s in scs], shards=6, workers=1)
    ctx.pmap(one, [(s, recs[i]) for i, s in ctx.having(recs, scs)])
    ctx.sample(dict(scs[0], cols=recs[0][0]['cols']))
