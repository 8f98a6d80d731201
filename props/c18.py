import random
import numpy as np
import session
from session import Out
import lattice as la
from eff import effector, bm
import props.c01 as c01

ASSUMPTIONS = ['the request space of Domain.tla; sessions with refused calls as in C01']
CLS = {'pdp': 'PDP', 'dpdp': 'DerPDP', 'ale': 'ALE', 'rhale': 'RHALE', 'shap': 'ShapDP', 'rpdp': 'RegionalPDP',
       'rdpdp': 'RegionalDerPDP', 'rale': 'RegionalALE', 'rrhale': 'RegionalRHALE', 'rshap': 'RegionalShapDP'}
N = 24


# representatives of the abstract arguments of Domain.tla that are outside the domain
WORDS = {'cen': ['foo', 'zero_mean', 'zero', 'zero_', 'Zero_start', 'zero_starts', 'zero_integra', 'start', 'integral', 'true', 'True', 'std', 'zero_start ', 'none'],
         'het': ['stdd', 'st', 'STD', 'std_', 'std_error', 'stderr', 'shap', 'ICE', 'ices', 'var', 'zero_start', 'shap_value', 'true', 'none'],
         'bin': ['kmeans', 'fix', 'Fixed', 'fixed_size', 'GREEDY', 'dynamic', 'dynamic_programming', 'DP', 'd', 'quantile', ''],
         'nof': ['many', 'ALL', 'All', 'al', 'all ', '10', '', 'none', 'auto']}
INTS = {'cen': [3, 0, 1, -1], 'het': [2, 0, 1, -1], 'bin': [5, 0, 20]}
FLOATS = {'cen': [1.5, 0.0, 1.0, float('nan')], 'nof': [10.0, 0.5, 1e9, float('inf'), float('nan')]}
LISTS = {'nof': [[10], (10,), [], {}, [0, 1, 2]]}


def pick(pool, w, *key):
    return random.Random(repr((w.salt,) + key)).choice(pool)


def world(seed):
    r = random.Random(seed)
    X = [[r.randint(0, 40), r.randint(0, 40), r.randint(0, 30)] for _ in range(N)]
    X[0][0], X[1][0] = 0, 40
    a, b = la.pick_embedding(r, 3, mild=True)
    model = [dict(m=0, t=[dict(c=3, p=[1, 0, 0], g=[[2, 20, 1]]), dict(c=-2, p=[2, 1, 0], g=[]), dict(c=1, p=[0, 0, 1], g=[])])]
    w = la.World(dict(X=X, model=model, a=a, b=b, alpha=0, beta=1))
    w.salt = seed
    return w


def construct(m, con, w):
    data = w.data()
    if con['dim'] == 1:
        data = data[:, 0]
    elif con['dim'] == 3:
        data = data[:, :, None]
    kw = {}
    key = (m, sorted(con.items()))
    nof = {'default': None, 'all': 'all', 'small': 20, 'large': 5 * N, 'none': None, 'word': pick(WORDS['nof'], w, *key), 'float': pick(FLOATS['nof'], w, *key), 'list': pick(LISTS['nof'], w, *key)}[con['nof']]
    if con['nof'] != 'default':
        kw['nof_instances'] = nof
    if con['limits'] != 'default':
        L = np.array([[-2.0, -1, -1], [43, 42, 33]])
        if con['limits'] == 'equal':
            L[:, 0] = 20
        if con['limits'] == 'reversed':
            L[:, 0] = [30, 5]
        if con['limits'] == 'reversed other':
            L[:, 1] = [30, 5]
        kw['axis_limits'] = w.limits(L)
    cls = getattr(effector, CLS[m])
    if m in ('dpdp', 'rhale', 'rdpdp', 'rrhale'):
        return cls(data, w.model, w.jac, **kw)
    return cls(data, w.model, **kw)


CEN = {'False': False, 'True': True, 'zero_start': 'zero_start', 'zero_integral': 'zero_integral', 'empty': '', 'none': None}
HET = {'False': False, 'True': True, 'empty': '', 'none': None, 'std': 'std', 'std_err': 'std_err', 'ice': 'ice', 'shap_values': 'shap_values'}


def concrete(known, what, w, m, op):
    v, key = op[what], (m, sorted(op.items()))
    if v in ('word', 'int', 'float'):
        return pick({'word': WORDS, 'int': INTS, 'float': FLOATS}[v][what], w, *key)
    return known[v]


def binning(b, base):
    return {'fixed': 'fixed', 'Fixed': bm.Fixed(4, 0), 'greedy': 'greedy', 'Greedy': bm.Greedy(8, 0), 'dp': 'dp', 'DP': bm.DynamicProgramming(4, 0),
            'class': dict(nof_bins=4)}[b]


def operate(m, o, op, w):
    reg = m[0] == 'r' and m != 'rhale'
    base = m[1:] if reg else m
    kw = {}
    if op['cen'] != 'default':
        kw['centering'] = concrete(CEN, 'cen', w, m, op)
    x = w.real(0, [0, 3, 20, 39, 40])
    if op['op'] == 'fit':
        if op['bin'] != 'default':
            kw['binning_method'] = concrete({}, 'bin', w, m, op) if op['bin'] in ('word', 'int') else binning(op['bin'], base)
        elif base in ('ale', 'rhale'):     # (the defaults would be impossible for a small region)
            kw['binning_method'] = bm.Fixed(3, 0)
        if reg:
            kw.update(nof_candidate_splits_for_numerical=2, heter_small_enough=0.0, min_points_per_subregion=3)
            if op['min'] != 'default':
                kw['min_points_per_subregion'] = int(op['min'])
            if op['depth'] == 'all':
                kw['max_depth'] = 2
            elif op['depth'] == 'too deep':
                kw['max_depth'] = 3
            elif op['depth'] == 'foc':
                kw.update(max_depth=1, candidate_conditioning_features=[2])
            elif op['depth'] == 'foc too deep':
                kw.update(max_depth=2, candidate_conditioning_features=[2])
        return Out(lambda: o.fit(0, **kw))
    node = {'0': 0, 'missing': 3, 'far': 1000, '-1': -1, 'default': None}[op['node']]
    if op['op'] == 'plot':
        if op['het'] != 'default':
            kw['heterogeneity'] = concrete(HET, 'het', w, m, op)
        return Out(lambda: o.plot(0, node, **kw)) if reg else Out(lambda: o.plot(0, **kw))
    het = op['op'] == 'evalhet'
    return Out(lambda: o.eval(0, node, x, het, **kw)) if reg else Out(lambda: o.eval(0, x, het, **kw))


def probe(m, o, w):
    reg = m[0] == 'r' and m != 'rhale'
    x = w.real(0, [0, 3, 17, 40])
    return [Out(lambda: o.eval(0, 0, x, True, c) if reg else o.eval(0, x, True, c)) for c in (False, 'zero_start')]


def request(ctx, sc):
    m, con, op, v = sc['method'], sc['con'], sc['op'], sc['v']
    w = world(sc['seed'])
    reg = m[0] == 'r' and m != 'rhale'
    what = '%s %s %s' % (m, {k: q for k, q in con.items() if q not in ('default', 2)}, {k: q for k, q in op.items() if q != 'default'})

    def prepare(o):
        # a regional effect is fitted with few candidates first (its defaults would only be slower)
        if reg and op['op'] != 'fit' or sc['prefit']:
            return operate(m, o, dict(op='fit', cen='default', bin='default', min='default', depth='default', node='default'), w)
    np.random.seed(5)
    c = Out(lambda: construct(m, con, w))
    if v[0] == 'refused':
        ctx.traces += 1
        if not c.refused:      # a refusal of the first use is as good
            prepare(c.val)
            o = operate(m, c.val, op, w)
            if not o.refused and op['op'] != 'fit':
                ctx.fail(sc, 'domain', '%s: answered %r' % (what, o.val))
            elif not o.refused:
                ctx.fail(sc, 'domain', '%s: neither construction nor fit is refused' % what)
        return
    if c.refused:
        ctx.fail(sc, 'domain', '%s: construction is refused: %s: %s' % (what, type(c.err).__name__, c.err))
        return
    p = prepare(c.val)
    if p is not None and p.refused and 'refused' not in v:
        ctx.fail(sc, 'domain', '%s: fit is refused: %s: %s' % (what, type(p.err).__name__, p.err))
        return
    before = probe(m, c.val, w) if sc['prefit'] else None
    o = operate(m, c.val, op, w)
    ctx.traces += 1
    if v[1] == 'answered' and o.refused:
        ctx.fail(sc, 'domain', '%s: a valid request is refused: %s: %s' % (what, type(o.err).__name__, o.err))
    if v[1] == 'refused' and not o.refused:
        ctx.fail(sc, 'domain', '%s: answered %r' % (what, o.val))
    if len(v) == 3 and not ctx.failures:
        if before is None and v[2] == 'as before':
            if con['nof'] == 'small':
                return
            np.random.seed(5)
            fresh = construct(m, con, w)
            prepare(fresh)
            before = probe(m, fresh, w)
        after = probe(m, c.val, w)
        for k, a in enumerate(after):
            if v[2] == 'refused':
                if not a.refused:
                    ctx.fail(sc, 'domain', '%s: eval answered %r' % (what, a.val))
            elif a.refused != before[k].refused:
                ctx.fail(sc, 'harmless', '%s: eval after the refused call: %s instead of %s' % (what, a.err or a.val, before[k].err or before[k].val))
            elif not a.refused and not session.same(a.val, before[k].val):
                ctx.fail(sc, 'harmless', '%s: eval after the refused call gives %s instead of %s' % (what, a.val, before[k].val))


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 18)
    if scenarios is not None:
        for sc in scenarios:
            if 'con' in sc:
                request(ctx, sc)
            else:
                session.replay(ctx, sc['setup'], session.Table(sc['setup']), sc['hist'], sc['seed'])
        return
    from concurrent.futures import ThreadPoolExecutor
    methods = list(CLS)

    def one(m):
        path = ctx.write('domain-%s.json' % m, dict(method=m))
        return ctx.tlc('Domain', env={'SCEN': path}, workers=1)
    with ThreadPoolExecutor(5) as ex:
        recs = list(ex.map(one, methods))
    items = []
    for m, rs in zip(methods, recs):
        todo = [dict(method=m, con=q['con'], op=q['op'], v=q['v'], seed=r.randrange(10 ** 6), prefit=r.random() < .6) for q in rs]
        # the regional request spaces are large: all requests with one deviation, a sample of the others
        def plain(t):
            return sum(q not in ('default', 2, '0') for q in list(t['con'].values()) + [t['op'][k] for k in ('cen', 'het', 'bin', 'min', 'depth', 'node')])
        rest = [t for t in todo if plain(t) > 1]
        cap = ctx.n(250, 10 ** 6)
        items += [t for t in todo if plain(t) <= 1] + (r.sample(rest, cap) if len(rest) > cap else rest)
        ctx.count('requests', len(todo))
    r.shuffle(items)
    ctx.pmap(request, items)
    if ctx.failures:
        return
    c01.run_kinds(ctx, r, session.GLOBAL + session.REGIONAL, ['fit', 'eval', 'bad'], pairs=ctx.n(60, 1500), longs=ctx.n(12, 200), worlds=ctx.n(1, 4))
    ctx.sample(items[0])
