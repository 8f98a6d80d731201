import contextlib, copy, io, random, zlib
import numpy as np
import core, session
from eff import effector, bm, guarded

ASSUMPTIONS = ['an object is unchanged when the CRC-32 of its contents (dtype, shape, bytes; recursively for lists, dictionaries and binning objects) is']


def contents(v):
    if isinstance(v, np.ndarray):
        return (str(v.dtype) + str(v.shape)).encode() + v.tobytes()
    if isinstance(v, (list, tuple)):
        return b'[' + b','.join(contents(q) for q in v) + b']'
    if isinstance(v, dict):
        return b'{' + b','.join(contents(k) + b':' + contents(q) for k, q in v.items()) + b'}'
    if type(v).__module__.startswith('effector'):
        return type(v).__name__.encode() + contents({k: q for k, q in sorted(vars(v).items())
                                                     if isinstance(q, (int, float, str, bool, type(None), np.ndarray, list, dict))})
    return repr(v).encode()


class Owned:
    """objects of the caller in the order in which they became known"""
    def __init__(self):
        self.objs, self.names, self.ev, self.calls = [], [], [], []

    def __call__(self, name, v):
        if isinstance(v, (np.ndarray, list, dict)) or type(v).__module__.startswith('effector.binning'):
            if not any(v is o for o in self.objs):
                self.objs.append(v)
                self.names.append(name)
                if isinstance(v, dict):
                    for k, q in v.items():
                        self(name + '.' + str(k), q)
        return v

    def snap(self, call):
        self.ev.append(dict(d=[zlib.crc32(contents(o)) & 0x7fffffff for o in self.objs]))
        self.calls.append(call)


def session_trace(ctx, sc):
    """a behaviour of Session.tla on a real object; digests before and after every call"""
    own = Owned()
    orig = session.Out

    class Spy(orig):
        def __init__(self, fn):
            own.snap('before')
            orig.__init__(self, fn)
            own.snap('call')

    def go():
        session.Out = Spy
        try:
            s = session.Session(sc['setup'], sc['seed'], own)
            own.snap('constructor')
            for i, h in enumerate(sc['hist']):
                what = '%s %s' % (h['op'], {k: v for k, v in h.items() if k not in ('op', 'want')})
                n = len(own.calls)
                if h['op'] == 'fit':
                    s.fit(h['fs'], h['c'], h['cen'])
                    if s.regional:      # show every kind of node of what was just found
                        for f in h['fs']:
                            nodes = [k for k in s.nodes(f) or [] if k] or [0]
                            s.plot(f, s.r.randrange(3), node=s.r.choice(nodes))
                            s.eval(f, s.r.randrange(3), node=s.r.choice(nodes))
                            s.report(f)
                elif h['op'] in ('eval', 'plot'):
                    node = None
                    if s.regional:
                        node = s.r.choice(s.nodes(h['f']) or [0])
                    (s.eval if h['op'] == 'eval' else s.plot)(h['f'], h['cen'], node=node)
                elif h['op'] == 'report':
                    s.report(h['f'])
                else:
                    calls = s.bad_calls(h['f'])
                    session.Out(calls[(h['k'] - 1) % len(calls)][1])
                for k in range(n, len(own.calls)):
                    own.calls[k] = 'call %d: %s' % (i + 1, what)
        finally:
            session.Out = orig
        return True
    ok, _ = guarded(ctx, sc, 'ownership', go, seconds=200)
    return dict(kind='trace', ev=own.ev, names=own.names, calls=own.calls) if ok else None


def other_trace(ctx, sc):
    """interaction measures, data transformer, binning objects shared between objects"""
    r = random.Random(sc['seed'])
    own = Owned()

    def call(name, fn):
        own.snap('before ' + name)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                v = fn()
            except (ValueError, AssertionError):
                v = None            # impossible binning
        own.snap(name)
        for q in (v if isinstance(v, tuple) else (v,)):
            own('returned by ' + name, q)
        return v

    def go():
        g = np.random.RandomState(sc['seed'])
        N, D = r.choice([8, 15, 30]), r.choice([2, 3])
        X = own('data', np.asfortranarray(np.round(g.uniform(0, 10, (N, D)), 2)) if r.random() < .3 else np.round(g.uniform(0, 10, (N, D)), 2))
        if r.random() < .2:
            X = own('data', X.astype(int))
        f = lambda A: A[:, 0] * A[:, 1] + A[:, -1] ** 2
        df = lambda A: np.stack([A[:, 1] if d == 0 else A[:, 0] if d == 1 else 0 * A[:, 0] for d in range(D)], 1)
        nof = r.choice(['all', N - 2, N + 3])
        if sc['what'] == 'hindex':
            o = call('HIndex', lambda: effector.interaction.HIndex(X, f, nof))
            for _ in range(8):
                i, j = r.sample(range(D), 2)
                call(*r.choice([('eval_pairwise', lambda: o.eval_pairwise(i, j)), ('eval_one_vs_all', lambda: o.eval_one_vs_all(i)), ('fit', lambda: o.fit()), ('plot', lambda: o.plot())]))
        elif sc['what'] == 'repid':
            o = call('REPID', lambda: effector.interaction.REPID(X, f, df, nof))
            fs = own('features', [0, 1])
            for _ in range(6):
                i = r.randrange(D)
                call(*r.choice([('eval_one_vs_all', lambda: o.eval_one_vs_all(i)), ('fit', lambda: o.fit(fs)), ('plot', lambda: o.plot())]))
        elif sc['what'] == 'transformer':
            splits = {'feat_%d' % d: [dict(feature=r.randrange(D), position=float(r.randint(0, 10)), type=r.choice(['cat', 'cont'])) for _ in range(r.choice([0, 1, 2]))] for d in range(D)}
            own('splits', splits)
            o = call('DataTransformer', lambda: effector.partitioning.DataTransformer(splits))
            Z = own('data 2', X[:5] + 1)
            for _ in range(4):
                call('transform', lambda: o.transform(r.choice([X, Z])))
        else:
            methods = [own('binning', b) for b in (bm.Fixed(nof_bins=4, min_points_per_bin=0, cat_limit=r.choice([0, 40])), bm.Greedy(init_nof_bins=9, min_points_per_bin=2), bm.DynamicProgramming(max_nof_bins=4, min_points_per_bin=r.choice([2, None])))]
            lim = own('axis_limits', np.array([[0.] * D, [10.] * D]))
            E = own('effects', df(X.astype(float)))
            objs = [call('RHALE', lambda: effector.RHALE(X, f, df, axis_limits=lim, data_effect=E, nof_instances=nof)), call('ALE', lambda: effector.ALE(X, f, axis_limits=lim, nof_instances=nof)),
                    call('RegionalRHALE', lambda: effector.RegionalRHALE(X, f, df, instance_effects=E, axis_limits=lim, nof_instances=nof)),
                    call('RegionalALE', lambda: effector.RegionalALE(X, f, axis_limits=lim, nof_instances=nof))]
            foc = own('candidates', list(range(D)))
            fs = own('features', list(range(D)))
            sx = own('scale_x_list', [dict(mean=float(d), std=2.) for d in range(D)])
            x = own('xs', np.linspace(0, 10, 6)[::-1])
            for _ in range(10):
                o = r.choice(objs)
                ale = 'RHALE' not in type(o).__name__
                b = methods[0] if ale else r.choice(methods)
                if 'Regional' in type(o).__name__:
                    call('regional fit', lambda: o.fit(fs, heter_small_enough=0., candidate_conditioning_features=foc, min_points_per_subregion=2, nof_candidate_splits_for_numerical=3, binning_method=b))
                    call('regional eval', lambda: o.eval(0, 0, x, True, 'zero_integral'))
                    call('regional plot', lambda: o.plot(0, 0, True, True, sx, sx[0]))
                    call('report', lambda: o.show_partitioning(fs, r.random() < .5, sx))
                    call('describe', lambda: o.describe_subregions(fs, r.random() < .5, sx))
                else:
                    call('fit', lambda: o.fit(fs, binning_method=b))
                    call('eval', lambda: o.eval(r.randrange(D), x, True, r.choice([False, 'zero_start', True])))
                    call('plot', lambda: o.plot(0, True, r.choice([False, True]), sx[0], sx[1], True, [-3, 3], [-3, 3]))
        return True
    import matplotlib.pyplot as plt
    ok, _ = guarded(ctx, sc, 'ownership', go, seconds=200)
    plt.close('all')
    return dict(kind='trace', ev=own.ev, names=own.names, calls=own.calls) if ok else None


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 13)
    if scenarios is None:
        design(ctx)
        scenarios = []
        from concurrent.futures import ThreadPoolExecutor
        jobs = []
        for kind in session.GLOBAL + session.REGIONAL:
            slow = kind in ('shap', 'rshap')
            for _ in range(1 if slow else ctx.n(3, 8)):
                su = session.gen_setup(r, kind)
                if r.random() < .3:
                    su['nof'] = len(su['X']) - r.choice([0, 1, -2])
                su['names'] = int(r.random() < .7)
                if kind in session.REGIONAL and r.random() < .5:
                    su['types'] = [r.choice(['cont', 'cat']) for _ in su['X'][0]]
                ops = ['fit', 'eval', 'plot', 'bad'] + (['report'] if kind in session.REGIONAL else [])
                setup = dict(D=len(su.get('at') or su['X'][0]), C=len(su['cfg']) - 1, len=8, ops=ops, bad=3, mutant=0, possible=[[1] * 6] * 4, answers=[[1] * 6] * 4)
                jobs.append((su, setup, ctx.n(8 if slow else 14, 80), r.randrange(10 ** 6)))

        def tlc(j):
            path = ctx.write('own-%d.json' % j[3], j[1])
            return [q['h'] for q in ctx.tlc('Session', env={'SCEN': path}, workers=1, simulate='num=%d' % j[2], extra=['-depth', '10', '-seed', str(j[3])])]
        with ThreadPoolExecutor(6) as ex:
            hists = list(ex.map(tlc, jobs))
        for j, hs in zip(jobs, hists):
            scenarios += [dict(setup=j[0], hist=h, seed=r.randrange(10 ** 6)) for h in hs]
        for what in ('hindex', 'repid', 'transformer', 'binning'):
            scenarios += [dict(what=what, seed=r.randrange(10 ** 6)) for _ in range(ctx.n(16, 120))]
        r.shuffle(scenarios)
    todo = ctx.pmap(lambda sub, sc: session_trace(sub, sc) if 'setup' in sc else other_trace(sub, sc), scenarios)
    idx = [i for i, t in enumerate(todo) if t and t['ev']]
    recs = ctx.tlc_by_id('Ownership', scenarios=[dict(kind='trace', mutant=0, ev=todo[i]['ev']) for i in idx], shards=6, workers=1)
    for j, i in ctx.having(recs, idx):
        bad = recs[j][0]['bad']
        ctx.traces += 1
        ctx.count('calls', len(todo[i]['calls']))
        if bad:
            ctx.fail(scenarios[i], 'ownership', '%s changed the caller\'s %s' % (todo[i]['calls'][bad[0] - 1], todo[i]['names'][bad[1] - 1]))
    if idx:
        ctx.sample(dict(calls=todo[idx[0]]['calls'][:8], objects=todo[idx[0]]['names'][:10]))


def design(ctx):
    ctx.tlc('Ownership', scenarios=[dict(kind='design', mutant=0, ev=[])], workers=4)
    try:
        ctx.tlc('Ownership', scenarios=[dict(kind='design', mutant=1, ev=[])], workers=4)
    except core.MachineryError as e:
        if 'CallerUnchanged' not in str(e):
            raise
    else:
        raise core.MachineryError('writing through a kept reference is not rejected by Ownership.tla')
