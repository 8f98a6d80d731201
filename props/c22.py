"""C22: interleavings of Independent.tla on two real objects that share what they can; the oracle of every call is the same
call in the history of its object alone, made in a process of its own."""
import contextlib, io, json, os, pickle, random, sys, warnings, zlib
import numpy as np
import core, draw, session, lattice as la
from eff import effector, bm
import matplotlib
import matplotlib.pyplot as plt
from props.c13 import contents

ASSUMPTIONS = ['two answers are the same when they agree to a relative 1e-9; two figures when their artists, texts and limits do',
               'settings looked at: numpy error handling and print options, matplotlib rcParams and backend, warning filters, Python random state, environment, working directory']
OTHERS = ['hindex', 'repid']


PLAIN = la.World


# ------------------------------------------------------------------ scenarios
def gen(r, thorough=False):
    """two setups that share data, model, limits, names and configurations, or differ in one of them"""
    while True:
        kinds = session.GLOBAL + session.REGIONAL + OTHERS
        A = r.choice([k for k in kinds if k not in ('shap', 'rshap') or r.random() < .6])
        how = r.choice(['model', 'data', 'limits', 'config', 'class', 'class', 'none'])
        B = A
        if how == 'class':
            B = r.choice([k for k in kinds if k != A and (k not in ('shap', 'rshap') or r.random() < .6)])
        sus = [gen_one(r, A), gen_one(r, B)]
        a, b = sus
        D = [len(s['X'][0]) for s in sus]
        if D[0] != D[1]:
            continue
        deriv = [s for s in sus if s['kind'].lstrip('r') in ('dpdp', 'hale', 'rhale') or s['kind'] == 'repid']
        src = deriv[0] if deriv else a
        share = {'X', 'model', 'a', 'b', 'alpha', 'beta', 'L', 'names', 'xi', 'cfg', 'jac', 'effects', 'types', 'nof'}
        share -= {'model': {'model'}, 'data': {'X'}, 'limits': {'L'}, 'config': {'cfg'}}.get(how, set())
        if A != B:
            share -= {'cfg', 'nof'}
        if how == 'data':           # other instances with the same values per feature
            cols = [list(c) for c in zip(*a['X'])]
            for c in cols:
                r.shuffle(c)
            b['X'] = [list(t) for t in zip(*cols)]
        for k in share:
            v = [s.get(k) for s in sus]
            pick = src.get(k) if k in ('model', 'a', 'b', 'alpha', 'beta') else a.get(k)
            for s in sus:
                if pick is None:
                    s.pop(k, None)
                else:
                    s[k] = pick
                if k == 'L':
                    s['L'] = pick
        if 'L' not in a or 'L' not in b:
            continue
        break
    for s in sus:
        s.pop('at', None)
        if s.get('nof') and s['nof'] >= len(s['X']) + 3:
            s['nof'] = 'all'
    return dict(setups=sus, how=how)


def gen_one(r, kind):
    if kind in OTHERS:
        su = session.gen_setup(r, 'rrhale' if r.random() < .5 else 'rhale')
        su.pop('at', None)
        su['kind'] = kind
        su['cfg'] = [None, None, None, None]
        su['X'] = su['X'][:r.choice([8, 12])] if r.random() < .5 else su['X']
    else:
        su = session.gen_setup(r, kind)
        if 'at' in su:
            return gen_one(r, kind)
    if r.random() < .4:
        N = len(su['X'])
        su['nof'] = r.choice([N - 2, N // 2 + 1, N, N + 2])
    return su


# --------------------------------------------------------------- running calls
class Said:
    """outcome of a call; nothing is closed, the text it printed is kept"""
    def __init__(self, fn):
        self.err = self.val = None
        buf = io.StringIO()
        try:
            with core.time_limit(60), contextlib.redirect_stdout(buf):
                self.val = fn()
        except core.CaseTimeout:
            raise
        except Exception as e:
            self.err = e
        self.text = buf.getvalue()

    @property
    def refused(self):
        return self.err is not None


class Matrix:
    """HIndex or REPID behind the calls of a session"""
    regional = False

    def __init__(self, su, seed, own):
        self.r, self.su, self.kind = random.Random(seed), su, su['kind']
        w = self.w = la.World({k: su[k] for k in ('X', 'model', 'a', 'b', 'alpha', 'beta')})
        data = own('data', w.data())
        nof = su.get('nof', 'all')
        self.obj = effector.interaction.HIndex(data, w.model, nof) if self.kind == 'hindex' else effector.interaction.REPID(data, w.model, w.jac if su['jac'] else None, nof)
        self.D = w.D

    def fit(self, f, c, cen):
        a = {0: (), 1: (True, False), 2: (False, True), 3: (True, True)}[c] if self.kind == 'hindex' else (() if c else ([f - 1],))
        return Said(lambda: self.obj.fit(*a))

    def eval(self, f, cen):
        def go():
            if self.kind == 'hindex' and cen:
                return np.array([self.obj.eval_pairwise(f - 1, f % self.D), self.obj.one_vs_all_matrix[f - 1] if cen == 2 else 0.])
            return np.array([self.obj.eval_one_vs_all(f - 1)], dtype=float)
        return Said(go)

    def plot(self, f, cen):
        a = {0: (), 1: (True, False), 2: (False, True)}[cen] if self.kind == 'hindex' else ()
        return Said(lambda: self.obj.plot(*a))

    def report(self, f):
        return Said(lambda: (np.array(self.obj.one_vs_all_matrix, dtype=float),) + ((np.array(self.obj.interaction_matrix, dtype=float),) if self.kind == 'hindex' else ()))

    def bad(self, k):
        return Said(lambda: self.obj.fit('nothing') if self.kind == 'repid' else self.obj.eval_pairwise(0, 99))


def settings():
    return zlib.crc32(repr((np.geterr(), sorted(np.get_printoptions().items(), key=lambda q: q[0]), sorted(matplotlib.rcParams.items()), matplotlib.get_backend(), plt.isinteractive(),
                            [(q[0], str(q[1]), q[2], str(q[3]), q[4]) for q in warnings.filters], random.getstate(), sorted(os.environ.items()), os.getcwd(), sys.getrecursionlimit())).encode()) & 0x7fffffff


def stream():
    return zlib.crc32(contents([q for q in np.random.get_state(legacy=True)])) & 0x7fffffff


def figures():
    return {k: [draw.axes_record(a) for a in plt.figure(k).axes] + [list(map(float, plt.figure(k).get_size_inches())), float(plt.figure(k).get_dpi())] for k in list(plt.get_fignums())}


def crc(fig):
    return zlib.crc32(contents(fig)) & 0x7fffffff


def play(sc, shift=0, only=None):
    """the calls of the history (of one object only) on new objects; what is seen after every call"""
    session.Out = Said
    sys.stderr = open(os.devnull, 'w')      # warnings are shown, not swallowed by a filter that a call could repeat
    np.seterr(divide='warn', over='ignore', under='warn', invalid='warn')
    np.set_printoptions(precision=7, suppress=True)
    warnings.resetwarnings()
    warnings.simplefilter('default')
    pool = {}

    def own(name, v):
        """objects that are alike are one object, whoever gets them"""
        if name in ('data', 'axis_limits', 'feature_names', 'feature_types', 'effects', 'configuration', 'scale_x', 'scale_y'):
            return pool.setdefault((name, contents(v)), v) if v is not None and not isinstance(v, str) else v
        return v
    functions = {}

    class World(PLAIN):
        """objects that explain the same model get the same function"""
        def __init__(self, w):
            PLAIN.__init__(self, w)
            key = json.dumps([w[k] for k in ('model', 'a', 'b', 'alpha', 'beta')])
            self.model = functions.setdefault(('model', key), self.model)
            self.jac = functions.setdefault(('jac', key), self.jac)
    la.World = World
    r = random.Random(sc['seed'])
    seeds = [r.randrange(10 ** 6) for _ in range(len(sc['hist']) + 2)]
    objs, out = {}, []
    plt.close('all')
    current = None
    for i, h in enumerate([dict(op='start', o=0)] + sc['hist']):
        o = h['o']
        if only is not None and o != only:
            continue
        np.random.seed(seeds[i] + shift)
        was, before = stream(), plt.get_fignums()
        got = dict(i=i, op=h['op'], o=o, was=was)
        if h['op'] == 'close':
            plt.close('all')
        elif h['op'] != 'start':
            q = call(sc, objs, h, seeds[0] + o, own)
            got['refused'] = type(q.err).__name__ if q.refused else ''
            got['text'] = q.text
            got['err'] = str(q.err)[:300] if q.refused else ''
            got['val'] = q.val if not q.refused and h['op'] in ('fit', 'eval', 'report') and not isinstance(q.val, (dict, str)) else None
        got['rng'] = stream()
        figs = figures()
        np.random.seed(0)
        got['figs'] = [crc(v) for _, v in sorted(figs.items())]
        if h['op'] == 'plot':
            got['drawn'] = [v for k, v in sorted(figs.items()) if k not in before]
            got['val'] = None
        got['set'] = settings()
        out.append(got)
        if only is not None:
            plt.close('all')
    return out


def call(sc, objs, h, seed, own):
    o = h['o']
    su = sc['setups'][o - 1]
    if h['op'] == 'new':
        def make():
            objs[o] = (Matrix if su['kind'] in OTHERS else session.Session)(su, seed, own)
        return Said(make)
    s = objs.get(o)
    if s is None:
        return Said(lambda: None)
    f = (h['f'] - 1) % s.D + 1
    if su['kind'] in OTHERS:
        return {'fit': lambda: s.fit(f, h.get('c'), 0), 'eval': lambda: s.eval(f, h.get('cen')), 'plot': lambda: s.plot(f, h.get('cen')), 'report': lambda: s.report(f), 'bad': lambda: s.bad(f)}[h['op']]()
    if h['op'] == 'fit':
        q = s.fit([f], h['c'] % len(su['cfg']), h['cen'])
        if s.regional and not q.refused:
            q.val = [float(k) for k in s.nodes(f) or []]
        else:
            q.val = None
        return q
    node = None
    if s.regional:
        node = s.r.choice(s.nodes(f) or [0])
    if h['op'] == 'eval':
        return s.eval(f, h['cen'], node=node)
    if h['op'] == 'plot':
        return s.plot(f, h['cen'], node)
    if h['op'] == 'report':
        if s.regional:
            return s.report(f)
        return s.eval(f, 0)
    calls = s.bad_calls(f)
    return Said(calls[s.r.randrange(len(calls))][1])


def isolated(fn):
    """fn() in a process of its own; (value, error)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            try:
                v = (fn(), None)
            except core.CaseTimeout as e:
                v = (None, 'no answer: %s' % e)
            except Exception:
                import traceback
                v = (None, 'harness: ' + traceback.format_exc())
            with os.fdopen(wr, 'wb') as fh:
                pickle.dump(v, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.MachineryError('a process of an interleaving died')
    return pickle.loads(data)


def alike(a, b):
    """None, or how two outcomes of a call differ"""
    if a['refused'] != b['refused']:
        return '%s instead of %s' % (a['refused'] and a['refused'] + ': ' + a['err'] or 'an answer', b['refused'] and b['refused'] + ': ' + b['err'] or 'an answer')
    if a['text'] != b['text']:
        return 'prints %r instead of %r' % (a['text'][:300], b['text'][:300])
    if (a['val'] is None) != (b['val'] is None):
        return '%r instead of %r' % (a['val'], b['val'])
    if a['val'] is not None and not session.same(a['val'], b['val']):
        return '%s instead of %s' % (a['val'], b['val'])
    if a.get('drawn') is not None or b.get('drawn') is not None:
        d = draw.differ(a.get('drawn'), b.get('drawn'), 1e-7)
        if d:
            return 'figure: ' + d
    return None


def one(ctx, sc):
    runs = {}
    todo = [('both', lambda: play(sc)), ('shifted', lambda: play(sc, shift=1))] + [(o, lambda o=o: play(sc, only=o)) for o in (1, 2)]
    for name, fn in todo:
        v, err = isolated(fn)
        if err and err.startswith('harness'):
            raise core.MachineryError(err)
        if err:
            ctx.fail(sc, 'no answer', err)
            return None
        runs[name] = v
    alone, ev, why = {1: [], 2: []}, [], []
    for k, g in enumerate(runs['both']):
        e = dict(op=g['op'], o=g['o'], figs=g['figs'], set=g['set'], rng=g['rng'], was=g['was'], ans=0, plot=0, may=0, other=-1)
        how = ''
        if g['o']:
            o = g['o']
            su = sc['setups'][o - 1]
            a = runs[o][len(alone[o])]
            d = alike(g, a)
            alone[o].append(2 * k)
            e['ans'] = 2 * k + (d is not None)
            how = d or ''
            e['plot'] = 0 if g['op'] != 'plot' else 2 if g['refused'] else 1
            sub = isinstance(su.get('nof'), int) and su['nof'] < len(su['X'])
            e['may'] = int(g['op'] == 'plot' or (g['op'] == 'new' and sub) or su['kind'] in ('shap', 'rshap'))
            e['other'] = runs['shifted'][k]['rng']
            ctx.count(g['op'])
            if g['refused']:
                ctx.count('refused')
        ev.append(e)
        why.append(how)
    return dict(kind='trace', K=2, D=1, alone=[alone[1], alone[2]], ev=ev), why


def design(ctx):
    base = dict(kind='design', K=2, D=1, C=1, len=4, mutant=0, random=[1, 0])
    ctx.tlc('Independent', scenarios=[base, dict(base, random=[0, 0], D=2, len=3)], workers=4)
    for m, inv in ((1, 'Independent'), (2, 'FiguresKept'), (3, 'Quiet'), (4, 'Independent'), (5, 'Quiet'), (6, 'FiguresKept')):
        try:
            ctx.tlc('Independent', scenarios=[dict(base, mutant=m)], workers=2)
        except core.MachineryError as e:
            if 'Invariant %s is violated' % inv not in str(e):
                raise
        else:
            raise core.MachineryError('the broken design %d is not rejected by Independent.tla' % m)


def warm():
    """compile what the shap package compiles, so that every process finds it done"""
    import shap
    X = np.random.RandomState(0).rand(6, 2)
    with contextlib.redirect_stderr(io.StringIO()):
        shap.Explainer(lambda A: A[:, 0] * A[:, 1], X)(X)
        plt.figure(); plt.plot([0, 1], [0, 1]); plt.title('x'); plt.close('all')


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 22)
    warm()
    if scenarios is None:
        design(ctx)
        scenarios = []
        n = ctx.n(300, 3000)
        setup = dict(kind='design', K=2, D=2, C=3, len=12, mutant=0, random=[1, 1])
        path = ctx.write('design.json', [setup])
        hists = [q['h'] for q in ctx.tlc('Independent', env={'SCEN': path}, workers=1, simulate='num=%d' % (5 * n), extra=['-depth', '16', '-seed', str(ctx.seed)])]
        hists = [h for h in hists if len({q['o'] for q in h if q['o']}) == 2]
        for h in hists[:n]:
            scenarios.append(dict(gen(r), hist=h, seed=r.randrange(10 ** 6)))
    got = ctx.pmap(one, scenarios)
    idx = [i for i, g in enumerate(got) if g]
    recs = ctx.tlc_by_id('Independent', scenarios=[got[i][0] for i in idx], shards=6, workers=1)
    for j, i in ctx.having(recs, idx):
        ctx.traces += 1
        ctx.count(scenarios[i].get('how', ''))
        bad = recs[j][0]['bad']
        if bad:
            k = bad[0]['at'] - 1
            h = scenarios[i]['hist'][got[i][0]['ev'][k].get('i', k) - 1]
            ctx.fail(scenarios[i], bad[0]['what'], 'call %d on object %d (%s), %s: %s' % (k, h['o'], scenarios[i]['setups'][h['o'] - 1]['kind'], h, got[i][1][k]))
    if idx:
        ctx.sample(dict(kinds=[s['kind'] for s in scenarios[idx[0]]['setups']], hist=scenarios[idx[0]]['hist']))
