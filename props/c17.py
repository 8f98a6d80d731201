"""C17: the texts of show_partitioning and describe_subregions against the recorded trees (Reports.tla, a monitor of the
printed lines)."""
import contextlib, io, random, re
import numpy as np
import core, regcase
from eff import guarded

ASSUMPTIONS = ['the trees are those the object holds (validated by C09 and C10); heterogeneities below 2000 or maximal']
NUM = r'(-?[\d.]+(?:e[-+]?\d+)?|-?nan|-?inf)'
RE = [('tree', re.compile(r'^\s*Feature (\d+) - Full partition tree')), ('stats', re.compile(r'^\s*Feature (\d+) - Statistics per tree level')),
      ('none', re.compile(r'^\s*No splits found for feature (\d+)')),
      ('node', re.compile(r'^( *)Node id: (\d+), name: (.*), heter: ' + NUM + r' \|\| nof_instances: +(\d+) \|\| weight: ' + NUM + r'\s*$')),
      ('level', re.compile(r'^ *Level (\d*), heter: ' + NUM + r'(?: \|\| heter drop: ' + NUM + r' \(' + NUM + r'%\))?\s*$')),
      ('nosplits', re.compile(r'^\s*No important splits found for feature (\d+)')),
      ('important', re.compile(r'^Important splits for feature (.*)$')), ('all', re.compile(r'^All splits for feature (.*)$')),
      ('on', re.compile(r'^\s*- On feature (.*) \((cat|cont)\)\s*$')), ('pos', re.compile(r'^\s*- Position of split: ' + NUM + r'\s*$')),
      ('before', re.compile(r'^\s*- Heterogeneity before split: ' + NUM + r'\s*$')), ('after', re.compile(r'^\s*- Heterogeneity after split: ' + NUM + r'\s*$')),
      ('drop', re.compile(r'^\s*- Heterogeneity drop: ' + NUM + r' \(' + NUM + r' ?%\)\s*$')),
      ('nbefore', re.compile(r'^\s*- Number of instances before split: \[(.*)\]\s*$')), ('nafter', re.compile(r'^\s*- Number of instances after split: \[(.*)\]\s*$'))]
BAD = [2000000000, 0]


def dec(text):
    """a printed number as <<i, f>>"""
    v = float(text)
    if not np.isfinite(v) or abs(v) > 1e9:
        return BAD
    q = int(round(v * 10000))
    return [q // 10000, q % 10000]


def pct(text):
    v = float(text)
    if not np.isfinite(v):
        return 0, 0
    return 1, int(np.clip(round(v * 100), -2e9, 2e9))


def small(text):
    v = float(text)
    return int(round(v * 10000)) if np.isfinite(v) and abs(v) < 200000 else 2000000001


def ints(text):
    try:
        return [int(q) for q in text.split(',') if q.strip()]
    except ValueError:
        return [-1]


def parse(text, c, foi_of):
    """the printed lines as records for the monitor"""
    out, block, unknown = [], None, []
    feats = 0
    cur = None
    for line in text.splitlines():
        for t, rx in RE:
            m = rx.match(line)
            if m:
                break
        else:
            if line.strip() and set(line.strip()) != {'-'}:
                unknown.append(line)
            continue
        g = m.groups()
        if t in ('tree', 'stats', 'none', 'nosplits'):
            cur = int(g[0])
            out.append(dict(t=t, f=cur + 1))
        elif t == 'node':
            out.append(dict(t=t, level=len(g[0]) // 8, idx=int(g[1]), name=regcase.parse_name(g[2], c.names, cur if cur is not None and cur < c.D else 0), h=dec(g[3]), n=int(g[4]), w=int(round(float(g[5]) * 100)) if np.isfinite(float(g[5])) else -1))
        elif t == 'level':
            ok, p = pct(g[3]) if g[3] else (0, 0)
            out.append(dict(t=t, lev=int(g[0] or 0), h=dec(g[1]), hasdrop=int(g[2] is not None), drop=dec(g[2]) if g[2] else [0, 0], pctok=ok, pct=p))
        elif t in ('important', 'all'):
            out.append(dict(t='splits', f=c.names.index(g[0]) + 1 if g[0] in c.names else 0, important=int(t == 'important')))
        elif t == 'on':
            block = dict(t='block', d=c.names.index(g[0]) + 1 if g[0] in c.names else 0, typ=g[1], pos=2000000001, before=BAD, after=BAD, drop=BAD, pct=0, pctok=0, nbefore=[-1], nafter=[-1])
            out.append(block)
        elif block is not None:
            if t == 'pos':
                block['pos'] = small(g[0])
            elif t in ('before', 'after'):
                block[t] = dec(g[0])
            elif t == 'drop':
                block['drop'] = dec(g[0])
                block['pctok'], block['pct'] = pct(g[1])
            else:
                block[t] = ints(g[0])
    return out, unknown


def truth(c, tree, eff, foi, scale, unit):
    """recorded nodes with their path of conditions at the (scaled) positions"""
    if tree is None:
        return []
    nodes = regcase.tree_record(c, tree, eff, foi)
    out = []
    for n in nodes:
        path = []
        if n['parent']:
            pos = tree.nodes[n['idx']].data['position'] if n['idx'] < len(tree.nodes) else 0.0
            if scale:
                pos = pos * scale[n['d'] - 1]['std'] + scale[n['d'] - 1]['mean']
            path = out[n['parent'] - 1]['path'] + [[n['d'], n['op'], int(round(pos * 10000)) if abs(pos) < 200000 else 2000000001]]
        h = n['h']
        big = int(h >= 9e7)
        out.append(dict(idx=n['idx'], level=n['level'], parent=n['parent'], n=n['n'], w=n['w'], big=big, h=0 if big else int(round(h * 10000)),
                        u=0 if big else int(round(h / unit)), path=path, typ=n['typ']))
    return out


def answer(o, f, k, x):
    """the effect at a node, or the text of the refusal (a region that cannot be binned)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return np.concatenate(o.eval(f, k, x, True))
    except (AssertionError, ValueError) as e:
        return 'refused: %s' % e


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def one(ctx, sc):
    r = random.Random(sc['seed'] + 17)
    c = regcase.Case(sc)

    def go():
        o = c.build()
        multi = c.base != 'shap' and c.get('candidate_conditioning_features') == 'all'
        feats = list(range(c.D)) if multi and r.random() < .6 else [c.f]
        with contextlib.redirect_stdout(io.StringIO()):
            o.fit(feats if r.random() < .5 or len(feats) > 1 else c.f, **c.cfg)
        ask = r.choice([[c.f], r.sample(feats, r.randint(1, len(feats))), feats])
        if multi and r.random() < .1 and c.D > 2:
            ask = r.sample(range(c.D), 2)          # reports of features that were not fitted fit them with the defaults
        what = r.choice(['show', 'describe'])
        imp = r.random() < .5
        scale = [dict(mean=float(r.randint(-30, 90)) / 4, std=float(r.choice([.5, 2., 10., .125]))) for _ in range(c.D)] if r.random() < .5 else None
        arg = 'all' if ask == list(range(c.D)) and r.random() < .5 else (ask[0] if len(ask) == 1 and r.random() < .5 else ask)
        kw = {}
        if not (imp and r.random() < .5):
            kw['only_important'] = imp
        if scale:
            kw['scale_x_list'] = scale
        fn = o.show_partitioning if what == 'show' else o.describe_subregions
        x = c.w.real(c.f, sorted({u[c.f] for u in sc['X']})[:5])
        texts, evals = [], []
        for k in range(2):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                fn(arg, **kw)
            texts.append(buf.getvalue())
            t = o.tree_pruned['feature_%d' % c.f] if c.f in ask or c.f in feats else None
            if t is not None:
                evals.append([answer(o, c.f, n.idx, x) for n in t.nodes])
        return o, ask, what, imp, scale, texts, evals
    ok, out = guarded(ctx, sc, 'report', go, seconds=200)
    if not ok:
        return None
    o, ask, what, imp, scale, texts, evals = out
    if texts[0] != texts[1]:
        ctx.fail(sc, 'repeated report', 'the same report was printed differently the second time:\n%s\n---\n%s' % tuple(texts[:2]))
        return None
    if len(evals) == 2 and not (len(evals[0]) == len(evals[1]) and all(same(a, b) for a, b in zip(*evals))):
        ctx.fail(sc, 'report changes results', 'the effects differ before and after a report')
        return None
    eff = c.effects()
    hs = [abs(float(n.data['heterogeneity'])) for f in ask for t in (o.tree_full['feature_%d' % f],) if t is not None for n in t.nodes]
    small_ = [h for h in hs if h < 9e7]
    if any(not np.isfinite(h) or (2000 <= h and not abs(h - 1e8) < 1) for h in hs):
        ctx.count('not judged')
        return None
    unit = max(small_ + [0.0]) / 100000 or 1.0
    lines, unknown = parse(texts[0], c, None)
    if unknown:
        ctx.count('other lines', len(unknown))
    trees = []
    for f in range(c.D):
        if f not in ask:
            trees.append({'none': 1, 'full': [], 'pruned': []})
            continue
        full, pruned = o.tree_full['feature_%d' % f], o.tree_pruned['feature_%d' % f]
        trees.append({'none': int(full is None), 'full': truth(c, full, eff, f, scale, unit), 'pruned': truth(c, pruned, eff, f, scale, unit)})
    return dict(what=what, important=int(imp), features=[f + 1 for f in ask], trees=trees, lines=lines, text=texts[0])


def scenarios(ctx, r):
    out = []
    for k in ['rpdp', 'rdpdp', 'rale', 'rrhale'] * ctx.n(110, 900) + ['rshap'] * ctx.n(14, 100):
        three = k != 'rshap' and r.random() < .35
        sc = regcase.gen(r, k, deep=3 if three else None)
        while three and sc['cfg'].get('max_depth') != 3:
            sc = regcase.gen(r, k, deep=3)
        if three:
            sc['cfg']['min_points_per_subregion'] = 2
        sc['alpha'], sc['beta'] = r.choice([(0.0, 1.0), (5.5, -.125), (-100.0, .01), (0.0, 1e-3), (0., .5)])
        if three or r.random() < .6:
            sc['cfg']['heter_pcg_drop_thres'] = r.choice([0.0, -5.0])
            sc['cfg']['heter_small_enough'] = 0.0
        out.append(sc)
    r.shuffle(out)
    return out


def run(ctx, scs=None):
    r = random.Random(ctx.seed * 1000 + 17)
    scs = scs or scenarios(ctx, r)
    obs = ctx.pmap(one, scs)
    idx = [i for i, q in enumerate(obs) if q]
    recs = ctx.tlc_by_id('Reports', scenarios=[{k: v for k, v in obs[i].items() if k != 'text'} for i in idx], shards=6, workers=1)
    for j, i in ctx.having(recs, idx):
        ctx.traces += 1
        ctx.count('lines', len(obs[i]['lines']))
        ctx.count('lines of level 3', sum(l['t'] == 'level' and l['lev'] == 3 or l['t'] == 'block' and len(l['nafter']) > 4 for l in obs[i]['lines']))
        ctx.count('%s reports' % obs[i]['what'])
        bad = recs[j][0]['bad']
        if bad:
            ctx.fail(scs[i], bad[0], 'line %d of the report is wrong (%s):\n%s' % (recs[j][0]['at'] - 1, bad[0], obs[i]['text'][:1500]))
    if idx:
        k = max(idx, key=lambda i: len(obs[i]['lines']))
        ctx.sample(obs[k]['text'][:1200])
