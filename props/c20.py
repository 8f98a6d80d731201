import random
import numpy as np
import pdpcase, acccase
from eff import guarded

ASSUMPTIONS = ['numeric differentiation of RHALE (which needs every feature) is not judged', 'a question up to 1/1000 of a lattice cell beside a lattice point is taken as differentiation step']


def questions(w, log):
    """distinct lattice rows the black box was asked for; None where nothing was"""
    out, seen = [], set()
    for what, A in log:
        U = w.lattice(np.asarray(A, dtype=float).reshape(-1, w.D))
        K = np.rint(U)
        far = np.abs(U - K) > 1e-3
        K[far | (np.abs(K) > 10 ** 6)] = 10 ** 7
        for row in np.unique(K, axis=0):
            t = (what, tuple(int(v) for v in row))
            if t not in seen:
                seen.add(t)
                out.append(dict(w=what, u=list(t[1])))
    return out


def pdp(ctx, sc):
    def go():
        log = []
        w, o, _ = pdpcase.build(sc, log)
        del log[:]
        c = sc['drv']['c']
        pdpcase.do_fit(sc, o, c)
        x = pdpcase.xs_of(sc, w)
        for het in (False, True):
            for vec in (True, False):
                o.eval(sc['f'] - 1, x, het, c, use_vectorized=vec)
        o.eval(sc['f'] - 1, x, False, c, return_all=True)
        return questions(w, log)
    ok, q = guarded(ctx, sc, 'queries', go)
    return dict(sc, q=q, given=0, K=1, minp=0, cat=0) if ok else None


def acc(ctx, sc):
    def go():
        log = []
        w, o = acccase.build(sc, log)
        del log[:]
        c = sc['drv']['c']
        acccase.do_fit(sc, o, c)
        x = w.real(sc['f'] - 1, sc['xs'])
        o.eval(sc['f'] - 1, x, False, c)
        o.eval(sc['f'] - 1, x, True, c)
        return questions(w, log)
    ok, q = guarded(ctx, sc, 'queries', go, refusal_ok=True)
    return dict(sc, q=q, P=2, given=int(sc['drv']['src'].startswith('effects')), kind='rhale' if sc['der'] else 'ale') if ok else None


def subsample(r, sc, possible):
    """fewer instances than there are rows: what the questions are judged by (limits, centering points) must not depend on the choice"""
    if possible and len(sc['X']) > 1 and r.random() < .4:
        sc['drv']['nof'] = r.randint(max(1, len(sc['X']) // 2), len(sc['X']) - 1)


def run(ctx, scenarios=None):
    r = random.Random(ctx.seed * 1000 + 20)
    todo = []
    if scenarios is None:
        scenarios = []
        for _ in range(ctx.n(220, 3000)):
            sc = pdpcase.gen(r, r.choice(['small', 'small', 'small', 'one', 'p100']))
            sc['drv']['fit'] = r.choice(['fit', 'list'] if sc['P'] != 100 else ['fit', 'list', 'no'])
            sc['drv']['c'] = r.choice([False, True, 'zero_start', 'zero_integral'])
            subsample(r, sc, sc['drv']['L'] is not None and sc['P'] > 0)
            scenarios.append(sc)
        for _ in range(ctx.n(260, 3000)):
            sc = acccase.gen(r, easy=r.random() < .7, named=r.choice(['', '', 'name']))
            if sc['drv']['src'] == 'numeric':
                sc['drv']['src'] = 'jac'
            if sc['drv']['fit'] == 'all' and len(sc['X'][0]) > 1:
                sc['drv']['fit'] = 'fit'
            sc['drv']['c'] = r.choice([False, True, 'zero_start', 'zero_integral'])
            subsample(r, sc, sc['der'] or (sc['drv']['L'] is not None and sc['cat'] <= 0))
            scenarios.append(sc)
    res = ctx.pmap(lambda sub, sc: pdp(sub, sc) if sc['kind'] == 'pdp' else acc(sub, sc), scenarios)
    todo = [s for s in res if s]
    recs = ctx.tlc_by_id('Queries', scenarios=todo, shards=6, workers=1)
    for i, sc in ctx.having(recs, todo):
        rec = recs[i][0]
        ctx.traces += 1
        ctx.count('questions', rec['n'])
        if rec['bad']:
            b = rec['bad'][0]
            ctx.fail(scenarios[res.index(sc)], 'queries', '%s was asked at the lattice point %s, which the definition does not need (feature of interest %d)' % (b['w'], b['u'], sc['f']))
    if todo:
        ctx.sample({k: todo[0][k] for k in ('X', 'f', 'q')})
