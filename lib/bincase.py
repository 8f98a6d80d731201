"""Conformance of the binning methods with Binning.tla."""
import numpy as np
import lattice as la
import acccase
from eff import effector, bm, guarded
from acccase import CLASSDEF, NAMED


def inside(sc):
    f = sc['f'] - 1
    return [u[f] for u in sc['X'] if sc['lo'] <= u[f] <= sc['hi']]


def effects_inside(sc):
    f = sc['f'] - 1
    E = sc['E'] or [None] * len(sc['X'])
    return [e for u, e in zip(sc['X'], E) if sc['lo'] <= u[f] <= sc['hi']]


def observe(ctx, sc, clause, quiet=False):
    """fit the feature; returns ('refused', None, None) or ('limits', real limits, lattice limits) or None"""
    f = sc['f'] - 1

    def go():
        w, o = acccase.build(sc)
        acccase.do_fit(sc, o)
        if sc['drv']['fit'] == 'no':
            o.eval(f, w.real(f, sc['xs']))
        return w, acccase.limits_of(o, f)
    ok, out = guarded(ctx, sc, clause, go, refusal_ok=True)
    if not ok:
        return None if out is None else ('refused', out, None)
    w, lim = out
    return 'limits', lim, acccase.lattice_limits(sc, w, lim)


def gen_search(r, method, tie=None):
    """searches with exactly representable effects (dyadic scale), so that zero costs are zero in the code too"""
    sc = acccase.gen(r, 'rhale', method, small=True, easy=r.random() < .8, named=r.choice(['', '', '', '', 'name', 'class']))
    N = len(sc['X'])
    if sc['drv']['src'] != 'jac' or r.random() < .7:
        sc['drv']['src'] = r.choice(['effects', 'effects_only'])
        f = sc['f'] - 1
        pat = r.choice(['rand', 'steps', 'lin', 'const', 'mixed', 'wide'])
        width = max(1, sc['hi'] - sc['lo'])
        E = []
        for u in sc['X']:
            t = (u[f] - sc['lo']) / width
            if pat == 'rand':
                e = r.randint(-3, 3)
            elif pat == 'steps':
                e = 5 * int(4 * t)
            elif pat == 'lin':
                e = int(10 * t) + r.randint(0, 1)
            elif pat == 'const':
                e = 3
            elif pat == 'wide':
                e = r.randint(-100, 100)
            else:
                e = (5 if u[f] % 4 else -5) if t < .5 else 1
            E.append(e)
        sc['E'] = E
        sc['drv']['beta'] = r.choice([1.0, -2.0, .25, 2.0 ** -10, 4096.0, .1 if pat == 'const' else 1.0])
    else:
        sc['E'] = []
        sc['drv']['beta'] = r.choice([1.0, -2.0, .25])
    return sc


def tla(sc, kind, **kw):
    """the abstract scenario of Binning.tla"""
    d = dict(kind=kind, x=inside(sc), e=[], lo=sc['lo'], hi=sc['hi'], K=sc['K'], minp=sc['minp'], cat=sc['cat'],
             disc=sc['disc'], method=sc['method'], lim=[], refused=0, cell=[])
    d.update(kw)
    return d


def true_effects(sc):
    if sc['E']:
        return effects_inside(sc)
    f = sc['f'] - 1
    w = la.World(dict(X=sc['X'], model=sc['model'], a=[0] * len(sc['X'][0]), b=[1] * len(sc['X'][0]), alpha=0, beta=1))
    J = w.jac(w.X.astype(float))[:, f]
    return [int(j) for u, j in zip(sc['X'], J) if sc['lo'] <= u[f] <= sc['hi']]
