"""Lattice worlds: integer instances, an integer valued black box and an exact affine embedding into the reals.

A world is a JSON-able dict {X, model, a, b, alpha, beta}; feature d of the real data is a[d] + b[d] * u with b a power
of two and a dyadic, so that the embedding (and all bin limits the scenarios use) is exact in floating point, and the
real model is alpha + beta * F(u).  The TLA+ module BlackBox evaluates the same F on the integers."""
import math, random
from fractions import Fraction
import numpy as np


# ---------------------------------------------------------------- exact integer evaluation (used to bound magnitudes)
def gate_open(g, u):
    v = u[g[0] - 1]
    return v <= g[1] if g[2] == 1 else (v > g[1] if g[2] == -1 else v == g[1])


def f_int(model, u):
    tot = 0
    for part in model:
        v = 0
        for t in part['t']:
            if all(gate_open(g, u) for g in t['g']):
                w = t['c']
                for d, p in enumerate(t['p']):
                    if p:
                        w *= u[d] ** p
                v += w
        tot += v % part['m'] if part['m'] else v
    return tot


# ---------------------------------------------------------------- the real model
class World:
    def __init__(self, w, log=None):
        self.w = w
        self.X = np.array(w['X'], dtype=np.int64).reshape(len(w['X']), -1)
        self.a = np.array(w['a'], dtype=float)
        self.b = np.array(w['b'], dtype=float)
        self.alpha, self.beta = float(w['alpha']), float(w['beta'])
        self.log = log
        self.N, self.D = self.X.shape

    def data(self, dtype='float64', order='C'):
        x = self.a + self.b * self.X
        return np.array(x, dtype=dtype, order=order)

    def real(self, d, u):
        return self.a[d] + self.b[d] * np.asarray(u, dtype=float)

    def limits(self, L):
        L = np.asarray(L, dtype=float)
        return self.a[None, :] + self.b[None, :] * L

    def lattice(self, X):
        return (np.asarray(X, dtype=float) - self.a) / self.b

    def F(self, X):
        U = self.lattice(X)
        tot = np.zeros(U.shape[0])
        for part in self.w['model']:
            v = np.zeros(U.shape[0])
            for t in part['t']:
                w = np.full(U.shape[0], float(t['c']))
                for g in t['g']:
                    x = U[:, g[0] - 1]
                    w = w * ((x <= g[1] + .5) if g[2] == 1 else ((x > g[1] + .5) if g[2] == -1 else (np.abs(x - g[1]) < .5)))
                for d, p in enumerate(t['p']):
                    if p:
                        w = w * U[:, d] ** p
                v = v + w
            tot = tot + (np.mod(np.rint(v), part['m']) if part['m'] else v)
        return tot

    def model(self, X):
        if self.log is not None:
            self.log.append(('model', np.array(X, dtype=float, copy=True)))
        return self.alpha + self.beta * self.F(X)

    def jac(self, X):
        if self.log is not None:
            self.log.append(('jac', np.array(X, dtype=float, copy=True)))
        U = self.lattice(X)
        J = np.zeros(U.shape)
        for part in self.w['model']:
            if part['m']:
                continue
            for t in part['t']:
                g0 = np.full(U.shape[0], float(t['c']))
                for g in t['g']:
                    x = U[:, g[0] - 1]
                    g0 = g0 * ((x <= g[1] + .5) if g[2] == 1 else ((x > g[1] + .5) if g[2] == -1 else (np.abs(x - g[1]) < .5)))
                for f in range(self.D):
                    if t['p'][f]:
                        w = g0 * t['p'][f]
                        for d, p in enumerate(t['p']):
                            e = p - 1 if d == f else p
                            if e:
                                w = w * U[:, d] ** e
                        J[:, f] += w
        return self.beta * J / self.b

    def yscale(self, ints):
        m = max([1] + [abs(int(v)) for v in ints])
        return abs(self.alpha) + abs(self.beta) * m


# ---------------------------------------------------------------- generators
EMBEDDINGS = [(0.0, 1.0), (0.0, 1.0), (-3.0, 0.5), (10.25, 0.125), (0.0, 2.0 ** -12), (2.0 ** 20, 1.0), (-7.0, 1024.0),
              (1.0e8 + 0.5, 4.0), (0.0, 2.0 ** 27), (-2.0 ** 10, 2.0 ** -8), (1.0, 2.0 ** -3)]
OUTPUTS = [(0.0, 1.0), (0.0, 1.0), (5.5, -2.0), (-100.0, 0.25), (1e6, 3.0), (0.0, 1e-3), (0.0, 1e4)]


def pick_embedding(r, D, plain=False, mild=False):
    if plain:
        return [0.0] * D, [1.0] * D
    pool = EMBEDDINGS[:4] + EMBEDDINGS[-2:] if mild else EMBEDDINGS
    ab = [r.choice(pool) for _ in range(D)]
    return [x[0] for x in ab], [x[1] for x in ab]


def gen_model(r, D, f=None, deriv=False, mod=None, maxdeg=2, coeff=4, ncut=30, gates=True, inter=True):
    """Random black box.  deriv: only differentiable parts (gates never on f); f: 0-based feature of interest."""
    parts = []
    nparts = r.choice([1, 1, 2, 3])
    for _ in range(nparts):
        m = 0
        if not deriv and r.random() < .5:
            m = mod or r.choice([5, 7, 11, 13, 17, 29])
        terms = []
        for _ in range(r.randint(1, 4)):
            p = [0] * D
            order = r.choice([0, 1, 1, 2, 2, 3])
            for _ in range(order):
                d = f if (f is not None and r.random() < .5) else r.randrange(D)
                if p[d] < maxdeg:
                    p[d] += 1
            g = []
            if gates and r.random() < .4:
                for _ in range(r.choice([1, 1, 2])):
                    d = r.randrange(D)
                    if deriv and d == f:
                        continue
                    g.append([d + 1, r.randint(0, ncut), r.choice([1, -1, 1, -1, 0])])
            terms.append(dict(c=r.choice([-1, 1]) * r.randint(1, coeff), p=p, g=g))
        parts.append(dict(m=m, t=terms))
    return parts


def column(r, N, kind, span):
    """one lattice column"""
    if kind == 'const':
        v = r.randint(0, span)
        return [v] * N
    if kind == 'bool':
        return [r.randint(0, 1) for _ in range(N)]
    if kind == 'cat':
        k = r.randint(2, 5)
        vals = sorted(r.sample(range(0, max(span, 12) // 2 + 1), k))
        return [2 * r.choice(vals) for _ in range(N)]
    if kind == 'skew':
        return [int(span * r.random() ** 3) for _ in range(N)]
    if kind == 'edge':      # mostly on a coarse grid incl. both ends, so that values lie exactly on limits
        step = max(1, span // r.choice([2, 4, 5, 10]))
        return [min(span, step * r.randint(0, span // step)) if r.random() < .7 else r.randint(0, span) for _ in range(N)]
    return [r.randint(0, span) for _ in range(N)]


def gen_X(r, N, D, f, fkind, fspan, span=20, otherkinds=('num', 'num', 'cat', 'skew', 'bool', 'edge')):
    cols = []
    for d in range(D):
        if d == f:
            c = column(r, N, fkind, fspan)
            if fkind in ('num', 'skew', 'edge') and N >= 2:
                i, j = r.sample(range(N), 2)
                if r.random() < .7:
                    c[i], c[j] = 0, fspan
        else:
            c = column(r, N, r.choice(list(otherkinds)), span)
        cols.append(c)
    return [list(t) for t in zip(*cols)]


def others_box(r, X, f, lo, hi):
    """lattice axis limits of all the features: [lo, hi] for f, narrow/wide/exact for the others"""
    D = len(X[0])
    L = [[], []]
    for d in range(D):
        if d == f:
            l, h = lo, hi
        else:
            col = [u[d] for u in X]
            l, h = min(col), max(col)
            t = r.random()
            if t < .3:
                l, h = l + (h - l) // 3, h - (h - l) // 3
            elif t < .5:
                l, h = l - 2, h + 3
            if l >= h:
                h = l + 1
        L[0].append(l)
        L[1].append(h)
    return L


def frac(q):
    return Fraction(int(q[0]), int(q[1]))


def isclose(got, want, tol):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    return bool(np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= tol))


def maxdiff(got, want):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    if got.size == 0:
        return '0'
    d = np.abs(got - want)
    k = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
    return 'max difference %g at %s: got %r, expected %r' % (d[k], k, float(got[k]), float(want[k]))


def term_bound(model, umax):
    """bound on every intermediate integer of the evaluation, given the largest |u_d|"""
    tot = 1
    for part in model:
        for t in part['t']:
            w = abs(t['c']) * max([1] + t['p'])
            for d, p in enumerate(t['p']):
                w *= max(1, umax[d]) ** p
            tot += w
    return tot


def max_abs(model, X, f, grid, der=False):
    """max |F| (or |dF/du_f|) over the instances with feature f (0-based) replaced by every grid value"""
    w = World(dict(X=X, model=model, a=[0] * len(X[0]), b=[1] * len(X[0]), alpha=0, beta=1))
    A = np.repeat(w.X.astype(float)[None, :, :], len(grid), axis=0)
    A[:, :, f] = np.asarray(grid, dtype=float)[:, None]
    A = A.reshape(-1, w.D)
    v = w.jac(A)[:, f] if der else w.F(A)
    return float(np.max(np.abs(v)))


def widen(r, sc, f1=True):
    """the same scenario among 11 to 13 features, so that feature numbers have two digits (feature 1 / feature 10 / feature 11): the
    columns of the scenario go to random places, the others are noise the model does not read.  Works on a scenario dict in place;
    f1: its 'f' is 1-based."""
    N, D = len(sc['X']), len(sc['X'][0])
    W = r.choice([11, 12, 13])
    f = sc['f'] - (1 if f1 else 0)
    pos = r.sample(range(W), D)
    want = r.choice([1, 10, 10, W - 1, 0, pos[f]])
    if want in pos:
        k = pos.index(want)
        pos[k], pos[f] = pos[f], want
    else:
        pos[f] = want
    if D > 1 and r.random() < .6:       # a feature whose number begins like that of the feature of interest
        k = r.choice([d for d in range(D) if d != f])
        twin = {1: r.choice([10, W - 1]), 0: 10}.get(pos[f], 1)
        if twin in pos:
            j = pos.index(twin)
            if j != f:
                pos[j], pos[k] = pos[k], twin
        else:
            pos[k] = twin
    top = r.choice([1, 1, 4])
    noise = [[r.randint(0, 1 if top == 1 else top) for _ in range(W)] for _ in range(N)]
    X = []
    for u, row in zip(sc['X'], noise):
        for d in range(D):
            row[pos[d]] = u[d]
        X.append(row)
    sc['X'] = X

    def spread(v, other):
        out = [other() if callable(other) else other for _ in range(W)]
        for d in range(D):
            out[pos[d]] = v[d]
        return out
    for part in sc['model']:
        for t in part['t']:
            t['p'] = spread(t['p'], 0)
            t['g'] = [[pos[g[0] - 1] + 1] + list(g[1:]) for g in t['g']]
    sc['f'] = pos[f] + (1 if f1 else 0)
    for box in (sc, sc.get('drv') or {}):
        if 'a' in box:
            box['a'], box['b'] = spread(box['a'], 0.0), spread(box['b'], 1.0)
        if box.get('L'):
            box['L'] = [spread(box['L'][0], -1), spread(box['L'][1], top + 1)]
    return pos, W
