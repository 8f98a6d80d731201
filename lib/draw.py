"""What a plot call drew: the artists of the open matplotlib figures as plain data."""
import contextlib, io
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import PolyCollection, LineCollection, PathCollection
from matplotlib.colors import to_rgba


def band(poly):
    """x -> (lowest, highest) y of a filled polygon"""
    v = np.concatenate([p.vertices for p in poly.get_paths()] + [np.zeros((0, 2))])
    out = {}
    for x, y in v:
        lo, hi = out.get(x, (y, y))
        out[x] = (min(lo, y), max(hi, y))
    xs = sorted(out)
    return dict(x=np.array(xs), lo=np.array([out[x][0] for x in xs]), hi=np.array([out[x][1] for x in xs]), label=str(poly.get_label()))


def axes_record(ax):
    lines, hlines = [], []
    for l in ax.get_lines():
        x, y = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
        d = dict(x=x, y=y, label=str(l.get_label()), color=tuple(np.round(to_rgba(l.get_color()), 3)), style=l.get_linestyle(), marker=str(l.get_marker()))
        flat = len(x) == 2 and x[0] == 0 and x[1] == 1 and l.get_transform() != ax.transData
        if not flat and not (d['color'][:3] == (0.0, 0.0, 0.0) and len(y) and np.all(y == y[0])):
            lines.append(d)
        else:
            hlines.append(d)
    for c in ax.collections:
        if isinstance(c, PathCollection):      # a scatter plot
            o = np.asarray(c.get_offsets(), dtype=float)
            lines.append(dict(x=o[:, 0], y=o[:, 1], label=str(c.get_label()), color=tuple(np.round(np.ravel(c.get_facecolor())[:4], 3)), style='None', marker='x'))
    bars = []
    for c in ax.containers:
        for p in getattr(c, 'patches', []):
            b = p.get_bbox()
            bars.append((p.get_x(), p.get_y(), p.get_width(), p.get_height()))
    bands = [band(c) for c in ax.collections if isinstance(c, PolyCollection)]
    segs = [np.asarray(s) for c in ax.collections if isinstance(c, LineCollection) for s in c.get_segments()]
    leg = ax.get_legend()
    return dict(title=ax.get_title(), xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), xlim=tuple(ax.get_xlim()), ylim=tuple(ax.get_ylim()), lines=lines,
                hlines=hlines, bars=bars, bands=bands, errs=[(s[:, 0].mean(), s[:, 1].min(), s[:, 1].max()) for s in segs],
                legend=[t.get_text() for t in leg.get_texts()] if leg else [], texts=[(t.get_position(), t.get_text()) for t in ax.texts],
                images=[np.asarray(m.get_array(), dtype=float) for m in ax.get_images()], ticks=[[t.get_text() for t in ax.get_xticklabels()], [t.get_text() for t in ax.get_yticklabels()]])


def draw(fn):
    """(records of all axes drawn by fn, value of fn)"""
    plt.close('all')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            v = fn()
        return [axes_record(a) for k in plt.get_fignums() for a in plt.figure(k).axes], v
    finally:
        plt.close('all')


def differ(a, b, tol=1e-7, skip=()):
    """first difference of two recorded drawings, or None"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return 'structure'
        for k in a:
            if k not in skip:
                d = differ(a[k], b[k], tol, skip)
                if d:
                    return '%s: %s' % (k, d)
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and not (a and all(isinstance(q, (int, float)) for q in a)):
        if len(a) != len(b):
            return '%d instead of %d' % (len(a), len(b))
        for i, (p, q) in enumerate(zip(a, b)):
            d = differ(p, q, tol, skip)
            if d:
                return '[%d] %s' % (i, d)
        return None
    if isinstance(a, str) or isinstance(b, str):
        return None if a == b else '%r instead of %r' % (a, b)
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return 'shape %s instead of %s' % (x.shape, y.shape)
    if x.size == 0:
        return None
    s = tol * (1e-300 + np.max(np.abs(np.where(np.isfinite(y), y, 0))))
    ok = np.array_equal(np.isnan(x), np.isnan(y)) and np.all((np.abs(x - y) <= s) | np.isnan(y) | (x == y))
    return None if ok else '%r instead of %r' % (x.tolist() if x.size < 9 else x[:6].tolist(), y.tolist() if y.size < 9 else y[:6].tolist())
