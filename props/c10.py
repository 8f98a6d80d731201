"""C10: the search applies the best candidate of every level and the pruning keeps the important levels (Regions.tla)."""
from props import c09

ASSUMPTIONS = c09.ASSUMPTIONS
TAGS = ('search', 'best', 'pruned', 'heterogeneity')


def run(ctx, scs=None):
    c09.run(ctx, scs, TAGS, 10)
