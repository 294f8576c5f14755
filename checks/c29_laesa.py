"""C29: laesa returns what exhaustive comparison returns in a metric space."""
import contextlib
import io
import random

from lib.engine import Test, check, lst
from lib import clus
from checks.c10_metric_space import edges_of, large_space, note, scaled, space

from fog.clustering import laesa

SOURCES = ['fog/clustering/laesa.py', 'fog/clustering/utils.py']
RULE = ('Finite metric spaces (those of C10: integers, grids, strings, graphs, the discrete metric), any number of pivots, '
        'any seed; non-trivial = at least one pair within the radius and one pair beyond it.')
ASSUMPTIONS = ['The distance is a true metric with exactly representable values.',
               'Items are distinct and hashable; min_size >= 2; pivots >= 1.']


def laesa_exact(d):
    on_space(d, *space(d, 30))


def large(d):
    on_space(d, *large_space(d, 40, 160))


def huge(d):
    on_space(d, *large_space(d, 200, 420))


def long_chain(d):
    n = clus.size(d, 1050, 1200)
    items = list(range(n))
    if d.bool(0.7):
        random.Random(d.int(0, 1 << 20)).shuffle(items)
    on_space(d, items, lambda a, b: abs(a - b), 'chain')


def on_space(d, items, dist, name):
    dist, radius = scaled(d, dist, d.int(0, 6))
    n = len(items)
    edges = edges_of(items, dist, radius)
    note(d, name, items, edges, radius)
    kw, lo, hi = clus.bounds(d, n)
    if d.bool(0.6):
        kw['pivots'] = d.weighted(((3, 1), (2, 2), (2, 3), (1, 5), (1, max(1, n)), (1, n + 3)))
    if d.bool(0.7):
        kw['seed'] = d.int(0, 1000)
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    random.seed(d.int(0, 1000))
    x, form = clus.container(d, items)
    d.show({'space': name, 'items': items, 'radius': radius, 'options': kw, 'form': form})
    index = dict((a, i) for i, a in enumerate(items))
    before = list(items)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        clusters = lst(laesa, x, dist, radius, **kw)
    check(not out.getvalue(), 'laesa printed %r', out.getvalue())
    check(items == before, 'the data was modified')
    got = [[index[a] for a in c] for c in clusters]
    if mode == 'connected_components':
        clus.check_components(got, n, edges, lo, hi)
    else:
        clus.check_fuzzy(got, n, edges, lo, hi)


TESTS = [
    Test(laesa_exact, 24000, 600000),
    Test(large, 300, 8000),
    Test(huge, 16, 400, cpu=120),
    Test(long_chain, 8, 100, cpu=120),
]
