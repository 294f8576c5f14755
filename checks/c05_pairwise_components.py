"""C05: pairwise clustering by connected components."""
from lib.engine import Test, check, lst, short
from lib import clus, gens, parallel
from lib.models import lev

from fog.clustering import pairwise, pairwise_connected_components

SOURCES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py']
RULE = ('Arbitrary symmetric relations (random graphs, chains, cliques, stars) given in each of the four documented '
        'ways, and strings with duplicates under the Levenshtein distance; non-trivial = at least one component of 2 or '
        'more items.')
ASSUMPTIONS = ['The similarity relation is symmetric.', 'min_size >= 1.']


def make_items(d, n):
    """n distinct items, of any type (pairwise does not need them to be hashable)."""
    kind = d.int(0, 3)
    if kind == 0:
        return list(range(n)), lambda x: x
    if kind == 1:
        return ['s%d' % i for i in range(n)], lambda x: int(x[1:])
    if kind == 2:
        return [[i] for i in range(n)], lambda x: x[0]
    return [{'id': i} for i in range(n)], lambda x: x['id']


def relations(d):
    on_graph(d, *clus.graph(d, d.choice((6, 14, 30))))


def large(d):
    """More items: long chains, large components, many components."""
    on_graph(d, *clus.big_graph(d))


def huge(d):
    """Hundreds of items: beyond any chunk or batch."""
    on_graph(d, *clus.big_graph(d, 250, 800))


def long_chain(d):
    on_graph(d, *clus.long_chain(d))


def on_graph(d, n, edges):
    items, ident = make_items(d, n)
    bkw, lo, hi = clus.bounds(d, n, 1)
    use_key = d.bool(0.3)
    if use_key:
        kw = clus.relation(d, edges, lambda k: k[1])
        kw['key'] = lambda item: ('key', ident(item))
    else:
        kw = clus.relation(d, edges, ident)
    data, form = clus.container(d, items)
    d.show({'n': n, 'edges': sorted(edges), 'bounds': bkw, 'radius': kw.get('radius'), 'by': sorted(kw), 'data': form})
    if edges:
        d.nontrivial((n, tuple(sorted(edges)), lo, hi, tuple(sorted(kw))))
    d.label('components: %d' % min(4, len(clus.components_expected(n, edges, 2, clus.INF))))
    before = list(items)
    with parallel.maybe(d, 0.05, True, n) as pkw:
        kw = dict(kw, **dict(bkw, **pkw))
        if d.bool(0.5):
            clusters = lst(pairwise_connected_components, data, **kw)
        else:
            clusters = lst(pairwise, data, **kw) if d.bool() else lst(pairwise, data, mode='connected_components', **kw)
    check(items == before, 'the data was modified')
    clus.check_components([[ident(x) for x in c] for c in clusters], n, edges, lo, hi)


def strings(d):
    """Duplicated items are kept apart: clusters are compared as multisets."""
    data = gens.words_like(d, 0, 14, hi=6)
    radius = d.int(0, 3)
    bkw, lo, hi = clus.bounds(d, len(data), 1)
    d.show({'data': data, 'radius': radius, 'bounds': bkw})
    n = len(data)
    edges = set((i, j) for i in range(n) for j in range(i + 1, n) if lev(data[i], data[j]) <= radius)
    want = sorted(sorted(data[i] for i in c) for c in clus.components_expected(n, edges, lo, hi))
    if want:
        d.nontrivial((tuple(data), radius, lo, hi))
    kw = dict(distance=lev, radius=radius, **bkw)
    if d.bool(0.3):
        kw['key'] = lambda s: s[:4]
        edges = set((i, j) for i in range(n) for j in range(i + 1, n) if lev(data[i][:4], data[j][:4]) <= radius)
        want = sorted(sorted(data[i] for i in c) for c in clus.components_expected(n, edges, lo, hi))
    got = sorted(sorted(c) for c in lst(pairwise, data, **kw))
    check(got == want, 'clusters are %s, expected %s', short(got), short(want))
    # The order of the data is irrelevant
    again = sorted(sorted(c) for c in lst(pairwise, d.shuffled(data), **kw))
    check(again == want, 'clusters of the shuffled data are %s, expected %s', short(again), short(want))


def values(d):
    """Few values, falsey ones included, which items or keys repeat and which may not be similar to themselves."""
    vals, vedges, edges = clus.valued(d)
    n = len(vals)
    bkw, lo, hi = clus.bounds(d, n, 1)
    keyed = d.bool()
    d.show({'values': vals, 'relation': sorted(vedges), 'bounds': bkw, 'values are': 'keys' if keyed else 'items'})
    if edges:
        d.nontrivial((tuple(map(repr, vals)), tuple(sorted(vedges)), lo, hi, keyed))
    kw = dict(clus.relation(d, vedges, clus.value_index, False), **bkw)
    if keyed:
        with parallel.maybe(d, 0.05, True, n) as pkw:
            clusters = lst(pairwise, list(range(n)), key=lambda i: vals[i], **dict(kw, **pkw))
        clus.check_components(clusters, n, edges, lo, hi)
    else:
        clusters = lst(pairwise, clus.container(d, vals)[0], **kw)
        got = sorted(sorted(map(repr, c)) for c in clusters)
        want = sorted(sorted(repr(vals[i]) for i in c) for c in clus.components_expected(n, edges, lo, hi))
        check(got == want, 'clusters are %s, expected %s', short(got), short(want))


TESTS = [
    Test(values, 5000, 120000),
    Test(relations, 16000, 500000),
    Test(large, 300, 12000),
    Test(huge, 24, 800, cpu=120),
    Test(long_chain, 8, 200, cpu=120),
    Test(strings, 4000, 100000),
]
