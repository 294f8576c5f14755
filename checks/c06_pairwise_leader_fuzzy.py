"""C06: pairwise clustering with leaders and with fuzzy clusters."""
from lib.engine import Test, check, lst, short
from lib import clus, gens, parallel
from lib.models import lev
from checks.c05_pairwise_components import make_items

from fog.clustering import pairwise, pairwise_leader, pairwise_fuzzy_clusters

SOURCES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py']
RULE = ('Arbitrary symmetric relations given in each of the four documented ways, and strings with duplicates under '
        'the Levenshtein distance; non-trivial = at least one pair of similar items.')
ASSUMPTIONS = ['The similarity relation is symmetric.', 'min_size >= 2.']


def leader(d):
    leader_on(d, *clus.graph(d, d.choice((6, 14, 30))))


def large(d):
    """More items: long chains, large groups."""
    n, edges = clus.big_graph(d)
    (leader_on if d.bool() else fuzzy_on)(d, n, edges)


def huge(d):
    n, edges = clus.big_graph(d, 250, 700)
    (leader_on if d.bool() else fuzzy_on)(d, n, edges)


def leader_on(d, n, edges):
    items, ident = make_items(d, n)
    bkw, lo, hi = clus.bounds(d, n)
    kw = clus.relation(d, edges, ident)
    data, form = clus.container(d, items)
    d.show({'n': n, 'edges': sorted(edges), 'bounds': bkw, 'radius': kw.get('radius'), 'by': sorted(kw), 'data': form})
    if edges:
        d.nontrivial((n, tuple(sorted(edges)), lo, hi, tuple(sorted(kw))))
    d.label('max_size' if hi != clus.INF else 'no max_size')
    if d.bool():
        clusters = lst(pairwise_leader, data, **dict(kw, **bkw))
    else:
        clusters = lst(pairwise, data, mode='leader', **dict(kw, **bkw))
    clusters = [[ident(x) for x in c] for c in clusters]
    adj = clus.neighborhoods(n, edges)
    seen = set()
    for c in clusters:
        check(lo <= len(c) <= hi, 'cluster %s is not of a viable size', c)
        for x in c[1:]:
            check(x in adj[c[0]], 'cluster %s: %s is not similar to the leader', c, x)
        for x in c:
            check(x not in seen, 'item %s belongs to two clusters: %s', x, clusters)
            seen.add(x)
    want = clus.leader_model(n, edges, lo, hi)
    got = set((c[0], frozenset(c)) for c in clusters)
    check(len(got) == len(clusters) and got == set((c[0], frozenset(c)) for c in want),
          'clusters are %s, the leader algorithm gives %s', short(clusters), short(want))


def fuzzy(d):
    fuzzy_on(d, *clus.graph(d, d.choice((6, 14, 30))))


def fuzzy_on(d, n, edges):
    items, ident = make_items(d, n)
    bkw, lo, hi = clus.bounds(d, n)
    if d.bool(0.3):
        kw = clus.relation(d, edges, lambda k: k[1])
        kw['key'] = lambda item: ('key', ident(item))
    else:
        kw = clus.relation(d, edges, ident)
    data, form = clus.container(d, items)
    d.show({'n': n, 'edges': sorted(edges), 'bounds': bkw, 'radius': kw.get('radius'), 'by': sorted(kw), 'data': form})
    if edges:
        d.nontrivial((n, tuple(sorted(edges)), lo, hi, tuple(sorted(kw))))
    with parallel.maybe(d, 0.05, True, n) as pkw:
        kw = dict(kw, **dict(bkw, **pkw))
        if d.bool():
            clusters = lst(pairwise_fuzzy_clusters, data, **kw)
        else:
            clusters = lst(pairwise, data, mode='fuzzy_clusters', **kw)
    clus.check_fuzzy([[ident(x) for x in c] for c in clusters], n, edges, lo, hi)


def strings(d):
    """Radius soundness over strings with duplicates."""
    data = gens.words_like(d, 0, 12, hi=6)
    radius = d.int(0, 3)
    d.show({'data': data, 'radius': radius})
    n = len(data)
    edges = set((i, j) for i in range(n) for j in range(i + 1, n) if lev(data[i], data[j]) <= radius)
    if edges:
        d.nontrivial((tuple(data), radius))
    got = lst(pairwise, data, mode='leader', distance=lev, radius=radius)
    want = [[data[i] for i in c] for c in clus.leader_model(n, edges)]
    check(sorted((c[0], sorted(c)) for c in got) == sorted((c[0], sorted(c)) for c in want),
          'leader: clusters are %s, expected %s', short(got), short(want))
    got = lst(pairwise, data, mode='fuzzy_clusters', distance=lev, radius=radius)
    for c in got:
        near = sorted(x for x in data if lev(x, c[0]) <= radius)
        check(sorted(c) == near, 'fuzzy: cluster %s should hold %s', short(c), short(near))
    covered = set(x for c in got for x in c)
    for i, j in edges:
        check(data[i] in covered and data[j] in covered, 'fuzzy: %r and %r are similar but in no cluster', data[i], data[j])


def values(d):
    """Few values, falsey ones included, which items or keys repeat and which may not be similar to themselves."""
    vals, vedges, edges = clus.valued(d)
    n = len(vals)
    bkw, lo, hi = clus.bounds(d, n)
    keyed = d.bool()
    d.show({'values': vals, 'relation': sorted(vedges), 'bounds': bkw, 'values are': 'keys' if keyed else 'items'})
    if edges:
        d.nontrivial((tuple(map(repr, vals)), tuple(sorted(vedges)), lo, hi, keyed))
    kw = dict(clus.relation(d, vedges, clus.value_index, False), **bkw)
    if keyed:
        with parallel.maybe(d, 0.05, True, n) as pkw:
            clusters = lst(pairwise, list(range(n)), mode='fuzzy_clusters', key=lambda i: vals[i], **dict(kw, **pkw))
        clus.check_fuzzy(clusters, n, edges, lo, hi)
        return
    clusters = lst(pairwise, clus.container(d, vals)[0], mode='leader', **kw)
    got = sorted((repr(c[0]), sorted(map(repr, c))) for c in clusters)
    want = sorted((repr(vals[c[0]]), sorted(repr(vals[i]) for i in c)) for c in clus.leader_model(n, edges, lo, hi))
    check(got == want, 'clusters are %s, the leader algorithm gives %s', short(got), short(want))


TESTS = [
    Test(values, 5000, 120000),
    Test(leader, 14000, 400000),
    Test(fuzzy, 14000, 400000),
    Test(large, 300, 12000),
    Test(huge, 24, 800, cpu=120),
    Test(strings, 3000, 80000),
]
