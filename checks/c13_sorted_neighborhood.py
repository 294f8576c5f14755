"""C13: (adaptive) sorted neighborhood."""
import random

from lib.engine import Test, check, lst
from lib import clus

from fog.clustering import sorted_neighborhood, adaptive_sorted_neighborhood

SOURCES = ['fog/clustering/sorted_neighborhood.py', 'fog/clustering/utils.py']
RULE = ('Distinct items with arbitrary sort keys (ties, several passes) and arbitrary symmetric relations, windows '
        'from 2; non-trivial = more items than the window and at least one similar pair found.')
ASSUMPTIONS = ['Items are distinct and hashable, the relation is symmetric, window >= 2, min_size >= 2.']


def orders(d, n, given, ident):
    """(keyword arguments, the successive sorted orders, over indices): ties keep the order of the data"""
    def one():
        if d.bool(0.25):
            return None, list(range(n))
        ranks = [d.int(0, max(1, n)) for _ in range(n)]
        return (lambda item: ranks[ident(item)]), sorted(given, key=lambda i: ranks[i])
    if d.bool(0.45):
        passes = [one() for _ in range(d.int(1, 3))]
        ks = [k for k, _ in passes]
        if d.bool(0.3):
            ks = tuple(ks)
        elif d.bool(0.2):
            ks = iter(ks)
        return {'keys': ks}, [o for _, o in passes]
    k, o = one()
    return ({'key': k} if k is not None or d.bool() else {}), [o]


def windows(n, similar, window):
    """The adaptive windows of the full accumulatively adaptive method."""
    out = []
    start = 0
    while start + window - 1 < n:
        first, last = start, start + window - 1
        while similar(first, last):
            size = last - start + 1
            first, last = last, last + size - 1
            if last >= n:
                last = n - 1
                break
        while last - start + 1 > window and not similar(last - 1, last):
            last -= 1
        out.append((start, last))
        start = last + 1
    if start < n:
        out.append((start, n - 1))
    return out


def run(d, fn, adaptive, big=None, chain=False, clique=None):
    if clique:
        n = clus.size(d, *clique)
        p = random.Random(d.int(0, 1 << 20)) if d.bool() else None
        # All similar, or almost
        edges = set((i, j) for i in range(n) for j in range(i + 1, n) if p is None or p.random() < 0.999)
    elif chain:
        n, edges = clus.long_chain(d, 2200, 2800)
    elif big:
        n, edges = clus.big_graph(d, *big)
    else:
        n, edges = clus.graph(d, d.choice((6, 14, 30)))
    kind = d.bool()
    # Items sort like their index
    items = list(range(n)) if kind else ['i%05d' % i for i in range(n)]
    ident = (lambda x: x) if kind else (lambda x: int(x[1:]))
    if not chain and not clique and d.bool(0.3):
        edges = set((i, j) for i in range(n) for j in range(i + 1, n)) - edges
    # The data is given in any order
    given = list(range(n))
    if d.bool(0.6):
        if n > 30:
            random.Random(d.int(0, 1 << 20)).shuffle(given)
        else:
            given = d.shuffled(given)
    okw, passes = orders(d, n, given, ident)
    window = d.weighted(((3, 2), (3, 3), (2, 4), (1, 5), (1, 7), (1, 10), (1, 40)))
    if n > 60 and d.bool(0.3):
        window = d.int(40, n + 5)
    if not adaptive and not d.int(0, 19):
        # Nothing to compare: a window of one item
        window = 1
    bkw, lo, hi = clus.bounds(d, n)
    kw = clus.relation(d, edges, ident)
    kw.update(okw)
    kw.update(bkw)
    if window != 10 or d.bool():
        kw['window'] = window
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    found = set()
    for order in passes:
        spans = set()
        if adaptive:
            def similar(a, b):
                a, b = order[a], order[b]
                return (min(a, b), max(a, b)) in edges
            for s, e in windows(n, similar, window):
                spans |= set((i, j) for i in range(s, e + 1) for j in range(i + 1, e + 1))
        else:
            spans = set((i, j) for i in range(n) for j in range(i + 1, min(n, i + window)))
        for i, j in spans:
            a, b = order[i], order[j]
            if (min(a, b), max(a, b)) in edges:
                found.add((min(a, b), max(a, b)))
    if found and n > window:
        d.nontrivial((n, tuple(sorted(edges)), repr(passes), window, mode, lo, hi))
    d.label('missed pairs' if found != edges else 'all pairs')
    d.label('passes: %d' % len(passes))
    x, form = clus.container(d, [items[i] for i in given])
    d.show({'n': n, 'given': given, 'edges': sorted(edges), 'orders': passes, 'window': window, 'mode': mode, 'bounds': bkw,
            'multipass': 'keys' in kw, 'radius': kw.get('radius'), 'form': form})
    clusters = lst(fn, x, **kw)
    got = [[ident(x) for x in c] for c in clusters]
    if mode == 'connected_components':
        clus.check_components(got, n, found, lo, hi)
    else:
        clus.check_fuzzy(got, n, found, lo, hi)


def plain(d):
    run(d, sorted_neighborhood, False)


def adaptive(d):
    run(d, adaptive_sorted_neighborhood, True)


def large(d):
    if d.bool():
        run(d, adaptive_sorted_neighborhood, True, (40, 120))
    else:
        run(d, sorted_neighborhood, False, (40, 120))


def huge(d):
    if d.bool():
        run(d, adaptive_sorted_neighborhood, True, (250, 600))
    else:
        run(d, sorted_neighborhood, False, (250, 600))


def long_chain(d):
    """More than a thousand items, most of them in a single component."""
    if d.bool():
        run(d, adaptive_sorted_neighborhood, True, chain=True)
    else:
        run(d, sorted_neighborhood, False, chain=True)


def similar_everywhere(d):
    """Windows that get enlarged to more than a thousand items."""
    run(d, adaptive_sorted_neighborhood, True, clique=(800, 1500))


TESTS = [
    Test(plain, 16000, 500000),
    Test(adaptive, 16000, 500000),
    Test(large, 400, 12000),
    Test(huge, 32, 1000, cpu=120),
    Test(long_chain, 16, 300, cpu=120),
    Test(similar_everywhere, 8, 60, cpu=120),
]
