"""C23: floatsam threshold & component sizes."""
import math
import random

import networkx as nx

from lib.engine import Test, call, check, eq, lst, short
from lib import clus
from lib.models import components

from fog.graph import floatsam_sparsification
from fog.graph.utils import component_sizes, second_largest_component_size

SOURCES = ['fog/graph/sparsification.py', 'fog/graph/utils.py']
RULE = ('Random weighted graphs (stars, chains, cliques, communities joined by weaker edges), any starting threshold, '
        'learning rate and maximum drifter size; non-trivial = the returned threshold is not the starting one or edges '
        'are removed.')
ASSUMPTIONS = ['learning_rate > 0 and every edge has a weight.']


def big(d):
    """Hundreds of nodes, drawn from a seed."""
    n, es = clus.big_graph(d, 100, 400) if d.bool(0.8) else clus.long_chain(d)
    rng = random.Random(d.int(0, 1 << 20))
    return n, dict((e, rng.randint(-1, 8)) for e in sorted(es))


def weighted(d, hi, draw):
    if hi > 100:
        return big(d)
    if d.bool(0.4):
        # Communities joined by lighter edges
        k = d.int(2, 3)
        size = d.int(1, max(1, hi // k))
        n = k * size
        edges = {}
        for i in range(n):
            for j in range(i + 1, n):
                if i // size == j // size:
                    if d.bool(0.7):
                        edges[(i, j)] = draw() + 2
                elif d.bool(0.15):
                    edges[(i, j)] = draw()
    else:
        n, es = clus.graph(d, hi)
        same = d.bool(0.3)
        w = draw()
        edges = dict((e, w if same else draw()) for e in sorted(es))
    return n, edges


def sizes(n, edges):
    return sorted((len(c) for c in components(n, edges)), reverse=True)


def floatsam(d, hi=None):
    lr = d.choice((0.25, 0.5, 0.0625, 1.0))
    start = d.choice((0.0, 0.5, 1.25, -1.0))
    n, steps = weighted(d, hi or d.wide(14, 4), lambda: d.int(-1, 8))
    half = d.bool()
    # Weights on the grid of thresholds (exact in binary), or between two thresholds
    edges = dict((e, start + (s + (0.5 if half else 0)) * lr) for e, s in steps.items())
    kw = {}
    if start != 0.0 or d.bool():
        kw['starting_treshold'] = start
    kw['learning_rate'] = lr
    drift = None
    if d.bool():
        drift = kw['max_drifter_size'] = d.int(0, 6)
    elif n:
        drift = int(math.log(n))
    weight = d.choice(('weight', 'w'))
    if weight != 'weight':
        kw['weight'] = weight
    remove = d.bool()
    if remove or d.bool():
        kw['remove_edges'] = remove
    name = d.choice((lambda i: i, lambda i: 'n%d' % i))
    d.show({'n': n, 'edges': sorted((i, j, w) for (i, j), w in edges.items()), 'options': kw})
    g = nx.Graph()
    g.add_nodes_from(name(i) for i in range(n))
    for (i, j), w in edges.items():
        g.add_edge(name(i), name(j), **{weight: w})
    want = start
    if edges:
        k = 0
        while True:
            t = start + (k + 1) * lr
            kept = [e for e, w in edges.items() if w >= t]
            s = sizes(n, kept)
            if len(s) > 1 and s[1] >= drift:
                break
            if not kept:
                break
            k += 1
        want = start + k * lr
    lost = set(e for e, w in edges.items() if w < want)
    if want != start or lost:
        d.nontrivial((n, repr(sorted(edges.items())), repr(sorted(kw.items()))))
    got = call(floatsam_sparsification, g, **kw)
    check(abs(got - want) < 1e-9, 'threshold is %r, expected %r', got, want)
    left = dict(edges) if not remove else dict((e, w) for e, w in edges.items() if e not in lost)
    check(set(g.nodes) == set(name(i) for i in range(n)), 'nodes of the graph changed')
    have = dict((frozenset((x, y)), w) for x, y, w in g.edges(data=weight))
    check(have == dict((frozenset((name(i), name(j))), w) for (i, j), w in left.items()), 'edges are %s, expected %s', short(list(g.edges(data=weight))), short(left))


def huge(d):
    if d.bool():
        floatsam(d, 1000)
    else:
        sizes_of(d, 1000)


def sizes_of(d, hi=None):
    n, edges = weighted(d, hi or d.wide(16, 4), lambda: d.int(0, 5))
    loops = [d.int(0, n - 1) for _ in range(d.int(0, 2))] if n and d.bool(0.3) else []
    at = d.choice((None, 0, 1, 3, 9))
    d.show({'n': n, 'edges': sorted(edges.items()), 'filter': at, 'loops': loops})
    g = nx.Graph()
    g.add_nodes_from(d.shuffled(range(n)))
    for (i, j), w in edges.items():
        g.add_edge(i, j, weight=w)
    for i in loops:
        g.add_edge(i, i, weight=9)
    args = () if at is None else (lambda u, v, attr: attr['weight'] >= at,)
    want = sizes(n, [e for e, w in edges.items() if at is None or w >= at])
    if len(want) > 1 and want[0] > 1:
        d.nontrivial((n, repr(sorted(edges.items())), at))
    eq(sorted(lst(component_sizes, g, *args), reverse=True), want, 'sizes of components')
    eq(call(second_largest_component_size, g, *args), want[1] if len(want) > 1 else None, 'second largest component')


def star(d):
    """Thousands of nodes around one."""
    n = clus.size(d, 4000, 9000)
    hub = d.int(0, max(0, n - 1))
    lost = random.Random(d.int(0, 1 << 20))
    p = d.choice((0, 0.01))
    edges = [(min(i, hub), max(i, hub)) for i in range(n) if i != hub and lost.random() >= p]
    d.show({'n': n, 'hub': hub, 'edges': len(edges)})
    d.nontrivial((n, hub, len(edges)))
    g = nx.Graph()
    g.add_nodes_from(range(n))
    g.add_edges_from(edges, weight=1)
    want = sizes(n, edges)
    eq(sorted(lst(component_sizes, g), reverse=True), want, 'sizes of components')
    eq(call(second_largest_component_size, g), want[1] if len(want) > 1 else None, 'second largest component')


TESTS = [
    Test(floatsam, 12000, 300000),
    Test(sizes_of, 10000, 250000),
    Test(huge, 100, 3000, cpu=120),
    Test(star, 16, 300, cpu=120),
]
