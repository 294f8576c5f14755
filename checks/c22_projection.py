"""C22: monopartite projections against their definition."""
import math
import random

import networkx as nx

from lib import clus
from lib.engine import Test, Violation, call, check, eq, short

from fog.graph import monopartite_projection

SOURCES = ['fog/graph/projection.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py']
RULE = ('Random bipartite graphs (isolated nodes, missing, null, negative and shared weights, any node types, any '
        'attribute names), every metric, thresholds, both strategies; plus graphs that are not bipartite; non-trivial '
        '= two projected nodes share a neighbor and two do not.')
ASSUMPTIONS = ['A similarity within 1e-9 of the threshold may fall on either side of it.',
               'Nodes of null norm (only null weights) have no cosine edge.']

METRICS = (None, 'jaccard', 'overlap', 'dice', 'cosine', 'binary_cosine')


def names(d, n, tag):
    kind = d.int(0, 5)
    if kind == 5 and tag == 'a':
        return ['', 0, (), frozenset(), b'', -1, -2, 'a'][:n] + [(tag, i) for i in range(n - 8)]
    if kind == 5:
        return [' ', '0', ((),), frozenset(['']), b' ', -3, -4, 'b'][:n] + [(tag, i) for i in range(n - 8)]
    if kind == 0:
        return ['%s%d' % (tag, i) for i in range(n)]
    if kind == 1:
        return [i * 2 + (tag == 'b') for i in range(n)]
    if kind == 2:
        return [(tag, i) for i in range(n)]
    if kind == 3:
        # Not comparable with one another
        return [i * 2 + (tag == 'b') if i % 2 else '%s%d' % (tag, i) for i in range(n)]
    return [frozenset([tag, i]) for i in range(n)]


def bipartite(d, big=None):
    n, m = (clus.size(d, 20, big), clus.size(d, 5, big)) if big else (d.int(0, 7), d.int(0, 6))
    a, b = names(d, n, 'a'), names(d, m, 'b')
    if d.bool():
        a = d.shuffled(a)
    part = d.choice(('bipartite', 'type'))
    weight = d.choice(('weight', 'w'))
    values = d.choice(((1, 0), ('people', 'color'), (None, 'x'), (0, False or 1)))
    g = nx.Graph()
    order = [(x, values[0]) for x in a] + [(x, values[1]) for x in b]
    if d.bool():
        order = d.shuffled(order)
    for i, (x, v) in enumerate(order):
        g.add_node(x, **{part: v, 'label': 'n%d' % i})
    density = d.choice((0.2, 0.5, 0.9))
    ws = d.choice(((1,), (1, 2, 3), (1, 0, 2.5), (1, -1, 2), (0.1, 0.7, None)))
    pairs = [(x, y) for x in a for y in b]
    if big:
        rng = random.Random(d.int(0, 1 << 20))
        chance = lambda p: rng.random() < p
        rng.shuffle(pairs)
        density = rng.choice((0.02, 0.1, 0.4))
        pick = rng.choice
    else:
        chance, pick = d.bool, d.choice
        pairs = d.shuffled(pairs)
    for x, y in pairs:
        if chance(density):
            w = pick(ws)
            if chance(0.5):
                x, y = y, x
            g.add_edge(x, y, **({} if w is None else {weight: w}))
    return g, a, b, part, weight, values


def project(d):
    project_on(d, *bipartite(d))


def large(d):
    project_on(d, *bipartite(d, 40))


def huge(d):
    project_on(d, *bipartite(d, 220))


def project_on(d, g, a, b, part, weight, values):
    metric = d.choice(METRICS)
    threshold = d.choice((None, None, 0.1, 0.3, 0.5, 1.0, 2, 0.0))
    kw = {}
    if metric is not None or d.bool():
        kw['metric'] = metric
    if threshold is not None:
        kw['threshold'] = threshold
    topology = d.int(0, 2)
    if topology < 2:
        kw['use_topology'] = bool(topology)
    if d.bool(0.3):
        kw['bipartition_check'] = d.bool()
    if part != 'bipartite':
        kw['part'] = part
    if weight != 'weight':
        kw['weight'] = weight
    before = (sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))))
    d.show({'nodes': list(g.nodes), 'side': a, 'edges': list(g.edges(data=weight, default=1)), 'options': kw})
    d.label(str(metric))
    vec = dict((x, dict((y, g.edges[x, y].get(weight, 1)) for y in g.adj[x])) for x in a)
    share = set()
    expected = {}
    for i in range(len(a)):
        for j in range(i + 1, len(a)):
            A, B = vec[a[i]], vec[a[j]]
            common = set(A) & set(B)
            if common:
                share.add((i, j))
            if metric == 'cosine':
                num = sum(A[k] * B[k] for k in common)
                den = math.sqrt(sum(w * w for w in A.values())) * math.sqrt(sum(w * w for w in B.values()))
                s = num / den if den and common else 0
            elif not common:
                s = 0
            elif metric is None:
                s = len(common)
            elif metric == 'jaccard':
                s = len(common) / len(set(A) | set(B))
            elif metric == 'overlap':
                s = len(common) / min(len(A), len(B))
            elif metric == 'dice':
                s = 2 * len(common) / (len(A) + len(B))
            else:
                s = len(common) / math.sqrt(len(A) * len(B))
            expected[frozenset((a[i], a[j]))] = s
    if share and len(share) < len(expected):
        d.nontrivial((repr(sorted(map(repr, g.edges(data=True)))), metric, threshold, topology))
    got = call(monopartite_projection, g, values[0], **kw)
    check(set(got.nodes) == set(a), 'nodes are %s, expected %s', short(list(got.nodes)), short(a))
    for x in a:
        eq(dict(got.nodes[x]), dict(g.nodes[x]), 'attributes of %r' % (x,))
    check(not got.is_directed() and not any(x == y for x, y in got.edges), 'unexpected loops or directions')
    for pair, s in expected.items():
        x, y = tuple(pair)
        if abs(s) < 1e-12:
            # Possibly a rounding residue of opposite weights
            ok = not got.has_edge(x, y) or (metric == 'cosine' and s != 0 and not threshold)
            check(ok, '%r and %r are linked with similarity %r', x, y, s)
        elif threshold is not None and abs(s - threshold) < 1e-9:
            continue
        elif threshold is not None and s < threshold:
            check(not got.has_edge(x, y), '%r and %r are linked with similarity %r under the threshold', x, y, s)
        else:
            check(got.has_edge(x, y), '%r and %r are not linked, their similarity is %r', x, y, s)
        if got.has_edge(x, y):
            w = got.edges[x, y].get(weight)
            check(w is not None and abs(w - s) < 1e-9, 'weight of %r & %r is %r, expected %r', x, y, w, s)
    after = (sorted(map(repr, g.nodes(data=True))), sorted(map(repr, g.edges(data=True))))
    check(before == after, 'the given graph was changed')


def invalid(d):
    """Graphs that are not bipartite are refused."""
    g, a, b, part, weight, values = bipartite(d)
    kind = d.int(0, 1)
    side = a if len(a) >= 2 else b
    if len(side) < 2:
        g.add_node('extra1', **{part: values[0]})
        side = ['extra1']
    if kind == 0:
        x = d.choice(side)
        y = d.choice(side)
        g.add_edge(x, y)
    else:
        if not b:
            g.add_node('extra2', **{part: values[1]})
            b = ['extra2']
        if not a:
            g.add_node('extra3', **{part: values[0]})
            a = ['extra3']
        g.add_node('third', **{part: 'third'})
        g.add_edge(d.choice(a), 'third')
        g.add_edge(d.choice(a), d.choice(b))
    topology = d.bool()
    d.show({'edges': list(g.edges), 'parts': [(x, g.nodes[x].get(part)) for x in g.nodes], 'use_topology': topology})
    d.nontrivial((kind, repr(sorted(map(repr, g.edges))), repr(g.nodes(data=part))))
    try:
        monopartite_projection(g, values[0], part=part, use_topology=topology)
    except TypeError:
        return
    except Exception as e:
        raise Violation('%s raised instead of TypeError' % type(e).__name__)
    raise Violation('a graph that is not bipartite was projected')


TESTS = [
    Test(project, 24000, 600000),
    Test(large, 400, 12000),
    Test(huge, 32, 600, cpu=120),
    Test(invalid, 2500, 40000),
]
