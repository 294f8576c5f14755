"""
Shared by the clustering checks: relations, ways of giving them to a clusterer,
and validity predicates over the produced clusters.
"""
import math
import random

from lib.engine import check, short
from lib.models import components

INF = float('inf')


def graph(d, hi=14, lo=0):
    """A random graph (n, set of edges (i < j)): sparse, dense, chains, cliques."""
    n = d.length(lo, hi) if d.rng is not None else lo
    n = lo + d.raw(hi - lo, lambda: n - lo)
    edges = set()
    if n < 2:
        return n, edges
    kind = d.int(0, 4)
    if kind == 0:
        for _ in range(d.int(0, n)):
            i, j = d.int(0, n - 1), d.int(0, n - 1)
            if i != j:
                edges.add((min(i, j), max(i, j)))
    elif kind == 1:
        for i in range(n):
            for j in range(i + 1, n):
                if d.bool(0.5):
                    edges.add((i, j))
    elif kind == 2:
        p = d.shuffled(range(n))
        for i in range(n - 1):
            if d.bool(0.8):
                a, b = p[i], p[i + 1]
                edges.add((min(a, b), max(a, b)))
    elif kind == 3:
        colors = [d.int(0, 3) for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                if colors[i] == colors[j]:
                    edges.add((i, j))
    else:
        hub = d.int(0, n - 1)
        for i in range(n):
            if i != hub and d.bool(0.6):
                edges.add((min(i, hub), max(i, hub)))
    return n, edges


def size(d, lo, hi):
    """A size between lo and hi, that still shrinks to nothing."""
    rng = d.rng
    return d.raw(hi, (lambda: rng.randint(lo, hi)) if rng is not None else None)


def big_graph(d, lo=40, hi=200):
    """A larger graph, drawn from a seed: groups that are chains, stars, cliques or trees, and a few more edges."""
    n = size(d, lo, hi)
    rng = random.Random(d.int(0, 1 << 20))
    edges = set()
    order = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(order)
    pos = 0
    biggest = rng.choice((3, 8, 40, 150))
    while pos < n:
        group = order[pos:pos + min(biggest, rng.choice((1, 1, 2, 2, 3, 5, 9, 17, 40, 130)))]
        pos += len(group)
        kind = rng.randrange(4)
        for k in range(1, len(group)):
            if kind == 0:
                link = (group[k - 1],)
            elif kind == 1:
                link = (group[0],)
            elif kind == 2:
                link = group[:k]
            else:
                link = (group[rng.randrange(k)],)
            for x in link:
                edges.add((min(x, group[k]), max(x, group[k])))
    if n > 1:
        for _ in range(rng.choice((0, 0, 2, 10))):
            i, j = rng.randrange(n), rng.randrange(n)
            if i != j:
                edges.add((min(i, j), max(i, j)))
    return n, edges


def long_chain(d, lo=1050, hi=1400):
    """More than a thousand items in a single component: (n, edges), a chain in any order, or a chain of cliques."""
    n = size(d, lo, hi)
    rng = random.Random(d.int(0, 1 << 20))
    order = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(order)
    step = rng.choice((1, 1, 2))
    return n, set((min(order[i], order[j]), max(order[i], order[j])) for i in range(n) for j in range(i + 1, min(n, i + step + 1)))


class Pairs(object):
    """A set of pairs that is sent to the workers as a mere reference: clusterers pickle their functions for each task."""
    known = {}
    count = 0

    def __init__(self, pairs, reflexive=False):
        self.pairs = pairs
        self.reflexive = reflexive
        Pairs.count += 1
        self.ref = Pairs.count
        Pairs.known[self.ref] = self
        Pairs.known.pop(self.ref - 16, None)

    def __contains__(self, pair):
        return pair in self.pairs or (self.reflexive and pair[0] == pair[1])

    def __reduce__(self):
        return known_pairs, (self.ref,)


def known_pairs(ref):
    return Pairs.known[ref]


def relation(d, edges, ident, reflexive=True):
    """
    One of the four documented ways of giving a similarity relation: keyword
    arguments for the clusterer. `ident` maps an item to its index.
    """
    # An item is usually similar to itself, not that it matters
    E = Pairs(set(edges) | set((j, i) for i, j in edges), reflexive and d.bool(0.7))
    form = d.int(0, 3)
    salt = d.int(0, 3)
    if form == 0:
        if salt == 3:
            # Any truthy or falsy value will do
            return {'similarity': lambda A, B: 'yes' if (ident(A), ident(B)) in E else None}
        return {'similarity': lambda A, B: (ident(A), ident(B)) in E}
    if form == 1:
        if salt == 3:
            return {'distance': lambda A, B: '' if (ident(A), ident(B)) in E else 'far'}
        if salt == 2:
            return {'distance': lambda A, B: 0 if (ident(A), ident(B)) in E else 0.25}
        return {'distance': lambda A, B: (ident(A), ident(B)) not in E}
    radius = d.choice((1, 0, 2, 0.5, 0.75, 3, -1))
    close = d.bool(0.3)

    def value(A, B, sign):
        i, j = ident(A), ident(B)
        # Symmetric, often exactly on the radius
        off = ((i * j + i + j + salt) % 3)
        if (i, j) in E:
            return radius + sign * off * 0.25
        if close and off == 0:
            # As near the radius as can be
            return math.nextafter(radius, -sign * INF)
        return radius - sign * (off + 1) * 0.25
    if form == 2:
        return {'similarity': lambda A, B: value(A, B, 1), 'radius': radius}
    return {'distance': lambda A, B: value(A, B, -1), 'radius': radius}


# Falsey ones included, no two of them being equal
VALUES = (None, '', 0, (), 'a', 'b', 1.5, ('x',), 7, 'falsey')


def valued(d, hi=14):
    """
    Items having one of a few values, some of them falsey, the relation being over values, which may not be similar to
    themselves: (values of the items, relation over indices of VALUES, edges over items).
    """
    m, vedges = graph(d, len(VALUES), 1)
    if d.bool(0.6):
        vedges = vedges | set((v, v) for v in range(m) if d.bool(0.7))
    picks = d.list(lambda: d.int(0, m - 1), 0, hi)
    n = len(picks)
    edges = set((i, j) for i in range(n) for j in range(i + 1, n) if (min(picks[i], picks[j]), max(picks[i], picks[j])) in vedges)
    return [VALUES[v] for v in picks], vedges, edges


def value_index(v):
    return VALUES.index(v)


def bounds(d, n, least=2):
    """Keyword arguments for min_size & max_size, and their values."""
    kw = {}
    lo, hi = 2, INF
    if d.bool(0.35):
        lo = d.int(least, 5)
        kw['min_size'] = lo
    if d.bool(0.35):
        hi = d.int(2, max(2, n))
        kw['max_size'] = hi
    return kw, lo, hi


def container(d, data):
    """The data as some iterable; (object, name)."""
    k = d.int(0, 4)
    if k == 0:
        return data, 'list'
    if k == 1:
        return tuple(data), 'tuple'
    if k == 2:
        return (x for x in data), 'generator'
    if k == 3:
        return iter(list(data)), 'iterator'
    return dict((i, x) for i, x in enumerate(data)).values(), 'dict values'


def components_expected(n, edges, lo, hi):
    return set(c for c in components(n, edges) if lo <= len(c) <= hi)


def check_components(clusters, n, edges, lo=2, hi=INF):
    """clusters: lists of indices."""
    for c in clusters:
        check(len(set(c)) == len(c), 'an item occurs twice in cluster %s', short(c))
    got = [frozenset(c) for c in clusters]
    want = components_expected(n, edges, lo, hi)
    check(len(got) == len(set(got)), 'the same cluster is yielded twice: %s', short(clusters))
    check(set(got) == want, 'clusters are %s, the connected components are %s',
          short(sorted(map(sorted, got))), short(sorted(map(sorted, want))))


def neighborhoods(n, edges):
    adj = [set() for _ in range(n)]
    for i, j in edges:
        adj[i].add(j)
        adj[j].add(i)
    return adj


def check_fuzzy(clusters, n, edges, lo=2, hi=INF):
    """
    Fuzzy clusters: each one is an item followed by every item similar to it;
    an item drawn in a previous cluster does not start one; every item whose
    neighborhood has a viable size is in some cluster.
    """
    adj = neighborhoods(n, edges)
    seen = set()
    member = set()
    for c in clusters:
        check(len(set(c)) == len(c), 'an item occurs twice in cluster %s', short(c))
        check(lo <= len(c) <= hi, 'cluster %s is not of a viable size', short(c))
        lead, rest = c[0], set(c[1:])
        check(rest == adj[lead], 'cluster %s: the items similar to its first item are %s', short(c), sorted(adj[lead]))
        check(lead not in seen, 'cluster %s starts with an item of a previous cluster', short(c))
        seen |= rest
        member |= rest
        member.add(lead)
    leads = [c[0] for c in clusters]
    check(len(leads) == len(set(leads)), 'two clusters have the same first item: %s', short(clusters))
    for i in range(n):
        if adj[i] and lo <= len(adj[i]) + 1 <= hi:
            check(i in member, 'item %d has %d similar items but is in no cluster', i, len(adj[i]))


def leader_model(n, edges, lo=2, hi=INF):
    """The leader algorithm, over indices."""
    adj = neighborhoods(n, edges)
    done = set()
    out = []
    for i in range(n):
        if i in done:
            continue
        mine = [j for j in range(i + 1, n) if j not in done and j in adj[i]]
        if not mine or len(mine) + 1 > hi:
            continue
        done.update(mine)
        if len(mine) + 1 >= lo:
            out.append([i] + mine)
    return out
