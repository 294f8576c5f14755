"""C10: quickjoin and vp_tree return what exhaustive comparison returns in a metric space."""
import random
from collections import Counter

from lib.engine import Test, check, lst, short
from lib import clus, gens, parallel
from lib.models import lev

from fog.clustering import quickjoin, vp_tree

SOURCES = ['fog/clustering/quickjoin.py', 'fog/clustering/vp_tree.py', 'fog/clustering/utils.py']
RULE = ('Finite metric spaces (integers, grid points under L1 and Linf, strings under Levenshtein, shortest paths of '
        'random weighted graphs, the discrete metric), block sizes from 2 so that partitioning recurses; non-trivial = '
        'at least one pair within the radius and one pair beyond it.')
ASSUMPTIONS = ['The distance is a true metric with exactly representable values; a similarity is 1 minus such a metric.',
               'Items given to quickjoin are distinct and hashable, 0 < beta <= 1.',
               'Only min_size >= 2.']


def space(d, hi):
    """(items, metric over items, name): distinct hashable items."""
    kind = d.int(0, 6)
    if kind == 0:
        # Below zero too, where -1 and -2 share a hash
        low = d.choice((0, 0, -3, -30))
        items = list(dict.fromkeys(d.list(lambda: low + d.int(0, 60), 0, hi)))
        return items, (lambda a, b: abs(a - b)), 'integers'
    if kind == 1:
        low = d.choice((0, 0, -3, -6))
        items = list(dict.fromkeys(d.list(lambda: (low + d.int(0, 12), low + d.int(0, 12)), 0, hi)))
        return items, (lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])), 'L1'
    if kind == 2:
        low = d.choice((0, 0, -3, -6))
        items = list(dict.fromkeys(d.list(lambda: (low + d.int(0, 12), low + d.int(0, 12)), 0, hi)))
        return items, (lambda a, b: max(abs(a[0] - b[0]), abs(a[1] - b[1]))), 'Linf'
    if kind == 3:
        items = list(dict.fromkeys(gens.words_like(d, 0, min(hi, 14), hi=6)))
        cache = {}

        def dist(a, b):
            v = cache.get((a, b))
            if v is None:
                v = cache[(a, b)] = cache[(b, a)] = lev(a, b)
            return v
        return items, dist, 'levenshtein'
    if kind == 4:
        n = d.int(0, min(hi, 12))
        M = [[0 if i == j else 40 for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                if d.bool(0.4):
                    M[i][j] = M[j][i] = d.int(1, 8)
        for k in range(n):
            for i in range(n):
                for j in range(n):
                    if M[i][k] + M[k][j] < M[i][j]:
                        M[i][j] = M[i][k] + M[k][j]
        items = ['n%d' % i for i in range(n)]
        return items, (lambda a, b: M[int(a[1:])][int(b[1:])]), 'graph'
    if kind == 6:
        # Sets: not ordered, or partially
        items = list(dict.fromkeys(d.list(lambda: frozenset(d.list(lambda: d.int(0, 7), 0, 5)), 0, hi)))
        return items, (lambda a, b: len(a ^ b)), 'sets'
    items = list(range(d.int(0, min(hi, 10))))
    return items, (lambda a, b: 0 if a == b else 2), 'discrete'


def large_space(d, lo, hi):
    """More items of a cheap metric space, drawn from a seed."""
    n = clus.size(d, lo, hi)
    kind = d.int(0, 3)
    rng = random.Random(d.int(0, 1 << 20))
    spread = rng.choice((1, 2, 8))
    if kind == 0:
        items = [rng.randrange(n * spread + 1) for _ in range(n)]
        dist, name = (lambda a, b: abs(a - b)), 'many integers'
    elif kind == 1:
        side = int((n * spread) ** 0.5) + 1
        items = [(rng.randrange(side), rng.randrange(side)) for _ in range(n)]
        dist, name = (lambda a, b: max(abs(a[0] - b[0]), abs(a[1] - b[1]))), 'many points'
    elif kind == 3:
        # Any symmetric choice of 1 or 2 is a metric: partitions are as uneven as can be
        near = set()
        for _ in range(rng.choice((n // 8, n, 4 * n))):
            near.add((rng.randrange(n), rng.randrange(n)) if n else 0)
        items = [(i,) for i in range(n)]
        rng.shuffle(items)
        dist = (lambda a, b: 0 if a == b else 1 if (a[0], b[0]) in near or (b[0], a[0]) in near else 2)
        name = 'near or far'
    else:
        # Hamming distance of bit masks
        items = [rng.getrandbits(rng.choice((8, 12, 16))) for _ in range(n)]
        dist, name = (lambda a, b: bin(a ^ b).count('1')), 'many bit masks'
    return list(dict.fromkeys(items)), dist, name


def scaled(d, dist, radius):
    """The same space in other units, by a power of two: distances stay exact."""
    if not d.bool(0.3):
        return dist, radius
    unit = 2.0 ** d.choice((-1, -4, -10, -24, -40, 20))
    return (lambda a, b: dist(a, b) * unit), radius * unit


def edges_of(items, dist, radius):
    n = len(items)
    return set((i, j) for i in range(n) for j in range(i + 1, n) if dist(items[i], items[j]) <= radius)


def note(d, name, items, edges, radius):
    n = len(items)
    d.label(name)
    if edges and len(edges) < n * (n - 1) // 2:
        d.nontrivial((name, tuple(items), radius))


def options(d):
    kw = {}
    if d.bool(0.9):
        kw['block_size'] = d.weighted(((1, 1), (4, 2), (3, 3), (2, 4), (1, 5), (1, 8), (1, 15)))
    if d.bool(0.7):
        kw['seed'] = d.int(0, 1000)
    if d.bool(0.3):
        kw['beta'] = d.choice((0.5, 0.75, 0.25, 1.0))
    if d.bool(0.4):
        kw['vp_tree'] = True
    return kw


def run_quickjoin(d, items, radius_kw, edges, shown, default=False):
    index = dict((x, i) for i, x in enumerate(items))
    n = len(items)
    bkw, lo, hi = clus.bounds(d, n)
    kw = options(d)
    if default:
        kw.pop('block_size', None)
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    random.seed(d.int(0, 1000))
    x, form = clus.container(d, items)
    d.show(dict(shown, options=dict(kw, **bkw), form=form))
    before = list(items)
    with parallel.maybe(d, 0.05 if n < 100 else 0) as pkw:
        clusters = lst(quickjoin, x, **dict(radius_kw, **dict(kw, **dict(bkw, **pkw))))
    check(items == before, 'the data was modified')
    got = [[index[x] for x in c] for c in clusters]
    if mode == 'connected_components':
        clus.check_components(got, n, edges, lo, hi)
    else:
        clus.check_fuzzy(got, n, edges, lo, hi)


def quickjoin_distance(d):
    items, dist, name = space(d, 34)
    radius = d.int(0, 6)
    dist, radius = scaled(d, dist, radius)
    d.show({'space': name, 'items': items, 'radius': radius})
    edges = edges_of(items, dist, radius)
    note(d, name, items, edges, radius)
    run_quickjoin(d, items, {'distance': dist, 'radius': radius}, edges, d.case)


def quickjoin_similarity(d):
    items, dist, name = space(d, 34)
    # With 64, and the first unit, everything is similar
    r = d.int(0, 6) if d.bool(0.95) else 64
    # Similarities are multiples of 1/64, or of some smaller power of two: 1 - s is exact
    unit = 2.0 ** -d.choice((6, 6, 6, 16, 30, 40))
    radius = 1 - r * unit
    d.show({'space': name, 'items': items, 'similarity radius': radius})
    edges = edges_of(items, dist, r)
    note(d, name, items, edges, radius)
    run_quickjoin(d, items, {'similarity': lambda a, b: 1 - dist(a, b) * unit, 'radius': radius}, edges, d.case)


def large(d):
    """More items than one block, whatever its size."""
    if d.bool(0.3):
        vp_on(d, *large_space(d, 40, 160))
        return
    default = d.bool(0.15)
    items, dist, name = large_space(d, 505, 640) if default else large_space(d, 40, 160)
    radius = d.int(0, 3)
    d.show({'space': name, 'items': items, 'radius': radius})
    edges = edges_of(items, dist, radius)
    note(d, name, items, edges, radius)
    run_quickjoin(d, items, {'distance': dist, 'radius': radius}, edges, d.case, default)


def long_chain(d):
    """More than a thousand items in a single component."""
    n = clus.size(d, 2500, 3200)
    items = list(range(n))
    if d.bool(0.7):
        random.Random(d.int(0, 1 << 20)).shuffle(items)
    radius = d.int(1, 2)
    dist = (lambda a, b: abs(a - b))
    d.show({'space': 'chain', 'n': n, 'first': items[:5], 'radius': radius})
    index = dict((x, i) for i, x in enumerate(items))
    edges = set((min(index[x], index[y]), max(index[x], index[y])) for x in range(n) for y in range(x + 1, min(n, x + radius + 1)))
    note(d, 'chain', items, edges, radius)
    run_quickjoin(d, items, {'distance': dist, 'radius': radius}, edges, d.case, d.bool())


def vp(d):
    """vp_tree: balls around the successive items not yet drawn in a cluster."""
    vp_on(d, *space(d, 30))


def vp_on(d, items, dist, name):
    if items and d.bool(0.3):
        items = items + [d.choice(items) for _ in range(d.int(1, 3))]
    dist, radius = scaled(d, dist, d.int(0, 6))
    bkw, lo, hi = clus.bounds(d, len(items))
    d.show({'space': name, 'items': items, 'radius': radius, 'bounds': bkw})
    edges = edges_of(items, dist, radius)
    note(d, name, items, edges, radius)
    random.seed(d.int(0, 1000))
    x, form = clus.container(d, items)
    clusters = lst(vp_tree, x, dist, radius, **bkw)
    want = []
    seen = set()
    for a in items:
        if a in seen:
            continue
        ball = [b for b in items if dist(a, b) <= radius]
        if len(ball) < lo or len(ball) > hi:
            continue
        seen.update(ball)
        want.append(ball)
    got = Counter(tuple(sorted(map(repr, c))) for c in clusters)
    exp = Counter(tuple(sorted(map(repr, c))) for c in want)
    check(got == exp, 'clusters are %s, the balls are %s', short(clusters), short(want))


TESTS = [
    Test(quickjoin_distance, 12000, 300000),
    Test(quickjoin_similarity, 8000, 200000),
    Test(vp, 8000, 200000),
    Test(large, 250, 6000),
    Test(long_chain, 16, 300, cpu=120),
]
