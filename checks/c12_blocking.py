"""C12: blocking and key_collision against their definitions."""
import random
from collections import Counter

from lib.engine import Test, check, lst, short
from lib import clus, parallel

from fog.clustering import blocking, key_collision

SOURCES = ['fog/clustering/blocking.py', 'fog/clustering/key_collision.py', 'fog/clustering/utils.py']
RULE = ('Distinct items with arbitrary block/key assignments (several, repeated, falsey or no key per item) and '
        'arbitrary symmetric relations; non-trivial = two items share a block or key, and (blocking) at least one pair '
        'sharing a block is not similar or one similar pair shares no block.')
ASSUMPTIONS = ['Items are distinct and hashable.', 'The similarity relation is symmetric.', 'min_size >= 2.']

KEYS = ('k1', 'k2', 'k3', 'k4', 7, ('t', 1))
# Equal ones of different types, different ones written alike, truthy ones made of falsey ones
ODD = (1, 1.0, True, '1', '1.0', 'True', ('',), (0,), ' ', '0', 'None', None, False, 0.0, frozenset((0,)), -1, float('inf'))
FALSEY = (None, '', 0, ())


def items_of(d, n):
    kind = d.int(0, 2)
    if kind == 0:
        return list(range(n)), lambda x: x
    if kind == 1:
        return ['s%d' % i for i in range(n)], lambda x: int(x[1:])
    return [('t', i) for i in range(n)], lambda x: x[1]


def as_iterable(d, values):
    k = d.int(0, 5)
    if k == 4:
        return lambda: dict.fromkeys(values)
    if k == 5 and values and all(isinstance(v, str) and len(v) == 1 for v in values):
        # A string is an iterable too
        return lambda: ''.join(values)
    if k == 0:
        return lambda: list(values)
    if k == 1:
        return lambda: tuple(values)
    if k == 2:
        return lambda: (v for v in values)
    return lambda: set(values)


def block(d):
    n, edges = clus.graph(d, d.choice((6, 14, 24)))
    multiple = d.bool()
    pool = d.choice((KEYS + FALSEY[:3], ODD, 'abcde'))
    if multiple:
        assigned = [d.list(lambda: d.choice(pool), 0, 4) for _ in range(n)]
    else:
        assigned = [[d.choice(pool)] for _ in range(n)]
    block_on(d, n, edges, multiple, assigned)


def large_assignment(d, n, multiple):
    rng = random.Random(d.int(0, 1 << 20))
    m = rng.choice((2, 5, 20, 80))
    if multiple:
        return [[rng.randrange(m) for _ in range(rng.choice((0, 1, 2, 3, 12)))] for _ in range(n)]
    return [[rng.randrange(m)] for _ in range(n)]


def large(d, lo=40, hi=150):
    """More items, larger and more numerous blocks and buckets."""
    multiple = d.bool()
    if d.bool():
        n, edges = clus.big_graph(d, lo, hi)
        block_on(d, n, edges, multiple, large_assignment(d, n, multiple))
    else:
        n = clus.size(d, lo, hi)
        variant = 'key' if not multiple else d.choice(('keys merged', 'keys unmerged'))
        collision_on(d, n, variant, large_assignment(d, n, multiple))


def huge(d):
    large(d, 250, 700)


def long_chain(d):
    """More than a thousand items in a single component."""
    n, edges = clus.long_chain(d)
    if d.bool():
        multiple = d.bool()
        block_on(d, n, edges, multiple, [[1] if not multiple else [1, i % 3 + 2] for i in range(n)])
    else:
        assigned = [[] for _ in range(n)]
        for k, (i, j) in enumerate(sorted(edges)):
            assigned[i].append(k + 1)
            assigned[j].append(k + 1)
        collision_on(d, n, 'keys merged', assigned)


def block_on(d, n, edges, multiple, assigned):
    items, ident = items_of(d, n)
    kw = clus.relation(d, edges, ident)
    if multiple:
        makers = [as_iterable(d, a) for a in assigned]
        kw['blocks'] = lambda item: makers[ident(item)]()
    else:
        kw['block'] = lambda item: assigned[ident(item)][0]
    bkw, lo, hi = clus.bounds(d, n)
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    together = set((i, j) for i in range(n) for j in range(i + 1, n) if set(assigned[i]) & set(assigned[j]))
    found = edges & together
    if together and (edges - together or together - edges):
        d.nontrivial((n, tuple(sorted(edges)), tuple(map(tuple, assigned)), mode, lo, hi))
    d.label('multiple' if multiple else 'single')
    x, form = clus.container(d, items)
    d.show({'n': n, 'edges': sorted(edges), 'blocks': assigned, 'mode': mode, 'bounds': bkw, 'radius': kw.get('radius'),
            'by': sorted(k for k in kw if k in ('similarity', 'distance', 'block', 'blocks')), 'form': form})
    with parallel.maybe(d) as pkw:
        clusters = lst(blocking, x, **dict(kw, **dict(bkw, **pkw)))
    got = [[ident(x) for x in c] for c in clusters]
    if mode == 'connected_components':
        clus.check_components(got, n, found, lo, hi)
    else:
        clus.check_fuzzy(got, n, found, lo, hi)


def collision(d):
    n = d.int(0, 16)
    variant = d.choice(('key', 'keys merged', 'keys unmerged'))
    pool = d.choice((KEYS + FALSEY, ODD, 'abcde'))
    if variant == 'key':
        assigned = [[d.choice(pool)] for _ in range(n)]
    else:
        assigned = [d.list(lambda: d.choice(pool), 0, 3) for _ in range(n)]
    collision_on(d, n, variant, assigned)


def collision_on(d, n, variant, assigned):
    items, ident = items_of(d, n)
    bkw, lo, hi = clus.bounds(d, n)
    kw = dict(bkw)
    if variant == 'key':
        kw['key'] = lambda item: assigned[ident(item)][0]
        if d.bool(0.3):
            kw['merge'] = d.bool()
    else:
        makers = [as_iterable(d, a) if a or d.bool() else (lambda: None) for a in assigned]
        kw['keys'] = lambda item: makers[ident(item)]()
        if variant == 'keys unmerged':
            kw['merge'] = False
        elif d.bool():
            kw['merge'] = True
    buckets = {}
    for i, ks in enumerate(assigned):
        for k in ks:
            if k:
                buckets.setdefault(k, set()).add(i)
    edges = set((i, j) for b in buckets.values() for i in b for j in b if i < j)
    if edges:
        d.nontrivial((variant, tuple(map(tuple, assigned)), lo, hi))
    d.label(variant)
    x, form = clus.container(d, items)
    d.show({'keys': assigned, 'variant': variant, 'bounds': bkw, 'form': form})
    clusters = [[ident(x) for x in c] for c in lst(key_collision, x, **kw)]
    if variant == 'keys merged':
        clus.check_components(clusters, n, edges, lo, hi)
    else:
        for c in clusters:
            check(len(set(c)) == len(c), 'an item occurs twice in cluster %s', short(c))
        got = Counter(frozenset(c) for c in clusters)
        want = Counter(frozenset(b) for b in buckets.values() if lo <= len(b) <= hi)
        check(got == want, 'clusters are %s, the viable buckets are %s', short(clusters), short([sorted(b) for b in want.elements()]))


TESTS = [
    Test(block, 16000, 500000),
    Test(collision, 16000, 500000),
    Test(large, 400, 12000),
    Test(huge, 32, 1000, cpu=120),
    Test(long_chain, 16, 300, cpu=120),
]
