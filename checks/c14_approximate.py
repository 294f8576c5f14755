"""C14: minhash and nn_descent clusterers: no false link, reproducible, exact when they cannot miss."""
import random
import sys
from math import comb

from lib.engine import Test, call, check, lst, short
from lib import clus
from lib.models import components

from fog.clustering import minhash, nn_descent, nn_descent_full

# Helpers no one is bound to keep
MODULE = sys.modules['fog.clustering.minhash']
guess_bands, match_probability, similarity_threshold = (getattr(MODULE, x, None) for x in (
    'guess_bands', 'match_probability', 'similarity_threshold'))

SOURCES = ['fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/clustering/utils.py', 'fog/lsh/minhash.py']
RULE = ('Token sets in families (minhash) and arbitrary symmetric similarities or distances over a few points '
        '(nn_descent), seeded; non-trivial = at least one pair above the radius and one below.')
ASSUMPTIONS = ['minhash: items are distinct, hashable and their token sets are not empty.',
               'minhash: a pair is required to be found only if its probability to be missed is below 1e-12 '
               '(equal token sets always are).',
               'nn_descent: symmetric similarity, k >= 1, 0 < rho <= 1, delta > 0; exactness is only required when k is at least n - 1.',
               'nn_descent over 40 to 220 points of a space of 1 to 3 dimensions, k from 6 to 10: 80% of the points having a neighbor '
               'must be linked (all of them are in 500 trials out of 500, and about one in five would be without descent).']


def linked_soundly(clusters, n, edges):
    """Disjoint clusters, each one connected by pairs that really are similar."""
    seen = set()
    for c in clusters:
        check(len(c) >= 2 and len(set(c)) == len(c), 'malformed cluster %s', short(c))
        check(not seen & set(c), 'an item is in two clusters: %s', short(clusters))
        seen |= set(c)
        local = dict((x, i) for i, x in enumerate(c))
        inner = [(local[i], local[j]) for i, j in edges if i in local and j in local]
        check(len(components(len(c), inner)) == 1, 'cluster %s is not connected by similar pairs', short(c))


def canon(clusters):
    return sorted(sorted(c) for c in clusters)


def optimal_bands(h, radius):
    """Smallest number of bands whose threshold is not over the radius."""
    b = 1
    while b < h and (1 / b) ** (b / h) > radius:
        b += 1
    return b


def bands(d):
    """The helpers relating h, bands and similarity."""
    h = d.int(1, d.wide(300))
    b = d.int(1, h)
    s = d.int(0, 100) / 100
    d.show({'h': h, 'bands': b, 'similarity': s})
    d.nontrivial((h, b, s))
    if None in (guess_bands, match_probability, similarity_threshold):
        return
    got = call(match_probability, h, b, s)
    check(abs(got - (1 - (1 - s ** (h / b)) ** b)) < 1e-9, 'probability of a match is %r', got)
    got = call(similarity_threshold, h, b)
    check(abs(got - (1 / b) ** (b / h)) < 1e-9, 'threshold is %r', got)
    for t in (s, (1 / b) ** (b / h) * 1.000001):
        got = call(guess_bands, h, t)
        check(got == optimal_bands(h, t), '%r bands for threshold %s, expected %d', got, t, optimal_bands(h, t))


def least_successes(n, p):
    """Largest m such that fewer than m successes over n have a probability below 1e-12 (p being slightly reduced)."""
    if p < 1:
        p *= 0.98
    total = 0
    for m in range(n + 1):
        total += comb(n, m) * p ** m * (1 - p) ** (n - m)
        if total > 1e-12:
            return m
    return n


def minhash_recall(d):
    """Similar pairs are found as often as the number of bands tells."""
    inter, each = d.int(2, 30), d.int(0, 4)
    J = inter / (inter + 2 * each)
    radius = d.choice((0.8, 0.5, 0.3, 0.6, 0.9))
    if J < radius:
        each = 0 if radius == 0.9 else 1
        inter = max(inter, 18)
        J = inter / (inter + 2 * each)
    h = d.choice((256, 64, 100, 128))
    b = optimal_bands(h, radius)
    kw = {'seed': d.int(0, 10 ** 6), 'radius': radius, 'h': h, 'use_numpy': d.bool(0.7)}
    if d.bool(0.3):
        b = kw['bands'] = d.choice((h // 2, h // 4, h // 8))
    if h == 256 and d.bool():
        del kw['h']
    tag = d.int(0, 10 ** 6)
    pairs = 40
    docs = []
    for p in range(pairs):
        common = ['%d.%d.%d' % (tag, p, i) for i in range(inter)]
        for side in 'ab':
            docs.append((p, tuple(common + ['%d.%d.%s%d' % (tag, p, side, i) for i in range(each)])))
    d.show({'jaccard': J, 'options': kw, 'bands': b, 'tag': tag})
    d.label('jaccard %.1f' % J)
    docs = d.shuffled(docs)
    if J < 1:
        d.nontrivial((inter, each, repr(kw), tag))
    clusters = lst(minhash, docs if J < 1 else [(p, t, i) for i, (p, t) in enumerate(docs)], key=lambda x: list(x[1]), **kw)
    check(all(len(c) == 2 and c[0][0] == c[1][0] for c in clusters), 'unrelated documents are together')
    P = 1 - (1 - J ** (h // b)) ** b
    least = least_successes(pairs, P)
    check(len(clusters) >= least, '%d pairs of similarity %s are found over %d, at least %s are expected', len(clusters), J, pairs, least)


def minhash_clusters(d):
    vocab = ['%s%s' % (a, b) for a in 'abcdefgh' for b in 'xyzuvw']
    roots = d.list(lambda: d.list(lambda: d.choice(vocab), 1, d.wide(14, 4)), 1, 3)

    def doc():
        r = list(d.choice(roots))
        for _ in range(d.int(0, 3)):
            if d.bool():
                r.append(d.choice(vocab))
            else:
                r[d.int(0, len(r) - 1)] = d.choice(vocab)
        return r
    docs = d.list(doc, 0, d.wide(7))
    n = len(docs)
    chars = d.bool(0.3)
    if chars:
        docs = [sorted(set(t[0] for t in x)) for x in docs]
    sets = [set(x) for x in docs]
    radius = d.choice((0.8, 0.5, 0.3, 0.6, 0.9, 1.0, 0.01, 2 / 3, 0.001))
    h = d.choice((32, 64, 16, 256, 1, 7, 100)) if d.bool(0.8) else None
    hh = h or 256
    bands = None
    if d.bool(0.5):
        bands = d.choice([b for b in (hh, max(1, hh // 2), max(1, hh // 3), 1, max(1, hh // 8)) if b <= hh])
    kw = {'seed': d.int(0, 100)}
    if h is not None:
        kw['h'] = h
    if bands is not None:
        kw['bands'] = bands
    if d.bool(0.3):
        kw['use_numpy'] = True
    if radius != 0.8 or d.bool():
        kw['radius'] = radius
    d.show({'documents': docs, 'options': kw})
    edges, must = set(), set()
    for i in range(n):
        for j in range(i + 1, n):
            J = len(sets[i] & sets[j]) / len(sets[i] | sets[j])
            if J >= radius:
                edges.add((i, j))
                if J == 1.0:
                    must.add((i, j))
                else:
                    b = bands or optimal_bands(hh, radius)
                    rows = hh // b
                    if (1 - J ** rows) ** b < 1e-12:
                        must.add((i, j))
    if edges and len(edges) < n * (n - 1) // 2:
        d.nontrivial((tuple(map(tuple, docs)), repr(sorted(kw.items()))))
    d.label('must find %d' % min(3, len(must)))
    data = [(i, tuple(x)) for i, x in enumerate(docs)]
    if chars and d.bool():
        kw['key'] = lambda item: ''.join(item[1])
    else:
        kw['key'] = lambda item: list(item[1])
    x, form = clus.container(d, data)
    clusters = [[i for i, _ in c] for c in lst(minhash, x, **kw)]
    linked_soundly(clusters, n, edges)
    where = {}
    for c in clusters:
        for i in c:
            where[i] = c[0]
    for i, j in must:
        check(i in where and where.get(i) == where.get(j), 'documents %d and %d (jaccard %s) are not together: %s', i, j,
              len(sets[i] & sets[j]) / len(sets[i] | sets[j]), short(clusters))
    again = [[i for i, _ in c] for c in lst(minhash, data, **kw)]
    check(canon(again) == canon(clusters), 'the same seed gives %s then %s', short(clusters), short(again))


def minhash_no_key(d):
    """Without a key, items are the token sets themselves (strings or tuples)."""
    words = list(dict.fromkeys(d.list(lambda: d.text('abcde', 1, 7), 0, d.wide(6))))
    radius = d.choice((0.8, 0.5, 1.0))
    seed = d.int(0, 100)
    tuples = d.bool()
    d.show({'words': words, 'radius': radius, 'tuples': tuples})
    data = [tuple(w) for w in words] if tuples else words
    n = len(words)
    J = {}
    for i in range(n):
        for j in range(i + 1, n):
            a, b = set(words[i]), set(words[j])
            J[(i, j)] = len(a & b) / len(a | b)
    edges = set(k for k, v in J.items() if v >= radius)
    if edges:
        d.nontrivial((tuple(words), radius, tuples))
    index = dict((x, i) for i, x in enumerate(data))
    got = [[index[x] for x in c] for c in lst(minhash, data, radius=radius, seed=seed, h=64)]
    linked_soundly(got, n, edges)
    where = dict((i, c[0]) for c in got for i in c)
    for k, v in J.items():
        if v == 1.0:
            check(where.get(k[0], -1) == where.get(k[1], -2), 'equal token sets %s are not together: %s', k, short(got))


def nn(d):
    n = d.int(0, d.wide(12, 3))
    form = d.choice(('similarity', 'distance'))
    values = {}
    for i in range(n):
        for j in range(i + 1, n):
            values[(i, j)] = values[(j, i)] = d.int(0, 8)
    for i in range(n):
        values[(i, i)] = 8 if form == 'similarity' else 0
    radius = d.int(0, 8)
    fn = d.choice((nn_descent, nn_descent_full))
    bkw, lo, hi = clus.bounds(d, n)
    kw = dict(bkw, seed=d.int(0, 100), radius=radius)
    k = None
    if d.bool(0.8):
        k = d.choice((max(1, n - 1), 1, 2, 3, n + 2))
        kw['k'] = k
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    if fn is nn_descent_full:
        if d.bool(0.3):
            kw['rho'] = d.choice((1.0, 0.5, 0.25))
        if d.bool(0.3):
            kw['delta'] = d.choice((0.001, 0.1))
    kind = d.int(0, 2)
    if kind == 0:
        items, ident = list(range(n)), (lambda x: x)
    elif kind == 1:
        items, ident = ['s%d' % i for i in range(n)], (lambda x: int(x[1:]))
    else:
        items, ident = [[i] for i in range(n)], (lambda x: x[0])
    kw[form] = lambda a, b: values[(ident(a), ident(b))]
    edges = set((i, j) for i in range(n) for j in range(i + 1, n)
                if (values[(i, j)] >= radius if form == 'similarity' else values[(i, j)] <= radius))
    if edges and len(edges) < n * (n - 1) // 2:
        d.nontrivial((n, repr(sorted(values.items())), radius, form, fn.__name__, k, mode))
    exact = k is not None and k >= n - 1
    d.label(fn.__name__ + (' exact' if exact else ' approximate'))
    x, name = clus.container(d, items)
    d.show({'fn': fn.__name__, 'n': n, form: sorted((k_, v) for k_, v in values.items() if k_[0] < k_[1]), 'radius': radius,
            'k': k, 'mode': mode, 'bounds': bkw, 'rho': kw.get('rho'), 'delta': kw.get('delta'), 'seed': kw['seed'], 'form': name})
    clusters = [[ident(x) for x in c] for c in lst(fn, x, **kw)]
    for c in clusters:
        check(lo <= len(c) <= hi, 'cluster %s is not of a viable size', short(c))
    if mode == 'connected_components':
        linked_soundly(clusters, n, edges)
        if exact:
            clus.check_components(clusters, n, edges, lo, hi)
    else:
        adj = clus.neighborhoods(n, edges)
        for c in clusters:
            check(len(set(c)) == len(c), 'an item occurs twice in cluster %s', short(c))
            for y in c[1:]:
                check(y in adj[c[0]], 'cluster %s: %s is not similar to %s', short(c), y, c[0])
        if exact:
            clus.check_fuzzy(clusters, n, edges, lo, hi)
    again = [[ident(x) for x in c] for c in lst(fn, list(items), **kw)]
    check(canon(again) == canon(clusters), 'the same seed gives %s then %s', short(clusters), short(again))


def nn_finds(d):
    """Well separated groups of equal points are recovered with a generous k."""
    groups = d.list(lambda: d.int(2, 4), 2, 4)
    fn = d.choice((nn_descent, nn_descent_full))
    items = [(g, i) for g, size in enumerate(groups) for i in range(size)]
    items = d.shuffled(items)
    seed = d.int(0, 1000)
    d.show({'groups': groups, 'items': items, 'fn': fn.__name__, 'seed': seed})
    d.nontrivial((tuple(items), seed, fn.__name__))
    clusters = lst(fn, items, radius=1, distance=lambda a, b: 0 if a[0] == b[0] else 10 + abs(a[0] - b[0]), k=len(items) - 1, seed=seed)
    got = sorted(sorted(c) for c in clusters)
    want = sorted(sorted(x for x in items if x[0] == g) for g in range(len(groups)))
    check(got == want, 'clusters are %s, the groups are %s', short(got), short(want))


def nn_recall(d):
    """Points of a space: the descent finds nearly all of the nearest neighbors, where random samples would find few."""
    fn = d.choice((nn_descent, nn_descent_full))
    if d.bool(0.6):
        n, k, dims = d.int(40, 80), d.int(6, 10), d.int(1, 3)
    else:
        n, k, dims = d.int(150, 220), d.int(6, 8), d.int(1, 2)
    seed = d.int(0, 10 ** 6)
    rng = random.Random(seed)
    points = [(i,) + tuple(rng.random() for _ in range(dims)) for i in range(n)]
    d.show({'fn': fn.__name__, 'n': n, 'k': k, 'dimensions': dims, 'seed': seed})
    d.nontrivial((fn.__name__, n, k, dims, seed))

    def dist(a, b):
        return sum((a[i] - b[i]) ** 2 for i in range(1, dims + 1))
    nearest = [min(dist(p, q) for q in points if q is not p) for p in points]
    radius = sorted(nearest)[n * 3 // 4]
    kw = {'distance': dist, 'radius': radius} if d.bool() else {'similarity': lambda a, b: -dist(a, b), 'radius': -radius}
    found = set(p[0] for c in lst(fn, points, k=k, seed=d.int(0, 1000), **kw) for p in c)
    want = [i for i in range(n) if nearest[i] <= radius]
    hits = sum(i in found for i in want)
    check(hits >= 0.8 * len(want), '%s links only %d of the %d points having a neighbor within the radius', fn.__name__, hits, len(want))


TESTS = [
    Test(nn_recall, 120, 3000),
    Test(minhash_clusters, 2400, 60000),
    Test(minhash_no_key, 2000, 40000),
    Test(bands, 4000, 40000),
    Test(minhash_recall, 300, 8000),
    Test(nn, 12000, 300000),
    Test(nn_finds, 2000, 40000),
]
