"""C32: nearest neighbors by Fagin's algorithms and candidate pairs of sparse vectors are exact."""
import math
import random
from collections import Counter
from math import fsum, sqrt

from lib import clus
from lib.engine import Test, check, lst, short

from fog.clustering import fagin
from fog.clustering.fagin import fagin_k1, naive_cosine_pairs, threshold_algorithm_k1

sqrt_indexation_pairs = getattr(fagin, 'sqrt_indexation_pairs', None)

SOURCES = ['fog/clustering/fagin.py', 'fog/metrics/cosine.py']
RULE = ('Lists of sparse vectors of positive weights over a few dimensions (skewed weights and lengths, repeated vectors, empty vectors, '
        'dimensions held by one vector only); non-trivial = some vector has several others of different positive similarities.')
ASSUMPTIONS = ['Weights are positive and are not negligible compared to each other (between 1/8 and 60).',
               'Similarities closer than 1e-9 are equal; fagin_k1 is only asked about what it yields.']


def vectors(d):
    dims = 'abcdefgh'[:d.int(1, 8)]
    kind = d.int(0, 3)

    def weight():
        if kind == 0:
            return 1
        if kind == 1:
            return d.int(1, 3)
        if kind == 2:
            return d.choice((1, 60, 2, 0.125, 7))
        return d.int(1, 40) / 4
    out = []
    for _ in range(d.int(0, d.wide(d.wide(12, 4), 4, 0.1))):
        if out and d.bool(0.1):
            out.append(dict(d.choice(out)))
        elif d.bool(0.04):
            out.append({})
        else:
            chosen = [x for x in d.shuffled(dims) if d.bool()] or [d.choice(dims)]
            out.append(dict((x, weight()) for x in chosen))
    if d.bool(0.5):
        out = [Counter(v) for v in out]
    return out


def cosine(A, B):
    if not A or not B:
        return 0.0
    return fsum(w * B[x] for x, w in A.items() if x in B) / sqrt(fsum(w * w for w in A.values()) * fsum(w * w for w in B.values()))


def table(d, V):
    n = len(V)
    S = [[cosine(V[i], V[j]) for j in range(n)] for i in range(n)]
    if any(len(set(round(S[i][j], 9) for j in range(n) if j != i and S[i][j] > 0)) > 2 for i in range(n)):
        d.nontrivial(repr(V))
    return S


def nearest(d):
    V = vectors(d)
    n = len(V)
    d.show({'vectors': V})
    S = table(d, V)
    before = repr(V)
    got = lst(threshold_algorithm_k1, V)
    check([i for i, _ in got] == list(range(n)), 'queries are %s over %d vectors', short([i for i, _ in got]), n)
    for i, j in got:
        best = max([S[i][k] for k in range(n) if k != i] or [0.0])
        if best == 0:
            check(j == i or S[i][j] == 0, 'vector %d, similar to no other, gets %d', i, j)
        else:
            check(j != i, 'vector %d gets itself while others are similar to it', i)
            check(S[i][j] >= best - 1e-9, 'vector %d gets %d, of similarity %s, the nearest has %s', i, j, S[i][j], best)
    check(repr(V) == before, 'vectors were changed')


def candidates(d):
    V = vectors(d)
    n = len(V)
    d.show({'vectors': V})
    S = table(d, V)
    before = repr(V)
    got = lst(fagin_k1, V)
    ids = [i for i, _ in got]
    check(ids == sorted(set(ids)) and all(0 <= i < n for i in ids), 'queries are %s over %d vectors', short(ids), n)
    for i, c in got:
        check(i not in c and len(set(c)) == len(c), 'candidates of %d are %s', i, short(c))
        check(all(S[i][j] > 0 for j in c), 'candidates %s of %d share no dimension with it', short(c), i)
        best = max([S[i][k] for k in range(n) if k != i] or [0.0])
        mine = max([S[i][k] for k in c] or [0.0])
        check(mine >= best - 1e-9, 'candidates of %d are %s, the best has similarity %s, the nearest has %s', i, short(c), mine, best)
    # Vectors having every dimension of another are answers
    for i in range(n):
        if V[i] and any(j != i and set(V[i]) <= set(V[j]) for j in range(n)):
            check(i in ids, 'vector %d gets no candidate although another has all of its dimensions', i)
    check(repr(V) == before, 'vectors were changed')


def pairs(d):
    V = vectors(d)
    n = len(V)
    d.show({'vectors': V})
    table(d, V)
    got = lst(naive_cosine_pairs, V)
    flat = [(max(p), min(p)) for p in got]
    check(len(set(flat)) == len(flat), 'a pair is yielded twice: %s', short(got))
    want = set((i, j) for i in range(n) for j in range(i) if set(V[i]) & set(V[j]))
    check(set(flat) == want, 'pairs are %s, those sharing a dimension are %s', short(sorted(flat)), short(sorted(want)))


def leaders(d):
    """Pairs made of each vector & its nearest leader, and of the vectors having a same leader."""
    V = vectors(d)
    n = len(V)
    random.seed(d.int(0, 1000))
    d.show({'vectors': V})
    if not sqrt_indexation_pairs:
        return
    S = table(d, V)
    got = lst(sqrt_indexation_pairs, V)
    check(all(isinstance(i, int) and 0 <= i < n and 0 <= j < n for i, j in got), 'pairs are %s over %d vectors', short(got), n)
    leader = {}
    for i, j in got:
        leader.setdefault(i, j)
    check(sorted(leader) == list(range(n)), 'vectors having a leader are %s out of %d', short(sorted(leader)), n)
    L = set(leader.values())
    check(len(L) <= math.isqrt(n), '%d leaders over %d vectors', len(L), n)
    for i in range(n):
        best = max(S[i][k] for k in L)
        check(S[i][leader[i]] >= best - 1e-9, 'the leader of %d is %d, of similarity %s, another has %s', i, leader[i], S[i][leader[i]], best)
    want = Counter(leader.items())
    want.update((i, j) for i in range(n) for j in range(i) if leader[i] == leader[j])
    check(Counter(got) == want, 'pairs are %s, expected %s', short(sorted(got)), short(sorted(want.elements())))


def crowd(d):
    """Hundreds of vectors sharing a dimension."""
    n = clus.size(d, 150, 400)
    rng = random.Random(d.int(0, 1 << 20))
    dims = rng.choice((1, 3, 40, 200))
    V = [dict((rng.randrange(dims), rng.randint(1, 9)) for _ in range(rng.choice((1, 2, 5)))) for _ in range(n)]
    if rng.random() < 0.5:
        for v in V:
            v['*'] = 1
    d.show({'vectors': V})
    d.nontrivial(repr(V))
    got = lst(naive_cosine_pairs, V)
    flat = [(max(p), min(p)) for p in got]
    check(len(set(flat)) == len(flat), 'a pair is yielded twice')
    want = set((i, j) for i in range(n) for j in range(i) if V[i].keys() & V[j].keys())
    check(set(flat) == want, 'pairs missing: %s; added: %s', short(sorted(want - set(flat))), short(sorted(set(flat) - want)))
    S = [[cosine(A, B) for B in V] for A in V[:40]]
    for i, j in lst(threshold_algorithm_k1, V):
        if i < 40:
            best = max([S[i][k] for k in range(n) if k != i] or [0.0])
            check(best == 0 or (j != i and S[i][j] >= best - 1e-9), 'vector %d gets %d, the nearest has %s', i, j, best)


TESTS = [
    Test(nearest, 9000, 200000),
    Test(candidates, 9000, 200000),
    Test(pairs, 6000, 100000),
    Test(leaders, 6000, 100000),
    Test(crowd, 24, 400, cpu=120),
]
