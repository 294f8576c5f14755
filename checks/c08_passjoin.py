"""C08: passjoin finds exactly the pairs within Levenshtein distance k."""
import random
import sys

from lib.engine import Test, call, check, lst, short
from lib import clus, gens
from lib.models import lev, lev_long

from fog.clustering import passjoin
from fog.clustering.passjoin import multi_match_aware_substrings, segments

# Helpers no one is bound to keep
MODULE = sys.modules['fog.clustering.passjoin']
partition, count_keys, count_substrings_l = (getattr(MODULE, x, None) for x in ('partition', 'count_keys', 'count_substrings_l'))

SOURCES = ['fog/clustering/passjoin.py', 'fog/clustering/utils.py']
RULE = ('Sets of distinct strings made of families of near duplicates (including empty and shorter-than-k strings), '
        'k from 0 to 5, sorted or not, both modes; non-trivial = two distinct non-empty strings are within distance k '
        'and one of them is longer than k.')
ASSUMPTIONS = ['Items are distinct strings and `distance` is the Levenshtein distance.', 'min_size >= 2.']


def run(d, data, k, bkw, lo, hi, lev=lev):
    n = len(data)
    index = dict((s, i) for i, s in enumerate(data))
    edges = set()
    for i in range(n):
        for j in range(i + 1, n):
            if abs(len(data[i]) - len(data[j])) <= k and lev(data[i], data[j]) <= k:
                edges.add((i, j))
    if any(data[i] and data[j] and max(len(data[i]), len(data[j])) > k for i, j in edges):
        d.nontrivial((tuple(sorted(data)), k, lo, hi))
    d.label('k=%d' % k)
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    kw = dict(bkw)
    if mode != 'connected_components' or d.bool():
        kw['mode'] = mode
    if d.bool():
        kw['sort'] = d.bool()
    x, form = clus.container(d, data)
    d.show({'data': data, 'k': k, 'options': kw, 'form': form})
    clusters = lst(passjoin, x, k, lev, **kw)
    got = []
    for c in clusters:
        for s in c:
            check(s in index, 'unknown item %r in cluster %s', s, short(c))
        got.append([index[s] for s in c])
    if mode == 'connected_components':
        clus.check_components(got, n, edges, lo, hi)
    else:
        clus.check_fuzzy(got, n, edges, lo, hi)


def families(d):
    data = list(dict.fromkeys(gens.words_like(d, 0, 12, hi=d.choice((4, 8, 14)))))
    bkw, lo, hi = clus.bounds(d, len(data))
    k = d.weighted(((1, 0), (4, 1), (4, 2), (3, 3), (1, 4), (1, 5)))
    d.show({'data': data, 'k': k})
    run(d, data, k, bkw, lo, hi)


def pair(d):
    """Two strings only: any missed pair shows."""
    alpha = gens.alphabet(d)
    k = d.weighted(((1, 0), (4, 1), (4, 2), (3, 3), (2, 4), (1, 5), (1, 6)))
    a = d.text(alpha, 0, d.choice((6, 12, 20)))
    b = gens.edit(d, a, alpha, k + (1 if d.bool(0.1) else 0))
    if a == b:
        b = a + alpha[0]
    d.show({'data': [a, b], 'k': k})
    data = [a, b] if d.bool() else [b, a]
    run(d, data, k, {}, 2, clus.INF)


def long_strings(d):
    """Long strings: many characters per segment, several edits far apart."""
    alpha = gens.alphabet(d)
    k = d.int(1, 4)
    a = d.text(alpha, 15, 45)
    data = list(dict.fromkeys([a] + [gens.edit(d, a, alpha, d.int(1, k)) for _ in range(d.int(1, 3))]))
    d.show({'data': data, 'k': k})
    run(d, d.shuffled(data), k, {}, 2, clus.INF)


def large(d):
    """Many strings: crowded indices, strings found from several segments."""
    alpha = gens.alphabet(d)
    k = d.int(0, 3)
    n = clus.size(d, 40, 120)
    rng = random.Random(d.int(0, 1 << 20))
    width = rng.choice((5, 9, 16))
    roots = [''.join(rng.choice(alpha) for _ in range(rng.randint(0, width))) for _ in range(rng.choice((1, 3, 12)))]
    data = []
    for _ in range(n):
        s = rng.choice(roots)
        for _ in range(rng.randint(0, k + 2)):
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(('', rng.choice(alpha))) + s[i + rng.randint(0, 1):]
        data.append(s)
    data = list(dict.fromkeys(data))
    d.show({'data': data, 'k': k})
    bkw, lo, hi = clus.bounds(d, len(data))
    run(d, data, k, bkw, lo, hi)


def huge(d):
    """Hundreds of strings."""
    alpha = gens.alphabet(d)
    k = d.int(0, 3)
    n = clus.size(d, 200, 420)
    rng = random.Random(d.int(0, 1 << 20))
    width = rng.choice((7, 12, 20))
    roots = [''.join(rng.choice(alpha) for _ in range(rng.randint(0, width))) for _ in range(rng.choice((5, 60, 200)))]
    data = []
    for _ in range(n):
        s = rng.choice(roots)
        for _ in range(rng.randint(0, k + 1)):
            i = rng.randint(0, len(s))
            s = s[:i] + rng.choice(('', rng.choice(alpha))) + s[i + rng.randint(0, 1):]
        data.append(s)
    data = list(dict.fromkeys(data))
    d.show({'data': data, 'k': k})
    bkw, lo, hi = clus.bounds(d, len(data))
    run(d, data, k, bkw, lo, hi, lev_long)


def crowded(d):
    """Hundreds of strings having a segment in common, few of which are similar."""
    k = d.int(1, 3)
    n = clus.size(d, 80, 260)
    rng = random.Random(d.int(0, 1 << 20))
    alpha = d.choice(('abcdefghijklmnopqrstuvwxyz', 'ab\xe9\u0434\u4e2d\U0001f600xyz0123'))
    common = ''.join(rng.choice(alpha) for _ in range(rng.randint(12, 16)))
    own = [''.join(rng.choice(alpha) for _ in range(rng.randint(12, 14))) for _ in range(n)]
    first = rng.random() < 0.5
    data = [common + x if first else x + common for x in own]
    for s in data[:rng.choice((1, 3, 10))]:
        i = rng.randrange(len(s))
        data.append(s[:i] + rng.choice(('', rng.choice(alpha))) + s[i + rng.randint(0, 1):])
    data = list(dict.fromkeys(data))
    if rng.random() < 0.5:
        rng.shuffle(data)
    d.show({'data': data, 'k': k})
    run(d, data, k, {}, 2, clus.INF, lev_long)


def hypercube(d):
    """Thousands of strings in a single component: those made of two letters."""
    w = clus.size(d, 10, 11)
    a, b = d.choice(('ab', '01', '\xe9e', 'x\U0001f600'))
    rng = random.Random(d.int(0, 1 << 20))
    order = list(range(1 << w))
    rng.shuffle(order)
    data = [''.join(b if x >> i & 1 else a for i in range(w)) for x in order]
    rank = dict((x, i) for i, x in enumerate(order))
    edges = set((min(rank[x], rank[x ^ (1 << i)]), max(rank[x], rank[x ^ (1 << i)])) for x in order for i in range(w))
    kw = {'sort': d.bool()}
    if d.bool(0.3):
        kw['mode'] = 'fuzzy_clusters'
    d.show({'letters': a + b, 'length': w, 'options': kw})
    d.nontrivial((w, a, tuple(order[:5]), repr(kw)))
    index = dict((s, i) for i, s in enumerate(data))
    clusters = [[index[s] for s in c] for c in lst(passjoin, data, 1, lev_long, **kw)]
    if 'mode' in kw:
        clus.check_fuzzy(clusters, len(data), edges)
    else:
        clus.check_components(clusters, len(data), edges)


def very_long(d):
    """Strings of hundreds of characters, larger k."""
    alpha = gens.alphabet(d)
    k = d.int(1, 10)
    n = clus.size(d, 60, 400)
    rng = random.Random(d.int(0, 1 << 20))
    a = ''.join(rng.choice(alpha) for _ in range(n))
    data = [a]
    for _ in range(d.int(1, 3)):
        s = a
        where = rng.random() < 0.3
        for _ in range(rng.choice((1, k, k, k + 1))):
            i = rng.randint(0, len(s)) if not where else min(len(s), rng.randint(0, 12))
            s = s[:i] + rng.choice(('', rng.choice(alpha))) + s[i + rng.randint(0, 1):]
        data.append(s)
    data = list(dict.fromkeys(data))
    d.show({'data': data, 'k': k})
    run(d, d.shuffled(data), k, {}, 2, clus.INF, lev_long)


def selection(d):
    """Segments & substrings: two strings within distance k always have one in common, in both directions."""
    alpha = gens.alphabet(d)
    k = d.weighted(((1, 0), (4, 1), (4, 2), (3, 3), (2, 4), (1, 5), (1, 6)))
    a = d.text(alpha, 0, d.choice((6, 12, 20, 40)))
    b = gens.edit(d, a, alpha, k)
    if d.bool():
        a, b = b, a
    d.show({'a': a, 'b': b, 'k': k})
    segs = lst(segments, k, b)
    check([i for i, _ in segs] == list(range(k + 1)), 'the segments of %r for k=%d are %s', b, k, short(segs))
    check(''.join(x for _, x in segs) == b, 'the segments of %r for k=%d are %s', b, k, short(segs))
    lengths = [len(x) for _, x in segs]
    check(lengths == sorted(lengths) and lengths[-1] - lengths[0] <= 1, 'the segments of %r for k=%d are uneven: %s', b, k, short(segs))
    parts = [(i, sum(lengths[:i]), n) for i, n in enumerate(lengths)]
    if partition is not None:
        parts = lst(partition, k, len(b))
        check([(i, b[p:p + n]) for i, p, n in parts] == segs and [n for _, _, n in parts] == lengths,
              'the partition for k=%d, l=%d is %s, the segments are %s', k, len(b), short(parts), short(segs))
    common = False
    total = 0
    for (i, p, n), (_, x) in zip(parts, segs):
        subs = lst(multi_match_aware_substrings, k, a, len(b), i, p, n)
        total += len(subs)
        for y in subs:
            check(len(y) == n and y in a, '%r is not a substring of %r of length %d', y, a, n)
        common = common or x in subs
    if abs(len(a) - len(b)) <= k and lev(a, b) <= k:
        if a != b and a and b:
            d.nontrivial((a, b, k))
        check(common, 'no segment of %r is selected in %r with k=%d, though they are within this distance', b, a, k)
    if count_substrings_l is None or count_keys is None:
        return
    if abs(len(a) - len(b)) <= k:
        most = call(count_substrings_l, k, len(a), len(b))
        check(total <= most, '%d substrings of %r are selected to match strings of length %d, %s were announced', total, a, len(b), most)
        # Distinct characters: no selected substring is skipped
        if min(len(a), len(b)) >= 2 * k + 2:
            word = ''.join(chr(0x4e00 + i) for i in range(len(a)))
            total = sum(len(lst(multi_match_aware_substrings, k, word, len(b), i, p, n)) for i, p, n in parts)
            check(total == most, '%d substrings of a string of length %d are selected to match strings of length %d (k=%d), %s were announced',
                  total, len(a), len(b), k, most)
    if len(a) >= k:
        want = sum(count_substrings_l(k, len(a), l) for l in range(len(a) - k, len(a) + 1))
        check(call(count_keys, k, len(a)) == want, 'count_keys(%d, %d) is not %d', k, len(a), want)


TESTS = [
    Test(selection, 12000, 250000),
    Test(families, 9000, 250000),
    Test(pair, 30000, 900000),
    Test(long_strings, 2500, 60000),
    Test(large, 250, 6000),
    Test(huge, 16, 500, cpu=120),
    Test(crowded, 16, 500, cpu=120),
    Test(hypercube, 8, 100, cpu=120),
    Test(very_long, 400, 10000),
]
