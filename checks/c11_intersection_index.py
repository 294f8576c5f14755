"""C11: intersection_index finds every pair above the radius."""
import random

from lib.engine import Test, check, lst, short
from lib import clus

from fog.clustering import intersection_index

SOURCES = ['fog/clustering/intersection_index.py', 'fog/clustering/utils.py']
RULE = ('Collections of documents (token lists or strings, duplicates and empty ones included), both metrics and '
        'modes, radii in (0, 1] half of them being the exact similarity of some pair; non-trivial = some pair is above '
        'the radius and some pair sharing a token is below.')
ASSUMPTIONS = ['radius > 0: documents sharing no token are never similar.', 'min_size >= 2.',
               'A similarity is above the radius when the double of the exact quotient is.']


def sim(metric, A, B):
    i = len(A & B)
    if not i:
        return 0.0
    return i / len(A | B) if metric == 'jaccard' else i / min(len(A), len(B))


WIDE = ''.join(chr(c) for c in range(0x4e00, 0x4e00 + 320))
RADII = (0.5, 0.8, 0.25, 1.0, 1, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.75, 0.9, 1 / 3, 2 / 3)


def documents(d, hi):
    vocab = d.choice(('abcd', ' a\tb\n', 'abcdefgh', 'abcdefghijklmnopqrst'))
    roots = d.list(lambda: d.text(vocab, 0, 10), 1, 3)

    def doc():
        k = d.int(0, 2)
        if k == 0:
            return d.text(vocab, 0, 10)
        s = d.choice(roots)
        for _ in range(d.int(0, 3)):
            i = d.int(0, len(s))
            s = s[:i] + d.choice(vocab) + s[i + d.int(0, 1):]
        return s
    return d.list(doc, 0, hi)


def index(d):
    verify(d, documents(d, d.choice((5, 12, 30))))


def large(d):
    """More documents: frequent tokens, rare tokens, larger documents."""
    crowd(d, clus.size(d, 60, 150))


def huge(d):
    crowd(d, clus.size(d, 250, 600))


def crowd(d, n):
    rng = random.Random(d.int(0, 1 << 20))
    vocab = WIDE[:rng.choice((6, 40, 300))]
    common = WIDE[-rng.choice((1, 2, 5)):] if rng.random() < 0.7 else ''
    width = rng.choice((3, 8, 40))
    roots = [[rng.choice(vocab) for _ in range(rng.randint(0, width))] for _ in range(rng.choice((1, 5, 40)))]
    docs = []
    for _ in range(n):
        r = list(rng.choice(roots))
        for _ in range(rng.choice((0, 0, 1, 3))):
            r.insert(rng.randint(0, len(r)), rng.choice(vocab))
        for c in common:
            if rng.random() < 0.8:
                r.insert(rng.randint(0, len(r)), c)
        docs.append(''.join(r))
    verify(d, docs)


def long_chain(d):
    """More than a thousand documents in a single component."""
    n = clus.size(d, 1050, 1400)
    rng = random.Random(d.int(0, 1 << 20))
    docs = [chr(0x4e00 + i) + chr(0x4e00 + i + 1) for i in range(n)]
    if rng.random() < 0.7:
        rng.shuffle(docs)
    verify(d, docs, d.choice((0.25, 1 / 3)))


def long_documents(d):
    """Documents of hundreds of tokens."""
    n = clus.size(d, 2, 6)
    rng = random.Random(d.int(0, 1 << 20))
    root = [chr(0x4e00 + i) for i in range(rng.choice((250, 400, 900)))]
    docs = []
    for _ in range(n):
        r = [c for c in root if rng.random() < 0.97]
        r += [chr(0x6e00 + rng.randrange(3000)) for _ in range(rng.choice((0, 5, 200)))]
        rng.shuffle(r)
        docs.append(''.join(r))
    verify(d, docs)


def shared_by_all(d):
    """A token in hundreds of documents that share nothing else."""
    n = clus.size(d, 400, 700)
    rng = random.Random(d.int(0, 1 << 20))
    if d.bool(0.3):
        docs = ['*' + chr(0x4e00 + i) for i in range(n)]
        rng.shuffle(docs)
        verify(d, docs, d.choice((0.25, 1 / 3)))
    else:
        # But for small groups
        docs = ['*' + chr(0x4e00 + i) + chr(0x7e00 + i // 3) for i in range(n)]
        rng.shuffle(docs)
        verify(d, docs, 0.5)


TOKENS = (None, 0, '', 'a', ' ', (), -1, 0.5, 'None', '0', 'aa', ('a',), b'a', frozenset(), 1, 2)


def values(d):
    """Tokens are any hashable values."""
    pool = d.shuffled(TOKENS)[:d.int(1, len(TOKENS))]
    verify(d, d.list(lambda: tuple(d.list(lambda: d.choice(pool), 0, 6)), 0, 10), odd=True)


def verify(d, docs, radius=None, odd=False):
    metric = d.choice(('jaccard', 'overlap'))
    n = len(docs)
    sets = [set(x) for x in docs]
    if radius is not None:
        pass
    elif n > 1 and d.bool():
        radius = sim(metric, sets[d.int(0, n - 1)], sets[d.int(0, n - 1)]) or 0.8
    else:
        radius = d.choice(RADII)
    edges = set()
    below = False
    for i in range(n):
        for j in range(i + 1, n):
            s = sim(metric, sets[i], sets[j])
            if s >= radius:
                edges.add((i, j))
            elif s:
                below = True
    if edges and below:
        d.nontrivial((tuple(docs), metric, radius))
    bkw, lo, hi = clus.bounds(d, n)
    kw = dict(bkw)
    # Items carry their index: equal documents stay distinguishable
    form = d.int(0, 1 if odd else 3)
    if form == 0:
        data = [(i, x) for i, x in enumerate(docs)]
        kw['key'] = lambda item: item[1]
    elif form == 1:
        data = [[i, list(x)] for i, x in enumerate(docs)]
        kw['key'] = lambda item: (c for c in item[1])
    else:
        data = list(docs) if form == 2 else [tuple(x) for x in docs]
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if mode == 'fuzzy_clusters' or d.bool():
        kw['mode'] = mode
    if metric != 'jaccard' or d.bool():
        kw['metric'] = metric
    if radius != 0.8 or d.bool():
        kw['radius'] = radius
    x, name = clus.container(d, data)
    d.show({'documents': docs, 'metric': metric, 'radius': radius, 'mode': mode, 'bounds': bkw, 'form': (form, name)})
    clusters = lst(intersection_index, x, **kw)
    if form < 2:
        got = [[item[0] for item in c] for c in clusters]
        if mode == 'connected_components':
            clus.check_components(got, n, edges, lo, hi)
        else:
            clus.check_fuzzy(got, n, edges, lo, hi)
    elif mode == 'connected_components':
        want = sorted(sorted(docs[i] for i in c) for c in clus.components_expected(n, edges, lo, hi))
        got = sorted(sorted(''.join(x) for x in c) for c in clusters)
        check(got == want, 'clusters are %s, expected %s', short(got), short(want))
    else:
        for c in clusters:
            lead = set(c[0])
            near = sorted(x for x in docs if sim(metric, lead, set(x)) >= radius)
            check(sorted(''.join(x) for x in c) == near, 'cluster %s should hold %s', short(c), short(near))


TESTS = [
    Test(index, 24000, 800000),
    Test(large, 400, 12000),
    Test(huge, 32, 1000, cpu=120),
    Test(values, 4000, 100000),
    Test(long_documents, 120, 3000, cpu=120),
    Test(shared_by_all, 16, 100, cpu=120),
    Test(long_chain, 8, 200, cpu=120),
]
