"""C33: leaving options out is giving their documented defaults, by keyword or by position."""
import math
import random

import networkx as nx

from lib.engine import Test, call, check, lst, short
from lib import clus, gens
from lib.models import lev

from fog.clustering import (adaptive_sorted_neighborhood, all_pairs, blocking, intersection_index, key_collision, laesa, minhash,
                            nn_descent, nn_descent_full, pairwise, pairwise_connected_components, pairwise_fuzzy_clusters,
                            pairwise_leader, passjoin, ppjoin, ppjoin_plus, quickjoin, sorted_neighborhood, vp_tree)
from fog.evaluation import best_matching_macro_average
from fog.graph import floatsam_sparsification, monopartite_projection
from fog.key import (FingerprintingKeyer, NgramsFingerprintKeyer, levenshtein_1d_blocks, levenshtein_1d_keys, levenshtein_2d_blocks,
                     ngram_keys)
from fog.lsh import LSBMinHash, MinHash, SuperMinHash, simhash, simhash_distance, simhash_similarity
from fog.tokenizers import FingerprintTokenizer, NgramsFingerprintTokenizer, WordTokenizer
from fog.utils import squeeze

SOURCES = ['fog/clustering/blocking.py', 'fog/clustering/intersection_index.py', 'fog/clustering/key_collision.py', 'fog/clustering/laesa.py',
           'fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/clustering/pairwise.py', 'fog/clustering/passjoin.py',
           'fog/clustering/ppjoin.py', 'fog/clustering/quickjoin.py', 'fog/clustering/sorted_neighborhood.py', 'fog/clustering/vp_tree.py',
           'fog/key/levenshtein.py', 'fog/key/misc.py', 'fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/tokenizers/fingerprint.py',
           'fog/tokenizers/words.py', 'fog/graph/projection.py', 'fog/graph/sparsification.py', 'fog/evaluation/best_matching.py', 'fog/utils.py']
RULE = ('Any function having options, over data telling the values of its options apart (families of near duplicates, clusters of '
        'many sizes, crowded keys): the result with options left out, with some given their documented defaults, and with '
        'arguments given by position must be the same; non-trivial = the result is not empty.')
ASSUMPTIONS = ['Functions drawing random numbers are seeded.', 'Clusters are compared as sets.']

INF = float('inf')
NEED = object()
SIZES = [('min_size', 2), ('max_size', INF)]
MODE = [('mode', 'connected_components')]
RELATION = [('similarity', None), ('distance', None), ('radius', None)]


def initial(x):
    return x[:1]


def near(a, b):
    return lev(a, b) <= 1


def similarity(a, b):
    return -lev(a, b)


def clusters(got):
    return sorted(sorted(c) for c in got)


def strings(d):
    return sorted(set(gens.words_like(d, 2, 12, hi=5) + ['a' * i for i in range(d.choice((0, 0, 3, 16)))]))


def relation(d):
    k = d.int(0, 2)
    if k == 0:
        return {'similarity': near}
    if k == 1:
        return {'distance': lev, 'radius': 1}
    return {'similarity': similarity, 'radius': -1}


def over_strings(d, **kw):
    return dict({'data': strings(d)}, **kw)


def sets(d):
    families = [[c + str(i) for i in range(6)] for c in 'ab']
    out = []
    for _ in range(d.int(2, 14)):
        f = d.choice(families)
        s = frozenset(t for t in f if d.bool(0.8)) | frozenset(d.list(lambda: d.choice(f), 1, 2))
        out.append(tuple(sorted(s)))
    return sorted(set(out))


def crowd(d):
    """Many strings of a same key, which only a window tells apart."""
    n = d.int(8, 26)
    words = ['k%02d' % i for i in range(n)]
    links = set()
    for _ in range(d.int(1, 4)):
        i = d.int(0, n - 2)
        links.add((i, min(n - 1, i + d.choice((1, 8, 9, 10, 11, 12)))))
    ids = dict((w, i) for i, w in enumerate(words))

    def similar(a, b):
        return (ids[a], ids[b]) in links or (ids[b], ids[a]) in links
    return words, similar


def neighborhood(d, key):
    words, similar = crowd(d)
    return {'data': words, 'key': key, 'similarity': similar}


def whole(x):
    return x


def same(x):
    return 'k'


def blocks(d):
    if d.bool():
        return over_strings(d, block=initial, **relation(d))
    return over_strings(d, blocks=list, **relation(d))


def metric_space(d):
    if d.bool(0.8):
        return over_strings(d, distance=lev, radius=1)
    return over_strings(d, similarity=similarity, radius=-1)


def descent(d):
    kw = relation(d)
    if 'radius' not in kw:
        kw = {'distance': lev, 'radius': 1}
    return over_strings(d, seed=d.int(0, 99), **kw)


def joined(d):
    return {'records': [list(x) for x in sets(d)], 'threshold': d.choice((0.4, 0.6, 0.8))}


def pairs(got):
    return sorted(tuple(sorted((tuple(a), tuple(b)))) for a, b in got)


JOIN = [('records', NEED), ('threshold', NEED), ('metric', 'jaccard'), ('tokenizer', None)]
DATA = [('data', NEED)]

CLUSTERERS = [
    (pairwise, DATA + MODE, lambda d: over_strings(d, **relation(d)), clusters),
    (pairwise_connected_components, DATA + RELATION + SIZES + [('key', None), ('processes', 1), ('chunk_size', 100)],
     lambda d: over_strings(d, **relation(d)), clusters),
    (pairwise_fuzzy_clusters, DATA + RELATION + SIZES + [('key', None), ('processes', 1), ('chunk_size', 100)],
     lambda d: over_strings(d, **relation(d)), clusters),
    (pairwise_leader, DATA + RELATION + SIZES, lambda d: over_strings(d, **relation(d)), clusters),
    (blocking, DATA + [('block', None), ('blocks', None)] + RELATION + SIZES + [('processes', 1)] + MODE, blocks, clusters),
    (sorted_neighborhood, DATA + [('key', None), ('keys', None)] + RELATION + [('window', 10)] + SIZES + MODE,
     lambda d: neighborhood(d, whole), clusters),
    (adaptive_sorted_neighborhood, DATA + [('key', None), ('keys', None)] + RELATION + [('window', 10)] + SIZES + MODE,
     lambda d: neighborhood(d, d.choice((same, whole))), clusters),
    (key_collision, DATA + [('key', None), ('keys', None)] + SIZES + [('merge', True)],
     lambda d: over_strings(d, key=initial) if d.bool() else over_strings(d, keys=lambda x: [x[:1], x[1:3]]), clusters),
    (intersection_index, DATA + [('metric', 'jaccard'), ('radius', 0.8), ('key', None)] + SIZES + MODE, lambda d: {'data': sets(d)}, clusters),
    (minhash, DATA + [('h', 256), ('key', None), ('radius', 0.8), ('bands', None), ('use_numpy', False), ('seed', None)],
     lambda d: {'data': sets(d), 'seed': d.int(0, 9)}, clusters),
    (laesa, DATA + [('distance', NEED), ('radius', NEED), ('pivots', None)] + SIZES + [('seed', None)] + MODE,
     lambda d: over_strings(d, distance=lev, radius=1, seed=d.int(0, 9)), clusters),
    (vp_tree, DATA + [('distance', NEED), ('radius', NEED)] + SIZES, lambda d: over_strings(d, distance=lev, radius=1), clusters),
    (quickjoin, DATA + [('radius', NEED), ('distance', None), ('similarity', None), ('block_size', 500)] + SIZES + MODE +
     [('seed', None), ('processes', 1), ('beta', 1.0), ('vp_tree', False)], lambda d: dict(metric_space(d), seed=d.int(0, 9)), clusters),
    (nn_descent, DATA + [('radius', NEED), ('similarity', None), ('distance', None), ('k', None)] + SIZES + MODE + [('seed', None)], descent, clusters),
    (nn_descent_full, DATA + [('radius', NEED), ('similarity', None), ('distance', None), ('k', None)] + SIZES + MODE +
     [('seed', None), ('rho', 0.5), ('delta', 0.001)], descent, clusters),
    (passjoin, DATA + [('k', NEED), ('distance', NEED), ('sort', True)] + SIZES + MODE, lambda d: over_strings(d, k=d.int(0, 2), distance=lev), clusters),
    (all_pairs, JOIN + [('token_ordering', 'freq')], joined, pairs),
    (ppjoin, JOIN + [('all_pairs', False), ('plus', False), ('token_ordering', 'freq')], joined, pairs),
    (ppjoin_plus, JOIN + [('token_ordering', 'freq')], joined, pairs)]


def text(d):
    return d.text('abAB \xe9\xc912-_.II', 0, 14)


def tokens(d):
    return d.list(lambda: d.text('abc', 1, 3), 0, 8)


def bits(d):
    return sum(d.int(0, 2 ** 32 - 1) << 32 * i for i in range(4)) if d.bool() else d.int(0, 255)


def graph(d):
    g = nx.Graph()
    n = d.int(2, 9)
    g.add_nodes_from(range(n))
    for i in range(n):
        for j in range(i):
            if d.bool(0.5):
                g.add_edge(i, j, weight=d.int(1, 40) / 40, other=d.int(1, 40) / 40)
    return g


def bipartite(d):
    g = nx.Graph()
    for i in range(d.int(1, 4)):
        g.add_node(('l', i), bipartite='l', part='r')
    for j in range(d.int(1, 4)):
        g.add_node(('r', j), bipartite='r', part='l')
    for i in [x for x in g if x[0] == 'l']:
        for j in [x for x in g if x[0] == 'r']:
            if d.bool(0.6):
                g.add_edge(i, j, weight=d.int(1, 9), other=d.int(1, 9))
    return g


def graph_of(g):
    return sorted(g.nodes), sorted((min(a, b), max(a, b), sorted(w.items())) for a, b, w in g.edges(data=True))


def sparsified(g):
    """Without remove_edges, the graph is left as it is: gives the threshold and what is removed."""
    return repr(g) if not hasattr(g, 'edges') else graph_of(g)


KEYER = [('keep_digits', True), ('min_token_size', 1), ('split', None), ('stopwords', None), ('squeeze', False)]


def keyer(cls, n=None):
    def fn(text_, *args, **kw):
        it = cls(*args, **kw)
        return it(text_) if n is None else it(n, text_)
    fn.__name__ = cls.__name__
    return fn


def signer(cls):
    def fn(tokens_, *args, **kw):
        return [int(x) for x in cls(*args, **kw).create_signature(tokens_)]
    fn.__name__ = cls.__name__
    return fn


def tokenized(text_, *args, **kw):
    return WordTokenizer(*args, **kw)(text_)


def listed(x):
    return x if isinstance(x, (str, int, float)) else sorted(x) if isinstance(x, (set, frozenset)) else list(x)


def sentence(d):
    return d.choice((' ', ', ')).join(d.list(lambda: d.choice(('Hello', '#H\xe9T\xe9Two', '@Bob_1', 'l\'\xe9t\xe9', 'waaaaaay', '&amp;', 'a', ':)', '12.5')), 0, 6))


OTHERS = [
    (keyer(FingerprintingKeyer), [('text', NEED)] + KEYER, lambda d: {'text': text(d)}, listed),
    (keyer(FingerprintTokenizer), [('text', NEED)] + KEYER, lambda d: {'text': text(d)}, listed),
    (keyer(NgramsFingerprintKeyer, 2), [('text', NEED)] + KEYER, lambda d: {'text': text(d)}, listed),
    (keyer(NgramsFingerprintTokenizer, 2), [('text', NEED)] + KEYER, lambda d: {'text': text(d)}, listed),
    (tokenized, [('text', NEED)] + [(o, False) for o in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions',
     'normalize_hashtags', 'mentions_as_words', 'hashtags_as_words', 'split_hashtags')] +
     [(o, None) for o in ('min_word_length', 'max_word_length', 'stoplist', 'keep', 'drop')], lambda d: {'text': sentence(d)}, list),
    (levenshtein_1d_keys, [('string', NEED), ('transpositions', False), ('flag', '\x00')], lambda d: {'string': d.text('abc', 0, 8)}, sorted),
    (levenshtein_1d_blocks, [('string', NEED), ('transpositions', False), ('flag', '\x00')], lambda d: {'string': d.text('abc', 0, 8)}, sorted),
    (levenshtein_2d_blocks, [('string', NEED), ('transpositions', False), ('flag1', '\x00'), ('flag2', '\x01'), ('flag3', '\x02')],
     lambda d: {'string': d.text('abc', 0, 8)}, sorted),
    (ngram_keys, [('n', NEED), ('string', NEED), ('threshold', 0.8)], lambda d: {'n': d.int(1, 3), 'string': d.text('abcdef', 0, 14)}, sorted),
    (squeeze, [('string', NEED), ('keep_roman_numerals', False)], lambda d: {'string': d.text('aIXV bb', 0, 12)}, listed),
    (signer(MinHash), [('tokens', NEED), ('h', 256), ('seed', None), ('use_numpy', False)], lambda d: {'tokens': tokens(d), 'seed': d.int(0, 9)}, list),
    (signer(SuperMinHash), [('tokens', NEED), ('h', 256)], lambda d: {'tokens': tokens(d)}, list),
    (signer(LSBMinHash), [('tokens', NEED), ('precision', 8), ('seed', None)], lambda d: {'tokens': tokens(d)[:2], 'seed': d.int(0, 3)}, list),
    (simhash, [('tokens', NEED), ('f', 128)], lambda d: {'tokens': tokens(d)}, int),
    (simhash_distance, [('A', NEED), ('B', NEED), ('f', 128)], lambda d: {'A': bits(d), 'B': bits(d)}, int),
    (simhash_similarity, [('A', NEED), ('B', NEED), ('f', 128)], lambda d: {'A': bits(d), 'B': bits(d)}, float),
    (best_matching_macro_average, [('truth', NEED), ('predicted', NEED), ('allow_additional_items', False)], None, list),
    (monopartite_projection, [('bipartite', NEED), ('project', NEED), ('part', 'bipartite'), ('weight', 'weight'), ('metric', None),
     ('threshold', None), ('use_topology', True), ('bipartition_check', True)], lambda d: {'bipartite': bipartite(d), 'project': d.choice('lr')}, graph_of),
    (floatsam_sparsification, [('graph', NEED), ('starting_treshold', 0.0), ('learning_rate', 0.05), ('max_drifter_size', None),
     ('weight', 'weight'), ('remove_edges', False)], lambda d: {'graph': graph(d)}, sparsified)]


def partitions(d):
    n = d.int(1, 7)
    truth, predicted = {}, {}
    for i in range(n):
        truth.setdefault(d.int(0, 3), []).append(i)
        predicted.setdefault(d.int(0, 3), []).append(i)
    return {'truth': list(truth.values()), 'predicted': list(predicted.values())}


def run(d, table):
    fn, params, make, canon = d.choice(table)
    given = (make or partitions)(d)
    name = fn.__name__
    names = [p for p, _ in params]
    explicit = dict((p, v) for p, v in params if p not in given and v is not NEED and d.bool())
    npos = d.int(1, len(params))
    rest = dict((p, v) for p, v in dict(explicit, **given).items() if p not in names[:npos])
    args = [given[p] if p in given else v for p, v in params[:npos]]
    if name == 'pairwise':
        rest.update((p, v) for p, v in given.items() if p not in names)
    d.show({'function': name, 'arguments': dict((k, short(v) if callable(v) else v if not hasattr(v, 'edges') else graph_of(v)) for k, v in given.items()),
            'defaults given': explicit, 'by position': names[:npos]})
    d.label(name)

    def result(*a, **k):
        got = fn(*a, **k)
        return canon(list(got) if hasattr(got, '__next__') else got)
    base = call(result, **dict(given)) if not name[0].isupper() and name != 'tokenized' else \
        call(result, given[names[0]], **dict((k, v) for k, v in given.items() if k != names[0]))
    if base and base != ([], []):
        d.nontrivial((name, repr(base), repr(sorted(explicit)), npos))
    if explicit:
        if name[0].isupper() or name == 'tokenized':
            got = call(result, given[names[0]], **dict((k, v) for k, v in dict(given, **explicit).items() if k != names[0]))
        else:
            got = call(result, **dict(given, **explicit))
        check(got == base, '%s gives %s with the documented defaults %s, and %s without', name, short(got), short(explicit), short(base))
    got = call(result, *args, **rest)
    check(got == base, '%s gives %s with its %d first arguments by position, and %s by keyword', name, short(got), npos, short(base))


def clusterers(d):
    run(d, CLUSTERERS)


def others(d):
    run(d, OTHERS)


def neighbors(d):
    """The number of neighbors looked for is the binary logarithm of the number of items."""
    fn = d.choice((nn_descent, nn_descent_full))
    n = clus.size(d, 4, 70)
    rng = random.Random(d.int(0, 1 << 20))
    points = list(dict.fromkeys((rng.randrange(40), rng.randrange(40)) for _ in range(n)))
    kw = {'distance': lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1]), 'radius': d.choice((2, 4, 8)), 'seed': d.int(0, 99)}
    d.show({'function': fn.__name__, 'points': points, 'options': kw})
    got = clusters(lst(fn, points, **kw))
    if len(points) > 1:
        want = clusters(lst(fn, points, k=int(math.log2(len(points))), **kw))
        if got:
            d.nontrivial((fn.__name__, repr(points), repr(sorted(kw))))
        check(got == want, 'clusters are %s by default, and %s when k is the binary logarithm of %d', short(got), short(want), len(points))


TESTS = [
    Test(neighbors, 1200, 30000),
    Test(clusterers, 5000, 100000),
    Test(others, 8000, 150000),
]
