"""C30: invalid arguments raise a TypeError, whatever the data, instead of giving clusters."""
from lib import clus
from lib.engine import Test, check, short
from lib.models import lev

import networkx as nx
from fog.clustering import (adaptive_sorted_neighborhood, all_pairs, blocking, intersection_index, laesa, nn_descent, nn_descent_full,
                            pairwise, pairwise_connected_components, pairwise_fuzzy_clusters, pairwise_leader, passjoin, ppjoin,
                            ppjoin_plus, quickjoin, sorted_neighborhood)
from fog.graph import monopartite_projection

SOURCES = ['fog/clustering/utils.py', 'fog/clustering/pairwise.py', 'fog/clustering/ppjoin.py', 'fog/clustering/intersection_index.py',
           'fog/graph/projection.py']
RULE = ('Any collection of distinct strings given as any iterable, any valid options, and one invalid argument: an unknown mode, '
        'metric or token ordering, no similarity nor distance, a tokenizer which is not callable; non-trivial = some items are similar, so '
        'that clusters would be found with a valid argument.')
ASSUMPTIONS = ['Errors may be raised when the clusters are consumed; functions which need two items to do anything are given two.']

WORDS = ('', 'x', 'connected', 'fuzzy', 'leader', 'components', 'CONNECTED_COMPONENTS', 'jaccards', 'Jaccard', 'euclidean', 'fuzzy_cluster',
         'connected_component', 'levenshtein', 0, 7, ('jaccard',))
# What is valid, by option: what is valid for another option is not for this one
VALID = {'mode': ('connected_components', 'fuzzy_clusters'), 'metric': ('jaccard', 'overlap'),
         'join metric': ('jaccard', 'dice', 'binary_cosine'), 'ordering': ('freq', 'crc32'),
         'projection': ('jaccard', 'overlap', 'dice', 'cosine', 'binary_cosine')}


def invalid(d, kind):
    valid = VALID.get(kind, ())
    k = d.int(0, 3)
    if k == 0:
        bad = d.choice(WORDS)
    elif k == 1:
        bad = d.choice(sorted(set(w for v in VALID.values() for w in v)))
    elif k == 2 and kind in ('metric', 'join metric', 'mode'):
        bad = None
    else:
        bad = d.choice(valid or WORDS)
        if isinstance(bad, str) and bad:
            i = d.int(0, len(bad) - 1)
            bad = d.choice((bad[:i] + bad[i + 1:], bad[:i] + d.choice('_ x') + bad[i:], bad.upper(), bad[i:], bad[:i], bad.title()))
    return None if bad in valid else (bad,)


def near(A, B):
    return lev(A, B) <= 1


def initial(x):
    return x[:1]


# Functions taking a similarity or a distance, and the options they need
RELATION = [
    ('pairwise', pairwise, {}), ('pairwise_leader', pairwise_leader, {}), ('pairwise_fuzzy_clusters', pairwise_fuzzy_clusters, {}),
    ('pairwise_connected_components', pairwise_connected_components, {}), ('blocking', blocking, {'block': initial}),
    ('blocking, several blocks', blocking, {'blocks': lambda x: list(x)}), ('sorted_neighborhood', sorted_neighborhood, {'key': initial}),
    ('adaptive_sorted_neighborhood', adaptive_sorted_neighborhood, {'key': initial}),
    ('quickjoin', quickjoin, {'radius': 1}), ('nn_descent', nn_descent, {'radius': 1, 'seed': 1}),
    ('nn_descent_full', nn_descent_full, {'radius': 1, 'seed': 1})]
MODE = [
    ('pairwise', pairwise, {'similarity': near}), ('blocking', blocking, {'block': initial, 'similarity': near}),
    ('sorted_neighborhood', sorted_neighborhood, {'key': initial, 'similarity': near}),
    ('adaptive_sorted_neighborhood', adaptive_sorted_neighborhood, {'key': initial, 'similarity': near}),
    ('intersection_index', intersection_index, {}), ('passjoin', passjoin, {'k': 1, 'distance': lev}),
    ('quickjoin', quickjoin, {'radius': 1, 'distance': lev}), ('laesa', laesa, {'radius': 1, 'distance': lev, 'seed': 1}),
    ('nn_descent', nn_descent, {'radius': 1, 'distance': lev, 'seed': 1}),
    ('nn_descent_full', nn_descent_full, {'radius': 1, 'distance': lev, 'seed': 1})]
JOINS = [('all_pairs', all_pairs), ('ppjoin', ppjoin), ('ppjoin_plus', ppjoin_plus)]


def refused(what, fn, *args, **kw):
    try:
        got = fn(*args, **kw)
        if hasattr(got, '__next__'):
            got = list(got)
    except TypeError:
        return
    except Exception as e:
        check(False, '%s raises %s: %s', what, type(e).__name__, e)
    check(False, '%s is accepted and gives %s', what, short(got))


def clusterers(d):
    words = list(dict.fromkeys(d.list(lambda: d.text('ab', 1, 4), 2, d.wide(7))))
    if len(words) < 2:
        words = words[:1] + ['abba', 'bb']
    kind = d.choice(('relation', 'mode', 'metric', 'join metric', 'tokenizer', 'ordering'))
    bad = invalid(d, kind)
    if not bad:
        return
    bad = bad[0]
    bounds, _, _ = clus.bounds(d, len(words))
    given, form = clus.container(d, words)
    if any(near(a, b) for i, a in enumerate(words) for b in words[:i]):
        d.nontrivial((kind, tuple(words), repr(bad), form))
    d.label(kind)
    if kind == 'relation':
        name, fn, kw = d.choice(RELATION)
        if 'radius' not in kw and d.bool(0.4):
            kw = dict(kw, radius=1)
        kw = dict(kw, **bounds)
        bad = 'no similarity nor distance'
        args = (given,)
    elif kind == 'mode':
        name, fn, kw = d.choice(MODE)
        if bad == 'leader' and fn is pairwise:
            return
        kw = dict(kw, mode=bad, **bounds)
        args = (given,)
    elif kind == 'metric':
        name, fn, kw = 'intersection_index', intersection_index, dict(bounds, metric=bad)
        args = (given,)
    else:
        name, fn = d.choice(JOINS)
        given = list(words)
        args = (given, d.choice((0.5, 0.8, 1.0)))
        kw = {{'join metric': 'metric', 'tokenizer': 'tokenizer', 'ordering': 'token_ordering'}[kind]: bad}
        if kind in ('tokenizer', 'ordering') and not bad:
            return
    d.show({'function': name, 'kind': kind, 'invalid': bad, 'words': words, 'form': form})
    refused('%s with %s %r' % (name, kind, bad), fn, *args, **kw)


def projection(d):
    n, m = d.int(1, d.wide(5)), d.int(1, 5)
    edges = [(i, m2) for i in range(n) for m2 in range(m) if d.bool()]
    metric = invalid(d, 'projection')
    if not metric:
        return
    metric = metric[0]
    d.show({'edges': edges, 'metric': metric})
    if len(edges) > 1:
        d.nontrivial((tuple(edges), metric))
    g = nx.Graph()
    for i in range(n):
        g.add_node(('l', i), bipartite='l')
    for j in range(m):
        g.add_node(('r', j), bipartite='r')
    for i, j in edges:
        g.add_edge(('l', i), ('r', j), weight=1 + (i + j) % 3)
    kw = {'part': 'bipartite'} if d.bool() else {}
    if d.bool():
        kw['threshold'] = 0.1
    refused('monopartite_projection with metric %r' % metric, monopartite_projection, g, d.choice('lr'), metric=metric, **kw)


TESTS = [
    Test(clusterers, 12000, 200000),
    Test(projection, 2000, 40000),
]
