"""C31: calls are independent: data are left untouched, and neither other calls, partial consumption nor what callers do of clusters matter."""
from lib.engine import Test, call, check, short
from lib.models import lev

from fog.clustering import (adaptive_sorted_neighborhood, all_pairs, blocking, intersection_index, key_collision, laesa, minhash, nn_descent,
                            nn_descent_full, pairwise, passjoin, ppjoin, ppjoin_plus, quickjoin, sorted_neighborhood, vp_tree)
from fog.join import hashjoin
from fog.tokenizers import WordTokenizer, ngrams

SOURCES = ['fog/clustering/blocking.py', 'fog/clustering/intersection_index.py', 'fog/clustering/key_collision.py',
           'fog/clustering/laesa.py', 'fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/clustering/pairwise.py',
           'fog/clustering/passjoin.py', 'fog/clustering/ppjoin.py', 'fog/clustering/quickjoin.py',
           'fog/clustering/sorted_neighborhood.py', 'fog/clustering/utils.py', 'fog/clustering/vp_tree.py',
           'fog/join/hashjoin.py', 'fog/tokenizers/words.py', 'fog/tokenizers/ngrams.py']
RULE = ('Histories over several calls made on overlapping collections of strings with different relations: iterators are started, advanced '
        'one result at a time in any order, abandoned and started again, and the clusters already obtained are emptied, extended or reversed '
        'by the caller; non-trivial = two calls having results are in progress together.')
ASSUMPTIONS = ['The data are not changed while a call is in progress; seeds are given to the randomised functions.',
               'quickjoin is given true metrics: different items are at a positive distance.',
               'Reference: the same call, alone, run to its end.']

DONE = object()


def chebyshev(A, B):
    if A == B:
        return 0
    return max(1, abs(len(A) - len(B)), 2 * (A[:1] != B[:1]))


def discrete(A, B):
    return 0 if A == B else 2 if A[:2] != B[:2] else 1


METRICS = (lev, chebyshev, discrete)
KEYS = (lambda x: x[:1], lambda x: x[-1:], lambda x: str(len(x)), lambda x: x[::-1])
MULTI = (lambda x: list(x), lambda x: [x[:1], x[-1:]], lambda x: {x[:2], x[1:]}, lambda x: [])
TOKENIZER = WordTokenizer()
LOWER = WordTokenizer(lower=True, min_word_length=2)


def near(m, r):
    return lambda A, B: m(A, B) <= r


def job(d):
    """(name, function of the data giving an iterator, are results lists of given items)"""
    m, r = d.choice(METRICS), d.int(0, 2)
    k, ks = d.choice(KEYS), d.choice(MULTI)
    kw = {}
    if d.bool(0.2):
        kw['min_size'] = d.int(2, 3)
    if d.bool(0.2):
        kw['max_size'] = d.int(2, 5)
    mode = dict(kw, mode=d.choice(('connected_components', 'fuzzy_clusters')))
    seed = d.int(0, 9)
    rel = d.choice(({'similarity': near(m, r)}, {'distance': m, 'radius': r}))
    t = d.choice((0.5, 0.7, 1.0))
    jobs = (
        ('pairwise', lambda x: pairwise(x, **dict(mode, **rel))),
        ('pairwise leader', lambda x: pairwise(x, mode='leader', **dict(kw, **rel))),
        ('pairwise with a key', lambda x: pairwise(x, key=k, **dict(mode, **rel))),
        ('blocking', lambda x: blocking(x, block=k, **dict(mode, **rel))),
        ('blocking, several blocks', lambda x: blocking(x, blocks=ks, **dict(mode, **rel))),
        ('key_collision', lambda x: key_collision(x, key=k, **kw)),
        ('key_collision, several keys', lambda x: key_collision(x, keys=ks, **kw)),
        ('key_collision, buckets', lambda x: key_collision(x, keys=ks, merge=False, **kw)),
        ('sorted_neighborhood', lambda x: sorted_neighborhood(x, key=k, window=3, **dict(mode, **rel))),
        ('sorted_neighborhood, several keys', lambda x: sorted_neighborhood(x, keys=KEYS, window=3, **dict(mode, **rel))),
        ('adaptive_sorted_neighborhood', lambda x: adaptive_sorted_neighborhood(x, key=k, window=3, **dict(mode, **rel))),
        ('intersection_index', lambda x: intersection_index(x, radius=t, **mode)),
        ('minhash', lambda x: minhash(x, h=16, radius=t, seed=seed)),
        ('minhash, numpy', lambda x: minhash(x, h=16, radius=t, seed=seed, use_numpy=True)),
        ('nn_descent', lambda x: nn_descent(x, radius=r, distance=m, seed=seed, **mode)),
        ('nn_descent_full', lambda x: nn_descent_full(x, radius=r, distance=m, seed=seed, **mode)),
        ('passjoin', lambda x: passjoin(x, r, distance=lev, **mode)),
        ('quickjoin', lambda x: quickjoin(x, r, distance=m, block_size=2, seed=seed, **mode)),
        ('vp_tree', lambda x: vp_tree(x, lev, r, **kw)),
        ('laesa', lambda x: laesa(x, lev, r, seed=seed, **mode)),
        ('all_pairs', lambda x: all_pairs(x, t)),
        ('ppjoin', lambda x: ppjoin(x, t)),
        ('ppjoin_plus', lambda x: ppjoin_plus(x, t)),
        ('hashjoin', lambda x: hashjoin(x, x[1:], key=k)),
        ('hashjoin, several keys', lambda x: hashjoin(x[1:], x, keys=ks)),
        ('ngrams', lambda x: ngrams(2, tuple(x))),
        ('WordTokenizer', lambda x: iter(TOKENIZER(' '.join(x)))),
        ('WordTokenizer, lower', lambda x: iter(LOWER(' '.join(x)))),
    )
    name, fn = d.choice(jobs)
    return name, fn, not name.startswith(('ngrams', 'Word'))


def step(it):
    return call(next, it, DONE)


def canon(results):
    return sorted((sorted(x) if isinstance(x, list) else list(x)) for x in results)


def drain(it):
    out = []
    while True:
        x = step(it)
        if x is DONE:
            return out
        out.append(list(x) if isinstance(x, list) else x)


def history(d):
    base = list(dict.fromkeys(d.list(lambda: d.text('ab', 1, 4), 4 if d.bool(0.9) else 1, d.wide(14, 3))))
    jobs = []
    for i in range(1 + d.int(0, 3)):
        name, fn, items = job(d)
        data = [w for w in d.shuffled(base) if d.bool(0.9)]
        # NOTE: strings of their own, to tell the items of a call from those of another
        data = [''.join(w) for w in data]
        jobs.append((name, fn, items, data))
    plans = []
    for name, fn, items, data in jobs:
        copy = list(data)
        alone = drain(call(fn, copy))
        check(len(copy) == len(data) and all(x is y for x, y in zip(copy, data)), '%s: the given list %s becomes %s', name, short(data), short(copy))
        plans.append({'name': name, 'fn': fn, 'data': data, 'mine': list(data), 'want': canon(alone), 'items': items, 'it': None, 'got': [], 'done': False})
    ops = d.list(lambda: (d.choice(('step', 'step', 'step', 'restart', 'mutate', 'other')), d.int(0, len(jobs) - 1), d.int(0, 2)), 0, d.wide(25))
    d.show({'jobs': [(name, data) for name, _, _, data in jobs], 'operations': ops})
    together = False
    kept = []
    for op, i, what in ops:
        p = plans[i]
        if op == 'restart':
            if p['it'] is not None and what and hasattr(p['it'], 'close'):
                p['it'].close()
            p['it'], p['got'], p['done'] = None, [], False
        elif op == 'mutate':
            if kept:
                c = kept[-1]
                if what == 0:
                    del c[:]
                elif what == 1:
                    c.append('intruder')
                else:
                    c.reverse()
        elif op == 'other':
            drain(call(p['fn'], list(reversed(p['data'][what:]))))
        else:
            advance(p, kept)
        together = together or sum(1 for q in plans if q['it'] is not None and not q['done'] and q['got']) > 1
    if together:
        d.nontrivial((tuple((p['name'], tuple(p['data'])) for p in plans), tuple(ops)))
    for p in plans:
        while not p['done']:
            advance(p, kept)
        got = canon(p['got'])
        check(got == p['want'], '%s gives %s over %s, but %s when alone', p['name'], short(got), short(p['data']), short(p['want']))
        check(len(p['mine']) == len(p['data']) and all(x is y for x, y in zip(p['mine'], p['data'])), '%s: the given list %s becomes %s', p['name'],
              short(p['data']), short(p['mine']))


def advance(p, kept):
    if p['done']:
        return
    if p['it'] is None:
        p['it'] = call(p['fn'], p['mine'])
    x = step(p['it'])
    if x is DONE:
        p['done'] = True
        return
    if isinstance(x, list):
        if p['items']:
            ids = set(map(id, p['mine']))
            check(all(id(y) in ids for y in x), '%s yields items which are not the given ones: %s', p['name'], short(x))
        p['got'].append(list(x))
        kept.append(x)
    else:
        p['got'].append(x)


TESTS = [
    Test(history, 14000, 250000),
]
