"""C07: the number of processes and the chunking never change the result."""
import random

from lib.engine import Test, check, lst, short
from lib import clus, gens
from lib.fakepool import FakePool
from lib.models import lev
from lib.parallel import STATE, shuffler, simulated

from fog.clustering import pairwise, blocking, quickjoin

SOURCES = ['fog/clustering/pairwise.py', 'fog/clustering/blocking.py', 'fog/clustering/quickjoin.py', 'fog/clustering/utils.py']
RULE = ('The same clustering run with one and several processes, any chunk size; with a simulated pool the order in '
        'which tasks complete is part of the generated case, with real processes it is whatever happens; non-trivial = '
        'at least one pair of similar items and more than one task.')
ASSUMPTIONS = ['The similarity relation is symmetric and the functions can be serialised by dill.',
               'The simulated pool stands for multiprocessing.Pool: tasks run to completion and results come in any order.']

def make(d):
    """(callable running the clusterer with extra options, n, edges, mode, bounds, description)"""
    which = d.choice(('pairwise', 'blocking', 'quickjoin'))
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    if which == 'quickjoin':
        items = list(dict.fromkeys(d.list(lambda: d.int(0, 40), 0, 24)))
        crowded = d.bool(0.25)
        radius = d.int(4, 40) if crowded else d.int(0, 4)
        n = len(items)
        index = dict((x, i) for i, x in enumerate(items))
        edges = set((i, j) for i in range(n) for j in range(i + 1, n) if abs(items[i] - items[j]) <= radius)
        bkw, lo, hi = clus.bounds(d, n)
        kw = dict(bkw, mode=mode, radius=radius, distance=lambda a, b: abs(a - b), block_size=d.int(2, 30) if crowded else d.int(1, 6),
                  seed=d.int(0, 99), vp_tree=d.bool(0.3))
        tasks = n > kw['block_size']

        def run(**extra):
            return [[index[x] for x in c] for c in lst(quickjoin, list(items), **dict(kw, **extra))]
        return run, n, edges, mode, lo, hi, {'algo': which, 'items': items, 'radius': radius, 'mode': mode, 'bounds': bkw,
                                             'block_size': kw['block_size'], 'vp_tree': kw['vp_tree']}, tasks, {}
    n, edges = clus.graph(d, 16)
    values = None
    if which == 'pairwise' and d.bool(0.35):
        # Keys are repeated: the relation is over a few values
        m, vedges = clus.graph(d, 5, 1)
        values = [d.int(0, m - 1) for _ in range(n)]
        if d.bool():
            vedges = vedges | set((v, v) for v in range(m))
        edges = set((i, j) for i in range(n) for j in range(i + 1, n)
                    if (min(values[i], values[j]), max(values[i], values[j])) in vedges)
    bkw, lo, hi = clus.bounds(d, n)
    kw = clus.relation(d, edges if values is None else vedges, lambda x: x, values is None)
    kw.update(bkw)
    kw['mode'] = mode
    shown = {'algo': which, 'n': n, 'edges': sorted(edges), 'mode': mode, 'bounds': bkw, 'radius': kw.get('radius')}
    extra_parallel = {}
    if which == 'pairwise':
        if d.bool(0.8):
            extra_parallel['chunk_size'] = d.int(1, 7)
        if values is not None:
            kw['key'] = lambda x: values[x]
        elif d.bool(0.3):
            inner = kw.get('similarity') or kw.get('distance')
            kw['similarity' if 'similarity' in kw else 'distance'] = lambda a, b: inner(a[1], b[1])
            kw['key'] = lambda x: ('k', x)
        fn = pairwise
        tasks = extra_parallel.get('chunk_size', 100) < n
    else:
        multiple = d.bool()
        assigned = [d.list(lambda: d.int(0, 4), 0 if multiple else 1, 3 if multiple else 1) for _ in range(n)]
        shown['blocks'] = assigned
        if multiple:
            kw['blocks'] = lambda x: assigned[x]
        else:
            kw['block'] = lambda x: assigned[x][0]
        edges = set((i, j) for i, j in edges if set(assigned[i]) & set(assigned[j]))
        fn = blocking
        tasks = len(set(b for bs in assigned for b in bs)) > 1
    shown['keys'] = values
    shown['chunk_size'] = extra_parallel.get('chunk_size')

    def run(**extra):
        return lst(fn, list(range(n)), **dict(kw, **extra))
    return run, n, edges, mode, lo, hi, shown, tasks, extra_parallel


def compare(d, sequential, parallel, n, edges, mode, lo, hi):
    if mode == 'connected_components':
        clus.check_components(parallel, n, edges, lo, hi)
        check(sorted(map(sorted, parallel)) == sorted(map(sorted, sequential)),
              'sequential clusters %s, parallel clusters %s', short(sequential), short(parallel))
    else:
        # Which items start the clusters may depend on the order pairs are found
        clus.check_fuzzy(parallel, n, edges, lo, hi)
        clus.check_fuzzy(sequential, n, edges, lo, hi)


def schedules(d):
    run, n, edges, mode, lo, hi, shown, tasks, extra = make(d)
    if STATE['real'] and d.int(0, 19):
        # The simulated pool could not be put in place: real processes, fewer cases
        return
    processes = d.int(2, 4)
    perm_seed = d.int(0, 1 << 16)
    d.show(dict(shown, processes=processes, completion_order_seed=perm_seed))
    if edges and tasks:
        d.nontrivial((repr(shown), perm_seed))
    d.label(shown['algo'] + ' ' + mode)
    sequential = run()
    with simulated(shuffler(perm_seed)):
        parallel = run(processes=processes, **extra)
    STATE['real'] = not FakePool.used
    compare(d, sequential, parallel, n, edges, mode, lo, hi)
    if shown['algo'] == 'pairwise':
        # imap keeps the order of the chunks: results do not depend on the schedule
        with simulated(lambda r: list(reversed(r))):
            again = run(processes=processes, **extra)
        compare(d, sequential, again, n, edges, mode, lo, hi)
        check(sorted((c[:1], sorted(c)) for c in again) == sorted((c[:1], sorted(c)) for c in parallel) or mode == 'connected_components',
              'clusters depend on the order of completion: %s or %s', short(parallel), short(again))


def processes(d):
    run, n, edges, mode, lo, hi, shown, tasks, extra = make(d)
    p = d.int(2, 3)
    d.show(dict(shown, processes=p))
    if edges and tasks:
        d.nontrivial(repr(shown))
    sequential = run()
    parallel = run(processes=p, **extra)
    compare(d, sequential, parallel, n, edges, mode, lo, hi)


def strings(d):
    """Real processes over strings, default chunk size, more items than a chunk."""
    base = gens.words_like(d, 4, 10, hi=6)
    data = list(dict.fromkeys(base + ['filler%dx%d' % (i * 7919, i) for i in range(d.int(60, 130))]))
    data = d.shuffled(data)
    d.show({'families': base, 'n': len(data)})
    index = dict((s, i) for i, s in enumerate(data))
    n = len(data)
    # Only the families can be within distance 1: fillers differ by more
    small = [i for i in range(n) if not data[i].startswith('filler')]
    edges = set((i, j) for i in small for j in small if i < j and lev(data[i], data[j]) <= 1)
    fill = [i for i in range(n) if data[i].startswith('filler')]
    edges |= set((min(i, j), max(i, j)) for i in fill for j in fill if i < j and lev(data[i], data[j]) <= 1)
    if edges:
        d.nontrivial(tuple(base))
    from Levenshtein import distance
    got = [[index[s] for s in c] for c in lst(pairwise, data, distance=distance, radius=1, processes=2)]
    clus.check_components(got, n, edges)


def many_chunks(d):
    """A matrix of many chunks: far from the diagonal too."""
    n = d.int(70, 170)
    size = d.choice((1, 1, 2, 2, 3))
    reach = d.choice((n // 2, 40, 64, 100, n - 10))
    rng = random.Random(d.int(0, 1 << 20))
    # Each item has at most one similar item, usually far away in the list
    order = list(range(n))
    edges = set()
    for i in order:
        j = i + reach + rng.randrange(3)
        if j < n and rng.random() < 0.7:
            edges.add((i, j))
    if rng.random() < 0.5:
        edges.add((0, n - 1))
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    perm_seed = d.int(0, 1 << 16)
    d.show({'n': n, 'chunk_size': size, 'edges': sorted(edges), 'mode': mode, 'completion_order_seed': perm_seed})
    if edges:
        d.nontrivial((n, size, tuple(sorted(edges))))
    if STATE['real'] and d.int(0, 9):
        return
    kw = clus.relation(d, edges, lambda x: x)
    with simulated(shuffler(perm_seed)):
        got = lst(pairwise, list(range(n)), mode=mode, processes=2, chunk_size=size, **kw)
    if mode == 'connected_components':
        clus.check_components(got, n, edges)
    else:
        clus.check_fuzzy(got, n, edges)


def big_tasks(d):
    """Blocks of hundreds of items."""
    perm_seed = d.int(0, 1 << 16)
    mode = d.choice(('connected_components', 'fuzzy_clusters'))
    rng = random.Random(d.int(0, 1 << 20))
    if STATE['real'] and d.int(0, 9):
        return
    if d.bool():
        n, edges = clus.big_graph(d, 200, 600)
        m = d.choice((1, 1, 2, 3))
        assigned = [[rng.randrange(m)] for _ in range(n)]
        multiple = d.bool()
        if multiple:
            assigned = [a + [rng.randrange(m)] for a in assigned]
        edges = set((i, j) for i, j in edges if set(assigned[i]) & set(assigned[j]))
        kw = clus.relation(d, edges, lambda x: x)
        kw.update({'blocks': lambda x: assigned[x]} if multiple else {'block': lambda x: assigned[x][0]})
        d.show({'algo': 'blocking', 'n': n, 'edges': sorted(edges), 'mode': mode, 'number of blocks': m, 'multiple': multiple})
        fn, items = blocking, list(range(n))
    else:
        n = clus.size(d, 200, 700)
        items = rng.sample(range(4 * n), n)
        radius = d.int(1, 5)
        index = dict((x, i) for i, x in enumerate(items))
        edges = set((min(i, index[y]), max(i, index[y])) for x, i in index.items() for y in range(x + 1, x + radius + 1) if y in index)
        kw = {'distance': lambda a, b: abs(a - b), 'radius': radius, 'seed': d.int(0, 99), 'vp_tree': d.bool(0.3)}
        if d.bool(0.7):
            kw['block_size'] = d.choice((20, 60, 150, 300))
        d.show({'algo': 'quickjoin', 'items': items, 'radius': radius, 'mode': mode, 'block_size': kw.get('block_size')})
        fn = quickjoin
    if edges:
        d.nontrivial((fn.__name__, n, tuple(sorted(edges))))
    with simulated(shuffler(perm_seed)):
        got = lst(fn, list(items), mode=mode, processes=2, **kw)
    if fn is quickjoin:
        got = [[index[x] for x in c] for c in got]
    (clus.check_components if mode == 'connected_components' else clus.check_fuzzy)(got, n, edges)


TESTS = [
    Test(big_tasks, 40, 1200, cpu=120),
    Test(many_chunks, 80, 3000, cpu=120),
    Test(schedules, 9000, 250000),
    Test(processes, 240, 6000, wall=60),
    Test(strings, 24, 400, wall=60),
]
