"""C34: what the caller's functions raise reaches the caller, and leaves nothing behind."""
import os
import shutil
import tempfile

from lib.engine import Test, Violation, call, check, lst, short
from lib import gens, parallel
from lib.models import lev

from fog.clustering import (adaptive_sorted_neighborhood, all_pairs, blocking, intersection_index, key_collision, laesa, minhash,
                            nn_descent, nn_descent_full, pairwise, passjoin, ppjoin, ppjoin_plus, quickjoin, sorted_neighborhood, vp_tree)
from fog.evaluation import clusters_to_labels, labels_to_clusters
from fog.join import hashjoin
from fog.tokenizers import ngrams

SOURCES = ['fog/clustering/blocking.py', 'fog/clustering/intersection_index.py', 'fog/clustering/key_collision.py',
           'fog/clustering/laesa.py', 'fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/clustering/pairwise.py',
           'fog/clustering/passjoin.py', 'fog/clustering/ppjoin.py', 'fog/clustering/quickjoin.py',
           'fog/clustering/sorted_neighborhood.py', 'fog/clustering/utils.py', 'fog/clustering/vp_tree.py',
           'fog/join/hashjoin.py', 'fog/evaluation/utils.py', 'fog/tokenizers/ngrams.py']
RULE = ('Any function taking functions (similarity, distance, key, keys, block, blocks, tokenizer) or an iterable, over families of strings; '
        'one of these functions, or the iterable, raises an exception of some type at some call or item, in this process or in others; '
        'non-trivial = the fault was raised after at least one call which went well.')
ASSUMPTIONS = ['Faults are exceptions other than StopIteration, GeneratorExit & KeyboardInterrupt.',
               'What is yielded before the exception is not looked at.']


class Boom(Exception):
    pass


class BoomKey(KeyError):
    pass


class BoomIndex(IndexError):
    pass


class BoomValue(ValueError):
    pass


class BoomType(TypeError):
    pass


class BoomAttribute(AttributeError):
    pass


class BoomZero(ZeroDivisionError):
    pass


class BoomOS(OSError):
    pass


class BoomAssertion(AssertionError):
    pass


class BoomRuntime(RuntimeError):
    pass


class BoomUnicode(UnicodeError):
    pass


KINDS = (Boom, BoomKey, BoomIndex, BoomValue, BoomType, BoomAttribute, BoomZero, BoomOS, BoomAssertion, BoomRuntime, BoomUnicode)


class Fault(object):
    """Raises at a given call, or for given arguments."""

    def __init__(self, kind, at=None, item=None, mark=None):
        self.kind = kind
        self.at = at
        self.item = item
        self.mark = mark
        self.calls = 0
        self.fired = False

    def seen(self, args):
        self.calls += 1
        if (self.at is not None and self.calls == self.at) or (self.item is not None and self.item in args):
            self.fired = True
            if self.mark is not None:
                open(self.mark, 'w').close()
            raise self.kind('fault', 42)

    def over(self, fn):
        def faulty(*args):
            self.seen(args)
            return fn(*args)
        return faulty

    def through(self, data):
        for x in data:
            self.seen((x,))
            yield x


def first(x):
    return x[:1]


def last(x):
    return x[-1:]


def ends(x):
    return [x[:1], x[-1:]]


def letters(x):
    return list(x)


def near(a, b):
    return lev(a, b) <= 1


def closeness(a, b):
    return -lev(a, b)


RELATIONS = ({'similarity': near}, {'distance': lev, 'radius': 1}, {'similarity': closeness, 'radius': -1}, {'distance': lambda a, b: not near(a, b)})


def job(d):
    """(name, function of the data and options, functions given)"""
    mode = {'mode': d.choice(('connected_components', 'fuzzy_clusters'))}
    rel = dict(d.choice(RELATIONS))
    num = {k: rel.pop(k) for k in list(rel) if k == 'radius'}
    seed = {'seed': d.int(0, 9)}
    t = d.choice((0.3, 0.5, 0.8))
    # name, function, options, functions
    jobs = (
        ('pairwise', pairwise, dict(mode, **num), rel),
        ('pairwise leader', pairwise, dict(num, mode='leader'), rel),
        ('pairwise with a key', pairwise, dict(mode, **num), dict(rel, key=first)),
        ('blocking', blocking, dict(mode, **num), dict(rel, block=first)),
        ('blocking, several blocks', blocking, dict(mode, **num), dict(rel, blocks=ends)),
        ('key_collision', key_collision, {}, {'key': first}),
        ('key_collision, several keys', key_collision, {}, {'keys': ends}),
        ('key_collision, buckets', key_collision, {'merge': False}, {'keys': ends}),
        ('sorted_neighborhood', sorted_neighborhood, dict(mode, window=3, **num), dict(rel, key=last)),
        ('adaptive_sorted_neighborhood', adaptive_sorted_neighborhood, dict(mode, window=3, **num), dict(rel, key=last)),
        ('intersection_index', intersection_index, dict(mode, radius=t), {'key': letters}),
        ('minhash', minhash, dict(seed, h=16, radius=t), {'key': letters}),
        ('nn_descent', nn_descent, dict(mode, **dict(seed, radius=1)), {'distance': lev}),
        ('nn_descent_full', nn_descent_full, dict(mode, **dict(seed, radius=1)), {'distance': lev}),
        ('passjoin', lambda x, **kw: passjoin(x, 1, **kw), mode, {'distance': lev}),
        ('quickjoin', lambda x, **kw: quickjoin(x, 1, **kw), dict(mode, block_size=2, **seed), {'distance': lev}),
        ('vp_tree', lambda x, distance: vp_tree(x, distance, 1), {}, {'distance': lev}),
        ('laesa', lambda x, distance, **kw: laesa(x, distance, 1, **kw), dict(mode, **seed), {'distance': lev}),
        ('all_pairs', lambda x, **kw: all_pairs(x, t, **kw), {}, {'tokenizer': letters}),
        ('ppjoin', lambda x, **kw: ppjoin(x, t, **kw), {}, {'tokenizer': letters}),
        ('ppjoin_plus', lambda x, **kw: ppjoin_plus(x, t, **kw), {}, {'tokenizer': letters}),
        ('hashjoin, left', lambda x, **kw: hashjoin(x, ['ab', 'b'], **kw), {}, {'key': first}),
        ('hashjoin, right', lambda x, **kw: hashjoin(['ab', 'b'], x, **kw), {}, {'keys': ends}),
        ('clusters_to_labels', lambda x, **kw: sorted(clusters_to_labels(([y] for y in x), **kw).items()), {}, {'key': last}),
        ('labels_to_clusters', lambda x: labels_to_clusters((y, y[:1]) for y in x), {}, {}),
        ('ngrams', lambda x: ngrams(2, tuple(x)), {}, {}),
    )
    return d.choice(jobs)


def canon(results):
    return sorted((sorted(map(str, x)) if isinstance(x, (list, tuple)) else [x]) for x in results)


def judge(name, run, fault, fired, want):
    """The fault comes out if it was raised."""
    try:
        got = list(run())
    except fault.kind as e:
        check(type(e) is fault.kind and e.args == ('fault', 42), '%s raised %r instead of %s', name, e, fault.kind.__name__)
        check(fired(), '%s raised an exception of another call', name)
        return True
    except (Violation, BaseException) as e:
        if not isinstance(e, Exception):
            raise
        raise Violation('%s raised %s: %s instead of what the given function raised, %s' % (name, type(e).__name__, str(e)[:200], fault.kind.__name__))
    check(not fired(), '%s swallows the %s raised by a given function and gives %s', name, fault.kind.__name__, short(got))
    check(want is None or canon(got) == want, '%s gives %s, and %s without any fault which was not raised', name, short(canon(got)), short(want))
    return False


def collection(d, lo=2):
    return list(dict.fromkeys(x for x in gens.words_like(d, lo, 10, hi=5) if x)) or ['a', 'ab']


def faults(d):
    data = collection(d)
    name, fn, options, functions = job(d)
    role = d.choice(sorted(functions) + ['data'])
    kind = d.choice(KINDS)

    def run(fault):
        given = dict(functions)
        if role in given:
            given[role] = fault.over(given[role])
        x = fault.through(data) if role == 'data' else list(data)
        return fn(x, **dict(options, **given))
    d.show({'function': name, 'data': data, 'options': options, 'faulty': role, 'exception': kind.__name__})
    none = Fault(kind)
    want = canon(lst(run, none))
    d.label(name)
    if not none.calls:
        return
    fault = Fault(kind, at=1 + d.int(0, none.calls - 1))
    d.show({'function': name, 'data': data, 'options': options, 'faulty': role, 'exception': kind.__name__, 'at': fault.at})
    if fault.at > 1:
        d.nontrivial((name, tuple(data), repr(sorted(options.items())), role, kind.__name__, fault.at))
    judge(name, lambda: run(fault), fault, lambda: fault.fired, want)
    again = canon(lst(run, Fault(kind)))
    check(again == want, '%s gives %s after a fault, %s before', name, short(again), short(want))


def jobs_in_processes(d):
    mode = {'mode': d.choice(('connected_components', 'fuzzy_clusters'))}
    k = d.int(0, 3)
    if k == 0:
        chunk = {'chunk_size': d.int(1, 7)} if d.bool() else {}
        return 'pairwise', pairwise, dict(mode, radius=1, **chunk), 'distance', lev, {}
    if k == 1:
        return 'blocking', blocking, dict(mode, radius=1), 'distance', lev, {'block': first}
    if k == 2:
        return 'blocking, several blocks', blocking, dict(mode), 'similarity', near, {'blocks': ends}
    return 'quickjoin', lambda x, **kw: quickjoin(x, 1, **kw), dict(mode, block_size=2, seed=d.int(0, 9)), 'distance', lev, {}


def in_processes(d, real):
    data = collection(d, 3)
    name, fn, options, role, function, others = jobs_in_processes(d)
    item = d.choice(data)
    kind = d.choice(KINDS)
    processes = d.int(2, 3)
    d.show({'function': name, 'data': data, 'options': options, 'faulty': role, 'exception': kind.__name__, 'item': item, 'processes': processes})
    d.label(name)
    want = canon(lst(fn, list(data), **dict(options, **dict(others, **{role: function}))))
    if options['mode'] == 'fuzzy_clusters':
        # Which items start the clusters depends on the order pairs are found
        want = None
    scratch = tempfile.mkdtemp(prefix='verif-c34-')
    try:
        mark = os.path.join(scratch, 'fired')
        fault = Fault(kind, item=item, mark=mark)

        def run():
            return fn(list(data), processes=processes, **dict(options, **dict(others, **{role: fault.over(function)})))
        if judge(name, run, fault, lambda: os.path.exists(mark), want):
            d.nontrivial((name, tuple(data), repr(sorted(options.items())), kind.__name__, item, processes))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def simulated(d):
    if parallel.STATE['real'] and d.int(0, 39):
        return
    seed = d.int(0, 1 << 16)
    with parallel.simulated(parallel.shuffler(seed)):
        in_processes(d, False)
    parallel.STATE['real'] = not parallel.FakePool.used


def processes(d):
    in_processes(d, True)


TESTS = [
    Test(faults, 16000, 300000),
    Test(simulated, 1600, 30000, wall=60),
    Test(processes, 80, 1500, wall=60),
]
