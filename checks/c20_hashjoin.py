"""C20: hashjoin yields exactly the pairs sharing a key."""
import random
import warnings
from collections import Counter

from lib import clus
from lib.engine import Test, check, lst, short

from fog.join import hashjoin

SOURCES = ['fog/join/hashjoin.py']
RULE = ('Two collections of any relative sizes and types (lists, tuples, sets, dicts of keys, generators, iterators) whose '
        'items have a key or several keys (any iterable, possibly empty or repeated); non-trivial = some pair joins and some pair '
        'does not, and both sides have several items.')
ASSUMPTIONS = ['`key` and `keys` are functions of the item; keys are hashable.']


def side(d, tag, hi):
    n = d.length(0, hi) if d.rng is not None else 0
    n = d.raw(hi, lambda: n)
    return [(tag, i) for i in range(n)]


def given(d, items):
    k = d.int(0, 6)
    name = ('list', 'tuple', 'generator', 'iterator', 'map', 'dict', 'set')[k]
    x = (list(items), tuple(items), (i for i in items), iter(list(items)), map(lambda i: i, items), dict.fromkeys(items), set(items))[k]
    return x, name


def keyed(d, ks):
    k = d.int(0, 4)
    return (lambda: list(ks), lambda: tuple(ks), lambda: set(ks), lambda: (x for x in ks), lambda: dict.fromkeys(ks))[k]


def large(d):
    """More items and keys, one side possibly much longer than the other."""
    n, m = clus.size(d, 1, 150), clus.size(d, 1, 150)
    crowd(d, n, m)


def huge(d):
    n, m = clus.size(d, 200, 900), clus.size(d, 1, 900)
    if d.bool():
        n, m = m, n
    crowd(d, n, m)


def crowd(d, n, m):
    rng = random.Random(d.int(0, 1 << 20))
    left = [('l', i) for i in range(n)]
    right = list(left) if d.bool(0.1) else [('r', i) for i in range(m)]
    items = list(dict.fromkeys(left + right))
    k = rng.choice((3, 30, 400))
    multiple = d.bool()
    if multiple:
        assigned = dict((x, [rng.randrange(k) for _ in range(rng.choice((0, 1, 2, 6)))]) for x in items)
        kw = {'keys': lambda x: (y for y in assigned[x])}
    else:
        assigned = dict((x, [rng.randrange(k)]) for x in items)
        kw = {'key': lambda x: assigned[x][0]}
    run(d, left, right, assigned, kw, multiple)


def join(d):
    left = side(d, 'l', d.choice((4, 10)))
    right = side(d, 'r', d.choice((4, 10)))
    if d.bool(0.2):
        # Same items on both sides
        right = list(left)
    items = list(dict.fromkeys(left + right))
    multiple = d.bool()
    pool = d.choice(((1, 2, 3, 'k', 'q', None, ('t',), 0), ('', 'k', None, 0, (), 'kq', ' ', b'', '0', -1, -2), (1, 1.0, 2, True, 0, False, 2.0)))
    pool = pool[:d.int(1, len(pool))]
    if multiple:
        assigned = dict((x, d.list(lambda: d.choice(pool), 0, 3)) for x in items)
        makers = dict((x, keyed(d, assigned[x])) for x in items)
        if d.bool(0.1):
            # The keys of an item are the characters of a string
            assigned = dict((x, d.text('abcd', 0, 3)) for x in items)
            makers = dict((x, lambda x=x: assigned[x]) for x in items)
        kw = {'keys': lambda x: makers[x]()}
    else:
        assigned = dict((x, [d.choice(pool)]) for x in items)
        kw = {'key': lambda x: assigned[x][0]}
    run(d, left, right, assigned, kw, multiple)


def run(d, left, right, assigned, kw, multiple):
    L, ln = given(d, left)
    R, rn = given(d, right)
    d.show({'left': [(x, assigned[x]) for x in left], 'right': [(x, assigned[x]) for x in right], 'given': (ln, rn), 'multiple': multiple})
    want = Counter((a, b) for a in left for b in right if set(assigned[a]) & set(assigned[b]))
    if want and len(want) < len(left) * len(right) and len(left) > 1 and len(right) > 1:
        d.nontrivial((repr(assigned), ln, rn, multiple))
    d.label('%s left' % ('longer' if len(left) > len(right) else 'shorter'))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = [tuple(p) for p in lst(hashjoin, L, R, **kw)]
    check(Counter(got) == want, 'pairs are %s, expected %s', short(got), short(sorted(want.elements())))


TESTS = [
    Test(join, 40000, 1200000),
    Test(large, 500, 15000),
    Test(huge, 32, 800, cpu=120),
]
