"""C03: jaccard, dice, overlap and binary cosine follow their set definitions."""
import math
from collections import Counter, OrderedDict

from lib.engine import Test, call, check

from fog.metrics import (
    jaccard_similarity, dice_coefficient, overlap_coefficient,
    binary_cosine_similarity, sparse_binary_cosine_similarity
)
from fog.metrics import utils

SOURCES = ['fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/cosine.py', 'fog/metrics/utils.py']
RULE = ('Pairs of collections over small universes of strings, numbers, tuples, None (with duplicates), given as '
        'list, tuple, str, set, frozenset, dict, Counter, generator or dict view; non-trivial = the sets intersect '
        'without being equal.')
ASSUMPTIONS = ['The value on two empty collections is left unspecified (the code itself varies with object identity).',
               'Floating point results are compared with a 1e-9 tolerance.']

# A helper, checked as long as there is one
intersection_size = getattr(utils, 'intersection_size', None)

UNIVERSES = [
    ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'],
    list(range(-3, 9)),
    ['apple', 'pear', 'apple pie', '', ' ', 'é', '\u0065\u0301', 'APPLE'],
    [None, 0, 1, 2.5, 'x', ('a', 1), frozenset([1]), -1, -2, b'x', float('inf')],
    list(range(40)),
]


def reference(name, A, B):
    i, a, b = len(A & B), len(A), len(B)
    if a == 0 or b == 0:
        return 0.0
    if name == 'jaccard':
        return i / len(A | B)
    if name == 'dice':
        return 2 * i / (a + b)
    if name == 'overlap':
        return i / min(a, b)
    return i / math.sqrt(a * b)


METRICS = [
    ('jaccard', jaccard_similarity),
    ('dice', dice_coefficient),
    ('overlap', overlap_coefficient),
    ('binary_cosine', binary_cosine_similarity),
]


def close(a, b):
    return abs(a - b) <= 1e-9


def represent(d, items):
    """(factory, snapshot) of one representation of the collection."""
    kind = d.int(0, 10)
    if kind == 0:
        return lambda: list(items), 'list'
    if kind == 1:
        return lambda: tuple(items), 'tuple'
    if kind == 2:
        return lambda: set(items), 'set'
    if kind == 3:
        return lambda: frozenset(items), 'frozenset'
    if kind == 4:
        return lambda: dict((x, i) for i, x in enumerate(items)), 'dict'
    if kind == 5:
        return lambda: Counter(items), 'Counter'
    if kind == 6:
        return lambda: (x for x in items), 'generator'
    if kind == 7:
        return lambda: OrderedDict.fromkeys(items).keys(), 'dict view'
    if kind == 8 and all(isinstance(x, str) and len(x) == 1 for x in items):
        return lambda: ''.join(items), 'str'
    if kind == 9:
        # Zero and None values: membership is about keys, not values
        return lambda: dict((x, None) for x in items), 'dict of None'
    return lambda: list(reversed(items)), 'reversed list'


def snapshot(x):
    if isinstance(x, dict):
        return sorted(((repr(k), repr(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, x))
    if isinstance(x, (list, tuple)):
        return [repr(v) for v in x]
    return None


def definition(d):
    U = d.choice(UNIVERSES)
    hi = len(U)
    a = d.list(lambda: d.choice(U), 0, d.wide(hi + 4))
    kind = d.int(0, 3)
    if kind == 0:
        b = d.list(lambda: d.choice(U), 0, d.wide(hi + 4))
    elif kind == 1:
        b = [x for x in a if d.bool()] + d.list(lambda: d.choice(U), 0, 3)
    elif kind == 2:
        b = d.shuffled(a)
    else:
        b = [x for x in U if x not in a]
    if not a and not b:
        b = [U[0]]
    ra, na = represent(d, a)
    rb, nb = represent(d, b)
    A, B = set(a), set(b)
    d.show({'A': (na, a), 'B': (nb, b)})
    if A & B and A != B:
        d.nontrivial((na, nb, sorted(map(repr, A)), sorted(map(repr, B))))
    d.label('equal' if A == B else ('disjoint' if not A & B else ('subset' if A <= B or B <= A else 'overlapping')))
    for name, fn in METRICS:
        want = reference(name, A, B)
        x, y = ra(), rb()
        sx, sy = snapshot(x), snapshot(y)
        got = call(fn, x, y)
        check(close(got, want), '%s(A, B) = %r, definition gives %r', name, got, want)
        check(snapshot(x) == sx and snapshot(y) == sy, '%s modified its arguments', name)
        check(0 <= got <= 1 + 1e-12, '%s out of [0, 1]: %r', name, got)
        back = call(fn, rb(), ra())
        check(close(back, want), '%s(B, A) = %r, definition gives %r', name, back, want)
        if A:
            same = call(fn, ra(), frozenset(A))
            check(close(same, 1.0), '%s of equal sets = %r', name, same)
            if na not in ('generator', 'dict view'):
                z = ra()
                check(close(call(fn, z, z), 1.0), '%s(A, A) != 1', name)
    got = call(sparse_binary_cosine_similarity, A, B)
    want = reference('binary_cosine', A, B)
    for x, y in ((ra(), rb()), (rb(), ra())) if intersection_size else ():
        size = call(intersection_size, x, y)
        check(size == len(A & B), 'intersection_size = %r, expected %r', size, len(A & B))
    check(close(got, want), 'sparse_binary_cosine_similarity = %r, definition gives %r', got, want)


def large(d):
    """Large sets, sizes given by their overlap: no reference over elements needed."""
    i, a, b = d.int(0, 60), d.int(0, 400), d.int(0, 400)
    if not d.int(0, 99):
        # Thousands of items in common
        i *= 200
    if i + a == 0 or i + b == 0:
        i = 1
    A = ['s%d' % k for k in range(i)] + ['a%d' % k for k in range(a)]
    B = ['b%d' % k for k in range(b)] + ['s%d' % k for k in range(i)]
    d.show({'intersection': i, 'A only': a, 'B only': b})
    if i and (a or b):
        d.nontrivial((i, a, b))
    la, lb = i + a, i + b
    for name, fn, want in (
        ('jaccard', jaccard_similarity, i / (i + a + b)),
        ('dice', dice_coefficient, 2 * i / (la + lb)),
        ('overlap', overlap_coefficient, i / min(la, lb)),
        ('binary_cosine', binary_cosine_similarity, i / math.sqrt(la * lb)),
    ):
        got = call(fn, A, set(B))
        check(close(got, want), '%s = %r, definition gives %r', name, got, want)
        got = call(fn, frozenset(B), A + A)
        check(close(got, want), '%s (swapped) = %r, definition gives %r', name, got, want)
    for x, y in ((A, set(B)), (dict.fromkeys(B), A + A)) if intersection_size else ():
        got = call(intersection_size, x, y)
        check(got == i, 'intersection_size = %r, expected %r', got, i)


TESTS = [
    Test(definition, 40000, 1200000),
    Test(large, 4000, 100000),
]
