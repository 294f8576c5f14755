"""C04: cosine, dot product, norm, normalisation and weighted jaccard follow their definitions."""
from collections import Counter, defaultdict
from fractions import Fraction
import math

from lib.engine import Test, call, check, eq

from fog.metrics import (
    cosine_similarity, sparse_cosine_similarity, sparse_dot_product, sparse_norm, sparse_normalize,
    weighted_jaccard_similarity
)

SOURCES = ['fog/metrics/jaccard.py', 'fog/metrics/cosine.py']
RULE = ('Pairs of sparse vectors (dicts and Counters, integer, float and zero weights, shared and private '
        'dimensions) and of sequences; non-trivial = both vectors are non-null, share a weighted dimension and differ.')
ASSUMPTIONS = ['Weights are finite and between 1e-15 and 1e19 in magnitude (or zero): no overflow nor underflow.',
               'Weighted jaccard is only claimed for non-negative weights.',
               'Floating point results are compared with a 1e-9 relative tolerance.']


def close(a, b, scale=1.0):
    return abs(a - b) <= 1e-9 * max(1.0, abs(scale))


def weight(d, negative):
    k = d.weighted(((6, 0), (3, 1), (1, 2), (2, 3)))
    if k == 0:
        w = d.int(1, 6)
    elif k == 1:
        w = d.int(1, 40) / 8
    elif k == 2:
        w = d.int(1, 10 ** 6)
    else:
        return d.choice((0, 0.0))
    return -w if negative and d.bool(0.3) else w


KEYS = ['a', 'b', 'c', 'd', 'e', 'f', '', 0, 1, ('t',), None]


def vectors(d, negative=False, lo=0):
    def vec():
        v = {}
        for k in d.list(lambda: d.choice(keys), lo, size):
            v[k] = weight(d, negative)
        return v
    keys, size = (KEYS, 8) if not d.bool(0.03) else (KEYS + list(range(2, 200)), 150)
    A = vec()
    kind = d.int(0, 3)
    if kind == 0:
        B = vec()
    elif kind == 1:
        B = dict(A)
        for k in d.list(lambda: d.choice(KEYS), 0, 3):
            B[k] = weight(d, negative)
    elif kind == 2:
        B = dict(reversed(list(A.items())))
    else:
        f = d.choice((2, 3, 0.5))
        B = {k: w * f for k, w in A.items()}
    if d.bool(0.3):
        A = Counter(A)
    if d.bool(0.3):
        B = Counter(B)
    elif d.bool(0.2):
        # Looking for a missing dimension must not add it
        B = defaultdict(float, B)
    return A, B


def exact_dot(A, B):
    return sum(Fraction(w) * Fraction(B[k]) for k, w in A.items() if k in B)


def ref_cosine(A, B):
    xx, yy, xy = exact_dot(A, A), exact_dot(B, B), exact_dot(A, B)
    if xx == 0 or yy == 0:
        return 0.0
    return float(xy) / (math.sqrt(float(xx)) * math.sqrt(float(yy)))


def note(d, A, B):
    if A != B and any(A[k] and B.get(k) for k in A):
        d.nontrivial((sorted(map(repr, A.items())), sorted(map(repr, B.items()))))
    d.label('null' if not any(A.values()) or not any(B.values()) else 'weighted')


def cosine(d):
    A, B = vectors(d, negative=True)
    d.show({'A': A, 'B': B})
    note(d, A, B)
    want = ref_cosine(A, B)
    ca, cb = dict(A), dict(B)
    for fn in (sparse_cosine_similarity, cosine_similarity):
        got = call(fn, A, B)
        check(close(got, want), '%s(A, B) = %r, definition gives %r', fn.__name__, got, want)
        got = call(fn, B, A)
        check(close(got, want), '%s(B, A) = %r, definition gives %r', fn.__name__, got, want)
        if any(A.values()):
            got = call(fn, A, A)
            check(close(got, 1.0), '%s(A, A) = %r', fn.__name__, got)
            got = call(fn, A, {k: w * 3 for k, w in A.items()})
            check(close(got, 1.0), '%s(A, 3A) = %r', fn.__name__, got)
    check(dict(A) == ca and dict(B) == cb, 'arguments were modified')
    check(list(A) == list(ca) and list(B) == list(cb), 'arguments were modified')


def sequences(d):
    """cosine_similarity of sequences is the cosine of their frequencies."""
    U = d.choice(['ab', 'abcd', 'abcdefgh', 'a bA', ' \n\tab'])
    a = d.list(lambda: d.choice(U), 0, 14)
    b = d.list(lambda: d.choice(U), 0, 14)
    form = d.choice((list, tuple, ''.join, iter))
    form2 = d.choice((list, tuple, ''.join, Counter))
    d.show({'A': a, 'B': b, 'forms': (form.__name__, form2.__name__)})
    A, B = {}, {}
    for x in a:
        A[x] = A.get(x, 0) + 1
    for x in b:
        B[x] = B.get(x, 0) + 1
    note(d, A, B)
    got = call(cosine_similarity, form(a), form2(b))
    want = ref_cosine(A, B)
    check(close(got, want), 'cosine_similarity = %r, cosine of the frequencies is %r', got, want)
    check(close(call(cosine_similarity, form2(b), form(a)), want), 'cosine_similarity is not symmetric')


def algebra(d):
    A, B = vectors(d, negative=True)
    d.show({'A': A, 'B': B})
    note(d, A, B)
    ca, cb = dict(A), dict(B)
    dot = exact_dot(A, B)
    scale = float(sum(abs(Fraction(w) * Fraction(B[k])) for k, w in A.items() if k in B))
    for x, y in ((A, B), (B, A)):
        got = call(sparse_dot_product, x, y)
        check(close(got, float(dot), scale), 'sparse_dot_product = %r, definition gives %r', got, float(dot))
    norm = math.sqrt(float(exact_dot(A, A)))
    got = call(sparse_norm, A)
    check(close(got, norm, norm), 'sparse_norm = %r, definition gives %r', got, norm)
    N = call(sparse_normalize, A)
    if norm == 0:
        check(all(v == 0 for v in N.values()), 'the null vector was normalised to %r', N)
    else:
        check(set(k for k, v in N.items() if v) == set(k for k, w in A.items() if w), 'sparse_normalize changed dimensions')
        for k, w in A.items():
            check(close(N.get(k, 0.0), w / norm), 'normalised weight of %r: %r instead of %r', k, N.get(k), w / norm)
        check(close(call(sparse_norm, N), 1.0), 'the norm of a normalised vector is not 1')
        if any(B.values()):
            M = call(sparse_normalize, B)
            check(close(call(sparse_dot_product, N, M), ref_cosine(A, B)), 'dot of normalised vectors differs from the cosine')
    check(dict(A) == ca and dict(B) == cb, 'arguments were modified')


def weighted_jaccard(d):
    A, B = vectors(d)
    d.show({'A': A, 'B': B})
    note(d, A, B)
    ca, cb = dict(A), dict(B)
    keys = set(A) | set(B)
    num = sum(min(Fraction(A.get(k, 0)), Fraction(B.get(k, 0))) for k in keys)
    den = sum(max(Fraction(A.get(k, 0)), Fraction(B.get(k, 0))) for k in keys)
    want = float(num / den) if den else 0.0
    for x, y in ((A, B), (B, A)):
        if not den and x is y:
            continue
        got = call(weighted_jaccard_similarity, x, y)
        check(close(got, want), 'weighted_jaccard_similarity = %r, definition gives %r', got, want)
    if any(A.values()):
        check(close(call(weighted_jaccard_similarity, A, dict(A)), 1.0), 'weighted jaccard of equal vectors is not 1')
        check(close(call(weighted_jaccard_similarity, A, A), 1.0), 'weighted jaccard of a vector with itself is not 1')
    check(dict(A) == ca and dict(B) == cb, 'arguments were modified')


def scaled(d):
    """Tiny or huge vectors: scaling by powers of two is exact."""
    A, B = vectors(d, negative=True)
    a, b = 2.0 ** d.int(-40, 40), 2.0 ** d.int(-40, 40)
    d.show({'A': A, 'B': B, 'scales': (a, b)})
    note(d, A, B)
    X, Y = ({k: w * s for k, w in V.items()} for V, s in ((A, a), (B, b)))
    want = ref_cosine(A, B)
    for x, y in ((X, Y), (Y, X)):
        got = call(sparse_cosine_similarity, x, y)
        check(close(got, want), 'sparse_cosine_similarity = %r, definition gives %r', got, want)
        got = call(cosine_similarity, x, y)
        check(close(got, want), 'cosine_similarity = %r, definition gives %r', got, want)
    tol = 1e-9 * a * b * float(sum(abs(Fraction(w) * Fraction(B[k])) for k, w in A.items() if k in B))
    got, want = call(sparse_dot_product, X, Y), a * b * float(exact_dot(A, B))
    check(abs(got - want) <= tol, 'sparse_dot_product = %r, definition gives %r', got, want)
    norm = math.sqrt(float(exact_dot(A, A)))
    got, want = call(sparse_norm, X), a * norm
    check(abs(got - want) <= 1e-9 * want, 'sparse_norm = %r, definition gives %r', got, want)
    if norm:
        N = call(sparse_normalize, X)
        for k, w in A.items():
            check(close(N.get(k, 0.0), w / norm), 'normalised weight of %r: %r instead of %r', k, N.get(k), w / norm)
    P, Q = ({k: abs(w) for k, w in V.items()} for V in (A, B))
    keys = set(P) | set(Q)
    num = sum(min(Fraction(P.get(k, 0)), Fraction(Q.get(k, 0))) for k in keys)
    den = sum(max(Fraction(P.get(k, 0)), Fraction(Q.get(k, 0))) for k in keys)
    want = float(num / den) if den else 0.0
    got = call(weighted_jaccard_similarity, {k: w * a for k, w in P.items()}, {k: w * a for k, w in Q.items()})
    check(close(got, want), 'weighted_jaccard_similarity = %r, definition gives %r', got, want)


TESTS = [
    Test(scaled, 12000, 400000),
    Test(cosine, 20000, 600000),
    Test(sequences, 10000, 300000),
    Test(algebra, 20000, 600000),
    Test(weighted_jaccard, 20000, 600000),
]
