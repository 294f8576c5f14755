"""C02: the bounded variants agree with the true distances."""
import os

from lib.engine import Test, call, check, eq
from lib import gens
from lib.models import lev, lev_long, osa
from checks.c01_levenshtein import leaks, fresh, nontrivial

from cfog.metrics import (
    limited_levenshtein_distance,
    levenshtein_distance_lte1,
    damerau_levenshtein_distance_lte1
)

NEEDS_CFOG = True
HARD = True
SOURCES = ['cfog/metrics/levenshtein.pyx']
RULE = ('Pairs of strings as in C01 and bounds around the true distance; non-trivial = the strings differ, both are '
        'non-empty and share at least one character.')
ASSUMPTIONS = ['The references are naive full-matrix dynamic programs over Python code points.']


def limited(d):
    a, b = gens.string_pair(d, 10)
    k = d.weighted(((3, None), (1, 'big'), (2, 'any')))
    want = lev(a, b)
    if k is None:
        k = max(0, want + d.int(-2, 2))
    elif k == 'big':
        k = d.choice((20, 100, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2))
    else:
        k = d.int(0, 12)
    d.show({'max_distance': k, 'A': a, 'B': b})
    nontrivial(d, a, b)
    d.label('within' if want <= k else 'beyond')
    expected = want if want <= k else k + 1
    eq(call(limited_levenshtein_distance, k, a, b), expected, 'limited_levenshtein_distance(k, A, B)')
    eq(call(limited_levenshtein_distance, k, b, a), expected, 'limited_levenshtein_distance(k, B, A)')
    eq(call(limited_levenshtein_distance, k, a, fresh(a)), 0, 'limited_levenshtein_distance(k, A, A)')


def limited_long(d):
    alpha = gens.alphabet(d)
    a = d.text(alpha, 1, 30) * d.int(1, 5)
    b = gens.edit(d, a, alpha, d.int(0, 10))
    if d.bool():
        b = d.text(alpha, 0, 6) + b
    k = d.int(0, 14)
    d.show({'max_distance': k, 'A': a, 'B': b})
    nontrivial(d, a, b)
    want = lev(a, b)
    d.label('within' if want <= k else 'beyond')
    expected = want if want <= k else k + 1
    eq(call(limited_levenshtein_distance, k, a, b), expected, 'limited_levenshtein_distance(k, A, B)')
    eq(call(limited_levenshtein_distance, k, b, a), expected, 'limited_levenshtein_distance(k, B, A)')


def limited_huge(d):
    a, b = gens.huge_pair(d)
    want = lev_long(*sorted((a, b), key=len))
    k = max(0, want + d.int(-2, 2)) if d.bool(0.7) else d.choice((254, 255, 256, 257, 65535, 65536, 65537))
    d.show({'max_distance': k, 'A': a if len(a) < 400 else (a[:200], len(a)), 'B': b if len(b) < 400 else (b[:200], len(b))})
    d.label('within' if want <= k else 'beyond')
    if want > 255:
        d.nontrivial((k, a[:300], b[:300], len(a), len(b)))
    eq(call(limited_levenshtein_distance, k, a, b), want if want <= k else k + 1, 'limited_levenshtein_distance(k, A, B)')
    for x, y in ((a, b), (a, gens.edit(d, a, 'ab', d.int(0, 2)))):
        # What is left without the common prefix then suffix
        p = len(os.path.commonprefix([x, y]))
        s = len(os.path.commonprefix([x[p:][::-1], y[p:][::-1]]))
        u, v = x[p:len(x) - s], y[p:len(y) - s]
        one = len(u) <= 1 and len(v) <= 1
        done = one or (len(u) == len(v) == 2 and u == v[::-1])
        eq(bool(call(levenshtein_distance_lte1, x, y)), one, 'levenshtein_distance_lte1 of long strings')
        eq(bool(call(damerau_levenshtein_distance_lte1, x, y)), done, 'damerau_levenshtein_distance_lte1 of long strings')


def lte1(d):
    alpha = gens.alphabet(d)
    a = d.text(alpha, 0, d.choice((3, 8, 30)))
    b = gens.edit(d, a, alpha, d.weighted(((4, 1), (4, 2), (1, 0), (1, 3))))
    if d.bool():
        a, b = b, a
    d.show({'A': a, 'B': b})
    nontrivial(d, a, b)
    want, dwant = lev(a, b) <= 1, osa(a, b) <= 1
    d.label('lev<=1' if want else ('damerau<=1 only' if dwant else 'both > 1'))
    for x, y, o in ((a, b, '(A, B)'), (b, a, '(B, A)')):
        got = call(levenshtein_distance_lte1, x, y)
        eq(bool(got), want, 'levenshtein_distance_lte1' + o)
        got = call(damerau_levenshtein_distance_lte1, x, y)
        eq(bool(got), dwant, 'damerau_levenshtein_distance_lte1' + o)
    eq(bool(call(levenshtein_distance_lte1, a, fresh(a))), True, 'levenshtein_distance_lte1(A, A)')
    eq(bool(call(damerau_levenshtein_distance_lte1, a, fresh(a))), True, 'damerau_levenshtein_distance_lte1(A, A)')


def memory(d):
    a, b = gens.string_pair(d, 40)
    k = d.int(0, 10)
    d.show({'max_distance': k, 'A': a, 'B': b})
    nontrivial(d, a, b)
    check(not leaks(lambda: limited_levenshtein_distance(k, a, b)), 'limited: native memory grows at each call')
    check(not leaks(lambda: levenshtein_distance_lte1(a, b)), 'lte1: native memory grows at each call')
    check(not leaks(lambda: damerau_levenshtein_distance_lte1(a, b)), 'damerau lte1: native memory grows at each call')


TESTS = [
    Test(limited, 90000, 2500000),
    Test(limited_long, 2000, 40000),
    Test(limited_huge, 240, 6000),
    Test(lte1, 60000, 1500000),
    Test(memory, 1500, 20000),
]
