"""C01: cfog's levenshtein_distance is the Levenshtein distance."""
import ctypes
import os

from lib.engine import Test, call, check, eq
from lib import gens
from lib.models import lev, lev_long

from cfog.metrics import levenshtein_distance

NEEDS_CFOG = True
HARD = True
SOURCES = ['cfog/metrics/levenshtein.pyx']
RULE = ('Pairs of strings over tiny, latin and exotic (combining, astral, NUL) alphabets, most of them derived '
        'from one another by edits or sharing affixes; non-trivial = the strings differ, both are non-empty and '
        'share at least one character.')
ASSUMPTIONS = ['The reference is a naive full-matrix dynamic program over Python code points.']

_libc = ctypes.CDLL(None)


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def in_use():
    f = _libc.mallinfo2
    f.restype = _Mallinfo2
    m = f()
    return m.uordblks + m.hblkhd


def leaks(fn, calls=60):
    """Whether native memory grows with every batch of identical calls."""
    if os.environ.get('VERIF_ASAN'):
        return False
    for _ in range(3):
        fn()
    growth = []
    for _ in range(3):
        before = in_use()
        for _ in range(calls):
            fn()
        growth.append(in_use() - before)
    # A leak loses at least one 16 byte chunk per call, in every batch
    return min(growth) >= calls * 16


def nontrivial(d, a, b):
    if a != b and a and b and set(a) & set(b):
        d.nontrivial((a, b))


def fresh(s):
    """An equal string which is not the same object."""
    return s[:1] + s[1:] if len(s) < 2 else (s + '!')[:-1]


def exact(d):
    a, b = gens.string_pair(d, 10)
    d.show({'A': a, 'B': b})
    nontrivial(d, a, b)
    want = lev(a, b)
    d.label('distance %s' % (want if want < 4 else '4+'))
    got = call(levenshtein_distance, a, b)
    eq(got, want, 'levenshtein_distance(A, B)')
    eq(call(levenshtein_distance, b, a), want, 'levenshtein_distance(B, A)')
    eq(call(levenshtein_distance, a, fresh(a)), 0, 'levenshtein_distance(A, A)')


def long_strings(d):
    """Longer strings: buffers, counters and storage kinds."""
    alpha = gens.alphabet(d)
    unit = d.text(alpha, 1, 30)
    a = unit * d.int(1, 12)
    b = gens.edit(d, a, alpha, d.int(0, 12))
    if d.bool():
        b = d.text(alpha, 0, 3) + b
    if d.bool():
        b = b + d.text(alpha, 0, 3)
    if len(a) * len(b) > 40000:
        a, b = a[:200], b[:200]
    d.show({'A': a, 'B': b})
    nontrivial(d, a, b)
    eq(call(levenshtein_distance, a, b), lev(a, b), 'levenshtein_distance(A, B)')


def huge(d):
    """Distances and lengths over 255 and 65535."""
    a, b = gens.huge_pair(d)
    d.show({'A': a if len(a) < 400 else (a[:200], len(a)), 'B': b if len(b) < 400 else (b[:200], len(b))})
    want = lev_long(*sorted((a, b), key=len)[::-1]) if len(a) + len(b) < 6000 else lev_long(*sorted((a, b), key=len))
    d.label('distance %s' % ('<256' if want < 256 else '<65536' if want < 65536 else '65536+'))
    if want > 255:
        d.nontrivial((a[:300], b[:300], len(a), len(b)))
    eq(call(levenshtein_distance, a, b), want, 'levenshtein_distance(A, B)')


def triangle(d):
    """Metric axioms over triples (no reference model involved)."""
    alpha = gens.alphabet(d)
    a = d.text(alpha, 0, 60)
    b = gens.edit(d, a, alpha, d.int(0, 6))
    c = gens.edit(d, b, alpha, d.int(0, 6))
    d.show({'A': a, 'B': b, 'C': c})
    nontrivial(d, a, c)
    ab, bc, ac = call(levenshtein_distance, a, b), call(levenshtein_distance, b, c), call(levenshtein_distance, a, c)
    check(ac <= ab + bc, 'triangle inequality: d(A,C)=%s > d(A,B)=%s + d(B,C)=%s', ac, ab, bc)
    check((ab == 0) == (a == b), 'd(A,B)=%s while A==B is %s', ab, a == b)
    check(abs(len(a) - len(c)) <= ac <= max(len(a), len(c)), 'd(A,C)=%s is out of bounds', ac)
    x = d.text(alpha, 0, 5)
    eq(call(levenshtein_distance, x + a, x + b), ab, 'd(xA, xB) vs d(A, B)')
    eq(call(levenshtein_distance, a + x, b + x), ab, 'd(Ax, Bx) vs d(A, B)')


def memory(d):
    """Native memory does not grow with the number of calls."""
    a, b = gens.string_pair(d, 40)
    d.show({'A': a, 'B': b})
    nontrivial(d, a, b)
    check(not leaks(lambda: levenshtein_distance(a, b)), 'native memory grows at each call')


TESTS = [
    Test(exact, 120000, 3000000),
    Test(long_strings, 1500, 30000),
    Test(huge, 240, 8000, cpu=120),
    Test(triangle, 30000, 600000),
    Test(memory, 3000, 30000),
]
