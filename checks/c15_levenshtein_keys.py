"""C15: Levenshtein keys & blocks never separate strings that are close enough."""
from lib.engine import Test, call, check, lst, short
from lib import clus, gens
from lib.models import lev, osa

from fog.clustering import blocking, key_collision
from fog.key import (levenshtein_1d_keys, damerau_levenshtein_1d_keys, levenshtein_1d_blocks,
                     damerau_levenshtein_1d_blocks, levenshtein_2d_blocks, damerau_levenshtein_2d_blocks)

SOURCES = ['fog/key/levenshtein.py']
RULE = ('Pairs of strings (free of the flag characters) obtained from one another by up to three edits, every string '
        'within the radius around a given one, over small '
        'alphabets or made of distinct characters, plus whole collections given to key_collision & blocking; '
        'non-trivial = the strings differ and are within the radius of the scheme.')
ASSUMPTIONS = ['Strings do not contain the flag characters.',
               'Transpositions are those of the restricted Damerau-Levenshtein distance (optimal string alignment).',
               'levenshtein_1d_keys: pairs told apart by one character inserted between two equal letters are the listed '
               'known finding (their missing key is pinned by the test suite), and are left out.']

SCHEMES = (
    ('1d_keys', levenshtein_1d_keys, lev, 1, ('flag',)),
    ('damerau_1d_keys', damerau_levenshtein_1d_keys, osa, 1, ('flag',)),
    ('1d_blocks', levenshtein_1d_blocks, lev, 1, ('flag',)),
    ('damerau_1d_blocks', damerau_levenshtein_1d_blocks, osa, 1, ('flag',)),
    ('2d_blocks', levenshtein_2d_blocks, lev, 2, ('flag1', 'flag2', 'flag3')),
    ('damerau_2d_blocks', damerau_levenshtein_2d_blocks, osa, 2, ('flag1', 'flag2', 'flag3')),
)
FLAGS = '#%$'
DISTINCT = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


def splits_double(a, b):
    """The known finding: b is a with one character inserted between two equal letters (or the reverse)."""
    if len(a) > len(b):
        a, b = b, a
    if len(b) != len(a) + 1:
        return False
    return any(a[i - 1] == a[i] != b[i] and a[:i] + b[i] + a[i:] == b for i in range(1, len(a)))


def alphabet(d):
    return d.weighted(((3, 'ab'), (2, 'abc'), (3, DISTINCT), (1, 'a\xe9\u4e2d\U0001f600')))


def edit(d, s, alpha, transpositions):
    op = d.int(0, 3 if transpositions else 2)
    i = d.int(0, len(s))
    if op == 0:
        return s[:i] + d.choice(alpha) + s[i:]
    if op == 1:
        return s[:i] + s[i + 1:]
    if op == 2:
        return s[:i] + d.choice(alpha) + s[i + 1:]
    return s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]


def pair(d):
    name, fn, dist, k, flags = d.choice(SCHEMES)
    alpha = alphabet(d)
    if alpha is DISTINCT and d.bool(0.8):
        # All different: no accidental collision
        a = alpha[:d.int(0, 24)]
        alpha = alpha[24:]
    else:
        a = d.text(alpha, 0, d.wide(14, 5))
    b = a
    for _ in range(d.weighted(((1, 0), (4, 1), (6, 2), (2, 3)))):
        b = edit(d, b, alpha, 'damerau' in name)
    if d.bool():
        a, b = b, a
    kw = {}
    if d.bool(0.3):
        kw = dict((f, FLAGS[i]) for i, f in enumerate(flags))
    D = dist(a, b)
    d.show({'scheme': name, 'a': a, 'b': b, 'distance': D, 'flags': kw})
    if a != b and D <= k:
        d.nontrivial((name, a, b))
    d.label('%s d=%d' % (name, D))
    A = lst(fn, a, **kw)
    B = lst(fn, b, **kw)
    for x in A + B:
        check(isinstance(x, str), 'key %r is not a string', x)
    shared = set(A) & set(B)
    if D <= k:
        if 'keys' in name and splits_double(a, b):
            return
        check(shared, '%r and %r are at distance %d but share no key: %s and %s', a, b, D, short(A), short(B))
    elif name == '1d_keys':
        check(not shared, '%r and %r are at distance %d but share %s', a, b, D, short(shared))
    # Blocks must remain few, and tell strings apart by length & content
    if 'blocks' in name:
        n = 4 if k == 1 else 10
        check(len(set(A)) <= n, '%d blocks for a string of length %d', len(set(A)), len(a))
    else:
        check(len(A) <= (3 * len(a) + 2 if 'damerau' in name else 2 * len(a) + 3) + 1, '%d keys for a string of length %d', len(A), len(a))
    if name == '1d_blocks' and shared:
        h = min(len(a), len(b)) // 2
        check(a[:h] == b[:h] or a[len(a) - h:] == b[len(b) - h:] , '%r and %r share neither half but share block %s', a, b, short(shared))
        check(abs(len(a) - len(b)) <= 2, '%r and %r share block %s despite their lengths', a, b, short(shared))


def edits(s, new, transpositions):
    """Every string one edit away from s, inserted characters being new or one of those of s."""
    out = set()
    for i in range(len(s) + 1):
        for c in (new,) + ((s[i],) if i < len(s) else ()) + ((s[i - 1],) if i else ()):
            out.add(s[:i] + c + s[i:])
            out.add(s[:i] + c + s[i + 1:])
        out.add(s[:i] + s[i + 1:])
        if transpositions and i + 1 < len(s):
            out.add(s[:i] + s[i + 1] + s[i] + s[i + 2:])
    out.discard(s)
    return sorted(out)


def around(d):
    """Every string around a given one, at each place where edits can be made."""
    name, fn, dist, k, flags = d.choice(SCHEMES)
    n = d.int(0, 13)
    a = DISTINCT[:n] if d.bool(0.7) else d.text(d.choice(('ab', 'abc', 'abcdef')), n, n)
    d.show({'scheme': name, 'a': a})
    if a:
        d.nontrivial((name, a))
    d.label('%s n=%d' % (name, n))
    mine = set(lst(fn, a))
    near = edits(a, 'Y', 'damerau' in name)
    if k == 2:
        near = sorted(set(near).union(*(edits(b, 'Z', 'damerau' in name) for b in near)))
    for b in near:
        if mine.isdisjoint(lst(fn, b)):
            if 'keys' in name and splits_double(a, b):
                continue
            D = dist(a, b)
            if D <= k:
                check(False, '%r and %r are at distance %d but share no key: %s and %s', a, b, D, short(lst(fn, a)), short(lst(fn, b)))


def far(d):
    """Strings without a character in common share nothing but the trivial keys of tiny strings."""
    name, fn, dist, k, flags = d.choice(SCHEMES)
    a = d.text('abc', 6, 12)
    b = d.text('xyz', 6, 12)
    d.show({'scheme': name, 'a': a, 'b': b})
    d.nontrivial((name, a, b))
    shared = set(lst(fn, a)) & set(lst(fn, b))
    check(not shared, '%r and %r have no character in common but share %s', a, b, short(shared))


def collection(d):
    """End to end: clusters found through the keys or blocks are those of the whole distance graph."""
    name, fn, dist, k, flags = d.choice(SCHEMES)
    alpha = d.choice(('ab', 'abc', 'abcdef'))
    data = list(dict.fromkeys(gens.words_like(d, 0, 9, alpha=alpha, hi=7)))
    if 'keys' in name:
        kept = []
        for s in data:
            if not any(splits_double(s, t) for t in kept):
                kept.append(s)
        data = kept
    index = dict((s, i) for i, s in enumerate(data))
    n = len(data)
    edges = set((i, j) for i in range(n) for j in range(i + 1, n) if dist(data[i], data[j]) <= k)
    if edges:
        d.nontrivial((name, tuple(sorted(data))))
    d.label(name)
    d.show({'scheme': name, 'data': data})
    if name == '1d_keys':
        # No distance to filter collisions: these keys are exact
        clusters = lst(key_collision, data, keys=fn)
    else:
        clusters = lst(blocking, data, blocks=fn, distance=dist, radius=k)
    clus.check_components([[index[s] for s in c] for c in clusters], n, edges, 2, clus.INF)


TESTS = [
    Test(pair, 60000, 1500000),
    Test(around, 1600, 30000),
    Test(far, 3000, 30000),
    Test(collection, 6000, 150000),
]
