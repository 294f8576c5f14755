"""C17: omission, skeleton & ngram keys, and ngrams, against their definitions."""
import math

from unidecode import unidecode

from lib.engine import Test, call, check, eq, lst, short

from fog.key import ngram_keys, omission_key, skeleton_key, zig_zag
from fog.tokenizers import bigrams, ngrams, quadrigrams, trigrams
from fog.tokenizers.ngrams import join_ngrams

SOURCES = ['fog/key/omission.py', 'fog/key/skeleton.py', 'fog/key/misc.py', 'fog/tokenizers/ngrams.py']
RULE = ('Arbitrary strings (any case, accents, scripts, punctuation), sequences of several types, n from 1 to 8 and '
        'thresholds in (0, 1]; non-trivial = at least one repeated letter among three letters (keys), more items than n '
        '(ngrams), more than one key (ngram keys).')
ASSUMPTIONS = ['n >= 1 and 0 < threshold <= 1.', 'Transliteration is the one of the Unidecode library.']

VOWELS = 'AEIOU'
# Least to most often omitted (Pollock & Zamora), as documented
ORDER = 'JKQXZVWYBFMGPDHCLNTSR'
ALL = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
EXTRA = '\xe9\xc9\xe7\xdf\u0153\u4e2d\u56fd\u0416 .-\'0123\n\x00\u2115\u00f8\ufb01'


def letters(s):
    return [c for c in unidecode(s).upper() if c in ALL]


def string(d):
    k = d.int(0, 3)
    if not d.int(0, 199):
        # Long strings of few letters, but for the last ones
        return d.text('ae b', 0, 6) * d.int(20, 200) + d.text(ALL, 0, 6)
    if k == 0:
        return d.text('abcdefghijklmnopqrstuvwxyz', 0, d.wide(14))
    if k == 1:
        return d.text('aeiouAEbcBC', 0, 12)
    if k == 2:
        return d.text('aebs' + EXTRA, 0, 10)
    return d.text(ALL + ALL.lower() + EXTRA, 0, 40)


def uniq(xs):
    return list(dict.fromkeys(xs))


def keys(d):
    s = string(d)
    d.show(s)
    ls = letters(s)
    if len(ls) >= 3 and len(set(ls)) < len(ls):
        d.nontrivial(s)
    want = ''.join([c for c in ORDER if c in ls] + uniq(c for c in ls if c in VOWELS))
    eq(call(omission_key, s), want, 'omission key of %r' % s)
    want = ''
    if ls:
        rest = [c for c in ls[1:] if c != ls[0]]
        want = ''.join([ls[0]] + uniq(c for c in rest if c not in VOWELS) + uniq(c for c in rest if c in VOWELS))
    eq(call(skeleton_key, s), want, 'skeleton key of %r' % s)


def grams(d):
    n = d.int(1, 8)
    items = d.list(lambda: d.int(0, 4), 0, d.wide(d.choice((4, 12))))
    alphabet = d.choice(('ab\xe9\u4e2d\U0001f600', 'a \n\t-', '\x00 01a'))
    kind = d.choice(('str', 'tuple', 'list', 'bytes'))
    seq = {'str': lambda: ''.join(alphabet[i] for i in items), 'tuple': lambda: tuple(items), 'list': lambda: list(items),
           'bytes': lambda: bytes(items)}[kind]()
    d.show({'n': n, 'sequence': seq})
    if len(seq) > n > 1:
        d.nontrivial((n, repr(seq)))
    want = [seq[i:i + n] for i in range(len(seq) - n + 1)] if len(seq) >= n else [seq]
    eq(lst(ngrams, n, seq), want, '%d-grams of %r' % (n, seq))
    alias = {2: bigrams, 3: trigrams, 4: quadrigrams}.get(n)
    if alias:
        eq(lst(alias, seq), want, 'alias for %d-grams of %r' % (n, seq))
    if kind == 'str':
        eq(call(lambda: join_ngrams(ngrams(n, seq))), seq, 'joined %d-grams of %r' % (n, seq))


def subsequences(xs, size):
    if size == 0:
        return [()]
    if len(xs) < size:
        return []
    return [(xs[0],) + t for t in subsequences(xs[1:], size - 1)] + subsequences(xs[1:], size)


def collision(d):
    n = d.int(1, 4)
    s = d.text(d.choice(('ab', 'abcdefgh', 'a bA\n')), 0, 9)
    threshold = d.choice((None, 0.8, 1.0, 0.7, 0.5, 0.6, 0.9, 0.25, 1))
    kw = {} if threshold is None else {'threshold': threshold}
    d.show({'n': n, 'string': s, 'options': kw})
    gs = [s[i:i + n] for i in range(len(s) - n + 1)] or [s]
    k = len(gs)
    least = max(1, math.floor(k * (threshold or 0.8)))
    want = set([''.join(gs)])
    for size in range(least, k):
        want.update(''.join(t) for t in subsequences(tuple(gs), size))
    if len(want) > 1:
        d.nontrivial((n, s, threshold))
    got = lst(ngram_keys, n, s, **kw)
    check(set(got) == want, 'keys of %r are %s, expected %s', s, short(sorted(set(got))), short(sorted(want)))
    eq(got[0], ''.join(gs), 'first key of %r' % s)
    # zig_zag: the string, then its reverse
    if d.bool(0.1):
        s *= d.int(1, 40)
    eq([f(s) if f is not None else s for f in zig_zag], [s, s[::-1]], 'zig_zag keys of %r' % s)


TESTS = [
    Test(keys, 40000, 1000000),
    Test(grams, 16000, 300000),
    Test(collision, 10000, 250000),
]
