"""C19: LSH signatures are functions of the set (or bag) of tokens and estimate similarity."""
import json
import os
import random
import subprocess
import sys

from lib.engine import Test, call, check, eq, short

from fog.lsh import (MinHash, LSBMinHash, SuperMinHash, minhash_similarity, lsb_minhash_similarity, simhash,
                     simhash_distance, simhash_similarity)

import fog.lsh.utils as lsh_utils

SOURCES = ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py']
RULE = ('Pairs of token sets of any size and overlap (words, or characters of a string), several numbers of hashes and '
        'seeds, reordered and repeated tokens, the union of both sets, and random signatures; non-trivial = both sets '
        'are non-empty and different.')
ASSUMPTIONS = ['Tokens are strings; a plain string stands for the set of its characters.',
               'Estimates are checked at 7.5 standard deviations, over word tokens.',
               'simhash: f is a power of two from 4 to 512.']

CACHE = {}


def hasher(kind, h, seed):
    key = (kind, h, seed)
    if key not in CACHE:
        if len(CACHE) > 200:
            CACHE.clear()
        CACHE[key] = make(kind, h, seed)
    return CACHE[key]


def make(kind, h, seed):
    if kind == 'minhash':
        return MinHash(h, seed=seed)
    if kind == 'numpy':
        return MinHash(h, seed=seed, use_numpy=True)
    if kind == 'lsb':
        return LSBMinHash(precision=h, seed=seed)
    return SuperMinHash(h)


def words(d, hi=12):
    base = d.int(0, 3)
    return d.list(lambda: '%s%d' % ('abcd'[base], d.int(0, 40)) if d.bool(0.8) else d.text('xyz\xe9\u4e2d\U0001f600 ', 0, 3), 0, d.wide(hi))


def signature(d):
    kind = d.choice(('minhash', 'numpy', 'super', 'lsb'))
    h = d.number(1, 24) if kind != 'lsb' else d.int(1, 2)
    seed = d.int(0, 9)
    chars = d.bool(0.25)
    if chars:
        A = d.text('abcdefgh\xe9\u4e2d', 0, 8)
        B = d.text('abcdefgh\xe9\u4e2d', 0, 8)
        both = ''.join(d.shuffled(A + B))
        again = ''.join(d.shuffled(A + (d.choice(A) if A else '')))
    else:
        A = words(d)
        B = words(d) if d.bool() else A[d.int(0, len(A)):] + words(d, 5)
        both = d.shuffled(A + B)
        again = d.shuffled(A + ([d.choice(A)] if A else []))
        if d.bool(0.3):
            again = set(again)
    d.show({'kind': kind, 'h': h, 'seed': seed, 'A': A, 'B': B})
    d.label(kind)
    if A and B and set(A) != set(B):
        d.nontrivial((kind, h, seed, tuple(A), tuple(B)))
    m = call(hasher, kind, h, seed)
    sA = [x for x in call(m.create_signature, A)]
    sB = [x for x in call(m.create_signature, B)]
    sU = [x for x in call(m.create_signature, both)]
    eq(len(sA), h, 'size of the signature')
    eq([x for x in call(m.create_signature, again)], sA, 'signature of the same set, reordered & with repetitions')
    eq([x for x in call(call(make, kind, h, seed).create_signature, A)], sA, 'signature by another instance of same seed')
    if kind == 'lsb':
        for i in range(h):
            check(0 <= sA[i] < 2 ** 64, 'integer %r does not hold 64 bits', sA[i])
            wrong = (sU[i] ^ sA[i]) & (sU[i] ^ sB[i])
            check(not (A and B and wrong), 'bits %s of the signature of the union are those of neither set', bin(wrong))
        return
    if A and B:
        for i in range(h):
            check(sU[i] == min(sA[i], sB[i]), 'hash %d of the union is %r, those of the sets are %r & %r', i, sU[i], sA[i], sB[i])
        if set(A) == set(B):
            eq(sA, sB, 'signatures of equal sets')


def estimates(d):
    """Signatures estimate the Jaccard similarity."""
    kind = d.choice(('minhash', 'numpy', 'super', 'lsb'))
    h = {'minhash': 512, 'numpy': 512, 'super': 512, 'lsb': 16}[kind]
    seed = d.int(0, 7)
    tag = d.int(0, 10 ** 6)
    i, a, b = (d.int(0, 12) for _ in range(3))
    if i + a == 0 or i + b == 0:
        i = 1
    A = ['%d-%d' % (tag, x) for x in range(i + a)]
    B = ['%d-%d' % (tag, x) for x in range(i)] + ['%d+%d' % (tag, x) for x in range(b)]
    J = i / (i + a + b)
    d.show({'kind': kind, 'h': h, 'seed': seed, 'A': A, 'B': B, 'jaccard': J})
    d.label(kind)
    if a or b:
        d.nontrivial((kind, seed, tag, i, a, b))
    m = call(hasher, kind, h, seed)
    sA, sB = call(m.create_signature, A), call(m.create_signature, B)
    est = call(lsb_minhash_similarity if kind == 'lsb' else minhash_similarity, sA, sB)
    tol = 7.5 * (0.5 / 512 ** 0.5) if kind != 'lsb' else 7.5 * (1.0 / 1024 ** 0.5)
    if J == 1:
        tol = 1e-9
    check(abs(est - J) <= tol, 'similarity is %s, estimated %s', J, est)


def positions(d):
    """Every position of a signature is a hash of its own, and every token counts."""
    kind = d.choice(('minhash', 'numpy', 'super', 'lsb'))
    h = d.int(2, 300) if kind != 'lsb' else d.int(1, 20)
    seed = d.int(0, 10 ** 6)
    tag = d.choice(('w', '\xe9', '\u4e2d', '\U0001f600', ' ', '\u0301')) + str(d.int(0, 10 ** 6))
    n = 4 if kind != 'lsb' else 70
    bags = [[tag + '\xe0\xe8\xec\xf2'[j % 4] * (j // 4 % 3) + str(j) for j in range(i * 5, i * 5 + d.int(1, 3))] for i in range(n)]
    d.show({'kind': kind, 'h': h, 'seed': seed, 'bags': bags[:6]})
    d.label(kind)
    d.nontrivial((kind, h, seed, tag))
    m = call(make, kind, h, seed)
    rows = []
    for b in bags:
        s = [int(x) if kind != 'super' else x for x in call(m.create_signature, b)]
        if kind == 'lsb':
            s = [(x >> i) & 1 for x in s for i in range(64)]
        rows.append(s)
    columns = list(zip(*rows))
    check(len(set(columns)) == len(columns), '%d of the %d positions of the signature repeat others over %d sets',
          len(columns) - len(set(columns)), len(columns), n)
    check(len(set(map(tuple, rows))) == n, 'unrelated sets have the same signature')


def unlike(d):
    """Tokens that are close to each other are still other tokens."""
    w = d.text('abyz\xe0\xe9\u4e2d\u4e8c\U0001f600\u0301 -', 1, d.wide(6))
    k = d.int(0, len(w) - 1)
    v = d.choice((w[:k] + d.choice('cC\xe8\xe9\u4e09\U0001f601') + w[k + 1:], w[:k] + w[k + 1:], w + ' ', w.upper(), w[::-1],
                  w[:k] + '\xe9' + w[k:]))
    f = d.choice((128, 64, 256, 512))
    d.show({'tokens': [w, v], 'f': f})
    if w == v:
        return
    d.nontrivial((w, v, f))
    check(call(simhash, [w], f=f) != call(simhash, [v], f=f), 'tokens %r & %r have the same simhash', w, v)
    for kind in ('minhash', 'numpy', 'super'):
        m = call(hasher, kind, 64, 3)
        got = call(minhash_similarity, call(m.create_signature, [w]), call(m.create_signature, [v]))
        check(got < 0.5, 'the %s signatures of {%r} & {%r} have similarity %s', kind, w, v, got)


def similarity(d):
    """minhash_similarity & lsb_minhash_similarity, exactly."""
    n = d.int(1, d.wide(12))
    A = [d.int(0, 3) for _ in range(n)]
    B = [x if d.bool() else d.int(0, 3) for x in A]
    P = [(d.int(0, 2 ** 32 - 1) << 32) | d.int(0, 2 ** 32 - 1) for _ in range(n)]
    Q = []
    for x in P:
        k = d.int(0, 3)
        if k == 0:
            Q.append(x)
        elif k == 1:
            Q.append(x ^ (1 << d.int(0, 63)))
        elif k == 2:
            Q.append(x ^ 0xffffffffffffffff)
        else:
            Q.append((d.int(0, 2 ** 32 - 1) << 32) | d.int(0, 2 ** 32 - 1))
    d.show({'A': A, 'B': B, 'P': P, 'Q': Q})
    if A != B:
        d.nontrivial((tuple(A), tuple(B), tuple(Q)))
    same = sum(x == y for x, y in zip(A, B)) / n
    got = call(minhash_similarity, A, B)
    check(abs(got - same) < 1e-9, 'minhash similarity is %r, expected %r', got, same)
    diff = sum(bin(x ^ y).count('1') for x, y in zip(P, Q))
    want = 1 - 2 * diff / (64 * n)
    got = call(lsb_minhash_similarity, P, Q)
    check(abs(got - want) < 1e-9, 'lsb similarity is %r, expected %r', got, want)


def characters(d):
    """A string is the set of its characters, whatever the plane they belong to."""
    base = d.list(lambda: d.int(0x41, 0x7a), 1, 4)
    A = ''.join(map(chr, base))
    B = ''.join(chr(x + d.choice((0x80, 0x100, 0x200, 0x4000, 0x10000, 0x20000, 0x100000))) for x in base)
    if d.bool():
        A, B = B, A
    kind = d.choice(('minhash', 'numpy', 'super'))
    d.show({'A': A, 'B': B, 'kind': kind})
    if set(A) & set(B):
        return
    d.nontrivial((A, B, kind))
    m = call(hasher, kind, 32, d.int(0, 5))
    got = call(minhash_similarity, call(m.create_signature, A), call(m.create_signature, B))
    check(got < 0.1, 'strings %r & %r have no character in common, their signatures have similarity %s', A, B, got)


def long(d):
    """Long signatures, large bags."""
    rng = random.Random(d.int(0, 1 << 30))
    if d.bool():
        n = d.int(100, 3000)
        A = [rng.randrange(4) for _ in range(n)]
        B = [x if rng.random() < 0.5 else rng.randrange(4) for x in A]
        P = [rng.getrandbits(64) for _ in range(n)]
        Q = [x ^ (rng.getrandbits(64) & rng.getrandbits(64)) for x in P]
        d.show({'size of signatures': n, 'A': A[:8], 'B': B[:8], 'P': P[:4], 'Q': Q[:4]})
        d.nontrivial((n, tuple(A[:50]), tuple(B[:50])))
        got, want = call(minhash_similarity, A, B), sum(x == y for x, y in zip(A, B)) / n
        check(abs(got - want) < 1e-9, 'minhash similarity is %r, expected %r', got, want)
        got, want = call(lsb_minhash_similarity, P, Q), 1 - 2 * sum(bin(x ^ y).count('1') for x, y in zip(P, Q)) / (64 * n)
        check(abs(got - want) < 1e-9, 'lsb similarity is %r, expected %r', got, want)
        return
    f = d.choice((16, 32, 64))
    weights = [(('t%d' % rng.randrange(10 ** 9)), rng.choice((1, 2, 3, 100, 300, 700))) for _ in range(d.int(1, 6))]
    weights += [('u%d' % i, 1) for i in range(d.choice((0, 10, 300)))]
    bag = [t for t, w in weights for _ in range(w)]
    if d.bool():
        rng.shuffle(bag)
    d.show({'f': f, 'weights': weights[:8], 'tokens': len(bag)})
    d.nontrivial((f, tuple(weights[:8]), len(bag)))
    d.label('simhash')
    got = call(simhash, bag, f=f)
    votes = [0] * f
    for t, w in weights:
        s = call(simhash, [t], f=f)
        for i in range(f):
            votes[i] += w if (s >> i) & 1 else -w
    want = sum(1 << i for i in range(f) if votes[i] > 0)
    check(got == want, 'the signature of a bag of %d tokens is %x, bits get a majority in %x', len(bag), got, want)


def sim(d):
    f = d.choice((128, 4, 8, 16, 32, 64, 256, 512))
    A = words(d, 9)
    B = words(d, 9)
    d.show({'f': f, 'A': A, 'B': B})
    if A and B and sorted(A) != sorted(B):
        d.nontrivial((f, tuple(A), tuple(B)))
    kw = {} if f == 128 and d.bool() else {'f': f}
    sA, sB = call(simhash, A, **kw), call(simhash, B, **kw)
    for s, T in ((sA, A), (sB, B)):
        check(0 <= s < 2 ** f, 'signature %r does not hold in %d bits', s, f)
        singles = [call(simhash, [t], **kw) for t in T]
        for i in range(f):
            ones = sum((x >> i) & 1 for x in singles)
            check(((s >> i) & 1) == (ones * 2 > len(T)), 'bit %d of the signature of %s is not the majority', i, short(T))
    eq(call(simhash, d.shuffled(A), **kw), sA, 'signature of reordered tokens')
    diff = bin(sA ^ sB).count('1')
    got = call(simhash_distance, sA, sB, **kw)
    check(abs(got - diff / f) < 1e-9, 'distance is %r, expected %r', got, diff / f)
    got = call(simhash_similarity, sA, sB, **kw)
    check(abs(got - (1 - diff / f)) < 1e-9, 'similarity is %r, expected %r', got, 1 - diff / f)


def bits(d):
    """Every bit of simhash carries information, and unrelated bags look unrelated."""
    f = d.choice((4, 8, 16, 32, 64, 128, 256, 512))
    tag = d.int(0, 10 ** 6)
    d.show({'f': f, 'tag': tag})
    d.nontrivial((f, tag))
    singles = [call(simhash, ['%d.%d' % (tag, i)], f=f) for i in range(90)]
    for i in range(f):
        n = sum((s >> i) & 1 for s in singles)
        check(0 < n < 90, 'bit %d is the same for 90 tokens', i)
    if f >= 256:
        got = call(simhash_similarity, singles[0], singles[1], f=f)
        check(0.15 < got < 0.85, 'unrelated tokens have similarity %s', got)
        A = ['%d.%d' % (tag, i) for i in range(40)]
        got = call(simhash_similarity, simhash(A, f=f), simhash(A[:-1] + ['other'], f=f), f=f)
        check(got > 0.6, 'bags of 40 tokens that differ by one have similarity %s', got)


def refused(d):
    """Sizes which simhash does not handle are refused rather than answered wrongly."""
    f = d.choice((d.int(5, 511), 2 ** d.int(2, 8) + d.choice((-1, 1)), 1024, 2048, 4096, 513, 768, 500, 384))
    tokens = words(d, 5)
    d.show({'f': f, 'tokens': tokens})
    if f & (f - 1) == 0 and f <= 512:
        return
    d.nontrivial((f, tuple(tokens)))
    try:
        got = simhash(tokens, f=f)
    except Exception:
        return
    check(False, 'simhash over %d bits gives %r, though f should be a power of two up to 512', f, got)


PROGRAM = '''
import json, sys
from fog.lsh import MinHash, LSBMinHash, SuperMinHash, simhash
seed, bags = json.load(sys.stdin)
out = []
for b in bags:
    out.append([[int(x) for x in MinHash(8, seed=seed).create_signature(b)],
                [int(x) for x in MinHash(8, seed=seed, use_numpy=True).create_signature(b)],
                [int(x) for x in LSBMinHash(1, seed=seed).create_signature(b)],
                SuperMinHash(8).create_signature(b), str(simhash(b))])
print(json.dumps(out))
'''


def process(d):
    """Signatures made by other processes are comparable."""
    seed = d.int(0, 99)
    bags = [words(d) or ['a'] for _ in range(4)]
    d.show({'seed': seed, 'bags': bags})
    d.nontrivial((seed, repr(bags)))
    outs = []
    for hs in ('0', '1', '77'):
        p = subprocess.run([sys.executable, '-c', PROGRAM], input=json.dumps([seed, bags]), capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=hs), timeout=300)
        check(p.returncode == 0, 'process failed: %s', p.stderr[-300:])
        outs.append(json.loads(p.stdout))
    eq(outs[1], outs[0], 'signatures by another process')
    eq(outs[2], outs[0], 'signatures by another process')


def popcounts(d):
    """Set bits of words of 16, 32 and 64 bits, whatever the way to count them."""
    x = d.int(0, (1 << 64) - 1)
    if d.bool():
        x |= d.choice((0xffff, 0xffff << 16, 0xffff << 48, 1 << 63, 1 << 31, 1 << 15))
    d.show({'x': hex(x)})
    d.nontrivial(x)
    for name, n in (('popcount', 64), ('popcount16', 16), ('popcount32', 32), ('popcount64', 64)):
        f = getattr(lsh_utils, name, None)
        if f is not None:
            y = x & ((1 << n) - 1)
            eq(call(f, y), bin(y).count('1'), '%s of %s' % (name, hex(y)))


TESTS = [
    Test(popcounts, 3000, 60000),
    Test(signature, 20000, 500000),
    Test(estimates, 1200, 30000),
    Test(positions, 300, 6000),
    Test(unlike, 3000, 60000),
    Test(refused, 600, 4000),
    Test(similarity, 8000, 100000),
    Test(sim, 3000, 60000),
    Test(bits, 250, 3000),
    Test(characters, 1500, 30000),
    Test(long, 300, 5000),
    Test(process, 8, 60, mutate=0, wall=600),
]
