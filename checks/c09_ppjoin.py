"""C09: all-pairs, ppjoin and ppjoin+ yield exactly the pairs of records above the threshold."""
from collections import Counter
import math
import random

from lib.engine import Test, check, lst, short
from lib import clus

from fog.clustering import ppjoin, all_pairs, ppjoin_plus

SOURCES = ['fog/clustering/ppjoin.py']
RULE = ('Collections of token sets with duplicates, empty records and heavily overlapping records, every metric, '
        'algorithm and token ordering, thresholds in (0, 1] half of them being the exact similarity of some pair; '
        'non-trivial = some pair is above the threshold and some pair sharing a token is not.')
ASSUMPTIONS = ['threshold > 0.', 'Tokens are strings (crc32 ordering) or any mutually comparable values.',
               'A pair whose similarity is below the threshold by less than 1e-5 may or may not be found (the code has an epsilon of 1e-6).']


def similarity(metric, A, B):
    i = len(A & B)
    if not A or not B:
        return 0.0
    if metric == 'jaccard':
        return i / len(A | B)
    if metric == 'dice':
        return 2 * i / (len(A) + len(B))
    return i / math.sqrt(len(A) * len(B))


WIDE = ''.join(chr(c) for c in range(0x4e00, 0x4e00 + 80))
METRICS = ('jaccard', 'dice', 'binary_cosine')
THRESHOLDS = (0.5, 0.8, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.6, 2 / 3, 0.7, 0.75, 0.85, 0.9, 0.95, 0.99, 1.0, 1)


def records_of(d, hi_tokens, hi_records):
    vocab = d.choice(('abcdef', 'ab -\'C', 'abcdefghijkl', 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP'))
    roots = d.list(lambda: d.list(lambda: d.choice(vocab), 0, hi_tokens), 1, 3)

    def record():
        k = d.weighted(((3, 0), (3, 1), (1, 2)))
        if k == 2:
            return d.list(lambda: d.choice(vocab), 0, hi_tokens)
        r = list(d.choice(roots))
        if k == 1:
            for _ in range(d.int(1, 3)):
                op = d.int(0, 2)
                if op == 0:
                    r.append(d.choice(vocab))
                elif r:
                    i = d.int(0, len(r) - 1)
                    if op == 1:
                        del r[i]
                    else:
                        r[i] = d.choice(vocab)
        return r
    return d.list(record, 0, hi_records)


def text(record):
    return ''.join(x if isinstance(x, str) else '%s,' % (x,) for x in record)


def verify(d, records, metric, threshold, kw, algo, as_text):
    if not as_text and kw.get('token_ordering', 0) != 'crc32' and d.bool(0.3):
        # Tokens need not be strings
        k = d.int(0, 2)
        records = [[(ord(t) - 99, (ord(t) % 5, ord(t)), (t, None)[:1])[k] for t in r] for r in records]
    sets = [set(r) for r in records]
    n = len(sets)
    want, maybe = Counter(), Counter()
    shared_below = False
    for i in range(n):
        for j in range(i + 1, n):
            s = similarity(metric, sets[i], sets[j])
            key = tuple(sorted((tuple(records[i]), tuple(records[j]))))
            if s >= threshold - 1e-9:
                want[key] += 1
            elif s >= threshold - 1e-5:
                maybe[key] += 1
            elif s > 0:
                shared_below = True
    if want and shared_below:
        d.nontrivial((tuple(map(tuple, records)), metric, threshold, algo, kw.get('token_ordering', 'default')))
    d.label('%s %s' % (algo, metric))
    if as_text:
        data = [''.join(r) for r in records]
        given = d.int(0, 2)
        if given == 2:
            # A string is a sequence of characters
            pass
        elif given:
            kw['tokenizer'] = lambda s: list(s)
        else:
            kw['tokenizer'] = lambda s: (c for c in s)
    else:
        data = [list(r) for r in records]
    x, form = clus.container(d, data)
    d.show({'records': [text(r) for r in records], 'metric': metric, 'threshold': threshold, 'algo': algo,
            'token_ordering': kw.get('token_ordering', 'default'), 'tokenizer': as_text, 'form': form})
    args = dict(kw)
    if metric != 'jaccard' or d.bool():
        args['metric'] = metric
    if algo == 'all_pairs':
        pairs = lst(all_pairs, x, threshold, **args)
    elif algo == 'ppjoin_plus':
        pairs = lst(ppjoin_plus, x, threshold, **args)
    elif algo == 'ppjoin all_pairs=True':
        pairs = lst(ppjoin, x, threshold, all_pairs=True, **args)
    elif algo == 'ppjoin plus=True':
        pairs = lst(ppjoin, x, threshold, plus=True, **args)
    else:
        pairs = lst(ppjoin, x, threshold, **args)
    got = Counter()
    for a, b in pairs:
        check(a in data and b in data, 'yielded something else than the records: %s', short((a, b)))
        got[tuple(sorted((tuple(a), tuple(b))))] += 1
    for key in set(got) | set(want):
        lo, hi = want[key], want[key] + maybe[key]
        check(lo <= got[key] <= hi, 'the pair (%s, %s) of similarity %s is yielded %d times instead of %d',
              text(key[0]), text(key[1]), similarity(metric, set(key[0]), set(key[1])), got[key], lo)
    check(data == ([''.join(r) for r in records] if as_text else [list(r) for r in records]), 'the records were modified')


ALGOS = ('ppjoin', 'all_pairs', 'ppjoin_plus', 'ppjoin all_pairs=True', 'ppjoin plus=True')


def options(d, records):
    metric = d.choice(METRICS)
    algo = d.choice(ALGOS)
    if d.bool() and len(records) > 1:
        i, j = d.int(0, len(records) - 1), d.int(0, len(records) - 1)
        threshold = similarity(metric, set(records[i]), set(records[j])) or 0.5
    else:
        threshold = d.choice(THRESHOLDS)
    kw = {}
    o = d.int(0, 3)
    if o == 1:
        kw['token_ordering'] = None
    elif o == 2:
        kw['token_ordering'] = 'crc32'
    elif o == 3:
        kw['token_ordering'] = 'freq'
    return metric, threshold, kw, algo


def small(d):
    records = records_of(d, 7, 7)
    metric, threshold, kw, algo = options(d, records)
    d.show({'records': records, 'metric': metric, 'threshold': threshold, 'algo': algo})
    verify(d, records, metric, threshold, kw, algo, d.bool())


def large(d):
    """Longer records: prefix, positional and suffix filters really prune."""
    records = records_of(d, 34, 7)
    metric, threshold, kw, algo = options(d, records)
    d.show({'records': records, 'metric': metric, 'threshold': threshold, 'algo': algo})
    verify(d, records, metric, threshold, kw, algo, d.bool())


def many(d):
    """Many records: crowded postings, candidates met through several tokens."""
    n = clus.size(d, 30, 90)
    rng = random.Random(d.int(0, 1 << 20))
    vocab = WIDE[:rng.choice((8, 30, 80))]
    width = rng.choice((4, 10, 30))
    roots = [[rng.choice(vocab) for _ in range(rng.randint(0, width))] for _ in range(rng.choice((1, 4, 15)))]
    records = []
    for _ in range(n):
        r = list(rng.choice(roots))
        for _ in range(rng.choice((0, 1, 2, 5))):
            if r and rng.random() < 0.5:
                r[rng.randrange(len(r))] = rng.choice(vocab)
            else:
                r.append(rng.choice(vocab))
        rng.shuffle(r)
        records.append(r)
    metric, threshold, kw, algo = options(d, records)
    d.show({'records': records, 'metric': metric, 'threshold': threshold, 'algo': algo})
    verify(d, records, metric, threshold, kw, algo, d.bool())


def huge(d):
    """Hundreds of records, or records of hundreds of tokens."""
    wide = d.bool()
    n = clus.size(d, 4, 14) if wide else clus.size(d, 150, 350)
    rng = random.Random(d.int(0, 1 << 20))
    vocab = [chr(0x4e00 + i) for i in range(rng.choice((40, 300, 2000) if not wide else (600, 3000)))]
    width = rng.choice((4, 10, 30)) if not wide else rng.choice((60, 150, 400))
    roots = [[rng.choice(vocab) for _ in range(rng.randint(width // 2, width))] for _ in range(rng.choice((1, 2, 3)) if wide else rng.choice((8, 40, 150)))]
    records = []
    for _ in range(n):
        r = list(rng.choice(roots))
        for _ in range(rng.choice((0, 1, 2, 5, width // 4))):
            if r and rng.random() < 0.5:
                r[rng.randrange(len(r))] = rng.choice(vocab)
            else:
                r.append(rng.choice(vocab))
        rng.shuffle(r)
        records.append(r)
    metric, threshold, kw, algo = options(d, records)
    d.show({'records': records, 'metric': metric, 'threshold': threshold, 'algo': algo})
    verify(d, records, metric, threshold, kw, algo, d.bool())


def rare_first(d):
    """Long records that only share their most frequent tokens: prefixes are as long as can be."""
    n = clus.size(d, 2, 6)
    rng = random.Random(d.int(0, 1 << 20))
    common = [chr(0x4e00 + i) for i in range(rng.choice((3, 20, 120)))]
    own = rng.choice((30, 150, 300, 450))
    records = []
    for i in range(n):
        r = [chr(0x5000 + 500 * i + k) for k in range(own - rng.choice((0, 0, 1, 7)))]
        r += [c for c in common if rng.random() < 0.95]
        rng.shuffle(r)
        records.append(r)
    metric, threshold, kw, algo = options(d, records)
    if n > 1:
        threshold = similarity(metric, set(records[0]), set(records[1])) or threshold
    d.show({'records': records, 'metric': metric, 'threshold': threshold, 'algo': algo})
    verify(d, records, metric, threshold, kw, algo, d.bool())


def agreement(d):
    """The three algorithms and the three orderings yield the same pairs."""
    records = records_of(d, 20, 9)
    metric, threshold, _, _ = options(d, records)
    d.show({'records': [''.join(r) for r in records], 'metric': metric, 'threshold': threshold})
    results = {}
    for algo in ALGOS[:3]:
        for o in ('freq', 'crc32', None):
            fn = {'ppjoin': ppjoin, 'all_pairs': all_pairs, 'ppjoin_plus': ppjoin_plus}[algo]
            pairs = lst(fn, [''.join(r) for r in records], threshold, metric=metric, tokenizer=list, token_ordering=o)
            results[(algo, o)] = sorted(tuple(sorted(p)) for p in pairs)
    base = results[('all_pairs', None)]
    if base:
        d.nontrivial((tuple(map(tuple, records)), metric, threshold))
    for k, v in results.items():
        check(v == base, '%s yields %s, all_pairs yields %s', k, short(v), short(base))


TESTS = [
    Test(small, 24000, 700000),
    Test(large, 16000, 400000),
    Test(many, 500, 15000),
    Test(huge, 80, 2500, cpu=120),
    Test(rare_first, 120, 3000, cpu=120),
    Test(agreement, 3000, 80000),
]
