"""C28: OnlineMean is the mean of what was added and not subtracted; squeeze keeps one character of each run."""
import random
from fractions import Fraction
from itertools import groupby
from statistics import StatisticsError

from lib.engine import Test, Violation, check, eq, short

from fog.utils import OnlineMean, squeeze

SOURCES = ['fog/utils.py']
RULE = ('Histories of additions, subtractions, merges (m + n, m += n, self merges) and reads over several OnlineMean, '
        'with integers and dyadic floats so that the model is exact; strings of runs over roman letters, other '
        'letters, line breaks and any code point. Non-trivial = a history which merges, or a string having a run of at '
        'least two characters next to another character.')
ASSUMPTIONS = ['Values are exactly representable sums (the class documents that float precision issues are possible).',
               'Values are subtracted only if they were added.']

ROMAN = 'IXCMixcm'


def value(d):
    k = d.int(0, 3)
    if k == 0:
        return d.int(0, 5)
    if k == 1:
        return d.int(-1000, 1000)
    if k == 2:
        return d.int(-64, 64) / 8
    return d.choice((0, 0.0, 1, -1, 10 ** 9, -10 ** 9, True, 0.5))


def exact(values):
    return sum((Fraction(v) for v in values), Fraction(0))


def history(d):
    means = [OnlineMean()]
    model = [[]]
    log = []
    d.show(log)
    merges = 0
    for _ in range(d.int(1, d.wide(14, 6))):
        op = d.weighted(((6, 'add'), (3, 'subtract'), (2, 'new'), (2, 'merge'), (2, 'imerge'), (3, 'peek'), (1, 'bad')))
        i = d.int(0, len(means) - 1)
        if op == 'add':
            v = value(d)
            log.append((op, i, v))
            means[i].add(v)
            model[i].append(v)
        elif op == 'subtract':
            if not model[i]:
                continue
            k = d.int(0, len(model[i]) - 1)
            v = model[i].pop(k)
            log.append((op, i, v))
            means[i].subtract(v)
        elif op == 'new':
            log.append((op,))
            means.append(OnlineMean())
            model.append([])
        elif op == 'merge':
            j = d.int(0, len(means) - 1)
            log.append((op, i, j))
            m = means[i] + means[j]
            check(isinstance(m, OnlineMean), 'the sum of two means is %r', m)
            check(m is not means[i] and m is not means[j], 'the sum of two means is one of them')
            means.append(m)
            model.append(model[i] + model[j])
            merges += 1
        elif op == 'imerge':
            j = d.int(0, len(means) - 1)
            log.append((op, i, j))
            m = means[i]
            m += means[j]
            check(m is means[i], 'in place merge gives another object')
            model[i] = model[i] + model[j]
            merges += 1
        elif op == 'bad':
            other = d.choice((1, 0.5, 'x', None, [1]))
            log.append((op, i, other))
            for f in (lambda: means[i] + other, lambda: means[i].__iadd__(other)):
                try:
                    r = f()
                except TypeError:
                    continue
                check(r is NotImplemented, 'merging %r does not raise a TypeError', other)
        # Every one is checked each time: a merge must not tie two means together
        for n, (m, vals) in enumerate(zip(means, model)):
            eq(len(m), len(vals), 'size of mean %d after %s' % (n, short(log)))
            if not vals:
                for f in (m.peek, lambda: float(m)):
                    try:
                        r = f()
                    except StatisticsError:
                        continue
                    raise Violation('mean of nothing is %r after %s' % (r, short(log)))
                continue
            want = exact(vals) / len(vals)
            for name, got in (('peek', m.peek()), ('float', float(m))):
                check(abs(Fraction(got) - want) <= abs(want) * Fraction(1, 10 ** 12), '%s of mean %d is %r, expected %s after %s', name, n, got, want, short(log))
    if merges and any(len(v) > 1 for v in model):
        d.nontrivial(repr(log))


def long_history(d):
    """Thousands of values, some of them taken back."""
    m, total, n = OnlineMean(), Fraction(0), 0
    rng = random.Random(d.int(0, 1 << 20))
    size = d.raw(4000, None if d.rng is None else lambda: d.rng.randint(200, 4000))
    d.show({'size': size})
    d.nontrivial(size)
    values = []
    for _ in range(size):
        if values and rng.random() < 0.3:
            v = values.pop(rng.randrange(len(values)))
            m.subtract(float(v))
            total -= v
        else:
            v = Fraction(rng.randint(-4000, 4000), 8)
            values.append(v)
            m.add(float(v))
            total += v
            if rng.random() < 0.01:
                other = OnlineMean()
                other.add(5)
                m += other
                values.append(Fraction(5))
                total += 5
    eq(len(m), len(values), 'size of the mean')
    if values:
        want = total / len(values)
        check(abs(Fraction(m.peek()) - want) <= abs(want) * Fraction(1, 10 ** 12), 'mean is %r, expected %s', m.peek(), float(want))


def runs(d):
    alpha = d.choice(('ab', 'IXab', 'IVXLCDMivxlcdm', 'a\n', 'aA\xe9', 'ab \n\r\u2028', '1.-a', None))
    if alpha is None:
        alpha = ''.join(chr(d.choice((d.int(0, 255), d.int(0, 0xd7ff), d.int(0x10000, 0x10ffff)))) for _ in range(3))
    s = ''.join(d.list(lambda: d.choice(alpha) * d.weighted(((40, 1), (30, 2), (20, 3), (10, 5), (1, 300))), 0, d.wide(8)))
    roman = d.bool()
    d.show({'string': s, 'keep_roman_numerals': roman})
    groups = [(c, len(list(g))) for c, g in groupby(s)]
    if len(groups) > 1 and any(n > 1 for _, n in groups):
        d.nontrivial((s, roman))
    if roman:
        eq(squeeze(s, keep_roman_numerals=True), ''.join(c * n if c in ROMAN else c for c, n in groups), 'squeeze')
        eq(squeeze(s, True), squeeze(s, keep_roman_numerals=True), 'squeeze given positionally')
        return
    want = ''.join(c for c, _ in groups)
    got = squeeze(s)
    eq(got, want, 'squeeze')
    eq(squeeze(got), got, 'squeeze of squeezed')
    eq(squeeze(s, keep_roman_numerals=False), want, 'squeeze, explicit default')


TESTS = [
    Test(history, 20000, 600000),
    Test(long_history, 60, 1000),
    Test(runs, 40000, 1000000),
]
