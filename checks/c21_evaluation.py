"""C21: best matching scores, and conversions between labels & clusters."""
from collections import OrderedDict, UserList, deque
from fractions import Fraction
from types import MappingProxyType

from lib.engine import Test, Violation, call, check, eq, short

from fog.evaluation import best_matching_macro_average, clusters_to_labels, labels_to_clusters

SOURCES = ['fog/evaluation/best_matching.py', 'fog/evaluation/utils.py', 'fog/utils.py']
RULE = ('Pairs of partitions of a same set of items (random, refined, merged, with a few moved items, with additional '
        'items), inputs with one anomaly, and labelings in every accepted form; non-trivial = the partitions differ and '
        'have several clusters.')
ASSUMPTIONS = ['When several predicted clusters reach the best F1, precision & recall are those of any of them.']


ODD = (None, '', 0, (), -1, -2, 0.5, frozenset(), b'', ' ', 'None', '0')


def partition(d, items, k):
    groups = {}
    for x in items:
        groups.setdefault(d.int(0, k), []).append(x)
    return [d.shuffled(g) for g in d.shuffled(list(groups.values()))]


def two(d, huge=False):
    n = d.int(1, d.wide(12)) if not huge else d.int(150, 500)
    kind = d.int(0, 2)
    items = ['i%d' % i for i in range(n)] if not kind else list(range(n))
    if kind == 2:
        # Falsey items, items of several types
        items = d.shuffled((list(ODD) + items[1:])[:n])
    truth = partition(d, items, d.choice((1, 3, 6, 40)))
    kind = d.int(0, 2)
    if kind == 0:
        predicted = partition(d, items, d.choice((1, 3, 6, 40)))
    else:
        # A few moved items
        label = dict((x, i) for i, c in enumerate(truth) for x in c)
        for _ in range(d.int(0, 3)):
            label[d.choice(items)] = d.int(0, 4)
        groups = {}
        for x in items:
            groups.setdefault(label[x], []).append(x)
        predicted = d.shuffled(list(groups.values()))
    return items, truth, predicted


def as_type(d, clusters):
    k = d.int(0, 3)
    if k == 0:
        return clusters
    if k == 1:
        return tuple(tuple(c) for c in clusters)
    if k == 2:
        return [set(c) for c in clusters]
    return [dict.fromkeys(c) for c in clusters]


def huge(d):
    scores(d, True)


def scores(d, huge=False):
    items, truth, predicted = two(d, huge)
    extra = d.bool(0.4)
    given = predicted
    kw = {}
    if extra:
        given = [list(c) for c in predicted]
        for i in range(d.int(0, 4)):
            k = d.int(0, len(given))
            if k == len(given):
                given.append([('x', i)])
            else:
                given[k].insert(d.int(0, len(given[k])), ('x', i))
        kw['allow_additional_items'] = True
    t, p = as_type(d, truth), as_type(d, given)
    d.show({'truth': t, 'predicted': p, 'options': kw})
    if len(truth) > 1 and len(predicted) > 1 and set(map(frozenset, truth)) != set(map(frozenset, predicted)):
        d.nontrivial((repr(truth), repr(given)))
    sP, sR, sF = ([], []), ([], []), Fraction(0)
    for c in truth:
        best = []
        for q in predicted:
            tp = len(set(c) & set(q))
            if not tp:
                continue
            best.append((Fraction(2 * tp, len(c) + len(q)), Fraction(tp, len(q)), Fraction(tp, len(c))))
        top = max(best)[0]
        best = [x for x in best if x[0] == top]
        sF += top
        sP[0].append(min(x[1] for x in best))
        sP[1].append(max(x[1] for x in best))
        sR[0].append(min(x[2] for x in best))
        sR[1].append(max(x[2] for x in best))
    n = len(truth)
    got = call(best_matching_macro_average, t, p, **kw)
    check(isinstance(got, tuple) and len(got) == 3 and all(isinstance(x, float) for x in got), 'result is %r', got)
    P, R, F = got
    eps = 1e-9
    check(abs(F - float(sF / n)) < eps, 'F1 is %r, expected %r', F, float(sF / n))
    check(float(sum(sP[0]) / n) - eps < P < float(sum(sP[1]) / n) + eps, 'precision is %r, expected %r', P, float(sum(sP[0]) / n))
    check(float(sum(sR[0]) / n) - eps < R < float(sum(sR[1]) / n) + eps, 'recall is %r, expected %r', R, float(sum(sR[0]) / n))


def anomalies(d):
    """Inputs that are not comparable partitions are reported, never scored."""
    items, truth, predicted = two(d)
    what = d.choice(('no truth', 'no predicted', 'empty truth cluster', 'empty predicted cluster', 'missing item', 'additional item', 'fuzzy'))
    kw = {}
    if what == 'no truth':
        truth = []
    elif what == 'no predicted':
        predicted = []
    elif what == 'empty truth cluster':
        truth.insert(d.int(0, len(truth)), [])
    elif what == 'empty predicted cluster':
        predicted.insert(d.int(0, len(predicted)), [])
    elif what == 'missing item':
        predicted = [list(c) for c in predicted]
        x = d.choice(items)
        predicted = [[y for y in c if y != x] for c in predicted]
        predicted = [c for c in predicted if c] or [['other']]
        if d.bool():
            kw['allow_additional_items'] = True
    elif what == 'additional item':
        predicted = [list(c) for c in predicted]
        predicted[d.int(0, len(predicted) - 1)].append('other')
    else:
        predicted = [list(c) for c in predicted] + [[d.choice(items)]]
        predicted = d.shuffled(predicted)
    if what != 'missing item' and what != 'additional item' and d.bool(0.3):
        kw['allow_additional_items'] = True
    d.show({'truth': truth, 'predicted': predicted, 'anomaly': what, 'options': kw})
    d.nontrivial((what, repr(truth), repr(predicted)))
    d.label(what)
    try:
        got = best_matching_macro_average(truth, predicted, **kw)
    except TypeError:
        return
    except Exception as e:
        raise Violation('%s raised instead of TypeError' % type(e).__name__)
    raise Violation('%s was scored %r' % (what, got))


def repeated(d):
    """An item given twice in a predicted cluster is reported or counted once."""
    items, truth, predicted = two(d)
    given = [list(c) for c in predicted]
    for _ in range(d.int(1, 2)):
        c = d.choice(given)
        c.insert(d.int(0, len(c)), d.choice(c))
    d.show({'truth': truth, 'predicted': given})
    d.nontrivial((repr(truth), repr(given)))
    try:
        got = best_matching_macro_average(truth, given)
    except TypeError:
        return
    want = call(best_matching_macro_average, truth, predicted)
    check(all(abs(x - y) < 1e-9 for x, y in zip(got, want)), 'scores are %r, and %r when items are given once', got, want)


def conversions(d):
    n = d.int(0, d.wide(12))
    pool = (0, 1, 2, 'a', None, -1, ('t',))
    labels = [d.choice(pool) for _ in range(n)]
    items = ['i%d' % i for i in range(n)]
    form = d.choice(('list', 'tuple', 'str', 'range', 'deque', 'UserList', 'dict', 'OrderedDict', 'proxy', 'pairs', 'generator'))
    if form == 'str':
        labels = [d.choice('abc') for _ in range(n)]
    elif form == 'range':
        labels = list(range(n))
    flat = form in ('list', 'tuple', 'str', 'range', 'deque', 'UserList')
    names = list(range(n)) if flat else items
    x = {'list': lambda: list(labels), 'tuple': lambda: tuple(labels), 'dict': lambda: dict(zip(items, labels)),
         'str': lambda: ''.join(labels), 'range': lambda: range(n), 'deque': lambda: deque(labels), 'UserList': lambda: UserList(labels),
         'OrderedDict': lambda: OrderedDict(zip(items, labels)), 'proxy': lambda: MappingProxyType(dict(zip(items, labels))),
         'pairs': lambda: iter(list(zip(items, labels))), 'generator': lambda: (p for p in zip(items, labels))}[form]()
    d.show({'labels': labels, 'form': form})
    if len(set(labels)) > 1 and len(set(labels)) < n:
        d.nontrivial((tuple(labels), form))
    want = [[names[i] for i in range(n) if labels[i] == l] for l in dict.fromkeys(labels)]
    got = call(labels_to_clusters, x)
    eq([list(c) for c in got], want, 'clusters')
    back = call(clusters_to_labels, got)
    eq(back, dict((y, i) for i, c in enumerate(want) for y in c), 'labels of clusters')
    key = d.choice((None, lambda y: ('k', y)))
    shuffled = d.shuffled(want)
    got = call(clusters_to_labels, (tuple(c) for c in shuffled), key=key)
    eq(got, dict((y if key is None else key(y), i) for i, c in enumerate(shuffled) for y in c), 'labels of clusters')
    ids = [[int(str(y).strip('i')) for y in c] for c in shuffled]
    got = call(clusters_to_labels, ids, flat=True)
    eq(list(got), [next(i for i, c in enumerate(ids) if y in c) for y in range(n)], 'flat labels')
    if flat:
        eq(sorted(map(sorted, call(labels_to_clusters, got))), sorted(map(sorted, ids)), 'clusters of flat labels')
    byname = call(clusters_to_labels, shuffled, key=lambda y: int(str(y).strip('i')), flat=True)
    eq(list(byname), list(got), 'flat labels by key')


TESTS = [
    Test(scores, 24000, 600000),
    Test(huge, 80, 1500, cpu=60),
    Test(anomalies, 8000, 150000),
    Test(repeated, 2000, 40000),
    Test(conversions, 12000, 250000),
]
