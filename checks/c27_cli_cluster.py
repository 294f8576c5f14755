"""C27: fog cluster reports hold exactly the clusters of the column, whatever the values."""
import random
import tomllib
from time import perf_counter
from collections import Counter
from html.parser import HTMLParser
import re

from lib.engine import Test, Violation, check, eq, lst, short
from lib import cli
from checks.c16_fingerprint import tokens_of

from fog.clustering import key_collision
from fog.key import fingerprint

SOURCES = ['fog/cli/cluster.py', 'fog/cli/reporting/toml.py', 'fog/cli/reporting/html.py', 'fog/cli/utils.py', 'fog/cli/__main__.py',
           'fog/clustering/key_collision.py']
RULE = ('Generated CSV files whose column holds variants of a few names (case, order, punctuation, quotes, backslashes, '
        'control characters, markup, newlines), repeated or not, reported as TOML (parsed back by tomllib) and HTML (parsed '
        'back by html.parser); non-trivial = at least one cluster, one of whose values needs escaping.')
ASSUMPTIONS = ['HTML: values are compared up to leading and trailing white space, and to the kind of line breaks.']

TAGS = ('"', '\\', '\n', '<b>', '&amp;', '&', '\\n', '\\u0041', '\x07', '\x7f', '\t', "'", '</li>', '<!--', '\x00', '"""', '\xe9', '\u2028', '#', '\\"', '\r', '\r\n', '\x0c', '\x1c', '\x1d', '\x1e', '\x1f', '\x85', '\u2029', '\ud7ff', '\U0001f600')

# Those do not change the fingerprint
PURE = ('"', '\\', '&', "'", '#', '\x07', '\x7f', '\x00', '"""', '\\"', '<', '>', '\x1b', '\x0b', '\\\\', '\x80', '<!') + tuple(chr(i) for i in range(0x20) if chr(i) not in '\t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')


def value(d, roots):
    words = list(d.choice(roots))
    if d.bool(0.4):
        words = d.shuffled(words)
    words = [d.choice((str, str.upper, str.capitalize))(w) for w in words]
    s = d.choice((' ', ' ', '  ')).join(words)
    for _ in range(d.weighted(((3, 0), (4, 1), (2, 2)))):
        i = d.int(0, len(s))
        s = s[:i] + d.choice(PURE if d.bool(0.6) else TAGS) + s[i:]
    return s


class Items(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.lists, self.cur, self.text, self.heads = [], None, None, []
        self.buf = ''
        self.strange = []
        self.open = []

    def handle_starttag(self, tag, attrs):
        self.open.append(tag)
        if tag == 'ul':
            self.cur = []
            self.heads.append(self.buf)
        elif tag == 'li':
            if self.text is not None:
                self.strange.append('li')
            self.text = ''
        elif self.text is not None:
            self.strange.append(tag)
        elif tag == 'p':
            self.buf = ''

    def handle_endtag(self, tag):
        if not self.open or self.open.pop() != tag:
            self.strange.append('/' + tag)
        if tag == 'ul' and self.cur is not None:
            self.lists.append(self.cur)
            self.cur = None
        elif tag == 'li':
            if self.text is None or self.cur is None:
                self.strange.append('/li')
            else:
                self.cur.append(self.text)
            self.text = None

    def handle_data(self, data):
        if self.text is not None:
            self.text += data
        else:
            self.buf += data


def processes(d):
    report(d, True)


def crowded(d):
    """Hundreds of values in a cluster, or thousands of rows having a value."""
    rng = random.Random(d.int(0, 1 << 20))
    n = d.int(90, 400)
    column = ['a' + '.' * i + rng.choice(('', ' b', ' c')) for i in range(n)]
    for _ in range(d.int(0, 2)):
        column += [rng.choice(column)] * d.int(200, 1500)
    rng.shuffle(column)
    report(d, column=column)


def report(d, process=False, column=None):
    roots = d.list(lambda: d.list(lambda: d.text('abc', 1, 4), 1, 3), 1, d.choice((1, 2, 3)))
    pool = d.list(lambda: value(d, roots) if d.bool(0.9) else d.choice(('', '?', ' ', '\\')), 1, d.wide(8, 4))
    column = column or d.list(lambda: d.choice(pool), 0, d.wide(12))
    # Same fingerprint rule as documented (C16)
    groups = {}
    counts = Counter(column)
    for v in counts:
        k = ' '.join(tokens_of(v))
        if k:
            groups.setdefault(k, []).append(v)
    clusters = [g for g in groups.values() if len(g) > 1]
    kind = d.choice(('toml', 'html'))
    headers = ['id', 'name', 'other'] if d.bool() else ['name', 'id']
    at = headers.index('name')
    rows = [[v if i == at else 'r%d' % n for i in range(len(headers))] for n, v in enumerate(column)]
    opts = []
    if kind == 'html' or d.bool():
        opts = [d.choice(('-t', '--type')), kind]
    if d.bool(0.3):
        opts += ['-a', 'fingerprint_collision']
    d.show({'column': column, 'type': kind, 'options': opts})
    if any(re.search('["\\\\<>&\x00-\x1f\x7f]', v) for c in clusters for v in c):
        d.nontrivial((tuple(column), kind))
    d.label(kind)
    out = cli.run(d, ['cluster', 'name'] + opts, 2, cli.to_csv([headers] + rows), process)
    want = Counter(frozenset(c) for c in clusters)
    if kind == 'toml':
        try:
            doc = tomllib.loads(out)
        except tomllib.TOMLDecodeError as e:
            raise Violation('the report is not valid TOML: %s' % e)
        eq(doc['info']['algorithm'], 'fingerprint_collision', 'algorithm')
        eq((doc['stats']['lines'], doc['stats']['nb_distinct_values'], doc['stats']['nb_clusters']), (len(column), len(counts), len(clusters)), 'statistics')
        got = doc.get('cluster', [])
        eq([c['id'] for c in got], list(range(len(clusters))), 'identifiers')
        eq(Counter(frozenset(v for (v,), _ in c['values']) for c in got), want, 'clusters')
        for c in got:
            vals = [(v, n) for (v,), (n,) in c['values']]
            eq(vals, [(v, counts[v]) for v, _ in vals], 'rows per value')
            check(all(vals[i][1] >= vals[i + 1][1] for i in range(len(vals) - 1)), 'values are not sorted by rows: %s', short(vals))
            eq((c['nb_values'], c['nb_rows']), (len(vals), sum(n for _, n in vals)), 'sizes of the cluster')
            check(c['harmonized'] == vals[0][0] and c['harmonize'] is False, 'harmonized value is %r', c['harmonized'])
        return
    p = Items()
    p.feed(out)
    p.close()
    check(not p.strange, 'values leak markup in the report: %s', short(p.strange))
    check(not p.open, 'tags are left open in the report: %s', short(p.open))
    norm = lambda s: s.strip().replace('\r\n', '\n').replace('\r', '\n').replace('\x00', '\ufffd')
    have = sorted(sorted(norm(v) for v in c) for c in p.lists)
    eq(have, sorted(sorted(norm(v) for v in c) for c in clusters), 'clusters')
    infos = sorted(tuple(map(int, re.search(r'\((\d+) unique values, (\d+) affected rows\)', h).groups())) for h in p.heads)
    eq(infos, sorted((len(c), sum(counts[v] for v in c)) for c in clusters), 'sizes of clusters')
    cells = [x.strip() for x in re.findall(r'<td>\s*([^<>]*?)\s*</td>', out)]
    stats = [int(x.replace(',', '')) for x in cells if re.match(r'^[\d,]+$', x)]
    eq(stats[:3], [len(column), len(counts), len(clusters)], 'statistics')


def duration(d):
    """Clustering lasts for as long as reported."""
    n = d.int(2000, 6000)
    column = ['%s %d' % (w, i % (n // 2)) for i, w in enumerate(d.choice((('name', 'other'), ('alpha', 'beta', 'gamma'))) * n)][:n]
    kind = d.choice(('toml', 'html'))
    d.show({'rows': n, 'type': kind})
    d.nontrivial((n, kind))
    text = cli.to_csv([['name']] + [[v] for v in column])
    start = perf_counter()
    out = cli.run(d, ['cluster', 'name', '-t', kind], 2, text)
    most = perf_counter() - start
    # The same work, with a margin that any machine has
    start = perf_counter()
    for _ in lst(key_collision, dict.fromkeys(column), key=fingerprint):
        pass
    least = (perf_counter() - start) / 1000
    if kind == 'toml':
        took = tomllib.loads(out)['stats']['took']
    else:
        m = re.search(r'(\d+):(\d\d):(\d\d(?:\.\d+)?)', out)
        check(m is not None, 'no duration in the report')
        took = int(m.group(1)) * 3600 + int(m.group(2)) * 60 + float(m.group(3))
    check(least <= took + 1e-6 and took <= most + 1e-6, 'clustering took %r s according to the report, the whole command %r s, and clustering again %r s', took, most, least * 1000)


TESTS = [
    Test(duration, 24, 300, wall=900),
    Test(crowded, 60, 800, wall=900),
    Test(processes, 24, 400, wall=900),
    Test(report, 10000, 120000, wall=900),
]
