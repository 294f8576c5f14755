"""C26: fog split & fog transform change what they are asked to, and nothing else."""
from unidecode import unidecode

from lib.engine import Test, check, short
from lib import cli
from checks.c16_fingerprint import squeezed, tokens_of

SOURCES = ['fog/cli/split.py', 'fog/cli/transform.py', 'fog/cli/utils.py', 'fog/cli/__main__.py']
RULE = ('Generated CSV files (separators, quotes, newlines, empty cells, accents in cells; one to five columns, any target) '
        'through files, standard streams or another process, with any combination of options; non-trivial = at least two '
        'rows, and some cell of the column changes or splits.')
ASSUMPTIONS = ['A row may have more cells than there are headers, or less as long as it has the column, unless a new column is '
               'appended at the end (nothing tells where its value should go then).',
               'Only the last operation of a chain may return a number (len).']

HEADERS = ('name', 'value', 'a b', '\xe9t\xe9', 'x,y', 'q"', 'id', ' name', 'name ', 'Name', 'NAME', 'n', 'two\nlines', '', ' ')
CELL = '\x00abAB\xe9\xc9|;,"\'\n\r \\\t1-\xdf\U0001f600'


def table(d, cell=CELL):
    n = d.int(1, 5)
    headers = d.shuffled(HEADERS)[:n]
    if n == 1 and not headers[0]:
        headers = ['name']
    rows = d.list(lambda: [d.text(cell, 0, d.wide(6)) for _ in range(n)], 0, d.wide(6))
    if n == 1:
        # A blank line, not an empty cell, for some CSV dialects
        rows = [[r[0] or 'x'] for r in rows]
    at = d.int(0, n - 1)
    return headers, rows, at


def ragged(d, rows, at):
    """Rows longer than the headers, or shorter but still having the column."""
    for r in rows:
        k = d.int(0, 5)
        if k == 0:
            r += [d.text(CELL, 1, 3) for _ in range(d.int(1, 3))]
        elif k == 1 and len(r) > 1:
            del r[d.int(at + 1, len(r)):]
            r[-1] = r[-1] or 'x'


def compare(got, want):
    check(got[:1] == want[:1], 'headers are %s, expected %s', short(got[:1]), short(want[:1]))
    for i, (g, w) in enumerate(zip(got, want)):
        check(g == w, 'line %d is %s, expected %s', i, short(g), short(w))
    check(len(got) == len(want), '%d lines, expected %d', len(got), len(want))


def processes(d):
    (split if d.bool() else transform)(d, True)


def split(d, process=False):
    sep = d.choice((None, '|', ';', ',', '||', ' ', 'b', '\xe9'))
    headers, rows, at = table(d, CELL + (sep or '|') * 4)
    argv = ['split', headers[at]]
    opts = []
    if sep is not None:
        opts += [d.choice(('-s', '--separator')), sep]
    target = rename = None
    if d.bool():
        target = d.choice(('new', 'name', 't t'))
        opts += [d.choice(('-t', '--target-column')), target]
    if d.bool(0.3):
        rename = d.choice(('renamed', 'name'))
        opts += [d.choice(('-r', '--rename-column')), rename]
    if not target and d.bool(0.3):
        ragged(d, rows, at)
    d.show({'headers': headers, 'rows': rows, 'column': at, 'options': opts})
    sep = sep or '|'
    head = list(headers)
    if rename:
        head[at] = rename
    if target:
        head.append(target)
    want = [head]
    for row in rows:
        for part in row[at].split(sep):
            want.append(row + [part] if target else row[:at] + [part] + row[at + 1:])
    if len(rows) > 1 and len(want) > len(rows) + 1:
        d.nontrivial((repr(rows), at, repr(opts)))
    out = cli.run(d, argv + opts, 2, cli.to_csv([headers] + rows, d.choice(('\r\n', '\n'))), process)
    compare([r or [''] for r in cli.parse_csv(out)], want)


OPS = {
    'fingerprint': lambda s: ' '.join(tokens_of(s)),
    'len': len,
    'lower': lambda s: s.lower(),
    'squeeze': squeezed,
    'strip': lambda s: s.strip(),
    'unidecode': unidecode,
    'upper': lambda s: s.upper()
}
EXPRS = {
    'value.upper() + "!"': lambda s: s.upper() + '!',
    'len(value)': len,
    'unidecode(value)': unidecode,
    '"%s,%s" % (value, value[::-1])': lambda s: s + ',' + s[::-1],
    'value': lambda s: s
}


def transform(d, process=False):
    headers, rows, at = table(d)
    opts = []
    if d.bool(0.25):
        expr = d.choice(sorted(EXPRS))
        fns = [EXPRS[expr]]
        opts.append('--eval')
    else:
        names = d.list(lambda: d.choice(('lower', 'fingerprint', 'squeeze', 'strip', 'unidecode', 'upper')), 1, 4)
        if d.bool(0.3):
            names.append('len')
        expr = ','.join(names)
        fns = [OPS[o] for o in names]
    target = None
    after = d.bool(0.4)
    if d.bool():
        target = d.choice(('new', 'name', 't t'))
        opts += [d.choice(('-t', '--target-column')), target]
    if after:
        opts.append(d.choice(('-a', '--after')))
    if (after or not target) and d.bool(0.3):
        ragged(d, rows, at)
    d.show({'headers': headers, 'rows': rows, 'column': at, 'operations': expr, 'options': opts})

    def place(row, v):
        if not target:
            return row[:at] + [v] + row[at + 1:]
        return row[:at + 1] + [v] + row[at + 1:] if after else row + [v]
    want = [place(headers, target) if target else list(headers)]
    changed = False
    for row in rows:
        v = row[at]
        for fn in fns:
            v = fn(v)
        changed = changed or v != row[at]
        want.append(place(row, str(v)))
    if len(rows) > 1 and changed:
        d.nontrivial((repr(rows), at, expr, repr(opts)))
    out = cli.run(d, ['transform', headers[at], expr] + opts, 3, cli.to_csv([headers] + rows, d.choice(('\r\n', '\n'))), process)
    compare([r or [''] for r in cli.parse_csv(out)], want)


TESTS = [
    Test(processes, 24, 400, wall=900),
    Test(split, 5000, 60000, wall=900),
    Test(transform, 5000, 60000, wall=900),
]
