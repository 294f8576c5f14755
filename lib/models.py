"""
Reference implementations, written from the definitions and kept naive.
"""


def lev(a, b):
    """Levenshtein distance, full matrix, no trimming."""
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


def osa(a, b):
    """Damerau-Levenshtein distance (restricted; equal to the full one at <= 1)."""
    n, m = len(a), len(b)
    d = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        d[i][0] = i
    for j in range(m + 1):
        d[0][j] = j
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                d[i][j] = min(d[i][j], d[i - 2][j - 2] + 1)
    return d[n][m]


def components(n, edges):
    """Connected components of a graph over range(n), as a set of frozensets."""
    comp = list(range(n))
    changed = True
    while changed:
        changed = False
        for i, j in edges:
            m = min(comp[i], comp[j])
            if comp[i] != m or comp[j] != m:
                comp[i] = comp[j] = m
                changed = True
    groups = {}
    for i in range(n):
        groups.setdefault(comp[i], set()).add(i)
    return set(frozenset(g) for g in groups.values())


def lev_long(a, b):
    """Levenshtein distance of long strings: bit vectors of Myers, as Python integers."""
    if not a:
        return len(b)
    peq = {}
    for i, x in enumerate(a):
        peq[x] = peq.get(x, 0) | (1 << i)
    n = len(a)
    full = (1 << n) - 1
    top = 1 << (n - 1)
    pv, mv, score = full, 0, n
    for y in b:
        eq = peq.get(y, 0)
        xv = eq | mv
        xh = (((eq & pv) + pv) ^ pv) | eq
        ph = mv | (full & ~(xh | pv))
        mh = pv & xh
        if ph & top:
            score += 1
        if mh & top:
            score -= 1
        ph = ((ph << 1) | 1) & full
        mh = (mh << 1) & full
        pv = mh | (full & ~(xv | ph))
        mv = ph & xv
    return score
