"""
Generators shared by the checks.
"""

ASCII = 'abcdefghijklmnopqrstuvwxyz'
# Bounds of the one, two, three and four byte encodings, of the latin-1, BMP and
# astral storage kinds of Python strings, case quirks, combining marks, ...
EXOTIC = ('\x00', '\x01', '\x7f', '\x80', '\xe9', '\xc9', '\xff', '\u0100', '\u0101', '\u0130', '\u0131', '\u0301', '\u03a3',
          '\u03c2', '\u200b', '\u2019', '\u4e2d', '\ufb01', '\uffff', '\U00010041', '\U00010061', '\U0001f600', '\U0001f601',
          '\U0010ffff', 'A', ' ', '\n', '\u2028', '\u0041', '\u00df', '\u1e9e')


def alphabet(d):
    """An alphabet: small ones make repeated characters and near misses likely."""
    kind = d.weighted(((5, 0), (3, 1), (2, 2), (2, 3)))
    if kind == 0:
        return 'ab'
    if kind == 1:
        return 'abcd'
    if kind == 2:
        return ASCII
    n = d.int(2, 5)
    return ''.join(d.choice(EXOTIC) for _ in range(n))


def edit(d, s, alpha, k):
    """s after k random edits (insertion, deletion, substitution, swap)."""
    for _ in range(k):
        op = d.int(0, 4)
        i = d.int(0, len(s))
        if op == 0:
            s = s[:i] + d.choice(alpha) + s[i:]
        elif op == 1:
            s = s[:i] + s[i + 1:]
        elif op == 2:
            s = s[:i] + d.choice(alpha) + s[i + 1:]
        elif op == 3:
            s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
        else:
            # Doubling a character: repeated letters are where trimming goes wrong
            s = s[:i] + s[i:i + 1] + s[i:]
    return s


def string_pair(d, hi=12, lo=0):
    """Two strings, related more often than not."""
    alpha = alphabet(d)
    a = d.text(alpha, lo, hi)
    kind = d.weighted(((2, 0), (5, 1), (1, 2), (2, 3)))
    if kind == 0:
        b = d.text(alpha, lo, hi)
    elif kind == 1:
        b = edit(d, a, alpha, d.int(0, 4))
    elif kind == 2:
        b = a[::-1]
    else:
        p = d.text(alpha, 0, 4)
        s = d.text(alpha, 0, 4)
        b = p + d.text(alpha, 0, hi) + s
        a = p + a + s
    return (b, a) if d.bool() else (a, b)


def words_like(d, n_lo, n_hi, alpha=None, hi=8, lo=0):
    """A collection of strings made of a few families of near duplicates."""
    if alpha is None:
        alpha = alphabet(d)
    roots = d.list(lambda: d.text(alpha, lo, hi), 1, 4)

    def item():
        r = d.choice(roots)
        k = d.weighted(((1, 0), (3, 1), (2, 2), (1, 3), (2, 9)))
        if k == 9:
            return d.text(alpha, lo, hi)
        out = edit(d, r, alpha, k)
        return out if len(out) >= lo else out + alpha[0] * (lo - len(out))
    return d.list(item, n_lo, n_hi)


def huge_pair(d):
    """Strings long enough for counters of 8 and 16 bits to wrap: (A, B)."""
    alpha = alphabet(d)
    other = d.choice(('xyz', alpha))
    kind = d.weighted(((3, 0), (2, 1), (2, 2)))
    if kind == 0:
        # Hardly anything in common
        a = d.text(alpha, 1, 6) * d.int(40, 90)
        b = d.text(other, 1, 6) * d.int(40, 90)
    elif kind == 1:
        a = d.text(alpha, 1, 20) * d.int(12, 40)
        b = d.text(other, 1, 4) * d.choice((0, 1, 70, 100)) + edit(d, a, alpha, d.int(0, 6))
    else:
        # One of them beyond 65536 characters
        a = d.text(alpha, 1, 5)
        b = d.text(other, 1, 4) * 1 + d.text(alpha, 1, 3) * d.choice((200, 21900, 33000, 65600)) + d.text(other, 1, 4)
    return (b, a) if d.bool() else (a, b)
