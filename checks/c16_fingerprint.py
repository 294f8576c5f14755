"""C16: fingerprints keep exactly what they document."""
from unidecode import unidecode

from lib.engine import Test, call, check, eq, short

from fog.key import FingerprintingKeyer, NgramsFingerprintKeyer, fingerprint, ngrams_fingerprint
from fog.tokenizers import (FingerprintTokenizer, NgramsFingerprintTokenizer, fingerprint_tokenizer,
                            ngrams_fingerprint_tokenizer)

SOURCES = ['fog/tokenizers/fingerprint.py', 'fog/key/fingerprint.py', 'fog/utils.py']
RULE = ('Texts made of words (ascii, accented, transliterated scripts, digits) with punctuation and any whitespace, and '
        'variants of them by reordering, repeating, changing case, adding punctuation or accents; non-trivial = at '
        'least two different words, and a variant that differs from the text or an option that changes the tokens.')
ASSUMPTIONS = ['Tokens whose size is exactly min_token_size are neither required nor forbidden (the documentation keeps '
               'them, the tests pin that they are dropped).',
               'With stopwords, min_token_size or keep_digits=False, words are alphanumeric and separated by whitespace.',
               'The empty list and the list of one empty token both mean "no token".']

ALNUM = frozenset('abcdefghijklmnopqrstuvwxyz0123456789')
LETTERS = 'abcdeABCDE'
ACCENTED = '\xe9\xc9\xe0\xef\xdf\xf1\xd8\u0153\u0152\u0141\u017e\u0131\u1e9e'
SCRIPTS = '\u4e2d\u56fd\u2115\u2116\u03a9\u03c3\u0416\u044f\u3042\u0634\uac00\u2121\ufb01'
PUNCT = '.,;:!?-_\'"()/&+*#\u2019\xab\xbb\u2014\u2026\x00@\\[]^'
SPACES = (' ', '  ', '\t', '\n', '\r\n', '\u00a0', ' \n ', '\n\n', '\u2003')
MARKS = '\u0301\u0308\u0327'


def clean(s):
    """Plain ascii, lowercased, alphanumeric & whitespace only."""
    out = []
    for c in s:
        for x in unidecode(c).lower():
            if x in ALNUM or x.isspace():
                out.append(x)
    return ''.join(out)


def tokens_of(s):
    return sorted(set(clean(s).split()))


def some(tokens):
    return [t for t in tokens if t]


def word(d, exotic=True):
    kind = d.weighted(((4, 0), (2, 1), (1, 2), (1, 3))) if exotic else d.weighted(((4, 0), (1, 3)))
    if kind == 0:
        if not d.int(0, 39):
            # Long words with a common start
            return 'ab' * d.choice((5, 8, 16, 32, 130)) + d.text('abc', 0, 2)
        return d.text('abcABC', 1, d.wide(6))
    if kind == 1:
        return d.text(LETTERS + ACCENTED, 1, 6)
    if kind == 2:
        return d.text(SCRIPTS + 'ab', 1, 4)
    return d.text('ab0189' + d.choice(('', '', '\u0661\u0969\uff15\U0001d7d8')), 1, 4)


def words(d, exotic=True):
    pool = d.list(lambda: word(d, exotic), 1, d.wide(5))
    return [d.choice(pool) for _ in range(d.int(0, 6))] if d.bool(0.3) else pool


def glue(d, ws, punct=True):
    out = []
    for i, w in enumerate(ws):
        if i or d.bool(0.2):
            out.append(d.choice(SPACES))
        if punct and d.bool(0.3):
            w = d.choice(PUNCT) + w
        if punct and d.bool(0.3):
            w = w + d.text(PUNCT, 1, 3)
        if punct and d.bool(0.1):
            i = d.int(0, len(w))
            w = w[:i] + d.choice(PUNCT) + w[i:]
        out.append(w)
    if d.bool(0.2):
        out.append(d.choice(SPACES))
    return ''.join(out)


def recase(d, w):
    # Only where case mapping is one to one
    f = d.choice((lambda c: c, str.upper, str.lower, str.swapcase))
    return ''.join(f(c) if f(c).lower() == c.lower() and len(f(c)) == 1 else c for c in w)


def basic(d):
    ws = words(d)
    s = glue(d, ws)
    d.show(s)
    want = tokens_of(s)
    if len(want) > 1:
        d.nontrivial(s)
    got = call(fingerprint_tokenizer, s)
    check(isinstance(got, list), 'tokens are not a list: %r', got)
    eq(some(got), want, 'tokens of %r' % s)
    key = call(fingerprint, s)
    eq(key, ' '.join(want), 'key of %r' % s)
    eq(call(fingerprint_tokenizer.key, s), key, 'key() of %r' % s)
    eq(call(fingerprint, key), key, 'key of its own key')


def variants(d):
    """Strings meant to collide do collide."""
    ws = d.list(lambda: d.text('abcdABCD\xe9\xc9\xe0\xef\xd8\u0153', 1, 6), 1, d.wide(5))
    s = glue(d, ws)
    vs = [recase(d, w) for w in ws]
    if d.bool(0.4):
        vs = vs + [recase(d, d.choice(ws)) for _ in range(d.int(0, 2))]
    if d.bool(0.4):
        vs = [unidecode(w) for w in vs]
    if d.bool(0.3):
        vs = [w + d.choice(MARKS) if d.bool() else w for w in vs]
    vs = d.shuffled(vs)
    t = glue(d, vs)
    n = d.int(1, 4)
    d.show({'a': s, 'b': t, 'n': n})
    if s != t and len(set(ws)) > 1:
        d.nontrivial((s, t))
    eq(call(fingerprint, t), call(fingerprint, s), 'keys of %r & %r' % (t, s))
    u = glue(d, [recase(d, w) for w in ws])
    d.show({'a': s, 'b': t, 'c': u, 'n': n})
    eq(call(ngrams_fingerprint, n, u), call(ngrams_fingerprint, n, s), 'ngrams keys of %r & %r' % (u, s))


def ngram(d):
    n = d.int(1, 5) if d.bool(0.9) else d.int(6, 40)
    s = glue(d, words(d))
    if n > 5:
        s = s + d.choice(SPACES) + d.text('abcABC', 0, 60)
    squeeze = d.bool(0.3)
    d.show({'n': n, 'string': s, 'squeeze': squeeze})
    base = clean(s).strip()
    if squeeze:
        base = squeezed(base)
    flat = ''.join(base.split())
    want = sorted(set(flat[i:i + n] for i in range(len(flat) - n + 1))) if len(flat) >= n else ([flat] if flat else [])
    if len(want) > 1:
        d.nontrivial((n, s, squeeze))
    tok = NgramsFingerprintTokenizer(squeeze=squeeze) if squeeze else ngrams_fingerprint_tokenizer
    keyer = NgramsFingerprintKeyer(squeeze=squeeze) if squeeze else ngrams_fingerprint
    eq(some(call(tok, n, s)), want, '%d-grams of %r' % (n, s))
    eq(call(keyer, n, s), ''.join(want), '%d-grams key of %r' % (n, s))
    eq(call(tok.key, n, s), ''.join(want), '%d-grams key() of %r' % (n, s))


def squeezed(s):
    return ''.join(c for i, c in enumerate(s) if i == 0 or s[i - 1] != c)


def options(d):
    kw = {}
    kind = d.int(0, 3)
    ws = [w for w in words(d, exotic=False)]
    if d.bool(0.5):
        ws = ws + d.list(lambda: d.text('de\xe9DE', 1, 3), 0, 3)
    if kind == 0 or d.bool(0.2):
        kw['squeeze'] = True
    if kind == 1 or d.bool(0.2):
        kw['keep_digits'] = False
    if kind == 2 or d.bool(0.2):
        kw['stopwords'] = d.list(lambda: recase(d, d.choice(ws)) if ws and d.bool(0.7) else d.text('deab', 1, 3), 0, 3)
    if kind == 3 or d.bool(0.2):
        kw['min_token_size'] = d.int(0, 4)
    s = glue(d, ws, punct=False)
    joint = s
    if d.bool(0.4):
        split = d.choice((',', '-', ',-', ']', '^-', '\\', 'a]b-'))
        kw['split'] = d.choice((list(split), split))
        if split == 'a]b-':
            kw['split'] = split = '|]^-'
        joint = ''.join(d.choice(split) if c == ' ' and d.bool() else c for c in s)
    n = d.int(1, 3)
    d.show({'string': joint, 'options': kw, 'n': n})
    plain = tokens_of(s)

    stop = set(x.lower() for x in kw.get('stopwords') or ())
    size = kw.get('min_token_size', 1)
    kept, unsure = [], []
    for w in s.split():
        if w.lower() in stop:
            continue
        if not kw.get('keep_digits', True):
            w = ''.join(c for c in w if not c.isdigit())
        if len(w) < size and size > 1:
            continue
        (unsure if size > 1 and len(w) == size else kept).append(w)

    def final(w):
        w = clean(w)
        return squeezed(w) if kw.get('squeeze') else w
    sure = set(final(w) for w in kept) - set([''])
    maybe = sure | set(final(w) for w in unsure) - set([''])
    if len(plain) > 1 and plain != sorted(sure):
        d.nontrivial((joint, repr(sorted(kw.items()))))
    for k in kw:
        d.label(k)
    if 'stopwords' in kw and d.bool():
        kw['stopwords'] = iter(kw['stopwords'])
    tok = call(FingerprintTokenizer, **kw)
    if 'stopwords' in kw:
        kw['stopwords'] = list(stop)
    got = some(call(tok, joint))
    eq(got, sorted(set(got)), 'tokens are not sorted & unique')
    check(sure <= set(got) <= maybe, 'tokens of %r with %s are %s, expected %s', joint, short(kw), short(got), short(sorted(sure)))
    eq(call(call(FingerprintingKeyer, **kw), joint), ' '.join(got), 'key of %r with %s' % (joint, short(kw)))
    if not unsure and not kw.get('squeeze'):
        flat = ''.join(clean(w) for w in kept)
        want = sorted(set(flat[i:i + n] for i in range(len(flat) - n + 1))) if len(flat) >= n else ([flat] if flat else [])
        eq(some(call(call(NgramsFingerprintTokenizer, **kw), n, joint)), want, '%d-grams of %r with %s' % (n, joint, short(kw)))


def literal_stopwords(d):
    """Stopwords are words, not patterns."""
    pool = ('a.b', 'axb', 'c+d', 'ccd', 'e(f', 'ef', 'g|h', 'g', 'h', 'k*l', 'kkl', 'l', 'm?n', 'n', 'o[p]q', 'opq', 'r$s', 'rs', 't^u', 'v\\w', 'vw', 'x{2}y', 'xxy')
    ws = [d.choice(pool) for _ in range(d.int(1, 6))]
    stop = [d.choice(pool) for _ in range(d.int(1, 3))]
    s = ' '.join(recase(d, w) for w in ws)
    d.show({'string': s, 'stopwords': stop})
    # A stopword is dropped wherever it stands between boundaries
    for a in stop:
        for b in ws:
            if a != b and a in b:
                return
    if set(ws) & set(stop) and set(ws) - set(stop):
        d.nontrivial((s, tuple(stop)))
    want = sorted(set(clean(w) for w in ws if w not in stop) - set(['']))
    eq(some(call(call(FingerprintTokenizer, stopwords=list(stop)), s)), want, 'tokens of %r without %s' % (s, stop))


TESTS = [
    Test(literal_stopwords, 1600, 30000),
    Test(basic, 16000, 400000),
    Test(variants, 12000, 300000),
    Test(ngram, 12000, 300000),
    Test(options, 20000, 500000),
]
