"""C24: WordTokenizer loses nothing, keeps order, and tags typical entities properly."""
import random
import re

from lib.engine import Test, check, eq, lst, short

from fog.tokenizers import WordTokenizer, words_tokenizer

SOURCES = ['fog/tokenizers/words.py']
RULE = ('Any text (concatenated fragments the tokenizer has rules for, plus arbitrary unicode), texts composed of '
        'generated entities whose tokens are known, and pairs of texts; non-trivial = at least three tokens.')
ASSUMPTIONS = ['White space, ascii control characters and hyphens of French inversions (est-il, va-t-on) are the only '
               'characters that may be left out.',
               'Standalone single digits are the listed known finding (tagged as punctuation, which the tests pin).']

TYPES = ('word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention')
# What may follow the hyphen of a French inversion
INVERTED = ('je', 'tu', 'il', 'ils', 'elle', 'elles', 'nous', 'vous', 'on', 'le', 'la', 'les', 'moi', 'toi', 'lui', 'y')
FRAGMENTS = ('a', 'b', 'A', 'B', 'ABC', 'def', '1', '2', '23', '.', ',', '-', '_', "'", '\u2019', ' ', '  ', '\n', '\x01', '#', '@', '$', ':',
             ')', '(', '<', '3', '>', '^', 'http://', 'https://x.y', 'john@x.net', 'e', 't', '-t-', 'il', 'on', '\xb7', '\U0001f64f', '\u2b50\ufe0f',
             '\U0001f468\u200d\U0001f468\u200d\U0001f467', '\U0001f1eb\U0001f1f7', '\ufe0f', '\xe9', '\xc9', 'mr', 'etc', 's', 'll', 'n', 'hui', 'tis',
             'O', 'h', '!', '?', '"', '/', '\u2026', '%', '&amp;', 'A.B.', '4.5', '=', 'D', ';', '\u4e2d', '\u0660', '\xb2', '\t', '\u00a0',
             '\x1f', '\x7f', '\u200d', '\u0301', '\U0010ffff', '@bob', '#Tag', "'s", "n't", 'USA.', '-5', '8', '8)')


def text(d, hi=9):
    hi = d.wide(hi)
    kind = d.int(0, 5)
    if kind == 0:
        return d.text(''.join(f for f in FRAGMENTS if len(f) == 1), 0, hi)
    if kind == 1:
        alpha = ''.join(chr(c) for c in range(32, 127))
        return d.text(alpha, 0, 3 * hi)
    if kind == 2:
        pool = [d.choice(FRAGMENTS) for _ in range(3)]
        return ''.join(d.list(lambda: d.choice(pool), 0, hi))
    return ''.join(d.list(lambda: d.choice(FRAGMENTS) if d.bool(0.97) else d.lit_str(), 0, hi))


def ignorable(c):
    return c.isspace() or c <= '\x1f'


def lossless(d):
    keeps(d, text(d))


def lossless_long(d):
    """Thousands of characters."""
    rng = random.Random(d.int(0, 1 << 20))
    pool = [d.choice(FRAGMENTS) for _ in range(d.int(1, 12))] + [' ']
    keeps(d, ''.join(rng.choice(pool) for _ in range(d.raw(3000, None if d.rng is None else lambda: d.rng.randint(200, 3000)))))


def keeps(d, s):
    d.show(s)
    tokens = lst(words_tokenizer, s)
    if len(tokens) >= 3:
        d.nontrivial(s)
    pos = 0
    prev = None
    for n, token in enumerate(tokens):
        check(isinstance(token, tuple) and len(token) == 2, 'token is %r', token)
        kind, v = token
        check(kind in TYPES, 'unknown type in %r', token)
        check(isinstance(v, str) and v, 'empty token %r', token)
        check(not any(c.isspace() for c in v), 'token %r holds white space', token)
        k = s.find(v, pos)
        check(k >= 0, 'token %r is not in what remains of the text', token)
        gap = ''.join(c for c in s[pos:k] if not ignorable(c))
        if gap:
            check(gap == '-' and s[pos:k] == '-', 'characters %r are lost before %r in %s', gap, token, short(tokens))
            near = [t for _, t in tokens[n:n + 1]]
            ok = kind == 'word' and prev == 'word' and (v in INVERTED or v == 't' or tokens[n - 1][1] == 't')
            check(ok, 'a hyphen is lost before %r in %s', near, short(tokens))
        pos = k + len(v)
        prev = kind
        if kind == 'number' and not any(c.isdigit() and not c.isdecimal() for c in v):
            try:
                float(v.replace(',', '.'))
            except ValueError:
                check(False, '%r cannot be parsed as a number', token)
        elif kind == 'mention':
            check(v[0] == '@' and len(v) > 1, 'mention is %r', v)
        elif kind == 'hashtag':
            check(v[0] in '#$' and v[1:2].isalpha(), 'hashtag is %r', v)
        elif kind == 'url':
            check(v.startswith('http://') or v.startswith('https://'), 'url is %r', v)
            check(',' not in v, 'url is %r', v)
        elif kind == 'email':
            check('@' in v[1:], 'email is %r', v)
        elif kind == 'punct':
            check(len(v) == 1 and (not v.isalnum() or v.isdigit()) and not ignorable(v), 'punctuation is %r', v)
    rest = ''.join(c for c in s[pos:] if not ignorable(c))
    check(not rest, 'characters %r are lost at the end: %s', rest, short(tokens))


def concat(d):
    """Texts separated by white space are tokenized independently."""
    a, b = text(d, 6), text(d, 6)
    ws = d.choice((' ', '\n', '  ', '\t'))
    d.show({'a': a, 'b': b, 'separator': ws})
    core = a.rstrip()
    if core.endswith('.'):
        # "etc." is an abbreviation or the end of the text
        return
    A, B, AB = lst(words_tokenizer, a), lst(words_tokenizer, b), lst(words_tokenizer, a + ws + b)
    if A and B and len(A) + len(B) >= 3:
        d.nontrivial((a, b, ws))
    check(AB == A + B, 'tokens are %s, those of the parts are %s and %s', short(AB), short(A), short(B))


# Words that are smileys
SMILEY_WORD = '8o?[dDpP]|[dDpP@]o?8'
EMOJIS = ('\U0001f64f', '\U0001f431', '\u2b50\ufe0f', '\u26bd\ufe0f', '\U0001f468\u200d\U0001f468\u200d\U0001f467\u200d\U0001f467', '\U0001f1eb\U0001f1f7', '\U0001f929')
SMILEYS = (':)', ':-)', ':-P', '<3', ':3', '^^', '->', '---->', '<--', ';)', '=)', ":'(", ':(', ':D')
LOW = 'abcefgiklmn\xe9\xe7'
HANDLE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
LETTERS = 'abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz\xe9\xe8\xe7\xdf\u0153\u0142\u0434\u0436\u03b1\u03bb\u4e2d'
# Abbreviations which keep their point, and what French elides before a vowel
ABBREVIATIONS = ('apt', 'appt', 'dr', 'etc', 'jr', 'm', 'mgr', 'min', 'mr', 'mrs', 'ms', 'mme', 'mlle', 'no', 'p', 'pp', 'prof', 'sr', 'st', 'vs')
ELIDED = ('l', 'd', 'j', 'm', 't', 's', 'c', 'n', 'qu', 'jusqu', 'lorsqu', 'L', 'D', 'C', 'Qu')


def long(d):
    return d.int(2, 400) if not d.int(0, 199) else 1


def simple(d):
    kind = d.int(0, 5)
    if kind == 0:
        v = d.choice(LOW) + d.text(LOW, 1, 6) + 'q'
        return 'word', v, [('word', v)]
    if kind == 1:
        v = d.text('1234567890', 2, 5) + d.choice(('', '.5', ',25'))
        return 'number', v, [('number', v)]
    if kind == 2:
        v = d.choice('#$') + d.choice('abC\xe9') + d.text('abC\xe9019', 0, 6)
        return 'hashtag', v, [('hashtag', v)]
    if kind == 3:
        v = '@' + d.choice('abC_') + d.text(HANDLE, 0, 7)
        return 'mention', v, [('mention', v)]
    if kind == 4:
        v = d.choice(EMOJIS)
        return 'emoji', v, [('emoji', v)]
    v = d.choice('-_\xb7').join(d.text(LOW, 2, 5) + 'q' for _ in range(d.int(2, 4)))
    return 'compound', v, [('word', v)]


def entity(d):
    kind = d.int(0, 26)
    if kind == 0:
        w = d.text(LETTERS, 1, d.wide(7, 20)) * long(d)
        return 'word', w, [('word', w)]
    if kind == 1:
        w = d.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ\xc9\u0416') + d.text(LETTERS, 1, 7)
        return 'Word', w, [('word', w)]
    if kind == 2:
        v = d.choice(('', '-')) + d.text('1234567890', 2, 5) + d.choice(('', '.5', ',25', '.' + d.text('0123456789', 1, 3)))
        return 'number', v, [('number', v)]
    if kind == 3:
        v = d.choice('#$') + d.choice('abC\xe9') + d.text('abC\xe9019', 0, d.wide(6, 20)) * long(d)
        return 'hashtag', v, [('hashtag', v)]
    if kind == 4:
        v = '@' + d.text(d.choice((HANDLE, HANDLE, '8oD_a')), 1, d.wide(7, 20))
        if re.fullmatch(SMILEY_WORD, v):
            v += 'a' * long(d)
        return 'mention', v, [('mention', v)]
    if kind == 5:
        v = d.choice(('http://', 'https://')) + d.text('abc./?=&-_%~#:\'()', 1, d.wide(12, 12)) * long(d)
        return 'url', v, [('url', v)]
    if kind == 6:
        v = d.choice('abc')
        if d.bool(0.9):
            v += d.text('abc019_-+.', 0, min(62, d.wide(8, 8))) + d.choice('abc9')
        v += '@' + d.text('abc', 1, 5) + d.choice(('.net', '.co.uk', '.fr'))
        return 'email', v, [('email', v)]
    if kind == 7:
        es = d.list(lambda: d.choice(EMOJIS), 1, 3)
        es = [e for i, e in enumerate(es) if not (i and e == EMOJIS[5] and es[i - 1] == EMOJIS[5])]
        return 'emoji', ''.join(es), [('emoji', e) for e in es]
    if kind == 8:
        v = d.choice(SMILEYS)
        return 'smiley', v, [('smiley', v)]
    if kind == 9:
        v = d.choice('.,!?;"\u2026\xab%*') * d.int(1, 4)
        return 'punct', v, [('punct', c) for c in v]
    if kind == 10:
        v = d.choice(('-', '_', '\xb7')).join(d.text(LOW, 2, 5) + 'q' for _ in range(d.int(2, 4)))
        return 'compound', v, [('word', v)]
    if kind == 11:
        q, c = d.choice("'\u2019"), d.choice(('ll', 're', 'm', 's', 've', 'd'))
        w = d.text(LOW, 2, 5)
        return 'contraction', w + q + c, [('word', w), ('word', q + c)]
    if kind == 12:
        v = '.'.join(d.list(lambda: d.choice('ABCEFG'), 2, d.wide(5))) + d.choice(('', '.'))
        return 'acronym', v, [('word', v)]
    if kind == 13:
        a, b = d.text('ABCEFG', 2, 4), d.choice('TC') + d.text(LOW, 1, 4)
        return 'stuck', a + '.' + b, [('word', a), ('punct', '.'), ('word', b)]
    if kind == 14:
        v, t = d.text(LOW, 1, 5), d.choice(INVERTED)
        if d.bool():
            return 'inversion', v + '-' + t, [('word', v), ('word', t)]
        return 'inversion', v + '-t-' + t, [('word', v), ('word', 't'), ('word', t)]
    if kind == 23:
        # Followed by punctuation, without any space
        k, v, tokens = simple(d)
        p = d.choice((',', '!', '?', ';', '"', '\u2026', '\xbb', '.', '...', '!!', '?!', ')', '),', '",', '!"'))
        if k == 'word' and (p[0] == '.' or v.lower() in ABBREVIATIONS):
            p = ','
        return 'followed ' + k, v + p, tokens + [('punct', c) for c in p]
    if kind == 24:
        # Preceded by punctuation, without any space
        k, v, tokens = simple(d)
        p = d.choice(('(', '"', '\xab', '\u2026', '!', '...', ',', '\xa1', '\xbf', '[', '.'))
        return 'preceded ' + k, p + v, [('punct', c) for c in p] + tokens
    if kind == 25:
        # Sigils end with the characters they accept
        k, v, tokens = simple(d)
        while k not in ('hashtag', 'mention'):
            v, k = '@a' + d.text(HANDLE, 0, 5), 'mention'
            tokens = [(k, v)]
        w, p = d.text(LOW, 2, 5) + 'q', d.choice('-/.*+|\xb7' + ('_' if k == 'hashtag' else ''))
        return 'cut ' + k, v + p + w, tokens + [('punct', p), ('word', w)]
    if kind == 26:
        v = d.choice(SMILEYS)
        if d.bool() or v[-1].isdigit():
            w = ('word', d.text(LOW, 2, 5) + 'q')
        else:
            w = ('number', d.text('0123456789', 2, 4))
        return 'stuck smiley', v + w[1], [('smiley', v), w]
    if kind == 20:
        v = d.text('48abdopmDP\xe9', 1, 5) + d.choice(('', '', '_')) + d.choice('abdopmD') + d.text('1348', 0, 2)
        if re.fullmatch(SMILEY_WORD, v):
            v += 'a'
        return 'letters & digits', v, [('word', v)]
    if kind == 21:
        a, b = d.text('0123456789', 2, 3), d.text('0123456789', 2, 3)
        c = d.choice(':/<')
        return 'time', a + c + b, [('number', a), ('punct', c), ('number', b)]
    if kind == 15:
        v = d.choice(ABBREVIATIONS)
        v = (v.title() if d.bool() else v) + '.'
        return 'abbreviation', v, [('word', v)]
    if kind == 16:
        w = d.text(LOW, 2, 5) + 'x'
        return 'end of sentence', w + '.', [('word', w), ('punct', '.')]
    if kind == 17:
        e, w = d.choice(ELIDED) + d.choice("'\u2019"), d.choice(('a', 'e', 'i', 'o', 'u', '\xe9', '\xea', 'ho', 'he')) + d.text(LOW, 1, 5) + 'x'
        if d.bool(0.2):
            w = d.text('1234567890', 1, 3) + d.text(LOW, 1, 3) + 'x'
        elif 'u' in e and d.bool():
            w = d.choice('bcfgkmnrt') + d.text(LOW, 1, 5) + 'x'
        return 'elision', e + w, [('word', e), ('word', w)]
    if kind == 18:
        e, (k, w) = d.choice(ELIDED) + d.choice("'\u2019"), d.choice((('hashtag', d.choice('#$') + 'a' + d.text(LOW, 1, 5)), ('mention', '@a' + d.text('abc_1', 1, 5))))
        return 'elided sigil', e + w, [('word', e), (k, w)]
    if kind == 19:
        q = d.choice("'\u2019")
        v = d.choice((d.text(LOW, 1, 4) + 'n' + q + 't', 'aujourd' + q + 'hui', 'Aujourd' + q + 'hui', d.choice('Oo') + q + d.choice('BCDFGKMNAE') + d.text(LOW, 1, 6) + 'x',
                      q + 'tis', q + 'twas', q + 'Tis',
                      # An apostrophe between two consonants, as in int'l, is no elision
                      d.text(LOW, 0, 3) + d.choice('bcdfgklmnprtz') + q + d.choice('bcfgklnprtz') + d.text(LOW, 0, 4) + 'x'))
        return 'whole', v, [('word', v)]
    w = d.text(LOW, 2, 5)
    q = d.choice(('("%s")', '(%s)', '\xab%s\xbb', '%s!', '%s,', '"%s"', '%s?', "'%s'", '%s\u2026'))
    tokens = []
    for c in q.replace('%s', ' '):
        tokens.append(('word', w) if c == ' ' else ('punct', c))
    return 'quoted', q % w, tokens


def entities(d):
    parts = d.list(lambda: entity(d), 1, d.wide(7))
    s = ''
    want = []
    for kind, v, tokens in parts:
        if s:
            s += d.choice((' ', '\n', '  ', '\t', ' %s ' % chr(d.int(0, 31)), '\u00a0'))
        s += v
        want += tokens
        d.label(kind)
    if parts[-1][0] == 'abbreviation':
        # At the end of a text, the point ends the sentence
        s += ' abc'
        want.append(('word', 'abc'))
    d.show(s)
    if len(want) >= 3:
        d.nontrivial(s)
    tok = words_tokenizer if d.bool(0.7) else WordTokenizer()
    eq(lst(tok, s), want, 'tokens of %r' % s)


TESTS = [
    Test(lossless, 40000, 1200000),
    Test(lossless_long, 60, 3000, cpu=60),
    Test(concat, 20000, 500000),
    Test(entities, 20000, 500000),
]
