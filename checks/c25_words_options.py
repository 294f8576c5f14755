"""C25: options of WordTokenizer, and hashtag splitting."""
import html
import re

from unidecode import unidecode

from lib.engine import Test, Violation, call, check, eq, lst, short
from checks.c24_words import entity, text

from fog.tokenizers import WordTokenizer
from fog.tokenizers.words import split_hashtag

SOURCES = ['fog/tokenizers/words.py']
RULE = ('Texts (composed of entities, entities between apostrophes, lengthened words, html entities, or arbitrary) and any '
        'combination of options: the tokens must be those of the default tokenizer over the preprocessed text, '
        'transformed and filtered as documented; non-trivial = options change the tokens.')
ASSUMPTIONS = ['Options are judged relatively to the default tokenizer, itself judged by C24.',
               'split_hashtags: hashtags elided with an apostrophe (#l\'amour) are left out.',
               'Exact splits are those of hashtags made of cased letters & digits; others are only judged by invariants.']

TYPES = ('word', 'number', 'punct', 'emoji', 'smiley', 'url', 'email', 'hashtag', 'mention')
PLAIN = WordTokenizer()


def camel(d):
    return d.text('abcABC\xe9\xc9' + d.choice(('', '12')), 1, d.wide(9))


def pieces(name):
    """Runs of digits, acronyms, capitalized & lowercase words."""
    classes = ''.join('D' if c.isdigit() else 'U' if c.isupper() else 'L' for c in name)
    return [('number' if classes[m.start()] == 'D' else 'word', name[m.start():m.end()])
            for m in re.finditer('D+|U+(?=UL)|U?L+|U+', classes)]


def hashtag(d):
    s = d.choice('#$') + d.text('abcABC\xe9\xc912', 1, d.wide(12))
    d.show(s)
    want = pieces(s[1:])
    if len(want) > 1:
        d.nontrivial(s)
    eq(lst(split_hashtag, s), want, 'split of %r' % s)


def any_hashtag(d):
    """Whatever the characters: nothing is lost, numbers are the runs of digits, and words are cut where case changes."""
    s = d.choice('#$') + d.text('abAB1_\u4e2d' + d.choice(('', '\u01c5\u0661\xb2\u0130\u0131\xaa-')), 1, d.wide(12))
    d.show(s)
    got = lst(split_hashtag, s)
    words = [w for _, w in got]
    if len(got) > 1:
        d.nontrivial(s)
    check(''.join(words) == s[1:] and all(words), '%r is split as %s', s, short(got))
    for k, w in got:
        digits = [c.isdigit() for c in w]
        check(k in ('word', 'number'), '%r is split as %s', s, short(got))
        check(all(digits) if k == 'number' else not any(digits), '%r is split as %s, having a %s %r', s, short(got), k, w)
        check(not any(a.islower() and b.isupper() for a, b in zip(w, w[1:])), '%r is split as %s, not cutting %r where its case changes', s, short(got), w)
    for a, b in zip(words, words[1:]):
        check(a[-1].isdigit() != b[0].isdigit() or not b[0].islower(), '%r is split as %s, between %r and %r', s, short(got), a, b)


def lengthened(s):
    out = []
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]:
            j += 1
        letter = (s[i].isalnum() or s[i] == '_') and not s[i].isdecimal()
        out.append(s[i] * (3 if letter and j - i >= 5 else j - i))
        i = j
    return ''.join(out)


def source(d):
    def part():
        k = d.int(0, 9)
        if k == 0:
            return '#' + d.choice('aB\xe9') + camel(d)
        if k == 1:
            return "'#" + d.choice('aB') + camel(d) + d.choice(("'", "'s"))
        if k == 2:
            return ''.join(d.choice('abo\xe901A_!') * d.weighted(((29, d.int(1, 7)), (1, 60))) for _ in range(d.int(1, d.wide(3))))
        if k == 3:
            return d.choice(('&amp;', '&eacute;t&eacute;', '&#34;Hello&#34;', '&lt;3', '&nbsp;', 'a&b', '&amp;lt;', '&amp;amp;', '&notit;', '&#x41;', '&copy'))
        if k == 4:
            return '@' + d.text('abXY_1', 1, 6) + d.choice(('', "'s"))
        if k == 5:
            return text(d, 4).replace("'", '').replace('\u2019', '').replace('#', '').replace('$', '')
        if k == 6:
            # Cases whose length differ
            return d.text('ab\u0130\xdfI', 1, 6)
        return entity(d)[1]
    return d.choice((' ', ' ', '\n')).join(d.list(part, 1, d.wide(6)))


def options(d):
    s = source(d)
    kw = {}
    for name in ('lower', 'unidecode', 'reduce_words', 'decode_html_entities', 'normalize_mentions', 'normalize_hashtags',
                 'mentions_as_words', 'hashtags_as_words', 'split_hashtags'):
        if d.bool(0.25):
            kw[name] = True
        elif d.bool(0.1):
            kw[name] = False
    lo = hi = None
    if d.bool(0.3):
        lo = kw['min_word_length'] = d.int(0, 5)
    if d.bool(0.3):
        hi = kw['max_word_length'] = (lo or 0) + d.int(1, 5)
    which = d.int(0, 5)
    if which == 0:
        kw['keep'] = [t for t in TYPES if d.bool(0.6)] or ['word']
        if d.bool(0.1):
            kw['keep'] = []
    elif which == 1:
        kw['drop'] = [t for t in TYPES if d.bool(0.3)]
    known = [v for _, v in lst(PLAIN, s)]
    if d.bool(0.4):
        kw['stoplist'] = [d.choice((str, str.lower, str.upper))(d.choice(known)) if known and d.bool(0.8) else 'a'
                          for _ in range(d.int(0, 4))]
    d.show({'text': s, 'options': kw})
    for k in kw:
        d.label(k)

    t = s
    if kw.get('decode_html_entities'):
        t = html.unescape(t)
    if kw.get('unidecode'):
        t = unidecode(t)
    if kw.get('reduce_words'):
        t = lengthened(t)
    base = lst(PLAIN, t)
    tokens = []
    for kind, v in base:
        if kw.get('split_hashtags') and kind == 'hashtag':
            if not all(c.isupper() or c.islower() or c.isdigit() for c in v[1:]):
                return
            tokens.extend(pieces(v[1:]))
        else:
            tokens.append((kind, v))
    stop = set(kw.get('stoplist', ()))
    if kw.get('lower'):
        stop = set(x.lower() for x in stop)
    want = []
    for kind, v in tokens:
        if 'keep' in kw and kind not in kw['keep']:
            continue
        if 'drop' in kw and kind in kw['drop']:
            continue
        if kind == 'mention':
            if kw.get('normalize_mentions'):
                v = v.lower()
            if kw.get('mentions_as_words'):
                kind, v = 'word', v[1:]
        elif kind == 'hashtag':
            if kw.get('normalize_hashtags'):
                v = unidecode(v.lower())
            if kw.get('hashtags_as_words'):
                kind, v = 'word', v[1:]
        if kind == 'word':
            if kw.get('lower'):
                v = v.lower()
            if lo is not None and len(v) < lo:
                continue
            if hi is not None and len(v) > hi:
                continue
        if v in stop:
            continue
        want.append((kind, v))
    if want != lst(PLAIN, s):
        d.nontrivial((s, repr(sorted(kw.items()))))
    given = dict(kw)
    for k in ('stoplist', 'keep', 'drop'):
        if k in given:
            given[k] = d.choice((list, tuple, set, iter, frozenset))(given[k])
    tok = call(WordTokenizer, **given)
    got = lst(tok, s)
    check(got == want, 'tokens of %r with %s are %s, expected %s', s, short(kw), short(got), short(want))
    eq(lst(tok, s), got, 'tokens of the same text, again')
    eq(lst(tok.tokenize, s), got, 'tokens by tokenize()')


def invalid(d):
    """Options that make no sense are refused."""
    what = d.int(0, 3)
    some = [t for t in TYPES if d.bool(0.4)]
    if what == 0:
        kw = {'keep': d.shuffled(some + [d.choice(('words', 'Word', '', 'token'))])}
    elif what == 1:
        kw = {'drop': d.shuffled(some + [d.choice(('words', 'Word', '', 'token'))])}
    elif what == 2:
        kw = {'keep': some or ['word'], 'drop': [d.choice(TYPES)]}
    else:
        hi = d.int(1, 9)
        kw = {'min_word_length': hi + d.int(0, 4), 'max_word_length': hi}
    d.show(kw)
    d.nontrivial(repr(kw))
    try:
        WordTokenizer(**kw)
    except TypeError:
        return
    except Exception as e:
        raise Violation('%s raised instead of TypeError' % type(e).__name__)
    raise Violation('options %s were accepted' % short(kw))


TESTS = [
    Test(options, 30000, 800000),
    Test(hashtag, 12000, 250000),
    Test(any_hashtag, 12000, 250000),
    Test(invalid, 2000, 20000),
]
