"""C18: phonetic codes follow their rules for every name."""
import re

from unidecode import unidecode

from lib.engine import Test, call, check, eq

from fog.phonetics import cologne, rusalka

SOURCES = ['fog/phonetics/cologne.py', 'fog/phonetics/rusalka.py', 'fog/utils.py']
RULE = ('Names made of the letters, digraphs and edge letters each rule looks at (in any case, with accents and '
        'non-letters), of any length including empty; non-trivial = at least three letters.')
ASSUMPTIONS = ['Transliteration of letters other than German umlauts is the one of the Unidecode library.']

AZ = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
PIECES = ('SCH', 'PH', 'C', 'X', 'D', 'T', 'S', 'Z', 'H', 'L', 'LL', 'A', 'K', 'Q', 'CK', 'CH', 'P', 'O', 'R', 'MM', 'N', 'E', 'CX',
          'TZ', 'DS', 'J', 'Y', 'W', 'V', 'B', 'F', 'G', 'U', 'I', 'M', 'CC', 'HH', 'SC', 'ZC', 'PPH')
RUSSIAN = ('cz', 'ij', 'iy', 'f', 'v', 'w', 'ph', 'je', 'ye', 'e', 'tch', 'dsh', 'ch', 'sh', 'tz', 'zh', 'dzh', 'dj', 'tj', 'ks',
           'y', 'iou', 'c', 'g', 'h', 'a', 'o', 'k', 'kk', 't', 'd', 's', 'l', 'n', 'r', 'x', 'j', 'z', 'u', 'i', 'p')
SPECIAL = '\xe4\xf6\xfc\xc4\xd6\xdc\xdf\xe9\xe7\xf1\u0141\u0153-\' .0123456789\n'
PHONETIC = '\u010d\u0161\u015d\u017e\xfb\u010c\u0160\xe9\xe2\u016f-\' .09\n'


def name(d, pieces, special):
    kind = d.int(0, 2)
    if kind == 0:
        s = ''.join(d.list(lambda: d.choice(pieces), 0, d.wide(7)))
    elif kind == 1:
        s = ''.join(d.list(lambda: d.choice(pieces) if d.bool(0.85) else d.choice(special), 0, d.wide(8)))
    else:
        s = d.text(AZ, 0, d.wide(12))
    c = d.int(0, 3)
    if c == 1:
        s = s.lower()
    elif c == 2:
        s = s.upper()
    elif c == 3:
        s = s.capitalize()
    return s


def cologne_model(s):
    """https://en.wikipedia.org/wiki/Cologne_phonetics, letter by letter."""
    s = s.upper().replace('\xc4', 'A').replace('\xd6', 'O').replace('\xdc', 'U').replace('\xdf', 'SS')
    s = ''.join(c for c in unidecode(s) if c in AZ)
    codes = ''
    for i, c in enumerate(s):
        before = s[i - 1] if i else ''
        after = s[i + 1] if i + 1 < len(s) else ''
        if c in 'AEIJOUY':
            codes += '0'
        elif c == 'B' or c == 'P':
            codes += '3' if c == 'P' and after == 'H' else '1'
        elif c in 'DT':
            codes += '8' if after and after in 'CSZ' else '2'
        elif c in 'FVW':
            codes += '3'
        elif c in 'GKQ':
            codes += '4'
        elif c == 'C':
            if not i:
                hard = after and after in 'AHKLOQRUX'
            else:
                hard = after and after in 'AHKOQUX' and before not in 'SZ'
            codes += '4' if hard else '8'
        elif c == 'X':
            codes += '8' if before and before in 'CKQ' else '48'
        elif c == 'L':
            codes += '5'
        elif c in 'MN':
            codes += '6'
        elif c == 'R':
            codes += '7'
        elif c in 'SZ':
            codes += '8'
    out = ''
    last = ''
    for i, c in enumerate(codes):
        if c != last and (c != '0' or i == 0):
            out += c
        last = c
    return out


def german(d):
    s = name(d, PIECES, SPECIAL)
    d.show(s)
    if re.search('P[^A-Z]+H', unidecode(s).upper()):
        # Whether P and H told apart by a hyphen or an accent sound like F is not specified
        check(isinstance(call(cologne, s), str), 'no code for %r', s)
        return
    want = cologne_model(s)
    if sum(c.isalpha() for c in s) >= 3:
        d.nontrivial(s)
    got = call(cologne, s)
    eq(got, want, 'code of %r' % s)
    check('0' not in got[1:] and not (set(got) - set('012345678')), 'code of %r is %r', s, got)


def german_variants(d):
    s = name(d, PIECES, 'AE')
    t = ''.join(d.choice((c, c.lower(), c.upper())) for c in s)
    t = ''.join(d.choice((c, {'a': '\xe4', 'O': '\xd6', 'u': '\xfc', 'o': '\xf6', 'A': '\xc4'}.get(c, c))) for c in t)
    if d.bool():
        t = t.replace('F', 'V')
    d.show({'a': s, 'b': t})
    if s != t:
        d.nontrivial((s, t))
    eq(call(cologne, t), call(cologne, s), 'codes of %r & %r' % (t, s))


def rusalka_model(s):
    s = s.lower()
    out = ''
    for c in s:
        if c in '\u010d\u0161\u015d':
            c = 'ch'
        elif c == '\xfb':
            c = 'iou'
        elif c == '\u017e':
            c = 'zh'
        out += c
    s = ''.join(c for c in unidecode(out) if c in AZ.lower())
    if len(s) < 2:
        return s
    s = s.replace('cz', 'ts')
    if s[-2:] in ('ij', 'iy'):
        s = s[:-2]
    s = s.replace('ph', 'f').replace('v', 'f').replace('w', 'f')
    if s[:2] in ('je', 'ye'):
        s = '4' + s[2:]
    elif s[:1] == 'e':
        s = '4' + s[1:]

    def rewrite(s, patterns, to):
        """Left to right, first (longest) pattern wins."""
        out = ''
        i = 0
        while i < len(s):
            for p in patterns:
                if s.startswith(p, i):
                    out += to
                    i += len(p)
                    break
            else:
                out += s[i]
                i += 1
        return out
    s = rewrite(s, ('dch', 'dsh', 'tch', 'tsh', 'ch', 'sh', 'tz'), '2')
    s = rewrite(s, ('dzh', 'tzh', 'dj', 'tj', 'zh', 'j'), '3')
    s = s.replace('ks', 'x')
    head = ''
    if s[:1] == 'y' and s[1:2] and s[1] in 'aeiou':
        head, s = '1', s[1:]
    s = head + s.replace('iou', '1')
    s = s.replace('c', 'k').replace('g', 'k').replace('h', '')
    s = ''.join(c for i, c in enumerate(s) if i == 0 or s[i - 1] != c)
    s = s.replace('1', 'j').replace('4', 'j').replace('2', '\u0283').replace('3', '\u0292')
    if not s:
        return ''
    return ('a' if s[0] in 'aeiouy' else s[0]) + ''.join(c for c in s[1:] if c not in 'aeiouy')


def russian(d):
    s = name(d, RUSSIAN, PHONETIC)
    d.show(s)
    if sum(c.isalpha() for c in s) >= 3:
        d.nontrivial(s)
    got = call(rusalka, s)
    eq(got, rusalka_model(s), 'key of %r' % s)
    check(not re.search('[aeiouyh]', got[1:]), 'key of %r is %r', s, got)
    t = ''.join(c.swapcase() if len(c.swapcase()) == 1 else c for c in s)
    eq(call(rusalka, t + ' .'), got, 'keys of %r & %r' % (t + ' .', s))


TESTS = [
    Test(german, 40000, 1000000),
    Test(german_variants, 10000, 200000),
    Test(russian, 40000, 1000000),
]
