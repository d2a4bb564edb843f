"""Lossless round trips through the Library of Congress and Pali romanizations."""
from symx.harness import eq
import spec
from c05 import dead, starts, isin, indep


def bindu(x):
    return x[-1:] == 'ं'


def vowel(x):
    return x[0] in spec.FV


def cons(x):
    return x[0] in spec.FC


_H = (isin('स्'), starts('ह'))
_RH = (isin('\u095c्'), starts('ह'))
_BC = (bindu, cons)
# (script, scheme): letters outside, other aksharas outside, neighbours outside
SCHEMES = {
    ('Devanagari', 'RomanLoC'): ('', None, [_BC]),
    ('Kannada', 'RomanLoC'): ('', None, [_BC]),
    ('Tamil', 'RomanLoC'): ('', None, [(isin('स्'), starts('री'))]),
    ('Sinhala', 'RomanLoC'): ('', None, [_BC]),
    ('Telugu', 'RomanLoC'): ('ँ', None, [_BC]),
    ('Malayalam', 'RomanLoC'): ('', None, [_BC]),
    ('Oriya', 'RomanLoC'): ('', None, [_BC, _H]),
    ('Gujarati', 'RomanLoC'): ('', None, [_BC, _H]),
    ('Assamese', 'RomanLoC'): ('', None, [_H]),
    ('Bengali', 'RomanLoC'): ('', None, [_H, (isin('त्', 'र्'), starts('ब')), (dead, starts('व'))]),
    ('Gurmukhi', 'RomanLoC'): ('ळ', None, [(lambda x: x[-1:] in 'ंँ', cons), _H, (isin('\u095c्'), starts('ह', '\u095d'))]),
    ('Balinese', 'RomanLoC'): ("ँंः'\u093c", None, [(isin('न्'), starts('ग'))]),
    ('Burmese', 'RomanLoC'): ("ँ',\u093c\u0931", None, [
        (lambda x: 'ु' in x, starts('इ')), (isin('ङ्', 'र्'), starts('य', 'र', 'व', 'ह')),
        (isin('क्', 'ग्', 'च्', 'ज्', 'ट्', 'ड्', 'त्', 'द्', 'प्', 'ब्'), starts('ह')), (isin('अ', 'उ'), starts('इ')),
        (dead, isin('र्'), lambda x: cons(x) and x[0] != 'य'),
        (dead, isin('य्', 'र्', 'व्', 'ह्'), starts('य', 'र', 'व', 'ह'))]),
    ('Devanagari', 'IASTPali'): ('ऽ', None, [_RH]),
    ('Devanagari', 'ISOPali'): ('ऽ', None, [_RH]),
    ('Devanagari', 'DevanagariRomanLoC'): ('', None, [_RH]),
    ('Devanagari', 'KannadaRomanLoC'): ('', None, [_RH]),
    ('Devanagari', 'TeluguRomanLoC'): ('', None, [_RH]),
    ('Devanagari', 'SinhalaRomanLoC'): ('', None, [_RH]),
    ('Devanagari', 'GujaratiRomanLoC'): ('', None, [_H, _RH]),
    ('Devanagari', 'OriyaRomanLoC'): ('', None, [_H, _RH]),
    ('Devanagari', 'BengaliRomanLoC'): ('', None, [_H, _RH]),
    ('Devanagari', 'AssameseRomanLoC'): ('', None, [_H, _RH]),
    ('Devanagari', 'LimbuLoCRomanLoC'): ('', None, [_RH]),
    ('Devanagari', 'BurmeseRomanLoC'): ("'", None, [_RH]),
    ('Devanagari', 'RomanSemitic'): ('ँःऋृॠॄऌॢॡॣङऍऑॅॉऽ\u095f\u093c' + '\u0929\u0931\u0934', None, []),
}
FULL = {'RomanSemitic', 'IASTPali', 'BurmeseRomanLoC'}

BOUNDS = {
    'quick': 'two free aksharas of the basic alphabet (about 1500 choices) alone (of the whole alphabet, up to 3400, for '
             'three schemes), two from a set of about 260 with nukta and southern letters inside words, three from a set '
             'of about 250 (not Gurmukhi); thirteen scripts with the RomanLoC target, thirteen schemes with Devanagari',
    'thorough': 'as quick, three free aksharas of the basic alphabet',
}
ASSUMPTIONS = ['anusvara directly before a consonant excluded where the scheme assimilates it',
               'further spelling collisions of single schemes are listed in SCHEMES of this file',
               'well-formed text: no virama directly before an independent vowel, two dandas in a row are the double '
               'danda; the word om, eyelash ra, full stop and parentheses excluded',
               'source scripts other than Devanagari: text as the library itself writes it in that script']


def jobs(tier):
    out = []
    for (a, r) in SCHEMES:
        def add(n, d, pre, post, tag, w):
            out.append({'name': '%s-%s-%d%s-%s' % (a, r, n, d, tag), 'a': a, 'r': r, 'n': n, 'd': d, 'pre': pre, 'post': post,
                        'weight': w})
        add(2, 'full' if r in FULL or tier == 'thorough' and r != 'RomanLoC' else 'basic', [], [], 'alone', 30)
        more = '' if a in ('Balinese', 'Burmese') or r == 'RomanLoC' else 'more'
        add(2, more or 'mid', ['मि'], ['म', 'न'], 'inside', 8)
        if a != 'Gurmukhi' or tier == 'thorough':
            add(3, 'mid', [], [], 'alone', 90 if a == 'Malayalam' else 25)
        add(1, 'basic', ['नमि मन', ' '], [' ', 'तनु नमित\nनिमि '], 'long', 5)
        if tier == 'thorough':
            add(3, 'basic', [], [], 'alone', 50)
    return out


_memo = {}


def domain(p):
    k = (p['a'], p['r'], p['d'])
    if k not in _memo:
        miss, rest, _ = SCHEMES[p['a'], p['r']]
        d = spec.full() if p['d'] in ('full', 'more') else spec.DEVA.aksharas(drop=['ओं', 'ओँ'], sep=(' ', ',', '-', '\n')) + \
            ['\u0931', '\u0931ि'] + ['\u0931्'] * (p['a'] != 'Devanagari') + [x for x in spec.GENERIC if x[0] != 'व']
        d = [x for x in d if not any(c in miss for c in x) and not (rest and rest(x)) and x[0] not in '()' and x[:2] != 'व\u093c']
        if p['d'] in ('mid', 'more'):
            m = set(spec.mid(d)) | {'\u0931', '\u0931्', '\u0931ि', 'ध\u093cि', 'थ\u093c', '\u0958', '\u0959\u094d', '\u095cा', '\u0934', '\u0929', '\u0934\u094d', 'कॄ', 'कॢ', 'ऌ', 'के',
                                    'कॆ', 'कॊ', 'ऎ', 'कॅ', 'ऑ', 'ऽ', '।', '१', '\n', '-', ',', 'घ\u093c', 'म\u093c्'}
            d = [x for x in d if x in m]
        _memo[k] = d
    return _memo[k]


def domains(p):
    return [domain(p)] * p['n']


def exclude(p):
    return spec.exclusions(domain(p), p, [(dead, indep), (isin('।'), isin('।', '॥'))] + SCHEMES[p['a'], p['r']][2])


def run(p, api, ctx):
    x = ctx.template([''.join(p['pre'])] + list(range(p['n'])) + [''.join(p['post'])])
    if p['a'] != 'Devanagari':
        x = api.t('Devanagari', p['a'], x)
    y = api.t(p['a'], p['r'], x)
    return [eq('round trip through %s' % p['r'], api.t(p['r'], p['a'], y), x)]
