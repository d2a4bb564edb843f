"""Lossless round trips from Devanagari through the historic, South-East Asian and Tibetan-type scripts."""
from symx.harness import eq
import spec

CANDRA = 'ऍऑॅॉ'
SHORT = 'ऎऒॆॊ'
RR = 'ॠॡऌॢॣॄ'
SRIP = 'ऋृ'
NUK = '\u0958\u0959\u095a\u095b\u095c\u095d\u095e\u095f\u093c'
SOUTH = '\u0929\u0931\u0934'
_E = CANDRA + SHORT
_N = NUK + SOUTH


def dead(x):
    return x.endswith('्')


def starts(*t):
    return lambda x: x.startswith(t)


def isin(*t):
    return lambda x: x in t


def indep(x):
    return x[0] in spec.FV


def nonletter(x):
    return not ('\u0900' <= x[0] <= '\u097f') or x[0] in '।॥'


def sep(x):
    return nonletter(x) and x[0] not in '।॥'


# script: (letters of Devanagari it has no own spelling for, other aksharas left out, neighbours it writes like something else)
_THAM = ("'" + 'ँ' + _E + _N, None, [(dead, isin('य्'), starts('र'))])
_MY = [(dead, isin('र्'), lambda x: x[0] in spec.FC and x[0] != 'य')] + \
    [(dead, isin('य्', 'र्', 'व्', 'ह्'), starts('य', 'र', 'व', 'ह'))]
_YR = [(isin('य्'), starts('र')), (dead, isin('य्', 'र्', 'व्'), starts('य', 'र', 'व'))]
_TH = [(isin('स्', 'ह्'), dead, lambda x: x[0] in 'यरलवह' and any(c in x for c in 'ेैोौ'))]
SCRIPTS = {
    'BengaliRaBa': ('', None, []),
    'Sharada': ('', None, []),
    'Newa': (_E, None, []),
    'SiddhamDevanagari': (_E, None, []),
    'Siddham': (_E + 'ऽॢॣ', None, []),
    'Tirhuta': (CANDRA + 'ऱ', None, []),
    'Grantha': (CANDRA, None, []),
    'GranthaGrantamil': ('\u095c\u095d\u095f', None, []),
    'GranthaPandya': ('ँ' + _E + _N, None, []),
    'Saurashtra': (CANDRA + _N, None, []),
    'Brahmi': (_E + _N + 'ऽ', None, []),
    'Bhaiksuki': (_E + _N + 'ळॡॣ', None, []),
    'Nandinagari': ('ँऌॡॢॣ' + _E + '\u0929\u0934' + NUK, None, []),
    'Modi': ('ँ' + SHORT + 'ऑॉ' + _N, None, []),
    'Kaithi': ('ऋ' + _E + RR, None, []),
    'Dogra': ('ँऋ' + _E + RR, None, []),
    'Takri': ('ँऴ' + SRIP + _E + RR, None, []),
    'Khudawadi': ('ँःऴ' + SRIP + _E + RR, None, []),
    'Ranjana': (_E + _N.replace('\u093c', '') + 'ळ', None, []),
    'Kawi': ('ऑॉॄॢॣळऽ' + SHORT + _N, None, []),
    'Pallava': ("'ँळ" + SRIP + _E + _N + RR, None, []),
    'DivesAkuru': ('ःऽ।औौझठॄॢॣृ' + _E, lambda x: x[:2] in ('रु', 'रू', 'लु', 'लू'), []),
    'MasaramGondi': ('ँऽ\u093c' + SHORT + RR, starts('रृ'), []),
    'ZanabazarSquare': ('ऍऎऒॅॆॊळऽ' + _N.replace('\u095b', ''), None, []),
    'Soyombo': ('ँऽऍऎऒॅॆॊळ' + _N.replace('\u095b', ''), None, [(dead, lambda x: nonletter(x)), (lambda x: True, None)]),
    'TamilExtended': ('', lambda x: dead(x) and (x[0] in NUK or '\u093c' in x), []),
    'TamilGrantha': ('', lambda x: x[-1] in 'ेैोौॆॊॅ' + 'ंःँ' and (x[0] in NUK or '\u093c' in x) and
                     any(c in x for c in 'ेैोौॆॊॅॉ'), [(isin('स्'), starts('री')), (lambda x: 'ॆ' in x, starts('ळ'))]),
    'Burmese': ("'ँ" + _E + _N, None, _MY),
    'Mon': ("'ँ" + _E + _N, None, _MY + [(isin('र्', 'ङ्'), isin('ल्'), starts('र'))]),
    'Khmer': ('ँ' + _E + _N, None, []),
    'KhmerLoC': ('ँअआए' + SHORT + 'ऑॉ' + _N, None, []),
    'KhamtiShan': ("'ँऔौशष" + SRIP + SHORT + 'ऑॉ' + SOUTH + '\u0958\u095a\u095c\u095d\u095f\u093c' + RR, None, _YR),
    'TaiLaing': ("'ँऔौझशष" + SRIP + _E + SOUTH + _N.replace('\u095e', '') + RR, None, _YR),
    'Javanese': ("'ऑॉ" + SHORT, None, []),
    'Balinese': ("'ऑॉ" + SHORT, starts('औँ'), []),
    'TaiTham': _THAM, 'LaoTham': _THAM, 'LueTham': _THAM, 'KhuenTham': _THAM, 'ThamLoC': _THAM,
    'LaoPali': ("'ँऩऴ" + SRIP + RR + NUK.replace('\u095e', '').replace('\u095f', ''), None, []),
    'Thai': ("'ँ" + SOUTH + '\u0958\u095c\u095d\u095f\u093c', None, _TH),
    'KhomThai': ('ँःऽऐऔौशष' + 'ऋ' + _E + _N + 'ॠॡऌॢॣ', None, [(dead, starts('रृ', 'रै', 'रॄ')), (dead, isin('र्'), lambda x: True)]),
    'Cham': ("'ःटठडढणशळ" + _E + _N, dead, []),
    'Chakma': ("'ळशष" + SRIP + 'ऍऎऒॅॆॊ' + _N.replace('\u095f', '') + RR, None, []),
    'MeeteiMayek': ("'ँळ" + SRIP + _E + _N + RR, None, []),
    'Santali': ("'ळशष" + SRIP + 'ऒॊ' + SOUTH + '\u0958\u0959\u095a\u095b\u095e\u095f\u093c' + RR + '()', None,
                [(lambda x: x[-1] not in '्', starts('ई', 'ऊ'))]),
    'Tibetan': (_E, None, [(isin('ग्', 'ज्', 'ड्', 'द्', 'ब्'), starts('ह')), (dead, isin('व्'), starts('व'))]),
    'TibetanLoC': (_E + 'झ', None, [(isin('ग्', 'ड्', 'द्', 'ब्', '\u095a्'), starts('ह')), (dead, isin('व्'), starts('व'))]),
    'GurmukhiLoC': ('', None, [(isin('\u095c्'), starts('ह', '\u095d'))]),
    'GunjalaGondi': ('ँऽञणशष' + SRIP + _E + _N + RR, None, [(dead, lambda x: indep(x))]),
    'Kharoshthi': ('ँऽङझळऌॡॢॣ' + ''.join(spec.DIGITS) + _E + _N, isin('एं'), []),
    'ShanLoC': ("'ँष" + SRIP + SHORT + 'ऑॉ' + SOUTH + '\u0958\u0959\u095a\u095c\u095d\u095f\u093c' + RR,
                None, [(isin('स्'), starts('य')), (lambda x: 'ू' in x or 'ऊ' in x, starts('व्'))]),
    'Sundanese': ('ँआईऊएऐओऔखघछझटठडढणथधफळषाीूेैोौ\u095a\u095c\u095d\u095f\u093c' + SOUTH + 'ॄॠॡॣ', None, []),
    'TamilBrahmi': ("'ँंःखगघछझठडढथदफबभ" + SRIP + CANDRA + NUK + RR, None, [(isin('ओ'), isin('म्'))]),
    'Vatteluttu': ('ँंखगघछजझठडढथदधफबभशषसहऽ' + SRIP + CANDRA + NUK + RR, None, [(isin('ओ'), isin('म्'))]),
}
del SCRIPTS['Soyombo'], SCRIPTS['GunjalaGondi']
NOSPACE = {'Bhaiksuki', 'Kaithi'}
SLOW = {'Thai', 'KhomThai', 'LaoPali', 'Santali', 'Sundanese', 'GurmukhiLoC'}

BOUNDS = {
    'quick': 'texts of two free aksharas (the part of the whole Devanagari alphabet, up to 3400 aksharas with digits, dandas '
             'and punctuation, that the script has letters for) alone and inside words, three free aksharas from a set of '
             'about 250, clusters of three consonants with every vowel sign, one free akshara in a text of several words',
    'thorough': 'as quick, three free aksharas of the whole alphabet of the script',
}
ASSUMPTIONS = ['letters a script has no spelling of its own for are listed in SCRIPTS of this file and outside the claim',
               'neighbours a script writes like something else (listed there, for instance g+ha in Tibetan) excluded',
               'well-formed text: no virama directly before an independent vowel, two dandas in a row are the double danda, '
               'the word om, eyelash ra and the full stop excluded']


def jobs(tier):
    out = []
    for s in SCRIPTS:
        w = 40 if s in SLOW else 10
        d = 'mid' if s in SLOW and tier == 'quick' else 'full'

        def add(n, d, pre, post, tag, w):
            out.append({'name': '%s-%d%s-%s' % (s, n, d, tag), 's': s, 'n': n, 'd': d, 'pre': pre, 'post': post, 'weight': w})
        add(2, 'full', [], [], 'alone', w)
        add(2, d, ['मि'], ['म', 'न'], 'inside', w)
        add(3, 'mid', [], [], 'alone', w)
        if s != 'Cham':       # no dead consonants
            add(3, 'cluster', [], [], 'alone', w)
        add(1, 'full', ['नमि मन', ' '], [' ', 'तनु नमित\nनिमि '], 'long', w)
        if tier == 'thorough':
            add(3, 'full', [], [], 'alone', 100)
            add(4, 'mid', [], [], 'alone', 100)
    return out


_memo = {}


def domain(p):
    k = (p['s'], p['d'])
    if k not in _memo:
        miss, rest, _ = SCRIPTS[p['s']]
        d = [x for x in spec.full() if not any(c in miss for c in x) and not (rest and rest(x)) and x[0] not in '()']
        if p['d'] == 'mid':
            m = set(spec.mid(d)) | {'\u0931', '\u0931ि', 'घ\u093c', 'झ\u093c्', 'ध\u093cि', '\u0958', '\u0959\u094d', '\u095cा', '\u0934', '\u0929', '\u0934\u094d', 'कॄ', 'कॢ', 'ऌ', 'के',
                                    'कॆ', 'कॊ', 'ऎ', 'कॅ', 'ऑ', 'ऽ', '।', '१', '\n', '-', ','}
            d = [x for x in d if x in m]
        _memo[k] = d
    return _memo[k]


def domains(p):
    d = domain(p)
    if p['d'] == 'cluster':
        dd = [x for x in d if dead(x)]
        return [dd, dd, [x for x in d if x[0] in spec.FC and x[-1] not in 'ंःँ' and not dead(x)]]
    return [d] * p['n']


def exclude(p):
    return spec.exclusions(domains(p), p, [(dead, indep), (isin('।'), isin('।', '॥'))] + SCRIPTS[p['s']][2])


def run(p, api, ctx):
    x = ctx.template([''.join(p['pre'])] + list(range(p['n'])) + [''.join(p['post'])])
    y = api.t('Devanagari', p['s'], x)
    return [eq('round trip through %s' % p['s'], api.t(p['s'], 'Devanagari', y), x)]
