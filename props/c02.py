"""Round trips through the reversible romanizations."""
from symx.harness import eq
import spec

WHOLE = ['IAST', 'ISO', 'SLP1', 'WX', 'Titus', 'HK', 'RussianCyrillic']     # carry the whole alphabet
BASIC = ['Itrans', 'Velthuis']
OTHER = [s.name for s in spec.MAIN if s.name not in ('Devanagari',)]
BOUNDS = {
    'quick': 'texts of two free aksharas (about 3400 choices each, the whole Devanagari alphabet of the library with '
             'digits, dandas and punctuation, for seven romanizations; about 1500 for Itrans and Velthuis) alone, between '
             'words and inside a word, one inside a text of four lines, three from a set of about 250; '
             'two from that set from each of the other ten main scripts',
    'thorough': 'as quick with three whole aksharas for Devanagari',
}
ASSUMPTIONS = [
    'well-formed text: no virama directly before an independent vowel, two dandas in a row are the double danda; the '
    'word om, eyelash ra, full stop (a danda) and the signs ( ) \' : excluded (joiner escape, avagraha, separator)',
    'HK: vocalic r directly followed by vocalic r or long vocalic r excluded (RR is the long vowel), short e and o after '
    'a vowel, dead consonant before a digit (Tamil superscripts), short e excluded; HK writes l+vocalic r and vocalic l '
    'alike (lR): l+vocalic r excluded there',
    'SLP1: dead consonant or e, o before a digit excluded (digits are letter modifiers there)',
    'Bengali: consonant+va excluded',
    'dda with nukta + ha (rh) excluded in HK, IAST, ISO, Cyrillic; southern letters excluded in Cyrillic',
    'Itrans and Velthuis: no vowel directly after a vowel (hiatus); Itrans: d+n+y (dny) and the spelling collisions sh '
    '(s+h, sh+h) and LLi (l.l+i) excluded',
    'source scripts other than Devanagari: text as the library itself writes it in that script']


def jobs(tier):
    out = []
    for r in WHOLE + BASIC:
        w = 30
        for i, (p, q) in enumerate([('', ''), ('र ', ' म'), ('राम', 'तत्')]):
            out.append({'name': 'Devanagari-%s-2-%d' % (r, i), 'a': 'Devanagari', 'r': r, 'n': 2, 'd': 'full', 'pre': p,
                        'post': q, 'weight': 30})
        out.append({'name': 'Devanagari-%s-1-long' % r, 'a': 'Devanagari', 'r': r, 'n': 1, 'd': 'full',
                    'pre': spec.LONG[0], 'post': spec.LONG[1], 'weight': 30})
        out.append({'name': 'Devanagari-%s-3m' % r, 'a': 'Devanagari', 'r': r, 'n': 3, 'd': 'mid', 'pre': '', 'post': '',
                    'weight': 50})
        for a in OTHER:
            out.append({'name': '%s-%s-2m' % (a, r), 'a': a, 'r': r, 'n': 2, 'd': 'mid', 'pre': '', 'post': ''})
            if tier == 'thorough':
                out.append({'name': '%s-%s-2' % (a, r), 'a': a, 'r': r, 'n': 2, 'd': 'full', 'pre': '', 'post': ''})
        if tier == 'thorough':
            out.append({'name': 'Devanagari-%s-3' % r, 'a': 'Devanagari', 'r': r, 'n': 3, 'd': 'full', 'pre': '',
                        'post': '', 'weight': 100})
    return out


_memo = {}


def domain(p):
    k = (p['a'], p['r'], p['d'])
    if k in _memo:
        return _memo[k]
    r = p['r']
    if r in WHOLE:
        d = [x for x in spec.full() if x not in ('(', ')', "'", ':')]
        if r == 'HK':
            d = [x for x in d if x[:2] not in ('लृ', 'लॄ') and not any(c in 'ऎॆऒॊ' for c in x)]
        if r == 'RussianCyrillic':
            d = [x for x in d if x[0] not in '\u0929\u0931\u0934']
        d = [x for x in d if x != '\u0931\u094d']
    else:
        d = spec.DEVA.aksharas(drop=['ओं', 'ओँ'], sep=(' ', ',', '-')) + spec.GENERIC
    b = spec.BY[p['a']]
    if p['a'] != 'Devanagari' and r in BASIC:
        no = {c for k2, c in spec.DEVA.C.items() if k2 not in b.C} | \
             {c for t in ('V', 'M', 'S') for k2, c in getattr(spec.DEVA, t).items() if k2 not in b.V and k2 not in b.S}
        d = [x for x in d if not any(c in no for c in x)]
    if p['d'] == 'mid':
        m = set(spec.mid(d)) | {'\u0958', '\u0959\u094d', '\u095cा', '\u0934', '\u0929', '\u0934\u094d', 'कॄ', 'कॢ', 'ऌ',
                                'कॆ', 'कॊ', 'ऎ', 'कॅ', 'ऑ', 'ऽ', '।', '१', '\n', '-', ','}
        d = [x for x in d if x in m]
    _memo[k] = d
    return d


def domains(p):
    return [domain(p)] * p['n']


def exclude(p):
    d = domain(p)
    r = p['r']
    dead = [x for x in d if x.endswith('्')]
    iv = set(spec.FV)
    ind = [x for x in d if x[0] in iv]
    dig = [x for x in d if x in spec.DIGITS]
    out = []

    def pair(first, second):
        if first and second:
            for k in range(p['n'] - 1):
                out.append({str(k): first, str(k + 1): second})
            if p['post'] and p['post'][0] in second:
                out.append({str(p['n'] - 1): first})
    pair(dead, ind)
    if p['a'] == 'Bengali':
        pair(dead, [x for x in d if x[0] == 'व'])
    pair(['।'], [x for x in d if x in '।॥'])
    if r in BASIC:
        pair([x for x in d if not x.endswith('्') and x.strip(' ,-')], ind)
        if p['pre'].strip() and p['pre'][-1] not in ' \n':
            out.append({'0': ind})
    if r == 'SLP1':
        pair([x for x in d if x[-1] in '्एओेो'], dig)
    if r == 'HK':
        pair(dead, dig)
        pair([x for x in d if x[-1] in 'ृॢऋऌ'], [x for x in ind if x[0] in 'ऋॠ'])
    if r in ('HK', 'IAST', 'ISO', 'RussianCyrillic'):
        pair([x for x in d if x in ('\u0958\u094d', '\u095c\u094d')], [x for x in d if x[0] == 'ह'])
    if r == 'Itrans':
        pair([x for x in ('श्', 'स्') if x in d], [x for x in d if x[0] == 'ह'])
        if p['n'] == 3:
            out.append({'0': ['द्'], '1': ['न्'], '2': [x for x in d if x[0] == 'य']})
        pair(['ळ्'] if 'ळ्' in d else [], [x for x in d if x[:2] in ('ळि', 'ळी')])
    return out


def run(p, api, ctx):
    x = ctx.template([p['pre']] + list(range(p['n'])) + [p['post']])
    if p['a'] != 'Devanagari':
        x = api.t('Devanagari', p['a'], x)
    y = api.t(p['a'], p['r'], x)
    z = api.t(p['r'], p['a'], y)
    return [eq('round trip %s-%s-%s' % (p['a'], p['r'], p['a']), z, x)]
