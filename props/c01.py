"""Lossless round trips among the eleven main Indic scripts (preserve mode)."""
from symx.harness import eq
import spec

HUB = [s.name for s in spec.MAIN if s.name != 'Devanagari']
SLOW = {'Gurmukhi', 'Tamil', 'Malayalam', 'Sinhala'}

BOUNDS = {
    'quick': 'texts of two consecutive free aksharas (about 3400 choices each: the whole Devanagari alphabet of the '
             'library, every consonant with every vowel sign and nasal or breath sign, dead consonants, independent '
             'vowels, digits, dandas, punctuation, space, newline) alone, all '
             'ordered pairs of the eleven scripts (a smaller alphabet of about 260 for the pairs among Gurmukhi, Tamil, '
             'Malayalam, Sinhala and another script than Devanagari); one free akshara inside a text of four lines, all '
             'pairs; two free aksharas inside words, and three of the smaller alphabet, for the pairs with Devanagari',
    'thorough': 'as quick, three free aksharas of the whole alphabet for every pair',
}
ASSUMPTIONS = ['source text other than Devanagari: text as the library itself writes it in that script',
               'text is well-formed: no virama directly before an independent vowel, two dandas in a row are the '
               'double danda; the word om excluded; eyelash ra (RRA+virama) excluded; full stop excluded (it is a danda '
               'in the southern scripts)',
               'conjuncts excluded because the other script writes two of them alike: consonant+va in Bengali, '
               's+rii in Tamil, dda with nukta+ha in Gurmukhi']


def jobs(tier):
    out = []

    def add(a, b, n, d, ctx, w):
        pre, post = [('', ''), ('क', 'क'), spec.LONG, ('त्', 'य र')][ctx]
        out.append({'name': '%s-%s-%d%s-ctx%d' % (a, b, n, d, ctx), 'a': a, 'b': b, 'n': n, 'd': d, 'pre': pre,
                    'post': post, 'weight': w * (1 + 2 * (ctx == 2)) * (1 + (a in SLOW) + (b in SLOW))})
    D = 'Devanagari'
    for x in HUB:
        for a, b in ((D, x), (x, D)):
            for c in (0, 1, 3):
                add(a, b, 2, 'mid' if tier == 'quick' and c == 1 and x in SLOW else 'full', c, 10)
            add(a, b, 1, 'full', 2, 10)
            add(a, b, 3, 'mid', 0, 10)
            if tier == 'thorough':
                add(a, b, 2, 'full', 2, 30)
                add(a, b, 3, 'full', 0, 30)
    for x in HUB:
        for y in HUB:
            if x != y:
                slow = tier == 'quick' and (x in SLOW or y in SLOW)
                add(x, y, 2, 'mid' if slow else 'full', 0, 10)
                add(x, y, 1, 'full', 2, 10)
                if tier == 'thorough':
                    add(x, y, 3, 'full', 0, 30)
                    add(x, y, 2, 'full', 2, 30)
    return out


_FULL = spec.full()
_MID = spec.mid(_FULL) + [x for x in ('क़', 'ख़्', 'ड़ा', 'ऴ', 'ऱ', 'ऩ्', 'के', 'कॆ', 'कॊ', 'ऎ', 'कॅ', 'ऑ', 'ऽ', '।', '१',
                                      '-', '\n') if x in _FULL]
_MID = list(dict.fromkeys(_MID))


def domains(p):
    return [_FULL if p['d'] == 'full' else _MID] * p['n']


def exclude(p):
    d = domains(p)[0]
    dead = [x for x in d if x.endswith('्')]
    iv = set(spec.FV)
    out = []
    n = p['n']

    def pair(first, second):
        if first and second:
            for k in range(n - 1):
                out.append({str(k): first, str(k + 1): second})
            if p['pre'] and p['pre'][-2:] in first:
                out.append({'0': second})
    pair(dead, [x for x in d if x[0] in iv])
    pair(['।'], [x for x in d if x in '।॥'])
    if 'Bengali' in (p['a'], p['b']):
        pair(dead, [x for x in d if x[0] == 'व'])
    if 'Tamil' in (p['a'], p['b']):
        pair(['स्'], [x for x in d if x.startswith('री')])
    if 'Gurmukhi' in (p['a'], p['b']):
        pair(['\u095c\u094d'], [x for x in d if x[0] in 'ह\u095d'])
    return out


def run(p, api, ctx):
    x = ctx.template([p['pre']] + list(range(p['n'])) + [p['post']])
    if p['a'] != 'Devanagari':
        x = api.t('Devanagari', p['a'], x)
    y = api.t(p['a'], p['b'], x)
    z = api.t(p['b'], p['a'], y)
    return [eq('round trip %s-%s-%s' % (p['a'], p['b'], p['a']), z, x)]
