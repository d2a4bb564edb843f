"""Text in other scripts and symbols passes through: t(a + F + b) == t(a) + F + t(b)."""
import glob
import os
import re
import unicodedata
from symx.harness import eq
import c07
import c08

_B = ('Texts [edge][F][G][edge]: edge = one of 21 syllables or dead consonants of Devanagari (6 for Semitic targets), F = any of %s, '
      'G = nothing or one of up to 15 letters and symbols (Latin, Cyrillic, Greek, Georgian, Han, emoji, punctuation). Devanagari into 179 targets '
      '(nativization on and off%s) and from 141 scripts into Devanagari.')
BOUNDS = {'quick': _B % ('about 3350 characters: all of ASCII, Latin-1, Latin Extended, general punctuation, three of every script and category of '
                         'Unicode, and every character the code of the converter names', '; Semitic targets on only'),
          'thorough': _B % ('about 21600 assigned characters of Unicode', '')}
ASSUMPTIONS = [
    'The signs the converter gives a meaning of its own are not foreign: CONTROL (nukta, schwa and accent marks, disambiguators), REWRITTEN '
    '(presentation forms and compatibility doubles), EXC (punctuation and digits a scheme writes its own way).',
    'Letters of source and target script, Devanagari and Vedic signs are not foreign; nor ASCII and Latin letters to a scheme written in them.',
    'Where a letter of any script counts as the continuation of the word (final forms of Hebrew, Palmyrene, Nabataean, Sogdian), F is a sign, not a letter.',
    'Reading back: letters with case and decomposable characters are outside for romanizations; the apostrophe, full stop and digits, which many scripts write themselves, are outside.',
]


def mentioned():
    """Every character that the converter's own code names, as itself or as an escape."""
    out = set()
    for path in glob.glob(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'aksharamukha', '*.py')):
        text = open(path, encoding='utf8').read()
        out |= set(text) | {chr(int(a or b, 16)) for a, b in re.findall(r'\\u([0-9A-Fa-f]{4})|\\U(000[0-9A-Fa-f]{5})', text)}
    return {c for c in out if c > '\u017f' and unicodedata.category(c)[0] not in 'CZ'}


_chars, SPECIAL = {}, set()


def chars(full):
    if full not in _chars:
        _chars[full] = _all_chars(full)
    return _chars[full]


def _all_chars(full):
    blocks = [(0x21, 0x24f), (0x370, 0x9ff), (0xa00, 0x1fff), (0x2010, 0x2fff), (0x3000, 0x3400), (0x4e00, 0x4e20), (0xa000, 0xa010),
              (0xa4d0, 0xabff), (0xac00, 0xac10), (0xfb00, 0xfefc), (0xff01, 0xffee), (0x10000, 0x12000), (0x12000, 0x12010),
              (0x16a40, 0x16fff), (0x1d400, 0x1d410), (0x1e100, 0x1e960), (0x1f300, 0x1f700)]
    seen, out = {}, []
    named = mentioned()
    for lo, hi in blocks:
        for c in map(chr, range(lo, hi)):
            cat = unicodedata.category(c)
            if cat[0] == 'C' or cat[0] == 'Z':
                continue
            k = (unicodedata.name(c).split(' ')[0], cat)
            seen[k] = seen.get(k, 0) + 1
            if full or c < '\u0180' or '\u2010' <= c < '\u2060' or seen[k] in (1, 2, 30):
                out.append(c)
            elif c in named:
                out.append(c)
                SPECIAL.add(c)
    return out


# signs the converter gives a meaning of its own wherever they stand
CONTROL = '_\u00b7\u00d7\u00b9\u00b2\u00b3\u2070\u2074\u2081\u2082\u2083\u2084\u02bc\u02bd\u02be\u02c6\u02c7\u02d8\u02c2\u0331\u030d\u030e\u0308\u0325\u034f\u25cf\u2502\u2503\u2191\u2193'
# compatibility forms and doubles that are rewritten wherever they stand
REWRITTEN = '\u1e7e\u1e7f\u0c5d\u0cdd\u0d4c\u0d4e\u0d5f\u0e0e\u103f\U0001134c' + ''.join(map(chr, range(0xf71, 0xf82))) + '\u0f82\u0f69\u0fb9\ua789'
LATIN = 'LATIN MODIFIER COMBINING SUPERSCRIPT SUBSCRIPT FULLWIDTH DIGIT MASCULINE FEMININE MICRO'.split()
ARAB = ',.;?#0123456789'
EXC = {'Tibetan': '(){}', 'TibetanLoC': '(){}', 'Limbu': '!?', 'LimbuLoC': '!?', 'Shahmukhi': ARAB, 'Urdu': ARAB, 'Thaana': ',;?\u2098',
       'HanifiRohingya': ',;?/\\', 'Kharoshthi': '0123456789', 'OldPersian': '0123456789<', 'ThamLoCRomanLoC': '\u2032\u2033',
       'KhmerLoCRomanLoC': '\u2033', 'TamilExtended': '\u0b83\u0bd0', 'Lao': '\u0e23\u0e25', 'Lao2': '\u0e23\u0e25', 'Sharada': '\u09ce', 'Javanese': '\u1b4c', 'Oriya': '\u09f0', 'Tamil': '\U00011303', 'Arab': ARAB, 'Arab-Ur': ARAB, 'Arab-Fa': ARAB,
       'Arab-Pa': ARAB, 'Thaa': ',.;?#',
       # notation of their own
       'Chakma': "'\u09f0", 'Wancho': '\u00d8\\/', 'WarangCiti': '\u00bd', 'Hebr': '#', 'Syrj': '#', 'Syrn': '#'}
# letters of the romanization through which the Semitic scripts are reached
SEMITIC_ROMAN = '\u00e2\u00ea\u00ee\u00f4\u00fb\u0103\u0115\u014f\u010d\u0121\u017e\u0175\u0177\u207f\u0233\u1e35\u1e0d\u1e0f\u1e2b\u1e6f\u1e93'
# where a letter of any kind counts as the continuation of the word (final forms)
FINALS = 'Hebr Palm Nbat Sogo'.split()


def foreign(p):
    s, t = p['s'], p['t']
    own = {'DEVANAGARI', 'VEDIC'} | {c07.SCRIPT[x] for x in (s, t)}
    roman = 'LATIN' in own or any(x in c07.ASCII for x in (s, t))
    sem = t in c08.SEM or s == 'Thaana'
    out = []
    for c in chars(False) if p['k'] == 'quick' else chars(True)[p['k']::SHARDS]:
        n = unicodedata.name(c)
        cat = unicodedata.category(c)
        if sem and p['k'] == 'quick' and c in SPECIAL or c in CONTROL or c in REWRITTEN or any(n.startswith(x + ' ') for x in own):
            continue
        if any(c in c07.EXTRA.get(x, '') or c in EXC.get(x, '') for x in (s, t)):
            continue
        if roman and (c.isascii() or n.split(' ')[0] in LATIN):
            continue
        if sem and c in SEMITIC_ROMAN or t in FINALS and cat[0] in 'LM':
            continue
        if s != 'Devanagari':
            if c in "'.0123456789":   # many scripts write these themselves
                continue
            if roman and (c.lower() != c or cat[0] == 'M' or any(unicodedata.normalize(k, c) != c for k in ('NFC', 'NFD'))):
                continue
        out.append(c)
    return out


SECOND = ['x', 'a', 'Z', 'Q', 'h', '(', ';', '%', '@', '\u4e2d', '\u0436', '\u03bb', '\u10d0', '\U0001f600', '\u2014']
EDGE = 'क क् कि का के को कं कः अ इ म् न् त् र् र ष य व ह ळ ऋ श्'.split()


SHARDS = 8


def jobs(tier):
    out = []
    for t in c07.SCRIPT:
        pairs = [('Devanagari', t, True)]
        if tier != 'quick' or t not in c08.SEM:
            pairs.append(('Devanagari', t, False))
        if t != 'Devanagari' and t not in c07.NO_READER and t not in c08.SEM:
            pairs.append((t, 'Devanagari', False))
        for s, t, nat in pairs:
            for k in ['quick'] + list(range(SHARDS) if tier != 'quick' and t not in c08.SEM else []):
                out.append({'name': '%s-%s-%s-%s' % (s, t, 'nat' if nat else 'raw', k), 's': s, 't': t, 'nat': nat, 'k': k,
                            'weight': 20 if t in c08.SEM else 3})
    return out


def domains(p):
    f = foreign(p)
    edge = EDGE[::4] if p['t'] in c08.SEM else EDGE
    second = [''] + [c for c in SECOND if c in f]
    return [edge, f, second, edge]


def run(p, api, ctx):
    a, f, b = [ctx.template(x) for x in ([0], [1, 2], [3])]
    if p['s'] != 'Devanagari':
        a, b = [api.t('Devanagari', p['s'], y) for y in (a, b)]
    g = lambda y: api.t(p['s'], p['t'], y, nativize=p['nat'])
    return [eq('foreign text', g(a + f + b), g(a) + f + g(b))]
