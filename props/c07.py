"""The output is written in the letters of the target script alone: no letters of another script, no internal marks."""
import unicodedata

from symx.harness import nochar
import spec

# Unicode name of the script: the library's names for targets written in it
PREFIX = {
    'DIVES AKURU': 'DivesAkuru',
    'TIBETAN': 'TibetanLoC Tibetan',
    'GURMUKHI': 'GurmukhiLoC Gurmukhi',
    'LIMBU': 'LimbuLoC Limbu',
    'TAI THAM': 'ThamLoC LaoTham LueTham KhuenTham TaiTham',
    'KHMER': 'KhmerLoC Khmer',
    'MYANMAR': 'ShanLoC KhamtiShan TaiLaing Mon Shan Burmese',
    'BENGALI': 'BengaliRaBa GranthaGrantamil Bengali Assamese',
    'LATIN':
        'RomanSemitic GurmukhiLoCRomanLoC TibetanLoCRomanLoC LimbuLoCRomanLoC BalineseSimpleRomanLoC '
        'BalineseRomanLoC JavaneseSimpleRomanLoC JavaneseRomanLoC KannadaRomanLoC TeluguRomanLoC '
        'SinhalaRomanLoC OriyaRomanLoC AssameseRomanLoC BengaliRomanLoC GujaratiRomanLoC DevanagariRomanLoC '
        'ThamLoCRomanLoC KhmerLoCRomanLoC RomanLoC ShanLoCRomanLoC BurmeseRomanLoC RomanColloquial ISOPali '
        'RomanKana BarahaNorth BarahaSouth SLP1 IASTPali Ariyaka RomanReadable Aksharaa WX-kok ISO IAST HK '
        'Titus Itrans Velthuis WX IPA TolongSiki Type Latn ',
    'MAKASAR': 'Makasar',
    'NANDINAGARI': 'Nandinagari',
    'KAWI': 'Kawi',
    'ARABIC': 'Shahmukhi Urdu Arab-Pa Arab-Ur Arab-Fa Arab',
    'JAVANESE': 'Pallava Javanese',
    'HEBREW': 'Hebrew Hebr-Ar Hebr',
    'MALAYALAM': 'TamilExtended GranthaPandya Malayalam',
    'MARCHEN': 'Marchen',
    'MASARAM GONDI': 'MasaramGondi',
    'GUNJALA GONDI': 'GunjalaGondi',
    'SOYOMBO': 'Soyombo',
    'DOGRA': 'Dogra',
    'THAI': 'KhomThai Thai',
    'KHOJKI': 'Khojki',
    'DEVANAGARI': 'Ranjana Devanagari SiddhamDevanagari',
    'ZANABAZAR SQUARE': 'ZanabazarSquare',
    'REJANG': 'Rejang',
    'MULTANI': 'Multani',
    'AHOM': 'Ahom',
    'MAHAJANI': 'Mahajani',
    'LAO': 'Lao2 LaoPali Lao',
    'HANUNOO': 'Hanunoo',
    'BUHID': 'Buhid',
    'SIDDHAM': 'Siddham',
    'TAMIL': 'Vatteluttu Tamil TamilGrantha',
    'KHUDAWADI': 'Khudawadi',
    'BHAIKSUKI': 'Bhaiksuki',
    'SHARADA': 'Sharada',
    'NEWA': 'Newa',
    'TAKRI': 'Takri',
    'SYLOTI NAGRI': 'SylotiNagri',
    'TIRHUTA': 'Tirhuta',
    'MODI': 'Modi',
    'KAITHI': 'Kaithi',
    'KHAROSHTHI': 'Kharoshthi',
    'TELUGU': 'Telugu',
    'KANNADA': 'Kannada',
    'GUJARATI': 'Gujarati',
    'ORIYA': 'Oriya',
    'SAURASHTRA': 'Saurashtra',
    'BRAHMI': 'TamilBrahmi Brahmi Brah',
    'GRANTHA': 'Grantha',
    'SINHALA': 'Sinhala',
    'BALINESE': 'Balinese',
    'THAANA': 'Thaana Thaa',
    'OLD PERSIAN': 'OldPersian',
    'LEPCHA': 'Lepcha',
    'SUNDANESE': 'Sundanese',
    'TAGALOG': 'Tagalog',
    'TAGBANWA': 'Tagbanwa',
    'BUGINESE': 'Buginese',
    'CHAKMA': 'Chakma',
    'PHAGS-PA': 'PhagsPa',
    'MEETEI MAYEK': 'MeeteiMayek',
    'BATAK': 'BatakKaro BatakPakpak BatakSima BatakToba BatakManda',
    'CHAM': 'Cham',
    'MONGOLIAN': 'Mongolian',
    'WANCHO': 'Wancho',
    'MRO': 'Mro',
    'HANIFI ROHINGYA': 'HanifiRohingya',
    'WARANG CITI': 'WarangCiti',
    'SORA SOMPENG': 'SoraSompeng',
    'AVESTAN': 'Avestan',
    'OL CHIKI': 'Santali',
    'CYRILLIC': 'RussianCyrillic',
    'SYRIAC': 'Syrj Syrn Syre',
    'ETHIOPIC': 'Ethi',
    'IMPERIAL ARAMAIC': 'Armi',
    'CHORASMIAN': 'Chrs',
    'EGYPTIAN HIEROGLYPH': 'Egyp',
    'ELYMAIC': 'Elym',
    'GREEK': 'Grek',
    'HATRAN': 'Hatr',
    'MANICHAEAN': 'Mani',
    'OLD NORTH ARABIAN': 'Narb',
    'NABATAEAN': 'Nbat',
    'PALMYRENE': 'Palm',
    'INSCRIPTIONAL PAHLAVI': 'Phli',
    'PSALTER PAHLAVI': 'Phlp',
    'PHOENICIAN': 'Phnx',
    'INSCRIPTIONAL PARTHIAN': 'Prti',
    'SAMARITAN': 'Samr',
    'OLD SOUTH ARABIAN': 'Sarb',
    'SOGDIAN': 'Sogd',
    'OLD SOGDIAN': 'Sogo',
    'UGARITIC': 'Ugar',
}
SCRIPT = {t: p for p, ts in PREFIX.items() for t in ts.split()}
ASCII = 'RomanColloquial BarahaNorth BarahaSouth RomanReadable Aksharaa WX-kok HK Itrans Velthuis WX TolongSiki Ariyaka'.split()
# further characters of a target, reviewed one by one: digits and signs borrowed from a related script, modifier letters
# standing for a nukta or a vocalic sign, joiners, combining marks of a romanization
EXTRA = {}


def _extra(targets, chars):
    for t in targets.split():
        EXTRA[t] = EXTRA.get(t, '') + chars


def _digits(zero):
    return ''.join(chr(ord(zero) + i) for i in range(10))


_extra('Gurmukhi GurmukhiLoC BengaliRaBa Bengali Assamese Gujarati Oriya', '\u02d8')           # breve: short e, o
_extra('Gurmukhi GurmukhiLoC BengaliRaBa GranthaGrantamil Bengali Assamese TamilExtended Malayalam Tamil TamilGrantha Kannada '
       'Oriya Sinhala', '\u02bc')                                                             # apostrophe: candra vowels
_extra('Cham HanifiRohingya', '\u02be')
_extra('GranthaGrantamil', '\ue014')                                                          # font encoding
_extra('TamilExtended Malayalam Tamil Sinhala', '\u00b7')
_extra('Tamil', '\u00b2\u00b3\u2074\u02ee\ua789')
_extra('Vatteluttu', '\ua789')
_extra('TolongSiki', ''.join(chr(c) for c in range(0xa1, 0xaa)))                               # font encoding
_extra('TamilGrantha', ''.join(chr(c) for c in range(0x980, 0xa00)) + '\u200b\u200c\u200d')   # font encoding
_extra('Bengali TamilExtended Sharada Kannada Grantha', '\u200c')
_extra('TamilExtended Malayalam Saurashtra Sinhala WarangCiti', '\u200d')
_extra('Telugu', '\u0952\u200b')
_extra('Mongolian', '\u200b')
_extra('PhagsPa', '\u1802')
_extra('Narb', '\u200e')
_extra('Avestan', '\u200f\U00010b3c\U00010b3d')
_extra('Syrj Syrn', '\u0330\u0651')
_extra('Dogra Khudawadi Takri Modi Kaithi', '\u093d')
_extra('SylotiNagri', '\u09bd')
_extra('Saurashtra', '\u0c3d')
_extra('Kaithi', '\u2e31')
_extra('Pallava', '|')
_extra('Hanunoo Buhid Tagalog Tagbanwa', '\u1735\u1736')
_extra('Thaa Thaana HanifiRohingya', '\u060c\u061b\u061f\u06d4')
_extra('Arab-Ur Arab-Pa Arab', _digits('\u0660'))
_extra('Makasar Shahmukhi Urdu Arab-Fa', _digits('\u06f0'))
_extra('Dogra Mahajani Kaithi', _digits('\u0966'))
_extra('SylotiNagri', _digits('\u09e6'))
_extra('Multani', _digits('\u0a66'))
_extra('Khojki', _digits('\u0ae6'))
_extra('Grantha', _digits('\u0be6'))
_extra('Nandinagari', _digits('\u0ce6'))
_extra('Marchen', _digits('\u0f20'))
_extra('RomanSemitic Latn', '\u02b0\u0302\u033d')
_extra('IPA', '\u02b0\u02d0\u0303\u0306\u0308\u032a\u0337\u0338\u0361')
_extra('RussianCyrillic', '\u0301\u0302\u0303\u0304\u0306\u0307\u0308\u0310\u0323\u0324\u0331\u035f')
_extra('RomanKana', '\u3002\u309a')
_extra('Type', '^~')
_extra('SLP1', '~')
_extra('Titus', '\u02b0')
_extra('ShanLoCRomanLoC', '\u02ba')
_extra('TibetanLoCRomanLoC', '`\u02b9')
# separators of vowels in hiatus and of letters that would read as a digraph
_extra(' '.join(PREFIX['LATIN'].split()) + ' Wancho Mro Mongolian WarangCiti Avestan Santali SoraSompeng RussianCyrillic', '_')
# combining marks of the scholarly romanizations
_extra(' '.join(t for t in PREFIX['LATIN'].split() if t.endswith('RomanLoC') or t in ('ISOPali', 'SLP1', 'IASTPali', 'ISO', 'IAST', 'Titus')),
       '\u0304\u0306\u0308\u0310\u0324\u0325\u0333\u035f\u2019')
COMMON = set(' \n\t!"\'(),-./:;?%।॥') | set('0123456789')


def allowed(t, c, src=None):
    if c in COMMON or c in EXTRA.get(t, ''):
        return True
    n = unicodedata.name(c, '')
    if t in ASCII:
        return ' ' <= c <= '~'
    return n.startswith(SCRIPT[t] + ' ')


# targets whose spelling is ambiguous enough that reading it back leaves signs behind, or reading which is out of reach
# (the consonant-only Semitic scripts: thousands of paths)
NO_READER = ('ShanLoC ShanLoCRomanLoC KhomThai Lao Lao2 WarangCiti Urdu Shahmukhi Hebrew BatakSima Mro Mongolian SoraSompeng '
             'PhagsPa Syrj Brah Syre Ethi Armi Chrs Egyp Elym Grek Hatr Mani Narb Nbat Palm Phli Phlp Phnx Prti Samr Sarb Sogd '
             'Sogo Ugar').split()
# marks of foreign sounds, kept when nativization is off
SOUND_MARKS = '\u02bc\u02c7\u02c6\u02d8\u00b7'
READERS = len(SCRIPT) - 1 - len(NO_READER)
BOUNDS = {
    'quick': 'Devanagari text into every one of %d target scripts, nativization off and on: every text of 2 symbols out of 327 (all '
             'consonants, dead and with the common signs, all vowel letters, nukta letters, southern letters, candra vowels, '
             'digits, dandas, punctuation), and every single symbol out of 3442 between a dead and a plain consonant; and, with nativization on and off, the text that '
             'two symbols out of 300 give in %d of these scripts, read into Devanagari' % (len(SCRIPT), READERS),
    'thorough': 'the same with 2 symbols out of 3442 for all but five targets, 3 symbols out of 327, and IAST as source',
}
ASSUMPTIONS = ['which characters belong to a script: its Unicode block name, ASCII for the ASCII schemes, and the reviewed table EXTRA '
               'in props/c07.py of digits, joiners and modifier letters that targets borrow',
               'Inter (an internal form) is not a target',
               'reading with nativization off may keep the marks of foreign sounds (ʼ ˇ ˆ ˘ ·); reading is not checked for %s' % ' '.join(NO_READER)]
SLOW = {'Lepcha': 43, 'Limbu': 11, 'LimbuLoC': 10, 'PhagsPa': 8, 'Hebr': 8, 'Nbat': 8, 'HanifiRohingya': 7}
def jobs(tier):
    out = []
    for t in SCRIPT:
        for nat in (False, True):
            w = SLOW.get(t, 3)
            def job(name, n, d, pre, post, s='Devanagari', w=w):
                out.append({'name': '%s-%s-%s-%s' % (s, t, 'nat' if nat else 'raw', name), 's': s, 't': t, 'nat': nat, 'n': n,
                            'd': d, 'pre': pre, 'post': post, 'weight': w})
            job('2', 2, 'mid', [], [])
            job('1', 1, 'full', ['क्'], ['क'])
            if tier == 'thorough':
                if t not in SLOW:
                    job('2full', 2, 'full', [], [], w=w * 5)
                    job('3', 3, 'mid', [], [], w=w * 4)
                job('IAST', 2, 'mid', [], [], s='IAST')
        for nat in (False, True):
            if t != 'Devanagari' and t not in NO_READER:
                out.append({'name': '%s-Devanagari-%s' % (t, 'nat' if nat else 'raw'), 's': t, 't': 'Devanagari', 'nat': nat,
                            'n': 2, 'd': 'core', 'pre': [], 'post': [], 'weight': SLOW.get(t, 3)})
    return out


CORE_MORE = 'आ ई ऊ ऐ ओ औ की कू कै को री यू वै मो ।'.split() + [' ', ',']
_memo = {}


def domain(p):
    k = p['d']
    if k not in _memo:
        d = spec.full()
        if k == 'core':
            d = [x for x in spec.mid(d) if x.strip()] + CORE_MORE
        elif k == 'mid':
            m = set(spec.mid(d)) | {'\u0958', '\u095cा', '\u0934', '\u0929', '\u0934्', 'कॄ', 'कॢ', 'ऌ', 'कॆ', 'कॊ', 'ऎ', 'कॅ',
                                    'ऑ', 'ऽ', '।', '१', '\n', '-', ',', '॥', 'ड़', 'ढ़ा', 'फ़', 'य़', 'ज़ि', 'आ', 'ऐ', 'औ', 'ओ', 'ऋ',
                                    'कॉ', 'ऍ', 'ऒ', 'कै', 'को', 'की', 'कू', 'कु', 'सु', 'मै', 'नो'} | set(spec.GENERIC[:12])
            d = [x for x in d if x in m]
        _memo[k] = d
    return _memo[k]


def domains(p):
    return [domain(p)] * p['n']


def run(p, api, ctx):
    x = ctx.template([''.join(p['pre'])] + list(range(p['n'])) + [''.join(p['post'])])
    if p['s'] != 'Devanagari':
        x = api.t('Devanagari', p['s'], x)
    y = api.t(p['s'], p['t'], x, nativize=p['nat'])
    t = p['t']
    marks = SOUND_MARKS if p['s'] != 'Devanagari' and not p['nat'] else ''
    return [nochar('letters of %s only' % t, y, lambda c: c not in marks and not allowed(t, c))]
