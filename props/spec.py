"""Alphabets of the scripts, taken from the Unicode character names (and not from
the tables of the code under test)."""
import unicodedata

U = unicodedata


def _lk(name):
    try:
        return U.lookup(name)
    except KeyError:
        return None


# phoneme -> Unicode letter name
CONS = ['KA', 'KHA', 'GA', 'GHA', 'NGA', 'CA', 'CHA', 'JA', 'JHA', 'NYA',
        'TTA', 'TTHA', 'DDA', 'DDHA', 'NNA', 'TA', 'THA', 'DA', 'DHA', 'NA',
        'PA', 'PHA', 'BA', 'BHA', 'MA', 'YA', 'RA', 'LA', 'VA', 'SHA', 'SSA', 'SA', 'HA', 'LLA']
VOW = ['A', 'AA', 'I', 'II', 'U', 'UU', 'VOCALIC R', 'E', 'AI', 'O', 'AU']

_ALT = {
    ('SINHALA', 'C'): {
        'KA': 'ALPAPRAANA KAYANNA', 'KHA': 'MAHAAPRAANA KAYANNA', 'GA': 'ALPAPRAANA GAYANNA',
        'GHA': 'MAHAAPRAANA GAYANNA', 'NGA': 'KANTAJA NAASIKYAYA', 'CA': 'ALPAPRAANA CAYANNA',
        'CHA': 'MAHAAPRAANA CAYANNA', 'JA': 'ALPAPRAANA JAYANNA', 'JHA': 'MAHAAPRAANA JAYANNA',
        'NYA': 'TAALUJA NAASIKYAYA', 'TTA': 'ALPAPRAANA TTAYANNA', 'TTHA': 'MAHAAPRAANA TTAYANNA',
        'DDA': 'ALPAPRAANA DDAYANNA', 'DDHA': 'MAHAAPRAANA DDAYANNA', 'NNA': 'MUURDHAJA NAYANNA',
        'TA': 'ALPAPRAANA TAYANNA', 'THA': 'MAHAAPRAANA TAYANNA', 'DA': 'ALPAPRAANA DAYANNA',
        'DHA': 'MAHAAPRAANA DAYANNA', 'NA': 'DANTAJA NAYANNA', 'PA': 'ALPAPRAANA PAYANNA',
        'PHA': 'MAHAAPRAANA PAYANNA', 'BA': 'ALPAPRAANA BAYANNA', 'BHA': 'MAHAAPRAANA BAYANNA',
        'MA': 'MAYANNA', 'YA': 'YAYANNA', 'RA': 'RAYANNA', 'LA': 'DANTAJA LAYANNA', 'VA': 'VAYANNA',
        'SHA': 'TAALUJA SAYANNA', 'SSA': 'MUURDHAJA SAYANNA', 'SA': 'DANTAJA SAYANNA', 'HA': 'HAYANNA',
        'LLA': 'MUURDHAJA LAYANNA'},
    ('SINHALA', 'V'): {
        'A': 'AYANNA', 'AA': 'AAYANNA', 'I': 'IYANNA', 'II': 'IIYANNA', 'U': 'UYANNA', 'UU': 'UUYANNA',
        'VOCALIC R': 'IRUYANNA', 'E': 'EEYANNA', 'AI': 'AIYANNA', 'O': 'OOYANNA', 'AU': 'AUYANNA'},
    ('SINHALA', 'M'): {
        'AA': 'AELA-PILLA', 'I': 'KETTI IS-PILLA', 'II': 'DIGA IS-PILLA', 'U': 'KETTI PAA-PILLA',
        'UU': 'DIGA PAA-PILLA', 'VOCALIC R': 'GAETTA-PILLA', 'E': 'DIGA KOMBUVA', 'AI': 'KOMBU DEKA',
        'O': 'KOMBUVA HAA DIGA AELA-PILLA', 'AU': 'KOMBUVA HAA GAYANUKITTA'},
}
# the scripts with a short and a long e, o write the inherited e, o of Sanskrit long
_LONG_EO = {'TAMIL', 'TELUGU', 'KANNADA', 'MALAYALAM', 'SAURASHTRA'}


class Script:
    """Letters of one script, keyed by Unicode phoneme name."""

    def __init__(self, name, block, cons=None, vow=None, numerals=True, fix=None):
        self.name = name
        self.block = block
        B = block
        self.C = {}
        for c in CONS:
            n = _ALT.get((B, 'C'), {}).get(c, c)
            ch = _lk('%s LETTER %s' % (B, n))
            if ch:
                self.C[c] = ch
        self.V = {}
        self.M = {}
        for v in VOW:
            n = v
            if B in _LONG_EO and v in ('E', 'O'):
                n = v + v
            nv = _ALT.get((B, 'V'), {}).get(v, n)
            ch = _lk('%s LETTER %s' % (B, nv))
            if ch:
                self.V[v] = ch
            if v != 'A':
                nm = _ALT.get((B, 'M'), {}).get(v, n)
                ch = _lk('%s VOWEL SIGN %s' % (B, nm))
                if ch:
                    self.M[v] = ch
        self.S = {}
        for s in ('ANUSVARA', 'VISARGA', 'CANDRABINDU'):
            ch = _lk('%s SIGN %s' % (B, s))
            if ch:
                self.S[s] = ch
        self.virama = _lk('%s SIGN VIRAMA' % B) or _lk('%s VIRAMA' % B)
        self.drop = []       # aksharas (Devanagari) that are not spelled letter by letter in this script
        self.nopair = []     # (predicate, predicate) on neighbours spelled in a special way
        self.avagraha = _lk('%s SIGN AVAGRAHA' % B)
        self.D = {}
        for i, d in enumerate('ZERO ONE TWO THREE FOUR FIVE SIX SEVEN EIGHT NINE'.split()):
            ch = _lk('%s DIGIT %s' % (B, d))
            if ch:
                self.D[i] = ch
        if fix:
            fix(self)

    def aksharas(self, cons=None, vow=None, signs=None, virama=True, sep=(' ',), drop=(), msel=None):
        """All well-formed aksharas: consonant with optional vowel sign and nasal/breath
        sign, consonant with virama, independent vowel with optional sign; separators."""
        cons = list(self.C.values()) if cons is None else cons
        vow = list(self.V.values()) if vow is None else vow
        signs = [''] + (list(self.S.values()) if signs is None else list(signs))
        out = []
        for s in signs:
            for m in [''] + [v for k, v in self.M.items() if msel is None or k in msel]:
                for c in cons:
                    out.append(c + m + s)
            for v in vow:
                out.append(v + s)
        if virama:
            for c in cons:
                out.append(c + self.virama)
        out += list(sep)
        drop = set(drop)
        return [x for x in out if x not in drop]


def _gurmukhi(s):
    s.C['LLA'] = _lk('GURMUKHI LETTER LLA')
    s.C['SHA'] = _lk('GURMUKHI LETTER SHA')
    s.S['ANUSVARA'] = 'ਂ'
    s.S['CANDRABINDU'] = 'ਁ'
    for v, ch in (('A', 'ਅ'), ('AA', 'ਆ'), ('I', 'ਇ'), ('II', 'ਈ'), ('U', 'ਉ'), ('UU', 'ਊ'), ('E', 'ਏ'), ('AI', 'ਐ'),
                  ('O', 'ਓ'), ('AU', 'ਔ')):
        s.V[v] = ch
    for v, ch in (('AA', 'ਾ'), ('I', 'ਿ'), ('II', 'ੀ'), ('U', 'ੁ'), ('UU', 'ੂ'), ('E', 'ੇ'), ('AI', 'ੈ'), ('O', 'ੋ'), ('AU', 'ੌ')):
        s.M[v] = ch


def _sinhala(s):
    s.S = {'ANUSVARA': _lk('SINHALA SIGN ANUSVARAYA'), 'VISARGA': _lk('SINHALA SIGN VISARGAYA'),
           'CANDRABINDU': '\u0d81'}
    s.virama = _lk('SINHALA SIGN AL-LAKUNA')


def _devanagari(s):
    pass


def _assamese(s):
    s.C['RA'] = 'ৰ'
    s.C['VA'] = 'ৱ'


DEVA = Script('Devanagari', 'DEVANAGARI')
TELU = Script('Telugu', 'TELUGU')
KNDA = Script('Kannada', 'KANNADA')
MLYM = Script('Malayalam', 'MALAYALAM')
GUJR = Script('Gujarati', 'GUJARATI')
BENG = Script('Bengali', 'BENGALI')
ORYA = Script('Oriya', 'ORIYA')
GURU = Script('Gurmukhi', 'GURMUKHI', fix=_gurmukhi)
TAML = Script('Tamil', 'TAMIL')
ASAM = Script('Assamese', 'BENGALI', fix=_assamese)
SINH = Script('Sinhala', 'SINHALA', fix=_sinhala)
TELU.S['CANDRABINDU'] = _lk('TELUGU SIGN COMBINING CANDRABINDU ABOVE')
ORYA.C['VA'] = _lk('ORIYA LETTER WA')
MLYM.M['AU'] = _lk('MALAYALAM AU LENGTH MARK')
DEAD = [c + '्' for c in DEVA.C.values()]
# khanda ta is the dead ta of Bengali and Assamese
BENG.drop = ASAM.drop = ['त्']
# the library distinguishes b and v after a consonant
BENG.nopair = [(lambda a: a[-1] == '्', lambda b: b[:1] == 'ब')]
# chillu letters
_chillu = ('ण्', 'न्', 'र्', 'ल्', 'ळ्')
MLYM.nopair = [(lambda a: a in _chillu, lambda b: True)]
# yansaya, rakaransaya and two conjuncts are written with a joiner
SINH.nopair = [(lambda a: a[-1:] == '्', lambda b: b[:1] in ('य', 'र')),
               (lambda a: a in ('क्', 'ज्'), lambda b: b[:1] in ('ष', 'ञ'))]
# addak for geminates
_cl = {}
for _i, _c in enumerate(CONS):
    if _i < 25:
        _cl[DEVA.C[_c]] = (_i // 5, 0 if _i % 5 < 2 else 1 if _i % 5 < 4 else 2)
    else:
        _cl[DEVA.C[_c]] = (5, _i)
GURU.nopair = [(lambda a: a[-1:] == '्', lambda b: False)]
GURU.geminate = True
TAML.S = {}        # the Tamil alphabet has neither; the library borrows them
TAML.nopair = [(lambda a: a == 'स्', lambda b: b[:2] == 'री')]

MAIN = [DEVA, TELU, KNDA, MLYM, GUJR, BENG, ORYA, GURU, TAML, ASAM, SINH]


def _grantha(s):
    s.M['AU'] = _lk('GRANTHA AU LENGTH MARK')


def _takri(s):
    s.C['KHA'] = _lk('TAKRI LETTER ARCHAIC KHA')


def _balinese(s):
    def L(t, pre):
        return [_lk('BALINESE %s %s' % (pre, x.strip())) for x in t.split(',')]
    s.C = dict(zip(CONS, L('KA, KA MAHAPRANA, GA, GA GORA, NGA, CA, CA LACA, JA, JA JERA, NYA, TA LATIK, '
                           'TA MURDA MAHAPRANA, DA MURDA ALPAPRANA, DA MURDA MAHAPRANA, NA RAMBAT, TA, TA TAWA, DA, '
                           'DA MADU, NA, PA, PA KAPAL, BA, BA KEMBANG, MA, YA, RA, LA, WA, SA SAGA, SA SAPA, SA, HA',
                           'LETTER')))
    s.V = dict(zip(VOW, L('AKARA, AKARA TEDUNG, IKARA, IKARA TEDUNG, UKARA, UKARA TEDUNG, RA REPA, EKARA, AIKARA, OKARA, '
                          'OKARA TEDUNG', 'LETTER')))
    s.M = dict(zip(VOW[1:], L('TEDUNG, ULU, ULU SARI, SUKU, SUKU ILUT, RA REPA, TALING, TALING REPA, TALING TEDUNG, '
                              'TALING REPA TEDUNG', 'VOWEL SIGN')))
    s.S = dict(zip(('ANUSVARA', 'VISARGA', 'CANDRABINDU'), L('CECEK, BISAH, ULU CANDRA', 'SIGN')))
    s.virama = _lk('BALINESE ADEG ADEG')


def _khmer(s):
    s.C = dict(zip(CONS, [_lk('KHMER LETTER ' + x) for x in
                          'KA KHA KO KHO NGO CA CHA CO CHO NYO DA TTHA DO TTHO NNO TA THA TO THO NO BA PHA PO PHO MO '
                          'YO RO LO VO SHA SSO SA HA LA'.split()]))
    s.V = {}
    s.M = dict(zip(('AA', 'I', 'II', 'U', 'UU', 'E', 'AI', 'O', 'AU'),
                   [_lk('KHMER VOWEL SIGN ' + x) for x in 'AA I II U UU E AI OO AU'.split()]))
    s.S = {'VISARGA': _lk('KHMER SIGN REAHMUK')}
    s.virama = None


def _burmese(s):
    s.C['VA'] = _lk('MYANMAR LETTER WA')
    s.C['NYA'] = _lk('MYANMAR LETTER NYA')
    s.S = {k: v for k, v in s.S.items() if k == 'VISARGA'}
    s.virama = None
    s.V = {k: v for k, v in s.V.items() if k in ('A', 'I', 'II', 'U', 'UU', 'E')}
    s.M = {k: v for k, v in s.M.items() if k in ('I', 'II', 'U', 'UU', 'E')}


EXTRA = [Script('Sharada', 'SHARADA'), Script('Newa', 'NEWA'), Script('Tirhuta', 'TIRHUTA'),
         Script('Siddham', 'SIDDHAM'), Script('Brahmi', 'BRAHMI'), Script('Grantha', 'GRANTHA', fix=_grantha),
         Script('Saurashtra', 'SAURASHTRA'), Script('Modi', 'MODI'), Script('Nandinagari', 'NANDINAGARI'),
         Script('Dogra', 'DOGRA'), Script('Takri', 'TAKRI', fix=_takri), Script('Khudawadi', 'KHUDAWADI'),
         Script('Kaithi', 'KAITHI'), Script('Bhaiksuki', 'BHAIKSUKI'), Script('Balinese', 'BALINESE', fix=_balinese),
         Script('Khmer', 'KHMER', fix=_khmer), Script('Burmese', 'MYANMAR', fix=_burmese),
         Script('Soyombo', 'SOYOMBO'), Script('Tagalog', 'TAGALOG')]
_sau = [s for s in EXTRA if s.name == 'Saurashtra'][0]
_sau.nopair = [(lambda a: a == 'क्', lambda b: b[:1] == 'ष')]      # joiner
BY = {s.name: s for s in MAIN + EXTRA}


def gem(a, b):
    """spelled with the gemination sign (addak)"""
    if a[-1:] != '्' or not b or b[0] not in _cl or a[0] not in _cl:
        return False
    if a[0] == b[0]:
        return True
    x, y = CONS.index(_INV[a[0]]), CONS.index(_INV[b[0]])
    return x < 25 and y == x + 1 and x % 5 in (0, 2)


_INV = {v: k for k, v in DEVA.C.items()}


def aksharas_of(a, b):
    """{akshara in script a: the same letters in script b}, over the letters both have"""
    d = DEVA
    t = {}
    cons = [k for k in d.C if k in a.C and k in b.C]
    vow = [k for k in d.V if k in a.V and k in b.V]
    mat = ['A'] + [k for k in d.M if k in a.M and k in b.M]
    sg = [k for k in d.S if k in a.S and k in b.S]
    drop = set(b.drop) | {'ओं', 'ओँ'}

    def add(key, x, y):
        if key not in drop:
            t[key] = (x, y)
    for s in [''] + sg:
        for c in cons:
            for v in mat:
                add(*[p.C[c] + (p.M[v] if v != 'A' else '') + (p.S[s] if s else '') for p in (d, a, b)])
        for v in vow:
            add(*[p.V[v] + (p.S[s] if s else '') for p in (d, a, b)])
    if a.virama and b.virama:
        for c in cons:
            add(*[p.C[c] + p.virama for p in (d, a, b)])
    return t


def mid(d, cons=None, signs=True):
    """A smaller set of aksharas in Devanagari: every consonant bare, dead, and with some vowel signs."""
    s = DEVA
    cons = list(s.C.values()) if cons is None else cons
    out = list(cons) + [c + s.virama for c in cons]
    for m in ('AA', 'I', 'VOCALIC R', 'E', 'AU'):
        out += [c + s.M[m] for c in cons]
    out += [s.V[v] for v in ('A', 'I', 'U', 'E')]
    if signs:
        out += [c + x for c in cons[::3] for x in s.S.values()]
    out += [' ']
    return [x for x in out if x in d]


STOPS = ['क', 'ग', 'च', 'ज', 'ट', 'ड', 'त', 'द', 'प', 'ब']

# the whole Devanagari alphabet the library knows (nukta letters, southern letters,
# vocalic l, short e and o, candra vowels), with digits, dandas and punctuation
FC = list(DEVA.C.values()) + [chr(x) for x in range(0x958, 0x960)] + ['\u0934', '\u0931', '\u0929']
FM = list(DEVA.M.values()) + ['\u0944', '\u0962', '\u0963', '\u0946', '\u094a', '\u0945', '\u0949']
FV = list(DEVA.V.values()) + ['\u0960', '\u090c', '\u0961', '\u090e', '\u0912', '\u090d', '\u0911']
FS = list(DEVA.S.values())
PUNCT = [' ', '\n', ',', '-', '(', ')', '"', "'", '?', '!', ';', ':', '/', '\t', '%']
DIGITS = [chr(0x966 + i) for i in range(10)]


GENERIC = [c + '\u093c' + x for c in 'घटमह' for x in ('', '्', 'ा', 'ि', 'ृ', 'ां')] + \
    [c + '\u093c' + x for c in 'ङचछझञठतथदधबव' for x in ('', '्', 'ि')]      # nukta on any letter


def full(signs=True, nodead=('\u0931',), sep=PUNCT + ['।', '॥', 'ऽ'] + DIGITS):
    ss = [''] + (FS if signs else [])
    out = [c + m + s for s in ss for m in [''] + FM for c in FC] + [v + s for s in ss for v in FV] + \
          [c + '्' for c in FC if c not in nodead] + GENERIC + list(sep)
    return [x for x in out if x not in ('ओं', 'ओँ')]


# fixed surroundings: none, word-internal, and a long text of several lines
LONG = ('धर्मक्षेत्रे "श्रीः" ।\n(राज्ञा) - १२ ', ' सञ्जय ॥ ३ ॥\n\nपाण्डुं च\n')

# ---- letters beyond the basic alphabet: nukta letters, southern letters, further vowels, signs
NUKTA = {'QA': 'KA', 'KHHA': 'KHA', 'GHHA': 'GA', 'ZA': 'JA', 'DDDHA': 'DDA', 'RHA': 'DDHA', 'FA': 'PHA', 'YYA': 'YA'}
_GEN = [c for c in CONS if c not in NUKTA.values() and c not in
        ('NA', 'RA', 'LA', 'LLA', 'SHA', 'SSA', 'SA', 'NNA')]      # letter + nukta sign, no letter of its own
_XV = ['VOCALIC RR', 'VOCALIC L', 'VOCALIC LL', 'SHORT E', 'SHORT O', 'CANDRA E', 'CANDRA O']
_XNAME = {('KANNADA', 'LLLA'): 'KANNADA LETTER FA',
          ('SINHALA', 'VOCALIC RR'): ('SINHALA LETTER IRUUYANNA', 'SINHALA VOWEL SIGN DIGA GAETTA-PILLA'),
          ('SINHALA', 'VOCALIC L'): ('SINHALA LETTER ILUYANNA', 'SINHALA VOWEL SIGN GAYANUKITTA'),
          ('SINHALA', 'VOCALIC LL'): ('SINHALA LETTER ILUUYANNA', 'SINHALA VOWEL SIGN DIGA GAYANUKITTA'),
          ('SINHALA', 'SHORT E'): ('SINHALA LETTER EYANNA', 'SINHALA VOWEL SIGN KOMBUVA'),
          ('SINHALA', 'SHORT O'): ('SINHALA LETTER OYANNA', 'SINHALA VOWEL SIGN KOMBUVA HAA AELA-PILLA')}
_OWN = {'TAKRI': {'DDDHA': 'TAKRI LETTER RRA', 'KHHA': None}, 'DOGRA': {'DDDHA': 'DOGRA LETTER RRA'},
        'KHUDAWADI': {'DDDHA': 'KHUDAWADI LETTER RRA'}, 'GURMUKHI': {'DDDHA': 'GURMUKHI LETTER RRA', 'RHA': None},
        'ORIYA': {'YYA': 'ORIYA LETTER YYA'}}


def _compose(block, s):
    """the precomposed letter of the block, canonically equal to s, if there is one"""
    for x in range(ord(s[0]) & ~0xff, (ord(s[0]) & ~0xff) + 0x100):
        if U.normalize('NFD', chr(x)) == s:
            return chr(x)
    return s


def _extend(s):
    B = s.block
    s.nukta = _lk(B + ' SIGN NUKTA')
    s.X, s.XV, s.XM = {}, {}, {}
    if s.nukta:
        for k, c in list(NUKTA.items()) + [(c + '+NUKTA', c) for c in _GEN]:
            if c in s.C:
                own = _OWN.get(B, {}).get(k, '')
                if own is None or (c, B) in (('BHA', 'BENGALI'), ('BA', 'KAITHI')):     # va there
                    continue
                s.X[k] = _lk(own) if own else _compose(B, s.C[c] + s.nukta)
    for k in ('LLLA', 'RRA', 'NNNA'):
        ch = _lk(_XNAME.get((B, k), '%s LETTER %s' % (B, k)))
        if ch and not (k == 'RRA' and s.nukta and B not in ('DEVANAGARI', 'TELUGU', 'KANNADA')):
            s.X[k] = ch
    for k in _XV:
        n = _XNAME.get((B, k))
        if n:
            v, m = map(_lk, n)
        else:
            kk = k[6:] if k.startswith('SHORT') and B in _LONG_EO and B != 'SAURASHTRA' else k
            v, m = _lk('%s LETTER %s' % (B, kk)), _lk('%s VOWEL SIGN %s' % (B, kk))
            if k.startswith('CANDRA') and B == 'GUJARATI':
                v = _lk('GUJARATI VOWEL ' + k)
        if v:
            s.XV[k] = v
        if m:
            s.XM[k] = m
    s.own_digits = s.D if s.name not in EURODIGITS else {}


# the library writes European digits and full stops in these scripts
EURODIGITS = {'Telugu', 'Malayalam', 'Gurmukhi', 'Tamil', 'Sinhala', 'Siddham'}
for _s in BY.values():
    _extend(_s)


def more_of(a, b):
    """{akshara in Devanagari: (in a, in b)} with the letters beyond the basic alphabet that both have"""
    d = DEVA
    t = {}
    P = (d, a, b)
    cons = [k for k in d.X if k in a.X and k in b.X]
    some = [k for k in ('KA', 'JA', 'TA', 'MA', 'RA', 'SA') if k in a.C and k in b.C]
    vow = [k for k in d.XV if k in a.XV and k in b.XV]
    mx = [k for k in d.XM if k in a.XM and k in b.XM]
    m = [k for k in ('AA', 'I', 'U', 'E', 'AI', 'AU') if k in a.M and k in b.M]
    sg = [k for k in d.S if k in a.S and k in b.S]
    for s in [''] + sg:
        ss = [p.S[s] if s else '' for p in P]
        for k in cons:
            for v in [''] + m + mx:
                x = [p.X[k] + (p.M[v] if v in p.M else p.XM[v] if v else '') + e for p, e in zip(P, ss)]
                t[x[0]] = tuple(x[1:])
        for k in some:
            for v in mx + ['', 'AA', 'I']:
                x = [p.C[k] + (p.M[v] if v in p.M else p.XM[v] if v else '') + e for p, e in zip(P, ss)]
                t[x[0]] = tuple(x[1:])
        for k in vow:
            x = [p.XV[k] + e for p, e in zip(P, ss)]
            t[x[0]] = tuple(x[1:])
    if a.virama and b.virama:
        for k in cons:
            if k != 'RRA':
                t[d.X[k] + d.virama] = (a.X[k] + a.virama, b.X[k] + b.virama)
        for k in some:
            t[d.C[k] + d.virama] = (a.C[k] + a.virama, b.C[k] + b.virama)
    if a.avagraha and b.avagraha:
        t[d.avagraha] = (a.avagraha, b.avagraha)
    for i in a.own_digits:
        if i in b.own_digits:
            t[d.D[i]] = (a.D[i], b.D[i])
    for x in ('ओं', 'ओँ') + tuple(b.drop):
        t.pop(x, None)
    return t
NUKTA_LETTERS = {DEVA.X[k]: DEVA.C[c] for k, c in NUKTA.items()}


def exclusions(d, p, rules):
    """boxes of the inputs in which some neighbours satisfy the predicates of a rule (p: n, pre, post as lists)"""
    pre, post, n = p['pre'], p['post'], p['n']
    at = len(pre)
    out = []
    ds = d if d and isinstance(d[0], list) else [d] * n
    for preds in rules:
        for i in range(at + n + len(post) - len(preds) + 1):
            box = {}
            for j, f in enumerate(preds):
                k = i + j - at
                if 0 <= k < n:
                    box[str(k)] = [x for x in ds[k] if f(x)]
                elif not f((pre if k < 0 else post)[i + j if k < 0 else k - n]):
                    break
            else:
                if box and all(box.values()):
                    out.append(box)
    return out
