"""A conversion depends on its arguments alone: not on what was converted before, and it leaves the caller's option lists as they were."""
from symx.harness import eq, true
import c07
import c08

LOC = ('Burmese Shan Khmer KhuenTham TaiTham LaoTham LueTham Kannada Tamil Malayalam Sinhala Telugu Oriya Assamese Bengali Gujarati '
       'Balinese Javanese BatakKaro BatakToba Gurmukhi Tibetan Limbu').split()
SCRIPTS = [s for s in c07.SCRIPT if s not in ('Devanagari', 'RomanLoC', 'Latn', 'Type') and s not in c07.NO_READER and s not in c08.SEM]
SLOW = 'IPA RomanReadable Vatteluttu RomanColloquial RomanKana'.split()
ROMAN = 'IAST ISO HK Itrans SLP1 Velthuis WX Titus'.split()
SEMITIC = 'Urdu Hebrew Arab Syrn Thaana Arab-Fa Hebr Ethi'.split()
# option functions for one script: into it, and out of it
POST = """AhomClosed BalineseArchaicJNA BalineseAvowels BengaliConjunctVB BengaliIntervocalicDDA BengaliOldRA BengaliSwitchYaYYa BengaliYYA
 BhaiksukiRetainSpace ChakmaAVowels ChakmaEnableAllConjuncts ChakmaPali ChakmaVowelsIndependent DivesAkuruAlternateIndVowels DivesAkuruHomoOrganNasal
 DograShaKha GranthaOldau GranthaPrakrit GurmukhiCandrabindu GurmukhiTippiBindu GurmukhiTippiGemination JavaneseArchaicJNA JavaneseAvowels
 KaithiRetainSpace KannadaNakaraPollu KannadaNotRepha KannadaSpacingCandrabindu KawiAltAiAU KawiArchaicJNA KawiDecomposedVowel
 KhojkiQa KhojkiRRI KhojkiRetainSpace LaoPhonetic LaoTranscription LimbuDevanagariConvention LimbuSpellingSaI LimburemoveHistorical
 MalayalamAnusvaraNasal MalayalamNTA MalayalamPrakrit MalayalamTTNTA MalayalamremoveHistorical MarchenSanskritPalatals MeeteiMayekremoveHistorical
 ModiRemoveLong MultaniAbjad NewaDisableRepha NewaMurmurConsonants NewaSpecialTa OriyaVa OriyaVaAlt OriyaYYA PhagsPaTib
 RetainGujaratiDanda RetainGurmukhiNumerals SaurashtraHaru SinhalaChandrbinduAnusvara SinhalaConjuncts SinhalaDefaultConjuncts SoyomboFinals
 SoyomboInitials SoyomboSpaceTscheg SundaneseRemoveHistoric TaiThamHighNga TakriArchaicKha TakriRemoveGemination TamilAddFirstVarga
 TamilDisableSHA TamilNaToNNa TamilOmDisable TamilRemoveApostrophe TamilRemoveNumbers TamilSubScript TamilExtendedAnusvara TamilpredictDentaNa
 TeluguArasunnaChandrabindu TeluguNakaraPollu TeluguRemoveAeAo TeluguRemoveNukta TeluguReph TeluguTamilRra TeluguTamilZha
 ThaiNativeConsonants ThaiVisargaSaraA TibetanNada TibetanRemoveBa TibetanRemoveVirama TibetanSyllabize TibetanTsheg ZanabazarSquareAiAu""".split()
PRE = """BengaliSubojinedVa BengaliSwitchYaYYa BengaliTargetVa ChakmaPali GranthaPrakrit LaoPhonetic LaoSajhayaOrthography LaoTranscription
 LimbuDevanagariConvention LimbuSpellingSaI MalayalamHalfu MalayalamPrakrit MalayalamTranscribe OriyaTargetVa SinhalaPali
 TakriArchaicKha TamilNumeralSub TamilTranscribe TamilTranscribeDialect ThaiOrthography ThaiPhonetic SchwaFinalBengali SchwaFinalGujarati""".split()
BOUNDS = {
    'quick': 'a history of 14 conversions around one script (to and from Devanagari, a romanization, two other Indic scripts and a Semitic one, '
             'itself, its Library of Congress romanization, with options, with names given as codes; nativization on and off), for 33 scripts; '
             'run forwards, then once more, and backwards in freshly loaded modules; the texts: two symbols of Devanagari (3 x 18) put into the source script',
    'thorough': 'the same for every script, three choices of the partners, and 25 x 98 symbols'}
ASSUMPTIONS = ['two orders of the same conversions, each from freshly loaded modules, and a repetition: every conversion is met before and after every other',
               'one process and one thread; what another process does to shared files is not covered']
BUDGET = {'quick': 400, 'thorough': 6000}
MAX_PATHS = 4000


def jobs(tier):
    out = []
    for i, s in enumerate(SCRIPTS):
        rounds = (0, 1, 2) if tier != 'quick' else (0,) if s in LOC or i % 12 == 0 else ()
        if tier == 'quick' and s in SLOW:
            continue
        for r in rounds:
            j = i * 3 + r
            p = {'name': '%s-%d' % (s, r), 's': s, 'i': SCRIPTS[(i + 7 + 31 * r) % len(SCRIPTS)], 'j': SCRIPTS[(i + 50 + 17 * r) % len(SCRIPTS)],
                 'r': ROMAN[j % len(ROMAN)], 'x': SEMITIC[j % len(SEMITIC)], 'loc': LOC[j % len(LOC)], 'thin': 8 if tier == 'quick' else 1, 'weight': 3 if s in LOC else 2}
            p['post'] = [o for o in POST if s in o][r::3][:3] + ['RemoveDiacritics', 'indicNumerals']
            p['pre'] = [o for o in PRE if s in o][r::2][:2] + ['RemoveJoiners']
            if s in LOC:
                p['loc'] = s
            for k in 'ij':
                if p[k] in SLOW or p[k] == s:
                    p[k] = 'Telugu' if s != 'Telugu' else 'Malayalam'
            out.append(p)
    return out


def domains(p):
    d = [x for x in c07.domain({'d': 'core'}) if x != '\n']
    more = ['१', '।', 'ॐ', 'ꣳ', 'ळ', 'क़']
    if p['thin'] == 1:
        return [d[::3], [x for x in d if x not in more] + more]
    return [['क', 'ति', 'न्'], [x for x in d[1::p['thin']] if x not in more] + more]


def steps(p):
    """the conversions: source, target, nativize, post, pre, param"""
    s, i, j, r, x, loc = (p[k] for k in ('s', 'i', 'j', 'r', 'x', 'loc'))
    no = ([], [])
    return [(s, 'Devanagari', False, no, 'default'),
            ('Devanagari', s, True, no, 'default'),
            (s, r, False, ([], p['pre']), 'default'),
            (r, s, True, no, 'default'),
            (loc, 'RomanLoC', True, no, 'default'),
            (s, i, True, no, 'default'),
            (j, s, False, no, 'default'),
            (s, r, False, no, 'default'),
            (s, s, False, no, 'default'),
            (loc, 'RomanLoC', True, (['RemoveDiacritics'], ['RemoveJoiners']), 'default'),
            ('Devanagari', x, True, no, 'default'),
            ('Deva', 'Telu', False, (['indicDandas'], []), 'script_code'),
            ('Devanagari', s, False, (p['post'], []), 'default'),
            ('Devanagari', s, False, no, 'default')]


def run(p, api, ctx):
    x = ctx.template([0, 1])
    L = steps(p)
    a = api.fresh()
    texts = [x if s[0] in ('Devanagari', 'Deva') else a.t('Devanagari', s[0], x) for s in L]
    given = [(list(st[3][0]), list(st[3][1])) for st in L]     # the caller's own lists, the same objects every time

    def go(a, k):
        s, t, n, o, param = L[k]
        opts = {}
        if o[0]:
            opts['post_options'] = given[k][0]
        if o[1]:
            opts['pre_options'] = given[k][1]
        return a.transliterate.process(s, t, texts[k], nativize=n, param=param, **opts)

    def passes(order, times):
        a = api.fresh()
        return [{k: go(a, k) for k in order} for _ in range(times)]
    order = list(range(len(L)))
    first, second = passes(order, 2)
    back, = passes(order[::-1], 1)
    out = []
    for k in order:
        w = '%s to %s' % L[k][:2]
        out += [eq(w + ' repeated', first[k], second[k]), eq(w + ' after other conversions', back[k], first[k])]
    return out + [true('the caller\'s options', all(list(g) == list(st[3]) for g, st in zip(given, L)))]
