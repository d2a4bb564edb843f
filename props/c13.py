"""Names: a script may be named by its identifier in any letter case, by its script code, by a language code, both, or the name of a language."""
from symx.harness import eq
import c07
import c08

BOUNDS = {
    'quick': 'every one of 178 scripts and 40 schemes by identifier; 80 script codes, 110 language codes, 45 pairs of language and script, 35 language names; '
             'each name in up to five letter cases (the name is symbolic; language names in two), as source and as target; texts of one symbol out of 12; option names in four letter cases',
    'thorough': 'texts of two symbols (12 x 49)'}
ASSUMPTIONS = ['codes shared by several orthographies are taken only where one is the customary one (Beng, Mymr, Arab; mr, ml, hi)',
               'the tables of codes are those of ISO 15924 and ISO 639, written down in the check']
BUDGET = {'quick': 500, 'thorough': 6000}
MAX_PATHS = 4000
CODES = dict(x.split(':') for x in """Ahom:Ahom Avst:Avestan Bali:Balinese Beng:Bengali Bhks:Bhaiksuki Bugi:Buginese Buhd:Buhid Cakm:Chakma Cham:Cham Deva:Devanagari Dogr:Dogra
 Gran:Grantha Gujr:Gujarati Gong:GunjalaGondi Guru:Gurmukhi Rohg:HanifiRohingya Hano:Hanunoo Hebr:Hebrew  Java:Javanese Kthi:Kaithi Knda:Kannada
 Kawi:Kawi Khar:Kharoshthi Khmr:Khmer Khoj:Khojki Sind:Khudawadi Lana:TaiTham Lepc:Lepcha Limb:Limbu Mahj:Mahajani Mlym:Malayalam Marc:Marchen
 Gonm:MasaramGondi Mtei:MeeteiMayek Modi:Modi Mong:Mongolian Mroo:Mro Mult:Multani Mymr:Burmese Nand:Nandinagari Newa:Newa Xpeo:OldPersian Orya:Oriya Phag:PhagsPa
 Rjng:Rejang Cyrl:RussianCyrillic Olck:Santali Saur:Saurashtra Arab:Arab Shrd:Sharada Sidd:Siddham Sinh:Sinhala Sora:SoraSompeng Soyo:Soyombo Sund:Sundanese
 Sylo:SylotiNagri Tglg:Tagalog Tagb:Tagbanwa Takr:Takri Taml:Tamil Telu:Telugu Thaa:Thaana Thai:Thai Tibt:Tibetan Tirh:Tirhuta Wcho:Wancho Wara:WarangCiti
 Zanb:ZanabazarSquare Ethi:Ethi Armi:Armi Phli:Phli Prti:Prti Mani:Mani Nbat:Nbat Sogo:Sogo Sarb:Sarb Phnx:Phnx Samr:Samr Syrj:Syrj Syrn:Syrn Ugar:Ugar Latn:ISO""".split())
LANGS = dict(x.split(':') for x in """hi:Devanagari hin:Devanagari mr:Devanagari mar:Devanagari te:Telugu tel:Telugu ta:Tamil tam:Tamil kn:Kannada kan:Kannada ml:Malayalam mal:Malayalam
 bn:Bengali ben:Bengali as:Assamese gu:Gujarati guj:Gujarati or:Oriya ori:Oriya ory:Oriya si:Sinhala sin:Sinhala sa:Devanagari san:Devanagari pi:Devanagari
 pli:Devanagari th:Thai tha:Thai lo:Lao lau:Lao km:Khmer khm:Khmer my:Burmese mya:Burmese bur:Burmese bo:Tibetan bod:Tibetan tib:Tibetan ur:Urdu urd:Urdu
 ar:Arab ara:Arab fa:Arab-Fa fas:Arab-Fa per:Arab-Fa he:Hebrew heb:Hebrew dv:Thaana div:Thaana ru:RussianCyrillic rus:RussianCyrillic jv:Javanese jav:Javanese
 ban:Balinese mnw:Mon shn:Shan kht:KhamtiShan tjl:TaiLaing khb:LueTham kkh:KhuenTham btx:BatakKaro bbc:BatakToba btd:BatakPakpak bts:BatakSima btm:BatakManda
 ae:Avestan ave:Avestan aho:Ahom bug:Buginese bku:Buhid ccp:Chakma cja:Cham cjm:Cham hnn:Hanunoo kaw:Kawi sd:Khudawadi snd:Khudawadi lep:Lepcha lif:Limbu
 mwr:Mahajani mni:MeeteiMayek mro:Mro skr:Multani new:Newa rej:Rejang sat:Santali saz:Saurashtra ks:Sharada kas:Sharada srb:SoraSompeng su:Sundanese
 sun:Sundanese syl:SylotiNagri tl:Tagalog tgl:Tagalog tbw:Tagbanwa mai:Tirhuta nnp:Wancho hoc:WarangCiti bho:Kaithi mag:Kaithi awa:Kaithi rhg:HanifiRohingya
 gez:Ethi sam:Samr uga:Ugar phn:Phnx en:ISO""".split())
# language and script, script codes
BOTH = dict(x.split(':') for x in """hi-Deva:Devanagari mr-Deva:Devanagari mr-Modi:Modi mar-Modi:Modi hin-Kthi:Kaithi as-Beng:Assamese bn-Beng:Bengali ben-Beng:Bengali my-Mymr:Burmese mya-Mymr:Burmese
 mnw-Mymr:Mon shn-Mymr:Shan kht-Mymr:KhamtiShan tjl-Mymr:TaiLaing btx-Batk:BatakKaro bbc-Batk:BatakToba btd-Batk:BatakPakpak bts-Batk:BatakSima btm-Batk:BatakManda
 khb-Lana:LueTham kkh-Lana:KhuenTham lo-Lana:LaoTham lo-Laoo:Lao lau-Laoo:Lao pi-Laoo:LaoPali pli-Laoo:LaoPali ur-Arab:Urdu urd-Arab:Urdu pa-Arab:Shahmukhi pan-Arab:Shahmukhi fa-Arab:Arab-Fa fas-Arab:Arab-Fa
 ar-Arab:Arab ara-Arab:Arab pa-Guru:Gurmukhi pan-Guru:Gurmukhi oty-Brah:TamilBrahmi ta-Taml:Tamil tam-Taml:Tamil te-Telu:Telugu tel-Telu:Telugu""".split())
# language codes with a script: languages written in many
SCRIPTED = dict(x.split(':') for x in """sa-Deva:Devanagari sa-Gran:Grantha sa-Telu:Telugu san-Sidd:Siddham pi-Thai:Thai pli-Sinh:Sinhala sa-Knda:Kannada sa-Shrd:Sharada
 pa-Guru:Gurmukhi pan-Guru:Gurmukhi mr-Modi:Modi mar-Modi:Modi hin-Kthi:Kaithi ur-Arab:Urdu as-Beng:Assamese""".split())
NAMES = dict(x.split(':') for x in """Hindi:Devanagari Marathi:Devanagari Telugu:Telugu Tamil:Tamil Kannada:Kannada Malayalam:Malayalam Bengali:Bengali Assamese:Assamese Gujarati:Gujarati
 Sinhala:Sinhala Sanskrit:Devanagari Pali:Devanagari Thai:Thai Lao:Lao Khmer:Khmer Burmese:Burmese Tibetan:Tibetan Urdu:Urdu Arabic:Arab Persian:Arab-Fa Hebrew:Hebrew
 Russian:RussianCyrillic Javanese:Javanese Balinese:Balinese Mon:Mon Shan:Shan English:ISO Buginese:Buginese Maithili:Tirhuta Newari:Newa Santali:Santali""".split())
LATIN = {'ISO'}


def cases(n):
    return sorted({n, n.lower(), n.upper(), n.swapcase(), n.title()})


def jobs(tier):
    out = []

    def add(kind, param, table):
        items = sorted(table.items())
        for k in range(0, len(items), 6):
            out.append({'name': '%s-%s' % (kind, items[k][0]), 'kind': kind, 'param': param, 'items': items[k:k + 6], 'tier': tier, 'weight': 2})
    add('identifier', 'default', {s: s for s in c07.SCRIPT if s != 'Type'})
    add('script', 'script_code', CODES)
    add('language', 'lang_code', LANGS)
    add('both', 'script_code', BOTH)
    add('scripted', 'lang_code', SCRIPTED)
    add('name', 'lang_name', NAMES)
    out.append({'name': 'options', 'kind': 'options', 'tier': tier, 'weight': 1})
    return out


# source, target, pre-option, post-option
OPTIONS = [('Tamil', 'IAST', 'TamilTranscribe', 'RemoveDiacritics'), ('Thai', 'Tamil', 'ThaiOrthography', 'TamilSubScript'),
           ('Bengali', 'Thai', 'SchwaFinalBengali', 'ThaiTranscription'), ('Malayalam', 'Telugu', 'MalayalamTranscribe', 'indicDandas')]
FEW = ['क', 'ति', 'न्', 'ह', 'अ', '१', '।', 'ॐ', 'झ', 'शं', 'षाः', ' ']
OTHER = {'default': 'Devanagari', 'script_code': 'Deva', 'lang_code': 'hi', 'lang_name': 'Hindi'}


def domains(p):
    d = [FEW, FEW if p['tier'] == 'quick' else [x for x in c07.domain({'d': 'core'}) if x != '\n'][::2]]
    if p['kind'] == 'options':
        return d + [cases(o[k]) for o in OPTIONS for k in (2, 3)]
    return d + ([cases(n) for n, s in p['items']] if p['param'] != 'lang_name' else [])


def run(p, api, ctx):
    text = ctx.template([0, 1] if p['tier'] != 'quick' else ['क', 0])
    out = []
    if p['kind'] == 'options':
        for k, (a, c, pre, post) in enumerate(OPTIONS):
            y = api.t('Devanagari', a, text)
            out.append(eq('options %s %s' % (pre, post), api.t(a, c, y, pre=[ctx.var(2 + 2 * k)], post=[ctx.var(3 + 2 * k)]), api.t(a, c, y, pre=[pre], post=[post])))
            out.append(eq('unknown options, ' + c, api.t(a, c, y, post=['NoSuchOption'], pre=['NoSuchOption']), api.t(a, c, y)))
        return out
    o = OTHER[p['param']]
    for k, (n, s) in enumerate(p['items']):
        y = api.t('Devanagari', s, text)
        z = api.t(s, 'Devanagari', y)
        for name in [ctx.var(2 + k)] if p['param'] != 'lang_name' else sorted({n, n.lower()}):
            out.append(eq('to %s (%s)' % (n, p['kind']), api.t(o, name, text, param=p['param']), y))
            out.append(eq('from %s (%s)' % (n, p['kind']), api.t(name, o, y, param=p['param']), z))
    return out
