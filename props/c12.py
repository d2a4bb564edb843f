"""Autodetection: a text of a script that can be told by its letters is converted as when the script is named."""
from symx.harness import eq
import c07
import c08

BOUNDS = {
    'quick': 'texts in 99 scripts: a word of three letters, or symbols that tell the script, then two symbols of Devanagari put into the script (7 x 80, Semitic 7 x 40), a '
             'space, a comma and ASCII digits, into one target; 2 x 11 symbols into two more of six targets named in four ways; six spellings of Thai and Lao; two of 14 characters that are no letters',
    'thorough': '33 x 320 symbols into three targets, and all six targets'}
ASSUMPTIONS = ['scripts that share their letters with another (variants of Devanagari, Tai Tham, Batak, Thai, Lao, Arabic) are not told apart by their letters; '
               'neither are Latin schemes, which are outside']
BUDGET = {'quick': 400, 'thorough': 6000}
MAX_PATHS = 4000
# written in the letters of another script, or in Latin
SAME = set("""TibetanLoC GurmukhiLoC LimbuLoC ThamLoC KhmerLoC ShanLoC BengaliRaBa Shahmukhi Pallava LaoTham LueTham KhuenTham TamilExtended KhomThai Ranjana
 GranthaGrantamil Lao2 SiddhamDevanagari GranthaPandya Vatteluttu TamilBrahmi TamilGrantha BatakPakpak BatakSima BatakToba BatakManda Ariyaka
 KhamtiShan TaiLaing Arab Arab-Fa Urdu Arab-Pa Thaa Arab-Ur Type Hebr-Ar Hebr Brah""".split())
LATIN = [a for a in c07.SCRIPT if 'LATIN' in c07.SCRIPT[a] or a in c07.ASCII] + 'IPA Aksharaa TolongSiki Latn'.split()
# what tells the script from another with the same letters
MARK = {'Assamese': ['र', 'वि', 'र्ग'], 'LaoPali': ['घि', 'छ', 'झु', 'ञ', 'ट', 'ठे', 'ड', 'ढो', 'ण', 'ध', 'भी', 'श', 'ष', 'ळ', 'क्क'], 'Mon': ['ङ', 'झ']}
A = [a for a in c07.SCRIPT if a not in SAME and a not in LATIN]


SAJJHAYA, WITHA, PHONETIC = ['धम्मि', 'धन्', 'भुत्तो'], ['धम्म ', 'धन् घ '], ['ध', 'धम्मि', 'धं', 'घ']
# ways of writing a script that are told by their signs: how to write, how to read, words that show it
STYLES = [('Thai', 'ThaiSajjhayaOrthography', 'ThaiSajjhayaOrthography', SAJJHAYA), ('Thai', 'ThaiSajjhayawithA', 'ThaiSajjhayawithA', WITHA),
          ('Thai', 'ThaiTranscription', 'ThaiOrthography', PHONETIC), ('LaoPali', 'LaoTranscription', 'LaoTranscription', PHONETIC),
          ('LaoPali', 'LaoSajjhaya', 'LaoSajhayaOrthography', SAJJHAYA), ('LaoPali', 'LaoSajjhayawithA', 'LaoSajhayaOrthographywithA', WITHA)]
BLANK = ['', ' ', '\n', '\t', ',', '12', '7', '.', '(', '…', '?', '\u200b', '-', '%']
TARGETS = [('IAST', 'default', 'IAST', False), ('Malayalam', 'default', 'Malayalam', True), ('Hebrew', 'default', 'Hebrew', True),
           ('Telugu', 'script_code', 'Telu', True), ('Telugu', 'lang_code', 'te', False), ('Telugu', 'lang_name', 'Telugu', False)]


def jobs(tier):
    """every target with few texts, two of them with many"""
    out = []
    for i, a in enumerate(A):
        out.append({'name': a + '-targets', 'a': a, 'd': 'few', 'c': [0, 1, 2, 3, 4, 5] if tier != 'quick' else [i % 3, 3 + i % 3], 'weight': 1})
        out.append({'name': a + '-texts', 'a': a, 'd': 'most' if tier == 'quick' else 'all', 'c': [i % 2] if tier == 'quick' else [0, 1, 2], 'weight': 3})
    for i, (a, post, pre, words) in enumerate(STYLES):
        out.append({'name': '%s-%s' % (a, post), 'a': a, 'post': post, 'pre': pre, 'words': words, 'd': 'most' if tier == 'quick' else 'all', 'c': [i % 6] if tier == 'quick' else [0, 1, 2, 3], 'weight': 3})
    out.append({'name': 'blank', 'd': 'blank', 'a': '', 'weight': 1})
    return out


def a_short(p):
    return 'post' in p or p['a'] in ('Thai', 'Lao', 'LaoPali')


def told(p):
    return p.get('words') or MARK.get(p['a'])


def domains(p):
    if p['d'] == 'blank':
        return [BLANK, BLANK]
    d, e = [x for x in c07.domain({'d': 'core'}) if x != '\n'], c07.domain({'d': 'mid'})
    if a_short(p):     # short vowels are written with the sign of a
        d, e = [[x for x in y if not set(x) & set('ऎऒऍऑॆॊॅॉ')] for y in (d, e)]
    few = ['क', 'ति', 'न्', 'ह', 'अ', '१', '।', 'ॐ', 'झ', 'ं', 'ां']
    if told(p):
        return [told(p), few if p['d'] == 'few' else e[::4] if p['d'] == 'most' else e]
    if p['d'] == 'few':
        return [['क', 'अ'], few]
    if p['d'] == 'most':
        return [[x for x in few[:7] if x[0] not in 'ंा'], e[::8 if p['a'] in c08.SEM else 4]]
    return [d[::3], e]


def run(p, api, ctx):
    a = p['a']
    out = []
    if p['d'] == 'blank':
        x = ctx.template([0, 1])
        return [eq('no letters, to ' + c, api.t('autodetect', name, x, nativize=n, param=param), x) for c, param, name, n in TARGETS]
    post = [p['post']] if 'post' in p else []
    # the first symbol tells the script or the style, or there are some letters first to make up for borrowed digits
    if told(p):
        first = [0, ' ']
        second = [1]
    else:
        first, second = ['कलक '], [0, 1]
    y = api.t('Devanagari', a, ctx.template(first), post=post) + api.t('Devanagari', a, ctx.template(second), post=post) + ', 12'
    pre = [p['pre']] if post else []
    for k in p['c']:
        c, param, name, n = TARGETS[k]
        out.append(eq('autodetected to %s (%s)' % (c, param), api.t('autodetect', name, y, nativize=n, param=param), api.t(a, c, y, nativize=n, pre=pre)))
    return out
