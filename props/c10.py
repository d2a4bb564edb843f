"""Conversion between two scripts agrees with conversion by way of Devanagari: t(A, C, y) == t(D, C, t(A, D, y))."""
import ast
import glob
import os

from symx.harness import eq, REPO
import c07
import c08
import spec

BOUNDS = {
    'quick': 'each of 121 source scripts into 4 of 138 targets in turn (2 of the 14 in most use, 2 of the others), nativization on for every second pair, and the pairs of scripts that a condition of the code names; '
             'the text: what two symbols of Devanagari (33 x 320) become in the source script',
    'thorough': 'each source script into 35 targets, nativization on and off'}
ASSUMPTIONS = ['source texts are what Devanagari text becomes in the source script; how they are read back is the business of other properties',
               'left out, because the spelling itself is read in two ways: a vowel letter or avagraha after a consonant without vowel; in Latin and similar '
               'alphabets h after such a consonant, om, and for four romanizations and Shan a vowel letter in second place',
               'pairs with a convention of their own are left out (%s), and so are targets with their own punctuation (WX-kok, ShanLoCRomanLoC), RomanLoC and IPA']
BUDGET = {'quick': 700, 'thorough': 12000}
# sources: no romanization that depends on the script (RomanLoC), no reading of unpointed scripts
NO_SOURCE = 'RomanLoC RomanSemitic Latn Thaana HanifiRohingya OldPersian BengaliRaBa KhmerLoC BalineseSimpleRomanLoC JavaneseSimpleRomanLoC WX-kok'.split()
# targets: the same, and IPA, which has a transcription of its own for some source scripts
NO_TARGET = 'RomanLoC RomanSemitic Latn IPA Aksharaa WX-kok ShanLoCRomanLoC'.split()
INDEP = set(spec.FV)
LATINATE = 'RomanReadable RomanColloquial RomanKana Avestan RussianCyrillic Wancho IPA TolongSiki Santali WarangCiti SoraSompeng Mro'.split()
# two sounds written with one spelling when a vowel letter follows
HIATUS = 'KhmerLoCRomanLoC ThamLoCRomanLoC JavaneseRomanLoC Aksharaa Shan'.split()
# many paths: a smaller alphabet
SLOW = 'IPA RomanReadable RomanColloquial RomanKana Vatteluttu KhmerLoCRomanLoC ThamLoCRomanLoC'.split()
MAIN = 'Telugu Tamil Gurmukhi Burmese Thai Tibetan IAST ISO HK Itrans SLP1 Velthuis WX RussianCyrillic'.split()
A = [a for a in c07.SCRIPT if a != 'Devanagari' and a not in c07.NO_READER and a not in c08.SEM and a not in NO_SOURCE]
C = [c for c in c07.SCRIPT if c != 'Devanagari' and c not in c08.SEM and c not in NO_TARGET]
OTHER = [c for c in C if c not in MAIN]
# a convention for the pair: the conversion is meant to differ
PAIRS = {('Tamil', 'RomanReadable'), ('Tamil', 'RomanColloquial'), ('Oriya', 'RomanColloquial'), ('Assamese', 'BengaliRaBa'),
         ('BarahaNorth', 'Tamil'), ('BarahaSouth', 'Tamil')}
ASSUMPTIONS[2] %= ', '.join('%s to %s' % x for x in sorted(PAIRS))
# known findings: letters with two readings, of which the direct conversion takes another
FOUND = {'TaiLaing': 'Ahom MeeteiMayek Mon Mongolian Shan ShanLoC SoraSompeng Thaana Wancho'.split(),
         'Cham': ['Wancho', 'WarangCiti'], 'Lepcha': ['Wancho', 'WarangCiti', 'HanifiRohingya'], 'Marchen': ['Wancho', 'WarangCiti'],
         'Mahajani': ['HanifiRohingya']}


def latin(a):
    return 'LATIN' in c07.SCRIPT[a] or a in c07.ASCII or a in LATINATE


def pair(a, c):
    return c != a and (a, c) not in PAIRS and c not in FOUND.get(a, ()) and not (latin(a) and c == 'Mro')


def named():
    """pairs of scripts that a condition of the code singles out"""
    src, tgt = {'source', 'src', 'sc', 'sourceold', 'srcold', 'source_script'}, {'target', 'tgt', 'to_sc', 'tgtold', 'target_script'}
    res = set()

    def consts(n):
        return {c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}

    def tests(n):
        s, t = set(), set()
        for c in ast.walk(n):
            if isinstance(c, ast.Compare):
                names = {x.id.lower() for x in ast.walk(c) if isinstance(x, ast.Name)}
                if names & src:
                    s |= consts(c)
                if names & tgt:
                    t |= consts(c)
        return s, t

    def walk(n, s, t):
        if isinstance(n, ast.FunctionDef):
            s, t = set(), set()
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            s1, t1 = tests(n.test)
            for x in (s1 | s) if s1 or t1 else ():
                res.update((x, y) for y in t1 | t)
            walk(n.test, s, t)
            for b in n.body if isinstance(n.body, list) else [n.body]:
                walk(b, s | s1, t | t1)
            for b in n.orelse if isinstance(n.orelse, list) else [n.orelse]:
                walk(b, s, t)
            return
        if isinstance(n, (ast.BoolOp, ast.comprehension)):
            s1, t1 = tests(n)
            res.update((x, y) for x in s1 for y in t1)
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and all(isinstance(e, ast.Constant) for e in n.elts):
            res.add(tuple(e.value for e in n.elts))
        for c in ast.iter_child_nodes(n):
            walk(c, s, t)
    for f in sorted(glob.glob(os.path.join(REPO, 'aksharamukha', '*.py'))):
        try:
            walk(ast.parse(open(f, encoding='utf8').read()), set(), set())
        except SyntaxError:
            pass
    return {x for x in res if x[0] in A and x[1] in C}


def jobs(tier):
    out = []
    extra = named()
    for i, a in enumerate(A):
        if tier == 'quick':
            groups = [[(c, bool((i + j) % 2)) for j, c in enumerate([MAIN[(i + 5 * k) % len(MAIN)] for k in range(2)] + [OTHER[(i * 2 + k * 37) % len(OTHER)] for k in range(2)])]]
        else:
            every = [(c, n) for k, c in enumerate(C) if (k + i) % 4 == 0 for n in (False, True)]
            groups = [every[k:k + 14] for k in range(0, len(every), 14)]
        more = sorted(c for x, c in extra if x == a)
        if tier == 'quick':
            more = more[:6]
        groups += [[(c, n) for c in more[k:k + 7] for n in (False, True)] for k in range(0, len(more), 7)]
        for k, group in enumerate(groups):
            group = sorted({(c, n) for c, n in group if pair(a, c)})
            if not group:
                continue
            out.append({'name': '%s-%d' % (a, k), 'a': a, 'cs': group, 'weight': len(group) + 2})
        if a in FOUND:
            out.append({'name': '%s-known' % a, 'a': a, 'cs': [(c, n) for c in FOUND[a] for n in ((False, True) if tier != 'quick' else (False,))], 'weight': 3})
    return out


def domains(p):
    d, e = c07.domain({'d': 'core'})[::3], c07.domain({'d': 'mid'})
    if p['a'] in SLOW:
        d, e = d[::3], e[::4]
    if p['a'] == 'BalineseRomanLoC':       # its letter for a short o is not read
        d, e = [[x for x in y if x[-1] not in 'ॊऒ'] for y in (d, e)]
    return [d, e]


def nopair(a, c):
    """pairs of symbols outside the property"""
    n = [(lambda x: x.endswith('्'), lambda y: y in INDEP or y == 'ऽ')]
    if latin(a):      # stop + h is read as an aspirate; om is read as Om
        n += [(lambda x: x.endswith('्'), lambda y: y[0] == 'ह'), (lambda x: x == 'ओ', lambda y: y in ('म्', 'न्', 'ण्', 'ऩ्'))]
    if a in HIATUS:
        n += [(lambda x: True, lambda y: y in INDEP)]
    return n


def exclude(p):
    d, e = domains(p)
    out = []
    for f, g in nopair(p['a'], None):
        a, b = [x for x in d if f(x)], [y for y in e if g(y)]
        if a and b:
            out.append({'0': a, '1': b})
    return out


def run(p, api, ctx):
    a = p['a']
    y = api.t('Devanagari', a, ctx.template([0, 1]))
    d = api.t(a, 'Devanagari', y)
    return [eq('%s by way of Devanagari%s' % (c, ' (nativize)' if n else ''), api.t(a, c, y, nativize=n), api.t('Devanagari', c, d, nativize=n))
            for c, n in p['cs']]
