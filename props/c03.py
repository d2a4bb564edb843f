"""Every letter is written with the letter of the same name in the other script."""
from symx.harness import eq
import spec

MAIN = [s.name for s in spec.MAIN]
EXTRA = ['Sharada', 'Newa', 'Tirhuta', 'Siddham', 'Brahmi', 'Grantha', 'Saurashtra', 'Modi', 'Nandinagari', 'Dogra', 'Takri',
         'Khudawadi', 'Kaithi', 'Bhaiksuki']
NOSPACE = {'Kaithi', 'Bhaiksuki'}

BOUNDS = {
    'quick': 'texts of two whole aksharas (every consonant both scripts have, with every vowel sign and nasal or breath '
             'sign both have; dead consonants; independent vowels; space) in fixed contexts, all ordered pairs of the '
             'eleven main scripts, Devanagari with fourteen more scripts both ways; three aksharas from a set of about '
             '250 for the pairs with Devanagari',
    'thorough': 'as quick, three free whole aksharas for the pairs with Devanagari, all ordered pairs of 25 scripts',
}
ASSUMPTIONS = [
    'expected letters by Unicode character name (props/spec.py), with the conventions listed there',
    'well-formed text: no virama directly before an independent vowel; the word om excluded',
    'places where a script has a spelling of its own are outside the claim: Gurmukhi geminates, khanda ta and '
    'consonant+ba in Bengali/Assamese, word-final chillu letters in Malayalam, Sinhala joiner conjuncts, Tamil s+rii',
    'the word separators of Kaithi and Bhaiksuki are outside the claim']


def jobs(tier):
    out = []

    def add(a, b, n, d, pre='', post='', w=1, tag=''):
        out.append({'name': '%s-%s-%d%s%s' % (a, b, n, d, tag), 'a': a, 'b': b, 'n': n, 'd': d, 'pre': pre, 'post': post,
                    'weight': w})
    for x in MAIN[1:] + EXTRA:
        for a, b in (('Devanagari', x), (x, 'Devanagari')):
            for i, (p, q) in enumerate([('', ''), ('KA', 'KA'), ('MA ', ' NA')]):
                if not (x in NOSPACE and i == 2):
                    add(a, b, 2, 'full', p, q, 10, '-%d' % i)
            add(a, b, 3, 'mid', '', '', 20)
            add(a, b, 2, 'more', '', '', 20)
            add(a, b, 2, 'more', 'KA', 'MA', 20, '-1')
            if tier == 'thorough':
                add(a, b, 3, 'full', '', '', 50)
    names = MAIN[1:] + (EXTRA if tier == 'thorough' else [])
    for x in names:
        for y in names:
            if x != y:
                add(x, y, 2, 'full')
                add(x, y, 2, 'more', '', '', 5)
    return out


_memo = {}


def table(p):
    k = (p['a'], p['b'], p['d'])
    if k not in _memo:
        t = dict(spec.aksharas_of(spec.BY[p['a']], spec.BY[p['b']]))
        if not NOSPACE & {p['a'], p['b']}:
            t[' '] = (' ', ' ')
        if p['d'] in ('mid', 'more'):
            m = set(spec.mid(list(t)))
            t = {x: v for x, v in t.items() if x in m}
        if p['d'] == 'more':
            t.update(spec.more_of(spec.BY[p['a']], spec.BY[p['b']]))
        _memo[k] = t
    return _memo[k]


def domains(p):
    return [list(table(p))] * p['n']


def fixed(p, which):
    """Devanagari, a and b spelling of the fixed context (phoneme names, spaces)"""
    out = ['', '', '']
    for part in p[which].replace(' ', '| |').split('|'):
        if part:
            for i, s in enumerate((spec.DEVA, spec.BY[p['a']], spec.BY[p['b']])):
                out[i] += part if part == ' ' else s.C[part]
    return out


def exclude(p):
    d = domains(p)[0]
    n = p['n']
    pre, post = fixed(p, 'pre')[0], fixed(p, 'post')[0]
    dead = [x for x in d if x.endswith('्')]
    iv = set(spec.DEVA.V.values())
    ind = [x for x in d if x[0] in iv]
    out = []
    preds = [(lambda x: x.endswith('्'), lambda y: y[:1] in iv)]
    if 'Gurmukhi' in (p['a'], p['b']):     # rha is rra + ha there
        preds.append((lambda x: x in ('\u095c्', 'ड़्'), lambda y: y[:1] == 'ह'))
    if p['b'] == 'Malayalam':
        preds.append((lambda x: x == 'ऩ्', lambda y: True))
    if p['a'] == 'Tamil':
        preds += spec.TAML.nopair
    for s in (spec.BY[p['b']],):
        preds += s.nopair
        if getattr(s, 'geminate', False):
            preds.append(None)
    for f in preds:
        if f is None:                      # Gurmukhi geminates
            groups = {}
            nk = [x for x in dead if len(x) == 3 or x[0] in spec.NUKTA_LETTERS]
            dead = [x for x in dead if x not in nk]
            for x in nk:
                groups[tuple(y for y in d if y[0] in (x[0], spec.NUKTA_LETTERS.get(x[0])))] = [x]
            for x in dead:
                ys = tuple(y for y in d if spec.gem(x, y))
                groups.setdefault(ys, []).append(x)
            dead += nk
            pairs = [(xs, list(ys)) for ys, xs in groups.items()]
            last = [x for x in d if post and spec.gem(x, post)]
            first = []
        else:
            a, b = f
            pairs = [([x for x in d if a(x)], [y for y in d if b(y)])]
            last = [x for x in d if a(x) and b(post[:1])]
            first = []
        for xs, ys in pairs:
            if xs and ys:
                for k in range(n - 1):
                    out.append({str(k): xs, str(k + 1): ys})
        if last:
            out.append({str(n - 1): last})
    return out


def run(p, api, ctx):
    t = table(p)
    _, apre, bpre = fixed(p, 'pre')
    _, apost, bpost = fixed(p, 'post')
    x, y = apre, bpre
    for k in range(p['n']):
        x = x + ctx.map(k, {d: v[0] for d, v in t.items()})
        y = y + ctx.map(k, {d: v[1] for d, v in t.items()})
    x, y = x + apost, y + bpost
    z = api.t(p['a'], p['b'], x)
    if p['d'] == 'more':                   # joiners after a virama, before a nukta, are not letters
        z = z.replace('\u200c', '')
    return [eq('%s to %s' % (p['a'], p['b']), z, y)]
