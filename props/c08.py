"""Words are converted independently: t(a + separator + b) == t(a) + t(separator) + t(b)."""
from symx.harness import eq
import spec
import c07

SEPS = [' ', '\n', ', ', ' । ', '. ', '\t', '  ']
READ_SEPS = [' ', '\n', ', ', '\t', '  ', ' - ']   # a full stop after a danda is a double danda in many scripts
BOUNDS = {
    'quick': 'two words (in one family of jobs three) with a separator between, one of %d (space, two spaces, tab, newline, comma, full stop or '
             'danda with space): Devanagari into each of %d targets, nativization on and off, the words one symbol out of 320 (65-80 for the '
             'Semitic scripts) after or before a plain consonant, or a fixed word and two symbols; and reading into Devanagari '
             'what that gives in every target that is read back' % (len(SEPS), len(c07.SCRIPT)),
    'thorough': 'the same with four forms of the two words, all Semitic symbols, and reading with nativization on too'}
ASSUMPTIONS = ['a full stop directly after a danda counts as part of a double danda, so when a script is read no full stop is used as separator',
               'Hebr (Hebrew with all points) is checked for words of one symbol; longer words meet the recorded finding']
SLOW = c07.SLOW


# what the two words consist of: indices are variables, strings are fixed
SHAPES = {
    'ends': ([0], [1]),
    'inner': (['क', 0], [1, 'त']),
    'first': ([0, 1], ['कि']),
    'last': (['मं'], [0, 1]),
    'hebr': (['क', 0], [1]),
}


# the Semitic scripts split into many paths: a smaller alphabet
SEM = ('Syre Syrn Syrj Arab Arab-Pa Arab-Fa Arab-Ur Type Hebr Hebr-Ar Thaa Ethi Brah Nbat Sogo Mani Prti Sarb Sogd Samr Egyp Grek Palm '
       'Phlp Phli Ugar Chrs Armi Hatr Phnx Narb Elym').split()


def shapes(t, nat, tier):
    if t == 'Hebr':   # in the other shapes the known finding (final mem) is all over the place
        return ['ends', 'hebr'] if nat or tier != 'quick' else []
    if tier == 'quick':
        return ['last'] if not nat and t == 'Tamil' else ['inner'] if nat and t in SEM or t == 'Tamil' else [] if t in SEM else \
            ['inner', 'last'] if nat else ['inner']
    return [x for x in SHAPES if x != 'hebr']


def jobs(tier):
    out = []
    for t in c07.SCRIPT:
        for nat in (False, True):
            for sh in shapes(t, nat, tier):
                out.append({'name': 'Devanagari-%s-%s-%s' % (t, 'nat' if nat else 'raw', sh), 's': 'Devanagari', 't': t,
                            'nat': nat, 'shape': sh, 'd': 'mid', 'thin': 5 if t in SLOW else 4 if t in SEM and tier == 'quick' else 1,
                            'weight': 6 if t in SEM else SLOW.get(t, 3)})
        if t != 'Devanagari' and t not in c07.NO_READER and t not in SEM:
            for nat in (False, True) if tier != 'quick' else (False,):
                out.append({'name': '%s-Devanagari-%s-inner' % (t, 'nat' if nat else 'raw'), 's': t, 't': 'Devanagari',
                            'nat': nat, 'shape': 'inner', 'd': 'core' if tier == 'quick' else 'mid', 'thin': 5 if t in SLOW else 1,
                            'weight': SLOW.get(t, 3)})
    return out


def word(p):
    d = [x for x in c07.domain(p) if x.strip() and x not in ',-']
    return d[::p['thin']]


def domains(p):
    return [word(p)] * 2 + [SEPS if p['s'] == 'Devanagari' else READ_SEPS]


def run(p, api, ctx):
    a, b = [ctx.template(x) for x in SHAPES[p['shape']]]
    s = ctx.template([2])
    if p['s'] != 'Devanagari':
        a, b, s = [api.t('Devanagari', p['s'], y) for y in (a, b, s)]
    f = lambda y: api.t(p['s'], p['t'], y, nativize=p['nat'])
    if p['t'] in SEM or p['s'] == 'Devanagari' and p['shape'] != 'last':   # two words only
        return [eq('words apart', f(a + s + b), f(a) + f(s) + f(b))]
    c0 = ctx.lift('मि')
    if p['s'] != 'Devanagari':
        c0 = api.t('Devanagari', p['s'], c0)
    z = f(s)
    return [eq('words apart', f(a + s + b + s + c0), f(a) + z + f(b) + z + f(c0))]
