"""Romanization follows the published tables, in both directions."""
from symx.harness import eq
import spec
import roman

BOUNDS = {
    'quick': 'texts of two whole aksharas (about 1500 choices each) and of three from a set of about 250, for eight '
             'romanization schemes, both directions',
    'thorough': 'as quick with three whole aksharas in the direction Devanagari to roman',
}
ASSUMPTIONS = [
    'the tables in props/roman.py (written by hand from the published schemes) are the expected result',
    'well-formed text without the word om; no hiatus (vowel directly after a vowel) and no stop + h cluster, which the '
    'library marks with a separator; llr spelling lR excluded in HK; spelling collisions of Itrans (sh, zh, N^n, LLi, dny) and its ^oM excluded']
OM = ['ओं', 'ओँ']


def jobs(tier):
    out = []
    for r in roman.TAB:
        for d in ('to', 'from'):
            for i, (p, q) in enumerate([(('', ''), ('', '')), (('र ', ' म'), ('ra ', ' ma'))]):
                out.append({'name': '%s-%s-2-%d' % (d, r, i), 'r': r, 'dir': d, 'n': 2, 'd': 'full',
                            'ctx': [p[0], q[0], p[1], q[1]], 'weight': 30 + 20 * (d == 'from')})
            out.append({'name': '%s-%s-3m' % (d, r), 'r': r, 'dir': d, 'n': 3, 'd': 'mid', 'ctx': ['', '', '', ''],
                        'weight': 60})
            for i, (p, q) in enumerate([(('', ''), ('', '')), (('र', 'म'), ('ra', 'ma'))]):
                out.append({'name': '%s-%s-2x-%d' % (d, r, i), 'r': r, 'dir': d, 'n': 2, 'd': 'more',
                            'ctx': [p[0], q[0], p[1], q[1]], 'weight': 30})
            if tier == 'thorough' and d == 'to':
                out.append({'name': '%s-%s-3' % (d, r), 'r': r, 'dir': d, 'n': 3, 'd': 'full',
                            'ctx': ['', '', '', ''], 'weight': 60})
    return out


_memo = {}


def table(p):
    k = (p['r'], p['d'])
    if k not in _memo:
        t = [x for x in roman.pairs(p['r']) if x[0] not in OM]
        if p['r'] == 'HK':                  # lR is vocalic l
            t = [x for x in t if not x[0].startswith('लृ')]
        if p['d'] != 'full':
            m = set(spec.mid([x[0] for x in t]))
            t = [x for x in t if x[0] in m]
        if p['d'] == 'more':
            t += [x for x in roman.more(p['r']) if x[0] not in m]
        _memo[k] = t
    return _memo[k]


def domains(p):
    d = [x[0] for x in table(p)]
    return [d] * p['n']


def exclude(p):
    d = domains(p)[0]
    dead = [x for x in d if x.endswith('्')]
    iv = set(spec.FV)
    ind = [x for x in d if x[0] in iv]
    out = []

    def pair(first, second):
        if first and second:
            for k in range(p['n'] - 1):
                out.append({str(k): first, str(k + 1): second})
    pair([x for x in d if x != ' '], ind)
    pair([x + '्' for x in spec.STOPS], [x for x in d if x[0] == 'ह'])
    ha = [x for x in d if x[0] == 'ह']
    pair([x for x in (spec.DEVA.X[k] + '्' for k in ('DDDHA', 'QA', 'GHHA')) if x in d], ha)      # as stop + h
    if p['ctx'][0] and p['ctx'][0][-1] != ' ':
        out.append({'0': ind})
    if p['r'] == 'Itrans':                 # N^ is nga, ^oM may be read as ^ and om, zh is llla
        pair([x for x in d if x in ('ण्', 'ङ्') or x[-1] == 'ँ'], [x for x in d if x[0] == 'ऩ'])
        pair([x for x in d if x == spec.DEVA.X['GHHA'] + '्'], [x for x in d if x[0] == spec.DEVA.X['YYA']])       # GY
        om = [x for x in d if x[-2:] in ('ॊं', 'ऒं', 'ऒँ', 'ॊँ')]
        out += [{str(k): om} for k in range(p['n']) if om]
        pair([x for x in (spec.DEVA.X['ZA'] + '्',) if x in d], ha)
        pair([x for x in ('श्', 'स्') if x in d], [x for x in d if x[0] == 'ह'])
        pair(['ळ्'] if 'ळ्' in d else [], [x for x in d if x[:2] in ('ळि', 'ळी')])
        if p['n'] == 3:
            out.append({'0': ['द्'], '1': ['न्'], '2': [x for x in d if x[0] == 'य']})
    return out


def run(p, api, ctx):
    t = dict(table(p))
    pre, rpre, post, rpost = p['ctx']
    x = ctx.template([pre] + list(range(p['n'])) + [post])
    rom = rpre
    for k in range(p['n']):
        rom = rom + ctx.map(k, t)
    rom = rom + rpost
    if p['dir'] == 'to':
        return [eq('Devanagari to %s' % p['r'], api.t('Devanagari', p['r'], x), rom)]
    return [eq('%s to Devanagari' % p['r'], api.t(p['r'], 'Devanagari', rom), x)]
