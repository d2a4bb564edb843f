"""Published romanization tables (written by hand from the standards)."""
import spec

_C = 'k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v ś ṣ s h'.split()
_V = 'a ā i ī u ū ṛ e ai o au'.split()


def _mk(c, v, s, lla=None, ava=None, digits=True):
    C = dict(zip(spec.CONS, c))
    if lla:
        C['LLA'] = lla
    V = dict(zip(spec.VOW, v))
    S = dict(zip(('ANUSVARA', 'VISARGA', 'CANDRABINDU'), s))
    return {'C': C, 'V': V, 'S': S, 'ava': ava}


TAB = {
    'IAST': _mk(_C, _V, ['ṃ', 'ḥ', 'm̐'], None, "'"),
    'ISO': _mk(_C, 'a ā i ī u ū r̥ ē ai ō au'.split(), ['ṁ', 'ḥ', 'm̐'], 'ḷ', '’'),
    'HK': _mk('k kh g gh G c ch j jh J T Th D Dh N t th d dh n p ph b bh m y r l v z S s h'.split(),
              'a A i I u U R e ai o au'.split(), ['M', 'H', '~'], 'L', "'"),
    'SLP1': _mk('k K g G N c C j J Y w W q Q R t T d D n p P b B m y r l v S z s h'.split(),
                'a A i I u U f e E o O'.split(), ['M', 'H', '~'], 'L', "'"),
    'WX': _mk('k K g G f c C j J F t T d D N w W x X n p P b B m y r l v S R s h'.split(),
              'a A i I u U q e E o O'.split(), ['M', 'H', 'z'], 'lY', 'Z'),
    'Titus': _mk([x.replace('h', 'ʰ') if len(x) > 1 and x[-1] == 'h' else x for x in _C],
                 'a ā i ī u ū r̥ e ai o au'.split(), ['ṃ', 'ḥ', 'm̐'], 'ḷ', "'"),
    'Velthuis': _mk('k kh g gh "n c ch j jh ~n .t .th .d .dh .n t th d dh n p ph b bh m y r l v "s .s s h'.split(),
                    'a aa i ii u uu .r e ai o au'.split(), ['.m', '.h', '~m'], '..l', '.a'),
    'Itrans': _mk('k kh g gh ~N ch Ch j jh ~n T Th D Dh N t th d dh n p ph b bh m y r l v sh Sh s h'.split(),
                  'a A i I u U R^i e ai o au'.split(), ['M', 'H', '.N'], 'L', '.a'),
}
# letters beyond the basic alphabet
_XK = ['QA', 'KHHA', 'GHHA', 'ZA', 'DDDHA', 'RHA', 'FA', 'YYA', 'BHA+NUKTA', 'LLLA', 'RRA', 'NNNA']
_XV = ['VOCALIC RR', 'VOCALIC L', 'VOCALIC LL', 'SHORT E', 'SHORT O', 'CANDRA E', 'CANDRA O']
MORE = {
    'IAST': ('q k͟h ġ z r̤ r̤h f ẏ bh\u0308 ḻ ṟ ṉ', 'ṝ ḷ ḹ ĕ ŏ æ ô'),
    'ISO': ('q k͟h ġ z ṛ ṛh f ẏ bh\u0308 ḻ ṟ ṉ', 'r̥̄ l̥ l̥̄ e o æ ô'),
    'HK': ('q qh g2 z2 r3 r3h f Y bhQ Z r2 n2', 'RR lR lRR E O aE aO'),
    'SLP1': ('k0 K0 g0 j0 q0 Q0 P0 - - L0 r2 n2', 'F x X e1 o1 e2 o2'),
    'WX': ('kY KY GY zY dY DY PY yY BQ lYY rY nY', 'qV L LV eV oV aEV aOV'),
    'Titus': ('q k͟ʰ ġ z ṛ ṛʰ f ẏ bʰ\u0308 ḻ ṟ ṉ', 'r̥̄ l̥ l̥̄ ĕ ŏ æ ô'),
    'Velthuis': ('q _kh .g z ..r ..rh f .y bhQ _l _r _n', '.R .l .L E O aE aO'),
    'Itrans': ('q K G z .D .Dh f Y bhQ zh R ^n', 'R^I L^i L^I ^e ^o e.c A.c'),
}


def more(name):
    """(akshara in Devanagari, romanized) with the letters beyond the basic alphabet"""
    d = spec.DEVA
    t = TAB[name]
    xc, xv = [x.split() for x in MORE[name]]
    C = {k: (d.X[k], r) for k, r in zip(_XK, xc) if r != '-'}
    for k in ('KA', 'JA', 'TA', 'MA', 'RA', 'SA'):
        C[k] = (d.C[k], t['C'][k])
    V = dict(zip(_XV, xv))
    out = []
    for s in [''] + list(d.S):
        ds, rs = d.S.get(s, ''), t['S'].get(s, '')
        for c, r in C.values():
            out += [(c + d.XM[k] + ds, r + v + rs) for k, v in V.items()]
            out += [(c + d.M.get(k, '') + ds, r + t['V'][k] + rs) for k in ('A', 'AA', 'I', 'VOCALIC R', 'AI', 'AU')]
        out += [(d.XV[k] + ds, v + rs) for k, v in V.items()]
    out += [(c + d.virama, r) for k, (c, r) in C.items() if k != 'RRA']
    out.append((d.avagraha, t['ava'] or "'"))
    return out


def pairs(name, virama=True, lla=True):
    """(akshara in Devanagari, romanized) for every well-formed akshara"""
    d = spec.DEVA
    t = TAB[name]
    out = []
    for s in [''] + list(d.S):
        ss = d.S.get(s, '')
        rs = t['S'].get(s, '')
        for c in t['C']:
            if c in d.C:
                for v in t['V']:
                    m = '' if v == 'A' else d.M[v]
                    out.append((d.C[c] + m + ss, t['C'][c] + t['V'][v] + rs))
        for v in t['V']:
            out.append((d.V[v] + ss, t['V'][v] + rs))
    if virama:
        for c in t['C']:
            out.append((d.C[c] + d.virama, t['C'][c]))
    out.append((' ', ' '))
    return out
