"""Symbolic strings as guarded unions over finite-domain symbolic variables.

A run has a fixed tuple of symbolic variables; variable k ranges over the
indices of a list of strings (its domain).  A *box* is a product of subsets,
one bit mask per variable.  A symbolic string is a set of entries with
disjoint boxes; inside one entry the string is a sequence of cells, and a cell
is a function of ONE variable to strings, kept as {string: mask of the values
that give it}.  All operations are exact; when an operation behaves
differently on two parts of a box the box is split, and boxes that differ in
one variable only are merged again.  Nothing is sampled.
"""
import re as _re
import sys
import unicodedata

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The engine cannot follow an operation exactly."""


class Split(BaseException):
    def __init__(self, var, masks):
        self.var = var
        self.masks = masks


class Fork(BaseException):
    """The run has to be repeated once per group of boxes."""
    def __init__(self, groups):
        self.groups = groups


# ---------------------------------------------------------------- cells

SEP = '\udbff'       # separates the alternatives in the joined form; never part of a text


class Cell:
    """var: variable; alts: {string: mask}.  Kept either as that dict or, after
    replacements, as one joined string and a list of masks (alternatives may
    then repeat until the dict is asked for)."""
    __slots__ = ('var', '_alts', '_j', '_m', '_chars', '_h', '_lens')

    def __init__(self, var, alts):
        self.var = var
        self._alts = alts
        self._j = None
        self._m = None
        self._chars = None
        self._h = None
        self._lens = None

    @property
    def alts(self):
        a = self._alts
        if a is None:
            a = {}
            for s, m in zip(self._j[1:-1].split(SEP), self._m):
                if s in a:
                    a[s] |= m
                else:
                    a[s] = m
            self._alts = a
            if len(a) != len(self._m):
                self._j = self._m = None
        return a

    @property
    def joined(self):
        j = self._j
        if j is None:
            j = self._j = SEP + SEP.join(self._alts) + SEP
            self._m = list(self._alts.values())
            if j.count(SEP) != len(self._m) + 1:
                raise Unsupported('separator in a text')
        return j

    def replaced(self, x, y):
        c = Cell(self.var, None)
        c._j = self.joined.replace(x, y)
        c._m = self._m
        if len(x) == 1 and self._chars is not None:
            c._chars = (self._chars - {x}) | frozenset(y)
        return c

    @property
    def chars(self):
        c = self._chars
        if c is None:
            if self._j is not None:
                c = self._chars = frozenset(self._j) - _SEPS
            else:
                c = self._chars = frozenset(''.join(self._alts))
        return c

    @property
    def lens(self):
        l = self._lens
        if l is None:
            l = self._lens = frozenset(map(len, self.alts))
        return l

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((self.var, self.chars))
        return h

    def __eq__(self, o):
        return self is o or (self.var == o.var and self.alts == o.alts)

    def __repr__(self):
        return 'Cell(%d,%s)' % (self.var, list(self.alts)[:6])


_SEPS = frozenset([SEP])


def const(s):
    return Cell(-1, {s: -1})


def restrict(cell, mask):
    if cell.var < 0:
        return cell
    alts = {}
    full = True
    for s, m in cell.alts.items():
        mm = m & mask
        if mm:
            alts[s] = mm
            if mm != m:
                full = False
        else:
            full = False
    if full:
        return cell
    return Cell(cell.var, alts)


def map_cell(cell, f):
    alts = {}
    for s, m in cell.alts.items():
        t = f(s)
        alts[t] = alts.get(t, 0) | m
    return Cell(cell.var, alts)


def concat_same(a, b):
    if len(b.alts) == 1:
        (t,) = b.alts
        if not t:
            return a
        return Cell(a.var, {s + t: m for s, m in a.alts.items()})
    if len(a.alts) == 1:
        (t,) = a.alts
        if not t:
            return b
        return Cell(a.var, {t + s: m for s, m in b.alts.items()})
    alts = {}
    inv = {m: s for s, m in b.alts.items()}
    rest = []
    for s, m in a.alts.items():
        t = inv.get(m)
        if t is not None:
            k = s + t
            alts[k] = alts.get(k, 0) | m
        else:
            rest.append((s, m))
    if rest:
        for s, m in rest:
            for t, m2 in b.alts.items():
                mm = m & m2
                if mm:
                    k = s + t
                    alts[k] = alts.get(k, 0) | mm
    return Cell(a.var, alts)


def normalize(cells, box):
    """Absorb constants, join neighbours of one variable, add empty cells for
    variables that do not occur, so that equal situations have equal shape."""
    out = []
    for c in cells:
        if c.var < 0:
            (s,) = c.alts
            if not s:
                continue
            if out:
                p = out[-1]
                out[-1] = Cell(p.var, {t + s: m for t, m in p.alts.items()})
            else:
                out.append(c)
        else:
            if out:
                p = out[-1]
                if p.var == c.var:
                    out[-1] = concat_same(p, c)
                    continue
                if p.var < 0:
                    (s,) = p.alts
                    out[-1] = Cell(c.var, {s + t: m for t, m in c.alts.items()})
                    continue
            out.append(c)
    n = len(box)
    if n:
        have = {c.var for c in out}
        if len(have) < n or -1 in have:
            # drop empty duplicates is not needed; insert the missing ones
            for k in range(n):
                if k not in have:
                    e = Cell(k, {'': box[k]})
                    pos = 0
                    for i, c in enumerate(out):
                        if c.var == k - 1:
                            pos = i + 1
                    out.insert(pos, e)
            if -1 in have or any(a.var == b.var for a, b in zip(out, out[1:])):
                return normalize_simple(out)
    return tuple(out)


def normalize_simple(cells):
    out = []
    for c in cells:
        if out and (c.var < 0 or out[-1].var == c.var or out[-1].var < 0):
            p = out[-1]
            if c.var < 0:
                (s,) = c.alts
                out[-1] = Cell(p.var, {t + s: m for t, m in p.alts.items()})
            elif p.var < 0:
                (s,) = p.alts
                out[-1] = Cell(c.var, {s + t: m for t, m in c.alts.items()})
            else:
                out[-1] = concat_same(p, c)
        else:
            out.append(c)
    return tuple(out)


class Entry:
    __slots__ = ('box', 'cells', '_chars')

    def __init__(self, box, cells):
        self.box = box
        self.cells = cells
        self._chars = None

    @property
    def chars(self):
        c = self._chars
        if c is None:
            c = self._chars = frozenset().union(*[x.chars for x in self.cells])
        return c


def box_and(a, b):
    r = tuple([x & y for x, y in zip(a, b)])
    for x in r:
        if not x:
            return None
    return r


def restrict_entry(e, box):
    cells = tuple([restrict(c, box[c.var]) if c.var >= 0 else c for c in e.cells])
    return Entry(box, cells)


def merge_entries(entries, nvars):
    if len(entries) < 2:
        return entries
    changed = True
    while changed and len(entries) > 1:
        changed = False
        for k in range(nvars):
            buckets = {}
            for e in entries:
                b = e.box
                key = (b[:k], b[k + 1:], tuple([c.var if c.var == k else c for c in e.cells]))
                lst = buckets.get(key)
                if lst is None:
                    buckets[key] = [e]
                else:
                    lst.append(e)
            if len(buckets) == len(entries):
                continue
            changed = True
            out = []
            for lst in buckets.values():
                if len(lst) == 1:
                    out.append(lst[0])
                    continue
                first = lst[0]
                cells = []
                for pos, c in enumerate(first.cells):
                    if c.var != k:
                        cells.append(c)
                        continue
                    alts = {}
                    for e in lst:
                        for s, m in e.cells[pos].alts.items():
                            alts[s] = alts.get(s, 0) | m
                    cells.append(Cell(k, alts))
                mk = 0
                for e in lst:
                    mk |= e.box[k]
                out.append(Entry(first.box[:k] + (mk,) + first.box[k + 1:], tuple(cells)))
            entries = out
    return entries


def merge_boxes(boxes, nvars):
    es = [Entry(b, ()) for b in boxes]
    return [e.box for e in merge_entries(es, nvars)]


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, domains):
        self.domains = [list(d) for d in domains]
        self.n = len(domains)
        self.full = tuple([(1 << len(d)) - 1 for d in domains])
        self.boxes = [self.full]
        self.ops = 0
        self.splits = 0
        self.max_entries = 0

    def var(self, k):
        """Symbolic string: the value of variable k."""
        ents = []
        for b in self.boxes:
            alts = {}
            for i, s in enumerate(self.domains[k]):
                if b[k] >> i & 1:
                    alts[s] = alts.get(s, 0) | (1 << i)
            ents.append(Entry(b, normalize([Cell(k, alts)], b)))
        return SymStr(self, ents)

    def map(self, k, table):
        """table[value of variable k]"""
        ents = []
        for b in self.boxes:
            alts = {}
            for i, s in enumerate(self.domains[k]):
                if b[k] >> i & 1:
                    t = table[s]
                    alts[t] = alts.get(t, 0) | (1 << i)
            ents.append(Entry(b, normalize([Cell(k, alts)], b)))
        return SymStr(self, ents)

    def lift(self, s):
        return SymStr(self, [Entry(b, normalize([const(s)], b)) for b in self.boxes])

    def template(self, parts):
        """parts: list of str (constant) or int (variable)."""
        ents = []
        for b in self.boxes:
            cells = []
            for p in parts:
                if isinstance(p, str):
                    cells.append(const(p))
                else:
                    alts = {}
                    for i, s in enumerate(self.domains[p]):
                        if b[p] >> i & 1:
                            alts[s] = alts.get(s, 0) | (1 << i)
                    cells.append(Cell(p, alts))
            ents.append(Entry(b, normalize(cells, b)))
        return SymStr(self, ents)

    def decide(self, groups):
        """groups: {key: [boxes]}; returns the key if only one is possible."""
        groups = {k: v for k, v in groups.items() if v}
        if len(groups) == 1:
            (k,) = groups
            return k
        if not groups:
            raise Unsupported('empty decision')
        raise Fork([merge_boxes(v, self.n) for v in groups.values()])


# ---------------------------------------------------------------- regex IR

P = _re._parser
C = _re._constants
MAXREPEAT = C.MAXREPEAT

_CAT_RX = {
    'CATEGORY_SPACE': _re.compile(r'\s'), 'CATEGORY_NOT_SPACE': _re.compile(r'\S'),
    'CATEGORY_DIGIT': _re.compile(r'\d'), 'CATEGORY_NOT_DIGIT': _re.compile(r'\D'),
    'CATEGORY_WORD': _re.compile(r'\w'), 'CATEGORY_NOT_WORD': _re.compile(r'\W'),
}
_WORD = _re.compile(r'\w')

# placeholders for \p{..} of the third-party regex module
_PROP_BASE = 0x10F000
_PROPS = {}


def _prop_char(name, neg):
    key = (name, neg)
    if key not in _PROPS:
        _PROPS[key] = chr(_PROP_BASE + len(_PROPS))
    return _PROPS[key]


_PROP_REV = {}


def translate_props(pat):
    def f(m):
        ch = _prop_char(m.group(2).replace('^', ''), (m.group(1) == 'P') != ('^' in m.group(2)))
        for k, v in _PROPS.items():
            _PROP_REV[v] = k
        return ch
    return _re.sub(r'\\([pP])\{(\^?\w+)\}', f, pat)


_prop_cache = {}


def _prop_test(ph, ch):
    key = (ph, ch)
    r = _prop_cache.get(key)
    if r is None:
        import regex
        name, neg = _PROP_REV[ph]
        r = bool(regex.match(r'\p{%s}' % name, ch))
        if neg:
            r = not r
        _prop_cache[key] = r
    return r


_interned = {}
_nodes = []


def mk(*t):
    """interned node: returns its id"""
    i = _interned.get(t)
    if i is None:
        i = len(_nodes)
        _interned[t] = i
        _nodes.append(t)
    return i


EPS = mk('cat', ())


def mkcat(ids):
    out = []
    for i in ids:
        n = _nodes[i]
        if n[0] == 'cat':
            out.extend(n[1])
        else:
            out.append(i)
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


def mkalt(ids):
    if len(ids) == 1:
        return ids[0]
    return mk('alt', tuple(ids))


def _set_test(items, negate, ignorecase):
    def single(ch):
        r = False
        for it in items:
            op = it[0]
            if op == 'lit':
                if it[1] in _PROP_REV:
                    if _prop_test(it[1], ch):
                        r = True
                        break
                elif it[1] == ch:
                    r = True
                    break
            elif op == 'range':
                if it[1] <= ord(ch) <= it[2]:
                    r = True
                    break
            elif op == 'cat':
                if _CAT_RX[it[1]].match(ch):
                    r = True
                    break
            elif op == 'any':
                r = True
                break
            elif op == 'node':
                if set_has(it[1], ch):
                    r = True
                    break
            elif op == 'anynl':
                if ch != '\n':
                    r = True
                    break
        return r != negate
    if not ignorecase:
        return single

    def ci(ch):
        return single(ch) or single(ch.lower()) or single(ch.upper())
    return ci


_set_cache = {}     # node id -> {char: bool}
_set_fn = {}


def set_has(nid, ch):
    c = _set_cache.get(nid)
    if c is None:
        c = _set_cache[nid] = {}
        t = _nodes[nid]
        _set_fn[nid] = _set_test(t[1], t[2], t[3])
    r = c.get(ch)
    if r is None:
        r = c[ch] = _set_fn[nid](ch)
    return r


def conv(items, st):
    return mkcat([conv1(it, st) for it in items])


def conv1(it, st):
    op, av = it
    ic = st['ic']
    name = str(op)
    if name == 'LITERAL':
        return mk('set', (('lit', chr(av)),), False, ic)
    if name == 'NOT_LITERAL':
        return mk('set', (('lit', chr(av)),), True, ic)
    if name == 'ANY':
        return mk('set', (('any',),) if st['dotall'] else (('anynl',),), False, False)
    if name == 'IN':
        neg = False
        out = []
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                out.append(('lit', chr(a)))
            elif o == 'RANGE':
                out.append(('range', a[0], a[1]))
            elif o == 'CATEGORY':
                out.append(('cat', str(a)))
            else:
                raise Unsupported('regex set item ' + o)
        return mk('set', tuple(out), neg, ic)
    if name == 'BRANCH':
        return mkalt([conv(x, st) for x in av[1]])
    if name == 'SUBPATTERN':
        g, add, rem, sub = av
        st2 = dict(st)
        if add & _re.I:
            st2['ic'] = True
        if add & _re.S:
            st2['dotall'] = True
        if add & _re.M:
            st2['multi'] = True
        if rem & _re.I:
            st2['ic'] = False
        n = conv(sub, st2)
        if g is None:
            return n
        return mk('grp', g, n)
    if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        n = conv(sub, st)
        if hi == MAXREPEAT:
            hi = 1 << 30
        r = mk('rep', lo, hi, n, name != 'MIN_REPEAT')
        if name == 'POSSESSIVE_REPEAT':
            return mk('atomic', r)
        return r
    if name == 'ATOMIC_GROUP':
        return mk('atomic', conv(av, st))
    if name in ('ASSERT', 'ASSERT_NOT'):
        d, sub = av
        n = conv(sub, st)
        w = sub.getwidth() if d < 0 else (0, 0)
        if d < 0 and w[0] != w[1]:
            raise Unsupported('variable lookbehind')
        return mk('look', d, name == 'ASSERT_NOT', n, int(w[0]))
    if name == 'AT':
        a = str(av)
        if a == 'AT_BEGINNING' and st['multi']:
            a = 'AT_BEGINNING_LINE'
        if a == 'AT_END' and st['multi']:
            a = 'AT_END_LINE'
        return mk('at', a)
    if name == 'GROUPREF':
        return mk('ref', av)
    raise Unsupported('regex op ' + name)


def nullable(nid):
    t = _nodes[nid]
    k = t[0]
    if k == 'set':
        return False
    if k == 'cat':
        return all(nullable(x) for x in t[1])
    if k == 'alt':
        return any(nullable(x) for x in t[1])
    if k == 'rep':
        return t[1] == 0 or nullable(t[3])
    if k == 'grp':
        return nullable(t[2])
    if k == 'atomic':
        return nullable(t[1])
    return True


def firstsets(nid):
    """list of set nodes one of which matches the first consumed char, or None"""
    t = _nodes[nid]
    k = t[0]
    if k == 'set':
        return [nid]
    if k == 'cat':
        out = []
        for x in t[1]:
            f = firstsets(x)
            if f is None:
                return None
            out += f
            if not nullable(x):
                return out
        return out
    if k == 'alt':
        out = []
        for x in t[1]:
            f = firstsets(x)
            if f is None:
                return None
            out += f
        return out
    if k == 'rep':
        return firstsets(t[3])
    if k == 'grp':
        return firstsets(t[2])
    if k == 'atomic':
        return firstsets(t[1])
    if k == 'ref':
        return None
    return []      # look, at consume nothing


def clauses(nid):
    """Necessary condition for a match: CNF over 'string has a char in set'."""
    t = _nodes[nid]
    k = t[0]
    if k == 'set':
        return [frozenset([nid])]
    if k == 'cat':
        out = []
        for x in t[1]:
            out += clauses(x)
        return out
    if k == 'alt':
        subs = [clauses(x) for x in t[1]]
        if any(not s for s in subs):
            return []
        n = min(len(s) for s in subs)
        out = []
        for i in range(min(n, 3)):
            out.append(frozenset().union(*[s[i] for s in subs]))
        return out
    if k == 'rep':
        return clauses(t[3]) if t[1] > 0 else []
    if k == 'grp':
        return clauses(t[2])
    if k == 'atomic':
        return clauses(t[1])
    if k == 'look':
        return [] if t[2] else clauses(t[3])
    return []


def has_kind(nid, pred):
    t = _nodes[nid]
    if pred(t):
        return True
    k = t[0]
    if k in ('cat', 'alt'):
        return any(has_kind(x, pred) for x in t[1])
    if k == 'rep':
        return has_kind(t[3], pred)
    if k == 'grp':
        return has_kind(t[2], pred)
    if k == 'atomic':
        return has_kind(t[1], pred)
    if k == 'look':
        return has_kind(t[3], pred)
    return False


_clause_cache = {}


def clause_has(cl, ch):
    c = _clause_cache.get(cl)
    if c is None:
        c = _clause_cache[cl] = {}
    r = c.get(ch)
    if r is None:
        r = False
        for nid in cl:
            if set_has(nid, ch):
                r = True
                break
        c[ch] = r
    return r


FAIL = mk('set', (), False, False)


def specialize(nid, avail, memo):
    """The same matches on strings over the characters avail."""
    r = memo.get(nid)
    if r is not None:
        return r
    t = _nodes[nid]
    k = t[0]
    r = nid
    if k == 'set':
        for ch in avail:
            if set_has(nid, ch):
                break
        else:
            r = FAIL
    elif k == 'cat':
        ids = [specialize(x, avail, memo) for x in t[1]]
        r = FAIL if FAIL in ids else mkcat(ids)
    elif k == 'alt':
        ids = []
        for x in t[1]:
            y = specialize(x, avail, memo)
            if y != FAIL and y not in ids:
                ids.append(y)
        # neighbouring one-character branches become one set
        out = []
        for y in ids:
            if out and _nodes[y][0] == 'set' and _nodes[out[-1]][0] == 'set':
                p = _nodes[out[-1]]
                if p[1] and p[1][0][0] == 'node' and not p[2]:
                    items = p[1]
                else:
                    items = (('node', out[-1]),)
                out[-1] = mk('set', items + (('node', y),), False, False)
            else:
                out.append(y)
        r = FAIL if not out else mkalt(out)
    elif k == 'rep':
        y = specialize(t[3], avail, memo)
        if y == FAIL:
            r = EPS if t[1] == 0 else FAIL
        else:
            r = mk('rep', t[1], t[2], y, t[4])
    elif k == 'grp':
        y = specialize(t[2], avail, memo)
        r = FAIL if y == FAIL else mk('grp', t[1], y)
    elif k == 'atomic':
        y = specialize(t[1], avail, memo)
        r = FAIL if y == FAIL else mk('atomic', y)
    elif k == 'look':
        y = specialize(t[3], avail, memo)
        if y == FAIL:
            r = EPS if t[2] else FAIL
        else:
            r = mk('look', t[1], t[2], y, t[4])
    memo[nid] = r
    return r


class Rx:
    _cache = {}

    def _setup(self):
        self.clauses = list(dict.fromkeys(clauses(self.root)))
        self.nullable = nullable(self.root)
        fs = None if self.nullable else firstsets(self.root)
        self.noskip = fs is None or has_kind(
            self.root, lambda t: t[0] == 'at' and t[1] != 'AT_END' and t[1] != 'AT_END_STRING'
            or t[0] == 'look' and t[1] < 0)
        self.first = frozenset(fs) if fs is not None else None
        self._poss = {}

    def special(self, avail):
        if self.lit is not None:
            return self
        r = self._spec.get(avail)
        if r is None:
            r = Rx.__new__(Rx)
            r.__dict__.update(self.__dict__)
            r.root = specialize(self.root, avail, {})
            r._setup()
            if len(self._spec) > 200:
                self._spec.clear()
            self._spec[avail] = r
        return r

    @classmethod
    def get(cls, pattern, flags=0, module='re'):
        key = (pattern, int(flags), module)
        r = cls._cache.get(key)
        if r is None:
            r = cls._cache[key] = Rx(pattern, flags, module)
        return r

    @classmethod
    def literal(cls, s):
        key = ('lit', s)
        r = cls._cache.get(key)
        if r is None:
            r = cls._cache[key] = Rx(None, 0, 're', lit=s)
        return r

    def __init__(self, pattern, flags, module, lit=None):
        self.pattern = pattern
        self.lit = lit
        self.module = module
        self.pysrc = pattern
        if lit is not None:
            self.root = mkcat([mk('set', (('lit', c),), False, False) for c in lit])
            self.ngroups = 0
            self.compiled = None
            self.groupindex = {}
        else:
            flags = int(flags)
            if module == 'regex':
                import regex
                self.compiled = regex.compile(pattern, flags)
                src = self.pysrc = translate_props(pattern)
                fl = 0
                if flags & int(regex.I):
                    fl |= int(_re.I)
                if flags & int(regex.M):
                    fl |= int(_re.M)
                if flags & int(regex.S):
                    fl |= int(_re.S)
                p = P.parse(src, fl)
            else:
                self.compiled = _re.compile(pattern, flags)
                p = P.parse(pattern, flags)
            fl = p.state.flags
            self.root = conv(p, {'ic': bool(fl & int(_re.I)), 'dotall': bool(fl & int(_re.S)),
                                 'multi': bool(fl & int(_re.M))})
            self.ngroups = p.state.groups - 1
            self.groupindex = dict(p.state.groupdict)
        self._spec = {}
        self._setup()

    def possible(self, chars):
        if not self.clauses:
            return True
        r = self._poss.get(chars)
        if r is None:
            r = True
            for cl in self.clauses:
                ok = False
                for ch in chars:
                    if clause_has(cl, ch):
                        ok = True
                        break
                if not ok:
                    r = False
                    break
            self._poss[chars] = r
        return r


# ---------------------------------------------------------------- matcher

class Buf:
    """Mutable view of an entry, exploded to single characters on demand."""
    __slots__ = ('box', 'cells')

    def __init__(self, box, cells):
        self.box = box
        self.cells = cells

    def ensure(self, i):
        """True if position i holds a character (then it is exploded)."""
        cells = self.cells
        while i < len(cells):
            c = cells[i]
            lens = c.lens
            if len(lens) == 1:
                (L,) = lens
                if L == 1:
                    return True
                if L == 0:
                    del cells[i]
                    continue
                new = []
                for p in range(L):
                    alts = {}
                    for s, m in c.alts.items():
                        ch = s[p]
                        alts[ch] = alts.get(ch, 0) | m
                    new.append(Cell(c.var, alts) if c.var >= 0 else Cell(-1, {next(iter(alts)): -1}))
                cells[i:i + 1] = new
                return True
            by = {}
            for s, m in c.alts.items():
                by[len(s)] = by.get(len(s), 0) | m
            raise Split(c.var, list(by.values()))
        return False


def split_on(cell, pred):
    """pred over chars of a char cell: True/False, or Split."""
    t = f = 0
    for ch, m in cell.alts.items():
        if pred(ch):
            t |= m
        else:
            f |= m
    if not f:
        return True
    if not t:
        return False
    raise Split(cell.var, [t, f])


_alt_dec = {}


def alt_decompose(nid):
    """For an 'alt' node all of whose branches start with a set:
    list of (setnode, residual)."""
    r = _alt_dec.get(nid)
    if r is None:
        out = []
        for x in _nodes[nid][1]:
            t = _nodes[x]
            if t[0] == 'set':
                out.append((x, EPS))
            elif t[0] == 'cat' and t[1] and _nodes[t[1][0]][0] == 'set':
                out.append((t[1][0], mkcat(t[1][1:])))
            else:
                out = False
                break
        r = _alt_dec[nid] = out
    return r


_alt_sig = {}


def alt_sig(nid, ch):
    key = (nid, ch)
    r = _alt_sig.get(key)
    if r is None:
        res = []
        for s, rest in alt_decompose(nid):
            if set_has(s, ch):
                res.append(rest)
        r = _alt_sig[key] = tuple(res)
    return r


def m(nid, buf, i, caps, k):
    """Match node at i; k(i, caps) continues.  Returns (end, caps) or None."""
    t = _nodes[nid]
    kind = t[0]
    if kind == 'set':
        if not buf.ensure(i):
            return None
        c = buf.cells[i]
        alts = c.alts
        if len(alts) == 1:
            (ch,) = alts
            if not set_has(nid, ch):
                return None
        elif not split_on(c, lambda ch: set_has(nid, ch)):
            return None
        return k(i + 1, caps)
    if kind == 'cat':
        seq = t[1]

        def step(j, ii, cc):
            if j == len(seq):
                return k(ii, cc)
            return m(seq[j], buf, ii, cc, lambda i2, c2: step(j + 1, i2, c2))
        return step(0, i, caps)
    if kind == 'alt':
        dec = alt_decompose(nid)
        if dec:
            if not buf.ensure(i):
                return None
            c = buf.cells[i]
            if len(c.alts) == 1:
                (ch,) = c.alts
                sig = alt_sig(nid, ch)
            else:
                groups = {}
                for ch, mm in c.alts.items():
                    s = alt_sig(nid, ch)
                    groups[s] = groups.get(s, 0) | mm
                if len(groups) > 1:
                    raise Split(c.var, list(groups.values()))
                (sig,) = groups
            if not sig:
                return None
            for rest in sig:
                if rest == EPS:
                    r = k(i + 1, caps)
                else:
                    r = m(rest, buf, i + 1, caps, k)
                if r is not None:
                    return r
            return None
        for x in t[1]:
            r = m(x, buf, i, caps, k)
            if r is not None:
                return r
        return None
    if kind == 'grp':
        g = t[1]

        def fin(j, cc):
            d = dict(cc)
            d[g] = (i, j)
            return k(j, d)
        return m(t[2], buf, i, caps, fin)
    if kind == 'rep':
        lo, hi, sub, greedy = t[1], t[2], t[3], t[4]

        def rep(n, ii, cc, last):
            def more():
                if n >= hi or (n >= lo and ii == last):
                    return None
                return m(sub, buf, ii, cc, lambda i2, c2: rep(n + 1, i2, c2, ii))
            if n < lo:
                return m(sub, buf, ii, cc, lambda i2, c2: rep(n + 1, i2, c2, -1))
            if greedy:
                r = more()
                if r is not None:
                    return r
                return k(ii, cc)
            r = k(ii, cc)
            if r is not None:
                return r
            return more()
        return rep(0, i, caps, -1)
    if kind == 'look':
        d, neg, sub, w = t[1], t[2], t[3], t[4]
        if d < 0:
            start = i - w
            if start < 0:
                r = None
            else:
                r = m(sub, buf, start, caps, lambda j, cc: (j, cc) if j == i else None)
        else:
            r = m(sub, buf, i, caps, lambda j, cc: (j, cc))
        if neg:
            if r is not None:
                return None
            return k(i, caps)
        if r is None:
            return None
        return k(i, r[1])
    if kind == 'at':
        a = t[1]
        if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
            return k(i, caps) if i == 0 else None
        if a == 'AT_BEGINNING_LINE':
            if i == 0 or split_on(buf.cells[i - 1], lambda ch: ch == '\n'):
                return k(i, caps)
            return None
        if a == 'AT_END_STRING':
            return k(i, caps) if not buf.ensure(i) else None
        if a == 'AT_END':
            if not buf.ensure(i):
                return k(i, caps)
            if split_on(buf.cells[i], lambda ch: ch == '\n') and not buf.ensure(i + 1):
                return k(i, caps)
            return None
        if a == 'AT_END_LINE':
            if not buf.ensure(i) or split_on(buf.cells[i], lambda ch: ch == '\n'):
                return k(i, caps)
            return None
        if a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            before = i > 0 and split_on(buf.cells[i - 1], lambda ch: bool(_WORD.match(ch)))
            after = buf.ensure(i) and split_on(buf.cells[i], lambda ch: bool(_WORD.match(ch)))
            if (before != after) == (a == 'AT_BOUNDARY'):
                return k(i, caps)
            return None
        raise Unsupported('regex at ' + a)
    if kind == 'ref':
        sp = caps.get(t[1])
        if sp is None:
            return None
        j = i
        for p in range(sp[0], sp[1]):
            if not buf.ensure(j):
                return None
            if not same_char(buf.cells[p], buf.cells[j]):
                return None
            j += 1
        return k(j, caps)
    if kind == 'atomic':
        r = m(t[1], buf, i, caps, lambda j, cc: (j, cc))
        if r is None:
            return None
        return k(r[0], r[1])
    raise Unsupported('node ' + kind)


def same_char(a, b):
    if len(a.alts) == 1 and len(b.alts) == 1:
        return next(iter(a.alts)) == next(iter(b.alts))
    if a.var == b.var and a.alts == b.alts:
        return True
    common = set(a.alts) & set(b.alts)
    if a.var == b.var:
        t = 0
        for ch in common:
            t |= a.alts[ch] & b.alts[ch]
        full = 0
        for mm in a.alts.values():
            full |= mm
        f = full & ~t
        if not f:
            return True
        if not t:
            return False
        raise Split(a.var, [t, f])
    if not common:
        return False
    for c in (a, b):
        if c.var >= 0 and len(c.alts) > 1:
            masks = []
            other = 0
            for ch, mm in c.alts.items():
                if ch in common:
                    masks.append(mm)
                else:
                    other |= mm
            if other:
                masks.append(other)
            if len(masks) > 1:
                raise Split(c.var, masks)
    raise Unsupported('same_char')


class State:
    __slots__ = ('buf', 'pos', 'matches', 'must', 'done')

    def __init__(self, buf, pos=0, matches=(), must=False):
        self.buf = buf
        self.pos = pos
        self.matches = list(matches)
        self.must = must


def cross_ks(x, cells, i):
    """lengths k for which an occurrence of x can begin with x[:k] at the end of
    an alternative of cells[i] and go on in the following cells"""
    if i + 1 >= len(cells):
        return ()
    j = cells[i].joined
    return [k for k in range(1, len(x)) if x[:k] + SEP in j and _follow(cells, i + 1, x[k:])]


def cross_possible(x, cells, i, s):
    for kk in range(1, len(x)):
        if s.endswith(x[:kk]) and _follow(cells, i + 1, x[kk:]):
            return True
    return False


def _follow(cells, j, rest):
    if j >= len(cells):
        return False
    t = cells[j].joined
    if SEP + rest in t:
        return True
    for l in range(len(rest)):
        if SEP + rest[:l] + SEP in t and _follow(cells, j + 1, rest[l:]):
            return True
    return False


def scan(ctx, entry, rx, limit=0, anchored=None):
    """Yield (box, buf cells, matches) for sub-boxes of entry on which the
    sequence of leftmost matches is the same.  anchored: 'match'/'fullmatch'."""
    out = []
    stack = [State(Buf(entry.box, list(entry.cells)))]
    lit = rx.lit
    while stack:
        st = stack.pop()
        buf = st.buf
        try:
            _scan_run(st, rx, lit, limit, anchored)
        except Split as sp:
            ctx.splits += 1
            v = sp.var
            for mm in sp.masks:
                nb = buf.box[:v] + (buf.box[v] & mm,) + buf.box[v + 1:]
                if not nb[v]:
                    continue
                ncells = [restrict(c, mm) if c.var == v else c for c in buf.cells]
                stack.append(State(Buf(nb, ncells), st.pos, st.matches, st.must))
            continue
        out.append((buf.box, buf.cells, st.matches))
    return out


def _ret(j, cc):
    return (j, cc)


def _scan_run(st, rx, lit, limit, anchored):
    buf = st.buf
    root = rx.root
    if anchored:
        kk = _ret
        if anchored == 'fullmatch':
            kk = lambda j, cc: (j, cc) if not buf.ensure(j) else None
        r = m(root, buf, 0, {}, kk)
        if r is not None:
            st.matches.append((0, r[0], r[1]))
        return
    while True:
        if limit and len(st.matches) >= limit:
            return
        i = st.pos
        cells = buf.cells
        if i < len(cells) and not rx.noskip:
            c = cells[i]
            hit = miss = 0
            if lit is not None:
                ks = cross_ks(lit, cells, i) if len(lit) > 1 else ()
                if ks or lit in c.joined:
                    ends = tuple([lit[:k] for k in ks])
                    for s, mm in c.alts.items():
                        if lit in s or (ends and s.endswith(ends)):
                            hit |= mm
                        else:
                            miss |= mm
            else:
                first = rx.first
                hs = [ch for ch in c.chars if clause_has(first, ch)]
                if hs:
                    dis = frozenset(hs).isdisjoint
                    for s, mm in c.alts.items():
                        if dis(s):
                            miss |= mm
                        else:
                            hit |= mm
            if not hit:
                st.pos += 1
                st.must = False
                continue
            if miss:
                raise Split(c.var, [hit, miss])
        if lit is None or len(lit) > 0:
            if not buf.ensure(i):
                if not rx.nullable:
                    return
        if st.must:
            r = m(root, buf, i, {}, lambda j, cc: (j, cc) if j != i else None)
        else:
            r = m(root, buf, i, {}, _ret)
        if r is not None:
            j, cc = r
            st.matches.append((i, j, cc))
            st.must = (j == i)
            st.pos = j
            continue
        if not buf.ensure(i):
            return
        st.pos = i + 1
        st.must = False


# ---------------------------------------------------------------- Unicode normal forms

_second = None
_u_safe = {}
_u_inert = {}


def _seconds():
    global _second
    if _second is None:
        _second = set(chr(c) for c in range(0x1161, 0x1200))
        for cp in range(0x110000):
            d = unicodedata.decomposition(chr(cp))
            if d and d[0] != '<':
                p = d.split()
                if len(p) == 2:
                    _second.add(chr(int(p[1], 16)))
    return _second


def u_safe(form, ch):
    """normalisation never looks across the boundary before ch"""
    k = (form, ch)
    r = _u_safe.get(k)
    if r is None:
        d = unicodedata.normalize('NFKD' if 'K' in form else 'NFD', ch)
        r = unicodedata.combining(d[0]) == 0
        if r and form in ('NFC', 'NFKC'):
            r = d[0] not in _seconds() and ch not in _seconds()
        _u_safe[k] = r
    return r


def u_inert(form, ch):
    k = (form, ch)
    r = _u_inert.get(k)
    if r is None:
        r = _u_inert[k] = u_safe(form, ch) and unicodedata.normalize(form, ch) == ch
    return r


# ---------------------------------------------------------------- strings

class SymBool:
    __slots__ = ('ctx', 't', 'f')

    def __init__(self, ctx, t, f):
        self.ctx = ctx
        self.t = t
        self.f = f

    def __bool__(self):
        return self.ctx.decide({True: self.t, False: self.f})

    def neg(self):
        return SymBool(self.ctx, self.f, self.t)

    def __eq__(self, o):
        return bool(self) == o

    def __hash__(self):
        return hash(bool(self))


def is_sym(x):
    return isinstance(x, (SymStr, SymBool))


class SymStr:
    __slots__ = ('ctx', 'entries', '_chars')

    def __init__(self, ctx, entries):
        self.ctx = ctx
        if len(entries) > 1:
            entries = merge_entries(entries, ctx.n)
            if len(entries) > ctx.max_entries:
                ctx.max_entries = len(entries)
        self.entries = entries
        self._chars = None

    @property
    def chars(self):
        c = self._chars
        if c is None:
            c = self._chars = frozenset().union(*[e.chars for e in self.entries])
        return c

    # -- basic
    def __repr__(self):
        return '<SymStr %d entries>' % len(self.entries)

    def __str__(self):
        return self.concretize()

    def __format__(self, spec):
        return self.concretize().__format__(spec)

    def _new(self, entries):
        return SymStr(self.ctx, entries)

    def _coerce(self, o):
        if isinstance(o, str):
            return self.ctx.lift(o)
        return o

    def __add__(self, o):
        if isinstance(o, str):
            if not o:
                return self
            c = const(o)
            return self._new([Entry(e.box, normalize(e.cells + (c,), e.box)) for e in self.entries])
        if isinstance(o, SymStr):
            out = []
            for a in self.entries:
                for b in o.entries:
                    bx = a.box if a.box == b.box else box_and(a.box, b.box)
                    if bx is None:
                        continue
                    cells = [restrict(c, bx[c.var]) if c.var >= 0 else c for c in a.cells + b.cells]
                    # drop empty cells so that joins are not blocked by ghosts
                    cells = [c for c in cells if not (len(c.alts) == 1 and '' in c.alts)]
                    out.append(Entry(bx, normalize(cells, bx)))
            return self._new(out)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            if not o:
                return self
            c = const(o)
            return self._new([Entry(e.box, normalize((c,) + e.cells, e.box)) for e in self.entries])
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, int):
            if n <= 0:
                return ''
            r = self
            for _ in range(n - 1):
                r = r + self
            return r
        return NotImplemented

    # -- matching helpers
    def _scan_all(self, rx, limit=0, anchored=None):
        """list of (box, cells, matches)"""
        out = []
        rx = rx.special(self.chars)
        for e in self.entries:
            if not rx.possible(e.chars):
                out.append((e.box, list(e.cells), []))
            else:
                out.extend(scan(self.ctx, e, rx, limit, anchored))
        return out

    def _truth(self, rx, anchored=None):
        t, f = [], []
        for box, cells, ms in self._scan_all(rx, 1, anchored):
            (t if ms else f).append(box)
        if not t:
            return False
        if not f:
            return True
        return SymBool(self.ctx, t, f)

    def contains(self, x):
        x = conc(x)
        if x == '':
            return True
        ch = self.chars
        for c in x:
            if c not in ch:
                return False
        return self._truth(Rx.literal(x))

    def __contains__(self, x):
        return bool(self.contains(x))

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, str):
            return self._truth(Rx.literal(o), 'fullmatch')
        if isinstance(o, SymStr):
            return self.eq_sym(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return r.neg() if isinstance(r, SymBool) else not r

    def eq_sym(self, o):
        t, f = [], []
        for a in self.entries:
            for b in o.entries:
                bx = box_and(a.box, b.box)
                if bx is None:
                    continue
                work = [(bx, [list(restrict_entry(a, bx).cells), list(restrict_entry(b, bx).cells)])]
                while work:
                    box, (x, y) = work.pop()
                    bx1, bx2 = Buf(box, list(x)), Buf(box, list(y))
                    try:
                        i = 0
                        res = None
                        while True:
                            h1, h2 = bx1.ensure(i), bx2.ensure(i)
                            if not h1 or not h2:
                                res = h1 == h2
                                break
                            if not same_char(bx1.cells[i], bx2.cells[i]):
                                res = False
                                break
                            i += 1
                        (t if res else f).append(box)
                    except Split as sp:
                        v = sp.var
                        for mm in sp.masks:
                            nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                            if nb[v]:
                                work.append((nb, [[restrict(c, mm) if c.var == v else c for c in x],
                                                  [restrict(c, mm) if c.var == v else c for c in y]]))
        if not t:
            return False
        if not f:
            return True
        return SymBool(self.ctx, t, f)

    def __hash__(self):
        return hash(self.concretize())

    def __lt__(self, o):
        return self.concretize() < conc(o)

    def __gt__(self, o):
        return self.concretize() > conc(o)

    def __le__(self, o):
        return self.concretize() <= conc(o)

    def __ge__(self, o):
        return self.concretize() >= conc(o)

    # -- rewriting
    def replace(self, x, y, count=-1):
        self.ctx.ops += 1
        if type(x) is not str:
            x = conc(x)
        if count == 0 or x == y:
            return self
        if SEP in x or (type(y) is str and SEP in y):
            raise Unsupported('separator')
        chars = self.chars
        for c in x:
            if c not in chars:
                return self
        if type(y) is not str and isinstance(y, SymStr):
            return self._replace_sym(x, y, count)
        if count > 0 or x == '':
            if x == '':
                return self.sub(Rx.get('', 0), [y], 0 if count < 0 else count)
            return self.sub(Rx.literal(x), [y], count)
        out = []
        dirty = False
        one = len(x) == 1
        for e in self.entries:
            ec = e.chars
            ok = True
            for c in x:
                if c not in ec:
                    ok = False
                    break
            if not ok:
                out.append(e)
                continue
            cells = e.cells
            if not one:
                cross = False
                for i in range(len(cells) - 1):
                    if cross_ks(x, cells, i):
                        cross = True
                        break
                if cross:
                    dirty = True
                    rx = Rx.literal(x)
                    out.extend(self._sub_entry(e, rx, [y], 0))
                    continue
            new = []
            hit = False
            for c in cells:
                if x in c.joined:
                    c = c.replaced(x, y)
                    hit = True
                new.append(c)
            if hit:
                dirty = True
                out.append(Entry(e.box, tuple(new)))
            else:
                out.append(e)
        if not dirty:
            return self
        return self._new(out)

    def _replace_sym(self, x, y, count):
        # y symbolic: resolve per (self entry, y entry)
        res = None
        for e in y.entries:
            pass
        parts = self.split(x, count)
        r = parts[0]
        for p in parts[1:]:
            r = r + y + p if is_sym(r) or is_sym(y) else r + y + p
        return r

    def _sub_entry(self, e, rx, tmpl, limit):
        out = []
        for box, cells, ms in scan(self.ctx, e, rx, limit):
            if not ms:
                out.append(Entry(box, normalize(cells, box)))
                continue
            new = []
            last = 0
            for (i, j, cc) in ms:
                new.extend(cells[last:i])
                for p in tmpl:
                    if isinstance(p, int):
                        if p == 0:
                            new.extend(cells[i:j])
                        else:
                            sp = cc.get(p)
                            if sp:
                                new.extend(cells[sp[0]:sp[1]])
                    elif p:
                        new.append(const(p))
                last = j
            new.extend(cells[last:])
            out.append(Entry(box, normalize(new, box)))
        return out

    def sub(self, rx, tmpl, limit=0):
        self.ctx.ops += 1
        if not rx.possible(self.chars):
            return self
        rx = rx.special(self.chars)
        out = []
        dirty = False
        for e in self.entries:
            if not rx.possible(e.chars):
                out.append(e)
            else:
                r = self._sub_entry(e, rx, tmpl, limit)
                out.extend(r)
                dirty = True
        if not dirty:
            return self
        return self._new(out)

    def _shape(self, rx, limit=0, anchored=None):
        """the matches, of one shape per run: [(box, cells, matches)]"""
        groups = {}
        for box, cells, ms in self._scan_all(rx, limit, anchored):
            key = tuple((i, j, tuple(sorted(cc.items()))) for i, j, cc in ms)
            groups.setdefault(key, []).append((box, cells, ms))
        key = self.ctx.decide({k: [b for b, _, _ in v] for k, v in groups.items()})
        return groups[key]

    def finditer(self, rx):
        if not rx.possible(self.chars):
            return []
        sts = self._shape(rx)
        return [SymMatch(self, sts, mm, rx) for mm in sts[0][2]]

    def search(self, rx, how=None):
        if not rx.possible(self.chars):
            return None
        sts = self._shape(rx, 1, how)
        if not sts[0][2]:
            return None
        return SymMatch(self, sts, sts[0][2][0], rx)

    def re_split(self, rx, maxsplit=0):
        if not rx.possible(self.chars):
            return [self]
        sts = self._shape(rx, maxsplit)
        out = []
        last = 0
        for i, j, cc in sts[0][2]:
            out.append(self._slice(sts, last, i))
            for g in range(1, rx.ngroups + 1):
                out.append(self._slice(sts, *cc[g]) if g in cc else None)
            last = j
        out.append(self._slice(sts, last, None))
        return out

    def unicode_normalize(self, form):
        self.ctx.ops += 1
        if all(u_inert(form, ch) for ch in self.chars):
            return self
        out = []
        for e in self.entries:
            if all(u_inert(form, ch) for ch in e.chars):
                out.append(e)
                continue
            stack = [(e.box, list(e.cells))]
            while stack:
                box, cells = stack.pop()
                buf = Buf(box, cells)
                try:
                    runs = []
                    i = 0
                    while buf.ensure(i):
                        if i and not split_on(buf.cells[i], lambda ch: u_safe(form, ch)):
                            runs[-1].append(i)
                        else:
                            runs.append([i])
                        i += 1
                    new = []
                    for r in runs:
                        if len(r) == 1:
                            new.append(map_cell(buf.cells[r[0]], lambda s: unicodedata.normalize(form, s)))
                            continue
                        w = ''
                        for i in r:
                            c = buf.cells[i]
                            if len(c.alts) > 1:
                                raise Split(c.var, list(c.alts.values()))
                            w += next(iter(c.alts))
                        new.append(const(unicodedata.normalize(form, w)))
                    out.append(Entry(box, normalize(new, box)))
                except Split as sp:
                    v = sp.var
                    for mm in sp.masks:
                        nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                        if nb[v]:
                            stack.append((nb, [restrict(c, mm) if c.var == v else c for c in buf.cells]))
        return self._new(out)

    def sub_callable(self, rx, fn, limit=0):
        """repl is a function of the match object."""
        if not rx.possible(self.chars):
            return self
        sts = self._shape(rx, limit)
        n = len(sts[0][2])
        if not n:
            return self
        pieces = []
        last = 0
        for q in range(n):
            i, j, cc = sts[0][2][q]
            pieces.append(self._slice(sts, last, i))
            mo = SymMatch(self, sts, sts[0][2][q], rx)
            pieces.append(fn(mo))
            last = j
        pieces.append(self._slice(sts, last, None))
        r = ''
        for p in pieces:
            r = r + p
        return r

    def _slice(self, sts, i, j):
        out = []
        for box, cells, ms in sts:
            out.append(Entry(box, normalize(list(cells[i:j]), box)))
        return simp(self._new(out))

    # -- char views
    def char_states(self):
        """[(box, [char cells])], all lengths fixed per state."""
        out = []
        for e in self.entries:
            stack = [(e.box, list(e.cells))]
            while stack:
                box, cells = stack.pop()
                buf = Buf(box, cells)
                try:
                    i = 0
                    while buf.ensure(i):
                        i += 1
                    out.append((box, buf.cells))
                except Split as sp:
                    v = sp.var
                    for mm in sp.masks:
                        nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                        if nb[v]:
                            stack.append((nb, [restrict(c, mm) if c.var == v else c for c in buf.cells]))
        return out

    def _by_len(self):
        sts = self.char_states()
        groups = {}
        for box, cells in sts:
            groups.setdefault(len(cells), []).append((box, cells))
        n = self.ctx.decide({k: [b for b, _ in v] for k, v in groups.items()})
        return n, groups[n]

    def __len__(self):
        lens = {}
        for e in self.entries:
            pass
        n, _ = self._by_len()
        return n

    def __bool__(self):
        t, f = [], []
        for e in self.entries:
            # emptiness: split on cells
            stack = [(e.box, list(e.cells))]
            while stack:
                box, cells = stack.pop()
                buf = Buf(box, cells)
                try:
                    (t if buf.ensure(0) else f).append(box)
                except Split as sp:
                    v = sp.var
                    for mm in sp.masks:
                        nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                        if nb[v]:
                            stack.append((nb, [restrict(c, mm) if c.var == v else c for c in buf.cells]))
        return self.ctx.decide({True: t, False: f})

    def __iter__(self):
        n, sts = self._by_len()
        items = []
        for i in range(n):
            items.append(simp(self._new([Entry(b, normalize([cells[i]], b)) for b, cells in sts])))
        return iter(items)

    def __getitem__(self, ix):
        n, sts = self._by_len()
        if isinstance(ix, slice):
            return simp(self._new([Entry(b, normalize(cells[ix], b)) for b, cells in sts]))
        if ix < -n or ix >= n:
            raise IndexError('string index out of range')
        ix %= n
        return simp(self._new([Entry(b, normalize([cells[ix]], b)) for b, cells in sts]))

    # -- concretise
    def values(self, limit=4000):
        """{string: [boxes]}"""
        res = {}
        for e in self.entries:
            stack = [(e.box, list(e.cells))]
            while stack:
                box, cells = stack.pop()
                if len(res) > limit:
                    raise Unsupported('too many values to enumerate')
                for c in cells:
                    if len(c.alts) > 1:
                        v = c.var
                        for s, mm in c.alts.items():
                            nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                            if nb[v]:
                                stack.append((nb, [restrict(x, mm) if x.var == v else x for x in cells]))
                        break
                else:
                    s = ''.join([next(iter(c.alts)) for c in cells])
                    res.setdefault(s, []).append(box)
        return res

    def concretize(self):
        return self.ctx.decide(self.values())

    def lift(self, f):
        """Apply a pure function of concrete strings value by value."""
        vals = self.values()
        outs = {}
        for s, boxes in vals.items():
            try:
                r = ('v', f(s))
                hash(r)
            except Exception as ex:
                r = ('x', type(ex), str(ex))
            outs.setdefault(r, []).extend(boxes)
        ok = {k: v for k, v in outs.items() if k[0] == 'v' and isinstance(k[1], str)}
        if len(ok) == len(outs):
            ents = []
            for k, boxes in ok.items():
                for b in merge_boxes(boxes, self.ctx.n):
                    ents.append(Entry(b, normalize([const(k[1])], b)))
            return simp(self._new(ents))
        if ok:
            oth = {}
            for k, v in outs.items():
                kk = 'str' if k in ok else (k[0], k[1]) if k[0] == 'x' else k
                oth.setdefault(kk, []).extend(v)
            self.ctx.decide(oth)
        bool_only = all(k[0] == 'v' and isinstance(k[1], bool) for k in outs)
        if bool_only and len(outs) == 2:
            return SymBool(self.ctx, outs[('v', True)], outs[('v', False)])
        if all(k[0] == 'x' for k in outs):
            kinds = {}
            for k, v in outs.items():
                kinds.setdefault(k[1], []).extend(v)
            kind = self.ctx.decide(kinds)
            raise kind(next(iter(outs))[2])
        k = self.ctx.decide(outs)
        if k[0] == 'x':
            raise k[1](k[2])
        return k[1]

    # -- str API
    def _mapcells(self, f):
        return self._new([Entry(e.box, tuple([map_cell(c, f) for c in e.cells])) for e in self.entries])

    def lower(self):
        self.ctx.ops += 1
        if 'Σ' in self.chars:
            raise Unsupported('lower of sigma')
        return self._mapcells(str.lower)

    def casefold(self):
        return self._mapcells(str.casefold)

    def upper(self):
        self.ctx.ops += 1
        return self._mapcells(str.upper)

    def swapcase(self):
        return self._mapcells(str.swapcase)

    def translate(self, table):
        return self._mapcells(lambda s: s.translate(table))

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if True else None

    def lstrip(self, chars=None):
        p = r'\s' if chars is None else '[' + ''.join('\\' + c if not c.isalnum() and ord(c) < 128 else c for c in conc(chars)) + ']'
        if chars == '':
            return self
        return self.sub(Rx.get(r'\A' + p + '+'), [''], 0)

    def rstrip(self, chars=None):
        p = r'\s' if chars is None else '[' + ''.join('\\' + c if not c.isalnum() and ord(c) < 128 else c for c in conc(chars)) + ']'
        if chars == '':
            return self
        return self.sub(Rx.get(p + r'+\Z'), [''], 0)

    def startswith(self, x, start=0):
        if start:
            return self[start:].startswith(x)
        if isinstance(x, tuple):
            return self._truth(Rx.get('|'.join(map(_re.escape, x))), 'match')
        return self._truth(Rx.literal(conc(x)), 'match')

    def endswith(self, x):
        if isinstance(x, tuple):
            return self._truth(Rx.get('(?:' + '|'.join(map(_re.escape, x)) + r')\Z'))
        return self._truth(Rx.get(_re.escape(conc(x)) + r'\Z'))

    def removeprefix(self, x):
        return self.sub(Rx.get(r'\A' + _re.escape(conc(x))), [''], 1)

    def removesuffix(self, x):
        return self.sub(Rx.get(_re.escape(conc(x)) + r'\Z'), [''], 1)

    def _pieces(self, rx, limit):
        sts = self._scan_all(rx, limit)
        groups = {}
        for st in sts:
            groups.setdefault(len(st[2]), []).append(st)
        n = self.ctx.decide({k: [s[0] for s in v] for k, v in groups.items()})
        g = groups[n]
        out = []
        for q in range(n + 1):
            ents = []
            for box, cells, ms in g:
                a = ms[q - 1][1] if q else 0
                b = ms[q][0] if q < n else None
                ents.append(Entry(box, normalize(list(cells[a:b]), box)))
            out.append(simp(self._new(ents)))
        return out

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            s = self.strip()
            if not s:
                return []
            return SymStr._pieces(as_sym(self.ctx, s), Rx.get(r'\s+'), 0 if maxsplit < 0 else maxsplit)
        if maxsplit == 0:
            return [self]
        return self._pieces(Rx.literal(conc(sep)), 0 if maxsplit < 0 else maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        p = self.split(sep)
        while len(p) > maxsplit + 1:
            p[0:2] = [p[0] + sep + p[1]]
        return p

    def splitlines(self, keepends=False):
        v = self.concretize()
        return v.splitlines(keepends)

    def partition(self, sep):
        p = self._pieces(Rx.literal(conc(sep)), 1)
        if len(p) == 1:
            return (p[0], '', '')
        return (p[0], sep, p[1])

    def count(self, x):
        sts = self._scan_all(Rx.literal(conc(x)))
        groups = {}
        for box, cells, ms in sts:
            groups.setdefault(len(ms), []).append(box)
        return self.ctx.decide(groups)

    def find(self, x, start=0):
        x = conc(x)
        if start:
            r = self[start:].find(x)
            return r if r < 0 else r + start
        r = self._truth(Rx.literal(x))
        if not r:
            return -1
        n, sts = self._by_len()
        groups = {}
        for box, cells in sts:
            for b2, c2, ms in scan(self.ctx, Entry(box, tuple(cells)), Rx.literal(x), 1):
                groups.setdefault(ms[0][0] if ms else -1, []).append(b2)
        return self.ctx.decide(groups)

    def index(self, x):
        r = self.find(x)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def join(self, it):
        items = list(it)
        r = ''
        for i, p in enumerate(items):
            r = r + self + p if i else p
        return r

    def isdigit(self):
        return self.lift(str.isdigit)

    def isalpha(self):
        return self.lift(str.isalpha)

    def isspace(self):
        return self.lift(str.isspace)

    def isupper(self):
        return self.lift(str.isupper)

    def islower(self):
        return self.lift(str.islower)

    def isalnum(self):
        return self.lift(str.isalnum)

    def isnumeric(self):
        return self.lift(str.isnumeric)

    def isdecimal(self):
        return self.lift(str.isdecimal)

    def capitalize(self):
        return self.lift(str.capitalize)

    def title(self):
        return self.lift(str.title)

    def encode(self, *a):
        return self.concretize().encode(*a)

    def format(self, *a, **k):
        return self.concretize().format(*a, **k)

    def zfill(self, n):
        return self.concretize().zfill(n)


def as_sym(ctx, s):
    return s if isinstance(s, SymStr) else ctx.lift(s)


def simp(s):
    """A symbolic string with a single value becomes a str."""
    if isinstance(s, SymStr):
        v = None
        for e in s.entries:
            w = ''
            for c in e.cells:
                if len(c.alts) != 1:
                    return s
                (t,) = c.alts
                w += t
            if v is None:
                v = w
            elif v != w:
                return s
        if v is not None:
            return v
    return s


def conc(x):
    if isinstance(x, SymStr):
        return x.concretize()
    return x


class SymMatch:
    def __init__(self, s, sts, ms, rx):
        self._s = s
        self._sts = sts
        self._m = ms
        self._rx = rx
        self.re = rx
        self.string = s

    def _g(self, g):
        if isinstance(g, str):
            g = self._rx.groupindex[g]
        i, j, cc = self._m
        if g == 0:
            return self._s._slice(self._sts, i, j)
        sp = cc.get(g)
        if sp is None:
            return None
        return self._s._slice(self._sts, sp[0], sp[1])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    __getitem__ = _g

    def groups(self, default=None):
        r = [self._g(i + 1) for i in range(self._rx.ngroups)]
        return tuple(default if x is None else x for x in r)

    def start(self, g=0):
        return self._m[0] if g == 0 else self._m[2].get(g, (-1, -1))[0]

    def end(self, g=0):
        return self._m[1] if g == 0 else self._m[2].get(g, (-1, -1))[1]

    def span(self, g=0):
        return (self.start(g), self.end(g))

    def expand(self, template):
        parts = P.parse_template(template, self._rx.compiled)
        r = ''
        for p in parts:
            x = self._g(p) if isinstance(p, int) else p
            r = r + (x if x is not None else '')
        return r


def explore(domains, fn, max_paths=5000, boxes=None):
    """Run fn(ctx) on every path.  Yields (boxes, ('ok', value)|('exc', ex), ctx)."""
    ctx0 = Ctx(domains)
    stack = [boxes or [ctx0.full]]
    n = 0
    while stack:
        bx = stack.pop()
        ctx = Ctx(domains)
        ctx.boxes = bx
        n += 1
        if n > max_paths:
            raise Unsupported('too many paths')
        try:
            r = ('ok', fn(ctx))
        except Fork as f:
            stack.extend(f.groups)
            continue
        except Unsupported:
            raise
        except Exception as ex:
            r = ('exc', ex)
        yield bx, r, ctx
