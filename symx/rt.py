"""Runtime of the instrumented code: every call, `in`, subscript, f-string and
`%` of the code under test goes through here.  With concrete arguments the
original operation is performed unchanged; with symbolic arguments the
operation is performed on the symbolic string, exactly."""
import re as _re
import builtins
import unicodedata
import types
import functools
import warnings
import string as _string

from .core import (SymStr, SymBool, Rx, Unsupported, conc, is_sym, as_sym, simp, P,
                   Entry, normalize, map_cell, Cell, const, Split)

try:
    import regex as _regex
except Exception:                                       # pragma: no cover
    _regex = None


FUNCS = set()          # qualified names of the functions executed symbolically


def any_sym(a, k):
    for x in a:
        if type(x) is SymStr or type(x) is SymBool:
            return True
        if isinstance(x, SymNum):
            return True
    if k:
        for x in k.values():
            if type(x) is SymStr or type(x) is SymBool or isinstance(x, SymNum):
                return True
    return False


class SymNum:
    """placeholder base; integers over symbolic digits live in symnum.py"""


# ------------------------------------------------------------------ re

def _template(rx, repl):
    if '\\' not in repl:
        return [repl] if repl else ['']
    if rx.module == 'regex' or rx.compiled is None:
        comp = _re.compile(rx.pysrc)
    else:
        comp = rx.compiled
    t = P.parse_template(repl, comp)
    out = []
    for p in t:
        if isinstance(p, int):
            out.append(p)
        elif p:
            out.append(p)
    return out or ['']


def _rx(pattern, flags, module):
    if isinstance(pattern, SymStr):
        pattern = pattern.concretize()
    if isinstance(pattern, _re.Pattern):
        return Rx.get(pattern.pattern, pattern.flags & ~int(_re.U), 're')
    if _regex is not None and isinstance(pattern, _regex.Pattern):
        fl = 0
        for f in (_regex.I, _regex.M, _regex.S):
            if pattern.flags & f:
                fl |= int(f)
        return Rx.get(pattern.pattern, fl, 'regex')
    return Rx.get(pattern, int(flags), module)


def _subn_conc(mod, pattern, repl, s, count, flags):
    """concrete string, callable or symbolic replacement"""
    pat = pattern if not isinstance(pattern, str) else mod.compile(pattern, flags)
    out = ''
    last = 0
    n = 0
    for mo in pat.finditer(s):
        if count and n >= count:
            break
        out = out + s[last:mo.start()]
        if callable(repl):
            out = out + call(repl, mo)
        else:
            r = conc(repl)
            out = out + mo.expand(r)
        last = mo.end()
        n += 1
    return out + s[last:]


def re_sub(mod, pattern, repl, s, count=0, flags=0):
    if isinstance(pattern, SymStr):
        pattern = pattern.concretize()
    if not isinstance(s, SymStr):
        if isinstance(repl, SymStr) or callable(repl):
            return _subn_conc(mod, pattern, repl, s, count, flags)
        if count:
            return mod.sub(pattern, repl, s, count=count, flags=flags)
        return mod.sub(pattern, repl, s, flags=flags)
    rx = _rx(pattern, flags, mod.__name__)
    if callable(repl):
        return s.sub_callable(rx, lambda m: call(repl, m), count)
    repl = conc(repl)
    return simp(s.sub(rx, _template(rx, repl), count))


def re_findall(mod, pattern, s, flags=0):
    if isinstance(pattern, SymStr):
        pattern = pattern.concretize()
    if not isinstance(s, SymStr):
        return mod.findall(pattern, s, flags)
    rx = _rx(pattern, flags, mod.__name__)
    out = []
    for mo in s.finditer(rx):
        if rx.ngroups == 0:
            out.append(mo.group(0))
        elif rx.ngroups == 1:
            x = mo.group(1)
            out.append('' if x is None else x)
        else:
            out.append(tuple('' if x is None else x for x in mo.groups()))
    return out


def re_finditer(mod, pattern, s, flags=0):
    if not isinstance(s, SymStr):
        return mod.finditer(conc(pattern), s, flags)
    return iter(s.finditer(_rx(pattern, flags, mod.__name__)))


def re_search(mod, pattern, s, flags=0, how=None):
    if not isinstance(s, SymStr):
        return getattr(mod, how or 'search')(conc(pattern), s, flags)
    return s.search(_rx(pattern, flags, mod.__name__), how)


def re_split(mod, pattern, s, maxsplit=0, flags=0):
    if not isinstance(s, SymStr):
        return mod.split(conc(pattern), s, maxsplit, flags)
    rx = _rx(pattern, flags, mod.__name__)
    return s.re_split(rx, maxsplit)


def re_subf(mod, pattern, fmt, s, count=0, flags=0):
    if not isinstance(s, SymStr):
        return mod.subf(conc(pattern), conc(fmt), s, count, flags)
    rx = _rx(pattern, flags, mod.__name__)
    fmt = conc(fmt)
    tmpl = []
    for lit, field, spec, cv in _string.Formatter().parse(fmt):
        if lit:
            tmpl.append(lit)
        if field is not None:
            if field.isdigit():
                tmpl.append(int(field))
            elif field in rx.groupindex:
                tmpl.append(rx.groupindex[field])
            else:
                raise Unsupported('subf template ' + fmt)
    return simp(s.sub(rx, tmpl or [''], count))


HANDLERS = {}
PAT = {}


def _install(mod):
    H = HANDLERS
    H[mod.sub] = functools.partial(re_sub, mod)
    H[mod.findall] = functools.partial(re_findall, mod)
    H[mod.finditer] = functools.partial(re_finditer, mod)
    H[mod.search] = functools.partial(re_search, mod)
    H[mod.match] = functools.partial(re_search, mod, how='match')
    H[mod.fullmatch] = functools.partial(re_search, mod, how='fullmatch')
    H[mod.split] = functools.partial(re_split, mod)

    def subn(*a, **k):
        raise Unsupported('subn')
    H[mod.subn] = subn
    if hasattr(mod, 'subf'):
        H[mod.subf] = functools.partial(re_subf, mod)

    def comp(p, flags=0, **kw):
        return mod.compile(conc(p), flags)
    H[mod.compile] = comp

    def esc(p):
        return p.lift(mod.escape) if isinstance(p, SymStr) else mod.escape(p)
    H[mod.escape] = esc


_install(_re)
if _regex is not None:
    _install(_regex)


def _pattern_method(pat, name, a, k):
    mod = _re if isinstance(pat, _re.Pattern) else _regex
    f = {'sub': re_sub, 'findall': re_findall, 'finditer': re_finditer, 'search': re_search,
         'split': re_split, 'subf': re_subf}.get(name)
    if f:
        return f(mod, pat, *a, **k)
    if name in ('match', 'fullmatch'):
        return re_search(mod, pat, *a, how=name, **k)
    raise Unsupported('pattern method ' + name)


# ------------------------------------------------------------------ builtins

def h_len(x):
    return len(x)


def h_isinstance(x, t):
    if isinstance(x, SymStr):
        ts = t if isinstance(t, tuple) else (t,)
        return str in ts or object in ts
    if isinstance(x, SymBool):
        return isinstance(True, t)
    return isinstance(x, t)


def h_str(x=''):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return str(bool(x))
    if hasattr(x, 'to_symstr'):
        return x.to_symstr()
    return str(x)


def h_print(*a, **k):
    return None


def h_type(x, *r):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    return type(x, *r)


def h_ord(x):
    if isinstance(x, SymStr):
        return ord(x.concretize())
    return ord(x)


def h_int(x=0, *b):
    if isinstance(x, SymStr):
        h = INT_HOOK
        if h is not None and not b:
            return h(x)
        return x.lift(int)
    if hasattr(x, 'to_int'):
        return x.to_int()
    return int(x, *b)


INT_HOOK = None


def h_bool(x=False):
    return bool(x)


def h_hash(x):
    return hash(x)


def h_any(it):
    t = []
    last = None
    for x in it:
        if type(x) is SymBool:
            t.append(x)
        elif x:
            return True
    if not t:
        return False
    return or_bools(t)


def or_bools(bs):
    """disjunction without a decision per disjunct"""
    ctx = bs[0].ctx
    t = []
    f = bs[0].f
    t.extend(bs[0].t)
    for b in bs[1:]:
        nf = []
        for x in f:
            for y in b.t:
                z = _and(x, y)
                if z:
                    t.append(z)
            for y in b.f:
                z = _and(x, y)
                if z:
                    nf.append(z)
        f = nf
        if not f:
            return True
    return SymBool(ctx, t, f)


def _and(a, b):
    r = tuple([x & y for x, y in zip(a, b)])
    for x in r:
        if not x:
            return None
    return r


def h_uname(x, *d):
    if isinstance(x, SymStr):
        return x.lift(lambda v: unicodedata.name(v, *d))
    return unicodedata.name(x, *d)


def h_unormalize(form, s):
    if not isinstance(s, SymStr):
        return unicodedata.normalize(form, s)
    return simp(s.unicode_normalize(form))


def h_lift1(f):
    def g(x, *a):
        if isinstance(x, SymStr):
            return x.lift(lambda v: f(v, *a))
        return f(x, *a)
    return g


HANDLERS.update({
    isinstance: h_isinstance, str: h_str, print: h_print, type: h_type, ord: h_ord, int: h_int,
    len: h_len, bool: h_bool, hash: h_hash, any: h_any, repr: lambda x: repr(conc(x)),
    unicodedata.name: h_uname, unicodedata.normalize: h_unormalize,
    unicodedata.category: h_lift1(unicodedata.category),
    unicodedata.combining: h_lift1(unicodedata.combining),
    unicodedata.decimal: h_lift1(unicodedata.decimal),
    unicodedata.digit: h_lift1(unicodedata.digit),
    unicodedata.numeric: h_lift1(unicodedata.numeric),
})
try:
    from fontTools import unicodedata as _ucd
    HANDLERS[_ucd.script] = h_lift1(_ucd.script)
except ImportError:
    pass

PASS = {list, tuple, set, frozenset, dict, map, filter, zip, enumerate, reversed, range, sorted,
        all, min, max, sum, iter, next, functools.reduce, getattr, setattr, hasattr, callable,
        functools.cmp_to_key, id, super, float, abs, round, divmod}

_BM = types.BuiltinMethodType
_MT = types.MethodType
_FT = types.FunctionType
_MW = type(''.__add__)


def _conc_all(a, k):
    return [conc(x) for x in a], {n: conc(x) for n, x in k.items()}


def call(f, /, *a, **k):
    tf = type(f)
    if tf is _MT:
        return f(*a, **k)
    if tf is _BM:
        s = f.__self__
        ts = type(s)
        if ts is str:
            name = f.__name__
            if name == 'join':
                (it,) = a
                if type(it) is str:
                    return f(it)
                items = list(it)
                for x in items:
                    if type(x) is SymStr:
                        return join(s, items)
                return f(items)
            if any_sym(a, k) or (a and type(a[0]) is tuple and any_sym(a[0], None)):
                return _str_method(s, name, a, k)
            return f(*a, **k)
        if ts is _re.Pattern or (_regex is not None and ts is _regex.Pattern):
            if any_sym(a, k) or (a and callable(a[0])):
                return _pattern_method(s, f.__name__, a, k)
            return f(*a, **k)
        if ts is dict and any_sym(a, k) and f.__name__ == 'get':
            key = a[0]
            d = a[1] if len(a) > 1 else None
            if isinstance(key, SymStr):
                if is_sym(d):
                    c = contains(key, s)
                    if c:
                        return getitem(s, key)
                    return d
                return key.lift(lambda v: s.get(v, d))
        h = HANDLERS.get(f) if ts is types.ModuleType else None
        if h is not None:
            return h(*a, **k)
        if ts in (list, dict, set, tuple) or ts.__module__ != 'builtins':
            return f(*a, **k)
        if f in PASS:
            if k and 'key' in k and k['key'] is not None:
                k['key'] = functools.partial(call, k['key'])
            return f(*a, **k)
        if any_sym(a, k):
            a, k = _conc_all(a, k)
        return f(*a, **k)
    if tf is _FT:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
        mod = f.__module__
        if mod is not None and mod.startswith(PREFIX):
            return f(*a, **k)
        if f is warnings.warn:
            a, k = _conc_all(a, k)
        return f(*a, **k)
    if tf is type:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
        if f is map or f is filter:
            g = a[0]
            if g is not None:
                a = (functools.partial(call, g),) + a[1:]
        return f(*a, **k)
    if tf is types.MethodDescriptorType and a:
        # str.lower(x), map targets
        if isinstance(a[0], SymStr):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if type(a[0]) is str and any_sym(a, k):
            return _str_method(a[0], f.__name__, a[1:], k)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if tf is _BM or tf is _MW:
        if any_sym(a, k):
            a, k = _conc_all(a, k)
    return f(*a, **k)


PREFIX = 'aksharamukha'


def join(sep, items):
    r = ''
    first = True
    for p in items:
        if type(p) is not str and type(p) is not SymStr:
            raise TypeError('sequence item: expected str instance')
        if first:
            r = p
            first = False
        else:
            if sep:
                r = r + sep
            r = r + p
    return r


def _str_method(s, name, a, k):
    if name == 'replace' and type(a[0]) is str and type(a[1]) is SymStr:
        parts = s.split(a[0], *a[2:]) if a[0] else None
        if parts is None:
            return s.replace(a[0], a[1].concretize())
        return join(a[1], parts)
    if name == 'format':
        out = ''
        auto = 0
        for lit, field, spec, cv in _string.Formatter().parse(s):
            out = out + lit
            if field is not None:
                if spec or cv:
                    aa, kk = _conc_all(a, k)
                    return s.format(*aa, **kk)
                if field == '':
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                elif field in k:
                    v = k[field]
                else:
                    aa, kk = _conc_all(a, k)
                    return s.format(*aa, **kk)
                out = out + h_str(v)
        return out
    ctx = next(x for x in list(a) + list(k.values()) if is_sym(x)).ctx
    aa, kk = _conc_all(a, k)
    return getattr(s, name)(*aa, **kk)


def contains(x, c):
    if type(c) is SymStr:
        return c.contains(x)
    if type(x) is SymStr:
        if type(c) is str:
            return x.lift(lambda v: v in c)
        if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c) in (type({}.keys()), type({}.values())):
            items = list(c)
            strs = sorted({i for i in items if type(i) is str}, key=lambda v: (-len(v), v))
            bs = []
            if strs:
                r = x._truth(Rx.get('|'.join(map(_re.escape, strs))), 'fullmatch')
                if r is True:
                    return True
                if r is not False:
                    bs.append(r)
            for i in items:
                if type(i) is SymStr:
                    r = x == i
                    if r is True:
                        return True
                    if r is not False:
                        bs.append(r)
            if not bs:
                return False
            return or_bools(bs)
    if isinstance(c, (list, tuple)) and type(x) is str:
        bs = []
        for i in c:
            if type(i) is SymStr:
                r = i == x
                if r is True:
                    return True
                if r is not False:
                    bs.append(r)
        if bs:
            return True if x in [i for i in c if type(i) is not SymStr] else or_bools(bs)
    return x in c


def not_contains(x, c):
    r = contains(x, c)
    if type(r) is SymBool:
        return r.neg()
    return not r


def getitem(o, i):
    if type(i) is SymStr and isinstance(o, dict):
        def f(v):
            return o[v]
        return i.lift(f)
    return o[i]


def fstr(*parts):
    r = ''
    for p in parts:
        if isinstance(p, tuple):
            v, cv, spec = p
            if cv == -1 and not spec:
                v = h_str(v) if is_sym(v) else format(v, '')
            else:
                v = conc(v)
                if cv == 114:
                    v = repr(v)
                elif cv == 115:
                    v = str(v)
                elif cv == 97:
                    v = ascii(v)
                v = format(v, conc(spec) if spec else '')
            r = r + v
        else:
            r = r + p
    return r


def mod(a, b):
    if type(a) is str:
        t = b if isinstance(b, tuple) else (b,)
        if any_sym(t, None):
            if a.replace('%s', '').count('%') == 0:
                ps = a.split('%s')
                r = ps[0]
                for x, p in zip(t, ps[1:]):
                    r = r + h_str(x) + p
                return r
            return a % tuple(conc(x) for x in t)
    if type(a) is SymStr:
        return a.concretize() % b
    return a % b


def enter(name):
    FUNCS.add(name)
