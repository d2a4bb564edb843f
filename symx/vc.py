"""Verification conditions: symbolic results -> z3."""
import time

import z3

from .core import (SymStr, SymBool, Buf, Split, restrict, restrict_entry, box_and, merge_boxes, Cell)


class VC:
    """One solver per job; all queries of the job go to it with push/pop."""

    def __init__(self, ctx_domains):
        self.domains = ctx_domains
        self.bits = [max(1, (len(d)).bit_length()) for d in ctx_domains]
        self.vars = [z3.BitVec('x%d' % k, b) for k, b in enumerate(self.bits)]
        self.full = tuple([(1 << len(d)) - 1 for d in ctx_domains])
        self.solver = z3.Solver()
        self.solver.set('timeout', 120000)
        for k, d in enumerate(ctx_domains):
            self.solver.add(z3.ULT(self.vars[k], z3.BitVecVal(len(d), self.bits[k])))
        self._in = {}
        self.queries = 0
        self.time = 0.0
        self.unknown = 0

    def member(self, k, mask):
        key = (k, mask)
        r = self._in.get(key)
        if r is None:
            x, b = self.vars[k], self.bits[k]
            full = self.full[k]
            if mask & full == full:
                r = z3.BoolVal(True)
            else:
                parts = []
                i = 0
                n = len(self.domains[k])
                while i < n:
                    if mask >> i & 1:
                        j = i
                        while j + 1 < n and mask >> (j + 1) & 1:
                            j += 1
                        if i == j:
                            parts.append(x == z3.BitVecVal(i, b))
                        else:
                            p = []
                            if i:
                                p.append(z3.UGE(x, z3.BitVecVal(i, b)))
                            if j < n - 1:
                                p.append(z3.ULE(x, z3.BitVecVal(j, b)))
                            parts.append(z3.And(p) if len(p) != 1 else p[0])
                        i = j + 1
                    else:
                        i += 1
                r = z3.Or(parts) if len(parts) != 1 else parts[0]
            self._in[key] = r
        return r

    def box(self, b):
        ps = [self.member(k, m) for k, m in enumerate(b) if m & self.full[k] != self.full[k]]
        if not ps:
            return z3.BoolVal(True)
        return z3.And(ps) if len(ps) > 1 else ps[0]

    def neq(self, a, b):
        """formula: two cells, whose values are single characters, hold different characters"""
        if a.var == b.var or a.var < 0 or b.var < 0:
            if a.var < 0:
                a, b = b, a
            ors = []
            for t, m in sorted(a.alts.items()):
                if b.var < 0:
                    if t not in b.alts:
                        ors.append(self.member(a.var, m))
                elif b.alts.get(t) != m:
                    n = b.alts.get(t, 0)
                    x = self.member(a.var, m)
                    ors.append(z3.And(x, z3.Not(self.member(b.var, n))) if n else x)
            return z3.Or(ors) if ors else z3.BoolVal(False)
        return z3.Not(z3.Or([z3.And(self.member(a.var, m), self.member(b.var, b.alts[t])) for t, m in sorted(a.alts.items()) if t in b.alts]))

    def check(self, extra):
        """sat/unsat/unknown and model values"""
        self.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        vals = None
        if r == z3.sat:
            m = self.solver.model()
            vals = []
            for x in self.vars:
                v = m.eval(x, model_completion=True).as_long()
                vals.append(v)
        self.solver.pop()
        self.time += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return str(r), vals

    # -------------------------------------------------- properties
    def differ(self, a, b, boxes, ctx):
        """formula: the symbolic strings differ (within boxes)"""
        if isinstance(a, str) and isinstance(b, str):
            return z3.BoolVal(False) if a == b else z3.Or([self.box(x) for x in boxes])
        if isinstance(a, str):
            a = ctx.lift(a)
        if isinstance(b, str):
            b = ctx.lift(b)
        ors = []
        n = 0
        for ea in a.entries:
            for eb in b.entries:
                bx = ea.box if ea.box == eb.box else box_and(ea.box, eb.box)
                if bx is None:
                    continue
                if ea.cells == eb.cells and ea.box == eb.box:
                    n += 1
                    continue
                for box, pairs in align(restrict_entry(ea, bx), restrict_entry(eb, bx)):
                    n += 1
                    if pairs is None:
                        ors.append(self.box(box))
                        continue
                    ds = []
                    for ca, cb in pairs:
                        if ca is cb or ca == cb:
                            continue
                        if len(ca.alts) == 1 and len(cb.alts) == 1:
                            if next(iter(ca.alts)) != next(iter(cb.alts)):
                                ds = None
                                break
                            continue
                        ds.append(self.neq(ca, cb))
                    if ds is None:
                        ors.append(self.box(box))
                    elif ds:
                        ors.append(z3.And(self.box(box), z3.Or(ds)))
        self.pieces = n
        return z3.Or(ors) if ors else z3.BoolVal(False)

    def has_char(self, s, bad, boxes):
        """formula: some character of s is in bad (a predicate)"""
        if isinstance(s, str):
            if any(bad(c) for c in s):
                return z3.Or([self.box(x) for x in boxes])
            return z3.BoolVal(False)
        ors = []
        for e in s.entries:
            if not any(bad(ch) for ch in e.chars):
                continue
            inner = []
            for c in e.cells:
                mm = 0
                for t, m in c.alts.items():
                    if any(bad(ch) for ch in t):
                        mm |= m
                if mm:
                    inner.append(self.member(c.var, mm & e.box[c.var]) if c.var >= 0 else z3.BoolVal(True))
            ors.append(z3.And(self.box(e.box), z3.Or(inner)))
        self.pieces = len(s.entries)
        return z3.Or(ors) if ors else z3.BoolVal(False)

    def boxes_formula(self, boxes):
        return z3.Or([self.box(x) for x in boxes]) if boxes else z3.BoolVal(False)


def align(ea, eb):
    stack = [(ea.box, list(ea.cells), list(eb.cells))]
    while stack:
        box, x, y = stack.pop()
        b1, b2 = Buf(box, x), Buf(box, y)
        try:
            i = 0
            res = True
            while True:
                h1 = b1.ensure(i)
                h2 = b2.ensure(i)
                if not h1 or not h2:
                    res = h1 == h2
                    break
                i += 1
            yield box, (list(zip(b1.cells[:i], b2.cells[:i])) if res else None)
        except Split as sp:
            v = sp.var
            for mm in sp.masks:
                nb = box[:v] + (box[v] & mm,) + box[v + 1:]
                if nb[v]:
                    stack.append((nb, [restrict(c, mm) if c.var == v else c for c in b1.cells],
                                  [restrict(c, mm) if c.var == v else c for c in b2.cells]))


def evaluate(s, ix):
    """value of a symbolic result at a concrete point"""
    if isinstance(s, SymStr):
        for e in s.entries:
            if all(e.box[k] >> i & 1 for k, i in enumerate(ix)):
                w = ''
                for c in e.cells:
                    if c.var < 0:
                        w += next(iter(c.alts))
                    else:
                        for t, m in c.alts.items():
                            if m >> ix[c.var] & 1:
                                w += t
                                break
                return w
        raise KeyError('point outside the entries')
    if isinstance(s, SymBool):
        for b in s.t:
            if all(b[k] >> i & 1 for k, i in enumerate(ix)):
                return True
        for b in s.f:
            if all(b[k] >> i & 1 for k, i in enumerate(ix)):
                return False
        raise KeyError('point outside the boxes')
    return s


def volume(boxes):
    t = 0
    for b in boxes:
        p = 1
        for m in b:
            p *= m.bit_count()
        t += p
    return t
