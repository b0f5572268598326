"""Program states, integer symbols and the (solver-free) sign/bound reasoning."""
from fractions import Fraction as F
from .poly import Poly, mk_op, ONE
from .dom import *


class Sym:
    """bounded integer symbol: lo <= s <= hi (each a list of Polys, may be empty)"""

    def __init__(self, name, lo, hi, order):
        self.name, self.lo, self.hi, self.order = name, lo, hi, order


class Symbols:
    def __init__(self):
        self.tab = {}
        self.n = 0

    def get(self, name, lo=(), hi=()):
        if name not in self.tab:
            self.n += 1
            self.tab[name] = Sym(name, list(lo), list(hi), self.n)
        return self.tab[name]

    def variant(self, name, mp, tag):
        """copy of symbol `name` with bounds under substitution mp"""
        s = self.tab[name]
        new = '%s%s' % (name, tag)
        if new not in self.tab:
            self.n += 1
            self.tab[new] = Sym(new, [p.subs(mp) for p in s.lo],
                                [p.subs(mp) for p in s.hi], self.n)
        return new


class State:
    __slots__ = ('env', 'store', 'heap', 'facts', 'closures')

    def __init__(self):
        self.env = {}
        self.store = {}
        self.heap = {}
        self.facts = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.store = dict(self.store)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.facts = dict(self.facts)
        return s

    def add_fact(self, poly, signs):
        """learn sign(poly) in signs; False when contradictory"""
        if poly is None:
            return True
        if poly.is_const():
            c = poly.cval()
            sg = '0' if c == 0 else ('+' if c > 0 else '-')
            return sg in signs
        p, fl = poly.canon()
        if fl:
            signs = sg_neg(signs)
        cur = self.facts.get(p, SIGNS_ALL) & signs
        self.facts[p] = cur
        return bool(cur)


ABS = {}


def abs_facts(facts):
    """the facts, with E - |x| >= 0 read as E - x >= 0 and E + x >= 0 as well"""
    out = None
    for p, sg in facts.items():
        k = (p, sg)
        if k not in ABS:
            ABS[k] = ()
            ab = [a for a in p.atoms() if isinstance(a, tuple) and a[0] == 'abs' and len(a) == 2]
            if len(ab) == 1:
                co = p.coeff_of(ab[0])
                if co is not None and co.is_const() and co.cval():
                    pos = co.cval() < 0
                    if sg <= (SNN if pos else SNP):
                        rest = p.without(ab[0])
                        sr = sg if sg <= SP or sg <= SN else (SNN if pos else SNP)
                        got = []
                        for x in (ab[0][1], -ab[0][1]):
                            c, fl = (rest + co * x).canon() if not (rest + co * x).is_const() else (None, False)
                            if c is not None:
                                got.append((c, sg_neg(sr) if fl else sr))
                        ABS[k] = tuple(got)
        if ABS[k]:
            out = dict(facts) if out is None else out
            for c, g in ABS[k]:
                out[c] = (out.get(c, SIGNS_ALL) & g) or SIGNS_ALL
    return facts if out is None else out


def intern_sign(c):
    return SZ if c == 0 else (SP if c > 0 else SN)


class Reason:
    """sign(poly) from facts, symbol bounds and a few closed rules."""

    def __init__(self, syms):
        self.syms = syms
        self.int_atoms = set()

    def is_int(self, a):
        if isinstance(a, tuple):
            return a[0] in ('//', '%', 'int')
        return a in self.syms.tab or a in self.int_atoms or a.startswith('$')

    def integral(self, p):
        return all(all(self.is_int(a) and e >= 0 for a, e in m) and c.denominator == 1
                   for m, c in p.t.items())

    def atom_sign(self, a, st, depth):
        if a == 'pi':
            return SP
        base = SIGNS_ALL
        f = st.facts.get(Poly.atom(a))
        if f is not None:
            base = base & f
        if isinstance(a, tuple):
            if a[0] == 'abs':
                base = base & SNN
                s = self.sign(a[1], st, depth - 1)
                if '0' not in s:
                    base = base & SP
            elif a[0] == '//' and depth > 0:
                s = self.sign(a[1], st, depth - 1)
                if '-' not in s:
                    base = base & SNN
            elif a[0] == '%':
                if isinstance(a[2], Poly) and a[2].is_const() and a[2].cval() > 0:
                    base = base & SNN
            elif a[0] == 'max':
                ss = [self.sign(x, st, depth - 1) for x in a[1:]]
                if any(s <= SP for s in ss):
                    base = base & SP
                elif any(s <= SNN for s in ss):
                    base = base & SNN
        elif a in self.syms.tab and depth > 0:
            sy = self.syms.tab[a]
            for lo in sy.lo:
                s = self.sign(lo, st, depth - 1)
                if s <= SP:
                    base = base & SP
                elif s <= SNN:
                    base = base & SNN
            for hi in sy.hi:
                s = self.sign(hi, st, depth - 1)
                if s <= SN:
                    base = base & SN
                elif s <= SNP:
                    base = base & SNP
        return base or SIGNS_ALL

    def term_sign(self, mono, c, st, depth):
        s = intern_sign(c)
        for a, e in mono:
            if a == 'I':
                return SIGNS_ALL
            sa = self.atom_sign(a, st, depth)
            if e % 2 == 0:
                sa = SP if '0' not in sa else SNN
            s = sg_mul(s, sa)
        return s

    def sign(self, p, st, depth=6):
        if p.is_const():
            return intern_sign(p.cval())
        if 'I' in p.atoms():
            return SIGNS_ALL
        res = SIGNS_ALL
        c, fl = p.canon()
        facts = abs_facts(st.facts)
        f = facts.get(c)
        if f is not None:
            res = res & (sg_neg(f) if fl else f)
            if len(res) == 1:
                return res
        s = None
        for m, cf in p.t.items():
            t = self.term_sign(m, cf, st, depth)
            s = t if s is None else sg_add(s, t)
        res = (res & s) or res
        if len(res) == 1 or depth <= 0:
            return res
        # linear use of one fact
        for q, fs in facts.items():
            if fs == SIGNS_ALL or q == c:
                continue
            if not (q.atoms() & p.atoms()):
                continue
            for k in (1, -1):
                qs = fs if k == 1 else sg_neg(fs)
                if not (qs <= SNN or qs <= SNP):
                    continue
                r = p - q.scale(k)
                if len(r.t) >= len(p.t) + (0 if len(p.t) > 1 else 1):
                    continue
                rs = None
                for m, cf in r.t.items():
                    t = self.term_sign(m, cf, st, depth - 1)
                    rs = t if rs is None else sg_add(rs, t)
                if rs is None:
                    rs = SZ
                t = sg_add(qs, rs)
                if (res & t):
                    res = res & t
                if len(res) == 1:
                    return res
        if '-' in res and self.prove_ge(p, st, depth):
            res = res - SN
            if '0' in res and self.integral(p) and self.prove_ge(p - 1, st, depth):
                res = res - SZ
        if '+' in res and self.prove_ge(-p, st, depth):
            res = res - SP
            if '0' in res and self.integral(p) and self.prove_ge(-p - 1, st, depth):
                res = res - SZ
        return res or SIGNS_ALL

    def prove_ge(self, p, st, depth):
        """p >= 0 by eliminating bounded symbols, innermost first"""
        if p.is_const():
            return p.cval() >= 0
        if depth <= 0:
            return False
        c, fl = p.canon()
        f = abs_facts(st.facts).get(c)
        if f is not None and (sg_neg(f) if fl else f) <= SNN:
            return True
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] in ('min', 'max'):
                co = p.coeff_of(a)
                if co is None or not co.is_const():
                    continue
                rest = p.without(a)
                easy = (a[0] == 'max') == (co.cval() > 0)
                return (any if easy else all)(self.prove_ge(rest + co * x, st, depth - 1) for x in a[1:])
        cands = [a for a in p.atoms() if a in self.syms.tab]
        if not cands:
            # floor division atoms: (x//2) <= x/2 , >= (x-1)/2 ; then term signs
            for a in p.atoms():
                if isinstance(a, tuple) and a[0] == '//' and a[2].is_const() and a[2].cval() > 0:
                    co = p.coeff_of(a)
                    if co is None or not co.is_const():
                        continue
                    k = a[2].cval()
                    rest = p.without(a)
                    bound = a[1].scale(F(1) / k) if co.cval() < 0 else \
                        (a[1] - Poly.const(k - 1)).scale(F(1) / k)
                    return self.prove_ge(rest + co * bound, st, depth - 1)
            s = None
            for m, cf in p.t.items():
                t = self.term_sign(m, cf, st, 2)
                s = t if s is None else sg_add(s, t)
            if s is not None and s <= SNN:
                return True
            for q, fs in abs_facts(st.facts).items():
                if fs <= SNN or fs <= SNP:
                    k = 1 if fs <= SNN else -1
                    lead = [m for m in q.t if m != ONE and m in p.t]
                    if not lead:
                        continue
                    ratio = p.t[lead[0]] / (q.t[lead[0]] * k)
                    if ratio <= 0:
                        continue
                    r = p - q.scale(k * ratio)
                    if len(r.t) < len(p.t) or r.is_const():
                        if self.prove_ge(r, st, depth - 1):
                            return True
            return False
        a = max(cands, key=lambda x: self.syms.tab[x].order)
        co = p.coeff_of(a)
        if co is None:
            return False
        s = self.sign(co, st, depth - 2)
        sy = self.syms.tab[a]
        rest = p.without(a)
        if s <= SNN:
            bs = sy.lo
        elif s <= SNP:
            bs = sy.hi
        else:
            return False
        for b in bs:
            if self.prove_ge(rest + co * b, st, depth - 1):
                return True
        return False
