"""Exact multivariate polynomials over hashable atoms (values of index-like
expressions and exponents of graded units).  No solver, no floating point."""
from fractions import Fraction as F

ONE = ()


KEYS = {}


def _key(a):
    if isinstance(a, str):
        return (0, a)
    k = KEYS.get(a)
    if k is None:
        k = KEYS[a] = (1, repr(a))
    return k


def _mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return d


class Poly:
    __slots__ = ('t', '_h', '_d')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None
        self._d = None

    # construction -------------------------------------------------------
    @staticmethod
    def const(c):
        c = F(c)
        return Poly({ONE: c}) if c else Poly()

    @staticmethod
    def atom(a, coef=1):
        return Poly({((a, 1),): F(coef)})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, str):
            return Poly.atom(x)
        return Poly.const(x)

    # queries ------------------------------------------------------------
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, F(0))

    def atoms(self):
        return {a for mono in self.t for a, _ in mono}

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def coeff_of(self, a):
        """coefficient polynomial of a (degree 1 part); None if nonlinear in a"""
        out = {}
        for mono, c in self.t.items():
            d = dict(mono)
            if a in d:
                if d[a] != 1:
                    return None
                del d[a]
                k = tuple(sorted(d.items(), key=lambda p: _key(p[0])))
                out[k] = out.get(k, 0) + c
        return Poly({k: v for k, v in out.items() if v})

    def without(self, a):
        return Poly({m: c for m, c in self.t.items() if a not in dict(m)})

    # arithmetic ---------------------------------------------------------
    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                d = _mono_mul(m1, m2)
                c = c1 * c2
                if d.get('I', 0) >= 2 or d.get('I', 0) < 0:
                    n = d['I']
                    q, r = divmod(n, 2)
                    if q % 2:
                        c = -c
                    if r:
                        d['I'] = 1
                    else:
                        del d['I']
                m = tuple(sorted(((a, e) for a, e in d.items() if e),
                                 key=lambda p: _key(p[0])))
                v = t.get(m, 0) + c
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def scale(self, c):
        c = F(c)
        return Poly({m: v * c for m, v in self.t.items()}) if c else Poly()

    def inv(self):
        """1/p for a single monomial, else None"""
        if len(self.t) != 1:
            return None
        (m, c), = self.t.items()
        return Poly({ONE: 1 / c}) * Poly({tuple((a, -e) for a, e in m): F(1)})

    def pow(self, n):
        if n < 0:
            i = self.inv()
            return None if i is None else i.pow(-n)
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
            if len(r.t) > 120:
                return None
        return r

    def deep(self):
        """all atoms, with those inside the arguments of atoms"""
        if self._d is None:
            out = set()
            for m in self.t:
                for a, _ in m:
                    out |= inside(a)
            self._d = frozenset(out)
        return self._d

    def subs(self, mp):
        keys = mp.keys()
        if keys.isdisjoint(self.deep()):
            return self
        kept = {m: c for m, c in self.t.items() if all(keys.isdisjoint(inside(a)) for a, _ in m)}
        r = Poly(kept)
        for mono, c in self.t.items():
            if mono in kept:
                continue
            term = Poly.const(c)
            for a, e in mono:
                if a in mp:
                    q = Poly.of(mp[a])
                elif isinstance(a, tuple):
                    q = atom_subs(a, mp)
                else:
                    q = Poly.atom(a)
                if e >= 0:
                    p = q.pow(e)
                else:
                    p = q.pow(e)
                if p is None:
                    return Poly.atom(('subs', self, tuple(sorted(map(str, mp)))))
                term = term * p
            r = r + term
        return r

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda p: [(_key(a), e) for a, e in p[0]]):
            s = '*'.join(fmt_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-')

    # canonical primitive form for fact lookup ---------------------------
    def canon(self):
        """(primitive poly with positive leading coefficient, flipped?)"""
        if not self.t:
            return self, False
        keys = sorted(self.t, key=lambda m: [(_key(a), e) for a, e in m])
        lead = None
        for k in keys:
            if k != ONE:
                lead = self.t[k]
                break
        if lead is None:
            lead = self.t[ONE]
        p = self.scale(1 / abs(lead))
        if lead < 0:
            return -p, True
        return p, False


def fmt_atom(a):
    if isinstance(a, str):
        return a.split('@')[0]
    if isinstance(a, tuple):
        if a[0] == '//':
            return '((%r)//%r)' % (a[1], a[2])
        if a[0] == '%':
            return '((%r)%%%r)' % (a[1], a[2])
        return '%s(%s)' % (a[0], ','.join(map(str, a[1:])))
    return str(a)


INSIDE = {}


def inside(a):
    r = INSIDE.get(a)
    if r is None:
        r = {a}
        if isinstance(a, tuple):
            for x in a:
                if isinstance(x, Poly):
                    r |= x.deep()
        r = INSIDE[a] = frozenset(r)
    return r


def atom_subs(a, mp):
    if a and a[0] in ('//', '%', 'abs', 'max', 'min', 'int'):
        args = [x.subs(mp) if isinstance(x, Poly) else x for x in a[1:]]
        return mk_op(a[0], *args)
    if a and a[0] == 'ind':
        from .algebra import ind
        return ind(frozenset(a[1]), a[2].subs(mp))
    if any(isinstance(x, Poly) for x in a):
        args = [x.subs(mp) if isinstance(x, Poly) else x for x in a[1:]]
        return Poly.atom((a[0],) + tuple(args))
    return Poly.atom(a)


def mk_op(op, *args):
    args = [Poly.of(x) if not isinstance(x, Poly) else x for x in args]
    if op == '//' and len(args) == 2:
        a, b = args
        if b.is_const() and b.cval() != 0:
            c = b.cval()
            if a.is_const():
                return Poly.const(a.cval() // c)
            # split off the exactly divisible part
            exact, rest = {}, {}
            for m, v in a.t.items():
                q = v / c
                if q.denominator == 1:
                    exact[m] = q
                else:
                    rest[m] = v
            if not rest:
                return Poly(exact)
            r = Poly(rest)
            if r.is_const():
                return Poly(exact) + Poly.const(r.cval() // c)
            return Poly(exact) + Poly.atom(('//', r, b))
    if op == '%' and len(args) == 2:
        a, b = args
        if b.is_const() and b.cval() != 0:
            c = b.cval()
            if a.is_const():
                return Poly.const(a.cval() % c)
            rest = {m: v % c for m, v in a.t.items()
                    if (v / c).denominator != 1}
            r = Poly({m: v for m, v in rest.items() if v})
            if r.is_const():
                return Poly.const(r.cval() % c)
            return Poly.atom(('%', r, b))
    if op == 'abs' and args[0].is_const():
        return Poly.const(abs(args[0].cval()))
    if op in ('max', 'min') and all(x.is_const() for x in args):
        f = max if op == 'max' else min
        return Poly.const(f(x.cval() for x in args))
    return Poly.atom((op,) + tuple(args))


def poly_eval(p, env):
    """value of p for integer/rational values of its atoms"""
    r = F(0)
    for mono, c in p.t.items():
        t = c
        for a, e in mono:
            t *= atom_eval(a, env) ** e
        r += t
    return r


def atom_eval(a, env):
    if isinstance(a, str):
        return env[a]
    xs = [poly_eval(x, env) for x in a[1:] if isinstance(x, Poly)]
    if a[0] == '//' and len(xs) == 2:
        return F(xs[0] // xs[1])
    if a[0] == '%' and len(xs) == 2:
        return F(xs[0] % xs[1])
    if a[0] == 'abs':
        return abs(xs[0])
    if a[0] in ('max', 'min'):
        return (max if a[0] == 'max' else min)(xs)
    if a[0] == 'int':
        return F(int(xs[0]))
    raise KeyError(a)
