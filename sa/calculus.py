"""Derivatives and power series of value terms: a closed form is an integral when
its derivative by the limits of the integral is the integrand and it vanishes
where the limits meet."""
from fractions import Fraction as F
from .poly import Poly
from .algebra import Opaque, deep
from .concrete import power, sqrt_of, reduce, equal

ONEP = Poly.const(1)


def diff(p, x):
    out = Poly()
    for mono, c in p.t.items():
        for a, e in mono:
            d = diff_atom(a, x)
            if not d.is_zero():
                rest = Poly({tuple((b, k - (b == a)) for b, k in mono if k != (b == a)): c * e})
                out = out + rest * d
    return out


def diff_atom(a, x):
    if isinstance(a, str):
        return ONEP if a == x else Poly()
    if x not in deep(Poly.atom(a)):
        return Poly()
    f, q = a[0], a[1]
    if f == 'sqrt':
        return diff(q, x).scale(F(1, 2)) * Poly({((a, -1),): F(1)})
    if f == 'log':
        return diff(q, x) * power(q, -1)
    if f == 'sin':
        return diff(q, x) * Poly.atom(('cos', q))
    if f == 'cos':
        return -diff(q, x) * Poly.atom(('sin', q))
    if f == 'exp':
        return diff(q, x) * Poly.atom(a)
    if f == 'arctan':
        return diff(q, x) * power(1 + q * q, -1)
    raise Opaque


class Series:
    """x^v (c0 + c1 x + ...), N terms"""
    N = 12

    def __init__(self, v, cs):
        cs = list(cs)[:self.N]
        while cs and cs[0].is_zero():
            cs.pop(0)
            v += 1
        self.v, self.cs = v, cs + [Poly()] * (self.N - len(cs)) if cs else []

    def __mul__(self, o):
        if not self.cs or not o.cs:
            return Series(0, [])
        out = [Poly()] * self.N
        for i, a in enumerate(self.cs):
            if not a.is_zero():
                for j in range(self.N - i):
                    if not o.cs[j].is_zero():
                        out[i + j] = out[i + j] + a * o.cs[j]
        return Series(self.v + o.v, out)

    def __add__(self, o):
        if not self.cs:
            return o
        if not o.cs:
            return self
        v = min(self.v, o.v)
        out = [Poly()] * self.N
        for s in (self, o):
            for i, c in enumerate(s.cs):
                if i + s.v - v < self.N:
                    out[i + s.v - v] = out[i + s.v - v] + c
        return Series(v, [reduce(c) for c in out])

    def unit(self):
        """leading coefficient and the rest of the series over it, less one"""
        if not self.cs or len(self.cs[0].t) != 1:
            raise Opaque
        i = self.cs[0].inv()
        return self.cs[0], Series(0, [Poly()] + [c * i for c in self.cs[1:]])

    def expand(self, coef):
        """sum of coef(k) (rest)^k"""
        c, u = self.unit()
        out, t = Series(0, [Poly.const(coef(0))]), Series(0, [ONEP])
        for k in range(1, self.N):
            t = t * u
            if not t.cs:
                break
            out = out + t * Series(0, [Poly.const(coef(k))])
        return c, out

    def root(self, e, pos):
        """to the power e/2"""
        def coef(k):
            r = F(1)
            for i in range(k):
                r = r * (F(e, 2) - i) / (i + 1)
            return r
        c, s = self.expand(coef)
        if self.v * e % 2:
            raise Opaque
        r = sqrt_of(c, pos)
        lead = Poly({tuple((a, k * e) for a, k in next(iter(r.t))): next(iter(r.t.values())) ** e}) if len(r.t) == 1 else None
        if lead is None:
            raise Opaque
        s = s * Series(0, [lead])
        return Series(s.v + self.v * e // 2, s.cs)

    def log(self):
        if self.v:
            raise Opaque
        c, s = self.expand(lambda k: F((-1) ** (k + 1), k) if k else 0)
        return s + Series(0, [Poly() if c == ONEP else Poly.atom(('log', c))])


def series(p, x, pos):
    out = Series(0, [])
    for mono, c in p.t.items():
        t = Series(0, [Poly.const(c)])
        for a, e in mono:
            if a == x:
                t = Series(t.v + e, t.cs)
            elif isinstance(a, str) or x not in deep(Poly.atom(a)):
                t = t * Series(0, [Poly({((a, e),): F(1)})])
            elif a[0] == 'sqrt':
                t = t * series(a[1], x, pos).root(e, pos)
            elif a[0] == 'log' and e > 0:
                s = series(a[1], x, pos).log()
                for _ in range(e):
                    t = t * s
            else:
                raise Opaque
        out = out + t
    return out


def logs(p):
    """log 1 = 0"""
    mp = {}
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] == 'log' and equal(a[1], ONEP, ONEP):
            mp[a] = Poly()
    return p.subs(mp) if mp else p


def is_integral(p, f, a, b, h, pos):
    """p is the integral of f over radii from a to b and heights from 0 to h"""
    at = logs(p.subs({b: Poly.atom(a)}))
    if not equal(at, Poly(), ONEP):
        return False
    d = diff(p, b)
    if not equal(diff(d, h), f, ONEP):
        return False
    s = series(d, h, pos)
    if any(i + s.v <= 0 and not equal(c, Poly(), ONEP) for i, c in enumerate(s.cs)):
        return False
    # what does not depend on the outer radius is fixed by the first condition
    return True
