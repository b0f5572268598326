"""Derived value terms at fixed integers: sums expanded, factorials and powers
evaluated, so that what is left is a polynomial in the dimensions."""
import math
from fractions import Fraction as F
from .poly import Poly, mk_op
from .algebra import Opaque, ind, deep
from .solids import root, SQPI, norm, conj_harmonic

ONEP = Poly.const(1)
INT = ('pi', 'I')


class Pole(Opaque):
    """a value that is not finite whatever the dimensions are"""


def power(p, n):
    """p^n for an integer n, exactly"""
    if n >= 0:
        r = ONEP
        for _ in range(n):
            r = r * p
        return r
    if p.is_zero():
        raise Pole
    if len(p.t) == 1:
        return p.pow(n)
    c, flip = p.canon()
    lead = next(v / c.t[k] for k, v in p.t.items())
    return Poly({((('sqrt', c), 2 * n),): lead ** n})


def sqrt_of(q, pos):
    """root of a term; even powers of positive quantities come out"""
    if q.is_zero():
        return q
    if q.is_const():
        if q.cval() < 0:
            raise Opaque
        return root(q.cval())
    if len(q.t) > 1:
        # 1 + sin^2/cos^2
        need = {a: e + e % 2 for a, e in mul_out(q).items() if a[0] in ('cos', 'sqrt')}
        r = reduce(times(q, need))
        if need and (r.is_const() or len(r.t) < len(q.t) + (not any(isinstance(a, tuple) and a[0] in ('sqrt', 'cos') for a in r.atoms()))):
            return sqrt_of(r, pos) * Poly({tuple(sorted(((a, -e // 2) for a, e in need.items()), key=lambda x: (1, repr(x[0])))): F(1)})
    com = None
    for m in q.t:
        d = dict(m)
        com = dict(d) if com is None else {a: min(com.get(a, 0), d.get(a, 0)) for a in set(com) | set(d)}
    out, rest = ONEP, q
    for a, e in sorted(com.items(), key=repr):
        if e and (a == 'pi' or a in pos or isinstance(a, tuple) and a[0] in ('sqrt', 'exp')):
            k = e if len(q.t) == 1 else e - e % 2
            if not k:
                continue
            rest = rest * Poly({((a, -k),): F(1)})
            if k % 2:
                out = out * Poly({((('sqrt', Poly.atom(a)), k),): F(1)})
            else:
                out = out * Poly({((a, k // 2),): F(1)})
    if rest.is_const():
        if rest.cval() < 0:
            raise Opaque
        return out * root(rest.cval())
    num, den = 0, 1
    for c in rest.t.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = F(num, den)
    return out * root(c) * Poly.atom(('sqrt', rest.scale(1 / c)))


def multiple(x, k, s, c):
    """(sin, cos) of k x from those of x"""
    S, K = Poly(), ONEP
    for _ in range(abs(k)):
        S, K = S * c + K * s, K * c - S * s
    return (S, K) if k >= 0 else (-S, K)


def sincos(p, pos):
    S, K = Poly(), ONEP
    for m, co in sorted(p.t.items(), key=repr):
        x = Poly({m: F(1)})
        if m == (('pi', 1),):
            if (2 * co).denominator == 1:
                n = int(2 * co) % 4
                s, c = [(0, 1), (1, 0), (0, -1), (-1, 0)][n]
                s, c = Poly.const(s), Poly.const(c)
            elif co.denominator in (3, 6) and False:
                pass
            else:
                k = co.numerator
                x = x.scale(F(1, co.denominator))
                s, c = multiple(x, k, Poly.atom(('sin', x)), Poly.atom(('cos', x)))
        else:
            x = x.scale(F(1, co.denominator))
            s0, c0 = Poly.atom(('sin', x)), Poly.atom(('cos', x))
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and co.denominator == 1:
                f, y = m[0][0][0], m[0][0][1] if len(m[0][0]) > 1 else None
                if f == 'arccos':
                    s0, c0 = sqrt_of(1 - y * y, pos), y
                elif f == 'arcsin':
                    s0, c0 = y, sqrt_of(1 - y * y, pos)
                elif f == 'arctan2' and not (y.is_zero() and m[0][0][2].is_zero()):
                    h = power(sqrt_of(reduce(y * y + m[0][0][2] * m[0][0][2]), pos), -1)
                    s0, c0 = y * h, m[0][0][2] * h
                elif f == 'arctan':
                    c0 = power(1 + y * y, -1)
                    c0 = Poly({tuple((a, e // 2) for a, e in mm): cc for mm, cc in c0.t.items()})
                    s0 = y * c0
            s, c = multiple(x, co.numerator, s0, c0)
        S, K = S * c + K * s, K * c - S * s
    return S, K


def legendre(n, m, x, y):
    """associated Legendre function with the Condon-Shortley sign, y = sqrt(1 - x^2)"""
    if m > n:
        return Poly()
    co = [F(0)] * (n + 1)
    for k in range(n // 2 + 1):
        co[n - 2 * k] = F((-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n), 2 ** n)
    for _ in range(m):
        co = [i * c for i, c in enumerate(co)][1:]
    return sum((power(x, i).scale(c) for i, c in enumerate(co) if c), Poly()) * power(y, m).scale((-1) ** m)


class Concrete:
    def __init__(self, ints, pos=(), sign=None):
        self.ints, self.pos, self.sign = dict(ints), frozenset(pos), sign
        self.memo = {}
        self.zeros = {}

    def __call__(self, p):
        key = (p, tuple(sorted((k, v) for k, v in self.ints.items() if k[0] == '#')))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.poly(p)
            if len(r.t) > 20000:
                raise Opaque
        return r

    def integer(self, p):
        q = self(p)
        if not q.is_const() or q.cval().denominator != 1:
            raise Opaque
        return int(q.cval())

    def poly(self, p):
        mp = {}
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] == 'ind':
                f = self.factor(a, 1)
                if f.is_const():
                    mp[a] = f       # before the rest: it may be undefined where this is 0
        if mp:
            p = p.subs(mp)
        out = Poly()
        for mono, co in p.t.items():
            fs, zero = [], False
            for a, e in sorted(mono, key=lambda x: not (isinstance(x[0], tuple) and x[0][0] == 'ind')):
                f = self.factor(a, e)
                if f.is_zero():
                    zero = True
                    break
                fs.append(f)
            if zero:
                continue
            t = Poly.const(co)
            for f in sorted(fs, key=lambda f: len(f.t)):
                t = t * f
            out = out + t
        return out

    def factor(self, a, e):
        if isinstance(a, str):
            if a in self.ints:
                v = self.ints[a]
                if v == 0 and e < 0:
                    raise Pole
                return Poly.const(F(v) ** e)
            return Poly({((a, e),): F(1)})
        f = a[0]
        if f == 'gamma':
            q = self(a[1])
            if not q.is_const():
                raise Opaque
            x = q.cval()
            if x.denominator == 1:
                if x <= 0:
                    if e < 0:
                        return Poly()
                    raise Pole
                return Poly.const(F(math.factorial(int(x) - 1)) ** e)
            if x.denominator == 2:
                c = F(1)
                while x > F(1, 2):
                    x -= 1
                    c *= x
                while x < F(1, 2):
                    c /= x
                    x += 1
                return Poly({((SQPI, e),): c ** e})
            raise Opaque
        if f == 'sqrt':
            q = self(a[1])
            if e % 2 == 0:
                return power(q, e // 2)
            if q.is_zero() and e < 0:
                raise Opaque
            r = sqrt_of(q, self.pos)
            if abs(e) == 1:
                return power(r, e)
            return power(q, (e - 1) // 2) * r
        if f == 'pow':
            b, x = self(a[1]), self(a[2])
            if not x.is_const():
                raise Opaque
            x = x.cval() * e
            if b.is_zero():
                if x < 0:
                    raise Opaque
                return ONEP if x == 0 else Poly()
            if x.denominator == 1:
                return power(b, int(x))
            if x.denominator == 2:
                r = sqrt_of(b, self.pos)
                n = int((2 * x - 1) // 2)
                return power(b, n) * r
            raise Opaque
        if f == 'ind':
            q = self(a[2])
            sg = self.sign(q) if self.sign and not q.is_const() else ''
            if sg and frozenset(sg) <= frozenset(a[1]):
                return ONEP
            if sg and not frozenset(sg) & frozenset(a[1]):
                return Poly()
            r = ind(frozenset(a[1]), q)
            return power(r, e)
        return power(self.atom(a), e)

    def atom(self, a):
        f = a[0]
        if f == 'sum':
            n = self.integer(a[1])
            k, out = a[3], Poly()
            sv = self.ints.get(k)
            for i in range(n):
                self.ints[k] = i
                out = out + self(a[2])
            if sv is None:
                self.ints.pop(k, None)
            else:
                self.ints[k] = sv
            return out
        if f == 'exp':
            q, out = self(a[1]), ONEP
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'log' and c.denominator == 1:
                    out = out * power(m[0][0][1], int(c))
                elif c.denominator == 1:
                    out = out * Poly({((('exp', Poly({m: F(1)})), int(c)),): F(1)})
                else:
                    out = out * Poly.atom(('exp', Poly({m: c})))
            return out
        if f in ('sin', 'cos', 'tan'):
            s, c = sincos(self(a[1]), self.pos)
            if f == 'tan':
                return s * power(c, -1)
            return s if f == 'sin' else c
        if f == 'sinc':
            q = self(a[1])
            if q.is_zero():
                return ONEP
            return sincos(q, self.pos)[0] * power(q, -1)
        if f == '%' and a[2] == Poly.atom('pi').scale(2):
            return Poly.atom((f, self(a[1]), a[2]))
        if f in ('//', '%', 'max', 'min', 'int'):
            xs = [self(x) for x in a[1:]]
            r = Poly.const(math.trunc(xs[0].cval())) if f == 'int' and xs[0].is_const() else mk_op(f, *xs)
            if not r.is_const():
                raise Opaque
            return r
        if f == 'abs':
            q = self(a[1])
            if q.is_const():
                return Poly.const(abs(q.cval()))
            if all(c > 0 and all(x in self.pos or x == 'pi' for x, _ in m) for m, c in q.t.items()):
                return q
            com = [x for x in q.atoms() if x in self.pos and all(dict(m).get(x, 0) > 0 for m in q.t)]
            q, out = q * Poly({tuple((x, -1) for x in com): F(1)}), Poly({tuple(sorted((x, 1) for x in com)): F(1)})
            sg = self.sign(q) if self.sign else ''
            if sg and '-' not in sg:
                return q * out
            if sg and '+' not in sg:
                return -q * out
            return Poly.atom(('abs', q)) * out
        if f == 'sign':
            q = self(a[1])
            if q.is_const():
                return Poly.const((q.cval() > 0) - (q.cval() < 0))
            sg = self.sign(q) if self.sign else ''
            if sg in (frozenset('+'), frozenset('-')):
                return Poly.const(1 if '+' in sg else -1)
            return Poly.atom((f, q))
        if f == 'ylm':
            return self.ylm(self.integer(a[1]), self.integer(a[2]), self(a[3]), self(a[4]))
        if f == 'lpmn':
            return legendre(self.integer(a[2]), self.integer(a[1]), self(a[3]), self(a[4]))
        if f == 'el':
            a = a[:2] + tuple(self(x) for x in a[2:])
            return self.zeros.get(a, Poly.atom(a))
        if f in ('sph_in', 'sph_kn'):
            l, x = self(a[1]), self(a[2])
            if f == 'sph_in' and x.is_zero() and l.is_const():
                return ONEP if l.is_zero() else Poly()
            return Poly.atom((f, l, x))
        if f == 'quad':
            return Poly.atom((f,) + tuple(self(x) for x in a[1:]))
        if f == 'conj':
            raise Opaque
        if f == 'arcsin':
            return Poly.atom('pi').scale(F(1, 2)) - Poly.atom(('arccos', self(a[1])))
        if f in ('arccos', 'arctan', 'log', 'sinh', 'cosh', 'tanh'):
            return Poly.atom((f, self(a[1])))
        if f == 'arctan2':
            return Poly.atom((f, self(a[1]), self(a[2])))
        if f == 'gammaln':
            raise Opaque
        raise Opaque


    def ylm(self, m, l, az, pol):
        """spherical harmonic by the sine and cosine of the polar angle"""
        if abs(m) > l:
            return Poly()
        s, c = sincos(pol, self.pos)
        out, k = Poly(), abs(m)
        for co, i, ik, z in conj_harmonic(l, k):
            out = out + (power(s, i + ik) * power(c, z)).scale(co)
        out = out * norm(l, k) * self.turn(az, m)
        return out.scale(-1) if m < 0 and k % 2 else out

    def turn(self, az, m):
        """e^(i m az)"""
        out, I = ONEP, Poly.atom('I')
        if not m:
            return out
        t = [next(iter(az.t.items()))] if len(az.t) == 1 else []
        a = t[0][0][0][0] if t and t[0][1] == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1 else None
        if isinstance(a, tuple) and a[0] == '%' and a[2] == Poly.atom('pi').scale(2):
            return self.turn(self(a[1]), m)
        if isinstance(a, tuple) and a[0] == 'arctan2':
            y, x = self(a[1]), self(a[2])
            h = x * x + y * y
            e = (x + I * y.scale(1 if m > 0 else -1)) * power(sqrt_of(h, self.pos), -1)
            return power(e, abs(m))
        return self.atom(('exp', (I * az).scale(m)))


# ------------------------------------------------------------- comparisons
def mul_out(p):
    """p times the least powers that leave no negative power of sines, of roots
    or of anything but single quantities: (product, factors)"""
    need = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and isinstance(a, tuple):
                need[a] = max(need.get(a, 0), -e)
    return need


def times(p, need):
    f = Poly({tuple(sorted(need.items(), key=lambda x: (1, repr(x[0])))): F(1)}) if need else ONEP
    return p * f


def reduce(p):
    """no negative powers assumed: roots squared away, sin^2 = 1 - cos^2"""
    for _ in range(12):
        out, again = Poly(), False
        for mono, c in p.t.items():
            t = Poly.const(c)
            for a, e in mono:
                if isinstance(a, tuple) and a[0] == 'sqrt' and e >= 2:
                    t = t * power(a[1], e // 2)
                    if e % 2:
                        t = t * Poly.atom(a)
                    again = True
                elif isinstance(a, tuple) and a[0] == 'sin' and e >= 2:
                    k = Poly.atom(('cos', a[1]))
                    t = t * power(1 - k * k, e // 2)
                    if e % 2:
                        t = t * Poly.atom(a)
                    again = True
                else:
                    t = t * Poly({((a, e),): F(1)})
            out = out + t
        p = out
        if not again:
            return p
    return p


def polar(p):
    """e^(ix) written with the sine and cosine of x where those occur"""
    xs = {a[1] for a in p.atoms() if isinstance(a, tuple) and a[0] in ('sin', 'cos')}
    I = Poly.atom('I')
    mp = {}
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] == 'exp':
            x = a[1] * I.scale(-1)
            for s in (1, -1):
                if x.scale(s) in xs:
                    mp[a] = (x.scale(s), s)
    if not mp:
        return p
    out = Poly()
    for mono, c in p.t.items():
        t = Poly.const(c)
        for a, e in mono:
            if a in mp:
                x, s = mp[a]
                k = Poly.atom(('cos', x)) + (I * Poly.atom(('sin', x))).scale(s if e > 0 else -s)
                for _ in range(abs(e)):
                    t = t * k
            else:
                t = t * Poly({((a, e),): F(1)})
        out = out + t
    return out


def equal(x, num, den):
    """x * den == num as functions of the dimensions"""
    d = x * den - num
    if d.is_zero():
        return True
    d = reduce(polar(d))
    for _ in range(4):
        need = {a: e for a, e in mul_out(d).items() if a[0] != 'exp'}
        if not need:
            break
        # roots of sums: even powers
        need = {a: e + (e % 2 if a[0] == 'sqrt' and not a[1].is_const() else 0) for a, e in need.items()}
        d = reduce(times(d, need))
        if d.is_zero():
            return True
    return d.is_zero()


# --------------------------------------------------------- triple integrals
QS = ('q.z', 'q.y', 'q.x')


def euler(p):
    """e^(ix) written with sines and cosines"""
    I, out = Poly.atom('I'), Poly()
    for mono, c in p.t.items():
        t = Poly.const(c)
        for a, e in mono:
            if isinstance(a, tuple) and a[0] == 'exp' and 'I' in a[1].atoms():
                if any(dict(m).get('I') != 1 for m in a[1].t):
                    raise Opaque
                x = a[1] * I.scale(-1)
                s, k = sincos(x.scale(e), ())
                t = t * (k + I * s)
            else:
                t = t * Poly({((a, e),): F(1)})
        out = out + t
    return out


def by_limits(p):
    """{limits: integrand} of a combination of triple integrals; the factors of
    the integrals are taken into the integrands"""
    out = {}
    for mono, c in p.t.items():
        qs = [(a, e) for a, e in mono if isinstance(a, tuple) and a[0] == 'quad']
        if len(qs) != 1 or qs[0][1] != 1:
            raise Opaque
        a = qs[0][0]
        rest = Poly({tuple(x for x in mono if x[0] != a): c})
        f = rest * euler(a[1])
        lims = next((k for k in out if all(x == y or equal(x, y, ONEP) for x, y in zip(k, a[2:]))), a[2:])
        out[lims] = out.get(lims, Poly()) + f
    return {k: v for k, v in out.items() if not v.is_zero()}


def even_part(f, lims):
    """the part that an integral over these limits does not cancel"""
    flip = lambda p, q: reduce(unsign(p.subs({q: -Poly.atom(q)})))
    for i, q in enumerate(QS):
        lo, hi = lims[2 * i], lims[2 * i + 1]
        later = lims[2 * i + 2:]
        if equal(lo, -hi, ONEP) and all(equal(flip(x, q), x, ONEP) for x in later):
            f = (f + unsign(f.subs({q: -Poly.atom(q)}))).scale(F(1, 2))
    return f


def unsign(p):
    """sin(-x) = -sin(x), cos(-x) = cos(x)"""
    out = Poly()
    for mono, c in p.t.items():
        t = Poly.const(c)
        for a, e in mono:
            if isinstance(a, tuple) and a[0] in ('sin', 'cos') and a[1].canon()[1]:
                t = t * Poly({(((a[0], -a[1]), e),): F(-1 if a[0] == 'sin' and e % 2 else 1)})
            else:
                t = t * Poly({((a, e),): F(1)})
        out = out + t
    return out


def equal_quads(x, num, den):
    """the same for combinations of triple integrals"""
    p, q = by_limits(x * den), by_limits(num)
    if len(p) != 1 or len(q) != 1:
        return x == num and den == ONEP
    (lp, fp), (lq, fq) = next(iter(p.items())), next(iter(q.items()))
    if not all(equal(a, b, ONEP) for a, b in zip(lp, lq)):
        return False
    return equal(fp, fq, ONEP) or equal(even_part(fp, lq), even_part(fq, lq), ONEP)
