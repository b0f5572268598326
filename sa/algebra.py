"""Equality of derived value terms: polynomials over named inputs and the
opaque terms sqrt(p), sin(p), cos(p), exp(p), sum(n, p)."""
import cmath
import math
import random
from fractions import Fraction as F
from .poly import Poly, ONE


class Opaque(Exception):
    pass


# ------------------------------------------------------------ building terms
def depth(p):
    """nesting of sums"""
    d = 0
    for a in p.atoms():
        if isinstance(a, tuple):
            k = 1 if a[0] == 'sum' else 0
            d = max([d] + [k + depth(x) for x in a[1:] if isinstance(x, Poly)])
    return d


def mk_sum(n, sym, body, lo=None, empty=False):
    """sum of body over sym = lo .. lo + n - 1; empty: n may be negative"""
    if sym not in deep(body):
        return None if empty else n * body
    k = '#%d' % depth(body)
    if k in deep(body):
        return None
    at = Poly.atom(k) if lo is None else Poly.atom(k) + lo
    return Poly.atom(('sum', n, body.subs({sym: at}), k))


def positive(a):
    return a == 'pi' or isinstance(a, tuple) and (a[0] in ('sqrt', 'gamma', 'exp', 'pow') and
                                                  (a[0] != 'pow' or a[1].is_const() and a[1].cval() > 0))


def asqrt(p):
    """square root of a term that is not negative"""
    if not p.t:
        return p
    com = None
    for m in p.t:
        d = dict(m)
        com = d if com is None else {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in com.items()
                                     if a in d and (e > 0) == (d[a] > 0)}
    com = {a: e for a, e in com.items() if positive(a)}
    out = Poly.const(1)
    for a, e in com.items():
        if e % 2 == 0:
            out = out * Poly({((a, e // 2),): F(1)})
        else:
            out = out * Poly({((('sqrt', Poly.atom(a)), e),): F(1)})
    inv = Poly({tuple((a, -e) for a, e in com.items()): F(1)}) if com else Poly.const(1)
    rest = p * inv
    num, den = 0, 1
    for c in rest.t.values():
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    c = F(num, den)
    rest = rest.scale(1 / c)
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        out = out.scale(F(a, b))
    else:
        # sqrt(n/d) = sqrt(n d)/d
        out = out.scale(F(1, c.denominator)) * Poly.atom(('sqrt', Poly.const(c.numerator * c.denominator)))
    if rest == Poly.const(1):
        return out
    return out * Poly.atom(('sqrt', rest))


def aexp(p):
    """exponential; logarithms of gamma functions become gamma functions"""
    out, rest = Poly.const(1), Poly()
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'gammaln':
            g = Poly.atom(('gamma', m[0][0][1]))
            if c.denominator == 1:
                out = out * Poly({((next(iter(g.atoms())), int(c)),): F(1)})
                continue
            if c.denominator == 2:
                out = out * Poly({((('sqrt', g), int(2 * c)),): F(1)})
                continue
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'log' and c.denominator == 1:
            q = m[0][0][1].pow(int(c))
            if q is not None:
                out = out * q
                continue
        rest = rest + Poly({m: c})
    if rest.is_zero():
        return out
    return out * Poly.atom(('exp', rest))


def aconj(p, complexes=()):
    """complex conjugate; None when an atom's is not known"""
    out = Poly()
    for m, c in p.t.items():
        t = Poly.const(c)
        for a, e in m:
            b = conj_atom(a, complexes)
            if b is None:
                return None
            t = t * b.pow(e) if e > 0 else t * Poly({((next(iter(b.atoms())), e),): F(1)})
        out = out + t
    return out


def conj_atom(a, complexes):
    if a == 'I':
        return -Poly.atom('I')
    if isinstance(a, str):
        return Poly.atom(a)
    if a[0] == 'conj':
        return a[1]
    if a[0] == 'el':
        return Poly.atom(('conj', Poly.atom(a))) if a[1] in complexes else Poly.atom(a)
    if a[0] == 'sum':
        b = aconj(a[2], complexes)
        return None if b is None else Poly.atom(('sum', a[1], b, a[3]))
    if a[0] == 'exp':
        b = aconj(a[1], complexes)
        return None if b is None else Poly.atom(('exp', b))
    if a[0] == 'pow' and a[1] == Poly.atom('I'):
        return apow(Poly.const(-1), a[2]) * Poly.atom(a)
    if a[0] == 'pow' and not any(isinstance(x, tuple) for x in a[2].atoms()) and all(c.denominator == 1 for c in a[2].t.values()):
        b = aconj(a[1], complexes)      # the exponents of complex numbers are degrees and orders
        return None if b is None else apow(b, a[2])
    if a[0] == 'ylm':
        if any(aconj(x, complexes) != x for x in a[1:]):
            return None
        return apow(Poly.const(-1), a[1]) * Poly.atom(('ylm', -a[1]) + a[2:])
    if a[0] == 'quad':
        parts = [aconj(x, complexes) for x in a[1:]]
        return None if any(x is None for x in parts) else Poly.atom(('quad',) + tuple(parts))
    if any(isinstance(x, Poly) and ('I' in deep(x) or any(isinstance(y, tuple) and y[0] == 'el' and y[1] in complexes for y in x.atoms())) for x in a[1:]):
        return None
    return Poly.atom(a)


def apow(x, p):
    """x to a symbolic power"""
    if x.is_const() and x.cval() == -1:
        if all(c.denominator == 1 for c in p.t.values()):
            q = Poly()
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'abs':
                    q = q + m[0][0][1].scale(c)
                else:
                    q = q + Poly({m: c})
            p = Poly({m: c % 2 for m, c in q.t.items() if c % 2})
        q = p
        s = 1
        if ONE in q.t:
            s = -1
            q = Poly({m: c for m, c in q.t.items() if m != ONE})
        return (Poly.atom(('pow', x, q)) if not q.is_zero() else Poly.const(1)).scale(s)
    c = p.cval()
    k = int(c) if c.denominator == 1 and abs(c) <= 12 else 0
    base = x.pow(k) if k >= 0 or len(x.t) == 1 else None
    if base is None:
        k, base = 0, Poly.const(1)
    q = p - k
    if q.is_zero():
        return base
    return base * Poly.atom(('pow', x, q))


def op_depth(p):
    d = 0
    for a in p.atoms():
        if isinstance(a, tuple):
            k = 1 if a[0] == 'op' else 0
            d = max([d] + [k + op_depth(x) for x in a[1:] if isinstance(x, Poly)])
    return d


def mk_op_array(name, params, inner):
    """value at ($0, $1) of an operation on the array whose value at ($0, $1) is inner"""
    d = op_depth(inner)
    inner = inner.subs({'$%d' % i: Poly.atom('@%d:%d' % (d, i)) for i in (0, 1)})
    return Poly.atom(('op', name) + tuple(params) + (inner, str(d), Poly.atom('$0'), Poly.atom('$1')))


# ------------------------------------------------------------- normal forms
def tidy(p):
    """powers with equal base joined, roots of single atoms to even powers
    removed, sums split into one term each with outer factors pulled out"""
    out = Poly()
    for mono, c in p.t.items():
        t = Poly.const(c)
        pw = {}
        for a, e in mono:
            if isinstance(a, tuple) and a[0] == 'pow':
                b, x = tidy_in(a[1]), tidy_in(a[2])
                pw[b] = pw.get(b, Poly()) + x * e
            elif isinstance(a, tuple) and a[0] == 'sum':
                if e < 0:
                    t = t * Poly({((tidy_atom(a), e),): F(1)})
                else:
                    t = t * split_sum(a).pow(e)
            elif isinstance(a, tuple) and a[0] == 'sqrt':
                q = tidy_in(a[1])
                if q.is_const() or len(q.t) == 1 and all(c == 1 for c in q.t.values()):
                    if e % 2 == 0:
                        t = t * (q.pow(e // 2))
                        continue
                    if q.is_const():
                        t = t * q.pow((e - 1) // 2) * Poly.atom(('sqrt', q))
                        continue
                t = t * Poly({((('sqrt', q), e),): F(1)})
            elif isinstance(a, tuple):
                t = t * Poly({((tidy_atom(a), e),): F(1)})
            else:
                t = t * Poly({((a, e),): F(1)})
        for b, x in pw.items():
            t = t * apow(b, x)
        out = out + t
    return out


def tidy_in(p):
    return tidy(p)


def tidy_atom(a):
    return (a[0],) + tuple(tidy(x) if isinstance(x, Poly) else x for x in a[1:])


def split_sum(a):
    n, body, k = tidy(a[1]), tidy(a[2]), a[3]
    out = Poly()
    for mono, c in body.t.items():
        ins, outs = [], []
        for at, e in mono:
            (ins if k == at or isinstance(at, tuple) and k in deep(Poly.atom(at)) else outs).append((at, e))
        o = Poly({tuple(outs): c})
        if not ins:
            out = out + o * n
        else:
            out = out + o * Poly.atom(('sum', n, Poly({tuple(ins): F(1)}), k))
    return out


def expand_trig(p):
    """sines and cosines of sums and multiples in terms of those of single
    monomials over their common divisor; cos^2 = 1 - sin^2"""
    monos = {}

    def scan(q):
        for a in q.atoms():
            if isinstance(a, tuple):
                if a[0] in ('sin', 'cos') and isinstance(a[1], Poly):
                    for m, c in a[1].t.items():
                        monos.setdefault(m, set()).add(c)
    scan(p)
    if not monos:
        return p
    base = {}
    for m, cs in monos.items():
        num, den = 0, 1
        for c in cs:
            num = math.gcd(num, abs(c.numerator))
            den = den * c.denominator // math.gcd(den, c.denominator)
        base[m] = F(num, den)

    def sc(m):
        a = Poly({m: base[m]})
        return Poly.atom(('sin', a)), Poly.atom(('cos', a))

    def angle(q):
        """(sin q, cos q)"""
        s, c = Poly(), Poly.const(1)
        for m, co in q.t.items():
            k = co / base[m]
            if k.denominator != 1 or abs(k) > 16:
                raise Opaque
            if m == ONE:
                raise Opaque
            s1, c1 = sc(m)
            sk, ck = Poly(), Poly.const(1)
            for _ in range(abs(int(k))):
                sk, ck = sk * c1 + ck * s1, ck * c1 - sk * s1
            if k < 0:
                sk = -sk
            s, c = s * ck + c * sk, c * ck - s * sk
        return s, c
    out = Poly()
    for mono, co in p.t.items():
        t = Poly.const(co)
        for a, e in mono:
            if isinstance(a, tuple) and a[0] in ('sin', 'cos') and e > 0:
                s, c = angle(a[1])
                t = t * (s if a[0] == 'sin' else c).pow(e)
            else:
                t = t * Poly({((a, e),): F(1)})
        out = out + t
    res = Poly()
    for mono, co in out.t.items():
        t = Poly.const(co)
        for a, e in mono:
            if isinstance(a, tuple) and a[0] == 'cos' and e > 1:
                s = Poly.atom(('sin', a[1]))
                t = t * (Poly.const(1) - s * s).pow(e // 2) * (Poly.atom(a) if e % 2 else Poly.const(1))
            else:
                t = t * Poly({((a, e),): F(1)})
        res = res + t
    return res


def clear_roots(p):
    """zero exactly when p is: roots to the powers 0 and 1 only"""
    for _ in range(8):
        roots = {a for a in p.atoms() if isinstance(a, tuple) and a[0] == 'sqrt'}
        work = None
        for a in roots:
            lo = min(dict(m).get(a, 0) for m in p.t)
            hi = max(dict(m).get(a, 0) for m in p.t)
            if lo < 0 or hi > 1:
                work = (a, lo)
                break
        if work is None:
            return p
        a, lo = work
        if lo < 0:
            p = p * Poly({((a, -lo),): F(1)})
        out = Poly()
        for mono, co in p.t.items():
            t = Poly.const(co)
            for b, e in mono:
                if b == a:
                    t = t * a[1].pow(e // 2)
                    e = e % 2
                    if not e:
                        continue
                t = t * Poly({((b, e),): F(1)})
            out = out + t
        p = out
    return p


def is_zero(p):
    """True: the normal form vanishes; False: not shown"""
    try:
        p = tidy(p)
        if p.is_zero():
            return True
        if not any(isinstance(a, tuple) and a[0] == 'sum' and depth(a[2]) for a in p.atoms()):
            p = merge_sums(p)
        q = clear_roots(expand_trig(p))
        return q.is_zero()
    except (Opaque, RecursionError, AttributeError, TypeError):
        return False


def merge_sums(p):
    """sum(n, s) + sum(n, t) = sum(n, s + t), factors moved inside"""
    acc, out = {}, Poly()
    for mono, co in p.t.items():
        ss = [(a, e) for a, e in mono if isinstance(a, tuple) and a[0] == 'sum']
        if len(ss) == 1 and ss[0][1] == 1:
            a = ss[0][0]
            rest = Poly({tuple(x for x in mono if x[0] != a): co})
            acc[a[1], a[3]] = acc.get((a[1], a[3]), Poly()) + rest * a[2]
        elif ss:
            raise Opaque
        else:
            out = out + Poly({mono: co})
    for (n, k), t in acc.items():
        q = clear_roots(expand_trig(t))
        if not q.is_zero():
            out = out + Poly.atom(('sum', n, t, k))
    return out


def bessel(f, l, x):
    """modified spherical Bessel functions"""
    if f == 'sph_in':
        t = 1.
        for k in range(l):
            t *= x / (2 * k + 3)
        r = 0
        for k in range(60):
            r += t
            t *= x * x / 2 / ((k + 1) * (2 * l + 2 * k + 3))
        return r
    p = math.pi / 2 * math.exp(-x) / x
    q = p * (1 + 1 / x)
    for k in range(1, l + 1):
        p, q = q, p + (2 * k + 1) / x * q
    return p


GAUSS = {}


def gauss(n):
    """nodes and weights of Gauss' rule on (-1, 1)"""
    if n not in GAUSS:
        out = []
        for i in range(n):
            x = math.cos(math.pi * (i + .75) / (n + .5))
            for _ in range(50):
                p, q = 1., x
                for k in range(2, n + 1):
                    p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
                d = n * (x * q - p) / (x * x - 1)
                x -= q / d
            out.append((x, 2 / ((1 - x * x) * d * d)))
        GAUSS[n] = out
    return GAUSS[n]


class Env:
    """pseudo-random numbers for the inputs"""

    def __init__(self, seed, pos=(), fix=None, ints=None, complexes=(), fun=None, els=None):
        self.els = els or {}
        self.seed, self.pos, self.fix, self.ints, self.complexes = seed, pos, fix or {}, ints or {}, complexes
        self.fun = fun or {}
        self.run = {}
        self.rel = 0            # error of the integrals

    def base(self, key):
        if key in self.ints:
            return self.ints[key]
        if key in self.fix:
            return self.val(self.fix[key])
        if isinstance(key, tuple) and key[0] in self.complexes:
            r = random.Random('%s/%r' % (self.seed, key))
            return complex(r.uniform(-1, 1), r.uniform(-1, 1))
        if self.seed % 3 == 2:
            return (random.Random('%s/%r' % (self.seed, key)).choice([.02, .4, 5., 30.]) *
                    random.Random('%s/w/%r' % (self.seed, key)).uniform(.8, 1.2) * self.sign(key))
        return random.Random('%s/%r' % (self.seed, key)).uniform(0.3, 1.7) * self.sign(key)

    def sign(self, key):
        nm = key[0] if isinstance(key, tuple) else key
        if not any(str(nm).endswith(x) for x in self.pos):
            if random.Random('%s/s/%r' % (self.seed, key)).random() < .5:
                return -1
        return 1

    def val(self, p):
        r = 0
        for mono, c in p.t.items():
            t = int(c) if c.denominator == 1 else float(c)
            for a, e in mono:
                if e % 2 == 0 and isinstance(a, tuple) and a[0] == 'sqrt' and \
                        not (self.ints and all(b in self.ints or b[0] == '#' for b in deep(a[1]))):
                    t = t * self.val(a[1]) ** (e // 2)
                else:
                    t = t * self.atom(a) ** e
            r = r + t
        return r

    def atom(self, a):
        if a == 'I':
            return 1j
        if a == 'pi':
            return math.pi
        if isinstance(a, str):
            if a[0] in '#@':
                return self.run[a]
            if a[:2] == 'q.':
                return self.run['@' + a]
            return self.base(a)
        f = a[0]
        if f == 'el' and a[1] in self.els:
            return self.els[a[1]](self, *[int(round(self.val(i))) for i in a[2:]])
        if f == 'el':
            return self.base((a[1],) + tuple(self.index(i) for i in a[2:]))
        if f == 'sum':
            n = self.val(a[1])
            n = int(round(n)) if abs(n - round(n)) < 1e-9 and self.ints else 3
            sv, r = self.run.get(a[3]), 0
            for k in range(n):
                self.run[a[3]] = k
                r = r + self.val(a[2])
            self.run[a[3]] = sv
            return r
        if f == 'ylm':
            m, l, az, pol = [self.val(x) for x in a[1:]]
            m, l = int(round(m)), int(round(l))
            if abs(m) > l:
                return 0
            k, t = abs(m), 0
            c, s = math.cos(pol), math.sin(pol)
            for i in range((l - k) // 2 + 1):
                t += (-1) ** (i + k) * s ** (2 * i + k) * c ** (l - k - 2 * i) / (
                    2 ** (2 * i + k) * math.factorial(i + k) * math.factorial(i) * math.factorial(l - k - 2 * i))
            t *= math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l + k) * math.factorial(l - k))
            return t * cmath.exp(1j * m * az) * (-1 if m < 0 and k % 2 else 1)
        if f == 'lpmn':
            m, n, x, y = [self.val(i) for i in a[1:]]
            m, n = int(round(m)), int(round(n))
            if m > n:
                return 0
            return (-y) ** m / 2 ** n * sum((-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n) * math.perm(n - 2 * k, m)
                                            * x ** (n - 2 * k - m) for k in range(n // 2 + 1) if n - 2 * k >= m)
        if f in ('sph_in', 'sph_kn'):
            return bessel(f, int(round(self.val(a[1]))), self.val(a[2]))
        if f == 'quad':
            return self.quad(a[1:])
        if f in self.fun:
            return self.fun[f](*[self.val(x) for x in a[1:]])
        if f == 'op':
            return self.operator(a)
        if f == 'arctan2':
            return math.atan2(self.val(a[1]), self.val(a[2]))
        if f == 'pow':
            return self.val(a[1]) ** self.val(a[2])
        if f == 'gamma':
            return math.gamma(self.val(a[1]))
        if f == 'sinc':
            x = self.val(a[1])
            return 1 if x == 0 else math.sin(x) / x
        if f == 'gammaln':
            return math.lgamma(self.val(a[1]))
        if f == 'conj':
            x = self.val(a[1])
            return x.conjugate()
        if f in ('sqrt', 'sin', 'cos', 'exp', 'tan', 'arctan', 'log', 'arccos', 'arcsin', 'sinh', 'cosh', 'tanh'):
            x = self.val(a[1])
            f = f.replace('arc', 'a')
            if isinstance(x, complex):
                return getattr(cmath, f)(x)
            if f == 'sqrt' and x < -1e-6 and self.ints and all(b in self.ints or b[0] == '#' for b in deep(a[1])):
                return math.nan     # of a negative number whatever the measurements are
            return getattr(math, f)(x)
        if f == 'ind':
            x = self.val(a[2])
            return int(('0' if abs(x) < 1e-12 else '+' if x > 0 else '-') in a[1])
        if f == 'abs':
            return abs(self.val(a[1]))
        if f in ('min', 'max'):
            xs = [self.val(x) for x in a[1:]]
            return min(xs) if f == 'min' else max(xs)
        if f in ('//', '%'):
            x, y = self.val(a[1]), self.val(a[2])
            return x // y if f == '//' else x % y
        if f == 'int':
            return math.trunc(self.val(a[1]))
        if f == 'sign':
            x = self.val(a[1])
            return (x > 0) - (x < 0)
        raise Opaque

    def quad(self, a):
        """triple integral by Gauss' rule; nan where two orders disagree"""
        rs = []
        sv = {k: self.run.get(k) for k in ('@q.x', '@q.y', '@q.z')}
        for nodes in (gauss(8), gauss(11)):
            tot = self.inner(a, 2, nodes)
            rs.append(tot)
        self.run.update(sv)
        if abs(rs[0] - rs[1]) > 2e-3 * max(abs(rs[0]), abs(rs[1])) and abs(rs[0] - rs[1]) > 1e-7:
            return math.nan
        self.rel = max(self.rel, abs(rs[0] - rs[1]) / max(abs(rs[1]), 1e-30))
        return rs[1]

    def inner(self, a, level, nodes):
        lo, hi = [self.val(x) for x in (a[1:3], a[3:5], a[5:7])[2 - level]]
        k, r = '@q.' + 'xyz'[level], 0
        for x, w in nodes:
            self.run[k] = (lo + hi) / 2 + (hi - lo) / 2 * x
            r = r + w * (self.inner(a, level - 1, nodes) if level else self.val(a[0]))
        return r * (hi - lo) / 2

    PLACES = ((0, 0), (1, -1), (1, 0), (1, 1), (2, 1), (2, -2))

    def operator(self, a):
        """element of an unknown linear operation on an array: equal for equal
        parameters and arrays"""
        name, params, inner, d, row, col = a[1], a[2:-4], a[-4], a[-3], a[-2], a[-1]
        L = self.ints.get('Lm', 3)
        key = ['%s' % name]
        for p in params:
            x = self.val(p)
            key.append('%.6f' % (x % (2 * math.pi) if name.startswith('turn') and p is not params[-1] else x))
        ks = ['@%s:%d' % (d, i) for i in (0, 1)]
        sv = [self.run.get(k) for k in ks]
        r, c = int(round(self.val(row))), int(round(self.val(col)))
        vs = []
        for l, m in self.PLACES:
            if l <= L:
                self.run[ks[0]], self.run[ks[1]] = l, L + m
                vs.append(complex(self.val(inner)))
        self.run[ks[0]], self.run[ks[1]] = sv
        lead = max(vs, key=abs)
        if abs(lead) < 1e-12:
            return 0
        lead = next(v for v in vs if abs(v) > 1e-9 * abs(lead))
        key += ['%.6g%+.6gi' % (round((v / lead).real, 7) + 0., round((v / lead).imag, 7) + 0.) for v in vs]
        rnd = random.Random('%s/%d/%d' % ('/'.join(key), r, c))
        return lead * complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1))

    def index(self, i):
        if isinstance(i, Poly):
            try:
                x = self.val(i)
                if abs(x - round(x)) < 1e-9:
                    return int(round(x))
            except (Opaque, KeyError):
                pass
        return repr(i)


NANDS = {}


def nand(facts):
    """a condition: the facts do not all hold"""
    k = 'nand:' + repr(list(facts))
    NANDS[k] = tuple(facts)
    return Poly.atom(k)


def nand_of(p):
    for a in p.atoms():
        if isinstance(a, str) and a.startswith('nand:'):
            return NANDS[a]
    return None


def ind(sg, p):
    """1 when the sign of p is in sg, 0 otherwise"""
    if p.is_const():
        c = p.cval()
        return Poly.const(int(('0' if c == 0 else '+' if c > 0 else '-') in sg))
    if len(sg) == 2:
        return 1 - ind(frozenset('+-0') - sg, p)
    return Poly.atom(('ind', ''.join(sg), p))


def choice(fa, fb):
    """a term that is 1 under the facts fa and 0 under the facts fb"""
    odd = lambda p: any(isinstance(a, str) and a.startswith('lossy:') for a in p.atoms())
    for p, sg in fa.items():
        if p in fb and not (sg & fb[p]) and nand_of(p) is None and not odd(p):
            return ind(sg, p)
    for x, y, first in ((fa, fb, True), (fb, fa, False)):
        for p, sg in y.items():
            fs = nand_of(p)
            if fs is not None and sg == frozenset('+') and all(f in x and x[f] <= s for f, s in fs) \
                    and not any(nand_of(f) is not None or odd(f) for f, _ in fs):
                r = Poly.const(1)
                for f, s in fs:
                    r = r * ind(s, f)
                return r if first else 1 - r
    return None


def parts(facts):
    """the terms of conditions, those of negated conjunctions included"""
    out = []
    for f, _ in facts:
        fs = nand_of(f)
        out += [f] if fs is None else parts(fs)
    return out


def holds(env, p, sg):
    fs = nand_of(p)
    if fs is not None:
        return ('-' if all(holds(env, *f) for f in fs) else '+') in sg
    x = env.val(p)
    return not isinstance(x, complex) and ('0' if abs(x) < 1e-12 else '+' if x > 0 else '-') in sg


def path_env(facts, seed, pos, **kw):
    """an assignment satisfying the path condition, or None"""
    fix, rest, hard = {}, [], False
    ints = kw.get('ints') or {}
    for p, sg in facts:
        if nand_of(p) is not None:
            rest.append((p, sg))
            hard = hard or seed % 2 and any(nand_of(f) is not None for f, _ in nand_of(p))
        elif sg == frozenset('0') and not (deep(p) and deep(p) <= set(ints)):
            for a in sorted(p.atoms(), key=repr):
                co = p.coeff_of(a)
                if isinstance(a, str) and a not in ('I', 'pi') and co is not None and co.is_const() and not co.is_zero() \
                        and a not in fix and a not in ints and not any(a in deep(q) for q in fix.values()) \
                        and not any(isinstance(b, tuple) and a in deep(Poly.atom(b)) for b in p.atoms()):
                    fix[a] = p.without(a).scale(-1 / co.cval())
                    break
            else:
                rest.append((p, sg))
                hard = True
        elif len(sg) < 3:
            rest.append((p, sg))
    if hard:
        # sparse inputs may satisfy the remaining equalities
        rnd = random.Random('z%s' % seed)
        for a in sorted({x for p in parts(rest) for x in deep(p)}):
            if isinstance(a, str) and a not in ('I', 'pi') and a not in ints and a not in fix and rnd.random() < .6:
                fix[a] = Poly()
    env = Env(seed, pos, fix, **kw)
    for p, sg in rest:
        if not holds(env, p, sg):
            return None
    return env


class Domain:
    """how the inputs of a function are sampled: integer parameters within
    their bounds, families of complex elements, interpreted functions"""

    def __init__(self, I=None, complexes=(), fun=None, small=4, els=None):
        self.I, self.complexes, self.fun, self.small, self.els = I, complexes, fun, small, els

    def kw(self, seed, polys):
        names = set()
        for p in polys:
            names |= {a for a in deep(p) if isinstance(a, str)}
        ints = {}
        if self.I is not None:
            tab = self.I.syms.tab
            todo = {a for a in names if a in tab or a in self.I.params}
            while todo:
                more = set()
                for a in todo:
                    if a in tab:
                        for b in list(tab[a].lo) + list(tab[a].hi):
                            more |= {x for x in deep(b) if isinstance(x, str) and (x in tab or x in self.I.params)}
                names |= todo
                todo = more - names
            rnd = random.Random('i/%s' % seed)
            for a in sorted(names):
                if a in self.I.params:
                    lo = 0
                    if a in tab:
                        lo = max([0] + [int(x.cval()) for x in tab[a].lo if x.is_const()])
                    ints[a] = rnd.randint(lo, lo + self.small - 1) if seed else lo + self.small - 2
            wait = [a for a in sorted(names) if a in tab and a not in ints]
            for _ in range(len(wait) + 1):
                for a in list(wait):
                    env = Env(0, (), ints=ints)
                    try:
                        bs = list(tab[a].lo) + list(tab[a].hi)
                        if any(x in wait for b in bs for x in deep(b)):
                            continue
                        lo = [env.val(x) for x in tab[a].lo]
                        hi = [env.val(x) for x in tab[a].hi]
                    except (Opaque, KeyError, TypeError):
                        continue
                    if not lo and not hi:
                        lo, hi = [-self.small], [self.small]
                    lo = max(lo) if lo else min(hi) - self.small
                    hi = min(hi) if hi else lo + self.small
                    if lo > hi:
                        return None
                    ints[a] = rnd.randint(int(round(lo)), int(round(hi)))
                    wait.remove(a)
            if wait:
                return None
        return {'ints': ints, 'complexes': self.complexes, 'fun': self.fun, 'els': self.els}


def deep(p):
    out = set()
    for a in p.atoms():
        if isinstance(a, str):
            out.add(a)
        elif isinstance(a, tuple):
            for x in a[1:]:
                if isinstance(x, Poly):
                    out |= deep(x)
                elif isinstance(x, str):
                    out.add(x)
    return out


def differ(p, q, pos=(), facts=(), dom=None):
    """an assignment of the inputs, taking this path, at which the terms have
    different values"""
    return differ_all(p, [q], lambda env: [0], pos, facts, dom)


def differ_all(p, qs, accepted, pos=(), facts=(), dom=None):
    """an assignment at which the term equals none of the accepted ones"""
    facts = list(facts)
    if any(len(sg) == 1 and len(f.t) == 1 and any(isinstance(a, str) and a.startswith('lossy:') for a in f.atoms())
           for f, sg in facts):
        return None
    facts = [(f, sg) for f, sg in facts if not any(isinstance(a, str) and a.startswith('lossy:') for a in f.atoms())]
    dom = dom or Domain()
    n = 0
    for seed in range(400 if facts else 40):
        kw = dom.kw(seed, [p] + qs + parts(facts))
        if kw is None:
            continue
        try:
            env = path_env(facts, seed, pos, **kw)
            if env is None:
                continue
            x, ys = env.val(p), [env.val(qs[i]) for i in accepted(env)]
        except (Opaque, ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
            continue
        if any(y != y for y in ys):
            continue
        if x != x or all(abs(x - y) > 1e-7 * max(abs(x), abs(y), 1e-3) for y in ys):
            at = ', '.join('%s=%d' % i for i in sorted(kw['ints'].items()))
            return '%s instead of %s%s' % (show(x), show(ys[0]), ' (%s)' % at if at else '')
        n += 1
        if n > (6 if not kw['ints'] else 25):
            break
    return None


def show(x):
    if not isinstance(x, complex):
        return '%.6g' % x
    return '%.6g' % x.real if abs(x.imag) < 1e-12 * abs(x.real) else '%.6g%+.6gi' % (x.real, x.imag)


def same(p, q, pos=(), facts=(), dom=None):
    """('ok', ''), ('bad', values), ('undecided', '')"""
    if is_zero(p - q):
        return 'ok', ''
    d = differ(p, q, pos, facts, dom)
    if d is not None:
        return 'bad', d
    return 'undecided', 'equality of the terms not shown'
