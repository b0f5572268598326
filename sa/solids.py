"""Exact integrals of the regular solid harmonics over the solids of the
toolkit, as polynomials in the dimensions: the reference the derived moments
are compared with.  Nothing here reads the repository."""
import math
from fractions import Fraction as F
from .poly import Poly

A = Poly.atom
I_ = A('I')


def C(x):
    return Poly.const(F(x))


def fact(n):
    return math.factorial(n)


def root(q):
    """square root of a rational, one atom per prime"""
    q = F(q)
    n, out = q.numerator * q.denominator, Poly.const(F(1, q.denominator))
    p = 2
    while p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            out = out.scale(p)
        if n % p == 0:
            n //= p
            out = out * A(('sqrt', C(p)))
        p += 1
    if n > 1:
        out = out * A(('sqrt', C(n)))
    return out


SQPI = ('sqrt', A('pi'))


def norm(l, m):
    """sqrt((2l+1)/(4 pi) (l+m)! (l-m)!)"""
    return root(F(2 * l + 1, 4) * fact(l + m) * fact(l - m)) * Poly({((SQPI, -1),): F(1)})


def conj_harmonic(l, m):
    """r^l Y*_lm for m >= 0: [(coefficient, powers of x+iy, x-iy, z)]"""
    return [(F((-1) ** (k + m), 2 ** (2 * k + m) * fact(k + m) * fact(k) * fact(l - m - 2 * k)), k, k + m, l - m - 2 * k)
            for k in range((l - m) // 2 + 1)]


def ipow(s, n):
    """(s i)^n"""
    return [C(1), I_.scale(s), C(-1), I_.scale(-s)][n % 4]


def cartesian(l, m):
    """the same in powers of x, y, z: {(a, b, c): coefficient}"""
    out = {}
    for c, k, km, z in conj_harmonic(l, m):
        for p in range(k + 1):
            for q in range(km + 1):
                key = (k - p + km - q, p + q, z)
                out[key] = out.get(key, Poly()) + (ipow(1, p) * ipow(-1, q)).scale(c * math.comb(k, p) * math.comb(km, q))
    return {k: v for k, v in out.items() if not v.is_zero()}


def q_cart(l, m, mono):
    """integral over a solid with the given monomial integrals mono(a, b, c)"""
    r = Poly()
    for (a, b, c), co in cartesian(l, m).items():
        r = r + co * mono(a, b, c)
    return r * norm(l, m)


def q_cyl(l, m, mono):
    """the same for solids of sectors: mono(n, m, c) integrates s^n e^(-i m phi) z^c"""
    r = Poly()
    for co, k, km, c in conj_harmonic(l, m):
        r = r + mono(k + km, m, c).scale(co)
    return r * norm(l, m)


def half(n):
    """2 when n is even: an interval symmetric about zero"""
    return 2 if n % 2 == 0 else 0


def even(x, n):
    """integral of t^n over |t| < x/2"""
    return x.pow(n + 1).scale(F(half(n), (n + 1) * 2 ** (n + 1)))


def turn(m, phic):
    """e^(-i m phic)"""
    return Poly({((('exp', I_ * phic), -m),): F(1)}) if m else C(1)


def sector(m, phih):
    """integral of e^(-i m phi) over |phi| < phih"""
    return A(('sin', phih.scale(m))).scale(F(2, m)) if m else phih.scale(2)


# ------------------------------------------------------------ plane figures
def triangle(d, y1, y2):
    """x^a y^b over the triangle (0,0), (d,y1), (d,y2)"""
    return lambda a, b: (d.pow(a + 1) * (y2.pow(b + 1) - y1.pow(b + 1))).scale(F(1, (a + b + 2) * (b + 1)))


def prism(h, plane):
    return lambda a, b, c: plane(a, b) * even(h, c) if half(c) else Poly()


def pyramid(z, plane):
    """a figure shrinking linearly to a point at height z"""
    return lambda a, b, c: plane(a, b) * z.pow(c + 1).scale(F(fact(c) * fact(a + b + 2), fact(a + b + c + 3)))


def disk(i, j):
    """u^i v^j over the unit disk, without the factor pi"""
    if i % 2 or j % 2:
        return F(0)
    dd = lambda n: math.prod(range(n, 0, -2)) if n > 0 else 1
    return F(2 * dd(i - 1) * dd(j - 1), dd(i + j) * (i + j + 2))


def tilted(t, r, s, ic):
    """hole of radius r through |z| < t/2, its axis x = s z; ic = 1/cos of the tilt"""
    def f(a, b, c):
        out = Poly()
        for i in range(a + 1):
            w = disk(a - i, b)
            if w and half(c + i):
                out = out + (s.pow(i) * even(t, c + i) * (r * ic).pow(a - i + 1) * r.pow(b + 1)).scale(w * math.comb(a, i))
        return out * A('pi')
    return f


def segment(r, d, s, phi):
    """x^a y^b over the part x > d of the disk of radius r; s = sin phi, cos phi = d/r"""
    c = d * r.inv()

    def cs(p, q):
        """integral of cos^p sin^q from 0 to phi"""
        if p == 0 and q == 0:
            return phi
        if p == 1:
            return s.pow(q + 1).scale(F(1, q + 1))
        if q == 1:
            return (1 - c.pow(p + 1)).scale(F(1, p + 1))
        if p >= 2:
            return (c.pow(p - 1) * s.pow(q + 1) + cs(p - 2, q).scale(p - 1)).scale(F(1, p + q))
        return (cs(0, q - 2).scale(q - 1) - c * s.pow(q - 1)).scale(F(1, q))

    def f(a, b):
        if b % 2:
            return Poly()
        return r.pow(a + b + 2) * cs(a, b + 2).scale(F(2, b + 1))
    return f


# ------------------------------------------------------------------- solids
def mass_of(q00):
    """density of unit mass from the volume integral"""
    return q00


SOLIDS = {}


def solid(*names):
    def reg(f):
        for n in names:
            SOLIDS[n] = f
        return f
    return reg


def with_mass(make):
    """density = mass / volume"""
    def f(p):
        mono, vol, turned = make(p)
        return mono, p['mass'], vol, turned
    return f


def frustum(f, z0, h, ra, rb):
    """s^n e^(-im phi) z^c of a solid of revolution, radius ra at z0, rb at z0 + h"""
    def g(n, m, c):
        out = Poly()
        # t in 0..1: radius ra + (rb - ra) t
        for i in range(c + 1):
            zz = z0.pow(c - i) * h.pow(i).scale(math.comb(c, i)) if (c - i == 0 or not z0.is_zero()) else Poly()
            if zz.is_zero():
                continue
            w = Poly()
            for j in range(n + 3):
                # ra^(n+2-j) rb^j (1-t)^(n+2-j) t^(j+i)
                beta = F(fact(n + 2 - j) * fact(j + i), fact(n + 3 + i))
                w = w + (ra.pow(n + 2 - j) * rb.pow(j)).scale(beta * math.comb(n + 2, j))
            out = out + zz * w
        return out * h * f(m).scale(F(1, n + 2))
    return g


def full(m):
    return A('pi').scale(2) if m == 0 else Poly()


def washer(h, ri, ro, f):
    return lambda n, m, c: (ro.pow(n + 2) - ri.pow(n + 2)).scale(F(1, n + 2)) * even(h, c) * f(m) if half(c) else Poly()


def ngon(h, a, t, n):
    """regular prism of n sides; orders that are no multiple of n vanish"""
    d = a.scale(F(1, 2)) * t.inv()
    tri = prism(h, triangle(d, a.scale(F(-1, 2)), a.scale(F(1, 2))))

    def f(l, m):
        return q_cart(l, m, tri).scale(n) if m % n == 0 else Poly()
    return f


def point(l, m, at, conj=True):
    """r^l Y_lm of a point, or its conjugate, m >= 0"""
    x, y, z = at
    i = I_.scale(1 if conj else -1)
    out = Poly()
    for co, k, km, c in conj_harmonic(l, m):
        out = out + ((x + i * y).pow(k) * (x - i * y).pow(km) * z.pow(c)).scale(co)
    return out * norm(l, m)


def far(at, l):
    x, y, z = at
    return Poly({((('sqrt', x * x + y * y + z * z), -2 * l - 1),): F(1)})


def inside(lims, outer=False, flat=False):
    """triple integral, outermost limits first: angle, radius and height, or x, y
    and z, of the real part of the harmonic"""
    u, v, w = A('q.z'), A('q.y'), A('q.x')

    def f(l, m):
        g = Poly()
        if flat:
            for (a, b, c), co in cartesian(l, m).items():
                if co.is_const():
                    g = g + co * u.pow(a) * v.pow(b) * w.pow(c)
        else:
            for co, k, km, c in conj_harmonic(l, m):
                g = g + (v.pow(k + km + 1) * w.pow(c)).scale(co)
            if m:
                e = A(('exp', I_ * u))
                g = g * (e.pow(m) + Poly({((('exp', I_ * u), -m),): F(1)})).scale(F(1, 2))
        if outer:
            g = g * Poly({((('sqrt', v * v + w * w), -2 * l - 1),): F(1)})
        return A(('quad', g * norm(l, m)) + tuple(lims))
    return f


def ring(*names):
    """radial and vertical density of the outer moments of a sector of a ring"""
    rho, h, ri, ro, phic, w = [A(x) for x in names]

    def f(l, m):
        g = Poly()
        for co, k, km, c in conj_harmonic(l, m):
            g = g + (ro.pow(k + km + 1) * h.pow(c)).scale(co)
        return g * norm(l, m) * rho * sector(m, w) * turn(-m, phic) * Poly({((('sqrt', ro * ro + h * h), -2 * l - 1),): F(1)})
    return f


def numeric(mod, fn, p):
    """solids that are integrated numerically"""
    r, z, outer = A('q.y'), C(0), mod == 'bigQlmNum'
    if fn in ('cyl_mom', 'trap_mom', 'annulus', 'trapezoid'):
        h1, h2, ri, ro, w = p if outer else (p[3], p[4], p[1], p[2], p[0])
        s = A(('cos', w)) * A(('cos', A('q.z'))).inv() if fn.startswith('trap') else C(1)
        return inside((-w, w, ri * s, ro * s, h1, h2), outer)
    if fn in ('cone_mom', 'outer_cone'):
        h, ri, ro, w = p if outer else (p[3], p[1], p[2], p[0])
        return inside((-w, w, ri, ro, z, h * (ro - r) * Poly({((('sqrt', ro - ri), -2),): F(1)})), outer)
    x, y = A('q.z'), A('q.y')
    rt = lambda q: A(('sqrt', q))
    if fn == 'steinmetz':
        a, b = p
        e, f = rt(a * a - x * x), rt(b * b - y * y)
        return inside((-a, a, -e, e, -f, f), False, True)
    if fn == 'platehole':
        t, a, th = p
        e, ic = rt(a * a - x * x), A(('cos', th)).inv()
        mid, h = x * A(('sin', th)) * ic, (t * ic).scale(F(1, 2))
        return inside((-a, a, -e, e, mid - h, mid + h), False, True)


def reference(name, p):
    """f(l, m) -> (numerator, denominator): the moment, m >= 0, is their quotient.
    p: dimensions by parameter position"""
    mod, fn = name.rsplit('.', 2)[-2:]
    one = C(1)
    if mod == 'qlm':
        M, p = p[0], p[1:]
        cart = lambda mono, ph=None: (lambda l, m: (q_cart(l, m, mono) * M * (turn(m, ph) if ph is not None else one), mono(0, 0, 0)))
        cyl = lambda mono, ph=None: (lambda l, m: (q_cyl(l, m, mono) * M * (turn(m, ph) if ph is not None else one), mono(0, 0, 0)))
        if fn == 'sphere':
            return lambda l, m: (M * norm(0, 0) if l == 0 else Poly(), one)
        if fn == 'cylinder':
            return cyl(washer(p[0], Poly(), p[1], full))
        if fn == 'annulus':
            return cyl(washer(*p[:3], lambda m: sector(m, p[4])), p[3])
        if fn == 'cone':
            return cyl(frustum(lambda m: sector(m, p[3]), Poly(), p[0], p[1], Poly()), p[2])
        if fn == 'tri_iso_prism':
            h, a, d, ph = p
            return cart(prism(h, triangle(d, a.scale(F(-1, 2)), a.scale(F(1, 2)))), ph)
        if fn == 'tri_iso_prism2':
            h, r, ph, w = p
            c, s = A(('cos', w)), A(('sin', w))
            return cart(prism(h, triangle(r * c, -r * s, r * s)), ph)
        if fn == 'tri_prism':
            h, d, y1, y2 = p
            return cart(prism(h, triangle(d, y1, y2)))
        if fn == 'rect_prism':
            h, a, b, ph = p
            return cart(prism(h, lambda i, j: even(a, i) * even(b, j)), ph)
        if fn == 'ngon_prism':
            h, a, ph, n = p
            k = int(n.cval())
            t = A(('tan', A('pi').scale(F(1, k))))
            f = ngon(h, a, t, k)
            vol = h * a * a * t.inv().scale(F(k, 4))
            return lambda l, m: (f(l, m) * M * turn(m, ph), vol)
        if fn == 'tetrahedron':
            x, y, z = p
            mono = lambda a, b, c: (x.pow(a + 1) * y.pow(b + 1) * z.pow(c + 1)).scale(F(fact(a) * fact(b) * fact(c), fact(a + b + c + 3)))
            return cart(mono)
        if fn == 'tetrahedron2':
            x, y1, y2, z = p
            return cart(pyramid(z, triangle(x, y1, y2)))
        if fn == 'pyramid':
            x, y, z = p
            return cart(pyramid(z, lambda i, j: even(x.scale(2), i) * even(y.scale(2), j)))
    if mod == 'qlmACH':
        rho, p = p[0], p[1:]
        cart = lambda mono: (lambda l, m: (q_cart(l, m, mono) * rho, one))
        cyl = lambda mono, ph=None: (lambda l, m: (q_cyl(l, m, mono) * rho * (turn(m, ph) if ph is not None else one), one))
        if fn == 'rect_prism':
            x, y, z = p
            return cart(prism(z, lambda i, j: even(x, i) * even(y, j)))
        if fn == 'annulus':
            return cyl(washer(*p[:3], lambda m: sector(m, p[4])), p[3])
        if fn == 'cone':
            h, r1, r2 = p
            return cyl(frustum(full, h.scale(F(-1, 2)), h, r2, r1))
        if fn == 'cone2':
            h, r1, r2 = p
            return cyl(frustum(full, Poly(), h, r1, r2))
        if fn == 'tri_prism':
            h, d, y1, y2 = p
            return cart(prism(h, triangle(d, y1, y2)))
        if fn == 'trapezoid':
            t, w1, w2, h = p

            def plane(i, j):
                # |y| < (w1 + (w2 - w1) x / h) / 2
                if not half(j):
                    return Poly()
                w = Poly()
                for k in range(j + 2):
                    w = w + (w1.pow(j + 1 - k) * w2.pow(k)).scale(F(math.comb(j + 1, k) * fact(j + 1 - k) * fact(k + i), fact(i + j + 2)))
                return w * h.pow(i + 1).scale(F(2, (j + 1) * 2 ** (j + 1)))
            return cart(prism(t, plane))
        if fn == 'cylindrical_section':
            t, r, d = p
            s = A(('sqrt', r * r - d * d)) * r.inv()
            return cart(prism(t, segment(r, d, s, A(('arccos', d * r.inv())))))
        if fn == 'tetrahedron':
            return lambda l, m, g=reference('x.qlm.tetrahedron', [C(1)] + p): \
                (g(l, m)[0] * rho, one)
        if fn == 'platehole':
            t, r, th = p
            ic = A(('cos', th)).inv()
            return cart(tilted(t, r, A(('sin', th)) * ic, ic))
        if fn == 'pyramid':
            h, x, y = p
            return cart(pyramid(h, lambda i, j: even(x, i) * even(y, j)))
    if (mod, fn) == ('bigQlm', 'sphere'):
        rho, R, x, y, z = p
        M = rho * R.pow(3) * A('pi').scale(F(4, 3))
        return lambda l, m: (M * point(l, m, (x, y, z), False) * far((x, y, z), l), one)
    if (mod, fn) == ('bigQlm', 'annulus'):
        rho, h, ri, ro, phic, w = p
        g = inside((-w, w, ri, ro, C(0), h), True)
        return lambda l, m: (g(l, m) * rho * turn(-m, phic), one)
    if mod in ('qlmNum', 'bigQlmNum'):
        f = numeric(mod, fn, p[1:])
        return lambda l, m: (f(l, m) * p[0], one)
    return None
