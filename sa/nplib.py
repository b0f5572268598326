"""Transfer functions for numpy / scipy / builtins used by the toolkit, and the
abstract array model (base element + positioned cells)."""
import ast
import itertools
import posixpath
from fractions import Fraction as F
from .poly import Poly, mk_op, ONE
from .dom import *
from .algebra import mk_sum, asqrt, aexp, aconj, ind

NEG = ('z2', 'neg')
EXT = ('numpy', 'scipy', 'math')

ELEMWISE = {'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan',
            'abs', 'absolute', 'fabs', 'sign', 'conj', 'conjugate', 'real', 'imag', 'sinc', 'floor', 'ceil',
            'gammaln', 'factorial', 'square', 'radians', 'deg2rad', 'degrees', 'rad2deg', 'gamma', 'ellipk',
            'ellipe', 'negative', 'angle', 'expm1', 'log1p', 'isfinite', 'isnan', 'rint', 'around', 'round'}


def isarr(v):
    from .interp import SliceV
    return isinstance(v, (ArrV, Seq, ListV)) or v.__class__.__name__ == 'RangeV'


def shift_g(c_idx, s):
    return (ALL,) * s + tuple(c_idx)


class FileV(Seq):
    """an open text file: its lines"""


def concrete(v):
    """the Python value of a string or number"""
    if isinstance(v, Str) and v.s is not None:
        return v.s
    if v is NONE:
        return None
    if isinstance(v, Num) and v.val is not None and v.val.is_const() and v.val.cval().denominator == 1:
        return int(v.val.cval())
    if isinstance(v, BoolV) and v.b is not None:
        return v.b
    if isinstance(v, Seq):
        r = [concrete(x) for x in v.items]
        return r if v.mutable else tuple(r)
    raise ValueError


def abstract(I, r):
    if isinstance(r, str):
        return Str(r)
    if isinstance(r, bool):
        return BoolV(r)
    if isinstance(r, int):
        return I.num(r)
    return Seq([abstract(I, x) for x in r], isinstance(r, list))


class Lib:
    def __init__(self, I):
        self.I = I
        self.selcond = {}
        self.fresh = 0
        self.bt = {}
        self.mt = {}

    # ------------------------------------------------------------ name tables
    def builtin_name(self, nm):
        if nm in self.bt:
            return self.bt[nm]
        f = getattr(self, 'b_' + nm, None)
        if f is None:
            v = Top('name:' + nm)
            if nm in ('ValueError', 'Exception', 'TypeError', 'NotImplementedError', 'RuntimeError',
                      'IndexError', 'KeyError', 'ZeroDivisionError', 'AssertionError', 'print'):
                v = FuncV('builtins.' + nm, builtin=self.noop)
            if nm in ('complex', 'float', 'int'):
                v = FuncV('builtins.' + nm, builtin=lambda a, k, n, s: a[0] if a else self.I.num(0))
            if nm in ('True', 'False'):
                v = BoolV(nm == 'True')
        else:
            v = FuncV('builtins.' + nm, builtin=f)
        self.bt[nm] = v
        return v

    def noop(self, a, k, n, st):
        return NONE

    def mod_attr(self, full):
        if full in self.mt:
            return self.mt[full]
        last = full.rsplit('.', 1)[1]
        root = full.split('.')[0]
        v = None
        if root in EXT:
            if last == 'pi':
                v = Num(Poly.atom('pi'), Grading({('cls', 'pi'): Poly.const(1)}), sg=SP)
            elif last in ('newaxis',):
                v = NONE
            elif last in ('inf', 'nan', 'e'):
                v = Num(None, ONEG, sg=SP)
            elif full in ('scipy.special', 'scipy.linalg', 'scipy.integrate', 'numpy.linalg',
                          'numpy.polynomial', 'numpy.polynomial.legendre', 'numpy.random', 'scipy.spatial'):
                v = ModV(full)
            elif full.startswith('numpy.random'):
                v = FuncV(full, builtin=lambda a, k, n, s, f=full: self.rng(f, a, k, n, s))
            elif last in ELEMWISE and not last.startswith('_'):
                v = FuncV(full, builtin=lambda a, k, n, s, f=last: self.elemwise(f, a, k, n, s))
            elif hasattr(self, 'n_' + last):
                v = FuncV(full, builtin=getattr(self, 'n_' + last))
            elif last in ('complex128', 'float64', 'complex', 'float', 'int', 'int64', 'complex_', 'float_'):
                v = Str(last)
        if full == 'os.path':
            v = ModV(full)
        elif full == 'os.path.join':
            v = FuncV(full, builtin=self.path_join)
        if v is None:
            v = Top(full)
        self.mt[full] = v
        return v

    def path_join(self, a, k, n, st):
        if a and all(isinstance(x, Str) and x.s is not None for x in a):
            return Str(posixpath.join(*[x.s for x in a]))
        return Str(None)

    # ------------------------------------------------------------ scalar maths
    def clean(self, a, keep=()):
        """result of a transcendental function of a dimensionless argument"""
        d = {}
        for u, e in a.g.d.items():
            if isinstance(e, Bad):
                d[u] = e
            elif u in keep:
                d[u] = e
        return d

    def dimless(self, a, node, what, d):
        if STAR in a.g.d:
            d[STAR] = UNK
        for u, e in a.g.d.items():
            if isinstance(u, str):
                if isinstance(e, Poly):
                    d[u] = Bad('%s of a quantity with unit %s^{%r} at %s' % (what, u, e, self.I.where(node)), node)
                    self.I.event('mix', node, unit=u, a=repr(e), b='dimensionless argument of ' + what)
                else:
                    d[u] = e

    def f1(self, name, a, node):
        I = self.I
        if isinstance(a, BoolV):
            a = I.bool_num(a)
        if not isinstance(a, Num):
            return TOP
        if STAR in a.g.d:
            return Num(None, a.g, dep=a.dep, real=False)
        m = getattr(self, 's_' + name, None)
        if m:
            return m(a, node)
        d = {}
        self.dimless(a, node, name, d)
        for u, e in a.g.d.items():
            if not isinstance(u, str) and u[0] in ('z2', 'ph', 'sh') and u != NEG:
                d[u] = UNK
        d[CLSUNK] = UNK
        return Num(None, Grading(d), dep=a.dep, real=a.real)

    def s_sqrt(self, a, node=None):
        return self.sqrt(a, node)

    def sqrt(self, a, node=None):
        I = self.I
        if a.zero and not a.dep:
            return a
        d = {}
        val = None
        if a.val is not None:
            r = poly_sqrt(a.val)
            if r is not None:
                val = r
            elif I.alg:
                val = asqrt(a.val)
        for u, e in a.g.d.items():
            if isinstance(e, Bad):
                d[u] = e
            elif u == NEG:
                if not (a.sg <= SP) and not (isinstance(e, Poly) and reduce_exp(u, e).is_zero()):
                    d[u] = UNK
            elif isinstance(u, tuple) and u[0] == 'z2':
                if not isinstance(e, Poly):
                    d[u] = e
                else:
                    r = reduce_exp(u, e)
                    if not r.is_zero():
                        d[u] = UNK
            elif isinstance(u, tuple) and u[0] == 'cls':
                pass
            elif isinstance(u, tuple) and u[0] == 'flag':
                pass
            elif isinstance(u, tuple) and u[0] == 'sh':
                if isinstance(e, Poly) and not e.is_zero():
                    d[u] = UNK
            elif isinstance(e, Poly):
                d[u] = e * F(1, 2)
            else:
                d[u] = e
        d.update(self.sqrt_cls(a))
        sg = SP if a.sg <= SP else SNN
        prov = None
        return Num(val, Grading(d), a.zero, None, sg, prov, a.real and a.sg <= SNN or a.real, False, a.dep)

    def sqrt_cls(self, a):
        g = a.g
        if CLSUNK in g.d:
            return {CLSUNK: UNK}
        if a.val is not None and a.val.is_const():
            return {u: e * F(1, 2) for u, e in g.d.items() if isinstance(u, tuple) and u[0] == 'cls' and isinstance(e, Poly)}
        if ('flag', '~') in g.d:
            return {}
        d = {}
        if a.val is not None:
            if all(x in ('pi',) for x in a.val.atoms()):
                return {u: e * F(1, 2) for u, e in g.d.items() if isinstance(u, tuple) and u[0] == 'cls' and isinstance(e, Poly)}
            d.update(poly_cls(a.val, self.I))
            return {u: e * F(1, 2) for u, e in d.items()}
        for u, e in g.d.items():
            if isinstance(u, tuple) and u[0] == 'cls':
                d[u] = e * F(1, 2) if isinstance(e, Poly) else e
        return d

    def s_exp(self, a, node):
        I = self.I
        if a.zero and not a.dep:
            return I.num(1)
        if a.log is not None:
            return Num(aexp(a.val) if I.alg and a.val is not None else None, a.log, sg=SP, dep=a.dep)
        d = {}
        self.dimless(a, node, 'exp', d)
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'z2' and u != NEG:
                if isinstance(e, Poly):
                    r = reduce_exp(u, e)
                    if not r.is_zero():
                        d[u] = Bad('exponential of a quantity odd under %s' % (u[1],), node)
                else:
                    d[u] = e
            elif isinstance(u, tuple) and u[0] == 'ph':
                if not (isinstance(e, Poly) and e.is_zero()):
                    d[u] = UNK
        real = a.real
        if a.val is not None:
            rest = a.val
            for an in I.angles:
                u = ('ph', I.angle_unit.get(an, an))
                co = a.val.coeff_of(an)
                if co is None:
                    d[u] = UNK
                    continue
                if co.is_zero():
                    continue
                k = strip_i(co)
                if k is None or d.get(u) is UNK:
                    d[u] = UNK
                else:
                    d[u] = d.get(u, Poly()) + k
                    real = False
        else:
            # unknown argument: could depend on an angle
            for an in I.angles:
                if an in a.dep or I.angle_unit.get(an) and I.angle_dep[an] & a.dep:
                    d[('ph', I.angle_unit.get(an, an))] = UNK
        if isinstance(a.tag, tuple) and a.tag[0] == 'iaz':
            d[('ph', 'z')] = a.tag[1]
        if isinstance(a.tag, tuple) and a.tag[0] == 'az2':
            d[('z2', 'c2')] = UNK
        d[CLSUNK] = UNK
        if not real:
            for u in list(d):
                if u == CLSUNK and a.val is not None:
                    del d[u]
        val = aexp(a.val) if I.alg and a.val is not None else None
        return Num(val, Grading(d), sg=SP if real else SIGNS_ALL, real=real, dep=a.dep)

    def s_log(self, a, node):
        d = self.clean(a)
        self.dimless(a, node, 'log', d)
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'z2' and u != NEG and isinstance(e, Poly) and \
                    not reduce_exp(u, e).is_zero():
                d[u] = UNK
        lg = None
        only = a.g.only(lambda u: not (isinstance(u, tuple) and u[0] in ('flag',)))
        lg = only
        if a.val is not None and a.val.is_const() and a.val.cval() == 1:
            return self.I.num(0)
        # a log of a dimensional quantity is only legal inside exp(k*log(x))
        if any(isinstance(u, str) for u in a.g.d):
            d = {u: e for u, e in d.items() if not (isinstance(e, Bad) and isinstance(u, str))}
            d[('logof', '*')] = UNK
        val = Poly.atom(('log', a.val)) if self.I.alg and a.val is not None else None
        return Num(val, Grading(d), log=lg, dep=a.dep, real=a.real)

    def trig(self, a, node, name, odd):
        I = self.I
        if a.zero and not a.dep:
            return I.num(0 if odd else 1)
        d = {}
        self.dimless(a, node, name, d)
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'z2' and u != NEG:
                if odd:
                    d[u] = e
                elif not isinstance(e, Poly):
                    d[u] = e
            elif isinstance(u, tuple) and u[0] == 'ph' and u[1] != 'z':
                if not isinstance(e, Poly) or not e.is_zero():
                    d[u] = UNK
            elif u == ('ph', 'z') and not (isinstance(e, Poly) and e.is_zero()):
                d[u] = UNK
        if odd and NEG in a.g.d:
            d[NEG] = a.g.d[NEG]
        if a.val is not None:
            for h in I.halves:
                co = a.val.coeff_of(h)
                if co is None:
                    d[('sh', h)] = UNK
                elif not co.is_zero():
                    if 'I' in co.atoms() or 'pi' in co.atoms():
                        d[('sh', h)] = UNK
                    else:
                        d[('sh', h)] = co
                        rest = a.val.without(h)
                        if not rest.is_zero():
                            d[('sh', h)] = UNK
            for an in I.angles:
                if an in a.val.atoms():
                    d[('ph', I.angle_unit.get(an, an))] = UNK
        else:
            for h in I.halves:
                if h in a.dep:
                    d[('sh', h)] = UNK
        if a.tag and isinstance(a.tag, tuple) and a.tag[0] == 'azimuth':
            d[('ph', 'z')] = UNK
        if a.tag and isinstance(a.tag, tuple) and a.tag[0] == 'az2' and not (
                a.tag[1] is not None and a.tag[1].is_zero()):
            d[('z2', 'c2')] = UNK
        d[CLSUNK] = UNK
        val = Poly.atom((name, a.val)) if a.val is not None and (I.alg or not a.val.is_const()) else None
        if a.val is not None and a.val.is_zero():
            val = Poly.const(0 if odd else 1)
        return Num(val, Grading(d), dep=a.dep, real=a.real)

    def s_sin(self, a, n):
        return self.trig(a, n, 'sin', True)

    def s_tan(self, a, n):
        r = self.trig(a, n, 'tan', True)
        return r.rep(g=Grading({u: (UNK if isinstance(u, tuple) and u[0] == 'sh' else e) for u, e in r.g.d.items()}))

    def s_cos(self, a, n):
        return self.trig(a, n, 'cos', False)

    def s_sinc(self, a, n):
        # sinc(x) = sin(pi x)/(pi x)
        if a.val is not None:
            r = self.trig(a.rep(val=a.val * Poly.atom('pi')), n, 'sinc', False)
        else:
            r = self.trig(a, n, 'sinc', False)
        d = dict(r.g.d)
        for h in self.I.halves:
            if a.val is not None and h in a.val.atoms() and isinstance(d.get(('sh', h)), Poly):
                # value on the cosine/sine series has the same Fourier degree
                d[('sinc', h)] = Poly.const(1)
        return r.rep(g=Grading(d))

    def inv_trig(self, a, node, name, odd):
        d = {}
        self.dimless(a, node, name, d)
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'z2' and u != NEG and isinstance(e, Poly) and not reduce_exp(u, e).is_zero():
                d[u] = e if odd else UNK
            elif isinstance(e, Bad):
                d[u] = e
        d[CLSUNK] = UNK
        val = Poly.atom((name, a.val)) if a.val is not None and not a.val.is_const() else None
        tag = None
        if name == 'arccos':
            tag = ('polar', a.g.get(('z2', 'cz')))
        return Num(val, Grading(d), dep=a.dep, tag=tag)

    def s_arccos(self, a, n):
        return self.inv_trig(a, n, 'arccos', False)

    def s_arcsin(self, a, n):
        return self.inv_trig(a, n, 'arcsin', True)

    def s_arctan(self, a, n):
        return self.inv_trig(a, n, 'arctan', True)

    def s_abs(self, a, node):
        I = self.I
        val = None
        if a.val is not None:
            if a.val.is_const():
                val = Poly.const(abs(a.val.cval()))
            elif a.sg <= SNN:
                val = a.val
            elif a.sg <= SNP:
                val = -a.val
            else:
                val = mk_op('abs', a.val) if 'I' not in a.val.atoms() else None
        d = {}
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and (u[0] == 'z2' or u[0] == 'ph'):
                if isinstance(e, Bad):
                    d[u] = e
                continue
            d[u] = e
        return Num(val, Grading(d), a.zero, None, SP if '0' not in a.sg else SNN, None, True, a.integer, a.dep)

    s_absolute = s_fabs = s_abs

    def s_sign(self, a, node):
        d = {}
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'z2':
                d[u] = e
            elif isinstance(e, Bad):
                d[u] = e
        val = None
        if a.sg <= SP:
            return self.I.num(1).rep(dep=a.dep)
        if a.sg <= SN:
            return self.I.num(-1).rep(dep=a.dep)
        if a.sg <= SZ:
            return self.I.num(0).rep(dep=a.dep)
        if '0' in a.sg and a.val is None:
            pass
        return Num(Poly.atom(('sign', a.val)) if a.val is not None else None, Grading(d), sg=a.sg, dep=a.dep)

    def s_conj(self, a, node):
        from .interp import prov_conj
        d = {}
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'ph' and isinstance(e, Poly):
                d[u] = -e
            elif u in ('Ym',) and isinstance(e, Poly):
                d[u] = -e
            else:
                d[u] = e
        val = a.val
        if val is not None and self.I.alg:
            val = aconj(val, self.I.complexes)
        elif val is not None and 'I' in val.atoms():
            val = val.subs({'I': -Poly.atom('I')})
        return a.rep(val=val, g=Grading(d), prov=prov_conj(a.prov), tag=None if isinstance(a.tag, tuple) else a.tag)

    s_conjugate = s_conj

    def s_real(self, a, node):
        d = {}
        for u, e in a.g.d.items():
            if isinstance(u, tuple) and u[0] == 'ph' and not (isinstance(e, Poly) and e.is_zero()):
                d[u] = e if isinstance(e, Bad) else UNK
            elif u in ('Ym',):
                d[u] = UNK
            else:
                d[u] = e
        val = a.val if a.val is not None and 'I' not in a.val.atoms() else None
        if self.I.alg and a.val is not None:
            val = aconj(a.val, self.I.complexes)
            val = None if val is None else (a.val + val).scale(F(1, 2))
        return a.rep(g=Grading(d), prov=None if not a.real else a.prov, real=True, val=val)

    def s_imag(self, a, node):
        r = self.s_real(a, node)
        d = dict(r.g.d)
        e = d.get(('z2', 'cy'))
        if e is None or isinstance(e, Poly):
            d[('z2', 'cy')] = (e or Poly()) + 1
        val = None
        if self.I.alg and a.val is not None:
            val = aconj(a.val, self.I.complexes)
            val = None if val is None else (val - a.val).scale(F(1, 2)) * Poly.atom('I')
        return r.rep(g=Grading(d), val=val, sg=SIGNS_ALL)

    def s_floor(self, a, node):
        val = None
        if a.val is not None and len(a.val.t):
            den = 1
            from math import lcm
            for c in a.val.t.values():
                den = lcm(den, c.denominator)
            val = mk_op('//', a.val.scale(den), Poly.const(den))
        return Num(val, a.g, sg=a.sg | SZ, integer=True, dep=a.dep)

    def s_ceil(self, a, node):
        r = self.s_floor(self.I.neg(a), node)
        return self.I.neg(r).rep(g=a.g)

    def s_rint(self, a, node):
        return a.rep(val=None if a.val is None or not a.val.is_const() else Poly.const(round(a.val.cval())), integer=True)

    s_around = s_round = s_rint

    def s_square(self, a, node):
        return self.I.mul(a, a, node)

    def s_negative(self, a, node):
        return self.I.neg(a)

    def s_radians(self, a, node):
        r = self.I.mul(a, self.I.num(F(1, 180)), node)
        return self.I.mul(r, self.mod_attr('numpy.pi'), node)

    s_deg2rad = s_radians

    def s_degrees(self, a, node):
        r = self.I.mul(a, self.I.num(180), node)
        return self.I.div(r, self.mod_attr('numpy.pi'), node)

    s_rad2deg = s_degrees

    def s_gammaln(self, a, node):
        d = {}
        self.dimless(a, node, 'gammaln', d)
        lg = None
        if a.val is not None:
            if a.val.is_const():
                lg = self.fact_const(a.val - 1)
            if lg is None:
                lg = Grading({('cls', ('fact', a.val - 1)): Poly.const(1)})
            else:
                pass
        else:
            lg = Grading({CLSUNK: UNK})
        d[CLSUNK] = UNK
        val = Poly.atom(('gammaln', a.val)) if self.I.alg and a.val is not None else None
        return Num(val, Grading(d), log=lg, dep=a.dep)

    def fact_const(self, p):
        c = p.cval()
        if p.is_const() and c.denominator == 1 and 0 <= c <= 30:
            r = 1
            for i in range(2, int(c) + 1):
                r *= i
            return self.I.const_g(F(r))
        return None

    def s_factorial(self, a, node):
        d = {}
        self.dimless(a, node, 'factorial', d)
        if a.val is not None:
            g = self.fact_const(a.val) if a.val.is_const() else None
            if g is not None:
                r = 1
                for i in range(2, int(a.val.cval()) + 1):
                    r *= i
                return self.I.num(r)
            d[('cls', ('fact', a.val))] = Poly.const(1)
        else:
            d[CLSUNK] = UNK
        val = Poly.atom(('gamma', a.val + 1)) if self.I.alg and a.val is not None else None
        return Num(val, Grading(d), sg=SP, dep=a.dep)

    def s_gamma(self, a, node):
        if a.val is not None:
            return self.s_factorial(a.rep(val=a.val - 1), node)
        return self.s_factorial(a, node)

    def s_angle(self, a, node):
        return Num(None, Grading({('ph', 'z'): UNK}), dep=a.dep)

    def s_isfinite(self, a, node):
        return BoolV(None)

    s_isnan = s_isfinite

    def elemwise(self, name, a, k, n, st):
        x = a[0] if a else TOP
        if isinstance(x, Num) or isinstance(x, BoolV):
            return self.f1(name, x, n)
        c = self.arr(x, st, n)
        if c is None:
            return TOP
        for u in ('out',):
            if u in k and isinstance(k[u], ArrV):
                self.I.mutated(st.store[k[u].aid].roots, n, st, 'out= of %s' % name)
        return self.arr_map(x, lambda e: self.f1(name, e, n), st, n)

    def rng(self, f, a, k, n, st):
        self.I.event('rng', n, name=f)
        last = f.rsplit('.', 1)[1]
        if last in ('seed', 'shuffle'):
            return NONE
        if last in ('default_rng', 'RandomState', 'Generator'):
            return Top('rng:' + f)
        shape = None
        if last in ('rand', 'randn'):
            shape = tuple(x.val if isinstance(x, Num) else None for x in a)
        elif a and last in ('random', 'random_sample'):
            shape = self.shape_of(a[0])
        e = Num(None, ONEG, sg=SNN if last in ('rand', 'random', 'random_sample') else SIGNS_ALL, tag='rand')
        if shape == () or (shape is None and not a):
            return e
        cells = []
        if self.I.trail is not None and e.sg == SNN and shape and len(shape) == 2 and shape[1] is not None and \
                shape[1].is_const() and 0 < shape[1].cval() <= 4:
            nm = '%s:%d:%d' % (n._mod.name.rsplit('.', 1)[-1], n.lineno, n.col_offset)
            cells = [Cell((ALL, Poly.const(j)), e.rep(val=Poly.atom('rand%d@%s' % (j, nm)))) for j in range(int(shape[1].cval()))]
        return self.I.new_arr(ArrC(shape, e, cells), st, n)

    # ------------------------------------------------------- two-argument maths
    def bin_elem(self, a, k, n, st, f):
        x, y = a[0], a[1]
        if isinstance(x, Num) and isinstance(y, Num):
            return f(x, y)
        return self.arr_zip(x, y, f, n, st)

    def n_arctan2(self, a, k, n, st):
        return self.bin_elem(a, k, n, st, lambda y, x: self.atan2(y, x, n))

    def atan2(self, y, x, n):
        I = self.I
        d = {}
        pu = lambda u: isinstance(u, str)
        if not (y.zero or x.zero):
            g = I.addg(y.g.only(pu), x.g.only(pu), n, 'arctan2')
            for u, e in g.d.items():
                if isinstance(e, Bad):
                    d[u] = e
        tag = None
        if y.val is not None and x.val is not None:
            for (px, py) in getattr(I, 'rotpairs', ()):
                if y.val == Poly.atom(py) and x.val == Poly.atom(px):
                    tag = ('azimuth', 'z', 1)
                    at = ('arctan2', y.val, x.val)
                    I.angles.add(at)
                    I.angle_unit[at] = 'z'
                    I.angle_dep[at] = x.dep | y.dep
        c2x, c2y = x.g.get(('z2', 'c2')), y.g.get(('z2', 'c2'))
        if tag is None and not (x.zero or y.zero):
            if isinstance(c2x, Poly) and isinstance(c2y, Poly):
                c2x, c2y = reduce_exp(('z2', 'c2'), c2x), reduce_exp(('z2', 'c2'), c2y)
                tag = ('az2', c2x if c2x == c2y else None)
            else:
                tag = ('az2', None)
        cx, cy = x.g.get(('z2', 'cy')), y.g.get(('z2', 'cy'))
        if isinstance(cy, Poly) and isinstance(cx, Poly):
            if reduce_exp(('z2', 'cy'), cx).is_zero():
                d[('z2', 'cy')] = cy
            else:
                d[('z2', 'cy')] = UNK
        d[CLSUNK] = UNK
        val = Poly.atom(('arctan2', y.val, x.val)) if y.val is not None and x.val is not None else None
        return Num(val, Grading(d), dep=x.dep | y.dep, tag=tag)

    def n_comb(self, a, k, n, st):
        dep = frozenset()
        for x in a[:2]:
            if isinstance(x, Num):
                dep |= x.dep
        if all(isinstance(x, Num) for x in a[:2]):
            d = {}
            for x in a[:2]:
                self.dimless(x, n, 'comb', d)
            v = None
            if a[0].val is not None and a[1].val is not None and a[0].val.is_const() and a[1].val.is_const():
                from math import comb
                p, q = a[0].val.cval(), a[1].val.cval()
                if p.denominator == q.denominator == 1 and p >= 0 and q >= 0:
                    return self.I.num(comb(int(p), int(q)))
            elif self.I.alg and a[0].val is not None and a[1].val is not None:
                g = lambda x, e: Poly({((('gamma', x + 1), e),): F(1)})
                v = g(a[0].val, 1) * g(a[1].val, -1) * g(a[0].val - a[1].val, -1)
            return Num(v, Grading(d), sg=SNN, dep=dep)
        return self.arr_map(a[0] if isarr(a[0]) else a[1], lambda e: Num(None, ONEG, sg=SNN, dep=e.dep), st, n)

    n_binom = n_comb

    def n_hyp2f1(self, a, k, n, st):
        d = {}
        dep = frozenset()
        for x in a:
            if isinstance(x, Num):
                self.dimless(x, n, 'hyp2f1', d)
                dep |= x.dep
        d[CLSUNK] = UNK
        return Num(None, Grading(d), dep=dep)

    n_hyp1f1 = n_hyp2f1
    n_eval_legendre = n_hyp2f1
    n_lpmv = n_hyp2f1

    def n_sph_harm(self, a, k, n, st):
        I = self.I
        m, l, az, pol = a[:4]
        arrs = [x for x in (m, l, az, pol) if not isinstance(x, Num)]
        if arrs:
            f4 = None
            # zip pairwise through a carrier
            box = {}
            def first(x, y):
                return pack(x, y)
            r = self.arr_zipn([m, l, az, pol], lambda xs: self.ylm(*xs, n), n, st)
            return r
        return self.ylm(m, l, az, pol, n)

    def ylm(self, m, l, az, pol, n):
        I = self.I
        d = {}
        for x in (m, l, az, pol):
            self.dimless(x, n, 'sph_harm', d)
        mv, lv = m.val, l.val
        d['Yl'] = lv if lv is not None else UNK
        d['Ym'] = mv if mv is not None else UNK
        dep = m.dep | l.dep | az.dep | pol.dep
        if isinstance(az.tag, tuple) and az.tag[0] == 'azimuth':
            d[('ph', 'z')] = mv * az.tag[2] if mv is not None else UNK
        else:
            if az.val is not None and not az.val.is_const():
                hit = False
                for an in I.angles:
                    co = az.val.coeff_of(an)
                    if co is None or not co.is_zero():
                        d[('ph', I.angle_unit.get(an, an))] = mv * co if mv is not None and co is not None else UNK
                        hit = True
                if not hit:
                    d[('ph', 'z')] = UNK
            elif az.val is None:
                d[('ph', 'z')] = UNK
        if isinstance(az.tag, tuple) and az.tag[0] == 'az2':
            p2 = az.tag[1]
            if p2 is None or mv is None:
                d[('z2', 'c2')] = UNK
            elif not p2.is_zero():
                d[('z2', 'c2')] = mv * p2
        elif az.val is None or not (az.val.is_const() or any(an in az.val.atoms() for an in I.angles)):
            d[('z2', 'c2')] = UNK
        cyz = az.g.get(('z2', 'cy'))
        if not isinstance(cyz, Poly):
            d[('z2', 'cy')] = UNK
        d[CLSUNK] = UNK
        zc = UNK
        if isinstance(pol.tag, tuple) and pol.tag[0] == 'polar':
            e = pol.tag[1]
            if isinstance(e, Poly) and lv is not None and mv is not None:
                zc = (lv + mv) * e
        if zc is not UNK:
            if not zc.is_zero():
                d[('z2', 'cz')] = zc
        else:
            d[('z2', 'cz')] = UNK
        val = None
        if I.alg and all(x.val is not None for x in (m, l, az, pol)):
            val = Poly.atom(('ylm', mv, lv, az.val, pol.val))
        return Num(val, Grading(d), real=False, dep=dep)

    def n_sph_harm_y(self, a, k, n, st):
        return self.n_sph_harm([a[1], a[0], a[3], a[2]], k, n, st)

    def n_spherical_in(self, a, k, n, st, kind='sph_in'):
        def f(l, x):
            d = {}
            self.dimless(x, n, 'spherical_in', d)
            self.dimless(l, n, 'spherical_in', d)
            d['in-deg'] = l.val if l.val is not None else UNK
            d[CLSUNK] = UNK
            v = None
            if self.I.alg and kind and l.val is not None and x.val is not None:
                v = Poly.atom((kind, l.val, x.val))
            return Num(v, Grading(d), sg=SNN, dep=x.dep)
        return self.bin_elem(a, k, n, st, f)

    def n_spherical_kn(self, a, k, n, st):
        return self.n_spherical_in(a, k, n, st, 'sph_kn')

    def n_spherical_jn(self, a, k, n, st):
        return self.n_spherical_in(a, k, n, st, None)

    n_spherical_yn = n_spherical_jn

    def legendre(self, x, st):
        """element (order, degree) of the associated Legendre functions of x"""
        if not self.I.alg or x is None:
            return None
        y = None
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'cos':
                z = m[0][0][1]
                if '-' not in self.I.sign(z, st) and '-' not in self.I.sign(Poly.atom('pi') - z, st):
                    y = Poly.atom(('sin', z))
        if y is None:
            y = Poly.atom(('sqrt', Poly.const(1) - x * x))
        return Poly.atom(('lpmn', Poly.atom('$0'), Poly.atom('$1'), x, y))

    def n_lpmn(self, a, k, n, st):
        d = {}
        dep = frozenset()
        for x in a:
            if isinstance(x, Num):
                self.dimless(x, n, 'lpmn', d)
                dep |= x.dep
        for h in self.I.halves:
            if h in dep:
                d[('sh', h)] = UNK
        d[CLSUNK] = UNK
        e = Num(self.legendre(a[2].val, st) if len(a) == 3 and isinstance(a[2], Num) else None, Grading(d), dep=dep)
        sh = None
        if isinstance(a[0], Num) and isinstance(a[1], Num) and a[0].val is not None and a[1].val is not None:
            sh = (a[0].val + 1, a[1].val + 1)
        return Seq([self.I.new_arr(ArrC(sh, e), st, n, hint=('lp0', n.lineno, n.col_offset)),
                    self.I.new_arr(ArrC(sh, e), st, n, hint=('lp1', n.lineno, n.col_offset))])

    def n_leggauss(self, a, k, n, st):
        nv = a[0].val if isinstance(a[0], Num) else None
        x = Num(None, ONEG, tag='glx')
        w = Num(None, ONEG, sg=SP, tag='glw')
        if nv is not None and self.I.trail is not None:
            x = x.rep(val=Poly.atom(('el', 'gs', nv, Poly.atom('$0'))))
            w = w.rep(val=Poly.atom(('el', 'gw', nv, Poly.atom('$0'))))
        return Seq([self.I.new_arr(ArrC((nv,), x, meta={'antisym': True}), st, n, hint=('gx', n.lineno, n.col_offset)),
                    self.I.new_arr(ArrC((nv,), w, meta={'sum': self.I.num(2), 'sym': True}), st, n,
                                   hint=('gw', n.lineno, n.col_offset))])

    def n_tplquad(self, a, k, n, st):
        I = self.I
        names = ['func', 'a', 'b', 'gfun', 'hfun', 'qfun', 'rfun', 'args']
        v = dict(zip(names, a))
        v.update(k)
        f = v['func']
        extra = v.get('args')
        extra = list(extra.items) if isinstance(extra, Seq) else []
        lo, hi = v['a'], v['b']
        named = lambda x, nm: x.rep(val=Poly.atom(nm)) if I.alg and isinstance(x, Num) else x
        def mid(p, q):
            if isinstance(p, Num) and isinstance(q, Num):
                r = I.join_num(p, q)
                g = r.g
                if not (p.zero or q.zero):
                    pu = lambda u: isinstance(u, str)
                    gg = I.addg(p.g.only(pu), q.g.only(pu), n, 'integration limits')
                    g = Grading({**g.d, **gg.d})
                if p.zero and q.zero:
                    g = ONEG
                tag = None
                return Num(None, g, sg=p.sg | q.sg | (SP if ('-' in p.sg | q.sg) else p.sg | q.sg), dep=p.dep | q.dep)
            return TOP
        def lim(x, args):
            if isinstance(x, FuncV):
                return I.call(x, args, {}, n, st)
            return x
        z = named(mid(lo, hi), 'q.z')
        g1 = lim(v['gfun'], [z])
        h1 = lim(v['hfun'], [z])
        y = named(mid(g1, h1), 'q.y')
        q1 = lim(v['qfun'], [z, y])
        r1 = lim(v['rfun'], [z, y])
        x = named(mid(q1, r1), 'q.x')
        I.event('tplquad', n, data=dict(z=(lo, hi), y=(g1, h1), x=(q1, r1), f=f, extra=extra))
        val = I.call(f, [x, y, z] + extra, {}, n, st)
        term = None
        if I.alg and isinstance(val, Num) and val.val is not None and \
                all(isinstance(w, Num) and w.val is not None for w in (lo, hi, g1, h1, q1, r1)):
            term = Poly.atom(('quad', val.val) + tuple(w.val for w in (lo, hi, g1, h1, q1, r1)))
        for w in (x, y, z):
            if isinstance(val, Num) and isinstance(w, Num):
                val = I.mul(val.rep(val=None), w.rep(val=None), n)
        if isinstance(val, Num):
            err = Num(None, val.g)
            val = val.rep(val=term, sg=SIGNS_ALL)
            return Seq([val, err])
        return Seq([TOP, TOP])

    def n_quad(self, a, k, n, st):
        return Seq([Top('quad'), Top('quad')])

    # ---------------------------------------------------------------- builtins
    def b_slice(self, a, k, n, st):
        from .interp import SliceV
        a = [None if isinstance(x, NoneV) else x for x in a]
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_range(self, a, k, n, st):
        from .interp import RangeV
        ps = []
        for x in a:
            if isinstance(x, BoolV):
                x = self.I.bool_num(x)
            if not isinstance(x, Num) or x.val is None:
                self.fresh += 1
                ps.append(Poly.atom(('unkr', n._mod.name, n.lineno, n.col_offset, len(ps))))
            else:
                ps.append(x.val)
        if len(ps) == 1:
            return RangeV(Poly(), ps[0], Poly.const(1))
        if len(ps) == 2:
            return RangeV(ps[0], ps[1], Poly.const(1))
        return RangeV(ps[0], ps[1], ps[2])

    def b_len(self, a, k, n, st):
        x = a[0]
        if isinstance(x, ObjV) and self.I.find_method(x.cls, '__len__') is None and self.I.derives(x.cls, x.cls):
            from .interp import Dead
            raise Dead('TypeError', n)
        L = self.I.iter_len(x, st)
        if isinstance(x, Str):
            return self.I.num(len(x.s)) if x.s is not None else Num(None, ONEG, sg=SNN, integer=True)
        if L is None:
            if isinstance(x, ArrV):
                at = Poly.atom(('len', x.aid))
                return Num(at, ONEG, sg=SNN, integer=True)
            return Num(None, ONEG, sg=SNN, integer=True)
        return Num(L, ONEG, sg=self.I.sign(L, st) & SNN or SNN, integer=True)

    def b_abs(self, a, k, n, st):
        return self.elemwise('abs', a, k, n, st)

    def b_int(self, a, k, n, st):
        x = a[0]
        if isinstance(x, Num):
            if x.val is not None and self.I.R.integral(x.val):
                return x
            v = None
            if x.val is not None:
                v = mk_op('int', x.val) if not x.val.is_const() else Poly.const(int(x.val.cval()))
            return Num(v, x.g, sg=x.sg | SZ, integer=True, dep=x.dep, tag=x.tag)
        if isinstance(x, Str):
            return self.I.number(x.s) if self.I.number is not None and x.s is not None else Num(None, ONEG, tag=x.tag, integer=True)
        if isinstance(x, BoolV):
            return self.I.bool_num(x)
        return x

    def b_float(self, a, k, n, st):
        x = a[0]
        if isinstance(x, Str):
            return self.I.number(x.s) if self.I.number is not None and x.s is not None else Num(None, ONEG, tag=x.tag)
        if isinstance(x, BoolV):
            return self.I.bool_num(x)
        return x

    def b_bool(self, a, k, n, st):
        return self.I.truth(a[0], st)

    def b_complex(self, a, k, n, st):
        if len(a) == 2 and all(isinstance(x, Num) for x in a):
            return self.I.add(a[0], self.I.mul(a[1], self.I.num(1j), n), n)
        return a[0]

    def b_str(self, a, k, n, st):
        return Str(None, getattr(a[0], 'tag', None) if a else None)

    b_repr = b_str

    def b_list(self, a, k, n, st):
        if not a:
            return Seq([], True)
        x = a[0]
        if isinstance(x, Seq):
            return Seq(x.items, True)
        if isinstance(x, ListV):
            return ListV(x.elem, x.length)
        if isinstance(x, ArrV):
            return ListV(self.I.getitem(x, [Num(Poly.atom('$i'), integer=True, sg=SNN)], n, st), self.I.iter_len(x, st))
        c = getattr(x, 'conc', lambda: None)()
        if c is not None and len(c) <= 32:
            return Seq([self.I.num(i) for i in c], True)
        if x.__class__.__name__ == 'RangeV':
            return ListV(Num(x.lo + x.step * Poly.atom('$i'), ONEG, integer=True), self.I.iter_len(x, st))
        return ListV(TOP, None)

    def b_tuple(self, a, k, n, st):
        r = self.b_list(a, k, n, st)
        if isinstance(r, Seq):
            return Seq(r.items)
        return r

    b_sorted = b_reversed = lambda self, a, k, n, st: ListV(self.I.seq_elem(a[0], st, st)[0] if isinstance(a[0], (Seq, ListV)) else TOP, self.I.iter_len(a[0], st))

    def b_dict(self, a, k, n, st):
        return DictV(dict(k))

    def b_enumerate(self, a, k, n, st):
        from .interp import EnumV
        x = a[0]
        if isinstance(x, Seq):
            return Seq([Seq([self.I.num(i), v]) for i, v in enumerate(x.items)])
        return EnumV(x)

    def b_zip(self, a, k, n, st):
        from .interp import ZipV
        if all(isinstance(x, Seq) for x in a) and a:
            return Seq([Seq(list(t)) for t in zip(*[x.items for x in a])])
        return ZipV(list(a))

    def b_map(self, a, k, n, st):
        f, x = a[0], a[1]
        if isinstance(x, Seq):
            return Seq([self.I.call(f, [i], {}, n, st) for i in x.items], True)
        e, l = (self.I.seq_elem(x, st, st) if isinstance(x, (Seq, ListV)) else (TOP, None))
        return ListV(self.I.call(f, [e], {}, n, st), l)

    def minmax(self, name, a, k, n, st):
        I = self.I
        xs = a
        if len(a) == 1:
            if isinstance(a[0], Seq):
                xs = a[0].items
            else:
                return self.reduce_arr(a[0], n, st, None, 'join')
        if not all(isinstance(x, Num) for x in xs):
            return TOP
        r = xs[0]
        for y in xs[1:]:
            if r.val is not None and y.val is not None:
                s = I.sign(r.val - y.val, st)
                if s <= SNN:
                    r = r if name == 'max' else y
                    continue
                if s <= SNP:
                    r = y if name == 'max' else r
                    continue
                v = mk_op(name, r.val, y.val)
            else:
                v = None
            j = I.join_num(r, y)
            sg = r.sg | y.sg
            if name == 'max':
                if r.sg <= SP or y.sg <= SP:
                    sg = SP
                elif r.sg <= SNN or y.sg <= SNN:
                    sg = sg & SNN
            else:
                if r.sg <= SN or y.sg <= SN:
                    sg = SN
            pu = lambda u: isinstance(u, str)
            g = j.g
            if not (r.zero or y.zero):
                g = Grading({**g.d, **I.addg(r.g.only(pu), y.g.only(pu), n, name).d})
            r = Num(v, g, sg=sg or SIGNS_ALL, integer=r.integer and y.integer, dep=r.dep | y.dep)
        return r

    def b_max(self, a, k, n, st):
        return self.minmax('max', a, k, n, st)

    def b_min(self, a, k, n, st):
        return self.minmax('min', a, k, n, st)

    def b_sum(self, a, k, n, st):
        return self.reduce_arr(a[0], n, st, None, 'sum')

    def b_round(self, a, k, n, st):
        return self.f1('rint', a[0], n) if isinstance(a[0], Num) else TOP

    def b_callable(self, a, k, n, st):
        return BoolV(None)

    def b_isinstance(self, a, k, n, st):
        if len(a) != 2 or k:
            return BoolV(None)
        v = a[0]
        exprs = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
        cls = a[1].items if isinstance(a[1], Seq) else [a[1]]
        if len(exprs) != len(cls):
            return BoolV(None)
        hit = False
        for e, c in zip(exprs, cls):
            if isinstance(c, ClassV):
                if isinstance(v, ObjV):
                    r = self.I.derives(v.cls, c)
                else:
                    r = False if isinstance(v, (Num, Str, NoneV, BoolV, Seq, ListV, ArrV, DictV)) else None
            elif isinstance(e, ast.Name) and e.id in ('list', 'tuple', 'str', 'dict'):
                if isinstance(v, Seq):
                    r = e.id == ('list' if v.mutable else 'tuple')
                elif isinstance(v, Str):
                    r = e.id == 'str'
                elif isinstance(v, ListV):
                    r = None if e.id in ('list', 'tuple') else False
                elif isinstance(v, (ObjV, ArrV, Num, NoneV, BoolV)):
                    r = False
                else:
                    r = None
            else:
                r = None
            if r:
                return BoolV(True)
            hit = None if r is None else hit
        return BoolV(hit)

    def b_hasattr(self, a, k, n, st):
        if len(a) == 2 and isinstance(a[0], ObjV) and isinstance(a[1], Str) and a[1].s is not None:
            return BoolV(a[1].s in st.heap.get(a[0].oid, {}) or self.I.find_method(a[0].cls, a[1].s) is not None)
        return BoolV(None)

    def b_all(self, a, k, n, st):
        return self.quantify('all', a[0] if a else None, st, n)

    def b_any(self, a, k, n, st):
        return self.quantify('any', a[0] if a else None, st, n)

    def b_open(self, a, k, n, st):
        if self.I.files is not None and a and isinstance(a[0], Str) and a[0].s is not None:
            f = self.I.files(a[0].s)
            if f is not None:
                return FileV([Str(x) for x in f])
        return Top('file')

    def b_type(self, a, k, n, st):
        return Top('type')

    def b_pow(self, a, k, n, st):
        return self.I.binop(ast.Pow(), a[0], a[1], n, st)

    def b_divmod(self, a, k, n, st):
        return Seq([self.I.binop(ast.FloorDiv(), a[0], a[1], n, st), self.I.binop(ast.Mod(), a[0], a[1], n, st)])

    def b_super(self, a, k, n, st):
        return Top('super')

    # ------------------------------------------------------------ array basics
    def shape_of(self, v):
        if isinstance(v, Num):
            return (v.val,)
        if isinstance(v, Seq):
            return tuple(x.val if isinstance(x, Num) else None for x in v.items)
        return None

    def dt(self, k, a, pos, default='float'):
        d = k.get('dtype')
        if d is None and len(a) > pos:
            d = a[pos]
        if d is None:
            return default
        s = d.s if isinstance(d, Str) else (d.name.rsplit('.')[-1] if isinstance(d, FuncV) else getattr(d, 'why', ''))
        s = str(s)
        if 'complex' in s:
            return 'complex'
        if 'int' in s:
            return 'int'
        if 'bool' in s:
            return 'bool'
        return 'float'

    def n_zeros(self, a, k, n, st):
        sh = k.get('shape', a[0] if a else None)
        return self.I.new_arr(ArrC(self.shape_of(sh), self.I.num(0), dtype=self.dt(k, a, 1)), st, n)

    def n_empty(self, a, k, n, st):
        sh = k.get('shape', a[0] if a else None)
        e = Num(None, Grading({STAR: UNK}), real=False, dep=frozenset(['uninit']))
        return self.I.new_arr(ArrC(self.shape_of(sh), e, dtype=self.dt(k, a, 1)), st, n)

    def n_ones(self, a, k, n, st):
        return self.I.new_arr(ArrC(self.shape_of(a[0]), self.I.num(1), dtype=self.dt(k, a, 1)), st, n)

    def n_full(self, a, k, n, st):
        v = a[1] if len(a) > 1 else k.get('fill_value', TOP)
        if not isinstance(v, Num):
            return TOP
        return self.I.new_arr(ArrC(self.shape_of(a[0]), v, dtype=self.dt(k, a, 2, None)), st, n)

    def n_zeros_like(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None:
            return TOP
        return self.I.new_arr(ArrC(c.shape, self.I.num(0), dtype=self.dt(k, a, 1, c.dtype)), st, n)

    def n_empty_like(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None:
            return TOP
        e = Num(None, Grading({STAR: UNK}), real=False, dep=frozenset(['uninit']))
        return self.I.new_arr(ArrC(c.shape, e, dtype=self.dt(k, a, 1, c.dtype)), st, n)

    def n_ones_like(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None:
            return TOP
        return self.I.new_arr(ArrC(c.shape, self.I.num(1), dtype=self.dt(k, a, 1, c.dtype)), st, n)

    def n_identity(self, a, k, n, st):
        nv = a[0].val if isinstance(a[0], Num) else None
        c = ArrC((nv, nv), self.I.num(0), dtype='float')
        if nv is not None and nv.is_const() and nv.cval() <= (60 if self.I.dense else 6):
            for i in range(int(nv.cval())):
                c.cells.append(Cell((Poly.const(i), Poly.const(i)), self.I.num(1), n))
        else:
            one = ind(SZ, Poly.atom('$0') - Poly.atom('$1')) if self.I.alg else None
            return self.I.new_arr(ArrC((nv, nv), Num(one, ONEG, sg=SNN), dtype='float'), st, n)
        return self.I.new_arr(c, st, n)

    n_eye = n_identity

    def n_arange(self, a, k, n, st):
        vals = [x for x in a if isinstance(x, Num)]
        if len(vals) != len(a) or not a:
            return TOP
        lo, hi, step = self.I.num(0), None, self.I.num(1)
        if len(a) == 1:
            hi = a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            lo, hi, step = a[:3]
        if 'step' in k:
            step = k['step']
        if lo.val is None or hi.val is None or step.val is None:
            e = self.I.join_num(lo, hi)
            return self.I.new_arr(ArrC((None,), Num(None, e.g, dep=e.dep)), st, n)
        ln = None
        if step.val.is_const() and step.val.cval() != 0:
            sc = step.val.cval()
            d = (hi.val - lo.val).scale(1 / sc)
            if sc == 1 or all(c.denominator == 1 for c in d.t.values()):
                ln = d
            else:
                ln = mk_op('//', hi.val - lo.val + Poly.const(sc - 1), Poly.const(sc))
            if ln is not None and self.I.sign(ln, st) <= SNP:
                ln = Poly()
        v = lo.val + step.val * Poly.atom('$0')
        self.I.syms.get('$0', [Poly()], [])
        self.I.syms.get('$1', [Poly()], [])
        pu = lambda u: isinstance(u, str)
        g = lo.g.only(pu) if not lo.zero else hi.g.only(pu)
        e = Num(v, g, sg=self.I.sign(v, st), integer=True, dep=lo.dep | hi.dep)
        return self.I.new_arr(ArrC((ln,), e, dtype='int'), st, n)

    def n_linspace(self, a, k, n, st):
        e = self.I.join_num(a[0], a[1]) if isinstance(a[0], Num) and isinstance(a[1], Num) else unk()
        nv = a[2].val if len(a) > 2 and isinstance(a[2], Num) else Poly.const(50)
        return self.I.new_arr(ArrC((nv,), Num(None, e.g, dep=e.dep), dtype='float'), st, n)

    def n_array(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None:
            return TOP
        return self.I.new_arr(c.copy(roots=frozenset(), meta={x: y for x, y in c.meta.items() if x != 'view'},
                                     dtype=self.dt(k, a, 1, c.dtype)), st, n)

    def n_asarray(self, a, k, n, st):
        if isinstance(a[0], ArrV):
            return a[0]
        return self.n_array(a, k, n, st)

    n_ascontiguousarray = n_asanyarray = n_asarray

    def n_copy(self, a, k, n, st):
        return self.n_array(a[:1], k, n, st)

    n_deepcopy = n_copy

    def n_shape(self, a, k, n, st):
        return self.attr(a[0], 'shape', n, st)

    def n_ndim(self, a, k, n, st):
        if isinstance(a[0], Num):
            return self.I.num(0)
        c = self.arr(a[0], st, n)
        if c is None or c.ndim is None:
            return Num(None, ONEG, sg=SNN, integer=True)
        return self.I.num(c.ndim)

    def n_size(self, a, k, n, st):
        return self.attr(a[0], 'size', n, st)

    def arr(self, v, st, n=None):
        """array contents of any value (None if unknown)"""
        I = self.I
        if isinstance(v, ArrV):
            return st.store.get(v.aid)
        if isinstance(v, BoolV):
            v = I.bool_num(v)
        if isinstance(v, Str) and v.s is not None and I.number is not None:
            v = I.number(v.s)
        if isinstance(v, Num):
            return ArrC((), v)
        if isinstance(v, Seq):
            items = [self.arr(x, st, n) for x in v.items]
            if any(x is None for x in items):
                return None
            if not items:
                return ArrC((Poly(),), I.num(0))
            nd = items[0].ndim
            if any(x.ndim != nd or nd is None for x in items):
                return None
            cells = []
            base = I.num(0)
            for i, x in enumerate(items):
                mp = {'$%d' % j: Poly.atom('$%d' % (j + 1)) for j in range(nd)}
                b = I.subs_num(x.base, mp) if nd else x.base
                cells.append(Cell((Poly.const(i),) + (ALL,) * nd, b, None))
                for cc in x.cells:
                    cells.append(Cell((Poly.const(i),) + cc.idx, I.subs_num(cc.elem, mp), cc.node))
            sh = items[0].shape
            return ArrC((Poly.const(len(items)),) + tuple(sh), base, cells,
                        'complex' if any(x.dtype == 'complex' for x in items) else items[0].dtype)
        if isinstance(v, ListV):
            if v.elem is None:
                return ArrC((v.length,), I.num(0))
            x = self.arr(v.elem, st, n)
            if x is None or x.ndim is None:
                return None
            nd = x.ndim
            mp = {'$%d' % j: Poly.atom('$%d' % (j + 1)) for j in range(nd)}
            mp['$i'] = Poly.atom('$0')
            mp['$i1'] = Poly.atom('$i')
            mp['$i2'] = Poly.atom('$i1')
            cells = [Cell((ALL,) + cc.idx, I.subs_num(cc.elem, mp), cc.node) for cc in x.cells]
            for k, y in v.over:
                cy = self.arr(y, st, n)
                if cy is None or cy.ndim != nd:
                    return None
                cells.append(Cell((k,) + (ALL,) * nd, I.subs_num(cy.base, mp)))
                cells += [Cell((k,) + cc.idx, I.subs_num(cc.elem, mp), cc.node) for cc in cy.cells]
            return ArrC((v.length,) + tuple(x.shape), I.subs_num(x.base, mp), cells, x.dtype)
        if v.__class__.__name__ == 'RangeV':
            return ArrC((I.iter_len(v, st),), Num(v.lo + v.step * Poly.atom('$0'), ONEG, integer=True), dtype='int')
        return None

    def attr(self, v, name, n, st):
        I = self.I
        if isinstance(v, Str):
            return FuncV('str.' + name, builtin=lambda a, k, nn, s, v=v, nm=name: self.str_method(v, nm, a, k, nn, s))
        if isinstance(v, FileV):
            return FuncV('file.' + name, builtin=lambda a, k, nn, s, v=v, nm=name: self.list_method(v, nm, a, k, nn, s))
        if isinstance(v, (Seq, ListV)) and name in ('append', 'extend', 'copy', 'sort', 'index', 'insert', 'pop',
                                                     'reverse', 'clear', 'count', 'remove'):
            return FuncV('list.' + name, builtin=lambda a, k, nn, s, v=v, nm=name: self.list_method(v, nm, a, k, nn, s))
        if isinstance(v, FuncV) and v.name.startswith('numpy.'):
            op = v.name.rsplit('.', 1)[1]
            if op in self.UF_OPS and name == 'outer':
                return FuncV(v.name + '.outer', builtin=lambda a, k, nn, s, op=op: self.uf_outer(op, a, nn, s))
            if op == 'add' and name == 'reduce':
                return FuncV('numpy.sum', builtin=self.n_sum)
            return Top(v.name + '.' + name)
        if isinstance(v, DictV):
            return FuncV('dict.' + name, builtin=lambda a, k, nn, s, v=v, nm=name: self.dict_method(v, nm, a, k, nn, s))
        if isinstance(v, Num):
            if name in ('real', 'imag'):
                return self.f1(name, v, n)
            if name in ('conj', 'conjugate'):
                return FuncV('num.conj', builtin=lambda a, k, nn, s, v=v: self.f1('conj', v, nn))
            if name in ('astype', 'copy', 'item'):
                return FuncV('num.' + name, builtin=lambda a, k, nn, s, v=v: v)
            if name == 'shape':
                return Seq([])
            if name == 'sum':
                return FuncV('num.sum', builtin=lambda a, k, nn, s, v=v: v)
            return Top('num.' + name)
        if isinstance(v, ArrV):
            c = st.store[v.aid]
            if name == 'T':
                return self.transpose(v, n, st)
            if name == 'shape':
                if c.shape is None:
                    return Top('shape')
                return Seq([Num(s if s is not None else Poly.atom(('len', v.aid, i)), ONEG, sg=SNN, integer=True)
                            for i, s in enumerate(c.shape)])
            if name == 'ndim':
                return Num(None, ONEG, integer=True) if c.ndim is None else I.num(c.ndim)
            if name == 'size':
                p = Poly.const(1)
                for s in c.shape or [None]:
                    p = p * s if p is not None and s is not None else None
                return Num(p, ONEG, sg=SNN, integer=True)
            if name in ('real', 'imag'):
                return self.elemwise(name, [v], {}, n, st)
            if name == 'flat' or name == 'dtype':
                return Top('arr.' + name)
            return FuncV('ndarray.' + name, builtin=lambda a, k, nn, s, v=v, nm=name: self.arr_method(v, nm, a, k, nn, s))
        return Top(getattr(v, 'why', v.kind) + '.' + name)

    def str_method(self, v, nm, a, k, n, st):
        I = self.I
        if v.s is not None and nm in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'partition',
                                      'rpartition', 'replace', 'startswith', 'endswith', 'find', 'rfind', 'count', 'index',
                                      'isdigit', 'isspace', 'isalpha', 'title', 'removesuffix', 'removeprefix', 'casefold',
                                      'join', 'zfill', 'expandtabs'):
            try:
                r = getattr(v.s, nm)(*[concrete(x) for x in a], **{x: concrete(y) for x, y in k.items()})
            except ValueError:
                r = None
            if isinstance(r, (str, bool, int, list, tuple)):
                return abstract(I, r)
        if nm in ('startswith', 'endswith'):
            if v.s is not None and a and isinstance(a[0], Str) and a[0].s is not None:
                return BoolV(getattr(v.s, nm)(a[0].s))
            return BoolV(None)
        if nm in ('split', 'splitlines'):
            return ListV(Str(None, v.tag), None)
        if nm in ('find', 'count', 'index'):
            return Num(None, ONEG, integer=True)
        return Str(None, v.tag)

    def list_method(self, v, nm, a, k, n, st):
        I = self.I
        if isinstance(v, FileV):
            if nm == 'readlines':
                return Seq(v.items, True)
            if nm == 'read':
                return Str(''.join(x.s for x in v.items))
            return NONE if nm == 'close' else Top('file.' + nm)
        if nm == 'append':
            if isinstance(v, Seq) and len(v.items) < 12:
                I.replace_ref(v, Seq(v.items + [a[0]], True), st)
                return NONE
            e, l = I.seq_elem(v, st, st)
            x = a[0]
            if isinstance(v, ListV) and v.length is not None and v.elem is not None:
                if v.root:
                    I.mutated(v.root, n, st, 'list append')
                nv = ListV(v.elem, v.length + 1, v.root)
                nv.over = v.over + ((v.length, x),)
                I.replace_ref(v, nv, st)
                return NONE
            if isinstance(v, ListV) and v.root:
                I.mutated(v.root, n, st, 'list append')
            ne = x if e is None else I.join_val(e, x, st, st, st)
            I.replace_ref(v, ListV(ne, None if l is None or I.live else l + 1, getattr(v, 'root', frozenset())), st)
            return NONE
        if nm == 'copy':
            return Seq(v.items, True) if isinstance(v, Seq) else ListV(v.elem, v.length)
        if nm in ('index', 'count'):
            return Num(None, ONEG, sg=SNN, integer=True)
        if nm == 'extend':
            e, l = I.seq_elem(v, st, st)
            if isinstance(a[0], (Seq, ListV)):
                if isinstance(a[0], Seq) and isinstance(v, Seq) and not I.live:
                    I.replace_ref(v, Seq(v.items + a[0].items, True), st)
                    return NONE
                e2, _ = I.seq_elem(a[0], st, st)
                ne = e2 if e is None else (e if e2 is None else I.join_val(e, e2, st, st, st))
                I.replace_ref(v, ListV(ne, None), st)
            return NONE
        if getattr(v, 'root', None):
            I.mutated(v.root, n, st, 'list ' + nm)
        e, l = I.seq_elem(v, st, st)
        if nm == 'pop':
            return e if e is not None else TOP
        I.replace_ref(v, ListV(e, None), st)
        return NONE

    def dict_method(self, v, nm, a, k, n, st):
        if nm == 'get' and a and isinstance(a[0], Str) and a[0].s in v.d:
            return v.d[a[0].s]
        return TOP

    def arr_method(self, v, nm, a, k, n, st):
        I = self.I
        c = st.store[v.aid]
        if nm in ('conj', 'conjugate'):
            return self.elemwise('conj', [v], {}, n, st)
        if nm == 'dot':
            return self.n_dot([v] + a, k, n, st)
        if nm in ('sum',):
            return self.n_sum([v] + a, k, n, st)
        if nm == 'mean':
            return self.n_mean([v] + a, k, n, st)
        if nm in ('any', 'all'):
            return self.quantify(nm, v if not a and not k else None, st, n)
        if nm in ('min', 'max'):
            return self.reduce_arr(v, n, st, None, 'join')
        if nm in ('copy',):
            return self.n_copy([v], k, n, st)
        if nm == 'astype':
            r = self.n_copy([v], {}, n, st)
            st.store[r.aid].dtype = self.dt(k, a, 0, c.dtype)
            return r
        if nm in ('flatten',):
            return self.flat(v, n, st, frozenset())
        if nm in ('ravel', 'reshape'):
            return self.flat(v, n, st, c.roots, a if nm == 'reshape' else None)
        if nm == 'diagonal':
            return self.n_diagonal([v] + a, k, n, st)
        if nm == 'transpose':
            return self.transpose(v, n, st)
        if nm == 'tolist':
            return self.b_list([v], {}, n, st)
        if nm in ('fill', 'sort', 'resize', 'put', 'itemset', 'partition'):
            I.mutated(c.roots, n, st, 'method .%s' % nm)
            if nm == 'fill' and a and isinstance(a[0], Num):
                st.store[v.aid] = c.copy(base=a[0], cells=[])
            return NONE
        if nm == 'round':
            return v
        if nm == 'item':
            return self.arr_elem_join(v, st)
        return Top('ndarray.' + nm)

    def flat(self, v, n, st, roots, shp=None):
        c = st.store[v.aid]
        e = self.elem_join(c)
        e = self.drop_ph(e)
        sh = (None,)
        if shp:
            s = shp[0] if len(shp) == 1 else Seq(list(shp))
            sh = self.shape_of(s)
            if sh is not None:
                sh = tuple(None if x is not None and x.is_const() and x.cval() < 0 else x for x in sh)
        return self.I.new_arr(ArrC(sh, e, dtype=c.dtype, roots=roots), st, n)

    def drop_ph(self, e):
        d = {}
        bad = lambda p: any(isinstance(x, str) and x.startswith('$') for x in deep(p))
        for u, x in e.g.d.items():
            d[u] = UNK if isinstance(x, Poly) and bad(x) else x
        v = e.val if e.val is None or not bad(e.val) else None
        return e.rep(g=Grading(d), val=v, prov=None)

    def elem_join(self, c):
        e = c.base
        first = True
        for x in c.cells:
            y = x.elem
            e = self.I.join_num(e, y)
        return e

    def arr_elem_join(self, v, st):
        c = self.arr(v, st)
        return self.elem_join(c) if c is not None else TOP

    # ------------------------------------------------------------ elementwise
    def arr_map(self, v, f, st, n):
        c = self.arr(v, st, n)
        if c is None:
            return TOP
        c = self.snap(v, c)
        b = f(c.base)
        if not isinstance(b, Num):
            b = unk()
        cells = []
        for x in c.cells:
            y = f(x.elem)
            cells.append(Cell(x.idx, y if isinstance(y, Num) else unk(), x.node))
        dt = c.dtype
        return self.I.new_arr(ArrC(c.shape, b, cells, dt), st, n)

    def snap(self, v, c):
        """attach reading provenance to elements when tracing is on"""
        I = self.I
        if not getattr(I, 'trace_prov', False) or not isinstance(v, ArrV):
            return c
        if c.ndim is None:
            return c
        tab = I.snapshots
        if id(c) not in tab:
            tab[id(c)] = (c, len(tab))      # keeps c alive: the id stays unique
        key = tab[id(c)][1]
        ph = tuple(Poly.atom('$%d' % i) for i in range(c.ndim))
        one = (F(1), Poly())
        base = c.base
        if base.prov is None:
            base = base.rep(prov=(((key, ph, False), one),))
        cells = []
        for x in c.cells:
            e = x.elem
            if e.prov is None:
                idx = tuple(Poly.atom('$%d' % i) if not isinstance(p, Poly) else p for i, p in enumerate(x.idx))
                e = e.rep(prov=(((key, idx, False), one),))
            cells.append(Cell(x.idx, e, x.node))
        return c.copy(base=base, cells=cells)

    def arr_binop(self, op, a, b, n, st):
        if type(op).__name__ == 'MatMult':
            return self.n_dot([a, b], {}, n, st)
        f = lambda x, y: self.I.scalar_op(op, x, y, n)
        r = self.arr_zip(a, b, f, n, st)
        if isinstance(r, ArrV):
            c = st.store[r.aid]
            da = self.kind_of(a, st)
            db = self.kind_of(b, st)
            if 'complex' in (da, db):
                c.dtype = 'complex'
            elif type(op).__name__ == 'Div':
                c.dtype = 'float'
            elif da == db:
                c.dtype = da
            else:
                c.dtype = 'float' if None not in (da, db) else None
            if type(op).__name__ == 'Mult':
                self.mass_tags(r, a, b, n, st)
        return r

    def mass_tags(self, r, a, b, n, st):
        pass

    def kind_of(self, v, st):
        if isinstance(v, ArrV):
            return st.store[v.aid].dtype
        if isinstance(v, Num):
            return 'int' if v.integer else ('float' if v.real else 'complex')
        return None

    def arr_zip(self, a, b, f, n, st):
        return self.arr_zipn([a, b], lambda xs: f(*xs), n, st)

    def arr_zipn(self, vs, f, n, st):
        I = self.I
        cs = []
        for v in vs:
            c = self.arr(v, st, n)
            if c is None:
                return TOP
            cs.append(self.snap(v, c))
        if any(c.ndim is None for c in cs):
            es = [self.drop_ph(self.elem_join(c)) for c in cs]
            r = f(es)
            return I.new_arr(ArrC(None, r if isinstance(r, Num) else unk()), st, n)
        nd = max(c.ndim for c in cs)
        shape = []
        for ax in range(nd):
            dims = []
            for c in cs:
                k = ax - (nd - c.ndim)
                if k >= 0:
                    dims.append(c.shape[k])
            known = [d for d in dims if d is not None and not (d.is_const() and d.cval() == 1)]
            if known:
                s = known[0]
                for d in known[1:]:
                    if d != s:
                        sg = I.sign(d - s, st)
                        if I.filtered.get(d) == s or I.filtered.get(s) == d:
                            I.event('filtered_mismatch', n, a=repr(s), b=repr(d))
                        if '0' not in sg:
                            I.event('shape', n, a=repr(s), b=repr(d))
                            I.event('shape_mismatch', n, a=repr(s), b=repr(d))
                shape.append(s if len(known) == len([d for d in dims if d is None or not (d.is_const() and d.cval() == 1)]) or True else None)
            elif any(d is None for d in dims):
                shape.append(None)
            else:
                shape.append(Poly.const(1))
        al = [self.align(c, nd, shape) for c in cs]
        if I.dense and any(c.cells for c in al):
            r = self.zip_dense(al, shape, f, n, st)
            if r is not None:
                return r
        base = f([c.base for c in al])
        if not isinstance(base, Num):
            if isinstance(base, BoolV):
                base = I.bool_num(base)
            else:
                base = unk()
        cells, seen = [], {}
        late = []
        for ci, c in enumerate(al):
            for cell in c.cells:
                k = tuple(cell.idx)
                es = []
                edges = []
                for cj, o in enumerate(al):
                    if cj == ci:
                        es.append(cell.elem)
                    else:
                        sp = []
                        es.append(self.at(o, cell.idx, st, sp))
                        edges += [(cj, x, mp) for x, mp in sp]
                for cj, x, mp in edges:
                    es2 = [I.subs_num(y, mp) for y in es]
                    es2[cj] = I.subs_num(x, mp)
                    e2 = f(es2)
                    if isinstance(e2, Num):
                        late.append(Cell(tuple(self.subs_idx(i, mp) for i in cell.idx), e2, cell.node))
                e = f(es)
                if isinstance(e, BoolV):
                    e = I.bool_num(e)
                if not isinstance(e, Num):
                    e = unk()
                if k in seen:
                    j = seen[k]
                    # the later computation saw the same position through `at`
                    if cells[j].elem.key() != e.key() and ci > seen[(k, 'src')]:
                        continue
                    if cells[j].elem.key() != e.key():
                        cells[j] = Cell(cell.idx, I.join_num(cells[j].elem, e), cell.node)
                    continue
                seen[k] = len(cells)
                seen[(k, 'src')] = ci
                cells.append(Cell(cell.idx, e, cell.node))
        if sum(bool(c.cells) for c in al) > 1 and all(d is not None and d.is_const() and d.cval() <= 8 for d in shape):
            # a row of one array meets a column of another
            for ci, c in enumerate(al):
                for o in al[ci + 1:]:
                    for x in c.cells:
                        for y in o.cells:
                            m = meet(x.idx, y.idx)
                            if m is None or m in seen or m == x.idx or m == y.idx or len(cells) > 80:
                                continue
                            e = f([self.at(q, m, st) for q in al])
                            if isinstance(e, Num):
                                seen[m] = len(cells)
                                cells.append(Cell(m, e, x.node))
        lk = {}
        for x in late:
            if x.idx in lk:
                if lk[x.idx].elem.key() != x.elem.key():
                    lk[x.idx] = Cell(x.idx, I.join_num(lk[x.idx].elem, x.elem), x.node)
            else:
                lk[x.idx] = x
        wide = lambda x: -sum(not isinstance(i, Poly) for i in x.idx)

        def apart(x, y):
            return any(isinstance(i, Poly) and isinstance(j, Poly) and (i - j).is_const() and not (i - j).is_zero()
                       for i, j in zip(x.idx, y.idx))
        if sum(bool(c.cells) for c in al) > 1 and not any(
                wide(x) > wide(y) and not apart(x, y) for c in al for k, x in enumerate(c.cells) for y in c.cells[k + 1:]):
            # a slice taken from one array does not hide a position taken from another
            cells.sort(key=wide)
        cells = [x for x in cells if x.idx not in lk] + list(lk.values())
        return I.new_arr(ArrC(tuple(shape), base, cells), st, n)

    def points(self, axes, shape):
        """the positions of a region of an array of known size"""
        rs = []
        for i, d in zip(axes, shape):
            if isinstance(i, Poly):
                if not i.is_const():
                    return None
                rs.append((i,))
                continue
            if d is None or not d.is_const():
                return None
            lo, hi = (Poly(), d) if i is ALL else i[1:]
            lo, hi = Poly() if lo is None else lo, d if hi is None else hi
            if i is not ALL and (i[1] is None) != (i[2] is None) and i[1] is None:
                return None
            if not lo.is_const() or not hi.is_const():
                return None
            rs.append([Poly.const(k) for k in range(int(lo.cval()), int(hi.cval()))])
        size = 1
        for r in rs:
            size *= len(r)
        return list(itertools.product(*rs)) if size <= 700 else None

    def zip_dense(self, al, shape, f, n, st):
        """element by element"""
        pts = self.points([ALL] * len(shape), shape)
        if pts is None:
            return None
        base, cells = None, []
        for q in pts:
            es = [self.at(c, q, st) for c in al]
            if any(e is None for e in es):
                return None
            e = f(es)
            if not isinstance(e, Num):
                return None
            if e.zero:
                base = base or e
            else:
                cells.append(Cell(q, e, n))
        return self.I.new_arr(ArrC(tuple(shape), base or self.I.num(0), cells), st, n)

    def align(self, c, nd, shape):
        s = nd - c.ndim
        mp = {}
        for k in range(c.ndim):
            if c.shape[k] is not None and c.shape[k].is_const() and c.shape[k].cval() == 1 and \
                    not (shape[k + s] is not None and shape[k + s].is_const() and shape[k + s].cval() == 1):
                mp['$%d' % k] = Poly()
            elif s:
                mp['$%d' % k] = Poly.atom('$%d' % (k + s))
        ones = [k for k in range(c.ndim) if '$%d' % k in mp and mp['$%d' % k].is_zero()]
        if not mp and not s:
            return c
        I = self.I
        cells = []
        for x in c.cells:
            idx = [ALL if k in ones else i for k, i in enumerate(x.idx)]
            cells.append(Cell((ALL,) * s + tuple(self.subs_idx(i, mp) for i in idx), I.subs_num(x.elem, mp), x.node))
        sh = (None,) * s + tuple(c.shape)
        return ArrC(sh, I.subs_num(c.base, mp), cells, c.dtype)

    def subs_idx(self, i, mp):
        if isinstance(i, Poly):
            return i.subs(mp)
        if i is ALL:
            return i
        return ('rg',) + tuple(None if q is None else q.subs(mp) for q in i[1:])

    # ---------------------------------------------------------- cell lookup
    def is_free(self, a):
        I = self.I
        return isinstance(a, str) and a in I.syms.tab and a not in I.live and not a.startswith('$') \
            and a not in I.params

    def rename_cell(self, cell, target=()):
        I = self.I
        from .interp import num_atoms, deep_atoms
        ats = set()
        for i in cell.idx:
            if isinstance(i, Poly):
                ats |= deep_atoms(i)
            elif i is not ALL:
                for q in i[1:]:
                    if q is not None:
                        ats |= deep_atoms(q)
        ats |= num_atoms(cell.elem)
        free = sorted([a for a in ats if self.is_free(a)], key=lambda a: I.syms.tab[a].order)
        mp = {}
        # names of the position looked up stay apart from the new names
        avoid = set()
        for i in target:
            if isinstance(i, Poly):
                avoid |= deep_atoms(i)
            elif isinstance(i, tuple) and i is not ALL:
                for q in i[1:]:
                    if q is not None:
                        avoid |= deep_atoms(q)
        tag = '#'
        while any(a + tag in avoid for a in free):
            tag += '#'
        for a in free:
            v = I.syms.variant(a, mp, tag)
            if a in I.past:
                I.past.setdefault(v, I.past[a])
            mp[a] = Poly.atom(v)
        idx = tuple(self.subs_idx(i, mp) for i in cell.idx)
        return idx, I.subs_num(cell.elem, mp), [a + tag for a in free]

    def unify(self, cidx, frees, idx, st, ndim=None):
        """-> (kind, subst) ; kind in 'must','may',None"""
        I = self.I
        eqs = []
        regions = []
        kind = 'must'
        over = False
        for k, (ci, ri) in enumerate(zip(cidx, idx)):
            if ci is ALL:
                continue
            if isinstance(ci, tuple):
                regions.append((ci, ri))
                continue
            if not isinstance(ri, Poly):
                if isinstance(ri, tuple) and ri is not ALL and ri[0] == 'rg':
                    lo, hi = ri[1], ri[2]
                    if lo is not None and I.sign(ci - lo, st) <= SN:
                        return None, None
                    if hi is not None and I.sign(hi - 1 - ci, st) <= SN:
                        return None, None
                # a single position against a whole region
                over = True
                continue
            eqs.append((ci, ri))
        sub = {}
        pins = {}
        self.last_pins = pins
        changed = True
        pend = [c - r for c, r in eqs]
        while changed and pend:
            changed = False
            for j, e in enumerate(pend):
                cand = [a for a in e.atoms() if a in frees and a not in sub]
                for a in sorted(cand, key=lambda x: -I.syms.tab[x].order):
                    co = e.coeff_of(a)
                    if co is None or not co.is_const():
                        continue
                    sol = e.without(a).scale(-1 / co.cval())
                    if not I.R.integral(sol) and any(c.denominator != 1 for c in sol.t.values()):
                        if sol.is_const():
                            return None, None
                        kind = 'may'
                    sub = {x: y.subs({a: sol}) for x, y in sub.items()}
                    sub[a] = sol
                    del pend[j]
                    pend = [p.subs({a: sol}) for p in pend]
                    changed = True
                    break
                if changed:
                    break
        for e in pend:
            if e.is_zero():
                continue
            s = I.sign(e, st)
            if '0' not in s:
                return None, None
            if s != SZ:
                kind = 'may'
        for ci, ri in regions:
            lo, hi = (None if q is None else q.subs(sub) for q in ci[1:])
            if isinstance(ri, Poly):
                if lo is not None:
                    s = I.sign(ri - lo, st)
                    if s <= SN:
                        return None, None
                    if not s <= SNN:
                        kind = 'may'
                if hi is not None:
                    s = I.sign(hi - 1 - ri, st)
                    if s <= SN:
                        return None, None
                    if not s <= SNN:
                        kind = 'may'
            elif ri == ci:
                pass
            else:
                # region against region
                if isinstance(ri, tuple) and ri is not ALL and ri[0] == 'rg':
                    for x, y in ((hi, ri[1]), (ri[2], lo)):
                        if x is not None and y is not None and I.sign(x - y, st) <= SNP:
                            return None, None
                kind = 'may'
        for a, sol in sub.items():
            sy = I.syms.tab[a]
            for lim in [sol - lo.subs(sub) for lo in sy.lo] + [hi.subs(sub) - sol for hi in sy.hi]:
                s = I.sign(lim, st)
                if s <= SN:
                    return None, None
                if not s <= SNN:
                    if s <= SNP:
                        # only possible on the edge: the slack must vanish
                        m = self.solve_any(lim, pins)
                        w = self.within(m, st) if m else SNN
                        if w is None:
                            return None, None
                        if m and w:
                            pins.update(m)
                            continue
                    kind = 'may'
            orig = I.past.get(a) or I.past.get(a.rstrip('#'))
            if orig in I.live:
                # strictly earlier iteration of a running ascending loop
                s = I.sign(Poly.atom(orig) - sol, st)
                if s <= SNP:
                    return None, None
        # everything but the choice of a member of the family is certain
        self.last_sure = kind == 'must'
        return ('may' if over else kind), sub

    def within(self, mp, st):
        """are the pinned values inside the bounds of their symbols? None: never"""
        I, sure = self.I, True
        for a, v in mp.items():
            sy = I.syms.tab[a]
            for lim in [v - lo for lo in sy.lo] + [hi - v for hi in sy.hi]:
                s = I.sign(lim, st)
                if s <= SN:
                    return None
                sure = sure and s <= SNN
        return sure

    def solve_any(self, p, mp):
        I = self.I
        p = p.subs(mp)
        if p.is_zero():
            return {}
        for a in sorted((x for x in p.atoms() if isinstance(x, str) and x in I.syms.tab), key=lambda x: -I.syms.tab[x].order):
            if a in I.params:
                continue
            co = p.coeff_of(a)
            if co is not None and co.is_const():
                return {a: p.without(a).scale(-1 / co.cval())}
        return None

    def candidates(self, c, idx, st):
        """[(elem, kind, cell, pins)] newest first, ending with base unless a
        must-cell hides it; pins: symbol values under which a match exists"""
        I = self.I
        out = []
        for cell in reversed(c.cells):
            cidx, elem, frees = self.rename_cell(cell, idx)
            kind, sub = self.unify(cidx, frees, idx, st)
            if kind is None:
                continue
            pins = dict(self.last_pins)
            if pins:
                kind = 'may'
            if sub:
                elem = I.subs_num(elem, sub)
            # region axes: placeholders refer to absolute positions
            mp = {}
            for k, (ci, ri) in enumerate(zip(cidx, idx)):
                if isinstance(ri, Poly):
                    mp['$%d' % k] = ri
            if mp:
                elem = I.subs_num(elem, mp)
            out.append((elem, kind, cell, pins))
            if kind == 'must':
                return out
        mp = {'$%d' % k: ri for k, ri in enumerate(idx) if isinstance(ri, Poly)}
        out.append((I.subs_num(c.base, mp) if mp else c.base, 'base', None, {}))
        return out

    def at(self, c, idx, st, split=None):
        if self.I.dense and all(isinstance(i, Poly) and i.is_const() for i in idx):
            for x in reversed(c.cells):
                if not all(isinstance(i, Poly) and i.is_const() for i in x.idx):
                    break
                if x.idx == tuple(idx):
                    return x.elem
            else:
                return self.I.subs_num(c.base, {'$%d' % k: i for k, i in enumerate(idx)})
        cs = self.candidates(c, idx, st)
        # general (symbolic) entries first, special positions afterwards
        special, general, base = [], [], None
        for e, k, cell, pins in cs:
            if cell is None:
                base = e
            elif pins:
                if split is not None:
                    split.append((e, pins))
                else:
                    special.append((e, pins, cell))
            else:
                mp = self.pin(cell, idx) if k == 'may' else None
                if mp and split is not None and self.I.alg:
                    pass        # combined at its own position
                elif mp:
                    special.append((e, mp, cell))
                else:
                    general.append((e, cell))
        if not general:
            if base is not None and split is None and all(self.is_edge(mp) for _, mp, _ in special):
                return base
            es = [e for e, _, _ in special] + ([base] if base is not None else [])
            r = es[0]
            for e in es[1:]:
                r = self.I.join_num(r, e)
            return r
        r, rc = general[0]
        for e, _ in general[1:]:
            r = self.I.join_num(r, e)
        for e, mp, cell in special:
            r = self.join_at(r, e, mp, rc, cell, idx)
        if base is not None:
            r = self.I.join_num(r, base)
        return r

    def is_edge(self, mp):
        return any(a not in self.I.live for a in mp) and False

    def pin(self, cell, idx):
        """values of loop symbols for which the read position is this cell"""
        I = self.I
        if any(not isinstance(i, Poly) for i in cell.idx):
            return None
        mp = {}
        for ci, ri in zip(cell.idx, idx):
            if any(self.is_free(a) for a in ci.atoms()):
                return None
            if not isinstance(ri, Poly):
                return None
            d = (ri - ci).subs(mp)
            if d.is_zero():
                continue
            for a in sorted(d.atoms(), key=str):
                if isinstance(a, str) and (a in I.live or a in I.syms.tab) and a not in I.params:
                    co = d.coeff_of(a)
                    if co is not None and co.is_const():
                        mp[a] = d.without(a).scale(-1 / co.cval())
                        break
        return mp or None

    def join_at(self, gen, sp, mp, gcell, scell, idx):
        """join a general entry with one valid only where mp holds: equal there
        means the general grading stands; otherwise a linear law through both
        positions is proposed (and re-checked by the next loop pass)"""
        I = self.I
        if sp.zero or gen.zero:
            return I.join_num(gen, sp)
        d = {}
        for u in set(gen.g.d) | set(sp.g.d):
            x, y = gen.g.get(u), sp.g.get(u)
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                d[u] = join_exp(u, x, y)
                continue
            if reduce_exp(u, x.subs(mp) - y).is_zero():
                d[u] = x
                continue
            if modulus(u) == 1:
                d[u] = UNK
                continue
            z = self.extrapolate(u, x, y, gcell, scell, idx)
            d[u] = z
        r = I.join_num(gen, sp)
        return r.rep(g=Grading(d))

    def extrapolate(self, u, x, y, gcell, scell, idx):
        I = self.I
        from .interp import deep_atoms
        for ax, (gi, si, ri) in enumerate(zip(gcell.idx, scell.idx, idx)):
            if not (isinstance(gi, Poly) and isinstance(si, Poly) and isinstance(ri, Poly)):
                continue
            fr = [a for a in gi.atoms() if self.is_free(a) or a in I.past]
            if len(fr) != 1:
                continue
            a = fr[0]
            sy = I.syms.tab.get(a)
            if sy is None or len(sy.lo) != 1:
                continue
            # the raw entry must not yet vary with its own position
            raw = gcell.elem.g.get(u)
            if not isinstance(raw, Poly) or a in deep_atoms(raw):
                continue
            first = gi.subs({a: sy.lo[0]})
            step = first - si
            if not step.is_const() or step.cval() == 0:
                continue
            slope = (x - y).scale(1 / step.cval())
            return y + slope * (ri - si)
        return UNK

    # ---------------------------------------------------------- reading
    def norm_index(self, i, dim, st, n, what, c=None):
        """integer index -> Poly position (negative wrapped), recording bounds"""
        I = self.I
        if not isinstance(i, Num) or i.val is None:
            return None
        p = i.val
        s = I.sign(p, st)
        if s <= SN and dim is not None:
            return p + dim
        return p

    def bounds_event(self, p, dim, st, n, what):
        I = self.I
        if dim is None or p is None or not getattr(I, 'trace_bounds', False):
            return
        lo = I.sign(p, st)
        hi = I.sign(dim - 1 - p, st)
        I.event('index', n, pos=repr(p), dim=repr(dim), lo=''.join(sorted(lo)), hi=''.join(sorted(hi)),
                what=what, data=(p, dim, dict(st.facts)))

    def expand_idx(self, idx, nd):
        out = []
        for i in idx:
            if isinstance(i, Top) and i.why == 'ellipsis':
                k = nd - (len(idx) - 1)
                from .interp import SliceV
                out += [SliceV(None, None, None)] * k
            else:
                out.append(i)
        return out

    def slice_bounds(self, s, dim, st):
        """-> (lo, hi, step) Polys or None"""
        I = self.I
        step = 1
        if s.step is not None and not isinstance(s.step, NoneV):
            if isinstance(s.step, Num) and s.step.val is not None and s.step.val.is_const():
                step = int(s.step.val.cval())
            else:
                return None, None, None

        def pos(x, default):
            if x is None or isinstance(x, NoneV):
                return default
            if isinstance(x, Num) and x.val is not None:
                p = x.val
                sg = I.sign(p, st)
                if sg <= SN:
                    return dim + p if dim is not None else None
                return p
            return None
        if step > 0:
            return pos(s.lo, Poly()), pos(s.hi, dim), step
        lo = pos(s.lo, dim - 1 if dim is not None else None)
        hi = pos(s.hi, Poly.const(-1))
        return lo, hi, step

    def slice_len(self, s, dim, st=None):
        from .state import State
        lo, hi, step = self.slice_bounds(s, dim, st or State())
        if lo is None or hi is None:
            return None
        if step == 1:
            return hi - lo
        if step == -1:
            return lo - hi
        return None

    def arr_get(self, v, idx, n, st):
        from .interp import SliceV
        I = self.I
        c = st.store[v.aid]
        if c.ndim is None:
            return self.I.new_arr(ArrC(None, self.drop_ph(self.elem_join(c)), dtype=c.dtype, roots=c.roots), st, n, hint=('get', v.aid, n.lineno, n.col_offset))
        idx = self.expand_idx(idx, c.ndim)
        for ax, i in enumerate(idx):
            if isinstance(i, SliceV) and i.lo is None and i.hi is None and isinstance(i.step, Num) and \
                    i.step.val is not None and i.step.val == Poly.const(-1) and \
                    not any(isinstance(x, NoneV) for x in idx[:ax]):
                f = self.flip(v, ax, n, st)
                if not isinstance(f, ArrV):
                    return TOP
                rest = [SliceV(None, None, None) if k == ax else x for k, x in enumerate(idx)]
                if all(isinstance(x, SliceV) and x.lo is None and x.hi is None and x.step is None for x in rest):
                    return f
                return self.arr_get(f, rest, n, st)
        cv = c
        if getattr(I, 'trace_prov', False):
            cv = self.snap(v, c)
        # boolean mask / condition arrays
        out_axes = []     # list of (old axis, mode...)
        ax = 0
        fixed = {}
        newshape = []
        mp = {}
        view = True
        trans = []       # per old axis: function on cell index
        plan = []
        for i in idx:
            if isinstance(i, NoneV):
                plan.append(('new',))
                continue
            if ax >= c.ndim:
                I.event('too_many_indices', n)
                return TOP
            dim = c.shape[ax]
            if isinstance(i, BoolV):
                plan.append(('mask', ax))
                view = False
                ax += 1
            elif isinstance(i, Num):
                p = self.norm_index(i, dim, st, n, 'read')
                if p is not None:
                    mq = self.eqs(st)
                    p = p.subs(mq) if mq else p
                if p is not None:
                    self.bounds_event(i.val, dim, st, n, 'read')
                plan.append(('at', ax, p))
                ax += 1
            elif isinstance(i, SliceV):
                plan.append(('sl', ax) + self.slice_bounds(i, dim, st))
                ax += 1
            elif isinstance(i, (ArrV, Seq, ListV)) or i.__class__.__name__ == 'RangeV':
                ic = self.arr(i, st, n)
                view = False
                if ic is not None and ic.dtype == 'bool':
                    nm = self.selection(ic)
                    plan.append(('mask', ax) + (((nm,),) if nm is not None else ()))
                elif ic is not None and ic.ndim == 1 and not ic.cells and ic.base.val is not None:
                    plan.append(('fancy', ax, ic.base.val, ic.shape[0]))
                    self.fancy_bounds(ic, dim, st, n)
                else:
                    plan.append(('mask', ax, ic.shape if ic is not None else None))
                    if ic is not None and ic.meta.get('rows_of') is not None and dim == ic.meta['nsel']:
                        I.event('stale_index', n, dim=repr(dim))
                    if ic is not None and ic.meta.get('rows_of') is not None:
                        I.filtered[ic.meta['nsel']] = ic.meta['rows_of']
                ax += 1
            else:
                plan.append(('unk', ax))
                ax += 1
        while ax < c.ndim:
            plan.append(('sl', ax, Poly(), c.shape[ax], 1))
            ax += 1
        if I.reads is not None and v.aid in I.reads:
            I.reads[v.aid].append((plan, n, st))
        if all(p[0] == 'at' for p in plan) and len(plan) == c.ndim and all(p[2] is not None for p in plan):
            pos = tuple(p[2] for p in plan)
            return self.read_elem(cv, pos, st, n)
        # general: transform axis by axis
        return self.take(v, c, cv, plan, n, st, view)

    def fancy_bounds(self, ic, dim, st, n):
        I = self.I
        if dim is None or ic.shape[0] is None or ic.base.val is None:
            return
        co = ic.base.val.coeff_of('$0')
        if co is None or not co.is_const():
            return
        first = ic.base.val.subs({'$0': Poly()})
        last = ic.base.val.subs({'$0': ic.shape[0] - 1})
        for p in (first, last):
            self.bounds_event(p, dim, st, n, 'fancy')

    def read_elem(self, c, pos, st, n):
        return self.at(c, pos, st)

    def take(self, v, c, cv, plan, n, st, view):
        I = self.I
        from .interp import num_atoms
        entries = [(None, cv.base)] + [(x, x.elem) for x in cv.cells]
        newax = 0
        amap = {}           # old axis -> ('drop',pos) | (newaxis, kind, args)
        shape = []
        order = []
        fancy_axis = None
        for p in plan:
            if p[0] == 'new':
                shape.append(Poly.const(1))
                order.append(None)
            elif p[0] == 'at':
                amap[p[1]] = ('drop', p[2])
            elif p[0] == 'sl':
                _, ax, lo, hi, step = p
                ln = None
                if lo is not None and hi is not None:
                    # numpy clips slice ends
                    if step == 1:
                        dim = c.shape[ax]
                        h2 = hi
                        if dim is not None and I.sign(hi - dim, st) <= SNN:
                            if I.sign(hi - dim, st) <= SP:
                                I.event('slice_clip', n, hi=repr(hi), dim=repr(dim))
                            h2 = dim
                        ln = h2 - lo
                    elif step == -1:
                        ln = lo - hi
                    elif step > 1:
                        ln = mk_op('//', hi - lo + (step - 1), Poly.const(step))
                amap[ax] = ('sl', len(shape), lo, hi, step)
                shape.append(ln)
                order.append(ax)
            elif p[0] == 'fancy':
                if fancy_axis is None:
                    fancy_axis = len(shape)
                    shape.append(p[3])
                    order.append(p[1])
                amap[p[1]] = ('fancy', fancy_axis, p[2])
            elif p[0] == 'mask':
                if fancy_axis is None:
                    fancy_axis = len(shape)
                    sh = p[2] if len(p) > 2 else None
                    shape.append(sh[0] if sh and len(sh) == 1 else None)
                    order.append(p[1])
                amap[p[1]] = ('mask', fancy_axis)
            else:
                amap[p[1]] = ('drop', None)
        base = None
        cells = []
        # substitution for placeholders of the base element
        def phmap(ax_idx):
            mp = {}
            for ax in range(c.ndim):
                a = amap[ax]
                ci = ax_idx[ax] if ax_idx is not None else ALL
                key = '$%d' % ax
                if a[0] == 'drop':
                    mp[key] = a[1] if a[1] is not None else Poly.atom(('anyi', ax))
                elif a[0] == 'sl':
                    if a[2] is not None:
                        mp[key] = a[2] + Poly.atom('$%d' % a[1], a[4])
                    else:
                        mp[key] = Poly.atom(('anyi', ax))
                elif a[0] == 'fancy':
                    mp[key] = a[2].subs({'$0': Poly.atom('$%d' % a[1])})
                else:
                    mp[key] = Poly.atom('$%d' % a[1])
            return mp
        base = I.subs_num(cv.base, phmap(None))
        sure = False
        for x in cv.cells:
            dropi = [ax for ax in range(c.ndim) if amap[ax][0] == 'drop']
            cidx, elem, frees = self.rename_cell(x)
            ridx = []
            for ax in range(c.ndim):
                a = amap[ax]
                if a[0] == 'drop' and a[1] is not None:
                    ridx.append(a[1])
                elif a[0] == 'sl' and a[2] is not None and a[4] == 1 and isinstance(cidx[ax], Poly):
                    ridx.append(('rg', a[2], a[3]))
                else:
                    ridx.append(ALL)
            kind, sub = self.unify([cidx[ax] if amap[ax][0] in ('drop', 'sl') else ALL for ax in range(c.ndim)], frees, ridx, st)
            if kind is None:
                continue
            sure = self.last_sure and not self.last_pins
            cidx0 = cidx
            if sub:
                elem = I.subs_num(elem, sub)
                cidx = tuple(self.subs_idx(i, sub) for i in cidx)
            nidx = [ALL] * len(shape)
            mp = {}
            for ax in range(c.ndim):
                a = amap[ax]
                key = '$%d' % ax
                ci = cidx[ax]
                if a[0] == 'drop':
                    if a[1] is not None:
                        mp[key] = a[1]
                    continue
                if a[0] == 'sl':
                    lo, step = a[2], a[4]
                    if lo is None:
                        nidx[a[1]] = ALL
                        mp[key] = Poly.atom(('anyi', ax))
                        continue
                    mp[key] = lo + Poly.atom('$%d' % a[1], step)
                    if isinstance(ci, Poly):
                        q = (ci - lo).scale(F(1, step))
                        nidx[a[1]] = q
                    elif ci is not ALL:
                        l2, h2 = ci[1], ci[2]
                        if step == 1:
                            l3 = None if l2 is None else l2 - lo
                            h3 = None if h2 is None else h2 - lo
                            if l3 is not None and I.sign(l3, st) <= SNP:
                                l3 = None
                            if h3 is not None and shape[a[1]] is not None and I.sign(h3 - shape[a[1]], st) <= SNN:
                                h3 = None
                            nidx[a[1]] = ('rg', l3, h3) if (l3 is not None or h3 is not None) else ALL
                        elif step == -1:
                            l3 = None if h2 is None else lo - (h2 - 1)
                            h3 = None if l2 is None else lo - l2 + 1
                            nidx[a[1]] = ('rg', l3, h3)
                elif a[0] == 'fancy':
                    mp[key] = a[2].subs({'$0': Poly.atom('$%d' % a[1])})
                    if isinstance(ci, Poly):
                        f = a[2].subs({'$0': Poly.atom('$%d' % a[1])})
                        co = f.coeff_of('$%d' % a[1])
                        if co is not None and co.is_const() and co.cval() != 0:
                            nidx[a[1]] = (ci - f.without('$%d' % a[1])).scale(1 / co.cval())
                else:
                    mp[key] = Poly.atom('$%d' % a[1])
            elem = I.subs_num(elem, mp)
            soft = kind == 'may' and bool(dropi)
            if soft:
                # members of the family that lie in the kept region: only the
                # dropped axes decide whether they are read
                st2 = st.copy()
                for ax, r in enumerate(ridx):
                    if amap[ax][0] == 'sl' and isinstance(cidx[ax], Poly) and isinstance(r, tuple) and r is not ALL:
                        if r[1] is not None:
                            st2.add_fact(cidx[ax] - r[1], SNN)
                        if r[2] is not None:
                            st2.add_fact(r[2] - 1 - cidx[ax], SNN)
                q = [(cidx[ax] if amap[ax][0] == 'sl' else r) for ax, r in enumerate(ridx)]
                k2, s2 = self.unify([cidx0[ax] if amap[ax][0] in ('drop', 'sl') else ALL
                                     for ax in range(c.ndim)], [a for a in frees if a in sub], q, st2)
                sure = k2 == 'must' and not self.last_pins
                if not sure and k2 is not None and not self.last_pins:
                    # members that exist only above or below a bound
                    tm = self.tighten(sub, [i for ax, i in enumerate(cidx) if amap[ax][0] == 'sl'], frees, st2)
                    if tm:
                        for lim in tm[1]:
                            st2.add_fact(lim, SNN)
                        k2, s2 = self.unify([cidx0[ax] if amap[ax][0] in ('drop', 'sl') else ALL
                                             for ax in range(c.ndim)], [a for a in frees if a in sub], q, st2)
                        if k2 == 'must' and not self.last_pins:
                            sure = True
                            elem = I.subs_num(elem, tm[0])
                            cidx = tuple(self.subs_idx(i, tm[0]) for i in cidx)
                            nidx = [self.subs_idx(i, tm[0]) for i in nidx]
                if not sure:
                    elem = I.join_num(elem, base)
            nidx = tuple(nidx)
            if not sub and dropi:
                # written later at exactly this position: hides the member of a
                # family written before
                cells = [y for y in cells if y.idx != nidx]
            cells.append(Cell(nidx, elem, x.node))
        # cells covering everything become the base
        if cells:
            for j in range(len(cells) - 1, -1, -1):
                if all(i is ALL for i in cells[j].idx):
                    base = cells[j].elem
                    cells = cells[j + 1:]
                    break
        if sure:
            base, cells = self.close_family(shape, base, cells, st)
        nc = ArrC(tuple(shape), base, cells, c.dtype, c.roots if view else frozenset())
        if view:
            nc.meta['view'] = v.aid
            nc.meta['plan'] = plan
        if c.meta.get('colsum') is not None:
            nc.meta['of'] = (v.aid, tuple(repr(p) for p in plan))
        if not shape:
            return base
        hint = ('get', v.aid, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
        nc.meta['src'] = (v.aid, c.meta.get('ver'), tuple((p[0],) + tuple(x if not isinstance(x, Poly) else repr(x) for x in p[1:]) for p in plan))
        return I.new_arr(nc, st, n, hint=hint)

    def tighten(self, sub, idxs, frees, st):
        """symbols of the kept positions with the bounds a solved equation
        imposes on them -> (renaming, bounds) or None"""
        I = self.I
        kept = {a for i in idxs if isinstance(i, Poly) for a in i.atoms() if a in frees and a not in sub}
        los, his, lims = {}, {}, []
        for a, sol in sub.items():
            sy = I.syms.tab[a]
            for lim in [sol - lo.subs(sub) for lo in sy.lo] + [hi.subs(sub) - sol for hi in sy.hi]:
                if I.sign(lim, st) <= SNN:
                    continue
                bs = [b for b in lim.atoms() if b in kept]
                if len(bs) != 1 or lim.coeff_of(bs[0]) not in (Poly.const(1), Poly.const(-1)):
                    return None
                b = bs[0]
                rest = lim.without(b)
                if rest.atoms() & set(frees):
                    return None
                lims.append(lim)
                if lim.coeff_of(b) == Poly.const(1):
                    los.setdefault(b, []).append(-rest)
                else:
                    his.setdefault(b, []).append(rest)
        mp = {}
        for b in sorted(set(los) | set(his)):
            sy = I.syms.tab[b]
            nm = '%s>%r<%r' % (b, los.get(b, ''), his.get(b, ''))
            I.syms.get(nm, sy.lo + los.get(b, []), sy.hi + his.get(b, []))
            mp[b] = Poly.atom(nm)
        return (mp, lims) if mp else None

    def close_family(self, shape, base, cells, st):
        """a family of single positions that covers the whole vector is its
        content"""
        I = self.I
        if len(shape) != 1 or not cells or shape[0] is None:
            return base, cells
        i = cells[-1].idx[0]
        if not isinstance(i, Poly):
            return base, cells
        fr = [a for a in i.atoms() if self.is_free(a)]
        if len(fr) != 1 or i.coeff_of(fr[0]) != Poly.const(1):
            return base, cells
        a = fr[0]
        sy = I.syms.tab[a]
        if not sy.lo or not sy.hi:
            return base, cells
        off = i.without(a)
        if any('-' in I.sign(h + off - (shape[0] - 1), st) for h in sy.hi):
            return base, cells
        starts = [l + off for l in sy.lo]
        if all(I.sign(s, st) <= SNP for s in starts):
            return I.subs_num(cells[-1].elem, {a: Poly.atom('$0') - off}), []
        if len(cells) == 1 and len(starts) == 1:
            # covers all but the first positions
            return I.subs_num(cells[-1].elem, {a: Poly.atom('$0') - off}), \
                [Cell((('rg', Poly(), starts[0]),), base, cells[-1].node)]
        return base, cells

    def getitem_other(self, b, idx, n, st):
        if b.__class__.__name__ == 'RangeV':
            i = idx[0]
            if isinstance(i, Num) and i.val is not None:
                return Num(b.lo + b.step * i.val, ONEG, integer=True)
        return Top('item')

    # ---------------------------------------------------------- writing
    def arr_set(self, v, idx, val, n, st, aug=False):
        from .interp import SliceV
        I = self.I
        c = st.store[v.aid]
        node = n
        I.mutated(c.roots, n, st, 'element assignment')
        if c.meta.get('list'):
            self.list_write(v, c, idx, val, n, st)
        if c.meta.get('view') in st.store and c.meta.get('plan') is not None:
            self.write_through(v, c, idx, val, n, st)
        if c.ndim is None:
            e = self.arr_elem_join(val, st) if not isinstance(val, Num) else val
            if isinstance(e, Num):
                st.store[v.aid] = c.copy(base=I.join_num(c.base, self.drop_ph(e)))
            return
        idx = self.expand_idx(idx, c.ndim)
        cidx = []
        ax = 0
        regions = []
        for i in idx:
            if ax >= c.ndim:
                I.event('too_many_indices', n)
                return
            dim = c.shape[ax]
            if isinstance(i, Num):
                p = self.norm_index(i, dim, st, n, 'write')
                if i.val is not None:
                    self.bounds_event(i.val, dim, st, n, 'write')
                if p is None:
                    p = Poly.atom(('anyw', n._mod.name, n.lineno, n.col_offset, ax))
                cidx.append(p)
            elif isinstance(i, SliceV):
                lo, hi, step = self.slice_bounds(i, dim, st)
                regions.append((ax, lo, step))
                full = (lo is not None and lo.is_zero()) and (hi is not None and hi == dim or (i.hi is None))
                if abs(step or 0) != 1 or lo is None:
                    cidx.append(('rg', None, None))
                elif step == -1:
                    cidx.append(('rg', None if hi is None else hi + 1, lo + 1))
                else:
                    cidx.append(ALL if full else ('rg', lo, hi))
            else:
                ic = self.arr(i, st, n) if isarr(i) else None
                if ic is not None and ic.ndim == 1 and not ic.cells and ic.base.val is not None and ic.dtype != 'bool':
                    co = ic.base.val.coeff_of('$0')
                    if co is not None and co.is_const() and co.cval() == 1 and ic.shape[0] is not None:
                        lo = ic.base.val.without('$0')
                        regions.append((ax, lo, 1))
                        cidx.append(('rg', lo, lo + ic.shape[0]))
                        self.fancy_bounds(ic, dim, st, n)
                        ax += 1
                        continue
                regions.append((ax, Poly(), 1))
                cidx.append(('rg', None, None))
            ax += 1
        while ax < c.ndim:
            cidx.append(ALL)
            regions.append((ax, Poly(), 1))
            ax += 1
        vc = self.arr(val, st, n)
        if vc is None:
            st.store[v.aid] = c.copy(cells=c.cells + [Cell(cidx, unk_like(c), n)])
            return
        if isinstance(val, (ArrV,)):
            vc = self.snap(val, vc)
        # place the value's axes on the region axes
        k = len(regions)
        if vc.ndim is None:
            e = self.elem_join(vc)
            self.put(v, c, tuple(cidx), self.drop_ph(e), n, st)
            return
        if vc.ndim > k:
            # leading axes of size one are dropped
            vc = ArrC(vc.shape[vc.ndim - k:], self.I.subs_num(vc.base, {'$%d' % j: Poly() for j in range(vc.ndim - k)}), [], vc.dtype)
        s = k - vc.ndim
        mp = {}
        placed = []
        for j in range(vc.ndim):
            axr, lo, step = regions[j + s]
            one = vc.shape[j] is not None and vc.shape[j].is_const() and vc.shape[j].cval() == 1
            if one:
                mp['$%d' % j] = Poly()
            elif lo is None:
                mp['$%d' % j] = Poly.atom(('anyi', j))
            else:
                mp['$%d' % j] = (Poly.atom('$%d' % axr) - lo).scale(F(1, step))
            placed.append((axr, lo, step, one))
        tmp = {key: (p if not any(isinstance(a, str) and a in mp for a in p.atoms()) else p) for key, p in mp.items()}
        base = I.subs_num(vc.base, tmp)
        # check shapes
        for j in range(vc.ndim):
            axr, lo, step, one = placed[j]
            ci = cidx[axr]
            dim = c.shape[axr]
            if one or vc.shape[j] is None:
                continue
            want = None
            if ci is ALL:
                want = dim
            elif isinstance(ci, tuple) and ci[1] is not None and ci[2] is not None:
                want = ci[2] - ci[1]
            if want is not None and '0' not in I.sign(want - vc.shape[j], st):
                I.event('shape_mismatch', n, a=repr(want), b=repr(vc.shape[j]))
        self.put(v, c, tuple(cidx), base, n, st, dtype=vc.dtype)
        for cell in vc.cells:
            full = list(cidx)
            for j in range(vc.ndim):
                axr, lo, step, one = placed[j]
                ci = cell.idx[j]
                if one:
                    continue
                if isinstance(ci, Poly):
                    full[axr] = (lo + ci.scale(step)) if lo is not None else ('rg', None, None)
                elif ci is not ALL:
                    if lo is not None and step == 1:
                        full[axr] = ('rg', None if ci[1] is None else ci[1] + lo,
                                     None if ci[2] is None else ci[2] + lo)
            self.put(v, st.store[v.aid], tuple(full), I.subs_num(cell.elem, tmp), n, st, dtype=vc.dtype)

    def list_write(self, v, c, idx, val, n, st):
        """write through an element taken from a homogeneous list of arrays"""
        aid = c.meta['list']
        if aid in st.store:
            I = self.I
            o = st.store[aid]
            e = val if isinstance(val, Num) else self.arr_elem_join(val, st)
            if isinstance(e, Num):
                e = self.drop_ph(e)
                st.store[aid] = o.copy(base=I.join_num(o.base, e), cells=o.cells)

    def write_through(self, v, c, idx, val, n, st):
        """element assignment through a view updates the parent conservatively"""
        I = self.I
        p = c.meta['view']
        plan = c.meta['plan']
        from .interp import SliceV
        # rebuild an index on the parent when the view only drops axes or slices
        pidx = []
        it = iter(list(idx) + [SliceV(None, None, None)] * 4)
        ok = True
        for q in plan:
            if q[0] == 'at' and q[2] is not None:
                pidx.append(Num(q[2], integer=True))
            elif q[0] == 'sl' and q[2] is not None and q[4] == 1:
                i = next(it)
                if isinstance(i, Num) and i.val is not None:
                    pidx.append(Num(i.val + q[2], integer=True))
                elif isinstance(i, SliceV):
                    dim = None if q[3] is None else q[3] - q[2]
                    lo, hi, step = self.slice_bounds(i, dim, st)
                    if lo is None or step != 1:
                        ok = False
                        break
                    pidx.append(SliceV(Num(lo + q[2], integer=True), None if hi is None else Num(hi + q[2], integer=True), None))
                else:
                    ok = False
                    break
            else:
                ok = False
                break
        if ok:
            self.arr_set(ArrV(p), pidx, val, n, st)
        else:
            pc = st.store[p]
            e = val if isinstance(val, Num) else self.arr_elem_join(val, st)
            if isinstance(e, Num):
                st.store[p] = pc.copy(base=I.join_num(pc.base, self.drop_ph(e)),
                                      cells=[Cell(x.idx, I.join_num(x.elem, self.drop_ph(e)), x.node) for x in pc.cells])

    def put(self, v, c, cidx, e, n, st, dtype=None):
        I = self.I
        mp = {'$%d' % k: i for k, i in enumerate(cidx) if isinstance(i, Poly)}
        if mp:
            e = I.subs_num(e, mp)
        if c.dtype in ('float', 'int') and not e.real and not e.zero:
            I.event('complex_to_real', n)
            if I.alg and e.val is not None:         # the imaginary part is discarded
                e = self.s_real(e, n)
        if all(i is ALL for i in cidx):
            st.store[v.aid] = self.bump(c.copy(base=e, cells=[]), v)
            return
        if I.dense:
            pts = self.points(cidx, c.shape)
            if pts is not None:
                gone = set(pts)
                cells = [x for x in c.cells if x.idx not in gone]
                for q in pts:
                    x = I.subs_num(e, {'$%d' % k: i for k, i in enumerate(q)})
                    if I.tidy is not None and x.val is not None:
                        x = x.rep(val=I.tidy(x.val))
                    cells.append(Cell(q, x, n))
                st.store[v.aid] = self.bump(c.copy(cells=cells), v)
                return
        # position equal to a known constant cell (l == 1 style facts)
        mp = {} if I.exact else self.eqs(st)
        if mp:
            cidx = tuple(self.simpl(i, mp) for i in cidx)
            e = I.subs_num(e, mp)
        if st.facts and not e.zero:
            from .interp import deep_atoms, num_atoms
            ats = set().union(*[deep_atoms(i) for i in cidx if isinstance(i, Poly)]) | num_atoms(e)
            fs = frozenset((p, s) for p, s in st.facts.items()
                           if len(s) < 3 and I.R.integral(p) and deep_atoms(p) and deep_atoms(p) <= ats)
            if fs:
                e = e.rep(facts=e.facts | fs)
        cells = []
        for x in c.cells:
            if x.idx == cidx:
                continue
            if self.covers(cidx, x.idx, st):
                continue
            cells.append(x)
        cells.append(Cell(cidx, e, n))
        st.store[v.aid] = self.bump(c.copy(cells=cells), v)

    def bump(self, c, v):
        return c

    def eqs(self, st):
        """loop symbols pinned to a value by the facts of this path"""
        I = self.I
        mp = {}
        for p, s in st.facts.items():
            if s != SZ:
                continue
            p = p.subs(mp) if mp else p
            for a in sorted((x for x in p.atoms() if isinstance(x, str) and x in I.syms.tab and x not in I.params),
                            key=lambda x: -I.syms.tab[x].order):
                co = p.coeff_of(a)
                if co is not None and co.is_const() and co.cval() != 0:
                    mp[a] = p.without(a).scale(-1 / co.cval())
                    break
        return mp

    def simpl(self, i, mp):
        if isinstance(i, Poly):
            return i.subs(mp)
        if i is ALL:
            return i
        return ('rg',) + tuple(None if q is None else q.subs(mp) for q in i[1:])

    def covers(self, a, b, st):
        """writing region a hides the older cell at b completely"""
        I = self.I
        for x, y in zip(a, b):
            if x is ALL:
                continue
            if isinstance(x, Poly):
                if not (isinstance(y, Poly) and x == y):
                    return False
                continue
            lo, hi = x[1], x[2]
            if lo is None and hi is None:
                return False       # unknown sub-region
            if isinstance(y, Poly):
                ylo, yhi = y, y
            elif y is ALL:
                return False
            else:
                ylo, yhi = y[1], None if y[2] is None else y[2] - 1
            if lo is not None:
                if ylo is None or not I.sign(ylo - lo, st) <= SNN:
                    return False
            if hi is not None:
                if yhi is None or not I.sign(hi - 1 - yhi, st) <= SNN:
                    return False
        return True

    # ---------------------------------------------------------- comparisons
    def arr_compare(self, o, a, b, st, n):
        ca, cb = self.arr(a, st, n), self.arr(b, st, n)
        if ca is None or cb is None:
            return BoolV(None)
        if ca.ndim == 0 and cb.ndim == 0:
            return BoolV(None)
        for x, y in ((ca, cb),):
            ex, ey = self.elem_join(x), self.elem_join(y)
            if not (ex.zero or ey.zero):
                self.I.event('cmp', n, a=repr(ex.g.only(lambda u: isinstance(u, str))),
                             b=repr(ey.g.only(lambda u: isinstance(u, str))), data=(ex.g, ey.g))
        sh = ca.shape if ca.ndim is not None and (cb.ndim is None or ca.ndim >= cb.ndim) else cb.shape
        meta = {}
        if self.I.alg and sh is not None and len(sh) == 1 and o in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
            es = []
            sg = {'Eq': '0', 'NotEq': '+-', 'Lt': '-', 'LtE': '-0', 'Gt': '+', 'GtE': '+0'}[o]
            for c in (ca, cb):
                es.append(c.base.val if not c.cells and (c.ndim == 0 or c.shape == sh) else None)
            if None not in es:
                meta['cond'] = ind(frozenset(sg), es[0] - es[1])
            if sh[0] is not None and sh[0].is_const() and 0 < sh[0].cval() <= 6:
                bits = []
                for i in range(int(sh[0].cval())):
                    xs = [self.at(c, (Poly.const(i),) if c.ndim else (), st) for c in (ca, cb)]
                    d = self.I.sign(xs[0].val - xs[1].val, st) if all(x is not None and x.val is not None for x in xs) else SIGNS_ALL
                    bits.append(True if d <= frozenset(sg) else False if not d & frozenset(sg) else None)
                meta['bits'] = tuple(bits)
        return self.I.new_arr(ArrC(sh, Num(None, ONEG, sg=SNN, tag='bool'), dtype='bool', meta=meta), st, n)

    # ---------------------------------------------------------- numpy functions
    def pj(self, x, y):
        I = self.I
        old, I.alt = I.alt, ({}, {}, frozenset(), frozenset())
        try:
            return I.join_num(x, y)
        finally:
            I.alt = old

    def n_where(self, a, k, n, st):
        I = self.I
        if len(a) == 3:
            c = a[0]
            x, y = a[1], a[2]
            cc = self.arr(c, st, n) if isarr(c) else None
            cond = cc.meta.get('cond') if cc is not None else None
            if I.alg and cond is not None and isinstance(x, (Num, ArrV)) and isinstance(y, (Num, ArrV)):
                def pick(xs):
                    r = self.pj(xs[0], xs[1])
                    if all(v.val is not None for v in xs):
                        r = r.rep(val=xs[0].val * xs[2].val + xs[1].val * (1 - xs[2].val), zero=False)
                    return r
                cv = I.new_arr(ArrC(cc.shape, Num(cond, ONEG)), st, n, hint=('cond', n.lineno, n.col_offset))
                return self.arr_zipn([x, y, cv], pick, n, st)
            if isinstance(x, Num) and isinstance(y, Num):
                e = self.pj(x, y)
                cc = self.arr(c, st, n)
                if cc is not None and cc.ndim:
                    return I.new_arr(ArrC(cc.shape, e), st, n)
                return e
            return self.arr_zipn([x, y], lambda xs: self.pj(xs[0], xs[1]), n, st)
        return Seq([self.filter_index(n, st, a)])

    def selection(self, c):
        """number of the rows at which an array is true, named by the condition"""
        if not self.I.alg or c is None or c.ndim != 1:
            return None
        cond = c.meta.get('cond')
        if cond is None and c.dtype != 'bool' and not c.cells and c.base.val is not None:
            cond = ind(frozenset('+-'), c.base.val)
        if cond is None:
            return None
        nm = Poly.atom(('nsel', cond.subs({'$0': Poly.atom('row*')}), c.shape[0]))
        self.selcond[nm] = (c.shape[0], cond)
        return nm

    def filter_index(self, n, st, a=()):
        e = Num(None, ONEG, sg=SNN, integer=True, tag='rows')
        src = None
        if a:
            c = self.arr(a[0], st, n)
            if c is not None and c.ndim == 1:
                src = c.shape[0]
        nm = self.selection(c) if src is not None else None
        if nm is None:
            nm = Poly.atom(('nsel', n._mod.name, n.lineno, n.col_offset))
            if src is not None:
                self.selcond[nm] = (src, None)
        return self.I.new_arr(ArrC((nm,), e, dtype='int', meta={'rows_of': src, 'nsel': nm}), st, n)

    def n_nonzero(self, a, k, n, st):
        return Seq([self.filter_index(n, st, a)])

    def n_flatnonzero(self, a, k, n, st):
        return self.filter_index(n, st, a)

    def n_logical_and(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        return self.I.new_arr(ArrC(c.shape if c is not None else None, Num(None, ONEG, sg=SNN, tag='bool'), dtype='bool'), st, n)

    n_logical_or = n_logical_not = n_isclose = n_logical_and

    def n_allclose(self, a, k, n, st):
        r = None
        if len(a) == 2 and not k:
            ca, cb = self.arr(a[0], st, n), self.arr(a[1], st, n)
            sh = [c.shape for c in (ca, cb) if c is not None and c.ndim == 1 and c.shape[0] is not None and c.shape[0].is_const()]
            if sh and None not in (ca, cb) and all(c.ndim == 0 or c.shape == sh[0] for c in (ca, cb)) and 0 < sh[0][0].cval() <= 6:
                r = True
                for i in range(int(sh[0][0].cval())):
                    x, y = [self.at(c, (Poly.const(i),) if c.ndim else (), st) for c in (ca, cb)]
                    if not all(isinstance(z, Num) and z.val is not None and z.val.is_const() for z in (x, y)):
                        r = None
                        break
                    r = r and abs(x.val.cval() - y.val.cval()) <= F(1, 10**8) + F(1, 10**5) * abs(y.val.cval())
        return BoolV(r)

    n_isscalar = n_iscomplexobj = b_isinstance

    def bits(self, v, st, n):
        """truth of each element of a short array, None where unknown"""
        if isinstance(v, Seq) and all(isinstance(x, BoolV) for x in v.items):
            return tuple(x.b for x in v.items)
        c = self.arr(v, st, n)
        if c is None or c.ndim != 1:
            return None
        if c.dtype == 'bool':
            return c.meta.get('bits')
        if c.shape[0] is None or not c.shape[0].is_const() or not 0 < c.shape[0].cval() <= 6:
            return None
        out = []
        for i in range(int(c.shape[0].cval())):
            x = self.at(c, (Poly.const(i),), st)
            d = self.I.sign(x.val, st) if isinstance(x, Num) and x.val is not None else SIGNS_ALL
            out.append(False if d <= SZ else True if not d & SZ else None)
        return tuple(out)

    def quantify(self, nm, v, st, n):
        b = self.bits(v, st, n) if v is not None else None
        if b is None:
            return BoolV(None)
        if nm == 'any':
            b = tuple(None if x is None else not x for x in b)
        r = True if all(x is True for x in b) else False if any(x is False for x in b) else None
        return BoolV(r if r is None or nm == 'all' else not r)

    def n_all(self, a, k, n, st):
        return self.quantify('all', a[0] if len(a) == 1 and not k else None, st, n)

    def n_any(self, a, k, n, st):
        return self.quantify('any', a[0] if len(a) == 1 and not k else None, st, n)

    def n_array_equal(self, a, k, n, st):
        if len(a) == 2 and not k:
            e = self.arr_compare('Eq', a[0], a[1], st, n)
            if isinstance(e, ArrV):
                return self.quantify('all', e, st, n)
        return BoolV(None)

    def transpose(self, v, n, st):
        I = self.I
        c = self.arr(v, st, n)
        if c is None:
            return TOP
        if c.ndim is None or c.ndim == 1:
            return v
        nd = c.ndim
        mp = {'$%d' % k: Poly.atom('$%d' % (nd - 1 - k)) for k in range(nd)}
        cells = [Cell(tuple(self.subs_idx(i, {}) for i in reversed(x.idx)), I.subs_num(x.elem, mp), x.node) for x in c.cells]
        return I.new_arr(ArrC(tuple(reversed(c.shape)), I.subs_num(c.base, mp), cells, c.dtype, c.roots,
                              {'view': v.aid} if isinstance(v, ArrV) else {}), st, n, hint=('T', getattr(v, 'aid', 0)))

    def n_transpose(self, a, k, n, st):
        return self.transpose(a[0], n, st)

    def flip(self, v, axis, n, st):
        I = self.I
        c = self.arr(v, st, n)
        if c is None:
            return TOP
        if c.ndim is None or axis >= c.ndim:
            return TOP
        c = self.snap(v, c)
        d = c.shape[axis]
        key = '$%d' % axis
        top = (d if d is not None else Poly.atom(('len', repr(getattr(v, 'aid', 0)), axis))) - 1
        mp = {key: top - Poly.atom(key)}
        cells = []
        for x in c.cells:
            idx = list(x.idx)
            i = idx[axis]
            if isinstance(i, Poly):
                idx[axis] = top - i
            elif i is not ALL:
                idx[axis] = ('rg', None if i[2] is None else top - (i[2] - 1), None if i[1] is None else top - i[1] + 1)
            cells.append(Cell(tuple(idx), I.subs_num(x.elem, mp), x.node))
        return I.new_arr(ArrC(c.shape, I.subs_num(c.base, mp), cells, c.dtype, c.roots,
                              {'view': v.aid} if isinstance(v, ArrV) else {}), st, n,
                         hint=('flip', getattr(v, 'aid', 0), axis, n.lineno, n.col_offset))

    def n_fliplr(self, a, k, n, st):
        return self.flip(a[0], 1, n, st)

    def n_flipud(self, a, k, n, st):
        return self.flip(a[0], 0, n, st)

    def n_flip(self, a, k, n, st):
        ax = a[1] if len(a) > 1 else k.get('axis')
        if isinstance(ax, Num) and ax.val is not None and ax.val.is_const():
            x = int(ax.val.cval())
            c = self.arr(a[0], st, n)
            return self.flip(a[0], x if x >= 0 else c.ndim + x, n, st)
        c = self.arr(a[0], st, n)
        if c is not None and c.ndim == 1:
            return self.flip(a[0], 0, n, st)
        if c is not None and c.ndim == 2:
            return self.flip(self.flip(a[0], 0, n, st), 1, n, st)
        return TOP

    def n_rot90(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None or c.ndim != 2:
            return TOP
        kk = a[1] if len(a) > 1 else k.get('k', self.I.num(1))
        q = int(kk.val.cval()) % 4 if isinstance(kk, Num) and kk.val is not None and kk.val.is_const() else None
        if q == 0:
            return a[0]
        if q == 1:
            return self.flip(self.transpose(a[0], n, st), 0, n, st)
        if q == 3:
            return self.flip(self.transpose(a[0], n, st), 1, n, st)
        if q == 2:
            return self.flip(self.flip(a[0], 0, n, st), 1, n, st)
        return self.I.new_arr(ArrC(c.shape, self.drop_ph(self.elem_join(c)), [], c.dtype), st, n)

    def n_triu(self, a, k, n, st, up=True):
        I = self.I
        c = self.arr(a[0], st, n)
        kk = a[1] if len(a) > 1 else k.get('k', I.num(0))
        if c is None or c.ndim != 2 or not isinstance(kk, Num) or kk.val is None or len(a) > 2 or set(k) - {'k'}:
            return TOP
        off = Poly.atom('$1') - Poly.atom('$0') - kk.val
        w = Num(ind(SNN if up else SNP, off), ONEG)
        wv = I.new_arr(ArrC(c.shape, w), st, n, hint=('tri', n.lineno, n.col_offset))

        def keep(xs):
            x, y = xs
            if x.zero or y.val is not None and y.val.is_zero():
                return I.num(0)
            if y.val is not None and y.val.is_const():
                return x
            r = self.pj(x, I.num(0))
            return r.rep(val=x.val * y.val, zero=False) if x.val is not None and y.val is not None else r
        return self.arr_zipn([a[0], wv], keep, n, st)

    def n_tril(self, a, k, n, st):
        return self.n_triu(a, k, n, st, False)

    def n_diagonal(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        return self.n_diag(a, k, n, st) if c is not None and c.ndim == 2 else TOP

    def n_diag(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None or c.ndim is None:
            return TOP
        I = self.I
        if k or len(a) != 1:
            return TOP
        fixed = I.dense and c.ndim in (1, 2) and all(d is not None and d.is_const() and d.cval() <= 64 for d in c.shape)
        if fixed and (c.ndim == 1 or c.shape[0] == c.shape[1]):
            c = self.snap(a[0], c)
            zero = I.num(0)
            es = [self.at(c, (Poly.const(i),) * c.ndim, st) for i in range(int(c.shape[0].cval()))]
            if all(e is not None for e in es):
                return I.new_arr(ArrC((c.shape[0],) * (3 - c.ndim), zero,
                                      [Cell((Poly.const(i),) * (3 - c.ndim), e) for i, e in enumerate(es)], c.dtype), st, n)
        if c.ndim == 2:
            mp = {'$1': Poly.atom('$0')}
            e = I.subs_num(c.base, mp)
            for x in c.cells:
                e = I.join_num(e, self.drop_ph(x.elem))
            return I.new_arr(ArrC((c.shape[0],), e, [], c.dtype), st, n)
        # diagonal matrix: off-diagonal entries are the additive identity
        e = self.elem_join(c)
        if I.alg and not c.cells and e.val is not None:
            e = e.rep(val=e.val * ind(SZ, Poly.atom('$0') - Poly.atom('$1')))
        elif I.alg:
            e = e.rep(val=None)
        return I.new_arr(ArrC((c.shape[0], c.shape[0]), e, [], c.dtype), st, n)

    def n_outer(self, a, k, n, st):
        I = self.I
        ca, cb = self.arr(a[0], st, n), self.arr(a[1], st, n)
        if ca is None or cb is None or ca.ndim != 1 or cb.ndim != 1:
            return TOP
        A = ArrC((ca.shape[0], Poly.const(1)), ca.base, [Cell(x.idx + (ALL,), x.elem, x.node) for x in ca.cells], ca.dtype)
        va = I.new_arr(A, st, n, hint=('oa', n.lineno, n.col_offset))
        r = self.arr_zip(va, a[1], lambda x, y: I.mul(x, y, n), n, st)
        if isinstance(r, ArrV):
            st.store[r.aid].dtype = 'complex' if 'complex' in (ca.dtype, cb.dtype) else (ca.dtype if ca.dtype == cb.dtype else 'float')
        return r

    UF_OPS = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div,
              'true_divide': ast.Div, 'power': ast.Pow}

    def uf_outer(self, op, a, n, st):
        I = self.I
        ca = self.arr(a[0], st, n)
        if ca is None or ca.ndim != 1:
            return TOP
        A = ArrC((ca.shape[0], Poly.const(1)), ca.base, [Cell(x.idx + (ALL,), x.elem, x.node) for x in ca.cells], ca.dtype)
        va = I.new_arr(A, st, n, hint=('oa', n.lineno, n.col_offset))
        return I.binop(self.UF_OPS[op](), va, a[1], n, st)

    def n_multiply(self, a, k, n, st):
        return self.I.binop(ast.Mult(), a[0], a[1], n, st)

    def n_add(self, a, k, n, st):
        return self.I.binop(ast.Add(), a[0], a[1], n, st)

    def n_subtract(self, a, k, n, st):
        return self.I.binop(ast.Sub(), a[0], a[1], n, st)

    def n_divide(self, a, k, n, st):
        return self.I.binop(ast.Div(), a[0], a[1], n, st)

    n_true_divide = n_divide

    def n_power(self, a, k, n, st):
        return self.I.binop(ast.Pow(), a[0], a[1], n, st)

    def n_maximum(self, a, k, n, st):
        return self.bin_elem(a, k, n, st, lambda x, y: self.minmax('max', [x, y], {}, n, st))

    def n_minimum(self, a, k, n, st):
        return self.bin_elem(a, k, n, st, lambda x, y: self.minmax('min', [x, y], {}, n, st))

    def n_hypot(self, a, k, n, st):
        I = self.I
        return self.bin_elem(a, k, n, st, lambda x, y: self.sqrt(I.add(I.mul(x, x, n), I.mul(y, y, n), n), n))

    def n_mod(self, a, k, n, st):
        return self.I.binop(ast.Mod(), a[0], a[1], n, st)

    def n_max(self, a, k, n, st, what='max'):
        if what and len(a) == 1 and not k and isinstance(a[0], Seq) and a[0].items and \
                all(isinstance(x, Num) for x in a[0].items):
            return self.minmax(what, a, k, n, st)
        return self.reduce_arr(a[0], n, st, self.axis(a, k), 'join')

    def n_min(self, a, k, n, st):
        return self.n_max(a, k, n, st, 'min')

    def n_median(self, a, k, n, st):
        return self.n_max(a, k, n, st, None)

    n_amax, n_amin = n_max, n_min

    def axis(self, a, k):
        ax = a[1] if len(a) > 1 else k.get('axis')
        if isinstance(ax, Num) and ax.val is not None and ax.val.is_const():
            return int(ax.val.cval())
        return None

    def n_sum(self, a, k, n, st):
        return self.reduce_arr(a[0], n, st, self.axis(a, k), 'sum')

    def n_mean(self, a, k, n, st):
        return self.reduce_arr(a[0], n, st, self.axis(a, k), 'mean')

    n_average = n_mean

    def n_prod(self, a, k, n, st):
        return unk()

    def n_cumsum(self, a, k, n, st):
        return self.arr_map(a[0], lambda e: self.drop_ph(e), st, n)

    def gather(self, c, axis):
        """entries grouped by the remaining index"""
        groups = {}
        for x in c.cells:
            rest = tuple(i for j, i in enumerate(x.idx) if j != axis)
            groups.setdefault(rest, [])
        return groups

    def sum_elems(self, es, axis, n, what='sum', each=False):
        """terms of a sum; each may mention '$axis' which runs over the axis"""
        I = self.I
        key = '$%d' % axis
        from .interp import num_atoms
        r = I.num(0)
        for e in es:
            if each and key not in num_atoms(e):
                r = I.add(r, e, n)
            else:
                r = I.add(r, self.indep(e, {key}, n, what), n)
        return r

    def indep(self, e, keys, n, what='sum', over=None):
        I = self.I
        from .interp import g_atoms
        if e.zero:
            return e.rep(val=Poly())
        d = {}
        for u, x in e.g.d.items():
            if isinstance(u, tuple) and u[0] == 'cls' and not isinstance(u[1], (int, str)):
                from .interp import deep_atoms
                us = set()
                for y in u[1:]:
                    if isinstance(y, Poly):
                        us |= deep_atoms(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, Poly):
                                us |= deep_atoms(z)
                if us & keys:
                    d[CLSUNK] = UNK
                    continue
            if isinstance(x, Poly):
                p = reduce_exp(u, x)
                if deep(p) & keys:
                    if u == NEG or (isinstance(u, tuple) and u[0] in ('cls',)):
                        d[u if u == NEG else CLSUNK] = UNK
                    else:
                        d[u] = Bad('%s over entries with different %s exponents (%r) at %s' % (
                            what, u if isinstance(u, str) else ':'.join(map(str, u)), x, I.where(n)), n)
                        I.event('mix', n, unit=u, a=repr(x), b='summed over the index')
                    continue
                x = p if p != x and deep(x) & keys else x
            d[u] = x
        val = None
        if I.alg and over is not None and e.val is not None and len(keys) == 1:
            sym, body = next(iter(keys)), e.val
            if over in self.selcond:
                # over the rows that satisfy a condition
                over, cond = self.selcond[over]
                body = None if cond is None else body * cond.subs({'$0': Poly.atom(sym)})
            val = None if body is None else mk_sum(over, sym, body)
        return Num(val, Grading(d), False, None, e.sg if e.sg <= SNN or e.sg <= SNP else SIGNS_ALL,
                   None, e.real, e.integer, e.dep, e.tag if isinstance(e.tag, str) and e.tag in ('w',) else None)

    def reduce_arr(self, v, n, st, axis, mode):
        I = self.I
        c = self.arr(v, st, n)
        if c is None:
            return TOP
        if c.ndim is None:
            return self.drop_ph(self.elem_join(c)).rep(val=None)
        if c.ndim == 0:
            return c.base
        if axis is not None and axis < 0:
            axis += c.ndim
        if mode == 'join':
            e = self.elem_join(c)
            if axis is None or c.ndim == 1:
                return self.drop_ph(e).rep(val=None)
            return I.new_arr(ArrC(tuple(s for j, s in enumerate(c.shape) if j != axis), self.drop_ph(e), [], c.dtype), st, n)
        axes = list(range(c.ndim)) if axis is None else [axis]
        cur = c
        keep = I.sum_units
        if mode == 'mean':
            I.sum_units = {}
        for ax in sorted(axes, reverse=True):
            cur = self.sum_axis(cur, ax, n, st)
        I.sum_units = keep
        extra = {}
        if c.meta.get('sum') is not None and c.ndim == 1:
            cur = ArrC((), c.meta['sum'])
        if mode == 'mean':
            cur = ArrC(cur.shape, cur.base, cur.cells, cur.dtype)
        if cur.ndim == 0:
            r = cur.base
            if mode == 'sum' and isinstance(v, ArrV):
                src = c.meta.get('src')
                r = r.rep(tag=('sum', src if src is not None else (v.aid, c.meta.get('ver'), ())))
            return r
        return I.new_arr(cur, st, n)

    def sum_axis(self, c, ax, n, st):
        I = self.I
        nd = c.ndim
        ren = {'$%d' % j: Poly.atom('$%d' % (j - 1)) for j in range(ax + 1, nd)}
        key = '$%d' % ax
        dim = c.shape[ax]
        shape = tuple(s for j, s in enumerate(c.shape) if j != ax)
        const = dim is not None and dim.is_const() and 0 <= dim.cval() <= 8
        exact = []

        def entries(rest):
            """terms contributing at the remaining index `rest` (None: generic)"""
            es = []
            if const:
                for q in range(int(dim.cval())):
                    idx = list(rest) if rest is not None else [ALL] * (nd - 1)
                    idx.insert(ax, Poly.const(q))
                    cs = self.candidates_loose(c, idx, st)
                    e = cs[0]
                    for y in cs[1:]:
                        e = I.join_num(e, y)
                    es.append(e)
                return es
            idx = list(rest) if rest is not None else [ALL] * (nd - 1)
            idx.insert(ax, ALL)
            cov = False
            whole = []
            for x in c.cells:
                cidx, elem, frees = self.rename_cell(x)
                kind, sub = self.unify(cidx, frees, idx, st)
                if kind is None:
                    continue
                if sub:
                    elem = I.subs_num(elem, sub)
                mp = {'$%d' % j: i for j, i in enumerate(idx) if isinstance(i, Poly)}
                if mp:
                    elem = I.subs_num(elem, mp)
                if x.idx[ax] is ALL and kind == 'must':
                    cov = True
                keyset = {a for a in frees if a not in sub}
                whole.append((elem, keyset, x.idx[ax] is ALL))
                elem = self.indep(elem, keyset | {key}, n)
                es.append(elem)
            if not cov and not (c.base.zero and es):
                es.append(c.base)
                if not whole:
                    whole.append((c.base, set(), True))
            if I.alg and len(es) == len(whole) == 1 and whole[0][2] and not whole[0][1] and dim is not None:
                es = [self.indep(whole[0][0], {key}, n, over=dim)]
                exact.append(1)
            return es
        rests = []
        for x in c.cells:
            r = tuple(i for j, i in enumerate(x.idx) if j != ax)
            if r not in rests and any(i is not ALL for i in r):
                rests.append(r)
        base = I.subs_num(self.sum_elems(entries(None) if not rests else [c.base], ax, n, each=(const or exact) and not rests), ren) \
            if not rests else I.subs_num(self.sum_elems([y for y in [c.base] +
                                                         [x.elem for x in c.cells if all(i is ALL for j, i in enumerate(x.idx) if j != ax)]], ax, n), ren)
        cells = []
        su = I.sum_units.get(dim) if dim is not None else None
        if su is not None:
            base = I.mul(base, Num(None, Grading({su: Poly.const(1)})), n)
        for r in rests:
            exact.clear()
            e = self.sum_elems(entries(r), ax, n, each=const or exact)
            if su is not None:
                e = I.mul(e, Num(None, Grading({su: Poly.const(1)})), n)
            cells.append(Cell(tuple(self.subs_idx(i, ren) for i in r), I.subs_num(e, ren), n))
        return ArrC(shape, base, cells, c.dtype)

    def candidates_loose(self, c, idx, st):
        return [x[0] for x in self.candidates(c, idx, st)]

    def n_dot(self, a, k, n, st):
        I = self.I
        x, y = a[0], a[1]
        if isinstance(x, Num) or isinstance(y, Num):
            return I.binop(ast.Mult(), x, y, n, st)
        ca, cb = self.arr(x, st, n), self.arr(y, st, n)
        if ca is None or cb is None or ca.ndim is None or cb.ndim is None:
            return TOP
        ca, cb = self.snap(x, ca), self.snap(y, cb)
        na, nb = ca.ndim, cb.ndim
        axb = 0 if nb == 1 else nb - 2
        da, db = ca.shape[na - 1], cb.shape[axb]
        if da is not None and db is not None and '0' not in I.sign(da - db, st):
            I.event('shape_mismatch', n, a=repr(da), b=repr(db))
        # build the outer-product array  (rows..., cols..., k) then sum the last axis
        nd = (na - 1) + (nb - 1) + 1
        kax = nd - 1
        mpa = {'$%d' % (na - 1): Poly.atom('$%d' % kax)}
        mpb = {'$%d' % axb: Poly.atom('$%d' % kax)}
        perm_b = [j for j in range(nb) if j != axb]
        for t, j in enumerate(perm_b):
            mpb['$%d' % j] = Poly.atom('$%d' % (na - 1 + t))

        def ia(idx):
            return tuple(idx[:na - 1]) + (ALL,) * (nb - 1) + (idx[na - 1],)

        def ib(idx):
            return (ALL,) * (na - 1) + tuple(idx[j] for j in perm_b) + (idx[axb],)
        sh = tuple(ca.shape[:na - 1]) + tuple(cb.shape[j] for j in perm_b) + (da if da is not None else db,)
        A = ArrC(sh, I.subs_num(ca.base, mpa), [Cell(ia(c.idx), I.subs_num(c.elem, mpa), c.node) for c in ca.cells], ca.dtype)
        B = ArrC(sh, I.subs_num(cb.base, mpb), [Cell(ib(c.idx), I.subs_num(c.elem, mpb), c.node) for c in cb.cells], cb.dtype)
        # small constant inner dimension: explicit sum
        cells_a = {tuple(i for i in c.idx[:na - 1]) for c in ca.cells}
        cells_b = {tuple(c.idx[j] for j in perm_b) for c in cb.cells}
        rows = [r for r in cells_a if any(i is not ALL for i in r)] or []
        cols = [r for r in cells_b if any(i is not ALL for i in r)] or []
        def value(r, co):
            const = sh[-1] is not None and sh[-1].is_const() and 0 <= sh[-1].cval() <= 8
            tot = I.num(0)
            if const:
                for q in range(int(sh[-1].cval())):
                    idx = tuple(r) + tuple(co) + (Poly.const(q),)
                    ea = self.at(A, idx, st)
                    eb = self.at(B, idx, st)
                    tot = I.add(tot, I.mul(ea, eb, n), n)
                return tot
            idx = tuple(r) + tuple(co) + (ALL,)
            ents_a = sorted(self.entries_at(A, idx, st), key=lambda e: self.maybe_empty(e[0], st))
            ents_b = sorted(self.entries_at(B, idx, st), key=lambda e: self.maybe_empty(e[0], st))
            for ka, ea in ents_a:
                for kb, eb in ents_b:
                    # matching contracted positions
                    if isinstance(ka, Poly) and isinstance(kb, Poly):
                        s = I.sign(ka - kb, st)
                        if '0' not in s:
                            continue
                    fa, fb = ea, eb
                    if isinstance(kb, Poly) and not isinstance(ka, Poly):
                        fa = I.subs_num(ea, {'$%d' % kax: kb})
                    elif isinstance(ka, Poly) and not isinstance(kb, Poly):
                        fb = I.subs_num(eb, {'$%d' % kax: ka})
                    p = self.indep(I.mul(fa, fb, n), {'$%d' % kax}, n, 'contraction',
                                   sh[-1] if len(ents_a) == len(ents_b) == 1 and ka is ALL and kb is ALL else None)
                    if self.maybe_empty(ka, st) or self.maybe_empty(kb, st):
                        p = self.soften(tot, p)
                    tot = I.add(tot, p, n)
            su = I.sum_units.get(sh[-1]) if sh[-1] is not None else None
            if su is not None:
                tot = I.mul(tot, Num(None, Grading({su: Poly.const(1)})), n)
            return tot
        base = value((ALL,) * (na - 1), (ALL,) * (nb - 1))
        out = []
        gr = (ALL,) * (na - 1)
        gc = (ALL,) * (nb - 1)
        combos = [(r, co) for r in (rows or [gr]) for co in (cols or [gc])]
        if rows and cols:
            combos = [(r, gc) for r in rows] + [(gr, co) for co in cols] + combos
        for r, co in combos:
            if r == gr and co == gc:
                continue
            out.append(Cell(tuple(r) + tuple(co), value(r, co), n))
        if nd == 1:
            return base
        dt = 'complex' if 'complex' in (ca.dtype, cb.dtype) else ca.dtype
        if rows or cols:
            # generic entries are only meaningful when not fully tabulated
            pass
        return I.new_arr(ArrC(sh[:-1], base, out, dt), st, n)

    def maybe_empty(self, r, st):
        """a region of positions that may hold none"""
        if not isinstance(r, tuple) or r is ALL or r[2] is None:
            return False
        return not self.I.sign(r[2] - (r[1] if r[1] is not None else Poly()), st) <= SP

    def soften(self, tot, p):
        """a term that may be absent leaves the sum's exponents open where
        they differ"""
        if tot.zero:
            return p
        d = dict(p.g.d)
        for u in set(p.g.d) | set(tot.g.d):
            x, y = p.g.get(u), tot.g.get(u)
            if isinstance(x, Bad) or not (isinstance(x, Poly) and isinstance(y, Poly) and reduce_exp(u, x - y).is_zero()):
                d[u] = UNK
        return p.rep(g=Grading(d))

    def entries_at(self, c, idx, st):
        """[(position on the last axis, element)] visible at idx"""
        I = self.I
        out = []
        cov = False
        for x in c.cells:
            cidx, elem, frees = self.rename_cell(x)
            kind, sub = self.unify(cidx, frees, idx, st)
            if kind is None:
                continue
            if sub:
                elem = I.subs_num(elem, sub)
                cidx = tuple(self.subs_idx(i, sub) for i in cidx)
            mp = {'$%d' % j: i for j, i in enumerate(idx) if isinstance(i, Poly)}
            last = cidx[-1]
            if isinstance(last, Poly):
                mp['$%d' % (len(idx) - 1)] = last
            if mp:
                elem = I.subs_num(elem, mp)
            if last is ALL and all(i is ALL or i == j for i, j in zip(cidx[:-1], idx[:-1])):
                cov = True
            out.append((last, elem))
        if not cov and not (c.base.zero and not c.base.dep):
            mp = {'$%d' % j: i for j, i in enumerate(idx) if isinstance(i, Poly)}
            out.append((ALL, I.subs_num(c.base, mp) if mp else c.base))
        return out

    n_matmul = n_dot

    def n_inner(self, a, k, n, st):
        return self.n_dot([a[0], self.transpose(a[1], n, st)], k, n, st)

    n_vdot = n_dot

    def n_einsum(self, a, k, n, st):
        return Top('einsum')

    def n_norm(self, a, k, n, st):
        I = self.I
        sq = self.arr_map(a[0], lambda e: I.mul(e, e, n), st, n)
        s = self.reduce_arr(sq, n, st, self.axis(a[:1] + a[2:], k), 'sum')
        if isinstance(s, Num):
            return self.sqrt(s, n)
        return self.arr_map(s, lambda e: self.sqrt(e, n), st, n)

    def n_cross(self, a, k, n, st):
        I = self.I
        ca, cb = self.arr(a[0], st, n), self.arr(a[1], st, n)
        if ca is None or cb is None or ca.ndim is None or cb.ndim is None:
            return TOP
        nd = max(ca.ndim, cb.ndim)
        sh = ca.shape if ca.ndim == nd else cb.shape

        def comp(c, q):
            idx = (ALL,) * (c.ndim - 1) + (Poly.const(q),)
            return self.at(c, idx, st)
        out = []
        for q in range(3):
            i, j = (q + 1) % 3, (q + 2) % 3
            e = I.add(I.mul(comp(ca, i), comp(cb, j), n), I.mul(comp(ca, j), comp(cb, i), n), n, sub=True)
            out.append(Cell((ALL,) * (nd - 1) + (Poly.const(q),), e, n))
        base = out[0].elem
        for c in out[1:]:
            base = I.join_num(base, c.elem)
        return I.new_arr(ArrC(sh, base, out), st, n)

    def n_concatenate(self, a, k, n, st):
        I = self.I
        parts = a[0]
        ax = self.axis(a, k)
        if not isinstance(parts, Seq):
            if isinstance(parts, ListV) and parts.elem is not None:
                c = self.arr(parts.elem, st, n)
                if c is not None and c.ndim is not None:
                    cells = [Cell((ALL,) + x.idx[1:], self.drop_ph(x.elem), x.node) for x in c.cells]
                    return I.new_arr(ArrC((None,) + c.shape[1:], self.drop_ph(c.base), cells, c.dtype), st, n)
            return TOP
        cs = [self.arr(x, st, n) for x in parts.items]
        if any(c is None or c.ndim is None for c in cs):
            return TOP
        ax = 0 if ax is None else ax
        if ax < 0:
            ax += cs[0].ndim
        off = Poly()
        cells = []
        base = cs[0].base
        same = all(c.base.key() == base.key() for c in cs)
        for c in cs:
            key = '$%d' % ax
            if off is None:
                e = [Cell((('rg', None, None) if j == ax else i for j, i in enumerate(x.idx)), self.drop_ph(x.elem), x.node) for x in c.cells]
                cells += e
                base = I.join_num(base, self.drop_ph(c.base))
                continue
            d = c.shape[ax]
            mp = {key: Poly.atom(key) - off}
            hi = off + d if d is not None else None
            if not same:
                idx = [ALL] * c.ndim
                idx[ax] = ('rg', off, hi)
                cells.append(Cell(idx, I.subs_num(c.base, mp), n))
            for x in c.cells:
                idx = list(x.idx)
                i = idx[ax]
                if isinstance(i, Poly):
                    idx[ax] = i + off
                elif i is ALL:
                    idx[ax] = ('rg', off, hi)
                else:
                    idx[ax] = ('rg', None if i[1] is None else i[1] + off, None if i[2] is None else i[2] + off)
                cells.append(Cell(idx, I.subs_num(x.elem, mp), x.node))
            off = off + d if d is not None else None
        sh = list(cs[0].shape)
        sh[ax] = off
        # collapse identical per-column contents
        r = ArrC(tuple(sh), base, cells, cs[0].dtype)
        return I.new_arr(self.collapse(r, ax, cs), st, n)

    def collapse(self, r, ax, cs):
        k0 = [(x.idx, x.elem.key()) for x in cs[0].cells]
        if all(all(i is ALL for i in [x.idx[ax]]) for c in cs for x in c.cells) and \
                all([(x.idx, x.elem.key()) for x in c.cells] == k0 for c in cs) and \
                all(c.base.key() == cs[0].base.key() for c in cs):
            return r.copy(cells=list(cs[0].cells), base=cs[0].base)
        # same positions, different contents: join
        try:
            if all(x.idx[ax] is ALL for c in cs for x in c.cells):
                idxs = []
                for c in cs:
                    for x in c.cells:
                        if x.idx not in idxs:
                            idxs.append(x.idx)
                cells = []
                from .state import State
                for i in idxs:
                    e = None
                    for c in cs:
                        y = self.at(c, i, State())
                        e = y if e is None else self.I.join_num(e, y)
                    cells.append(Cell(i, e, None))
                b = cs[0].base
                for c in cs[1:]:
                    b = self.I.join_num(b, c.base)
                return r.copy(cells=cells, base=b)
        except Exception:
            pass
        return r

    def n_vstack(self, a, k, n, st):
        return self.n_concatenate([a[0], self.I.num(0)], {}, n, st)

    def n_hstack(self, a, k, n, st):
        c = self.arr(a[0].items[0], st, n) if isinstance(a[0], Seq) and a[0].items else None
        return self.n_concatenate([a[0], self.I.num(1 if c is not None and c.ndim == 2 else 0)], {}, n, st)

    def n_append(self, a, k, n, st):
        return self.n_concatenate([Seq([a[0], a[1]])] + a[2:], k, n, st)

    def n_column_stack(self, a, k, n, st):
        return self.transpose(self.n_array([a[0]], {}, n, st), n, st)

    def n_stack(self, a, k, n, st):
        return self.n_array([a[0]], {}, n, st)

    def n_meshgrid(self, a, k, n, st):
        I = self.I
        idxing = k.get('indexing')
        ij = isinstance(idxing, Str) and idxing.s == 'ij'
        m = len(a)
        cs = [self.arr(x, st, n) for x in a]
        if any(c is None or c.ndim != 1 for c in cs):
            return Top('meshgrid')
        pos = list(range(m))
        if not ij and m >= 2:
            pos[0], pos[1] = 1, 0
        sh = [None] * m
        for j in range(m):
            sh[pos[j]] = cs[j].shape[0]
        out = []
        for j, c in enumerate(cs):
            mp = {'$0': Poly.atom('$%d' % pos[j])}
            cells = [Cell(tuple(x.idx[0] if q == pos[j] else ALL for q in range(m)), I.subs_num(x.elem, mp), x.node) for x in c.cells]
            out.append(I.new_arr(ArrC(tuple(sh), I.subs_num(c.base, mp), cells, c.dtype), st, n, hint=('mg', n.lineno, n.col_offset, j)))
        return Seq(out)

    def n_ravel(self, a, k, n, st):
        if isinstance(a[0], ArrV):
            return self.flat(a[0], n, st, frozenset())
        return TOP

    def n_reshape(self, a, k, n, st):
        if isinstance(a[0], ArrV):
            return self.flat(a[0], n, st, st.store[a[0].aid].roots, a[1:])
        return TOP

    def n_repeat(self, a, k, n, st):
        c = self.arr(a[0], st, n)
        if c is None:
            return TOP
        return self.I.new_arr(ArrC((None,), self.drop_ph(self.elem_join(c))), st, n)

    n_tile = n_repeat

    def n_toeplitz(self, a, k, n, st):
        I = self.I
        ca = self.arr(a[0], st, n)
        cb = self.arr(a[1], st, n) if len(a) > 1 else ca
        if ca is None or cb is None or ca.ndim != 1 or cb.ndim != 1:
            return TOP
        d = Poly.atom('$0') - Poly.atom('$1')
        lower = I.subs_num(ca.base, {'$0': d})
        upper = I.subs_num(cb.base, {'$0': -d})
        if cb.base.zero and not [x for x in cb.cells if x.idx != (Poly(),)]:
            e = lower
        elif ca.base.zero and not [x for x in ca.cells if x.idx != (Poly(),)]:
            e = upper
        else:
            e = I.join_num(lower, upper)
        tri = None
        if cb.base.zero and not [x for x in cb.cells if x.idx != (Poly(),)]:
            tri = 'lower'
        elif ca.base.zero and not [x for x in ca.cells if x.idx != (Poly(),)]:
            tri = 'upper'
        return I.new_arr(ArrC((ca.shape[0], cb.shape[0]), e, [], ca.dtype, meta={'tri': tri}), st, n)

    def n_hankel(self, a, k, n, st):
        I = self.I
        ca = self.arr(a[0], st, n)
        if ca is None or ca.ndim != 1:
            return TOP
        s = Poly.atom('$0') + Poly.atom('$1')
        e = I.subs_num(ca.base, {'$0': s})
        sh1 = None
        if len(a) > 1:
            cb = self.arr(a[1], st, n)
            if cb is not None and cb.ndim == 1:
                sh1 = cb.shape[0]
                off = None
                if ca.shape[0] is not None:
                    e2 = I.subs_num(cb.base, {'$0': s - (ca.shape[0] - 1)})
                    v1, v2 = e.val, e2.val
                    e = I.join_num(e, e2)
                    if I.exact and v1 is not None and v2 is not None and e.val is None:
                        late = ind(frozenset('+'), s - (ca.shape[0] - 1))
                        e = e.rep(val=v1 * (1 - late) + v2 * late)
        return I.new_arr(ArrC((ca.shape[0], sh1), e, [], ca.dtype), st, n)

    def n_loadtxt(self, a, k, n, st):
        return Top('file')

    n_genfromtxt = n_loadtxt

    def n_savetxt(self, a, k, n, st):
        return NONE

    def n_seed(self, a, k, n, st):
        self.I.event('rng', n, name='seed')
        return NONE


def deep(p):
    from .interp import deep_atoms
    return deep_atoms(p)


def unk():
    return Num(None, Grading({STAR: UNK}), real=False)


def unk_like(c):
    return unk()


def strip_i(co):
    """coefficient of the angle divided by i; None when not purely imaginary"""
    out = {}
    for m, c in co.t.items():
        d = dict(m)
        if d.get('I') != 1:
            return None
        del d['I']
        if any(a not in () and e < 0 for a, e in d.items()):
            return None
        out[tuple(sorted(d.items(), key=lambda p: (0, p[0]) if isinstance(p[0], str) else (1, repr(p[0]))))] = c
    r = Poly(out)
    if 'pi' in r.atoms():
        return None
    return r


def meet(i, j):
    """the position common to two constant or whole-axis positions"""
    out = []
    for a, b in zip(i, j):
        if a is ALL:
            a = b
        elif b is not ALL and a != b:
            return None
        if a is not ALL and not (isinstance(a, Poly) and a.is_const()):
            return None
        out.append(a)
    return tuple(out)


def poly_sqrt(p):
    """exact root of a single monomial square"""
    if p.is_const():
        c = p.cval()
        if c < 0:
            return None
        from math import isqrt
        a, b = c.numerator, c.denominator
        if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
            return Poly.const(F(isqrt(a), isqrt(b)))
        return None
    return None


def poly_cls(p, I):
    """square-class exponents of an integer-valued polynomial"""
    from math import gcd
    num, den = 0, 1
    for c in p.t.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    cont = F(num, den)
    prim = p.scale(1 / cont)
    d = {u: e for u, e in I.const_g(cont).d.items()}
    if len(prim.t) == 1:
        (m, c), = prim.t.items()
        for a, e in m:
            d[('cls', Poly.atom(a))] = Poly.const(e)
        return d
    d[('cls', prim)] = Poly.const(1)
    return d
