"""Abstract interpreter for the Python subset used by the toolkit.

Values are typed in graded domains (see dom.py); integer index expressions are
kept as polynomials over bounded loop symbols; loops are run to a fixpoint on
one symbolic iteration; branches are explored path-sensitively and joined at
loop ends and call returns.  Nothing of the analysed repository is executed.
"""
import ast
import copy
import os
from fractions import Fraction as F
from .poly import Poly, mk_op, poly_eval, ONE
from .dom import *
from .algebra import mk_sum, asqrt, apow, nand, choice, ind
from .state import State, Symbols, Reason

NEG = ('z2', 'neg')
MAXTERMS = 60


class Dead(Exception):
    """the current path cannot continue (callee raises on every path)"""

    def __init__(self, exc='?', node=None):
        self.exc, self.node = exc, node


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Wide(Exception):
    """too many outcomes to be told apart"""


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.funcs, self.classes, self.assigns, self.imports, self.stars = {}, {}, {}, {}, []
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
            n._mod = self
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    pk = self.name.split('.')
                    pk = pk[:len(pk) - n.level + (1 if self.path.endswith('__init__.py') else 0)]
                    base = '.'.join(pk + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)


def root(p, k):
    """k-th power of the square root of p, as an opaque atom"""
    r = asqrt(p).pow(k)
    return r if r is not None else Poly({((('sqrt', p), k),): F(1)})


class Interp:
    PATHS = 40

    def __init__(self, root='/repo', package='newt'):
        self.root = root
        self.mods = {}
        pk = os.path.join(root, package)
        for fn in sorted(os.listdir(pk)):
            if fn.endswith('.py'):
                nm = package if fn == '__init__.py' else package + '.' + fn[:-3]
                p = os.path.join(pk, fn)
                with open(p) as f:
                    self.mods[nm] = Module(nm, p, f.read())
        self.syms = Symbols()
        self.R = Reason(self.syms)
        self.prefer = None
        self.alt = None
        self.split = None        # (value 1 on the first of two joined paths and 0 on the second, the states)
        self.number = None       # number a string stands for
        self.files = None        # lines of the file of a given name
        self.exact = False       # joined values are kept as case distinctions
        self.unroll = 6
        self.dense = False
        self.tidy = None         # simplification of the values stored in arrays of known size
        self.passes = []        # of the unrolled loops around
        self.snapshots = {}
        self.filtered = {}
        self.live = []
        self.past = {}
        self.params = set()      # rigid integer parameters (degree limits, sizes)
        self.atom_g = {'I': Grading({('z2', 'cy'): Poly.const(1)}), 'pi': Grading({('cls', 'pi'): Poly.const(1)})}
        self.reads = None        # array id -> subscripts read
        self.nmark = 0
        self.recur = ()          # modules whose outermost loops are kept as recurrences
        self.recs = []           # recurrences found
        self.loops = 0
        self.trail = None        # stores and name updates, with the facts they happen under
        self.loop_hook = None    # called with every state after an outermost loop
        self.filter_hook = None  # prepares the state for the conditions of a comprehension
        self.complexes = ()      # families of array elements that are complex
        self.alg = False         # keep values as polynomials over sqrt/sin/cos/exp/sum terms
        self.sum_units = {}      # length of an axis -> unit gained by summing over it
        self.mul_hook = None     # (a, b, dep) -> dep of a product
        self.sum_hook = None     # (value, dep, grading) -> (dep, grading) of a sum
        self.rotpairs = []       # (x, y) atoms rotating into each other about z
        self.stack = []          # call path
        self.events = []
        self._evkeys = set()
        self.overrides = {}      # qualified name -> python callable summary
        self.const_over = {}     # (module, name) -> Num
        self.call_hooks = {}     # qualified name -> hook(interp, args, kwargs, node, st)
        self.angles = set()      # angle atoms with phase units
        self.angle_unit = {}     # angle atom -> phase unit other than its own name
        self.angle_dep = {}
        self.halves = set()      # half-angle atoms (Fourier degree units)
        self.steps = 0
        self.budget = 4000000
        self.globs = {}
        self.maxdepth = 14
        self.visited = set()
        self.fvis = {}           # functions analysed: name -> node
        self.track_calls = []
        from . import nplib
        self.np = nplib.Lib(self)

    # ------------------------------------------------------------------ util
    def event(self, kind, node, **kw):
        k = (kind, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
             getattr(getattr(node, '_mod', None), 'name', ''),
             tuple(sorted((a, repr(b)) for a, b in kw.items() if a != 'data')))
        if k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append(dict(kind=kind, node=node, **kw))

    def reset(self):
        self.events, self._evkeys = [], set()
        self.live, self.stack = [], []
        self.steps = 0
        self.visited = set()
        self.fvis = {}
        self.track_calls = []

    @staticmethod
    def where(node):
        m = getattr(node, '_mod', None)
        return '%s:%s' % (m.name if m else '?', getattr(node, 'lineno', '?'))

    def sign(self, p, st):
        return self.R.sign(p, st)

    def num(self, c):
        """constant"""
        if isinstance(c, complex):
            if c.real == 0:
                v = Poly.atom('I', F(repr(c.imag)) if c.imag != int(c.imag) else int(c.imag))
                n = Num(v, self.const_g(F(repr(c.imag))).mul(Grading({('z2', 'cy'): Poly.const(1)})),
                        real=False)
                return n
            return Num(None, Grading({CLSUNK: UNK}), real=False)
        fr = F(c) if isinstance(c, (int, F)) else (F(repr(c)) if c == c and abs(c) != float('inf') else None)
        if fr is None:
            return Num(None, ONEG)
        return Num(Poly.const(fr), self.const_g(fr), zero=(fr == 0),
                   sg=SZ if fr == 0 else (SP if fr > 0 else SN), integer=fr.denominator == 1)

    def const_g(self, fr):
        d = {}
        if fr == 0:
            return ONEG
        if fr < 0:
            d[NEG] = Poly.const(1)
        for n, s in ((abs(fr.numerator), 1), (fr.denominator, -1)):
            if n > 10 ** 12:
                return Grading({CLSUNK: UNK})
            p = 2
            while p * p <= n and p < 10000:
                while n % p == 0:
                    d[('cls', p)] = d.get(('cls', p), Poly()) + s
                    n //= p
                p += 1
            if n > 1:
                d[('cls', n)] = d.get(('cls', n), Poly()) + s
        return Grading(d)

    # ------------------------------------------------------------ arithmetic
    def addg(self, a, b, node=None, what='sum'):
        if a == b:
            return a
        d = {}
        if CLSUNK in a.d or CLSUNK in b.d:
            nc = lambda u: not (isinstance(u, tuple) and u[0] == 'cls')
            a, b = a.only(nc), b.only(nc)
            d[CLSUNK] = UNK
        flag = False
        for u in set(a.d) | set(b.d):
            x, y = a.get(u), b.get(u)
            if isinstance(x, Bad) or isinstance(y, Bad):
                d[u] = x if isinstance(x, Bad) else y
            elif x is UNK or y is UNK:
                d[u] = UNK
            elif x == y:
                d[u] = x
            elif isinstance(x, Alt) or isinstance(y, Alt):
                d[u] = alt(eset(x) | eset(y))
            else:
                rx, ry = reduce_exp(u, x), reduce_exp(u, y)
                if rx == ry:
                    d[u] = rx
                    if u[0] == 'cls':
                        flag = True
                elif u == NEG:
                    d[u] = UNK
                else:
                    d[u] = Bad('%s of terms with %s exponent %r and %r at %s' % (
                        what, u if isinstance(u, str) else ':'.join(map(str, u)), x, y,
                        self.where(node)), node)
                    self.event('mix', node, unit=u, a=repr(x), b=repr(y))
        if flag:
            d[('flag', '~')] = UNK
        return Grading(d)

    def lim(self, p):
        if p is not None and (len(p.t) > (400 if self.alg else MAXTERMS) or p.degree() > 24):
            return None
        return p

    def add(self, a, b, node=None, sub=False):
        if sub:
            b = self.neg(b)
        val = None
        if a.val is not None and b.val is not None:
            val = self.lim(a.val + b.val)
        if a.zero and not (a.dep or a.tag):
            r = b.rep(val=val if val is not None else (b.val if a.val is None or a.val.is_zero() else None))
            return r
        if b.zero and not (b.dep or b.tag):
            return a.rep(val=val if val is not None else (a.val if b.val is None or b.val.is_zero() else None))
        if a.zero:
            return b.rep(dep=a.dep | b.dep)
        if b.zero:
            return a.rep(dep=a.dep | b.dep)
        log = None
        if a.log is not None and b.log is not None:
            log = a.log.mul(b.log)
        elif a.log is not None and b.val is not None and b.val.is_zero():
            log = a.log
        elif b.log is not None and a.val is not None and a.val.is_zero():
            log = b.log
        prov = None
        if a.prov is not None and b.prov is not None:
            prov = prov_add(a.prov, b.prov)
        zero = False
        if val is not None and val.is_zero():
            zero = True
        g = self.addg(a.g, b.g, node, 'difference' if sub else 'sum')
        if val is not None and any(isinstance(e, Bad) for e in g.d.values()):
            g = self.grade_units(val, ONEG, g)
        tag = None
        if (a.tag or b.tag):
            tag = self.add_tag(a, b)
            if isinstance(tag, tuple) and tag[0] == 'phz':
                g = Grading({k: v for k, v in g.d.items() if k != ('ph', 'z')})
                g = g.mul(Grading({('ph', 'z'): Poly.const(tag[1])}))
                tag = None
        dep = a.dep | b.dep
        if self.sum_hook is not None:
            dep, g = self.sum_hook(val, dep, g)
        return Num(val, g, zero, log,
                   sg_add(a.sg, b.sg), prov, a.real and b.real, a.integer and b.integer,
                   dep, tag, None, a.facts | b.facts)

    def add_tag(self, a, b):
        # coordinate combinations x -/+ i y
        ta, tb = a.tag, b.tag
        if isinstance(ta, tuple) and isinstance(tb, tuple) and ta[0] == 'coord' and tb[0] == 'coord':
            (_, va, ca), (_, vb, cb) = ta, tb
            if va == vb and ca is not None and cb is not None and set((ca[0], cb[0])) == {0, 1}:
                x, y = (ca, cb) if ca[0] == 0 else (cb, ca)
                if x[1] != 0:
                    r = y[1] / x[1]
                    if r == 1j:
                        return ('phz', 1)
                    if r == -1j:
                        return ('phz', -1)
            return None
        if ta and tb and ta[0] == tb[0] == 'pos' and ta[1] == tb[1]:
            return ta if False else None
        if ta and not tb and ta[0] in ('azimuth', 'az2'):
            return ta
        if tb and not ta and tb[0] in ('azimuth', 'az2'):
            return tb
        return None

    def neg(self, a):
        if a.zero:
            return a
        tag = a.tag
        if isinstance(tag, tuple) and tag[0] == 'coord':
            tag = ('coord', tag[1], None if tag[2] is None else (tag[2][0], -tag[2][1]))
        elif isinstance(tag, tuple) and tag[0] not in ('raw',):
            tag = None
        return a.rep(val=None if a.val is None else -a.val, pf=None if a.pf is None else (-a.pf[0], a.pf[1]),
                     g=a.g.mul(Grading({NEG: Poly.const(1)})), sg=sg_neg(a.sg),
                     log=None if a.log is None else a.log.pow(-1),
                     prov=prov_scale(a.prov, -1), tag=tag)

    def mul(self, a, b, node=None):
        val = None
        if a.val is not None and b.val is not None:
            val = self.lim(a.val * b.val)
        zero = a.zero or b.zero
        log = None
        if a.log is not None and b.val is not None:
            log = a.log.pow(b.val)
        elif b.log is not None and a.val is not None:
            log = b.log.pow(a.val)
        prov = None
        if a.prov is not None and b.val is not None and b.val.is_const():
            prov = prov_scale(a.prov, b.val.cval())
        elif b.prov is not None and a.val is not None and a.val.is_const():
            prov = prov_scale(b.prov, a.val.cval())
        elif a.prov is not None and set(b.g.d) <= {NEG} and b.tag == 'sgn':
            prov = prov_sign(a.prov, b.g.get(NEG))
        elif b.prov is not None and set(a.g.d) <= {NEG} and a.tag == 'sgn':
            prov = prov_sign(b.prov, a.g.get(NEG))
        tag = None
        if a.tag == 'sgn' and b.tag == 'sgn':
            tag = 'sgn'
        elif a.tag == 'sgn' and b.val is not None and b.val.is_const() and abs(b.val.cval()) == 1:
            tag = 'sgn'
        elif b.tag == 'sgn' and a.val is not None and a.val.is_const() and abs(a.val.cval()) == 1:
            tag = 'sgn'
        for x, y in ((a, b), (b, a)):
            if isinstance(x.tag, tuple) and x.tag[0] == 'coord' and x.tag[2] is not None and y.val is not None:
                c = const_complex(y.val)
                if c is not None:
                    tag = ('coord', x.tag[1], (x.tag[2][0], x.tag[2][1] * c))
        t = self.mul_tags(a, b, node)
        if t is not None:
            return t
        g = a.g.mul(b.g)
        if isinstance(tag, tuple) and tag[0] == 'coord':
            g = Grading({**g.d, ('ph', 'z'): UNK})
        pf = None
        if not zero and any(isinstance(e, Bad) for e in g.d.values()):
            g, pf = self.regrade(a, b, g, 1)
        return Num(val if not zero else Poly(), ONEG if zero else g, zero, log,
                   SZ if zero else sg_mul(a.sg, b.sg), prov,
                   (a.real and b.real) or (val is not None and 'I' not in val.atoms()),
                   a.integer and b.integer, a.dep | b.dep if self.mul_hook is None else self.mul_hook(a, b, a.dep | b.dep),
                   tag, pf, a.facts | b.facts)

    def factors(self, a):
        if a.pf is not None:
            return a.pf
        if not any(isinstance(e, Bad) for e in a.g.d.values()):
            return Poly.const(1), a.g
        if a.val is not None:
            return a.val, ONEG
        return None

    def regrade(self, a, b, g, k):
        """the product of two individually inhomogeneous factors may be
        homogeneous once expanded: value = polynomial * cleanly graded factor"""
        fa, fb = self.factors(a), self.factors(b)
        if fa is None or fb is None:
            return g, None
        p = fb[0] if k == 1 else fb[0].inv()
        if p is None:
            return g, None
        p = self.lim(fa[0] * p)
        if p is None or len(p.t) > 200:
            return g, None
        x = fa[1].mul(fb[1], k)
        return self.grade_units(p, x, g), (p, x)

    def atom_grade(self, a):
        if a in self.atom_g:
            return self.atom_g[a]
        if isinstance(a, str) and (a in self.params or a in self.syms.tab):
            return ONEG
        return None

    def grade_units(self, p, x, g):
        """replace the mixed units of g by what the monomials of p times x say"""
        d = dict(g.d)
        for u in [u for u, e in g.d.items() if isinstance(e, Bad)]:
            es = set()
            for mono in p.t:
                e = Poly()
                for at, n in mono:
                    ag = self.atom_grade(at)
                    q = ag.get(u) if ag is not None else None
                    if not isinstance(q, Poly):
                        e = None
                        break
                    e = e + q * n
                if e is None:
                    es = None
                    break
                es.add(reduce_exp(u, e))
            xe = x.get(u)
            if es is not None and len(es) == 1 and isinstance(xe, Poly):
                d[u] = es.pop() + xe
        return Grading(d)

    def mul_tags(self, a, b, node):
        return None

    def div(self, a, b, node=None):
        val = None
        if a.val is not None and b.val is not None:
            i = b.val.inv()
            if i is not None:
                val = self.lim(a.val * i)
            elif a.val == b.val:
                val = Poly.const(1)
            elif self.alg and len(b.val.t) > 1:
                val = self.lim(a.val * root(b.val, -2))
        if a.zero and not a.dep:
            return a
        log = None
        if a.log is not None and b.val is not None:
            i = b.val.inv()
            if i is not None:
                log = a.log.pow(i)
        prov = None
        if a.prov is not None and b.val is not None and b.val.is_const() and b.val.cval() != 0:
            prov = prov_scale(a.prov, 1 / b.val.cval())
        bi = b.rep(val=None if b.val is None or b.val.inv() is None else b.val.inv(),
                   g=b.g.pow(-1), tag=b.tag)
        t = self.mul_tags(a, bi, node)
        if t is not None:
            return t
        tag = None
        if isinstance(a.tag, tuple) and a.tag[0] == 'coord' and a.tag[2] is not None and b.val is not None:
            c = const_complex(b.val)
            if c:
                tag = ('coord', a.tag[1], (a.tag[2][0], a.tag[2][1] / c))
        g = a.g.mul(b.g, -1)
        if isinstance(tag, tuple) and tag[0] == 'coord':
            g = Grading({**g.d, ('ph', 'z'): UNK})
        sg = sg_mul(a.sg, b.sg - SZ if b.sg != SZ else b.sg)
        pf = None
        if any(isinstance(e, Bad) for e in g.d.values()):
            g, pf = self.regrade(a, b, g, -1)
        return Num(val, g, a.zero, log, sg, prov,
                   a.real and b.real, False, a.dep | b.dep, tag, pf, a.facts | b.facts)

    def pow(self, a, b, node=None):
        dep = a.dep | b.dep
        bv = b.val
        if bv is not None and bv.is_zero():
            return self.num(1)
        if a.zero:
            return Num(None, ONEG, zero=bv is not None and bv.is_const() and bv.cval() > 0, dep=dep)
        if a.val is not None and a.val.is_const() and abs(a.val.cval()) == 1:
            if a.val.cval() == 1:
                return self.num(1)
            if bv is not None:
                if bv.is_const() and bv.cval().denominator == 1:
                    return self.num(1 if bv.cval() % 2 == 0 else -1)
                return Num(apow(a.val, bv) if self.alg else None, Grading({NEG: reduce_exp(NEG, bv)}), sg=SNZ, tag='sgn', dep=dep)
            return Num(None, Grading({NEG: UNK}), sg=SNZ, dep=dep)
        if a.tag == 'sgn' and bv is not None and not bv.is_const():
            return Num(apow(a.val, bv) if self.alg and a.val is not None else None, Grading({NEG: reduce_exp(NEG, a.g.get(NEG) * bv)}), sg=SNZ, tag='sgn', dep=dep)
        if bv is None:
            bad = {u: UNK for u in a.g.d}
            return Num(None, Grading(bad), sg=SP if a.sg <= SP else SIGNS_ALL, real=a.real, dep=dep)
        val = None
        if bv.is_const():
            k = bv.cval()
            if k.denominator == 1 and a.val is not None and abs(k) <= 12:
                val = a.val.pow(int(k))
                val = self.lim(val) if val is not None else None
            if val is None and self.alg and a.val is not None and abs(k) <= 12 and (2 * k).denominator == 1 and (k < 0 or k.denominator == 2):
                val = root(a.val, int(2 * k))
            if k == F(1, 2):
                return self.np.sqrt(a, node)
        elif self.alg and a.val is not None:
            val = apow(a.val, bv)
        sg = SIGNS_ALL
        if a.sg <= SP:
            sg = SP
        elif bv.is_const() and bv.cval() % 2 == 0:
            sg = SP if '0' not in a.sg else SNN
        elif bv.is_const() and bv.cval() % 2 == 1:
            sg = a.sg
        elif a.sg <= SNN:
            sg = SNN
        log = None
        d = {}
        for u, e in a.g.d.items():
            if isinstance(e, Poly):
                d[u] = e * bv
            else:
                d[u] = e
        if not bv.is_const() or bv.cval().denominator != 1:
            # non-integer powers of signed quantities: sign unknown
            if NEG in d and d[NEG] is not UNK and not self.R.integral(bv):
                d[NEG] = UNK
        if a.val is not None and a.val.atoms() == {'I'} and not bv.is_const():
            d[NEG] = UNK
        tag = None
        if val is not None and any(isinstance(e, Bad) for e in d.values()):
            d = self.grade_units(val, ONEG, Grading(d)).d
        return Num(val, Grading(d), False, log, sg, None, a.real, a.integer and '-' not in sg, dep, tag)

    def floordiv(self, a, b, node=None):
        val = None
        if a.val is not None and b.val is not None:
            val = mk_op('//', a.val, b.val)
        return Num(val, self.addg_int(a, b), sg=SNN if a.sg <= SNN and b.sg <= SP else SIGNS_ALL,
                   integer=True, dep=a.dep | b.dep)

    def addg_int(self, a, b):
        return Grading({u: e for u, e in a.g.mul(b.g, -1).d.items() if isinstance(u, str)})

    def mod(self, a, b, node=None):
        val = None
        if a.val is not None and b.val is not None:
            if a.val.is_const() and b.val.is_const() and b.val.cval() != 0:
                val = mk_op('%', a.val, b.val)
            elif b.val.is_const() and self.R.integral(a.val):
                val = mk_op('%', a.val, b.val)
            elif self.alg and not b.val.is_zero():
                val = Poly.atom(('%', a.val, b.val))
        return Num(val, self.addg(a.g.only(lambda u: isinstance(u, str)),
                                  b.g.only(lambda u: isinstance(u, str)), node) if not a.zero and not b.zero else ONEG,
                   sg=SNN if b.sg <= SP else SIGNS_ALL, dep=a.dep | b.dep,
                   tag=a.tag if isinstance(a.tag, tuple) and a.tag[0] in ('azimuth', 'az2') else None)

    # --------------------------------------------------------------- joining
    def join_prov(self, a, b):
        """one linear form, up to versions of the array that agree on the
        elements it reads"""
        if a == b:
            return a
        if a is None or b is None or len(a) != len(b):
            return None
        vers = {n: c for c, n in getattr(self, 'snapshots', {}).values()}
        for ((v1, i1, c1), w1), ((v2, i2, c2), w2) in zip(a, b):
            if (i1, c1, w1) != (i2, c2, w2):
                return None
            if v1 == v2:
                continue
            if v1 not in vers or v2 not in vers or vers[v1].ndim != vers[v2].ndim or len(i1) != vers[v1].ndim:
                return None
            st = State()
            ks = []
            for v in (v1, v2):
                ks.append([(k, self.strip_prov(e).key()) for e, k, _, pins in self.np.candidates(vers[v], i1, st)
                           if not pins])
            if ks[0] != ks[1]:
                return None
        return a

    @staticmethod
    def strip_prov(e):
        return e.rep(prov=None) if e.prov is not None else e

    def join_num(self, a, b):
        if a.key() == b.key():
            return a
        if a.zero and not b.zero:
            return b.rep(val=self.case(a.val, b.val), sg=a.sg | b.sg, prov=None,
                         facts=b.facts, real=a.real and b.real, dep=a.dep | b.dep)
        if b.zero and not a.zero:
            return a.rep(val=self.case(a.val, b.val), sg=a.sg | b.sg, prov=None, real=a.real and b.real, dep=a.dep | b.dep)
        log = None
        if a.log is not None and b.log is not None:
            log = join_g(a.log, b.log)
        elif a.log is not None and b.val is not None and b.val.is_zero():
            log = a.log
        elif b.log is not None and a.val is not None and a.val.is_zero():
            log = b.log
        return Num(self.case(a.val, b.val), join_g(a.g, b.g, self.alt), a.zero and b.zero, log,
                   a.sg | b.sg, self.join_prov(a.prov, b.prov), a.real and b.real,
                   a.integer and b.integer, a.dep | b.dep, a.tag if a.tag == b.tag else None,
                   None, a.facts & b.facts)

    def join_val(self, a, b, sa=None, sb=None, out=None):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if vkey(a) == vkey(b) and a.kind == b.kind and a.kind != 'top':
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return self.join_num(a, b)
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return BoolV(None)
        if isinstance(a, Str) and isinstance(b, Str):
            return Str(None, a.tag if a.tag == b.tag else None)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            return Seq([self.join_val(x, y, sa, sb, out) for x, y in zip(a.items, b.items)], a.mutable)
        if isinstance(a, (Seq, ListV)) and isinstance(b, (Seq, ListV)):
            both = isinstance(a, ListV) and isinstance(b, ListV)
            ea, la = (a.elem, a.length) if both else self.seq_elem(a, sa, out)
            eb, lb = (b.elem, b.length) if both else self.seq_elem(b, sb, out)
            r = ListV(ea if eb is None else (eb if ea is None else self.join_val(ea, eb, sa, sb, out)),
                      la if la == lb else None,
                      getattr(a, 'root', frozenset()) | getattr(b, 'root', frozenset()))
            if both:
                r.over = self.join_over(a, b, sa, sb, out)
            return r
        if isinstance(a, ArrV) and isinstance(b, ArrV) and out is not None:
            ids = tuple(sorted(set(flat_aid(a.aid)) | set(flat_aid(b.aid)), key=repr))
            aid = ('join',) + ids
            ca = sa.store.get(a.aid) if sa else None
            cb = sb.store.get(b.aid) if sb else None
            ca = ca or out.store.get(a.aid)
            cb = cb or out.store.get(b.aid)
            if ca is None or cb is None:
                return TOP
            out.store[aid] = self.join_arr(ca, cb)
            return ArrV(aid)
        if isinstance(a, ArrV) and isinstance(b, Num) and b.zero:
            return a
        if isinstance(b, ArrV) and isinstance(a, Num) and a.zero:
            return b
        if isinstance(a, Num) and isinstance(b, BoolV):
            return Num(None, a.g, dep=a.dep)
        if isinstance(b, Num) and isinstance(a, BoolV):
            return Num(None, b.g, dep=b.dep)
        return TOP

    def seq_elem(self, s, st, out):
        if isinstance(s, ListV):
            e = s.elem
            for k, x in s.over:
                e = x if e is None else self.join_val(e, x, st, st, out or st)
            return e, s.length
        e = None
        for i in s.items:
            e = i if e is None else self.join_val(e, i, st, st, out or st)
        return e, Poly.const(len(s.items))

    def join_arr(self, a, b):
        if a is b or a.key() == b.key():
            return a
        shape = None
        if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
            shape = tuple(x if x == y else None for x, y in zip(a.shape, b.shape))
        base = self.join_num(a.base, b.base)
        cells = list(a.cells)
        index = {}
        for i, c in enumerate(cells):
            index[(c.idx, id(c.node))] = i
        keys = {c.key() for c in cells}
        for c in b.cells:
            k = (c.idx, id(c.node))
            if c.key() in keys:
                continue
            if k in index:
                o = cells[index[k]]
                if self.prefer and any(isinstance(i, Poly) and (deep_atoms(i) & self.prefer) for i in c.idx):
                    cells[index[k]] = c
                    continue
                cells[index[k]] = Cell(o.idx, self.join_num(o.elem, c.elem), o.node)
            else:
                index[k] = len(cells)
                cells.append(c)
        if self.split is not None:
            cells = self.case_cells(a, b, cells)
        meta = {k: v for k, v in a.meta.items() if b.meta.get(k) == v}
        return ArrC(shape, base, cells, a.dtype if a.dtype == b.dtype else None,
                    a.roots | b.roots, meta)

    def case_cells(self, a, b, cells):
        """cells of two joined paths, each with its value on either"""
        sp, self.split = self.split, None
        try:
            ka, kb = ({c.key() for c in x.cells} for x in (a, b))
            at = []
            for c in cells:
                if c.key() in ka and c.key() in kb:
                    at.append(None)
                elif not all(isinstance(i, Poly) for i in c.idx):
                    at.append((None, None))
                else:
                    at.append(tuple(self.np.at(x, c.idx, s) for x, s in ((a, sp[1]), (b, sp[2]))))
        finally:
            self.split = sp
        out = []
        for c, p in zip(cells, at):
            if p is not None:
                x, y = [None if e is None else e.val for e in p]
                c = Cell(c.idx, c.elem.rep(val=self.case(x, y)), c.node)
            out.append(c)
        return out

    def join_state(self, a, b):
        if a is b:
            return a
        out = State()
        out.store = dict(a.store)
        for k, v in b.store.items():
            if k in out.store:
                if out.store[k] is not v:
                    out.store[k] = self.join_arr(out.store[k], v)
            else:
                out.store[k] = v
        for k in set(a.heap) | set(b.heap):
            ha, hb = a.heap.get(k), b.heap.get(k)
            if ha is None or hb is None:
                out.heap[k] = dict(ha or hb)
                continue
            d = {}
            for n in set(ha) | set(hb):
                if n in ha and n in hb:
                    d[n] = self.join_val(ha[n], hb[n], a, b, out)
                else:
                    d[n] = self.join_val(ha.get(n), hb.get(n), a, b, out)
            out.heap[k] = d
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                out.env[k] = self.join_val(a.env[k], b.env[k], a, b, out)
            else:
                out.env[k] = a.env.get(k, b.env.get(k))
        for p, s in a.facts.items():
            if p in b.facts:
                u = s | b.facts[p]
                if u != SIGNS_ALL:
                    out.facts[p] = u
        return out

    def attains(self, d, facts, signs):
        """d takes a value whose sign is in signs for admissible index values"""
        r = self.witness(d, facts, None, signs)
        return None if r is None else r[0]

    def witness(self, d, facts=(), mod=None, signs=None):
        """(some admissible values of the index symbols make d nonzero,
        some make it zero); None when d cannot be tabulated"""
        names = set()
        todo = [d] + [p for p, _ in facts]
        while todo:
            for a in deep_atoms(todo.pop()):
                if isinstance(a, str) and a not in names:
                    names.add(a)
                    if a in self.syms.tab:
                        todo += self.syms.tab[a].lo + self.syms.tab[a].hi
        if len(names) > 6 or 'pi' in names or 'I' in names:
            return None
        order = sorted(names, key=lambda a: (self.syms.tab[a].order if a in self.syms.tab else 0, a))
        cons = [(d2, sg) for d2, sg in facts]
        for a in order:
            if a in self.syms.tab:
                cons += [(Poly.atom(a) - lo, SNN) for lo in self.syms.tab[a].lo]
                cons += [(Poly.atom(a) - hi, SNP) for hi in self.syms.tab[a].hi]
        byl = {}
        for p, sg in cons:
            k = max([order.index(a) for a in deep_atoms(p) if a in order], default=-1)
            byl.setdefault(k, []).append((p, sg))
        seen = [False, False]
        cnt = [0]

        def go(k, env):
            if all(seen) or cnt[0] > 30000:
                return
            cnt[0] += 1
            if k == len(order):
                v = poly_eval(d, env)
                if mod:
                    v %= mod
                if signs is not None:
                    v = ('0' if v == 0 else '+' if v > 0 else '-') in signs
                seen[0 if v else 1] = True
                return
            nn = order[k] not in self.syms.tab or not self.syms.tab[order[k]].lo
            for x in (range(0, 7) if order[k] in self.params or order[k].startswith('$') or not nn else range(-3, 6)):
                env[order[k]] = F(x)
                ok = True
                for p, sg in byl.get(k, ()):
                    v = poly_eval(p, env)
                    if ('0' if v == 0 else '+' if v > 0 else '-') not in sg:
                        ok = False
                        break
                if ok:
                    go(k + 1, env)
            env.pop(order[k], None)
        try:
            go(0, {})
        except (KeyError, ZeroDivisionError, ArithmeticError):
            return None
        return tuple(seen)

    def join_states(self, sts):
        if self.exact and self.alg and len(sts) > 2:
            sts = self.by_case(list(sts))
        r = sts[0]
        for k, s in enumerate(sts[1:]):
            r = self.path_join(r, s, lambda: self.join_state(r, s))
        return r

    def by_case(self, sts):
        """paths that differ in one condition joined first"""
        while len(sts) > 2:
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    a, b = sts[i].facts, sts[j].facts
                    odd = {p for p in set(a) | set(b) if a.get(p) != b.get(p)}
                    if len(odd) == 1 and choice(a, b) is not None:
                        best = (i, j)
                        break
                if best:
                    break
            if not best:
                break
            i, j = best
            a, b = sts[i], sts[j]
            sts[i] = self.path_join(a, b, lambda: self.join_state(a, b))
            del sts[j]
        return sts

    def path_join(self, a, b, f, first=True):
        """f() joins the states of two different paths to one program point"""
        old = self.alt
        fa = frozenset((p, sg) for p, sg in a.facts.items() if b.facts.get(p) != sg and self.R.integral(p)) \
            if first else frozenset()
        fb = frozenset((p, sg) for p, sg in b.facts.items() if a.facts.get(p) != sg and self.R.integral(p))
        self.alt = (self.np.eqs(a) if first else {}, self.np.eqs(b), fa, fb)
        sp, self.split = self.split, None
        if self.exact and self.alg:
            g = choice(a.facts, b.facts)
            self.split = (g, a, b)
        try:
            return f()
        finally:
            self.alt, self.split = old, sp

    def case(self, x, y):
        """the value of x on the first of two joined paths, of y on the second"""
        if x is None or y is None:
            return None
        if x == y:
            return x
        if self.split is None or self.split[0] is None:
            return None
        g = self.split[0]
        v = g * x + (1 - g) * y
        return v if len(v.t) < 400 else None

    def state_key(self, st):
        return (tuple(sorted((k, vkey(v)) for k, v in st.env.items())),
                tuple(sorted(((repr(k), v.key()) for k, v in st.store.items()), key=lambda p: p[0])),
                tuple(sorted(((repr(k), tuple(sorted((n, vkey(x)) for n, x in v.items())))
                              for k, v in st.heap.items()), key=lambda p: p[0])))

    # ----------------------------------------------------------- name lookup
    def lookup_global(self, mod, name):
        key = (mod.name, name)
        if key in self.const_over:
            return self.const_over[key]
        if key in self.globs:
            return self.globs[key]
        v = None
        if name in mod.funcs:
            v = FuncV(mod.name + '.' + name, mod.funcs[name], mod)
        elif name in mod.classes:
            v = ClassV(mod.name + '.' + name, mod.classes[name], mod)
        elif name in mod.assigns:
            self.globs[key] = TOP
            st = State()
            sv = self.stack
            try:
                v = self.ev(mod.assigns[name], st, mod)
                if isinstance(v, ArrV):
                    v = TOP
            except Exception:
                v = TOP
            self.stack = sv
        elif name in mod.imports:
            v = self.resolve_path(mod.imports[name])
        else:
            for s in mod.stars:
                if s in self.mods:
                    m = self.mods[s]
                    if name in m.funcs or name in m.classes or name in m.assigns or name in m.imports:
                        v = self.lookup_global(m, name)
                        break
        if v is not None:
            self.globs[key] = v
        return v

    def resolve_path(self, path):
        if path in self.mods:
            return ModV(path)
        if '.' in path:
            m, n = path.rsplit('.', 1)
            if m in self.mods:
                r = self.lookup_global(self.mods[m], n)
                return r if r is not None else TOP
        if path.split('.')[0] == 'newt' and path != 'newt':
            return TOP
        return ModV(path)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        """-> list of (state, ctl)"""
        live = [(st, None)]
        done = []
        for stmt in body:
            nxt = []
            for s, _ in live:
                for r in self.exec_stmt(stmt, s):
                    (nxt if r[1] is None else done).append(r)
            live = self.merge(nxt)
            if not live:
                break
        return live + done

    def merge(self, outs):
        if len(outs) <= 1:
            return outs
        if len(outs) > self.PATHS:
            return [(self.join_states([s for s, _ in outs]), None)]
        return outs

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def exec_stmt(self, n, st):
        self.tick()
        self.visited.add(id(n))
        sp = split_ifexp(n)
        if sp is not None:
            return self.x_If(sp, st)
        if self.exact and self.alg and isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return, ast.Expr)) \
                and self.calls_known(n):
            return self.forked(n, st)
        return self.exec_one(n, st)

    known = None
    script = None

    def calls_known(self, n):
        """does the statement call a function of the package?"""
        if self.known is None:
            self.known = {f for m in self.mods.values() for f in m.funcs}
        r = getattr(n, '_calls', None)
        if r is None:
            r = n._calls = any(isinstance(x, ast.Call) and (x.func.id if isinstance(x.func, ast.Name) else
                               x.func.attr if isinstance(x.func, ast.Attribute) else None) in self.known for x in ast.walk(n))
        return r

    def forked(self, n, st):
        """the statement once for every combination of outcomes of its calls that
        cannot be told in one value"""
        old, outs, todo = self.script, [], [[]]
        first = st.copy()
        try:
            while todo:
                want = todo.pop()
                self.script = (want, [])
                outs += self.exec_one(n, st if not outs and not want else first.copy())
                made = self.script[1]
                for i in range(len(want), len(made)):
                    for c in range(1, made[i]):
                        if len(outs) + len(todo) < 8:
                            todo.append(want + [0] * (i - len(want)) + [c])
                        else:
                            raise Wide
            return outs
        except Wide:
            self.script = None
            return self.exec_one(n, first.copy())
        finally:
            self.script = old

    def fork(self, rets, joined, store):
        """which outcome of a call this pass follows; None: all in one value"""
        if self.script is None or not (self.loses([v for _, v in rets], [s for s, _ in rets], joined, store) or
                                       self.loses_heap([s for s, _ in rets], store)):
            return None
        want, made = self.script
        i = len(made)
        made.append(len(rets))
        return want[i] if i < len(want) else 0

    def loses_heap(self, sts, store):
        """does joining the states forget something about an object?"""
        for oid in set().union(*(s.heap for s in sts)):
            if not all(oid in s.heap for s in sts):
                continue
            hs = [s.heap[oid] for s in sts]
            j = store.heap.get(oid, {})
            for a in set().union(*hs):
                if not all(a in h for h in hs) or self.loses([h[a] for h in hs], sts, j.get(a), store):
                    return True
        return False

    def loses(self, vs, sts, j, store):
        if len({type(v) for v in vs}) > 1:
            return True
        v = vs[0]
        if isinstance(v, ObjV):
            return not isinstance(j, ObjV) or len({x.oid for x in vs}) > 1
        if isinstance(v, Str):
            return len({x.s for x in vs}) > 1
        if isinstance(v, BoolV) and all(x.b is not None for x in vs):
            return len({x.b for x in vs}) > 1
        if isinstance(v, Num):
            return isinstance(j, Num) and j.val is None and all(x.val is not None for x in vs)
        if isinstance(v, Seq):
            return not isinstance(j, Seq) or any(self.loses([x.items[i] for x in vs], sts, j.items[i], store)
                                                 for i in range(len(v.items)))
        if isinstance(v, ListV):
            return not isinstance(j, ListV) or self.loses([x.elem for x in vs], sts, j.elem, store)
        if isinstance(v, ArrV):
            if not isinstance(j, ArrV):
                return True
            cs = [s.store.get(x.aid) for x, s in zip(vs, sts)]
            c = store.store.get(j.aid)
            if c is None or None in cs:
                return False
            full = lambda c: c.base.val is not None and all(x.elem.val is not None for x in c.cells)
            return all(full(x) for x in cs) and (not full(c) or c.shape is None or len({x.shape for x in cs}) > 1)
        return False

    def exec_one(self, n, st):
        try:
            m = getattr(self, 'x_' + type(n).__name__, None)
            if m is None:
                self.event('unsupported', n, what=type(n).__name__)
                return [(st, None)]
            return m(n, st)
        except Dead as d:
            return [(st, ('raise', d.exc, d.node or n))]

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        self.stmt_call = n.value
        self.ev(n.value, st)
        return [(st, None)]

    stmt_call = None

    def x_Pass(self, n, st):
        return [(st, None)]

    x_Import = x_ImportFrom = x_Global = x_Nonlocal = x_Pass

    def x_Global(self, n, st):
        for nm in n.names:
            self.event('global_decl', n, name=nm)
        return [(st, None)]

    def x_FunctionDef(self, n, st):
        st.env[n.name] = FuncV(n._mod.name + '.' + n.name, n, n._mod, env=st)
        # closures read the defining frame lazily
        st.env[n.name].env = 'frame'
        return [(st, None)]

    def x_Return(self, n, st):
        v = NONE if n.value is None else self.ev(n.value, st)
        return [(st, ('ret', v, n))]

    def x_Raise(self, n, st):
        name = '?'
        e = n.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                try:
                    self.ev(a, st)
                except Dead:
                    pass
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        elif e is None:
            name = 'reraise'
        return [(st, ('raise', name, n))]

    def x_Assert(self, n, st):
        out = []
        t, f = self.branch(n.test, st)
        if t is not None:
            out.append((t, None))
        if f is not None:
            out.append((f, ('raise', 'AssertionError', n)))
        return out

    def x_Break(self, n, st):
        return [(st, ('break',))]

    def x_Continue(self, n, st):
        return [(st, ('cont',))]

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return [(st, None)]

    def x_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            self.assign(t, v, st, n)
        return [(st, None)]

    def x_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)
        return [(st, None)]

    def x_AugAssign(self, n, st):
        t = n.target
        rhs = self.ev(n.value, st)
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(name_load(t), t), st)
            if isinstance(cur, ArrV):
                new = self.binop(n.op, cur, rhs, n, st)
                if isinstance(new, ArrV):
                    c = st.store[cur.aid]
                    self.mutated(c.roots, n, st, 'in-place %s on %s' % (type(n.op).__name__, t.id))
                    nc = st.store[new.aid]
                    meta = nc.meta
                    shape = c.shape if c.shape is not None else nc.shape
                    st.store[cur.aid] = nc.copy(roots=c.roots, dtype=c.dtype, shape=shape, meta=meta)
                    self.parent_havoc(c, st)
                    return [(st, None)]
                self.mutated(st.store[cur.aid].roots, n, st, 'in-place %s on %s' % (type(n.op).__name__, t.id))
                self.havoc(cur, st)
                return [(st, None)]
            if isinstance(cur, (Seq, ListV)) and isinstance(n.op, ast.Add):
                r = getattr(cur, 'root', frozenset())
                if r:
                    self.mutated(r, n, st, 'in-place extend of %s' % t.id)
            st.env[t.id] = self.binop(n.op, cur, rhs, n, st)
            self.noted(t.id, cur, st.env[t.id], n, st)
            return [(st, None)]
        if isinstance(t, ast.Subscript):
            base, idx = self.ev_subscript_parts(t, st)
            cur = self.getitem(base, idx, t, st)
            new = self.binop(n.op, cur, rhs, n, st)
            self.setitem(base, idx, new, t, st, aug=True)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.getattr(base, t.attr, t, st)
            new = self.binop(n.op, cur, rhs, n, st)
            if isinstance(cur, ArrV) and isinstance(new, ArrV):
                c = st.store[cur.aid]
                self.mutated(c.roots, n, st, 'in-place update of attribute %s' % t.attr)
                self.event('inplace_attr', n, attr=t.attr)
                st.store[cur.aid] = st.store[new.aid].copy(roots=c.roots, dtype=c.dtype)
                return [(st, None)]
            if isinstance(cur, ArrV) and not isinstance(new, Num):
                self.mutated(st.store[cur.aid].roots, n, st, 'in-place update of attribute %s' % t.attr)
                self.havoc(cur, st)
                return [(st, None)]
            self.setattr(base, t.attr, new, t, st)
            return [(st, None)]
        return [(st, None)]

    def x_If(self, n, st):
        t, f = self.branch(n.test, st)
        out = []
        if t is not None:
            out += self.exec_block(n.body, t)
        if f is not None:
            out += self.exec_block(n.orelse, f) if n.orelse else [(f, None)]
        return out

    def x_With(self, n, st):
        for it in n.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, n)
        return self.exec_block(n.body, st)

    def x_Try(self, n, st):
        outs = self.exec_block(n.body, st.copy())
        res = []
        for s, c in outs:
            if c is not None and c[0] == 'raise':
                if n.handlers:
                    for h in n.handlers:
                        s2 = s.copy()
                        if h.name:
                            s2.env[h.name] = TOP
                        res += self.exec_block(h.body, s2)
                else:
                    res.append((s, c))
            elif c is None and n.orelse:
                res += self.exec_block(n.orelse, s)
            else:
                res.append((s, c))
        if n.handlers and not any(c is not None and c[0] == 'raise' for _, c in outs):
            for h in n.handlers:
                s2 = st.copy()
                if h.name:
                    s2.env[h.name] = TOP
                res += self.exec_block(h.body, s2)
        if n.finalbody:
            r2 = []
            for s, c in res:
                for s3, c3 in self.exec_block(n.finalbody, s):
                    r2.append((s3, c3 if c3 is not None else c))
            res = r2
        return res

    # -- loops
    def x_For(self, n, st):
        it = self.ev(n.iter, st)
        return self.loop(n, st, it)

    def x_While(self, n, st):
        return self.loop(n, st, None)

    def loop(self, n, st, it):
        self.loops += 1
        try:
            r = self.loop_(n, st, it)
        finally:
            self.loops -= 1
        if self.loop_hook and not self.loops and not self.live:
            for x in r:
                self.loop_hook(x[0])
        return r

    def unroll_while(self, n, st):
        """a loop whose condition is decided in every pass, or None"""
        live, done = [st.copy()], []
        for _ in range(4 * self.unroll):
            nxt = []
            for s in live:
                t, f = self.branch(n.test, s)
                if t is not None and f is not None:
                    return None
                if t is None:
                    if f is not None:
                        done.append((f, None))
                    continue
                for r in self.exec_block(n.body, t):
                    if r[1] is None or r[1][0] == 'cont':
                        nxt.append(r[0])
                    elif r[1][0] == 'break':
                        done.append((r[0], None))
                    else:
                        done.append(r)
            live = [s for s, _ in self.merge([(s, None) for s in nxt])]
            if not live:
                return done if not n.orelse else None
        return None

    def loop_(self, n, st, it):
        # small concrete sequences are unrolled
        items = None
        if isinstance(it, Seq) and len(it.items) <= max(12, self.unroll):
            items = it.items
        rng = it if isinstance(it, RangeV) else None
        if rng is not None and rng.conc() is not None and len(rng.conc()) <= self.unroll:
            items = [self.num(i) for i in rng.conc()]
        if items is not None and isinstance(n, ast.For):
            live, done = [(st, None)], []
            for i, v in enumerate(items):
                nxt = []
                for s, _ in live:
                    self.assign(n.target, v, s, n)
                    self.passes.append(i)
                    rs = list(self.exec_block(n.body, s))
                    self.passes.pop()
                    for r in rs:
                        if r[1] is None or r[1][0] == 'cont':
                            nxt.append((r[0], None))
                        elif r[1][0] == 'break':
                            done.append((r[0], None))
                        else:
                            done.append(r)
                live = self.merge(nxt)
            if n.orelse:
                l2 = []
                for s, _ in live:
                    l2 += self.exec_block(n.orelse, s)
                live = l2
            return live + done
        if isinstance(n, ast.While) and self.exact and self.unroll > 6:
            r = self.unroll_while(n, st)
            if r is not None:
                return r
        sym = None
        idxval = None
        if rng is not None:
            sym, idxval = self.range_symbol(n, rng, st)
            s = self.sign(rng.hi - rng.lo, st) if rng.stepc() and rng.stepc() > 0 else SIGNS_ALL
            if s <= SNP and '+' not in s:
                return [(st, None)]
        elif isinstance(n, ast.For):
            sym, idxval = self.seq_symbol(n, it, st)
        if sym is not None and sym in self.live:
            raise Unsupported('recursive loop symbol')
        head = st.copy()
        exits = []
        outs_final = []
        widened = {}
        for rnd in range(7):
            cur = head.copy()
            exits_now, rets = [], []
            if sym is not None:
                self.live.append(sym)
            for w in widened.values():
                self.live.append(w)
            try:
                if isinstance(n, ast.For):
                    if rng is not None:
                        tv = idxval
                    else:
                        tv = self.iter_elem(it, sym, cur, n)
                    self.assign(n.target, tv, cur, n)
                    outs = self.exec_block(n.body, cur)
                else:
                    t, f = self.branch(n.test, cur)
                    if f is not None:
                        exits_now.append(f)
                    outs = self.exec_block(n.body, t) if t is not None else []
            finally:
                if sym is not None:
                    self.live.pop()
                for _ in widened:
                    self.live.pop()
            conts = []
            for s, c in outs:
                if c is None or c[0] == 'cont':
                    conts.append(s)
                elif c[0] == 'break':
                    exits_now.append(s)
                else:
                    rets.append((s, c))
            ren = ([sym] if sym is not None else []) + list(widened.values())
            exits = exits_now
            outs_final = rets
            if not conts:
                end = None
                break
            keep = ([sym] if sym is not None else []) + list(widened.values()) if self.exact else []
            self.live.extend(keep)
            try:
                end = self.join_states(conts)
            finally:
                del self.live[len(self.live) - len(keep):]
            # drop facts about loop-variant symbols
            ind = self.induction(n, head, end, sym, rng, widened)
            end = self.rename_past(end, ren, replace=rnd < 5)
            base = st if rnd == 0 else head
            if rnd < 5:
                self.prefer = {x + '~' for x in ren if x}
            sv, self.alt = self.alt, None
            new = self.join_state(base, end)
            self.prefer, self.alt = None, sv
            for k, v in ind.items():
                new.env[k] = v
            # numeric integer variables that keep changing become symbols
            for k in list(new.env):
                v0, v1 = base.env.get(k), end.env.get(k)
                if k in ind:
                    continue
                if isinstance(v0, Num) and isinstance(v1, Num) and v0.val != v1.val and \
                        isinstance(new.env[k], Num) and new.env[k].val is None and \
                        v0.integer and v1.integer and k not in widened:
                    nm = 'w:%s@%s:%d' % (k, n._mod.name, n.lineno)
                    lo = []
                    if v0.sg <= SNN and v1.sg <= SNN:
                        lo = [Poly()]
                    self.syms.get(nm, lo, [])
                    widened[k] = nm
            for k, nm in widened.items():
                if k in new.env and isinstance(new.env[k], Num):
                    new.env[k] = Num(Poly.atom(nm), ONEG, sg=SNN if self.syms.tab[nm].lo else SIGNS_ALL,
                                     integer=True, dep=new.env[k].dep)
            if self.state_key(new) == self.state_key(head):
                head = new
                break
            head = new
        else:
            self.event('nofix', n)
        # loop exit states
        res = []
        totals = None
        if self.alg and isinstance(n, ast.For) and sym is not None and end is not None and not exits and not outs_final \
                and rng is not None and rng.stepc() == 1:
            totals = self.accumulate(n, st, head, sym, idxval, rng, widened)
            if self.loops == 1 and n._mod.name in self.recur and '-' not in self.sign(rng.hi - rng.lo, st):
                self.recurrence(n, st, head, sym, idxval, rng, widened)
        if isinstance(n, ast.For):
            h = head
            # after the loop induction variables have their final value
            if rng is not None and end is not None:
                h = self.finish_induction(n, h, sym, rng, st)
            ren = ([sym] if sym is not None else []) + list(widened.values())
            h = self.rename_past(h, [s for s in ren if s])
            if rng is not None and sym is not None:
                self.fold_lists(h, sym, rng.lo, rng.hi)
            if totals:
                h = self.set_totals(h, totals)
            if self.alg and self.loops == 1 and n._mod.name in self.recur:
                h = self.name_out(st, h)
            normal = [h]
            if n.orelse:
                r2 = []
                for s in normal:
                    r2 += self.exec_block(n.orelse, s)
                res += r2
            else:
                res += [(s, None) for s in normal]
            res += [(self.rename_past(s, ren), None) for s in exits]
        else:
            ren = list(widened.values())
            for s in exits:
                res.append((self.rename_past(s, ren), None))
        if len(res) > 1:
            normal = [s for s, c in res if c is None]
            oth = [r for r in res if r[1] is not None]
            if len(normal) > 1:
                res = [(self.join_states(normal), None)] + oth
        for s, c in outs_final:
            res.append((self.rename_past(s, [sym] if sym else []), c) if False else (s, c))
        return res

    def accumulate(self, n, st, head, sym, idxval, rng, widened):
        """values of the variables and elements to which every pass adds a
        term independent of them: one more pass from marked values"""
        marks = {}
        cur = head.copy()
        for k, v0 in st.env.items():
            v1 = head.env.get(k)
            if isinstance(v0, Num) and isinstance(v1, Num) and v0.val is not None and v1.val is None and k not in widened:
                self.nmark += 1
                marks['env', k] = (v0.val, Poly.atom(('hd', self.nmark)))
                cur.env[k] = v1.rep(val=marks['env', k][1], zero=False, tag=None, log=None)
        for aid, c0 in st.store.items():
            c1 = head.store.get(aid)
            if c1 is None or c1.cells is c0.cells or c1.shape != c0.shape or not c1.cells:
                continue
            cells = []
            for c in c1.cells:
                if all(isinstance(i, Poly) and (i.is_const() or sym not in deep_atoms(i)) for i in c.idx) and c.elem.val is None:
                    e0 = self.np.at(c0, c.idx, st)
                    if e0 is not None and e0.val is not None:
                        key = ('cell', aid, c.idx)
                        self.nmark += 1
                        marks[key] = (e0.val, Poly.atom(('hd', self.nmark)))
                        c = Cell(c.idx, c.elem.rep(val=marks[key][1], zero=False, tag=None, log=None))
                cells.append(c)
            if any(k[0] == 'cell' and k[1] == aid for k in marks):
                cur.store[aid] = c1.copy(cells=cells)
        if not marks:
            return None
        self.live.append(sym)
        self.live.extend(widened.values())
        try:
            self.assign(n.target, idxval, cur, n)
            outs = self.exec_block(n.body, cur)
            conts = [s for s, c in outs if c is None or c[0] == 'cont']
            if len(conts) != len(outs) or not conts:
                return None
            end = self.join_states(conts)
            out = {}
            for key, (pre, mark) in marks.items():
                if key[0] == 'env':
                    e = end.env.get(key[1])
                else:
                    c = end.store.get(key[1])
                    e = None if c is None else self.np.at(c, key[2], end)
                if not isinstance(e, Num) or e.val is None:
                    continue
                d = e.val - mark
                if d.is_zero():
                    out[key] = pre
                    continue
                if any(isinstance(a, tuple) and a[0] == 'hd' or isinstance(a, str) and ('~' in a or a in widened.values())
                       for a in deep_atoms(d)):
                    continue
                t = mk_sum(rng.hi - rng.lo, sym, d, None if rng.lo.is_zero() else rng.lo, '-' in self.sign(rng.hi - rng.lo, st))
                if t is not None:
                    out[key] = pre + t
        finally:
            del self.live[-1 - len(widened):]
        return out

    def array_names(self, st):
        out = {}
        for k, v in st.env.items():
            if isinstance(v, ArrV):
                out.setdefault(v.aid, k)
        return out

    def recurrence(self, n, st, head, sym, idxval, rng, widened):
        """one pass of an outermost loop over arrays of arbitrary contents:
        the cells written, as terms over the contents before the pass"""
        cur = head.copy()
        names = self.array_names(st)
        got = {}
        for aid, c0 in st.store.items():
            c1 = head.store.get(aid)
            if aid not in names or c1 is None or c1.shape != c0.shape or c1.ndim is None or c1.key() == c0.key():
                continue
            nm = 'pre:' + names[aid]
            at = Poly.atom(('el', nm) + tuple(Poly.atom('$%d' % i) for i in range(c1.ndim)))
            cur.store[aid] = c1.copy(cells=[], base=self.np.elem_join(c1).rep(val=at, zero=False, tag=None, log=None))
            got[aid] = names[aid]
        if not got:
            return
        self.live.append(sym)
        self.live.extend(widened.values())
        try:
            self.assign(n.target, idxval, cur, n)
            outs = self.exec_block(n.body, cur)
        finally:
            del self.live[-1 - len(widened):]
        if any(c is not None and c[0] != 'cont' for s, c in outs):
            return
        self.recs.append({'node': n, 'sym': sym, 'lo': rng.lo, 'hi': rng.hi, 'arrays': got, 'pre': st, 'paths': [s for s, c in outs]})

    def name_out(self, st, h):
        names = self.array_names(st)
        h = h.copy()
        for aid, c0 in st.store.items():
            c1 = h.store.get(aid)
            if aid not in names or c1 is None or c1.key() == c0.key():
                continue
            old = {x.key() for x in c0.cells}
            h.store[aid] = c1.copy(cells=[
                Cell(x.idx, x.elem.rep(val=Poly.atom(('el', 'out:' + names[aid]) + x.idx)))
                if all(isinstance(i, Poly) for i in x.idx) and x.key() not in old else x for x in c1.cells])
        return h

    def set_totals(self, h, totals):
        h = h.copy()
        for key, val in totals.items():
            if key[0] == 'env':
                if isinstance(h.env.get(key[1]), Num) and h.env[key[1]].val is None:
                    h.env[key[1]] = h.env[key[1]].rep(val=val)
            elif key[1] in h.store:
                c = h.store[key[1]]
                h.store[key[1]] = c.copy(cells=[
                    Cell(x.idx, x.elem.rep(val=val)) if x.idx == key[2] and x.elem.val is None else x for x in c.cells])
        return h

    def induction(self, n, head, end, sym, rng, widened):
        """variables whose grading / value advances by a fixed factor per pass"""
        out = {}
        if sym is not None and (rng is None or rng.stepc() == 1):
            self.list_induction(head, end, sym, rng.lo if rng is not None else Poly(), out)
        if rng is None or sym is None or rng.stepc() != 1:
            return out
        it = Poly.atom(sym) - rng.lo
        s = Poly.atom(sym)
        for k, v1 in end.env.items():
            v0 = head.env.get(k)
            if not isinstance(v0, Num) or not isinstance(v1, Num) or v0.zero or v1.zero:
                continue
            if v0.key() == v1.key():
                # already inductive head?
                continue
            # v0 may already be a hypothesis in terms of sym
            dval = None
            newval = None
            changed = False
            if v0.val is not None and v1.val is not None and v0.val != v1.val:
                d = v1.val - v0.val
                if not (deep_atoms(d) & ({sym} | set(self.live))) or d.is_const():
                    if sym in v0.val.atoms():
                        co = v0.val.coeff_of(sym)
                        if co is not None and co == d:
                            newval = v0.val       # hypothesis confirmed
                    else:
                        newval = v0.val + d * it
                        changed = True
            gd = {}
            ok = True
            for u in set(v0.g.d) | set(v1.g.d):
                a, b = v0.g.get(u), v1.g.get(u)
                if not isinstance(a, Poly) or not isinstance(b, Poly):
                    gd[u] = b if isinstance(b, Bad) else UNK
                    continue
                d = b - a
                if d.is_zero():
                    gd[u] = a
                elif modulus(u) == 1:
                    gd[u] = join_exp(u, a, b)
                elif sym in d.atoms():
                    ok = False
                    break
                elif sym in a.atoms():
                    co = a.coeff_of(sym)
                    if co is not None and co == d:
                        gd[u] = a
                    else:
                        ok = False
                        break
                else:
                    gd[u] = a + d * it
                    changed = True
            if not ok:
                continue
            if not changed and newval is None:
                # is it a confirmed hypothesis on gradings?
                if any(isinstance(e, Poly) and sym in e.atoms() for e in v0.g.d.values()):
                    out[k] = v0.rep(val=v0.val if v0.val == v1.val else None, sg=v0.sg | v1.sg, prov=None, tag=None)
                continue
            out[k] = v0.rep(val=newval, g=Grading(gd), sg=v0.sg | v1.sg, prov=None, tag=None)
        return out

    def list_induction(self, head, end, sym, lo, out):
        """lists that grow by exactly one element per pass"""
        s = Poly.atom(sym)
        for k, v1 in end.env.items():
            v0 = head.env.get(k)
            if not isinstance(v0, (Seq, ListV)) or not isinstance(v1, (Seq, ListV)) or v0 is v1:
                continue
            l0 = Poly.const(len(v0.items)) if isinstance(v0, Seq) else v0.length
            l1 = Poly.const(len(v1.items)) if isinstance(v1, Seq) else v1.length
            if l0 is None or l1 is None or l1 - l0 != Poly.const(1):
                continue
            if isinstance(v1, Seq):
                if any(a is not b for a, b in zip(v0.items, v1.items)):
                    continue
                x = v1.items[-1]
            else:
                hit = [y for i, y in v1.over if i == l0]
                if len(hit) != 1:
                    continue
                x = hit[0]
            if sym in deep_atoms(l0):
                off = l0 - s
                if sym in deep_atoms(off) or not isinstance(v0, ListV):
                    continue
            else:
                off = l0 - lo
            e = self.subs_deep(x, {sym: Poly.atom('$i') - off}, end)
            if sym in deep_atoms(l0):
                if v0.elem is not None:
                    e = v0.elem if vkey(e) == vkey(v0.elem) else self.join_val(v0.elem, e, end, end, end)
                nv = ListV(e, l0, v0.root)
                nv.over = v0.over
            else:
                nv = ListV(e, s + off, getattr(v0, 'root', frozenset()))
                nv.over = tuple((Poly.const(i), y) for i, y in enumerate(v0.items)) if isinstance(v0, Seq) else v0.over
                if isinstance(v0, ListV) and v0.elem is not None and not v0.over and not l0.is_zero():
                    nv.elem = self.join_val(v0.elem, e, end, end, end)
            out[k] = nv

    def finish_induction(self, n, h, sym, rng, st):
        out = h.copy()
        mp = {sym: rng.hi}
        for k, v in h.env.items():
            if isinstance(v, ListV) and v.length is not None and sym in deep_atoms(v.length):
                nv = ListV(v.elem, v.length.subs(mp), v.root)
                nv.over = v.over
                out.env[k] = nv
        tgt = n.target.id if isinstance(n.target, ast.Name) else None
        for k, v in h.env.items():
            if isinstance(v, Num) and k != tgt:
                ats = set()
                for e in v.g.d.values():
                    if isinstance(e, Poly):
                        ats |= deep_atoms(e)
                if v.val is not None:
                    ats |= deep_atoms(v.val)
                if sym in ats:
                    out.env[k] = v.rep(val=None if v.val is None else v.val.subs(mp), g=v.g.subs(mp))
        return out

    def range_symbol(self, n, rng, st):
        step = rng.stepc()
        nm = 'i:%s:%d:%d(%r,%r,%r)' % (n._mod.name.split('.')[-1], n.lineno, n.col_offset, rng.lo, rng.hi, rng.step)
        tname = n.target.id if isinstance(n.target, ast.Name) else '_'
        nm = tname + '@' + nm
        if step == 1:
            self.syms.get(nm, [rng.lo], [rng.hi - 1])
            v = Poly.atom(nm)
        elif step is not None and step != 0:
            # value = lo + step*t
            self.syms.get(nm, [Poly()], [(rng.hi - rng.lo - (1 if step > 0 else -1)).scale(F(1) / step)])
            v = rng.lo + Poly.atom(nm).scale(step)
        else:
            self.syms.get(nm, [rng.lo], [rng.hi - 1])
            v = Poly.atom(nm)
        sg = self.sign(v, st)
        return nm, Num(v, ONEG, sg=sg, integer=True)

    def seq_symbol(self, n, it, st):
        nm = '_@s:%s:%d:%d' % (n._mod.name.split('.')[-1], n.lineno, n.col_offset)
        hi = []
        if isinstance(it, ListV) and it.length is not None:
            hi = [it.length - 1]
        if isinstance(it, ArrV):
            sh = st.store[it.aid].shape
            if sh and sh[0] is not None:
                hi = [sh[0] - 1]
        if isinstance(it, EnumV):
            return self.seq_symbol(n, it.inner, st)
        if isinstance(it, ZipV) and it.items:
            return self.seq_symbol(n, it.items[0], st)
        if hi:
            nm += repr(hi)
        self.syms.get(nm, [Poly()], hi)
        return nm, None

    def iter_elem(self, it, sym, st, node):
        i = Num(Poly.atom(sym), ONEG, sg=SNN, integer=True)
        if isinstance(it, EnumV):
            return Seq([i, self.iter_elem(it.inner, sym, st, node)])
        if isinstance(it, ZipV):
            return Seq([self.iter_elem(x, sym, st, node) for x in it.items])
        if isinstance(it, (ListV, Seq, ArrV)):
            return self.getitem(it, [i], node, st)
        if isinstance(it, RangeV):
            return Num(it.lo + it.step * Poly.atom(sym), ONEG, integer=True)
        if isinstance(it, Str):
            return Str(None, it.tag)
        return Top('iter')

    def rename_past(self, st, names, replace=False):
        """symbols of a finished iteration become generic 'past' symbols"""
        if not names:
            return st
        names = [x for x in names if x]
        mp = {}
        for nm in names:
            p = nm + '~'
            sy = self.syms.tab[nm]
            if p not in self.syms.tab:
                self.syms.get(p, sy.lo, sy.hi)
                self.past[p] = nm
            mp[nm] = Poly.atom(p)
        tagof = '|' + '~'.join(x.split('@')[0] for x in names)

        def used(st):
            ats = set()
            for c in st.store.values():
                for cell in c.cells:
                    for i in cell.idx:
                        if isinstance(i, Poly):
                            ats |= deep_atoms(i)
                        elif i[0] == 'rg':
                            for q in i[1:]:
                                if q is not None:
                                    ats |= deep_atoms(q)
                    ats |= num_atoms(cell.elem)
            return ats
        full = dict(mp)
        # dependent symbols: bounds mention a renamed symbol
        todo = True
        seen = set(full)
        for a in sorted(used(st), key=repr):
            chain = [a]
            if not isinstance(a, str) or a not in self.syms.tab or a in seen:
                continue
            if a in self.live and a not in names:
                continue
            sy = self.syms.tab[a]
            if any(deep_atoms(p) & set(mp) for p in sy.lo + sy.hi):
                v = self.syms.variant(a, full, '|')
                full[a] = Poly.atom(v)
                if a in self.past:
                    pass
                seen.add(a)
        out = State()
        out.heap = {k: {n2: self.subs_val(v, mp) for n2, v in d.items()} for k, d in st.heap.items()}
        for k, v in st.env.items():
            out.env[k] = self.subs_val(v, mp)
        for k, c in st.store.items():
            if c.cells or num_atoms(c.base) or c.shape:
                cells = []
                fresh = set()
                for cell in c.cells:
                    if replace and any(isinstance(i, Poly) and (deep_atoms(i) & set(names)) for i in cell.idx):
                        fresh.add(len(cells))
                    idx = tuple(i.subs(full) if isinstance(i, Poly) else
                                (i if i is ALL else ('rg',) + tuple(None if q is None else q.subs(full) for q in i[1:]))
                                for i in cell.idx)
                    cells.append(Cell(idx, self.subs_num(cell.elem, full), cell.node))
                seen2, c2 = {}, []
                if fresh:
                    newk = {(cells[j].idx, id(cells[j].node)) for j in fresh}
                    cells = [x for j, x in enumerate(cells)
                             if j in fresh or (x.idx, id(x.node)) not in newk]
                for cell in cells:
                    kk = cell.key()
                    if kk in seen2:
                        continue
                    k2 = (cell.idx, id(cell.node))
                    hit = [j for j, x in enumerate(c2) if (x.idx, id(x.node)) == k2]
                    if hit:
                        c2[hit[0]] = Cell(cell.idx, self.join_num(c2[hit[0]].elem, cell.elem), cell.node)
                    else:
                        seen2[kk] = 1
                        c2.append(cell)
                sh = c.shape if c.shape is None else tuple(None if x is None else x.subs(mp) for x in c.shape)
                out.store[k] = c.copy(cells=c2, base=self.subs_num(c.base, mp), shape=sh)
            else:
                out.store[k] = c
        for holder in [out.env] + list(out.heap.values()):
            for nm, v in list(holder.items()):
                if isinstance(v, ListV) and v.over:
                    ov = []
                    for k, x in v.over:
                        if isinstance(x, ArrV) and x.aid[0] != 'pst' and any(a in self.past for a in k.atoms()):
                            aid = ('pst', x.aid)
                            out.store[aid] = out.store[x.aid]
                            x = ArrV(aid)
                        ov.append((k, x))
                    nv = ListV(v.elem, v.length, v.root)
                    nv.over = tuple(ov)
                    holder[nm] = nv
        for p, s in st.facts.items():
            if not (deep_atoms(p) & set(names)):
                out.facts[p] = s
        return out

    def subs_num(self, v, mp):
        return v.rep(val=None if v.val is None else v.val.subs(mp), g=v.g.subs(mp),
                     log=None if v.log is None else v.log.subs(mp),
                     prov=None if v.prov is None else prov_subs(v.prov, mp),
                     pf=None if v.pf is None else (v.pf[0].subs(mp), v.pf[1].subs(mp)),
                     facts=v.facts and frozenset((p.subs(mp), sg) for p, sg in v.facts))

    def subs_val(self, v, mp):
        if isinstance(v, Num):
            return self.subs_num(v, mp)
        if isinstance(v, Seq):
            return Seq([self.subs_val(i, mp) for i in v.items], v.mutable)
        if isinstance(v, ListV):
            r = ListV(None if v.elem is None else self.subs_val(v.elem, lvl_shift(mp)),
                      None if v.length is None else v.length.subs(mp), v.root)
            if v.over:
                d = {}
                for k, x in v.over:
                    d[k.subs(mp)] = self.subs_val(x, mp)
                r.over = tuple(d.items())
            return r
        return v

    # ---------------------------------------------------------- conditions
    def branch(self, test, st):
        """-> (true state | None, false state | None)"""
        b = self.truth(self.ev_cond(test, st), st)
        if b.b is True:
            return st, None
        if b.b is False:
            return None, st
        t, f = st.copy(), st
        ok_t = all(t.add_fact(p, s) for p, s in b.pos)
        ok_f = all(f.add_fact(p, s) for p, s in b.neg)
        if self.alg:
            # a condition the facts do not express
            for side, fs, sg in ((t, b.pos, SP), (f, b.neg, SN)):
                other = b.neg if fs is b.pos else b.pos
                if not fs and other and not any(p is None for p, _ in other):
                    side.add_fact(nand(other), SP)
                elif not fs or any(p is None for p, _ in fs):
                    side.add_fact(Poly.atom('lossy:%d:%d' % (getattr(test, 'lineno', 0), getattr(test, 'col_offset', 0))), sg)
        self.refine(test, t, True)
        self.refine(test, f, False)
        return (t if ok_t else None), (f if ok_f else None)

    def refine(self, test, st, pol):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not pol)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pol:
                for v in test.values:
                    self.refine(v, st, pol)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name):
            v = st.env.get(test.left.id)
            r = test.comparators[0]
            op = type(test.ops[0]).__name__
            if isinstance(v, Str) and isinstance(r, ast.Constant) and isinstance(r.value, str):
                if (op == 'Eq') == pol and op in ('Eq', 'NotEq') and v.s is None:
                    st.env[test.left.id] = Str(r.value, v.tag)
                return
            if isinstance(v, Num) and v.val is None and isinstance(r, ast.Constant) and r.value == 0:
                tbl = {'Eq': (SZ, SNZ), 'NotEq': (SNZ, SZ), 'Lt': (SN, SNN), 'LtE': (SNP, SP),
                       'Gt': (SP, SNP), 'GtE': (SNN, SN)}
                if op in tbl:
                    k = v.sg & tbl[op][0 if pol else 1]
                    if k:
                        st.env[test.left.id] = v.rep(sg=k)

    def ev_cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            pos, neg = [], []
            unknown = False
            dep = frozenset()
            cur = st
            for v in n.values:
                b = self.truth(self.ev_cond(v, cur), cur)
                dep |= b.dep
                if b.b is None:
                    unknown = True
                    pos += (list(b.pos) or [(None, SIGNS_ALL)]) if isand else []
                    neg += (list(b.neg) or [(None, SIGNS_ALL)]) if not isand else []
                    cur2 = cur.copy()
                    for p, s in (b.pos if isand else b.neg):
                        cur2.add_fact(p, s)
                    cur = cur2
                elif b.b is (not isand):
                    if not unknown:
                        return BoolV(b.b, dep=dep)
                    return BoolV(b.b, dep=dep) if True else None
            if not unknown:
                return BoolV(isand, dep=dep)
            if self.alg and (pos or neg) and not any(p is None for p, _ in pos + neg):
                f = [(nand(pos + neg), SP)]
                return BoolV(None, pos or f, neg or f, dep)
            if isand:
                return BoolV(None, pos, [], dep)
            return BoolV(None, [], neg, dep)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            b = self.truth(self.ev_cond(n.operand, st), st)
            return BoolV(None if b.b is None else not b.b, b.neg, b.pos, b.dep)
        return self.ev(n, st)

    def truth(self, v, st):
        if isinstance(v, BoolV):
            return v
        if isinstance(v, Num):
            if v.val is not None:
                s = self.sign(v.val, st)
                if '0' not in s:
                    return BoolV(True)
                if s == SZ:
                    return BoolV(False)
                return BoolV(None, [(v.val, SNZ)], [(v.val, SZ)], v.dep)
            if v.zero:
                return BoolV(False)
            if '0' not in v.sg:
                return BoolV(True)
            return BoolV(None, dep=v.dep)
        if isinstance(v, NoneV):
            return BoolV(False)
        if isinstance(v, Str):
            return BoolV(None if v.s is None else bool(v.s))
        if isinstance(v, Seq):
            return BoolV(bool(v.items))
        if isinstance(v, (FuncV, ModV, ClassV, ObjV)):
            return BoolV(True)
        if isinstance(v, ArrV):
            return BoolV(None)
        return BoolV(None)

    def compare(self, op, a, b, st, node):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            if isinstance(a, NoneV) and isinstance(b, NoneV):
                r = True
            elif (isinstance(a, NoneV) or isinstance(b, NoneV)) and TOP.kind not in (a.kind, b.kind):
                r = False
            elif isinstance(a, BoolV) and isinstance(b, BoolV):
                r = None if a.b is None or b.b is None else a.b == b.b
            else:
                r = None
            return BoolV(r if r is None or o == 'Is' else not r)
        if o in ('In', 'NotIn'):
            r = None
            if isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
                r = a.s in b.s
            elif isinstance(b, Seq) and isinstance(a, Str) and a.s is not None and \
                    all(isinstance(x, Str) and x.s is not None for x in b.items):
                r = any(x.s == a.s for x in b.items)
            elif isinstance(b, DictV) and isinstance(a, Str) and a.s is not None:
                r = a.s in b.d
            return BoolV(r if r is None or o == 'In' else not r)
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s is not None and b.s is not None:
                r = a.s == b.s
                return BoolV({'Eq': r, 'NotEq': not r}.get(o))
            return BoolV(None)
        if isinstance(a, BoolV) and isinstance(b, Num):
            return BoolV(None)
        if isinstance(a, (ArrV,)) or isinstance(b, ArrV):
            return self.np.arr_compare(o, a, b, st, node)
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if o == 'Eq':
                return BoolV(True if a.kind == b.kind == 'none' else (None if 'top' in (a.kind, b.kind) else False))
            if o == 'NotEq':
                return BoolV(False if a.kind == b.kind == 'none' else (None if 'top' in (a.kind, b.kind) else True))
            return BoolV(None)
        if isinstance(a, Seq) and isinstance(b, Seq):
            if len(a.items) != len(b.items):
                return BoolV(o == 'NotEq')
            rs = [self.compare(ast.Eq(), x, y, st, node) for x, y in zip(a.items, b.items)]
            if all(r.b is True for r in rs):
                return BoolV(o == 'Eq')
            if any(r.b is False for r in rs):
                return BoolV(o == 'NotEq')
            return BoolV(None)
        if not isinstance(a, Num) or not isinstance(b, Num):
            return BoolV(None)
        want = {'Lt': SN, 'LtE': SNP, 'Gt': SP, 'GtE': SNN, 'Eq': SZ, 'NotEq': SNZ}[o]
        if not (a.zero or b.zero):
            self.event('cmp', node, a=repr(a.g.only(lambda u: isinstance(u, str))),
                       b=repr(b.g.only(lambda u: isinstance(u, str))), data=(a.g, b.g))
        dep = a.dep | b.dep
        if a.val is not None and b.val is not None:
            d = a.val - b.val
            s = self.sign(d, st)
        else:
            d = None
            s = sg_add(a.sg_now(self, st) if False else self.sg_of(a, st), sg_neg(self.sg_of(b, st)))
        if s <= want:
            return BoolV(True, dep=dep)
        if not (s & want):
            return BoolV(False, dep=dep)
        if d is None or 'I' in d.atoms():
            return BoolV(None, dep=dep)
        return BoolV(None, [(d, want)], [(d, SIGNS_ALL - want)], dep)

    def sg_of(self, a, st):
        if a.val is not None:
            return self.sign(a.val, st)
        return a.sg

    # ------------------------------------------------------------- expressions
    def ev(self, n, st, mod=None):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.event('unsupported', n, what=type(n).__name__)
            return Top(type(n).__name__)
        if mod is not None and not hasattr(n, '_mod'):
            n._mod = mod
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, (int, float, complex)):
            return self.num(v)
        if isinstance(v, str):
            return Str(v)
        return Top('const')

    def e_JoinedStr(self, n, st):
        out = ''
        for v in n.values:
            x = Str(v.value) if isinstance(v, ast.Constant) else self.ev(v.value, st) if isinstance(v, ast.FormattedValue) else None
            out = out + x.s if out is not None and isinstance(x, Str) and x.s is not None and \
                getattr(v, 'format_spec', None) is None and getattr(v, 'conversion', -1) == -1 else None
        return Str(out)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        fr = self.frames()
        for e in reversed(fr):
            if n.id in e:
                return e[n.id]
        v = self.lookup_global(n._mod, n.id)
        if v is not None:
            return v
        return self.np.builtin_name(n.id)

    def frames(self):
        return [f['outer'] for f in self.stack if f.get('outer')]

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, n, st)

    def getattr(self, b, attr, n, st):
        if isinstance(b, ModV):
            full = b.name + '.' + attr
            if b.name in self.mods:
                v = self.lookup_global(self.mods[b.name], attr)
                if v is not None:
                    return v
                if full in self.mods:
                    return ModV(full)
                self.event('noattr', n, name=full)
                return Top(full)
            if full in self.mods:
                return ModV(full)
            return self.np.mod_attr(full)
        if isinstance(b, ObjV):
            h = st.heap.get(b.oid, {})
            if attr in h:
                return h[attr]
            m = self.find_method(b.cls, attr)
            if m is not None:
                return FuncV(m[1].name + '.' + m[0].name, m[0], m[0]._mod, bound=b)
            return Top(attr)
        if isinstance(b, ClassV):
            m = self.find_method(b, attr)
            if m is not None:
                return FuncV(m[1].name + '.' + m[0].name, m[0], m[0]._mod)
            return Top(attr)
        return self.np.attr(b, attr, n, st)

    def derives(self, cls, top):
        """does one class descend from another? None: unknown"""
        seen = set()
        while cls is not None and cls.name not in seen:
            if cls.name == top.name:
                return True
            seen.add(cls.name)
            nxt, open_ = None, False
            for b in cls.node.bases:
                v = self.lookup_global(cls.module, b.id) if isinstance(b, ast.Name) else None
                if isinstance(v, ClassV):
                    nxt = v
                elif not (isinstance(b, ast.Name) and b.id == 'object'):
                    open_ = True
            if open_ or len(cls.node.bases) > 1:
                return None
            cls = nxt
        return False

    def find_method(self, cls, name):
        seen = set()
        while cls is not None and cls.name not in seen:
            seen.add(cls.name)
            for x in cls.node.body:
                if isinstance(x, ast.FunctionDef) and x.name == name:
                    return x, cls
            nxt = None
            for bnode in cls.node.bases:
                if isinstance(bnode, ast.Name):
                    v = self.lookup_global(cls.module, bnode.id)
                    if isinstance(v, ClassV):
                        nxt = v
                        break
            cls = nxt
        return None

    def setattr(self, b, attr, v, n, st):
        if isinstance(b, ObjV):
            h = dict(st.heap.get(b.oid, {}))
            h[attr] = v
            st.heap[b.oid] = h
            self.event('setattr', n, obj=b.oid, attr=attr)
        elif isinstance(b, ArrV):
            self.mutated(st.store[b.aid].roots, n, st, 'attribute %s set' % attr)
        elif isinstance(b, ModV):
            self.event('global_write', n, name=b.name + '.' + attr)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(n.op, a, b, n, st)

    def scalar_op(self, op, a, b, n):
        o = type(op).__name__
        if o == 'Add':
            return self.add(a, b, n)
        if o == 'Sub':
            return self.add(a, b, n, sub=True)
        if o == 'Mult':
            return self.mul(a, b, n)
        if o == 'Div':
            return self.div(a, b, n)
        if o == 'Pow':
            return self.pow(a, b, n)
        if o == 'FloorDiv':
            return self.floordiv(a, b, n)
        if o == 'Mod':
            return self.mod(a, b, n)
        return Num(None, Grading({u: UNK for u in set(a.g.d) | set(b.g.d)}))

    def binop(self, op, a, b, n, st):
        if isinstance(a, BoolV):
            a = self.bool_num(a)
        if isinstance(b, BoolV):
            b = self.bool_num(b)
        o = type(op).__name__
        if isinstance(a, Num) and isinstance(b, Num):
            return self.scalar_op(op, a, b, n)
        if isinstance(a, Str) or isinstance(b, Str):
            if o == 'Add' and isinstance(a, Str) and isinstance(b, Str) and a.s is not None and b.s is not None:
                return Str(a.s + b.s)
            return Str(None, getattr(a, 'tag', None))
        if isinstance(a, (Seq, ListV)) and isinstance(b, (Seq, ListV)) and o == 'Add':
            if isinstance(a, Seq) and isinstance(b, Seq):
                return Seq(a.items + b.items, a.mutable)
            ea, la = self.seq_elem(a, st, st)
            eb, lb = self.seq_elem(b, st, st)
            return ListV(self.join_val(ea, eb, st, st, st), la + lb if la is not None and lb is not None else None)
        if isinstance(a, (Seq, ListV)) and isinstance(b, Num) and o == 'Mult' or \
                isinstance(b, (Seq, ListV)) and isinstance(a, Num) and o == 'Mult':
            s, k = (a, b) if isinstance(a, (Seq, ListV)) else (b, a)
            if isinstance(s, Seq) and k.val is not None and k.val.is_const() and len(s.items) * k.val.cval() <= 64:
                return Seq(s.items * int(k.val.cval()), s.mutable)
            e, l = self.seq_elem(s, st, st)
            return ListV(e, l * k.val if l is not None and k.val is not None else None)
        if isinstance(a, (ArrV, Seq, ListV)) or isinstance(b, (ArrV, Seq, ListV)):
            return self.np.arr_binop(op, a, b, n, st)
        return Top('binop')

    def bool_num(self, b):
        if b.b is None:
            v = None
            if self.alg and len(b.pos) == 1 and len(b.neg) == 1 and isinstance(b.pos[0][0], Poly) and \
                    b.neg[0][0] == b.pos[0][0] and not set(b.pos[0][1]) & set(b.neg[0][1]):
                v = ind(frozenset(b.pos[0][1]), b.pos[0][0])
            return Num(v, ONEG, sg=SNN, integer=True, dep=b.dep, tag='bool')
        return self.num(1 if b.b else 0)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.ev_cond(n, st)
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.USub):
            if isinstance(v, BoolV):
                v = self.bool_num(v)
            if isinstance(v, Num):
                return self.neg(v)
            if isinstance(v, ArrV):
                return self.np.arr_map(v, lambda x: self.neg(x), st, n)
            return Top('neg')
        if isinstance(n.op, ast.Invert):
            if isinstance(v, ArrV):
                return self.np.arr_map(v, lambda x: Num(None, ONEG), st, n)
            return Top('inv')
        return v

    def e_BoolOp(self, n, st):
        return self.ev_cond(n, st)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        pos, neg, unknown = [], [], False
        k = len(n.ops)
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st)
            c = self.compare(op, left, right, st, n)
            if not isinstance(c, BoolV):
                return c
            if c.b is False:
                return c
            if c.b is None:
                unknown = True
                pos += list(c.pos)
                if k == 1:
                    neg += list(c.neg)
                res = c
            left = right
        if unknown:
            return BoolV(None, pos, neg, res.dep)
        return BoolV(True)

    def e_IfExp(self, n, st):
        t, f = self.branch(n.test, st.copy())
        if t is None:
            return self.ev(n.orelse, st)
        if f is None:
            return self.ev(n.body, st)
        a = self.ev(n.body, t)
        b = self.ev(n.orelse, f)
        j = self.path_join(t, f, lambda: self.join_state(t, f))
        r = self.path_join(t, f, lambda: self.join_val(a, b, t, f, j))
        st.store, st.heap = j.store, j.heap
        return r

    def e_Tuple(self, n, st):
        return self.seq_lit(n, st, False)

    def e_List(self, n, st):
        return self.seq_lit(n, st, True)

    def seq_lit(self, n, st, mut):
        items = []
        star = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                if isinstance(v, Seq) and star is None:
                    items += v.items
                else:
                    star = (star or []) + [v]
            else:
                v = self.ev(e, st)
                if star is None:
                    items.append(v)
                else:
                    star.append(Seq([v]))
        if star is None:
            return Seq(items, mut)
        if len(star) == 1 and isinstance(star[0], (ArrV, ListV)):
            v, k = star[0], len(items)
            back = {'$i': Poly.atom('$i') - k}
            if isinstance(v, ArrV):
                c = st.store[v.aid]
                e = None
                if c.ndim == 1 and not c.cells:
                    e = self.subs_num(c.base, {'$0': Poly.atom('$i') - k})
                l2 = c.shape[0] if c.shape else None
            else:
                e, l2 = v.elem if not v.over else None, v.length
                if e is not None:
                    e = self.subs_deep(e, back, st)
            if e is not None:
                r = ListV(e, None if l2 is None else l2 + k)
                r.over = tuple((Poly.const(j), x) for j, x in enumerate(items))
                return r
        el, ln = None, Poly.const(len(items))
        for i in items:
            el = i if el is None else self.join_val(el, i, st, st, st)
        for s in star:
            if isinstance(s, ArrV):
                e = self.np.arr_elem_join(s, st)
                sh = st.store[s.aid].shape
                l2 = sh[0] if sh else None
            elif isinstance(s, (Seq, ListV)):
                e, l2 = self.seq_elem(s, st, st)
            else:
                e, l2 = Top('star'), None
            el = e if el is None else self.join_val(el, e, st, st, st)
            ln = ln + l2 if ln is not None and l2 is not None else None
        r = ListV(el, ln)
        r.first = items[0] if items else None
        return r

    def e_Dict(self, n, st):
        d = {}
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, st)
            if k is not None:
                kk = self.ev(k, st)
                if isinstance(kk, Str) and kk.s is not None:
                    d[kk.s] = vv
        return DictV(d)

    def e_Set(self, n, st):
        return Seq([self.ev(e, st) for e in n.elts])

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Slice(self, n, st):
        return SliceV(*[None if x is None else self.ev(x, st) for x in (n.lower, n.upper, n.step)])

    def e_Lambda(self, n, st):
        n.name = '<lambda>'
        f = FuncV(n._mod.name + '.<lambda>', n, n._mod)
        f.env = 'frame'
        return f

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_ListComp(self, n, st):
        return self.comp(n, st)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, st):
        return Top('dictcomp')

    def comp(self, n, st):
        if len(n.generators) != 1:
            saved = dict(st.env)
            syms = []
            for g in n.generators:
                it = self.ev(g.iter, st)
                v, sym = self.comp_elem(g, it, st, n)
                if sym:
                    self.live.append(sym)
                    syms.append(sym)
                self.assign(g.target, v, st, n)
                for c in g.ifs:
                    self.ev_cond(c, st)
            e = self.ev(n.elt, st)
            for s in syms:
                self.live.pop()
            st.env = saved
            return ListV(self.subs_val(e, {s: Poly.atom(s + '~') for s in syms if self.past_sym(s)}), None)
        g = n.generators[0]
        it = self.ev(g.iter, st)
        if isinstance(it, ArrV) and self.number is not None:
            c = st.store[it.aid]
            if c.ndim == 1 and c.shape[0] is not None and c.shape[0].is_const() and c.shape[0].cval() <= 8:
                it = Seq([self.getitem(it, [self.num(i)], n, st) for i in range(int(c.shape[0].cval()))], True)
        if isinstance(it, Seq) and len(it.items) <= (16 if self.number is None else 64) and not g.ifs:
            saved = dict(st.env)
            out = []
            for i, v in enumerate(it.items):
                self.passes.append(i)
                self.assign(g.target, v, st, n)
                out.append(self.ev(n.elt, st))
                self.passes.pop()
            st.env = saved
            return Seq(out, True)
        if self.dense and isinstance(it, RangeV) and not g.ifs and it.conc() is not None and len(it.conc()) <= self.unroll:
            saved = dict(st.env)
            out = []
            for i in it.conc():
                self.passes.append(i)
                self.assign(g.target, self.num(i), st, n)
                out.append(self.ev(n.elt, st))
                self.passes.pop()
            st.env = saved
            return Seq(out, True)
        saved = dict(st.env)
        v, sym = self.comp_elem(g, it, st, n)
        if sym:
            self.live.append(sym)
        facts = dict(st.facts)
        self.assign(g.target, v, st, n)
        back = self.filter_hook(st) if self.filter_hook and g.ifs else None
        for c in g.ifs:
            b = self.truth(self.ev_cond(c, st), st)
            if b.b is None:
                for p, s in b.pos:
                    st.add_fact(p, s)
                if self.trail is not None:
                    self.trail.append(('filter', c, (b, it), dict(st.facts), tuple(self.live)))
            elif self.trail is not None:
                self.trail.append(('filter', c, (b, it), dict(st.facts), tuple(self.live)))
        if back is not None:
            back()
        e = self.ev(n.elt, st)
        st.facts = facts
        if sym:
            self.live.pop()
        st.env = saved
        length = self.iter_len(it, st) if not g.ifs else None
        if sym is not None:
            lo = Poly()
            if isinstance(it, RangeV):
                lo = it.lo
                if it.stepc() != 1:
                    lo = None
            if lo is not None and not g.ifs:
                e = self.subs_deep(e, {sym: Poly.atom('$i') + lo}, st)
            else:
                self.past_sym(sym)
                e = self.subs_deep(e, {sym: Poly.atom(sym + '~')}, st)
        r = ListV(e, length)
        r.filtered = bool(g.ifs)
        r.src = it
        return r

    def subs_deep(self, v, mp, st):
        if isinstance(v, ArrV):
            c = st.store[v.aid]
            nc = self.subs_arr(c, mp)
            return self.new_arr(nc, st, hint=('sub', v.aid, tuple(sorted((k, p) for k, p in mp.items()
                                                                         ) if False else sorted(map(repr, mp.items())))))
        if isinstance(v, Seq):
            return Seq([self.subs_deep(i, mp, st) for i in v.items], v.mutable)
        if isinstance(v, ListV):
            r = ListV(None if v.elem is None else self.subs_deep(v.elem, lvl_shift(mp), st),
                      None if v.length is None else v.length.subs(mp), v.root)
            for a in ('filtered', 'src'):
                if hasattr(v, a):
                    setattr(r, a, getattr(v, a))
            r.over = tuple((k.subs(mp), self.subs_deep(x, mp, st)) for k, x in v.over)
            return r
        return self.subs_val(v, mp)

    def subs_arr(self, c, mp):
        cells = [Cell(tuple(i.subs(mp) if isinstance(i, Poly) else
                            (i if i is ALL else ('rg',) + tuple(None if q is None else q.subs(mp) for q in i[1:]))
                            for i in x.idx), self.subs_num(x.elem, mp), x.node) for x in c.cells]
        sh = None if c.shape is None else tuple(None if x is None else x.subs(mp) for x in c.shape)
        return c.copy(cells=cells, base=self.subs_num(c.base, mp), shape=sh)

    def past_sym(self, sym):
        p = sym + '~'
        if p not in self.syms.tab:
            sy = self.syms.tab[sym]
            self.syms.get(p, sy.lo, sy.hi)
            self.past[p] = sym
        return p

    def iter_len(self, it, st):
        if isinstance(it, RangeV):
            if it.stepc() == 1:
                return it.hi - it.lo
            return None
        if isinstance(it, Seq):
            return Poly.const(len(it.items))
        if isinstance(it, ListV):
            return it.length
        if isinstance(it, ArrV):
            sh = st.store[it.aid].shape
            return sh[0] if sh else None
        return None

    def comp_elem(self, g, it, st, n):
        class _N:
            pass
        nn = _N()
        nn._mod, nn.lineno, nn.col_offset = n._mod, n.lineno, n.col_offset
        nn.target = g.target
        if isinstance(it, RangeV):
            sym, v = self.range_symbol(nn, it, st)
            return v, sym
        sym, _ = self.seq_symbol(nn, it, st)
        return self.iter_elem(it, sym, st, n), sym

    # ---------------------------------------------------------- subscripts
    def e_Subscript(self, n, st):
        base, idx = self.ev_subscript_parts(n, st)
        return self.getitem(base, idx, n, st)

    def ev_subscript_parts(self, n, st):
        base = self.ev(n.value, st)
        s = n.slice
        if isinstance(s, ast.Tuple):
            idx = [self.ev(e, st) for e in s.elts]
        else:
            idx = [self.ev(s, st)]
        return base, idx

    def getitem(self, base, idx, n, st):
        if isinstance(base, Seq):
            i = idx[0]
            if isinstance(i, Num) and i.val is not None and i.val.is_const():
                k = int(i.val.cval())
                if -len(base.items) <= k < len(base.items):
                    return base.items[k]
                self.event('oob', n, idx=k, size=len(base.items))
                return Top('oob')
            if isinstance(i, SliceV):
                c = i.conc()
                if c is not None:
                    return Seq(base.items[c], base.mutable)
                e, l = self.seq_elem(base, st, st)
                return ListV(e, None)
            e, l = self.seq_elem(base, st, st)
            return e if e is not None else TOP
        if isinstance(base, ListV):
            i = idx[0]
            if isinstance(i, SliceV):
                ln = None
                if base.length is not None:
                    ln = self.np.slice_len(i, base.length)
                e = base.elem
                if i.step is not None and not (isinstance(i.step, Num) and i.step.val == Poly.const(1)):
                    if i.lo is None and i.hi is None and isinstance(i.step, Num) and i.step.val == Poly.const(-1) \
                            and base.length is not None and e is not None:
                        top = base.length - 1
                        r = ListV(self.subs_deep(e, {'$i': top - Poly.atom('$i')}, st), base.length, base.root)
                        r.over = tuple((top - k, x) for k, x in base.over)
                        return r
                    return TOP
                off = i.lo.val if isinstance(i.lo, Num) and i.lo.val is not None else (Poly() if i.lo is None else None)
                if off is not None and not off.is_zero() and e is not None:
                    e = self.subs_deep(e, {'$i': Poly.atom('$i') + off}, st)
                r = ListV(e, ln, base.root)
                if off is not None and i.step is None:
                    r.over = tuple((k - off, x) for k, x in base.over if '-' not in self.sign(k - off, st) or
                                   not self.sign(k - off, st) <= SN)
                elif base.over:
                    for k, x in base.over:
                        r.elem = self.join_val(r.elem, x, st, st, st)
                return r
            if base.elem is None:
                return TOP
            if isinstance(i, Num):
                iv = i.val
                if iv is not None and iv.is_const() and iv.cval() < 0 and base.length is not None:
                    iv = base.length + iv
                return self.list_get(base, iv, st)
            return base.elem
        if isinstance(base, ArrV):
            return self.np.arr_get(base, idx, n, st)
        if isinstance(base, DictV):
            i = idx[0]
            if isinstance(i, Str) and i.s in base.d:
                return base.d[i.s]
            return TOP
        if isinstance(base, Str):
            i = idx[0]
            k = i.conc() if isinstance(i, SliceV) else None
            if isinstance(i, Num) and i.val is not None and i.val.is_const() and i.val.cval().denominator == 1:
                k = int(i.val.cval())
            if base.s is not None and k is not None:
                try:
                    return Str(base.s[k])
                except IndexError:
                    self.event('oob', n, idx=k, size=len(base.s))
            return Str(None, base.tag)
        return self.np.getitem_other(base, idx, n, st)

    def list_get(self, base, iv, st):
        hit = []
        for k, v in base.over:
            if iv is not None and k == iv:
                return v
            if iv is not None:
                d = k - iv
                if '0' not in self.sign(d, st):
                    continue
                ats = {a for a in d.atoms() if a in self.past}
                if any(self.past[a] in d.atoms() for a in ats):
                    continue        # an earlier iteration wrote another element
            hit.append(v)
        e = self.subs_elem_index(base, iv, st)
        for v in hit:
            e = self.join_val(e, v, st, st, st)
        return e

    def fold_lists(self, st, sym, lo, hi):
        """every element lo <= i < hi was replaced by the finished loop"""
        p = sym + '~'
        for holder in [st.env] + list(st.heap.values()):
            for nm, v in list(holder.items()):
                if not isinstance(v, ListV) or not v.over:
                    continue
                keep, e = [], v.elem
                for k, x in v.over:
                    if p in deep_atoms(k) and k == Poly.atom(p):
                        y = self.subs_deep(x, {p: Poly.atom('$i')}, st)
                        if lo.is_zero() and v.length is not None and (hi - v.length).is_zero():
                            e = y
                        else:
                            e = self.join_val(e, y, st, st, st)
                    else:
                        keep.append((k, x))
                nv = ListV(e, v.length, v.root)
                nv.over = tuple(keep)
                holder[nm] = nv

    def join_over(self, a, b, sa, sb, out):
        if not getattr(a, 'over', ()) and not getattr(b, 'over', ()):
            return ()
        da, db = dict(getattr(a, 'over', ())), dict(getattr(b, 'over', ()))
        r = []
        for k in list(da) + [k for k in db if k not in da]:
            x, y = da.get(k), db.get(k)
            if x is not None and y is not None:
                r.append((k, self.join_val(x, y, sa, sb, out)))
            elif any(at in self.past for at in k.atoms()):
                r.append((k, x if x is not None else y))
            else:
                o, so = (b, sb) if x is not None else (a, sa)
                e = self.list_get(o, k, so) if isinstance(o, ListV) else TOP
                r.append((k, self.join_val(x if x is not None else y, e, sa, sb, out)))
        return tuple(r)

    def subs_elem_index(self, base, iv, st):
        e = base.elem
        if isinstance(e, ArrV):
            c = st.store[e.aid]
            ats = arr_atoms(c)
            if '$i' not in ats:
                return e
            if iv is None:
                iv = Poly.atom(('anyidx', id(base)))
            v = self.new_arr(self.subs_arr(c, lvl_drop(iv)), st, hint=('li', e.aid, iv))
            st.store[v.aid].meta['list'] = e.aid
            return v
        if isinstance(e, Num):
            if '$i' in num_atoms(e):
                if iv is None:
                    return e.rep(val=None, g=Grading({u: (x if isinstance(x, Poly) and '$i' not in deep_atoms(x) else UNK) for u, x in e.g.d.items()}))
                return self.subs_num(e, lvl_drop(iv))
        if isinstance(e, (ListV, Seq)) and iv is not None:
            return self.subs_deep(e, lvl_drop(iv), st)
        return e

    def setitem(self, base, idx, v, n, st, aug=False):
        if isinstance(base, ArrV):
            if self.trail is not None:
                self.trail.append(('store', n, (base, idx, v, aug), dict(st.facts), tuple(self.live)))
            return self.np.arr_set(base, idx, v, n, st, aug)
        if isinstance(base, Seq):
            i = idx[0]
            if isinstance(i, Num) and i.val is not None and i.val.is_const():
                k = int(i.val.cval())
                if -len(base.items) <= k < len(base.items):
                    base2 = Seq(base.items, base.mutable)
                    base2.items[k] = v
                    self.replace_ref(base, base2, st)
                    return
            base2 = Seq([self.join_val(x, v, st, st, st) for x in base.items], base.mutable)
            self.replace_ref(base, base2, st)
            return
        if isinstance(base, ListV):
            if base.root:
                self.mutated(base.root, n, st, 'list element assignment')
            i = idx[0]
            vi = i.val if isinstance(i, Num) else None
            if vi is not None and vi.is_const() and vi.cval() < 0:
                vi = None if base.length is None else base.length + vi
            if vi is not None and base.elem is not None:
                nb = ListV(base.elem, base.length, base.root)
                nb.over = tuple(o for o in base.over if o[0] != vi) + ((vi, v),)
            else:
                nb = ListV(v if base.elem is None else self.join_val(base.elem, v, st, st, st), base.length, base.root)
                nb.over = tuple((k, self.join_val(x, v, st, st, st)) for k, x in base.over)
            self.replace_ref(base, nb, st)
            return
        if isinstance(base, DictV):
            i = idx[0]
            d = dict(base.d)
            if isinstance(i, Str) and i.s is not None:
                d[i.s] = v
            self.replace_ref(base, DictV(d), st)
            return
        if isinstance(base, Top):
            self.event('settop', n, why=base.why)

    def join_all(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.join_num(r, x)
        return r

    def replace_ref(self, old, new, st):
        """mutable python containers are values here: rebind every holder"""
        for k, v in st.env.items():
            if v is old:
                st.env[k] = new
        for o, d in st.heap.items():
            for k, v in list(d.items()):
                if v is old:
                    d[k] = new

    def assign(self, t, v, st, n):
        if isinstance(t, ast.Name):
            self.noted(t.id, st.env.get(t.id), v, n, st)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), n, st,
                                any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, n)
        elif isinstance(t, ast.Subscript):
            base, idx = self.ev_subscript_parts(t, st)
            self.setitem(base, idx, v, t, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.setattr(b, t.attr, v, t, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, n)

    def noted(self, name, old, new, n, st):
        if self.trail is not None and self.live and isinstance(old, Num) and isinstance(new, Num) and \
                old.val is not None and new.val is not None:
            self.trail.append(('name', n, (name, old.val, new.val), dict(st.facts), tuple(self.live)))

    def unpack(self, v, k, n, st, star=False):
        if isinstance(v, Seq) and not star:
            if len(v.items) != k:
                raise Dead('ValueError', n)
            return v.items
        if isinstance(v, (ListV, ArrV)):
            out = []
            for i in range(k):
                self.passes.append(i)
                out.append(self.getitem(v, [self.num(i)], n, st))
                self.passes.pop()
            return out
        return [Top('unpack')] * k

    # --------------------------------------------------------------- arrays
    def new_arr(self, c, st, node=None, hint=None):
        aid = ('a', hint if hint is not None else (getattr(node, '_mod', None) and node._mod.name,
                                                  getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),
               tuple(f['site'] for f in self.stack) + tuple(self.passes))
        if hint is not None or node is None:
            base = aid
            i = 0
            while aid in st.store and node is None and hint is None:
                i += 1
                aid = base + (i,)
        st.store[aid] = c
        return ArrV(aid)

    def mutated(self, roots, n, st, what):
        for r in roots:
            self.event('mutate', n, root=r, what=what)

    def havoc(self, v, st):
        """the contents of v become unknown"""
        if isinstance(v, ArrV):
            c = st.store[v.aid]
            st.store[v.aid] = c.copy(base=unk_num(c.base), cells=[], meta={'havoc': True})
            self.parent_havoc(c, st)

    def parent_havoc(self, c, st):
        p = c.meta.get('view')
        if p and p in st.store:
            pc = st.store[p]
            st.store[p] = pc.copy(cells=[Cell(x.idx, unk_num(x.elem), x.node) for x in pc.cells],
                                  base=unk_num(pc.base), meta={'havoc': True})

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        f = self.ev(n.func, st)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                c = st.store[v.aid] if isinstance(v, ArrV) else None
                if isinstance(v, Seq):
                    args += v.items
                elif c is not None and c.ndim == 1 and c.shape[0] is not None and c.shape[0].is_const() and c.shape[0].cval() <= 8:
                    args += [self.getitem(v, [self.num(i)], n, st) for i in range(int(c.shape[0].cval()))]
                else:
                    args.append(StarV(v))
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, DictV):
                    kw.update(v.d)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, n, st)

    def call(self, f, args, kw, n, st):
        if isinstance(f, FuncV):
            self.track_calls.append((f.name, n, args, kw))
            if f.name in self.call_hooks:
                r = self.call_hooks[f.name](self, f, args, kw, n, st)
                if r is not None:
                    return r
            if f.name in self.overrides:
                return self.overrides[f.name](self, args, kw, n, st)
            if f.builtin is not None:
                return f.builtin(args, kw, n, st)
            if f.bound is not None:
                args = [f.bound] + args
            return self.call_func(f, args, kw, n, st)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, n, st)
        if isinstance(f, ObjV):
            return Top('callobj')
        for a in list(args) + list(kw.values()):
            self.escape(a, n, st, getattr(f, 'why', '?'))
        if n is self.stmt_call:
            # called for its effect
            for a in list(args) + list(kw.values()):
                self.havoc(a, st)
            if isinstance(n.func, ast.Attribute):
                b = self.ev(n.func.value, st)
                if isinstance(b, ArrV):
                    self.mutated(st.store[b.aid].roots, n, st, 'method %s' % n.func.attr)
                    self.havoc(b, st)
        if 'out' in kw:
            self.havoc(kw['out'], st)
        return Top('call:%s' % getattr(f, 'why', f.kind))

    def escape(self, a, n, st, why):
        if isinstance(a, ArrV):
            c = st.store[a.aid]
            if c.roots:
                self.event('escape', n, roots=tuple(sorted(c.roots)), to=why)

    def instantiate(self, cls, args, kw, n, st):
        oid = ('o', cls.name, n._mod.name, n.lineno, n.col_offset, tuple(f['site'] for f in self.stack))
        while self.alg and oid in st.heap:      # made there before, by an unrolled loop
            oid = oid + ('+',)
        st.heap[oid] = {}
        o = ObjV(oid, cls)
        m = self.find_method(cls, '__init__')
        if m is not None:
            fv = FuncV(m[1].name + '.__init__', m[0], m[0]._mod)
            if fv.name in self.overrides:
                self.overrides[fv.name](self, [o] + args, kw, n, st)
            else:
                self.call_func(fv, [o] + args, kw, n, st)
        return o

    def bind(self, fn, args, kw, st, f, n):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if any(isinstance(x, StarV) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, StarV))
            sv = args[i].v
            rest = len(names) - len(args) + 1
            args = args[:i] + [self.getitem(sv, [self.num(j)], n, st) if isinstance(sv, (ArrV, ListV)) else TOP
                               for j in range(max(rest, 0))] + args[i + 1:]
        if len(args) > len(names) and not a.vararg:
            raise Dead('TypeError', n)
        for nm, v in zip(names, args):
            env[nm] = v
        if a.vararg:
            env[a.vararg.arg] = Seq(args[len(names):])
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif not a.kwarg:
                raise Dead('TypeError', n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, dv in zip(a.kwonlyargs, a.kw_defaults):
            if dv is not None:
                defaults[x.arg] = dv
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                if nm in defaults:
                    env[nm] = self.ev(defaults[nm], State(), fn._mod)
                else:
                    raise Dead('TypeError', n)
        if a.kwarg:
            env[a.kwarg.arg] = DictV({})
        return env

    def call_func(self, f, args, kw, n, st):
        fn = f.node
        if len(self.stack) > self.maxdepth or sum(1 for s in self.stack if s['fn'] is fn) > 1:
            for a in args:
                self.escape(a, n, st, f.name)
            self.event('depth', n, name=f.name)
            return Top('depth')
        env = self.bind(fn, args, kw, st, f, n)
        if not isinstance(fn, ast.Lambda):
            self.fvis['%s.%s' % (fn._mod.name if hasattr(fn, '_mod') else '', fn.name)] = fn
        callee = State()
        callee.env = env
        callee.store, callee.heap, callee.facts = st.store, st.heap, st.facts
        outer = None
        if f.env == 'frame':
            outer = dict(self.stack[-1].get('outer') or {}) if self.stack else {}
            outer.update(st.env)
        self.stack.append({'fn': fn, 'site': (n._mod.name if hasattr(n, '_mod') else '', getattr(n, 'lineno', 0),
                                              getattr(n, 'col_offset', 0)),
                           'outer': outer, 'name': f.name})
        script, self.script = self.script, None
        try:
            if isinstance(fn, ast.Lambda):
                return self.ev(fn.body, callee)
            outs = self.exec_block(fn.body, callee.copy())
        finally:
            self.stack.pop()
            self.script = script
        rets = [(s, c[1] if c is not None and c[0] == 'ret' else NONE) for s, c in outs
                if c is None or c[0] == 'ret']
        raises = [c for s, c in outs if c is not None and c[0] == 'raise']
        for c in raises:
            self.event('callee_raise', c[2], exc=c[1], caller=getattr(n, 'lineno', 0))
        if not rets:
            ex = raises[0] if raises else ('raise', '?', n)
            raise Dead(ex[1], ex[2])
        s0, v0 = rets[0]
        for s, v in rets[1:]:
            j = self.path_join(s0, s, lambda: self.join_state_noenv(s0, s))
            v0 = self.path_join(s0, s, lambda: self.join_val(v0, v, s0, s, j))
            s0 = j
        if len(rets) > 1 and self.script is not None:
            k = self.fork(rets, v0, s0)
            if k is not None:
                s0, v0 = rets[k]
        st.store, st.heap, st.facts = s0.store, s0.heap, s0.facts
        return v0

    def join_state_noenv(self, a, b):
        ea, eb = a.env, b.env
        a2, b2 = State(), State()
        a2.store, a2.heap, a2.facts = a.store, a.heap, a.facts
        b2.store, b2.heap, b2.facts = b.store, b.heap, b.facts
        return self.join_state(a2, b2)

    # --------------------------------------------------------------- running
    def func(self, qual):
        m, n = qual.rsplit('.', 1)
        if m in self.mods and n in self.mods[m].funcs:
            return self.mods[m].funcs[n]
        return None

    def note_atom(self, v):
        if isinstance(v, Num) and v.val is not None and len(v.val.t) == 1:
            (mono, c), = v.val.t.items()
            if len(mono) == 1 and mono[0][1] == 1 and isinstance(mono[0][0], str):
                self.atom_g[mono[0][0]] = v.g

    def run(self, qual, args, st):
        """analyse one function on abstract arguments; -> list (state, ctl)"""
        fn = self.func(qual)
        if fn is None:
            raise KeyError(qual)
        self.fvis[qual] = fn
        env = self.bind(fn, [], args, st, None, fn) if isinstance(args, dict) else self.bind(fn, args, {}, st, None, fn)
        for v in env.values():
            self.note_atom(v)
        s = st.copy()
        s.env = env
        self.stack = [{'fn': fn, 'site': (qual,), 'outer': None, 'name': qual}]
        try:
            outs = self.exec_block(fn.body, s)
        finally:
            self.stack = []
        return [(s, c if c is not None else ('ret', NONE, fn)) for s, c in outs]


def find_ifexp(n):
    if isinstance(n, ast.IfExp):
        return n
    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.FunctionDef)):
        return None
    if isinstance(n, ast.BoolOp):
        return find_ifexp(n.values[0])
    for c in ast.iter_child_nodes(n):
        r = find_ifexp(c)
        if r is not None:
            return r
    return None


def replace_node(n, old, new):
    """copy of the spine of n with node old replaced (sharing everything else)"""
    if n is old:
        return new
    out = None
    for f, v in ast.iter_fields(n):
        if isinstance(v, ast.AST):
            r = replace_node(v, old, new)
        elif isinstance(v, list):
            r = [replace_node(x, old, new) if isinstance(x, ast.AST) else x for x in v]
            if all(x is y for x, y in zip(r, v)):
                r = v
        else:
            continue
        if r is not v:
            if out is None:
                out = copy.copy(n)
            setattr(out, f, r)
    return n if out is None else out


def split_ifexp(n):
    """x = a if c else b  is analysed as  if c: x = a else: x = b"""
    if not isinstance(n, (ast.Assign, ast.AugAssign, ast.Return, ast.AnnAssign)):
        return None
    if not hasattr(n, '_split'):
        n._split = None
        e = find_ifexp(n.value) if n.value is not None else None
        if e is not None:
            a, b = replace_node(n, e, e.body), replace_node(n, e, e.orelse)
            for x in (a, b):
                if hasattr(x, '_split'):
                    del x._split
            s = ast.If(test=e.test, body=[a], orelse=[b])
            ast.copy_location(s, n)
            s._mod = getattr(n, '_mod', None)
            n._split = s
    return n._split


# ---------------------------------------------------------------- small values
class RangeV(Val):
    kind = 'range'

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def stepc(self):
        return self.step.cval() if self.step.is_const() else None

    def conc(self):
        if self.lo.is_const() and self.hi.is_const() and self.step.is_const() and self.step.cval() != 0:
            if self.lo.cval().denominator == self.hi.cval().denominator == 1:
                if abs(self.hi.cval() - self.lo.cval()) < 500:
                    return list(range(int(self.lo.cval()), int(self.hi.cval()), int(self.step.cval())))
        return None

    def key(self):
        return ('range', self.lo, self.hi, self.step)


class SliceV(Val):
    kind = 'slice'

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def conc(self):
        out = []
        for x in (self.lo, self.hi, self.step):
            if x is None or isinstance(x, NoneV):
                out.append(None)
            elif isinstance(x, Num) and x.val is not None and x.val.is_const():
                out.append(int(x.val.cval()))
            else:
                return None
        return slice(*out)


class EnumV(Val):
    kind = 'enum'

    def __init__(self, inner):
        self.inner = inner


class ZipV(Val):
    kind = 'zip'

    def __init__(self, items):
        self.items = items


class StarV(Val):
    kind = 'star'

    def __init__(self, v):
        self.v = v


LV = ['$i', '$i1', '$i2', '$i3', '$i4']


def lvl_shift(mp):
    """substitution seen from inside one more list level"""
    up = {a: Poly.atom(b) for a, b in zip(LV, LV[1:])}
    out = {}
    for k, v in mp.items():
        if k in LV:
            k = LV[min(LV.index(k) + 1, 4)]
        out[k] = v.subs(up) if isinstance(v, Poly) else v
    return out


def lvl_drop(iv):
    mp = {a: Poly.atom(b) for a, b in zip(LV[1:], LV)}
    mp['$i'] = iv
    return mp


def name_load(t):
    x = ast.Name(id=t.id, ctx=ast.Load())
    x._mod = t._mod
    x.lineno, x.col_offset = t.lineno, t.col_offset
    return x


def flat_aid(a):
    if isinstance(a, tuple) and a and a[0] == 'join':
        return list(a[1:])
    return [a]


def unk_num(x):
    return Num(None, Grading({STAR: UNK}), real=False)


def const_complex(p):
    re, im = 0, 0
    for m, c in p.t.items():
        if m == ONE:
            re = float(c)
        elif m == (('I', 1),):
            im = float(c)
        else:
            return None
    return complex(re, im)


def deep_atoms(p):
    out = set()
    if not isinstance(p, Poly):
        return out
    for a in p.atoms():
        if isinstance(a, tuple):
            out.add(a)
            for x in a[1:]:
                if isinstance(x, Poly):
                    out |= deep_atoms(x)
        else:
            out.add(a)
    return out


def g_atoms(g):
    out = set()
    for u, e in g.d.items():
        if isinstance(e, Poly):
            out |= deep_atoms(e)
        if isinstance(u, tuple):
            for x in u[1:]:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            out |= deep_atoms(y)
    return out


def num_atoms(v):
    out = g_atoms(v.g)
    if v.val is not None:
        out |= deep_atoms(v.val)
    if v.log is not None:
        out |= g_atoms(v.log)
    if v.prov is not None:
        for (aid, idx, cj), (c, sgn) in v.prov:
            for i in idx:
                if isinstance(i, Poly):
                    out |= deep_atoms(i)
            out |= deep_atoms(sgn)
    return out


def arr_atoms(c):
    out = num_atoms(c.base)
    for x in c.cells:
        out |= num_atoms(x.elem)
        for i in x.idx:
            if isinstance(i, Poly):
                out |= deep_atoms(i)
    for s in c.shape or ():
        if s is not None:
            out |= deep_atoms(s)
    return out


# provenance: tuple of ((array version, idx, conj), (coefficient, sign exponent))
def prov_add(a, b):
    d = dict(a)
    for k, (c, s) in b:
        if k in d:
            if d[k][1] != s:
                return None
            d[k] = (d[k][0] + c, s)
        else:
            d[k] = (c, s)
    return tuple(sorted(((k, v) for k, v in d.items() if v[0] != 0), key=repr))


def prov_scale(p, c):
    if p is None:
        return None
    return tuple((k, (v * F(c), s)) for k, (v, s) in p)


def sgn_exp(e):
    """exponent of -1, modulo 2 (|x| and x have the same parity)"""
    for m, c in list(e.t.items()):
        for a, _ in m:
            if isinstance(a, tuple) and a[0] == 'abs':
                e = e.subs({a: a[1]})
    return reduce_exp(NEG, e)


def prov_sign(p, e):
    if p is None or not isinstance(e, Poly):
        return None
    return tuple((k, (v, sgn_exp(s + e))) for k, (v, s) in p)


def prov_conj(p):
    if p is None:
        return None
    return tuple(((a, i, not cj), v) for (a, i, cj), v in p)


def prov_subs(p, mp):
    return tuple(((a, tuple(i.subs(mp) if isinstance(i, Poly) else i for i in idx), cj),
                  (c, sgn_exp(s.subs(mp)))) for (a, idx, cj), (c, s) in p)
