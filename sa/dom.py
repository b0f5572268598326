"""Abstract values: graded scalars, graded arrays, containers, functions.

A *grading* maps units to exponents.  A unit is a string (physical unit, exact
integer/rational exponent) or a tuple whose head says how exponents are read:
  ('z2', name)   exponent modulo 2       (parity under a reflection)
  ('cls', atom)  exponent modulo 1       (square class of irrational constants)
  ('ph', angle)  exact exponent          (azimuthal phase e^{i k angle})
  ('sh', angle)  exact exponent          (Fourier degree in a half angle)
Exponents are Poly, UNK (not derivable: stays quiet) or Bad (provably mixed).
"""
from fractions import Fraction as F
from .poly import Poly, mk_op


class Unk:
    def __repr__(self):
        return '?'


UNK = Unk()


class Alt:
    """one of a few exponents, depending on the path taken.  Members are
    (exponent, facts of that path about index expressions)."""
    __slots__ = ('es',)

    def __init__(self, es):
        self.es = frozenset(es)

    def map(self, f):
        return alt((f(e), fs) for e, fs in self.es)

    def subs(self, mp):
        return alt((e.subs(mp), frozenset((p.subs(mp), sg) for p, sg in fs)) for e, fs in self.es)

    def __eq__(self, o):
        return isinstance(o, Alt) and self.es == o.es

    def __hash__(self):
        return hash(self.es)

    def __repr__(self):
        return 'ALT{%s}' % ', '.join(sorted(repr(e) for e, _ in self.es))


def alt(es):
    d = {}
    for e, fs in es:
        d[e] = (d[e] & fs) if e in d else fs
    if len(d) == 1:
        return next(iter(d))
    if len(d) > 3:
        return UNK
    es = sorted(d, key=repr)
    for i, a in enumerate(es):
        for b in es[:i]:
            # laws that differ by a constant differ everywhere; otherwise the
            # condition separating the paths has to be known
            if not (a - b).is_const() and not (d[a] and d[b]):
                return UNK
    return Alt(d.items())


def alt_unit(u):
    return isinstance(u, str) and u not in ('Yl', 'Ym', 'in-deg') or isinstance(u, tuple) and u[0] in ('ph', 'sh')


def eset(e, fs=frozenset()):
    if isinstance(e, Alt):
        return frozenset((x, f | fs) for x, f in e.es)
    return frozenset([(e, fs)])


class Bad:
    __slots__ = ('why', 'node')

    def __init__(self, why, node=None):
        self.why = why
        self.node = node

    def __repr__(self):
        return 'BAD(%s)' % self.why

    def __eq__(self, o):
        return isinstance(o, Bad)

    def __hash__(self):
        return 7


def modulus(u):
    if isinstance(u, tuple):
        return {'z2': 2, 'cls': 1}.get(u[0])
    return None


def reduce_exp(u, e):
    m = modulus(u)
    if m is None or not isinstance(e, Poly):
        return e
    t = {}
    for mono, c in e.t.items():
        if m == 2:
            # parity of an integer symbol: s^k = s ; x^-1 stays
            mono = tuple((a, 1) if k > 0 else (a, k) for a, k in mono)
        t[mono] = t.get(mono, F(0)) + c
    out = {}
    for mono, c in t.items():
        c = c % m
        if c:
            out[mono] = c
    return Poly(out)


# the unit of every unit: all exponents unknown
STAR = ('*', '*')


class Grading:
    __slots__ = ('d', 'h')

    def __init__(self, d=None):
        if d and STAR in d:
            self.d = {u: e for u, e in d.items() if u == STAR or isinstance(e, Bad)}
        else:
            self.d = {u: e for u, e in (d or {}).items()
                      if not (isinstance(e, Poly) and e.is_zero())}
        self.h = None

    def get(self, u):
        e = self.d.get(u)
        return e if e is not None else UNK if STAR in self.d else Poly()

    def mul(self, o, k=1):
        """self * o**k"""
        if STAR in self.d or STAR in o.d:
            return Grading({STAR: UNK, **{u: e for g in (o, self) for u, e in g.d.items() if isinstance(e, Bad)}})
        d = dict(self.d)
        for u, e in o.d.items():
            if isinstance(e, Poly):
                e = e * k if k != 1 else e
            b = d.get(u, Poly())
            if isinstance(b, Bad):
                pass
            elif isinstance(e, Bad):
                d[u] = e
            elif b is UNK or e is UNK:
                d[u] = UNK
            elif isinstance(e, Alt):
                # e of the right operand is not scaled yet
                d[u] = e.map(lambda x: b + x * k) if isinstance(b, Poly) else UNK
            elif isinstance(b, Alt):
                d[u] = b.map(lambda x: x + e)
            else:
                d[u] = b + e
        return Grading(d)

    def pow(self, p):
        p = Poly.of(p)
        if p.is_zero():
            return Grading()
        return Grading({u: (e * p if isinstance(e, Poly) else e.map(lambda x: x * p) if isinstance(e, Alt) else e)
                        for u, e in self.d.items()})

    def subs(self, mp):
        return Grading({u: (e.subs(mp) if isinstance(e, Poly) else
                            e.subs(mp) if isinstance(e, Alt) else e)
                        for u, e in self.d.items()})

    def reduced(self):
        return Grading({u: reduce_exp(u, e) for u, e in self.d.items()})

    def only(self, pred):
        return Grading({u: e for u, e in self.d.items() if u == STAR or pred(u)})

    def __eq__(self, o):
        return isinstance(o, Grading) and self.d == o.d

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __repr__(self):
        if not self.d:
            return '1'
        return ' '.join('%s^{%r}' % (u if isinstance(u, str) else ':'.join(map(str, u)), e)
                        for u, e in sorted(self.d.items(), key=lambda p: str(p[0])))


ONEG = Grading()
CLSUNK = ('cls', '*')


def join_exp(u, a, b):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is UNK or b is UNK:
        return UNK
    if a == b:
        return a
    if isinstance(a, Alt) or isinstance(b, Alt):
        return UNK
    if modulus(u) is not None:
        ra, rb = reduce_exp(u, a), reduce_exp(u, b)
        if ra == rb:
            return ra
    return UNK


def join_g(a, b, eqs=None):
    """eqs: (equalities holding on a's path, on b's path) for a join of paths"""
    d = {}
    for u in set(a.d) | set(b.d):
        x, y = a.get(u), b.get(u)
        if eqs is not None and x != y and alt_unit(u) and isinstance(x, (Poly, Alt)) and isinstance(y, (Poly, Alt)):
            if eqs[0] and isinstance(x, Poly) and isinstance(y, Poly) and y.subs(eqs[0]) == x.subs(eqs[0]):
                d[u] = y
            elif eqs[1] and isinstance(x, Poly) and isinstance(y, Poly) and x.subs(eqs[1]) == y.subs(eqs[1]):
                d[u] = x
            else:
                d[u] = alt(eset(x, eqs[2]) | eset(y, eqs[3]))
        else:
            d[u] = join_exp(u, x, y)
    return Grading(d)


SIGNS_ALL = frozenset('-0+')
SP, SN, SZ = frozenset('+'), frozenset('-'), frozenset('0')
SNN, SNP, SNZ = frozenset('0+'), frozenset('0-'), frozenset('-+')


def sg_mul(a, b):
    out = set()
    for x in a:
        for y in b:
            out.add('0' if '0' in (x, y) else ('+' if x == y else '-'))
    return frozenset(out)


def sg_add(a, b):
    out = set()
    for x in a:
        for y in b:
            if x == '0':
                out.add(y)
            elif y == '0' or x == y:
                out.add(x)
            else:
                out |= set('-0+')
    return frozenset(out)


def sg_neg(a):
    return frozenset({'-': '+', '+': '-', '0': '0'}[x] for x in a)


class Val:
    kind = 'val'
    undef = False


class Top(Val):
    kind = 'top'

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


TOP = Top()


class Num(Val):
    """scalar.  zero=True : the additive identity, compatible with any grading"""
    kind = 'num'
    __slots__ = ('val', 'g', 'zero', 'log', 'sg', 'prov', 'real', 'integer', 'dep', 'tag', 'pf', 'facts')

    def __init__(self, val=None, g=None, zero=False, log=None, sg=SIGNS_ALL,
                 prov=None, real=True, integer=False, dep=frozenset(), tag=None, pf=None, facts=frozenset()):
        self.val = val
        self.g = g if g is not None else ONEG
        self.zero = zero
        self.log = log
        self.sg = sg
        self.prov = prov
        self.real = real
        self.integer = integer
        self.dep = dep
        self.tag = tag
        self.pf = pf
        self.facts = facts      # index conditions under which the value was stored

    def rep(self, **kw):
        n = Num(self.val, self.g, self.zero, self.log, self.sg, self.prov,
                self.real, self.integer, self.dep, self.tag, self.pf, self.facts)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        return ('num', self.val, self.g, self.zero, self.log, self.sg,
                self.prov, self.real, self.dep, self.tag, self.pf, self.facts)

    def __repr__(self):
        return 'Num(%s%s g=%r%s)' % ('0 ' if self.zero else '',
                                     self.val, self.g,
                                     ' log=%r' % self.log if self.log else '')


class Str(Val):
    kind = 'str'

    def __init__(self, s=None, tag=None):
        self.s = s
        self.tag = tag

    def key(self):
        return ('str', self.s, self.tag)

    def __repr__(self):
        return 'Str(%r)' % self.s


class NoneV(Val):
    kind = 'none'

    def key(self):
        return ('none',)

    def __repr__(self):
        return 'None'


NONE = NoneV()


class BoolV(Val):
    """b: True/False/None(unknown); cond: (poly, op) facts when unknown"""
    kind = 'bool'

    def __init__(self, b=None, pos=(), neg=(), dep=frozenset()):
        self.b = b
        self.pos = pos      # facts (poly, signset) implied when true
        self.neg = neg
        self.dep = dep

    def key(self):
        return ('bool', self.b)

    def __repr__(self):
        return 'Bool(%s)' % self.b


class Seq(Val):
    """tuple / list with known elements"""
    kind = 'seq'

    def __init__(self, items, mutable=False):
        self.items = list(items)
        self.mutable = mutable

    def key(self):
        return ('seq', self.mutable, tuple(vkey(i) for i in self.items))

    def __repr__(self):
        return 'Seq%r' % (self.items,)


class ListV(Val):
    """homogeneous list with unknown/symbolic length; elem is a joined value
    which may mention the placeholder $0 (its index)."""
    kind = 'list'

    def __init__(self, elem=None, length=None, root=None):
        self.elem = elem
        self.length = length
        self.root = root or frozenset()
        self.over = ()          # ((index Poly, value), ...): elements replaced since

    def key(self):
        return ('list', vkey(self.elem) if self.elem is not None else None, self.length,
                tuple((i, vkey(v)) for i, v in self.over))

    def __repr__(self):
        return 'List(%r)[%r]' % (self.elem, self.length)


class DictV(Val):
    kind = 'dict'

    def __init__(self, d=None):
        self.d = d or {}

    def key(self):
        return ('dict', tuple(sorted((k, vkey(v)) for k, v in self.d.items())))


class FuncV(Val):
    kind = 'func'

    def __init__(self, name, node=None, module=None, env=None, builtin=None, bound=None):
        self.name, self.node, self.module = name, node, module
        self.env = env
        self.builtin = builtin
        self.bound = bound

    def key(self):
        return ('func', self.name)

    def __repr__(self):
        return 'Func(%s)' % self.name


class ModV(Val):
    kind = 'mod'

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('mod', self.name)

    def __repr__(self):
        return 'Mod(%s)' % self.name


class ClassV(Val):
    kind = 'class'

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module

    def key(self):
        return ('class', self.name)


class ObjV(Val):
    """reference to a heap object (attributes live in the state)"""
    kind = 'obj'

    def __init__(self, oid, cls=None):
        self.oid = oid
        self.cls = cls

    def key(self):
        return ('obj', self.oid)

    def __repr__(self):
        return 'Obj(%s)' % (self.oid,)


class ArrV(Val):
    """reference to array contents in the state's store, through a view.
    Contents: ArrC.  roots: memory identities this value may share."""
    kind = 'arr'

    def __init__(self, aid):
        self.aid = aid

    def key(self):
        return ('arr', self.aid)

    def __repr__(self):
        return 'Arr(%s)' % (self.aid,)


def vkey(v):
    if v is None:
        return None
    k = getattr(v, 'key', None)
    return k() if k else ('top',)


ALL = ('all',)


class Cell:
    """one abstract store: positions idx (per axis: Poly | ALL | ('rg',lo,hi))
    holding elem; node is the statement that produced it"""
    __slots__ = ('idx', 'elem', 'node')

    def __init__(self, idx, elem, node=None):
        self.idx = tuple(idx)
        self.elem = elem
        self.node = node

    def key(self):
        return (self.idx, self.elem.key())

    def __repr__(self):
        return '%r:=%r' % (list(self.idx), self.elem)


class ArrC:
    """array contents: shape (tuple of Poly/None), base element, cells"""
    __slots__ = ('shape', 'base', 'cells', 'dtype', 'roots', 'fresh', 'meta')

    def __init__(self, shape, base, cells=(), dtype=None, roots=frozenset(), meta=None):
        self.shape = tuple(shape) if shape is not None else None
        self.base = base
        self.cells = list(cells)
        self.dtype = dtype
        self.roots = roots
        self.meta = meta or {}

    def copy(self, **kw):
        a = ArrC(self.shape, self.base, self.cells, self.dtype, self.roots, dict(self.meta))
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    def key(self):
        return (self.shape, self.base.key(), tuple(sorted((c.key() for c in self.cells), key=repr)),
                self.dtype, tuple(sorted(self.roots)))

    def __repr__(self):
        return 'ArrC(shape=%r base=%r cells=%r)' % (self.shape, self.base, self.cells)
