"""C16 translations of moments: the value terms of the translated moments, of the
coaxial matrices and of their application, at fixed degrees and orders, compared
with the addition theorems of the solid harmonics."""
import ast
from math import factorial as fa
from fractions import Fraction as F
from .ops import *
from .forces import (Fam, LM, AX, moments_val, at_pos, turn_summary, shift_summary, vals, consts)
from ..algebra import Opaque, Env, Domain, differ_all, mk_op_array, is_zero, nand_of, path_env
from ..concrete import Concrete, equal, sincos, power, reduce, sqrt_of
from ..solids import root
from .exact import racah, holds_at

IU = Poly.atom('I')
PI = Poly.atom('pi')
TR, RO, CG = 'newt.translationRecurs.', 'newt.rotations.', 'newt.translations.'


def cg_term(I, args, kw, n, st):
    v = vals(args)
    return Num(Poly.atom(('el', 'cg') + v) if v and len(v) == 6 and not kw else None, Grading())


class Moved(Concrete):
    """coupling coefficients are numbers; moments are those of a real density;
    matrices of coaxial translations are real"""
    real = ()

    def atom(self, a):
        if a[0] == 'el' and a[1] == 'cg':
            return racah(*[self.integer(x) for x in a[2:]])
        if a[0] == 'conj':
            q = self(a[1])
            if q.is_const():
                return q
            if len(q.t) == 1:
                (mono, c), = q.t.items()
                if len(mono) == 1 and mono[0][1] == 1 and isinstance(mono[0][0], tuple) and mono[0][0][0] == 'el':
                    e = mono[0][0]
                    if e[1] in ('q', 'Q') and self.real != 'none':
                        m = e[3]
                        return Poly.atom(e[:3] + (-m,)).scale(c * (-1) ** int(m.cval()))
                    if e[1] in self.real:
                        return q
                    return Poly.atom(('conj', Poly.atom(e))).scale(c)
        return Concrete.atom(self, a)


def linear(p, name):
    """{(l, m): coefficient} of a combination of the elements of an array"""
    out = {}
    for mono, c in p.t.items():
        es = [(a, e) for a, e in mono if isinstance(a, tuple) and a[0] == 'el' and a[1] == name]
        if len(es) != 1 or es[0][1] != 1 or not all(i.is_const() for i in es[0][0][2:]):
            raise Opaque
        k = tuple(int(i.cval()) for i in es[0][0][2:])
        out[k] = out.get(k, Poly()) + Poly({tuple(x for x in mono if x[0] != es[0][0]): c})
    return out


def ylm(l, m, d, conj=False):
    y = Poly.atom(('ylm', Poly.const(-m if conj else m), Poly.const(l)) + d)
    return y.scale((-1) ** m) if conj else y


def addition(kind, L, M, l, m, r, d):
    """coefficient of the moment (l, m) in the translated moment (L, M)"""
    if kind == 'qq':
        k, u = L - l, M - m
        if k < 0 or abs(u) > k:
            return Poly()
        f = root(F((2 * L + 1) * fa(L + M) * fa(L - M), (2 * l + 1) * (2 * k + 1) * fa(l + m) * fa(l - m) * fa(k + u) * fa(k - u)))
        return f * root_pi(2) * power(r, k) * ylm(k, u, d, True)
    if kind == 'QQ':
        k, u = l - L, m - M
        if k < 0 or abs(u) > k:
            return Poly()
        # N_lm = sqrt(4 pi/(2l+1)) sqrt((l+m)! (l-m)!)
        f = root(F((2 * L + 1) * fa(l + m) * fa(l - m), (2 * l + 1) * fa(L + M) * fa(L - M)))
        g = root(F(1, (2 * k + 1) * fa(k + u) * fa(k - u)))
        return (f * g * root_pi(2) * power(r, k) * ylm(k, u, d, True)).scale((-1) ** k)
    k, u = L + l, M + m
    f = root(F((2 * L + 1), fa(L + M) * fa(L - M))) * root(F(1, (2 * l + 1) * fa(l + m) * fa(l - m)))
    g = root(F(fa(k + u) * fa(k - u), 2 * k + 1))
    return (f * g * root_pi(2) * power(r, -k - 1) * ylm(k, u, d)).scale((-1) ** l)


def root_pi(c):
    """c sqrt(pi)"""
    return Poly.atom(('sqrt', PI)).scale(c)


def direction(t):
    r = Poly.atom(('sqrt', sum((x * x for x in t), Poly())))
    return r, (Poly.atom(('arctan2', t[1], t[0])), Poly.atom(('arccos', t[2] * r.inv())))


def cells_at(I, s, v, top, rows=None):
    """[(l, m, element)] of a returned moment array, degree limit at least top"""
    s = s.copy()
    s.add_fact(LM - top, SNN)
    for l in range(top + 1) if rows is None else rows:
        for m in range(-l, l + 1):
            yield l, m, at_pos(I, s, v, Poly.const(l), LM + m)


def fixed_moments(st, name, Lv):
    """moments of a given degree limit"""
    aid = ('arg', name)
    e = Num(Poly.atom(('el', name, D0, D1 - Lv)), Grading(), real=False)
    st.store[aid] = ArrC((Poly.const(Lv + 1), Poly.const(2 * Lv + 1)), e, [], 'complex', frozenset([aid]))
    return ArrV(aid)


def engine(Lv=None):
    """the interpreter, for any degree limit or for a given one (loops run)"""
    I = fresh()
    I.alg = I.exact = True
    I.complexes = Fam('q', 'Q', 'E')
    if Lv is not None:
        I.unroll = 4 * Lv + 6
        I.np_unroll = True
    return I


def literals(I):
    """integers above the usual degrees that the analysed functions mention"""
    out = set()
    for fn in I.fvis.values():
        for n in ast.walk(fn):
            if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= n.value <= 24:
                out.add(n.value)
    return sorted(out)[:4]


def limits(I, Lv):
    """[(degree limit, rows)]: the low degrees, and those around any integer
    the functions compare degrees with"""
    yield Lv, range(Lv + 1)
    for c in literals(I):
        yield c + 2, [x for x in (0, 1, c - 1, c, c + 1, c + 2)]


def at_limit(facts, Lv):
    """the facts where the degree limit is Lv"""
    return [(p.subs({'Lm': Poly.const(Lv)}) if nand_of(p) is None else p, sg) for p, sg in facts]


def feasible(facts):
    """no fact is false whatever the inputs are"""
    for p, sg in facts:
        if nand_of(p) is None and p.is_const():
            c = p.cval()
            if ('0' if not c else '+' if c > 0 else '-') not in sg:
                return False
    return True


def real_moments(env, l, m):
    x = env.base(('qre', l, abs(m)))
    y = env.base(('qim', l, abs(m))) if m else 0
    return complex(x, y) if m >= 0 else complex(x, -y) * (-1) ** m


class At(Domain):
    """sampling at fixed integers"""

    def __init__(self, ints, els=None):
        Domain.__init__(self, None, (), els=els)
        self.fixed = ints

    def kw(self, seed, polys):
        return {'ints': dict(self.fixed), 'complexes': (), 'fun': None, 'els': self.els}


def compare(I, rep, rule, nm, e, want, names, con, s, facts, node, els=None):
    """one derived element against a combination of the elements given"""
    if e is None or e.val is None:
        return 'value not derivable'
    Lv = con.ints['Lm']
    try:
        got, ref = con(e.val), con(want)
        p, q = linear(got, names), linear(ref, names)
        if all(equal(p.get(k, Poly()), q.get(k, Poly()), Poly.const(1)) for k in set(p) | set(q)):
            return None
    except (Opaque, ZeroDivisionError, KeyError):
        pass
    kw = {'q': real_moments, 'Q': real_moments, 'cg': lambda env, *a: racah_value(*a)}
    kw.update(els or {})
    d = differ_all(e.val, [want], lambda env: [0], ('dr',), facts, At(con.ints, kw))
    if d is None:
        return 'equality of the terms not shown'
    return (d, I.where(node))


def racah_value(*a):
    p = racah(*a)
    return Env(0).val(p)


def put(rep, rule, nm, res, n):
    """res: list of None | reason | (difference, where)"""
    bad = [r for r in res if isinstance(r, tuple)]
    und = [r for r in res if isinstance(r, str)]
    if bad:
        rep.bad(rule, nm, bad[0][0], bad[0][1])
    elif und:
        rep.und(rule, nm, und[0])
    else:
        rep.ok(rule, nm, '%d elements' % n)


def coupled(rep, qual, kind, Lv):
    """translations by coupling coefficients"""
    cg_names = ('newt.clebschGordan.cgCoeff', 'newt.clebschGordan.cgCoeff2')
    name = kind[0]
    t = [Poly.atom('t.' + x) for x in AX]
    r, d = direction(t)

    def law(L, M, lim, still):
        if still:
            return el(name, L, M)
        want = Poly()
        for l in range(lim + 1):
            for m in range(-l, l + 1):
                a = addition(kind, L, M, l, m, r, d)
                if not a.is_zero():
                    want = want + a * el(name, l, m)
        return want

    def outcomes(lim):
        I = engine(lim)
        for x in cg_names:
            I.overrides[x] = cg_term
        st = State()
        q = moments_val(st, I, name, name == 'Q', 'M') if lim is None else fixed_moments(st, name, lim)
        return I, run(I, rep, qual, [q, vec3(st, I, 't')], st)
    # the loops run for a given degree limit
    I, outs = outcomes(Lv)
    for k, s, v, node in outs:
        nm = '%s.path%d' % (short(qual), k)
        facts = list(s.facts.items())
        if not isinstance(v, ArrV):
            rep.und('moment', nm, 'returns %s' % v.kind)
            continue
        still = I.sign(r, s) == SZ
        con = Moved({'Lm': Lv})
        for L in range(Lv + 1):
            res = [compare(I, rep, 'moment', nm, at_pos(I, s, v, Poly.const(L), Poly.const(Lv + M)), law(L, M, Lv, still),
                           name, con, s, facts, node) for M in range(-L, L + 1)]
            put(rep, 'moment', '%s.l%d' % (nm, L), res, len(res))
    # for any degree limit: values at degrees around those the code mentions
    I, outs = outcomes(None)
    for k, s, v, node in outs:
        nm = '%s.any.path%d' % (short(qual), k)
        if not isinstance(v, ArrV):
            continue
        still = I.sign(r, s) == SZ
        for lim, which in list(limits(I, 4))[1:]:
            facts = at_limit(s.facts.items(), lim)
            if not feasible(facts):
                continue
            s1 = s.copy()
            s1.add_fact(LM - lim, SNN)
            for L in which[-3:]:
                for M in (0, 1, -L):
                    e = at_pos(I, s1, v, Poly.const(L), LM + M)
                    if e is None or e.val is None:
                        continue
                    els = {'q': real_moments, 'Q': real_moments, 'cg': lambda env, *a: racah_value(*a)}
                    df = differ_all(e.val, [law(L, M, lim, still)], lambda env: [0], (), facts, At({'Lm': lim}, els))
                    if df:
                        rep.bad('moment', '%s.L%d.l%d' % (nm, lim, L), df, I.where(node))


# ------------------------------------------------------ coaxial translation
def coaxial(kind, L, l, m, dr):
    """element of the matrix of order m taking degree l to degree L"""
    w = root(F(2 * L + 1, 2 * l + 1))
    if kind == 'RR':
        k = L - l
        if k < 0:
            return Poly()
        return w * root(F(fa(L + m) * fa(L - m), fa(l + m) * fa(l - m))) * power(dr, k).scale(F(1, fa(k)))
    if kind == 'SS':
        k = l - L
        if k < 0:
            return Poly()
        return w * root(F(fa(l + m) * fa(l - m), fa(L + m) * fa(L - m))) * power(dr, k).scale(F((-1) ** k, fa(k)))
    return w * root(F(1, fa(L + m) * fa(L - m) * fa(l + m) * fa(l - m))) * power(dr, -L - l - 1).scale((-1) ** l * fa(L + l))


def item(I, s, v, k):
    """array number k of a list of arrays"""
    if isinstance(v, Seq):
        v = v.items[k] if k < len(v.items) else None
    elif isinstance(v, ListV):
        at = [x for i, x in v.over if isinstance(i, Poly) and i == Poly.const(k)]
        v = at[0] if at else v.elem if not v.over or all(i.is_const() for i, _ in v.over) else None
    return v if isinstance(v, ArrV) else None


def matrices(rep, kind, Lv):
    qual = TR + 'transl_newt_z_' + kind
    x = Poly.atom('dr')

    def outcomes(lim):
        I = engine(lim)
        n = deg_arg(I) if lim is None else I.num(lim)
        return I, run(I, rep, qual, [n, Num(x, Grading({'L': P1}), sg=SP)], State())
    open_ = set()

    def block(I, s, v, node, facts, lim, which, m):
        con = Moved({'Lm': lim, '$i': m}, {'dr'}, lambda p: I.sign(p, s))
        a = item(I, s, v, m)
        c = s.store[a.aid] if a is not None else None
        res = []
        for L in which:
            for l in which:
                if min(L, l) >= m:
                    e = I.np.at(c, (Poly.const(L - m), Poly.const(l - m)), s) if c is not None and c.ndim == 2 else None
                    res.append(compare_value(I, e, coaxial(kind, L, l, m, x), con, facts, node))
        return res
    I, outs = outcomes(None)
    for k, s, v, node in outs:
        nm = '%s.path%d' % (short(qual), k)
        for lim, which in limits(I, Lv):
            facts = at_limit(s.facts.items(), lim) + [(x, SP)]
            if not feasible(facts):
                continue
            s1 = s.copy()
            s1.add_fact(LM - lim, SNN)
            s1.add_fact(x, SP)
            for m in which:
                res = block(I, s1, v, node, facts, lim, which, m)
                if any(isinstance(y, str) for y in res) and not any(isinstance(y, tuple) for y in res):
                    open_.add((lim, m))
                    continue
                put(rep, 'coaxial', '%s.%sm%d' % (nm, '' if lim == Lv else 'L%d.' % lim, m), res, len(res))
    for lim in sorted({y for y, _ in open_}):
        I, outs = outcomes(lim)
        for k, s, v, node in outs:
            s1 = s.copy()
            s1.add_fact(x, SP)
            for m in sorted(z for y, z in open_ if y == lim):
                res = block(I, s1, v, node, list(s.facts.items()) + [(x, SP)], lim, range(lim + 1), m)
                put(rep, 'coaxial', '%s.L%d.path%d.m%d' % (short(qual), lim, k, m), res, len(res))


def compare_value(I, e, want, con, facts, node, pos=('dr',)):
    if e is None or e.val is None:
        return 'value not derivable'
    try:
        if equal(con(e.val), con(want), Poly.const(1)):
            return None
    except (Opaque, ZeroDivisionError, KeyError):
        pass
    d = differ_all(e.val, [want], lambda env: [0], pos, facts, At(con.ints))
    if d is None:
        return 'equality of the terms not shown'
    return (d, I.where(node))


# -------------------------------------------------- products with matrices
def product(rep, rule, qual, Lv, args, rowsize, want, deg0=False, angles=()):
    """the array returned is the stated product for every (l, m)"""
    i = Poly.atom('$i')
    aid = ('arg', 'E')
    flag = args[-1]

    def outcomes(lim):
        I = engine(lim)
        st = State()
        n = LM if lim is None else Poly.const(lim)
        size = rowsize(i, n)
        st.store[aid] = ArrC((size, size), Num(Poly.atom(('el', 'E', i, D0, D1)), Grading(), real=False),
                             [], 'complex', frozenset([aid]))
        q = moments_val(st, I, 'q', False, 'M') if lim is None else fixed_moments(st, 'q', lim)
        rest = [ListV(ArrV(aid), n + 1, frozenset([aid])), BoolV(flag)]
        if angles:
            want_args = tuple(Poly.atom(x) for x in angles)
            rest = [ang(I, x) for x in angles]

            def made(I, a, kw, nd, s2):
                v = vals(a)
                if kw or v is None or len(v) != 4 or v[1:] != want_args or '-' in I.sign(v[0] - n, s2):
                    return TOP
                return ListV(ArrV(aid), v[0] + 1, frozenset([aid]))
            I.overrides[RO + 'wignerDl'] = made
        return I, run(I, rep, qual, [q] + rest, st)

    def row(I, s, v, node, facts, lim, L, at):
        con = Moved({'Lm': lim})
        con.real = args[0]
        return [product_value(I, at(L, M), want(L, M, lim), con, facts, node, deg0) for M in range(-L, L + 1)]
    open_, top = set(), Lv
    I, outs = outcomes(None)
    for k, s, v, node in outs:
        nm = '%s.%s.path%d' % (short(qual), 'flag' if flag else 'plain', k)
        for lim, which in limits(I, Lv):
            facts = at_limit(s.facts.items(), lim)
            if not feasible(facts):
                continue
            s1 = s.copy()
            s1.add_fact(LM - lim, SNN)
            at = lambda L, M: at_pos(I, s1, v, Poly.const(L), LM + M)
            for L in which:
                res = row(I, s, v, node, facts, lim, L, at)
                if any(isinstance(x, str) for x in res) and not any(isinstance(x, tuple) for x in res):
                    open_.add((lim, L))
                    continue
                put(rep, rule, '%s.%sl%d' % (nm, '' if lim == Lv else 'L%d.' % lim, L), res, len(res))
    # where the general term is not derivable: that degree limit
    for lim in sorted({x for x, _ in open_}):
        I, outs = outcomes(lim)
        for k, s, v, node in outs:
            nm = '%s.%s.L%d.path%d' % (short(qual), 'flag' if flag else 'plain', lim, k)
            for L in sorted(y for x, y in open_ if x == lim):
                res = row(I, s, v, node, list(s.facts.items()), lim, L,
                          lambda L, M: at_pos(I, s, v, Poly.const(L), Poly.const(lim + M)))
                put(rep, rule, '%s.l%d' % (nm, L), res, len(res))


def product_value(I, e, want, con, facts, node, deg0):
    if e is None or e.val is None:
        return 'value not derivable'
    one = {('el', 'E', Poly(), Poly(), Poly()): Poly.const(1)} if deg0 else {}
    con.zeros = dict(one)
    try:
        got, ref = con(e.val), con(want)
        if got == ref:
            return None
    except (Opaque, KeyError, ZeroDivisionError):
        got = None
    rnd = lambda env, *a: (1 if deg0 and not any(a) else
                           complex(env.base(('Ere',) + a), 0 if con.real else env.base(('Eim',) + a)))
    qv = lambda env, l, m: complex(env.base(('qre', l, m)), env.base(('qim', l, m)))
    d = differ_all(e.val, [want], lambda env: [0], (), facts, At(con.ints, {'E': rnd, 'q': qv}))
    if d is None:
        return 'equality of the terms not shown'
    return (d, I.where(node))


def el(*a):
    return Poly.atom(('el',) + tuple(Poly.const(x) if isinstance(x, int) else x for x in a))


def conj(p):
    return Poly.atom(('conj', p))


def shift_products(rep, Lv):
    """coaxial matrices are applied to every order, from the left or the right"""
    for f, right in (('apply_trans_mat', False), ('apply_trans_mat_right', True)):
        for q2Q in (False, True):
            def want(L, M, Lv):
                M = -M if q2Q else M
                k = abs(M)
                out = Poly()
                for l in range(k, Lv + 1):
                    a = (l - k, L - k) if right else (L - k, l - k)
                    out = out + el('E', k, *a) * el('q', l, M)
                return out
            product(rep, 'product', TR + f, Lv, ('E', q2Q), lambda i, n: n + 1 - i, want)


def turn_products(rep, Lv):
    """rotation matrices are applied to every degree"""
    for f, right in (('rotate_qlm_Ds', False), ('rotate_qlm_Ds_right', True), ('rotate_qlm', False)):
        for ct in (False, True)[:1 if f == 'rotate_qlm' else 2]:
            def want(L, M, Lv):
                out = Poly()
                for m in range(-L, L + 1):
                    a, b = L + M, L + m
                    if right:
                        a, b = b, a
                    x = conj(el('E', L, b, a)) if ct else el('E', L, a, b)
                    if L == 0:
                        x = Poly.const(1)
                    out = out + x * el('q', L, m)
                return out
            product(rep, 'product', RO + f, Lv, ((), ct), lambda i, n: i.scale(2) + 1, want, True,
                    ('al', 'be', 'ga') if f == 'rotate_qlm' else ())


# --------------------------------------------------- turn, shift, turn back
def left_summary(kind, flag):
    """the array after the application of matrices from the left"""
    def f(I, args, kw, n, st):
        args = list(args) + ([kw[flag]] if flag in kw else [])
        if len(args) not in (2, 3) or set(kw) - {flag} or not isinstance(args[0], ArrV) or not isinstance(args[1], ListV):
            return TOP
        on = args[2].b if len(args) == 3 and isinstance(args[2], BoolV) else False if len(args) == 2 else None
        arr = args[1].elem
        op = st.store[arr.aid].meta.get('op') if isinstance(arr, ArrV) and arr.aid in st.store else None
        c = st.store[args[0].aid]
        if on is None or op is None or not op[0].startswith(kind) or c.ndim != 2 or c.base.val is None or c.cells:
            return TOP
        e = Num(mk_op_array(op[0], op[1:] + (Poly.const(int(on)),), c.base.val), real=False)
        return I.new_arr(ArrC(c.shape, e, [], 'complex'), st, n, hint=('op', n.lineno, n.col_offset))
    return f


def chain_of(p, name):
    """operations from the first to the last, or None"""
    out = []
    while True:
        if len(p.t) != 1:
            return None
        (mono, c), = p.t.items()
        if c != 1 or len(mono) != 1 or mono[0][1] != 1 or not isinstance(mono[0][0], tuple):
            return None
        a = mono[0][0]
        if a[0] == 'el':
            return out[::-1] if a[1] == name else None
        if a[0] != 'op':
            return None
        out.append((a[1], a[2:-4]))
        p = a[-4]


def spin(axis, cs):
    s, c = cs
    if axis == 'z':
        return [[c, -s, P0], [s, c, P0], [P0, P0, P1]]
    return [[c, P0, s], [P0, P1, P0], [-s, P0, c]]


def mmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), Poly()) for j in range(3)] for i in range(3)]


def turning(params, outer):
    """rotation of the masses when the moments are turned by these angles"""
    al, be, ga, back = params
    if not back.is_const():
        raise Opaque
    sg = -1 if outer else 1
    ang_ = [(al.scale(sg), 'z'), (be, 'y'), (ga.scale(sg), 'z')]
    if back.cval():
        ang_ = [(-x, ax) for x, ax in ang_[::-1]]
    R = None
    for x, ax in ang_:
        m = spin(ax, sincos(x, ()))
        R = m if R is None else mmul(R, m)
    return [[reduce(x) for x in row] for row in R]


def motion(rep, qual, kind, Lv):
    """translations by turning the displacement into the axis"""
    I = fresh()
    I.alg = True
    I.complexes = Fam('q', 'Q')
    st = State()
    I.overrides[RO + 'wignerDl'] = turn_summary
    I.overrides[RO + 'rotate_qlm_Ds'] = left_summary('turn', 'conj_trans')
    I.overrides[TR + 'apply_trans_mat'] = left_summary('shift', 'q2Q')
    for k in ('RR', 'SR', 'SS'):
        I.overrides[TR + 'transl_newt_z_' + k] = shift_summary(k)
    name = kind[0]
    t = [Poly.atom('t.' + x) for x in AX]
    r, _ = direction(t)
    args = [moments_val(st, I, name, name == 'Q', 'M'), vec3(st, I, 't')]
    l, m = Poly.atom('l@'), Poly.atom('m@')
    I.syms.get('l@', [P0], [LM])
    I.syms.get('m@', [-l], [l])
    for k, s, v, node in run(I, rep, qual, args, st):
        nm = '%s.path%d' % (short(qual), k)
        e = at_pos(I, s, v, l, LM + m)
        ch = chain_of(e.val, name) if e is not None and e.val is not None else None
        if ch is None:
            rep.und('motion', nm, 'operations not derivable')
            continue
        sub = {}
        if I.sign(r, s) == SZ:
            sub = {'t.x': P0, 't.y': P0, 't.z': P0}
        elif I.sign(r - t[2], s) == SZ:
            sub = {'t.x': P0, 't.y': P0}
        elif I.sign(t[0], s) == SZ and I.sign(t[1], s) == SZ and I.sign(t[2], s) in (SP, SN):
            sub = {'t.x': P0, 't.y': P0}
        good, why = follow(I, s, ch, kind, t, r, sub)
        if good:
            rep.ok('motion', nm, '%d operations' % len(ch))
        elif good is False:
            rep.bad('motion', nm, why, I.where(node))
        else:
            rep.und('motion', nm, why)


def follow(I, s, ch, kind, t, r, sub):
    """do the operations move the masses by the displacement t and nothing else?"""
    shift = 'shift' + {'qq': 'RR', 'QQ': 'SS', 'qQ': 'SR'}[kind]
    sh = [o for o in ch if o[0].startswith('shift')]
    still = len(sub) == 3
    if still and not sh:
        goal = []
    elif len(sh) != 1 or sh[0][0] != shift or sh[0][1][1].cval() != (kind == 'qQ'):
        return False, 'the operations %s are not one translation of this kind' % ', '.join(o[0] for o in ch)
    R = [[P1 if i == j else P0 for j in range(3)] for i in range(3)]
    outer = kind[0] == 'Q'
    conds = []
    try:
        for nm, ps in ch:
            ps = tuple(p.subs(sub) for p in ps)
            if nm == 'turn':
                R = mmul(turning(ps, outer), R)
                R = [[reduce(x) for x in row] for row in R]
            else:
                tv = [x.subs(sub) for x in t]
                at = [sum((R[i][j] * tv[j] for j in range(3)), Poly()) for i in range(3)]
                conds += [(at[0], P0), (at[1], P0), (at[2], ps[0])]
                outer = kind[1] == 'Q'
    except Opaque:
        return None, 'angles not followed'
    conds += [(R[i][j], P1 if i == j else P0) for i in range(3) for j in range(3)]
    pos = {'t.z'} if len(sub) == 2 else set()

    def same(x, y):
        if len(sub) == 2:           # on the axis r is z
            z = Poly.atom('t.z')
            z = -z if I.sign(z, s) == SN else z
            x, y = [p.subs({a: z for a in p.atoms() if a == ('sqrt', Poly.atom('t.z') * Poly.atom('t.z'))})
                    for p in (x, y)]
        return equal(x, y, Poly.const(1))
    try:
        if all(same(x, y) for x, y in conds):
            return True, ''
    except (Opaque, ZeroDivisionError):
        pass
    facts = [(t[2], SN if I.sign(t[2], s) == SN else SP)] if len(sub) == 2 else [] if sub else s.facts.items()
    for x, y in conds:
        d = differ_all(x, [y], lambda env: [0], (), facts, Domain(None))
        if d is not None:
            return False, 'the turned displacement or the turn back is wrong: %s' % d
    return None, 'alignment with the axis not shown'


def short(q):
    return q.split('newt.')[-1]


def c16(tier):
    rep = Report('C16')
    top = 3 if tier == 'quick' else 4
    for f, kind in (('translate_qlm', 'qq'), ('translate_Qlmb', 'QQ'), ('translate_q2Q', 'qQ')):
        coupled(rep, CG + f, kind, top if kind != 'qQ' else top - 1)
        motion(rep, TR + f, kind, top)
    for k in ('RR', 'SS', 'SR'):
        matrices(rep, k, top + 2)
    shift_products(rep, top)
    turn_products(rep, top)
    return rep, ('Value terms of translated moments, coaxial matrices and their application at fixed degrees and orders '
                 'compared with the addition theorems; operations of the recursive translations followed as motions.'), 40
