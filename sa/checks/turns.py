"""C24 rotation matrices: the value terms of all their elements at fixed degrees,
compared with the matrices of the rotation by the Euler angles."""
import math, random
from math import factorial as fa
from .translate import *
from ..algebra import Env, holds, show
from ..concrete import legendre

AL, BE, GA = Poly.atom('al'), Poly.atom('be'), Poly.atom('ga')
TAU = PI.scale(2)
HALF = BE.scale(F(1, 2))


def small_d(l, m1, m2):
    """element of the rotation by be about y, in sine and cosine of be/2"""
    c, s = Poly.atom(('cos', HALF)), Poly.atom(('sin', HALF))
    out = Poly()
    for k in range(max(m2 - m1, 0), min(l + m2, l - m1) + 1):
        out = out + (power(c, 2 * l + m2 - m1 - 2 * k) * power(s, m1 - m2 + 2 * k)).scale(
            F((-1) ** (m1 - m2 + k), fa(k) * fa(l + m2 - k) * fa(l - m1 - k) * fa(m1 - m2 + k)))
    return out * root(F(fa(l + m2) * fa(l - m2) * fa(l + m1) * fa(l - m1)))


def phase(m, x):
    return Poly.atom(('exp', (IU * x).scale(-m))) if m else Poly.const(1)


class Turn(Concrete):
    """half is +1 or -1: the sign of sin(be); angles count up to full turns"""
    half = None

    def factor(self, a, e):
        if isinstance(a, tuple) and a[0] == 'sqrt' and e % 2 and self.half:
            q = self(a[1])
            s = Poly.atom(('sin', BE))
            c = Poly.atom(('cos', BE))
            if q == 1 - c * c or q == s * s:
                return power(s.scale(self.half), e)
        return Concrete.factor(self, a, e)

    def atom(self, a):
        if a[0] == 'abs' and self.half:
            q = self(a[1])
            if q == Poly.atom(('sin', BE)):
                return q.scale(self.half)
        if a[0] in ('sin', 'cos'):
            return Concrete.atom(self, (a[0], self.unwind(a[1])))
        if a[0] == 'exp':
            return Concrete.atom(self, (a[0], self.unwind(a[1], IU)))
        return Concrete.atom(self, a)

    def unwind(self, p, unit=None):
        """whole multiples of an angle taken modulo a full turn"""
        p = self(p)
        out = Poly()
        for mono, c in p.t.items():
            d = dict(mono)
            ms = [x for x in d if isinstance(x, tuple) and x[0] == '%' and x[2] == TAU]
            if ms and c.denominator == 1 and d == ({ms[0]: 1, 'I': 1} if unit is not None else {ms[0]: 1}):
                out = out + self.unwind(ms[0][1]) * (IU if unit is not None else Poly.const(1)).scale(c)
            elif ms:
                raise Opaque
            else:
                out = out + Poly({mono: c})
        return out


def halved(p):
    """sines and cosines of be by those of be/2"""
    c, s = Poly.atom(('cos', HALF)), Poly.atom(('sin', HALF))
    mp = {('sin', BE): (s * c).scale(2), ('cos', BE): (c * c).scale(2) - 1}
    hit = {a: f for a, f in mp.items() if a in p.atoms()}
    return p.subs(hit) if hit else p


def angles(n=60):
    """values of be on both sides of every multiple of a quarter turn, then
    those multiples"""
    rnd = random.Random(7)
    for k in range(n):
        yield Poly.const(F(rnd.randint(-7000, 13000), 1000)), k
    for k in (0, 2, 1, 3, 4, -2, 6, -1):
        yield PI.scale(F(k, 2)), n + k % 5


def env_at(be, seed, ints):
    els = {'D': lambda env, *a: env.base(('D',) + a)}
    return Env(3 * seed, (), {'be': be}, ints=ints, els=els)


def cover(facts, ints):
    """(signs of sin(be) the path is taken with, sample environments, special)"""
    halves, envs = set(), []
    for be, seed in angles():
        env = env_at(be, seed, ints)
        try:
            if not all(holds(env, p, sg) for p, sg in facts):
                continue
        except (Opaque, KeyError, ValueError, ZeroDivisionError, TypeError):
            return None, []
        s = math.sin(env.val(be))
        if abs(s) < 1e-9:
            halves.add(be)
        else:
            halves.add(1 if s > 0 else -1)
        envs.append(env)
    generic = [h for h in halves if isinstance(h, int)]
    return generic or sorted(halves, key=repr), envs


def differs(p, want, envs):
    for env in envs:
        try:
            x, y = env.val(p), env.val(want)
        except (Opaque, KeyError, ValueError, ZeroDivisionError, TypeError, OverflowError):
            continue
        if x != x or abs(x - y) > 1e-7 * max(abs(x), abs(y), 1e-3):
            return '%s instead of %s (be=%.4g)' % (show(x), show(y), env.val(BE))
    return None


def element(I, e, want, facts, ints, node):
    if e is None or e.val is None:
        return 'value not derivable'
    halves, envs = cover(facts, ints)
    if halves is None:
        return 'condition of the path not followed'
    if not envs:
        return 'no angle found for the path'
    try:
        for h in halves:
            con = Turn(ints)
            if isinstance(h, Poly):
                x, y = con(e.val.subs({'be': h})), con(want.subs({'be': h}))
            else:
                con.half = h
                x, y = halved(con(e.val)), con(want)
            if not equal(x, y, Poly.const(1)):
                raise Opaque
        return None
    except (Opaque, KeyError, ZeroDivisionError):
        pass
    d = differs(e.val, want, envs)
    if d is None:
        return 'equality of the terms not shown'
    return (d, I.where(node))


def tidy(p):
    if len(p.t) < 2 and not p.atoms():
        return p
    try:
        return reduce(Turn({})(p))
    except (Opaque, KeyError, ZeroDivisionError):
        return p


def lists(rep, f, lims):
    """all matrices up to a degree limit"""
    lims = list(lims)
    for lim in lims:
        I = engine(lim)
        I.dense = True
        I.tidy = tidy
        st = State()
        full = f == 'wignerDl'
        args = [I.num(lim)] + ([ang(I, 'al'), ang(I, 'be'), ang(I, 'ga')] if full else [ang(I, 'be')])
        outs = run(I, rep, RO + f, args, st)
        for c in literals(I):
            lims += [x for x in (c, c + 1) if x not in lims and max(lims) < x <= 7]
        for k, s, v, node in outs:
            facts = list(s.facts.items())
            for l in range(lim + 1):
                nm = '%s.L%d.path%d.l%d' % (f, lim, k, l)
                a = item(I, s, v, l)
                if a is None:
                    rep.und('matrix', nm, 'no list of matrices derivable')
                    continue
                c = s.store[a.aid]
                size = Poly.const(2 * l + 1)
                at = {'$i': Poly.const(l)}
                if c.ndim != 2 or any(d is None or not d.subs(at).is_const() for d in c.shape):
                    rep.und('matrix', nm, 'shape not derivable')
                    continue
                if tuple(d.subs(at) for d in c.shape) != (size, size):
                    rep.bad('matrix', nm, 'matrix of shape %r for degree %d' % (c.shape, l), I.where(node))
                    continue
                res = []
                for m1 in range(-l, l + 1):
                    for m2 in range(-l, l + 1):
                        want = small_d(l, m1, m2)
                        if full:
                            want = want * phase(m1, AL) * phase(m2, GA)
                        e = I.np.at(c, (Poly.const(l + m1), Poly.const(l + m2)), s)
                        if e is not None and e.val is not None:
                            e = Num(e.val.subs(at))
                        res.append(element(I, e, want, facts, {}, node))
                put(rep, 'matrix', nm, res, len(res))


def formula(rep, top):
    """the explicit formula of one element"""
    I = fresh()
    I.overrides = {}
    I.alg = I.exact = True
    st = State()
    args = []
    for x in ('l', 'n', 'm'):
        I.params.add(x)
        I.syms.get(x, [P0] if x == 'l' else [], [])
    for x in ('l', 'm', 'n'):
        args.append(Num(Poly.atom(x), sg=SNN if x == 'l' else SIGNS_ALL, integer=True))
    for x in ('l-m', 'l+m', 'l-n', 'l+n'):
        st.add_fact(Poly.atom('l') + Poly.atom(x[2]).scale(1 if x[1] == '+' else -1), SNN)
    given = set(st.facts.items())
    outs = run(I, rep, RO + 'Dlmn', args + [ang(I, 'al'), ang(I, 'be'), ang(I, 'ga')], st)
    lims = list(range(top + 1))
    for c in literals(I):
        lims += [x for x in (c, c + 1) if x not in lims and x <= 12]
    for l in lims:
        nm = 'Dlmn.l%d' % l
        res = []
        some = range(-l, l + 1) if l <= top else (-l, 1 - l, 0, 1, l - 1, l)
        for m in some:
            for n in some:
                ints = {'l': l, 'm': m, 'n': n}
                hit = 0
                for k, s, v, node in outs:
                    facts, out = [], False
                    for p, sg in s.facts.items():
                        if (p, sg) in given:
                            continue
                        r = holds_at(Concrete(ints), p, sg)
                        out = out or r is False
                        if r is None:
                            facts.append((p, sg))
                    if out:
                        continue
                    hit = 1
                    if not isinstance(v, Num):
                        res.append('returns %s' % v.kind)
                        continue
                    res.append(element(I, v, small_d(l, n, m) * phase(n, AL) * phase(m, GA), facts, ints, node))
                if not hit:
                    res.append('no path for l=%d m=%d n=%d' % (l, m, n))
        put(rep, 'formula', nm, res, len(res))


def single(rep, top):
    """the matrix of one degree, its elements taken from the formula"""
    for l in range(top + 1):
        I = engine(l)
        I.dense = True
        st = State()

        def made(I, a, kw, nd, s2):
            v = vals(a)
            if kw or v is None or len(v) != 6:
                return TOP
            return Num(Poly.atom(('el', 'D') + v), Grading(), real=False)
        I.overrides[RO + 'Dlmn'] = made
        outs = run(I, rep, RO + 'Dl', [I.num(l), ang(I, 'al'), ang(I, 'be'), ang(I, 'ga')], st)
        for k, s, v, node in outs:
            nm = 'Dl.path%d.l%d' % (k, l)
            if not isinstance(v, ArrV):
                rep.und('matrix', nm, 'returns %s' % v.kind)
                continue
            c = s.store[v.aid]
            res = []
            for m1 in range(-l, l + 1):
                for m2 in range(-l, l + 1):
                    e = I.np.at(c, (Poly.const(l + m1), Poly.const(l + m2)), s) if c.ndim == 2 else None
                    if e is None or e.val is None:
                        res.append('value not derivable')
                        continue
                    x = e.val.subs({a: small_d(*orders(a)) * phase(orders(a)[1], a[5]) * phase(orders(a)[2], a[7])
                                    for a in e.val.atoms() if isinstance(a, tuple) and a[:2] == ('el', 'D')
                                    and orders(a) and a[6] == BE})
                    res.append(element(I, Num(x), small_d(l, m1, m2) * phase(m1, AL) * phase(m2, GA),
                                       list(s.facts.items()), {}, node))
            put(rep, 'matrix', nm, res, len(res))


def orders(a):
    """(degree, new order, old order) of an element asked from the formula"""
    if not all(x.is_const() for x in a[2:5]):
        return None
    l, m, n = [int(x.cval()) for x in a[2:5]]
    return (l, n, m) if max(abs(m), abs(n)) <= l else None


def c24(tier):
    rep = Report('C24')
    top = 4 if tier == 'quick' else 7
    for f in ('dlmn', 'wignerDl'):
        lists(rep, f, (0, 1, 2, top) if f == 'dlmn' else (0, 1, 3))
    formula(rep, top)
    single(rep, top)
    return rep, ('Value terms of every element of the rotation matrices at fixed degrees, both sides of half a turn, '
                 'compared with the matrices of the turn by the Euler angles.'), 4
