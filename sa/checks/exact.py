"""C22 coupling coefficients, value terms at integer arguments."""
import math
from fractions import Fraction as F
from .ops import *
from ..algebra import Opaque, deep, nand_of
from ..concrete import Concrete, Pole, reduce
from ..solids import root

FULL = frozenset('+-0')


def holds_at(con, p, sg):
    """does the condition hold?  None: not decidable"""
    parts = nand_of(p)
    if parts is not None:
        res = [holds_at(con, a, b) for a, b in parts]
        v = False if all(r is True for r in res) else True if False in res else None
        return None if v is None else (v if '+' in sg else not v)
    try:
        q = con(p)
    except (Opaque, KeyError, ZeroDivisionError):
        return None
    if not q.is_const():
        return None
    c = q.cval()
    return ('0' if not c else '+' if c > 0 else '-') in sg


def racah(a, b, m, n, J, M):
    """<a b; m n | J M> by the sum of Racah: (square of the prefactor, sum)"""
    f = math.factorial
    if M != m + n or abs(m) > a or abs(n) > b or abs(M) > J or J > a + b or J < abs(a - b):
        return Poly()
    pre = F((2 * J + 1) * f(J + a - b) * f(J - a + b) * f(a + b - J), f(a + b + J + 1))
    pre *= f(J + M) * f(J - M) * f(a - m) * f(a + m) * f(b - n) * f(b + n)
    s = F(0)
    for k in range(a + b + J + 1):
        d = [k, a + b - J - k, a - m - k, b + n - k, J - b + m + k, J - a - n + k]
        if min(d) >= 0:
            s += F((-1) ** k, math.prod(f(x) for x in d))
    return root(pre).scale(s)


NAMES = ('j1', 'j2', 'm1', 'm2', 'J', 'M')


def quantum(top):
    """groups (j1, j2, J) of the tuples that are compared"""
    for a in range(top + 1):
        for b in range(top + 1):
            for J in range(a + b + 2):
                valid = abs(a - b) <= J <= a + b
                x = 0 if valid else 1
                t = []
                for m in range(-a - 1, a + 2):
                    for n in range(-b - 1, b + 2):
                        edge = abs(m) > a or abs(n) > b
                        if (edge or not valid) and (m + n) % 3:
                            continue
                        for M in {m + n} if edge else {m + n, m + n + 1, -m - n, J}:
                            t.append((m, n, M))
                yield a, b, J, t


def coupling(rep, qual, top):
    I = fresh()
    I.overrides = {}
    I.alg = I.exact = True
    st = State()
    args = []
    for x in NAMES:
        I.params.add(x)
        I.syms.get(x, [P0] if x[0] in 'jJ' else [], [])
        args.append(Num(Poly.atom(x), sg=SNN if x[0] in 'jJ' else SIGNS_ALL, integer=True))
    outs = run(I, rep, qual, args, st)
    if not outs:
        return
    paths = []
    for k, s, v, node in outs:
        if not isinstance(v, Num):
            rep.bad('value', '%s.path%d' % (short(qual), k), 'returns %s, not a number' % v.kind, I.where(node)) \
                if v.kind in ('str', 'none') else rep.und('value', '%s.path%d' % (short(qual), k), v.kind)
        paths.append((k, list(s.facts.items()), v if isinstance(v, Num) else None, node))
    # facts that concern a value the engine does not follow leave the choice open
    for a, b, J, tuples in quantum(top):
        nm = '%s.j%d.j%d.J%d' % (short(qual), a, b, J)
        und = bad = None
        done = 0
        for m, n, M in tuples:
            con = Concrete(dict(zip(NAMES, (a, b, m, n, J, M))))
            want = racah(a, b, m, n, J, M)
            hit = []
            for k, facts, v, node in paths:
                r = [holds_at(con, p, sg) for p, sg in facts]
                if False in r:
                    continue
                hit.append((None in r, v, node))
            if not hit:
                und = und or 'no path of the function for %r' % ((m, n, M),)
                continue
            for open_, v, node in hit:
                try:
                    if v is None or v.val is None:
                        raise Opaque
                    got = con(v.val)
                    sq = signed_square(got)
                except Pole:
                    got = None
                except (Opaque, KeyError, ZeroDivisionError) as e:
                    und = und or 'value not derivable at %r' % ((m, n, M),)
                    continue
                if got is not None and deep(got):
                    und = und or 'value %r at %r' % (got, (m, n, M))
                elif got is None or sq != signed_square(want):
                    if open_:
                        und = und or 'path not decidable at %r' % ((m, n, M),)
                    else:
                        bad = bad or ('<%d %d; %d %d | %d %d> is %s instead of %r' % (
                            a, b, m, n, J, M, 'not finite' if got is None else repr(got), want), I.where(node))
                else:
                    done += 1
        if bad:
            rep.bad('coefficient', nm, bad[0], bad[1])
        elif und:
            rep.und('coefficient', nm, und)
        else:
            rep.ok('coefficient', nm, '%d coefficients' % done)


def signed_square(p):
    """sign(x) x^2 of a rational times roots of rationals"""
    out = F(0)
    if len(p.t) > 1:
        p = reduce(p)
    if len(p.t) > 1:
        raise Opaque
    for m, c in p.t.items():
        out = c * abs(c)
        for a, e in m:
            if not (isinstance(a, tuple) and a[0] == 'sqrt' and a[1].is_const() and a[1].cval() > 0):
                raise Opaque
            out *= a[1].cval() ** e
    return out


def c22(tier):
    rep = Report('C22')
    top = 3 if tier == 'quick' else 5
    for f in ('newt.clebschGordan.cgCoeff', 'newt.clebschGordan.cgCoeff2'):
        coupling(rep, f, top)
    return rep, 'every coupling coefficient at the listed quantum numbers, from the value term of the returned expression', 1


def short(q):
    return q.split('newt.')[-1]
