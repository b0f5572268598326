"""Properties of the multipole-moment generators, decided by graded typing of
every cell of the returned array: C01 C02 C03 C04 C07 C08."""
from fractions import Fraction as F
from ..core import Report
from ..dom import *
from ..interp import Interp, deep_atoms
from ..poly import Poly
from ..state import State
from .. import spec as SP_

NEG = ('z2', 'neg')
P1 = Poly.const(1)


def new_interp(**kw):
    from ..core import REPO
    I = Interp(root=REPO, **kw)
    I.params.add('L')
    I.syms.get('L', [Poly()], [])
    return I


def mk_cloud(st, name, extra=('c2', 'cy', 'cz')):
    """an (n, 4) array of rows (mass, x, y, z) with symbolic n >= 1"""
    n = 'n_' + name
    row = Poly.atom('$0')
    cells = []
    for c, (q, unit, ch) in enumerate((('m', 'M', ()), ('x', 'L', ('c2',)), ('y', 'L', ('c2', 'cy')),
                                       ('z', 'L', ('cz',)))):
        g = {unit: P1}
        g.update({('z2', k): P1 for k in ch if k in extra})
        e = Num(Poly.atom(('el', name + '.' + q, row)), Grading(g), sg=SIGNS_ALL, dep=frozenset([name + '.' + q]))
        cells.append(Cell((ALL, Poly.const(c)), e))
    aid = ('arg', name)
    st.store[aid] = ArrC((Poly.atom(n), Poly.const(4)), Num(None, Grading({'L': UNK, 'M': UNK})), cells, 'float',
                         frozenset([aid]))
    return ArrV(aid), n


def mk_args(kinds):
    st = State()
    args = []
    halves, angles = set(), set()
    for j, k in enumerate(kinds.split()):
        parts = k.split('+')
        k, ch = parts[0], parts[1:]
        nm = '%s%d' % (k, j)
        if k == 'pts':
            args.append(mk_cloud(st, nm)[0])
            continue
        if k in ('deg', 'ord'):
            args.append(Num(Poly.atom(k), sg=SNN if k == 'deg' else SIGNS_ALL, integer=True))
            continue
        if k == 'L':
            args.append(Num(Poly.atom('L'), sg=SNN, integer=True))
            continue
        g = {}
        if k == 'M':
            g['M'] = P1
        elif k == 'rho':
            g['M'] = P1
            g['L'] = Poly.const(-3)
        elif k in ('len', 'lmbd'):
            g['L'] = P1
        elif k == 'phic':
            nm = 'phic'
            ch = ch + ['cy']
            angles.add(nm)
        elif k == 'phih':
            nm = 'phih'
            halves.add(nm)
        for c in ch:
            g[('z2', c)] = P1
        args.append(Num(Poly.atom(nm), Grading(g), sg=SIGNS_ALL, integer=k == 'N', dep=frozenset([nm])))
    return st, args, angles, halves


class Moment:
    """one symbolic cell of a returned moment array"""

    def __init__(self, fn, path, l, m, elem, idx, node, L):
        self.fn, self.path, self.l, self.m, self.elem, self.idx, self.node, self.L = fn, path, l, m, elem, idx, node, L

    @property
    def name(self):
        return '%s[l=%s,m=%s]' % (self.fn, show(self.l), show(self.m))


def show(p):
    return repr(p).replace(' ', '') if isinstance(p, Poly) else str(p)


def moments(I, qual, kinds):
    """-> (list of Moment, problems) for every return path of the generator"""
    fn = I.func(qual)
    st, args, angles, halves = mk_args(kinds)
    I.reset()
    I.angles, I.halves = angles, halves
    for a in args:
        if isinstance(a, ArrV):
            n = next(iter(st.store[a.aid].shape[0].atoms()))
            I.params.add(n)
            I.syms.get(n, [P1], [])
        elif a.integer and 'L' not in repr(a.val):
            nm = next(iter(a.val.atoms()))
            I.params.add(nm)
            if nm == 'ord':
                I.syms.get(nm, [-Poly.atom('deg')], [Poly.atom('deg')])
            else:
                I.syms.get(nm, [Poly() if nm == 'deg' else P1], [])
    probs = []
    if fn is None:
        return None, ['vanished'], 0
    need = len(fn.args.args) - len(fn.args.defaults)
    if not (need <= len(args) <= len(fn.args.args)):
        return None, ['signature'], 0
    try:
        outs = I.run(qual, args, st)
    except Exception as e:  # an unsupported construct: undecided, never an alarm
        return [], ['analysis: %s: %s' % (type(e).__name__, e)], 0
    out = []
    rets = 0
    I.ret_shapes = []
    Lp = Poly.atom('L')
    for k, (s, c) in enumerate(outs):
        if c[0] != 'ret':
            continue
        rets += 1
        v = c[1]
        if isinstance(v, Num) and 'deg' in kinds.split():
            if not v.zero:
                l, m = Poly.atom('deg'), Poly.atom('ord')
                v = v.rep(facts=v.facts | frozenset(
                    (p, sg) for p, sg in s.facts.items() if len(sg) < 3 and I.R.integral(p) and
                    deep_atoms(p) and deep_atoms(p) <= {'deg', 'ord'}))
                out.append(Moment(qual.split('newt.')[-1], k, l, m, v, (l, m), c[2] if len(c) > 2 else None, Lp))
            continue
        if not isinstance(v, ArrV):
            probs.append('returns %s' % v.kind)
            continue
        a = s.store[v.aid]
        I.ret_shapes.append((k, a.shape))
        if a.ndim != 2:
            probs.append('rank unknown')
            continue
        # centre column: the array stores order m in column (columns-1)/2 + m
        mid = Lp
        if a.shape[1] is not None:
            mid = (a.shape[1] - 1).scale(F(1, 2))
        for cell in list(a.cells) + [Cell((ALL, ALL), a.base, c[2] if len(c) > 2 else None)]:
            if cell.elem.zero:
                continue
            i, j = cell.idx
            l = i if isinstance(i, Poly) else Poly.atom('$0')
            col = j if isinstance(j, Poly) else Poly.atom('$1')
            out.append(Moment(qual.split('newt.')[-1], k, l, col - mid, cell.elem, cell.idx, cell.node, Lp))
    return out, probs, rets


def provably_differs(I, e, want, u=None, facts=()):
    """the exponent law e is not the law `want` for some admissible values of
    the index symbols (two different polynomials over free symbols always are)"""
    d = reduce_exp(u, e - want) if u is not None else e - want
    if d.is_zero():
        return False
    if d.is_const():
        return True
    opaque = any(isinstance(a, tuple) for a in d.atoms())
    w = I.witness(d, facts, modulus(u))
    if w is None:
        return None if opaque or facts or modulus(u) is not None else True
    if not w[0]:
        return False if w[1] else None
    # an opaque law that is right for some indices may be guarded by a condition
    # that was not recorded
    return True if not (opaque and w[1]) or facts else None


def judge(I, rep, rule, mo, u, want, alts=()):
    e = mo.elem.g.get(u)
    where = I.where(mo.node) if mo.node is not None else ''
    if isinstance(e, Bad):
        rep.bad(rule, mo.name, e.why, I.where(e.node) if e.node is not None else where)
        return
    if isinstance(e, Alt):
        rs = [all(provably_differs(I, x, w, u, fs | mo.elem.facts) for w in [want] + list(alts))
              for x, fs in sorted(e.es, key=repr)]
        if any(rs):
            rep.bad(rule, mo.name, 'depending on the path the exponent of %s is one of %r, required %r' % (
                u, e, want), where)
        else:
            rep.und(rule, mo.name, 'exponent depends on the path', where)
        return
    if not isinstance(e, Poly):
        rep.und(rule, mo.name, 'exponent not derivable', where)
        return
    rs = [provably_differs(I, e, w, u, mo.elem.facts) for w in [want] + list(alts)]
    if False in rs:
        rep.ok(rule, mo.name, 'exponent %r' % e, where)
    elif None in rs:
        rep.und(rule, mo.name, 'derived exponent %r' % e, where)
    else:
        rep.bad(rule, mo.name, 'derived exponent %r of %s, required %r' % (e, u, want), where)


def each(rep, table, tier):
    """yield (interp, qual, kinds, moments) for the whole table"""
    I = new_interp()
    for mod, fns in table.items():
        for f, kinds in fns.items():
            qual = mod + '.' + f
            ms, probs, rets = moments(I, qual, kinds)
            if ms is None:
                rep.und('entry', qual, probs[0])
                continue
            rep.functions.add(qual)
            rep.functions.update(I.fvis)
            if probs:
                rep.und('entry', qual, '; '.join(probs))
            yield I, qual, kinds, ms


def c01(tier):
    rep = Report('C01')
    for tab in (SP_.INNER, SP_.CLOUD_INNER):
        for I, q, kinds, ms in each(rep, tab, tier):
            if 'lmbd' in kinds.split():
                continue
            for mo in ms:
                judge(I, rep, 'length-exponent', mo, 'L', mo.l)
    return rep, ('Graded typing (dimensional analysis) of every cell of the array returned by every inner-moment '
                 'generator: lengths carry the unit L, masses M, densities M L^-3; each abstract cell (l,m) must have '
                 'L-exponent equal to the polynomial l, for symbolic degree limit, l, m and all loop indices.'), 60


def c02(tier):
    rep = Report('C02')
    for tab in (SP_.OUTER, SP_.CLOUD_OUTER):
        for I, q, kinds, ms in each(rep, tab, tier):
            for mo in ms:
                judge(I, rep, 'length-exponent', mo, 'L', -mo.l - 1)
    return rep, ('Graded typing of every cell of the array returned by every outer-moment generator: the L-exponent '
                 'of cell (l,m) must be the polynomial -(l+1).'), 8


def c03(tier):
    rep = Report('C03')
    for tab in (SP_.INNER, SP_.OUTER, SP_.CLOUD_INNER, SP_.CLOUD_OUTER):
        for I, q, kinds, ms in each(rep, tab, tier):
            for mo in ms:
                judge(I, rep, 'mass-exponent', mo, 'M', P1)
    return rep, ('Graded typing of every cell of every generated moment array in the mass unit: the M-exponent must be '
                 'exactly 1 (degree-one homogeneity in the mass or density argument).'), 60


def c04(tier):
    rep = Report('C04')
    for tab, sgn in ((SP_.INNER, -1), (SP_.OUTER, 1)):
        for I, q, kinds, ms in each(rep, tab, tier):
            if 'phic' not in kinds.split():
                continue
            for mo in ms:
                judge(I, rep, 'azimuth-phase', mo, ('ph', 'phic'), mo.m * sgn)
                if 'phih' in kinds.split():
                    judge(I, rep, 'fourier-degree', mo, ('sh', 'phih'), mo.m, alts=[-mo.m])
    return rep, ('Phase typing: the central azimuth phic carries a U(1) charge; exp(-i k phic) has charge -k. Each '
                 'cell (l,m) must have charge -m for inner and +m for outer moments; the half-angle may enter only '
                 'through the |m|-th harmonic.'), 20


def c08(tier):
    rep = Report('C08')
    for tab in (SP_.INNER, SP_.OUTER, SP_.CLOUD_INNER, SP_.CLOUD_OUTER):
        for I, q, kinds, ms in each(rep, tab, tier):
            for ch in ('c2', 'cy', 'cz'):
                carriers = [k for k in kinds.split() if ch in k.split('+')[1:] or (ch == 'cy' and k == 'phic') or k == 'pts']
                if not carriers:
                    continue
                off = None
                for mo in ms:
                    e = mo.elem.g.get(('z2', ch))
                    if mo.l.is_const() and mo.m.is_zero() and mo.l.is_zero() and isinstance(e, Poly):
                        off = reduce_exp(('z2', ch), e)
                    elif off is None and isinstance(e, Poly) and mo.m.is_zero():
                        z = reduce_exp(('z2', ch), e.subs({a: Poly() for a in mo.l.atoms()}))
                        if z.is_const():
                            off = z
                off = off if off is not None else Poly()
                want = {'c2': lambda mo: mo.m, 'cy': lambda mo: Poly(), 'cz': lambda mo: mo.l + mo.m}[ch]
                for mo in ms:
                    judge(I, rep, 'parity-' + ch, mo, ('z2', ch), want(mo) + off)
    return rep, ('Z2-graded typing of every cell under the three mirror operations of the solid.'), 20
