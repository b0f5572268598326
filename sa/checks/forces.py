"""C11 forces between points, C12 moving points, C13 multipole forces."""
from .ops import *
from ..algebra import same, is_zero, mk_sum, asqrt, apow, Domain, mk_op_array, differ_all, deep, path_env, Opaque
from .generators import NEG

AX = 'xyz'
GU = Grading({'G': P1})


def consts(I):
    for m in ('newt.constants', 'newt.glib', 'newt.multipoleLib'):
        I.const_over[(m, 'BIG_G')] = Num(Poly.atom('G'), GU, sg=SP, dep=frozenset(['G']))
    I.atom_g['G'] = GU


def scal(I, name, g, sg=SP):
    g = Grading(g)
    I.atom_g[name] = g
    return Num(Poly.atom(name), g, sg=sg, dep=frozenset([name]))


def points(st, I, name, mass, many, cols=4, par='r'):
    """a point (m, x, y, z) or an (n, 4) array of points"""
    cells = []
    if many:
        I.params.add('n_' + name)
        I.syms.get('n_' + name, [P1], [])
    for c, q in enumerate('mxyz'):
        at = ('el', name + '.' + q, D0) if many else name + '.' + q
        g = {mass: P1} if q == 'm' else {'L': P1}
        if q != 'm':
            g[('z2', par + q)] = P1
        e = Num(Poly.atom(at), Grading(g), sg=SP if q == 'm' else SIGNS_ALL, dep=frozenset([name + '.' + q]))
        if not many:
            I.atom_g[at] = Grading(g)
        cells.append(Cell(((ALL,) if many else ()) + (Poly.const(c),), e))
    aid = ('arg', name)
    sh = ((Poly.atom('n_' + name),) if many else ()) + (Poly.const(cols),)
    st.store[aid] = ArrC(sh, Num(None, Grading({STAR: UNK})), cells, 'float', frozenset([aid]))
    return ArrV(aid)


def coord(a):
    """atom -> (body, axis)"""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == 'el':
        a = a[1]
    if isinstance(a, str) and len(a) > 2 and a[-2] == '.' and a[-1] in AX:
        return a[:-2], a[-1]
    return None


def separation_hook(val, dep, g):
    """sums that are the separation of the two points, or its square, depend
    on the separation only"""
    if val is None:
        return dep, g
    at = {}
    for a in val.atoms():
        c = coord(a)
        if c is None or c in at:
            return dep, g
        at[c] = a
    if set(b for b, _ in at) != {'a', 'b'}:
        return dep, g
    ax = sorted(set(x for _, x in at))
    if len(at) != 2 * len(ax):
        return dep, g
    d = [Poly.atom(at[('b', x)]) - Poly.atom(at[('a', x)]) for x in ax]
    names = frozenset('%s.%s' % (b, x) for b in 'ab' for x in ax)
    if len(ax) == 1:
        for sgn in (1, -1):
            if (val - d[0].scale(sgn)).is_zero():
                dd = dict(g.d)
                dd[NEG] = P0 if sgn == 1 else P1
                return (dep - names) | {'d' + ax[0]}, Grading(dd)
        return dep, g
    if len(ax) == 3:
        q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        if (val - q).is_zero():
            return (dep - names - {'dx', 'dy', 'dz'}) | {'r'}, g
    return dep, g


def lever_hook(val, dep, g):
    """component of position x force with the force of the same point"""
    if g.d.get('F') == P1 and val is None:
        dep = dep | {'total-force'}
    if val is not None and len(val.t) == 2:
        at = {}
        for a in val.atoms():
            c = coord(a)
            if c is None or c in at:
                return dep, g
            at[c] = a
        for k in range(3):
            i, j = AX[(k + 1) % 3], AX[(k + 2) % 3]
            if set(at) == {('a', i), ('a', j), ('F', i), ('F', j)}:
                rows = set(a[2] if isinstance(a, tuple) else None for a in at.values())
                if len(rows) != 1:
                    return dep, g
                p = {c: Poly.atom(a) for c, a in at.items()}
                w = p['a', i] * p['F', j] - p['a', j] * p['F', i]
                for sgn in (1, -1):
                    if (val - w.scale(sgn)).is_zero():
                        d = dict(g.d)
                        d[NEG] = P0 if sgn == 1 else P1
                        return dep | {'lever' + AX[k]}, Grading(d)
    return dep, g


def force_summary(I, args, kw, n, st):
    """force on the point args[0]: a vector of the opaque components F.x F.y F.z"""
    c = st.store[args[0].aid] if args and isinstance(args[0], ArrV) else None
    if c is None or c.ndim != 1:
        return TOP
    e = I.np.at(c, (Poly.const(1),), st)
    row = None
    if e.val is not None:
        for a in e.val.atoms():
            if isinstance(a, tuple) and a[0] == 'el':
                row = a[2]
    cells = []
    for k, x in enumerate(AX):
        at = 'F.' + x if row is None else ('el', 'F.' + x, row)
        g = Grading({'F': P1, ('z2', 'r' + x): P1})
        I.atom_g[at] = g
        cells.append(Cell((Poly.const(k),), Num(Poly.atom(at), g, dep=frozenset(['F.' + x]))))
    return I.new_arr(ArrC((Poly.const(3),), Num(None, Grading({STAR: UNK})), cells, 'float'), st, n,
                     hint=('F', n.lineno, n.col_offset))


def comp(I, s, v, k):
    """component k of a returned vector, or None"""
    if not isinstance(v, ArrV):
        return None
    c = s.store[v.aid]
    if c.ndim != 1:
        return None
    return I.np.at(c, (Poly.const(k),), s)


def known_dep(e):
    return STAR not in e.g.d and isinstance(e.g.get('L'), Poly) and isinstance(e.g.get('M1'), Poly)


POINT = {
    'newt.glib.gmmr2_array': (('1', '1n'), 0), 'newt.glib.yukawa_array': (('1', '1n'), 1),
    'newt.glib.point_matrix_gravity': (('1n', '1n'), 0), 'newt.glib.point_matrix_yukawa': (('1n', '1n'), 1),
}


POSITIVE = ('.m', 'G', 'lmbd', 'mass')


def term(rep, rule, nm, e, want, node, I, st, undecided=True, dom=None):
    """the derived value of e is the term want"""
    if e is None or e.val is None:
        if undecided:
            rep.und(rule, nm, 'value not derivable')
        return
    wants = want if isinstance(want, list) else [want]
    r, why = same(e.val, wants[0], POSITIVE, st.facts.items(), dom)
    if r != 'ok' and any(is_zero(e.val - w) for w in wants[1:]):
        r = 'ok'
    (rep.ok if r == 'ok' else rep.bad if r == 'bad' else rep.und)(
        rule, nm, 'the derived value %s differs from the law: %s' % (short_val(e.val), why) if r == 'bad' else why, I.where(node))


def short_val(p):
    t = repr(p)
    return t if len(t) < 160 else t[:157] + '...'


def pair_force(a, b, yuk):
    """law of the force on point a by point b, per component"""
    d = [b[k] - a[k] for k in (1, 2, 3)]
    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
    r = Poly.atom(('sqrt', r2))
    f = Poly.atom('G') * a[0] * b[0]
    if yuk:
        la = Poly.atom('lmbd')
        f = f * Poly.atom('alpha') * Poly.atom(('exp', -(r * la.inv()))) * (r.pow(-3) + r.pow(-2) * la.inv())
    else:
        f = f * r.pow(-3)
    return [f * x for x in d]


def atoms_of(name, many, row='#0'):
    return [Poly.atom(('el', name + '.' + q, Poly.atom(row)) if many else name + '.' + q) for q in 'mxyz']


def exact_laws(rep):
    """value terms of force and torque against the law"""
    for qual, ((ka, kb), yuk) in POINT.items():
        for b in kb:
            tag = '%s(point,%s)' % (short(qual), 'points' if b == 'n' else 'point')
            I = fresh()
            I.alg = True
            consts(I)
            st = State()
            args = [points(st, I, 'a', 'M1', False), points(st, I, 'b', 'M2', b == 'n')]
            if yuk:
                args += [scal(I, 'alpha', {'A': P1}, SIGNS_ALL), scal(I, 'lmbd', {'L': P1})]
            pa = atoms_of('a', False)
            want = pair_force(pa, atoms_of('b', b == 'n'), yuk)
            if b == 'n':
                want = [Poly.atom(('sum', Poly.atom('n_b'), w, '#0')) for w in want]
            for k, s, v, node in run(I, rep, qual, args, st):
                f, t = (v.items if isinstance(v, Seq) and len(v.items) == 2 else (v, None))
                for q in range(3):
                    term(rep, 'force-value', '%s.path%d.force[%d]' % (tag, k, q), comp(I, s, f, q), want[q], node, I, s)
                    if t is not None:
                        i, j = (q + 1) % 3, (q + 2) % 3
                        term(rep, 'torque-value', '%s.path%d.torque[%d]' % (tag, k, q), comp(I, s, t, q),
                             pa[1 + i] * want[j] - pa[1 + j] * want[i], node, I, s)


def c11(tier):
    rep = Report('C11')
    exact_laws(rep)
    for qual, ((ka, kb), yuk) in POINT.items():
        for a in ka:
            for b in kb:
                tag = '%s(%s,%s)' % (short(qual), 'points' if a == 'n' else 'point', 'points' if b == 'n' else 'point')
                for lever in (False, True):
                    I = fresh()
                    consts(I)
                    st = State()
                    args = [points(st, I, 'a', 'M1', a == 'n'), points(st, I, 'b', 'M2', b == 'n')]
                    if yuk:
                        args += [scal(I, 'alpha', {'A': P1}, SIGNS_ALL), scal(I, 'lmbd', {'L': P1})]
                    for x, many in (('a', a), ('b', b)):
                        if many == 'n':
                            I.sum_units[Poly.atom('n_' + x)] = ('S', x)
                    I.reads = {('arg', x): [] for x, many in (('a', a), ('b', b)) if many == 'n'}
                    if lever:
                        I.mul_hook = lever_mul
                        if qual.split('.')[-1] in ('gmmr2_array', 'yukawa_array'):
                            continue
                        I.sum_hook = lever_hook
                        for f in ('gmmr2_array', 'yukawa_array'):
                            I.overrides['newt.glib.' + f] = force_summary
                    else:
                        I.sum_hook = separation_hook
                    for k, s, v, node in run(I, rep, qual, args, st):
                        nm = '%s.path%d' % (tag, k)
                        f, t = (v.items if isinstance(v, Seq) and len(v.items) == 2 else (v, None))
                        if lever:
                            lever_laws(I, rep, nm, s, f, t, node)
                        else:
                            force_laws(I, rep, nm, s, f, t, node, yuk)
                    if not lever:
                        for x in I.reads:
                            all_rows(I, rep, '%s.%s' % (tag, x[1]), I.reads[x], 'n_' + x[1])
    return rep, ('Graded typing of the point-to-point force functions: exponents in each body\'s mass, G, alpha and '
                 'length; parity of every component under the three reflections; dependence on the separation only; '
                 'value terms of force and torque compared with the law.'), 60


def short(q):
    return q.split('newt.')[-1]


def force_laws(I, rep, nm, s, f, t, node, yuk):
    for what, v, le in (('force', f, -2), ('torque', t, -1)):
        if v is None:
            continue
        if isinstance(v, ArrV) and s.store[v.aid].ndim == 1 and s.store[v.aid].shape[0] is not None:
            d = s.store[v.aid].shape[0] - 3
            (rep.ok if d.is_zero() else rep.bad if d.is_const() else rep.und)(
                'three-components', '%s.%s' % (nm, what), 'shape %r' % (s.store[v.aid].shape,), I.where(node))
        for k in range(3):
            e = comp(I, s, v, k)
            c = '%s.%s[%d]' % (nm, what, k)
            if e is None:
                rep.und('entry', c, 'not a vector')
                continue
            for u, w in (('M1', P1), ('M2', P1), ('G', P1), ('A', Poly.const(yuk)), ('L', Poly.const(le))):
                expo(I, rep, 'exponent-' + u, c, e, u, w, node)
            for x in 'ab':
                if Poly.atom('n_' + x) in I.sum_units:
                    # summed by an array operation, or by a loop (then not counted here)
                    expo(I, rep, 'additive-' + x, c, e, ('S', x), P1, node, alts=[P0])
            one_row(I, rep, c, e, node)
            for j, x in enumerate(AX):
                w = (j == k) if what == 'force' else (j != k)
                expo(I, rep, 'reflection-' + x, c, e, ('z2', 'r' + x), Poly.const(int(w)), node)
            if not known_dep(e):
                rep.und('separation', c, 'value not derivable')
                continue
            if what == 'force':
                extra = {d for d in e.dep if d.endswith(('.x', '.y', '.z'))}
                (rep.bad if extra else rep.ok)('separation', c, 'depends on the absolute position through %s' % ', '.join(sorted(extra)), I.where(node))
                if not extra:
                    other = {'d' + x for x in AX if x != AX[k]} & e.dep
                    (rep.bad if other or 'r' not in e.dep or 'd' + AX[k] not in e.dep else rep.ok)(
                        'central', c, 'a central force depends on its own component and the distance; found %s' % ', '.join(sorted(d for d in e.dep if d in ('dx', 'dy', 'dz', 'r'))), I.where(node))
                    expo(I, rep, 'attraction', c, e, NEG, P0, node)
            else:
                extra = {d for d in e.dep if d in ('b.x', 'b.y', 'b.z')}
                (rep.bad if extra else rep.ok)('lever', c, 'torque on the first body uses %s of the second' % ', '.join(sorted(extra)), I.where(node))


def one_row(I, rep, c, e, node):
    if e.val is None:
        return
    rows = sorted(set(repr(a[2]) for a in e.val.atoms() if isinstance(a, tuple) and len(a) == 3 and a[0] == 'el'))
    if len(rows) == 1:
        rep.bad('every-point', c, 'the result is the value of one row (%s) of the points' % rows[0], I.where(node))


def all_rows(I, rep, nm, reads, n, cols=4):
    """every column of every row of the points is read"""
    if not reads:
        return
    und = False
    for nv in (1, 2, 3):
        got = set()
        for plan, node, st in reads:
            p = {x[1]: x for x in plan if x[0] in ('at', 'sl')}
            if any(x[0] not in ('at', 'sl', 'new') for x in plan):
                und = True
                continue
            rs = cells_of(I, p.get(0), nv, {n: Poly.const(nv)})
            cs = cells_of(I, p.get(1), cols, {n: Poly.const(nv)})
            if rs is None or cs is None:
                und = True
                continue
            got |= {(r, c) for r in rs for c in cs}
        miss = sorted((r, c) for r in range(nv) for c in range(cols) if (r, c) not in got)
        if miss and not und:
            rep.bad('every-point', nm, 'row %d column %d of %d points is never read' % (miss[0] + (nv,)), I.where(reads[0][1]))
            return
    if not und:
        rep.ok('every-point', nm, '%d subscripts cover all rows' % len(reads))
    else:
        rep.und('every-point', nm, 'subscripts not decidable')


def cells_of(I, p, dim, env):
    """positions 0..dim-1 selected by one subscript of a plan, None: unknown"""
    if p is None:
        return range(dim)
    if p[0] == 'sl':
        lo, hi, step = p[2], p[3], p[4]
        if lo is None or hi is None or step is None:
            return None
        lo, hi = lo.subs(env), hi.subs(env)
        if not lo.is_const() or not hi.is_const():
            return None
        return [i for i in range(int(lo.cval()), int(hi.cval()), step) if 0 <= i < dim]
    q = p[2]
    if q is None:
        return None
    q = q.subs(env)
    if q.is_const():
        return [int(q.cval())]
    at = q.atoms()
    if len(at) != 1:
        return None
    a = next(iter(at))
    sy = I.syms.tab.get(a)
    if sy is None:
        return None
    lo, hi = [x.subs(env) for x in sy.lo], [x.subs(env) for x in sy.hi]
    if not lo or not hi or any(not x.is_const() for x in lo + hi):
        return None
    out = []
    for v in range(int(max(x.cval() for x in lo)), int(min(x.cval() for x in hi)) + 1):
        r = q.subs({a: Poly.const(v)})
        if r.is_const() and 0 <= r.cval() < dim:
            out.append(int(r.cval()))
    return out


def lever_mul(a, b, dep):
    for x, y in ((a, b), (b, a)):
        if 'total-force' in x.dep and any(d in ('a.x', 'a.y', 'a.z') for d in y.dep) and 'F' not in y.g.d:
            return dep | {'total-lever'}
    return dep


def lever_laws(I, rep, nm, s, f, t, node):
    for k in range(3):
        e = comp(I, s, t, k)
        c = '%s.torque[%d]' % (nm, k)
        if e is None or STAR in e.g.d:
            rep.und('lever-arm', c, 'value not derivable')
            continue
        expo(I, rep, 'lever-force', c, e, 'F', P1, node)
        (rep.bad if 'total-lever' in e.dep else rep.ok)('own-force', c, 'the lever arm of one point multiplies a sum of forces', I.where(node))
        one_row(I, rep, c, e, node)
        if 'lever' + AX[k] in e.dep:
            expo(I, rep, 'lever-arm', c, e, NEG, P0, node)
        else:
            rep.und('lever-arm', c, 'not a cross product of a position and its force')
        e = comp(I, s, f, k)
        if e is not None:
            expo(I, rep, 'lever-force', '%s.force[%d]' % (nm, k), e, 'F', P1, node)
            one_row(I, rep, '%s.force[%d]' % (nm, k), e, node)


# ------------------------------------------------------------ moving points
def moved(I, rep, nm, s, v, many, want, node):
    """the returned points have exactly the positions want (functions of the row)"""
    if not isinstance(v, ArrV):
        rep.und('entry', nm, 'returns %s' % v.kind)
        return
    c = s.store[v.aid]
    sh = ((Poly.atom('n_a'),) if many else ()) + (Poly.const(4),)
    if c.ndim != len(sh):
        (rep.und if c.ndim is None else rep.bad)('points-kept', nm, 'rank %r of the result' % (c.ndim,), I.where(node))
        return
    for ax, (x, y) in enumerate(zip(c.shape, sh)):
        d = None if x is None else x - y
        r = rep.und if d is None else rep.ok if d.is_zero() else rep.bad if '0' not in I.sign(d, s) else rep.und
        r('points-kept', '%s.axis%d' % (nm, ax), 'size %r, required %r' % (x, y), I.where(node))
        if d is None or not d.is_zero():
            return
    row = ()
    if many:
        I.syms.get('row@', [P0], [Poly.atom('n_a') - 1])
        row = (Poly.atom('row@'),)
    for q, x in enumerate('mxyz'):
        e = I.np.at(c, row + (Poly.const(q),), s)
        term(rep, 'mass-kept' if q == 0 else 'position', '%s.%s' % (nm, 'mass' if q == 0 else x), e, want[q], node, I, s)


def rodrigues(p, n, th):
    """position p turned about n by th"""
    r2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2]
    ir = Poly.atom(('sqrt', r2)).pow(-1)
    u = [x * ir for x in n]
    s, c = Poly.atom(('sin', th)), Poly.atom(('cos', th))
    dot = u[0] * p[0] + u[1] * p[1] + u[2] * p[2]
    out = []
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        out.append(p[k] * c + (u[i] * p[j] - u[j] * p[i]) * s + u[k] * dot * (P1 - c))
    return out


def c12(tier):
    rep = Report('C12')
    for what in ('translate_point_array', 'rotate_point_array'):
        for many in (False, True):
            I = fresh()
            I.alg = True
            st = State()
            pts = points(st, I, 'a', 'M1', many)
            if many:
                I.reads = {('arg', 'a'): []}
            vec = vec3(st, I, 't')
            t = [Poly.atom('t.' + x) for x in AX]
            args = [pts, vec] if what[0] == 't' else [pts, ang(I, 'theta'), vec]
            p = atoms_of('a', many, 'row@')
            want = [p[0]] + ([p[k + 1] + t[k] for k in range(3)] if what[0] == 't'
                             else rodrigues(p[1:], t, Poly.atom('theta')))
            tag = 'glib.%s(%s)' % (what, 'points' if many else 'point')
            for k, s, v, node in run(I, rep, 'newt.glib.' + what, args, st):
                moved(I, rep, '%s.path%d' % (tag, k), s, v, many, want, node)
    return rep, ('Value terms of every column of the returned points, for a generic row, compared with the rigid motion '
                 '(normal form of terms over roots, sines and cosines).'), 10


# ------------------------------------------------------- multipole forces
class Fam:
    """names of complex families"""

    def __init__(self, *names):
        self.names = names

    def __contains__(self, x):
        return x in self.names or isinstance(x, str) and x.startswith(('pre:', 'out:'))


LM = Poly.atom('Lm')


def moments_val(st, I, name, outer, mass):
    """moments whose elements are named values"""
    a = qarr(st, name, outer, mass)
    c = st.store[a.aid]
    c.base = c.base.rep(val=Poly.atom(('el', name, D0, D1 - LM)), real=False)
    return a


def at_pos(I, s, v, *idx):
    """element of a returned array, None: not an array of that rank"""
    if not isinstance(v, ArrV) or s.store[v.aid].ndim != len(idx):
        return None
    return I.np.at(s.store[v.aid], idx, s)


def degree_symbols(I, lo=0, mlo=None, mhi=None):
    l, m = Poly.atom('l@'), Poly.atom('m@')
    I.syms.get('l@', [Poly.const(lo)], [LM])
    I.syms.get('m@', [-l if mlo is None else mlo], [l if mhi is None else mhi])
    return l, m


def torque_terms(rep):
    """torque_lm: every entry of the three results"""
    I = fresh()
    I.alg = True
    consts(I)
    st = State()
    I.complexes = Fam('q', 'Q')
    args = [moments_val(st, I, 'q', False, 'M1'), moments_val(st, I, 'Q', True, 'M2'), scal(I, 'cnst', {'G': P1})]
    dom = Domain(I, Fam('q', 'Q'))
    l, m = degree_symbols(I)
    I.syms.get('k@', [P0], [LM])
    k = Poly.atom('k@')

    def tau(l, m):
        f = Poly.atom('cnst') * Poly.atom('pi') * Poly.atom('I') * m
        q = [Poly.atom(('el', x, l, m)) for x in 'qQ']
        return f.scale(-4) * (2 * l + 1).inv_or() * q[0] * q[1] if False else \
            f.scale(-4) * Poly({(((('sqrt', 2 * l + 1)), -2),): F(1)}) * q[0] * q[1]

    h = Poly.atom('h@')
    pos, neg = [mk_sum(LM + 1, 'h@', tau(h, x)) for x in (k, -k)]
    for n, s, v, node in run(I, rep, 'newt.multipoleLib.torque_lm', args, st):
        nm = 'torque_lm.path%d' % n
        if not isinstance(v, Seq) or len(v.items) != 3:
            rep.und('entry', nm, 'does not return three arrays')
            continue
        term(rep, 'torque-moment', nm + '.nlm', at_pos(I, s, v.items[0], l, m + LM), tau(l, m), node, I, s, dom=dom)
        term(rep, 'torque-cosine', nm + '.nc', at_pos(I, s, v.items[1], k), pos + neg, node, I, s, dom=dom)
        term(rep, 'torque-sine', nm + '.ns', at_pos(I, s, v.items[2], k), pos - neg, node, I, s, dom=dom)


def basis_summary(I, args, kw, n, st):
    out = []
    sh = None
    for x in AX:
        aid = ('fb', x)
        g = Grading({'L': D0 - 1})
        st.store[aid] = ArrC((LM + 1, 2 * LM + 1), Num(Poly.atom(('el', 'B' + x, D0, D1 - LM)), g, real=False), [], 'complex')
        out.append(ArrV(aid))
    L = args[0] if args else None
    if not isinstance(L, Num) or L.val is None or not (L.val - LM).is_zero():
        I.event('basis', n)
        return TOP
    want = [Poly.atom(x) for x in AX]
    for a, w in zip(args[1:4], want):
        if not isinstance(a, Num) or a.val is None or a.val != w:
            I.event('basis', n)
            return TOP
    return Seq(out)


def force_terms(rep):
    """multipole_force: the sum over all pairs of moments"""
    I = fresh()
    I.alg = True
    consts(I)
    st = State()
    I.complexes = Fam('q', 'Q', 'Bx', 'By', 'Bz')
    I.overrides['newt.multipoleLib.force_basis'] = basis_summary
    args = [deg_arg(I)] + [moments_val(st, I, 'q', False, 'M1'), moments_val(st, I, 'Q', True, 'M2')] + \
        [scal(I, x, {'L': P1}, SIGNS_ALL) for x in AX] + [scal(I, 'cnst', {'G': P1})]
    lo, mo, l, m = [Poly.atom(x) for x in ('lo@', 'mo@', 'll@', 'mm@')]
    root = lambda p, k=1: Poly({((('sqrt', p), k),): F(1)})
    gam = lambda p: Poly.atom(('gamma', p + 1))
    for n, s, v, node in run(I, rep, 'newt.multipoleLib.multipole_force', args, st):
        for k, x in enumerate(AX):
            t = Poly.atom('cnst') * Poly.atom('pi').scale(4) * root(2 * l + 1, -1) * root(2 * lo + 1, -1)
            t = t * asqrt(gam(l + m)) * asqrt(gam(l - m)) * asqrt(gam(lo + mo)).inv() * asqrt(gam(lo - mo)).inv()
            t = t * Poly.atom(('el', 'q', lo, mo)) * Poly.atom(('el', 'Q', l, m)) * Poly.atom(('el', 'B' + x, l - lo, m - mo))
            t = mk_sum(2 * (l - lo) + 1, 'mm@', t, mo - l + lo)
            t = mk_sum(LM - lo, 'll@', t, lo + 1)
            t = mk_sum(2 * lo + 1, 'mo@', t, -lo)
            t = mk_sum(LM + 1, 'lo@', t)
            term(rep, 'force-series', 'multipole_force.path%d.%s' % (n, x), at_pos(I, s, v, Poly.const(k)), t, node, I, s,
                 dom=Domain(I, I.complexes, small=3))


def harmonic(l, m, x, y, z, ax=None, memo=None):
    """solid harmonic of the basis at m >= 0, or its derivative"""
    if l < 0 or m > l or m < 0:
        return 0
    key = (l, m, ax)
    if key in memo:
        return memo[key]
    f = lambda a, b, d=ax: harmonic(a, b, x, y, z, d, memo)
    d = {'x': 1, 'y': -1j, 'z': 0, None: 0}[ax]
    if l == 0:
        r = 1 if ax is None else 0
    elif m == l:
        r = -(x - 1j * y) * f(l - 1, m - 1) / (2 * l)
        if ax:
            r = r - d * f(l - 1, m - 1, None) / (2 * l)
    else:
        r = (2 * l - 1) * z * f(l - 1, m) - (x * x + y * y + z * z) * f(l - 2, m)
        if ax:
            r = r + (2 * l - 1) * (ax == 'z') * f(l - 1, m, None) - 2 * {'x': x, 'y': y, 'z': z}[ax] * f(l - 2, m, None)
        r = r / (l * l - m * m)
    memo[key] = r
    return r


def closed(ax, sym=None):
    """interpretation of an array of basis values: rows from sym on are not yet written"""
    def f(env, l, c):
        L = env.ints.get('Lm', 0)
        if sym is not None and l >= env.ints.get(sym, 0):
            return 0
        m = c - L
        xyz = [env.base(a) for a in AX]
        return harmonic(l, m, *xyz, ax, {})
    return f


def step(names, ax, l, m):
    """recurrence of the basis at degree l order m in terms of earlier rows"""
    X, Y, Z, J = [Poly.atom(a) for a in ('x', 'y', 'z', 'I')]
    el = lambda a, i, j: Poly.atom(('el', 'pre:' + names[a], i, LM + j))
    r2 = X * X + Y * Y + Z * Z
    c = {'x': Poly.const(1), 'y': -J, 'z': Poly(), None: Poly()}[ax]
    if (l - m).is_zero():
        r = -(X - J * Y) * el(ax, l - 1, m - 1) - c * el(None, l - 1, m - 1)
        return r.scale(F(1, 2)) * l.inv()
    r = (2 * l - 1) * Z * el(ax, l - 1, m) - r2 * el(ax, l - 2, m)
    if ax:
        r = r - Poly.atom(ax).scale(2) * el(None, l - 2, m)
        if ax == 'z':
            r = r + (2 * l - 1) * el(None, l - 1, m)
    d = l * l - m * m
    return r * (d.inv() if d.inv() is not None else Poly({((('sqrt', d), -2),): F(1)}))


def drop_rows(p):
    """rows before the first are empty"""
    out = Poly()
    for mono, c in p.t.items():
        if not any(isinstance(a, tuple) and a[0] == 'el' and a[1].startswith('pre:') and a[2].is_const() and a[2].cval() < 0
                   for a, e in mono):
            out = out + Poly({mono: c})
    return out


def basis_terms(rep):
    """force_basis: the recurrences and the values at the origin"""
    I = fresh()
    I.alg = True
    consts(I)
    st = State()
    I.complexes = Fam()
    I.recur = ('newt.multipoleLib',)
    args = [deg_arg(I)] + [scal(I, x, {'L': P1}, SIGNS_ALL) for x in AX]
    done = set()
    for n, s, v, node in run(I, rep, 'newt.multipoleLib.force_basis', args, st):
        nm = 'force_basis.path%d' % n
        if not isinstance(v, Seq) or len(v.items) != 3 or not all(isinstance(x, ArrV) for x in v.items):
            rep.und('entry', nm, 'does not return three arrays')
            continue
        recs = [r for r in I.recs if set(r['pre'].facts.items()) <= set(s.facts.items())]
        l, m = degree_symbols(I, 1, P0)
        els = {}
        for r in recs:
            names = {ax: holds(I, s, x) for ax, x in zip(AX, v.items)}
            rest = [x for x in r['arrays'].values() if x not in names.values()]
            if len(rest) != 1 or len(set(names.values())) != 3 or None in names.values() or len(recs) != 1:
                rep.und('recurrence', nm, 'arrays of the recurrence not recognised')
                names = None
                break
            names[None] = rest[0]
            role = {x: a for a, x in names.items()}
            els = {'pre:' + x: closed(a, r['sym']) for x, a in role.items()}
            els.update({'out:' + x: closed(a) for x, a in role.items()})
            if id(r['node']) in done:
                continue
            done.add(id(r['node']))
            recurrence_laws(I, rep, r, role, names, els)
        if recs and names is None:
            continue
        if not recs:
            els = {'basis:' + ax: closed(ax) for ax in AX}
        dom = Domain(I, Fam(), els=els)
        for ax, x in zip(AX, v.items):
            final_laws(I, rep, '%s.%s' % (nm, ax), s, x, ax, names[ax] if recs else None, l, m, dom, node)


def recurrence_laws(I, rep, r, role, names, els):
    node, sym = r['node'], Poly.atom(r['sym'])
    dom = Domain(I, Fam(), els=els)
    pre = r['pre']
    for aid, x in r['arrays'].items():
        e = I.np.at(pre.store[aid], (r['lo'] - 1, LM), pre)
        term(rep, 'first-degree', 'force_basis.%s[%r]' % (x, r['lo'] - 1), e, Poly.const(1 if role[x] is None else 0), node, I, pre, dom=dom)
    (rep.ok if (r['lo'] - 1).is_zero() and (r['hi'] - LM - 1).is_zero() else rep.und)(
        'all-degrees', 'force_basis', 'degrees %r to %r' % (r['lo'], r['hi'] - 1), I.where(node))
    for k, p in enumerate(r['paths']):
        fixed = {}
        for f, sg in p.facts.items():
            if sg == frozenset('0') and r['sym'] in f.atoms() and (f - sym).is_const():
                fixed[r['sym']] = (sym - f)
        for aid, x in r['arrays'].items():
            for c in p.store[aid].cells:
                c_ = '%s[%s].case%d' % (x, ','.join(short_idx(i) for i in c.idx), k)
                if not all(isinstance(i, Poly) for i in c.idx):
                    rep.und('recurrence', 'force_basis.' + c_, 'region written')
                    continue
                d, o = [i.subs(fixed) for i in c.idx]
                want = drop_rows(step(names, role[x], d, o - LM))
                e = c.elem.rep(val=None if c.elem.val is None else drop_rows(c.elem.val.subs(fixed)))
                st = p.copy()
                term(rep, 'recurrence', 'force_basis.' + c_, e, want, node, I, st, dom=dom)


def short_idx(p):
    return repr(p).replace(' ', '')


def holds(I, s, x):
    """name of the one recurrence whose results the array is made of"""
    c, out = s.store[x.aid], set()
    for e in [c.base] + [c_.elem for c_ in c.cells]:
        if e is not None and e.val is not None:
            out |= {a[4:] for a in deep(e.val) if isinstance(a, str) and a.startswith('out:')}
    return out.pop() if len(out) == 1 else None


def at_origin(I, s):
    """every assignment taking this path has the displacement zero"""
    n = 0
    for seed in range(60):
        try:
            env = path_env(s.facts.items(), seed, POSITIVE, ints={'Lm': 3})
            if env is not None:
                n += 1
                if any(abs(env.base(a)) > 1e-12 for a in AX):
                    return False
        except (Opaque, ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
            continue
    return n > 3


def final_laws(I, rep, nm, s, v, ax, name, l, m, dom, node):
    """basis values at every degree and order"""
    if name is None:
        one = {'x': Poly.const(F(-1, 2)), 'y': Poly.atom('I').scale(F(1, 2)), 'z': Poly.const(1)}[ax]
        zero = at_origin(I, s)
        b = lambda l, o: Poly.atom(('el', 'basis:' + ax, l, LM + o))
        for o in (-1, 0, 1):
            w = Poly() if abs(o) != (ax != 'z') else one if o >= 0 else Poly.atom('I').scale(F(1, 2)) if ax == 'y' else -one
            e = at_pos(I, s, v, Poly.const(1), LM + o)
            term(rep, 'basis-origin', '%s[1,%d]' % (nm, o), e, w if zero else b(P1, Poly.const(o)), node, I, s, dom=dom)
        term(rep, 'basis-origin', nm + '[0,0]', at_pos(I, s, v, P0, LM), Poly(), node, I, s, dom=dom)
        I.syms.get('h@', [Poly.const(2)], [LM])
        I.syms.get('o@', [-Poly.atom('h@')], [Poly.atom('h@')])
        h, o = Poly.atom('h@'), Poly.atom('o@')
        e = at_pos(I, s, v, h, LM + o)
        term(rep, 'basis-origin', nm + '[l>1]', e, Poly() if zero else b(h, o), node, I, s, dom=dom)
        return
    I.syms.get('g@', [Poly.const(2)], [LM])
    g = Poly.atom('g@')
    I.syms.get('p@', [P1], [g - 1])
    val = lambda l, o: Poly.atom(('el', 'out:%s' % name, l, LM + o))
    v0 = val(l, P0)
    term(rep, 'basis', nm + '[l,0]', at_pos(I, s, v, l, LM), [(v0 + Poly.atom(('conj', v0))).scale(F(1, 2)), v0], node, I, s, dom=dom)
    for tag, l, p in (('m=l', l, l), ('m=l-1', g, g - 1), ('m=1', g, P1), ('0<m<l', g, Poly.atom('p@'))):
        term(rep, 'basis', '%s[l,%s]' % (nm, tag), at_pos(I, s, v, l, LM + p), val(l, p), node, I, s, dom=dom)
        term(rep, 'basis', '%s[l,-%s]' % (nm, tag), at_pos(I, s, v, l, LM - p),
             apow(Poly.const(-1), p) * Poly.atom(('conj', val(l, p))), node, I, s, dom=dom)
    term(rep, 'basis', nm + '[0,0]', at_pos(I, s, v, P0, LM), Poly(), node, I, s, dom=dom)


# --------------------------------------------------- torque between bodies
def marked(I, st, op, n, hint):
    """a list of matrices known as one operation"""
    i = Poly.atom('$i')
    arr = I.new_arr(ArrC((None, None), Num(), [], 'complex', frozenset(), {'op': op}), st, n, hint=(hint, n.lineno, n.col_offset))
    return ListV(arr, None)


def vals(args):
    out = [a.val if isinstance(a, Num) else None for a in args]
    return None if any(v is None for v in out) else tuple(out)


def turn_summary(I, args, kw, n, st):
    v = vals(args)
    if kw or v is None or len(v) != 4 or v[0] != LM:
        return TOP
    return marked(I, st, ('turn',) + v[1:], n, 'D')


def shift_summary(kind):
    def f(I, args, kw, n, st):
        v = vals(args)
        if kw or v is None or len(v) != 2 or v[0] != LM:
            return TOP
        return marked(I, st, ('shift' + kind, v[1]), n, kind)
    return f


def apply_summary(kind, flag):
    """the array after right multiplication"""
    def f(I, args, kw, n, st):
        args = list(args) + ([kw[flag]] if flag in kw else [])
        if len(args) not in (2, 3) or set(kw) - {flag} or not isinstance(args[0], ArrV) or not isinstance(args[1], ListV):
            return TOP
        on = args[2].b if len(args) == 3 and isinstance(args[2], BoolV) else False if len(args) == 2 else None
        arr = args[1].elem
        op = st.store[arr.aid].meta.get('op') if isinstance(arr, ArrV) and arr.aid in st.store else None
        c = st.store[args[0].aid]
        if on is None or op is None or not op[0].startswith(kind) or c.ndim != 2 or c.base.val is None or c.cells:
            return TOP
        e = Num(mk_op_array(op[0], op[1:] + (Poly.const(int(on)),), c.base.val), real=False)
        return I.new_arr(ArrC(c.shape, e, [], 'complex'), st, n, hint=('op', n.lineno, n.col_offset))
    return f


def torque_chain(kind, t, ang, deg):
    """the value of every torque moment, and the chains to be used for a
    displacement: none, along +z, any"""
    r = Poly.atom(('sqrt', sum((x * x for x in t), Poly())))
    l, m = D0, D1 - LM
    w = m * Poly({((('sqrt', 2 * l + 1), -2),): F(1)})
    moved, fixed = ('Q', 'q') if kind == 'inner-inner' else ('q', 'Q')
    phi, theta = Poly.atom(('arctan2', t[1], t[0])), Poly.atom(('arccos', t[2] * r.inv()))
    a, b, g = ang if kind != 'outer-outer' else (-ang[0], ang[1], -ang[2])
    on, off = Poly.const(1), P0
    first = ('turn', (-phi, -theta, -phi, on)) if kind != 'inner-outer' else ('turn', (phi, -theta, phi, on))
    sh = ({'inner-inner': 'shiftRR', 'inner-outer': 'shiftSR', 'outer-outer': 'shiftSS'}[kind],
          (r, on if kind == 'inner-outer' else off))
    back, last = ('turn', (-phi, -theta, -phi, off)), ('turn', (a, b, g, off))
    out = []
    for ops in ([last], [sh, last], [first, sh, back, last]):
        v = w * Poly.atom(('el', moved, l, m))
        for name, ps in ops:
            v = mk_op_array(name, ps, v)
        v = v * Poly.atom(('el', fixed, l, m)) * Poly.atom('cnst') * Poly.atom('pi') * Poly.atom('I').scale(-4)
        out.append(v)
    return r, out


def torque_motion(rep):
    """torque: the operations applied for every kind of translation"""
    for kind in ('inner-inner', 'inner-outer', 'outer-outer'):
        I = fresh()
        I.alg = True
        consts(I)
        st = State()
        I.complexes = Fam('q', 'Q')
        mod = 'newt.rotations.', 'newt.translationRecurs.'
        I.overrides[mod[0] + 'wignerDl'] = turn_summary
        I.overrides[mod[0] + 'rotate_qlm_Ds_right'] = apply_summary('turn', 'conj_trans')
        I.overrides[mod[1] + 'apply_trans_mat_right'] = apply_summary('shift', 'q2Q')
        for k in ('RR', 'SR', 'SS'):
            I.overrides[mod[1] + 'transl_newt_z_' + k] = shift_summary(k)
        args = [moments_val(st, I, 'q', False, 'M1'), moments_val(st, I, 'Q', kind != 'inner-outer', 'M2'),
                Seq([ang(I, x) for x in ('alpha', 'beta', 'gamma')]), vec3(st, I, 't'), Str(kind), scal(I, 'cnst', {'G': P1})]
        t = [Poly.atom('t.' + x) for x in AX]
        r, wants = torque_chain(kind, t, [Poly.atom(x) for x in ('alpha', 'beta', 'gamma')], LM)
        l, m = degree_symbols(I)
        I.syms.get('k@', [P0], [LM])
        k = Poly.atom('k@')
        tot = lambda w, o: mk_sum(LM + 1, 'h@', w.subs({'$0': Poly.atom('h@'), '$1': LM + o}))
        for n, s, v, node in run(I, rep, 'newt.multipoleLib.torque', args, st):
            nm = 'torque(%s).path%d' % (kind, n)
            if not isinstance(v, Seq) or len(v.items) != 3:
                rep.und('entry', nm, 'does not return three arrays')
                continue
            rows = (('torque-moment', '.nlm', at_pos(I, s, v.items[0], l, m + LM), lambda w: w.subs({'$0': l, '$1': m + LM})),
                    ('torque-cosine', '.nc', at_pos(I, s, v.items[1], k), lambda w: tot(w, k) + tot(w, -k)),
                    ('torque-sine', '.ns', at_pos(I, s, v.items[2], k), lambda w: tot(w, k) - tot(w, -k)))
            for rule, tag, e, f in rows:
                chain_law(I, rep, rule, nm + tag, e, [f(w) for w in wants], r, t, s, node)


def chain_law(I, rep, rule, nm, e, wants, r, t, s, node):
    if e is None or e.val is None:
        rep.und(rule, nm, 'value not derivable')
        return
    legal = [2]
    if I.sign(r, s) == SZ:
        legal = [0]
    elif I.sign(r - t[2], s) == SZ:
        legal = [1, 2]
    if any(is_zero(e.val - wants[i]) for i in legal):
        rep.ok(rule, nm)
        return

    def accepted(env):
        xyz = [env.val(x) for x in t]
        return [0, 2] if not any(xyz) else [1, 2] if not xyz[0] and not xyz[1] and xyz[2] > 0 else [2]
    d = differ_all(e.val, wants, accepted, POSITIVE, s.facts.items(), Domain(I, I.complexes))
    if d is not None:
        rep.bad(rule, nm, 'the operations applied differ from the translated and rotated interaction: %s' % d, I.where(node))
    else:
        rep.und(rule, nm, 'equality of the terms not shown')


def series_at_angles(rep):
    """torques_at_angle: the Fourier sums"""
    for outer in (False, True):
        I = fresh()
        I.alg = True
        st = State()
        I.complexes = Fam('c', 's')
        args = []
        for x in 'cs':
            aid = ('arg', x)
            e = Num(Poly.atom(('el', x, D0)), Grading({}), real=False, dep=frozenset([x]))
            st.store[aid] = ArrC((LM + 1,), e, [], 'complex', frozenset([aid]))
            args.append(ArrV(aid))
        args += [ang(I, 'theta'), BoolV(outer)]
        J = Poly.atom('I')
        k = Poly.atom('k@')
        re = lambda x, i: (Poly.atom(('el', x, i)) + Poly.atom(('conj', Poly.atom(('el', x, i))))).scale(F(1, 2))
        im = lambda x, i: (Poly.atom(('conj', Poly.atom(('el', x, i)))) - Poly.atom(('el', x, i))).scale(F(1, 2)) * J
        a = k * Poly.atom('theta')
        C, S = Poly.atom(('cos', a)), Poly.atom(('sin', a)).scale(-1 if outer else 1)
        want = re('c', P0).scale(F(1, 2)) + im('s', P0).scale(F(1, 2)) + mk_sum(
            LM, 'k@', re('c', k) * C + im('c', k) * S + im('s', k) * S + re('s', k) * C, P1)
        for n, s, v, node in run(I, rep, 'newt.multipoleLib.torques_at_angle', args, st):
            term(rep, 'fourier', 'torques_at_angle(outer=%s).path%d' % (outer, n), v if isinstance(v, Num) else None, want, node, I, s,
                 dom=Domain(I, I.complexes))


def c13(tier):
    rep = Report('C13')
    torque_terms(rep)
    force_terms(rep)
    basis_terms(rep)
    torque_motion(rep)
    series_at_angles(rep)
    return rep, ('Value terms of the torque moments, of the multipole force and of the Fourier sums compared with the series; '
                 'recurrences of the force basis extracted from its loops and compared with those of the solid harmonics and '
                 'their derivatives; operations applied by torque compared with the adjoint translation and rotation.'), 60
