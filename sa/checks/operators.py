"""C14 translation operators, C15 rotation operators."""
from .ops import *
from .translate import shift_products, turn_products


def short(q):
    return q.split('newt.')[-1]


def pos_name(p):
    return ','.join(repr(x).replace(' ', '') for x in p)


def moment_laws(I, rep, qual, k, s, v, node, laws, deg=L, rows=False):
    """every visible cell (l, m) of the returned moment array obeys laws:
    {unit: f(l, m)}"""
    if not isinstance(v, ArrV):
        rep.und('entry', '%s.path%d' % (short(qual), k), 'returns %s' % v.kind)
        return
    c = s.store[v.aid]
    if c.ndim != 2 or None in c.shape:
        rep.und('shape', '%s.path%d' % (short(qual), k), 'shape %r' % (c.shape,))
        if c.ndim != 2:
            return
    elif c.shape != (deg + 1, deg.scale(2) + 1):
        d = [c.shape[0] - deg - 1, c.shape[1] - deg.scale(2) - 1]
        if any('0' not in I.sign(x, s) or x.is_const() and not x.is_zero() for x in d):
            rep.bad('shape', '%s.path%d' % (short(qual), k), 'returns shape %r for degree %r' % (c.shape, deg), I.where(node))
        else:
            rep.und('shape', '%s.path%d' % (short(qual), k), 'shape %r' % (c.shape,))
        return
    else:
        rep.ok('shape', '%s.path%d' % (short(qual), k))
    if c.cells and (rows or c.base.zero):
        complete(I, rep, '%s.path%d' % (short(qual), k), c, s, node, 1 if rows else 0)
    for pos, e, nd in visible(I, c, s):
        l, m = pos[0], pos[1] - deg
        for rule, u, f in laws:
            expo(I, rep, rule, '%s.path%d[%s]' % (short(qual), k, pos_name(pos)), e, u, f(l, m), nd or node,
                 facts=frozenset([(l - m, SNN), (l + m, SNN)]))


def complete(I, rep, nm, c, s, node, l0):
    """every (l, m), l >= l0, is computed"""
    st = s.copy()
    l, m = Poly.atom('l@dom'), Poly.atom('m@dom')
    I.syms.get('l@dom', [Poly.const(l0)], [L])
    I.syms.get('m@dom', [-l], [l])
    res, txt = coverage(I, c, (l, L + m), [('l@dom', Poly.const(l0), L), ('m@dom', -l, l)], st)
    (rep.ok if res == 'ok' else rep.bad if res == 'bad' else rep.und)(
        'every-moment', nm, txt if res != 'bad' else 'no operation computes the element at %s' % txt, I.where(node))


TRANS = {
    'newt.translations.translate_qlm': ('q', 'q'),
    'newt.translations.translate_Qlmb': ('Q', 'Q'),
    'newt.translations.translate_q2Q': ('q', 'Q'),
    'newt.translationRecurs.translate_qlm': ('q', 'q'),
    'newt.translationRecurs.translate_Qlmb': ('Q', 'Q'),
    'newt.translationRecurs.translate_q2Q': ('q', 'Q'),
}
ZMAT = {
    'newt.translationRecurs.transl_newt_z_RR': lambda r, c, m: r - c,
    'newt.translationRecurs.transl_newt_z_SS': lambda r, c, m: c - r,
    'newt.translationRecurs.transl_newt_z_SR': lambda r, c, m: -(r + m) - (c + m) - 1,
}


def deg_law(kind):
    return (lambda l, m: -l - 1) if kind == 'Q' else (lambda l, m: l)


def ph_law(kind):
    return (lambda l, m: m) if kind == 'Q' else (lambda l, m: -m)


def c14(tier):
    rep = Report('C14')
    for qual, (a, b) in TRANS.items():
        I = fresh()
        I.overrides.update(SUMM)
        st = State()
        args = [qarr(st, 'q', a == 'Q'), vec3(st, I, 'r')]
        for k, s, v, node in run(I, rep, qual, args, st):
            moment_laws(I, rep, qual, k, s, v, node, [
                ('degree', 'L', deg_law(b)), ('linear', 'M', lambda l, m: P1), ('azimuth', Z, ph_law(b))])
    for qual, law in ZMAT.items():
        I = fresh()
        st = State()
        dr = Num(Poly.atom('dr'), Grading({'L': P1}), dep=frozenset(['dr']))
        I.note_atom(dr)
        for k, s, v, node in run(I, rep, qual, [deg_arg(I), dr], st):
            nm = '%s.path%d' % (short(qual), k)
            if not isinstance(v, ListV) or not isinstance(v.elem, ArrV) or v.over:
                rep.und('entry', nm, 'returns %s' % v.kind)
                continue
            if v.length is not None:
                (rep.ok if v.length == L + 1 else rep.bad if (v.length - L - 1).is_const() else rep.und)(
                    'orders', nm, 'one matrix per order m = 0..L, found %r' % v.length, I.where(node))
            c = s.store[v.elem.aid]
            m = Poly.atom('$i')
            for ax in (0, 1):
                if c.ndim == 2 and c.shape[ax] is not None:
                    d = c.shape[ax] - (L + 1 - m)
                    (rep.ok if d.is_zero() else rep.bad if d.is_const() else rep.und)(
                        'matrix-shape', '%s.axis%d' % (nm, ax), 'shape %r, required L+1-m' % (c.shape[ax],), I.where(node))
            if c.ndim == 2:
                for idx, e in [((ALL, ALL), c.base)] + [(x.idx, x.elem) for x in c.cells]:
                    r, co = [i if isinstance(i, Poly) else Poly.atom('$%d' % j) for j, i in enumerate(idx)]
                    expo(I, rep, 'matrix-degree', '%s[%s]' % (nm, pos_name((r, co))), e, 'L', law(r, co, m), node)
    # the products with the matrices, for a generic family of matrices
    for nm, tr in (('apply_trans_mat', False), ('apply_trans_mat_right', True)):
        for q2Q in (False, True):
            qual = 'newt.translationRecurs.' + nm
            I = fresh()
            st = State()
            i = Poly.atom('$i')
            row, col = (D0, D1) if not tr else (D1, D0)
            # entry (row, col) of the matrix of order m is homogeneous: A^{m+row} B^{-(m+col)}
            e = Num(None, Grading({'A': row + i, 'B': -(col + i), 'E': P1, ('ph', 'mu'): i}), real=False, dep=frozenset(['E']))
            aid = ('arg', 'efms')
            st.store[aid] = ArrC((L + 1 - i, L + 1 - i), e, [], 'complex', frozenset([aid]))
            efms = ListV(ArrV(aid), L + 1, frozenset([('arg', 'efms')]))
            q = qarr(st, 'q', units={'B': D0})
            sg = -1 if q2Q else 1
            laws = [('degree', 'A', lambda l, m: l), ('degree', 'B', lambda l, m: P0),
                    ('linear', 'M', lambda l, m: P1), ('linear', 'E', lambda l, m: P1),
                    ('azimuth', Z, (lambda l, m: m) if q2Q else (lambda l, m: -m))]
            for k, s, v, node in run(I, rep, qual, [q, efms, BoolV(q2Q)], st):
                moment_laws(I, rep, qual + ('.q2Q' if q2Q else ''), k, s, v, node, laws)
    shift_products(rep, 3 if tier == 'quick' else 5)
    return rep, ('Graded typing of the translation operators with moments whose degree, mass and azimuthal charge are '
                 'symbolic in (l, m) and a displacement that turns with the frame.'), 40


def listmat(I, s, v):
    """generic matrix of a list of matrices -> (array, length) or None"""
    if not isinstance(v, ListV) or not isinstance(v.elem, ArrV) or v.over:
        return None
    return s.store[v.elem.aid]


def matrix_laws(I, rep, nm, c, s, node, n_rows, laws, ctr):
    """laws: [(rule, unit, f(row order, column order))] of one square matrix"""
    if c.ndim != 2:
        rep.bad('matrix-shape', nm, 'rank %r' % c.ndim, I.where(node))
        return
    for ax in (0, 1):
        if c.shape[ax] is None:
            rep.und('matrix-shape', '%s.axis%d' % (nm, ax))
            continue
        d = c.shape[ax] - n_rows
        (rep.ok if d.is_zero() else rep.bad if d.is_const() else rep.und)(
            'matrix-shape', '%s.axis%d' % (nm, ax), 'size %r, required %r' % (c.shape[ax], n_rows), I.where(node))
    for pos, e, nd in visible(I, c, s):
        for rule, u, f in laws:
            expo(I, rep, rule, '%s[%s]' % (nm, pos_name(pos)), e, u, f(pos[0] - ctr, pos[1] - ctr), nd or node)


AL, GA = ('ph', 'al'), ('ph', 'ga')


def c15(tier):
    rep = Report('C15')
    R = 'newt.rotations.'
    i = Poly.atom('$i')
    # lists of matrices
    for f, args in (('wignerDl', ('al', 'be', 'ga')), ('dlmn', ('be',))):
        I = fresh()
        I.overrides.update(SUMM)
        I.angles = {'al', 'ga'}
        st = State()
        a = [deg_arg(I)] + [ang(I, x) for x in args]
        for k, s, v, node in run(I, rep, R + f, a, st):
            nm = 'rotations.%s.path%d' % (f, k)
            c = listmat(I, s, v)
            if c is None:
                rep.und('entry', nm, 'returns %s' % v.kind)
                continue
            if v.length is not None:
                d = v.length - L - 1
                (rep.ok if d.is_zero() else rep.bad if d.is_const() else rep.und)(
                    'degrees', nm, 'one matrix per degree 0..L, found %r' % v.length, I.where(node))
            matrix_laws(I, rep, nm, c, s, node, i.scale(2) + 1,
                        [('alpha-phase', AL, lambda r, q: -r), ('gamma-phase', GA, lambda r, q: -q)]
                        if f == 'wignerDl' else
                        [('no-phase', AL, lambda r, q: P0)], i)
    # the explicit formula
    I = fresh()
    I.angles = {'al', 'ga'}
    st = State()
    a = [deg_arg(I)] + [ang(I, x) for x in ('al', 'be', 'ga')]
    for k, s, v, node in run(I, rep, R + 'Dl', a, st):
        nm = 'rotations.Dl.path%d' % k
        if not isinstance(v, ArrV):
            rep.und('entry', nm, 'returns %s' % v.kind)
            continue
        matrix_laws(I, rep, nm, s.store[v.aid], s, node, L.scale(2) + 1,
                    [('alpha-phase', AL, lambda r, q: -r), ('gamma-phase', GA, lambda r, q: -q)], L)
    # rotation of moments
    I = fresh()
    I.overrides.update(SUMM)
    I.angles = {'al', 'ga'}
    st = State()
    a = [qarr(st, 'q', units={GA: D1 - L})] + [ang(I, x) for x in ('al', 'be', 'ga')]
    for k, s, v, node in run(I, rep, R + 'rotate_qlm', a, st):
        if isinstance(v, ArrV) and s.store[v.aid].ndim == 2:
            # degree 0 does not turn: its order is 0 in every frame
            pass
        moment_laws(I, rep, R + 'rotate_qlm', k, s, v, node, [
            ('degree', 'L', lambda l, m: l), ('linear', 'M', lambda l, m: P1)], rows=True)
        rotated_laws(I, rep, 'rotations.rotate_qlm', k, s, v, node,
                     [('alpha-phase', AL, lambda l, m: -m), ('gamma-phase', GA, lambda l, m: P0)])
    # given matrices
    for f, right in (('rotate_qlm_Ds', False), ('rotate_qlm_Ds_right', True)):
        for ct in (False, True):
            I = fresh()
            st = State()
            # entry (row r, column c) of the matrix of degree i: R^-(r-i) C^-(c-i)
            e = Num(None, Grading({('ph', 'R'): i - D0, ('ph', 'C'): i - D1, 'E': P1}), real=False, dep=frozenset(['E']))
            aid = ('arg', 'ds')
            st.store[aid] = ArrC((i.scale(2) + 1, i.scale(2) + 1), e, [], 'complex', frozenset([aid]))
            ds = ListV(ArrV(aid), L + 1, frozenset([('arg', 'ds')]))
            m = D1 - L
            src, dst = ('ph', 'C'), ('ph', 'R')
            if right != ct:
                src, dst = dst, src
            sg = -1 if ct else 1
            q = qarr(st, 'q', units={src: m.scale(sg)})
            tag = f + ('.conj_trans' if ct else '')
            for k, s, v, node in run(I, rep, R + f, [q, ds, BoolV(ct)], st):
                if v.kind == 'arr' and s.store[v.aid].roots & {('arg', 'q')}:
                    continue
                moment_laws(I, rep, R + tag, k, s, v, node, [
                    ('degree', 'L', lambda l, m: l), ('linear', 'M', lambda l, m: P1)], rows=True)
                rotated_laws(I, rep, 'rotations.' + tag, k, s, v, node,
                             [('applied-matrix', src, lambda l, m: P0),
                              ('applied-matrix-order', dst, lambda l, m: m.scale(-sg)),
                              ('matrix-once', 'E', lambda l, m: P1)])
    turn_products(rep, 3 if tier == 'quick' else 5)
    return rep, ('Phase charges of every entry of the rotation matrices in both z angles, and graded typing of their '
                 'application to moments whose order is bound to the matching matrix index.'), 30


def rotated_laws(I, rep, name, k, s, v, node, laws):
    """laws for the rotated elements (degree 0 and elements above the degree
    are copies)"""
    if not isinstance(v, ArrV):
        return
    c = s.store[v.aid]
    if c.ndim != 2:
        return
    for pos, e, nd in visible(I, c, s):
        l, m = pos[0], pos[1] - L
        generic = nd is None
        for rule, u, f in laws:
            nm = '%s.path%d[%s]' % (name, k, pos_name(pos))
            if generic:
                continue
            expo(I, rep, rule, nm, e, u, f(l, m), nd or node, facts=frozenset([(l - m, SNN), (l + m, SNN)]))
