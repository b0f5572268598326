"""C05 (conjugate symmetry) and C06 (layout) of every returned moment array."""
import ast
from fractions import Fraction as F
from ..core import Report
from ..dom import *
from ..interp import sgn_exp, prov_conj, deep_atoms
from ..poly import Poly
from .. import spec as SP_
from . import generators as G
from .generators import moments, new_interp, show

TABLES = (SP_.INNER, SP_.OUTER, SP_.CLOUD_INNER, SP_.CLOUD_OUTER)


def zero_special(I):
    """some visited function distinguishes order (or index) zero by a test"""
    for fn in I.fvis.values():
        params = {a.arg for a in fn.args.args}
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare):
                sides = [n.left] + n.comparators
                if any(isinstance(s, ast.Constant) and s.value in (0, 1) for s in sides):
                    if not any(isinstance(s, ast.Name) and s.id in params for s in sides) and \
                            not any(isinstance(s, ast.Name) and s.id == 'r' for s in sides):
                        return True
            if isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, (ast.Name, ast.BinOp)):
                return True
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Name):
                return True
    return False


def run_all(rep, prov=False, bounds=False):
    I = new_interp()
    I.trace_prov = prov
    I.trace_bounds = bounds
    for tab in TABLES:
        for mod, fns in tab.items():
            for f, kinds in fns.items():
                qual = mod + '.' + f
                I.events = []
                ms, probs, rets = moments(I, qual, kinds)
                if ms is None:
                    rep.und('entry', qual, probs[0])
                    continue
                rep.functions.add(qual)
                rep.functions.update(I.fvis)
                if probs:
                    rep.und('entry', qual, '; '.join(probs))
                yield I, qual, tab, ms


def unconj(prov, real):
    """real elements are their own conjugates"""
    d = {}
    for (v, i, cj), (c, s) in prov:
        k = (v, i, cj and not real)
        if k in d and d[k][1] != s:
            return None
        d[k] = (d.get(k, (0,))[0] + c, s)
    return {k: v for k, v in d.items() if v[0] != 0}


def coeff(prov):
    t = F(0)
    for (v, i, cj), (c, s) in prov:
        if not s.is_zero():
            return None
        t += c
    return t


def c05(tier):
    rep = Report('C05')
    for I, qual, tab, ms in run_all(rep, prov=True):
        special = None
        paths = {}
        for mo in ms:
            paths.setdefault(mo.path, []).append(mo)
        for path, mos in sorted(paths.items()):
            if 'deg' in I.params and any('deg' in m.l.atoms() for m in mos):
                continue
            cells = [m for m in mos if any(i is not ALL for i in m.idx)]
            for mo in cells:
                where = I.where(mo.node)
                if mo.m.is_zero() and all(isinstance(i, Poly) or i is ALL for i in mo.idx):
                    order0(I, rep, mo, mos, where)
                    continue
                if not all(isinstance(i, Poly) for i in mo.idx):
                    rep.und('conjugate-pair', mo.name, 'not a single cell', where)
                    continue
                mates = [o for o in cells if all(isinstance(i, Poly) for i in o.idx)
                         and o.l == mo.l and (o.m + mo.m).is_zero()]
                if not mates:
                    mates = renamed_mates(I, mo, cells)
                if not mates:
                    rep.und('conjugate-pair', mo.name, 'no counterpart cell derived', where)
                    continue
                pair(I, rep, mo, mates[-1], where)
            base = [m for m in mos if all(i is ALL for i in m.idx)]
            missing(I, rep, qual, cells, base)
            # the order-zero moment is counted once
            if special is None:
                special = zero_special(I)
            once(I, rep, cells, special)
    return rep, ('Provenance of every cell of the returned array with respect to the array before its negative orders '
                 'were filled in, as a linear form in the earlier cells and their conjugates: the form at -m must be '
                 '(-1)^m times the conjugate of the form at m, the form at m = 0 must be real, and order 0 must keep '
                 'the same weight as the other orders.'), 60


def missing(I, rep, qual, cells, base):
    if base or not cells:
        return
    np_ = I.np
    from ..state import State
    st = State()
    for mo in cells:
        if not all(isinstance(i, Poly) for i in mo.idx) or mo.m.is_zero():
            continue
        st = State()
        st.add_fact(mo.m, SNZ)
        mirror = (mo.idx[0], mo.idx[1] - mo.m - mo.m)
        hit = False
        for o in cells:
            if not all(isinstance(i, Poly) for i in o.idx):
                hit = True
                break
            c, e, fr = np_.rename_cell(Cell(o.idx, o.elem, o.node), mirror)
            k, _ = np_.unify(c, fr, mirror, st)
            if k is not None:
                hit = True
                break
        if not hit:
            rep.bad('conjugate-pair', mo.name, 'a nonzero moment of order %s is stored but nothing at order %s' % (
                show(mo.m), show(-mo.m)), I.where(mo.node))


def renamed_mates(I, mo, cells):
    """the cell of another family that lies at the mirrored position"""
    from ..state import State
    target = (mo.idx[0], mo.idx[1] - mo.m - mo.m)
    out = []
    for o in cells:
        if o is mo or not all(isinstance(i, Poly) for i in o.idx):
            continue
        idx, elem, fr = I.np.rename_cell(Cell(o.idx, o.elem, o.node), target)
        st = State()
        for p, sg in mo.elem.facts:
            st.facts[p] = sg
        st.add_fact(mo.m, SNZ)
        kind, sub = I.np.unify(idx, fr, target, st)
        if kind is None or I.np.last_pins or any(a not in sub for i in idx for a in deep_atoms(i) if a in fr):
            continue
        elem = I.subs_num(elem, sub)
        lim = set()
        for a, sol in sub.items():
            sy = I.syms.tab[a]
            lim |= {(sol - lo.subs(sub), SNN) for lo in sy.lo} | {(hi.subs(sub) - sol, SNN) for hi in sy.hi}
        elem = elem.rep(facts=elem.facts | lim)
        n = G.Moment(mo.fn, mo.path, mo.l, -mo.m, elem, target, o.node, mo.L)
        out.append(n)
    return out if len(out) == 1 else []


def pair(I, rep, mo, mate, where):
    a, b = mo.elem.prov, mate.elem.prov
    if a is None:
        a = unchanged(I, mo, b)
    if b is None:
        b = unchanged(I, mate, a)
    pa, pb = a, b
    real = mo.elem.real and mate.elem.real
    if a is None or b is None:
        rep.und('conjugate-pair', mo.name, 'provenance lost', where)
        return
    a = unconj(prov_conj(a), real)
    b = unconj(b, real)
    if a is None or b is None or {k[0] for k in a} != {k[0] for k in b}:
        rep.und('conjugate-pair', mo.name, 'not expressed in one earlier array', where)
        return
    if set(a) != set(b):
        rep.bad('conjugate-pair', mo.name, 'element at order %s is %s but at order %s is %s' % (
            show(mo.m), form(pa), show(mate.m), form(pb)), where)
        return
    for k in a:
        (ca, sa), (cb, sb) = a[k], b[k]
        if abs(ca) != abs(cb):
            rep.bad('conjugate-pair', mo.name, 'weights %s and %s at orders +-%s' % (ca, cb, show(mo.m)), where)
            return
        d = sgn_exp(sa + sb + mo.m + (0 if ca == cb else 1))
        if d.is_zero():
            continue
        fs = mo.elem.facts | mate.elem.facts
        w = I.witness(d, fs, 2)
        if d.is_const() or (w is not None and w[0]):
            rep.bad('conjugate-pair', mo.name, 'element at order %s is %s but at order %s is %s; required factor '
                    '(-1)^m' % (show(mo.m), form(pa), show(mate.m), form(pb)), where)
            return
        if w is None:
            rep.und('conjugate-pair', mo.name, 'sign not decided', where)
            return
    rep.ok('conjugate-pair', mo.name, form(pb), where)


def unchanged(I, mo, other):
    """provenance of a cell that is still what it was in the array version the
    other cell was computed from"""
    vs = {k[0] for k, _ in other or ()}
    if len(vs) != 1:
        return None
    v = next(iter(vs))
    for c, n in I.snapshots.values():
        if n == v:
            for x in c.cells:
                if x.idx == mo.idx and x.elem.key() == mo.elem.key():
                    return (((v, x.idx, False), (F(1), Poly())),)
    return None


def order0(I, rep, mo, mos, where):
    if mo.elem.real:
        rep.ok('order-0-real', mo.name, 'computed from real quantities', where)
        return
    p = mo.elem.prov
    if p is None:
        rep.und('order-0-real', mo.name, 'provenance lost', where)
        return
    a, b = unconj(p, False), unconj(prov_conj(p), False)
    if a is None or b is None:
        rep.und('order-0-real', mo.name, '', where)
    elif a == b:
        rep.ok('order-0-real', mo.name, form(p), where)
    elif len(a) > 1 and set(a) == set(b):
        # x - conj(x): purely imaginary
        rep.bad('order-0-real', mo.name, 'element is %s, not its own conjugate' % form(p), where)
    else:
        rep.und('order-0-real', mo.name, form(p), where)


def once(I, rep, cells, special):
    zero, pos = {}, {}
    for mo in cells:
        if mo.elem.prov is None:
            continue
        c = coeff(mo.elem.prov)
        vs = {k[0] for k, _ in mo.elem.prov}
        if c is None or len(vs) != 1:
            continue
        v = next(iter(vs))
        if mo.m.is_zero():
            zero.setdefault(v, []).append((c, mo))
        elif len(mo.elem.prov) == 1 and not mo.elem.prov[0][0][2]:
            if mo.elem.prov[0][0][1] == mo.idx:
                pos.setdefault(v, set()).add(c)
    for v in zero:
        if v not in pos or len(pos[v]) != 1:
            continue
        c1 = next(iter(pos[v]))
        for c, mo in zero[v]:
            if c == c1:
                rep.ok('order-0-once', mo.name, 'weight %s' % c, I.where(mo.node))
            elif special:
                rep.und('order-0-once', mo.name, 'weight %s against %s, order 0 treated separately' % (c, c1))
            else:
                rep.bad('order-0-once', mo.name, 'order 0 enters the completed array with weight %s, the other orders '
                        'with weight %s' % (c, c1), I.where(mo.node))


def form(p):
    out = []
    for (v, i, cj), (c, s) in p:
        t = 'a[%s]' % ', '.join(show(x) for x in i)
        if cj:
            t = 'conj ' + t
        out.append('%s%s%s' % ('' if c == 1 else '%s ' % c, '' if s.is_zero() else '(-1)^(%s) ' % show(s), t))
    return ' + '.join(out)


def c06(tier):
    rep = Report('C06')
    for I, qual, tab, ms in run_all(rep, bounds=True):
        fn = I.func(qual)
        for path, shape in getattr(I, 'ret_shapes', ()):
            Lp = Poly.atom('L')
            want = (Lp + 1, Lp.scale(2) + 1)
            short = qual.split('newt.')[-1]
            where = '%s:%s' % (qual.rsplit('.', 1)[0], fn.lineno)
            if shape is None or any(x is None for x in shape):
                rep.und('shape', short, 'shape not derivable')
            elif len(shape) != 2:
                rep.bad('shape', short, 'returns an array of rank %d' % len(shape), where)
            elif tuple(shape) == want:
                rep.ok('shape', short, '(L+1, 2L+1)', where)
            else:
                ds = [a - b for a, b in zip(shape, want)]
                if any(set(deep_atoms(d)) <= {'L'} and I.witness(d) and I.witness(d)[0] for d in ds):
                    rep.bad('shape', short, 'returns shape %s' % (tuple(map(show, shape)),), where)
                else:
                    rep.und('shape', short, 'shape %s' % (tuple(map(show, shape)),), where)
        unset(I, rep, ms, qual)
        for mo in ms:
            if not all(isinstance(i, Poly) or i is ALL for i in mo.idx) or all(i is ALL for i in mo.idx):
                continue
            where = I.where(mo.node)
            ok = True
            for d, what in ((mo.l - mo.m, 'order above the degree'), (mo.l + mo.m, 'order below minus the degree')):
                if negative(I, d, mo.elem.facts):
                    rep.bad('triangle', mo.name, what, where)
                    ok = False
            if ok:
                rep.ok('triangle', mo.name, '|m| <= l', where)
            for u, want in (('Yl', mo.l), ('Ym', -mo.m if tab is SP_.CLOUD_INNER else mo.m), ('in-deg', mo.l)):
                if tab in (SP_.CLOUD_INNER, SP_.CLOUD_OUTER):
                    e = mo.elem.g.get(u)
                    if u == 'in-deg' and (isinstance(e, Poly) and e.is_zero()):
                        continue
                    G.judge(I, rep, {'Yl': 'harmonic-degree', 'Ym': 'harmonic-order', 'in-deg': 'radial-degree'}[u],
                            mo, u, want)
        if tab in (SP_.CLOUD_INNER, SP_.CLOUD_OUTER):
            bad = False
            for e in I.events:
                if e['kind'] in ('stale_index', 'filtered_mismatch'):
                    bad = True
                    rep.bad('row-alignment', '%s %s' % (qual.split('newt.')[-1], e['kind']),
                            'data of a subset of the points is combined with data of all points', I.where(e['node']))
            if not bad:
                rep.ok('row-alignment', qual.split('newt.')[-1], 'every elementwise operation is over one set of points')
        for e in I.events:
            if e['kind'] == 'index':
                p, dim, facts = e['data']
                w = '%s in %s' % (I.where(e['node']), qual.split('newt.')[-1])
                cons = '%s %s of %s' % (qual.split('newt.')[-1], e['pos'].replace(' ', ''), e['dim'].replace(' ', ''))
                fs = frozenset((k, v) for k, v in facts.items() if I.R.integral(k))
                if e['what'] == 'write' or e['what'] == 'read':
                    if negative(I, dim - 1 - p, fs):
                        rep.bad('in-bounds', cons, 'index %s of a dimension %s' % (e['pos'], e['dim']), w)
                    elif I.sign(dim - 1 - p, _st(fs)) <= SNN:
                        rep.ok('in-bounds', cons, '', w)
    return rep, ('Shape of the returned array as polynomials in the degree limit, |m| <= l of every stored cell, upper '
                 'bounds of every subscript, and the degree and order of the harmonic each point-cloud cell uses.'), 60


def unset(I, rep, ms, qual):
    """elements no statement fills, of an array created without a value"""
    from ..state import State
    L = Poly.atom('L')
    for mo in ms:
        if not all(i is ALL for i in mo.idx) or 'uninit' not in mo.elem.dep:
            continue
        for pos in ((Poly(), L + 1), (Poly(), L - 1)):
            st = State()
            st.add_fact(L, SP)
            for o in ms:
                if o is mo or o.path != mo.path:
                    continue
                c, e, fr = I.np.rename_cell(Cell(o.idx, o.elem, o.node), pos)
                k, _ = I.np.unify(c, fr, pos, st)
                if k is not None:
                    break
            else:
                rep.bad('unset-element', qual.split('newt.')[-1], 'element (0, %s) of the result is whatever memory '
                        'np.empty returned' % show(pos[1] - L), I.where(mo.node))
                break


def _st(fs):
    from ..state import State
    st = State()
    for p, s in fs:
        st.facts[p] = s
    return st


def negative(I, d, facts):
    """d < 0 for some admissible index values"""
    if d.is_const():
        return d.cval() < 0
    at = deep_atoms(d)
    if any(a for a in at if a not in I.params and a not in I.syms.tab):
        return False
    return bool(I.attains(d, frozenset(facts), SN))
