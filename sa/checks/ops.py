"""Abstract arguments for the operations on moments and points."""
from fractions import Fraction as F
from ..core import Report
from ..dom import *
from ..interp import Interp, deep_atoms
from ..poly import Poly
from ..state import State

P0, P1 = Poly(), Poly.const(1)
D0, D1 = Poly.atom('$0'), Poly.atom('$1')
L = Poly.atom('Lm')
Z = ('ph', 'z')


def qarr(st, name, outer=False, mass='M', deg=L, units=()):
    """a (deg+1, 2 deg+1) moment array of a generic distribution"""
    m = D1 - deg
    g = {'L': (-D0 - 1) if outer else D0, mass: P1, Z: m if outer else -m}
    g.update(dict(units))
    aid = ('arg', name)
    e = Num(None, Grading(g), real=False, dep=frozenset([name]))
    st.store[aid] = ArrC((deg + 1, deg.scale(2) + 1), e, [], 'complex', frozenset([aid]))
    return ArrV(aid)


def vec3(st, I, name, units=()):
    """a displacement vector; (x, y) turn about z with the azimuth atom"""
    aid = ('arg', name)
    cells = []
    for k, c in enumerate('xyz'):
        a = name + '.' + c
        g = {'L': P1}
        g.update(dict(units))
        cells.append(Cell((Poly.const(k),), Num(Poly.atom(a), Grading(g), dep=frozenset([a]))))
        I.atom_g[a] = Grading(g)
    st.store[aid] = ArrC((Poly.const(3),), Num(None, Grading({'L': P1})), cells, 'float', frozenset([aid]))
    I.rotpairs.append((name + '.x', name + '.y'))
    return ArrV(aid)


def deg_arg(I, name='Lm'):
    I.params.add(name)
    I.syms.get(name, [P0], [])
    return Num(Poly.atom(name), sg=SNN, integer=True)


def ang(I, name):
    return Num(Poly.atom(name), Grading(), dep=frozenset([name]))


def fresh():
    from ..core import REPO
    I = Interp(root=REPO)
    deg_arg(I)
    return I


def h_summary(I, args, kw, n, st):
    """rotate_H_recurs(p, beta): real (2k+1, 2k+1) matrices for k = 0..p, functions of beta only"""
    p = args[0].val if args and isinstance(args[0], Num) else None
    b = args[1] if len(args) > 1 else Num()
    i = Poly.atom('$i')
    a = I.new_arr(ArrC((i.scale(2) + 1, i.scale(2) + 1), Num(None, Grading(), dep=b.dep if isinstance(b, Num) else frozenset()),
                       [], 'float', frozenset()), st, n, hint=('H', n.lineno, n.col_offset))
    return ListV(a, None if p is None else p + 1)


def cg_summary(I, args, kw, n, st):
    """Clebsch-Gordan coefficient: a real pure number"""
    return Num(None, Grading())


SUMM = {'newt.rotations.rotate_H_recurs': h_summary, 'newt.clebschGordan.cgCoeff': cg_summary,
        'newt.clebschGordan.cgCoeff2': cg_summary}


# ------------------------------------------------------------ reading results
def visible(I, c, st, tag=''):
    """[(position, element, node)] of the cells of an array nobody overwrote,
    at generic symbolic positions"""
    lib = I.np
    out = []
    ents = list(c.cells)
    for k, cell in enumerate([Cell((ALL,) * c.ndim, c.base)] + ents):
        if cell.elem.zero and not cell.elem.dep:
            continue
        idx, elem, frees = lib.rename_cell(cell)
        pos = []
        for ax, i in enumerate(idx):
            if isinstance(i, Poly):
                pos.append(i)
                continue
            nm = 'p%d%s' % (ax, tag)
            lo, hi = P0, c.shape[ax]
            if i is not ALL:
                lo = i[1] if i[1] is not None else lo
                hi = i[2] if i[2] is not None else hi
            nm = '%s@%d:%s:%r:%r' % (nm, k, id(c) % 9973 if False else 0, lo, hi)
            I.syms.get(nm, [lo], [] if hi is None else [hi - 1])
            pos.append(Poly.atom(nm))
        elem = I.subs_num(elem, {'$%d' % ax: p for ax, p in enumerate(pos)})
        later = ArrC(c.shape, I.num(0), ents[k:], c.dtype)
        hidden = False
        for cell2 in later.cells:
            cidx, _, fr = lib.rename_cell(cell2)
            mp = {a: Poly.atom(a + '#') for a in fr}
            fr2 = []
            for a in fr:
                v = I.syms.variant(a, mp, '#')
                fr2.append(v)
            cidx = tuple(lib.subs_idx(i, mp) for i in cidx)
            kind, sub = lib.unify(cidx, fr2, tuple(pos), st)
            if kind == 'must' and not lib.last_pins:
                hidden = True
                break
        if not hidden:
            out.append((tuple(pos), elem, cell.node))
    return out


class Law:
    """required exponents of an operation's result"""

    def __init__(self, rep, rule, name):
        self.rep, self.rule, self.name = rep, rule, name


def expo(I, rep, rule, name, elem, u, want, node, alts=(), facts=frozenset()):
    """one obligation: exponent of unit u of elem is the polynomial want"""
    from .generators import provably_differs
    e = elem.g.get(u)
    where = I.where(node) if node is not None else ''
    if isinstance(e, Bad):
        rep.bad(rule, name, e.why, I.where(e.node) if e.node is not None else where)
        return
    if isinstance(e, Alt):
        rs = [all(provably_differs(I, x, w, u, fs | elem.facts) for w in [want] + list(alts))
              for x, fs in sorted(e.es, key=repr)]
        if any(rs):
            rep.bad(rule, name, 'depending on the path the exponent of %s is one of %r, required %r' % (u, e, want), where)
        else:
            rep.und(rule, name, 'exponent depends on the path', where)
        return
    if not isinstance(e, Poly):
        rep.und(rule, name, 'exponent not derivable', where)
        return
    rs = [provably_differs(I, e, w, u, elem.facts | facts) for w in [want] + list(alts)]
    if False in rs:
        rep.ok(rule, name, 'exponent %r' % e, where)
    elif None in rs:
        rep.und(rule, name, 'derived exponent %r' % e, where)
    else:
        rep.bad(rule, name, 'derived exponent %r of %s, required %r' % (e, u, want), where)


def run(I, rep, qual, args, st):
    """outcomes of one function, or [] with an undecided entry"""
    fn = I.func(qual)
    if fn is None:
        rep.und('entry', qual, 'vanished')
        return []
    need = len(fn.args.args) - len(fn.args.defaults)
    if not (need <= len(args) <= len(fn.args.args)):
        rep.und('entry', qual, 'signature')
        return []
    I.reset()
    try:
        outs = I.run(qual, args, st)
    except Exception as e:
        rep.und('entry', qual, '%s: %s' % (type(e).__name__, e))
        return []
    rep.functions.add(qual)
    rep.functions.update(I.fvis)
    return [(k, s, c[1], c[2] if len(c) > 2 else None) for k, (s, c) in enumerate(outs) if c[0] == 'ret']


def coverage(I, c, pos, domain, st, want=lambda e: True, top=5):
    """is every position pos(l, m) of a triangular domain stored?  domain:
    [(symbol, lo, hi)] in order, bounds Polys over Lm and earlier symbols.
    -> ('ok', text) | ('bad', assignment) | ('undecided', text)"""
    lib = I.np
    conds = []
    for cell in reversed(c.cells):
        if not want(cell.elem):
            conds.append((False, None))
            continue
        idx, elem, fr = lib.rename_cell(cell, pos)
        kind, sub = lib.unify(idx, fr, pos, st)
        if kind is None and sub is None:
            continue
        cs = []
        for i, p in zip(idx, pos):
            if i is ALL:
                continue
            if isinstance(i, Poly):
                cs.append(('==', i.subs(sub) - p))
            else:
                if i[1] is not None:
                    cs.append(('>=', p - i[1].subs(sub)))
                if i[2] is not None:
                    cs.append(('>=', i[2].subs(sub) - 1 - p))
        for a, sol in sub.items():
            sy = I.syms.tab[a]
            cs += [('>=', sol - lo.subs(sub)) for lo in sy.lo] + [('>=', hi.subs(sub) - sol) for hi in sy.hi]
        conds.append((True, cs))
    und = None

    def ev(p, env):
        q = p.subs(env)
        return q.cval() if q.is_const() else None

    def assigns(k, env):
        if k == len(domain):
            yield env
            return
        nm, lo, hi = domain[k]
        a, b = ev(lo, env), ev(hi, env)
        for v in range(int(a), int(b) + 1):
            e = dict(env)
            e[nm] = Poly.const(v)
            yield from assigns(k + 1, e)
    n = 0
    for Lv in range(0, top + 1):
        for env in assigns(0, {'Lm': Poly.const(Lv)}):
            n += 1
            hit = False
            for good, cs in conds:
                r = True
                for op, p in cs or ():
                    x = ev(p, env)
                    if x is None:
                        r = None
                    elif (x != 0 if op == '==' else x < 0):
                        r = False
                        break
                if not good:
                    continue
                if r is True:
                    hit = True
                    break
                if r is None:
                    hit = None
            if hit is False:
                return 'bad', ', '.join('%s=%s' % (a, b) for a, b in sorted((x, repr(y)) for x, y in env.items()))
            if hit is None:
                und = env
    if und is not None:
        return 'undecided', 'stored positions not decidable at %r' % und
    return 'ok', 'all positions stored (%d tabulated)' % n
