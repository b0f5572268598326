"""C21 changing the degree limit of moments keeps every moment in its place."""
from .ops import *
from .forces import LM, moments_val, at_pos
from ..algebra import Opaque
from .translate import Moved, fixed_moments, engine, literals, put, el

QUAL = 'newt.multipoleLib.embed_qlm'


def shape_of(s, v):
    return s.store[v.aid].shape if isinstance(v, ArrV) else None


def any_limits(rep):
    """symbolic limits: old Lm, new Lo"""
    I = engine()
    st = State()
    Lo = Poly.atom('Lo')

    q = moments_val(st, I, 'q', False, 'M')
    done = set()
    for k, s, v, node in run(I, rep, QUAL, [q, deg_arg(I, "Lo")], st):
        nm = 'embed_qlm.path%d' % k
        sg = I.sign(Lo - LM, s)
        if not isinstance(v, ArrV):
            continue
        sh = shape_of(s, v)
        want = (Lo + 1, Lo.scale(2) + 1)
        if len(sh) != 2:
            rep.bad('shape', nm, 'the array returned has %d axes' % len(sh), I.where(node))
            continue
        if all(I.sign(a - b, s) == SZ for a, b in zip(sh, want)):
            rep.ok('shape', nm, '(LNew+1) x (2 LNew+1)')
        for what, rows in (('kept', None), ('new', LM + 1)):
            s1 = s.copy()
            l, m = Poly.atom('l@'), Poly.atom('m@')
            I.syms.get('l@', [P0], [Lo])
            I.syms.get('m@', [-l], [l])
            for x in (l, Lo - l, l - m, l + m, Lo + m, Lo - m):
                s1.add_fact(x, SNN)
            s1.add_fact(LM - l if rows is None else l - LM - 1, SNN)
            if rows is not None and '+' not in sg:
                continue
            e = at_pos(I, s1, v, l, Lo + m)
            if e is None or e.val is None:
                continue
            w = el('q', l, m) if rows is None else Poly()
            if (e.val - w).is_zero() or rows is None and I.sign(Lo - LM, s) == SZ and (e.val.subs({'Lo': LM}) - w).is_zero():
                rep.ok('place', '%s.%s' % (nm, what), 'every degree and order')
    return I


def fixed(rep, pairs):
    """given limits"""
    vis = {}
    for a, b in pairs:
        I = engine(max(a, b))
        st = State()
        q = fixed_moments(st, 'q', a)
        nm = 'embed_qlm.from%d.to%d' % (a, b)
        for k, s, v, node in run(I, rep, QUAL, [q, I.num(b)], st):
            if b < 0:
                ok = isinstance(v, Num) and v.val is not None and v.val.is_zero()
                (rep.ok if ok else rep.und)('place', nm, '0')
                continue
            if not isinstance(v, ArrV):
                if isinstance(v, Num) and v.val is not None:
                    rep.bad('place', nm, 'a number is returned', I.where(node))
                else:
                    rep.und('place', nm, 'returns %s' % v.kind)
                continue
            sh = shape_of(s, v)
            if not all(x.is_const() for x in sh):
                rep.und('place', nm, 'shape not derivable')
                continue
            if tuple(x.cval() for x in sh) != (b + 1, 2 * b + 1):
                rep.bad('place', nm, 'shape %s' % (tuple(int(x.cval()) for x in sh),), I.where(node))
                continue
            con = Moved({'Lm': a})
            con.real = 'none'
            res = []
            for l in range(b + 1):
                for m in range(-b, b + 1):
                    e = at_pos(I, s, v, Poly.const(l), Poly.const(b + m))
                    w = el('q', l, m) if l <= a and abs(m) <= a else Poly()
                    if e is not None and e.val is not None and (e.val - w).is_zero():
                        res.append(None)
                    elif abs(m) <= l:
                        res.append(compare_plain(I, e, w, con, s, node))
            put(rep, 'place', nm, res, len(res))
        vis.update(I.fvis)
    return vis


def compare_plain(I, e, w, con, s, node):
    if e is None or e.val is None:
        return 'value not derivable'
    try:
        got = con(e.val)
        if (got - con(w)).is_zero():
            return None
    except (Opaque, KeyError, ZeroDivisionError):
        pass
    from ..algebra import differ_all
    from .translate import At
    qv = lambda env, l, m: complex(env.base(('qre', l, m)), env.base(('qim', l, m)))
    d = differ_all(e.val, [w], lambda env: [0], (), list(s.facts.items()), At(con.ints, {'q': qv}))
    return (d, I.where(node)) if d is not None else 'equality of the terms not shown'


def c21(tier):
    rep = Report('C21')
    any_limits(rep)
    n = 5 if tier == 'quick' else 8
    pairs = [(a, b) for a in range(n + 1) for b in range(-1, n + 1)]
    class V: pass
    v = V()
    v.fvis = fixed(rep, pairs)
    more = set()
    for c in literals(v):
        more |= {(a, b) for a in (1, c - 1, c, c + 1) for b in (0, c - 1, c, c + 1)}
    fixed(rep, sorted(more - set(pairs)))
    return rep, ('Each element of the array returned by embed_qlm compared with the element given of the same degree and order, '
                 'for any limits where derivable and for every pair of small limits.'), 20
