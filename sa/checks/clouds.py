"""C17 point clouds: where the points of a cloud lie, which grid points are
kept, and the mass they carry, compared with the solid the cloud stands for."""
import math, random
from .ops import *
from ..algebra import Env, holds, Opaque, nand_of
from ..interp import Unsupported

GS, GG = 'newt.glibShapes.', 'newt.gShapeGL.'
PI = math.pi
SAMPLES = [200]


def wedge_box(r1, r2, b):
    lo = r1 * math.cos(b) if b < PI / 2 else r2 * math.cos(b)
    y = r2 * math.sin(b) if b < PI / 2 else r2
    return (lo, r2), (-y, y)


def azi(x, y):
    return abs(math.atan2(y, x))


def sector(v, x, y):
    """distance from the axis of the side of a regular prism next to (x, y)"""
    ph = PI / v['N']
    q = math.atan2(y, x) % (2 * ph)
    return math.hypot(x, y) * math.cos(q - 2 * ph if q > ph else q)


def sym(*hs):
    return tuple((-h, h) for h in hs)


# arguments after the mass; inside(v, x, y, z); bounding box; numbers of points
SPEC = {
    GS + 'sphere': ('R N:n', lambda v, x, y, z: x * x + y * y + z * z <= v['R'] ** 2, lambda v: sym(v['R'], v['R'], v['R']),
                    'N N N'),
    GS + 'rectangle': ('x y z nx:n ny:n nz:n', lambda v, x, y, z: abs(2 * x) <= v['x'] and abs(2 * y) <= v['y'] and abs(2 * z) <= v['z'],
                       lambda v: sym(v['x'] / 2, v['y'] / 2, v['z'] / 2), 'nx ny nz'),
    GS + 'annulus': ('r1 r2:>r1 t nx:n nz:n', lambda v, x, y, z: v['r1'] <= math.hypot(x, y) <= v['r2'] and abs(2 * z) <= v['t'],
                     lambda v: sym(v['r2'], v['r2'], v['t'] / 2), 'nx nx nz'),
    GS + 'cone': ('R H beta:b nx:n nz:n', lambda v, x, y, z: azi(x, y) <= v['beta'] and
                  math.hypot(x, y) <= v['R'] * (1 - z / v['H']) and z >= 0,
                  lambda v: wedge_box(0, v['R'], v['beta']) + ((0, v['H']),), 'nx nx nz'),
    GS + 'wedge': ('r1 r2:>r1 t beta:b nx:n nz:n', lambda v, x, y, z: azi(x, y) <= v['beta'] and
                   v['r1'] <= math.hypot(x, y) <= v['r2'] and abs(2 * z) <= v['t'],
                   lambda v: wedge_box(v['r1'], v['r2'], v['beta']) + sym(v['t'] / 2), 'nx nx nz'),
    GS + 'trapezoid': ('r1 r2:>r1 t beta:q nx:n nz:n', lambda v, x, y, z: azi(x, y) <= v['beta'] and
                       v['r1'] * math.cos(v['beta']) <= x <= v['r2'] * math.cos(v['beta']) and abs(2 * z) <= v['t'],
                       lambda v: ((v['r1'] * math.cos(v['beta']), v['r2'] * math.cos(v['beta'])),) +
                       sym(v['r2'] * math.sin(v['beta']), v['t'] / 2), 'nx nx nz'),
    GS + 'outer_cone': ('r1 r2:>r1 H beta:b nx:n nz:n', lambda v, x, y, z: azi(x, y) <= v['beta'] and z >= 0 and
                        v['r1'] <= math.hypot(x, y) <= v['r2'] - z * (v['r2'] - v['r1']) / v['H'],
                        lambda v: wedge_box(v['r1'], v['r2'], v['beta']) + ((0, v['H']),), 'nx nx nz'),
    GS + 'tri_prism': ('d y1:s y2:>y1 t nx:n ny:n nz:n', lambda v, x, y, z: 0 <= x <= v['d'] and
                       v['y1'] * x <= y * v['d'] <= v['y2'] * x and abs(2 * z) <= v['t'],
                       lambda v: ((0, v['d']), (min(0, v['y1']), max(0, v['y2']))) + sym(v['t'] / 2), 'nx ny nz'),
    GS + 'tetrahedron': ('x y1:s y2:>y1 z nx:n ny:n nz:n', lambda v, x, y, z: 0 <= x <= v['x'] and
                         v['y1'] * x <= y * v['x'] <= v['y2'] * x and 0 <= z <= v['z'] * (1 - x / v['x']),
                         lambda v: ((0, v['x']), (min(0, v['y1']), max(0, v['y2'])), (0, v['z'])), 'nx ny nz'),
    GS + 'ngon_prism': ('H a N:g nx:n nz:n', lambda v, x, y, z: sector(v, x, y) <= v['a'] / 2 / math.tan(PI / v['N']) and
                        abs(2 * z) <= v['H'],
                        lambda v: sym(*[v['a'] / 2 / math.sin(PI / v['N'])] * 2) + sym(v['H'] / 2), 'nx nx nz'),
    GS + 'pyramid': ('x y z nx:n ny:n nz:n', lambda v, x, y, z: 0 <= z <= v['z'] * (1 - max(abs(2 * x / v['x']), abs(2 * y / v['y']))),
                     lambda v: sym(v['x'] / 2, v['y'] / 2) + ((0, v['z']),), 'nx ny nz'),
    GS + 'cylhole': ('r R:>r nx:n nz:n', lambda v, x, y, z: math.hypot(x, y) <= v['r'] and math.hypot(y, z) <= v['R'],
                     lambda v: sym(v['r'], v['r'], v['R']), 'nx nx nz'),
    GS + 'platehole': ('t r theta:h nx:n ny:n nz:n', lambda v, x, y, z: abs(2 * z) <= v['t'] and
                       y * y + ((x - z * math.tan(v['theta'])) * math.cos(v['theta'])) ** 2 <= v['r'] ** 2,
                       lambda v: sym(v['r'] / math.cos(v['theta']) + abs(math.tan(v['theta'])) * v['t'] / 2, v['r'], v['t'] / 2),
                       'nx ny nz'),
    GG + 'rectangle': ('x y z dx:n dy:n dz:n', lambda v, x, y, z: abs(2 * x) <= v['x'] and abs(2 * y) <= v['y'] and abs(2 * z) <= v['z'],
                       lambda v: sym(v['x'] / 2, v['y'] / 2, v['z'] / 2), 'dx dy dz'),
    GG + 'sphere': ('r dd:n', lambda v, x, y, z: x * x + y * y + z * z <= v['r'] ** 2, lambda v: sym(v['r'], v['r'], v['r']), 'dd dd dd'),
    GG + 'annulus': ('iR oR:>iR t dd:n dz:n', lambda v, x, y, z: v['iR'] <= math.hypot(x, y) <= v['oR'] and abs(2 * z) <= v['t'],
                     lambda v: sym(v['oR'], v['oR'], v['t'] / 2), 'dd dd dz'),
    GG + 'cone': ('R H dd:n dz:n', lambda v, x, y, z: math.hypot(x, y) <= v['R'] * (1 - z / v['H']) and z >= 0,
                  lambda v: sym(v['R'], v['R']) + ((0, v['H']),), 'dd dd dz'),
    GG + 'wedge': ('iR oR:>iR t theta:b dd:n dz:n', lambda v, x, y, z: azi(x, y) <= v['theta'] and
                   v['iR'] <= math.hypot(x, y) <= v['oR'] and abs(2 * z) <= v['t'],
                   lambda v: wedge_box(v['iR'], v['oR'], v['theta']) + sym(v['t'] / 2), 'dd dd dz'),
    GG + 'tri_prism': ('d y1:s y2:>y1 t dx:n dy:n dz:n', lambda v, x, y, z: 0 <= x <= v['d'] and
                       v['y1'] * x <= y * v['d'] <= v['y2'] * x and abs(2 * z) <= v['t'],
                       lambda v: ((0, v['d']), (min(0, v['y1']), max(0, v['y2']))) + sym(v['t'] / 2), 'dx dy dz'),
}


def params(spec):
    return [(x.split(':') + [''])[:2] for x in spec.split()]


def sample(spec, seed):
    """sizes of one solid"""
    r = random.Random(seed)
    v = {'mass': r.uniform(.3, 3)}
    ns = list(range(2, 9))
    r.shuffle(ns)
    for nm, k in params(spec):
        if k == 'n':
            v[nm] = ns.pop()
        elif k == 'g':
            v[nm] = r.choice([3, 4, 5, 6, 8])
        elif k == 'b':
            v[nm] = r.uniform(.2, 1.5) if seed % 2 else r.uniform(1.6, 3.1)
        elif k == 'q':
            v[nm] = r.uniform(.2, 1.45)
        elif k == 'h':
            v[nm] = r.uniform(.1, 1.1) * (-1 if seed % 2 else 1)
        elif k == 's':
            v[nm] = r.uniform(-2, 2)
        elif k[:1] == '>':
            v[nm] = v[k[1:]] + r.uniform(.2, 3)
        else:
            v[nm] = r.uniform(.3, 2.5)
    return v


def about(p):
    """every symbol a condition depends on"""
    fs = nand_of(p)
    return p.deep() if fs is None else p.deep() | {x for f, _ in fs for x in about(f)}


class Known(Env):
    """terms at given sizes and loop positions"""

    def __init__(self, v):
        Env.__init__(self, 0)
        self.v = v

    def base(self, key):
        if key not in self.v:
            raise Opaque
        return self.v[key]

    def atom(self, a):
        if isinstance(a, str) and a in self.v:
            return self.v[a]
        if isinstance(a, tuple) and a[:2] == ('el', 'gs'):
            return 2 * (self.val(a[3]) + .5) / self.val(a[2]) - 1
        if isinstance(a, tuple) and a[:2] == ('el', 'gw'):
            return 2 / self.val(a[2])
        return Env.atom(self, a)


class Missing(Exception):
    pass


def column0(i):
    return isinstance(i, Num) and i.val is not None and i.val.is_zero()


class Cloud:
    def __init__(self, rep, fn):
        self.rep, self.fn = rep, fn
        spec, self.inside, self.box, cnt = SPEC[fn]
        self.spec, self.counts = spec, cnt.split()
        I = self.I = fresh()
        I.alg = I.exact = True
        I.overrides = {}
        I.trail = []
        self.tot = {}
        st = State()
        args = [Num(Poly.atom('mass'), sg=SP)]
        for nm, k in params(spec):
            if k in ('n', 'g'):
                I.params.add(nm)
                I.syms.get(nm, [P1], [])
                args.append(Num(Poly.atom(nm), sg=SP, integer=True))
            else:
                args.append(Num(Poly.atom(nm), Grading(), sg=SIGNS_ALL if k in ('s', 'h') or spec and nm == 'y2' else SP))
        I.loop_hook = self.settled
        I.np.n_sum_ = I.np.n_sum
        I.np.n_sum = self.total
        self.outs = I.run(fn, args, st)

    def settled(self, st):
        """after the loops any row of the cloud is col0, col1, col2, col3"""
        I = self.I
        for aid, c in list(st.store.items()):
            if c.ndim != 2 or c.shape[1] != Poly.const(4) or c.meta.get('view') or not c.cells:
                continue
            cells = []
            for k in range(4):
                e = I.np.at(c, (Poly.atom('row'), Poly.const(k)), st)
                if k or e is None or e.val is None or any('@' in str(a) or a == 'row' for a in e.val.deep()):
                    e = Num(Poly.atom('col%d' % k), Grading())
                cells.append(Cell((ALL, Poly.const(k)), e))
            st.store[aid] = ArrC(c.shape, c.base, cells, c.dtype, c.roots, dict(c.meta))

    def total(self, a, k, n, st):
        """the sum of the masses of a cloud"""
        I = self.I
        v = a[0]
        if isinstance(v, ArrV) and len(a) == 1 and not k and not I.live:
            c = st.store[v.aid]
            if c.ndim == 1:
                e = I.np.at(c, (Poly.atom('row'),), st)
                if e is not None and e.val is not None and not e.val.atoms() & {'col1', 'col2', 'col3'}:
                    nm = 'T%d' % len(self.tot)
                    self.tot[nm] = e.val
                    return Num(Poly.atom(nm), Grading(), sg=SP)
        return I.np.n_sum_(a, k, n, st)

    # ------------------------------------------------------------------ rows
    def rows(self):
        """{(node, facts): coordinates, index, loops}"""
        I = self.I
        got = {}
        for kind, n, data, facts, live in I.trail:
            if kind != 'store' or not live:
                continue
            base, idx, v, aug = data
            i = idx[0]
            if not isinstance(i, Num):
                continue
            fk = frozenset(facts.items())
            key = (tuple(x for x in live if '@i:' in x), fk)
            r = got.setdefault(key, dict(cols={}, at={}, index=[], facts=facts, live=live, node=n, where={}))
            r['live'] = live
            if i.val is None:
                raise Opaque
            if i.val not in r['index']:
                r['index'].append(i.val)
            r['last'] = i.val
            for k, x in self.columns(idx[1:], v, aug and r['cols']):
                r['cols'][k] = x
                r['at'][k] = i.val
                r['where'][k] = n
        full = [r for r in got.values() if {1, 2, 3} <= set(r['cols'])]
        outside = any(k == 'store' and not live and (len(d[1]) < 2 or not column0(d[1][1])) for k, n, d, f, live in I.trail)
        part = [r for r in got.values() if r['cols'] and set(r['cols']) <= {0, 1, 2, 3}]
        if not full and len(part) == 1 and not outside:
            miss = sorted({1, 2, 3} - set(part[0]['cols']))
            raise Missing('%s of the points is never stored' % ', '.join('xyz'[k - 1] for k in miss), I.where(part[0]['node']))
        return full, got

    def columns(self, idx, v, have):
        if have and idx and isinstance(idx[0], Num) and idx[0].val is not None and idx[0].val.is_const() and \
                int(idx[0].val.cval()) in have and isinstance(v, Num) and v.val is None:
            return []       # later passes: the first pass saw the element as it was before the loops
        def term(x):
            if not isinstance(x, Num) or x.val is None:
                raise Opaque
            return x.val
        if not idx:
            lo, hi = 0, 4
        elif isinstance(idx[0], Num):
            if idx[0].val is None or not idx[0].val.is_const():
                raise Opaque
            return [(int(idx[0].val.cval()), term(v))]
        else:
            s = idx[0]
            ends = []
            for x, d in ((getattr(s, 'lo', None), 0), (getattr(s, 'hi', None), 4)):
                if isinstance(x, Num):
                    if x.val is None or not x.val.is_const():
                        raise Opaque
                    d = int(x.val.cval())
                elif x is not None and x.kind != 'none':
                    raise Opaque
                ends.append(d)
            lo, hi = ends
        if isinstance(v, Seq) and len(v.items) == hi - lo:
            return [(lo + k, term(x)) for k, x in enumerate(v.items)]
        raise Opaque

    def ranges(self, live):
        out = {}
        for s in live:
            if '@i:' not in s:
                continue
            t = self.I.syms.tab[s]
            if len(t.lo) != 1 or len(t.hi) != 1:
                raise Opaque
            out[s] = (t.lo[0], t.hi[0] + 1)
        return out


def bad_at(r, I, k):
    return I.where(r['where'][k])


def check_nodes(C, rows):
    """each coordinate runs over equal cells (or Gauss-Legendre nodes) of an
    interval covering the solid"""
    res = []
    for r in rows:
        rg = C.ranges(r['live'])
        used = set()
        for k in (1, 2, 3):
            p = r['cols'][k]
            mine = [s for s in rg if s in p.deep()]
            if len(mine) != 1 or mine[0] in used:
                raise Opaque
            s = mine[0]
            used.add(s)
            msg = None
            for seed in range(40):
                v = sample(C.spec, seed)
                env = Known(dict(v))
                if not params_ok(C, r, env, rg):
                    continue
                lo, hi = env.val(rg[s][0]), env.val(rg[s][1])
                n = v[C.counts[k - 1]]
                if hi - lo != n:
                    msg = '%d positions along %s instead of %s' % (hi - lo, 'xyz'[k - 1], C.counts[k - 1])
                    break
                at = lambda u: Known(dict(v, **{s: lo + u * (hi - lo) - .5})).val(p)
                a, b = at(0), at(1)
                if abs(at(.3) - a - .3 * (b - a)) > 1e-9 * (abs(a) + abs(b)):
                    raise Opaque
                a, b = min(a, b), max(a, b)
                w = C.box(v)[k - 1]
                tol = 1e-9 * (abs(a) + abs(b))
                if w[0] < a - tol or w[1] > b + tol:
                    msg = '%s from %.4g to %.4g but the solid reaches from %.4g to %.4g (%s)' % (
                        'xyz'[k - 1], a, b, w[0], w[1], brief(v))
                    break
            res.append(('xyz'[k - 1], msg and (msg, bad_at(r, C.I, k))))
    return res


def brief(v):
    return ', '.join('%s=%.3g' % (k, x) for k, x in v.items() if k != 'mass')


def params_ok(C, r, env, rg):
    """conditions on the sizes only"""
    for p, sg in r['facts'].items():
        if any(s in about(p) for s in rg):
            continue
        if not holds(env, p, sg):
            return False
    return True


def filters(C):
    """(conditions, complete) of the comprehensions that keep points"""
    out = {}
    for kind, n, data, facts, live in C.I.trail:
        if kind == 'filter':
            b, it = data
            if b.b is True:
                continue
            if b.b is False or not b.pos or any(p is None for p, _ in b.pos):
                raise Opaque
            ps = [(p, sg) for p, sg in b.pos]
            if not all(any(a in p.deep() for a in ('col1', 'col2', 'col3')) for p, _ in ps):
                raise Opaque
            out[(n.lineno, n.col_offset)] = ps
    for nd, s, c in results(C):
        for a in c.shape[0].atoms() if c.shape[0] is not None else ():
            if isinstance(a, tuple) and a[0] == 'nsel':
                out[repr(a)] = [(a[1], frozenset('+'))]
    return [f for fs in out.values() for f in fs]


def points(C, rows, count):
    """(sizes, coordinates, loop values) of points in the boxes and near the faces of the solid"""
    for seed in range(count):
        v = sample(C.spec, seed)
        rnd = random.Random(seed + 1000)
        for r in rows:
            rg = C.ranges(r['live'])
            break
        env = Known(dict(v))
        for _ in range(12):
            w = dict(v)
            for s, (lo, hi) in rg.items():
                a, b = env.val(lo), env.val(hi)
                w[s] = a + rnd.random() * (b - a) - .5
            yield v, w


def fires(env, facts):
    return all(holds(env, p, sg) for p, sg in facts.items())


def check_member(C, rows, fl):
    """the points kept are those inside the solid"""
    live = {tuple(s for s in r['live'] if '@i:' in s) for r in rows}
    if len(live) != 1:
        raise Opaque
    n = [0, 0]
    for v, w in points(C, rows, SAMPLES[0]):
        env = Known(w)
        rg = C.ranges(rows[0]['live'])
        here = [r for r in rows if params_ok(C, r, env, rg)]
        if not here:
            continue
        on = [r for r in here if fires(env, r['facts'])]
        if len(on) > 1:
            return ('one point is stored %d times (%s)' % (len(on), brief(v)), C.I.where(on[1]['node'])), n
        got = bool(on)
        pos = [env.val(here[0]['cols'][k]) for k in (1, 2, 3)] if not on else [env.val(on[0]['cols'][k]) for k in (1, 2, 3)]
        if on and fl:
            w2 = dict(w, col1=pos[0], col2=pos[1], col3=pos[2])
            if on[0]['cols'].get(0) is not None:
                w2['col0'] = env.val(on[0]['cols'][0])
            e2 = Known(w2)
            got = all(holds(e2, p, sg) for p, sg in fl)
        # points within rounding of a face say nothing
        near = {C.inside(v, *[p * s for p in pos]) for s in (1 - 1e-9, 1 + 1e-9)}
        if len(near) > 1:
            continue
        want = near.pop()
        n[want] += 1
        if got != want:
            return ('point (%.4g, %.4g, %.4g) is %s although %s the solid (%s)' % (
                *pos, 'kept' if got else 'dropped', 'inside' if want else 'outside', brief(v)),
                C.I.where((on or rows)[0]['node'])), n
    return None, n


def check_rows(C, rows, fl):
    """every kept point has its own row and every row kept holds a point"""
    I = C.I
    idx = {r['last'] for r in rows}
    ws = {a for p in idx for a in p.atoms() if isinstance(a, str) and a.startswith('w:')}
    incs = {}
    for kind, nd, (name, old, new), facts, live in [e for e in I.trail if e[0] == 'name']:
        if new - old == P1:
            incs.setdefault(name, {})[(id(nd), frozenset(facts.items()))] = (nd, facts)
    name = {w[2:].split('@')[0] for w in ws}
    if not ws:
        return flat_rows(C, rows)
    if len(name) != 1 or not incs.get(min(name)):
        raise Opaque
    name = min(name)
    for r in rows:
        first, last = r['index'][0], r['last']
        if first.is_const() and not first.is_zero():
            return ('first point in row %r' % first, I.where(r['node']))
    one = list(incs[name].values())
    for v, w in points(C, rows, 60):
        env = Known(w)
        st = sum(fires(env, r['facts']) for r in rows)
        ic = sum(fires(env, f) for nd, f in one)
        if ic > st:
            return ('row counted without a point stored (%s)' % brief(v), I.where(one[0][0]))
        if ic < st:
            return ('points stored in the same row (%s)' % brief(v), I.where(rows[0]['node']))
    partial = any(not any(fires(Known(w), r['facts']) for r in rows) for v, w in points(C, rows, 20))
    for k, s, c in results(C):
        n = c.shape[0]
        if not any(reached(C, s, sample(C.spec, i)) for i in range(12)):
            continue
        if n is None:
            if not fl:
                raise Opaque
            continue
        if partial and all(a in C.counts for a in n.atoms()):
            return ('all %r rows are returned, also those without a point' % n, I.where(k))
        if not fl and not any(isinstance(a, str) and a.startswith('w:' + name) for a in n.atoms()) and \
                not all(a in C.counts for a in n.atoms()):
            raise Opaque
        if any(isinstance(a, str) and a.startswith('w:' + name) for a in n.atoms()):
            d = n - Poly.atom([a for a in n.atoms() if isinstance(a, str) and a.startswith('w:' + name)][0])
            if not d.is_zero():
                return ('%r rows more than points are returned' % d, I.where(k))
    return None


def flat_rows(C, rows):
    """rows numbered by the loop positions"""
    for r in rows:
        rg = C.ranges(r['live'])
        odd = [k for k, p in r['at'].items() if p != r['at'][1]]
        if odd:
            return ('column %d in another row than column 1: %r, %r' % (odd[0], r['at'][odd[0]], r['at'][1]),
                    C.I.where(r['where'][odd[0]]))
        for seed in range(6):
            v = sample(C.spec, seed)
            env = Known(dict(v))
            seen = set()
            tot = 1
            for s, (lo, hi) in rg.items():
                tot *= int(env.val(hi) - env.val(lo))
            def go(ss, w):
                if not ss:
                    seen.add(round(Known(w).val(r['last']), 6))
                    return
                lo, hi = rg[ss[0]]
                for i in range(int(env.val(lo)), int(env.val(hi))):
                    go(ss[1:], dict(w, **{ss[0]: i}))
            go(list(rg), dict(v))
            if len(seen) != tot or min(seen) < 0 or max(seen) > tot - 1:
                return ('%d points share %d rows (%s)' % (tot, len(seen), brief(v)), C.I.where(r['node']))
    return None


def results(C):
    """(node, state, array) of the clouds returned"""
    for o in C.outs:
        s, r = o[0], o[1]
        v = r[1]
        if isinstance(v, ArrV) and s.store[v.aid].ndim == 2:
            yield (r[2] if len(r) > 2 else None), s, s.store[v.aid]
        elif not (isinstance(v, (Seq, ListV)) and not getattr(v, 'items', 1)):
            raise Opaque


def gauss(p, kind):
    return [a for a in p.deep() if isinstance(a, tuple) and a[:2] == ('el', kind)]


def check_mass(C, rows, fl):
    """masses: equal, or products of the weights of the nodes; their sum"""
    I = C.I
    found = 0
    some = None
    for nd, s, c in results(C):
        e = I.np.at(c, (Poly.atom('row'), Poly.const(0)), s)
        if e is None or e.val is None:
            raise Opaque
        n, p = c.shape[0], e.val
        ts = [t for t in C.tot if t in p.deep()]
        if len(ts) > 1 or ts and 'col0' in p.deep() and C.tot[ts[0]].deep() != {'col0'}:
            raise Opaque
        stored = [r['cols'].get(0) for r in rows]
        if 'col0' in p.deep() and any(x is None for x in stored):
            raise Opaque
        if not ts and n is None and not p.deep() - {'col0'} - set(sample(C.spec, 0)) - {'pi'}:
            return ('masses are not rescaled to the points kept', I.where(nd))
        ok = 0
        for seed in range(40):
            v = sample(C.spec, seed)
            if not reached(C, s, v):
                continue
            w = dict(v)
            for a in p.deep() | (n.deep() if n is not None else set()):
                if isinstance(a, str) and a not in w and a not in ('pi', 'I'):
                    w[a] = random.Random('%d%s' % (seed, a.rstrip('#'))).randint(1, 7)
            if 'col0' in p.deep() and not ts:
                w['col0'] = Known(dict(v)).val(stored[0])
            env = Known(w)
            x = env.val(p)
            if ts:
                want = v['mass'] * env.val(C.tot[ts[0]]) / w[ts[0]]
                what = 'mass in proportion to its weight'
            else:
                if n is None:
                    raise Opaque
                want = v['mass'] / env.val(n)
                what = 'mass divided by the number of points'
            ok += 1
            if abs(x - want) > 1e-9 * abs(want):
                return ('point mass %.5g instead of %.5g, the %s (%s)' % (x, want, what, brief(v)), I.where(nd))
        if not ok:
            continue
        found += 1
        for r in rows:
            q = r['cols'].get(0)
            if q is None or 'col0' not in p.deep():
                q = C.tot[ts[0]] if ts else p
                if q.deep() & {x for x in q.deep() if '@i:' in str(x)}:
                    return ('point mass depends on the position in the grid', I.where(nd))
            nodes = sorted(repr(a[2:]) for k in (1, 2, 3) for a in r['cols'][k].atoms() & set(gauss(r['cols'][k], 'gs')))
            ws = gauss(q, 'gw')
            if sorted(repr(a[2:]) for a in ws) != nodes:
                return ('weights %s for nodes %s' % (sorted(repr(a[2:]) for a in ws), nodes), I.where(r['node']))
            if ws and any(dict(m).get(a, 0) != 1 for m in q.t for a in ws):
                return ('point mass not the product of the weights of its nodes', I.where(r['node']))
            other = {a for a in q.deep() if isinstance(a, str) and '@i:' in a} - {x for a in ws for x in inside_of(a)}
            if other:
                return ('point mass depends on the position in the grid', I.where(nd))
    if not found:
        raise Opaque
    return None


def reached(C, s, v):
    """do the conditions on the sizes lead to this result"""
    env = Known(dict(v))
    try:
        return all(holds(env, q, sg) for q, sg in s.facts.items()
                   if not any(isinstance(a, str) and (a not in v and a != 'pi' and not a.startswith('nand:')) for a in about(q)))
    except Opaque:
        return True


def inside_of(a):
    return {y for x in a if isinstance(x, Poly) for y in x.deep()}


def guarded(rep, rule, nm, f):
    try:
        r = f()
    except (Opaque, KeyError, ValueError, ZeroDivisionError, TypeError, OverflowError, Unsupported) as x:
        rep.und(rule, nm, 'not derivable (%s %s)' % (type(x).__name__, x))
        return None
    return r


def c17(tier):
    SAMPLES[0] = 200 if tier == 'quick' else 1500
    rep = Report('C17')
    for fn in SPEC:
        one(rep, fn)
    guarded(rep, 'member', 'glibShapes.spherical_random_shell', lambda: shell(rep))
    for f in ('cart_2_cyl', 'cyl_2_cart'):
        guarded(rep, 'coordinates', 'glibShapes.' + f, lambda: coordinates(rep, f))
    return rep, ('Grid positions, conditions under which a point is kept, rows and masses of every point cloud, compared '
                 'with the solid.'), 40


def one(rep, fn):
    short = fn[5:]
    C = guarded(rep, 'cloud', short, lambda: Cloud(rep, fn))
    if C is None:
        return
    try:
        rows = guarded(rep, 'cloud', short, lambda: C.rows()[0])
    except Missing as x:
        rep.bad('nodes', short, *x.args)
        return
    if not rows:
        rep.und('cloud', short, 'no stored points found')
        return
    for nm, msg in guarded(rep, 'nodes', short, lambda: check_nodes(C, rows)) or []:
        if msg:
            rep.bad('nodes', short + '.' + nm, msg[0], msg[1])
        else:
            rep.ok('nodes', short + '.' + nm)

    def member():
        fl = filters(C)
        m, n = check_member(C, rows, fl)
        if m is None and min(n) == 0 and not short.endswith('rectangle'):
            raise Opaque
        return m

    for rule, f in (('member', member), ('rows', lambda: check_rows(C, rows, filters(C))), ('mass', lambda: check_mass(C, rows, filters(C)))):
        got = []
        guarded(rep, rule, short, lambda: got.append(f()))
        if got:
            if got[0]:
                rep.bad(rule, short, got[0][0], got[0][1])
            else:
                rep.ok(rule, short)


def shell(rep):
    """random points on a sphere: on the surface, evenly spread, equal masses"""
    I = fresh()
    I.alg = I.exact = True
    I.overrides = {}
    I.trail = []
    I.params.add('N')
    I.syms.get('N', [P1], [])
    fn = GS + 'spherical_random_shell'
    outs = I.run(fn, [Num(Poly.atom('mass'), sg=SP), Num(Poly.atom('r'), sg=SP), Num(Poly.atom('N'), sg=SP, integer=True)], State())
    for o in outs:
        s, r = o[0], o[1]
        c = s.store[r[1].aid]
        nd = r[2] if len(r) > 2 else None
        es = [I.np.at(c, (Poly.atom('row'), Poly.const(k)), s) for k in range(4)]
        if any(e is None or e.val is None for e in es) or c.shape[0] is None:
            raise Opaque
        m, xs = es[0].val, [e.val for e in es[1:]]
        us = sorted({a for x in xs for a in x.deep() if isinstance(a, str) and a.startswith('rand')})
        conds = []
        for kind, n, data, facts, live in I.trail:
            if kind == 'filter' and data[0].b is not True:
                if not data[0].pos or any(p is None for p, _ in data[0].pos):
                    raise Opaque
                conds.append([(p, sg) for p, sg in data[0].pos])
        for a in c.shape[0].deep():
            if isinstance(a, tuple) and a[0] == 'nsel':
                conds.append([(a[1], frozenset('+'))])
        if len(us) != 2 or not conds:
            raise Opaque
        G = 60
        tot, cnt, R = [0] * 6, 0, 1.7
        for i in range(G):
            for j in range(G):
                w = {'mass': 1, 'r': R, us[0]: (i + .5) / G, us[1]: (j + .5) / G}
                env = Known(w)
                on = [all(holds(env, p, sg) for p, sg in f) for f in conds]
                if any(on) != all(on):
                    return rep.bad('rows', fn[5:], 'rows of different numbers are combined: a pair is kept by one condition only',
                                   I.where(nd))
                if not on[0]:
                    continue
                try:
                    p = [env.val(x) for x in xs]
                except ValueError:
                    p = [math.nan]
                if not abs(math.hypot(*p) - R) < 1e-6:
                    return rep.bad('member', fn[5:], 'a point lies at distance %s r from the center (random numbers %.3f, %.3f)' % (
                        '%.4f' % (math.hypot(*p) / R), w[us[0]], w[us[1]]), I.where(nd))
                cnt += 1
                for k, t in enumerate(p + [t * t for t in p]):
                    tot[k] += t
        av = [t / cnt / R for t in tot[:3]] + [t / cnt / R ** 2 - 1 / 3 for t in tot[3:]]
        if any(abs(t) > .02 for t in av):
            return rep.bad('nodes', fn[5:], 'points not evenly spread: mean %.2f %.2f %.2f, squares off by %.2f %.2f %.2f of r^2' % tuple(av),
                           I.where(nd))
        if not (m * c.shape[0] - Poly.atom('mass')).is_zero():
            return rep.bad('mass', fn[5:], 'point mass %r for %r points' % (m, c.shape[0]), I.where(nd))
    for rule in ('nodes', 'member', 'rows', 'mass'):
        rep.ok(rule, fn[5:])


def coordinates(rep, name):
    """conversions between Cartesian and cylindrical coordinates, row by row"""
    I = fresh()
    I.alg = I.exact = True
    I.overrides = {}
    st = State()
    I.params.add('n')
    I.syms.get('n', [P1], [])
    a = I.new_arr(ArrC((Poly.atom('n'), Poly.const(3)), Num(None, Grading()), [
        Cell((ALL, Poly.const(k)), Num(Poly.atom('c%d' % k), Grading())) for k in range(3)]), st, None, hint=('c17', name))
    for o in I.run(GS + name, [a], st):
        s, r = o[0], o[1]
        c = s.store[r[1].aid]
        es = [I.np.at(c, (Poly.atom('row'), Poly.const(k)), s) for k in range(3)]
        if any(e is None or e.val is None for e in es):
            raise Opaque
        rnd = random.Random(5)
        for i in range(60):
            x = [rnd.uniform(-2, 2) for _ in range(3)]
            if name == 'cyl_2_cart':
                x[0], x[1] = abs(x[0]), rnd.uniform(0, 2 * PI)
                want = [x[0] * math.cos(x[1]), x[0] * math.sin(x[1]), x[2]]
            else:
                want = [math.hypot(*x[:2]), math.atan2(x[1], x[0]) % (2 * PI), x[2]]
            env = Known({'c%d' % k: t for k, t in enumerate(x)})
            if not all(holds(env, p, sg) for p, sg in s.facts.items() if p.deep() & {'c0', 'c1', 'c2'}):
                continue
            got = [env.val(e.val) for e in es]
            for k in range(3):
                if abs(got[k] - want[k]) > 1e-9:
                    return rep.bad('coordinates', 'glibShapes.%s.%d' % (name, k), 'coordinate %d of %s is %.4f instead of %.4f' % (
                        k, ['%.3f' % t for t in x], got[k], want[k]), I.where(r[2] if len(r) > 2 else None))
    for k in range(3):
        rep.ok('coordinates', 'glibShapes.%s.%d' % (name, k))
