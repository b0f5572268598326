"""C20 the meshes are the stated solids; C19 shape objects keep moments, mass,
centre and mesh of one body through their operations."""
import itertools
import math
import os
import random
from ..interp import Module
from ..poly import Poly
from .scripts import engine as moment_engine, values as moment_values, bodies_of, close, moved, real
from .ops import *
from .forces import LM
from ..algebra import Env, Opaque, holds
from ..core import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAU = 2 * math.pi


# ------------------------------------------------------------------- vectors
def mv(M, p):
    return [sum(M[i][k] * p[k] for k in range(3)) for i in range(3)]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def tr(A):
    return [[A[j][i] for j in range(3)] for i in range(3)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def about(d, w):
    """right-handed turn by w about the direction d"""
    n = math.sqrt(dot(d, d))
    x, y, z = (c / n for c in d)
    c, s, k = math.cos(w), math.sin(w), 1 - math.cos(w)
    return [[c + x * x * k, x * y * k - z * s, x * z * k + y * s],
            [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
            [z * x * k - y * s, z * y * k + x * s, c + z * z * k]]


def euler(a, b, g):
    return mm(mm(about((0, 0, 1), a), about((0, 1, 0), b)), about((0, 0, 1), g))


# ----------------------------------------------------------- how it was drawn
class Unclear(Exception):
    pass


FRAMES = {'XY': ((1, 0, 0), (0, 1, 0)), 'YZ': ((0, 1, 0), (0, 0, 1)), 'ZX': ((0, 0, 1), (1, 0, 0)),
          'XZ': ((1, 0, 0), (0, 0, 1)), 'YX': ((0, 1, 0), (1, 0, 0)), 'ZY': ((0, 0, 1), (0, 1, 0))}


def plain(v, env, st):
    """numbers, words and tuples of an abstract value"""
    if isinstance(v, Num):
        if v.val is None:
            raise Unclear('a number')
        return real(env.val(v.val))
    if isinstance(v, Str):
        return v.s
    if isinstance(v, BoolV):
        if v.b is None:
            raise Unclear('a condition')
        return v.b
    if isinstance(v, Seq):
        return tuple(plain(x, env, st) for x in v.items)
    if isinstance(v, NoneV):
        return None
    if isinstance(v, ArrV):
        c = st.store[v.aid]
        if c.ndim == 1 and c.shape is not None and c.shape[0].is_const():
            return tuple(plain(I_AT[0](c, (Poly.const(k),), st), env, st) for k in range(int(c.shape[0].cval())))
    raise Unclear(type(v).__name__)


I_AT = [None]


def drawn(steps):
    """membership of the solid these steps make"""
    frame, org, at, pts, prof, solid = None, (0, 0, 0), (0., 0.), [], [], None
    for s in steps:
        op, a = s[0], s[1:]
        if op == 'plane':
            if a[0] not in FRAMES:
                raise Unclear('plane')
            x, y = FRAMES[a[0]]
            frame, org = (x, y, cross(x, y)), a[1]
            continue
        if op in ('translate', 'rotate', 'union', 'cut', 'intersect'):
            if solid is None:
                raise Unclear(op)
            solid = combined(solid, op, a)
            continue
        if solid is not None:
            raise Unclear(op)
        if op == 'moveTo':
            at = (a[0], a[1])
            if pts:
                raise Unclear('second wire')
        elif op in ('lineTo', 'line'):
            pts = pts or [at]
            at = (a[0], a[1]) if op == 'lineTo' else (at[0] + a[0], at[1] + a[1])
            pts.append(at)
        elif op == 'polyline':
            pts = pts + [tuple(p) for p in a[0]]
            at = pts[-1]
        elif op == 'close':
            if len(pts) < 3:
                raise Unclear('close')
            prof.append((wire(pts), 0.))
            pts = []
        elif op == 'rect':
            w, h = abs(a[0]) / 2, abs(a[1]) / 2
            prof.append((wire([(at[0] + i * w, at[1] + j * h) for i, j in ((-1, -1), (1, -1), (1, 1), (-1, 1))]), 0.))
        elif op == 'circle':
            prof.append(((lambda c, r: lambda u, v: (u - c[0]) ** 2 + (v - c[1]) ** 2 <= r * r)(at, a[0]), 0.))
        elif op == 'polygon':
            n, r = a[0], a[1] / 2
            if abs(n - round(n)) > 1e-9 or n < 3:
                raise Unclear('polygon')
            n = int(round(n))
            r = r / math.cos(math.pi / n) if a[2] else r
            prof.append((wire([(at[0] + r * math.cos(TAU * k / n), at[1] + r * math.sin(TAU * k / n)) for k in range(n)]), 0.))
        elif op in ('sphere', 'cylinder', 'box'):
            if pts or prof or at != (0., 0.):
                raise Unclear(op)
            solid = local(frame, org, basic(op, a))
        elif op == 'extrude':
            if len(prof) != 1 or pts or a[2]:
                raise Unclear(op)
            f, d = prof[0][0], a[0]
            lo, hi = (-abs(d), abs(d)) if a[1] else (min(0, d), max(0, d))
            solid = local(frame, org, (lambda f, lo, hi: lambda p: lo <= p[2] <= hi and f(p[0], p[1]))(f, lo, hi))
            prof = []
        elif op == 'revolve':
            if len(prof) != 1 or pts:
                raise Unclear(op)
            b, e = a[1] or (0, 0), a[2]
            if e is None:
                if a[1] is not None:
                    raise Unclear('axis')
                e = (0, 1)
            solid = local(frame, org, revolved(prof[0][0], a[0], b, e))
            prof = []
        elif op == 'solid':
            solid = faces(a[0])
        else:
            raise Unclear(op)
    if solid is None:
        raise Unclear('no solid')
    return solid


def local(frame, org, f):
    x, y, n = frame
    def g(p):
        q = sub(p, org)
        return f((dot(q, x), dot(q, y), dot(q, n)))
    return g


def basic(op, a):
    if op == 'sphere':
        return lambda p: dot(p, p) <= a[0] ** 2
    if op == 'cylinder':
        return lambda p: abs(p[2]) <= a[0] / 2 and p[0] ** 2 + p[1] ** 2 <= a[1] ** 2
    return lambda p: all(abs(p[k]) <= a[k] / 2 for k in range(3))


def wire(pts):
    def f(u, v):
        odd = False
        for (a, b), (c, d) in zip(pts, pts[1:] + pts[:1]):
            if (b > v) != (d > v) and u < (c - a) * (v - b) / (d - b) + a:
                odd = not odd
        return odd
    return f


def revolved(f, deg, b, e):
    if abs(deg) > 360 + 1e-9:
        raise Unclear('revolve')
    d = (e[0] - b[0], e[1] - b[1])
    n = math.hypot(*d)
    d = (d[0] / n, d[1] / n)
    side = (d[1], -d[0])
    sweep = math.radians(deg)
    def g(p):
        q = (p[0] - b[0], p[1] - b[1])
        h, u, w = q[0] * d[0] + q[1] * d[1], q[0] * side[0] + q[1] * side[1], p[2]
        # right-handed about d: side -> d x side = -(normal)
        ang, rad = math.atan2(-w, u), math.hypot(u, w)
        for s, r in ((ang, rad), (ang - math.pi, -rad)):
            s = s % TAU if sweep >= 0 else -((-s) % TAU)
            if abs(s) <= abs(sweep) and f(b[0] + h * d[0] + r * side[0], b[1] + h * d[1] + r * side[1]):
                return True
        return False
    return g


def faces(fs):
    """inside a closed surface: an odd number of its triangles is crossed"""
    tri, edges = [], {}
    for f in fs:
        seq = [e[0] for e in f]
        if any(f[k][1] != f[(k + 1) % len(f)][0] for k in range(len(f))):
            raise Unclear('face')
        for e in f:
            k = frozenset(e)
            edges[k] = edges.get(k, 0) + 1
        tri += [(seq[0], seq[k], seq[k + 1]) for k in range(1, len(seq) - 1)]
    if any(v != 2 for v in edges.values()):
        raise Unclear('open shell')
    ray = (0.4371, 0.6113, 0.6596)
    def g(p):
        odd = False
        for a, b, c in tri:
            e1, e2 = sub(b, a), sub(c, a)
            h = cross(ray, e2)
            det = dot(e1, h)
            if abs(det) < 1e-14:
                continue
            s = sub(p, a)
            u = dot(s, h) / det
            q = cross(s, e1)
            v = dot(ray, q) / det
            if u >= 0 and v >= 0 and u + v <= 1 and dot(e2, q) / det > 0:
                odd = not odd
        return odd
    return g


def combined(f, op, a):
    if op == 'translate':
        return lambda p: f(sub(p, a[0]))
    if op == 'rotate':
        b, e, w = a
        M = tr(about(sub(e, b), math.radians(w)))
        return lambda p: f([x + y for x, y in zip(mv(M, sub(p, b)), b)])
    g = drawn(a[0])
    if op == 'union':
        return lambda p: f(p) or g(p)
    if op == 'cut':
        return lambda p: f(p) and not g(p)
    return lambda p: f(p) and g(p)


# --------------------------------------------------------- the stated solids
def wedge(p, c, w):
    return abs((math.atan2(p[1], p[0]) - c + math.pi) % TAU - math.pi) <= w


def turned(p, w):
    return (p[0] * math.cos(w) + p[1] * math.sin(w), p[1] * math.cos(w) - p[0] * math.sin(w), p[2])


def tetra(d, x, y1, y2, z):
    """0, (x, y1, 0), (x, y2, 0), (0, 0, z)"""
    c = d[2] / z
    # (X, Y) = s (x, y1) + t (x, y2)
    k = d[0] / x
    t = (d[1] - k * y1) / (y2 - y1)
    return c >= 0 and t >= 0 and k - t >= 0 and k + c <= 1


def cone(p, H, r1, r2, c, w):
    return 0 <= p[2] <= H and math.hypot(p[0], p[1]) <= r2 + (r1 - r2) * p[2] / H and wedge(p, c, w)


def ngon(p, H, a, c, n):
    n = int(round(n))
    q = a / 2 / math.tan(math.pi / n)
    return abs(p[2]) <= H / 2 and all(turned(p, c + TAU * k / n)[0] <= q for k in range(n))


def hole(p, t, r, w):
    d = (math.sin(w), 0, math.cos(w))
    k = dot(p, d)
    return abs(p[2]) <= t / 2 and dot(p, p) - k * k <= r * r


SOLIDS = {
    'sphere': (('R',), lambda p, R: dot(p, p) <= R * R),
    'cylinder': (('H', 'R'), lambda p, H, R: abs(p[2]) <= H / 2 and math.hypot(p[0], p[1]) <= R),
    'annulus': (('H', 'Ri', 'Ro', 'phic', 'phih'), lambda p, H, a, b, c, w: abs(p[2]) <= H / 2 and
                a <= math.hypot(p[0], p[1]) <= b and wedge(p, c, w)),
    'cone': (('H', 'r1', 'r2', 'phic', 'phih'), cone),
    'tri_iso_prism': (('H', 'a', 'd', 'phic'), lambda p, H, a, d, c: abs(p[2]) <= H / 2 and
                      0 <= turned(p, c)[0] <= d and abs(turned(p, c)[1]) <= turned(p, c)[0] * a / 2 / d),
    'tri_iso_prism2': (('H', 'R', 'phic', 'phih'), lambda p, H, R, c, w: abs(p[2]) <= H / 2 and
                       turned(p, c)[0] <= R * math.cos(w) and wedge(p, c, w)),
    'tri_prism': (('H', 'd', 'y1', 'y2'), lambda p, H, d, a, b: abs(p[2]) <= H / 2 and 0 <= p[0] / d <= 1 and
                  min(a, b) * p[0] / d <= p[1] <= max(a, b) * p[0] / d),
    'rect_prism': (('H', 'a', 'b', 'phic'), lambda p, H, a, b, c: abs(p[2]) <= H / 2 and
                   abs(turned(p, c)[0]) <= a / 2 and abs(turned(p, c)[1]) <= b / 2),
    'ngon_prism': (('H', 'a', 'phic', 'N'), ngon),
    'tetrahedron': (('x', 'y', 'z'), lambda p, x, y, z: min(p[0] / x, p[1] / y, p[2] / z) >= 0 and
                    p[0] / x + p[1] / y + p[2] / z <= 1),
    'tetrahedron2': (('x', 'y1', 'y2', 'z'), tetra),
    'pyramid': (('x', 'y', 'z'), lambda p, x, y, z: p[2] >= 0 and abs(p[0]) <= x * (1 - p[2] / z) and
                abs(p[1]) <= y * (1 - p[2] / z)),
    'cylhole': (('r', 'R'), lambda p, a, b: p[0] ** 2 + p[1] ** 2 <= a * a and p[1] ** 2 + p[2] ** 2 <= b * b),
    'platehole': (('t', 'r', 'theta'), hole),
    'outercone': (('H', 'IR', 'OR', 'phih'), lambda p, H, a, b, w: a <= math.hypot(p[0], p[1]) <= b and
                  0 <= p[2] <= H * (b - math.hypot(p[0], p[1])) / (b - a) and wedge(p, 0, w)),
}


def sizes(fn, seed):
    """dimensions in the domain"""
    r = random.Random('%s/%d' % (fn, seed))
    u = lambda a=.4, b=2.5: r.uniform(a, b)
    c = r.choice([0., r.uniform(-math.pi, math.pi), r.uniform(-7, 7)])
    w = r.choice([r.uniform(.15, 1.4), r.uniform(1.6, 3.1), math.pi])
    if fn == 'annulus':
        a = r.choice([0., u(.2, 1)])
        return u(), a, a + u(.2, 2), c, w
    if fn == 'cone':
        return u(), 0. if seed % 2 else u(.2, 1.5), u(), c, w
    if fn == 'Cone':
        return u(), u(), c, w
    if fn == 'tri_iso_prism':
        return u(), u(), u(), c
    if fn == 'tri_iso_prism2':
        return u(), u(), c, r.uniform(.15, 1.5)
    if fn in ('tri_prism', 'tetrahedron2'):
        a = r.uniform(-1.5, 1.5)
        b = a + u(.3, 2)
        d = (u(), a, b)
        return (u(),) + d if fn == 'tri_prism' else d + (u(),)
    if fn == 'rect_prism':
        return u(), u(), u(), c
    if fn == 'ngon_prism':
        return u(), u(), c, [3, 4, 5, 6, 7, 8][seed % 6]
    if fn == 'cylhole':
        a = u(.3, 1.5)
        return a, a + u(.05, 1.5)
    if fn == 'platehole':
        return u(.3, 2), u(), r.uniform(-1.25, 1.25)
    if fn == 'outercone':
        a = u(.2, 1.5)
        return u(), a, a + u(.2, 2), w
    return tuple(u() for _ in SOLIDS[fn][0])


def probes(f, g, r, size, n):
    """points to compare at: all over, and close to where the solids end"""
    pts, ends = [], []
    for h in (f, g):
        ins, outs = [], []
        for k in range(40 * n):
            p = [r.uniform(-size, size) for _ in range(3)]
            if k < n:
                pts.append(p)
            (ins if h(p) else outs).append(p)
            if k >= n and len(ins) >= 12:
                break
        ends.append((ins, outs))
        pts += ins
        if not ins or not outs:
            continue
        for _ in range(n // 3):
            a, b = r.choice(ins), r.choice(outs)
            for _ in range(14):
                m = [(x + y) / 2 for x, y in zip(a, b)]
                if h(m):
                    a = m
                else:
                    b = m
            c = r.choice(outs), r.choice(ins)
            pts += [[x + .03 * (y - x) for x, y in zip(a, q)] for q in c]
    return pts if all(i for i, _ in ends) else pts if any(i for i, _ in ends) else []


def same(f, g, r, size, n):
    """None, or a point in one of the solids only"""
    pts = probes(f, g, r, size, n)
    if not pts:
        raise Unclear('no point in the solids')
    for p in pts:
        if f(p) != g(p):
            # not the rounding of a common face
            near = [[x + r.uniform(-1e-7, 1e-7) for x in p] for _ in range(6)]
            if all(f(q) != g(q) for q in near):
                return p
    return None


ANGLES = ('phic', 'phih', 'theta', 'N')


def reach(names, v):
    return 1.1 * math.sqrt(sum(float(x) ** 2 for n, x in zip(names, v) if n not in ANGLES)) + .05


# -------------------------------------------------------------------- engine
class Wrong(Exception):
    pass


def cad_engine(src):
    I = moment_engine()
    with open(os.path.join(HERE, 'models', 'cadquery.py')) as f:
        I.mods['cadquery'] = Module('cadquery', 'cadquery', f.read())
    with open(os.path.join(HERE, 'models', 'exporters.py')) as f:
        I.mods['cadquery.exporters'] = Module('cadquery.exporters', 'cadquery.exporters', f.read())
    I.mods['probe'] = Module('probe', 'probe', src)
    for kind, nm in (('q2Q', 'q2Q'), ('Qmove', 'Qlmb')):
        for m in ('translations', 'translationRecurs'):
            I.overrides['newt.%s.translate_%s' % (m, nm)] = moved(kind)
    I.overrides['newt.multipoleLib.embed_qlm'] = embed
    I.degrees = True
    I_AT[0] = I.np.at
    return I


def embed(I, args, kw, n, st):
    a = list(args) + [kw[x] for x in ('LNew',) if x in kw]
    if len(a) != 2 or not isinstance(a[0], ArrV) or not isinstance(a[1], Num) or a[1].val is None:
        return TOP
    c = st.store[a[0].aid]
    L = a[1].val
    if c.base.val is None or c.cells or c.shape is None:
        return TOP
    if not I.sign(L + 1 - c.shape[0], st) <= SNN:
        I.event('cut', n)
        return TOP
    return I.new_arr(ArrC((L + 1, L.scale(2) + 1), Num(c.base.val, Grading(), real=False), [], 'complex'), st, n)


def outcomes(I, rep, name, args, facts=()):
    """all outcomes, raised errors too"""
    I.reset()
    st = State()
    for p, sg in facts:
        st.add_fact(p, sg)
    try:
        outs = I.run('probe.f', args, st)
    except Exception as e:
        rep.und('entry', name, '%s: %s' % (type(e).__name__, e))
        return []
    rep.functions.update(x for x in I.fvis if not x.startswith(('probe', 'cadquery')))
    return outs


def chosen(outs, env):
    """the outcomes whose path this input follows; exact: no doubtful condition"""
    hit, exact = [], True
    for s, c in outs:
        ok = True
        for p, sg in s.facts.items():
            if any(isinstance(a, str) and a.startswith('lossy:') for a in p.atoms()):
                exact = False
                continue
            try:
                ok = ok and holds(env, p, sg)
            except (Opaque, ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
                exact = False
        if ok:
            hit.append((s, c))
    return hit, exact


def place(I, fn):
    m = I.mods['newt.genCAD']
    return '%s:%d (%s)' % (os.path.relpath(m.path, REPO), m.funcs[fn].lineno if fn in m.funcs else 0, fn)


def arg(nm, v=None):
    if v is not None:
        return Num(Poly.const(v), Grading(), sg=SP)
    return Num(Poly.atom(nm), Grading())


MAKERS = '''
import newt.genCAD as G
def f(pmass, %s):
    return G.%s(pmass, %s)
'''

def judge_mesh(I, rep, rule, nm, outs, names, draw, want, seeds, pts, pmass=None, pick=lambda s, v: v, size=reach, where=None):
    """the solid drawn is the stated one for every drawn set of dimensions"""
    n = 0
    for seed in range(seeds):
        v = draw(seed)
        env = Env(seed, (), ints=dict(zip(names, v)))
        hit, exact = chosen(outs, env)
        txt = ', '.join('%s=%.4g' % (a, x) for a, x in zip(names, v))
        if exact and hit and all(c[0] == 'raise' for _, c in hit):
            rep.bad(rule, nm, 'raises %s for %s' % (hit[0][1][1], txt), I.where(hit[0][1][2]))
            return
        hit = [(s, c) for s, c in hit if c[0] == 'ret']
        if not exact or len(hit) != 1:
            continue
        s, c = hit[0]
        o = pick(s, c[1])
        h = s.heap.get(o.oid, {}) if isinstance(o, ObjV) else {}
        try:
            f = drawn(plain(h['made'], env, s))
        except (Unclear, Opaque, KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError) as e:
            rep.und(rule, nm, 'drawing not derivable: %s' % e)
            return
        g = want(v)
        try:
            p = same(g, f, random.Random(seed), size(names, v), pts)
        except (Unclear, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError) as e:
            rep.und(rule, nm, 'drawing not derivable: %s' % e)
            return
        if p is not None:
            rep.bad(rule, nm, 'the point (%.4g, %.4g, %.4g) is %s the mesh but %s the solid, %s'
                    % (*p, 'in' if f(p) else 'outside', 'in' if g(p) else 'outside', txt), where or I.where(c[2]))
            return
        if pmass is not None:
            b = h.get('pmass')
            if not isinstance(b, BoolV) or b.b is None:
                rep.und(rule, nm, 'sign of the mass not derivable')
                return
            if b.b != pmass:
                rep.bad(rule, nm, 'the sign of the mass is lost', where or I.where(c[2]))
                return
        n += 1
    if n >= max(2, seeds // 2):
        rep.ok(rule, nm, '%d sets of dimensions' % n)
    else:
        rep.und(rule, nm, 'no sample on these paths')


def c20(tier):
    rep = Report('C20')
    seeds, pts = (9, 250) if tier == 'quick' else (40, 1200)
    for fn, (pars, inside) in SOLIDS.items():
        for pm in (True, False):
            nm = '%s.%s' % (fn, 'mass' if pm else 'hole')
            src = MAKERS % (', '.join(pars), fn, ', '.join(pars))
            counts = (3, 4, 5, 6, 7, 8) if fn == 'ngon_prism' else (None,)
            kinds = (0., None) if fn == 'cone' else (None,)
            for N in counts:
                for r1 in kinds:
                    I = cad_engine(src)
                    args = [BoolV(pm)] + [arg(p, N if p == 'N' and N else None) for p in pars]
                    if r1 is not None:
                        args[2] = Num(Poly(), Grading(), sg=SZ)
                    sub_ = nm + ('.%d' % N if N else '') + ('.tip' if r1 is not None else '')
                    outs = outcomes(I, rep, sub_, args)
                    if not outs:
                        continue
                    def draw(s, fn=fn, N=N, r1=r1):
                        if N:
                            s = s * 6 + N - 3
                        if fn == 'cone':
                            s = 2 * s + (1 if r1 is not None else 0)
                        return sizes(fn, s)
                    judge_mesh(I, rep, 'solid', sub_, outs, pars, draw,
                               lambda v, inside=inside: (lambda p: inside(p, *v)), seeds if not N else max(3, seeds // 4), pts, pm,
                               where=place(I, fn))
    mesh_moves(rep, seeds, pts)
    return rep, ('For every mesh function, the solid its drawing steps make compared with the stated solid, and the meshes '
                 'moved, turned and summed compared with the moved, turned and summed solids.'), 30


BASE = "G.tri_prism(%s, 1.1, 1.3, -0.2, 0.9)"


def base(p):
    return SOLIDS['tri_prism'][1](p, 1.1, 1.3, -.2, .9)


def block(p):
    return SOLIDS['rect_prism'][1](p, 3, .6, .5, .4)


def ball(p):
    return dot(p, p) <= .49


def mesh_moves(rep, seeds, pts):
    draw = lambda s: (lambda r: tuple(r.uniform(-2, 2) for _ in range(3)))(random.Random('m%d' % s))
    kinds = {
        'translate_mesh.tuple': ('G.translate_mesh(m, (x, y, z))', lambda v: lambda p: base(sub(p, v))),
        'translate_mesh.list': ('G.translate_mesh(m, [x, y, z])', lambda v: lambda p: base(sub(p, v))),
        'rotate_mesh': ('G.rotate_mesh(m, x, y, z)', lambda v: (lambda M: lambda p: base(mv(M, p)))(tr(euler(*v)))),
    }
    for nm, (call, want) in kinds.items():
        for pm in (True, False):
            for which in ('new', 'old'):
                src = 'import newt.genCAD as G\ndef f(x, y, z):\n    m = %s\n    n = %s\n    return (m, n)\n' % (BASE % pm, call)
                I = cad_engine(src)
                name = '%s.%s.%s' % (nm, 'mass' if pm else 'hole', which)
                outs = outcomes(I, rep, name, [arg('x'), arg('y'), arg('z')])
                k = 1 if which == 'new' else 0
                judge_mesh(I, rep, 'move', name, outs, ('x', 'y', 'z'), draw, want if k else (lambda v: base), max(4, seeds // 2), pts, pm,
                           where=place(I, nm.split('.')[0]), pick=lambda s, v, k=k: v.items[k] if isinstance(v, Seq) and len(v.items) == 2 else None, size=lambda n, v: 4)
    A, B, C = BASE % True, 'G.rect_prism(%s, 3, 0.6, 0.5, 0.4)', 'G.sphere(%s, 0.7)'
    sums = {
        'one': ([A], base),
        'two': ([A, B % True], lambda p: base(p) or block(p)),
        'hole': ([A, C % False], lambda p: base(p) and not ball(p)),
        'three': ([A, B % True, C % False], lambda p: (base(p) or block(p)) and not ball(p)),
        'holes': ([A, B % False, C % False], lambda p: base(p) and not block(p) and not ball(p)),
        'four': ([A, B % True, C % True, 'G.cylinder(False, 5, 0.2)'],
                 lambda p: (base(p) or block(p) or ball(p)) and math.hypot(p[0], p[1]) > .2),
    }
    for nm, (parts, want) in sums.items():
        src = 'import newt.genCAD as G\ndef f():\n    return G.sum_mesh([%s])\n' % ', '.join(parts)
        I = cad_engine(src)
        outs = outcomes(I, rep, 'sum.' + nm, [])
        judge_mesh(I, rep, 'sum', 'sum_mesh.' + nm, outs, (), lambda s: (), lambda v, want=want: want, 2, 4 * pts, True, size=lambda n, v: 2, where=place(I, 'sum_mesh'))
    for nm, call, want in (('one', "m", base), ('list', "[m, %s]" % (C % False), lambda p: base(p) and not ball(p))):
        src = ('import newt.genCAD as G\nimport cadquery.exporters as E\ndef f():\n    m = %s\n    G.save_stl(%s, "part")\n    return m\n' % (A, call))
        I = cad_engine(src)
        outs = outcomes(I, rep, 'save.' + nm, [])
        judge_saved(I, rep, nm, outs, want, pts)


def judge_saved(I, rep, nm, outs, want, pts):
    name = 'save_stl.' + nm
    env = Env(0)
    hit, exact = chosen(outs, env)
    if exact and hit and all(c[0] == 'raise' for _, c in hit):
        rep.bad('save', name, 'raises %s' % hit[0][1][1], I.where(hit[0][1][2]))
        return
    for s, c in hit:
        got = [h for h in s.heap.values() if 'saved' in h]
        if not exact or len(hit) != 1 or len(got) != 1:
            rep.und('save', name, 'not derivable')
            return
        try:
            f, to = drawn(plain(got[0]['made'], env, s)), plain(got[0]['saved'], env, s)
        except (Unclear, Opaque, KeyError, ValueError, ZeroDivisionError, TypeError, IndexError) as e:
            rep.und('save', name, 'not derivable: %s' % e)
            return
        p = same(want, f, random.Random(0), 2, 4 * pts)
        if to != 'part.stl':
            rep.bad('save', name, 'written to %s' % to, I.where(c[2]))
        elif p is not None:
            rep.bad('save', name, 'another solid is written', I.where(c[2]))
        else:
            rep.ok('save', name)


# --------------------------------------------------------------- shape objects
AZIMUTH = {'qlm.annulus': 3, 'qlm.cone': 2, 'qlm.rect_prism': 3, 'qlm.ngon_prism': 2, 'bigQlm.annulus': 3}


def A(n):
    return Poly.atom(n)


def half(p):
    return p.scale(F(1, 2))


def volume_scaled(gen, names):
    """mass over the mass the moments of unit density state"""
    def f(env):
        q = env.val(A(('el', gen, P0, LM) + tuple(A(n) for n in names)))
        return env.val(A('mass')) / (complex(q).real * math.sqrt(4 * math.pi))
    return f


def off_axis(r, c, w):
    k = r * math.sin(w) / w
    return [k * math.cos(c), k * math.sin(c)]


def ring(H, a, b, c, w):
    return off_axis(2 * (a * a + a * b + b * b) / 3 / (a + b), c, w) + [0]


def outer_cone_mass(env):
    H, a, b, w = (env.val(A(x)) for x in ('H', 'IR', 'OR', 'phih'))
    return env.val(A('mass')) / (w * H * (b - a) * (b + 2 * a) / 3)


def outer_ring_mass(env):
    H, a, b, w = (env.val(A(x)) for x in ('H', 'Ri', 'Ro', 'phih'))
    return env.val(A('mass')) / (w * H * (b * b - a * a))


def ball_mass(env):
    return env.val(A('mass')) / (4 * math.pi * env.val(A('R')) ** 3 / 3)


def outer_cone_centre(H, a, b, w):
    return off_axis((b * b + 2 * a * b + 3 * a * a) / 2 / (b + 2 * a), 0, w) + [H * (b + 3 * a) / 4 / (b + 2 * a)]


CENTRE = ('cx', 'cy', 'cz')


class Kind:
    """what an object of a class stands for, by dimensions v (in the order of names)"""

    def __init__(self, cls, names, solid, centre, bodies, call=None, inner=True, draw=None):
        self.cls, self.names, self.solid, self.centre, self.bodies, self.inner = cls, names, solid, centre, bodies, inner
        self.call = call or 'S.%s(%%s, %s, %%s, %s)' % (cls, inner, ', '.join(names))
        self.draw = draw

    def made(self, mass='mass', deg='lmax'):
        return self.call % (deg, mass)


def gen(g, names):
    return [(A('mass'), g, [A(n) for n in names])]


def by_name(fn):
    return SOLIDS[fn][0], SOLIDS[fn][1], lambda s: sizes(fn, s)


def kinds():
    n, f, d = by_name('annulus')
    yield 'Annulus', Kind('Annulus', n, f, ring, gen('qlm.annulus', n), draw=d)
    yield 'Annulus.outer', Kind('Annulus', n, f, ring, [(outer_ring_mass, 'bigQlm.annulus', [half(A('H'))] + [A(x) for x in n[1:]]),
                                                        (outer_ring_mass, 'bigQlm.annulus', [-half(A('H'))] + [A(x) for x in n[1:]])],
                                inner=False, draw=d)
    n, f, d = by_name('rect_prism')
    yield 'RectPrism', Kind('RectPrism', n, f, lambda *v: [0, 0, 0], gen('qlm.rect_prism', n), draw=d)
    n, f, d = by_name('tri_prism')
    yield 'TriPrism', Kind('TriPrism', n, f, lambda H, d, a, b: [2 * d / 3, (a + b) / 3, 0], gen('qlm.tri_prism', n), draw=d)
    n = ('P', 'R', 'phic', 'phih')
    yield 'Cone', Kind('Cone', n, lambda p, P, R, c, w: cone(p, P, 0., R, c, w),
                       lambda P, R, c, w: off_axis(R / 2, c, w) + [P / 4], gen('qlm.cone', n), draw=lambda s: sizes('Cone', s))
    n = ('R',) + CENTRE
    moved_ball = lambda p, R, x, y, z: dot(sub(p, (x, y, z)), sub(p, (x, y, z))) <= R * R
    rnd = lambda s: (lambda r: (r.uniform(.4, 1.5),) + tuple(r.uniform(-2, 2) for _ in range(3)))(random.Random('ball%d' % s))
    yield 'Sphere', Kind('Sphere', n, moved_ball, lambda R, x, y, z: [x, y, z],
                         [(A('mass'), 'qlm.sphere', [A('R')], [('move', [A(c) for c in CENTRE])])],
                         'S.Sphere(%s, True, %s, R, [cx, cy, cz])', draw=rnd)
    yield 'Sphere.outer', Kind('Sphere', n, moved_ball, lambda R, x, y, z: [x, y, z],
                               [(ball_mass, 'bigQlm.sphere', [A(c) for c in n])],
                               'S.Sphere(%s, False, %s, R, [cx, cy, cz])', inner=False, draw=rnd)
    n, f, d = by_name('ngon_prism')
    for k in (3, 6):
        yield 'NGon.%d' % k, Kind('NGon', n[:3], lambda p, H, a, c, k=k: ngon(p, H, a, c, k), lambda *v: [0, 0, 0],
                                  [(A('mass'), 'qlm.ngon_prism', [A('H'), A('a'), A('phic'), Poly.const(k)])],
                                  'S.NGon(%%s, True, %%s, H, a, phic, %d)' % k, draw=lambda s: sizes('ngon_prism', s)[:3])
    n, f, d = by_name('tetrahedron2')
    yield 'Tetrahedron', Kind('Tetrahedron', n, f, lambda x, a, b, z: [x / 2, (a + b) / 4, z / 4], gen('qlm.tetrahedron2', n), draw=d)
    n, f, d = by_name('pyramid')
    yield 'Pyramid', Kind('Pyramid', n, f, lambda x, y, z: [0, 0, z / 4], gen('qlm.pyramid', n), draw=d)
    n, f, d = by_name('cylhole')
    yield 'Cylhole', Kind('Cylhole', n, f, lambda *v: [0, 0, 0],
                          [(volume_scaled('qlmNum.steinmetz', n), 'qlmNum.steinmetz', [A(x) for x in n])], draw=d)
    n, f, d = by_name('platehole')
    def leaning(p, t, r, w):
        return hole(mv(about((0, 1, 0), w), p), t, r, w)
    yield 'Platehole', Kind('Platehole', n, leaning, lambda *v: [0, 0, 0],
                            [(volume_scaled('qlmNum.platehole', n), 'qlmNum.platehole', [A(x) for x in n])],
                            'S.Platehole(5, %s, True, %s, t, r, theta)', draw=d)
    n, f, d = by_name('outercone')
    yield 'OuterCone', Kind('OuterCone', n, f, outer_cone_centre, [(outer_cone_mass, 'bigQlmNum.outer_cone', [A(x) for x in n])],
                            inner=False, draw=d)


class Thing:
    """the body an object should stand for: its parts [(kind, sign and factor of the mass, motions)]"""

    def __init__(self, parts, inner=True, deg=LM):
        self.parts, self.inner, self.deg = parts, inner, deg

    def turn(self, *w):
        return Thing([(k, m, ms + [('turn', [A(x) for x in w])]) for k, m, ms in self.parts], self.inner, self.deg)

    def move(self, *w, to_inner=True):
        kind = 'move' if self.inner and to_inner else 'q2Q' if self.inner else 'Qmove'
        return Thing([(k, m, ms + [(kind, [A(x) for x in w])]) for k, m, ms in self.parts], self.inner and to_inner, self.deg)

    def plus(self, *o):
        return Thing(self.parts + [p for x in o for p in x.parts], self.inner, max([self.deg] + [x.deg for x in o],
                                                                                   key=lambda p: (p - LM).cval()))

    def place(self, ms, env):
        R, t = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]], [0., 0, 0]
        for nm, ps in ms:
            v = [real(env.val(p)) for p in ps]
            if nm == 'turn':
                Q = euler(*v)
                R, t = mm(Q, R), mv(Q, t)
            else:
                t = [a + b for a, b in zip(t, v)]
        return R, t

    def dims(self, k, env):
        return [env.val(A(n)) for n in k.names]

    def mass(self, env):
        return sum(real(env.val(A('mass'))) * m for _, m, _ in self.parts)

    def centre(self, env):
        tot = [0., 0., 0.]
        for k, m, ms in self.parts:
            R, t = self.place(ms, env)
            c = mv(R, k.centre(*self.dims(k, env)))
            tot = [x + m * (a + b) for x, a, b in zip(tot, c, t)]
        return [x / sum(m for _, m, _ in self.parts) for x in tot]

    def inside(self, env):
        fs = []
        for k, m, ms in self.parts:
            R, t = self.place(ms, env)
            fs.append((m, (lambda k, R, t, d: lambda p: k.solid(mv(R, sub(p, t)), *d))(k, tr(R), t, self.dims(k, env))))
        def f(p):
            r = fs[0][1](p)
            for m, g in fs[1:]:
                r = (r or g(p)) if m > 0 else (r and not g(p))
            return r
        return f

    def bodies(self, env):
        out = []
        for k, m, ms in self.parts:
            for b in k.bodies:
                out.append(((b[0](env) if callable(b[0]) else env.val(b[0])) * m, b[1], [env.val(a) for a in b[2]],
                            (list(b[3]) if len(b) > 3 else []) + ms))
        return sifted(out, env, self)

    def reach(self, env):
        s = 0
        for k, m, ms in self.parts:
            R, t = self.place(ms, env)
            s = max(s, math.sqrt(dot(t, t)) + reach(k.names, self.dims(k, env)))
        return s


def sifted(bodies, env, th):
    """numeric bodies with the kinds of their motions, equal ones joined"""
    out = []
    for c, g, v, ms in bodies:
        c, v = real(c), [real(x) for x in v]
        R, t = th.place(ms, env)
        tag = []
        for nm, _ in ms:
            if nm in ('q2Q', 'Qmove') and tag[-1:] != [nm]:
                tag.append(nm)
            if nm == 'move' and tag:
                tag.append('wrong')
        k = AZIMUTH.get(g)
        if k is not None:
            R = mm(R, about((0, 0, 1), v[k]))
            v[k] = 0.
        if g == 'qlm.sphere':
            R = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
        g = '.'.join([g] + tag)
        flat = tuple(v) + tuple(x for row in R for x in row) + tuple(t)
        for i, (c2, g2, f2) in enumerate(out):
            if g == g2 and close(flat, f2):
                out[i] = (c + c2, g, f2)
                break
        else:
            out.append((c, g, flat))
    return [b for b in out if abs(b[0]) > 1e-12]


def origin(I, th, rule):
    """the class, or the operations, an object went through"""
    mod = I.mods['newt.shapes']
    k, _, ms = th.parts[0]
    cls = k.cls if len(th.parts) == 1 and not ms else 'Shape'
    n = mod.classes.get(cls)
    return '%s:%d (%s)' % (os.path.relpath(mod.path, REPO), n.lineno if n is not None else 0, cls)


HARD = (Opaque, Unclear, KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError, AttributeError)


def judge_object(I, rep, nm, outs, th, names, draw, seeds, pts, pick=lambda s, v: v, negative=False, meshes=3):
    from .scripts import matches
    good, open_ = {}, {}
    for seed in range(seeds):
        v = dict(draw(seed), Lm=3)
        r = random.Random('k%d' % seed)
        v['mass'] = r.uniform(.3, 4) * (-1 if negative else 1)
        for x in ('a', 'b', 'g'):
            v['an_' + x] = r.uniform(-3, 3)
        for x in ('ux', 'uy', 'uz', 'wx', 'wy', 'wz'):
            v[x] = r.uniform(-2, 2)
        env = Env(seed, (), ints=v)
        hit, exact = chosen(outs, env)
        if exact and hit and all(c[0] == 'raise' for _, c in hit):
            rep.bad('object', nm, 'raises %s' % hit[0][1][1], I.where(hit[0][1][2]))
            return
        hit = [(s, c) for s, c in hit if c[0] == 'ret']
        if not exact or len(hit) != 1:
            continue
        s, c = hit[0]
        o = pick(s, c[1])
        h = s.heap.get(o.oid, {}) if isinstance(o, ObjV) else {}

        def look(rule, f):
            try:
                msg = f()
            except HARD as e:
                open_[rule] = '%s %s' % (type(e).__name__, e)
                return
            if msg:
                rep.bad(rule, nm, msg, origin(I, th, rule))
            good[rule] = good.get(rule, 0) + 1

        def mass():
            a, b = plain(h['mass'], env, s), th.mass(env)
            if abs(a - b) > 1e-9 * abs(b):
                return '%.6g instead of %.6g' % (a, b)

        def centre():
            a, b = plain(h['com'], env, s), th.centre(env)
            if len(a) != 3 or any(abs(x - y) > 1e-8 * max(1, abs(y)) for x, y in zip(a, b)):
                return '(%s) instead of (%s)' % (', '.join('%.5g' % x for x in a), ', '.join('%.5g' % x for x in b))

        def kind():
            if not isinstance(h['inner'], BoolV) or h['inner'].b is None:
                raise Unclear('flag')
            if h['inner'].b != th.inner:
                return 'marked %s' % ('inner' if h['inner'].b else 'outer')

        def limit():
            d = th.deg
            if not (h['lmax'].val - d).is_zero():
                return 'lmax is %s instead of %s' % (h['lmax'].val, d)
            sh = s.store[h['qlm'].aid].shape
            if not ((sh[0] - d - 1).is_zero() and (sh[1] - d.scale(2) - 1).is_zero()):
                return 'moments of shape %s' % (sh,)

        def moments():
            q = s.store[h['qlm'].aid]
            if q.cells or q.base.val is None:
                raise Unclear('moments')
            got = sifted([(env.val(c), g, [env.val(x) for x in ar], ms) for c, g, ar, ms in bodies_of(q.base.val)], env, th)
            want = th.bodies(env)
            if not matches(got, want):
                a, b = sorted(g for _, g, _ in got), sorted(g for _, g, _ in want)
                strip = lambda x: [g.replace('.q2Q', '').replace('.Qmove', '').replace('.wrong', '') for g in x]
                if a != b and set(strip(a)) - set(strip(b)):
                    raise Unclear('other generators: %s' % ', '.join(a))
                if a != b:
                    return 'of %s instead of %s' % (', '.join(a) or 'nothing', ', '.join(b))
                x = [x for x in got if not any(matches([x], [y]) for y in want)][0]
                y = [y for y in want if not any(matches([x], [y]) for x in got)][0]
                f = lambda v: '%s(%.5g; %s)' % (v[1], v[0], ', '.join('%.4g' % x for x in v[2]))
                return 'of %s instead of %s' % (f(x), f(y))

        def mesh():
            m = s.heap[h['mesh'].oid]
            f, g = drawn(plain(m['made'], env, s)), th.inside(env)
            p = same(g, f, random.Random(seed), th.reach(env), pts)
            if p is not None:
                return 'the point (%.4g, %.4g, %.4g) is %s the mesh but %s the body' % (
                    *p, 'in' if f(p) else 'outside', 'in' if g(p) else 'outside')
            if not isinstance(m['pmass'], BoolV) or m['pmass'].b is None:
                raise Unclear('sign of the mass')
            if m['pmass'].b == negative:
                return 'the sign of the mass is lost'

        look('mass', mass)
        look('centre', centre)
        look('kind', kind)
        look('limit', limit)
        look('moments', moments)
        if seed < meshes:
            look('mesh', mesh)
    for rule in ('mass', 'centre', 'kind', 'limit', 'moments', 'mesh'):
        if (rule, nm) in rep.ob and rep.ob[(rule, nm)][0] == 'bad':
            continue
        if rule in open_:
            rep.und(rule, nm, open_[rule])
        elif good.get(rule, 0) >= 2:
            rep.ok(rule, nm)
        else:
            rep.und(rule, nm, 'no sample on these paths')


TURN, MOVE, MOVE2 = 'an_a, an_b, an_g', '[ux, uy, uz]', '(wx, wy, wz)'
T, U, W = ('an_a', 'an_b', 'an_g'), ('ux', 'uy', 'uz'), ('wx', 'wy', 'wz')


def histories(K):
    """(name, statements, what s stands for)"""
    ann, box, sph, tri = K['Annulus'], K['RectPrism'], K['Sphere'], K['TriPrism']
    out, oa = K['Sphere.outer'], K['Annulus.outer']
    a = lambda k, m=1, deg=LM: Thing([(k, m, [])], k.inner, deg)
    two = LM + 2
    S_, B_, N_ = ann.made(), sph.made('2*mass'), sph.made('-0.25*mass')
    yield 'turn-move', ['s = ' + S_, 's.rotate(%s)' % TURN, 's.translate(%s, True)' % MOVE], a(ann).turn(*T).move(*U)
    yield 'move-turn', ['s = ' + tri.made(), 's.translate(%s, True)' % MOVE, 's.rotate(%s)' % TURN], a(tri).move(*U).turn(*T)
    yield 'moves', ['s = ' + tri.made(), 's.translate(%s, True)' % MOVE, 's.rotate(%s)' % TURN, 's.translate(np.array(%s), True)' % MOVE2,
                    's.rotate(an_g, 0.5, an_a)'], a(tri).move(*U).turn(*T).move(*W).turn('an_g', 'half', 'an_a')
    yield 'to-outer', ['s = ' + S_, 's.translate(%s, False)' % MOVE], a(ann).move(*U, to_inner=False)
    yield 'to-outer-on', ['s = ' + tri.made(), 's.rotate(%s)' % TURN, 's.translate(%s, True)' % MOVE2, 's.translate(%s, False)' % MOVE,
                          's.rotate(an_b, an_a, 0.5)', 's.translate(%s, False)' % MOVE2], \
        a(tri).turn(*T).move(*W).move(*U, to_inner=False).turn('an_b', 'an_a', 'half').move(*W, to_inner=False)
    yield 'outer-moved', ['s = ' + out.made(), 's.rotate(%s)' % TURN, 's.translate(%s, False)' % MOVE], \
        a(out).turn(*T).move(*U, to_inner=False)
    yield 'add', ['s = ' + S_, 't = ' + B_, 's.add(t)'], a(ann).plus(a(sph, 2))
    yield 'add-moved', ['s = ' + tri.made(), 's.rotate(%s)' % TURN, 't = ' + B_, 't.translate(%s, True)' % MOVE, 's.add([t])',
                        's.translate(%s, True)' % MOVE2, 's.rotate(%s)' % TURN], \
        a(tri).turn(*T).plus(a(sph, 2).move(*U)).move(*W).turn(*T)
    yield 'add-list', ['s = ' + tri.made(), 't = ' + B_, 'r = ' + box.made('3*mass'), 's.add([t, r])'], \
        a(tri).plus(a(sph, 2), a(box, 3))
    yield 'add-hole', ['s = ' + tri.made(), 't = ' + N_, 's.add(t)'], a(tri).plus(a(sph, -.25))
    yield 'add-limits', ['s = ' + tri.made(), 't = ' + sph.made('2*mass', 'lmax + 2'), 'r = ' + box.made('3*mass'), 's.add([t, r])'], \
        a(tri).plus(a(sph, 2, two), a(box, 3))
    yield 'add-lower', ['s = ' + tri.made(deg='lmax + 2'), 't = ' + sph.made('2*mass'), 's.add(t)'], \
        a(tri, 1, two).plus(a(sph, 2))
    yield 'add-twice', ['s = ' + tri.made(), 't = ' + B_, 's.add(t)', 't.rotate(%s)' % TURN, 't.translate(%s, True)' % MOVE, 's.add(t)'], \
        a(tri).plus(a(sph, 2), a(sph, 2).turn(*T).move(*U))
    yield 'add-kept', ['t = ' + tri.made(), 's = ' + B_, 't.add(s)', 't.translate(%s, True)' % MOVE, 't.rotate(%s)' % TURN], a(sph, 2)
    yield 'add-kept-list', ['t = ' + tri.made(), 's = ' + B_, 'r = ' + box.made(), 'l = [s, r]', 't.add(l)', 't.add(l)',
                            't.translate(%s, False)' % MOVE], a(sph, 2)
    yield 'add-outer', ['s = ' + out.made(), 't = ' + oa.made('3*mass'), 's.add(t)', 's.translate(%s, False)' % MOVE], \
        a(out).plus(a(oa, 3)).move(*U, to_inner=False)
    yield 'add-carried', ['s = ' + tri.made(), 't = ' + B_, 's.translate(%s, False)' % MOVE, 't.translate(%s, False)' % MOVE2, 's.add(t)'], \
        a(tri).move(*U, to_inner=False).plus(a(sph, 2).move(*W, to_inner=False))
    yield 'refused-move', ['s = ' + out.made(), 'try:', '    s.translate(%s, True)' % MOVE, 'except ValueError:', '    pass'], a(out)
    yield 'refused-add', ['s = ' + tri.made(), 't = ' + out.made(), 'try:', '    s.add([t])', 'except TypeError:', '    pass'], a(tri)
    yield 'apart', ['t = ' + tri.made(), 's = ' + tri.made(), 't.translate(%s, True)' % MOVE, 't.rotate(%s)' % TURN], a(tri)


PARS = ('lmax', 'mass') + T + U + W


def c19(tier):
    rep = Report('C19')
    seeds, pts, meshes = (4, 120, 2) if tier == 'quick' else (16, 700, 8)
    K = dict(kinds())
    jobs = []
    for nm, k in K.items():
        one = lambda m=1: Thing([(k, m, [])], k.inner)
        jobs.append((nm, ['s = ' + k.made()], one(), k.names, k.draw, False))
        jobs.append((nm + '.negative', ['s = ' + k.made()], one(), k.names, k.draw, True))
        jobs.append((nm + '.moved', ['s = ' + k.made(), 's.rotate(%s)' % TURN, 's.translate(%s, %s)' % (MOVE, k.inner)],
                     one().turn(*T).move(*U, to_inner=k.inner), k.names, k.draw, False))
    for nm, body, th in histories(K):
        ks = {id(k): k for k, _, _ in th.parts}
        for x in ('Annulus', 'TriPrism', 'RectPrism', 'Sphere'):
            ks[id(K[x])] = K[x]
        names = tuple(dict.fromkeys(n for k in ks.values() for n in k.names))
        def draw(s, ks=ks):
            v = {}
            for j, k in enumerate(ks.values()):
                for n, x in zip(k.names, k.draw(s)):
                    v.setdefault(n, x)
            if 'y2' in v and v['y2'] <= v['y1']:
                v['y2'] = v['y1'] + .7
            return v
        jobs.append((nm, body, th, names, draw, False))
    for nm, body, th, names, draw, neg in jobs:
        pars = PARS + tuple(names) + ('half',)
        src = 'import numpy as np\nimport newt.shapes as S\ndef f(%s):\n%s\n    return s\n' % (
            ', '.join(pars), '\n'.join('    ' + b.replace('0.5', 'half') for b in body))
        I = cad_engine(src)
        args = [deg_arg(I)] + [Num(A('mass'), Grading(), sg=SN if neg else SP)] + [arg(x) for x in pars[2:]]
        outs = outcomes(I, rep, nm, args, [(A('mass'), SN if neg else SP)])
        if not outs:
            rep.und('object', nm, 'no outcome')
            continue
        for ev in I.events:
            if ev['kind'] == 'cut':
                rep.bad('limit', nm, 'moments are cut off', I.where(ev['node']))
        draw2 = lambda s, draw=draw, names=names: dict(draw(s) if isinstance(draw(s), dict) else zip(names, draw(s)), half=.5)
        judge_object(I, rep, nm, outs, th, names, draw2, seeds, pts, negative=neg, meshes=meshes)
    return rep, ('For every class of shapes and a family of histories of its operations, the moments, mass, centre, limit and '
                 'mesh of the object compared with those of the one body it stands for.'), 200
