"""C18 command files: the bodies a script stands for, with their moments scaled,
placed and accumulated as its commands say."""
import ast
import math
import random
from fractions import Fraction as F
from .ops import *
from .forces import LM, at_pos
from ..algebra import Env, Opaque, differ_all, mk_op_array, path_env
from ..concrete import Concrete

QUAL = 'newt.read_multiFor.read_mpc'
PI = Poly.atom('pi')
CM, INCH = F(1, 100), F(254, 10000)
MODS = ('qlm', 'qlmACH', 'qlmNum', 'bigQlm', 'bigQlmNum')
# index of the azimuth among the arguments after the mass
PHIC = {'qlm.annulus': 3, 'qlm.cone': 2, 'qlm.tri_iso_prism': 3, 'qlm.tri_iso_prism2': 2, 'qlm.rect_prism': 3,
        'qlm.ngon_prism': 2, 'qlmACH.annulus': 3}


# ------------------------------------------------------------------ numbers
def number(I):
    def f(s):
        s = s.strip()
        neg = s.startswith('-')
        b = s[1:] if neg else s
        if b[:1] in '$~' and b[1:].isalnum():
            p = Poly.atom(b[1:])
            sg = SP if b[0] == '$' else SIGNS_ALL
            if b[0] == '~':
                return Num(-p if neg else p, Grading())
            return Num(-p if neg else p, Grading(), sg=SN if neg else sg)
        try:
            v = F(s)
        except ValueError:
            try:
                return I.num(float(s))
            except ValueError:
                I.event('badnumber', None, text=s)
                return TOP
        return Num(Poly.const(v), Grading(), sg=SP if v > 0 else SN if v else SZ, integer=False)
    return f


def term(t):
    """the value of a number in a script"""
    neg = t.startswith('-')
    b = t[1:] if neg else t
    p = Poly.atom(b[1:]) if b[0] in '$~' else Poly.const(F(b))
    return -p if neg else p


# ------------------------------------------------------------------- bodies
def body(shape, d, rho, f):
    """[(mass or density, generator, arguments)]: lengths in units f"""
    v = [term(x) for x in d]
    s = [x.scale(f) for x in v]
    half = F(1, 2)
    if shape == 'cylinder':
        ri, ro, h = s[:3]
        c, w = (v[3] + v[4]) * PI, (v[4] - v[3]) * PI
        c, w = c.scale(F(1, 360)), w.scale(F(1, 360))
        return [(rho * w * h * (ro * ro - ri * ri), 'qlm.annulus', [h, ri, ro, c, w])]
    if shape == 'sphere':
        return [((rho * PI * s[0].pow(3)).scale(F(4, 3)), 'qlm.sphere', s)]
    if shape == 'cone':
        if not s[1].is_zero():      # a frustum: the cone without its tip
            full = s[2] * s[0] * (s[0] - s[1]).inv()
            tip = full - s[2]
            return [((rho * PI * full * s[0] * s[0]).scale(F(1, 3)), 'qlm.cone', [full, s[0], P0, PI]),
                    (-(rho * PI * tip * s[1] * s[1]).scale(F(1, 3)), 'qlm.cone', [tip, s[1], P0, PI],
                     [('move', [P0, P0, s[2]])])]
        return [((rho * PI * s[2] * s[0] * s[0]).scale(F(1, 3)), 'qlm.cone', [s[2], s[0], P0, PI])]
    if shape == 'triangle':
        x, y1, y2, t = s
        return [((rho * t * x * (y2 - y1)).scale(half), 'qlm.tri_prism', [t, x, y1, y2])]
    if shape == 'partcylinder':
        r, x, h = s
        w = Poly.atom(('arccos', v[1] * v[0].inv()))
        return [(rho * h * w * r * r, 'qlm.annulus', [h, P0, r, P0, w]),
                (-(rho * h * x * r * Poly.atom(('sin', w))), 'qlm.tri_iso_prism2', [h, r, P0, w])]
    if shape == 'tetrahedron':
        return [((rho * s[0] * s[1] * s[2]).scale(F(1, 6)), 'qlm.tetrahedron', s)]
    if shape == 'pyramid':
        return [((rho * s[0] * s[1] * s[2]).scale(F(1, 3)), 'qlm.pyramid', [s[0].scale(half), s[1].scale(half), s[2]])]
    if shape == 'rectangle':
        return [(rho * s[0] * s[1] * s[2], 'qlm.rect_prism', [s[2], s[0], s[1], P0])]
    if shape == 'platehole':
        return [(rho, 'qlmACH.platehole', [s[1], s[0], (v[2] * PI).scale(F(1, 180))])]
    if shape == 'cylhole':
        return [(rho, 'qlmNum.steinmetz', s, [('turn', [PI.scale(half), P0, P0])])]
    if shape == 'trapezoid':
        # widths w1 (x = 0) and w2 (x = h): the wedge that ends at the wider side without its tip
        w1, w2, h, t = s
        if v[0].cval() < v[1].cval():
            a, b, flip = w1, w2, False
        else:
            a, b, flip = w2, w1, True
        tip = a * h * (b - a).inv()
        out = []
        for w, x, sg in ((b, h + tip, 1), (a, tip, -1)):
            mv = [('move', [-tip, P0, P0])]
            if flip:
                mv += [('move', [-h, P0, P0]), ('turn', [P0, P0, PI])]
            out.append(((rho * t * w * x).scale(F(sg, 2)), 'qlm.tri_iso_prism', [t, w, x, P0], mv))
        return out
    raise KeyError(shape)


DIMS = {
    'cylinder': [['$a', '$b', '$c', '~u', '~v'], ['0', '$b', '$c', '-60', '60'], ['$a', '$b', '$c', '10', '90']],
    'sphere': [['$a']],
    'cone': [['$a', '0', '$c']],
    'triangle': [['$a', '-$b', '$c', '$d'], ['$a', '0.5', '2', '$d']],
    'trapezoid': [['2', '3', '$c', '$d'], ['3', '2', '$c', '$d'], ['0.5', '4', '$c', '$d'], ['2.5', '1.25', '1.5', '2.5']],
    'partcylinder': [['2.5', '$b', '$c'], ['$a', '0.5', '$c']],
    'tetrahedron': [['$a', '$b', '$c']],
    'platehole': [['$a', '$b', '$w'], ['2', '5', '30']],
    'cylhole': [['$a', '$b']],
    'pyramid': [['$a', '$b', '$c']],
    'rectangle': [['$a', '$b', '$c']],
}


class Script:
    """structured commands, their text and what they stand for"""

    def __init__(self, cmds, name='run.mpc'):
        self.cmds = cmds
        self.file = name

    def text(self):
        out = ['a title\n']
        for c in self.cmds:
            k = c[0]
            if k == 'create':
                out += ['create %s red\n' % c[1], ','.join(c[2]) + '\n', c[3] + '\n', ','.join(c[4]) + '\n']
            elif k in ('rotate', 'translate'):
                out.append('%s %s\n' % (k, ','.join(c[1])))
            elif k == 'load':
                out.append('load %s\n' % c[1])
            elif k == 'raw':
                out += [x + '\n' for x in c[1]]
            else:
                out.append(k + '\n')
        return out

    def meaning(self):
        """[(coefficient, generator, arguments, motions)]"""
        f = CM
        tot, wrk = [], []
        for c in self.cmds:
            if c[0] == 'raw':
                if len(c) < 3:
                    continue
                c = c[2]
            k = c[0]
            if k == 'cmin':
                f = CM
            elif k == 'inchin':
                f = INCH
            elif k == 'create':
                wrk = []
                for b in body(c[1], c[2], term(c[3]).scale(1000), f):
                    wrk.append((b[0], b[1], b[2], list(b[3]) if len(b) > 3 else []))
                wrk = [(a, g, v, m + [('move', [term(x).scale(f) for x in c[4]])]) for a, g, v, m in wrk]
            elif k == 'rotate':
                w = [(term(x) * PI).scale(F(1, 180)) for x in c[1]]
                wrk = [(a, g, v, m + [('turn', w)]) for a, g, v, m in wrk]
            elif k == 'translate':
                w = [term(x).scale(f) for x in c[1]]
                wrk = [(a, g, v, m + [('move', w)]) for a, g, v, m in wrk]
            elif k == 'add':
                tot = tot + wrk
            elif k == 'zeroqlm':
                tot = []
            elif k == 'gettotal':
                wrk = tot
            elif k == 'puttotal':
                tot = wrk
            elif k == 'load':
                wrk = [(P1, 'file.' + c[1], [], [])]
            elif k == 'end':
                break
        return tot


ZERO = ['0', '0', '0']


def scripts():
    """(name, script)"""
    for sh, dims in DIMS.items():
        for j, d in enumerate(dims):
            nm = '%s%d' % (sh, j)
            yield nm + '.cm', Script([('nsteps 24',), ('cmin',), ('create', sh, d, '$e', ZERO), ('add',), ('end',)])
            yield nm + '.inch', Script([('inchin',), ('create', sh, d, '$e', ['1.5', '-0.7', '2.2']), ('add',), ('end',)])
            if j:
                continue
            yield nm + '.moved', Script([('create', sh, d, '-$e', ZERO), ('rotate', ['~i', '~j', '~k']),
                                         ('translate', ['~x', '~y', '~z']), ('add',), ('end',)])
            yield nm + '.along', Script([('create', sh, d, '$e', ['0', '0', '-1.5']), ('add',),
                                         ('create', sh, d, '2.5', ['0', '0.25', '0']), ('add',),
                                         ('create', sh, d, '$g', ['3', '0', '0.0']), ('add',), ('end',)])
            yield nm + '.then', Script([('inchin',), ('create', sh, d, '1.0', ['0', '0', '0.0']), ('add',),
                                        ('create', sh, d, '$g', ZERO), ('translate', ['0', '0', '1']), ('add',), ('add',), ('end',)])
    A = ('create', 'sphere', ['$a'], '$e', ['0.3', '-4', '1.1'])
    B = ('create', 'rectangle', ['$b', '$c', '$d'], '$g', ZERO)
    B2 = ('create', 'rectangle', ['$b', '$c', '$d'], '$g', ['1', '-2.5', '0'])
    T = ('translate', ['~p', '~q', '-2'])
    R = ('rotate', ['~i', '~j', '30'])
    R2 = ('rotate', ['0', '90', '0'])
    add, end = ('add',), ('end',)
    yield 'units', Script([('inchin',), A, add, ('cmin',), B, add, B2, T, add, end])
    yield 'units-move', Script([B, ('inchin',), T, add, ('cmin',), T, R, add, end])
    yield 'repeat', Script([B2, add, R, add, T, add, R2, add, end])
    yield 'order', Script([B, T, R, add, B, R, T, add, end])
    yield 'replace', Script([A, B, add, B2, R, A, add, end])
    yield 'zero', Script([A, add, B, add, ('zeroqlm',), add, T, add, end])
    yield 'gettotal', Script([A, add, B, add, ('gettotal',), R, add, T, add, end])
    yield 'gettotal2', Script([A, add, B, add, ('gettotal',), ('zeroqlm',), R, add, end])
    yield 'puttotal', Script([A, add, B2, R, ('puttotal',), add, T, add, end])
    yield 'puttotal2', Script([A, add, B2, ('puttotal',), R, add, end])
    yield 'load', Script([A, add, ('load', 'part'), add, R, T, add, end])
    yield 'load-total', Script([('load', 'part'), add, ('gettotal',), T, ('puttotal',), add])
    yield 'stop', Script([B2, add, end, A, add, T, add, end])
    yield 'no-end', Script([B, add, A, add, R, add])
    yield 'comment', Script([('raw', ['%add', '% rotate 1,2,3']), B2,
                             ('raw', ['add % then rotate 3,4,5 and translate 1,1,1'], add),
                             ('raw', ['rotate 15,0,~k % and end'], ('rotate', ['15', '0', '~k'])), ('nsteps 30',), add,
                             ('raw', ['% add it once more', '', '   ', '  add'], add), A, add, ('raw', ['end of file'], end), add])
    yield 'comments', Script([B2, add, ('raw', ['% add', '  % translate 1,2,3', '%end']), A, add, ('raw', ['%zeroqlm']), end])
    yield 'frustum', Script([('create', 'cone', ['3', '1', '2'], '$e', ZERO), add, end])
    yield 'unknown', Script([A, add, ('raw', ['create blob red', '1,2', '1.0', '1,2,3', 'rotate 1,2,3', 'add']), B, add, end])
    yield 'unknown-end', Script([A, add, ('raw', ['create blob red', '1,2', '1.0', '0,0,0', 'add']), end, ('gettotal',), T, add])
    yield 'unknown-last', Script([A, add, ('raw', ['create blob red', '1,2', '1.0', '0,0,0', 'add'])])
    yield 'load-names', Script([('load', 'paddle'), T, add, ('load', 'endcap'), add, ('load', 'rotates'), R, add, end])
    yield 'name', Script([B2, add, end], 'run')


def motions(ms, env):
    """rotation and displacement of the body"""
    R = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
    t = [0., 0, 0]
    mul = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    for nm, ps in ms:
        v = [real(env.val(p)) for p in ps]
        if nm == 'move':
            t = [t[i] + v[i] for i in range(3)]
        else:
            Q = turn(*v)
            R = mul(Q, R)
            t = [sum(Q[i][j] * t[j] for j in range(3)) for i in range(3)]
    return R, t


def turn(a, b, g):
    mul = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    z = lambda w: [[math.cos(w), -math.sin(w), 0], [math.sin(w), math.cos(w), 0], [0, 0, 1]]
    y = lambda w: [[math.cos(w), 0, math.sin(w)], [0, 1, 0], [-math.sin(w), 0, math.cos(w)]]
    return mul(mul(z(a), y(b)), z(g))


def real(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-12 * max(1, abs(x)):
            raise Opaque
        x = x.real
    return x


def values(bodies, env):
    """numeric bodies, equal ones joined"""
    out = []
    for c, g, args, ms in bodies:
        c = real(env.val(c))
        v = [real(env.val(a)) for a in args]
        R, t = motions(ms, env)
        k = PHIC.get(g)
        if k is not None:
            Q = turn(v[k], 0, 0)
            R = [[sum(R[i][n] * Q[n][j] for n in range(3)) for j in range(3)] for i in range(3)]
            v[k] = 0.
        if g == 'qlm.sphere':
            R = [[1., 0, 0], [0, 1., 0], [0, 0, 1.]]
        if g == 'qlm.tri_prism' and len(v) == 4 and v[2] > v[3]:
            v[2], v[3] = v[3], v[2]
        flat = tuple(v) + tuple(x for row in R for x in row) + tuple(t)
        for i, (c2, g2, f2) in enumerate(out):
            if g == g2 and close(flat, f2):
                out[i] = (c + c2, g, f2)
                break
        else:
            out.append((c, g, flat))
    return [b for b in out if abs(b[0]) > 1e-12]


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1e-3, abs(x), abs(y)) for x, y in zip(a, b))


def matches(a, b):
    """the same bodies, in any order"""
    b = list(b)
    for x in a:
        for i, y in enumerate(b):
            if x[1] == y[1] and close(x[2], y[2]) and abs(x[0] - y[0]) <= 1e-9 * max(abs(x[0]), abs(y[0])):
                del b[i]
                break
        else:
            return False
    return not b


# ------------------------------------------------------------------- engine
def generator(name, fn, mass):
    """summary of a moment generator: mass times the moments of a body of unit mass"""
    pars = [a.arg for a in fn.args.args]
    def f(I, args, kw, n, st):
        b = dict(zip(pars, args))
        if set(kw) - set(pars) or set(kw) & set(b):
            return TOP
        b.update(kw)
        if set(b) != set(pars) or not all(isinstance(b[p], Num) and b[p].val is not None for p in pars):
            return TOP
        deg = b[pars[0]].val
        if not (deg - LM).is_zero() and not getattr(I, 'degrees', False):
            I.event('degree', n, name=name)
            return TOP
        e = Poly.atom(('el', name, D0, D1) + tuple(b[p].val for p in pars if p not in (pars[0], mass)))
        return I.new_arr(ArrC((deg + 1, deg.scale(2) + 1), Num(b[mass].val * e, Grading(), real=False), [], 'complex'), st, n)
    return f


def moment(a):
    """the moment at the place asked for, not a number made of another one"""
    return isinstance(a, tuple) and (a[0] == 'el' and a[2:4] == (D0, D1) or a[0] == 'op' and a[-2:] == (D0, D1))


def moved(kind):
    def f(I, args, kw, n, st):
        if not args or not isinstance(args[0], ArrV):
            return TOP
        c = st.store[args[0].aid]
        if kind in ('move', 'q2Q', 'Qmove'):
            a = list(args[1:]) + list(kw.values())
            if len(a) != 1:
                return TOP
            v = I.np.arr(a[0], st, n)
            if v is None or v.ndim != 1:
                return TOP
            es = [I.np.at(v, (Poly.const(k),), st) for k in range(3)]
        else:
            es = list(args[1:]) + [kw[x] for x in ('alpha', 'beta', 'gamma') if x in kw]
        if len(es) != 3 or not all(isinstance(e, Num) and e.val is not None for e in es) or c.ndim != 2 \
                or c.base.val is None or c.cells:
            return TOP
        e = Poly()
        for mono, k in c.base.val.t.items():      # operations are linear
            inner, outer = [], []
            for x in mono:
                a = x[0]
                (inner if moment(a) else outer).append(x)
            if len(inner) != 1 or inner[0][1] != 1:
                return TOP
            e = e + Poly({tuple(outer): k}) * mk_op_array(kind, tuple(x.val for x in es), Poly.atom(inner[0][0]))
        return I.new_arr(ArrC(c.shape, Num(e, Grading(), real=False), [], 'complex'), st, n)
    return f


def loaded(I, args, kw, n, st):
    a = list(args) + [kw[x] for x in ('filename', 'filepath') if x in kw]
    if len(a) != 2 or not all(isinstance(x, Str) and x.s is not None for x in a):
        return TOP
    if a[1].s != 'data/mom/':
        I.event('folder', n, name=a[1].s)
    nm = a[0].s[:-4] if a[0].s.endswith('.gsq') else a[0].s
    e = Poly.atom(('el', 'file.' + nm, D0, D1))
    return I.new_arr(ArrC((LM + 1, LM.scale(2) + 1), Num(e, Grading(), real=False), [], 'complex'), st, n)


def bodies_of(p):
    """[(coefficient, generator, arguments, motions)] of a term"""
    out = []
    for mono, c in p.t.items():
        rest, hit = [], None
        for a, e in mono:
            if moment(a):
                if hit is not None or e != 1:
                    raise Opaque
                hit = a
            else:
                rest.append((a, e))
        if hit is None:
            raise Opaque
        ms = []
        while hit[0] == 'op':
            ms.append((hit[1], list(hit[2:-4])))
            if hit[-2] != D0 or hit[-1] != D1:
                raise Opaque
            d = hit[-3]
            inner = hit[-4].subs({'@%s:%d' % (d, i): Poly.atom('$%d' % i) for i in (0, 1)})
            if len(inner.t) != 1:
                raise Opaque
            (m2, c2), = inner.t.items()
            if len(m2) != 1 or m2[0][1] != 1 or c2 != 1:
                raise Opaque
            hit = m2[0][0]
        if hit[0] != 'el' or hit[2] != D0 or hit[3] != D1:
            raise Opaque
        out.append((Poly({tuple(rest): c}), hit[1], list(hit[4:]), ms[::-1]))
    return out


MASS = ('mass', 'M', 'rho', 'dens', 'density')


def engine():
    I = fresh()
    I.alg = I.exact = True
    I.unroll = 60
    I.number = number(I)
    for m in MODS:
        mod = I.module('newt.' + m) if hasattr(I, 'module') else None
        for fn in functions(I, 'newt.' + m):
            pars = [a.arg for a in fn.args.args]
            mass = [p for p in pars if p in MASS]
            if len(mass) == 1 and pars[0] in ('L', 'LMax', 'lmax'):
                I.overrides['newt.%s.%s' % (m, fn.name)] = generator('%s.%s' % (m, fn.name), fn, mass[0])
    for m in ('translations', 'translationRecurs'):
        I.overrides['newt.%s.translate_qlm' % m] = moved('move')
    I.overrides['newt.rotations.rotate_qlm'] = moved('turn')
    I.overrides['newt.read_multiFor.read_gsq'] = loaded
    return I


def functions(I, mod):
    from ..core import REPO
    import os
    with open(os.path.join(REPO, *mod.split('.')) + '.py') as f:
        return [n for n in ast.parse(f.read()).body if isinstance(n, ast.FunctionDef)]


def judge(rep, nm, sc, trials):
    I = engine()
    lines = sc.text()
    other = []
    I.files = lambda x: lines if x == 'data/mpc/run.mpc' else other.append(x)
    want = sc.meaning()
    outs = run(I, rep, QUAL, [deg_arg(I), Str(sc.file), Str('data/mpc/')], State())
    if not outs:
        rep.und('script', nm, 'no outcome')
    if other:
        rep.bad('script', nm, 'opens %s' % other[0], 'newt.read_multiFor:%d' % I.func(QUAL).lineno)
        return
    for ev in I.events:
        if ev['kind'] == 'oob':
            rep.bad('script', nm, 'reads item %s of %s' % (ev['idx'], ev['size']), I.where(ev['node']))
            return
        if ev['kind'] == 'folder':
            rep.bad('script', nm, 'loads from %s' % ev['name'], I.where(ev['node']))
            return
    for k, s, v, node in outs:
        name = nm if len(outs) == 1 else '%s.path%d' % (nm, k)
        c = s.store[v.aid] if isinstance(v, ArrV) else None
        if c is None or c.ndim != 2 or c.base.val is None or c.cells:
            rep.und('script', name, 'value not derivable')
            continue
        try:
            got = bodies_of(c.base.val)
        except Opaque:
            rep.und('script', name, 'bodies not derivable')
            continue
        facts = list(s.facts.items())
        vague = any(isinstance(a, str) and a.startswith('lossy:') for p, _ in facts for a in p.atoms())
        facts = [] if vague else facts
        n = 0
        for seed in range(trials):
            try:
                env = path_env(facts, seed, POSITIVE) if facts else Env(seed, POSITIVE)
                if env is None:
                    continue
                a, b = values(got, env), values(want, env)
            except (Opaque, ValueError, ZeroDivisionError, OverflowError, KeyError, TypeError):
                continue
            n += 1
            if not matches(a, b) and vague:
                rep.und('script', name, 'path condition not derivable')
                break
            if not matches(a, b):
                names = lambda x: sorted(g for _, g, _ in x)
                if names(a) == names(b):
                    rep.bad('script', name, 'stands for %s instead of %s' % diff(a, b), I.where(node))
                elif {g for g in names(a)} <= {g for g in names(b)} or {g for g in names(b)} <= {g for g in names(a)}:
                    rep.bad('script', name, 'adds %d bodies instead of %d' % (len(a), len(b)), I.where(node))
                elif abs(sum(x[0] for x in a) - sum(x[0] for x in b)) > 1e-9 * max(abs(sum(x[0] for x in a)), 1e-6) \
                        and not any('qlm.' != g[:4] for g in names(a) + names(b)):
                    rep.bad('script', name, 'the mass is %.6g instead of %.6g'
                            % (sum(x[0] for x in a), sum(x[0] for x in b)), I.where(node))
                else:
                    rep.und('script', name, 'other generators: %s' % ', '.join(names(a)))
                break
        else:
            if n >= min(4, trials):
                rep.ok('script', name, '%d bodies' % len(want))
            else:
                rep.und('script', name, 'no sample on this path')


def diff(a, b):
    left = [y for y in b if not any(matches([x], [y]) for x in a)]
    extra = [x for x in a if not any(matches([x], [y]) for y in b)]
    f = lambda v: '%s(%.5g; %s)' % (v[1], v[0], ', '.join('%.4g' % x for x in v[2]))
    return f(extra[0]), f(left[0])


POSITIVE = {'a', 'b', 'c', 'd', 'e', 'g', 'w'}


# ------------------------------------------------------------- moment files
def moment_file(lim):
    out = [' a title\n', ' %d       0\n' % lim, '  1.0E+01\n', '  2.0E+01\n', '  .0  .0  .5\n', '  5.0\n', '  6.0\n', ' T F\n', '  .0000\n']
    for l in range(lim + 1):
        for m in range(l + 1):
            out.append('   ~r%dx%d    %s\n' % (l, m, '~i%dx%d' % (l, m) if m else '0.000000E+00'))
    return out


def settled(p, want, lim):
    try:
        return (Concrete({'Lm': lim})(p) - want).is_zero()
    except (Opaque, KeyError, ZeroDivisionError):
        return False


def stored(rep, fn, ext, unit, lim, name):
    """every moment of the file in its place, negative orders by conjugation"""
    I = fresh()
    I.alg = I.exact = True
    I.unroll = (lim + 2) * (lim + 3)
    I.np_unroll = True
    I.number = number(I)
    lines = moment_file(lim)
    other = []
    I.files = lambda x: lines if x == 'data/mom/part' + ext else other.append(x)
    nm = '%s.L%d.%s' % (fn, lim, 'name' if name.endswith(ext) else 'stem')
    outs = run(I, rep, 'newt.read_multiFor.' + fn, [Str(name), Str('data/mom/')], State())
    if not outs:
        rep.und('file', nm, 'no outcome')
    if other:
        rep.bad('file', nm, 'opens %s' % other[0], 'newt.read_multiFor:%d' % I.func('newt.read_multiFor.' + fn).lineno)
        return
    for k, s, v, node in outs:
        c = s.store[v.aid] if isinstance(v, ArrV) else None
        if c is None or c.ndim != 2 or not all(x is not None and x.is_const() for x in c.shape):
            rep.und('file', nm, 'shape not derivable')
            continue
        if tuple(int(x.cval()) for x in c.shape) != (lim + 1, 2 * lim + 1):
            rep.bad('file', nm, 'shape %s' % (tuple(int(x.cval()) for x in c.shape),), I.where(node))
            continue
        open_ = 0
        for l in range(lim + 1):
            for m in range(-l, l + 1):
                e = at_pos(I, s, v, Poly.const(l), Poly.const(lim + m))
                k = abs(m)
                want = Poly.atom('r%dx%d' % (l, k))
                if m:
                    want = want + (Poly.atom('I') * Poly.atom('i%dx%d' % (l, k))).scale(1 if m > 0 else -1)
                want = want.scale(unit(l) * ((-1) ** k if m < 0 else 1))
                if e is None or e.val is None:
                    open_ += 1
                elif not settled(e.val, want, lim):
                    d = differ_all(e.val, [want], lambda env: [0], (), list(s.facts.items()))
                    if d:
                        rep.bad('file', nm, 'moment (%d, %d): %s' % (l, m, d), I.where(node))
                        break
                    open_ += 1
        else:
            if open_:
                rep.und('file', nm, '%d moments not derivable' % open_)
            else:
                rep.ok('file', nm, '%d moments' % (lim + 1) ** 2)


def c18(tier):
    rep = Report('C18')
    for nm, sc in scripts():
        judge(rep, nm, sc, 8 if tier == 'quick' else 40)
    for fn, ext, unit in (('read_gsq', '.gsq', lambda l: F(1, 1000) * F(1, 100) ** l), ('read_gbq', '.gbq', lambda l: F(1))):
        for lim in (0, 1, 2, 4) if tier == 'quick' else range(8):
            for name in ('part', 'part' + ext):
                stored(rep, fn, ext, unit, lim, name)
    return rep, ('For each command file of a family covering every shape and command, the bodies, placements and sums derived '
                 'from read_mpc compared with those the file stands for.'), 40
