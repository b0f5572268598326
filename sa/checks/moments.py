"""C07: the moments are the integrals of the solid harmonics."""
import time
from .forces import *
from ..concrete import Concrete, Pole, equal, equal_quads
from .. import solids
from ..calculus import is_integral
from ..solids import reference
from ..algebra import Env, holds, show, path_env, Opaque, deep

MULTI = {}


def solve(facts):
    """substitution for the equalities among the dimensions on this path"""
    out = {}
    for p, sg in facts:
        if sg == frozenset('0') and not any(isinstance(a, tuple) or a.startswith(('nand:', 'lossy:')) for a in p.atoms()):
            p = p.subs(out) if out else p
            for a in sorted(p.atoms(), key=repr):
                co = p.coeff_of(a)
                if a not in ('I', 'pi', 'Lm') and co is not None and co.is_const() and not co.is_zero():
                    v = p.without(a).scale(-1 / co.cval())
                    out = {k: x.subs({a: v}) for k, x in out.items()}
                    out[a] = v
                    break
    return out


def conj_turn(p):
    """conjugate of a reference moment"""
    return Poly({tuple((a, -e if isinstance(a, tuple) and a[0] == 'exp' else e) for a, e in m):
                 c * (-1) ** sum(e for a, e in m if a == 'I') for m, c in p.t.items()})


def param_val(I, nm, ty, n):
    if ty == 'L':
        return deg_arg(I)
    if n is not None and ty.startswith('N'):
        return Num(Poly.const(n), ONEG, integer=True, sg=SP)
    return scal(I, nm, {'mass': {'M': P1}, 'rho': {'rho': P1}}.get(nm, {} if nm in ANGLES else {'L': P1}),
                SIGNS_ALL if nm in FREE else SP)


ANGLES = ('phic', 'phih', 'theta', 'phihN')
FREE = ('phic', 'y1', 'y2', 'theta', 'h1', 'h2', 'px', 'py', 'pz')


def domain(names):
    """what makes the parameters those of a solid: [(term, signs)]"""
    a = Poly.atom
    out = [(a(x), SP) for x in names if x not in FREE]
    for lo, hi in (('Ri', 'Ro'), ('y1', 'y2'), ('d', 'r'), ('h1', 'h2'), ('r', 'R')):
        if lo in names and hi in names:
            out.append((a(hi) - a(lo), SP))
    if 'phih' in names:
        out.append((a('pi') - a('phih'), frozenset('+0')))
    if 'theta' in names:
        out += [(a('pi').scale(F(1, 2)) + a('theta').scale(s), SP) for s in (1, -1)]
    return out


NAMES = {
    'newt.qlm': {
        'sphere': 'L mass R', 'cylinder': 'L mass H R', 'annulus': 'L mass H Ri Ro phic phih',
        'cone': 'L mass P R phic phih', 'tri_iso_prism': 'L mass H a d phic',
        'tri_iso_prism2': 'L mass H R phic phih', 'tri_prism': 'L mass H d y1 y2',
        'rect_prism': 'L mass H a b phic', 'ngon_prism': 'L mass H a phic N',
        'tetrahedron': 'L mass x y z', 'tetrahedron2': 'L mass x y1 y2 z', 'pyramid': 'L mass x y z'},
    'newt.qlmACH': {
        'rect_prism': 'L rho x y z', 'annulus': 'L rho H Ri Ro phic phih', 'cone': 'L rho h r1 r2',
        'cone2': 'L rho h r1 r2', 'tri_prism': 'L rho h d y1 y2', 'trapezoid': 'L rho t w1 w2 h',
        'cylindrical_section': 'L rho t r d', 'tetrahedron': 'L rho x y z', 'platehole': 'L rho t r theta',
        'pyramid': 'L rho h x y'},
    'newt.qlmNum': {
        'cyl_mom': 'L rho phih Ri Ro h1 h2', 'cone_mom': 'L rho phih Ri Ro H', 'trap_mom': 'L rho phih Ri Ro h1 h2',
        'steinmetz': 'L rho r R', 'platehole': 'L rho t r theta'},
    'newt.bigQlm': {'sphere': 'L rho R px py pz', 'annulus': 'L rho H Ri Ro phic phih'},
    'newt.bigQlmNum': {
        'annulus': 'L rho h1 h2 Ri Ro phih', 'outer_cone': 'L rho H Ri Ro phih', 'trapezoid': 'L rho h1 h2 Ri Ro phih'},
}


def samples(vals, num, den, facts, dim, ints, tries=300):
    """an assignment of the dimensions at which the derived moment is not num/den"""
    fs = list(facts) + dim
    if any(isinstance(a, str) and a.startswith('lossy:') for p, sg in fs for a in p.atoms()):
        return None
    quad = quads(vals) or quads(num)
    n, pos = 0, tuple(next(iter(p.atoms())) for p, sg in dim if len(p.t) == 1 and sg == SP)
    for seed in range(min(tries, 300 if len(vals.t) < 2000 and not quad else 30)):
        try:
            env = path_env(fs, seed, pos, ints=ints)
            if env is None:
                continue
            x, y, d = env.val(vals), env.val(num), env.val(den)
            y = y / d
        except (Opaque, ValueError, OverflowError, ZeroDivisionError, KeyError, TypeError):
            continue
        if x != x or y != y:
            continue
        sc = max(abs(x), abs(y), 1e-12)
        if abs(x - y) > (max(1e-5, 30 * env.rel) if quad else 1e-6) * sc and abs(x - y) > 1e-9 and \
                abs(x - y) > 1e-9 * (weight(env, vals) + weight(env, num) / abs(d)):
            return '%s instead of %s' % (show(x), show(y))
        n += 1
        if n > 4:
            return None
    return None if n else 'none'


def weight(env, p):
    """what rounding errors are relative to"""
    return sum(abs(env.val(Poly({m: c}))) for m, c in p.t.items())


def job(mod, fn, top):
    """obligations of one generator: [(status, rule, construct, message, where)]"""
    if mod.endswith('pg2Multi'):
        return clouds(mod, fn, top)
    out, funcs = [], set()
    names = NAMES[mod][fn].split()
    top = min(top, 5) if mod.endswith('ACH') or (mod, fn) == ('newt.bigQlm', 'annulus') else top
    for sides in (4, 5) if 'N' in names else (None,):
        got, fs = analyse(mod, fn, names, top, sides, None)
        funcs |= fs
        left = sorted({o[5] for o in got if o[0] == 'undecided' and o[5] is not None})
        if any(o[0] == 'undecided' for o in got):
            # at fixed degree limits, loops unrolled
            sure, more = {o[2]: o for o in got}, []
            for big in sorted({top + (top < 5)} | set(left)):
                m, fs = analyse(mod, fn, names, top, sides, big)
                more += m
                funcs |= fs
            if more and all(o[0] != 'undecided' for o in more):
                got = [o for o in got if o[0] != 'undecided']
            got += more
        out += [o[:5] for o in got]
    return out, sorted(funcs)


def analyse(mod, fn, names, top, sides, big):
    out = []

    class Log(Report):
        l = None

        def put(self, status, rule, construct, msg='', where=''):
            out.append((status, rule, construct, msg, where, self.l))
    rep = Log('C07')
    I = fresh()
    st = State()
    I.alg = I.exact = True
    consts(I)
    args, ref = [], []
    for x in names:
        if x == 'L':
            if big is None:
                args.append(deg_arg(I))
            else:
                I.unroll = 16
                args.append(Num(Poly.const(big), ONEG, integer=True, sg=SNN if not big else SP))
        elif x == 'N':
            args.append(Num(Poly.const(sides), ONEG, integer=True, sg=SP))
            ref.append(Poly.const(sides))
        else:
            args.append(scal(I, x, {} if x in ANGLES else {'mass': {'M': P1}, 'rho': {'rho': P1}}.get(x, {'L': P1}), SIGNS_ALL))
            ref.append(Poly.atom(x))
    q = '%s.%s' % (mod, fn)
    f = reference(q, ref)
    memo = {}
    dim = domain([x for x in names if x not in ('L', 'N')])
    for k, s, v, node in run(I, rep, q, args, st):
        nm = '%s%s%s.path%d' % (q[5:], '' if sides is None else '.N%d' % sides, '' if big is None else '.L%d' % big, k)
        if not isinstance(v, ArrV) or s.store[v.aid].ndim != 2:
            rep.und('moment', nm, 'does not return an array of moments')
            continue
        path(I, rep, nm, s, v, f, memo, dim, top, node, big)
    return out, rep.functions


def path(I, rep, nm, s, v, f, memo, dim, top, node, fixed):
    facts = list(s.facts.items())
    eqs = solve(facts)
    pos = {next(iter(p.atoms())) for p, sg in dim if len(p.t) == 1 and sg == SP}
    pos |= {('cos', Poly.atom(x)) for x in ('theta',)}
    sd = s.copy()
    for p, sg in dim:
        sd.add_fact(p, sg)
    sign = lambda q: I.R.sign(q, sd)
    for l in range(top + 1) if fixed is None else range(min(fixed, top) + 1):
        s2 = s.copy()
        rep.l = l
        if fixed is None and l and (not s2.add_fact(LM - l, frozenset('+0')) or I.R.sign(LM - l, s) == frozenset('-')):
            continue
        for m in range(-l, l + 1):
            cn = '%s.l%d.m%s' % (nm, l, m)
            e = at_pos(I, s2, v, Poly.const(l), (LM if fixed is None else Poly.const(fixed)) + m)
            if e is None or e.val is None:
                rep.und('moment', cn, 'value not derivable')
                continue
            if (l, m) not in memo:
                if m >= 0:
                    memo[l, m] = f(l, m)
                else:
                    a, d = f(l, -m)
                    memo[l, m] = conj_turn(a).scale((-1) ** m), d
            num, den = memo[l, m]
            for big in sorted({l, l + 1, top + 1}) if fixed is None else (fixed,):
                ints = {'Lm': big}
                if not all(holds_int(p, sg, ints) for p, sg in facts):
                    continue
                r, x, a, d = 'undecided', e.val, num, den
                try:
                    c = Concrete(ints, pos, sign)
                    x, a, d = c(e.val), c(num), c(den)
                    if eqs:
                        x, a, d = [c(y.subs(eqs)) for y in (x, a, d)]
                    if quads(a) and not quads(x):
                        r = 'ok' if washer(x, c(e.val.subs({'H': -Poly.atom('H')})), l, m, pos, c) else r
                    elif quads(x) or quads(a):
                        r = 'ok' if equal_quads(x, a, d) else r
                    elif x * d == a or samples(x, a, d, facts, dim, ints, 3) in (None, 'none') and equal(x, a, d):
                        r = 'ok'
                except Pole:
                    if samples(num, num, den, facts, dim, ints) != 'none':
                        r, w = 'bad', 'a factorial of a negative number'
                except Opaque:
                    pass
                why = 'equality of the terms not shown'
                if r != 'ok':
                    w = w if r == 'bad' else samples(x, a, d, facts, dim, ints)
                    if w and w != 'none':
                        r, why = 'bad', 'moment (%d, %d) at degree limit %d is not that of the solid: %s' % (l, m, big, w)
                rep.put(r, 'moment', cn, '' if r == 'ok' else why, I.where(node))
    rep.l = None


CLOUDS = {'qmoments': 'inner', 'Qmomentsb': 'outer', 'imoments': 'yukawa', 'qmoment': 'inner', 'Qmomentb': 'outer',
          'imoment': 'yukawa'}


def cloud_ref(kind, where):
    """moments of points with these coordinates"""
    a = Poly.atom

    def f(l, m):
        out = Poly()
        for i, at in enumerate(where):
            mass = a(('el', 'p.m', Poly.const(i)))
            y = solids.point(l, abs(m), at, (kind != 'outer') == (m >= 0)).scale((-1) ** m if m < 0 else 1)
            r2 = sum((x * x for x in at), Poly())
            r = Poly.atom(('sqrt', r2))
            if kind == 'outer':
                y = y * Poly({((('sqrt', r2), -2 * l - 1),): F(1)})
            elif kind == 'yukawa':
                if r2.is_zero():
                    y = solids.norm(0, 0) if l == 0 else Poly()
                else:
                    y = y * Poly({((('sqrt', r2), -l),): F(1)}) * a(('sph_in', Poly.const(l), r * a('lam').inv()))
            out = out + mass * y
        return out
    return f


def clouds(mod, fn, top):
    out = []

    class Log(Report):
        def put(self, status, rule, construct, msg='', where=''):
            out.append((status, rule, construct, msg, where))
    rep = Log('C07')
    kind, q = CLOUDS[fn], '%s.%s' % (mod, fn)
    many = fn.endswith(('s', 'sb'))
    top = min(top, 6)
    el = lambda c, i: Poly.atom(('el', 'p.' + c, Poly.const(i)))
    here = lambda i: tuple(el(c, i) for c in 'xyz')
    zero = (Poly(),) * 3
    cases = [('one', [here(0)]), ('two', [here(0), here(1)])]
    if kind != 'outer':
        cases += [('origin', [zero]), ('both', [zero, here(1)])]
    # points on the axes: where the azimuth or a coordinate is degenerate
    for l, m in [(None, None)] if many else [(l, m) for l in range(min(top, 3) + 1) for m in range(-l, l + 1)]:
        I, st = fresh(), State()
        I.alg = I.exact = True
        consts(I)
        num = lambda k: Num(Poly.const(k), ONEG, integer=True, sg=SP if k > 0 else SNN if k == 0 else SIGNS_ALL)
        args = [deg_arg(I)] if many else [num(l), num(m)]
        if kind == 'yukawa':
            args.append(scal(I, 'lam', {'L': P1}, SP))
        args.append(points(st, I, 'p', 'M', True))
        for k, s, v, node in run(I, rep, q, args, st):
            facts = list(s.facts.items())
            if any(isinstance(p.atoms() and next(iter(p.atoms())), str) and str(p).startswith('lossy') and sg == frozenset('+')
                   for p, sg in facts) and kind == 'outer':
                continue        # a point at the origin: there is no moment
            for name, where in cases:
                for l2, m2 in [(a, b) for a in range(top + 1) for b in range(-a, a + 1)] if many else [(l, m)]:
                    cn = '%s.%s.path%d.l%d.m%s' % (q[5:], name, k, l2, m2)
                    if many:
                        if not isinstance(v, ArrV):
                            rep.und('moment', cn, 'not an array')
                            continue
                        s2 = s.copy()
                        if l2 and not s2.add_fact(LM - l2, frozenset('+0')):
                            continue
                        e = at_pos(I, s2, v, Poly.const(l2), LM + m2)
                    else:
                        e = v if isinstance(v, Num) else None
                    if e is None or e.val is None:
                        rep.und('moment', cn, 'value not derivable')
                        continue
                    mp = {('el', 'p.' + c, Poly.const(i)): Poly() for i, at in enumerate(where) for c, x in zip('xyz', at) if x.is_zero()}
                    ref = cloud_ref(kind, where)(l2, m2)
                    for big in sorted({l2, top + 1}):
                        ints = {'Lm': big, 'n_p': len(where)}
                        r, x = 'undecided', e.val
                        try:
                            c = Concrete(ints, ('lam',), root_sign)
                            c.zeros = mp
                            x, y = c(e.val), c(ref)
                            if x == y or not samples(x, y, ONE_P, [], [(Poly.atom('lam'), SP)], ints, 3) and equal(x, y, ONE_P):
                                r = 'ok'
                        except Pole:
                            r = 'bad'
                        except Opaque:
                            pass
                        why = 'equality of the terms not shown'
                        if r != 'ok':
                            w = 'not finite' if r == 'bad' else samples(x, ref, ONE_P, [], [(Poly.atom('lam'), SP)], ints)
                            if w and w != 'none':
                                r, why = 'bad', 'moment (%d, %d) of %s at degree limit %d: %s' % (
                                    l2, m2, {'one': 'a point', 'two': 'two points', 'origin': 'a point at the origin',
                                             'both': 'two points, one at the origin'}[name], big, w)
                        rep.put(r, 'moment', cn, '' if r == 'ok' else why, I.where(node))
    return out, rep.functions


ONE_P = Poly.const(1)


def root_sign(p):
    """a distance is positive"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(isinstance(a, tuple) and a[0] == 'sqrt' or a in ('lam', 'pi') for a, e in m):
            return frozenset('+' if c > 0 else '-')
    return None


def washer(x, below, l, m, pos, conc):
    """the closed form of the outer moment of the sector of a ring, and that of the
    ring below the plane"""
    f = solids.ring('rho', 'H', 'Ri', 'Ro', 'phic', 'phih')(l, abs(m))
    if m < 0:
        f = conj_turn(f).scale((-1) ** m)
    if not is_integral(x, conc(f), 'Ri', 'Ro', 'H', pos):
        return False
    return equal(below, x.scale((-1) ** (l + m)), ONE_P)


def quads(p):
    return any(isinstance(a, tuple) and a[0] == 'quad' for a in p.atoms())


def holds_int(p, sg, ints):
    """no contradiction between a condition on the degree limit and its value"""
    if deep(p) - set(ints):
        return True
    try:
        return holds(Env(0, (), ints=ints), p, sg)
    except (Opaque, KeyError, TypeError):
        return True


def task(a):
    try:
        return a, job(*a)
    except RecursionError as e:
        return a, ([('undecided', 'entry', '%s.%s' % a[:2], '%s' % e, '')], [])
    except Exception as e:
        return a, ([('undecided', 'entry', '%s.%s' % a[:2], '%s: %s' % (type(e).__name__, e), '')], [])


def parallel(rep, task, jobs, limit):
    """every job in a process of its own; what is not ready in time is undecided"""
    import multiprocessing as mp
    pool = mp.get_context('fork').Pool(max(2, min(8, mp.cpu_count())), maxtasksperchild=1)
    wait, end = list(jobs), time.time() + limit
    it = pool.imap_unordered(task, jobs, 1)
    try:
        while wait:
            a, (obs, funcs) = it.next(timeout=max(1, end - time.time()))
            wait.remove(a)
            for o in obs:
                rep.put(*o)
            rep.functions.update(funcs)
    except mp.TimeoutError:
        for a in wait:
            rep.und('entry', '.'.join(str(x) for x in a), 'not finished in time')
    pool.terminate()
    pool.join()


def c07(tier):
    rep = Report('C07')
    top = 8 if tier == 'quick' else 11
    heavy = ['tetrahedron2', 'pyramid', 'tetrahedron', 'tri_prism', 'ngon_prism', 'trapezoid', 'rect_prism']
    jobs = [(m, f, top) for m, d in NAMES.items() for f in d]
    jobs += [('newt.pg2Multi', f, top) for f in CLOUDS]
    jobs.sort(key=lambda j: heavy.index(j[1]) if j[1] in heavy else 99)
    parallel(rep, task, jobs, 1500 if tier != 'quick' else 640)
    rep.assumptions.append('parameters of a solid: positive lengths, ordered radii and vertices, half widths up to pi')
    return rep, ('Value terms of every entry returned by the generators, at each degree up to %d (5 for the tabulated ones) and '
                 'several degree limits, compared as polynomials in the dimensions with the exact integral of the solid harmonic '
                 'over the solid.' % top), 1000
