"""C10 (arguments unchanged, results independent) and C23 (no history)."""
from ..core import Report
from .. import core
from ..effects import Effects, owner, kind

# what a user calls; helpers added later are judged through these
PUBLIC = {
    'newt.qlm': 'sphere cylinder annulus cone tri_iso_prism tri_iso_prism2 tri_prism rect_prism ngon_prism tetrahedron '
                'tetrahedron2 pyramid',
    'newt.qlmACH': 'rect_prism annulus cone cone2 tri_prism trapezoid cylindrical_section tetrahedron cylhole cylhole2 '
                   'platehole pyramid',
    'newt.qlmNum': 'cyl_mom cone_mom trap_mom steinmetz platehole',
    'newt.bigQlm': 'sphere annulus',
    'newt.bigQlmNum': 'annulus outer_cone trapezoid',
    'newt.pg2Multi': 'qmoment Qmomentb qmoments Qmomentsb imoment imoments',
    'newt.rotations': 'rotate_H_recurs dlmn wignerDl rotate_qlm rotate_qlm_Ds rotate_qlm_Ds_right Dlmn Dl',
    'newt.translations': 'translate_qlm translate_q2Q translate_Qlmb',
    'newt.translationRecurs': 'transl_newt_z_RR transl_newt_z_SR transl_newt_z_SS transl_yuk_z_RR_recurs transl_yuk_z_SR_recurs '
                              'apply_trans_mat apply_trans_mat_right translate_qlm translate_q2Q translate_Qlmb',
    'newt.clebschGordan': 'cgCoeff cgCoeff2',
    'newt.multipoleLib': 'force_basis multipole_force multipole_force_m torque_lm torque embed_qlm torques_at_angle',
    'newt.glib': 'gmmr2_array yukawa_array point_matrix_gravity point_matrix_yukawa translate_point_array '
                 'rotate_point_array',
    'newt.glibShapes': 'cart_2_cyl cyl_2_cart sphere rectangle annulus cone spherical_random_shell wedge trapezoid '
                       'outer_cone tri_prism tetrahedron ngon_prism pyramid cylhole platehole',
    'newt.gShapeGL': 'rectangle sphere annulus cone wedge tri_prism',
    'newt.read_multiFor': 'read_gsq read_gbq read_mpc',
}
RANDOM = {'newt.glibShapes.spherical_random_shell'}


def functions(E):
    for m, fs in PUBLIC.items():
        for f in fs.split():
            fn = E.func(m + '.' + f)
            if fn is not None:
                yield m + '.' + f, fn
    sh = E.mods.get('newt.shapes')
    if sh:
        for c, (node, ms) in sh.classes.items():
            for f in ms.values():
                if f.node.name in ('__init__', 'rotate', 'translate', 'add'):
                    yield f.qual, f


def short(q):
    return q.replace('newt.', '')


def array_like(fn, o):
    """memory a caller would notice: an array or container argument, or an array held by one"""
    while o[0] == 'F':
        o = o[1]
    return o[0] == 'P' and (o[1] in fn.arrays)


def reach(S, v):
    """objects reachable from a value through containers made by the function"""
    seen, todo = {}, [(o, s, ()) for o, s in v.objs]
    heap = S.exit.heap if S.exit is not None else {}
    while todo:
        o, s, p = todo.pop()
        if (o, s) in seen:
            continue
        seen[(o, s)] = p
        if kind(o) in ('list', 'dict', 'obj', 'tup'):
            for (b, f), w in heap.items():
                if b == o:
                    todo += [(x, y, p + (f,)) for x, y in w.objs]
    return seen


def c10(tier):
    rep = Report('C10')
    E = Effects(core.REPO)
    for q, fn in functions(E):
        S = E.summary(fn)
        rep.functions.add(q)
        meth = fn.names[:1] if fn.cls else []
        bad = set()
        for o, (what, line, mod, sure) in sorted(S.mut.items(), key=repr):
            own = owner(o)
            held = o[0] == 'F' and o[2] in E.attr_arrays
            if own[0] != 'P' or own[1] in meth or not (sure or held):
                continue
            if o[0] == 'P' and o[1] not in fn.arrays and 'assignment' not in what and 'method' not in what:
                continue
            bad.add(own[1])
            rep.bad('argument-unchanged', '%s(%s)' % (short(q), own[1]), '%s writes into the memory of argument %s' % (
                what, own[1]), '%s:%s' % (mod, line))
        for a in fn.names + fn.kwonly:
            if a not in meth and a not in bad:
                rep.ok('argument-unchanged', '%s(%s)' % (short(q), a), 'no in-place operation reaches it')
        shared = None
        for v, line in S.returns:
            for (o, s), p in reach(S, v).items():
                own = owner(o)
                if own[0] == 'P' and own[1] not in meth and s and array_like(fn, o):
                    shared = ('returns argument %s itself (or a view of it), not a new array' % own[1], line)
        if shared:
            rep.bad('result-independent', short(q), shared[0], '%s:%s' % (fn.mod.name, shared[1]))
        else:
            rep.ok('result-independent', short(q), '%d returned values' % len(S.returns))
        kept = None
        for (o, f), (v, line, mod) in S.kept.items():
            if owner(o)[0] == 'P' and owner(o)[1] not in meth:
                continue
            for x, s in v.objs:
                own = owner(x)
                if own[0] == 'P' and own[1] not in meth and s and (array_like(fn, x) or x[0] == 'F'):
                    kept = ('keeps a reference to the array of argument %s in %s' % (own[1], f), mod, line)
        if kept:
            rep.bad('no-reference-kept', short(q), kept[0], '%s:%s' % kept[1:])
        elif S.kept:
            rep.ok('no-reference-kept', short(q), 'stores no argument array')
    return rep, ('Every in-place operation (element and slice assignment, augmented assignment, in-place methods and '
                 'functions, out=) and every returned or stored value of each public function, followed through views, '
                 'containers, attributes and calls to the memory it belongs to.'), 200


def c23(tier):
    rep = Report('C23')
    E = Effects(core.REPO)
    sums = [(q, fn, E.summary(fn)) for q, fn in functions(E)]
    every = list(E.sums.values())
    # module state that is changed inside functions
    state = {}
    for S in every:
        for g, how, key, v, line, mod, sure in S.gsets:
            state.setdefault(g, []).append((how, key, v, line, mod))
    label = lambda g: 's:%s %s' % (g[1], g[2]) if g[0] == 'G' else 's:%s default %s' % (g[1], g[2])
    history = {}        # label -> why results that read it depend on the past
    shared = set()      # state that holds arrays
    chance = lambda d: [x for x in d if x.startswith('s:chance')]
    for g, evs in state.items():
        lb = label(g)
        for how, key, v, line, mod in evs:
            where = '%s:%s' % (mod, line)
            if any(kind(o) in ('arr', 'list', 'dict') for o, s in v.objs):
                shared.add(g)
            if how == 'cache':
                continue
            par = {d for d in v.deps if d.startswith('p:')}
            if how == 'entry':
                miss = {d for d in par if d not in (key or ()) and d.rstrip('~') not in (key or ())}
                if miss:
                    history[lb] = ('an entry kept in %s depends on %s, which its key does not %s' % (
                        g[2], ', '.join(sorted(x[2:].rstrip('~') for x in miss)),
                        'determine' if any(d + '~' in (key or ()) for d in miss) else 'contain'), where)
            elif how == 'rebind':
                if par or lb in v.deps or chance(v.deps):
                    history[lb] = ('%s keeps a value of an earlier call' % g[2], where)
            else:
                history[lb] = ('%s of %s outlives the call' % (how, g[2]), where)
    for q, fn, S in sums:
        rep.functions.add(q)
        why = [history[d] for d in sorted(S.ret.deps) if d in history]
        if fn.cls and S.exit is not None:
            for v in S.exit.heap.values():
                why += [history[d] for d in sorted(v.deps) if d in history]
        if why:
            rep.bad('no-history', short(q), 'the result depends on earlier calls: ' + why[0][0], why[0][1])
        else:
            rep.ok('no-history', short(q), 'depends on the arguments and constants only')
        bad = None
        for v, line in S.returns:
            for (o, s), p in reach(S, v).items():
                own = owner(o)
                if own[0] in 'GD' and (own in shared or own[0] == 'D' or (own[0] == 'G' and s and o == own)):
                    bad = ('returns an array or list that is kept in %s and returned again by a later call' % own[2], line)
        esc = [g for g, evs in state.items() for how, key, v, line, mod in evs if mod == fn.mod.name and how in ('entry', 'rebind')
               for o, s in v.objs if kind(o) in ('arr', 'list', 'dict') and any(o == x for r, l in S.returns for x, y in r.objs)]
        if esc and not bad:
            bad = ('returns the very array it keeps in %s' % esc[0][2], fn.node.lineno)
        if bad:
            rep.bad('result-not-kept', short(q), bad[0], '%s:%s' % (fn.mod.name, bad[1]))
        else:
            rep.ok('result-not-kept', short(q))
        rnd = chance(S.ret.deps) if q not in RANDOM else []
        if rnd:
            c = [x for x in S.chaos if 's:chance ' + x[0] in rnd][:1] or [(rnd[0], fn.node.lineno, fn.mod.name)]
            rep.bad('deterministic', short(q), 'the result depends on %s' % c[0][0], '%s:%s' % c[0][1:][::-1])
        else:
            rep.ok('deterministic', short(q))
    for S in every:
        for what, line, mod in S.process:
            rep.bad('process-state', '%s %s' % (mod, what), 'changes a setting of the whole process', '%s:%s' % (mod, line))
    return rep, ('Every write to module variables, mutable defaults, function attributes and caches made inside functions, the '
                 'arguments each kept value depends on and the keys it is kept under, and which results read it.'), 200
