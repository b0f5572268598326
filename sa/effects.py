"""Ownership and effect analysis.

Flow-sensitive, interprocedural (one summary per function, instantiated at every
call).  A value is the set of memory objects it may be on some path; each object
is marked sure (it is the array / container itself, or a view of it) or not (it
may be a number read from it).  Recorded effects: in-place changes of objects
that belong to a caller or to the module, objects that are kept (stored in an
argument or in module state), and what a result depends on.

objects: ('P', name) memory of an argument      ('D', f, name) its default
         ('G', mod, name) module variable       ('F', obj, attr) part of obj
         ('S', id, kind) allocated here (kind arr / list / dict / obj)
"""
import ast
import os
import re

NOTHING = frozenset()

VIEWS = set('asarray asanyarray ascontiguousarray asfortranarray atleast_1d atleast_2d atleast_3d ravel reshape transpose '
            'squeeze real imag swapaxes moveaxis rollaxis expand_dims broadcast_to fliplr flipud flip rot90 require '
            'real_if_close split array_split hsplit vsplit asmatrix'.split())
VIEW_METHODS = set('reshape ravel transpose squeeze swapaxes view diagonal __array__'.split())
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'mT'}
PLAIN_ATTRS = {'shape', 'dtype', 'size', 'ndim', 'nbytes', 'strides', 'itemsize'}
NEW_ARRAYS = set('array zeros ones empty full eye identity arange linspace zeros_like ones_like empty_like full_like copy '
                 'outer tile repeat concatenate stack vstack hstack meshgrid diag cumsum cumprod roll append insert delete '
                 'column_stack where nonzero argsort sort unique fromfunction loadtxt genfromtxt logspace indices kron'.split())
ELEMENTWISE = set('sqrt sin cos tan exp log abs absolute conj conjugate power multiply add subtract divide negative arctan2 '
                  'arccos arcsin arctan sinh cosh tanh sign floor ceil round angle nan_to_num square mod minimum maximum '
                  'cross matmul dot einsum'.split())
INPLACE_FUNCS = set('fill_diagonal put place copyto putmask put_along_axis shuffle'.split())
INPLACE_METHODS = set('sort fill put resize itemset partition setfield setflags append extend insert pop remove clear update '
                      'setdefault reverse popitem add discard __setitem__ __iadd__ __imul__'.split())
CHAOS = re.compile(r'^(numpy\.random\.(?!seed$|default_rng$|RandomState$|SeedSequence$)\w+|random\.(?!seed$|Random$)\w+|'
                   r'time\.\w*time\w*|datetime\..*now|uuid\.\w+|os\.urandom|os\.getpid|os\.environ.*|secrets\.\w+)$')
PROCESS = re.compile(r'^(numpy\.(seterr|seterrcall|set_printoptions|setbufsize)|numpy\.random\.(seed|set_state)|random\.seed|'
                     r'os\.(chdir|environ\.\w+|putenv|umask)|warnings\.(filterwarnings|simplefilter)|sys\.setrecursionlimit)$')
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


class V:
    __slots__ = ('objs', 'deps', 'refs', 'cls')

    def __init__(self, objs=NOTHING, deps=NOTHING, refs=NOTHING, cls=NOTHING):
        self.objs, self.deps, self.refs, self.cls = frozenset(objs), frozenset(deps), frozenset(refs), frozenset(cls)

    def __eq__(self, o):
        return (self.objs, self.deps, self.refs, self.cls) == (o.objs, o.deps, o.refs, o.cls)

    def __or__(self, o):
        return V(self.objs | o.objs, self.deps | o.deps, self.refs | o.refs, self.cls | o.cls)

    def dep(self, d):
        return self if d <= self.deps else V(self.objs, self.deps | d, self.refs, self.cls)


EMPTY = V()


def lossy(deps):
    """a value that does not determine the arguments it was computed from"""
    return frozenset(d + '~' if d.startswith('p:') and not d.endswith('~') else d for d in deps)


LOSSY = {'round', 'around', 'floor', 'ceil', 'rint', 'trunc', 'abs', 'absolute', 'fabs', 'sign', 'len', 'shape', 'size', 'ndim',
         'sum', 'mean', 'float32', 'float16', 'format', 'isclose', 'allclose', 'norm', 'hash', 'id', 'type', 'bool', 'round_',
         'floor_divide', 'mod', 'remainder', 'fmod', 'argmax', 'argmin', 'max', 'min', 'amax', 'amin', 'prod', 'bool_'}


def union(vs):
    r = EMPTY
    for v in vs:
        r = r | v
    return r


def owner(o):
    while o[0] == 'F':
        o = o[1]
    return o


def kind(o):
    return o[2] if o[0] == 'S' else None


class St:
    """variables and the contents of containers"""

    def __init__(self, env=None, heap=None):
        self.env, self.heap = env or {}, heap or {}

    def copy(self):
        return St(dict(self.env), dict(self.heap))

    def join(self, o):
        if o is None:
            return self.copy()
        r = St(dict(self.env), dict(self.heap))
        for a, b in ((r.env, o.env), (r.heap, o.heap)):
            for k, v in b.items():
                a[k] = a[k] | v if k in a else v
        return r

    def same(self, o):
        return self.env == o.env and self.heap == o.heap


def sjoin(a, b):
    return b if a is None else a.join(b)


class Summary:
    def __init__(self):
        self.ret = EMPTY
        self.heap = {}           # contents of the objects a caller can reach
        self.mut = {}            # obj -> (what, line, mod, sure)
        self.kept = {}           # (obj, field) -> (V, line, mod)
        self.chaos = []          # (what, line, mod)
        self.process = []
        self.gsets = []          # (G, how, key deps, value V, line, mod)
        self.greads = set()
        self.returns = []        # (V, line)
        self.params = []
        self.exit = None


# undocumented arguments that may be arrays
ARRAYS = {('newt.multipoleLib.torques_at_angle', 'angles'), ('newt.multipoleLib.torques_at_angle', 'tc'),
          ('newt.multipoleLib.torques_at_angle', 'ts')}


class Func:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.qual = mod.name + '.' + (cls + '.' if cls else '') + node.name
        doc = ast.get_docstring(node) or ''
        self.arrays, self.nested = set(), set()    # arrays, lists of arrays
        a = node.args
        self.names = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        for nm in self.names + self.kwonly:
            if re.search(r'^\s*%s\s*:\s*.*(ndarray|array)' % re.escape(nm), doc, re.M):
                self.arrays.add(nm)
            if re.search(r'^\s*%s\s*:\s*[Ll]ist of ((nd)?arr|matri)' % re.escape(nm), doc, re.M):
                self.nested.add(nm)
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.arrays.add(n.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and \
                    n.attr in ('T', 'shape', 'conj', 'dot', 'astype'):
                self.nested.add(n.value.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ('T', 'shape', 'conj', 'ndim', 'dot'):
                self.arrays.add(n.value.id)
            if isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) in (
                    'len', 'shape', 'dot', 'cross', 'transpose', 'vdot', 'outer', 'norm', 'enumerate', 'concatenate', 'vstack', 'hstack'):
                self.arrays |= {x.id for x in n.args if isinstance(x, ast.Name)}
        alias = {n.targets[0].id: n.value.id for n in ast.walk(node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and
                 isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name)}
        self.arrays |= {v for k, v in alias.items() if k in self.arrays}
        self.arrays |= {v for q, v in ARRAYS if q == self.qual}
        pos = self.names
        self.defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})


class Module:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.funcs, self.classes, self.imports, self.vars, self.stars = {}, {}, {}, {}, []
        self.scan(tree.body)

    def scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(self, n)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = (n, {m.name: Func(self, m, n.name) for m in n.body if isinstance(m, ast.FunctionDef)})
                for m in n.body:
                    if isinstance(m, ast.Assign):
                        for t in m.targets:
                            if isinstance(t, ast.Name):
                                self.vars[n.name + '.' + t.id] = m.value
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        self.vars[t.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    base = '.'.join(self.name.split('.')[:-n.level] + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self.scan(n.body)
                for h in getattr(n, 'handlers', []):
                    self.scan(h.body)
                self.scan(getattr(n, 'orelse', []))


class Effects:
    def __init__(self, root, package='newt'):
        self.mods = {}
        pk = os.path.join(root, package)
        for fn in sorted(os.listdir(pk)):
            if fn.endswith('.py'):
                nm = package if fn == '__init__.py' else package + '.' + fn[:-3]
                self.mods[nm] = Module(nm, ast.parse(open(os.path.join(pk, fn)).read()))
        self.sums = {}
        self.busy = []
        self.attr_arrays = set()
        for m in self.mods.values():
            for node, meths in m.classes.values():
                for n in ast.walk(node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        f = n.value.func
                        if isinstance(f, ast.Attribute) and f.attr in NEW_ARRAYS:
                            for t in n.targets:
                                if isinstance(t, ast.Attribute):
                                    self.attr_arrays.add(t.attr)

    # ---------------------------------------------------------- names
    def func(self, ref):
        mod, _, nm = ref.rpartition('.')
        if mod in self.mods:
            return self.mods[mod].funcs.get(nm)
        m2, _, c = mod.rpartition('.')
        if m2 in self.mods and c in self.mods[m2].classes:
            return self.method(m2, c, nm)
        return None

    def method(self, mod, c, nm, seen=()):
        m = self.mods.get(mod)
        if m is None or c not in m.classes or (mod, c) in seen:
            return None
        node, ms = m.classes[c]
        if nm in ms:
            return ms[nm]
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.method(mod, b.id, nm, seen + ((mod, c),))
                if r:
                    return r
        return None

    def resolve(self, mod, name, depth=0):
        """reference of a global name of a module"""
        if depth > 6:
            return None
        if name in mod.funcs or name in mod.classes:
            return mod.name + '.' + name
        if name in mod.vars:
            v = mod.vars[name]
            if isinstance(v, ast.Name):
                return self.resolve(mod, v.id, depth + 1)
            if isinstance(v, ast.Attribute):
                p = dotted(v)
                if p:
                    b = self.resolve(mod, p[0], depth + 1)
                    return b and '.'.join([b] + p[1:])
            return 'var:' + mod.name + ':' + name
        if name in mod.imports:
            r = mod.imports[name]
            m, _, nm = r.rpartition('.')
            if r not in self.mods and m in self.mods and nm:
                return self.resolve(self.mods[m], nm, depth + 1) or r
            return r
        for s in mod.stars:
            if s in self.mods:
                r = self.resolve(self.mods[s], name, depth + 1)
                if r:
                    return r
        return None

    def summary(self, f):
        if f.qual in self.sums:
            return self.sums[f.qual]
        if f.qual in self.busy or len(self.busy) > 30:
            return Summary()
        self.busy.append(f.qual)
        s = Run(self, f).go()
        self.busy.pop()
        self.sums[f.qual] = s
        return s


def dotted(n):
    p = []
    while isinstance(n, ast.Attribute):
        p.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        return [n.id] + p[::-1]
    return None


class Run:
    """one function"""

    def __init__(self, E, f):
        self.E, self.f, self.mod = E, f, f.mod
        self.S = Summary()
        self.ctl = [NOTHING]
        self.loops = []
        self.globals = set()
        self.depth = 0
        self.bound = set()
        self.escaped = set()

    def go(self):
        f, S = self.f, self.S
        st = St()
        a = f.node.args
        for k, nm in enumerate(f.names + f.kwonly):
            objs = {(('P', nm), nm in f.arrays or (k == 0 and bool(f.cls)))}
            deps = {'p:' + nm}
            cls = {(self.mod.name, f.cls)} if (k == 0 and f.cls) else NOTHING
            if nm in f.defaults and mutable_expr(f.defaults[nm]):
                d = ('D', f.qual, nm)
                objs.add((d, True))
                deps.add('s:%s default %s' % (f.qual, nm))
            st.env[nm] = V(objs, deps, NOTHING, cls)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                st.env[x.arg] = V({(('P', x.arg), False)}, {'p:' + x.arg})
        S.params = f.names + f.kwonly
        st = self.block(f.node.body, st)
        if st is not None:
            self.leave(st, EMPTY, f.node)
        for d in f.node.decorator_list:
            r = self.ref_of(d.func if isinstance(d, ast.Call) else d)
            if r in CACHES:
                g = ('G', self.mod.name, 'cache of ' + f.node.name)
                if any(kind(o) in ('arr', 'list', 'dict') and sure for o, sure in S.ret.objs):
                    S.gsets.append((g, 'cache', NOTHING, S.ret, f.node.lineno, self.mod.name, True))
                    S.ret = V({(('F', g, '*'), True)}, S.ret.deps, S.ret.refs, S.ret.cls)
                    S.returns = [(V({(('F', g, '*'), True)}, S.ret.deps), f.node.lineno)]
        return S

    def ref_of(self, n):
        p = dotted(n)
        if not p:
            return None
        b = self.E.resolve(self.mod, p[0])
        return '.'.join([b] + p[1:]) if b else None

    # ---------------------------------------------------------- effects
    def mutate(self, v, what, n, sure=True):
        for o, s in v.objs:
            own = owner(o)
            if own[0] in 'PDG':
                ok = sure and s
                old = self.S.mut.get(o)
                if old is None or (ok and not old[3]):
                    self.S.mut[o] = (what, n.lineno, self.mod.name, ok)
                if own[0] in 'DG':
                    self.S.gsets.append((own, what, None, EMPTY, n.lineno, self.mod.name, ok))

    def site(self, n, k):
        return ('S', (self.f.qual, n.lineno, n.col_offset), k)

    def fresh(self, n, k='arr', deps=NOTHING):
        return V({(self.site(n, k), True)}, deps)

    def leave(self, st, v, n):
        v = v.dep(union_deps(self.ctl))
        self.S.ret = self.S.ret | v
        self.S.returns.append((v, n.lineno))
        self.S.exit = sjoin(self.S.exit, st.copy())

    def store(self, st, base, field, v, n):
        """base.field = v  /  base[...] = v"""
        for o, s in base.objs:
            if field == '*' and kind(o) == 'arr':
                continue
            key = (o, field)
            if field != '*' and len(base.objs) == 1:
                st.heap[key] = v
            else:
                st.heap[key] = st.heap.get(key, EMPTY) | v
            if owner(o)[0] in 'PDG':
                self.S.kept[key] = (v, n.lineno, self.mod.name)

    def load(self, st, base, field):
        r = EMPTY
        for o, s in base.objs:
            if kind(o) == 'arr' and field == '*':
                r = r | V({(o, False)}, base.deps)
                continue
            got = st.heap.get((o, field))
            if got is not None:
                r = r | got
            if got is None or field == '*':
                if owner(o)[0] in 'PDG':
                    r = r | V({(('F', o, field), s and field in self.E.attr_arrays)}, base.deps)
                    if owner(o)[0] in 'GD':
                        r = r.dep(frozenset(['s:' + ' '.join(owner(o)[1:])]))
        return r.dep(base.deps)

    # ---------------------------------------------------------- statements
    def block(self, body, st):
        for n in body:
            if st is None:
                return None
            st = self.stmt(n, st)
        return st

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m:
            return m(n, st)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return st

    def s_Global(self, n, st):
        self.globals |= set(n.names)
        return st

    def s_FunctionDef(self, n, st):
        st.env[n.name] = V(refs={('inner', n)})
        self.inner = getattr(self, 'inner', {})
        return st

    def s_Return(self, n, st):
        self.leave(st, self.ev(n.value, st) if n.value is not None else EMPTY, n)
        return None

    def s_Raise(self, n, st):
        return None

    def s_Break(self, n, st):
        if self.loops:
            self.loops[-1][0] = sjoin(self.loops[-1][0], st)
        return None

    def s_Continue(self, n, st):
        if self.loops:
            self.loops[-1][1] = sjoin(self.loops[-1][1], st)
        return None

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, st), 'del', n)
        return st

    def s_If(self, n, st):
        c = self.ev(n.test, st)
        self.ctl.append(self.ctl[-1] | c.deps)
        a = self.block(n.body, st.copy())
        b = self.block(n.orelse, st.copy())
        self.ctl.pop()
        return a if b is None else b if a is None else a.join(b)

    def loop(self, n, st, bind, deps):
        out = None
        cur = st
        self.ctl.append(self.ctl[-1] | deps)
        for _ in range(6):
            self.loops.append([None, None])
            s = cur.copy()
            if bind:
                bind(s)
            s = self.block(n.body, s)
            brk, cont = self.loops.pop()
            out = sjoin(out, brk) if brk is not None else out
            nxt = cur
            for x in (s, cont):
                if x is not None:
                    nxt = nxt.join(x)
            if nxt.same(cur):
                break
            cur = nxt
        self.ctl.pop()
        end = self.block(n.orelse, cur.copy()) if n.orelse else cur
        return sjoin(out, end) if end is not None else out

    def s_For(self, n, st):
        it = self.ev(n.iter, st)

        def bind(s):
            self.assign(n.target, self.element(s, it, n.iter), s, n)
        return self.loop(n, st, bind, it.deps)

    def element(self, st, v, n):
        return self.load(st, v, '*')

    def s_While(self, n, st):
        c = self.ev(n.test, st)
        return self.loop(n, st, lambda s: self.ev(n.test, s), c.deps)

    def s_With(self, n, st):
        for i in n.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, n)
        return self.block(n.body, st)

    def s_Try(self, n, st):
        a = self.block(n.body, st.copy())
        if a is not None and n.orelse:
            a = self.block(n.orelse, a)
        outs = [a]
        for h in n.handlers:
            s = st.copy() if a is None else st.join(a)
            outs.append(self.block(h.body, s))
        r = None
        for o in outs:
            if o is not None:
                r = sjoin(r, o)
        if r is not None and n.finalbody:
            r = self.block(n.finalbody, r)
        return r

    def s_Expr(self, n, st):
        self.ev(n.value, st)
        return st

    def s_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and \
                    len(t.elts) == len(n.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [self.ev(x, st) for x in n.value.elts]
                for tt, vv in zip(t.elts, vs):
                    self.assign(tt, vv, st, n)
            else:
                self.assign(t, v, st, n)
        return st

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st, n)
        return st

    def assign(self, t, v, st, n):
        data = v
        v = v.dep(self.ctl[-1])
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                g = ('G', self.mod.name, t.id)
                self.S.gsets.append((g, 'rebind', None, data, n.lineno, self.mod.name, True))
                self.escape(v)
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                x = x.value if isinstance(x, ast.Starred) else x
                e = st_field(st, v, k)
                self.assign(x, e if e is not None else self.element(st, v, t), st, n)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            r = self.ref_of(t)
            if not b.objs and r and any(r.startswith(m + '.') for m in self.E.mods):
                # attribute of a module or function
                m, _, a = r.rpartition('.')
                self.S.gsets.append((('G', m, a), 'rebind', None, data, n.lineno, self.mod.name, True))
                return
            if b.cls:
                for o, s in b.objs:
                    if owner(o)[0] == 'P' and owner(o)[1] != 'self':
                        self.mutate(V({(o, True)}), 'attribute %s set' % t.attr, n)
            elif b.objs:
                self.mutate(b, 'attribute %s set' % t.attr, n)
            self.store(st, b, t.attr, v, n)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            for o, s in b.objs:
                if owner(o)[0] in 'DG':
                    self.S.gsets.append((owner(o), 'entry', k.deps, data, n.lineno, self.mod.name, True))
                    self.escape(v)
            self.mutate(V({x for x in b.objs if owner(x[0])[0] == 'P'}), 'element assignment', n, True)
            # an element assignment proves its base a container
            for o, s in b.objs:
                if owner(o)[0] == 'P':
                    w = self.S.mut.get(o)
                    if w and o[0] != 'F':
                        self.S.mut[o] = w[:3] + (True,)
                    elif w and (s or o[0] == 'F'):
                        self.S.mut[o] = w[:3] + (True,)
            self.store(st, b, '*', v, n)

    def escape(self, v):
        for o, s in v.objs:
            if kind(o) in ('arr', 'list', 'dict'):
                self.escaped.add(o)

    def s_AugAssign(self, n, st):
        v = self.ev(n.value, st)
        t = n.target
        what = 'in-place %s' % type(n.op).__name__
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.mutate(b, what, n)
            for o, s in b.objs:
                if owner(o)[0] == 'P' and o in self.S.mut:
                    self.S.mut[o] = self.S.mut[o][:3] + (True,)
            self.store(st, b, '*', v, n)
            return st
        cur = self.ev(ast.copy_location(as_load(t), t), st)
        inplace = {(o, s) for o, s in cur.objs if s}
        unsure = {(o, s) for o, s in cur.objs if not s}
        self.mutate(V(inplace), what, n)
        self.mutate(V(unsure), what, n, False)
        nv = V(cur.objs, cur.deps | v.deps, NOTHING, cur.cls)
        if not inplace and any(kind(o) == 'arr' and s for o, s in v.objs):
            nv = V(cur.objs | {(self.site(n, 'arr'), True)}, nv.deps, NOTHING, cur.cls)
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.S.gsets.append((('G', self.mod.name, t.id), what, None, nv, n.lineno, self.mod.name, True))
            else:
                st.env[t.id] = nv.dep(self.ctl[-1])
        elif isinstance(t, ast.Attribute):
            self.assign(t, nv, st, n)
        return st

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m:
            return m(n, st)
        return V(deps=union_deps([self.ev(c, st).deps for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]))

    def e_Constant(self, n, st):
        return EMPTY

    def e_Name(self, n, st):
        if n.id in st.env and n.id not in self.globals:
            return st.env[n.id]
        r = self.E.resolve(self.mod, n.id)
        if r and r.startswith('var:'):
            _, m, nm = r.split(':')
            g = ('G', m, nm)
            e = self.E.mods[m].vars.get(nm)
            self.S.greads.add(g)
            return V({(g, mutable_expr(e))}, {'s:%s %s' % (m, nm)})
        return V(refs={r} if r else {'builtins.' + n.id})

    def e_Attribute(self, n, st):
        r = None
        b = self.ev(n.value, st)
        refs = {x + '.' + n.attr for x in b.refs if isinstance(x, str)}
        if b.cls and not refs:
            meth = {('method', c, n.attr) for c in b.cls if self.E.method(c[0], c[1], n.attr)}
            if meth:
                return V(b.objs, b.deps, meth, b.cls)
        if n.attr in PLAIN_ATTRS:
            return V(deps=lossy(b.deps))
        if n.attr in VIEW_ATTRS:
            return V(b.objs, b.deps)
        out = self.load(st, b, n.attr)
        for x in refs:
            m, _, a = x.rpartition('.')
            if m in self.E.mods and a in self.E.mods[m].vars:
                rr = self.E.resolve(self.E.mods[m], a)
                if rr and rr.startswith('var:'):
                    g = ('G', m, a)
                    out = out | V({(g, mutable_expr(self.E.mods[m].vars[a]))}, {'s:%s %s' % (m, a)})
                    self.S.greads.add(g)
                    continue
            # attributes hung on functions
            fn = self.E.func(m) if isinstance(m, str) else None
            if fn is not None:
                g = ('G', m, a)
                out = out | V({(g, False)}, {'s:%s %s' % (m, a)})
                self.S.greads.add(g)
        return V(out.objs, out.deps, refs, out.cls)

    def basic(self, k):
        """True: the index selects a view; False: a copy; None: maybe a number"""
        if isinstance(k, ast.Slice):
            return True
        if isinstance(k, ast.Constant):
            return True if k.value is Ellipsis else None
        if isinstance(k, ast.Tuple):
            r = [self.basic(x) for x in k.elts]
            if False in r:
                return False
            return True if True in r else None
        if isinstance(k, (ast.List, ast.ListComp, ast.Compare)):
            return False
        if isinstance(k, ast.BinOp) and isinstance(k.op, (ast.BitAnd, ast.BitOr)):
            return False
        return None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev(n.slice, st)
        kd = self.basic(n.slice)
        deps = b.deps | k.deps
        lists = {(o, s) for o, s in b.objs if kind(o) in ('list', 'dict', 'tup')}
        rest = b.objs - lists
        out = V(deps=deps)
        if lists:
            if kd is True:
                out = out | V(lists)
            else:
                e = None
                if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                    e = st_field(st, V(lists), n.slice.value)
                out = out | (e if e is not None else self.load(st, V(lists), '*'))
        if not rest:
            return out.dep(deps)
        if kd is False or any(kind(o) in ('arr', 'list') and s for o, s in k.objs):
            return (out | V({(self.site(n, 'arr'), True)})).dep(deps)
        if kd is True:
            return (out | V({(o, True) for o, s in rest})).dep(deps)
        r = EMPTY
        for o, s in rest:
            if owner(o)[0] in 'DG':
                r = r | V({(('F', o, '*'), False)}, {'s:' + ' '.join(str(x) for x in owner(o)[1:])})
                got = st.heap.get((o, '*'))
                if got is not None:
                    r = r | got
            else:
                got = st.heap.get((o, '*'))
                r = r | V({(o, o[0] == 'P' and o[1] in self.f.nested)}) | (got if got is not None else EMPTY)
        return (out | r).dep(deps)

    def e_BinOp(self, n, st):
        v = self.e_BinOp1(n, st)
        if isinstance(n.op, (ast.FloorDiv, ast.Mod)):
            v = V(v.objs, lossy(v.deps), v.refs, v.cls)
        return v

    def e_BinOp1(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        d = a.deps | b.deps
        lists = [o for v in (a, b) for o, s in v.objs if kind(o) in ('list', 'tup')]
        if lists and isinstance(n.op, ast.Add):
            r = self.fresh(n, 'list', d)
            st.heap[(self.site(n, 'list'), '*')] = self.load(st, a, '*') | self.load(st, b, '*')
            return r
        if any(s and (kind(o) == 'arr' or o[0] in 'PF') for v in (a, b) for o, s in v.objs):
            return self.fresh(n, 'arr', d)
        return V(deps=d)

    def e_UnaryOp(self, n, st):
        a = self.ev(n.operand, st)
        if any(s and kind(o) == 'arr' for o, s in a.objs):
            return self.fresh(n, 'arr', a.deps)
        return V(deps=a.deps)

    def e_BoolOp(self, n, st):
        return union([self.ev(x, st) for x in n.values])

    def e_IfExp(self, n, st):
        c = self.ev(n.test, st)
        return (self.ev(n.body, st) | self.ev(n.orelse, st)).dep(c.deps)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Starred(self, n, st):
        return self.element(st, self.ev(n.value, st), n)

    def seq(self, n, st):
        k = 'tup' if isinstance(n, ast.Tuple) else 'list'
        r = self.fresh(n, k)
        vs = [self.ev(x, st) for x in n.elts]
        s = self.site(n, k)
        st.heap[(s, '*')] = union(vs)
        if not any(isinstance(x, ast.Starred) for x in n.elts):
            for k, v in enumerate(vs):
                st.heap[(s, k)] = v
        return V(r.objs, union_deps([v.deps for v in vs]))

    e_List = e_Tuple = e_Set = seq

    def e_Dict(self, n, st):
        vs = [self.ev(x, st) for x in n.values]
        ks = [self.ev(x, st) for x in n.keys if x is not None]
        s = self.site(n, 'dict')
        st.heap[(s, '*')] = union(vs)
        return V({(s, True)}, union_deps([v.deps for v in vs + ks]))

    def comp(self, n, st):
        s2 = st.copy()
        d = NOTHING
        for g in n.generators:
            it = self.ev(g.iter, s2)
            d = d | it.deps
            self.assign(g.target, self.element(s2, it, g.iter), s2, n)
            for c in g.ifs:
                d = d | self.ev(c, s2).deps
        v = self.ev(n.elt if hasattr(n, 'elt') else n.value, s2)
        k = 'dict' if isinstance(n, ast.DictComp) else 'list'
        s = self.site(n, k)
        st.heap[(s, '*')] = v
        return V({(s, True)}, v.deps | d)

    e_ListComp = e_GeneratorExp = e_SetComp = e_DictComp = comp

    def e_Lambda(self, n, st):
        return V(refs={('inner', n)})

    def e_JoinedStr(self, n, st):
        return V(deps=union_deps([self.ev(c.value, st).deps for c in n.values if isinstance(c, ast.FormattedValue)]))

    def e_Call(self, n, st):
        v = self.e_Call1(n, st)
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
        if nm in LOSSY or nm == 'int' and n.args and not isinstance(n.args[0], (ast.Name, ast.Attribute)):
            v = V(v.objs, lossy(v.deps), v.refs, v.cls)
        return v

    def e_Call1(self, n, st):
        fv = self.ev(n.func, st)
        args = [self.ev(a, st) for a in n.args]
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        kw = {k.arg: self.ev(k.value, st) for k in n.keywords if k.arg}
        deps = union_deps([v.deps for v in args] + [v.deps for v in kw.values()] + [fv.deps])
        out = None
        for r in fv.refs:
            if isinstance(r, tuple) and r[0] == 'inner':
                v = self.call_inner(r[1], args, kw, n, st)
            elif isinstance(r, tuple) and r[0] == 'method':
                f = self.E.method(r[1][0], r[1][1], r[2])
                me = V(fv.objs, fv.deps, NOTHING, fv.cls)
                v = self.call(f, [me] + args, kw, n, st, star)
            else:
                v = self.call_ref(r, args, kw, n, st, deps, star)
            out = v if out is None else out | v
        if out is None or (isinstance(n.func, ast.Attribute) and not fv.refs):
            if isinstance(n.func, ast.Attribute):
                out = self.call_method(n, args, kw, st, deps)
            else:
                out = V(deps=deps)
        return out.dep(deps)

    def call_method(self, n, args, kw, st, deps):
        b = self.ev(n.func.value, st)
        nm = n.func.attr
        if 'out' in kw:
            self.mutate(V({(o, True) for o, s in kw['out'].objs}), 'assignment by out=', n)
            return kw['out']
        if nm in VIEW_METHODS:
            return V({(o, s) for o, s in b.objs}, b.deps)
        if nm in INPLACE_METHODS:
            for o, s in b.objs:
                own = owner(o)
                if own[0] in 'DG':
                    if nm == 'setdefault' and len(args) == 2:
                        self.S.gsets.append((own, 'entry', args[0].deps, args[1], n.lineno, self.mod.name, True))
                        self.escape(args[1])
                    else:
                        self.S.gsets.append((own, 'method ' + nm, None, union(args), n.lineno, self.mod.name, True))
                        self.escape(union(args))
            if nm not in ('update', 'setdefault', 'add', 'pop', 'discard', 'resize', 'sort', 'clear', 'insert', 'remove',
                          'reverse') or any(s for o, s in b.objs):
                self.mutate(V({x for x in b.objs if owner(x[0])[0] == 'P'}), 'method ' + nm, n)
            if nm in ('append', 'add', 'insert', 'setdefault', 'extend', 'update'):
                v = union(args)
                if nm in ('extend', 'update'):
                    v = self.load(st, v, '*')
                self.store(st, b, '*', v, n)
            if nm in ('pop', 'setdefault', 'popitem'):
                return self.load(st, b, '*')
            return V(deps=deps)
        if nm in ('get', 'items', 'values', 'keys', '__getitem__'):
            out = V(deps=b.deps)
            for o, s in b.objs:
                if owner(o)[0] in 'DG':
                    out = out | V({(('F', o, '*'), False)}, {'s:' + ' '.join(str(x) for x in owner(o)[1:])})
            return out | self.load(st, V({x for x in b.objs if kind(x[0]) in ('dict', 'list', 'tup')}, b.deps), '*')
        if nm == 'astype':
            if 'copy' in kw:
                return V(b.objs, b.deps)
            return self.fresh(n, 'arr', b.deps | deps)
        if nm in ('copy', 'conj', 'conjugate', 'flatten', 'tolist', 'dot', 'round', 'clip') and b.objs:
            if nm == 'copy' and any(kind(o) in ('list', 'dict') for o, s in b.objs):
                r = self.fresh(n, 'list', b.deps)
                st.heap[(self.site(n, 'list'), '*')] = self.load(st, b, '*')
                return r
            if any(s for o, s in b.objs):
                return self.fresh(n, 'arr', b.deps | deps)
        return V(deps=b.deps | deps)

    def call_ref(self, r, args, kw, n, st, deps, star):
        if CHAOS.match(r):
            self.S.chaos.append((r, n.lineno, self.mod.name))
            deps = deps | {'s:chance ' + r}
        if PROCESS.match(r):
            self.S.process.append((r, n.lineno, self.mod.name))
        f = self.E.func(r)
        if f is not None:
            if f.cls and '.' in r and r.rpartition('.')[2] != f.node.name:
                return V(deps=deps)
            return self.call(f, args, kw, n, st, star)
        m, _, c = r.rpartition('.')
        if m in self.E.mods and c in self.E.mods[m].classes:
            s = self.site(n, 'obj')
            me = V({(s, True)}, deps, NOTHING, {(m, c)})
            init = self.E.method(m, c, '__init__')
            if init:
                self.call(init, [me] + args, kw, n, st, star)
            return me
        if 'out' in kw and kw['out'].objs:
            self.mutate(V({(o, True) for o, s in kw['out'].objs}), 'assignment by out=', n)
            return kw['out'].dep(deps)
        root, nm = r.split('.')[0], r.rpartition('.')[2]
        if root == 'numpy':
            if r.endswith('.at') and args:
                self.mutate(args[0], r, n)
                return V(deps=deps)
            if nm in INPLACE_FUNCS and args:
                self.mutate(args[0], r, n)
                return V(deps=deps)
            if nm in VIEWS and args:
                lists = any(kind(o) in ('list', 'dict', 'tup') for o, s in args[0].objs)
                return self.fresh(n, 'arr', deps) if lists else V(args[0].objs, deps)
            if nm == 'array' and 'copy' in kw and args and n_false(n, 'copy'):
                return V(args[0].objs, deps)
            if nm == 'nan_to_num' and n_false(n, 'copy') and args:
                self.mutate(args[0], 'nan_to_num(copy=False)', n)
                return V(args[0].objs, deps)
            if nm in NEW_ARRAYS:
                return self.fresh(n, 'arr', deps)
            if nm in ELEMENTWISE and any(s and (kind(o) == 'arr' or o[0] in 'PF') for v in args for o, s in v.objs):
                if len(args) > (1 if nm in ('sqrt', 'sin', 'cos', 'exp', 'conj', 'abs', 'negative') else 2) and nm not in (
                        'einsum', 'cross', 'clip', 'round', 'where'):
                    self.mutate(args[-1], 'out argument of ' + nm, n)
                    return args[-1].dep(deps)
                return self.fresh(n, 'arr', deps)
            return V(deps=deps)
        if r in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.reversed', 'builtins.set', 'copy.copy',
                 'builtins.iter', 'builtins.filter', 'builtins.frozenset'):
            s = self.site(n, 'list')
            src = args[-1] if args else EMPTY
            st.heap[(s, '*')] = self.load(st, src, '*')
            if r == 'copy.copy':
                return V({(s, True)}, deps, NOTHING, src.cls)
            return V({(s, True)}, deps)
        if r in ('builtins.zip', 'builtins.enumerate'):
            s, t = self.site(n, 'list'), ('S', (self.f.qual, n.lineno, n.col_offset, 'item'), 'list')
            es = [self.load(st, a, '*') for a in args]
            if r.endswith('enumerate'):
                es = [EMPTY] + es[:1]
            for k, e in enumerate(es):
                st.heap[(t, k)] = e
            st.heap[(t, '*')] = union(es)
            st.heap[(s, '*')] = V({(t, True)}, deps)
            return V({(s, True)}, deps)
        if r == 'builtins.dict':
            return self.fresh(n, 'dict', deps)
        if r == 'builtins.setattr' and args:
            self.mutate(args[0], 'setattr', n)
            return EMPTY
        if r == 'builtins.super':
            return V()
        if r == 'builtins.globals':
            return V({(('G', self.mod.name, 'globals()'), True)}, {'s:%s globals()' % self.mod.name})
        return V(deps=deps)

    def call_inner(self, f, args, kw, n, st):
        if self.depth > 3:
            return EMPTY
        self.depth += 1
        s = st.copy()
        a = f.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for nm, v in list(zip(names, args)) + list(kw.items()):
            s.env[nm] = v
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if nm not in names[:len(args)] and nm not in kw:
                s.env[nm] = self.ev(d, st)
        if isinstance(f, ast.Lambda):
            r = self.ev(f.body, s)
        else:
            keep = self.S.ret, self.S.returns, self.S.exit
            self.S.ret, self.S.returns, self.S.exit = EMPTY, [], None
            s = self.block(f.body, s)
            r = self.S.ret
            self.S.ret, self.S.returns, self.S.exit = keep
            if s is not None:
                for k, v in s.heap.items():
                    st.heap[k] = st.heap.get(k, EMPTY) | v
        self.depth -= 1
        return r

    def call(self, f, args, kw, n, st, star=False):
        sm = self.E.summary(f)
        amap = {}
        if not star:
            for nm, v in zip(f.names, args):
                amap[nm] = v
            for k, v in kw.items():
                amap[k] = v
        at = (self.f.qual, n.lineno, n.col_offset)

        def mobj(o, s):
            """objects of the callee in terms of the caller's"""
            if o[0] == 'P':
                if o[1] not in amap:
                    return set()
                return {(x, s and y) for x, y in amap[o[1]].objs} if not s else set(amap[o[1]].objs)
            if o[0] == 'F':
                r = set()
                for x, y in mobj(o[1], True):
                    if o[2] == '*' and kind(x) == 'arr':
                        r.add((x, False))
                        continue
                    got = st.heap.get((x, o[2]))
                    if got is not None:
                        r |= got.objs
                    elif owner(x)[0] in 'PDG':
                        r.add((('F', x, o[2]), s))
                return r
            if o[0] == 'S':
                return {(('S', at + (o[1],) if not nested(o[1], at) else o[1], o[2]), s)}
            return {(o, s)}

        def mdeps(d):
            r = set()
            for x in d:
                if x.startswith('p:'):
                    y = x[2:].rstrip('~')
                    if y in amap:
                        r |= lossy(amap[y].deps) if x.endswith('~') else amap[y].deps
                else:
                    r.add(x)
            return r

        def mval(v):
            objs = set()
            for o, s in v.objs:
                objs |= mobj(o, s)
            return V(objs, mdeps(v.deps), NOTHING, v.cls)
        for o, (what, line, mod, sure) in sm.mut.items():
            if owner(o)[0] == 'P':
                tgt = mobj(o, True)
                self.mutate(V(tgt), '%s in %s' % (what, f.node.name), n, sure)
        if sm.exit is not None:
            for (o, fld), v in sm.exit.heap.items():
                w = mval(v)
                for x, y in mobj(o, True):
                    if fld == '*' and kind(x) == 'arr':
                        continue
                    self.put(st, x, fld, w, n, o)
        for g in sm.gsets:
            if g not in self.S.gsets and len(self.S.gsets) < 200:
                pass
        self.S.greads |= sm.greads
        self.S.chaos += [c for c in sm.chaos if c not in self.S.chaos]
        return mval(sm.ret)

    def put(self, st, x, fld, w, n, o):
        if kind(x) is None and o[0] not in 'PF':
            return
        old = st.heap.get((x, fld))
        st.heap[(x, fld)] = w if old is None or fld != '*' else old | w
        if owner(x)[0] in 'PDG':
            self.S.kept[(x, fld)] = (w, n.lineno, self.mod.name)


def nested(a, at):
    """keep site names finite"""
    d = 0
    while isinstance(a, tuple) and len(a) > 3 and isinstance(a[3], tuple):
        a = a[3]
        d += 1
    return d > 3


def st_field(st, v, k):
    r = None
    for o, s in v.objs:
        got = st.heap.get((o, k))
        if got is None:
            return None
        r = got if r is None else r | got
    return r


def union_deps(ds):
    r = NOTHING
    for d in ds:
        r = r | d
    return r


def as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return t


def n_false(n, k):
    for x in n.keywords:
        if x.arg == k:
            return isinstance(x.value, ast.Constant) and x.value.value in (False, None)
    return False


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)):
        return True
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, 'id', '')
        return nm in NEW_ARRAYS or nm in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter')
    return False
