"""Flow-sensitive, context-sensitive abstract interpreter for the Python subset
used by the repository.  It computes, for every program point reached from an
entry point, abstract values (symbolic numbers, tensor denotations, graph nodes)
in a state that is *joined* at control-flow merges under a guard (gated values);
there is no path enumeration and no concrete data."""
import ast
import builtins as pyb
import os
from fractions import Fraction
from .values import *
from .alg import *
from . import alg, bdd
from .den import Den, ShapeErr, Undecided
from . import den as D

AND, OR, NOT = bdd.AND, bdd.OR, bdd.NOT

MAXSTEPS = 3000000
UNROLL = 400


class State(object):
    __slots__ = ('heap', 'pg')

    def __init__(self, heap, pg):
        self.heap, self.pg = heap, pg

    def fork(self, pg=None):
        return State(dict(self.heap), self.pg if pg is None else pg)


def merge_obj(g1, a, g2, b):
    if a is b:
        return a
    if a.kind == 'alt' or b.kind == 'alt':
        return alt_obj(g1, a, g2, b)
    if a.kind != b.kind or a.cls is not b.cls:
        return alt_obj(g1, a, g2, b)
    k = a.kind
    if k in ('inst', 'frame', 'sess', 'module', 'class', 'res'):
        d = {}
        for key in list(a.data) + [x for x in b.data if x not in a.data]:
            d[key] = merge_val(g1, a.data.get(key, UNBOUND), g2, b.data.get(key, UNBOUND))
        return Obj(k, d, a.cls, a.info)
    if k == 'list':
        if len(a.data) == len(b.data) and a.info == b.info:
            return Obj(k, tuple(merge_val(g1, x, g2, y) for x, y in zip(a.data, b.data)), a.cls, a.info)
    if k == 'dict':
        ka, kb = [x for x, _ in a.data], [x for x, _ in b.data]
        if len(ka) == len(kb) and all(same(x, y) for x, y in zip(ka, kb)):
            return Obj(k, tuple((x, merge_val(g1, v, g2, w)) for (x, v), (_, w) in zip(a.data, b.data)), a.cls, a.info)
    if k == 'ndarray':
        if a.data[1] == b.data[1] and (a.data[0] is b.data[0] or a.data[0].key() == b.data[0].key()):
            return a
    if k == 'set' and len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data)):
        return a
    return alt_obj(g1, a, g2, b)


def alt_obj(g1, a, g2, b):
    alts = []
    for g, o in ((g1, a), (g2, b)):
        if o.kind == 'alt':
            for h, x in o.data:
                gg = AND(g, h)
                if gg != bdd.FALSE:
                    alts.append([gg, x])
        else:
            alts.append([g, o])
    out = []
    for g, x in alts:
        for o in out:
            if same_obj(o[1], x):
                o[0] = OR(o[0], g)
                break
        else:
            out.append([g, x])
    tot = OR(g1, g2)
    if len(out) == 1:
        return out[0][1]
    return Obj('alt', tuple((bdd.restrict(g, tot), x) for g, x in out), a.cls)


def same_obj(a, b):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind in ('list', 'set'):
        return a.info == b.info and len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data))
    if a.kind == 'ndarray':
        return a.data[1] == b.data[1] and a.data[0].key() == b.data[0].key()
    if a.kind == 'dict':
        return len(a.data) == len(b.data) and all(same(x, y) for x, y in zip(a.data, b.data))
    return False


def join(s1, s2):
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    g1, g2 = s1.pg, s2.pg
    h = s1.heap
    out = dict(h) if len(h) >= len(s2.heap) else dict(s2.heap)
    for oid, b in s2.heap.items():
        a = h.get(oid)
        if a is None:
            out[oid] = b
        elif a is not b:
            out[oid] = merge_obj(g1, a, g2, b)
    for oid, a in h.items():
        if oid not in out:
            out[oid] = a
    return State(out, OR(g1, g2))


class Frame(object):
    __slots__ = ('oid', 'func', 'rets', 'module', 'locals_', 'parent', 'yields', 'globals_', 'cls', 'line', 'on_yield', 'nl')

    def __init__(self, oid, func, module, locals_, parent, globals_=()):
        self.oid, self.func, self.module, self.locals_, self.parent = oid, func, module, locals_, parent
        self.rets = []
        self.yields = None
        self.globals_ = globals_
        self.cls = None
        self.line = 0
        self.on_yield = None
        self.nl = ()


class Loop(object):
    __slots__ = ('breaks', 'conts')

    def __init__(self):
        self.breaks, self.conts = [], []


PYEXC = {n: getattr(pyb, n) for n in dir(pyb) if isinstance(getattr(pyb, n), type) and issubclass(getattr(pyb, n), BaseException)}
EXT_EXC = {'ArgumentError': Exception, 'OpError': Exception, 'InvalidArgumentError': Exception,
           'FailedPreconditionError': Exception, 'LinAlgError': ValueError, 'csv.Error': Exception, 'error': Exception}


def assigned_names(node):
    """(locals, globals, nonlocals, isgen) of a function body"""
    loc, glo, nl = set(), set(), set()
    gen = [False]

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
                if isinstance(m, (ast.Yield, ast.YieldFrom)):
                    gen[0] = True
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)
    return loc - glo - nl, glo, nl, gen[0]


class Interp(object):
    def __init__(self, root='/repo'):
        self.root = root
        self.modules = {}           # dotted -> module object Ref
        self.modname = {}           # oid -> dotted
        self.sources = {}           # file -> ast
        self.oidc = 0
        self.st = State({}, bdd.TRUE)
        self.frames = []
        self.loops = []
        self.handlers = [[]]        # stack of lists of (state, exc)
        self.node = None
        self.file = '<entry>'
        self.ctrl = [()]            # control dependency stack
        self.graph_ref = None
        self.log = []               # (guard, kind, data, site)
        self.cut_terms = None       # name values with more terms than this
        self.summaries = {}         # (node, run) -> [(tag, value)]
        self.issues = []            # analysis limits met: (kind, msg, site, guard)
        self.model_exc = False      # let external calls raise
        self.generic_loops = None   # config for symbolic trip counts
        self.steps = 0
        self.funcs_seen = {}
        self.main_module = None
        self.scope_cache = {}
        self.class_registry = []
        self.hooks = {}
        self.depth = 0
        self.nodes = []             # all graph nodes
        self.vars_ = []
        self.loop_info = []
        from . import lib_py, lib_np, lib_tf
        self.lib_py, self.lib_np, self.lib_tf = lib_py, lib_np, lib_tf
        lib_tf.init(self)

    # ------------------------------------------------------------------ util
    @property
    def pg(self):
        return self.st.pg

    def site(self):
        ln = getattr(self.node, 'lineno', 0)
        fn = self.frames[-1].func if self.frames else '-'
        return Site(self.file, ln, fn)

    def issue(self, kind, msg):
        self.issues.append((kind, msg, self.site(), self.pg if self.st else 0))

    def opq(self, why, kind='any'):
        o = Opq(why, self.site(), kind)
        self.issues.append(('unknown', why, o.site, self.pg if self.st else 0))
        return o

    def reach(self, *vals):
        """the mutable containers and arrays reachable from vals"""
        out = []
        todo = list(vals)
        seen = set()
        while todo:
            v = todo.pop()
            if isinstance(v, GVal):
                todo += [x for _, x in v.alts]
            elif isinstance(v, (tuple, list)):
                todo += list(v)
            elif isinstance(v, dict):
                todo += list(v.values())
            elif isinstance(v, Opq):
                todo += list(v.reach)
            elif isinstance(v, (BoundMethod,)):
                todo.append(v.self_)
            elif isinstance(v, NView):
                out.append(v)
                todo.append(v.ref)
            elif isinstance(v, Ref):
                if v.id in seen:
                    continue
                seen.add(v.id)
                o = self.st.heap.get(v.id)
                if o is None:
                    continue
                for o in ([x for _, x in o.data] if o.kind == 'alt' else [o]):
                    if o.kind in ('ndarray', 'list', 'dict', 'set') or o.kind == 'inst' and 'closed' in o.data:
                        out.append(v)
                        if o.kind == 'list':
                            todo += list(o.data)
                        elif o.kind == 'dict':
                            todo += [x for _, x in o.data]
        return tuple(out)

    def escape(self, *vals):
        """vals were handed to code the analysis does not model: everything
        mutable they reach is unknown from here on"""
        for v in self.reach(*vals):
            if isinstance(v, NView):
                continue
            o = self.obj(v)
            if o.kind == 'alt':
                self.split_obj(v, lambda: self.escape_one(v, self.obj(v)))
            else:
                self.escape_one(v, o)

    def escape_one(self, v, o):
        if o.kind == 'ndarray':
            self.lib_np.taint(self, v)
        elif o.kind == 'list':
            self.put(v, o.with_(tuple(x if isinstance(x, Ref) else self.opq('element of a list given to unmodelled code') for x in o.data)))
        elif o.kind == 'dict':
            self.put(v, o.with_(tuple((k, x if isinstance(x, Ref) else self.opq('entry of a dict given to unmodelled code')) for k, x in o.data)))
        elif o.kind == 'inst':
            # a file, session or writer: it may have been closed, or used
            if o.data.get('closed') is not True and not o.data.get('std'):
                self.set_raw(v, 'closed', self.opq('%s given to unmodelled code' % (o.info,), 'bool'))
                self.log.append((self.pg, 'escaped', v, self.site()))
        elif o.kind == 'set' and o.data:
            self.put(v, o.with_((self.opq('element of a set given to unmodelled code'),)))

    def unmodelled(self, o, what, kind='any'):
        """a method the real object has but the analysis does not model"""
        def call(I, a, kw):
            I.escape(o, *a)
            I.escape(*kw.values())
            r = I.opq(what, kind)
            r.reach = I.reach(o, *a)
            return r
        return Builtin(what, call)

    def new(self, kind, data, cls=None, info=None):
        self.oidc += 1
        self.st.heap[self.oidc] = Obj(kind, data, cls, info)
        return Ref(self.oidc)

    def obj(self, ref):
        """heap object, resolved under the current guard; may be of kind alt"""
        o = self.st.heap[ref.id]
        if o.kind == 'alt':
            fe = [(g, x) for g, x in o.data if AND(self.pg, g) != bdd.FALSE]
            if len(fe) == 1:
                self.st.heap[ref.id] = fe[0][1]
                return fe[0][1]
        return o

    def put(self, ref, obj):
        self.st.heap[ref.id] = obj
        if obj.kind == 'dict' and obj.info is not None and obj.info[0] == 'dictof':
            # the namespace of an object was changed through its __dict__
            o = self.st.heap[obj.info[1]]
            self.st.heap[obj.info[1]] = o.with_({k: v for k, v in obj.data if isinstance(k, str)})

    def list_(self, items):
        return self.new('list', tuple(items))

    def cut(self, d):
        return d if self.cut_terms is None else self.lib_np.D.cut(d, self.cut_terms)

    def nd(self, d, dtype='float64'):
        d = self.cut(d)
        return self.new('ndarray', (d, dtype))

    def alts(self, v):
        """feasible alternatives [(guard, leaf)] of a value under the current path guard"""
        if not isinstance(v, GVal):
            return [(bdd.TRUE, v)]
        out = [(g, x) for g, x in v.alts if AND(self.pg, g) != bdd.FALSE]
        if not out:
            raise Dead()
        return out

    def simp(self, v):
        if isinstance(v, GVal):
            a = self.alts(v)
            if len(a) == 1:
                return a[0][1]
            if len(a) != len(v.alts):
                return GVal(a)
        if isinstance(v, BVal):
            g = AND(v.g, self.pg)
            if g == bdd.FALSE:
                return False
            if g == self.pg:
                return True
        return v

    def join_results(self, outs):
        """outs: [(state, value)] -> sets self.st, returns the merged value"""
        if not outs:
            self.st = None
            raise Dead()
        st, v = outs[0]
        for s2, v2 in outs[1:]:
            v = merge_val(st.pg, v, s2.pg, v2)
            st = join(st, s2)
        self.st = st
        return v

    def cases(self, v, fn, deref=False):
        """apply fn to each feasible leaf of v in its own forked state and join"""
        v = self.simp(v)
        if not isinstance(v, GVal):
            if deref and isinstance(v, Ref) and self.obj(v).kind == 'alt':
                return self.split_obj(v, lambda: fn(v))
            return fn(v)
        st0 = self.st
        outs = []
        for g, leaf in self.alts(v):
            self.st = st0.fork(AND(st0.pg, g))
            try:
                if deref and isinstance(leaf, Ref) and self.obj(leaf).kind == 'alt':
                    r = self.split_obj(leaf, lambda: fn(leaf))
                else:
                    r = fn(leaf)
                outs.append((self.st, r))
            except Dead:
                pass
        return self.join_results(outs)

    def split_obj(self, ref, fn):
        o = self.obj(ref)
        if o.kind != 'alt':
            return fn()
        st0 = self.st
        outs = []
        for g, x in o.data:
            gg = AND(st0.pg, g)
            if gg == bdd.FALSE:
                continue
            self.st = st0.fork(gg)
            self.st.heap[ref.id] = x
            try:
                outs.append((None, fn()))
                outs[-1] = (self.st, outs[-1][1])
            except Dead:
                pass
        return self.join_results(outs)

    def plift(self, fn, *vs):
        """pure function over guarded values"""
        vs = [self.simp(v) for v in vs]
        if not any(isinstance(v, GVal) for v in vs):
            return fn(*vs)

        def rec(i, g, chosen):
            if AND(self.pg, g) == bdd.FALSE:
                return []
            if i == len(vs):
                return [(g, tuple(chosen))]
            out = []
            v = vs[i]
            for h, x in (v.alts if isinstance(v, GVal) else [(bdd.TRUE, v)]):
                out += rec(i + 1, AND(g, h), chosen + [x])
            return out
        combos = rec(0, bdd.TRUE, [])
        if len(combos) > 64:
            return self.opq('too many guarded alternatives')
        outs = []
        st0 = self.st
        for g, ch in combos:
            self.st = st0.fork(AND(st0.pg, g))
            try:
                r = fn(*ch)
                outs.append((self.st, r))
            except Dead:
                pass
        return self.join_results(outs)

    # ------------------------------------------------------------ exceptions
    def throw(self, exc):
        self.handlers[-1].append((self.st, exc))
        self.st = None
        raise Dead()

    def raise_(self, name, msg='', may=False):
        """definite exception on the current path"""
        self.throw(ExcVal(BType(name), (msg,), self.site(), may))

    def raise_if(self, g, name, msg):
        """exception under guard g, continue otherwise"""
        gg = AND(self.pg, g)
        if gg == bdd.FALSE:
            return
        if gg == self.pg:
            self.raise_(name, msg)
        self.handlers[-1].append((self.st.fork(gg), ExcVal(BType(name), (msg,), self.site())))
        self.st = self.st.fork(AND(self.pg, NOT(g)))

    def may_raise(self, name, what):
        """an external call that can fail"""
        if not self.model_exc:
            return
        s = self.site()
        self._mr = getattr(self, '_mr', 0) + 1
        a = bdd.atom(('may', s.file, s.line, what, self._mr), None, '%s raises at %s' % (what, s), False, 'x')
        self.handlers[-1].append((self.st.fork(AND(self.pg, a)), ExcVal(BType(name), (what,), s, True)))
        self.st = self.st.fork(AND(self.pg, NOT(a)))

    def exc_matches(self, exc, h):
        """does except clause value h catch exc"""
        if isinstance(h, tuple):
            return any(self.exc_matches(exc, x) for x in h)
        if isinstance(h, Ref) and self.obj(h).kind == 'list':
            return any(self.exc_matches(exc, x) for x in self.obj(h).data)

        def chain(c):
            if isinstance(c, ClassVal):
                out = []
                for k in c.mro:
                    out += chain(k) if not isinstance(k, ClassVal) else [k.name]
                return out
            if isinstance(c, BType):
                n = c.name.split('.')[-1]
                p = PYEXC.get(n) or EXT_EXC.get(n)
                out = [n]
                if p is None:
                    p = Exception
                out += [x.__name__ for x in p.__mro__]
                return out
            return [str(c), 'Exception', 'BaseException']
        if isinstance(h, ClassVal):
            return isinstance(exc.cls, ClassVal) and h in exc.cls.mro
        if isinstance(h, (BType, Ext)):
            n = (h.name if isinstance(h, BType) else h.path).split('.')[-1]
            return n in chain(exc.cls)
        return False

    # --------------------------------------------------------------- modules
    def find_module(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return f if os.path.exists(f) else p
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    EXTROOT = {'tensorflow': 'tf', 'numpy': 'np'}

    def import_module(self, dotted):
        """returns value for the module `dotted`"""
        if dotted in self.modules:
            return self.modules[dotted]
        root = dotted.split('.')[0]
        if root in self.EXTROOT:
            parts = dotted.split('.')
            path = '.'.join([self.EXTROOT[root]] + parts[1:])
            path = path.replace('tf.compat.v1', 'tf')
            return Ext(path)
        f = self.find_module(dotted)
        if f is None:
            return Ext(dotted)
        parent = None
        if '.' in dotted:
            parent = self.import_module(dotted.rsplit('.', 1)[0])
            if dotted in self.modules:
                return self.modules[dotted]
        ref = self.new('module', {'__name__': '__main__' if dotted == self.main_module else dotted}, None, dotted)
        self.modules[dotted] = ref
        self.modname[ref.id] = dotted
        if f.endswith('.py'):
            try:
                with open(f, encoding='utf-8') as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, f)
            except (SyntaxError, OSError) as e:
                self.issue('parse', 'cannot parse %s: %s' % (f, e))
                return ref
            rel = os.path.relpath(f, self.root)
            self.sources[rel] = tree
            sf, sn, sl, sh = self.file, self.node, self.loops, self.handlers
            sctrl = self.ctrl
            self.file = rel
            fr = Frame(ref.id, '<module %s>' % dotted, ref, None, None)
            self.frames.append(fr)
            self.loops = []
            self.handlers = [[]]
            st_before = self.st
            self.exec_block(tree.body)
            if self.st is None:
                raise ImportFailed('module %s: %r' % (dotted, self.handlers[0][-1][1] if self.handlers[0] else 'dead'))
            self.frames.pop()
            self.file, self.node, self.loops, self.handlers = sf, sn, sl, sh
            self.ctrl = sctrl
        if parent is not None and isinstance(parent, Ref):
            self.set_raw(parent, dotted.rsplit('.', 1)[1], ref)
        return ref

    def set_raw(self, ref, name, val):
        o = self.st.heap[ref.id]
        d = dict(o.data)
        d[name] = val
        self.st.heap[ref.id] = o.with_(d)

    def modget(self, dotted, name):
        ref = self.import_module(dotted)
        return self.getattr(ref, name)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            try:
                self.exec_stmt(s)
            except Dead:
                self.st = None
                return
            except (alg.TooBig, RecursionError):
                raise

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisLimit('too many abstract steps')
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.issue('unsupported', 'statement %s' % type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            new = self.inplace(s.op, old, self.eval(s.value))
            self.store_name(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old, self.eval(s.value)))

    def inplace(self, op, a, b):
        a = self.simp(a)
        if isinstance(a, Ref):
            o = self.obj(a)
            if o.kind == 'list' and isinstance(op, ast.Add):
                self.put(a, o.with_(o.data + tuple(self.iterate(b))))
                return a
            if o.kind == 'ndarray':
                self.lib_np.inplace(self, type(op).__name__, a, b)
                return a
            if o.kind == 'inst':
                f = self.find_method(o.cls, INPLACE.get(type(op).__name__, ''))
                if f is not None:
                    return self.call(BoundMethod(a, f), [b], {})
        if isinstance(a, NView):
            self.lib_np.inplace(self, type(op).__name__, a, b)
            return a
        return self.binop(type(op).__name__, a, b)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                self.lib_py.delitem(self, o, self.eval_index(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.setattr(o, t.attr, UNBOUND)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.frames[-1].rets.append((self.st, v))
        self.st = None
        raise Dead()

    def s_Break(self, s):
        self.loops[-1].breaks.append(self.st)
        self.st = None
        raise Dead()

    def s_Continue(self, s):
        self.loops[-1].conts.append(self.st)
        self.st = None
        raise Dead()

    def s_If(self, s):
        g = self.truth(self.eval(s.test))
        self.branch(g, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, g, then, els):
        pg = self.pg
        a, b = AND(pg, g), AND(pg, NOT(g))
        if b == bdd.FALSE:
            then()
            return
        if a == bdd.FALSE:
            els()
            return
        st0 = self.st
        self.st = st0.fork(a)
        then()
        s1 = self.st
        self.st = st0.fork(b)
        els()
        self.st = join(s1, self.st)

    def s_Assert(self, s):
        g = self.truth(self.eval(s.test))
        self.raise_if(NOT(g), 'AssertionError', 'assertion failed')

    def s_Raise(self, s):
        if s.exc is None:
            exc = getattr(self, 'cur_exc', None)
            if exc is None:
                self.raise_('RuntimeError', 'No active exception to reraise')
            self.throw(exc)
        v = self.eval(s.exc)
        self.throw(self.as_exc(v))

    def as_exc(self, v):
        v = self.simp(v)
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, (BType, Ext)):
            n = v.name if isinstance(v, BType) else v.path
            return ExcVal(BType(n.split('.')[-1]), (), self.site())
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if isinstance(v, Ref) and self.obj(v).kind == 'inst':
            return ExcVal(self.obj(v).cls, (v,), self.site())
        return ExcVal(BType('Exception'), (v,), self.site())

    def s_Try(self, s):
        has_final = bool(s.finalbody)
        take = self.capture_begin() if has_final else None
        self.handlers.append([])
        try:
            self.exec_block(s.body)
        finally:
            raised = self.handlers.pop()
        if has_final:
            return self.try_finally(s, raised, take)
        self.run_handlers(s, raised)

    s_TryStar = s_Try

    def run_handlers(self, s, raised):
        normal = self.st
        if normal is not None and s.orelse:
            self.exec_block(s.orelse)
            normal = self.st
        outs = [normal] if normal is not None else []
        for st, exc in raised:
            handled = False
            for h in s.handlers:
                self.st = st
                self.node = h
                if h.type is None:
                    m = True
                else:
                    try:
                        hv = self.eval(h.type)
                    except Dead:
                        m = False
                        break
                    m = self.exc_matches(exc, hv)
                if m:
                    if h.name:
                        self.store_name(h.name, exc)
                    save = getattr(self, 'cur_exc', None)
                    self.cur_exc = exc
                    self.exec_block(h.body)
                    self.cur_exc = save
                    if self.st is not None:
                        outs.append(self.st)
                    handled = True
                    break
            if not handled:
                self.handlers[-1].append((st, exc))
        st = None
        for o in outs:
            st = join(st, o)
        self.st = st

    def try_finally(self, s, raised, take):
        fr = self.frames[-1]
        # the body has been executed; run the handlers, then the final block on every way out
        self.handlers.append([])
        try:
            self.run_handlers(s, raised)
        finally:
            out_raise = self.handlers.pop()
        normal = self.st
        rets, brks, cnts = self.capture_end(take)

        def run_final(st):
            self.st = st
            self.exec_block(s.finalbody)
            return self.st
        new_rets = []
        for st, v in rets:
            r = run_final(st)
            if r is not None:
                new_rets.append((r, v))
        fr.rets.extend(new_rets)
        if self.loops:
            for st in brks:
                r = run_final(st)
                if r is not None:
                    self.loops[-1].breaks.append(r)
            for st in cnts:
                r = run_final(st)
                if r is not None:
                    self.loops[-1].conts.append(r)
        for st, exc in out_raise:
            r = run_final(st)
            if r is not None:
                self.handlers[-1].append((r, exc))
        if normal is not None:
            normal = run_final(normal)
        self.st = normal

    # with-statement -------------------------------------------------------
    def s_With(self, s):
        self.with_items(s, 0)

    s_AsyncWith = s_With

    def with_items(self, s, i):
        if i == len(s.items):
            self.exec_block(s.body)
            return
        it = s.items[i]
        cm = self.eval(it.context_expr)
        self.node = s
        self.run_with(cm, lambda v: (self.assign(it.optional_vars, v) if it.optional_vars is not None else None),
                      lambda: self.with_items(s, i + 1))

    def run_with(self, cm, bind, body):
        cm = self.simp(cm)
        if isinstance(cm, GVal):
            self.cases(cm, lambda c: self.run_with(c, bind, body))
            return
        # contextmanager generator
        if isinstance(cm, CtxGen):
            return self.run_ctxgen(cm, bind, body)
        enter, exit_ = self.lib_py.context(self, cm)
        v = enter()
        bind(v)
        take = self.capture_begin()
        self.handlers.append([])
        try:
            body()
        finally:
            raised = self.handlers.pop()
        rets, brks, cnts = self.capture_end(take)
        normal = self.st
        fr = self.frames[-1]
        for st, val in rets:
            self.st = st
            try:
                exit_(None)
            except Dead:
                pass
            if self.st is not None:
                fr.rets.append((self.st, val))
        if self.loops:
            for lst, dst in ((brks, self.loops[-1].breaks), (cnts, self.loops[-1].conts)):
                for st in lst:
                    self.st = st
                    try:
                        exit_(None)
                    except Dead:
                        pass
                    if self.st is not None:
                        dst.append(self.st)
        swallowed = []
        for st, exc in raised:
            self.st = st
            sw = False
            try:
                sw = exit_(exc)
            except Dead:
                pass
            if self.st is not None:
                if sw is True:
                    swallowed.append(self.st)
                else:
                    self.handlers[-1].append((self.st, exc))
        self.st = normal
        if normal is not None:
            try:
                exit_(None)
            except Dead:
                self.st = None
        for x in swallowed:
            self.st = join(self.st, x)

    def run_ctxgen(self, cm, bind, body):
        """body runs at the yield point of a @contextmanager generator"""
        outer = len(self.frames)
        user_frame = self.frames[-1]
        loops, file_, node = self.loops, self.file, self.node

        def at_yield(v):
            # run the with body in the user's frame
            gen_frames = self.frames[outer:]
            gen_file, gen_loops, gen_node = self.file, self.loops, self.node
            self.frames = self.frames[:outer]
            self.file, self.loops, self.node = file_, loops, node
            take = self.capture_begin()
            bind(v)
            body()
            rets, brks, cnts = self.capture_end(take)
            abrupt.extend(('r', st, val) for st, val in rets)
            abrupt.extend(('b', st, None) for st in brks)
            abrupt.extend(('c', st, None) for st in cnts)
            self.frames = self.frames + gen_frames
            self.file, self.loops, self.node = gen_file, gen_loops, gen_node
            if self.st is None:
                raise Dead()
            return None
        abrupt = []
        self.call_func(cm.func, cm.args, cm.kwargs, on_yield=at_yield)
        # abrupt exits through the body: approximate by leaving without re-running the generator tail
        for k, st, val in abrupt:
            if k == 'r':
                user_frame.rets.append((st, val))
            elif k == 'b':
                loops[-1].breaks.append(st)
            else:
                loops[-1].conts.append(st)
        if abrupt:
            self.issue('approx', 'abrupt exit through a generator context manager')

    def capture_begin(self):
        """redirect returns/breaks/continues recorded from now on"""
        fr = self.frames[-1]
        t = (fr, fr.rets, self.loops[-1].breaks if self.loops else None, self.loops[-1].conts if self.loops else None,
             self.loops[-1] if self.loops else None)
        fr.rets = []
        if self.loops:
            self.loops[-1].breaks, self.loops[-1].conts = [], []
        return t

    def capture_end(self, t):
        fr, rets, brks, cnts, lp = t
        nr, nb, nc = fr.rets, [], []
        fr.rets = rets
        if lp is not None:
            nb, nc = lp.breaks, lp.conts
            lp.breaks, lp.conts = brks, cnts
        return nr, nb, nc

    # loops -----------------------------------------------------------------
    def s_For(self, s):
        it = self.eval(s.iter)
        self.node = s
        it = self.simp(it)
        if isinstance(it, GVal):
            st0 = self.st
            outs = None
            for g, leaf in self.alts(it):
                self.st = st0.fork(AND(st0.pg, g))
                try:
                    self.for_over(s, leaf)
                except Dead:
                    self.st = None
                outs = join(outs, self.st)
            self.st = outs
            if outs is None:
                raise Dead()
            return
        self.for_over(s, it)

    def for_over(self, s, it):
        if isinstance(it, Ref) and self.obj(it).kind == 'alt':
            self.split_obj(it, lambda: self.for_over(s, it))
            return
        if isinstance(it, RangeV):
            return self.for_range(s, it)
        rng = self.sym_iter(it)
        if rng is not None:
            return self.for_range(s, rng[0], rng[1])
        inf = self.lib_py.infinite(self, it)
        if inf is not None:
            items, advance = inf
        else:
            items = self.iterate(it)
            advance = None
            if len(items) > UNROLL:
                raise AnalysisLimit('loop over %d items' % len(items))
        brk = []
        for x in items:
            if advance is not None:
                advance()
            lp = Loop()
            self.loops.append(lp)
            try:
                self.node = s
                self.assign(s.target, x)
                self.exec_block(s.body)
            finally:
                self.loops.pop()
            for c in lp.conts:
                self.st = join(self.st, c)
            brk += lp.breaks
            if self.st is None:
                break
        if self.st is not None and advance is not None:
            raise AnalysisLimit('endless iterator not left after %d steps' % len(items))
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        for b in brk:
            self.st = join(self.st, b)
        if self.st is None:
            raise Dead()

    def sym_iter(self, it):
        """enumerate(range(sym)) and similar: (RangeV, fn item)"""
        if isinstance(it, SymIter):
            return it.rng, it.fn
        return None

    def for_range(self, s, r, fn=None):
        """range with a symbolic trip count: first iteration, then one arbitrary later iteration from a
        state in which every loop-carried location holds an unknown previous value"""
        n = sub_(to_poly(self.num(r.stop)), to_poly(self.num(r.start)))
        step = self.num(r.step)
        if to_poly(step).as_int() not in (1,):
            raise AnalysisLimit('symbolic range with step')
        fn = fn or (lambda k: self.mknum(k))
        info = {'node': s, 'site': self.site(), 'first': None, 'exits': [], 'trip': n, 'kind': 'range'}
        self.loop_info.append(info)
        st_pre = self.st.fork()
        start = to_poly(self.num(r.start))
        last = sub_(to_poly(self.num(r.stop)), ONE)
        more = NOT(bdd.of_poly(eq0(sub_(last, start))))   # more than one iteration

        def body(k):
            lp = Loop()
            self.loops.append(lp)
            try:
                self.assign(s.target, fn(k))
                self.exec_block(s.body)
            finally:
                self.loops.pop()
            for c in lp.conts:
                self.st = join(self.st, c)
            return lp.breaks

        # zero-trip possibility is excluded when the trip count is known to be positive
        exits = []
        if not is_positive(n):
            z = bdd.of_poly(add(lt0(n), eq0(n)))
            g0 = AND(self.pg, z)
            if g0 != bdd.FALSE:
                exits.append(self.st.fork(g0))
                self.st = self.st.fork(AND(self.pg, NOT(z)))
        # first iteration
        mark = len(self.log)
        self.cur_iter = 'first'
        br = body(start)
        info['first_log'] = (mark, len(self.log))
        exits_b = list(br)
        if self.st is not None:
            g_last = AND(self.pg, NOT(more))
            if g_last != bdd.FALSE:
                exits.append(self.st.fork(g_last))
            gm = AND(self.pg, more)
            if gm == bdd.FALSE:
                self.st = None
            else:
                self.st = self.st.fork(gm)
        post_first = self.st
        if self.st is not None:
            k = sym('iter%d' % len(self.loop_info), 'pi')
            self.facts = getattr(self, 'facts', [])
            # facts: start < k <= last
            kk = add(start, k)
            n_atom_last = bdd.of_poly(eq0(sub_(last, kk)))
            changed = self.changed_locs(st_pre, post_first)
            for attempt in range(6):
                self.st = post_first.fork()
                mus = self.havoc(changed)
                head = self.st.fork()
                mark = len(self.log)
                hm = [len(h) for h in self.handlers]
                rm = len(self.frames[-1].rets)
                im = len(self.issues)
                br = body(kk)
                ch2 = self.changed_locs(head, self.st) if self.st is not None else set()
                for b in br:
                    ch2 |= set()
                extra = ch2 - changed
                if not extra:
                    break
                changed |= extra
                del self.log[mark:]
                del self.issues[im:]
                for h, m in zip(self.handlers, hm):
                    del h[m:]
                del self.frames[-1].rets[rm:]
            else:
                raise AnalysisLimit('loop did not stabilise')
            info['generic_log'] = (mark, len(self.log))
            info['mus'] = mus
            info['head'] = head
            info['k'] = kk
            info['last'] = n_atom_last
            info['changed'] = changed
            info['post'] = self.st.fork() if self.st is not None else None
            info['breaks'] = [b.fork() for b in br]
            exits_b += br
            if self.st is not None:
                g = AND(self.pg, n_atom_last)
                self.st = self.st.fork(g) if g != bdd.FALSE else None
        info['normal'] = self.st
        for e in exits:
            self.st = join(self.st, e)
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        for b in exits_b:
            self.st = join(self.st, b)
        if self.st is None:
            raise Dead()

    def changed_locs(self, a, b):
        """locations of pre-existing objects that differ"""
        out = set()
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is o or p is None:
                continue
            if o.kind in ('inst', 'frame', 'sess', 'module', 'class', 'res') and p.kind == o.kind:
                for k in set(o.data) | set(p.data):
                    if not same(o.data.get(k, UNBOUND), p.data.get(k, UNBOUND)):
                        out.add((oid, k))
            elif not same_obj(o, p):
                out.add((oid, None))
        return out

    def havoc(self, locs):
        mus = {}
        for oid, k in sorted(locs, key=lambda t: (t[0], str(t[1]))):
            o = self.st.heap[oid]
            if k is None:
                base = o if o.kind != 'alt' else o.data[0][1]
                if base.kind == 'list':
                    self.st.heap[oid] = Obj('list', (), base.cls, ('prefix', oid))
                elif base.kind == 'ndarray':
                    d, dt = base.data
                    b = Base('mu:obj%d' % oid, K(('mu', oid, len(self.loop_info))), d.rank, kind='mu')
                    self.st.heap[oid] = Obj('ndarray', (D.from_base(b, d.shape), dt), base.cls)
                else:
                    self.st.heap[oid] = Obj('inst', {}, base.cls, 'mu')
                mus[(oid, k)] = self.st.heap[oid]
                continue
            old = o.data.get(k, UNBOUND)
            mus[(oid, k)] = v = self.mu_of(old, (oid, k))
            d = dict(o.data)
            d[k] = v
            self.st.heap[oid] = o.with_(d)
        return mus

    def mu_of(self, old, loc):
        leaf = old
        if isinstance(old, GVal):
            leaf = old.alts[0][1]
            for g, x in old.alts:
                if x is not UNBOUND and x is not None:
                    leaf = x
        nm = 'mu:%s#%d' % (loc[1], len(self.loop_info))
        if isinstance(leaf, bool) or isinstance(leaf, BVal):
            return BVal(bdd.atom(('mu', loc, len(self.loop_info)), None, 'previous %s' % (loc[1],), True, 'mu'))
        if isinstance(leaf, int):
            return SVal(sym(nm, 'i'), 'int')
        if isinstance(leaf, (Fraction, float)):
            return SVal(sym(nm, ''), 'float')
        if isinstance(leaf, SVal):
            return SVal(sym(nm, 'i' if leaf.dtype in ('int',) else ''), leaf.dtype)
        if isinstance(leaf, Base):
            b = Base('%s@prev' % leaf.name, K(('muver', loc, len(self.loop_info))), leaf.rank, kind='mu', shape=leaf.shape,
                     info=leaf.info, nonneg=False)
            return b
        return MuVal(loc, leaf)

    def s_While(self, s):
        brk = []
        outs = []
        count = 0
        while True:
            self.node = s
            g = self.truth(self.eval(s.test))
            a, b = AND(self.pg, g), AND(self.pg, NOT(g))
            if b != bdd.FALSE:
                outs.append(self.st.fork(b) if a != bdd.FALSE else self.st)
            if a == bdd.FALSE:
                break
            if b != bdd.FALSE:
                self.st = self.st.fork(a)
                count += 1
                if count > 24:
                    self.issue('approx', 'while loop not bounded by the analysis')
                    break
            count += 0
            lp = Loop()
            self.loops.append(lp)
            try:
                self.exec_block(s.body)
            finally:
                self.loops.pop()
            for c in lp.conts:
                self.st = join(self.st, c)
            brk += lp.breaks
            if self.st is None:
                break
            self.steps += 1
            if self.steps > MAXSTEPS:
                raise AnalysisLimit('while loop')
        st = None
        for o in outs:
            st = join(st, o)
        self.st = st
        if st is not None and s.orelse:
            self.exec_block(s.orelse)
        for b in brk:
            self.st = join(self.st, b)
        if self.st is None:
            raise Dead()

    # definitions -------------------------------------------------------------
    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.store_name(a.asname, self.import_module(a.name))
            else:
                self.import_module(a.name)
                self.store_name(a.name.split('.')[0], self.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            cur = self.modname[self.frames[-1].module.id]
            f = self.find_module(cur)
            parts = cur.split('.')
            if not (f and f.endswith('__init__.py')):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Ref):
                    data = self.st.heap[m.id].data
                    allv = data.get('__all__')
                    if allv is not None:
                        names = [x for x in self.iterate(allv)]
                    else:
                        names = [n for n in data if not n.startswith('_')]
                    for n in names:
                        self.store_name(n, data[n])
                continue
            if isinstance(m, Ref):
                data = self.st.heap[m.id].data
                if a.name in data:
                    v = data[a.name]
                elif self.find_module(base + '.' + a.name):
                    v = self.import_module(base + '.' + a.name)
                else:
                    self.raise_('ImportError', 'cannot import name %s from %s' % (a.name, base))
            else:
                v = self.lib_py.ext_attr(self, m, a.name)
            self.store_name(a.asname or a.name, v)

    def make_func(self, node, name):
        key = id(node)
        if key not in self.scope_cache:
            self.scope_cache[key] = (assigned_names(node), node)
        (loc, glo, nl, gen), _ = self.scope_cache[key]
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [self.eval(d) if d is not None else MISSING for d in a.kw_defaults]
        fr = self.frames[-1]
        f = FuncVal(node, name, defaults, kwd, fr, self.frames[-1].module, loc, gen, glo)
        f.qual = name
        return f

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.decorate(dv, v)
        self.store_name(s.name, v)

    def s_AsyncFunctionDef(self, s):
        self.store_name(s.name, self.opq('async function'))

    def decorate(self, dv, v):
        if isinstance(dv, BType) and dv.name in ('property', 'staticmethod', 'classmethod'):
            return {'property': lambda: Property(v), 'staticmethod': lambda: StaticM(v), 'classmethod': lambda: ClassM(v)}[dv.name]()
        if isinstance(dv, Builtin) and dv.name == 'property.setter':
            return dv.fn(self, [v], {})
        return self.call(dv, [v], {})

    def s_ClassDef(self, s):
        bases = [self.eval(b) for b in s.bases]
        ref = self.new('class', {'__name__': s.name, '__module__': self.modname.get(self.frames[-1].module.id, '')})
        fr = Frame(ref.id, self.frames[-1].func, self.frames[-1].module, None, self.frames[-1])
        fr.cls = 'classbody'
        outer = self.frames[-1]
        self.frames.append(fr)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        if self.st is None:
            raise Dead()
        c = ClassVal(s.name, [b for b in bases if not (isinstance(b, BType) and b.name == 'object')], ref,
                     self.frames[-1].module, s)
        self.lib_py.special_class(self, c)
        for n, v in self.st.heap[ref.id].data.items():
            f = v
            if isinstance(v, (StaticM, ClassM)):
                f = v.func
            if isinstance(v, Property):
                for g in (v.fget, v.fset):
                    if isinstance(g, FuncVal):
                        g.cls = c
                        g.qual = s.name + '.' + g.name
            if isinstance(f, FuncVal) and f.cls is None:
                f.cls = c
                f.qual = s.name + '.' + f.name
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.lib_py.class_decorator(self, dv, v)
        self.store_name(s.name, v)

    def s_Match(self, s):
        subj = self.eval(s.subject)
        self.match_cases(s.cases, subj)

    def match_cases(self, cases, subj):
        if not cases:
            return
        c = cases[0]
        g = self.match_pat(c.pattern, subj)
        if g is None:
            self.issue('unsupported', 'match pattern')
            return

        def then():
            if c.guard is not None:
                gg = self.truth(self.eval(c.guard))
                self.branch(gg, lambda: self.exec_block(c.body), lambda: self.match_cases(cases[1:], subj))
            else:
                self.exec_block(c.body)
        self.branch(g, then, lambda: self.match_cases(cases[1:], subj))

    def match_pat(self, p, subj):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', subj, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', subj, p.value))
        if isinstance(p, ast.MatchOr):
            r = bdd.FALSE
            for q in p.patterns:
                g = self.match_pat(q, subj)
                if g is None:
                    return None
                r = OR(r, g)
            return r
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, subj)
                return bdd.TRUE
        return None

    # ------------------------------------------------------------- names
    def load_name(self, name):
        fr = self.frames[-1]
        v = self.lookup(fr, name)
        if v is MISSING:
            b = self.lib_py.BUILTINS.get(name, MISSING)
            if b is MISSING:
                if name in PYEXC:
                    return BType(name)
                if name == 'super':
                    return Builtin('super', self.super_fn)
                if name == '__class__':
                    fr = self.method_frame()
                    if fr is not None:
                        return fr.cls
                if hasattr(pyb, name):
                    return self.opq('builtin %s' % name)
                self.raise_('NameError', "name '%s' is not defined" % name)
            return b
        return self.check_bound(v, name)

    def check_bound(self, v, name):
        if v is UNBOUND:
            self.raise_('UnboundLocalError', "local variable '%s' referenced before assignment" % name)
        if isinstance(v, GVal):
            ub = [g for g, x in v.alts if x is UNBOUND]
            if ub:
                g = bdd.FALSE
                for x in ub:
                    g = OR(g, x)
                self.raise_if(g, 'UnboundLocalError', "local variable '%s' referenced before assignment" % name)
                rest = [(g2, x) for g2, x in v.alts if x is not UNBOUND]
                v = rest[0][1] if len(rest) == 1 else GVal(rest)
        return v

    def lookup(self, fr, name):
        f = fr
        first = True
        while f is not None:
            if f.cls == 'classbody' and not first:
                f = f.parent
                continue
            if f.locals_ is None:
                d = self.st.heap[f.oid].data
                if name in d:
                    return d[name]
            elif name in f.locals_:
                d = self.st.heap[f.oid].data
                return d.get(name, UNBOUND)
            elif name in f.globals_:
                break
            first = False
            f = f.parent
        d = self.st.heap[fr.module.id].data
        return d.get(name, MISSING)

    def store_name(self, name, v):
        fr = self.frames[-1]
        if fr.locals_ is not None and name not in fr.locals_:
            if name in fr.globals_:
                self.set_raw(fr.module, name, v)
                return
            f = fr.parent
            while f is not None:
                if f.locals_ is not None and name in f.locals_:
                    self.set_raw(Ref(f.oid), name, v)
                    return
                f = f.parent
        self.set_raw(Ref(fr.oid), name, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            v = self.simp(v)
            if isinstance(v, GVal):
                # keep guarded tuples component-wise
                al = self.alts(v)
                if all(isinstance(x, tuple) and len(x) == n for _, x in al):
                    for i, e in enumerate(t.elts):
                        self.assign(e, GVal([(g, x[i]) for g, x in al]))
                    return

                def one(x):
                    self.assign(t, x)
                self.cases(v, one)
                return
            if isinstance(v, Opq) or isinstance(v, MuVal):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Opq('component of unknown', self.site()))
                return
            items = self.iterate(v)
            if star:
                k = star[0]
                after = n - k - 1
                if len(items) < n - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for i in range(k):
                    self.assign(t.elts[i], items[i])
                self.assign(t.elts[k].value, self.list_(items[k:len(items) - after]))
                for i in range(after):
                    self.assign(t.elts[k + 1 + i], items[len(items) - after + i])
            else:
                if len(items) != n:
                    self.raise_('ValueError', 'cannot unpack %d values into %d targets' % (len(items), n))
                for e, x in zip(t.elts, items):
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.list_(self.iterate(v)))
        else:
            self.issue('unsupported', 'assignment target')

    # -------------------------------------------------------- expressions
    def eval(self, e):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise AnalysisLimit('too many abstract steps')
        m = getattr(self, 'e_' + type(e).__name__, None)
        prev = self.node
        if hasattr(e, 'lineno'):
            self.node = e
        if m is None:
            r = self.opq('expression %s' % type(e).__name__)
        else:
            r = m(e)
        self.node = prev
        return r

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return v
            return Fraction(repr(v))
        if isinstance(v, complex):
            return self.opq('complex number')
        return v

    def e_Name(self, e):
        return self.simp(self.load_name(e.id))

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return self.list_(self.elts(e.elts))

    def e_Set(self, e):
        return self.lib_py.make_set(self, self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.eval(x.value))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        r = self.new('dict', ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                for kk, vv in self.lib_py.dict_items(self, d):
                    self.lib_py.dict_set(self, r, kk, vv)
            else:
                kk = self.eval(k)
                self.lib_py.dict_set(self, r, kk, self.eval(v))
        return r

    def e_JoinedStr(self, e):
        parts = [self.eval(v) for v in e.values]
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return StrV(parts, tag=('fmt', tuple(repr(p) for p in parts)))

    def e_FormattedValue(self, e):
        v = self.eval(e.value)
        spec = self.eval(e.format_spec) if e.format_spec is not None else ''
        return self.lib_py.fmt_value(self, v, spec, e.conversion)

    def e_Attribute(self, e):
        return self.simp(self.getattr(self.eval(e.value), e.attr))

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.simp(self.getitem(o, k))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower) if s.lower else None, self.eval(s.upper) if s.upper else None,
                          self.eval(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    e_Slice = lambda self, s: self.eval_index(s)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            g = NOT(self.truth(v))
            return self.boolval(g)
        return self.unary(type(e.op).__name__, v)

    def boolval(self, g):
        a = AND(self.pg, g)
        if a == bdd.FALSE:
            return False
        if a == self.pg:
            return True
        return BVal(bdd.restrict(g, self.pg))

    def unary(self, op, v):
        v = self.simp(v)
        if isinstance(v, GVal):
            return self.plift(lambda x: self.unary(op, x), v)
        if isinstance(v, (bool, int, Fraction, float)):
            return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
        if isinstance(v, BVal):
            v = SVal(bdd.to_poly(v.g), 'int')
        if isinstance(v, SVal):
            if op == 'USub':
                return self.mknum(-v.poly, v.dtype)
            if op == 'UAdd':
                return v
        if isinstance(v, Ref) and self.obj(v).kind == 'inst':
            f = self.find_method(self.obj(v).cls, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if f is not None:
                return self.call(BoundMethod(v, f), [], {})
        if self.lib_tf.is_tensor(v):
            return self.lib_tf.unary(self, op, v)
        if self.lib_np.is_arr(self, v):
            return self.lib_np.unary(self, op, v)
        return self.opq('unary %s of %r' % (op, v))

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.node = e
        return self.binop(type(e.op).__name__, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        return self.boolop(e.values, isand)

    def boolop(self, values, isand):
        v = self.eval(values[0])
        if len(values) == 1:
            return v
        g = self.truth(v)
        go = g if isand else NOT(g)     # continue when this holds
        a, b = AND(self.pg, go), AND(self.pg, NOT(go))
        if a == bdd.FALSE:
            return v
        if b == bdd.FALSE:
            return self.boolop(values[1:], isand)
        st0 = self.st
        self.st = st0.fork(a)
        outs = []
        try:
            r = self.boolop(values[1:], isand)
            outs.append((self.st, r))
        except Dead:
            pass
        vv = v
        if isinstance(v, BVal):
            vv = False if isand else True
        outs.append((st0.fork(b), vv))
        return self.join_results(outs)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            self.node = e
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                res = self.boolval(AND(self.truth(res), self.truth(r)))
            left = right
        return res

    def e_IfExp(self, e):
        g = self.truth(self.eval(e.test))
        a, b = AND(self.pg, g), AND(self.pg, NOT(g))
        if b == bdd.FALSE:
            return self.eval(e.body)
        if a == bdd.FALSE:
            return self.eval(e.orelse)
        st0 = self.st
        outs = []
        for gg, x in ((a, e.body), (b, e.orelse)):
            self.st = st0.fork(gg)
            try:
                r = self.eval(x)
                outs.append((self.st, r))
            except Dead:
                pass
        return self.join_results(outs)

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v)
        return v

    def e_Starred(self, e):
        return self.opq('starred')

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.frames[-1]
        if fr.on_yield is not None:
            return fr.on_yield(v)
        if fr.yields is not None:
            o = self.st.heap[fr.yields.id]
            self.st.heap[fr.yields.id] = o.with_(o.data + (v,))
        return None

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        o = self.st.heap[fr.yields.id]
        self.st.heap[fr.yields.id] = o.with_(o.data + tuple(self.iterate(v)))
        return None

    def e_Await(self, e):
        return self.opq('await')

    # comprehensions
    def comp(self, e, emit):
        loc = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    loc.add(n.id)
        cur = self.frames[-1]
        first = self.eval(e.generators[0].iter)
        ref = self.new('frame', {})
        fr = Frame(ref.id, cur.func, cur.module, loc, cur, ())
        self.frames.append(fr)
        try:
            self.comp_rec(e.generators, 0, emit, first)
        finally:
            self.frames.pop()

    def comp_rec(self, gens, i, emit, first=None):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        it = first if i == 0 else self.eval(g.iter)
        it = self.simp(it)
        if isinstance(it, (RangeV, SymIter)):
            if i != 0 or len(gens) != 1 or g.ifs:
                raise AnalysisLimit('comprehension over a symbolic range')
            raise SymComp(it, g)
        if isinstance(it, GVal):
            st0 = self.st
            out = None
            for gg, leaf in self.alts(it):
                self.st = st0.fork(AND(st0.pg, gg))
                try:
                    self.comp_items(gens, i, emit, leaf)
                    out = join(out, self.st)
                except Dead:
                    pass
            self.st = out
            if out is None:
                raise Dead()
            return
        if isinstance(it, Ref) and self.obj(it).kind == 'alt':
            self.split_obj(it, lambda: self.comp_items(gens, i, emit, it))
            return
        self.comp_items(gens, i, emit, it)

    def comp_items(self, gens, i, emit, it):
        g = gens[i]
        for x in self.iterate(it):
            self.assign(g.target, x)
            cond = bdd.TRUE
            skip = False
            for c in g.ifs:
                t = self.truth(self.eval(c))
                cond = AND(cond, t)
                if AND(self.pg, cond) == bdd.FALSE:
                    skip = True
                    break
            if skip:
                continue
            if AND(self.pg, NOT(cond)) == bdd.FALSE:
                self.comp_rec(gens, i + 1, emit)
            else:
                st0 = self.st
                self.st = st0.fork(AND(st0.pg, cond))
                s1 = None
                try:
                    self.comp_rec(gens, i + 1, emit)
                    s1 = self.st
                except Dead:
                    pass
                self.st = join(s1, st0.fork(AND(st0.pg, NOT(cond))))

    def comp_list(self, e):
        acc_ = self.new('list', ())

        def emit():
            v = self.eval(e.elt)
            o = self.obj(acc_)
            if o.kind == 'alt':
                def app():
                    o2 = self.obj(acc_)
                    self.put(acc_, o2.with_(o2.data + (v,)))
                self.split_obj(acc_, app)
            else:
                self.put(acc_, o.with_(o.data + (v,)))
        try:
            self.comp(e, emit)
        except SymComp as sc:
            return self.sym_comp(e, sc)
        return acc_

    def sym_comp(self, e, sc):
        return self.opq('list of symbolic length')

    def e_ListComp(self, e):
        return self.comp_list(e)

    def e_GeneratorExp(self, e):
        r = self.comp_list(e)
        if isinstance(r, Ref):
            return self.make_iter(r)
        return r

    def make_iter(self, listref):
        return GenV(self.new('inst', {'list': listref, 'pos': 0}, None, 'iter'))

    def e_SetComp(self, e):
        r = self.comp_list(e)
        if isinstance(r, Ref):
            return self.lib_py.make_set(self, self.iterate(r))
        return r

    def e_DictComp(self, e):
        d = self.new('dict', ())

        def emit():
            k = self.eval(e.key)
            v = self.eval(e.value)
            self.lib_py.dict_set(self, d, k, v)
        self.comp(e, emit)
        return d

    # ------------------------------------------------------------- numbers
    def num(self, v):
        """Poly/number of a scalar value; raises Unsupported"""
        v = self.simp(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, SVal):
            return v.poly
        if isinstance(v, BVal):
            return bdd.to_poly(v.g)
        if isinstance(v, DimV):
            if v.d is None:
                raise Unsupported('unknown dimension')
            return v.d
        if isinstance(v, GVal):
            al = self.alts(v)
            r = ZERO
            # partition: weight each leaf by its guard
            tot = bdd.FALSE
            for g, x in al:
                w = AND(g, NOT(tot))
                tot = OR(tot, g)
                r = add(r, mul(bdd.to_poly(bdd.restrict(w, self.pg)), to_poly(self.num(x))))
            return r
        if isinstance(v, Ref) and self.obj(v).kind == 'ndarray':
            d, dt = self.obj(v).data
            if all(not g for g in d.axes):
                return d.body
        if isinstance(v, NView):
            d, dt = self.lib_np.den_of(self, v)
            if all(not g for g in d.axes):
                return d.body
        raise Unsupported('not a number: %r' % (v,))

    def mknum(self, p, dtype='int'):
        """python value for a Poly"""
        if not isinstance(p, Poly):
            return p
        c = p.const()
        if c is not None and dtype in ('int', 'float'):
            if dtype == 'int' and c.denominator == 1:
                return int(c)
            return Fraction(c)
        return SVal(p, dtype)

    def is_num(self, v):
        return isinstance(v, (bool, int, Fraction, float, SVal, BVal))

    # ------------------------------------------------------------- truth
    def truth(self, v):
        """guard under which v is true"""
        if isinstance(v, GVal):
            r = bdd.FALSE
            al = self.alts(v)
            for g, x in al:
                st0 = self.st
                if AND(self.pg, g) == bdd.FALSE:
                    continue
                r = OR(r, AND(g, self.truth(x)))
            return r
        if isinstance(v, BVal):
            return v.g
        if v is None:
            return bdd.FALSE
        if isinstance(v, (bool, int, Fraction, float, str, bytes, tuple)):
            return bdd.TRUE if v else bdd.FALSE
        if isinstance(v, SVal):
            return bdd.of_poly(v.poly)
        if isinstance(v, StrV):
            return bdd.TRUE
        if isinstance(v, (Opq, MuVal)):
            return bdd.atom(('opq', type(v).__name__, v.id), None, 'unknown truth of %r' % v, True, 'o')
        if self.lib_tf.is_tensor(v):
            if not self.lib_tf.is_var(v):
                self.raise_('TypeError', 'using a graph tensor as a Python bool')
            return bdd.TRUE
        if isinstance(v, (NView,)) or (isinstance(v, Ref) and self.obj(v).kind == 'ndarray'):
            d, dt = self.lib_np.den_of(self, v)
            if all(not g for g in d.axes):
                return bdd.of_poly(d.body)
            self.raise_('ValueError', 'the truth value of an array with more than one element is ambiguous')
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'alt':
                r = bdd.FALSE
                for g, x in o.data:
                    if x.kind in ('list', 'dict', 'set') and not x.info and not x.data:
                        continue
                    r = OR(r, g)
                return r
            if o.kind in ('list', 'set', 'dict'):
                if o.kind == 'list' and o.info and o.info[0] == 'prefix':
                    return bdd.TRUE
                return bdd.TRUE if o.data else bdd.FALSE
            if o.kind == 'inst' and o.cls is not None:
                f = self.find_method(o.cls, '__bool__')
                if f is not None:
                    return self.truth(self.call(BoundMethod(v, f), [], {}))
                f = self.find_method(o.cls, '__len__')
                if f is not None:
                    return self.truth(self.call(BoundMethod(v, f), [], {}))
            return bdd.TRUE
        if isinstance(v, ShapeV):
            return bdd.FALSE if v.dims is None else bdd.TRUE
        if isinstance(v, DimV):
            return bdd.of_poly(v.d) if v.d is not None else bdd.FALSE
        if isinstance(v, RangeV):
            return bdd.of_poly(sub_(to_poly(self.num(v.stop)), to_poly(self.num(v.start))))
        return bdd.TRUE

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if isinstance(a, GVal) or isinstance(b, GVal):
            return self.plift(lambda x, y: self.binop(op, x, y), a, b)
        N = (bool, int, Fraction)
        if isinstance(a, N) and isinstance(b, N):
            return self.lib_py.num_op(self, op, a, b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, N + (float,)) and isinstance(b, N + (float,)):
                return self.lib_py.float_op(self, op, a, b)
        if isinstance(a, (str, StrV)) or (isinstance(b, (str, StrV)) and op == 'Add'):
            return self.lib_py.str_op(self, op, a, b)
        if isinstance(a, BVal) and isinstance(b, (BVal, bool)) and op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = self.truth(a), self.truth(b)
            return self.boolval({'BitAnd': AND, 'BitOr': OR, 'BitXor': bdd.XOR}[op](x, y))
        if isinstance(b, BVal) and isinstance(a, bool) and op in ('BitAnd', 'BitOr'):
            return self.binop(op, b, a)
        if self.is_dunder(a) or self.is_dunder(b):
            r = self.dunder_binop(op, a, b)
            if r is not MISSING:
                return r
        if self.lib_tf.is_tensor(a) or self.lib_tf.is_tensor(b):
            return self.lib_tf.binop(self, op, a, b)
        if self.lib_np.is_arr(self, a) or self.lib_np.is_arr(self, b):
            return self.lib_np.binop(self, op, a, b)
        if self.is_num(a) and self.is_num(b):
            if (isinstance(a, SVal) and a.dtype not in ('int', 'float', 'bool')) or \
                    (isinstance(b, SVal) and b.dtype not in ('int', 'float', 'bool')):
                return self.lib_np.scalar_op(self, op, a, b)
            return self.lib_py.sym_op(self, op, a, b)
        if isinstance(a, DimV) or isinstance(b, DimV):
            x = a.d if isinstance(a, DimV) else a
            y = b.d if isinstance(b, DimV) else b
            if x is None or y is None:
                return DimV(None)
            x = self.mknum(x) if isinstance(x, Poly) else x
            y = self.mknum(y) if isinstance(y, Poly) else y
            r = self.binop(op, x, y)
            try:
                return DimV(to_poly(self.num(r)))
            except Unsupported:
                return r
        r = self.lib_py.container_op(self, op, a, b)
        if r is not MISSING:
            return r
        if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
            return Opq('operator %s on unknown' % op, self.site())
        if a is None or b is None:
            self.raise_('TypeError', 'unsupported operand for %s: NoneType' % op)
        if isinstance(a, (tuple,)) or isinstance(b, tuple) or isinstance(a, N) or isinstance(b, N):
            if not isinstance(a, Ref) and not isinstance(b, Ref):
                self.raise_('TypeError', 'unsupported operands for %s: %r and %r' % (op, a, b))
        return self.opq('operator %s on %r and %r' % (op, a, b))

    def is_dunder(self, v):
        return isinstance(v, Ref) and self.obj(v).kind == 'inst' and isinstance(self.obj(v).cls, ClassVal)

    def dunder_binop(self, op, a, b):
        n = DUNDER.get(op)
        if self.is_dunder(a):
            f = self.find_method(self.obj(a).cls, '__%s__' % n)
            if f is not None:
                return self.call(BoundMethod(a, f), [b], {})
        if self.is_dunder(b):
            f = self.find_method(self.obj(b).cls, '__r%s__' % n)
            if f is not None:
                return self.call(BoundMethod(b, f), [a], {})
        return MISSING

    def compare(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        if op in ('Is', 'IsNot'):
            def is_(x, y):
                if isinstance(x, Opq) or isinstance(y, Opq):
                    if x is y:
                        r = True
                    else:
                        r = BVal(bdd.atom(('is', id(x), id(y), getattr(x, 'id', 0), getattr(y, 'id', 0)), None,
                                          'unknown identity %r is %r' % (x, y), True, 'o'))
                elif isinstance(x, MuVal) and y is None or isinstance(y, MuVal) and x is None:
                    mv = x if isinstance(x, MuVal) else y
                    if mv.like is not None and mv.like is not UNBOUND:
                        r = False
                    else:
                        r = BVal(bdd.atom(('isnone', mv.id), None, '%r is None' % mv, True, 'o'))
                else:
                    r = same(x, y)
                    if isinstance(x, (SVal,)) and not isinstance(y, SVal):
                        r = False
                if op == 'IsNot':
                    return self.boolval(NOT(self.truth(r)))
                return r
            return self.plift(is_, a, b)
        if op in ('In', 'NotIn'):
            r = self.lib_py.contains(self, b, a)
            if op == 'NotIn':
                return self.boolval(NOT(self.truth(r)))
            return r
        if isinstance(a, GVal) or isinstance(b, GVal):
            return self.plift(lambda x, y: self.compare(op, x, y), a, b)
        return self.lib_py.compare(self, op, a, b)

    # ----------------------------------------------------------- attributes
    def class_entry(self, cls, name):
        for c in cls.mro:
            if isinstance(c, ClassVal):
                v = self.st.heap[c.ref.id].data.get(name, MISSING)
                if v is not MISSING and v is not UNBOUND:
                    return v
        return MISSING

    def find_method(self, cls, name):
        if not isinstance(cls, ClassVal):
            return None
        for c in cls.mro:
            if isinstance(c, ClassVal):
                v = self.st.heap[c.ref.id].data.get(name, MISSING)
                if v is not MISSING and v is not UNBOUND:
                    return v
        return None

    def getattr(self, o, name, default=MISSING):
        o = self.simp(o)
        if isinstance(o, GVal):
            return self.cases(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, Ref):
            h = self.obj(o)
            if h.kind == 'alt':
                return self.split_obj(o, lambda: self.getattr(o, name, default))
            if h.kind == 'inst' and h.info is None:
                return self.inst_getattr(o, h, name, default)
            if h.kind == 'module':
                v = h.data.get(name, MISSING)
                if v is MISSING:
                    dotted = self.modname[o.id] + '.' + name
                    if dotted in self.modules:
                        return self.modules[dotted]
                    if default is not MISSING:
                        return default
                    self.raise_('AttributeError', 'module %s has no attribute %s' % (self.modname[o.id], name))
                return v
        if isinstance(o, ClassVal):
            v = self.class_getattr(o, name)
            if v is MISSING:
                if default is not MISSING:
                    return default
                self.raise_('AttributeError', 'class %s has no attribute %s' % (o.name, name))
            return v
        if isinstance(o, SuperV):
            inst = self.obj(o.obj) if isinstance(o.obj, Ref) else None
            mro = (inst.cls if inst is not None else o.obj).mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassVal):
                    v = self.st.heap[c.ref.id].data.get(name, MISSING)
                    if v is not MISSING:
                        return self.bind(o.obj, v)
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda it, a, k: it.set_raw(o.obj, a[0], a[1]))
            if name == '__new__':
                return Builtin('object.__new__', lambda it, a, k: it.raw_new(it.simp(a[0]), a[1:], k))
            if hasattr(object, name):
                return self.opq('super().%s' % name)
            self.raise_('AttributeError', 'super object has no attribute %s' % name)
        return self.lib_py.builtin_attr(self, o, name, default)

    def inst_getattr(self, o, h, name, default=MISSING):
        if isinstance(h.cls, ClassVal):
            cv = self.class_entry(h.cls, name)
            if isinstance(cv, Property):
                return self.call(cv.fget, [o], {})
        v = h.data.get(name, MISSING)
        if isinstance(v, GVal) or v is UNBOUND:
            if v is UNBOUND:
                v = MISSING
            else:
                ub = [g for g, x in v.alts if x is UNBOUND]
                if ub:
                    g = bdd.FALSE
                    for x in ub:
                        g = OR(g, x)
                    self.raise_if(g, 'AttributeError', 'object has no attribute %s' % name)
                    v = self.simp(GVal([(g2, x) for g2, x in v.alts if x is not UNBOUND]))
        if v is not MISSING:
            return v
        if isinstance(h.cls, ClassVal):
            if cv is not MISSING:
                return self.bind(o, cv)
            if name == '__class__':
                return h.cls
            if name == '__dict__':
                return self.new('dict', tuple(h.data.items()), None, ('dictof', o.id))
            ga = self.find_method(h.cls, '__getattr__')
            if ga is not None:
                return self.call(BoundMethod(o, ga), [name], {})
            if hasattr(object, name):
                return self.opq('attribute %s of an object' % name)
            if any(not isinstance(k, (ClassVal, BType)) for k in h.cls.mro):
                return self.opq('attribute %s of an object with an unknown base class' % name)
        if default is not MISSING:
            return default
        self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (getattr(h.cls, 'name', h.cls), name))

    def bind(self, o, v):
        if isinstance(v, FuncVal):
            return BoundMethod(o, v) if not isinstance(o, ClassVal) else v
        if isinstance(v, StaticM):
            return v.func
        if isinstance(v, ClassM):
            return BoundMethod(self.obj(o).cls if isinstance(o, Ref) else o.cls if isinstance(o, NT) else o, v.func)
        if isinstance(v, Property):
            return self.call(v.fget, [o], {})
        if isinstance(v, Builtin) and v.name.startswith('method:'):
            return BoundMethod(o, v)
        return v

    def class_getattr(self, c, name):
        for k in c.mro:
            if isinstance(k, ClassVal):
                v = self.st.heap[k.ref.id].data.get(name, MISSING)
                if v is not MISSING:
                    if isinstance(v, StaticM):
                        return v.func
                    if isinstance(v, ClassM):
                        return BoundMethod(c, v.func)
                    return v
        if name in ('__name__', '__qualname__'):
            return c.name
        if name == '__init__':
            return Builtin('object.__init__', lambda it, a, k: None)
        if name == '__mro__':
            return tuple(c.mro) + (BType('object'),)
        if name == '__bases__':
            return tuple(c.bases) or (BType('object'),)
        if name == '__new__':
            return Builtin('object.__new__', lambda it, a, k: it.raw_new(it.simp(a[0]), a[1:], k))
        if name == '__setattr__':
            return Builtin('object.__setattr__', lambda it, a, k: it.set_raw(a[0], a[1], a[2]))
        if hasattr(type, name):
            return self.opq('%s.%s' % (c.name, name))
        r = self.lib_py.nt_class_attr(self, c, name)
        if r is MISSING and any(not isinstance(k, (ClassVal, BType)) for k in c.mro):
            # inherits from a class the analysis does not model
            return self.opq('%s.%s' % (c.name, name))
        return r

    def setattr(self, o, name, v):
        o = self.simp(o)
        if isinstance(o, GVal):
            self.cases(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref):
            h = self.obj(o)
            if h.kind == 'alt':
                self.split_obj(o, lambda: self.setattr(o, name, v))
                return
            if h.kind == 'inst':
                if isinstance(h.cls, ClassVal):
                    cv = self.find_method(h.cls, name)
                    if isinstance(cv, Property):
                        if cv.fset is None:
                            self.raise_('AttributeError', "can't set attribute %s" % name)
                        self.call(cv.fset, [o, v], {})
                        return
                    sa = self.find_method(h.cls, '__setattr__')
                    if sa is not None:
                        self.call(BoundMethod(o, sa), [name, v], {})
                        return
                self.set_raw(o, name, v)
                return
            if h.kind in ('module',):
                self.set_raw(o, name, v)
                return
        if isinstance(o, ClassVal):
            self.set_raw(o.ref, name, v)
            return
        if isinstance(o, FuncVal):
            o.attrs[name] = v
            return
        if isinstance(o, (Opq, MuVal)):
            return
        if o is None:
            self.raise_('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if self.lib_np.is_arr(self, o) and name == 'shape':
            d, dt = self.lib_np.den_of(self, o)
            r = self.lib_np.reshape(self, d, v)
            if isinstance(o, Ref):
                self.put(o, self.obj(o).with_((r, dt)))
            return
        if isinstance(o, ExcVal):
            o.attrs[name] = v
            return
        self.issue('unsupported', 'setattr %s on %r' % (name, o))

    # ---------------------------------------------------------------- items
    def getitem(self, o, k):
        o = self.simp(o)
        if isinstance(o, GVal):
            return self.cases(o, lambda x: self.getitem(x, k))
        if isinstance(o, Ref) and self.obj(o).kind == 'alt':
            return self.split_obj(o, lambda: self.getitem(o, k))
        k = self.simp(k)
        if isinstance(k, GVal):
            return self.plift(lambda x: self.getitem(o, x), k)
        if self.is_dunder(o):
            f = self.find_method(self.obj(o).cls, '__getitem__')
            if f is not None:
                return self.call(BoundMethod(o, f), [k], {})
        if self.lib_tf.is_tensor(o):
            return self.lib_tf.getitem(self, o, k)
        if self.lib_np.is_arr(self, o):
            return self.lib_np.getitem(self, o, k)
        return self.lib_py.getitem(self, o, k)

    def setitem(self, o, k, v):
        o = self.simp(o)
        if isinstance(o, GVal):
            self.cases(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(o, Ref) and self.obj(o).kind == 'alt':
            self.split_obj(o, lambda: self.setitem(o, k, v))
            return
        k = self.simp(k)
        if isinstance(k, GVal):
            self.cases(k, lambda x: self.setitem(o, x, v))
            return
        if self.is_dunder(o):
            f = self.find_method(self.obj(o).cls, '__setitem__')
            if f is not None:
                self.call(BoundMethod(o, f), [k, v], {})
                return
        if self.lib_np.is_arr(self, o):
            self.lib_np.setitem(self, o, k, v)
            return
        if self.lib_tf.is_tensor(o):
            self.raise_('TypeError', 'tensor does not support item assignment')
        self.lib_py.setitem(self, o, k, v)

    def iterate(self, v):
        """concrete list of items"""
        v = self.simp(v)
        if isinstance(v, GVal):
            # same-length alternatives merge componentwise
            al = self.alts(v)
            lists = []
            for g, x in al:
                lists.append((g, self.iterate(x)))
            n = len(lists[0][1])
            if all(len(l) == n for _, l in lists):
                out = []
                for i in range(n):
                    g, x = lists[0][0], lists[0][1][i]
                    for h, l in lists[1:]:
                        x = merge_val(g, x, h, l[i])
                        g = OR(g, h)
                    out.append(x)
                return out
            raise Unsupported('iteration over alternatives of different length')
        return self.lib_py.iterate(self, v)

    # ---------------------------------------------------------------- calls
    def e_Call(self, e):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super()
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals') and not e.args:
            oid = self.frames[-1].oid if e.func.id == 'locals' else self.frames[-1].module.id
            return self.new('dict', tuple(self.st.heap[oid].data.items()))
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.lib_py.dict_items(self, self.eval(k.value)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value)
        self.node = e
        return self.simp(self.call(f, args, kw))

    def method_frame(self):
        fr = self.frames[-1]
        while fr is not None and not (fr.cls and fr.cls != 'classbody'):
            fr = fr.parent
        return fr

    @staticmethod
    def super_fn(I, a, kw):
        if not a:
            return I.make_super()
        if len(a) == 2 and isinstance(I.simp(a[0]), ClassVal):
            return SuperV(I.simp(a[0]), a[1])
        return I.opq('super%r' % (tuple(a),))

    def make_super(self):
        fr = self.method_frame()
        if fr is None:
            return self.opq('super outside a class')
        a = fr.nl
        d = self.st.heap[fr.oid].data
        return SuperV(fr.cls, d.get(a))

    def call(self, f, args, kw):
        f = self.simp(f)
        if isinstance(f, GVal):
            return self.cases(f, lambda x: self.call(x, args, kw))
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            if isinstance(f.func, FuncVal):
                return self.call_func(f.func, [f.self_] + list(args), kw)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, BType):
            return self.lib_py.call_type(self, f, list(args), dict(kw))
        if isinstance(f, Partial):
            k2 = dict(f.kwargs)
            k2.update(kw)
            return self.call(f.func, list(f.args) + list(args), k2)
        if isinstance(f, Ext):
            return self.lib_py.call_ext(self, f, list(args), dict(kw))
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == 'inst':
                m = self.find_method(o.cls, '__call__')
                if m is not None:
                    return self.call(BoundMethod(f, m), args, kw)
        if f is None:
            self.raise_('TypeError', "'NoneType' object is not callable")
        if isinstance(f, (Opq, MuVal)):
            self.escape(f, list(args), kw)
            return Opq('call of unknown', self.site(), reach=self.reach(f, list(args), kw))
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.func, args, kw)
        if isinstance(f, DType) and len(args) <= 1 and not kw and not (args and self.lib_tf.is_tensor(args[0])):
            return self.lib_np.call_np(self, f.name, list(args), {})
        self.escape(list(args), kw)
        return self.opq('call of %r' % (f,))

    def raw_new(self, c, args, kw):
        for k in c.mro:
            if isinstance(k, ClassVal) and 'ntfields' in k.attrs:
                return self.lib_py.make_nt(self, c, k, args, kw)
        return self.new('inst', {}, c)

    def instantiate(self, c, args, kw):
        if self.lib_py.is_abstract(self, c):
            self.raise_('TypeError', "Can't instantiate abstract class %s" % c.name)
        for k in c.mro:
            if isinstance(k, ClassVal) and 'ntfields' in k.attrs:
                new = self.find_method(c, '__new__')
                if new is not None:
                    return self.call(new.func if isinstance(new, StaticM) else new, [c] + list(args), kw)
                return self.lib_py.make_nt(self, c, k, args, kw)
            if isinstance(k, ClassVal) and 'enum' in k.attrs:
                return self.lib_py.enum_lookup(self, k, args)
        new = self.find_method(c, '__new__')
        if new is not None:
            ref = self.call(new.func if isinstance(new, StaticM) else new, [c] + list(args), kw)
            h = self.obj(ref) if isinstance(ref, Ref) else None
            if h is None or h.kind != 'inst' or not isinstance(h.cls, ClassVal) or c not in h.cls.mro:
                return ref
        else:
            ref = self.new('inst', {}, c)
        init = self.find_method(c, '__init__')
        isexc = any(isinstance(b, BType) and b.name in PYEXC for b in c.mro)
        if init is not None:
            self.call(BoundMethod(ref, init) if isinstance(init, FuncVal) else Partial(init, [ref], {}), args, kw)
        elif isexc:
            self.set_raw(ref, 'args', tuple(args))
        elif args or kw:
            dc = c.attrs.get('dataclass')
            if dc is None and new is None:
                self.raise_('TypeError', '%s() takes no arguments' % c.name)
        if isexc:
            ex = ExcVal(c, tuple(args), self.site())
            o = self.obj(ref) if isinstance(ref, Ref) else None
            if o is not None and o.kind == 'inst':
                for k, v in o.data.items():
                    if k != 'args':
                        ex.attrs[k] = v
            return ex
        return ref

    def call_func(self, f, args, kw, on_yield=None):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise AnalysisLimit('call depth')
        try:
            return self._call_func(f, args, kw, on_yield)
        finally:
            self.depth -= 1

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        n = len(names)
        args = list(args)
        if len(args) > n and not a.vararg:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
        for nm, v in zip(names, args):
            vals[nm] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[n:])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals:
                    self.raise_('TypeError', '%s() got multiple values for argument %s' % (f.name, k))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        d0 = n - len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in vals:
                if i >= d0:
                    vals[nm] = f.defaults[i - d0]
                else:
                    self.raise_('TypeError', "%s() missing required argument '%s'" % (f.name, nm))
        for nm, dv in zip(konly, f.kwdefaults):
            if nm not in vals:
                if dv is MISSING:
                    self.raise_('TypeError', "%s() missing keyword argument '%s'" % (f.name, nm))
                vals[nm] = dv
        if a.kwarg:
            vals[a.kwarg.arg] = self.new('dict', tuple(extra.items()))
        return vals, (names[0] if names else None)

    def _call_func(self, f, args, kw, on_yield=None):
        vals, first = self.bind_args(f, args, kw)
        rel = self.modname.get(f.module.id, '?')
        self.funcs_seen[(rel, f.qual)] = self.funcs_seen.get((rel, f.qual), 0) + 1
        ref = self.new('frame', vals)
        fr = Frame(ref.id, f.qual, f.module, f.locals_, f.frame if f.frame.locals_ is not None or f.frame.cls == 'classbody' else None,
                   f.globals_)
        if fr.parent is not None and fr.parent.cls == 'classbody':
            fr.parent = fr.parent.parent if fr.parent.parent is not None and fr.parent.parent.locals_ is not None else None
        fr.cls = f.cls
        fr.nl = first
        sf, sn, sl, sctrl = self.file, self.node, self.loops, self.ctrl
        self.file = self.modfile(f.module)
        self.loops = []
        self.frames.append(fr)
        gen = f.isgen
        if gen:
            if on_yield is not None:
                fr.on_yield = on_yield
            else:
                fr.yields = self.new('list', ())
        dead = False
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                return v
            self.exec_block(f.node.body)
        finally:
            if self.frames and self.frames[-1] is fr:
                self.frames.pop()
            else:
                while self.frames and self.frames[-1] is not fr:
                    self.frames.pop()
                if self.frames:
                    self.frames.pop()
            self.file, self.node, self.loops, self.ctrl = sf, sn, sl, sctrl
        outs = list(fr.rets)
        if self.st is not None:
            outs.append((self.st, None))
        if gen:
            if not outs:
                self.st = None
                raise Dead()
            self.join_results([(s, None) for s, v in outs])
            if on_yield is not None:
                return None
            return self.make_iter(fr.yields)
        return self.join_results(outs)

    def modfile(self, mref):
        dotted = self.modname.get(mref.id)
        if dotted is None:
            return '<entry>'
        f = self.find_module(dotted)
        return os.path.relpath(f, self.root) if f else dotted

    # --------------------------------------------------------------- driver
    def snapshot(self):
        return self.st.fork()

    def run(self, fn):
        """run an entry thunk; returns list of outcomes: ('ok', state, value) and ('raise', state, exc)"""
        before = self.st.fork()
        self.handlers.append([])
        out = []
        try:
            v = fn()
            out.append(('ok', self.st, v))
        except Dead:
            pass
        finally:
            raised = self.handlers.pop()
        for st, exc in raised:
            out.append(('raise', st, exc))
        self.st = out[0][1] if len(out) == 1 and out[0][0] == 'ok' else before
        return out


class ImportFailed(Exception):
    pass


class AnalysisLimit(Exception):
    pass


class SymComp(Exception):
    def __init__(self, it, gen):
        self.it, self.gen = it, gen


class SymIter(object):
    """iterable of symbolic length: item k given by fn(k Poly)"""
    __slots__ = ('rng', 'fn')

    def __init__(self, rng, fn):
        self.rng, self.fn = rng, fn


class CtxGen(object):
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift',
          'RShift': 'rshift'}
INPLACE = {k: '__i%s__' % v for k, v in DUNDER.items()}
