"""TensorFlow (1.x graph mode) transfer functions: graph construction as a
dataflow graph of denotations, and a happens-before model of Session.run."""
import ast
from fractions import Fraction
from .values import *
from .alg import *
from . import alg, bdd
from . import den as D
from .den import Den, ShapeErr, Undecided
from . import lib_np as NP

AND, OR, NOT = bdd.AND, bdd.OR, bdd.NOT
INTS = NP.INTS


class TNode(object):
    __slots__ = ('id', 'op', 'inputs', 'ctrl', 'den', 'dtype', 'ss', 'site', 'alias', 'name', 'info', 'reads', 'graph', 'isop', 'nn', 'sel')

    def __repr__(self):
        return '<tensor %s#%d %s>' % (self.op, self.id, self.site)


class TVar(object):
    __slots__ = ('id', 'name', 'init', 'shape', 'dtype', 'site', 'snap', 'initializer', 'graph', 'trainable', 'key')

    def __repr__(self):
        return '<variable %s %s>' % (self.name, self.site)


def init(I):
    I.nid = 0
    I.sess_stack = []
    g = I.new('inst', {'vars': I.list_(()), 'summaries': I.list_(()), 'colls': I.new('dict', ())}, None, 'graph')
    I.groot = I.new('inst', {'graph': g}, None, ('ns',))


def is_tensor(v):
    return isinstance(v, (TNode, TVar))


def is_var(v):
    return isinstance(v, TVar)


is_varobj = is_var


def graph(I):
    st = getattr(I, 'graph_stack', None)
    if st:
        return st[-1]
    return I.simp(I.obj(I.groot).data['graph'])


# ------------------------------------------------------------------ node construction

def read_base(var, nid):
    return Base('%s%s' % (var.name, '' if nid is None else '@%d' % nid), K(('read', var.id, nid)), len(var.shape), kind='read',
                info=(var, nid), shape=list(var.shape))


def new_node(I, op, inputs, dtype, name=None):
    I.nid += 1
    n = TNode()
    n.id = I.nid
    n.op = op
    n.inputs = list(inputs)
    n.ctrl = list(I.ctrl[-1])
    n.den = None
    n.dtype = dtype
    n.ss = None
    n.site = I.site()
    n.alias = None
    n.name = name
    n.info = None
    n.reads = []
    n.isop = False
    n.nn = False
    n.sel = None
    gs = []
    for x in n.inputs:
        if isinstance(x, TNode) and x.op != 'Const' and x.graph not in gs:
            gs.append(x.graph)
    if len(gs) > 1:
        I.raise_('ValueError', 'inputs of %s belong to different graphs' % op)
    n.graph = gs[0] if gs else graph(I)
    I.nodes.append(n)
    return n


def bound(n, x):
    """denotation of input x as seen by consumer n"""
    if x.alias is None or x.den is None:
        if x.alias is not None:
            n.reads.append(x.alias)
        return x.den
    v = x.alias
    if v not in n.reads:
        n.reads.append(v)
    b = read_base(v, n.id)

    def f(base, idx):
        if base.kind == 'read' and base.info[0] is v and base.info[1] is None:
            return acc(b, idx)
        return None
    return D.map_den(x.den, f)


NN_ALWAYS = {'square', 'abs', 'sqrt', 'norm', 'relu', 'exp', 'Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'count_nonzero', 'squared_difference'}
NN_KEEP = {'reduce_sum', 'reduce_mean', 'reduce_max', 'reduce_min', 'reduce_prod', 'mult', 'truediv', 'add', 'identity', 'reshape',
           'cast', 'pow', 'transpose', 'div', 'add_n', 'matmul', 'tensordot', 'einsum'}


def node_nonneg(op, ins):
    """sign facts that survive the expansion of squares in the normal form"""
    if op in NN_ALWAYS:
        return True
    if op == 'mult' and len(ins) == 2 and ins[0] is ins[1]:
        return True
    if op == 'pow' and len(ins) == 2 and ins[1].den is not None:
        c = ins[1].den.body.const()
        if c is not None and c.denominator == 1 and c.numerator % 2 == 0:
            return True
    return op in NN_KEEP and bool(ins) and all(x.nn or x.den is not None and is_nonneg(x.den.body) for x in ins)


def full_ss(*xs):
    return all(x.ss is not None and all(s is not None for s in x.ss) for x in xs)


def mk(I, op, ins, fn, dtype, ss='auto', info=None, name=None):
    n = new_node(I, op, ins, dtype, name)
    n.info = info
    dens = [bound(n, x) for x in ins]
    n.nn = node_nonneg(op, ins)
    if any(d is None for d in dens):
        n.den = None
    else:
        try:
            n.den = I.cut(fn(*dens))
        except ShapeErr as e:
            I.raise_('ValueError', 'tf.%s: %s' % (op, e))
        except Undecided as e:
            I.opq('tf.%s: %s' % (op, e), 'tensor')
            n.den = None
        except alg.TooBig:
            I.opq('tf.%s: value too large to track' % op, 'tensor')
            n.den = None
    if ss == 'auto':
        if n.den is not None and full_ss(*ins):
            n.ss = tuple(n.den.shape)
        elif n.den is not None and all(x.ss is not None for x in ins):
            n.ss = (None,) * n.den.rank
        else:
            n.ss = None
    else:
        n.ss = ss if ss is None else tuple(ss)
    return n


def alias_of(I, op, x, fn, ss='auto', name=None):
    """shape-only operation: shares the buffer of its input"""
    if x.alias is None:
        return mk(I, op, [x], fn, x.dtype, ss, name=name)
    n = new_node(I, op, [x], x.dtype, name)
    n.alias = x.alias
    try:
        n.den = None if x.den is None else fn(x.den)
    except ShapeErr as e:
        I.raise_('ValueError', 'tf.%s: %s' % (op, e))
    except Undecided as e:
        I.opq('tf.%s: %s' % (op, e), 'tensor')
        n.den = None
    if ss == 'auto':
        n.ss = tuple(n.den.shape) if n.den is not None and full_ss(x) else None
    else:
        n.ss = ss
    return n


def constant(I, d, dtype, name=None):
    n = new_node(I, 'Const', [], dtype, name)
    n.ctrl = []
    n.den = d
    n.ss = tuple(d.shape)
    return n


def has_tensor(I, v):
    v = I.simp(v)
    if is_tensor(v):
        return True
    if isinstance(v, tuple):
        return any(has_tensor(I, x) for x in v)
    if isinstance(v, Ref) and I.obj(v).kind == 'list':
        return any(has_tensor(I, x) for x in I.obj(v).data)
    return False


def first_dtype(I, v):
    v = I.simp(v)
    if is_tensor(v):
        return v.dtype
    items = v if isinstance(v, tuple) else I.obj(v).data if isinstance(v, Ref) and I.obj(v).kind == 'list' else ()
    for x in items:
        r = first_dtype(I, x)
        if r is not None:
            return r
    return None


def conv(I, v, dtype=None, strict=True):
    """convert to a graph tensor"""
    v = I.simp(v)
    if isinstance(v, TVar):
        v = v.snap
    if isinstance(v, TNode):
        if v.isop:
            I.raise_('TypeError', 'an Operation is not a Tensor')
        if dtype is not None and v.dtype != dtype:
            I.raise_('ValueError' if strict else 'TypeError',
                     'Tensor conversion requested dtype %s for Tensor with dtype %s' % (dtype, v.dtype))
        return v
    if isinstance(v, (Opq, MuVal)):
        n = new_node(I, 'Unknown', [], dtype or 'float32')
        return n
    if v is None:
        I.raise_('ValueError', 'None values not supported')
    if isinstance(v, GVal):
        return I.cases(v, lambda x: conv(I, x, dtype))
    if isinstance(v, (str, StrV)):
        n = new_node(I, 'Const', [], 'string')
        n.ss = ()
        return n
    if isinstance(v, Ref) and I.obj(v).kind == 'alt':
        return I.split_obj(v, lambda: conv(I, v, dtype))
    if has_tensor(I, v):
        items = I.iterate(v)
        dt = dtype or first_dtype(I, v)
        ns = [conv(I, x, dt) for x in items]
        return mk(I, 'pack', ns, lambda *ds: D.stack(list(ds), 0), dt)
    try:
        d, dt = NP.den_of(I, v)
    except Unsupported as e:
        I.opq('cannot convert to a tensor: %s' % e, 'tensor')
        return new_node(I, 'Unknown', [], dtype or 'float32')
    except ShapeErr as e:
        I.raise_('ValueError', 'cannot convert to a tensor: %s' % e)
    except Undecided as e:
        I.opq('cannot convert to a tensor: %s' % e, 'tensor')
        return new_node(I, 'Unknown', [], dtype or 'float32')
    py = not NP.is_arr(I, v) and not NP.is_npscalar(v)
    if dtype is None:
        if py:
            dt = {'float64': 'float32', 'int64': 'int32'}.get(dt, dt)
            if isinstance(v, (Ref, tuple)) and contains_np(I, v):
                dt = NP.den_of(I, v)[1]
        dtype = dt
    elif py and dt not in INTS and dtype in INTS and dtype != 'bool':
        I.raise_('TypeError', 'expected %s, got a float' % dtype)
    elif dt != dtype:
        d = NP.cast(d, dt, dtype) if dtype in INTS else d
    return constant(I, d, dtype)


def contains_np(I, v):
    v = I.simp(v)
    if NP.is_arr(I, v) or NP.is_npscalar(v):
        return True
    items = v if isinstance(v, tuple) else I.obj(v).data if isinstance(v, Ref) and I.obj(v).kind == 'list' else ()
    return any(contains_np(I, x) for x in items)


def common(I, *xs):
    """convert operands to one dtype (the first tensor's wins)"""
    xs = [I.simp(x) for x in xs]
    dt = None
    for x in xs:
        if is_tensor(x):
            dt = x.dtype
            break
    if dt is None:
        for x in xs:
            t = first_dtype(I, x)
            if t is not None:
                dt = t
                break
    if dt is None:
        a = conv(I, xs[0])
        return [a] + [conv(I, x, a.dtype) for x in xs[1:]]
    out = []
    for x in xs:
        if is_tensor(x) and x.dtype != dt:
            I.raise_('TypeError', 'inputs of an operation have different dtypes %s and %s' % (dt, x.dtype))
        out.append(conv(I, x, dt, strict=False))
    return out


def ew_ss(*xs):
    """static broadcast shape"""
    if any(x.ss is None for x in xs):
        return None
    n = max(len(x.ss) for x in xs)
    out = []
    for k in range(n):
        cur = ONE
        for x in xs:
            off = k - (n - len(x.ss))
            if off < 0:
                continue
            s = x.ss[off]
            if s is None:
                cur = None if cur is None or cur.const() == 1 else cur
            elif s.const() != 1:
                cur = s
        out.append(cur)
    return tuple(out)


def selected(I, op, ins, vals, dtype, mask):
    """the entries of a tensor where a mask holds, in row-major order: kept as the pair of whole tensor and mask"""
    n = new_node(I, op, ins, dtype)
    n.sel = (vals, mask)
    n.ss = (None,)
    return n


def masked(I, x):
    """the whole tensor with zeros outside the selection"""
    v, m = x.sel
    return mk(I, 'where', [m, v], lambda k, d: D.ew(mul, k, d), v.dtype)


def sel_ew(I, op, ins, f, dtype, name):
    pairs = [x.sel for x in ins if x.sel is not None]
    mask = pairs[0][1]
    for v, m in pairs[1:]:
        if m is not mask and (m.den is None or mask.den is None or not D.equal(m.den, mask.den)[0]):
            raise Undecided('selections by different masks')
    if any(x.sel is None and (x.den is None or x.den.rank) for x in ins):
        raise Undecided('selection combined with another tensor')
    v = ew(I, op, [x.sel[0] if x.sel is not None else x for x in ins], f, dtype)
    return selected(I, op, ins, v, v.dtype, mask)


def sel_count(I, x, dtype='int32'):
    return mk(I, 'reduce_sum', [x.sel[1]], lambda d: D.reduce_(d, 'sum'), dtype)


def ew(I, op, ins, f, dtype=None, name=None):
    if any(x.sel is not None for x in ins):
        return sel_ew(I, op, ins, f, dtype, name)
    return mk(I, op, ins, lambda *ds: D.ew(f, *ds), dtype or ins[0].dtype, 'auto' if full_ss(*ins) else ew_ss(*ins), name=name)


# ------------------------------------------------------------------ python operators

def unary(I, op, v):
    x = conv(I, v)
    if op == 'USub':
        return ew(I, 'neg', [x], lambda p: -p)
    if op == 'UAdd':
        return x
    if op == 'Invert':
        return ew(I, 'logical_not', [x], lambda p: sub_(ONE, p))
    if op == 'Not':
        I.raise_('TypeError', 'using a graph tensor as a Python bool')
    return I.opq('unary %s on a tensor' % op)


def binop(I, op, a, b):
    if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
        return Opq('tensor operator on unknown', I.site())
    if op == 'MatMult':
        return t_matmul(I, a, b)
    x, y = common(I, a, b)
    return arith(I, op, x, y)


def arith(I, op, x, y, name=None):
    dt = x.dtype
    if op == 'Div':
        if dt in INTS:
            dt = 'float64' if dt in ('int32', 'int64') else 'float32'
        return ew(I, 'truediv', [x, y], lambda p, q: mul(p, power(q, -1)), dt, name)
    f = NP.ew_poly(op, dt)
    if f is None:
        return I.opq('operator %s on tensors' % op)
    return ew(I, op.lower(), [x, y], f, dt, name)


def compare(I, op, a, b):
    if op in ('Eq', 'NotEq'):
        r = a is b
        return r == (op == 'Eq')
    x, y = common(I, a, b)
    return ew(I, op, [x, y], NP.CMPP[op], 'bool')


def idx_poly(I, k):
    """(Poly, node or None) of an integer index / slice bound"""
    k = I.simp(k)
    if is_tensor(k):
        return conv(I, k)
    return to_poly(I.num(k))


def static_scalar(I, n):
    """Poly of a rank-0 tensor that constant folding knows"""
    if n.den is None or n.den.rank != 0 and any(g for g in n.den.axes):
        return None
    if D.all_bases(n.den):
        return None
    return n.den.body


def getitem(I, o, k):
    x = conv(I, o)
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [I.simp(t) for t in ks]
    if x.den is None:
        n = new_node(I, 'strided_slice', [x], x.dtype)
        for t in ks:
            if is_tensor(t):
                n.inputs.append(conv(I, t))
        return n
    rank = x.den.rank
    n_used = len([t for t in ks if t is not None and t is not Ellipsis])
    out = []
    seen = False
    for t in ks:
        if t is Ellipsis:
            if not seen:
                out += [SliceV(None, None, None)] * (rank - n_used)
            seen = True
        else:
            out.append(t)
    if not seen:
        out += [SliceV(None, None, None)] * (rank - n_used)
    if n_used > rank:
        I.raise_('ValueError', 'index of %d dimensions into a tensor of rank %d' % (n_used, rank))
    ins = [x]
    plan = []

    def dyn(t):
        """('c', poly) or ('t', position)"""
        t = I.simp(t)
        if t is None:
            return None
        if is_tensor(t):
            nn = conv(I, t)
            p = static_scalar(I, nn)
            if p is not None:
                return ('c', p)
            ins.append(nn)
            return ('t', len(ins) - 1)
        return ('c', to_poly(I.num(t)))
    for t in out:
        if t is None:
            plan.append(('n',))
        elif isinstance(t, SliceV):
            plan.append(('s', dyn(t.start), dyn(t.stop), dyn(t.step)))
        elif isinstance(t, (Opq, MuVal)):
            return new_node(I, 'strided_slice', [x], x.dtype)
        elif NP.is_arr(I, t) and NP.den_of(I, t)[0].rank > 0 or isinstance(t, Ref) and I.obj(t).kind == 'list':
            I.raise_('TypeError', 'only integers, slices, ellipsis, newaxis and scalar tensors are valid indices')
        else:
            plan.append(('i', dyn(t)))

    def f(d, *rest):
        rest = (d,) + rest

        def val(v):
            if v is None:
                return None
            if v[0] == 'c':
                return v[1]
            return rest[v[1]].body
        ax = 0
        for pl in plan:
            if pl[0] == 'n':
                d = D.expand_dims(d, ax)
                ax += 1
            elif pl[0] == 'i':
                p = val(pl[1])
                c = p.as_int()
                if c is not None and c < 0:
                    ni = d.size(ax).as_int()
                    if ni is not None and -c > ni:
                        raise ShapeErr('index out of range')
                d = D.take(d, ax, p)
            else:
                a, b, s = val(pl[1]), val(pl[2]), val(pl[3])
                sl = SliceV(None if a is None else I.mknum(a), None if b is None else I.mknum(b), None if s is None else I.mknum(s))
                st, sz, step = NP.slice_spec(I, sl, d.size(ax))
                d = D.slice_axis(d, ax, st, sz, step)
                ax += 1
        return d
    if len(out) and all(p[0] == 's' and p[1] is None and p[2] is None and p[3] is None for p in plan):
        pass
    return mk(I, 'strided_slice', ins, f, x.dtype)


# ------------------------------------------------------------------ attributes

def shape_of(x):
    return ShapeV(x.ss)


def attr(I, o, name, miss):
    x = o
    if isinstance(o, TNode) and o.isop:
        if name == 'run':
            return Builtin('Operation.run', lambda I, a, kw: do_run_default(I, o, a, kw) and None)
        if name == 'name':
            return StrV(tag=('opname', o.id))
        if name == 'graph':
            return o.graph
        if name in ('outputs', 'inputs', 'control_inputs'):
            return I.list_([])
        if name == 'type':
            return o.op
        return miss()
    if name == 'get_shape':
        return Builtin('get_shape', lambda I, a, kw: var_shape(o))
    if name == 'shape':
        return var_shape(o)
    if name == 'dtype':
        return DType(o.dtype)
    if name == 'name':
        return StrV(tag=('tname', o.id))
    if name == 'graph':
        return o.graph
    if name == 'op':
        n = new_node(I, 'op', [conv(I, o)] if isinstance(o, TNode) else [o.snap], None)
        n.isop = True
        n.ctrl = []
        return n
    if name == 'eval':
        def ev(I, a, kw):
            fd = a[0] if a else kw.get('feed_dict')
            s = a[1] if len(a) > 1 else kw.get('session')
            return run_in(I, s, o, fd)
        return Builtin('Tensor.eval', ev)
    if name == 'set_shape':
        def sets(I, a, kw):
            sh = to_ss(I, a[0])
            if isinstance(o, TNode) and sh is not None:
                if o.ss is None:
                    o.ss = sh
                else:
                    o.ss = tuple(p if p is not None else q for p, q in zip(o.ss, sh))
        return Builtin('set_shape', sets)
    if name == 'device':
        return ''
    if name == 'consumers':
        return Builtin('consumers', lambda I, a, kw: I.list_([]))
    if isinstance(o, TVar):
        if name == 'initializer':
            return o.initializer
        if name in ('assign', 'assign_add', 'assign_sub'):
            kind = name

            def asg(I, a, kw):
                val = a[0] if a else kw.get('value', kw.get('delta'))
                return assign(I, o, val, kind)
            return Builtin('Variable.' + name, asg)
        if name in ('value', 'initialized_value'):
            return Builtin('Variable.' + name, lambda I, a, kw: o.snap)
        if name == 'read_value':
            return Builtin('Variable.read_value', lambda I, a, kw: alias_of(I, 'Identity', o.snap, lambda d: d))
        if name == 'initial_value':
            return o.init
        if name == 'trainable':
            return o.trainable
        if name == 'load':
            def load(I, a, kw):
                s = a[1] if len(a) > 1 else kw.get('session')
                n = assign(I, o, a[0], 'assign')
                run_in(I, s, n, None)
            return Builtin('Variable.load', load)
    return miss()


def var_shape(o):
    return ShapeV(o.shape) if isinstance(o, TVar) else ShapeV(o.ss)


def dim_val(I, d):
    return None if d is None else I.mknum(d)


def shape_attr(I, o, name, miss):
    if isinstance(o, DimV):
        if name == 'value':
            return dim_val(I, o.d)
        return miss()
    dims = o.dims
    if name == 'as_list':
        def al(I, a, kw):
            if dims is None:
                I.raise_('ValueError', 'as_list() is not defined on an unknown TensorShape')
            return I.list_([dim_val(I, d) for d in dims])
        return Builtin('as_list', al)
    if name in ('ndims', 'rank'):
        return None if dims is None else len(dims)
    if name == 'dims':
        return None if dims is None else I.list_([DimV(d) for d in dims])
    if name == 'num_elements':
        def ne(I, a, kw):
            if dims is None or any(d is None for d in dims):
                return None
            r = ONE
            for d in dims:
                r = mul(r, d)
            return I.mknum(r)
        return Builtin('num_elements', ne)
    if name == 'is_fully_defined':
        return Builtin(name, lambda I, a, kw: dims is not None and all(d is not None for d in dims))
    if name == 'is_compatible_with':
        def comp(I, a, kw):
            q = to_ss(I, a[0])
            if dims is None or q is None:
                return True
            if len(dims) != len(q):
                return False
            g = bdd.TRUE
            for x, y in zip(dims, q):
                if x is not None and y is not None:
                    g = AND(g, bdd.of_poly(eq0(sub_(x, y))))
            return I.boolval(g)
        return Builtin(name, comp)
    if name == 'assert_is_compatible_with':
        def ac(I, a, kw):
            q = to_ss(I, a[0])
            if dims is None or q is None:
                return None
            if len(dims) != len(q):
                I.raise_('ValueError', 'shapes are incompatible')
            for x, y in zip(dims, q):
                if x is not None and y is not None:
                    I.raise_if(bdd.of_poly(sub_(ONE, eq0(sub_(x, y)))), 'ValueError', 'shapes are incompatible')
        return Builtin(name, ac)
    if name == 'concatenate':
        return Builtin(name, lambda I, a, kw: ShapeV(tuple(dims) + tuple(to_ss(I, a[0]))))
    if name in ('merge_with', 'with_rank'):
        return Builtin(name, lambda I, a, kw: o)
    if name == '__len__':
        return Builtin(name, lambda I, a, kw: len(dims))
    return miss()


def to_ss(I, v):
    v = I.simp(v)
    if v is None:
        return None
    if isinstance(v, ShapeV):
        return v.dims
    if isinstance(v, (int, SVal, DimV)) and not isinstance(v, bool):
        return (to_poly(I.num(v)),)
    return tuple(I.lib_py.dims_of(I, v))


# ------------------------------------------------------------------ sessions, writers, graphs

def new_session(I, g=None):
    gr = g if g is not None else graph(I)
    I._sn = getattr(I, '_sn', 0) + 1
    r = I.new('inst', {'graph': gr, 'closed': False}, None, 'sess_obj')
    I.log.append((I.pg, 'session', r, I.site()))
    return r


def sess_attr(I, o, h, name, miss):
    if name == 'run':
        def run(I, a, kw):
            f = a[0] if a else kw.get('fetches')
            fd = a[1] if len(a) > 1 else kw.get('feed_dict')
            return sess_run(I, o, f, fd)
        return Builtin('Session.run', run)
    if name == 'close':
        return Builtin('Session.close', lambda I, a, kw: I.lib_py.close_obj(I, o))
    if name == 'graph':
        return h.data['graph']
    if name == 'as_default':
        def asd(I, a, kw):
            def enter():
                I.sess_stack.append(o)
                return o

            def exit_(e):
                if I.sess_stack and I.sess_stack[-1] == o:
                    I.sess_stack.pop()
            return I.lib_py.CtxV(enter, exit_, 'session')
        return Builtin('Session.as_default', asd)
    if name == '__enter__':
        def en(I, a, kw):
            I.sess_stack.append(o)
            return o
        return Builtin('Session.__enter__', en)
    if name == '__exit__':
        def ex(I, a, kw):
            if I.sess_stack and I.sess_stack[-1] == o:
                I.sess_stack.pop()
            I.lib_py.close_obj(I, o)
        return Builtin('Session.__exit__', ex)
    if name in h.data:
        return h.data[name]
    return miss()


def writer_attr(I, o, h, name, miss):
    if name in ('add_summary', 'add_run_metadata', 'add_graph', 'add_event', 'add_meta_graph'):
        def add_(I, a, kw):
            c = I.truth(I.obj(o).data.get('closed', False))
            msg = a[0] if a else kw.get('summary', kw.get('run_metadata'))
            step = a[1] if len(a) > 1 else kw.get('global_step', kw.get('tag'))
            I.log.append((I.pg, 'sumwrite', (o, name, msg, step, c), I.site()))
            I.may_raise('OSError', 'summary write')
        return Builtin('FileWriter.' + name, add_)
    if name in ('flush', 'reopen'):
        def fl(I, a, kw):
            I.log.append((I.pg, 'sumflush', o, I.site()))
            if name == 'reopen':
                I.set_raw(o, 'closed', False)
        return Builtin('FileWriter.' + name, fl)
    if name == 'close':
        return Builtin('FileWriter.close', lambda I, a, kw: I.lib_py.close_obj(I, o))
    if name == 'get_logdir':
        return Builtin('FileWriter.get_logdir', lambda I, a, kw: h.data.get('path'))
    if name == '__enter__':
        return Builtin('FileWriter.enter', lambda I, a, kw: o)
    if name == '__exit__':
        return Builtin('FileWriter.exit', lambda I, a, kw: I.lib_py.close_obj(I, o))
    return miss()


def graph_attr(I, o, h, name, miss):
    if name == 'as_default':
        def asd(I, a, kw):
            def enter():
                I.graph_stack = getattr(I, 'graph_stack', []) + [o]
                return o

            def exit_(e):
                st = getattr(I, 'graph_stack', [])
                if st and st[-1] == o:
                    I.graph_stack = st[:-1]
            return I.lib_py.CtxV(enter, exit_, 'graph')
        return Builtin('Graph.as_default', asd)
    if name == 'get_collection':
        return Builtin('Graph.get_collection', lambda I, a, kw: get_collection(I, o, a[0] if a else kw.get('name')))
    if name == 'add_to_collection':
        return Builtin('Graph.add_to_collection', lambda I, a, kw: add_collection(I, o, a[0], a[1]))
    if name == 'finalize':
        return Builtin('Graph.finalize', lambda I, a, kw: None)
    if name == 'get_operations':
        return Builtin('Graph.get_operations', lambda I, a, kw: I.opq('graph operations', 'list'))
    if name in ('control_dependencies', 'name_scope', 'device'):
        return Builtin('Graph.' + name, lambda I, a, kw: call_tf(I, name, a, kw))
    if name in ('as_graph_def', 'clear_collection', 'unique_name'):
        return Builtin('Graph.' + name, lambda I, a, kw: Opq(name, I.site()))
    return miss()


def coll_key(I, k):
    k = I.simp(k)
    if isinstance(k, Ext):
        n = k.path.split('.')[-1]
        return {'GLOBAL_VARIABLES': 'variables', 'SUMMARIES': 'summaries', 'TRAINABLE_VARIABLES': 'trainable_variables',
                'VARIABLES': 'variables'}.get(n, n.lower())
    return k


def get_collection(I, g, k):
    k = coll_key(I, k)
    d = I.obj(g).data
    if k == 'summaries':
        return I.list_(I.iterate(d['summaries']))
    if k == 'variables':
        return I.list_(I.iterate(d['vars']))
    if k == 'trainable_variables':
        return I.list_([v for v in I.iterate(d['vars']) if not isinstance(v, TVar) or v.trainable is not False])
    r = I.lib_py.d_get(I, d['colls'], k) if isinstance(k, str) else None
    return I.list_(I.iterate(r)) if r is not None else I.list_([])


def add_collection(I, g, k, v):
    k = coll_key(I, k)
    d = I.obj(g).data
    if k == 'summaries':
        I.call(I.getattr(d['summaries'], 'append'), [v], {})
    elif k == 'variables':
        I.call(I.getattr(d['vars'], 'append'), [v], {})
    else:
        c = d['colls']
        r = I.lib_py.d_get(I, c, k)
        if r is None:
            I.lib_py.dict_set(I, c, k, I.list_([v]))
        else:
            I.call(I.getattr(r, 'append'), [v], {})


def sparse_attr(I, o, h, name, miss):
    if name == 'get_shape' or name == 'shape':
        return I.opq('shape of a sparse tensor')
    if name == 'dtype':
        return DType(h.data['values'].dtype)
    return miss()


# ------------------------------------------------------------------ variables

def variable(I, initial_value=None, trainable=True, collections=None, validate_shape=True, caching_device=None, name=None,
             variable_def=None, dtype=None, **kw):
    v0 = I.simp(initial_value)
    if isinstance(v0, (FuncVal, Builtin, BoundMethod, Partial)):
        v0 = I.call(v0, [], {})
    saved = I.ctrl
    I.ctrl = [()]
    try:
        dt = NP.dtname(I, dtype)
        n0 = conv(I, v0, dt)
        v = TVar()
        I.nid += 1
        v.id = I.nid
        v.site = I.site()
        nm = I.simp(name)
        v.name = nm if isinstance(nm, str) else (text_of(nm) if nm is not None else 'Variable') + '_%d' % v.id
        if isinstance(nm, str):
            v.name = nm
        v.init = n0
        v.dtype = n0.dtype
        v.trainable = I.simp(trainable) is not False
        v.graph = graph(I)
        if n0.den is not None:
            v.shape = tuple(n0.den.shape)
        elif n0.ss is not None and all(s is not None for s in n0.ss):
            v.shape = n0.ss
        else:
            I.raise_('ValueError', 'variable %s needs an initial value of known shape' % v.name)
        if n0.ss is None or any(s is None for s in n0.ss):
            if validate_shape is not False:
                I.raise_('ValueError', 'initial_value of variable %s must have a fully specified shape' % v.name)
        s = new_node(I, 'ReadVar', [], v.dtype)
        s.alias = v
        s.den = D.from_base(read_base(v, None), v.shape)
        s.ss = v.shape
        v.snap = s
        v.initializer = assign(I, v, n0, 'assign')
        v.initializer.op = 'InitAssign'
    finally:
        I.ctrl = saved
    I.vars_.append(v)
    c = I.simp(collections)
    keys = ['variables'] if c is None else [coll_key(I, k) for k in I.iterate(c)]
    for k in keys:
        add_collection(I, v.graph, k, v)
    I.log.append((I.pg, 'variable', v, v.site))
    return v


def text_of(x):
    return repr(x)


def assign(I, v, val, kind='assign'):
    v = I.simp(v)
    if isinstance(v, TNode) and v.alias is not None and v.op == 'Assign':
        v = v.alias
    if not isinstance(v, TVar):
        if isinstance(v, (Opq, MuVal)):
            return Opq('assignment to an unknown variable', I.site())
        I.raise_('AttributeError', 'assignment to something that is not a variable')
    x = conv(I, val, v.dtype)
    ins = [x]
    if kind == 'assign':
        f = lambda d: d
    elif kind == 'assign_add':
        f = lambda d, old: D.ew(add, old, d)
        ins = [x, v.snap]
    else:
        f = lambda d, old: D.ew(sub_, old, d)
        ins = [x, v.snap]
    n = new_node(I, 'Assign', ins, v.dtype)
    dens = [bound(n, i) for i in ins]
    den = None
    if all(d is not None for d in dens):
        try:
            den = f(*dens)
            if den.rank != len(v.shape) or any(not D.same_size(a, b) for a, b in zip(den.shape, v.shape)):
                I.raise_('ValueError', 'assigning a value of shape %r to variable %s of shape %r' % (den.shape, v.name, list(v.shape)))
        except ShapeErr as e:
            I.raise_('ValueError', 'assign: %s' % e)
        except Undecided as e:
            I.opq('assign: %s' % e)
            den = None
    n.info = ('assign', v, den)
    n.alias = v
    n.den = D.from_base(read_base(v, None), v.shape)
    n.ss = v.shape
    return n


# ------------------------------------------------------------------ Session.run

class UninitRead(Exception):
    pass


def run_in(I, s, fetch, feed):
    s = I.simp(s)
    if s is None:
        if not I.sess_stack:
            I.raise_('ValueError', 'Cannot evaluate tensor: no default session is registered')
        s = I.sess_stack[-1]
    return sess_run(I, s, fetch, feed)


def do_run_default(I, o, a, kw):
    return run_in(I, a[1] if len(a) > 1 else kw.get('session'), o, a[0] if a else kw.get('feed_dict'))


def flat_fetch(I, f, out):
    f = I.simp(f)
    if is_tensor(f):
        out.append(f)
        return
    if isinstance(f, tuple):
        for x in f:
            flat_fetch(I, x, out)
        return
    if isinstance(f, Ref):
        o = I.obj(f)
        if o.kind == 'list':
            for x in o.data:
                flat_fetch(I, x, out)
            return
        if o.kind == 'dict':
            for _, x in o.data:
                flat_fetch(I, x, out)
            return
        if o.kind == 'inst' and o.info == 'sparse':
            raise Unsupported('fetch of a sparse tensor')
    if f is None:
        I.raise_('TypeError', 'Fetch argument None has invalid type')
    if isinstance(f, (Opq, MuVal)):
        raise Unsupported('fetch of unknown value %r' % (f,))
    if isinstance(f, (str, StrV)):
        raise Unsupported('fetch by name')
    I.raise_('TypeError', 'Fetch argument %r has invalid type' % (f,))


def fetch_result(I, f, res):
    f = I.simp(f)
    if is_tensor(f):
        return res[f.id]
    if isinstance(f, tuple):
        r = tuple(fetch_result(I, x, res) for x in f)
        return mk_nt(f.cls, r) if isinstance(f, NT) else r
    o = I.obj(f)
    if o.kind == 'list':
        return I.list_([fetch_result(I, x, res) for x in o.data])
    return I.new('dict', tuple((k, fetch_result(I, x, res)) for k, x in o.data))


def has_gval(I, f):
    f = I.simp(f)
    if isinstance(f, GVal):
        return f
    items = f if isinstance(f, tuple) else ()
    if isinstance(f, Ref):
        o = I.obj(f)
        if o.kind == 'list':
            items = o.data
        elif o.kind == 'dict':
            items = [x for _, x in o.data]
    for x in items:
        r = has_gval(I, x)
        if r is not None:
            return r
    return None


def sess_run(I, s, fetches, feed):
    s = I.simp(s)
    if isinstance(s, GVal):
        return I.cases(s, lambda x: sess_run(I, x, fetches, feed))
    fetches = I.simp(fetches)
    g = has_gval(I, fetches)
    if g is not None:
        # one case per alternative: restricting the path makes the value definite
        return I.cases(g, lambda leaf: sess_run(I, s, fetches, feed)) if len(I.alts(g)) > 1 else None
    if isinstance(fetches, Ref) and I.obj(fetches).kind == 'alt':
        return I.split_obj(fetches, lambda: sess_run(I, s, fetches, feed))
    feed = I.simp(feed)
    if isinstance(feed, GVal):
        return I.cases(feed, lambda x: sess_run(I, s, fetches, x))
    I.raise_if(I.truth(I.obj(s).data.get('closed', False)), 'RuntimeError', 'Attempted to use a closed Session.')
    I.may_raise('OpError', 'session run')
    try:
        nodes = []
        flat_fetch(I, fetches, nodes)
        return run_model(I, s, fetches, nodes, feed)
    except Unsupported as e:
        # everything the run could touch becomes unknown
        I.issue('unsupported', 'session run: %s' % e)
        I.log.append((I.pg, 'run?', (s, str(e)), I.site()))
        return Opq('result of a session run', I.site())
    except alg.TooBig:
        I.issue('limit', 'session run: value too large')
        return Opq('result of a session run', I.site())


def closure(roots, cut):
    order = []
    seen = {}
    stack = [(r, 0) for r in roots]
    state = {}
    for r in roots:
        todo = [r]
        while todo:
            n = todo[-1]
            if n.id in seen:
                todo.pop()
                continue
            st = state.get(n.id, 0)
            deps = [] if n.id in cut else n.inputs + n.ctrl
            if st == 0:
                state[n.id] = 1
                for d in deps:
                    if d.id not in seen:
                        todo.append(d)
            else:
                todo.pop()
                if n.id not in seen:
                    seen[n.id] = n
                    order.append(n)
    return order


def ancestors(order, cut):
    pos = {n.id: i for i, n in enumerate(order)}
    anc = {}
    for n in order:
        m = 0
        if n.id not in cut:
            for d in n.inputs + n.ctrl:
                m |= anc[d.id] | (1 << pos[d.id])
        anc[n.id] = m
    return pos, anc


def feed_map(I, feed, sg=None):
    out = {}
    if feed is None:
        return out
    o = I.obj(feed)
    if o.kind != 'dict':
        I.raise_('TypeError', 'feed_dict must be a dictionary')
    for k, v in o.data:
        k, v = I.simp(k), I.simp(v)
        if isinstance(k, TVar):
            k = k.snap
        if not isinstance(k, TNode):
            raise Unsupported('feed key %r' % (k,))
        if sg is not None and k.graph != sg:
            I.raise_('TypeError', 'Cannot interpret feed_dict key as Tensor: %r is not an element of this graph' % k)
        if is_tensor(v):
            I.raise_('TypeError', 'The value of a feed cannot be a tf.Tensor object')
        d, dt = NP.den_of(I, v)
        if k.ss is not None:
            if len(k.ss) != d.rank:
                I.raise_('ValueError', 'Cannot feed value of rank %d for a placeholder of rank %d' % (d.rank, len(k.ss)))
            for a, b in zip(d.shape, k.ss):
                if b is not None and a != b:
                    I.raise_('ValueError', 'Cannot feed value of shape %r for placeholder of shape %r' % (d.shape, list(k.ss)))
        out[k.id] = (k, d)
    return out


def at(d, idx):
    """element of a Den at index polys"""
    mp = {}
    for g, p in zip(d.axes, idx):
        if not g:
            continue
        if len(g) == 1:
            mp[g[0]] = p
        else:
            stride = ONE
            for v in reversed(g):
                mp[v] = unflat(p, stride, v.size)
                stride = mul(stride, v.size)
    return subst(d.body, mp)


def plain_copy(d):
    """the Base of which d is an exact copy, or None"""
    s = d.body.single()
    if s is None or s[1] != 1 or s[0].bound or len(s[0].fac) != 1:
        return None
    f, e = s[0].fac[0]
    if f.kind != 'A' or e != 1 or len(f.args[1]) != d.rank:
        return None
    b = f.args[0]
    if b.kind not in ('ver', 'res', 'rnd', 'sym', 'mu', 'data'):
        return None
    for g, p in zip(d.axes, f.args[1]):
        if not g:
            if p.const() != 0:
                return None
        elif len(g) != 1 or p.as_ivar() is not g[0]:
            return None
    if b.shape is not None and any(x != y for x, y in zip(b.shape, d.shape)):
        return None
    return b


_known_nn = set()


def value_base(d, name, kind, nn=False):
    b = plain_copy(d)
    if b is not None:
        return b
    k = K(('val', d.key()))
    if nn:
        _known_nn.add(k)
    return Base(name, k, d.rank, nonneg=k in _known_nn or is_nonneg(d.body), positive=is_positive(d.body), kind=kind, info=d,
                shape=list(d.shape))


def run_model(I, s, fetches, nodes, feed):
    sg = I.simp(I.obj(s).data['graph'])
    fm = feed_map(I, feed, sg)
    roots = []
    for f in nodes:
        n = f.snap if isinstance(f, TVar) else f
        roots.append(n)
    so = I.obj(s)
    sg = I.simp(so.data['graph'])
    for n in roots:
        if n.graph != sg:
            I.raise_('ValueError', 'Tensor %r is not an element of this graph' % n)
    order = closure(roots, fm)
    pos, anc = ancestors(order, fm)
    # variables needed
    vs = {}
    for n in order:
        if n.id in fm:
            continue
        for v in n.reads:
            vs[v.id] = v
    for f, n in zip(nodes, roots):
        if n.alias is not None and not n.isop:
            vs[n.alias.id] = n.alias
    for vid, v in sorted(vs.items()):
        cur = I.simp(so.data.get(vkey(v), UNBOUND))
        if isinstance(cur, GVal):
            al = I.alts(cur)
            if len(al) > 1:
                n_alt = len(al)
                if n_alt > 16:
                    raise Unsupported('too many alternative versions of %s' % v.name)
                st0 = I.st
                outs = []
                for g, leaf in al:
                    gg = AND(st0.pg, g)
                    if gg == bdd.FALSE:
                        continue
                    I.st = st0.fork(gg)
                    I.set_raw(s, vkey(v), leaf)
                    try:
                        r = run_model(I, s, fetches, nodes, feed)
                        outs.append((I.st, r))
                    except Dead:
                        pass
                return I.join_results(outs)
            I.set_raw(s, vkey(v), al[0][1])
            so = I.obj(s)
    for n in order:
        if n.op == 'Placeholder' and n.id not in fm:
            I.raise_('InvalidArgumentError', 'You must feed a value for placeholder tensor created at %r' % (n.site,))
    assigns = {}
    for n in order:
        if n.info and isinstance(n.info, tuple) and n.info[0] == 'assign' and n.id not in fm:
            assigns.setdefault(n.info[1].id, []).append(n)
    races = []
    I._runs = getattr(I, '_runs', 0) + 1
    run_id = I._runs
    ver_memo = {}
    rbases = {}

    def before(a, mask):
        return bool(mask >> pos[a.id] & 1)

    def race_base(v, why):
        b = Base('race:%s' % v.name, K(('race', v.id, run_id, why)), len(v.shape), kind='race', shape=list(v.shape), info=why)
        return b

    def var_at(v, mask, who, wsite):
        """base holding the value of v for a consumer with ancestor mask"""
        As = assigns.get(v.id, [])
        prior = [a for a in As if before(a, mask)]
        # assigns that certainly come after the consumer
        after = [a for a in As if who is not None and (anc[a.id] >> pos[who] & 1 or a.id == order[pos[who]].id)] \
            if who is not None else []
        un = [a for a in As if a not in prior and a not in after]
        if un:
            races.append((v, wsite, un[0].site, 'read'))
            return race_base(v, ('r', str(wsite), str(un[0].site)))
        if prior:
            last = [a for a in prior if all(b is a or before(b, anc[a.id]) for b in prior)]
            if not last:
                races.append((v, prior[0].site, prior[1].site, 'write'))
                return race_base(v, ('w', str(prior[0].site), str(prior[1].site)))
            return version(last[0])
        cur = I.simp(I.obj(s).data.get(vkey(v), UNBOUND))
        if cur is UNBOUND:
            raise UninitRead(v)
        return cur

    def resolver(memo):
        def f(base, idx):
            if base.kind == 'read':
                v, nid = base.info
                if nid is None:
                    raise Unsupported('unbound read of %s' % v.name)
                b = memo.get((v.id, nid))
                if b is None:
                    n = order[pos[nid]]
                    b = var_at(v, anc[nid], nid, n.site)
                    memo[(v.id, nid)] = b
                if b is None:
                    raise Unsupported('unknown version of %s' % v.name)
                return read_of(b, idx)
            if base.kind == 'ph':
                n = base.info
                if n.id in fm:
                    return at(fm[n.id][1], idx)
                return None
            if base.kind == 'rnd':
                b = rbases.get(base.key)
                if b is None:
                    b = Base(base.name + "'%d" % run_id, K(('rndrun', base.key, run_id)), base.rank, nonneg=base.nonneg,
                             positive=base.positive, kind='rndrun', info=base.info, shape=base.shape)
                    rbases[base.key] = b
                return acc(b, idx)
            return None
        return f
    memo = {}
    res_f = resolver(memo)
    dm = {}

    def resolve(d):
        return D.map_den(d, res_f, dm)

    def version(a):
        if a.id in ver_memo:
            r = ver_memo[a.id]
            if r is None:
                raise Unsupported('unknown assigned value')
            return r
        _, v, d = a.info
        if d is None:
            ver_memo[a.id] = b = unknown_base(I, v)
            return b
        rd = resolve(d)
        b = value_base(rd, '%s.%d' % (v.name, run_id), 'ver')
        ver_memo[a.id] = b
        return b

    def unknown_base(I, v):
        I._ub = getattr(I, '_ub', 0) + 1
        return Base('?%s%d' % (v.name, I._ub), K(('unk', I._ub)), len(v.shape), kind='opaque', shape=list(v.shape))

    try:
        # every read in the closure must be ordered and initialised, whether or not its value is fetched
        for n in order:
            if n.id in fm:
                continue
            for v in n.reads:
                memo.setdefault((v.id, n.id), None)
                if memo[(v.id, n.id)] is None:
                    memo[(v.id, n.id)] = var_at(v, anc[n.id], n.id, n.site)
        for vid, As in assigns.items():
            for i, a in enumerate(As):
                for b in As[i + 1:]:
                    if not before(a, anc[b.id]) and not before(b, anc[a.id]):
                        races.append((a.info[1], a.site, b.site, 'write'))
        results = {}
        dens = {}
        for f, n in zip(nodes, roots):
            if f.id in results:
                continue
            if n.isop:
                results[f.id] = None
                continue
            if n.dtype == 'string':
                results[f.id] = StrV(tag=('summary', n.id, run_id))
                I.summaries[(n.id, run_id)] = summary_content(n, resolve, fm)
                continue
            if n.id in fm:
                d = fm[n.id][1]
            elif n.alias is not None:
                mask = anc[n.id] | (1 << pos[n.id])
                b = var_at(n.alias, mask, None, n.site)
                if n.den is None:
                    d = None
                else:
                    v = n.alias
                    d = D.map_den(n.den, lambda base, idx: read_of(b, idx) if base.kind == 'read' and base.info[0] is v and base.info[1] is None else None)
            else:
                d = None if n.den is None else resolve(n.den)
            if d is None:
                results[f.id] = Opq('value of %r' % n, I.site(), 'ndarray')
                I.issues.append(('unknown', 'fetched value of %r' % n, I.site(), I.pg))
                continue
            dens[f.id] = d
            b = value_base(d, '%s@run%d' % (n.op, run_id), 'res', n.nn) if not trivial(d) else None
            dd = D.from_base(b, d.shape) if b is not None else d
            dt = n.dtype
            if dd.rank == 0:
                if dt == 'bool':
                    results[f.id] = I.boolval(bdd.of_poly(dd.body))
                else:
                    results[f.id] = SVal(dd.body, dt)
            else:
                results[f.id] = ('nd', dd, dt)
        newv = {}
        for vid, As in assigns.items():
            v = As[0].info[1]
            last = [a for a in As if all(b is a or before(b, anc[a.id]) for b in As)]
            newv[v.id] = (v, version(last[0]) if last else race_base(v, 'ww'))
    except UninitRead as e:
        v = e.args[0]
        I.raise_('FailedPreconditionError', 'Attempting to use uninitialized value %s (%r)' % (v.name, v.site))
    for f in nodes:
        r = results[f.id]
        if isinstance(r, tuple) and r and r[0] == 'nd':
            results[f.id] = I.nd(r[1], r[2])
    old = {vid: I.obj(s).data.get(vkey(v), UNBOUND) for vid, (v, b) in newv.items()}
    for vid, (v, b) in newv.items():
        I.set_raw(s, vkey(v), b)
    ev = {'sess': s, 'id': run_id, 'fetch': list(zip(nodes, [results[f.id] for f in nodes])), 'dens': dens, 'assigned': newv, 'old': old,
          'races': races, 'n_nodes': len(order), 'n_reads': len(memo), 'n_assigns': sum(len(x) for x in assigns.values()),
          'feed': fm, 'order': order}
    I.log.append((I.pg, 'run', ev, I.site()))
    return fetch_result(I, fetches, results)


def summary_content(n, resolve, fm):
    """[(tag, value or None)] written by a summary node"""
    info = n.info
    if not isinstance(info, tuple) or not info:
        return [(None, None)]
    if info[0] == 'merge':
        out = []
        for x in info[1]:
            out.extend(summary_content(x, resolve, fm) if isinstance(x, TNode) else [(None, None)])
        return out
    if info[0] == 'summary':
        x = info[2]
        if not isinstance(x, TNode):
            return [(info[1], None)]
        if x.id in fm:
            return [(info[1], fm[x.id][1])]
        try:
            return [(info[1], None if x.den is None else resolve(x.den))]
        except Unsupported:
            return [(info[1], None)]
    return [(None, None)]


def read_of(b, idx):
    """element of a stored value; stored constants are folded"""
    if b.kind in ('ver', 'res') and isinstance(b.info, Den) and not b.info.rank and b.info.body.is_const():
        return b.info.body
    if b.kind in ('ver', 'res') and isinstance(b.info, Den) and trivial_base(b):
        return at(D.fresh(b.info), idx)
    return acc(b, idx)


_TRIV = {}


def trivial_base(b):
    r = _TRIV.get(b.key)
    if r is None:
        r = _TRIV[b.key] = trivial(b.info)
    return r


def trivial(d):
    return not D.all_bases(d)


def vkey(v):
    return 'var:%d' % v.id


# ------------------------------------------------------------------ functions

TF = {}


def tf(*names):
    def deco(fn):
        for n in names:
            TF[n] = fn
        return fn
    return deco


def call_tf(I, path, a, kw):
    for pre in ('compat.v1.', 'math.', 'linalg.', 'python.', 'dtypes.'):
        if path.startswith(pre) and path not in TF:
            path = path[len(pre):]
    if path.startswith('random.') and path not in TF:
        p2 = 'random_' + path[7:]
        path = p2 if p2 in TF else path
    a = [I.simp(x) for x in a]
    f = TF.get(path)
    if f is None:
        if path in ('set_random_seed', 'disable_v2_behavior', 'disable_eager_execution', 'enable_eager_execution') or \
                path.startswith(('logging.', 'random.set_seed', 'app.', 'flags.')):
            return None
        if path.split('.')[0] in ('RunOptions', 'RunMetadata', 'ConfigProto', 'GPUOptions', 'train', 'gfile', 'io', 'OptimizerOptions', 'GraphOptions'):
            return Opq('tf.%s' % path, I.site())
        for x in a:
            if is_tensor(x):
                I.opq('TensorFlow function tf.%s is not modelled' % path, 'tensor')
                n = new_node(I, path, [conv(I, y) for y in a if is_tensor(y)], x.dtype)
                return n
        return I.opq('TensorFlow function tf.%s is not modelled' % path, 'tensor')
    for i, x in enumerate(a):
        if isinstance(x, GVal):
            return I.cases(x, lambda y: call_tf(I, path, a[:i] + [y] + a[i + 1:], kw))
        if isinstance(x, Ref) and I.obj(x).kind == 'alt':
            return I.split_obj(x, lambda: call_tf(I, path, a, kw))
    kw = dict(kw)
    for k, x in list(kw.items()):
        kw[k] = x = I.simp(x)
        if isinstance(x, GVal) and k != 'name':
            return I.cases(x, lambda y: call_tf(I, path, a, dict(kw, **{k: y})))
    bad = NP.ignored(I, f, a, kw)
    if bad:
        I.opq('tf.%s with %s' % (path, bad), 'tensor')
        return new_node(I, path, [conv(I, y) for y in a if is_tensor(y)], next((y.dtype for y in a if is_tensor(y)), 'float32'))
    try:
        return f(I, *a, **kw)
    except ShapeErr as e:
        I.raise_('ValueError', 'tf.%s: %s' % (path, e))
    except Undecided as e:
        I.opq('tf.%s: %s' % (path, e), 'tensor')
        return new_node(I, path, [conv(I, y) for y in a if is_tensor(y)], next((y.dtype for y in a if is_tensor(y)), 'float32'))
    except Unsupported as e:
        I.opq('tf.%s: %s' % (path, e), 'tensor')
        return new_node(I, path, [conv(I, y) for y in a if is_tensor(y)], next((y.dtype for y in a if is_tensor(y)), 'float32'))
    except TypeError as e:
        import traceback
        if 'argument' in str(e) and f.__name__ in str(e):
            I.opq('call of tf.%s not modelled: %s' % (path, e), 'tensor')
            return new_node(I, path, [conv(I, y) for y in a if is_tensor(y)], next((y.dtype for y in a if is_tensor(y)), 'float32'))
        raise


def shape_list(I, s):
    """target shape as list of Poly, together with dynamic inputs"""
    s = I.simp(s)
    if isinstance(s, ShapeV):
        if s.dims is None or any(d is None for d in s.dims):
            I.raise_('ValueError', 'shape is not fully known')
        return list(s.dims)
    if isinstance(s, (int, SVal, DimV)) and not isinstance(s, bool):
        return [to_poly(I.num(s))]
    if is_tensor(s):
        n = conv(I, s)
        if n.den is None:
            raise Undecided('shape given by an unknown tensor')
        if D.all_bases(n.den):
            raise Undecided('shape depends on data')
        if n.den.rank == 0:
            return [n.den.body]
        k = n.den.size(0).as_int()
        if k is None:
            raise Undecided('shape of unknown length')
        return [D.take(n.den, 0, const(i)).body for i in range(k)]
    if NP.is_arr(I, s):
        return NP.shape_arg(I, s)
    out = []
    for x in I.iterate(s):
        x = I.simp(x)
        if is_tensor(x):
            n = conv(I, x)
            p = static_scalar(I, n)
            if p is None:
                raise Undecided('shape depends on data')
            out.append(p)
        elif x is None:
            I.raise_('ValueError', 'shape contains None')
        elif isinstance(x, DimV):
            if x.d is None:
                I.raise_('TypeError', 'cannot convert an unknown Dimension to a Tensor')
            out.append(x.d)
        else:
            out.append(to_poly(I.num(x)))
    return out


def axes_arg(I, axis):
    axis = I.simp(axis)
    if axis is None:
        return None
    if is_tensor(axis):
        axis_n = conv(I, axis)
        l = shape_list(I, axis_n)
        r = [x.as_int() for x in l]
        if any(x is None for x in r):
            raise Undecided('symbolic axis')
        return r
    if isinstance(axis, int):
        return [axis]
    if NP.is_arr(I, axis):
        return [int(c) for c in NP.const_list(I, axis)]
    if isinstance(axis, SVal):
        raise Undecided('symbolic axis')
    return [I.lib_py.cint(I, x) for x in I.iterate(axis)]


@tf('placeholder')
def t_placeholder(I, dtype, shape=None, name=None):
    n = new_node(I, 'Placeholder', [], NP.dtname(I, dtype))
    n.ctrl = []
    ss = to_ss(I, shape)
    n.ss = ss
    if ss is not None and all(d is not None for d in ss):
        b = Base('ph%d' % n.id, K(('ph', n.id)), len(ss), kind='ph', info=n, shape=list(ss))
        n.den = D.from_base(b, ss)
    I.log.append((I.pg, 'placeholder', n, n.site))
    return n


@tf('placeholder_with_default')
def t_phd(I, x, shape=None, name=None):
    raise Undecided('placeholder_with_default')


@tf('constant')
def t_constant(I, value, dtype=None, shape=None, name='Const', verify_shape=False):
    if has_tensor(I, value):
        I.raise_('TypeError', 'tf.constant of a tensor')
    n = conv(I, value, NP.dtname(I, dtype))
    sh = I.simp(shape)
    if sh is not None and n.den is not None:
        l = shape_list(I, sh)
        if n.den.rank == 0:
            d = D.full(l, n.den.body)
        else:
            d = D.reshape(n.den, l)
        return constant(I, d, n.dtype)
    return n


@tf('convert_to_tensor')
def t_convert(I, value, dtype=None, name=None, preferred_dtype=None, dtype_hint=None):
    return conv(I, value, NP.dtname(I, dtype))


@tf('Variable', 'VariableV1')
def t_variable(I, *a, **kw):
    return variable(I, *a, **kw)


t_variable.forwards = True      # `variable` names its options itself


@tf('get_variable')
def t_get_variable(I, name, shape=None, dtype=None, initializer=None, **kw):
    dt = NP.dtname(I, dtype, 'float32')
    init = I.simp(initializer)
    nm = I.simp(name)
    scope = getattr(I, 'vscope', [])
    pre, reuse = scope[-1] if scope else ((), None)
    key = None
    if isinstance(nm, str) and all(isinstance(x, str) for x in pre):
        key = 'variable:' + '/'.join(pre + (nm,))
        g = graph(I)
        old = I.iterate(get_collection(I, g, key))
        if reuse is not None and not isinstance(reuse, (bool, str)):
            return I.opq('get_variable under reuse=%r' % (reuse,), 'variable')
        if old:
            if not reuse:
                I.raise_('ValueError', 'Variable %s already exists, disallowed' % nm)
            v = old[0]
            if shape is not None and isinstance(v, TVar) and [to_poly(x) for x in shape_list(I, shape)] != [to_poly(x) for x in v.shape]:
                I.raise_('ValueError', 'Trying to share variable %s, but specified another shape' % nm)
            return v
        if reuse is True:
            I.raise_('ValueError', 'Variable %s does not exist' % nm)
    v = make_variable(I, nm, shape, dt, init, kw)
    if key is not None:
        add_collection(I, g, key, v)
    return v


def make_variable(I, name, shape, dt, init, kw):
    if init is None:
        v0 = random_node(I, 'randn', shape_list(I, shape), dt)
    elif isinstance(init, (FuncVal, Builtin, BoundMethod, Partial)):
        v0 = I.call(init, [shape, DType(dt)], {})
    else:
        v0 = init
    return variable(I, v0, name=name, dtype=DType(dt), trainable=kw.get('trainable', True))


def initializer(val):
    def mkf(I, *a, **kw):
        def f(I, b, k):
            sh = shape_list(I, b[0])
            dt = NP.dtname(I, b[1] if len(b) > 1 else None, 'float32')
            if val in ('rand', 'randn'):
                return random_node(I, val, sh, dt)
            return constant(I, D.full(sh, val), dt)
        return Builtin('initializer', f)
    return mkf


for _n, _v in (('zeros_initializer', 0), ('ones_initializer', 1), ('random_normal_initializer', 'randn'), ('random_uniform_initializer', 'randn')):
    TF[_n] = initializer(_v)


@tf('assign')
def t_assign(I, ref, value, *a, **kw):
    return assign(I, ref, value)


@tf('assign_add')
def t_assign_add(I, ref, value, *a, **kw):
    return assign(I, ref, value, 'assign_add')


@tf('assign_sub')
def t_assign_sub(I, ref, value, *a, **kw):
    return assign(I, ref, value, 'assign_sub')


def op_list(I, xs):
    out = []
    for x in xs:
        x = I.simp(x)
        if isinstance(x, TVar):
            out.append(x.snap)
        elif isinstance(x, TNode):
            out.append(x)
        elif isinstance(x, (tuple, Ref)):
            out += op_list(I, I.iterate(x))
        elif x is None:
            I.raise_('TypeError', 'expected Tensor or Operation, not None')
        elif isinstance(x, GVal):
            raise Unsupported('alternatives of operations')
        elif isinstance(x, (Opq, MuVal)):
            raise Undecided('unknown operation')
        else:
            I.raise_('TypeError', 'expected Tensor or Operation, got %r' % (x,))
    return out


@tf('group')
def t_group(I, *xs, **kw):
    ins = op_list(I, xs)
    n = new_node(I, 'NoOp', [], None)
    n.ctrl = n.ctrl + ins
    n.isop = True
    return n


@tf('no_op')
def t_noop(I, name=None):
    n = new_node(I, 'NoOp', [], None)
    n.isop = True
    return n


@tf('tuple')
def t_tuple(I, xs, name=None, control_inputs=None):
    ns = [conv(I, x) for x in I.iterate(xs)]
    saved = I.ctrl
    I.ctrl = saved + [tuple(saved[-1]) + tuple(ns)]
    try:
        return I.list_([alias_of(I, 'Identity', n, lambda d: d) for n in ns])
    finally:
        I.ctrl = saved


@tf('global_variables_initializer', 'initialize_all_variables', 'initializers.global_variables')
def t_gvi(I, *a, **kw):
    g = graph(I)
    vs = I.iterate(I.obj(g).data['vars'])
    return init_of(I, vs)


def init_of(I, vs):
    n = new_node(I, 'NoOp', [], None)
    n.isop = True
    n.ctrl = [v.initializer for v in vs if isinstance(v, TVar)]
    n.info = ('init', [v for v in vs if isinstance(v, TVar)])
    return n


@tf('variables_initializer', 'initialize_variables', 'initializers.variables')
def t_vi(I, xs, name=None):
    return init_of(I, [I.simp(x) for x in I.iterate(xs)])


@tf('local_variables_initializer', 'tables_initializer')
def t_lvi(I, *a):
    return t_noop(I)


@tf('global_variables', 'all_variables')
def t_gv(I, *a, **kw):
    return get_collection(I, graph(I), 'variables')


@tf('trainable_variables')
def t_tv(I, *a, **kw):
    return get_collection(I, graph(I), 'trainable_variables')


@tf('get_collection')
def t_gc(I, key, scope=None):
    return get_collection(I, graph(I), key)


@tf('add_to_collection')
def t_ac(I, key, v):
    return add_collection(I, graph(I), key, v)


@tf('Session', 'InteractiveSession')
def t_session(I, target='', graph=None, config=None):
    r = new_session(I, I.simp(graph))
    return r


@tf('get_default_session')
def t_gds(I):
    return I.sess_stack[-1] if I.sess_stack else None


@tf('get_default_graph')
def t_gdg(I):
    return graph(I)


@tf('Graph')
def t_graph(I):
    return I.new('inst', {'vars': I.list_(()), 'summaries': I.list_(()), 'colls': I.new('dict', ())}, None, 'graph')


@tf('reset_default_graph')
def t_rdg(I):
    g = t_graph(I)
    I.set_raw(I.groot, 'graph', g)


@tf('control_dependencies')
def t_cd(I, deps):
    deps = I.simp(deps)
    ins = [] if deps is None else op_list(I, I.iterate(deps))
    box = []

    def enter():
        box.append(I.ctrl)
        I.ctrl = I.ctrl + [() if deps is None else tuple(I.ctrl[-1]) + tuple(ins)]
        return None

    def exit_(e):
        if box:
            I.ctrl = box[-1]
    return I.lib_py.CtxV(enter, exit_, 'control_dependencies')


@tf('variable_scope')
def t_variable_scope(I, name_or_scope=None, default_name=None, values=None, reuse=None, **kw):
    nm = I.simp(name_or_scope)

    def enter():
        old = getattr(I, 'vscope', [])
        pre, ru = old[-1] if old else ((), None)
        r = I.simp(reuse)
        I.vscope = old + [(pre + (nm if isinstance(nm, str) else text_of(nm) if nm is not None else '',), ru if r is None else r)]
        return nm

    def exit_(e):
        I.vscope = getattr(I, 'vscope', [])[:-1]
    return I.lib_py.CtxV(enter, exit_, 'scope')


@tf('name_scope', 'device', 'op_scope', 'colocate_with', 'container')
def t_scope(I, *a, **kw):
    nm = a[0] if a else kw.get('name')
    if nm is None and not a:
        nm = kw.get('name_or_scope')
    return I.lib_py.CtxV(lambda: nm, lambda e: None, 'scope')


@tf('identity', 'stop_gradient', 'Print')
def t_identity(I, x, *a, **kw):
    return alias_of(I, 'Identity', conv(I, x), lambda d: d)


@tf('reshape', 'manip.reshape')
def t_reshape(I, tensor, shape, name=None):
    x = conv(I, tensor)
    tgt = shape_list(I, shape)
    ss = []
    neg = [i for i, t in enumerate(tgt) if t.const() == -1]
    if full_ss(x):
        tot = ONE
        for s in x.ss:
            tot = mul(tot, s)
        rest = ONE
        for i, t in enumerate(tgt):
            if i not in neg:
                rest = mul(rest, t)
        ss = [t if i not in neg else mul(tot, power(rest, -1)) for i, t in enumerate(tgt)]
    else:
        ss = [None if i in neg else t for i, t in enumerate(tgt)]
    return alias_of(I, 'reshape', x, lambda d: D.reshape(d, tgt), tuple(ss))


@tf('expand_dims')
def t_expand(I, input=None, axis=None, name=None, dim=None):
    x = conv(I, input)
    ax = axes_arg(I, axis if axis is not None else dim)[0]
    ss = None
    if x.ss is not None:
        ss = list(x.ss)
        ss.insert(ax if ax >= 0 else ax + len(ss) + 1, ONE)
        ss = tuple(ss)
    return alias_of(I, 'expand_dims', x, lambda d: D.expand_dims(d, ax), ss)


@tf('squeeze')
def t_squeeze(I, input=None, axis=None, name=None, squeeze_dims=None):
    x = conv(I, input)
    ax = axes_arg(I, axis if axis is not None else squeeze_dims)
    return alias_of(I, 'squeeze', x, lambda d: D.squeeze(d, ax))


@tf('transpose')
def t_transpose(I, a=None, perm=None, name=None, conjugate=False, **kw):
    x = conv(I, a)
    p = axes_arg(I, perm)
    ss = None
    if x.ss is not None:
        q = p if p is not None else list(range(len(x.ss)))[::-1]
        if sorted(q) == list(range(len(x.ss))):
            ss = tuple(x.ss[i] for i in q)
    return mk(I, 'transpose', [x], lambda d: D.transpose(d, p), x.dtype, ss if not full_ss(x) else 'auto')


@tf('matrix_transpose')
def t_mt(I, x, name=None, **kw):
    x = conv(I, x)

    def f(d):
        p = list(range(d.rank))
        p[-1], p[-2] = p[-2], p[-1]
        return D.transpose(d, p)
    return mk(I, 'matrix_transpose', [x], f, x.dtype)


@tf('matmul', 'linalg.matmul')
def t_matmul(I, a=None, b=None, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, a_is_sparse=False,
             b_is_sparse=False, name=None, **kw):
    x, y = common(I, a, b)
    for z in (x, y):
        if z.ss is not None and len(z.ss) < 2:
            I.raise_('ValueError', 'matmul needs matrices, got a tensor of rank %d' % len(z.ss))
    ta, tb = bool(I.simp(transpose_a)) or bool(adjoint_a), bool(I.simp(transpose_b)) or bool(adjoint_b)
    ss = 'auto'
    if not full_ss(x, y):
        r = None
        c = None
        if x.ss is not None and len(x.ss) == 2:
            r = x.ss[1 if ta else 0]
        if y.ss is not None and len(y.ss) == 2:
            c = y.ss[0 if tb else 1]
        ss = (r, c)
    return mk(I, 'matmul', [x, y], lambda p, q: D.matmul(p, q, ta, tb), x.dtype, ss)


@tf('tensordot')
def t_tensordot(I, a, b, axes, name=None):
    x, y = common(I, a, b)
    axes = I.simp(axes)

    def f(p, q):
        if isinstance(axes, int):
            return D.tensordot(p, q, list(range(p.rank - axes, p.rank)), list(range(axes)))
        u, v = I.iterate(axes)
        return D.tensordot(p, q, axes_arg(I, u), axes_arg(I, v))
    return mk(I, 'tensordot', [x, y], f, x.dtype)


@tf('einsum')
def t_einsum(I, equation, *inputs, **kw):
    if len(inputs) == 1 and isinstance(I.simp(inputs[0]), (Ref, tuple)) and not is_tensor(I.simp(inputs[0])):
        inputs = I.iterate(inputs[0])
    xs = common(I, *inputs)
    return mk(I, 'einsum', xs, lambda *ds: NP.do_einsum(I, equation, list(ds)), xs[0].dtype)


@tf('shape')
def t_shape(I, input=None, name=None, out_type=None):
    x = conv(I, input)
    if x.den is None:
        raise Undecided('shape of an unknown tensor')
    sh = x.den.shape
    d = D.stack([D.scalar(s) for s in sh], 0) if sh else Den([D.mkaxis(0)], ZERO)
    n = new_node(I, 'shape', [x], NP.dtname(I, out_type, 'int32'))
    n.den = d
    n.ss = (const(len(sh)),)
    return n


@tf('size')
def t_size(I, input=None, name=None, out_type=None):
    x = conv(I, input)
    if x.sel is not None:
        return sel_count(I, x, NP.dtname(I, out_type, 'int32'))
    if x.den is None:
        raise Undecided('size of an unknown tensor')
    n = new_node(I, 'size', [x], NP.dtname(I, out_type, 'int32'))
    n.den = D.scalar(D.gsize([v for g in x.den.axes for v in g]))
    n.ss = ()
    return n


@tf('rank')
def t_rank(I, x, name=None):
    x = conv(I, x)
    if x.den is None:
        raise Undecided('rank of an unknown tensor')
    return constant(I, D.scalar(const(x.den.rank)), 'int32')


def filler(val):
    def f(I, shape, dtype=None, name=None):
        return constant(I, D.full(shape_list(I, shape), val), NP.dtname(I, dtype, 'float32'))
    return f


TF['zeros'] = filler(0)
TF['ones'] = filler(1)


def filler_like(val):
    def f(I, x, dtype=None, name=None, optimize=True, **kw):
        x = conv(I, x)
        if x.den is None:
            raise Undecided('like an unknown tensor')
        return constant(I, D.full(x.den.shape, val), NP.dtname(I, dtype, x.dtype))
    return f


TF['zeros_like'] = filler_like(0)
TF['ones_like'] = filler_like(1)


@tf('fill')
def t_fill(I, dims, value, name=None):
    v = conv(I, value)
    l = shape_list(I, dims)
    return mk(I, 'fill', [v], lambda d: D.full(l, d.body), v.dtype)


@tf('invert_permutation', 'math.invert_permutation')
def t_invperm(I, x, name=None):
    p = axes_arg(I, x)
    if sorted(p) != list(range(len(p))):
        I.raise_('InvalidArgumentError', 'not a permutation')
    return constant(I, D.stack([D.scalar(const(p.index(i))) for i in range(len(p))]), 'int32')


@tf('eye')
def t_eye(I, n, num_columns=None, batch_shape=None, dtype=None, name=None):
    m = None if num_columns is None else shape_list(I, (num_columns,))[0]
    return constant(I, D.eye(shape_list(I, (n,))[0], m), NP.dtname(I, dtype, 'float32'))


@tf('range')
def t_range(I, start, limit=None, delta=1, dtype=None, name=None):
    if limit is None:
        start, limit = 0, start
    a, b, s = [shape_list(I, (x,))[0] for x in (start, limit, delta)]
    if s.const() != 1:
        n = sub_(b, a).as_int()
        c = s.as_int()
        if n is None or not c:
            raise Undecided('range')
        return constant(I, D.arange(a, const(max(0, -(-n // c))), s), NP.dtname(I, dtype, 'int32'))
    return constant(I, D.arange(a, sub_(b, a)), NP.dtname(I, dtype, 'int32'))


def random_node(I, kind, shape, dtype, lo=None, hi=None):
    n = new_node(I, 'random', [], dtype)
    lo_p, hi_p = lo, hi
    b = Base('%s%d' % (kind, n.id), K(('rnd', n.id)), len(shape), nonneg=(kind == 'rand'), kind='rnd',
             info=(n, kind, lo, hi), shape=list(shape))
    n.den = D.from_base(b, shape)
    n.ss = tuple(shape)
    n.info = ('random', kind, lo, hi)
    I.log.append((I.pg, 'random', (kind, tuple(shape), n), n.site))
    return n


@tf('random_uniform')
def t_ru(I, shape, minval=0, maxval=None, dtype=None, seed=None, name=None):
    dt = NP.dtname(I, dtype, 'float32')
    sh = shape_list(I, shape)
    if dt in INTS:
        if maxval is None:
            I.raise_('ValueError', 'Must specify maxval for integer dtype')
        lo, hi = shape_list(I, (minval, maxval))
        h = I.hooks.get('tf_randint')
        if h is not None:
            r = h(I, lo, hi, sh)
            if r is not None:
                n = new_node(I, 'random', [], dt)
                b = Base('randint%d' % n.id, K(('rnd', n.id)), len(sh), nonneg=True, kind='rnd', info=(n, 'randint', lo, hi), shape=list(sh))
                n.den = r
                n.ss = tuple(sh)
                I.log.append((I.pg, 'randint', (lo, hi, tuple(sh), n), n.site))
                return n
        n = random_node(I, 'randint', sh, dt, lo, hi)
        I.log.append((I.pg, 'randint', (lo, hi, tuple(sh), n), n.site))
        return n
    u = random_node(I, 'rand', sh, dt)
    mx = 1 if maxval is None else maxval
    a, b = conv(I, minval, dt), conv(I, mx, dt)
    if a.den is not None and b.den is not None and a.den.body.const() == 0 and b.den.body.const() == 1:
        return u
    return ew(I, 'random_uniform', [u, a, b], lambda z, p, q: add(mul(z, sub_(q, p)), p))


@tf('random_normal', 'random.normal')
def t_rn(I, shape, mean=0.0, stddev=1.0, dtype=None, seed=None, name=None):
    dt = NP.dtname(I, dtype, 'float32')
    u = random_node(I, 'randn', shape_list(I, shape), dt)
    m, s = I.simp(mean), I.simp(stddev)
    if m == 0 and s == 1:
        return u
    a, b = conv(I, mean, dt), conv(I, stddev, dt)
    return ew(I, 'random_normal', [u, a, b], lambda z, p, q: add(mul(z, q), p))


@tf('truncated_normal')
def t_tn(I, shape, mean=0.0, stddev=1.0, dtype=None, seed=None, name=None):
    return t_rn(I, shape, mean, stddev, dtype)


@tf('cast', 'to_float', 'to_double', 'to_int32', 'to_int64')
def t_cast(I, x, dtype=None, name=None):
    x = conv(I, x)
    dt = NP.dtname(I, dtype, x.dtype)
    if dt == x.dtype:
        return x
    src = x.dtype
    if dt in INTS and dt != 'bool' and src not in INTS:
        return ew(I, 'cast', [x], lambda p: p if is_integer(p) else func('trunc', [p]), dt)
    if dt == 'bool':
        return ew(I, 'cast', [x], lambda p: sub_(ONE, eq0(p)), dt)
    return ew(I, 'cast', [x], lambda p: p, dt)


TF['to_float'] = lambda I, x, name=None: t_cast(I, x, DType('float32'))
TF['to_double'] = lambda I, x, name=None: t_cast(I, x, DType('float64'))
TF['to_int32'] = lambda I, x, name=None: t_cast(I, x, DType('int32'))
TF['to_int64'] = lambda I, x, name=None: t_cast(I, x, DType('int64'))


def bin_tf(op):
    def f(I, x=None, y=None, name=None, **kw):
        p, q = common(I, x, y)
        return arith(I, op, p, q)
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('sub', 'Sub'), ('multiply', 'Mult'), ('mul', 'Mult'), ('truediv', 'Div'),
               ('divide', 'Div'), ('realdiv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('floormod', 'Mod'), ('pow', 'Pow'),
               ('logical_and', 'BitAnd'), ('logical_or', 'BitOr')):
    TF[_n] = bin_tf(_o)


@tf('div')
def t_div(I, x=None, y=None, name=None):
    p, q = common(I, x, y)
    if p.dtype in INTS:
        return arith(I, 'FloorDiv', p, q)
    return arith(I, 'Div', p, q)


@tf('div_no_nan')
def t_dnn(I, x=None, y=None, name=None):
    p, q = common(I, x, y)
    return ew(I, 'div_no_nan', [p, q], lambda a, b: mul(sub_(ONE, eq0(b)), mul(a, power(b, -1))))


@tf('scalar_mul')
def t_smul(I, s, x, name=None):
    p, q = common(I, x, s)
    return arith(I, 'Mult', p, q)


@tf('squared_difference')
def t_sqd(I, x=None, y=None, name=None):
    p, q = common(I, x, y)
    return ew(I, 'squared_difference', [p, q], lambda a, b: power(sub_(a, b), 2))


@tf('add_n', 'accumulate_n')
def t_addn(I, inputs, *a, **kw):
    xs = common(I, *I.iterate(inputs))
    return ew(I, 'add_n', xs, lambda *ps: sum_polys(ps))


@tf('maximum')
def t_max(I, x=None, y=None, name=None):
    p, q = common(I, x, y)
    return ew(I, 'maximum', [p, q], max2)


@tf('minimum')
def t_min(I, x=None, y=None, name=None):
    p, q = common(I, x, y)
    return ew(I, 'minimum', [p, q], min2)


@tf('clip_by_value')
def t_clip(I, t, lo, hi, name=None):
    p, a, b = common(I, t, lo, hi)
    return ew(I, 'clip', [p, a, b], lambda x, l, h: min2(max2(x, l), h))


UN = {'sqrt': sqrt, 'square': lambda p: mul(p, p), 'abs': absval, 'negative': lambda p: -p, 'neg': lambda p: -p, 'nn.relu': relu,
      'exp': lambda p: func('exp', [p]), 'log': lambda p: func('log', [p]), 'sign': lambda p: sub_(lt0(-p), lt0(p)),
      'reciprocal': lambda p: power(p, -1), 'rsqrt': lambda p: power(p, Fraction(-1, 2)), 'floor': lambda p: func('floor', [p]),
      'tanh': lambda p: func('tanh', [p]), 'sigmoid': lambda p: func('sigmoid', [p]), 'nn.sigmoid': lambda p: func('sigmoid', [p]),
      'nn.softplus': lambda p: func('log', [sub_(func('exp', [p]), const(-1))]), 'inv': lambda p: power(p, -1),
      'nn.elu': lambda p: add(relu(p), mul(lt0(p), sub_(func('exp', [p]), ONE))), 'nn.relu6': lambda p: min2(relu(p), const(6)),
      'nn.selu': lambda p: scale(add(relu(p), scale(mul(lt0(p), sub_(func('exp', [p]), ONE)), Fraction('1.6732632423543772'))), Fraction('1.0507009873554805')),
      'nn.softsign': lambda p: mul(p, power(add(ONE, absval(p)), -1)), 'nn.tanh': lambda p: func('tanh', [p]),
      'nn.swish': lambda p: mul(p, func('sigmoid', [p])), 'expm1': lambda p: sub_(func('exp', [p]), ONE)}


def un_tf(name, fn):
    def f(I, x=None, name_=None, features=None, **kw):
        y = conv(I, x if x is not None else features)
        return ew(I, name, [y], fn)
    return f


for _n, _f in UN.items():
    TF[_n] = un_tf(_n, _f)


@tf('nn.leaky_relu')
def t_leaky(I, features, alpha=0.2, name=None):
    p, a = common(I, features, alpha)
    return ew(I, 'leaky', [p, a], lambda x, k: sub_(relu(x), mul(k, relu(-x))))


def log_tf(name, fn):
    def f(I, x=None, name_=None, **kw):
        y = conv(I, x)
        return ew(I, name, [y], fn, 'bool')
    return f


TF['logical_not'] = log_tf('logical_not', lambda p: sub_(ONE, p))
TF['is_nan'] = log_tf('is_nan', lambda p: ZERO)
TF['is_finite'] = log_tf('is_finite', lambda p: ONE)


def cmp_tf(op):
    def f(I, x=None, y=None, name=None):
        p, q = common(I, x, y)
        return ew(I, op, [p, q], NP.CMPP[op], 'bool')
    return f


for _n, _o in (('not_equal', 'NotEq'), ('equal', 'Eq'), ('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'), ('greater_equal', 'GtE')):
    TF[_n] = cmp_tf(_o)


def red_tf(kind):
    def f(I, input_tensor=None, axis=None, keepdims=None, name=None, reduction_indices=None, keep_dims=None):
        x = conv(I, input_tensor)
        ax = axes_arg(I, axis if axis is not None else reduction_indices)
        kd = bool(I.simp(keepdims)) or bool(I.simp(keep_dims))
        dt = x.dtype
        if x.sel is not None:
            if ax not in (None, (0,), [0], 0) or kd or kind not in ('sum', 'mean'):
                raise Undecided('reduce_%s of a selection' % kind)
            m = mk(I, 'reduce_sum', [masked(I, x)], lambda d: D.reduce_(d, 'sum'), dt)
            return m if kind == 'sum' else arith(I, 'Div', m, sel_count(I, x, dt))
        return mk(I, 'reduce_' + kind, [x], lambda d: D.reduce_(d, kind, ax, kd), dt)
    return f


for _k in ('sum', 'mean', 'max', 'min', 'prod', 'any', 'all'):
    TF['reduce_' + _k] = red_tf(_k)


@tf('nn.l2_loss')
def t_l2_loss(I, t=None, name=None):
    x = conv(I, t)
    if x.sel is not None:
        x = masked(I, x)
    if x.dtype in INTS:
        I.raise_('TypeError', 'tf.nn.l2_loss of an integer tensor')
    return mk(I, 'l2_loss', [x], lambda d: D.ew(lambda p: mul(to_poly(Fraction(1, 2)), p), D.reduce_(D.ew(lambda p: mul(p, p), d), 'sum')), x.dtype)


@tf('count_nonzero', 'math.count_nonzero')
def t_cnz(I, x=None, axis=None, keepdims=None, dtype=None, name=None, **kw):
    x = conv(I, x if x is not None else kw.get('input_tensor', kw.get('input')))
    ax = axes_arg(I, axis)
    if x.sel is not None and ax is None:
        x = masked(I, x)
    return mk(I, 'count_nonzero', [x], lambda d: D.reduce_(D.ew(lambda p: sub_(ONE, eq0(p)), d), 'sum', ax, bool(keepdims)),
              NP.dtname(I, dtype, 'int64'))


@tf('norm', 'linalg.norm')
def t_norm(I, tensor=None, ord='euclidean', axis=None, keepdims=None, name=None, keep_dims=None):
    x = conv(I, tensor)
    o = I.simp(ord)
    ax = axes_arg(I, axis)
    kd = bool(I.simp(keepdims)) or bool(I.simp(keep_dims))
    if x.dtype in INTS:
        I.raise_('TypeError', 'tf.norm of an integer tensor')
    if x.sel is not None and ax is None and not kd:
        x = masked(I, x)

    def f(d):
        if ax is None:
            if o == 'fro':
                raise ShapeErr("'ord' must be a supported vector norm, got fro")
            if kd:
                raise Undecided('norm keepdims')
            flat = D.reshape(d, [-1]) if d.rank != 1 and False else d
            if o in ('euclidean', 2):
                return D.ew(sqrt, D.reduce_(D.ew(lambda p: mul(p, p), flat), 'sum'))
            if o == 1:
                return D.reduce_(D.ew(absval, flat), 'sum')
            if o == float('inf'):
                return D.reduce_(D.ew(absval, flat), 'max')
            raise Undecided('norm order %r' % (o,))
        if o == 'euclidean' or o == 'fro' and len(ax) == 2:
            return D.ew(sqrt, D.reduce_(D.ew(lambda p: mul(p, p), d), 'sum', ax, kd))
        return NP.norm_den(I, d, o, ax, kd)
    return mk(I, 'norm', [x], f, x.dtype)


@tf('svd')
def t_svd(I, tensor=None, full_matrices=False, compute_uv=True, name=None):
    x = conv(I, tensor)
    fm = bool(I.simp(full_matrices))

    def chk(d):
        if d.rank < 2:
            raise ShapeErr('svd of a tensor of rank %d' % d.rank)
        if d.rank > 2:
            raise Undecided('batched svd')
        return d
    s = mk(I, 'svd.s', [x], lambda d: D.svd_s_den(chk(d)), x.dtype)
    if not I.simp(compute_uv):
        return s
    u = mk(I, 'svd.u', [x], lambda d: D.svd_u_den(chk(d), fm), x.dtype)
    v = mk(I, 'svd.v', [x], lambda d: D.svd_v_den(chk(d), fm), x.dtype)
    return (s, u, v)


@tf('matrix_inverse', 'linalg.inv')
def t_inv(I, x=None, adjoint=False, name=None, **kw):
    x = conv(I, x if x is not None else kw.get('input'))
    return mk(I, 'inv', [x], lambda d: D.matop('inv', d), x.dtype)


@tf('linalg.pinv', 'pinv')
def t_pinv(I, x, *a, **kw):
    x = conv(I, x)
    return mk(I, 'pinv', [x], lambda d: D.matop('pinv', d), x.dtype)


@tf('diag', 'matrix_diag', 'linalg.diag', 'linalg.tensor_diag')
def t_diag(I, x=None, name=None, **kw):
    x = conv(I, x if x is not None else kw.get('diagonal'))

    def f(d):
        if d.rank != 1:
            raise Undecided('diag')
        return D.diag(d)
    return mk(I, 'diag', [x], f, x.dtype)


@tf('diag_part', 'matrix_diag_part', 'linalg.diag_part')
def t_diagp(I, x=None, name=None, **kw):
    x = conv(I, x if x is not None else kw.get('input'))
    return mk(I, 'diag_part', [x], D.diag_part, x.dtype)


@tf('trace', 'linalg.trace')
def t_trace(I, x, name=None):
    x = conv(I, x)
    return mk(I, 'trace', [x], D.trace, x.dtype)


@tf('slice')
def t_slice(I, input_=None, begin=None, size=None, name=None):
    x = conv(I, input_)
    b, s = shape_list(I, begin), shape_list(I, size)

    def f(d):
        if len(b) != d.rank or len(s) != d.rank:
            raise ShapeErr('slice of rank %d with %d bounds' % (d.rank, len(b)))
        for ax in range(d.rank):
            sz = s[ax]
            if sz.const() == -1:
                sz = sub_(d.size(ax), b[ax])
            n, e = d.size(ax).as_int(), add(b[ax], sz).as_int()
            if n is not None and e is not None and e > n:
                raise ShapeErr('slice out of range')
            if d.size(ax).const() == 1 and b[ax].const() == 0 and sz.const() == 1:
                continue
            d = D.slice_axis(d, ax, b[ax], sz)
        return d
    return mk(I, 'slice', [x], f, x.dtype)


@tf('strided_slice')
def t_strided(I, *a, **kw):
    raise Undecided('strided_slice')


@tf('gather')
def t_gather(I, params, indices, validate_indices=None, name=None, axis=0, **kw):
    x = conv(I, params)
    i = conv(I, indices)
    ax = axes_arg(I, axis)[0] if axis is not None else 0

    def f(d, ix):
        a = ax % d.rank
        ix = D.fresh(ix)
        d = D.fresh(d)
        g = d.axes[a]
        mp = {}
        if len(g) == 1:
            mp[g[0]] = ix.body
        elif g:
            stride = ONE
            for v in reversed(g):
                mp[v] = unflat(ix.body, stride, v.size)
                stride = mul(stride, v.size)
        return Den(list(d.axes[:a]) + list(ix.axes) + list(d.axes[a + 1:]), subst(d.body, mp))
    return mk(I, 'gather', [x, i], f, x.dtype)


@tf('gather_nd')
def t_gather_nd(I, params, indices, name=None, **kw):
    x = conv(I, params)
    i = conv(I, indices)
    if isinstance(i.info, tuple) and i.info[0] == 'indices of':
        return t_boolean_mask(I, x, i.info[1])

    def f(d, ix):
        k = ix.size(ix.rank - 1).as_int()
        if k is None:
            raise Undecided('gather_nd')
        cols = [D.take(ix, ix.rank - 1, const(c)) if ix.axes[-1] else Den(ix.axes[:-1], ix.body) for c in range(k)]
        axes, bodies = D.broadcast(cols)
        d = D.fresh(d)
        mp = {}
        for a in range(k):
            g = d.axes[a]
            p = bodies[a]
            if len(g) == 1:
                mp[g[0]] = p
            elif g:
                stride = ONE
                for v in reversed(g):
                    mp[v] = unflat(p, stride, v.size)
                    stride = mul(stride, v.size)
        return Den(list(axes) + list(d.axes[k:]), subst(d.body, mp))
    return mk(I, 'gather_nd', [x, i], f, x.dtype)


def scatter(I, ix, upd, shape, base, accumulate):
    """dense tensor from (n,k) indices and n values; n concrete; later entries win unless accumulating"""
    if ix.rank == 1:
        ix = D.expand_dims(ix, 1)
    n = ix.size(0).as_int()
    k = ix.size(1).as_int()
    if n is None or k is None or n > 64:
        raise Undecided('scatter of symbolic length')
    if k != len(shape):
        raise ShapeErr('sparse indices of width %d for a tensor of rank %d' % (k, len(shape)))
    if upd.rank == 1:
        m = upd.size(0).as_int()
        if m is not None and m != n:
            raise ShapeErr('%d sparse values for %d indices' % (m, n))
    axes = [D.mkaxis(s) for s in shape]
    lin = [D.linear(g) for g in axes]
    body = to_poly(base)

    def el(d, *pos):
        for p in pos:
            if d.axes[0]:
                d = D.take(d, 0, const(p))
            else:
                d = Den(d.axes[1:], d.body)
        return d.body
    for i in range(n):
        cond = ONE
        for c in range(k):
            p = el(ix, i, c)
            ci, si = p.as_int(), to_poly(shape[c]).as_int()
            if ci is not None and si is not None and not 0 <= ci < si:
                raise ShapeErr('sparse index %d out of bounds for size %d' % (ci, si))
            cond = mul(cond, eq0(sub_(lin[c], p)))
        val = upd.body if upd.rank == 0 else el(upd, i)
        if accumulate:
            body = add(body, mul(cond, val))
        else:
            body = add(mul(cond, val), mul(sub_(ONE, cond), body))
    return Den(axes, body)


@tf('scatter_nd')
def t_scatter_nd(I, indices, updates, shape, name=None):
    i, u = conv(I, indices), conv(I, updates)
    l = shape_list(I, shape)
    return mk(I, 'scatter_nd', [i, u], lambda a, b: scatter(I, a, b, l, ZERO, True), u.dtype)


@tf('SparseTensor', 'sparse.SparseTensor')
def t_sparse(I, indices=None, values=None, dense_shape=None, **kw):
    i, v, s = conv(I, indices), conv(I, values), conv(I, dense_shape)
    return I.new('inst', {'indices': i, 'values': v, 'dense_shape': s}, None, 'sparse')


@tf('sparse_tensor_to_dense', 'sparse.to_dense')
def t_s2d(I, sp_input=None, default_value=0, validate_indices=True, name=None):
    sp = I.simp(sp_input)
    if not (isinstance(sp, Ref) and I.obj(sp).info == 'sparse'):
        I.raise_('TypeError', 'Input must be a SparseTensor.')
    h = I.obj(sp).data
    dv = 0 if default_value is None else default_value
    l = shape_list(I, h['dense_shape'])
    return mk(I, 'sparse_to_dense', [h['indices'], h['values']], lambda a, b: scatter(I, a, b, l, to_poly(I.num(dv)), False),
              h['values'].dtype, tuple(l))


@tf('sparse_to_dense')
def t_s2d2(I, sparse_indices, output_shape, sparse_values, default_value=0, validate_indices=True, name=None):
    i, v = conv(I, sparse_indices), conv(I, sparse_values)
    l = shape_list(I, output_shape)
    return mk(I, 'sparse_to_dense', [i, v], lambda a, b: scatter(I, a, b, l, to_poly(I.num(default_value)), False), v.dtype)


@tf('stack', 'pack', 'parallel_stack')
def t_stack(I, values, axis=0, name=None):
    xs = common(I, *I.iterate(values))
    ax = axes_arg(I, axis)[0]
    return mk(I, 'stack', xs, lambda *ds: D.stack(list(ds), ax), xs[0].dtype)


@tf('unstack', 'unpack')
def t_unstack(I, value=None, num=None, axis=0, name=None):
    x = conv(I, value)
    if x.den is None:
        raise Undecided('unstack of unknown')
    ax = axes_arg(I, axis)[0] % x.den.rank
    n = x.den.size(ax).as_int()
    if n is None:
        raise Undecided('unstack along a symbolic axis')
    return I.list_([mk(I, 'unstack', [x], (lambda c: lambda d: D.take(d, ax, const(c)) if d.axes[ax] else
                                           Den([g for i, g in enumerate(d.axes) if i != ax], d.body))(c), x.dtype) for c in range(n)])


@tf('concat')
def t_concat(I, values, axis=0, name=None):
    ax = I.simp(axis)
    if isinstance(I.simp(values), int):
        I.raise_('TypeError', 'tf.concat(axis, values) argument order')
    xs = common(I, *I.iterate(values))
    ax = axes_arg(I, ax)[0]
    return mk(I, 'concat', xs, lambda *ds: D.concat(list(ds), ax), xs[0].dtype)


@tf('tile')
def t_tile(I, input=None, multiples=None, name=None):
    x = conv(I, input)
    l = shape_list(I, multiples)
    return mk(I, 'tile', [x], lambda d: D.tile(d, l), x.dtype)


@tf('broadcast_to')
def t_bto(I, x, shape, name=None):
    x = conv(I, x)
    l = shape_list(I, shape)
    return mk(I, 'broadcast_to', [x], lambda d: D.ew(add, D.full(l, 0), d), x.dtype)


@tf('reverse', 'reverse_v2')
def t_rev(I, tensor, axis, name=None):
    x = conv(I, tensor)
    axs = axes_arg(I, axis)

    def f(d):
        for a in axs:
            n = d.size(a)
            if n.const() != 1:
                d = D.slice_axis(d, a % d.rank, sub_(n, ONE), n, -1)
        return d
    return mk(I, 'reverse', [x], f, x.dtype)


@tf('where', 'where_v2')
def t_where(I, condition, x=None, y=None, name=None):
    c = conv(I, condition)
    if x is None:
        n = new_node(I, 'where_index', [c], 'int64')
        n.info = ('indices of', c if c.dtype == 'bool' else t_cast(I, c, DType('bool')))
        n.ss = (None, const(len(c.ss)) if c.ss is not None else None)
        return n
    p, q = common(I, x, y)
    return mk(I, 'where', [c, p, q], lambda k, u, v: D.ew(lambda a, b, z: add(mul(a, b), mul(sub_(ONE, a), z)), k, u, v), p.dtype)


@tf('boolean_mask')
def t_boolean_mask(I, tensor, mask, name=None, axis=None):
    x, m = conv(I, tensor), conv(I, mask)
    if m.dtype != 'bool':
        raise Undecided('tf.boolean_mask with a mask of type %s' % m.dtype)
    if I.simp(axis) not in (None, 0) or x.den is None or m.den is None or x.den.rank != m.den.rank:
        raise Undecided('tf.boolean_mask of part of the axes')
    if m.ss is None:
        I.raise_('ValueError', 'Number of mask dimensions must be specified')
    return selected(I, 'boolean_mask', [x, m], x, x.dtype, m)


@tf('cond')
def t_cond(I, pred, true_fn=None, false_fn=None, strict=False, name=None, fn1=None, fn2=None):
    p = conv(I, pred)
    m = len(I.nodes)
    a = I.call(true_fn if true_fn is not None else fn1, [], {})
    b = I.call(false_fn if false_fn is not None else fn2, [], {})
    if any(n.op == 'Assign' for n in I.nodes[m:]):
        raise Undecided('tf.cond with side effects')

    def sel(x, y):
        u, v = common(I, x, y)
        return mk(I, 'cond', [p, u, v], lambda k, s, t: D.ew(lambda c, e, f: add(mul(c, e), mul(sub_(ONE, c), f)), k, s, t), u.dtype)
    if isinstance(a, (tuple, Ref)):
        return I.list_([sel(x, y) for x, y in zip(I.iterate(a), I.iterate(b))])
    return sel(a, b)


@tf('py_func', 'numpy_function', 'py_function')
def t_pyfunc(I, func=None, inp=None, Tout=None, stateful=True, name=None):
    xs = [conv(I, x) for x in I.iterate(inp)]
    n = new_node(I, 'py_func', xs, None, None)
    dens = [bound(n, x) for x in xs]
    T = I.simp(Tout)
    multi = isinstance(T, (tuple, Ref))
    touts = [NP.dtname(I, t) for t in I.iterate(T)] if multi else [NP.dtname(I, T)]
    n.dtype = touts[0]
    n.info = ('py_func', func)
    if any(d is None for d in dens):
        return n
    args = []
    for d, x in zip(dens, xs):
        args.append(NP.wrap(I, d, x.dtype) if d.rank == 0 else I.nd(d, x.dtype))
    r = I.simp(I.call(func, args, {}))
    if multi:
        rs = I.iterate(r) if isinstance(r, (tuple, Ref)) and not NP.is_arr(I, r) else [r]
        outs = []
        for k, (x, t) in enumerate(zip(rs, touts)):
            o = n if k == 0 else new_node(I, 'py_func', xs, t)
            if k:
                o.reads = list(n.reads)
            o.dtype = t
            o.den = NP.den_of(I, x)[0] if not isinstance(x, (Opq, MuVal)) else None
            outs.append(o)
        return I.list_(outs)
    if isinstance(r, (Opq, MuVal)):
        n.den = None
    else:
        n.den = I.cut(NP.den_of(I, r)[0])
    return n


@tf('summary.scalar', 'scalar_summary')
def t_sscalar(I, name, tensor=None, collections=None, family=None, **kw):
    x = conv(I, tensor)
    return add_sum(I, 'ScalarSummary', name, x, collections)


@tf('summary.histogram', 'summary.tensor_summary', 'summary.image')
def t_shist(I, name, values=None, collections=None, family=None, **kw):
    x = conv(I, values if values is not None else kw.get('tensor'))
    return add_sum(I, 'Summary', name, x, collections)


def add_sum(I, op, name, x, collections):
    if op == 'ScalarSummary' and x.ss is not None and len(x.ss) != 0:
        I.raise_('InvalidArgumentError', 'scalar summary of a non-scalar')
    n = new_node(I, op, [x], 'string')
    bound(n, x)
    n.ss = ()
    n.info = ('summary', I.lib_py.txt(I, I.simp(name)), x)
    c = I.simp(collections)
    keys = ['summaries'] if c is None else [coll_key(I, k) for k in I.iterate(c)]
    for k in keys:
        add_collection(I, graph(I), k, n)
    return n


@tf('summary.merge', 'merge_summary')
def t_smerge(I, inputs, collections=None, name=None):
    xs = [conv(I, x) for x in I.iterate(inputs)]
    n = new_node(I, 'MergeSummary', xs, 'string')
    n.ss = ()
    n.info = ('merge', xs)
    return n


@tf('summary.merge_all', 'merge_all_summaries')
def t_smerge_all(I, key=None, scope=None, name=None):
    xs = I.iterate(get_collection(I, graph(I), key if key is not None else 'summaries'))
    if not xs:
        return None
    n = new_node(I, 'MergeSummary', xs, 'string')
    n.ss = ()
    n.info = ('merge', list(xs))
    I.log.append((I.pg, 'merge_all', n, I.site()))
    return n


@tf('summary.FileWriter', 'train.SummaryWriter')
def t_writer(I, logdir=None, graph=None, max_queue=10, flush_secs=120, graph_def=None, filename_suffix=None, session=None, **kw):
    I.may_raise('OSError', 'FileWriter')
    r = I.new('inst', {'closed': False, 'path': logdir, 'opened_at': repr(I.site())}, None, 'writer')
    I.log.append((I.pg, 'writer', (r, logdir), I.site()))
    return r


@tf('TensorShape')
def t_tshape(I, dims=None):
    return ShapeV(to_ss(I, dims))


@tf('Dimension')
def t_dim(I, d):
    return DimV(None if I.simp(d) is None else to_poly(I.num(d)))


@tf('as_dtype')
def t_asdtype(I, x):
    return DType(NP.dtname(I, x))


@tf('executing_eagerly')
def t_eager(I):
    return False


@tf('is_tensor', 'contrib.framework.is_tensor')
def t_is_tensor(I, x):
    return is_tensor(I.simp(x))


@tf('Assert', 'assert_equal', 'assert_greater', 'assert_less', 'assert_rank', 'check_numerics', 'assert_positive',
    'debugging.assert_equal', 'assert_non_negative')
def t_assert(I, *a, **kw):
    xs = [conv(I, x) for x in a if is_tensor(I.simp(x))]
    n = new_node(I, 'Assert', xs, None)
    for x in xs:
        bound(n, x)
    n.isop = True
    return n


@tf('zeros_initializer_')
def _unused(I):
    return None


@tf('map_fn', 'while_loop', 'foldl', 'foldr', 'scan', 'gradients', 'dynamic_stitch')
def t_unmodelled(I, *a, **kw):
    raise Undecided('control flow or gather over data')
