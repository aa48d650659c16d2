"""numpy transfer functions over denotations."""
from fractions import Fraction
from .values import *
from .alg import *
from . import alg, bdd
from . import den as D
from .den import Den, ShapeErr, Undecided

AND, OR, NOT = bdd.AND, bdd.OR, bdd.NOT
INTS = ('int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'bool')
RANK = {'bool': 0, 'uint8': 1, 'int8': 1, 'int16': 2, 'int32': 3, 'int64': 4, 'int': 4, 'float16': 5, 'float32': 6, 'float64': 7,
        'float': 7, 'complex64': 8, 'complex128': 9}


def is_arr(I, v):
    if isinstance(v, NView):
        return True
    return isinstance(v, Ref) and I.obj(v).kind == 'ndarray'


def is_npscalar(v):
    return isinstance(v, SVal) and v.dtype not in ('int', 'float', 'bool')


def view_den(d, keys):
    """apply per-axis specs to a Den"""
    ax = 0
    for sp in keys:
        if sp[0] == 'i':
            d = D.take(d, ax, sp[1])
        else:
            _, start, size, step = sp
            d = D.slice_axis(d, ax, start, size, step)
            ax += 1
    return d


def den_of(I, v):
    """(Den, dtype) of an array-like"""
    v = I.simp(v)
    if isinstance(v, NView):
        d, dt = den_of(I, v.ref)
        return view_den(d, v.keys), dt
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'ndarray':
            if o.info and o.info[0] == 'view':
                return view_now(I, v, o)
            return o.data
        if o.kind == 'alt':
            raise Unsupported('array-like with alternatives')
    if isinstance(v, bool) or isinstance(v, BVal):
        return D.scalar(to_poly(I.num(v))), 'bool'
    if isinstance(v, int):
        return D.scalar(const(v)), 'int64'
    if isinstance(v, Fraction):
        return D.scalar(const(v)), 'float64'
    if isinstance(v, float):
        if v == float('inf'):
            return D.scalar(sym('inf', 'p')), 'float64'
        return D.scalar(sym('nan')), 'float64'
    if isinstance(v, SVal):
        dt = {'int': 'int64', 'float': 'float64'}.get(v.dtype, v.dtype)
        return D.scalar(v.poly), dt
    if isinstance(v, DimV):
        return D.scalar(to_poly(I.num(v))), 'int64'
    if isinstance(v, ShapeV):
        if v.dims is None or any(x is None for x in v.dims):
            raise Unsupported('unknown static shape')
        return D.stack([D.scalar(x) for x in v.dims], 0) if v.dims else D.full([0], 0), 'int64'
    if isinstance(v, GVal):
        try:
            p = I.num(v)
            return D.scalar(to_poly(p)), 'float64'
        except Unsupported:
            raise Unsupported('array-like with alternatives')
    if isinstance(v, (tuple, RangeV)) or isinstance(v, (Ref, GenV)):
        if isinstance(v, Ref) and I.obj(v).kind not in ('list', 'dict', 'set'):
            raise Unsupported('not array-like: %r' % (v,))
        items = I.iterate(v)
        if not items:
            return D.Den([D.mkaxis(0)], ZERO), 'float64'
        ds = [den_of(I, x) for x in items]
        dt = ds[0][1]
        for _, t in ds[1:]:
            dt = promote(dt, t)
        r0 = ds[0][0].rank
        for d, _ in ds[1:]:
            if d.rank != r0:
                raise ShapeErr('inhomogeneous array-like')
        return D.stack([d for d, _ in ds], 0), dt
    if isinstance(v, (Opq, MuVal)):
        raise Undecided('unknown value %r' % (v,))
    if I.lib_tf.is_tensor(v):
        raise Unsupported('graph tensor used as a numpy array')
    raise Unsupported('not array-like: %r' % (v,))


def promote(a, b):
    if a == b:
        return a
    ra, rb = RANK.get(a, 10), RANK.get(b, 10)
    if {a, b} & {'float32', 'float16'} and {a, b} & {'int32', 'int64', 'int'}:
        return 'float64'
    return a if ra >= rb else b


def weak(v):
    return isinstance(v, (bool, int, Fraction, float)) or (isinstance(v, SVal) and v.dtype in ('int', 'float', 'bool')) \
        or isinstance(v, (BVal, DimV))


def rdt(a, ta, b, tb):
    """numpy 2 promotion with weak python scalars"""
    wa, wb = weak(a), weak(b)
    if wa and not wb:
        if ta == 'float64' and tb in INTS:
            return 'float64'
        return tb if not (tb == 'bool' and ta != 'bool') else ta
    if wb and not wa:
        if tb == 'float64' and ta in INTS:
            return 'float64'
        return ta if not (ta == 'bool' and tb != 'bool') else tb
    return promote(ta, tb)


def scal(I, p, dt):
    """python/numpy scalar value"""
    if dt in INTS and dt != 'bool':
        return I.mknum(p, 'int')
    if dt == 'bool':
        return I.boolval(bdd.of_poly(p))
    c = p.const() if isinstance(p, Poly) else p
    if c is not None:
        return Fraction(c)
    return SVal(p, dt)


def wrap(I, d, dt):
    """result array; rank-0 results are numpy scalars"""
    if d.rank == 0:
        return scal(I, d.body, dt)
    return I.nd(d, dt)


def wrapalias(I, d, dt, src, fn=None, inv=None, sure=True):
    """result sharing memory with src.  fn recomputes it from the current
    content of src, inv(new content, content of src) is the content src gets
    when the whole result is overwritten.  Not sure: NumPy may have copied."""
    if d.rank == 0:
        return scal(I, d.body, dt)
    root = src.ref if isinstance(src, NView) else src
    if not (isinstance(root, Ref) and I.obj(root).kind == 'ndarray'):
        return I.nd(d, dt)
    snap = den_of(I, src)[0] if not isinstance(src, NView) else I.obj(src.ref).data[0]
    return I.new('ndarray', (d, dt), None, ('view', src, fn, inv, sure, snap))


def alias_shape(I, d, dt, src, r, sure=True):
    """result r is a re-shaping of src"""
    return wrapalias(I, r, dt, src, lambda q: D.reshape(q, r.shape), lambda q, old: D.reshape(q, d.shape), sure)


def alias_perm(I, d, dt, src, perm):
    inv = [perm.index(i) for i in range(len(perm))]
    return wrapalias(I, D.transpose(d, perm), dt, src, lambda q: D.transpose(q, perm), lambda q, old: D.transpose(q, inv))


def contiguous(I, o):
    """a reshape of o is known to share its memory"""
    if isinstance(o, NView):
        return False
    if isinstance(o, Ref):
        ob = I.obj(o)
        if ob.info and ob.info[0] == 'view':
            return ob.info[4] == 'shape' and contiguous(I, ob.info[1])
        return ob.cls == 'C'
    return False


def view_now(I, ref, o):
    """current content of an array that shares the memory of another"""
    _, parent, fn, inv, sure, snap = o.info
    pd = den_of(I, parent)[0]
    now = I.obj(parent.ref).data[0] if isinstance(parent, NView) else pd
    if now is snap:
        return o.data
    vc = I.__dict__.setdefault('_vc', {})
    hit = vc.get(ref.id)
    if hit is not None and hit[0] is now:
        return hit[1], o.data[1]
    if sure and fn is not None:
        d = fn(pd)
    elif now.key() == snap.key():
        d = o.data[0]
    else:
        d = lost_den(I, o.data[0], 'array that may or may not share the memory of a changed array')
    vc[ref.id] = (now, d)
    return d, o.data[1]


def lost_den(I, d, why):
    I.opq(why)
    I._tn = getattr(I, '_tn', 0) + 1
    b = Base('?arr%d' % I._tn, K(('taint', I._tn)), d.rank, kind='opaque', shape=d.shape)
    return D.from_base(b, d.shape)


def write(I, o, d):
    """overwrite the whole content of an array"""
    if isinstance(o, NView):
        store(I, o.ref, o.keys, I.nd(d, I.obj(o.ref).data[1]))
        return
    ob = I.obj(o)
    if ob.info and ob.info[0] == 'view':
        _, parent, fn, inv, sure, snap = ob.info
        old = den_of(I, parent)[0]
        if not sure or inv is None:
            taint(I, parent)
            # what this array holds now is known only if it was a copy
            I.put(o, ob.with_((lost_den(I, ob.data[0], 'store through an array that may share memory'), ob.data[1])))
            return
        write(I, parent, inv(d, old))
        return
    I.put(o, ob.with_((I.cut(d), ob.data[1])))


def protect(I, what, fn):
    try:
        return fn()
    except ShapeErr as e:
        I.raise_('ValueError', '%s: %s' % (what, e))
    except Undecided as e:
        return I.opq('%s: %s' % (what, e), 'ndarray')
    except alg.TooBig:
        return I.opq('%s: value too large to track' % what, 'ndarray')


EWB = {'Add': add, 'Sub': sub_, 'Mult': mul, 'Div': lambda x, y: mul(x, power(y, -1))}


def ew_poly(op, dt):
    if op in EWB:
        return EWB[op]
    if op == 'FloorDiv':
        return lambda x, y: func('floordiv', [x, y])
    if op == 'Mod':
        return lambda x, y: func('mod', [x, y])
    if op == 'Pow':
        def pw(x, y):
            c = y.const()
            if c is None:
                return func('pow', [x, y])
            return power(x, c)
        return pw
    if op == 'BitAnd' and dt == 'bool':
        return mul
    if op == 'BitOr' and dt == 'bool':
        return lambda x, y: sub_(add(x, y), mul(x, y))
    return None


def binop(I, op, a, b):
    if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
        return Opq('numpy operator on unknown', I.site(), 'ndarray')
    if a is None or b is None:
        I.raise_('TypeError', 'unsupported operand type for %s: NoneType' % op)

    def go():
        x, tx = den_of(I, a)
        y, ty = den_of(I, b)
        if op == 'MatMult':
            return wrap(I, D.npmatmul(x, y), promote(tx, ty))
        dt = rdt(a, tx, b, ty)
        if op == 'Div' and dt in INTS:
            dt = 'float64'
        f = ew_poly(op, dt)
        if f is None:
            raise Undecided('operator ' + op)
        return wrap(I, D.ew(f, x, y), dt)
    return protect(I, op, go)


def scalar_op(I, op, a, b):
    return binop(I, op, a, b)


def unary(I, op, v):
    def go():
        d, dt = den_of(I, v)
        if op == 'USub':
            return wrap(I, D.ew(lambda p: -p, d), dt)
        if op == 'UAdd':
            return wrap(I, d, dt)
        if op == 'Invert' and dt == 'bool':
            return wrap(I, D.ew(lambda p: sub_(ONE, p), d), dt)
        raise Undecided(op)
    return protect(I, op, go)


CMPP = {
    'Lt': lambda x, y: lt0(sub_(x, y)), 'Gt': lambda x, y: lt0(sub_(y, x)),
    'LtE': lambda x, y: sub_(ONE, lt0(sub_(y, x))), 'GtE': lambda x, y: sub_(ONE, lt0(sub_(x, y))),
    'Eq': lambda x, y: eq0(sub_(x, y)), 'NotEq': lambda x, y: sub_(ONE, eq0(sub_(x, y)))}


def compare(I, op, a, b):
    if isinstance(b, (str, StrV)) or b is None:
        return op == 'NotEq'
    if isinstance(a, (str, StrV)) or a is None:
        return op == 'NotEq'
    if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
        return Opq('comparison with unknown', I.site(), 'ndarray')

    def go():
        x, tx = den_of(I, a)
        y, ty = den_of(I, b)
        return wrap(I, D.ew(CMPP[op], x, y), 'bool')
    return protect(I, 'comparison', go)


# ------------------------------------------------------------------ indexing

def norm_key(I, k):
    if isinstance(k, tuple):
        return list(k)
    return [k]


def is_intlike(I, k):
    return isinstance(k, (int, SVal, DimV)) and not isinstance(k, bool)


def slice_spec(I, s, n):
    """(start, size, step) polys of a python slice over size n"""
    def g(x):
        x = I.simp(x)
        return None if x is None else to_poly(I.num(x))
    st, en, step = g(s.start), g(s.stop), g(s.step)
    stp = 1 if step is None else step.as_int()
    if stp is None:
        raise Undecided('symbolic slice step')
    ni = n.as_int()

    def fix(x):
        c = x.as_int()
        if c is not None:
            if c < 0:
                x = add(x, n)
            if ni is not None:
                c = c + ni if c < 0 else c
                lo, hi = (0, ni) if stp > 0 else (-1, ni - 1)
                x = const(max(lo, min(hi, c)))
        return x
    if stp > 0:
        a = ZERO if st is None else fix(st)
        b = n if en is None else fix(en)
        span = sub_(b, a)
        if stp == 1:
            c = span.as_int()
            if c is not None and c < 0:
                span = ZERO
            return a, span, 1
        c = span.as_int()
        if c is None:
            raise Undecided('strided slice of symbolic size')
        return a, const(max(0, -(-c // stp))), stp
    a = sub_(n, ONE) if st is None else fix(st)
    b = const(-1) if en is None else fix(en)
    span = sub_(a, b)
    c = span.as_int()
    if c is not None:
        return a, const(max(0, -(-c // -stp))), stp
    if stp == -1:
        return a, span, -1
    raise Undecided('strided slice of symbolic size')


def int_index(I, k, n):
    p = to_poly(I.num(k))
    c = p.as_int()
    ni = n.as_int()
    if c is not None:
        if ni is not None and not -ni <= c < ni:
            I.raise_('IndexError', 'index %d is out of bounds for axis with size %d' % (c, ni))
        if c < 0:
            p = add(p, n)
    return p


def expand_key(I, ks, rank):
    """insert full slices for Ellipsis and missing axes; None stays"""
    n = len([k for k in ks if k is not None and k is not Ellipsis])
    out = []
    seen = False
    for k in ks:
        if k is Ellipsis:
            if not seen:
                out += [SliceV(None, None, None)] * (rank - n)
                seen = True
        else:
            out.append(k)
    if not seen:
        out += [SliceV(None, None, None)] * (rank - n)
    if n > rank:
        I.raise_('IndexError', 'too many indices for array: array is %d-dimensional, but %d were indexed' % (rank, n))
    return out


def getitem(I, o, k):
    if isinstance(k, (Opq, MuVal)):
        return Opq('unknown index', I.site())

    def go():
        d, dt = den_of(I, o)
        ks = expand_key(I, masks(I, [I.simp(x) for x in norm_key(I, k)]), d.rank)
        basic = all(is_intlike(I, x) or isinstance(x, SliceV) for x in ks)
        if basic:
            specs = []
            for ax, x in enumerate(ks):
                n = d.size(ax)
                if isinstance(x, SliceV):
                    a, sz, st = slice_spec(I, x, n)
                    specs.append(('s', a, sz, st))
                else:
                    specs.append(('i', int_index(I, x, n)))
            if all(s[0] == 'i' for s in specs):
                return scal(I, view_den(d, specs).body, dt)
            root, full = compose(I, o, specs)
            return NView(root, full)
        if all(is_intlike(I, x) or isinstance(x, SliceV) or x is None for x in ks):
            real = tuple(x for x in ks if x is not None)
            sub = getitem(I, o, real) if not all(x == SliceV(None, None, None) or isinstance(x, SliceV) and x.start is None
                                                 and x.stop is None and x.step is None for x in real) else o
            dd = d0 = den_of(I, sub)[0]
            ax = 0
            for x in ks:
                if x is None:
                    dd = D.expand_dims(dd, ax)
                    ax += 1
                elif isinstance(x, SliceV):
                    ax += 1
            return alias_shape(I, d0, dt, sub, dd)
        return fancy_get(I, d, dt, ks)
    return protect(I, 'indexing', go)


def compose(I, o, specs):
    """root array and per-root-axis specs for o[specs]"""
    if isinstance(o, NView):
        it = iter(specs)
        full = []
        for sp in o.keys:
            if sp[0] == 'i':
                full.append(sp)
            else:
                _, a, sz, st = sp
                n = next(it)
                if n[0] == 'i':
                    full.append(('i', add(a, scale(n[1], Fraction(st)))))
                else:
                    full.append(('s', add(a, scale(n[1], Fraction(st))), n[2], st * n[3]))
        return o.ref, tuple(full)
    return o, tuple(specs)


def entries(d, limit=64):
    """the constant entries of a small array in row-major order, or None"""
    sh = [q.as_int() for q in d.shape]
    n = 1
    for q in sh:
        if q is None:
            return None
        n *= q
    if n > limit:
        return None
    f = D.reshape(d, [-1]) if d.rank else d
    out = []
    for i in range(n):
        c = (D.take(f, 0, const(i) if f.axes[0] else ZERO).body if d.rank else f.body).const()
        if c is None:
            return None
        out.append(c)
    return out


def in_range(I, xd, n):
    """index array with negative entries resolved; an entry outside is an IndexError"""
    es = entries(xd)
    if not es:
        return xd
    c = n.as_int()
    if c is not None:
        for e in es:
            if not -c <= e < c:
                I.raise_('IndexError', 'index %s is out of bounds for axis with size %d' % (e, c))
    if all(e >= 0 for e in es):
        return xd
    if xd.rank == 0:
        return D.scalar(add(n, xd.body))
    r = D.stack([D.scalar(const(e) if e >= 0 else add(n, const(e))) for e in es], 0)
    return D.reshape(r, xd.shape)


def masks(I, ks):
    """boolean masks with known entries, as the index arrays they stand for"""
    out = []
    for x in ks:
        if is_arr(I, x) or isinstance(x, (Ref, tuple)) and not isinstance(x, SliceV):
            try:
                m, mt = den_of(I, x)
            except Unsupported:
                out.append(x)
                continue
            if mt == 'bool' and m.rank >= 1:
                es = entries(m)
                if es is not None:
                    import itertools
                    sh = [q.as_int() for q in m.shape]
                    pos = [ix for ix, e in zip(itertools.product(*[range(q) for q in sh]), es) if e]
                    for a in range(m.rank):
                        out.append(int_arr(I, [ix[a] for ix in pos]))
                    continue
        out.append(x)
    return out


def fancy_get(I, d, dt, ks):
    idx = []
    pos = None
    nonadj = False
    last = None
    axes_idx = []
    for ax, x in enumerate(ks):
        if isinstance(x, SliceV):
            continue
        if x is None:
            raise Undecided('newaxis with fancy index')
        xd, xt = den_of(I, x)
        if xt == 'bool':
            raise Undecided('boolean mask indexing')
        axes_idx.append(ax)
        idx.append(in_range(I, xd, d.size(ax)))
    adj = all(b == a + 1 for a, b in zip(axes_idx, axes_idx[1:]))
    baxes, bodies = D.broadcast(idx)
    cur = D.fresh(d)
    keep = []
    mp = {}
    for ax, x in enumerate(ks):
        if isinstance(x, SliceV):
            a, sz, st = slice_spec(I, x, cur.size(ax))
            cur = D.slice_axis(cur, ax, a, sz, st)
            keep.append(ax)
    body = cur.body
    it = iter(bodies)
    for ax in axes_idx:
        p = next(it)
        n = cur.size(ax)
        c = p.as_int()
        if c is not None and c < 0:
            p = add(p, n)
        g = cur.axes[ax]
        if len(g) == 1:
            mp[g[0]] = p
        elif g:
            stride = ONE
            for v in reversed(g):
                mp[v] = unflat(p, stride, v.size)
                stride = mul(stride, v.size)
    body = subst(body, mp)
    axes = []
    if adj:
        for ax in range(d.rank):
            if ax in axes_idx:
                if ax == axes_idx[0]:
                    axes += list(baxes)
            else:
                axes.append(cur.axes[ax])
    else:
        axes = list(baxes) + [cur.axes[ax] for ax in keep]
    return wrap(I, Den(axes, body), dt)


def setitem(I, o, k, v):
    if isinstance(k, (Opq, MuVal)):
        taint(I, o)
        return

    def go():
        d, dt = den_of(I, o)
        ks = [I.simp(x) for x in norm_key(I, k)]
        if len(ks) == 1 and is_arr(I, ks[0]):
            m, mt = den_of(I, ks[0])
            x, tx = den_of(I, v)
            if mt == 'bool' and m.rank == d.rank and not x.rank:
                nd = D.ew(lambda c, new, old: add(mul(c, new), mul(sub_(ONE, c), old)), m, x, d)
                store_all(I, o, nd)
                return
        ks = expand_key(I, masks(I, ks), d.rank)
        if all(is_intlike(I, x) or isinstance(x, SliceV) for x in ks):
            specs = []
            for ax, x in enumerate(ks):
                n = d.size(ax)
                if isinstance(x, SliceV):
                    a, sz, st = slice_spec(I, x, n)
                    specs.append(('s', a, sz, st))
                else:
                    specs.append(('i', int_index(I, x, n)))
            root, full = compose(I, o, specs)
            store(I, root, full, v)
            return
        # integer-array store, element by element in order
        axi = [ax for ax, x in enumerate(ks) if not isinstance(x, SliceV)]
        if any(x is None for x in ks):
            raise Undecided('fancy store with newaxis')
        idx = [(in_range(I, den_of(I, ks[ax])[0], d.size(ax)), den_of(I, ks[ax])[1]) for ax in axi]
        if any(t == 'bool' for _, t in idx):
            raise Undecided('mask store')
        baxes, bodies = D.broadcast([x for x, _ in idx])
        x, tx = den_of(I, v)
        adj = all(b == a + 1 for a, b in zip(axi, axi[1:]))
        shape = [D.gsize(g) if g else ONE for g in baxes]
        sh = [q.as_int() for q in shape]
        n = 1
        for q in sh:
            n = None if q is None or n is None else n * q
        if n is None or n > 64:
            raise Undecided('fancy store of symbolic length')
        # shape of the selected region, to which the value is broadcast
        rest = [(ax, slice_spec(I, kx, d.size(ax))) for ax, kx in enumerate(ks) if isinstance(kx, SliceV)]
        lead = [sp[1] for ax, sp in rest if adj and ax < axi[0]]
        tail = [sp[1] for ax, sp in rest if not (adj and ax < axi[0])]
        region = lead + shape + tail
        vals = D.ew(lambda q: q, x)
        while vals.rank > len(region) and not vals.axes[0]:
            vals = D.squeeze(vals, [0])
        if vals.rank > len(region):
            raise ShapeErr('could not broadcast the value into the selected region')
        if vals.rank > len(tail):
            # the value has axes for the index arrays: give it all of them
            z = D.full(region, 0)
            for q in range(1, vals.rank + 1):
                if vals.axes[vals.rank - q] and not D.same_size(vals.size(vals.rank - q), region[-q]):
                    raise ShapeErr('could not broadcast the value into the selected region')
            vals = D.ew(add, z, vals)
            at = len(lead)
        else:
            at = None
        import itertools
        for ix in itertools.product(*[range(q) for q in sh]):
            sp = list(ks)
            full_specs = dict((ax, ('s',) + tuple(q)) for ax, q in rest)
            specs = []
            pos = {}
            for ax, bdy in zip(axi, bodies):
                t = Den(baxes, bdy)
                for i in ix:
                    t = D.take(t, 0, const(i) if t.axes[0] else ZERO)
                pos[ax] = t.body
            for ax in range(d.rank):
                specs.append(('i', pos[ax]) if ax in pos else full_specs[ax])
            w = vals
            if at is not None:
                for i in ix:
                    w = D.take(w, at, const(i) if w.axes[at] else ZERO)
            root, full = compose(I, o, specs)
            store(I, root, full, wrap(I, w, tx))
    try:
        r = protect(I, 'item assignment', go)
    except Unsupported as e:
        r = I.opq('item assignment: %s' % e)
    if isinstance(r, Opq):
        taint(I, o)


def taint(I, o):
    while True:
        root = o.ref if isinstance(o, NView) else o
        ob = I.obj(root)
        if not (ob.info and ob.info[0] == 'view'):
            break
        I.put(root, ob.with_((lost_den(I, ob.data[0], 'store at an unknown place'), ob.data[1])))
        o = ob.info[1]
    d, dt = ob.data
    I.put(root, ob.with_((lost_den(I, d, 'store at an unknown place'), dt)))


def inplace(I, op, a, b):
    """a op= b on an array: its memory changes, its shape and dtype do not"""
    try:
        r = binop(I, op, a, b)
        if isinstance(r, (Opq, MuVal)):
            taint(I, a)
            return
        (d, dt), (od, odt) = den_of(I, r), den_of(I, a)
    except Unsupported as e:
        I.opq('in-place %s: %s' % (op, e))
        taint(I, a)
        return
    if odt in INTS and dt not in INTS and dt != 'bool':
        I.raise_('TypeError', 'cannot cast the result of an in-place %s from %s to %s' % (op, dt, odt))
    if d.rank != od.rank or any(not D.same_size(p, q) for p, q in zip(d.shape, od.shape)):
        I.raise_('ValueError', 'non-broadcastable output operand')
    write(I, a, d)


def store_all(I, o, nd):
    write(I, o, nd)


def store_view(I, view, val):
    store(I, view.ref, view.keys, val)


def store(I, root, specs, v):
    d, dt = den_of(I, root)
    d = D.fresh(d)
    x, tx = den_of(I, v)
    if tx not in INTS and dt in INTS:
        x = D.ew(lambda p: p if is_integer(p) else func('trunc', [p]), x)
    cond = ONE
    sl = []
    for ax, sp in enumerate(specs):
        L = D.linear(d.axes[ax])
        if sp[0] == 'i':
            if d.axes[ax]:
                cond = mul(cond, eq0(sub_(L, sp[1])))
        else:
            _, a, sz, st = sp
            full = a.const() == 0 and st == 1 and sz == d.size(ax)
            if st == 1:
                p = sub_(L, a)
                if not full and d.axes[ax]:
                    cond = mul(cond, sub_(lt0(sub_(p, sz)), lt0(p)))
            elif st == -1:
                p = sub_(a, L)
                if d.axes[ax]:
                    cond = mul(cond, sub_(lt0(sub_(p, sz)), lt0(p)))
            else:
                c = [q.as_int() for q in (a, sz)]
                if None in c or c[1] > 64 or d.rank < 1:
                    raise Undecided('strided store')
                ax_v = ax - sum(1 for q in specs[:ax] if q[0] == 'i')
                left = len(specs) - sum(1 for q in specs if q[0] == 'i')
                pos = x.rank - (left - ax_v)
                if pos >= 0 and x.axes[pos] and D.gsize(x.axes[pos]).as_int() not in (c[1], 1):
                    raise ShapeErr('could not broadcast into the selected region')
                if x.rank > left:
                    raise Undecided('strided store of a value of higher rank')
                for i in range(c[1]):
                    xi = x
                    if pos >= 0:
                        xi = D.take(x, pos, const(i) if x.axes[pos] else ZERO)
                    store(I, root, tuple(specs[:ax]) + (('i', const(c[0] + st * i)),) + tuple(specs[ax + 1:]), wrap(I, xi, tx))
                return
            sl.append((p, sz, full, d.axes[ax]))
    # broadcast the value over the sliced axes
    if x.rank > len(sl):
        lead = x.rank - len(sl)
        if any(x.axes[i] for i in range(lead)):
            raise ShapeErr('could not broadcast value into the selected region')
        x = D.squeeze(x, list(range(lead)))
    x = D.fresh(x)
    mp = {}
    for g, (p, sz, full, dg) in zip(x.axes, sl[len(sl) - x.rank:]):
        if not g:
            continue
        if not D.same_size(D.gsize(g), sz):
            raise ShapeErr('could not broadcast size %r into %r' % (D.gsize(g), sz))
        if full:
            mp.update(D.group_map(g, dg))
        elif len(g) == 1:
            mp[g[0]] = p
        else:
            stride = ONE
            for w in reversed(g):
                mp[w] = unflat(p, stride, w.size)
                stride = mul(stride, w.size)
    val = subst(x.body, mp)
    body = add(mul(cond, val), mul(sub_(ONE, cond), d.body))
    write(I, root, Den(d.axes, body))


# ------------------------------------------------------------------ attributes

def shape_tuple(I, d):
    return tuple(I.mknum(s) for s in d.shape)


def dtype_eq(a, b):
    def nm(x):
        if isinstance(x, DType):
            return x.name
        if isinstance(x, BType):
            return {'float': 'float64', 'int': 'int64', 'bool': 'bool'}.get(x.name, x.name)
        if isinstance(x, str):
            return x
        if isinstance(x, Ext):
            return x.path.split('.')[-1]
        return None
    return nm(a) is not None and nm(a) == nm(b)


def dtname(I, t, default=None):
    t = I.simp(t)
    if t is None:
        return default
    if isinstance(t, DType):
        return t.name.replace('_ref', '')
    if isinstance(t, BType):
        return {'float': 'float64', 'int': 'int64', 'bool': 'bool'}.get(t.name, t.name.split('.')[-1])
    if isinstance(t, str):
        return {'float': 'float64', 'int': 'int64', 'f4': 'float32', 'f8': 'float64'}.get(t, t)
    if isinstance(t, Ext):
        return t.path.split('.')[-1]
    return default


def dtype_attr(I, o, name, miss):
    if name in ('name',):
        return o.name
    if name in ('base_dtype', 'as_numpy_dtype', 'type', 'real_dtype'):
        return DType(o.name.replace('_ref', ''))
    if name == 'is_floating':
        return o.name.startswith('float')
    if name == 'is_integer':
        return o.name.startswith(('int', 'uint'))
    if name == 'kind':
        return 'f' if o.name.startswith('float') else 'i'
    if name in ('itemsize', 'size'):
        return {'float64': 8, 'int64': 8, 'float32': 4, 'int32': 4, 'bool': 1}.get(o.name, 4)
    return miss()


def attr(I, o, name, miss):
    d, dt = den_of(I, o)
    if name == 'shape':
        return shape_tuple(I, d)
    if name == 'ndim':
        return d.rank
    if name == 'size':
        return I.mknum(D.gsize([v for g in d.axes for v in g]))
    if name == 'dtype':
        return DType(dt)
    if name == 'T':
        return alias_perm(I, d, dt, o, list(range(d.rank))[::-1])
    if name == 'flat':
        return alias_shape(I, d, dt, o, D.reshape(d, [-1]))
    if name in METH:
        def call(I, a, kw):
            return call_np(I, METH[name], [o] + a, kw)
        return Builtin('ndarray.' + name, call)
    if name == 'reshape':
        def rs(I, a, kw):
            a = [x for x in a]
            sh = a[0] if len(a) == 1 else tuple(a)
            return call_np(I, 'reshape', [o, sh], kw)
        return Builtin('ndarray.reshape', rs)
    if name == 'transpose':
        def tr(I, a, kw):
            if kw.get('axes') is not None:
                a = [kw['axes']]
            if not a or a[0] is None:
                return call_np(I, 'transpose', [o], {})
            return call_np(I, 'transpose', [o, a[0] if len(a) == 1 and not isinstance(a[0], int) else tuple(a)], {})
        return Builtin('ndarray.transpose', tr)
    if name == 'astype':
        return Builtin('ndarray.astype', lambda I, a, kw: wrap(I, cast(den_of(I, o)[0], dt, dtname(I, a[0] if a else kw.get('dtype'))),
                                                              dtname(I, a[0] if a else kw.get('dtype'))))
    if name == 'tolist':
        return Builtin('ndarray.tolist', lambda I, a, kw: tolist(I, o))
    if name == 'item':
        def item(I, a, kw):
            d, dt = den_of(I, o)
            if a:
                k = I.simp(a[0]) if len(a) == 1 else tuple(a)
                if not isinstance(k, tuple):
                    return getitem(I, o if d.rank == 1 else call_np(I, 'ravel', [o], {}), k)
                if len(k) == 1 and d.rank != 1:
                    return getitem(I, call_np(I, 'ravel', [o], {}), k)
                if len(k) != d.rank:
                    I.raise_('ValueError', 'incorrect number of indices for array')
                return getitem(I, o, k)
            if any(g for g in d.axes):
                I.raise_('ValueError', 'can only convert an array of size 1 to a Python scalar')
            return scal(I, d.body, dt)
        return Builtin('ndarray.item', item)
    if name == 'fill':
        def fill(I, a, kw):
            x, tx = den_of(I, a[0])
            d, dt = den_of(I, o)
            store_all(I, o, Den(d.axes, x.body))
        return Builtin('ndarray.fill', fill)
    if name == 'resize':
        def rz(I, a, kw):
            sh = a[0] if len(a) == 1 else tuple(a)
            ob = I.obj(o) if isinstance(o, Ref) else None
            if ob is None or ob.info:
                I.raise_('ValueError', 'cannot resize this array: it does not own its data')
            d, dt = den_of(I, o)
            try:
                r = D.reshape(d, shape_arg(I, sh))
            except (ShapeErr, Undecided):
                raise Unsupported('resize to another number of elements')
            I.put(o, ob.with_((r, dt)))
        return Builtin('ndarray.resize', rz)
    if name == 'tofile' or name == 'setflags':
        return Builtin('ndarray.' + name, lambda I, a, kw: None)
    if name in ('real',):
        return o
    return miss()


METH = {n: n for n in ('sum', 'mean', 'max', 'min', 'prod', 'dot', 'copy', 'ravel', 'squeeze', 'trace', 'all', 'any',
                       'swapaxes', 'repeat', 'clip', 'argsort', 'round', 'conj', 'take', 'diagonal', 'argmax', 'argmin', 'std', 'var', 'nonzero')}
METH['flatten'] = 'copy_ravel'
METH['put'] = 'put'


def tolist(I, o):
    d, dt = den_of(I, o)
    if d.rank == 0:
        return scal(I, d.body, dt)
    n = d.size(0).as_int()
    if n is None:
        return I.opq('tolist of symbolic length', 'list')
    return I.list_([tolist(I, getitem(I, o, i)) for i in range(n)])


def cast(d, src, dst):
    if dst in INTS and dst != 'bool' and src not in INTS:
        return D.ew(lambda p: p if is_integer(p) else func('trunc', [p]), d)
    if dst == 'bool' and src != 'bool':
        return D.ew(lambda p: sub_(ONE, eq0(p)), d)
    return d


# ------------------------------------------------------------------ functions

NPF = {}


def npf(*names):
    def deco(fn):
        for n in names:
            NPF[n] = fn
        return fn
    return deco


# functions that write into their first argument
MUTATES = ('put', 'copyto', 'place', 'putmask', 'put_along_axis', 'fill_diagonal', 'random.shuffle', 'nditer', 'lib.stride_tricks',
           'may_share_memory', 'frompyfunc', 'vectorize', 'apply_along_axis', 'apply_over_axes', 'fromfunction', 'piecewise')
# position of the out argument when given positionally
OUT_POS = {'clip': 3, 'dot': 2, 'sum': 3, 'prod': 3, 'mean': 3, 'max': 2, 'min': 2, 'amax': 2, 'amin': 2, 'any': 2, 'all': 2,
           'cumsum': 3, 'cumprod': 3, 'take': 3, 'round': 2, 'around': 2, 'std': 3, 'var': 3, 'argmax': 2, 'argmin': 2,
           'compress': 3, 'choose': 2, 'trace': 5}
BINARY = ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'mod', 'remainder', 'power', 'matmul',
          'logical_and', 'logical_or', 'logical_xor', 'float_power', 'equal', 'not_equal', 'less', 'greater', 'less_equal',
          'greater_equal', 'maximum', 'minimum', 'fmax', 'fmin', 'fmod', 'arctan2', 'hypot', 'copysign', 'outer_')


def unknown_np(I, path, a, kw, why):
    """a call the analysis has no model for: whatever it may write is unknown"""
    head = path.split('.')[0]
    if path in MUTATES or head in MUTATES or path.endswith('.at') or path.endswith('.shuffle'):
        I.escape(list(a), kw)
    elif 'out' in kw:
        I.escape(kw['out'])
    elif head in BINARY and len(a) > 2:
        I.escape(list(a[2:]))
    elif path in OUT_POS and len(a) > OUT_POS[path]:
        I.escape(list(a))
    elif path not in NPF and path not in UFN and len(a) > 1:
        # a universal function may have been given its result array by position
        I.escape(a[-1])
    r = I.opq(why, 'ndarray')
    r.reach = I.reach(list(a))
    return r


def call_np(I, path, a, kw):
    if path.startswith('lib.') and not path.startswith('lib.stride'):
        path = path[4:]
    a = list(a)
    kw = dict(kw)
    if path in BINARY and len(a) == 3:
        kw['out'] = a.pop()
    elif path in UFN and len(a) == 2:
        kw['out'] = a.pop()
    elif path in OUT_POS and len(a) == OUT_POS[path] + 1:
        kw['out'] = a.pop()
    if kw.get('where', True) is not True and path != 'where':
        if kw.get('out') is None:
            return unknown_np(I, path, a, kw, 'np.%s with where' % path)
    if 'out' in kw:
        out = I.simp(kw.pop('out'))
        if isinstance(out, tuple) and len(out) == 1:
            out = I.simp(out[0])
        if out is not None:
            return into(I, path, a, kw, out)
    return call_np1(I, path, a, kw)


def into(I, path, a, kw, out):
    """np.f(..., out=out)"""
    if isinstance(out, GVal):
        return I.cases(out, lambda y: into(I, path, a, kw, y))
    if isinstance(out, Ref) and I.obj(out).kind == 'alt':
        return I.split_obj(out, lambda: into(I, path, a, kw, out))
    if not is_arr(I, out):
        return unknown_np(I, path, a, dict(kw, out=out), 'np.%s into %r' % (path, out))
    where = I.simp(kw.pop('where', True))
    r = call_np1(I, path, a, kw)
    if isinstance(r, (Opq, MuVal)):
        taint(I, out)
        return out

    def go():
        d, dt = den_of(I, r)
        od, odt = den_of(I, out)
        if d.rank > od.rank:
            raise ShapeErr('result does not fit the out array')
        if odt in INTS and dt not in INTS:
            I.raise_('TypeError', "np.%s: cannot cast output from %s to %s" % (path, dt, odt))
        z = D.full(od.shape, 0)
        for k in range(1, d.rank + 1):
            if not D.same_size(d.size(d.rank - k), od.size(od.rank - k)):
                raise ShapeErr('result does not fit the out array')
        d = D.ew(add, z, d)
        if where is not True:
            m, _ = den_of(I, where)
            d = D.ew(lambda c, new, old: add(mul(c, new), mul(sub_(ONE, c), old)), m, d, od)
        write(I, out, d)
        return out
    try:
        x = protect(I, 'np.' + path, go)
    except Unsupported as e:
        x = I.opq('np.%s: %s' % (path, e), 'ndarray')
    if isinstance(x, Opq):
        taint(I, out)
    return out


# options that do not change the result the analysis tracks
HARMLESS = {'subok', 'casting', 'copy', 'like', 'name', 'kind', 'stable', 'rtol', 'atol', 'device', 'optimize', 'use_locking',
            'validate_shape', 'trainable', 'collections', 'validate_args', 'use_resource', 'caching_device', 'parallel_iterations',
            'swap_memory', 'back_prop', 'a_is_sparse', 'b_is_sparse', 'full_matrices_', 'requirements', 'read_value', 'seed',
            'data', 'message', 'first_n', 'summarize', 'mode_', 'check_finite', 'overwrite_a', 'assume_unique', 'validate_indices',
            'op', 'output_type_', 'partitioner', 'regularizer', 'constraint', 'synchronization', 'aggregation', 'custom_getter',
            # read by the models through **kw
            'input', 'input_tensor', 'diagonal', 'features', 'x', 'a', 'size', 'values', 'default_name', 'auxiliary_name_scope',
            'initializer', 'fmt', 'file', 'arr', 'allow_pickle', 'name_or_scope', 'delta', 'family', 'step', 'encoding',
            'description', 'max_outputs', 'session', 'filename_suffix', 'expected_shape', 'import_scope', 'variable_def'}
DEFAULTS = {'order': ('C', 'K', 'A'), 'keepdims': (False,), 'ndmin': (0,), 'where': (True,), 'dtype': (), 'k': (0,), 'axis': ()}
_SIG = {}


def ignored(I, f, a, kw):
    """options the model of a library function would silently leave out"""
    import inspect
    s = _SIG.get(f)
    if s is None:
        ps = list(inspect.signature(f).parameters.values())[1:]
        named = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}
        _SIG[f] = s = (named, any(p.kind == p.VAR_KEYWORD for p in ps) and not getattr(f, 'forwards', False))
    named, var = s
    if not var:
        return None
    for k, v in kw.items():
        if k in named or k in HARMLESS:
            continue
        v = I.simp(v)
        if v is None or (isinstance(v, (bool, int, str)) and any(v is d or (v == d and type(v) is type(d)) for d in DEFAULTS.get(k, ()))):
            continue
        return k
    return None


def call_np1(I, path, a, kw):
    f = NPF.get(path)
    if f is None:
        if path in UFN:
            return ufn(I, path, *a, **kw)
        if path in ('float32', 'float64', 'int32', 'int64', 'float_', 'int_', 'float16', 'bool_', 'double'):
            return np_cast_fn(I, path, *a)
        if path.startswith('testing.') or path in ('set_printoptions', 'seterr', 'errstate'):
            return None
        return unknown_np(I, path, a, kw, 'numpy function %s' % path)
    a = [I.simp(x) for x in a]
    for i, x in enumerate(a):
        if isinstance(x, GVal):
            return I.cases(x, lambda y: call_np1(I, path, a[:i] + [y] + a[i + 1:], kw))
        if isinstance(x, Ref) and I.obj(x).kind == 'alt':
            return I.split_obj(x, lambda: call_np1(I, path, a, kw))
        if isinstance(x, (Opq, MuVal)):
            if path in MUTATES or path.endswith('.at'):
                I.escape(list(a), kw)
            return Opq('numpy %s of unknown' % path, I.site(), 'ndarray', I.reach(list(a)))
    for k, x in list(kw.items()):
        kw[k] = x = I.simp(x)
        if isinstance(x, GVal):
            return I.cases(x, lambda y: call_np1(I, path, a, dict(kw, **{k: y})))
    for x in a:
        if I.lib_tf.is_tensor(x) and path not in ('shape', 'ndim'):
            I.raise_('NotImplementedError', 'cannot convert a symbolic tensor to a numpy array')
    bad = ignored(I, f, a, kw)
    if bad:
        return unknown_np(I, path, a, kw, 'np.%s with %s' % (path, bad))
    try:
        r = protect(I, 'np.' + path, lambda: f(I, *a, **kw))
    except TypeError as e:
        # wrong arguments for the modelled signature
        return unknown_np(I, path, a, kw, 'numpy call np.%s not modelled: %s' % (path, e))
    except Unsupported as e:
        return unknown_np(I, path, a, kw, 'np.%s: %s' % (path, e))
    if isinstance(r, Opq):
        if path in MUTATES or path.endswith('.at'):
            I.escape(list(a), kw)
        r.reach = r.reach or I.reach(list(a))
    return r


@npf('copyto')
def np_copyto(I, dst, src, casting='same_kind', where=True):
    d, dt = den_of(I, dst)
    x, tx = den_of(I, src)
    if x.rank > d.rank:
        raise ShapeErr('could not broadcast input array')
    z = D.ew(add, D.full(d.shape, 0), x)
    if where is not True:
        m, _ = den_of(I, where)
        z = D.ew(lambda c, new, old: add(mul(c, new), mul(sub_(ONE, c), old)), m, z, d)
    write(I, dst, z)
    return None


def at_fn(op):
    def f(I, x, idx, v=None):
        """x[idx] op= v, once for every index, repeated ones included"""
        d, dt = den_of(I, x)
        if isinstance(idx, Ref) and I.obj(idx).kind == 'list':
            ks = [idx]
        else:
            ks = [I.simp(k) for k in (idx if isinstance(idx, tuple) else (idx,))]
        if len(ks) > d.rank or any(isinstance(k, SliceV) or k is None for k in ks):
            raise Undecided('ufunc.at with slices')
        ds = [den_of(I, k) for k in ks]
        if any(t == 'bool' for _, t in ds):
            raise Undecided('ufunc.at with a mask')
        baxes, bodies = D.broadcast([q for q, _ in ds])
        y, _ = den_of(I, v)
        if not baxes:
            n = 1
            lead = []
        elif len(baxes) == 1:
            n = D.gsize(baxes[0]).as_int() if baxes[0] else 1
        else:
            raise Undecided('ufunc.at with indices of rank %d' % len(baxes))
        if n is None or n > 64:
            raise Undecided('ufunc.at of symbolic length')
        rest = d.rank - len(ks)
        for i in range(n):
            key = []
            for b in bodies:
                key.append(scal(I, D.take(Den(baxes, b), 0, const(i)).body if baxes else b, 'int64'))
            k = tuple(key) + (SliceV(None, None, None),) * rest
            val = y
            if baxes and y.rank == rest + 1:
                val = D.take(y, 0, const(i) if y.axes[0] else ZERO)
            elif y.rank > rest + len(baxes):
                raise ShapeErr('array is not broadcastable to correct shape')
            old = getitem(I, x, k)
            setitem(I, x, k, binop(I, op, old, wrap(I, val, dt)))
        return None
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div')):
    NPF[_n + '.at'] = at_fn(_o)


@npf('put')
def np_put(I, x, ind, v, mode='raise'):
    d, dt = den_of(I, x)
    setitem(I, alias_shape(I, d, dt, x, D.reshape(d, [-1])), ind, v)
    return None


@npf('putmask')
def np_putmask(I, x, mask, v):
    if den_of(I, v)[0].rank:
        raise Undecided('putmask with several values')
    setitem(I, x, mask, v)
    return None


def np_cast_fn(I, name, x=0):
    d, dt = den_of(I, x)
    name = {'float_': 'float64', 'int_': 'int64', 'double': 'float64', 'bool_': 'bool'}.get(name, name)
    r = cast(d, dt, name)
    if r.rank == 0 and name in ('float32', 'float64', 'float16'):
        return SVal(r.body, name)
    return wrap(I, r, name)


def shape_arg(I, s):
    s = I.simp(s)
    if isinstance(s, (int, SVal, DimV)):
        return [to_poly(I.num(s))]
    if is_arr(I, s):
        d, dt = den_of(I, s)
        if d.rank == 0:
            return [d.body]
        n = d.size(0).as_int()
        if n is None:
            raise Undecided('shape of unknown rank')
        return [D.take(d, 0, const(i)).body for i in range(n)]
    return [to_poly(I.num(x)) for x in I.iterate(s)]


def axis_list(I, axis):
    axis = I.simp(axis)
    if axis is None:
        return None
    if isinstance(axis, int):
        return [axis]
    return [I.lib_py.cint(I, x) for x in I.iterate(axis)]


def reduction(kind):
    def f(I, x, axis=None, dtype=None, out=None, keepdims=False, **kw):
        d, dt = den_of(I, x)
        r = D.reduce_(d, kind, axis_list(I, axis), bool(keepdims))
        if kind == 'mean' and dt in INTS:
            dt = 'float64'
        if kind in ('any', 'all'):
            dt = 'bool'
        return wrap(I, r, dtname(I, dtype, dt))
    return f


for _n, _k in (('sum', 'sum'), ('mean', 'mean'), ('max', 'max'), ('amax', 'max'), ('min', 'min'), ('amin', 'min'),
               ('prod', 'prod'), ('product', 'prod'), ('any', 'any'), ('all', 'all'), ('average', 'mean')):
    NPF[_n] = reduction(_k)

UFN = {'sqrt': sqrt, 'square': lambda p: mul(p, p), 'abs': absval, 'absolute': absval, 'fabs': absval, 'negative': lambda p: -p,
       'exp': lambda p: func('exp', [p]), 'log': lambda p: func('log', [p]), 'sign': lambda p: sub_(lt0(-p), lt0(p)),
       'floor': lambda p: p if is_integer(p) else func('floor', [p]), 'ceil': lambda p: p if is_integer(p) else func('ceil', [p]),
       'reciprocal': lambda p: power(p, -1), 'positive': lambda p: p, 'conj': lambda p: p, 'real': lambda p: p,
       'isnan': lambda p: ZERO, 'logical_not': lambda p: eq0(p), 'cos': lambda p: func('cos', [p]),
       'sin': lambda p: func('sin', [p]), 'tanh': lambda p: func('tanh', [p]), 'rint': lambda p: func('rint', [p])}
FLOATY = ('sqrt', 'exp', 'log', 'reciprocal', 'cos', 'sin', 'tanh')


def ufn(I, path, x, *a, **kw):
    x = I.simp(x)
    if isinstance(x, (Opq, MuVal)):
        return Opq('np.%s of unknown' % path, I.site(), 'ndarray')
    if isinstance(x, GVal):
        return I.cases(x, lambda y: ufn(I, path, y, *a, **kw))
    if I.lib_tf.is_tensor(x):
        I.raise_('NotImplementedError', 'cannot convert a symbolic tensor to a numpy array')
    if x is None:
        I.raise_('TypeError', 'np.%s of None' % path)

    def go():
        d, dt = den_of(I, x)
        t = dt
        if path in FLOATY and dt in INTS:
            t = 'float64'
        if path in ('isnan', 'logical_not'):
            t = 'bool'
        return wrap(I, D.ew(UFN[path], d), t)
    try:
        return protect(I, 'np.' + path, go)
    except Unsupported as e:
        return I.opq('np.%s: %s' % (path, e), 'ndarray')


def bin_fn(op):
    def f(I, a, b, *r, **kw):
        return binop(I, op, a, b)
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod'), ('power', 'Pow'), ('matmul', 'MatMult'),
               ('logical_and', 'BitAnd'), ('logical_or', 'BitOr'), ('float_power', 'Pow')):
    NPF[_n] = bin_fn(_o)


def cmp_fn(op):
    return lambda I, a, b: compare(I, op, a, b)


for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'),
               ('greater_equal', 'GtE')):
    NPF[_n] = cmp_fn(_o)


@npf('maximum', 'fmax')
def np_maximum(I, a, b, **kw):
    x, tx = den_of(I, a)
    y, ty = den_of(I, b)
    return wrap(I, D.ew(max2, x, y), rdt(a, tx, b, ty))


@npf('minimum', 'fmin')
def np_minimum(I, a, b, **kw):
    x, tx = den_of(I, a)
    y, ty = den_of(I, b)
    return wrap(I, D.ew(min2, x, y), rdt(a, tx, b, ty))


@npf('clip')
def np_clip(I, x, lo=None, hi=None, a_min=None, a_max=None, **kw):
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    d, dt = den_of(I, x)
    if lo is not None:
        d = D.ew(max2, d, den_of(I, lo)[0])
    if hi is not None:
        d = D.ew(min2, d, den_of(I, hi)[0])
    return wrap(I, d, dt)


@npf('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'asfarray', 'require')
def np_array(I, x, dtype=None, copy=None, ndmin=0, **kw):
    return _array(I, x, dtype, False)


def _array(I, x, dtype, alias):
    d, dt = den_of(I, x)
    t = dtname(I, dtype, dt)
    d = cast(d, dt, t)
    return I.nd(d, t) if is_arr(I, x) else fresh_c(I, d, t)


@npf('asarray', 'asanyarray', 'ascontiguousarray')
def np_asarray(I, x, dtype=None, **kw):
    if is_arr(I, x):
        d, dt = den_of(I, x)
        if dtname(I, dtype, dt) == dt:
            return x
    return _array(I, x, dtype, True)


@npf('copy')
def np_copy(I, x, *a, **kw):
    d, dt = den_of(I, x)
    return I.nd(d, dt)


def fresh_c(I, d, dt):
    """a new array in C order: reshaping it shares its memory"""
    return I.new('ndarray', (I.cut(d), dt), 'C')


@npf('zeros', 'ones', 'empty')
def np_zeros(I, shape, dtype=None, **kw):
    return fresh_c(I, D.full(shape_arg(I, shape), 0), dtname(I, dtype, 'float64'))


@npf('ones')
def np_ones(I, shape, dtype=None, **kw):
    return fresh_c(I, D.full(shape_arg(I, shape), 1), dtname(I, dtype, 'float64'))


@npf('empty')
def np_empty(I, shape, dtype=None, **kw):
    sh = shape_arg(I, shape)
    I._em = getattr(I, '_em', 0) + 1
    b = Base('uninit%d' % I._em, K(('uninit', I._em)), len(sh), kind='uninit', shape=sh)
    return fresh_c(I, D.from_base(b, sh), dtname(I, dtype, 'float64'))


@npf('full')
def np_full(I, shape, v, dtype=None, **kw):
    d, dt = den_of(I, v)
    return into_new(I, D.full(shape_arg(I, shape), 0), v, dtname(I, dtype, dt))


def like(val):
    def f(I, x, dtype=None, **kw):
        d, dt = den_of(I, x)
        return I.nd(D.full(d.shape, val), dtname(I, dtype, dt))
    return f


NPF['zeros_like'] = like(0)
NPF['ones_like'] = like(1)
NPF['empty_like'] = like(0)


@npf('full_like')
def np_full_like(I, x, v, dtype=None, **kw):
    d, dt = den_of(I, x)
    return into_new(I, D.full(d.shape, 0), v, dtname(I, dtype, dt))


def into_new(I, z, v, t):
    y, ty = den_of(I, v)
    if y.rank > z.rank:
        raise ShapeErr('could not broadcast the fill value')
    return fresh_c(I, cast(D.ew(add, z, y), ty, t), t)


@npf('eye', 'identity')
def np_eye(I, n, M=None, k=0, dtype=None, **kw):
    if I.simp(k) != 0:
        raise Undecided('eye with an off-diagonal')
    return I.nd(D.eye(to_poly(I.num(n)), None if M is None else to_poly(I.num(M))), dtname(I, dtype, 'float64'))


@npf('arange')
def np_arange(I, a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    x, y, s = to_poly(I.num(a)), to_poly(I.num(b)), to_poly(I.num(step))
    si = s.as_int()
    n = sub_(y, x)
    if si != 1:
        c = n.as_int()
        if c is None or not si:
            raise Undecided('arange')
        n = const(max(0, -(-c // si)))
    isint = is_integer(x) and is_integer(s)
    return fresh_c(I, D.arange(x, n, s), dtname(I, dtype, 'int64' if isint else 'float64'))


@npf('shape')
def np_shape(I, x):
    if I.lib_tf.is_tensor(x):
        return I.lib_tf.attr(I, x, 'shape', lambda: None)
    return shape_tuple(I, den_of(I, x)[0])


@npf('ndim')
def np_ndim(I, x):
    return den_of(I, x)[0].rank


@npf('size')
def np_size(I, x, axis=None):
    d = den_of(I, x)[0]
    if axis is not None:
        return I.mknum(d.size(axis))
    return I.mknum(D.gsize([v for g in d.axes for v in g]))


def reshape(I, d, shp):
    return D.reshape(d, shape_arg(I, shp))


@npf('reshape')
def np_reshape(I, x, newshape=None, order='C', shape=None, **kw):
    d, dt = den_of(I, x)
    sh = newshape if newshape is not None else shape
    if order not in ('C', 'A'):
        d2 = D.transpose(d)
        s = shape_arg(I, sh)[::-1]
        return wrapalias(I, D.transpose(D.reshape(d2, s)), dt, x, sure=False)
    return alias_shape(I, d, dt, x, reshape(I, d, sh), contiguous(I, x) and 'shape')


@npf('ravel')
def np_ravel(I, x, order='C'):
    d, dt = den_of(I, x)
    if order == 'F':
        return wrapalias(I, D.reshape(D.transpose(d), [-1]), dt, x, sure=False)
    return alias_shape(I, d, dt, x, D.reshape(d, [-1]), contiguous(I, x) and 'shape')


@npf('copy_ravel')
def np_flatten(I, x, order='C'):
    d, dt = den_of(I, x)
    if order == 'F':
        d = D.transpose(d)
    return I.nd(D.reshape(d, [-1]), dt)


@npf('transpose', 'permute_dims')
def np_transpose(I, x, axes=None):
    d, dt = den_of(I, x)
    axes = axis_list(I, axes)
    if axes is None:
        axes = list(range(d.rank))[::-1]
    D.transpose(d, axes)
    return alias_perm(I, d, dt, x, [a % d.rank for a in axes])


@npf('swapaxes')
def np_swapaxes(I, x, a, b):
    d, dt = den_of(I, x)
    p = list(range(d.rank))
    a, b = p[a], p[b]
    p[a], p[b] = p[b], p[a]
    return alias_perm(I, d, dt, x, p)


@npf('moveaxis')
def np_moveaxis(I, x, src, dst):
    d, dt = den_of(I, x)
    src, dst = axis_list(I, src), axis_list(I, dst)
    n = d.rank
    src = [s % n for s in src]
    dst = [s % n for s in dst]
    order = [i for i in range(n) if i not in src]
    for t, s in sorted(zip(dst, src)):
        order.insert(t, s)
    return alias_perm(I, d, dt, x, order)


@npf('rollaxis')
def np_rollaxis(I, x, axis, start=0):
    d, dt = den_of(I, x)
    n = d.rank
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    o = list(range(n))
    o.remove(axis)
    o.insert(start, axis)
    return alias_perm(I, d, dt, x, o)


@npf('expand_dims')
def np_expand(I, x, axis):
    d0, dt = den_of(I, x)
    d = d0
    for a in sorted(axis_list(I, axis)):
        d = D.expand_dims(d, a)
    return alias_shape(I, d0, dt, x, d)


@npf('squeeze')
def np_squeeze(I, x, axis=None):
    d, dt = den_of(I, x)
    return alias_shape(I, d, dt, x, D.squeeze(d, axis_list(I, axis)))


@npf('atleast_2d')
def np_al2(I, x):
    d0, dt = d, _ = den_of(I, x)
    if d.rank >= 2 and is_arr(I, x):
        return x
    while d.rank < 2:
        d = D.expand_dims(d, 0)
    return alias_shape(I, d0, dt, x, d)


@npf('atleast_1d')
def np_al1(I, x):
    d, dt = den_of(I, x)
    if d.rank >= 1 and is_arr(I, x):
        return x
    while d.rank < 1:
        d = D.expand_dims(d, 0)
    return I.nd(d, dt)


@npf('dot')
def np_dot(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    return wrap(I, D.npdot(x, y), promote(tx, ty))


@npf('vdot')
def np_vdot(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    return wrap(I, D.npdot(D.reshape(x, [-1]), D.reshape(y, [-1])), promote(tx, ty))


@npf('inner')
def np_inner(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    if x.rank == 0 or y.rank == 0:
        return wrap(I, D.ew(mul, x, y), promote(tx, ty))
    return wrap(I, D.tensordot(x, y, [-1], [-1]), promote(tx, ty))


@npf('outer')
def np_outer(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    return wrap(I, D.tensordot(D.reshape(x, [-1]), D.reshape(y, [-1]), [], []), promote(tx, ty))


@npf('tensordot')
def np_tensordot(I, a, b, axes=2):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    axes = I.simp(axes)
    if isinstance(axes, int):
        aa, bb = list(range(x.rank - axes, x.rank)), list(range(axes))
    else:
        u, v = I.iterate(axes)
        aa, bb = axis_list(I, u), axis_list(I, v)
    return wrap(I, D.tensordot(x, y, aa, bb), promote(tx, ty))


def parse_einsum(I, spec, n):
    if not isinstance(spec, str):
        raise Undecided('einsum with a computed subscript')
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Undecided('einsum ellipsis')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        flat = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(flat) if flat.count(c) == 1))
    labs = ins.split(',')
    if len(labs) != n:
        raise ShapeErr('einsum has %d subscripts for %d operands' % (len(labs), n))
    return labs, out


def spread(spec, ranks):
    """einsum subscripts with the ellipsis written out"""
    if '...' not in spec:
        return spec
    spec = spec.replace(' ', '')
    ins, arrow, out = spec.partition('->')
    free = [c for c in 'ZYXWVUTSRQPONM' if c not in spec]
    parts = ins.split(',')
    n = [r - len(p.replace('...', '')) if '...' in p else 0 for p, r in zip(parts, ranks)]
    k = max(n)
    if min(n) < 0 or len(parts) != len(ranks) or k > len(free):
        raise ShapeErr('einsum subscripts do not match the operands')
    parts = [p.replace('...', ''.join(free[k - m:k])) for p, m in zip(parts, n)]
    if arrow:
        out = out.replace('...', ''.join(free[:k]))
    else:
        body = ''.join(parts)
        out = ''.join(free[:k]) + ''.join(sorted(c for c in set(body) if body.count(c) == 1 and c not in free[:k]))
    return ','.join(parts) + '->' + out


def do_einsum(I, spec, dens):
    if isinstance(spec, str):
        spec = spread(spec, [d.rank for d in dens])
    labs, out = parse_einsum(I, spec, len(dens))
    l2, d2 = [], []
    for lab, d in zip(labs, dens):
        lab = list(lab)
        # repeated label inside one operand: diagonal
        while len(set(lab)) != len(lab):
            for i, c in enumerate(lab):
                if c in lab[:i]:
                    j = lab.index(c)
                    d = D.fresh(d)
                    if not D.same_size(d.size(i), d.size(j)):
                        raise ShapeErr('einsum diagonal of different sizes')
                    mp = D.group_map(d.axes[i], d.axes[j]) if d.axes[i] else {}
                    d = Den([g for t, g in enumerate(d.axes) if t != i], subst(d.body, mp))
                    del lab[i]
                    break
        l2.append(lab)
        d2.append(d)
    return D.einsum(l2, list(out), d2)


@npf('einsum')
def np_einsum(I, spec, *ops, **kw):
    if is_arr(I, spec):
        # einsum(op0, labels0, op1, labels1, ..., [labels_out])
        al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
        rest = [spec] + list(ops)
        word = lambda x: ''.join(al[I.lib_py.cint(I, q)] for q in I.iterate(x))
        out = '->' + word(rest.pop()) if len(rest) % 2 else ''
        return np_einsum(I, ','.join(word(x) for x in rest[1::2]) + out, *rest[::2])
    ds = [den_of(I, x) for x in ops]
    dt = ds[0][1]
    for _, t in ds[1:]:
        dt = promote(dt, t)
    return wrap(I, do_einsum(I, spec, [d for d, _ in ds]), dt)


@npf('kron')
def np_kron(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    x, y = D.fresh(x), D.fresh(y)
    while x.rank < y.rank:
        x = D.expand_dims(x, 0)
    while y.rank < x.rank:
        y = D.expand_dims(y, 0)
    axes = [g + h for g, h in zip(x.axes, y.axes)]
    return wrap(I, Den(axes, mul(x.body, y.body)), promote(tx, ty))


@npf('trace')
def np_trace(I, x, offset=0, axis1=0, axis2=1):
    d, dt = den_of(I, x)
    if offset != 0 or (axis1, axis2) not in ((0, 1), (1, 0)):
        raise Undecided('trace of another diagonal')
    return wrap(I, D.trace(d), dt)


@npf('diag')
def np_diag(I, x, k=0):
    d, dt = den_of(I, x)
    if k != 0:
        raise Undecided('off-diagonal')
    return wrap(I, D.diag(d) if d.rank == 1 else D.diag_part(d), dt)


@npf('diagonal')
def np_diagonal(I, x, offset=0, axis1=0, axis2=1):
    d, dt = den_of(I, x)
    if offset != 0 or (axis1, axis2) not in ((0, 1), (1, 0)):
        raise Undecided('another diagonal')
    return wrap(I, D.diag_part(d), dt)


@npf('fill_diagonal')
def np_filldiag(I, x, v, wrap_=False):
    d, dt = den_of(I, x)
    d = D.fresh(d)
    if d.rank != 2:
        raise Undecided('fill_diagonal')
    y, _ = den_of(I, v)
    c = eq0(sub_(D.linear(d.axes[0]), D.linear(d.axes[1])))
    if y.rank == 1:
        y = D.fresh(y)
        g, h = y.axes[0], d.axes[0]
        mp = {}
        if g:
            if len(g) != 1:
                raise Undecided('fill_diagonal')
            mp[g[0]] = D.linear(h)
        yb = subst(y.body, mp)
    else:
        yb = y.body
    store_all(I, x, Den(d.axes, add(mul(c, yb), mul(sub_(ONE, c), d.body))))
    return None


@npf('stack')
def np_stack(I, xs, axis=0, **kw):
    ds = [den_of(I, x) for x in I.iterate(xs)]
    dt = ds[0][1]
    for _, t in ds[1:]:
        dt = promote(dt, t)
    return wrap(I, D.stack([d for d, _ in ds], axis), dt)


@npf('concatenate', 'concat')
def np_concat(I, xs, axis=0, **kw):
    ds = [den_of(I, x) for x in I.iterate(xs)]
    dt = ds[0][1]
    for _, t in ds[1:]:
        dt = promote(dt, t)
    if axis is None:
        return wrap(I, D.concat([D.reshape(d, [-1]) for d, _ in ds], 0), dt)
    return wrap(I, D.concat([d for d, _ in ds], axis), dt)


@npf('vstack', 'row_stack')
def np_vstack(I, xs, **kw):
    xs = [np_al2(I, x) for x in I.iterate(xs)]
    return np_concat(I, tuple(xs), 0)


@npf('hstack')
def np_hstack(I, xs, **kw):
    xs = I.iterate(xs)
    r = den_of(I, xs[0])[0].rank
    return np_concat(I, tuple(xs), 0 if r == 1 else 1)


@npf('column_stack')
def np_cstack(I, xs, **kw):
    out = []
    for x in I.iterate(xs):
        d, dt = den_of(I, x)
        out.append(I.nd(D.expand_dims(d, 1) if d.rank == 1 else d, dt))
    return np_concat(I, tuple(out), 1)


@npf('append')
def np_append(I, x, y, axis=None):
    return np_concat(I, (x, y), axis)


@npf('tile')
def np_tile(I, x, reps):
    d, dt = den_of(I, x)
    return wrap(I, D.tile(d, shape_arg(I, reps)), dt)


@npf('repeat')
def np_repeat(I, x, n, axis=None):
    d, dt = den_of(I, x)
    if axis is None:
        d = D.reshape(d, [-1])
        axis = 0
    return wrap(I, D.repeat(d, to_poly(I.num(n)), axis % d.rank), dt)


@npf('broadcast_to')
def np_bto(I, x, shape):
    d, dt = den_of(I, x)
    z = D.full(shape_arg(I, shape), 0)
    return wrap(I, D.ew(add, z, d), dt)


@npf('where')
def np_where(I, c, x=None, y=None):
    if x is None:
        return np_nonzero(I, c)
    (cd, ct), (a, ta), (b, tb) = den_of(I, c), den_of(I, x), den_of(I, y)
    if ct != 'bool':
        cd = D.ew(lambda p: sub_(ONE, eq0(p)), cd)
    return wrap(I, D.ew(lambda k, u, v: add(mul(k, u), mul(sub_(ONE, k), v)), cd, a, b), rdt(x, ta, y, tb))


@npf('count_nonzero')
def np_cnz(I, x, axis=None, keepdims=False):
    d, dt = den_of(I, x)
    return wrap(I, D.reduce_(D.ew(lambda p: sub_(ONE, eq0(p)), d), 'sum', axis_list(I, axis), bool(keepdims)), 'int64')


def const_list(I, x):
    d, dt = den_of(I, x)
    if d.rank != 1:
        raise Undecided('not a vector')
    n = d.size(0).as_int()
    if n is None:
        raise Undecided('symbolic length')
    out = []
    for i in range(n):
        c = D.take(d, 0, const(i)).body.const()
        if c is None:
            raise Undecided('symbolic entries')
        out.append(c)
    return out


def int_arr(I, xs):
    return I.nd(D.stack([D.scalar(const(x)) for x in xs], 0), 'int64') if xs else I.nd(Den([D.mkaxis(0)], ZERO), 'int64')


@npf('nonzero', 'flatnonzero_')
def np_nonzero(I, x):
    d, dt = den_of(I, x)
    es = entries(d, 256)
    if es is None or not d.rank:
        raise Undecided('nonzero of symbolic entries')
    import itertools
    pos = [ix for ix, e in zip(itertools.product(*[range(q.as_int()) for q in d.shape]), es) if e != 0]
    return tuple(int_arr(I, [ix[a] for ix in pos]) for a in range(d.rank))


@npf('flatnonzero')
def np_flatnonzero(I, x):
    d, dt = den_of(I, x)
    return np_nonzero(I, I.nd(D.reshape(d, [-1]), dt))[0]


@npf('argsort')
def np_argsort(I, x, axis=-1, kind=None, order=None, stable=None):
    c = const_list(I, x)
    return int_arr(I, sorted(range(len(c)), key=lambda i: c[i]))


@npf('sort')
def np_sort(I, x, axis=-1, kind=None, order=None, stable=None):
    c = const_list(I, x)
    return I.nd(D.stack([D.scalar(const(v)) for v in sorted(c)], 0), den_of(I, x)[1])


def const_rows(I, x):
    """entries of an array of one or two axes, all of them known"""
    d, dt = den_of(I, x)
    if d.rank == 1:
        return const_list(I, x)
    n = d.size(0).as_int() if d.rank == 2 else None
    if n is None:
        raise Undecided('symbolic length')
    return [const_list(I, I.nd(D.take(d, 0, const(i)), dt)) for i in range(n)]


def rows_arr(I, rows, dt):
    if rows and isinstance(rows[0], list):
        return I.nd(D.stack([D.stack([D.scalar(const(x)) for x in r], 0) for r in rows], 0), dt)
    return I.nd(D.stack([D.scalar(const(x)) for x in rows], 0), dt)


@npf('lexsort')
def np_lexsort(I, keys, axis=-1):
    if axis not in (-1, 0, 1):
        raise Undecided('np.lexsort')
    if is_arr(I, keys):
        ks = const_rows(I, keys)
        if ks and not isinstance(ks[0], list):
            return int_arr(I, [0])
    else:
        ks = [const_list(I, k) for k in I.iterate(keys)]
    n = len(ks[0])
    return int_arr(I, sorted(range(n), key=lambda i: [k[i] for k in reversed(ks)]))


@npf('unique')
def np_unique(I, x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    dt = den_of(I, x)[1]
    rows = const_rows(I, x)
    if axis is None and rows and isinstance(rows[0], list):
        rows = [v for r in rows for v in r]
    elif axis not in (None, 0):
        raise Undecided('np.unique along an axis')
    u = sorted({tuple(r) if isinstance(r, list) else r for r in rows})
    key = [tuple(r) if isinstance(r, list) else r for r in rows]
    out = [rows_arr(I, [list(r) if isinstance(r, tuple) else r for r in u], dt)]
    if return_index:
        out.append(int_arr(I, [key.index(r) for r in u]))
    if return_inverse:
        out.append(int_arr(I, [u.index(r) for r in key]))
    if return_counts:
        out.append(int_arr(I, [key.count(r) for r in u]))
    return out[0] if len(out) == 1 else tuple(out)


@npf('delete')
def np_delete(I, x, k, axis=None):
    d, dt = den_of(I, x)
    if axis is None:
        d = D.reshape(d, [-1])
        axis = 0
    axis = axis_list(I, axis)[0] % d.rank
    n = d.size(axis).as_int()
    if n is None or n > 64:
        raise Undecided('np.delete along a symbolic size')
    k = I.simp(k)
    if isinstance(k, SliceV):
        ks = list(range(n))[I.lib_py.pyslice(I, k)]
    else:
        ks = [k] if isinstance(k, int) else [int(c) for c in const_list(I, k)]
    for t in ks:
        if not -n <= t < n:
            I.raise_('IndexError', 'index out of bounds')
    ks = [t % n for t in ks]
    keep = [D.take(d, axis, const(i) if d.axes[axis] else ZERO) for i in range(n) if i not in ks]
    if not keep:
        raise Undecided('np.delete of everything')
    return wrap(I, D.stack(keep, axis), dt)


@npf('setdiff1d')
def np_setdiff(I, x, y, **kw):
    a, b = const_list(I, x), const_list(I, y)
    return int_arr(I, sorted(set(a) - set(b)))


@npf('roll')
def np_roll(I, x, shift, axis=None):
    d, dt = den_of(I, x)
    if axis is None:
        r = np_roll(I, wrap(I, D.reshape(d, [-1]), dt), shift, 0)
        return wrap(I, D.reshape(den_of(I, r)[0], d.shape), dt)
    sh, ax = axis_list(I, shift), axis_list(I, axis)
    if len(sh) == 1:
        sh = sh * len(ax)
    for k, a in zip(sh, ax):
        n = d.size(a)
        c = n.as_int()
        if c is not None:
            k = k % c
        if k == 0:
            continue
        k = const(k)
        d = D.concat([D.slice_axis(d, a, sub_(n, k), k), D.slice_axis(d, a, ZERO, sub_(n, k))] if k.as_int() > 0 else
                     [D.slice_axis(d, a, -k, add(n, k)), D.slice_axis(d, a, ZERO, -k)], a)
    return wrap(I, d, dt)


@npf('diff')
def np_diff(I, x, n=1, axis=-1):
    d, dt = den_of(I, x)
    for _ in range(I.lib_py.cint(I, n)):
        m = sub_(d.size(axis), ONE)
        d = D.ew(sub_, D.slice_axis(d, axis, ONE, m), D.slice_axis(d, axis, ZERO, m))
    return wrap(I, d, dt)


def split_fn(axis0, uneven=False):
    def f(I, x, sections, axis=0):
        d, dt = den_of(I, x)
        ax = axis if axis0 is None else (axis0 if d.rank > 1 else 0)
        n = d.size(ax)
        sec = I.simp(sections)
        if isinstance(sec, int):
            c = n.as_int()
            if c is None:
                if not is_integer(mul(n, power(const(sec), -1))):
                    raise Undecided('split of a symbolic size')
                szs = [mul(n, power(const(sec), -1))] * sec
            else:
                if c % sec and not uneven:
                    I.raise_('ValueError', 'array split does not result in an equal division')
                szs = [const(c // sec + (1 if i < c % sec else 0)) for i in range(sec)]
            cuts = [ZERO]
            for z in szs:
                cuts.append(add(cuts[-1], z))
        else:
            cuts = [ZERO] + shape_arg(I, sec) + [n]
        full = (SliceV(None, None, None),)
        src = x if is_arr(I, x) else I.nd(d, dt)
        return I.list_([getitem(I, src, full * (ax % d.rank) + (SliceV(I.mknum(a), I.mknum(b), None),))
                        for a, b in zip(cuts, cuts[1:])])
    return f


NPF['split'] = split_fn(None)
NPF['array_split'] = split_fn(None, True)
NPF['hsplit'] = split_fn(1)
NPF['vsplit'] = split_fn(0)


@npf('pad')
def np_pad(I, x, width, mode='constant', constant_values=0):
    if mode != 'constant':
        raise Undecided('np.pad mode %s' % mode)
    d, dt = den_of(I, x)
    w = I.simp(width)
    if is_intlike(I, w):
        ws = [(w, w)] * d.rank
    else:
        w = [I.simp(q) for q in I.iterate(w)]
        if is_intlike(I, w[0]):
            ws = [(w[0], w[1] if len(w) > 1 else w[0])] * d.rank
        else:
            ws = [tuple(I.iterate(q)) for q in w]
            if len(ws) == 1:
                ws = ws * d.rank
    cv, _ = den_of(I, constant_values)
    if cv.rank:
        raise Undecided('np.pad with several values')
    for a, (lo, hi) in enumerate(ws):
        for side, k in ((0, lo), (1, hi)):
            k = to_poly(I.num(k))
            if k.const() == 0:
                continue
            sh = list(d.shape)
            sh[a] = k
            z = D.ew(lambda p: cv.body, D.full(sh, 0))
            d = D.concat([z, d] if side == 0 else [d, z], a)
    return wrap(I, d, dt)


@npf('linspace')
def np_linspace(I, start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    a, b, n = to_poly(I.num(start)), to_poly(I.num(stop)), to_poly(I.num(num))
    if retstep:
        raise Undecided('linspace with retstep')
    div = sub_(n, ONE) if I.simp(endpoint) is True else n
    if div.const() == 0:
        div = ONE
    step = mul(sub_(b, a), power(div, -1))
    return I.nd(D.ew(lambda p: add(a, mul(step, p)), D.arange(ZERO, n, ONE)), dtname(I, dtype, 'float64'))


@npf('fromiter')
def np_fromiter(I, it, dtype=None, count=-1):
    return np_array(I, tuple(I.iterate(it)), dtype)


@npf('bincount')
def np_bincount(I, x, weights=None, minlength=0):
    ks = const_list(I, x)
    n = max([int(k) + 1 for k in ks] + [I.lib_py.cint(I, minlength)])
    w = [getitem(I, weights, i) for i in range(len(ks))] if weights is not None else [1] * len(ks)
    out = [0 if weights is None else Fraction(0)] * n
    for k, v in zip(ks, w):
        out[int(k)] = I.binop('Add', out[int(k)], v)
    return np_array(I, tuple(out))


@npf('insert')
def np_insert(I, x, k, v, axis=None):
    d, dt = den_of(I, x)
    if axis is None:
        d = D.reshape(d, [-1])
        axis = 0
    axis = axis_list(I, axis)[0] % d.rank
    n = d.size(axis)
    if not isinstance(I.simp(k), int):
        raise Undecided('np.insert at several places')
    k = I.simp(k)
    kp = const(k) if k >= 0 else add(n, const(k))
    y, ty = den_of(I, v)
    sh = [q for i, q in enumerate(d.shape) if i != axis]
    if y.rank > len(sh):
        raise Undecided('np.insert of several rows')
    row = D.ew(add, D.full(sh, 0), y)
    return wrap(I, D.concat([D.slice_axis(d, axis, ZERO, kp), D.expand_dims(row, axis),
                             D.slice_axis(d, axis, kp, sub_(n, kp))], axis), promote(dt, ty))


@npf('flipud')
def np_flipud(I, m):
    return np_flip(I, m, 0)


@npf('fliplr')
def np_fliplr(I, m):
    return np_flip(I, m, 1)


@npf('flip')
def np_flip(I, x, axis=None):
    d, dt = den_of(I, x)
    axs = axis_list(I, axis) if axis is not None else list(range(d.rank))
    for a in axs:
        n = d.size(a)
        d = D.slice_axis(d, a, sub_(n, ONE), n, -1)
    return wrap(I, d, dt)


def cumulative(op):
    def f(I, x, axis=None, dtype=None, **kw):
        d, dt = den_of(I, x)
        if axis is None:
            d = D.reshape(d, [-1])
            axis = 0
        axis = axis_list(I, axis)[0] % d.rank
        n = d.size(axis).as_int()
        if n is None or n > 64:
            raise Undecided('cumulative operation along a symbolic size')
        if n == 0:
            return wrap(I, d, dt)
        out = []
        for i in range(n):
            t = D.take(d, axis, const(i) if d.axes[axis] else ZERO)
            out.append(t if not out else D.ew(op, out[-1], t))
        return wrap(I, D.stack(out, axis), dt)
    return f


NPF['cumsum'] = NPF['add.accumulate'] = cumulative(add)
NPF['cumprod'] = NPF['multiply.accumulate'] = cumulative(mul)
METH['cumsum'] = 'cumsum'
METH['cumprod'] = 'cumprod'


@npf('unravel_index')
def np_unravel(I, k, shape):
    dims = shape_arg(I, shape)
    p, _ = den_of(I, k)
    out = []
    stride = ONE
    for n in reversed(dims):
        s = stride
        out.append(D.ew(lambda q: unflat(q, s, n), p))
        stride = mul(stride, n)
    return tuple(wrap(I, d, 'int64') for d in reversed(out))


@npf('ravel_multi_index')
def np_ravelmi(I, idx, shape):
    dims = shape_arg(I, shape)
    r = D.scalar(ZERO)
    for x, n in zip(I.iterate(idx), dims):
        r = D.ew(lambda a, b: add(mul(a, n), b), r, den_of(I, x)[0])
    return wrap(I, r, 'int64')


@npf('ix_')
def np_ix(I, *xs):
    out = []
    for i, x in enumerate(xs):
        d, dt = den_of(I, x)
        for k in range(len(xs)):
            if k < i:
                d = D.expand_dims(d, 0)
            elif k > i:
                d = D.expand_dims(d, d.rank)
        out.append(I.nd(d, dt))
    return tuple(out)


@npf('take')
def np_take(I, x, idx, axis=None, **kw):
    d, dt = den_of(I, x)
    if axis is None:
        d = D.reshape(d, [-1])
        axis = 0
    axis %= d.rank
    ks = [SliceV(None, None, None)] * d.rank
    ks[axis] = idx
    if is_intlike(I, idx):
        return wrap(I, D.take(d, axis, int_index(I, idx, d.size(axis))), dt)
    return fancy_get(I, d, dt, ks)


@npf('isscalar')
def np_isscalar(I, x):
    return not is_arr(I, x) and isinstance(x, (bool, int, Fraction, float, SVal, BVal))


@npf('array_equal')
def np_arreq(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    if x.rank != y.rank:
        return False
    return scal(I, D.reduce_(D.ew(CMPP['Eq'], x, y), 'all').body, 'bool')


@npf('allclose')
def np_allclose(I, a, b, *r, **kw):
    return I.opq('np.allclose', 'bool')


@npf('result_type', 'promote_types')
def np_rt(I, *a):
    dt = None
    for x in a:
        t = dtname(I, x) if not is_arr(I, x) else den_of(I, x)[1]
        dt = t if dt is None else promote(dt, t)
    return DType(dt)


@npf('dtype')
def np_dtype(I, x):
    return DType(dtname(I, x))


@npf('linalg.norm')
def np_norm(I, x, ord=None, axis=None, keepdims=False):
    d, dt = den_of(I, x)
    if dt in INTS:
        dt = 'float64'
    return wrap(I, norm_den(I, d, ord, axis_list(I, axis), bool(keepdims)), dt)


def norm_den(I, d, ord, axes, keepdims=False):
    if axes is None and ord is None:
        axes = list(range(d.rank))
    elif axes is None:
        axes = list(range(d.rank))
        if len(axes) > 2:
            raise ShapeErr('improper number of dimensions to norm')
    if ord in (None, 'fro', 'euclidean') or (ord == 2 and len(axes) == 1):
        return D.ew(sqrt, D.reduce_(D.ew(lambda p: mul(p, p), d), 'sum', axes, keepdims))
    if len(axes) == 1:
        if ord == 1:
            return D.reduce_(D.ew(absval, d), 'sum', axes, keepdims)
        if ord == float('inf'):
            return D.reduce_(D.ew(absval, d), 'max', axes, keepdims)
        if isinstance(ord, (int, Fraction)) and ord > 0:
            s = D.reduce_(D.ew(lambda p: power(absval(p), ord), d), 'sum', axes, keepdims)
            return D.ew(lambda p: power(p, Fraction(1, ord)), s)
    if len(axes) == 2 and ord == 2 and d.rank == 2:
        return D.reduce_(D.svd_s_den(d), 'max', [0])
    if len(axes) == 2 and ord == 'nuc' and d.rank == 2:
        return D.reduce_(D.svd_s_den(d), 'sum', [0])
    raise Undecided('norm of order %r' % (ord,))


@npf('linalg.svd')
def np_svd(I, x, full_matrices=True, compute_uv=True):
    d, dt = den_of(I, x)
    if d.rank != 2:
        raise Undecided('batched svd')
    fm = bool(full_matrices)
    s = I.nd(D.svd_s_den(d), dt)
    if not compute_uv:
        return s
    u = D.svd_u_den(d, fm)
    v = D.svd_v_den(d, fm)
    return (I.nd(u, dt), s, I.nd(D.transpose(v), dt))


@npf('linalg.pinv')
def np_pinv(I, x, rcond=None, hermitian=False, rtol=None):
    d, dt = den_of(I, x)
    for t in (rcond, rtol):
        if I.simp(t) is not None:
            c = to_poly(I.num(t)).const()
            if c is None or c > Fraction(1, 10 ** 6):
                return I.nd(D.from_base(D.mkop('pinv_cut', [d], (('rcond', str(c)),), rank=2, shape=d.shape[::-1]), d.shape[::-1]), dt)
    if I.simp(hermitian) is not False:
        raise Undecided('pinv with hermitian')
    return I.nd(D.matop('pinv', d), dt)


@npf('linalg.inv')
def np_inv(I, x):
    d, dt = den_of(I, x)
    return I.nd(D.matop('inv', d), dt)


@npf('linalg.matrix_rank')
def np_mrank(I, x, *a, **kw):
    return I.opq('matrix rank', 'int')


@npf('linalg.multi_dot')
def np_multidot(I, xs, **kw):
    items = I.iterate(xs)
    r = items[0]
    for x in items[1:]:
        r = np_dot(I, r, x)
    return r


def rand_base(I, name, sh, nonneg=False, integer=False, info=None):
    I._rnd = getattr(I, '_rnd', 0) + 1
    s = I.site()
    b = Base('%s%d' % (name, I._rnd), K(('nprand', I._rnd)), len(sh), nonneg=nonneg, kind='rand', shape=sh, info=info)
    return D.from_base(b, sh)


def rnd(name, nonneg=False):
    def f(I, *sh, **kw):
        if 'size' in kw:
            sh = tuple(I.iterate(kw['size'])) if not isinstance(kw['size'], (int, SVal)) else (kw['size'],)
        s = [to_poly(I.num(x)) for x in sh]
        I.log.append((I.pg, 'random', (name, tuple(s)), I.site()))
        return wrap(I, rand_base(I, name, s, nonneg), 'float64')
    return f


NPF['random.rand'] = rnd('rand', True)
NPF['random.randn'] = rnd('randn')


def rnd_size(name, nonneg):
    def f(I, size=None, *a, **kw):
        sh = [] if size is None else shape_arg(I, size)
        I.log.append((I.pg, 'random', (name, tuple(sh)), I.site()))
        return wrap(I, rand_base(I, name, sh, nonneg), 'float64')
    return f


for _n in ('random', 'random_sample', 'ranf', 'sample'):
    NPF['random.' + _n] = rnd_size('rand', True)
NPF['random.standard_normal'] = rnd_size('randn', False)


@npf('random.normal')
def np_normal(I, loc=0, scale=1, size=None):
    sh = [] if size is None else shape_arg(I, size)
    I.log.append((I.pg, 'random', ('randn', tuple(sh)), I.site()))
    d = rand_base(I, 'randn', sh)
    (l, _), (s, _) = den_of(I, loc), den_of(I, scale)
    return wrap(I, D.ew(lambda z, a, b: add(mul(z, b), a), d, l, s), 'float64')


@npf('random.uniform')
def np_uniform(I, low=0, high=1, size=None):
    sh = [] if size is None else shape_arg(I, size)
    I.log.append((I.pg, 'random', ('rand', tuple(sh)), I.site()))
    d = rand_base(I, 'rand', sh, True)
    (l, _), (s, _) = den_of(I, low), den_of(I, high)
    return wrap(I, D.ew(lambda z, a, b: add(mul(z, sub_(b, a)), a), d, l, s), 'float64')


@npf('random.random_integers')
def np_random_integers(I, low, high=None, size=None):
    if high is None:
        low, high = 1, low
    return np_randint(I, low, I.mknum(add(to_poly(I.num(high)), ONE)), size)


@npf('random.randint', 'random.integers')
def np_randint(I, low, high=None, size=None, dtype=None, **kw):
    if high is None:
        low, high = 0, low
    sh = [] if size is None else shape_arg(I, size)
    lo, hi = to_poly(I.num(low)), to_poly(I.num(high))
    I.log.append((I.pg, 'randint', (lo, hi, tuple(sh)), I.site()))
    h = I.hooks.get('randint')
    if h is not None:
        r = h(I, lo, hi, sh)
        if r is not None:
            return wrap(I, r, 'int64')
    d = rand_base(I, 'randint', sh, lo.const() is not None and lo.const() >= 0, True, info=(lo, hi))
    return wrap(I, d, 'int64')


@npf('random.choice')
def np_choice(I, a, size=None, replace=True, p=None):
    sh = [] if size is None else shape_arg(I, size)
    if not is_intlike(I, a):
        raise Undecided('random choice from a list')
    hi = to_poly(I.num(a))
    I.log.append((I.pg, 'randint', (ZERO, hi, tuple(sh)), I.site()))
    h = I.hooks.get('randint')
    if h is not None:
        r = h(I, ZERO, hi, sh)
        if r is not None:
            return wrap(I, r, 'int64')
    return wrap(I, rand_base(I, 'choice', sh, True, info=(ZERO, hi)), 'int64')


@npf('random.seed', 'random.set_state')
def np_seed(I, *a, **kw):
    return None


@npf('random.RandomState', 'random.default_rng', 'random.Generator')
def np_rs(I, *a, **kw):
    return Ext('np.random')


@npf('ndarray')
def np_ndarray(I, shape, dtype=None, buffer=None):
    if buffer is not None:
        raise Undecided('ndarray over a buffer')
    return np_empty(I, shape, dtype)


@npf('vectorize')
def np_vectorize(I, f, otypes=None):
    def call(I, a, kw):
        ds = [den_of(I, x) for x in a]
        axes, bodies = D.broadcast([d for d, _ in ds])
        shape = [D.gsize(g) if g else ONE for g in axes]
        sh = [q.as_int() for q in shape]
        if any(q is None for q in sh) or kw:
            raise Undecided('vectorize over a symbolic shape')
        import itertools
        out = []
        for ix in itertools.product(*[range(q) for q in sh]):
            vals = []
            for b, (_, t) in zip(bodies, ds):
                d = Den(axes, b)
                for i in ix:
                    d = D.take(d, 0, const(i) if d.axes[0] else ZERO)
                vals.append(scal(I, d.body, t))
            out.append(den_of(I, I.call(f, vals, {})))
        if not out:
            raise Undecided('vectorize over nothing')
        t = out[0][1]
        r = D.stack([d for d, _ in out], 0)
        return wrap(I, D.reshape(r, sh), dtname(I, None, t))

    def guarded(I, a, kw):
        r = protect(I, 'vectorize', lambda: call(I, a, kw))
        return r
    return Builtin('vectorize', guarded)


@npf('ndindex')
def np_ndindex(I, *sh):
    import itertools
    dims = shape_arg(I, sh[0]) if len(sh) == 1 and not is_intlike(I, sh[0]) else [to_poly(I.num(x)) for x in sh]
    n = [x.as_int() for x in dims]
    if any(x is None for x in n):
        raise Undecided('np.ndindex over symbolic sizes')
    return I.list_(list(itertools.product(*[range(x) for x in n])))


@npf('ndenumerate')
def np_ndenum(I, x):
    import itertools
    d, dt = den_of(I, x)
    n = [s.as_int() for s in d.shape]
    if any(k is None for k in n):
        raise Undecided('np.ndenumerate over symbolic sizes')
    return I.list_([(t, getitem(I, x, t)) for t in itertools.product(*[range(k) for k in n])])


@npf('savetxt', 'save')
def np_save(I, *a, **kw):
    return None


@npf('broadcast_shapes')
def np_bsh(I, *a):
    raise Undecided('broadcast_shapes')


@npf('add.reduce')
def np_addred(I, x, axis=0, dtype=None, out=None, keepdims=False):
    return NPF['sum'](I, x, axis, dtype, None, keepdims)


@npf('multiply.reduce')
def np_mulred(I, x, axis=0, dtype=None, out=None, keepdims=False):
    return NPF['prod'](I, x, axis, dtype, None, keepdims)


@npf('maximum.reduce')
def np_maxred(I, x, axis=0, dtype=None, out=None, keepdims=False):
    return NPF['max'](I, x, axis, dtype, None, keepdims)


@npf('minimum.reduce')
def np_minred(I, x, axis=0, dtype=None, out=None, keepdims=False):
    return NPF['min'](I, x, axis, dtype, None, keepdims)


def outer_fn(op):
    def f(I, a, b):
        (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
        for _ in range(y.rank):
            x = D.expand_dims(x, x.rank)
        return binop(I, op, wrap(I, x, tx), wrap(I, y, ty))
    return f


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div')):
    NPF[_n + '.outer'] = outer_fn(_o)


def tri_part(keep):
    def f(I, m, k=0):
        d, dt = den_of(I, m)
        if d.rank < 2:
            raise Undecided('triangle of a vector')
        d = D.fresh(d)
        q = sub_(sub_(D.linear(d.axes[-1]), D.linear(d.axes[-2])), to_poly(I.num(k)))     # column - row - k
        c = sub_(ONE, lt0(-q)) if keep == 'lower' else sub_(ONE, lt0(q))
        return wrap(I, Den(d.axes, mul(c, d.body)), dt)
    return f


NPF['tril'] = tri_part('lower')
NPF['triu'] = tri_part('upper')


@npf('tri')
def np_tri(I, N, M=None, k=0, dtype=None):
    n = to_poly(I.num(N))
    m = n if M is None else to_poly(I.num(M))
    return NPF['tril'](I, I.nd(D.full([n, m], 1), dtname(I, dtype, 'float64')), k)


def moment(root):
    def f(I, x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        d, dt = den_of(I, x)
        ax = axis_list(I, axis)
        mu = D.reduce_(d, 'mean', ax, True)
        sq = D.ew(lambda p, q: mul(sub_(p, q), sub_(p, q)), d, mu)
        dd = to_poly(I.num(ddof))
        r = D.reduce_(sq, 'mean', ax, bool(keepdims))
        if dd.const() != 0:
            n = ONE
            for i in (range(d.rank) if ax is None else ax):
                n = mul(n, d.size(i))
            r = D.ew(lambda p: mul(p, mul(n, power(sub_(n, dd), -1))), r)
        if root:
            r = D.ew(sqrt, r)
        return wrap(I, r, dt if dt not in INTS else 'float64')
    return f


NPF['std'] = moment(True)
NPF['var'] = moment(False)


@npf('ptp')
def np_ptp(I, x, axis=None, keepdims=False):
    return I.binop('Sub', NPF['max'](I, x, axis, None, None, keepdims), NPF['min'](I, x, axis, None, None, keepdims))


@npf('dstack')
def np_dstack(I, xs):
    out = []
    for x in I.iterate(xs):
        d, dt = den_of(I, x)
        if d.rank == 1:
            d = D.expand_dims(D.expand_dims(d, 0), 2)
        elif d.rank == 2:
            d = D.expand_dims(d, 2)
        out.append(wrap(I, d, dt))
    return np_concat(I, tuple(out), 2)


@npf('indices')
def np_indices(I, dimensions, dtype=None):
    sh = shape_arg(I, dimensions)
    out = []
    for a, n in enumerate(sh):
        r = D.arange(ZERO, n, ONE)
        for _ in range(a):
            r = D.expand_dims(r, 0)
        for _ in range(len(sh) - a - 1):
            r = D.expand_dims(r, r.rank)
        out.append(D.ew(add, D.full(sh, 0), r))
    return wrap(I, D.stack(out, 0), dtname(I, dtype, 'int64'))


@npf('meshgrid')
def np_meshgrid(I, *xs, indexing='xy', sparse=False):
    ds = [den_of(I, x) for x in xs]
    if any(d.rank > 1 for d, _ in ds) or I.simp(sparse) is not False:
        raise Undecided('meshgrid')
    ds = [(d if d.rank else D.expand_dims(d, 0), t) for d, t in ds]
    pos = list(range(len(ds)))
    if indexing == 'xy' and len(ds) > 1:
        pos[0], pos[1] = 1, 0
    sh = [None] * len(ds)
    for (d, _), p in zip(ds, pos):
        sh[p] = d.size(0)
    out = []
    for (d, t), p in zip(ds, pos):
        for _ in range(p):
            d = D.expand_dims(d, 0)
        for _ in range(len(ds) - p - 1):
            d = D.expand_dims(d, d.rank)
        out.append(I.nd(D.ew(add, D.full(sh, 0), d), t))
    return I.list_(out)


@npf('fromfunction')
def np_fromfunction(I, f, shape, dtype=None, **kw):
    g = np_indices(I, shape, dtname(I, dtype, 'float64'))
    n = den_of(I, g)[0].size(0).as_int()
    r = I.call(f, [getitem(I, g, i) for i in range(n)], kw)
    return r


@npf('hypot')
def np_hypot(I, a, b):
    (x, tx), (y, ty) = den_of(I, a), den_of(I, b)
    return wrap(I, D.ew(lambda p, q: sqrt(add(mul(p, p), mul(q, q))), x, y), rdt(a, tx, b, ty))


