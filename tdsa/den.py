"""Tensor-valued abstract values: a Den ("denotation") is a list of axes, each a
row-major group of index variables, plus one scalar Poly in those variables.
Transposition permutes axes, reshape regroups index variables, contraction binds
them; layout errors therefore show up as different index expressions."""
from fractions import Fraction
from .alg import *
from . import alg


class ShapeErr(Exception):
    """operand shapes are certainly incompatible (for generic sizes)"""


class Undecided(Exception):
    """the operation cannot be represented"""


class Den(object):
    __slots__ = ('axes', 'body', '_key')

    def __init__(self, axes, body):
        self.axes = tuple(tuple(g) for g in axes)
        self.body = body
        self._key = None

    def size(self, i):
        return gsize(self.axes[i])

    @property
    def shape(self):
        return [gsize(g) for g in self.axes]

    @property
    def rank(self):
        return len(self.axes)

    def key(self):
        if self._key is None:
            env = {}
            sz = []
            n = 0
            for a, g in enumerate(self.axes):
                row = []
                for v in g:
                    env[v] = K(('ax', n))
                    n += 1
                    row.append(v.size.key({}))
                sz.append(tuple(row))
            self._key = K(('den', tuple(sz), self.body.key(env)))
        return self._key

    def __repr__(self):
        return '[%s] %r' % (' '.join('(' + ','.join('%r<%r' % (v, v.size) for v in g) + ')' for g in self.axes), self.body)


def gsize(g):
    r = ONE
    for v in g:
        r = mul(r, v.size)
    return r


def scalar(p):
    return Den((), to_poly(p))


def fresh(d):
    ren = {}
    for g in d.axes:
        for v in g:
            ren[v] = IVar(v.size)
    if not ren:
        return d
    return Den([[ren[v] for v in g] for g in d.axes], subst(d.body, {v: ivar(w) for v, w in ren.items()}))


def from_base(base, sizes):
    axes, idx = [], []
    for s in sizes:
        s = to_poly(s)
        if s.const() == 1:
            axes.append(())
            idx.append(ZERO)
        else:
            v = IVar(s)
            axes.append((v,))
            idx.append(ivar(v))
    return Den(axes, acc(base, idx))


def tensor(name, sizes, **kw):
    b = Base(name, K(('t', name)), len(sizes), shape=[to_poly(s) for s in sizes], **kw)
    return from_base(b, sizes)


def mkaxis(size):
    size = to_poly(size)
    if size.const() == 1:
        return ()
    return (IVar(size),)


def linear(g):
    """row-major linear index of a group"""
    r = ZERO
    for v in g:
        r = add(mul(r, v.size), ivar(v))
    return r


def group_map(src, dst):
    """substitution expressing the variables of src by those of dst (same total size)"""
    if len(src) == len(dst) and all(a.size == b.size for a, b in zip(src, dst)):
        return {a: ivar(b) for a, b in zip(src, dst)}
    lin = linear(dst)
    mp = {}
    stride = ONE
    for v in reversed(src):
        mp[v] = unflat(lin, stride, v.size)
        stride = mul(stride, v.size)
    return mp


def plain(p):
    """a size built only from declared dimension symbols and numbers"""
    return all(f.kind in 'SN' for m, c in p.terms.values() for f, e in m.fac)


def same_size(a, b):
    if a == b:
        return True
    if plain(a) and plain(b):
        return False
    raise Undecided('cannot compare sizes %r and %r' % (a, b))


def broadcast(dens):
    """common axes and the bodies over them"""
    dens = [fresh(d) for d in dens]
    n = max(d.rank for d in dens)
    axes = []
    subs = [dict() for _ in dens]
    for k in range(n):
        groups = []
        for di, d in enumerate(dens):
            off = k - (n - d.rank)
            if off >= 0:
                groups.append((di, d.axes[off]))
        ng = [(di, g) for di, g in groups if g]
        # concrete size-1 groups are the empty tuple
        if not ng:
            axes.append(())
            continue
        ref = max((g for _, g in ng), key=len)
        rs = gsize(ref)
        for di, g in ng:
            if g is not ref:
                if not same_size(gsize(g), rs):
                    raise ShapeErr('cannot broadcast %r with %r' % (gsize(g), rs))
                subs[di].update(group_map(g, ref))
        axes.append(ref)
    return axes, [subst(d.body, s) for d, s in zip(dens, subs)]


def ew(fn, *dens):
    if all(d.rank == 0 for d in dens):
        return Den((), fn(*[d.body for d in dens]))
    axes, bodies = broadcast(dens)
    return Den(axes, fn(*bodies))


def transpose(d, perm=None):
    if perm is None:
        perm = list(range(d.rank))[::-1]
    perm = [p + d.rank if p < 0 else p for p in perm]
    if sorted(perm) != list(range(d.rank)):
        raise ShapeErr('permutation %r does not fit rank %d' % (perm, d.rank))
    return Den([d.axes[p] for p in perm], d.body)


def reshape(d, target):
    target = [to_poly(t) for t in target]
    flat = [v for g in d.axes for v in g]
    total = gsize(flat)
    neg = [i for i, t in enumerate(target) if t.const() == -1]
    if len(neg) > 1:
        raise ShapeErr('more than one inferred dimension')
    if neg:
        rest = ONE
        for i, t in enumerate(target):
            if i != neg[0]:
                rest = mul(rest, t)
        q = mul(total, power(rest, -1))
        if not is_integer(q):
            if plain(q):
                raise ShapeErr('cannot infer a dimension: %r / %r' % (total, rest))
            raise Undecided('inferred dimension')
        target[neg[0]] = q
    tot2 = ONE
    for t in target:
        tot2 = mul(tot2, t)
    if not same_size(total, tot2):
        raise ShapeErr('reshape of %r elements into %r' % (total, tot2))
    tdims = [t for t in target if t.const() != 1]
    # prefix products
    P = [ONE]
    for v in flat:
        P.append(mul(P[-1], v.size))
    T = [ONE]
    for t in tdims:
        T.append(mul(T[-1], t))
    pk = {p.key({}): i for i, p in enumerate(P)}
    groups = []
    mp = {}
    i0 = 0
    k0 = 0
    for k in range(1, len(T)):
        i = pk.get(T[k].key({}))
        if i is None or i < i0:
            continue
        # block target k0..k  <- flat i0..i
        blk = flat[i0:i]
        if k == k0 + 1:
            groups.append(tuple(blk))
        else:
            new = [IVar(t) for t in tdims[k0:k]]
            mp.update(group_map(blk, new))
            for v in new:
                groups.append((v,))
        i0, k0 = i, k
    if k0 != len(tdims) or i0 != len(flat):
        raise Undecided('reshape blocks')
    it = iter(groups)
    axes = [() if t.const() == 1 else next(it) for t in target]
    body = subst(d.body, mp) if mp else d.body
    return Den(axes, body)


def expand_dims(d, axis):
    n = d.rank + 1
    if axis < 0:
        axis += n
    ax = list(d.axes)
    ax.insert(axis, ())
    return Den(ax, d.body)


def squeeze(d, axes=None):
    if axes is None:
        out = [g for g in d.axes if g]
        return Den(out, d.body)
    axes = [a + d.rank if a < 0 else a for a in axes]
    for a in axes:
        if d.axes[a]:
            raise ShapeErr('cannot squeeze a dimension of size %r' % d.size(a))
    return Den([g for i, g in enumerate(d.axes) if i not in axes], d.body)


def reduce_(d, kind, axes=None, keepdims=False):
    d = fresh(d)
    if axes is None:
        axes = list(range(d.rank))
    for a in axes:
        if not -d.rank <= a < d.rank:
            raise ShapeErr('axis %d out of range for rank %d' % (a, d.rank))
    axes = [a + d.rank if a < 0 else a for a in axes]
    ivs = [v for a in axes for v in d.axes[a]]
    cnt = gsize(ivs)
    if kind == 'sum':
        body = sum_over(d.body, ivs)
    elif kind == 'mean':
        body = mul(sum_over(d.body, ivs), power(cnt, -1))
    elif kind == 'max':
        body = redmax(d.body, ivs)
    elif kind == 'min':
        body = redmin(d.body, ivs)
    elif kind == 'prod':
        body = d.body
        for v in ivs:
            n = v.size.as_int()
            if n is None:
                raise Undecided('product over a symbolic axis')
            r = ONE
            for c in range(n):
                r = mul(r, subst(body, {v: const(c)}))
            body = r
    elif kind == 'any':
        # 1 - prod(1-x) : concrete only, else max
        body = redmax(d.body, ivs)
    elif kind == 'all':
        body = redmin(d.body, ivs)
    else:
        raise Undecided('reduction ' + kind)
    if keepdims:
        ax = [() if i in axes else g for i, g in enumerate(d.axes)]
    else:
        ax = [g for i, g in enumerate(d.axes) if i not in axes]
    return Den(ax, body)


def einsum(labels, out, dens, sizes_out=None):
    """labels: list of label sequences, out: label sequence"""
    dens = [fresh(d) for d in dens]
    ref = {}
    for lab, d in zip(labels, dens):
        if len(lab) != d.rank:
            raise ShapeErr('einsum subscript %r does not match rank %d' % (lab, d.rank))
    groups = {}
    for di, (lab, d) in enumerate(zip(labels, dens)):
        for l, g in zip(lab, d.axes):
            groups.setdefault(l, []).append((di, g))
    subs = [dict() for _ in dens]
    for l, gs in groups.items():
        ng = [g for _, g in gs if g]
        if not ng:
            ref[l] = ()
            continue
        r = max(ng, key=len)
        ref[l] = r
        rs = gsize(r)
        for di, g in gs:
            if g is r:
                continue
            if not g:
                # size one against size n: einsum requires equality
                raise ShapeErr('einsum label %r has sizes 1 and %r' % (l, rs))
            if not same_size(gsize(g), rs):
                raise ShapeErr('einsum label %r has sizes %r and %r' % (l, gsize(g), rs))
            subs[di].update(group_map(g, r))
    for l in out:
        if l not in ref:
            raise ShapeErr('einsum output label %r missing from inputs' % l)
    if len(set(out)) != len(out):
        raise ShapeErr('repeated output label')
    body = ONE
    for d, s in zip(dens, subs):
        body = mul(body, subst(d.body, s))
    red = [v for l, g in ref.items() if l not in out for v in g]
    body = sum_over(body, red)
    return Den([ref[l] for l in out], body)


def matmul(a, b, ta=False, tb=False):
    if a.rank < 2 or b.rank < 2:
        raise ShapeErr('matmul needs matrices, got ranks %d and %d' % (a.rank, b.rank))
    na, nb = a.rank, b.rank
    ba = ['B%d' % i for i in range(max(na, nb) - 2)]
    la = ba[len(ba) - (na - 2):] if na > 2 else []
    lb = ba[len(ba) - (nb - 2):] if nb > 2 else []
    la = list(la) + (['k', 'i'] if ta else ['i', 'k'])
    lb = list(lb) + (['j', 'k'] if tb else ['k', 'j'])
    return einsum([la, lb], list(ba) + ['i', 'j'], [a, b])


def tensordot(a, b, ax_a, ax_b):
    ax_a = [x + a.rank if x < 0 else x for x in ax_a]
    ax_b = [x + b.rank if x < 0 else x for x in ax_b]
    if len(ax_a) != len(ax_b):
        raise ShapeErr('tensordot axes')
    la = ['a%d' % i for i in range(a.rank)]
    lb = ['b%d' % i for i in range(b.rank)]
    for x, y in zip(ax_a, ax_b):
        lb[y] = la[x]
    out = [l for i, l in enumerate(la) if i not in ax_a] + [l for i, l in enumerate(lb) if i not in ax_b]
    return einsum([la, lb], out, [a, b])


def npdot(a, b):
    """numpy dot"""
    if a.rank == 0 or b.rank == 0:
        return ew(mul, a, b)
    return tensordot(a, b, [a.rank - 1], [max(0, b.rank - 2)])


def npmatmul(a, b):
    if a.rank == 0 or b.rank == 0:
        raise ShapeErr('matmul of a scalar')
    sa = sb = False
    if a.rank == 1:
        a = expand_dims(a, 0)
        sa = True
    if b.rank == 1:
        b = expand_dims(b, 1)
        sb = True
    r = matmul(a, b)
    if sb:
        r = squeeze(r, [r.rank - 1])
    if sa:
        r = squeeze(r, [r.rank - (1 if sb else 2)])
    return r


def take(d, axis, idx):
    """fix one axis at an index Poly"""
    g = d.axes[axis]
    idx = to_poly(idx)
    n = gsize(g)
    c = idx.as_int()
    if c is not None:
        if c < 0:
            idx = add(n, idx)
        ni = n.as_int()
        if ni is not None and not (-ni <= c < ni):
            raise ShapeErr('index %d out of range for size %d' % (c, ni))
    mp = {}
    if len(g) == 1:
        mp[g[0]] = idx
    elif g:
        stride = ONE
        for v in reversed(g):
            mp[v] = unflat(idx, stride, v.size)
            stride = mul(stride, v.size)
    return Den([x for i, x in enumerate(d.axes) if i != axis], subst(d.body, mp))


def slice_axis(d, axis, start, size, step=1):
    """axis := start + step*i for i in range(size); start, size Poly"""
    g = d.axes[axis]
    new = mkaxis(size)
    pos = to_poly(start)
    if new:
        pos = add(pos, scale(ivar(new[0]), Fraction(step)))
    full = gsize(g)
    if step == 1 and to_poly(start).const() == 0 and to_poly(size) == full:
        return d
    mp = {}
    if len(g) == 1:
        mp[g[0]] = pos
    elif g:
        stride = ONE
        for v in reversed(g):
            mp[v] = unflat(pos, stride, v.size)
            stride = mul(stride, v.size)
    ax = list(d.axes)
    ax[axis] = new
    return Den(ax, subst(d.body, mp))


def stack(dens, axis=0):
    n = len(dens)
    if n == 0:
        raise Undecided('stack of nothing')
    for d in dens[1:]:
        if d.rank != dens[0].rank:
            raise ShapeErr('stack of different ranks')
        for x, y in zip(d.shape, dens[0].shape):
            if not same_size(x, y):
                raise ShapeErr('stack of different shapes')
    axes, bodies = broadcast(dens) if dens[0].rank else ([], [d.body for d in dens])
    if axis < 0:
        axis += len(axes) + 1
    g = mkaxis(n)
    ax = list(axes)
    ax.insert(axis, g)
    if n == 1:
        return Den(ax, bodies[0])
    body = ZERO
    if all(b.key() == bodies[0].key() for b in bodies):
        return Den(ax, bodies[0])
    for c, b in enumerate(bodies):
        body = add(body, mul(eq0(sub_(ivar(g[0]), const(c))), b))
    return Den(ax, body)


def concat(dens, axis):
    rank = dens[0].rank
    if axis < 0:
        axis += rank
    if any(d.rank != rank for d in dens) or not 0 <= axis < rank:
        raise ShapeErr('concat of different ranks')
    if len(dens) == 1:
        return dens[0]
    total = ZERO
    for d in dens:
        total = add(total, d.size(axis))
    new = mkaxis(total)
    lin = linear(new)
    # move each operand on common other axes
    others = []
    for d in dens:
        dd = Den([g for i, g in enumerate(d.axes) if i != axis], ZERO)
        others.append(dd)
    for k in range(rank):
        if k == axis:
            continue
        for d in dens[1:]:
            if not same_size(d.size(k), dens[0].size(k)):
                raise ShapeErr('concat of different shapes')
    off = ZERO
    body = ZERO
    ref = fresh(dens[0])
    ni = total.as_int()
    for d in dens:
        d = fresh(d)
        mp = {}
        for k in range(rank):
            if k != axis:
                mp.update(group_map(d.axes[k], ref.axes[k]) if d.axes[k] else {})
        sz = d.size(axis)
        pos = sub_(lin, off)
        szi = sz.as_int()
        offi = off.as_int()
        if ni is not None and szi is not None and ni <= EXPAND:
            for c in range(szi):
                m2 = dict(mp)
                t = take(Den([d.axes[axis]], subst(d.body, mp)), 0, const(c))
                body = add(body, mul(eq0(sub_(lin, const(offi + c))), t.body))
        else:
            t = take(Den([d.axes[axis]], subst(d.body, mp)), 0, pos)
            ind = sub_(lt0(sub_(pos, sz)), lt0(pos))
            body = add(body, mul(ind, t.body))
        off = add(off, sz)
    ax = list(ref.axes)
    ax[axis] = new
    return Den(ax, body)


def tile(d, reps):
    """np.tile/tf.tile with concrete or symbolic repetitions"""
    if len(reps) < d.rank:
        reps = [ONE] * (d.rank - len(reps)) + list(reps)
    while d.rank < len(reps):
        d = expand_dims(d, 0)
    ax = []
    for g, r in zip(d.axes, reps):
        r = to_poly(r)
        if r.const() == 1:
            ax.append(g)
        else:
            ax.append((IVar(r),) + g)
    return Den(ax, d.body)


def repeat(d, r, axis):
    r = to_poly(r)
    ax = list(d.axes)
    if r.const() != 1:
        ax[axis] = ax[axis] + (IVar(r),)
    return Den(ax, d.body)


def full(sizes, value):
    return Den([mkaxis(s) for s in sizes], to_poly(value))


def eye(n, m=None):
    n = to_poly(n)
    m = n if m is None else to_poly(m)
    a, b = mkaxis(n), mkaxis(m)
    return Den([a, b], eq0(sub_(linear(a), linear(b))))


def arange(start, size, step=1):
    g = mkaxis(size)
    return Den([g], add(to_poly(start), mul(linear(g), to_poly(step))))


def diag(d):
    """vector -> diagonal matrix (square)"""
    d = fresh(d)
    g = d.axes[0]
    h = mkaxis(gsize(g))
    if not g:
        return Den([(), ()], d.body)
    return Den([g, h], mul(eq0(sub_(linear(g), linear(h))), d.body))


def diag_part(d):
    d = fresh(d)
    a, b = d.axes[-2], d.axes[-1]
    if not same_size(gsize(a), gsize(b)):
        raise Undecided('diagonal of a non-square matrix')
    mp = group_map(b, a)
    return Den(list(d.axes[:-2]) + [a], subst(d.body, mp))


def trace(d):
    return reduce_(diag_part(d), 'sum', [d.rank - 2])


# ----------------------------------------------------------------------------
# opaque operators

def opbase(name, dens, extra=(), rank=0, nonneg=False, positive=False, shape=None, info=None):
    key = K(('op', name, tuple(extra), tuple(d.key() for d in dens)))
    b = Base('%s#%d' % (name, key), key, rank, nonneg=nonneg, kind='op', ops=tuple(dens),
             info=info, positive=positive, shape=shape)
    b.name = '%s(%s)' % (name, '; '.join(short(d) for d in dens))
    return b


_opinfo = {}


def mkop(name, dens, extra=(), rank=0, nonneg=False, positive=False, shape=None, info=None):
    b = opbase(name, dens, extra, rank, nonneg, positive, shape, info)
    _opinfo[b.key] = (name, tuple(extra), rank, nonneg, positive, info)
    return b


def short(d, n=60):
    s = repr(d.body)
    return s if len(s) <= n else s[:n] + '...'


def gram_left(d):
    """M M^T of a matrix Den"""
    return matmul(d, d, tb=True)


def gram_right(d):
    return matmul(d, d, ta=True)


def at(d, idx):
    """element of a Den at index polys"""
    mp = {}
    for g, p in zip(d.axes, idx):
        if len(g) == 1:
            mp[g[0]] = p
        elif g:
            stride = ONE
            for v in reversed(g):
                mp[v] = unflat(p, stride, v.size)
                stride = mul(stride, v.size)
    return subst(d.body, mp)


def cut(d, limit=1):
    """give a large value a name (its definition stays attached)"""
    if len(d.body.terms) <= limit or not d.rank:
        return d
    b = mkop('cut', [d], (), d.rank, nonneg=is_nonneg(d.body), shape=list(d.shape))
    return from_base(b, d.shape)


def svd_s_den(d):
    m, n = d.size(0), d.size(1)
    k = min_size(m, n)
    if not d.body.terms:
        return full([k], ZERO)
    g1, g2 = gram_left(d), gram_right(d)
    g = g1 if g1.key() <= g2.key() else g2
    b = mkop('svd_s', [g], (), 1, nonneg=True, shape=[k])
    return from_base(b, [k])


def svd_u_den(d, full_matrices=False):
    m, n = d.size(0), d.size(1)
    k = m if full_matrices else min_size(m, n)
    b = mkop('svd_u', [gram_left(d)], (), 2, shape=[m, k])
    return from_base(b, [m, k])


def svd_v_den(d, full_matrices=False):
    m, n = d.size(0), d.size(1)
    k = n if full_matrices else min_size(m, n)
    b = mkop('svd_v', [d], (), 2, shape=[n, k])
    return from_base(b, [n, k])


def min_size(m, n):
    if m == n:
        return m
    a, b = m.as_int(), n.as_int()
    if a is not None and b is not None:
        return const(min(a, b))
    if a == 1 or b == 1:
        return ONE
    q = mul(n, power(m, -1))
    if is_integer(q):
        return m
    q = mul(m, power(n, -1))
    if is_integer(q):
        return n
    x, y = sorted([m, n], key=lambda p: p.key({}))
    return fpoly(Factor('F', ('minsize', (x, y))))


def matop(name, d):
    """matrix -> matrix opaque operator (pinv, inv, cholesky ...)"""
    if d.rank != 2:
        raise ShapeErr('%s of rank %d' % (name, d.rank))
    b = mkop(name, [d], (), 2)
    return from_base(b, [d.size(1), d.size(0)] if name in ('pinv', 'inv') else d.shape)


def map_den(d, fn, memo=None):
    """substitute tensor atoms; fn(base, idx)->Poly or None. Operands of opaque operators are mapped too."""
    memo = memo if memo is not None else {}

    def f2(base, idx):
        r = fn(base, idx)
        if r is not None:
            return r
        if base.kind == 'op':
            nb = map_opbase(base, f2, memo)
            if nb is not base:
                x = nb.ops[0] if len(nb.ops) == 1 else None
                if x is not None and alg._KR[nb.key][1] == 'cut' and len(x.body.terms) <= 1:
                    return at(fresh(x), idx)
                if x is not None and alg._KR[nb.key][1] == 'svd_s' and not x.body.terms:
                    return ZERO
                return acc(nb, idx)
        return None
    return Den(d.axes, map_bases(d.body, f2, memo.setdefault('polys', {})))


def map_opbase(base, f2, memo):
    om = memo.setdefault('ops', {})
    if base.key in om:
        return om[base.key]
    new = [Den(x.axes, map_bases(x.body, f2, memo.setdefault('polys', {}))) for x in base.ops]
    if all(a.key() == b.key() for a, b in zip(new, base.ops)):
        r = base
    else:
        name, extra, rank, nonneg, positive, info = _opinfo[base.key]
        if name == 'svd_s':
            # operand is a Gram matrix already
            pass
        r = mkop(name, new, extra, rank, nonneg, positive, base.shape, info)
    om[base.key] = r
    return r


def all_bases(d, deep=True, out=None):
    out = {} if out is None else out
    todo = [d.body]
    seen = set()
    while todo:
        p = todo.pop()
        bs = bases_of(p)
        for k, b in bs.items():
            if k in out:
                continue
            out[k] = b
            if deep and b.kind == 'op':
                for x in b.ops:
                    todo.append(x.body)
    return out


# ----------------------------------------------------------------------------
# comparison

def equal(a, b, limit=4096):
    """(True, '') or (False, reason)"""
    if a.rank != b.rank:
        return False, 'rank %d, expected %d' % (a.rank, b.rank)
    for k in range(a.rank):
        if a.size(k) != b.size(k):
            return False, 'axis %d has size %r, expected %r' % (k, a.size(k), b.size(k))
    if a.rank:
        axes, (x, y) = broadcast([a, b])
    else:
        axes, x, y = [], a.body, b.body
    if x.key() == y.key():
        return True, ''
    # small concrete axes: element by element
    ivs = [v for g in axes for v in g if v.size.as_int() is not None and v.size.as_int() <= EXPAND]
    tot = 1
    for v in ivs:
        tot *= v.size.as_int()
    if ivs and tot <= limit:
        import itertools
        for tup in itertools.product(*[range(v.size.as_int()) for v in ivs]):
            mp = {v: const(c) for v, c in zip(ivs, tup)}
            xs, ys = subst(x, mp), subst(y, mp)
            if xs.key() != ys.key():
                return False, 'at %s: got %s, expected %s' % (tup, clip(repr(xs)), clip(repr(ys)))
        return True, ''
    return False, 'got %s, expected %s' % (clip(repr(x)), clip(repr(y)))


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + ' ...'
