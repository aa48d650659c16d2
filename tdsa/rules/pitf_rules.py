"""Pairwise interaction tensor factorization: sampling operators, shrinkage, and the recovery iteration (TensorFlow and NumPy versions)."""
import itertools
from ..alg import *
from .. import alg, bdd
from .. import den as D
from .. import spec as S
from .. import paths as P
from .. import rinterp
from ..values import *
from ..check import Bad, Undec
from ..harness import size_val, NoResult, Raised, dim
from . import rule
from .ops_rules import must_raise
from .factor_rules import settle, attempt, resources_closed, writes_open, int_of, tree_bool, model_site
from .type_rules import unchanged

TFM, NPM = 'tensorD.base.pitf_ops', 'tensorD.base.pitf_ops_numpy'
FILES = {'tf': 'tensorD/base/pitf_ops.py:', 'np': 'tensorD/base/pitf_ops_numpy.py:'}
PAIR = ((0, 1), (1, 2), (2, 0))          # modes of the three matrices; the third mode scales
SCALE = (2, 0, 1)


class Lib(object):
    """one of the two implementations, with its calling conventions"""

    def __init__(self, h, kind):
        self.h, self.kind = h, kind
        self.mod = TFM if kind == 'tf' else NPM

    def con(self, f):
        return FILES[self.kind] + f

    def f(self, n):
        return self.h.get(self.mod, n)

    def arr(self, d, dt=None):
        return self.h.tfd(d, dt or 'float32') if self.kind == 'tf' else self.h.npd(d, dt or 'float64')

    def scalar(self, p):
        return self.h.tfd(D.scalar(p), 'float32') if self.kind == 'tf' else SVal(p, 'float')

    def adjoint(self, spl, y, shape, m, k):
        return self.h.one(self.f('adjoint_operator'), spl, y, shape, m, k)

    def pmat(self, spl, M, shape, m, k):
        return self.h.one(self.f('Pomega_mat'), spl, M, shape, m, k)

    def ptensor(self, spl, T, shape, m):
        f = self.f('Pomega_tensor')
        return self.h.one(f, spl, T, m) if self.kind == 'tf' else self.h.one(f, spl, T, shape, m)


# ------------------------------------------------------------------ specification

def eqi(a, b):
    return eq0(alg.sub_(a, b))


def s_adjoint(spl, y, shape, k, m):
    p, q = PAIR[k]

    def el(i, j):
        return alg.sum_polys([prod([S.at(y, [const(s)]), eqi(i, S.at(spl[p], [const(s)])), eqi(j, S.at(spl[q], [const(s)]))]) for s in range(m)])
    return S.build([shape[p], shape[q]], el)


def s_pmat(spl, M, shape, k, m):
    p, q = PAIR[k]
    w = power(dim(shape[SCALE[k]]), Fraction(-1, 2))
    return S.build([m], lambda s: mul(w, S.at(M, [S.at(spl[p], [s]), S.at(spl[q], [s])])))


def s_ptensor(spl, T, m):
    return S.build([m], lambda s: S.at(T, [S.at(x, [s]) for x in spl]))


def s_center(M):
    n = M.shape[0]
    return S.build(M.shape, lambda i, j: alg.sub_(S.at(M, [i, j]), mul(S.total([n], lambda a: S.at(M, [a, j])), power(n, -1))))


def s_svt(M, tau, cut=None):
    C = s_center(M)
    if cut:
        C = D.cut(C, cut)
    s = D.svd_s_den(C)
    return D.svd_u_den(C, True), S.build(s.shape, lambda i: relu(alg.sub_(S.at(s, [i]), tau))), D.svd_v_den(C, True)


def s_shrink(M, tau, mode, cut=None):
    u, s, v = s_svt(M, tau, cut)
    m, n = M.shape
    k = s.shape[0]
    base = S.build([m, n], lambda i, j: S.total([k], lambda r: prod([S.at(u, [i, r]), S.at(s, [r]), S.at(v, [j, r])])))
    if mode == 'normal':
        return base
    root = power(mul(m, n), Fraction(-1, 2))
    d = mul(S.total([m, n], lambda i, j: S.at(M, [i, j])), root)
    soft = mul(root, add(relu(alg.sub_(d, tau)), alg.min2(ZERO, add(d, tau))))
    return S.build([m, n], lambda i, j: add(S.at(base, [i, j]), soft))


def s_subspace(U, V, mode):
    M = S.mm(U, V, tb=True)
    C = s_center(M)
    if mode != 'A':
        return C
    m, n = M.shape
    mean = mul(S.total([m, n], lambda i, j: S.at(M, [i, j])), power(mul(m, n), -1))
    return S.build([m, n], lambda i, j: add(S.at(C, [i, j]), mean))


from fractions import Fraction


def worlds(seed, n=40, scal=None, sizes=None):
    def gen():
        for k in range(n):
            sc = dict(sizes or {})
            if scal:
                sc.update({a: b[k % len(b)] for a, b in scal.items()})
            w = rinterp.World((seed, k), ('real', 'pos', 'real', 'int')[k % 4], sc, budget=3000000)
            w.null = True
            yield w
    return gen


def same(c, h, got, want, what, con, wl):
    """value equality on every path, deciding by worlds where the normal forms differ"""
    alts = [(g, d) for g, d in ((g, h.den(x)) for g, x in c.leaves(h, got))]
    if any(bdd.unsure(g) for g, d in alts):
        raise Undec('%s depends on a condition that is not tracked' % what)
    if any(d is None for g, d in alts):
        raise Undec('%s not tracked: %s' % (what, str(got)[:120]))
    return settle(P.compare(alts, [(bdd.TRUE, want)], wl, enough=24, thorough=True), what, getattr(got, 'site', None) or con)


# ------------------------------------------------------------------ C24

SHAPES = (('distinct sizes', (2, 3, 4)), ('equal sizes', (2, 2, 2)), ('symbolic sizes', ('I', 'J', 'K')), ('size 1', (1, 3, 2)))
SYMS = [{'I': 3, 'J': 2, 'K': 4}, {'I': 2, 'J': 2, 'K': 2}, {'I': 1, 'J': 3, 'K': 2}]


def shape_forms(h, kind, shape):
    s = [size_val(x) for x in shape]
    out = [('tuple', tuple(s))]
    out.append(('list', h.lst(*s)))
    if kind == 'tf' and all(isinstance(x, int) for x in shape):
        d = S.build([3], lambda i: alg.sum_polys([mul(const(x), eqi(i, const(k))) for k, x in enumerate(shape)]))
        out.append(('tensor', h.tfd(d, 'int32')))
    return out


@rule('C24', 'Abstract interpretation of the sampling operators of both PITF implementations, with symbolic sample positions (so repeated positions '
             'are covered) and symbolic or aliased sizes: element-level comparison with their definition, the adjoint identity, and the drawing range.')
def c24(c):
    wl = lambda seed, shape: (lambda: (w for d in SYMS for w in worlds(seed, 14, sizes=d)())) if 'I' in shape else worlds(seed, 40)
    for kind in ('np', 'tf'):
        for sname, shape in SHAPES:
            for m in ((1, 2, 3) if not c.thorough else (1, 2, 3, 4, 5)):
                h = c.h()
                lib = Lib(h, kind)
                wd = wl(('c24', kind, m), shape)
                for fname, sh in shape_forms(h, kind, shape):
                    if fname != 'tuple' and m != 2:
                        continue
                    inst = '%s, %d samples, shape as %s' % (sname, m, fname)
                    spl = attempt(c, 'sample-positions', lib.con('sample3D_rule'), inst,
                                  lambda: draw(h, lib, sh, shape, m))
                    # operators on arbitrary sample positions (not only on those this library draws)
                    own = [positions(h, 'abc'[k], m, shape[k]) for k in range(3)]
                    vals = h.lst(*[lib.arr(x, 'int32' if kind == 'tf' else 'int64') for x in own])
                    Y = D.tensor('y', [dim(m)])
                    T = D.tensor('T', [dim(s) for s in shape])
                    y, t = lib.arr(Y), lib.arr(T)
                    Ms = [D.tensor('M%d' % k, [dim(shape[p]), dim(shape[q])]) for k, (p, q) in enumerate(PAIR)]
                    for k in range(3):
                        c.ob('adjoint', lib.con('adjoint_operator'), inst + ', matrix %d' % k,
                             lambda: same(c, h, lib.adjoint(vals, y, sh, m, k), s_adjoint(own, Y, shape, k, m), 'adjoint_operator(dim=%d)' % k, lib.con('adjoint_operator'), wd))
                        c.ob('sample-matrix', lib.con('Pomega_mat'), inst + ', matrix %d' % k,
                             lambda: same(c, h, lib.pmat(vals, lib.arr(Ms[k]), sh, m, k), s_pmat(own, Ms[k], shape, k, m), 'Pomega_mat(dim=%d)' % k, lib.con('Pomega_mat'), wd))
                        c.ob('adjoint-identity', lib.con('adjoint_operator'), inst + ', matrix %d' % k,
                             lambda: adjoint_identity(c, h, lib, vals, y, Y, Ms[k], shape, sh, m, k, wd))
                    c.ob('sample-tensor', lib.con('Pomega_tensor'), inst,
                         lambda: same(c, h, lib.ptensor(vals, t, sh, m), s_ptensor(own, T, m), 'Pomega_tensor', lib.con('Pomega_tensor'), wd))

                    def pair():
                        r = h.one(lib.f('Pomega_Pair'), vals, *([lib.arr(x) for x in Ms] + [sh, m]))
                        w = [s_pmat(own, Ms[k], shape, k, m) for k in range(3)]
                        same(c, h, r, S.build([m], lambda s: alg.sum_polys([S.at(x, [s]) for x in w])), 'Pomega_Pair', lib.con('Pomega_Pair'), wd)
                    c.ob('sample-pair', lib.con('Pomega_Pair'), inst, pair)
                    if kind == 'tf' and m == 2:
                        for bad in (3, None):
                            c.ob('unknown-matrix', lib.con('adjoint_operator'), inst + ', dim=%s' % bad,
                                 lambda: must_raise(h, ['ValueError'], lib.f('adjoint_operator'), vals, y, sh, m, bad))
                            c.ob('unknown-matrix', lib.con('Pomega_mat'), inst + ', dim=%s' % bad,
                                 lambda: must_raise(h, ['ValueError'], lib.f('Pomega_mat'), vals, lib.arr(Ms[0]), sh, m, bad))
                    if kind == 'np' and m == 2:
                        lst = h.lst(*[h.np('z', [m]) for _ in range(1)])
                        ya, ma = h.npd(Y), h.npd(Ms[0])
                        spv = h.items(vals)
                        refs = [('positions', vals)] + [('positions[%d]' % i, x) for i, x in enumerate(spv)]
                        c.ob('argument-unchanged', lib.con('adjoint_operator'), inst,
                             lambda: unchanged(h, refs + [('sample vector', ya)], lambda: h.I.call(lib.f('adjoint_operator'), [vals, ya, sh, m, 0], {}), 'adjoint_operator'))
                        c.ob('argument-unchanged', lib.con('Pomega_mat'), inst,
                             lambda: unchanged(h, refs + [('matrix', ma)], lambda: h.I.call(lib.f('Pomega_mat'), [vals, ma, sh, m, 0], {}), 'Pomega_mat'))


def positions(h, name, m, size):
    """arbitrary integer positions in [0, size)"""
    b = Base(name, K(('pos', name, m, dim(size).key({}))), 1, nonneg=True, kind='int', info=(ZERO, dim(size)), shape=[dim(m)])
    return D.from_base(b, [dim(m)])


def is_draw(b):
    return b.kind in ('rand', 'rnd', 'rndrun') and (b.name.startswith('randint') or b.name.startswith('choice'))


def draw_range(b):
    i = b.info
    if isinstance(i, tuple) and len(i) == 4:
        i = i[2:]
    if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, Poly) for x in i):
        return i
    return None


def draw(h, lib, sh, shape, m):
    """sample3D_rule returns three independent position lists, each covering exactly its mode"""
    r = h.items(h.one(lib.f('sample3D_rule'), sh, m))
    con = lib.con('sample3D_rule')
    if len(r) != 3:
        raise Bad('%d position lists instead of 3' % len(r), con)
    seen = []
    for k, x in enumerate(r):
        d = h.den(x)
        if d is None:
            raise Undec('positions not tracked')
        if d.rank != 1 or d.shape[0] != dim(m):
            raise Bad('position list %d has shape %s, expected [%s]' % (k, d.shape, m), con)
        bs = list(D.all_bases(d).values())
        b = bs[0] if len(bs) == 1 else None
        if b is None or not is_draw(b) or draw_range(b) is None or not D.equal(d, D.from_base(b, d.shape))[0]:
            raise Undec('position list %d is not a plain integer draw: %s' % (k, D.clip(repr(d), 120)))
        lo, hi = draw_range(b)
        if lo != ZERO or hi != dim(shape[k]):
            raise Bad('positions of mode %d are drawn from [%r, %r) instead of [0, %s)' % (k, lo, hi, shape[k]), con)
        if b.key in seen:
            raise Bad('two modes use the same draw', con)
        seen.append(b.key)
    return r


def adjoint_identity(c, h, lib, vals, y, Y, M, shape, sh, m, k, wd):
    """<P(M), y> * sqrt(size) == <M, P*(y)>"""
    a = h.den(lib.pmat(vals, lib.arr(M), sh, m, k))
    b = h.den(lib.adjoint(vals, y, sh, m, k))
    if a is None or b is None:
        raise Undec('operators not tracked')
    if a.rank != 1 or b.rank != 2:
        raise Bad('results of rank %d and %d' % (a.rank, b.rank), lib.con('adjoint_operator'))
    left = mul(power(dim(shape[SCALE[k]]), Fraction(1, 2)), S.total([m], lambda s: mul(S.at(a, [s]), S.at(Y, [s]))))
    right = S.total(M.shape, lambda i, j: mul(S.at(M, [i, j]), S.at(b, [i, j])))
    return settle(P.compare([(bdd.TRUE, D.scalar(right))], [(bdd.TRUE, D.scalar(left))], wd), '<M, adjoint(y)>', lib.con('adjoint_operator'))


# ------------------------------------------------------------------ C25

@rule('C25', 'Abstract interpretation of centralization, subspace, SVT, shrink and the cone projection of both PITF implementations; singular vectors are '
             'uninterpreted operators of the matrix, so U diag(s) V^T has to be assembled exactly as specified; element-level comparison.')
def c25(c):
    for kind in ('np', 'tf'):
        for sname, shape in (('2x3', (2, 3)), ('3x2', (3, 2)), ('square', (2, 2)), ('symbolic', ('I', 'J')), ('symbolic square', ('I', 'I')),
                             ('row', (1, 3)), ('column', (3, 1))) + ((('4x3', (4, 3)), ('3x4', (3, 4))) if c.thorough else ()):
            h = c.h()
            lib = Lib(h, kind)
            wd = (lambda: (w for d in ({'I': 3, 'J': 2}, {'I': 2, 'J': 4}) for w in worlds('c25', 14, sizes=d, scal=TAUS)())) if 'I' in shape else worlds('c25', 40, scal=TAUS)
            M = D.tensor('M', [dim(s) for s in shape])
            m = lib.arr(M)
            c.ob('centralization', lib.con('centralization'), sname, lambda: same(c, h, h.one(lib.f('centralization'), m), s_center(M), 'centralization', lib.con('centralization'), wd))
            for r in (1, 2) if 'I' not in shape else (2,):
                for mode in 'ABC':
                    c.ob('subspace', lib.con('subspace'), '%s, rank %d, %s' % (sname, r, mode), lambda: subspace(c, h, lib, shape, r, mode, wd))
            if kind == 'np':
                c.ob('argument-unchanged', lib.con('centralization'), sname, lambda: unchanged(h, [('matrix', m)], lambda: h.I.call(lib.f('centralization'), [m], {}), 'centralization'))
            if 'I' in shape:
                continue
            tau = sym('tau', 'p')
            for mode in ('normal', 'complicated'):
                c.ob('shrink', lib.con('shrink'), '%s, %s' % (sname, mode),
                     lambda: same(c, h, h.one(lib.f('shrink'), m, lib.scalar(tau), mode=mode), s_shrink(M, tau, mode), 'shrink(mode=%s)' % mode, lib.con('shrink'), wd))
            c.ob('shrink', lib.con('shrink'), '%s, default mode' % sname,
                 lambda: same(c, h, h.one(lib.f('shrink'), m, lib.scalar(tau)), s_shrink(M, tau, 'normal'), 'shrink()', lib.con('shrink'), wd))
            c.ob('svt', lib.con('SVT'), sname, lambda: svt(c, h, lib, M, m, tau, wd))
            if kind == 'np':
                for mode in ('normal', 'complicated'):
                    c.ob('argument-unchanged', lib.con('shrink'), sname + ', ' + mode,
                         lambda: unchanged(h, [('matrix', m)], lambda: h.I.call(lib.f('shrink'), [m, SVal(tau, 'float')], {'mode': mode}), 'shrink'))
    for kind in ('np', 'tf'):
        for shape in ((2, 3, 4), (3, 2, 2), (2, 2, 2), (1, 2, 3), ('I', 'J', 'K')):
            for ranks in ((1, 2, 3), (2, 2, 2), (3, 1, 2)):
                h = c.h()
                lib = Lib(h, kind)
                wd = (lambda: (w for d in SYMS[:2] for w in worlds('c25m', 14, sizes=d)())) if 'I' in shape else worlds('c25m', 40)
                c.ob('pair-matrices', lib.con('sample_rule4mat'), 'shape %s, ranks %s' % (shape, ranks), lambda: rule4mat(c, h, lib, shape, ranks, wd))
    for n in (1, 2, 3):
        h = c.h()
        lib = Lib(h, 'np')
        c.ob('cone-projection', lib.con('cone_projection_operator'), 'vector of size %d' % n, lambda: cone(c, h, lib, n))


TAUS = {'tau': [0.1, 0.5, 1.0, 2.5, 0.01]}


def subspace(c, h, lib, shape, r, mode, wd):
    v = h.one(lib.f('subspace'), tuple(size_val(s) for s in shape), r, mode)
    return one_subspace(h, lib, v, shape, r, mode, wd, 'subspace')[0]


def one_subspace(h, lib, v, shape, r, mode, wd, fn):
    """v is the constrained product of two separately drawn factors; returns (text, keys of the draws)"""
    con = lib.con(fn)
    d = h.den(v)
    if d is None:
        if isinstance(h.I.simp(v), bool) or v is None:
            raise Bad('%s(%s) is %s' % (fn, mode, v), con)
        raise Undec('%s not tracked' % fn)
    if d.rank != 2:
        raise Bad('rank %d' % d.rank, con)
    if list(d.shape) != [dim(x) for x in shape]:
        if all(isinstance(x, int) for x in shape) and all(x.is_const() for x in d.shape):
            raise Bad('%s(%s) has shape %s, expected %s' % (fn, mode, list(d.shape), list(shape)), con)
        raise Undec('shape %s' % (d.shape,))
    draws = [b for b in P.deep_bases(d).values() if b.kind in ('rand', 'rnd')]
    if not draws and shape[0] == 1 and mode != 'A':        # a centred row is zero
        return settle(P.compare([(bdd.TRUE, d)], [(bdd.TRUE, D.full([dim(x) for x in shape], ZERO))], wd), '%s(%s)' % (fn, mode), con), set()
    U = [b for b in draws if [repr(x) for x in b.shape] == [repr(dim(shape[0])), repr(dim(r))]]
    V = [b for b in draws if [repr(x) for x in b.shape] == [repr(dim(shape[1])), repr(dim(r))]]
    if repr(dim(shape[0])) == repr(dim(shape[1])):
        U, V = U[:1], U[1:]
    if len(draws) != 2 or len(U) != 1 or len(V) != 1:
        if all(isinstance(x, int) for x in shape) and isinstance(r, int):
            n = 0
            for b in draws:
                k = 1
                for x in b.shape:
                    x = x.as_int()
                    k = None if x is None or k is None else k * x
                n = None if k is None or n is None else n + k
            if n is not None and n < r * (shape[0] + shape[1]):
                raise Bad('%d random numbers are drawn for factors of %dx%d and %dx%d' % (n, shape[0], r, shape[1], r), con)
        raise Undec('the two random factors are not identified among %s' % draws)
    bad = [b for b in (U[0], V[0]) if not is_normal(b)]
    if bad:
        raise Bad('factor %s is not drawn from the normal distribution' % bad[0].name, con)
    keys = {U[0].key, V[0].key}
    U, V = [D.from_base(b[0], b[0].shape) for b in (U, V)]
    last = None
    for p, q in ((U, V), (V, U)):
        if p.shape[0] != dim(shape[0]) or q.shape[0] != dim(shape[1]):
            continue
        r = P.compare([(bdd.TRUE, d)], [(bdd.TRUE, s_subspace(p, q, mode))], wd)
        if r[0] == 'equal':
            return r[1], keys
        last = last or r
    settle(last, '%s(%s)' % (fn, mode), getattr(v, 'site', None) or con)


def is_normal(b):
    return 'normal' in b.name or 'randn' in b.name


def rule4mat(c, h, lib, shape, ranks, wd):
    """three constrained matrices of the mode pairs, drawn separately"""
    con = lib.con('sample_rule4mat')
    args = [tuple(size_val(s) for s in shape)] + list(ranks) + ([5] if lib.kind == 'np' else [])
    parts = h.items(h.one(lib.f('sample_rule4mat'), *args))
    if len(parts) != 3:
        raise Bad('%d results instead of 3' % len(parts), con)
    seen = set()
    for k, v in enumerate(parts):
        p, q = PAIR[k]
        how, keys = one_subspace(h, lib, v, (shape[p], shape[q]), ranks[k], 'ABC'[k], wd, 'sample_rule4mat')
        if keys & seen:
            raise Bad('two of the matrices share a random factor', con)
        seen |= keys


def svt(c, h, lib, M, m, tau, wd):
    """thresholded singular values, and U diag(s) V^T put together from the returned parts"""
    parts = h.items(h.one(lib.f('SVT'), m, lib.scalar(tau)))
    con = lib.con('SVT')
    if len(parts) != 3:
        raise Bad('%d results instead of 3' % len(parts), con)
    ds = [h.den(x) for x in parts]
    if any(d is None for d in ds):
        raise Undec('SVT not tracked')
    s, u, v = ds if lib.kind == 'tf' else (ds[1], ds[0], ds[2])
    if (s.rank, u.rank, v.rank) != (1, 2, 2):
        raise Bad('results of rank %d, %d, %d for singular values, left and right vectors' % (s.rank, u.rank, v.rank), con)
    k = s.shape[0]
    wu, ws, wv = s_svt(M, tau)
    settle(P.compare([(bdd.TRUE, s)], [(bdd.TRUE, ws)], wd), 'singular values of SVT', con)
    if lib.kind == 'np':
        right = lambda j, r: S.at(v, [r, j])
    else:
        right = lambda j, r: S.at(v, [j, r])
    got = S.build(M.shape, lambda i, j: S.total([k], lambda r: prod([S.at(u, [i, r]), S.at(s, [r]), right(j, r)])))
    settle(P.compare([(bdd.TRUE, got)], [(bdd.TRUE, s_shrink(M, tau, 'normal'))], wd), 'U diag(s) V^T of SVT', con)


def cone(c, h, lib, n):
    """projection on the second-order cone {|x| <= t}"""
    I = h.I
    X = D.tensor('x', [dim(n)])
    t = sym('t')
    v = h.one(lib.f('cone_projection_operator'), h.npd(X), SVal(t, 'float'))
    got = P.merge(P.tree(I, v))
    con = lib.con('cone_projection_operator')
    ok = 0
    why = 'no usable interpretation'
    for k in range(60):
        w = rinterp.World(('cone', n, k), ('real', 'pos', 'int')[k % 3], {'t': (-4.0, -1.0, -0.3, 0.0, 0.4, 1.0, 3.0, 6.0)[k % 8]})
        try:
            s = P.pick(w, got)
            xs = [float(w.den(X)[i,]) for i in range(n)]
            tv = w.scal.get('t')
            nx = math.sqrt(sum(x * x for x in xs))
            if abs(nx - tv) < 1e-6 or abs(nx + tv) < 1e-6:
                continue
            if nx <= tv:
                wx, wt = xs, tv
            elif nx <= -tv:
                wx, wt = [0.0] * n, 0.0
            else:
                a = (nx + tv) / (2 * nx)
                wx, wt = [a * x for x in xs], a * nx
            if not isinstance(s, tuple) or len(s) != 2:
                raise Bad('result %s instead of a pair (x, t) for x=%s, t=%s' % (P.show(s), xs, tv), con)
            gx, gt = [den_value(w, y) for y in s]
            gx = [gx.get((i,), gx.get((), 0)) for i in range(n)]
            gt = gt.get((), 0)
            same = all(rinterp.close(a, b) for a, b in zip(gx + [gt], wx + [wt]))
        except rinterp.Skip as e:
            why = str(e)
            continue
        except rinterp.NoEval as e:
            raise Undec(str(e))
        if not same:
            raise Bad('for x=%s, t=%.4g the result is (%s, %.4g), the projection is (%s, %.4g)' % (
                ['%.4g' % x for x in xs], tv, ['%.4g' % float(x) for x in gx], float(gt), ['%.4g' % x for x in wx], wt), con)
        ok += 1
    if ok < 12:
        raise Undec(why)
    return '%d interpretations over all three regions' % ok


def den_value(w, y):
    if isinstance(y, D.Den):
        return w.den(y)
    if isinstance(y, (int, float, Fraction)) and not isinstance(y, bool):
        return {(): y}
    raise rinterp.NoEval('%s not tracked' % (y,))


import math


# ------------------------------------------------------------------ C26 the recovery iteration

TFC, NPC = 'tensorD/factorization/pitf.py:PITF', 'tensorD/factorization/pitf_numpy.py:PITF_np'
CUT = 16
DIMS3 = (2, 3, 4)


class Iteration(object):
    """specified iteration from given sample positions"""

    def __init__(self, X, shape, m, spl):
        self.X, self.shape, self.m, self.spl = X, shape, m, spl
        vol = S.prodp([dim(s) for s in shape])
        root = alg.sqrt(vol)
        self.delt = mul(mul(sym('delt', 'p'), dim(m)), power(root, -1))
        self.tao = mul(sym('tao', 'p'), root)
        self.rows = []
        y = D.full([dim(m)], ZERO)
        self.y = y

    def step(self):
        mats = []
        for k in range(3):
            A = D.cut(s_adjoint(self.spl, self.y, self.shape, k, self.m), CUT)
            Z = s_shrink(A, self.tao, 'complicated' if k == 0 else 'normal', CUT)
            w = power(dim(self.shape[SCALE[k]]), Fraction(-1, 2))
            mats.append(D.cut(S.build(Z.shape, lambda i, j: mul(w, S.at(Z, [i, j]))), CUT))
        e1 = s_ptensor(self.spl, self.X, self.m)
        parts = [s_pmat(self.spl, mats[k], self.shape, k, self.m) for k in range(3)]
        e2 = D.cut(S.build([self.m], lambda s: alg.sum_polys([S.at(x, [s]) for x in parts])), CUT)
        e = S.sub(e1, e2)
        n = S.sumsq(e)
        erate = mul(alg.sqrt(n), power(alg.sqrt(S.sumsq(e1)), -1))
        loss = alg.sqrt(mul(n, power(dim(self.m), -1)))
        y0 = self.y
        self.y = D.cut(S.build([self.m], lambda s: add(S.at(y0, [s]), mul(self.delt, S.at(e, [s])))), CUT)
        self.rows.append({'mats': mats, 'e2': e2, 'erate': D.scalar(erate), 'loss': D.scalar(loss), 'y': self.y})
        return self.rows[-1]


def roles(dens, shape, con, count, fresh=None):
    """the three draws of sample positions the results depend on: the possible assignments to the modes"""
    bs = {}
    for d in dens:
        P.deep_bases(d, bs)
    draws = sorted([b for b in bs.values() if is_draw(b)], key=lambda b: b.key)
    if fresh is not None:
        old = [b for b in draws if b.key in fresh]
        if old:
            raise Bad('the results of a later training depend on sample positions of an earlier one', con)
    groups = {}
    for k, s in enumerate(shape):
        groups.setdefault(s, []).append(k)
    out = {}
    used = []
    for s, modes in groups.items():
        hit = [b for b in draws if draw_range(b) is not None and draw_range(b)[1] == dim(s)]
        if len(hit) > len(modes):
            raise Bad('the sample positions of modes %s are drawn %d times during one training' % (modes, len(hit)), con)
        used += hit
        if s == 1 and len(hit) < len(modes):
            hit = [None] * len(modes)
        out[s] = (modes, hit)
    if len(used) < len(draws):
        raise Bad('sample positions are drawn from %s; the tensor has shape %s' % ([draw_range(b) for b in draws if b not in used], shape), con)
    if any(len(m) != len(hit) for m, hit in out.values()):
        raise Undec('sample positions not identified: %s' % draws)
    cands = []
    for perm in itertools.product(*[itertools.permutations(hit) if s != 1 else [hit] for s, (m, hit) in out.items()]):
        r = [None] * len(shape)
        for (m, _), hs in zip(out.values(), perm):
            for k, b in zip(m, hs):
                r[k] = D.full([dim(count)], ZERO) if b is None else D.from_base(b, b.shape)
        cands.append(r)
    return cands


def any_roles(cands, fn):
    """the comparison holds for one assignment of the draws to the modes"""
    first = None
    for spl in cands:
        try:
            return fn(spl)
        except Bad as e:
            first = first or e
    raise first


WORLD_SCAL = {'delt': [0.3, 0.9, 1.7, 0.05], 'tao': [0.01, 0.002, 0.05, 0.1, 0.0005, 0.3]}


def iter_worlds(seed):
    """worlds shared by every comparison of one training, so that what they have in common is evaluated once"""
    gen = worlds(seed, 60, scal=WORLD_SCAL)()
    got = []

    def all_worlds():
        k = 0
        while True:
            if k == len(got):
                w = next(gen, None)
                if w is None:
                    return
                w.budget, w.t_end = 30000000, w.t_end + 100
                got.append(w)
            yield got[k]
            k += 1
    return all_worlds


class Pitf(object):
    def __init__(self, c, kind, m, steps, vi=1, shape=DIMS3, model_exc=False, before=None, h=None, train=True, path='/tmp/summary'):
        self.kind, self.shape, self.m, self.steps = kind, shape, m, steps
        self.h = h = h or c.h(model_exc=model_exc)
        I = self.I = h.I
        I.cut_terms = CUT
        self.X = D.tensor('T', [dim(s) for s in shape])
        self.data = data = h.tfd(self.X, 'float32') if kind == 'tf' else h.npd(self.X)
        prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
        I.setattr(prov, 'full_tensor', Builtin('full_tensor', lambda I, a, kw: data))
        self.env = h.one(h.get('tensorD.factorization.env', 'Environment'), prov, path)
        mod = 'tensorD.factorization.pitf' if kind == 'tf' else 'tensorD.factorization.pitf_numpy'
        cls, acls = ('PITF', 'PITF_Args') if kind == 'tf' else ('PITF_np', 'PITF_np_Args')
        kw = dict(rank=2, delt=h.num('delt', 'p'), tao=h.num('tao', 'p'), sample_num=m)
        if vi is not None:
            kw['validation_internal'] = vi
        if kind == 'np':
            kw['steps'] = steps
        self.args = h.one(h.get(mod, cls, acls), **kw)
        if before:
            before(self)
        self.model = h.one(h.get(mod, cls), self.env)
        self.log0 = len(I.log)
        if kind == 'tf':
            h.m(self.model, 'build_model', self.args)
        if train:
            self.result = h.only(self.run())

    def run(self):
        self.mark = len(self.I.log)
        if self.kind == 'tf':
            return self.h.mouts(self.model, 'train', self.steps)
        return self.h.mouts(self.model, 'exact_recovery', self.args, self.data)

    def records(self):
        """{step: {tag: den}} of the last training, with the guard"""
        out = {}
        for g, kind, data, site in self.I.log[self.mark:]:
            if kind == 'escaped' and g != bdd.FALSE:
                raise Undec('a resource is handed to code the analysis does not model at %s' % (site,))
            if kind != 'sumwrite' or data[1] != 'add_summary':
                continue
            k = int_of(self.I.simp(data[3]))
            msg = data[2]
            vals = self.I.summaries.get(tuple(msg.tag[1:])) if isinstance(msg, StrV) and isinstance(msg.tag, tuple) else None
            if k is None or vals is None:
                raise Undec('summary record not tracked')
            if g != bdd.TRUE:
                raise Undec('summary record of step %s under a condition' % k)
            if k in out:
                raise Bad('step %d is recorded twice' % k, site)
            tags = {}
            for tag, d in vals:
                if tag in tags:
                    raise Bad('two values with the tag %r in one summary record' % tag, site)
                tags[tag] = d
            out[k] = (tags, site)
        return out


def tf_values(c, t, con, label, fresh=None, vi=1):
    rec = t.records()
    want = sorted(k for k in range(1, t.steps + 1) if k in (1, t.steps) or vi not in (-1, None) and k % vi == 0)
    if sorted(rec) != want:
        raise Bad('summary records at steps %s, specified %s' % (sorted(rec), want), con)
    y = t.h.attr(t.model, '_sample_vector')
    yd = t.h.den(y)
    dens = [d for tags, _ in rec.values() for d in tags.values() if d is not None] + ([yd] if yd is not None else [])
    return any_roles(roles(dens, t.shape, con, t.m, fresh), lambda spl: tf_compare(t, spl, rec, yd, con, label))


def tf_compare(t, spl, rec, yd, con, label):
    it = Iteration(t.X, t.shape, t.m, spl)
    n = 0
    wl = iter_worlds(label)
    for k in range(1, t.steps + 1):
        row = it.step()
        if k not in rec:
            continue
        tags, site = rec[k]
        for tag, key in (('error rate', 'erate'), ('loss', 'loss')):
            if tag not in tags:
                raise Bad('the summary record of step %d has no value %r' % (k, tag), site)
            if tags[tag] is None:
                raise Undec('summary value %r not tracked' % tag)
            settle(P.compare([(bdd.TRUE, tags[tag])], [(bdd.TRUE, row[key])], wl), '%s at step %d:' % (tag, k), site)
            n += 1
    if yd is None:
        raise Undec('sample vector not tracked')
    settle(P.compare([(bdd.TRUE, yd)], [(bdd.TRUE, it.y)], wl), 'sample vector after %d steps:' % t.steps, con)
    return '%d values' % (n + 1)


def np_values(c, t, con, label, fresh=None):
    I = t.I
    parts = t.h.items(t.result)
    if len(parts) != 7:
        raise Bad('%d results instead of 7' % len(parts), con)
    got = [P.merge(P.tree(I, x)) for x in parts]
    for g in got:
        if len(g) != 1:
            raise Undec('results depend on a condition')
    got = [g[0][1] for g in got]
    dens = [d for g in got for _, d in P.leaves(g) if isinstance(d, D.Den)]
    return any_roles(roles(dens, t.shape, con, t.m, fresh), lambda spl: np_compare(t, spl, got, con, label))


def np_compare(t, spl, got, con, label):
    it = Iteration(t.X, t.shape, t.m, spl)
    for k in range(t.steps):
        it.step()
    last = it.rows[-1]
    wl = iter_worlds(label)
    want = [it.y] + last['mats'] + [tuple(D.scalar(const(k)) for k in range(t.steps)), tuple(r['erate'] for r in it.rows), tuple(r['loss'] for r in it.rows)]
    n = 0
    for nm, g, w in zip(('sample vector', 'X', 'Y', 'Z', 'iteration numbers', 'error rates', 'losses'), got, want):
        settle(P.compare([(bdd.TRUE, g)], [(bdd.TRUE, w)], wl), '%s after %d steps:' % (nm, t.steps), con)
        n += 1
    return '%d results' % n


def flag_is(t, want, when):
    v = t.h.m(t.model, 'train_finish')
    con = TFC
    for g, b in P.merge(P.tree(t.I, v)):
        x = tree_bool(t.I, v)
        break
    x = t.I.truth(v) if v is not None else bdd.FALSE
    if bdd.unsure(x):
        raise Undec('train_finish depends on a condition that is not tracked')
    if x != (bdd.TRUE if want else bdd.FALSE):
        raise Bad('train_finish() is %s %s' % (v, when), con)


@rule('C26', 'Abstract interpretation of PITF.build_model/train and PITF_np.exact_recovery on small shapes, symbolic data, step size and threshold: '
             'recorded error rate and loss of every step, the sample vector and the matrices are compared with the specified iteration started from the '
             'drawn sample positions; one set of positions per training; memory order of variable accesses; finish flag and files.')
def c26(c):
    cfg = [(DIMS3, 2, 1), (DIMS3, 2, 2), (DIMS3, 3, 2), (DIMS3, 2, 3), ((1, 1, 2), 3, 1), ((2, 2, 3), 2, 1)]
    if c.thorough:
        cfg += [((1, 2, 1), 3, 2), ((2, 2, 2), 2, 1), ((3, 1, 3), 2, 2), ((3, 2, 4), 3, 2), ((4, 3, 2), 3, 2), (DIMS3, 3, 3), ((3, 2, 4), 3, 3), ((2, 3, 5), 4, 2), (DIMS3, 2, 4)]
    for shape, m, steps in cfg:
        for kind, con in (('tf', TFC), ('np', NPC)):
            label = 'shape %s, %d samples, %d steps' % (shape, m, steps)
            t = attempt(c, 'recovery', con, label + ': train', lambda: Pitf(c, kind, m, steps, shape=shape))
            if t is None:
                continue
            fn = tf_values if kind == 'tf' else np_values
            c.ob('recovery', con, label, lambda: fn(c, t, con, label))
            c.ob('files-closed', con, label, lambda: resources_closed(t.I, t.I.log[t.log0:], con))
            if kind == 'tf':
                c.ob('writer-open-when-written', con, label, lambda: writes_open(t.I, t.I.log[t.log0:], con))
                c.ob('finish-flag', con, label, lambda: flag_is(t, True, 'after a complete training'))
                c.ob('ordered-access', con, label, lambda: no_races(t))
                old = {b.key for d in all_values(t) for b in P.deep_bases(d).values() if is_draw(b)}
                again = attempt(c, 'fresh-start', con, label + ': train again', lambda: t.h.only(t.run()) or 1)
                if again is not None:
                    c.ob('fresh-start', con, label, lambda: tf_values(c, t, con, label, fresh=old))
            else:
                c.ob('argument-unchanged', con, label, lambda: unchanged(t.h, [('tensor', t.data), ('args', t.args)], lambda: t.I.call(t.I.getattr(t.model, 'exact_recovery'), [t.args, t.data], {}), 'exact_recovery'))
    for steps in (1, 2, 3, 4, 5):
        for vi in (-1, 1, 2, 3, None):
            label = '%d steps, validation_internal %s' % (steps, vi)
            t = attempt(c, 'reported-steps', TFC, label + ': train', lambda: Pitf(c, 'tf', 1, steps, vi=vi))
            if t is not None:
                c.ob('reported-steps', TFC, label, lambda: reported(t, vi))
    for kind, con in (('tf', TFC),):
        def unfinished():
            t = Pitf(c, 'tf', 2, 2, train=False)
            flag_is(t, False, 'before training')
        c.ob('finish-flag', con, 'before training', unfinished)

        def failing():
            t = Pitf(c, 'tf', 2, 2, model_exc=True, train=False)
            t.h.only([o for o in t.run() if o[0] == 'ok'])
            n = 0
            outs = t.run()
            for o in outs:
                if o[0] != 'raise':
                    continue
                st = t.I.st
                t.I.st = o[1]
                try:
                    flag_is(t, False, 'after a training that raised %s at %s' % (o[2].name, o[2].site))
                    n += 1
                finally:
                    t.I.st = st
            if not n:
                raise Undec('no failing exit')
            return '%d failing exits' % n
        c.ob('finish-flag', con, 'second training fails', failing)


def reported(t, vi):
    rec = t.records()
    want = sorted(k for k in range(1, t.steps + 1) if k in (1, t.steps) or vi not in (-1, None) and k % vi == 0)
    if sorted(rec) != want:
        raise Bad('summary records at steps %s, specified %s' % (sorted(rec), want), TFC)
    for g, kind, data, site in t.I.log[t.mark:]:
        if kind == 'writer' and t.I.simp(data[1]) != '/tmp/summary':
            raise Bad('the summary is written to %r, not to the directory of the environment' % (t.I.simp(data[1]),), site)


def all_values(t):
    out = [d for tags, _ in t.records().values() for d in tags.values() if d is not None]
    y = t.h.den(t.h.attr(t.model, '_sample_vector'))
    return out + ([y] if y is not None else [])


def no_races(t):
    n = 0
    for d in all_values(t):
        for b in P.deep_bases(d).values():
            n += 1
            if b.kind == 'race':
                raise Bad('a result depends on the order in which TensorFlow runs unordered operations: %s %s' % (b.name, b.info), TFC)
    return '%d values' % n
