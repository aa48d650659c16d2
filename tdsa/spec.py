"""Definitional (index-level) specifications, written independently of the code
under analysis: every specified tensor is given by its axes and one scalar
expression in the axis indices."""
from .alg import *
from . import alg
from . import den as D
from .den import Den, IVar, mkaxis, linear


def dim(s):
    return dimsym(s) if isinstance(s, str) else to_poly(s)


class Ax(object):
    """one index running over a size"""

    def __init__(self, size):
        self.g = mkaxis(dim(size))
        self.i = ivar(self.g[0]) if self.g else ZERO


def at(d, idx):
    """element of a Den at scalar indices (Polys)"""
    mp = {}
    for g, i in zip(d.axes, idx):
        i = to_poly(i)
        if not g:
            continue
        if len(g) == 1:
            mp[g[0]] = i
        else:
            stride = ONE
            for v in reversed(g):
                mp[v] = alg.unflat(i, stride, v.size)
                stride = mul(stride, v.size)
    f = D.fresh(d)
    ren = {}
    for g0, g1 in zip(d.axes, f.axes):
        for a, b in zip(g0, g1):
            ren[b] = mp[a]
    return subst(f.body, ren)


def build(sizes, fn):
    """tensor with the given sizes whose element is fn(*indices)"""
    ax = [Ax(s) for s in sizes]
    return Den([a.g for a in ax], to_poly(fn(*[a.i for a in ax])))


def grouped(groups, sizes, fn):
    """like build, but result axes are row-major groups of the named indices: groups = [[positions]]"""
    ax = [Ax(s) for s in sizes]
    axes = []
    for g in groups:
        axes.append(tuple(v for p in g for v in ax[p].g))
    return Den(axes, to_poly(fn(*[a.i for a in ax])))


def total(sizes, fn):
    """sum over indices of fn"""
    ax = [Ax(s) for s in sizes]
    vs = [v for a in ax for v in a.g]
    b = to_poly(fn(*[a.i for a in ax]))
    return sum_over(b, vs) if vs else b


def sq(p):
    return mul(p, p)


def prodp(ps):
    r = ONE
    for p in ps:
        r = mul(r, to_poly(p))
    return r


# ------------------------------------------------------------ linear algebra

def unfold(X, n):
    """Kolda mode-n unfolding: rows i_n, columns the other indices, lowest mode fastest"""
    N = X.rank
    rest = [k for k in range(N - 1, -1, -1) if k != n]
    return grouped([[n], rest], X.shape, lambda *i: at(X, i))


def fold(M, n, sizes):
    """the tensor whose mode-n unfolding is M"""
    N = len(sizes)
    rest = [k for k in range(N) if k != n]      # lowest mode fastest

    def el(*i):
        col, stride = ZERO, ONE
        for k in rest:
            col = add(col, mul(i[k], stride))
            stride = mul(stride, dim(sizes[k]))
        return at(M, [i[n], col])
    return build(sizes, el)


def t2mat(X, rows, cols):
    return grouped([rows, cols], X.shape, lambda *i: at(X, i))


def contract(A, B, aa, ba):
    """sum over paired axes; remaining axes of A then remaining axes of B"""
    ra = [k for k in range(A.rank) if k not in aa]
    rb = [k for k in range(B.rank) if k not in ba]
    sizes = [A.shape[k] for k in ra] + [B.shape[k] for k in rb]

    def el(*i):
        def inner(*s):
            ia, ib = [None] * A.rank, [None] * B.rank
            for k, p in enumerate(ra):
                ia[p] = i[k]
            for k, p in enumerate(rb):
                ib[p] = i[len(ra) + k]
            for k, (p, q) in enumerate(zip(aa, ba)):
                ia[p] = s[k]
                ib[q] = s[k]
            return mul(at(A, ia), at(B, ib))
        return total([A.shape[p] for p in aa], inner)
    return build(sizes, el)


def ttm(X, mats, axes, transpose=False):
    """multi-mode product: matrix k acts on mode axes[k]"""
    sizes = list(X.shape)
    for m, a in zip(mats, axes):
        sizes[a] = m.shape[1] if transpose else m.shape[0]

    def el(*i):
        def inner(*s):
            ix = list(i)
            f = []
            for k, a in enumerate(axes):
                ix[a] = s[k]
                f.append(at(mats[k], [s[k], i[a]]) if transpose else at(mats[k], [i[a], s[k]]))
            return prodp([at(X, ix)] + f)
        return total([X.shape[a] for a in axes], inner)
    return build(sizes, el)


def kron(mats):
    n = len(mats)
    sizes = [m.shape[0] for m in mats] + [m.shape[1] for m in mats]
    return grouped([list(range(n)), list(range(n, 2 * n))], sizes,
                   lambda *i: prodp([at(m, [i[k], i[n + k]]) for k, m in enumerate(mats)]))


def khatri(mats):
    n = len(mats)
    sizes = [m.shape[0] for m in mats] + [mats[0].shape[1]]
    return grouped([list(range(n)), [n]], sizes, lambda *i: prodp([at(m, [i[k], i[n]]) for k, m in enumerate(mats)]))


def hadamard(mats):
    return build(mats[0].shape, lambda *i: prodp([at(m, i) for m in mats]))


def inner(A, B):
    return D.scalar(total(A.shape, lambda *i: mul(at(A, i), at(B, i))))


def cp_full(factors, lam=None):
    """sum_r lambda_r prod_n A_n[i_n, r]"""
    R = factors[0].shape[1]

    def el(*i):
        def term(r):
            w = ONE if lam is None else at(lam, [r] if lam.rank == 1 else [r, ZERO])
            return prodp([w] + [at(f, [i[k], r]) for k, f in enumerate(factors)])
        return total([R], term)
    return build([f.shape[0] for f in factors], el)


def tucker_full(core, factors):
    return ttm(core, factors, list(range(core.rank)))


def gram(A):
    """A^T A"""
    return build([A.shape[1], A.shape[1]], lambda r, s: total([A.shape[0]], lambda i: mul(at(A, [i, r]), at(A, [i, s]))))


def mm(A, B, ta=False, tb=False):
    m = A.shape[1] if ta else A.shape[0]
    k = A.shape[0] if ta else A.shape[1]
    n = B.shape[0] if tb else B.shape[1]
    return build([m, n], lambda i, j: total([k], lambda s: mul(at(A, [s, i] if ta else [i, s]), at(B, [j, s] if tb else [s, j]))))


def ew(fn, *ds):
    return D.ew(fn, *ds)


def sumsq(A):
    return total(A.shape, lambda *i: sq(at(A, i)))


def fro(A):
    return alg.sqrt(sumsq(A))


def sub(A, B):
    return build(A.shape, lambda *i: alg.sub_(at(A, i), at(B, i)))


def max_sv(A):
    """largest singular value"""
    s = D.svd_s_den(A)
    return D.reduce_(s, 'max')


def nonzero(p):
    """1 if p != 0 else 0"""
    return alg.sub_(ONE, alg.eq0(p))


def rmse_ignore_zero(A, B):
    num = total(A.shape, lambda *i: mul(sq(alg.sub_(at(A, i), at(B, i))), nonzero(at(A, i))))
    cnt = total(A.shape, lambda *i: nonzero(at(A, i)))
    return alg.sqrt(mul(num, power(cnt, -1)))
