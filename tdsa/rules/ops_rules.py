"""Tensor algebra (tensorD/base/ops.py)."""
import itertools
from . import rule
from .. import spec as S
from .. import den as D
from .. import bdd
from ..check import Bad, Undec, Dead
from ..harness import Raised, NoResult
from ..values import *

OPS = 'tensorD.base.ops'
FILE = 'tensorD/base/ops.py:'
L = 'IJKLMNOPQUVWXYZ'


def patterns(n, thorough=False):
    """size patterns of an order-n tensor: all distinct, all equal, one mode of size 1, concrete"""
    out = [('distinct', list(L[:n]))]
    if n > 1:
        out.append(('equal', ['I'] * n))
    for k in range(n):
        p = list(L[:n])
        p[k] = 1
        out.append(('mode %d of size 1' % k, p))
    if n > 2:
        out.append(('first two equal', ['I', 'I'] + list(L[2:n])))
    if thorough:
        out.append(('concrete', list(range(2, n + 2))))
        out.append(('all of size 1', [1] * n))
        out.append(('concrete, repeated', [3] * n))
        if n > 1:
            out.append(('last two equal', list(L[:n - 1]) + [L[n - 2]]))
    return out


def tens(h, name, sizes, dtype='float64'):
    d = D.tensor(name, [S.dim(s) for s in sizes])
    return d, h.tfd(d, dtype)


def orders(c, hi_q, hi_t, lo=1):
    return range(lo, (hi_t if c.thorough else hi_q) + 1)


@rule('C01', 'Abstract interpretation of unfold/fold in an index-expression domain: the element (i_n, j) of the result is '
             'compared with the Kolda definition for every order up to the bound, every mode, symbolic mode sizes and aliasing patterns of sizes.')
def c01(c):
    h = c.h()
    unfold, fold = h.get(OPS, 'unfold'), h.get(OPS, 'fold')
    for n in orders(c, 5, 7):
        for pname, sizes in patterns(n, c.thorough):
            for mode in range(n):
                inst = 'order %d, mode %d, sizes %s' % (n, mode, pname)
                X, x = tens(h, 'X', sizes)

                def f1():
                    c.eq(h, h.one(unfold, x, mode), S.unfold(X, mode), 'unfold(X, %d)' % mode, 'float64')
                c.ob('unfold-layout', FILE + 'unfold', inst, f1)
                cols = S.prodp([S.dim(s) for k, s in enumerate(sizes) if k != mode])
                M, m = tens(h, 'M', [S.dim(sizes[mode]), cols])
                for kind in ('tuple', 'list'):
                    sv = [size(s) for s in sizes]
                    shp = h.lst(*sv) if kind == 'list' else tuple(sv)

                    def f2():
                        c.eq(h, h.one(fold, m, mode, shp), S.fold(M, mode, sizes), 'fold(M, %d)' % mode, 'float64')
                    c.ob('fold-layout', FILE + 'fold', inst + ', shape as ' + kind, f2)

                    def f3():
                        c.eq(h, h.one(fold, h.one(unfold, x, mode), mode, shp), X, 'fold(unfold(X))')
                    c.ob('fold-inverts-unfold', FILE + 'fold', inst + ', shape as ' + kind, f3)
                if n > 1:
                    def f4():
                        c.eq(h, h.one(unfold, h.one(fold, m, mode, shp), mode), M, 'unfold(fold(M))')
                    c.ob('unfold-inverts-fold', FILE + 'unfold', inst, f4)
    for n in LONG:
        for mode in some_modes(n):
            sizes = list(L[:n])
            X, x = tens(h, 'X', sizes)
            M, m = tens(h, 'M', [S.dim(sizes[mode]), S.prodp([S.dim(s) for k, s in enumerate(sizes) if k != mode])])
            shp = h.lst(*[size(s) for s in sizes])
            inst = 'order %d, mode %d, sizes distinct' % (n, mode)
            c.ob('unfold-layout', FILE + 'unfold', inst, lambda: c.eq(h, h.one(unfold, x, mode), S.unfold(X, mode), 'unfold(X, %d)' % mode, 'float64'))
            c.ob('fold-layout', FILE + 'fold', inst, lambda: c.eq(h, h.one(fold, m, mode, shp), S.fold(M, mode, sizes), 'fold(M, %d)' % mode, 'float64'))
            c.ob('fold-inverts-unfold', FILE + 'fold', inst, lambda: c.eq(h, h.one(fold, h.one(unfold, x, mode), mode, shp), X, 'fold(unfold(X))'))
    for n in orders(c, 5, 7):
        X, x = tens(h, 'X', L[:n], 'float32')
        c.ob('unfold-default-mode', FILE + 'unfold', 'order %d' % n, lambda: c.eq(h, h.one(unfold, x), S.unfold(X, 0), 'unfold(X)', 'float32'))


LONG = (8, 11, 12)          # letters, digits and one-character tricks run out here


def some_modes(n):
    return sorted({0, 1, n // 2, n - 1})


def size(s):
    from ..harness import size_val
    return size_val(s)


def arg_forms(h, axes):
    """the ways a caller may write an axis list"""
    out = [('list', h.lst(*axes)), ('tuple', tuple(axes))]
    if len(axes) == 1:
        out.append(('int', axes[0]))
    return out


@rule('C02', 'Abstract interpretation of t2mat and mul over every row/column axis split (ordered, up to the order bound) and every '
             'ordered pairing of contracted axes, in int, list and tuple form, symbolic sizes; index-level comparison with the definition.')
def c02(c):
    h = c.h()
    t2mat, mulf = h.get(OPS, 't2mat'), h.get(OPS, 'mul')
    for n in orders(c, 4, 5):
        for pname, sizes in patterns(n, c.thorough)[:(None if n < 4 else 3)]:
            X, x = tens(h, 'X', sizes)
            for perm in itertools.permutations(range(n)):
                for cut in range(1, n + 1):
                    rows, cols = list(perm[:cut]), list(perm[cut:])
                    if not cols and n > 1 and not c.thorough:
                        continue
                    inst = 'rows %s, columns %s, sizes %s' % (rows, cols, pname)
                    rf, cf = arg_forms(h, rows), arg_forms(h, cols)
                    combos = [(rf[0], cf[0]), (rf[1], cf[1]), (rf[-1], cf[-1]), (rf[0], cf[1])] if n < 4 else [(rf[0], cf[-1])]
                    for (rn, r), (cn, cc) in combos:
                        c.ob('t2mat-layout', FILE + 't2mat', inst + ' (%s, %s)' % (rn, cn),
                             lambda: c.eq(h, h.one(t2mat, x, r, cc), S.t2mat(X, rows, cols), 't2mat', 'float64'))
                    if cols == sorted(cols):
                        for rn, r in rf:
                            c.ob('t2mat-inferred-columns', FILE + 't2mat', inst + ' (%s, -1)' % rn,
                                 lambda: c.eq(h, h.one(t2mat, x, r, -1), S.t2mat(X, rows, cols), 't2mat'))
    for n in (5, 6, 8, 11):
        X, x = tens(h, 'X', list(L[:n]))
        for cut in {2, 3, n // 2, n - 2}:
            for rows in ([*range(cut)], [*range(n - cut, n)], [*range(n - 1, n - cut - 1, -1)], [*range(0, 2 * cut, 2)], [n - 1] + [*range(cut - 1)]):
                if max(rows) >= n:
                    continue
                cols = [i for i in range(n) if i not in rows]
                inst = 'rows %s, columns %s, sizes distinct' % (rows, cols)
                for rn, r in arg_forms(h, rows)[:2]:
                    c.ob('t2mat-inferred-columns', FILE + 't2mat', inst + ' (%s, -1)' % rn, lambda: c.eq(h, h.one(t2mat, x, r, -1), S.t2mat(X, rows, cols), 't2mat'))
                back = cols[::-1]
                c.ob('t2mat-layout', FILE + 't2mat', 'rows %s, columns %s, sizes distinct' % (rows, back),
                     lambda: c.eq(h, h.one(t2mat, x, h.lst(*rows), h.lst(*back)), S.t2mat(X, rows, back), 't2mat', 'float64'))
    for na, nb, aa, ba in ((5, 4, (0, 2, 4), (3, 1, 0)), (5, 5, (4, 1, 3), (0, 2, 4)), (6, 5, (1, 3, 5, 0), (4, 2, 0, 1)), (8, 4, (6, 0), (3, 1)), (4, 8, (2, 1), (7, 4)), (5, 5, (3,), (1,))):
        sa, sb = list(L[:na]), ['b%d' % i for i in range(nb)]
        for p, q in zip(aa, ba):
            sb[q] = sa[p]
        A, a = tens(h, 'A', sa)
        B, b = tens(h, 'B', sb)
        for (fn, fa), (_, fb) in zip(arg_forms(h, list(aa)), arg_forms(h, list(ba))):
            c.ob('mul-contraction', FILE + 'mul', 'A order %d axes %s, B order %d axes %s (%s), sizes distinct' % (na, aa, nb, ba, fn),
                 lambda: c.eq(h, h.one(mulf, a, b, fa, fb), S.contract(A, B, aa, ba), 'mul', 'float64'))
    pairs = [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(4, 3), (3, 4), (4, 4)] if c.thorough else [])
    for na, nb in pairs:
        for k in range(1, min(na, nb) + 1):
            if k == 3 and na > 3:
                continue
            for aa in itertools.permutations(range(na), k):
                for ba in itertools.permutations(range(nb), k):
                    if list(aa) != sorted(aa) and list(ba) != sorted(ba) and not c.thorough:
                        continue
                    for pat in ('distinct', 'equal'):
                        sa = list(L[:na]) if pat == 'distinct' else ['I'] * na
                        sb = ['b%d' % i for i in range(nb)] if pat == 'distinct' else ['I'] * nb
                        for p, q in zip(aa, ba):
                            sb[q] = sa[p]
                        A, a = tens(h, 'A', sa)
                        B, b = tens(h, 'B', sb)
                        forms = list(zip(arg_forms(h, list(aa)), arg_forms(h, list(ba))))
                        for (fn, fa), (_, fb) in forms:
                            c.ob('mul-contraction', FILE + 'mul', 'A order %d axes %s, B order %d axes %s (%s), sizes %s' % (na, aa, nb, ba, fn, pat),
                                 lambda: c.eq(h, h.one(mulf, a, b, fa, fb), S.contract(A, B, aa, ba), 'mul', 'float64'))


@rule('C03', 'Abstract interpretation of ttm over orders, every subset and order of axes, skip lists (int, list, tuple), transposition and '
             'a bare matrix; index-level comparison with the multi-mode product; error exit when axis and skip are both given.')
def c03(c):
    h = c.h()
    ttm = h.get(OPS, 'ttm')
    for n in orders(c, 4, 6):
        for pname, sizes in patterns(n)[:3 if n > 3 else None] + ([('equal, one matrix object throughout', ['I'] * n)] if n > 1 else []):
            X, x = tens(h, 'X', sizes, 'float32')
            for tr in (False, True):
                out = ['R%d' % k for k in range(n)] if not pname.startswith('equal') else list(sizes)
                Ms, ms = [], []
                for k in range(n):
                    if Ms and pname.startswith('equal, '):
                        Ms.append(Ms[0])
                        ms.append(ms[0])
                        continue
                    M, m = tens(h, 'M%d' % k, [sizes[k], out[k]] if tr else [out[k], sizes[k]], 'float32')
                    Ms.append(M)
                    ms.append(m)
                kw = {'transpose': True} if tr else {}
                base = 'order %d, sizes %s, transpose %s' % (n, pname, tr)
                c.ob('ttm-all-modes', FILE + 'ttm', base,
                     lambda: c.eq(h, h.one(ttm, x, h.lst(*ms), **kw), S.ttm(X, Ms, list(range(n)), tr), 'ttm', 'float32'))
                c.ob('ttm-bare-matrix', FILE + 'ttm', base,
                     lambda: c.eq(h, h.one(ttm, x, ms[0], **kw), S.ttm(X, Ms[:1], [0], tr), 'ttm(X, M)'))
                for k in range(1, n + 1):
                    axs = list(itertools.permutations(range(n), k))
                    if len(axs) > 24 and not c.thorough:
                        axs = axs[::2]
                    for ax in axs:
                        c.ob('ttm-axis', FILE + 'ttm', base + ', axis %s' % (ax,),
                             lambda: c.eq(h, h.one(ttm, x, h.lst(*[ms[a] for a in ax]), axis=h.lst(*ax), **kw),
                                          S.ttm(X, [Ms[a] for a in ax], list(ax), tr), 'ttm'))
                for k in range(1, n):
                    for sk in itertools.combinations(range(n), k):
                        keep = [i for i in range(n) if i not in sk]
                        for fname, f in arg_forms(h, list(sk)):
                            c.ob('ttm-skip', FILE + 'ttm', base + ', skip %s as %s' % (sk, fname),
                                 lambda: c.eq(h, h.one(ttm, x, h.lst(*ms), skip_matrices_index=f, **kw),
                                              S.ttm(X, [Ms[a] for a in keep], keep, tr), 'ttm'))
                for fname, f in (('list', h.lst()), ('tuple', ())):
                    c.ob('ttm-skip', FILE + 'ttm', base + ', empty skip ' + fname,
                         lambda: c.eq(h, h.one(ttm, x, h.lst(*ms), skip_matrices_index=f, **kw), S.ttm(X, Ms, list(range(n)), tr), 'ttm'))
                for k in range(1, n):
                    c.ob('ttm-fewer-matrices', FILE + 'ttm', base + ', first %d matrices' % k,
                         lambda: c.eq(h, h.one(ttm, x, h.lst(*ms[:k]), **kw), S.ttm(X, Ms[:k], list(range(k)), tr), 'ttm'))
    for n in (6,) + LONG:
        sizes = list(L[:n])
        X, x = tens(h, 'X', sizes, 'float32')
        for tr in (False, True):
            Ms, ms = zip(*[tens(h, 'M%d' % k, [sizes[k], 'R%d' % k] if tr else ['R%d' % k, sizes[k]], 'float32') for k in range(n)])
            kw = {'transpose': True} if tr else {}
            base = 'order %d, sizes distinct, transpose %s' % (n, tr)
            c.ob('ttm-all-modes', FILE + 'ttm', base, lambda: c.eq(h, h.one(ttm, x, h.lst(*ms), **kw), S.ttm(X, Ms, list(range(n)), tr), 'ttm', 'float32'))
            for ax in ([n - 1, 0], list(range(n))[::-1], [n // 2, 1, n - 1]):
                c.ob('ttm-axis', FILE + 'ttm', base + ', axis %s' % (ax,),
                     lambda: c.eq(h, h.one(ttm, x, h.lst(*[ms[a] for a in ax]), axis=h.lst(*ax), **kw), S.ttm(X, [Ms[a] for a in ax], list(ax), tr), 'ttm'))
            for sk in ([n - 1], [0, n - 1], [1, n // 2, n - 2]):
                keep = [i for i in range(n) if i not in sk]
                for fname, f in arg_forms(h, list(sk)):
                    c.ob('ttm-skip', FILE + 'ttm', base + ', skip %s as %s' % (sk, fname),
                         lambda: c.eq(h, h.one(ttm, x, h.lst(*ms), skip_matrices_index=f, **kw), S.ttm(X, [Ms[a] for a in keep], keep, tr), 'ttm'))
    X, x = tens(h, 'X', 'IJ')
    M, m = tens(h, 'M', 'RI')
    for ax in (h.lst(0), (0,), h.lst(), h.lst(0, 1)):
        for sk in (1, 0, h.lst(1), (0,), h.lst()):
            c.ob('ttm-conflicting-arguments', FILE + 'ttm', 'axis %s and skip %s both given' % (text(h, ax), text(h, sk)),
                 lambda: must_raise(h, ['ValueError'], ttm, x, h.lst(m), axis=ax, skip_matrices_index=sk))


def text(h, v):
    return str(h.I.iterate(v)) if isinstance(v, Ref) else str(v)


def must_raise(h, names, f, *a, **kw):
    outs = h.outs(f, *a, **kw)
    oks = [o for o in outs if o[0] == 'ok']
    if any(bdd.unsure(o[1].pg) for o in outs):
        raise Undec('a condition on the path is not tracked')
    if oks:
        raise Bad('no error is raised', getattr(oks[0][2], 'site', None) or func_site(f))
    for o in outs:
        if exc_name(o[2]) not in names:
            raise Bad('raises %s instead of %s' % (o[2], '/'.join(names)), o[2].site)


def func_site(f):
    fn = getattr(f, 'func', f)
    n = getattr(fn, 'node', None)
    if n is None:
        return None
    return Site(getattr(fn.module, 'file', getattr(fn.module, 'path', '?')), n.lineno, fn.qual)


def exc_name(e):
    return e.name


@rule('C04', 'Abstract interpretation of kron, khatri and hadamard over 1..n matrices, every skip set (int, list, tuple) and both orders; '
             'row/column index order compared with the definition at symbolic sizes.')
def c04(c):
    h = c.h()
    kron, khatri, had = h.get(OPS, 'kron'), h.get(OPS, 'khatri'), h.get(OPS, 'hadamard')
    for n in (5, 6) + LONG:
        A, a = zip(*[tens(h, 'A%d' % k, [L[k], 'c%d' % k], 'float32') for k in range(n)])
        B, b = zip(*[tens(h, 'B%d' % k, [L[k], 'R'], 'float32') for k in range(n)])
        C, cc = zip(*[tens(h, 'C%d' % k, ['I', 'J'], 'float32') for k in range(n)])
        for sk in ((), (0,), (n - 1,), (1, n - 2), tuple(range(0, n, 2))):
            keep = [i for i in range(n) if i not in sk]
            for fname, f in (arg_forms(h, list(sk))[1:] if sk else [('none', None)]):
                for rev in (False, True):
                    inst = '%d matrices, distinct, skip %s (%s)%s' % (n, sk, fname, ', reversed' if rev else '')
                    order = keep[::-1] if rev else keep
                    kw = {'reverse': True} if rev else {}
                    c.ob('kron-order', FILE + 'kron', inst, lambda: c.eq(h, h.one(kron, h.lst(*a), f, **kw), S.kron([A[i] for i in order]), 'kron', 'float32'))
                    c.ob('khatri-order', FILE + 'khatri', inst, lambda: c.eq(h, h.one(khatri, h.lst(*b), f, **kw), S.khatri([B[i] for i in order]), 'khatri', 'float32'))
                c.ob('hadamard', FILE + 'hadamard', '%d matrices, skip %s (%s)' % (n, sk, fname), lambda: c.eq(h, h.one(had, h.lst(*cc), f), S.hadamard([C[i] for i in keep]), 'hadamard', 'float32'))
    for n in orders(c, 4, 6):
        for pat in ('distinct', 'equal', 'size 1') + (('first object again last', 'one object throughout') if n > 1 else ()):
            rs = [L[k] if pat != 'equal' else 'I' for k in range(n)]
            if pat == 'size 1':
                rs[0] = 1
            ks = ['c%d' % k if pat != 'equal' else 'I' for k in range(n)]
            A, a = zip(*[tens(h, 'A%d' % k, [rs[k], ks[k]], 'float32') for k in range(n)])
            B, b = zip(*[tens(h, 'B%d' % k, [rs[k], 'R'], 'float32') for k in range(n)])
            C, cc = zip(*[tens(h, 'C%d' % k, ['I', 'J'], 'float32') for k in range(n)])
            if 'object' in pat:
                pos = [0] * n if pat.startswith('one') else list(range(n - 1)) + [0]
                A, a, B, b, C, cc = [[t[i] for i in pos] for t in (A, a, B, b, C, cc)]
            skips = [('none', None, ()), ('empty list', h.lst(), ())]
            for k in range(1, n):
                for sk in itertools.combinations(range(n), k):
                    for fname, f in arg_forms(h, list(sk)):
                        skips.append((fname, f, sk))
            for fname, f, sk in skips:
                keep = [i for i in range(n) if i not in sk]
                inst = '%d matrices, %s, skip %s (%s)' % (n, pat, sk, fname)
                for rev in (False, True):
                    order = keep[::-1] if rev else keep
                    args = ([f] if f is not None or rev else []) + ([True] if rev else [])
                    kw = {}
                    if rev and fname.endswith('list'):
                        args, kw = [], {'reverse': True, 'skip_matrices_index': f}
                    c.ob('kron-order', FILE + 'kron', inst + (', reversed' if rev else ''),
                         lambda: c.eq(h, h.one(kron, h.lst(*a), *args, **kw), S.kron([A[i] for i in order]), 'kron', 'float32'))
                    c.ob('khatri-order', FILE + 'khatri', inst + (', reversed' if rev else ''),
                         lambda: c.eq(h, h.one(khatri, h.lst(*b), *args, **kw), S.khatri([B[i] for i in order]), 'khatri', 'float32'))
                if pat == 'distinct' or 'object' in pat:
                    c.ob('hadamard', FILE + 'hadamard', inst,
                         lambda: c.eq(h, h.one(had, h.lst(*cc), *([f] if f is not None else [])), S.hadamard([C[i] for i in keep]), 'hadamard', 'float32'))


@rule('C05', 'Abstract interpretation of inner, vectorize, vec_to_tensor, max_single_value_mul and xcb; index-level comparison with the '
             'definition, plus the error exit of inner on different shapes.')
def c05(c):
    h = c.h()
    inner, vec, v2t, msv, xcb = [h.get(OPS, f) for f in ('inner', 'vectorize', 'vec_to_tensor', 'max_single_value_mul', 'xcb')]
    for n in orders(c, 4, 6):
        for pname, sizes in patterns(n, c.thorough):
            X, x = tens(h, 'X', sizes)
            Y, y = tens(h, 'Y', sizes)
            inst = 'order %d, sizes %s' % (n, pname)
            c.ob('inner-product', FILE + 'inner', inst, lambda: c.eq(h, h.one(inner, x, y), S.inner(X, Y), 'inner', 'float64'))
            c.ob('inner-product', FILE + 'inner', inst + ', with itself', lambda: c.eq(h, h.one(inner, x, x), S.inner(X, X), 'inner', 'float64'))
            flat = S.grouped([list(range(n))], sizes, lambda *i: S.at(X, i))
            c.ob('vectorize-row-major', FILE + 'vectorize', inst, lambda: c.eq(h, h.one(vec, x), flat, 'vectorize', 'float64'))
            V, v = tens(h, 'V', [S.prodp([S.dim(s) for s in sizes])])

            def tensor_of_vec(*i):
                lin = S.ZERO
                for k in range(n):
                    lin = S.add(S.mul(lin, S.dim(sizes[k])), i[k])
                return S.at(V, [lin])
            for kind in ('tuple', 'list'):
                shp = tuple(size(s) for s in sizes) if kind == 'tuple' else h.lst(*[size(s) for s in sizes])
                c.ob('vec_to_tensor-row-major', FILE + 'vec_to_tensor', inst + ' ' + kind,
                     lambda: c.eq(h, h.one(v2t, v, shp), S.build(sizes, tensor_of_vec), 'vec_to_tensor'))
                c.ob('vectorize-roundtrip', FILE + 'vec_to_tensor', inst + ' ' + kind,
                     lambda: c.eq(h, h.one(v2t, h.one(vec, x), shp), X, 'vec_to_tensor(vectorize(X))'))
    for sa, sb in (([2, 3], [3, 2]), ('IJ', 'I'), ([2, 3, 4], [2, 3, 5]), ([2, 3, 4], [4, 3, 2]), ('I', 'IJ'), ([1, 3], [3, 1]), ([6], [2, 3]), ([4, 1], [4])):
        A, a = tens(h, 'A', sa)
        B, b = tens(h, 'B', sb)
        c.ob('inner-shape-mismatch', FILE + 'inner', 'shapes %s and %s' % (sa, sb), lambda: must_raise(h, ['ValueError'], inner, a, b))
    for n, again in [(n, r) for n in orders(c, 4, 6) for r in ('', ', square', ', 3x3') + ((', first object again last',) if n > 1 else ())]:
        A, a = zip(*[tens(h, 'A%d' % k, {', square': ['I%d' % k] * 2, ', 3x3': [3, 3]}.get(again, ['I%d' % k, 'J%d' % k])) for k in range(n)])
        if again.endswith('last'):
            A, a = A[:-1] + A[:1], a[:-1] + a[:1]
        for k in range(0, n):
            for sk in itertools.combinations(range(n), k):
                for fname, f in (arg_forms(h, list(sk)) if sk else [('none', None)]):
                    want = D.scalar(S.prodp([S.max_sv(A[i]).body for i in range(n) if i not in sk]))
                    c.ob('max_single_value_mul', FILE + 'max_single_value_mul', '%d matrices%s, skip %s (%s)' % (n, again, sk, fname),
                         lambda: c.eq(h, h.one(msv, h.lst(*a), *([f] if sk else [])), want, 'max_single_value_mul'))
    for r in ((1, 2, 3) if not c.thorough else (1, 2, 3, 4)):
        for sizes in (['I', 'J', 'K'], ['I', 'I', 'I'], [2, 3, 4], [1, 'J', 'K'], ['I', 'J', 1]):
            X, x = tens(h, 'X', sizes)
            Cm, cm = tens(h, 'C', [sizes[2], r])
            Bm, bm = tens(h, 'B', [sizes[1], r])
            want = S.build([sizes[0], r], lambda i, q: S.total(sizes[1:], lambda j, k: S.prodp([S.at(X, [i, j, k]), S.at(Bm, [j, q]), S.at(Cm, [k, q])])))
            c.ob('xcb-mttkrp', FILE + 'xcb', 'sizes %s, rank %d' % (sizes, r), lambda: c.eq(h, h.one(xcb, x, cm, bm), want, 'xcb'))
