"""Tensor wrapper types (tensorD/base/type.py), losses (tensorD/loss.py) and argument immutability."""
import itertools
from . import rule
from .. import spec as S
from .. import den as D
from .. import alg
from .. import bdd
from ..check import Bad, Undec, Dead
from ..harness import size_val
from ..values import *
from .ops_rules import OPS, L, patterns, tens, orders, must_raise, arg_forms, size

TYPE = 'tensorD.base.type'
TFILE = 'tensorD/base/type.py:'
LOSS = 'tensorD.loss'
LFILE = 'tensorD/loss.py:'


def T(h, v):
    return h.attr(v, 'T')


def shape_is(h, v, shape):
    got = h.items(v)
    if len(got) != len(shape):
        raise Bad('shape has %d entries, the tensor %d modes' % (len(got), len(shape)))
    for g, s in zip(got, shape):
        gv = h.I.simp(g)
        if not isinstance(gv, (SVal, int)) and gv is not None:
            gv = h.I.simp(h.attr(gv, 'value'))
        p = gv.poly if isinstance(gv, SVal) else S.to_poly(gv) if isinstance(gv, int) else None
        if p is None:
            raise Undec('shape entry %r' % (gv,))
        if p != s:
            raise Bad('shape entry %r, expected %r' % (p, s))


@rule('C06', 'Abstract interpretation of every ordered pair (thorough: triple) of DTensor method calls on one receiver: the last result is '
             'compared with the index-level definition, the receiver must denote the same tensor afterwards, and calls on results are compared likewise.')
def c06(c):
    h = c.h()
    cls = h.get(TYPE, 'DTensor')
    for src in ('tf.Tensor', 'ndarray'):
        for pat, sizes in (('distinct', ['I', 'J', 'K']), ('equal', ['I', 'I', 'I']), ('concrete', [2, 3, 2]), ('matrix', ['I', 'J']), ('square', ['I', 'I']),
                           ('unit', ['I', 1, 'K'])) + ((('four', ['I', 'J', 'K', 'L']),) if c.thorough else ()):
            n = len(sizes)
            X = D.tensor('X', [S.dim(s) for s in sizes])
            Y = D.tensor('Y', [S.dim(s) for s in sizes])
            y_t = h.tfd(Y)

            def mk(den):
                return h.one(cls, h.tfd(den) if src == 'tf.Tensor' else h.npd(den))

            dY = mk(Y)
            ops = []
            for m in range(n):
                ops.append(('unfold(%d)' % m, 'unfold', (m,), {}, S.unfold(X, m)))
            ops.append(('unfold()', 'unfold', (), {}, S.unfold(X, 0)))
            ops.append(('unfold(mode=1)', 'unfold', (), {'mode': 1}, S.unfold(X, 1)))
            if n == 3:
                ops.append(('t2mat([0,2],1)', 't2mat', (h.lst(0, 2), 1), {}, S.t2mat(X, [0, 2], [1])))
            else:
                ops.append(('t2mat([1,0],[..])', 't2mat', (h.lst(1, 0), h.lst(*range(2, n))), {}, S.t2mat(X, [1, 0], list(range(2, n)))))
            ops.append(('t2mat(1,-1)', 't2mat', (1, -1), {}, S.t2mat(X, [1], [i for i in range(n) if i != 1])))
            ops.append(('vectorize()', 'vectorize', (), {}, S.grouped([list(range(n))], sizes, lambda *i: S.at(X, i))))
            ops.append(('mul(Y)', 'mul', (dY,), {}, S.contract(X, Y, [0], [0])))
            ops.append(('mul(Y,[0,1],[0,1])', 'mul', (dY, h.lst(0, 1), h.lst(0, 1)), {}, S.contract(X, Y, [0, 1], [0, 1])))
            ops.append(('mul(Y,%d,%d)' % (n - 1, n - 1), 'mul', (dY, n - 1, n - 1), {}, S.contract(X, Y, [n - 1], [n - 1])))
            for nm, m, fn in (('+', '__add__', lambda a, b: alg.add(a, b)), ('-', '__sub__', alg.sub_), ('*', '__mul__', alg.mul)):
                w = S.build(sizes, lambda *i: fn(S.at(X, i), S.at(Y, i)))
                ops.append(('%s DTensor' % nm, m, (dY,), {}, w))
                ops.append(('%s tf.Tensor' % nm, m, (y_t,), {}, w))
                ops.append(('%s scalar' % nm, m, (h.num('s'),), {}, S.build(sizes, lambda *i: fn(S.at(X, i), alg.sym('s')))))
            if n == 2:
                ops.append(('kron(Y)', 'kron', (dY,), {}, S.kron([X, Y])))
                ops.append(('khatri(Y)', 'khatri', (dY,), {}, S.khatri([X, Y])))
                ops.append(('khatri(tf.Tensor)', 'khatri', (y_t,), {}, S.khatri([X, Y])))
            sess = h.one(Ext('tf.Session'))
            evalop = ('eval()', 'eval', (None, sess), {}, X)
            dX = mk(X)
            for nm, call, w in [('mul(self)', lambda: h.m(dX, 'mul', dX), S.contract(X, X, [0], [0])),
                                ('mul(self,last)', lambda: h.m(dX, 'mul', dX, n - 1, n - 1), S.contract(X, X, [n - 1], [n - 1]))] + [
                                (k + ' self', lambda m=m: h.m(dX, m, dX), S.build(sizes, lambda *i, fn=fn: fn(S.at(X, i), S.at(X, i))))
                                for k, m, fn in (('+', '__add__', alg.add), ('-', '__sub__', alg.sub_), ('*', '__mul__', alg.mul))]:
                c.ob('dtensor-method', TFILE + 'DTensor', 'DTensor from %s, %s: %s' % (src, pat, nm), lambda: c.eq(h, T(h, call()), w, nm, 'float64'))
            seqs = [()] + [(o,) for o in ops]
            if c.thorough and pat == 'distinct':
                seqs += list(itertools.product(ops[:8], ops[:8]))
            elif not c.thorough and (pat not in ('distinct', 'equal') or src == 'ndarray'):
                seqs = [()] + [(o,) for o in ops[:4]]
            for pre in seqs:
                for name, meth, args, kw, want in ops + ([evalop] if pre else []):
                    d = mk(X)
                    inst = 'DTensor from %s, %s: %s' % (src, pat, '; '.join([p[0] for p in pre] + [name]))

                    def f():
                        for p in pre:
                            h.m(d, p[1], *p[2], **p[3])
                        r = h.m(d, meth, *args, **kw)
                        if meth == 'eval':
                            c.eq(h, r, want, name)
                        else:
                            c.eq(h, T(h, r), want, name, 'float64')
                        c.eq(h, T(h, d), X, 'receiver after ' + name)
                        if not pre:
                            shape_is(h, h.attr(d, 'shape'), X.shape)
                            shape_is(h, h.m(d, 'get_shape'), X.shape)
                            if any(a is dY for a in args):
                                c.eq(h, T(h, dY), Y, 'operand after ' + name)
                                shape_is(h, h.m(dY, 'get_shape'), Y.shape)
                    c.ob('dtensor-method', TFILE + 'DTensor.' + meth, inst, f)
            d = mk(X)

            c.ob('dtensor-shape', TFILE + 'DTensor.__init__', 'from %s, %s' % (src, pat), lambda: shape_is(h, h.attr(d, 'shape'), X.shape))
            c.ob('dtensor-get-shape', TFILE + 'DTensor.get_shape', 'from %s, %s' % (src, pat), lambda: shape_is(h, h.m(d, 'get_shape'), X.shape))
            for pname, pmeth, pargs, pkw, pw in ops[:8]:
                inst = 'from %s, %s: on the result of %s: ' % (src, pat, pname)
                r = [None]

                def first():
                    r[0] = h.m(mk(X), pmeth, *pargs, **pkw)
                c.ob('dtensor-derived', TFILE + 'DTensor.' + pmeth, inst + 'made', first)
                if r[0] is None:
                    continue
                r = r[0]
                c.ob('dtensor-derived', TFILE + 'DTensor.get_shape', inst + 'get_shape', lambda: shape_is(h, h.m(r, 'get_shape'), pw.shape))
                c.ob('dtensor-derived', TFILE + 'DTensor.__init__', inst + 'shape', lambda: shape_is(h, h.attr(r, 'shape'), pw.shape))
                k = len(pw.shape)
                for m in range(k):
                    c.ob('dtensor-derived', TFILE + 'DTensor.unfold', inst + 'unfold(%d)' % m,
                         lambda: c.eq(h, T(h, h.m(r, 'unfold', m)), S.unfold(pw, m), 'unfold', 'float64'))
                c.ob('dtensor-derived', TFILE + 'DTensor.vectorize', inst + 'vectorize()',
                     lambda: c.eq(h, T(h, h.m(r, 'vectorize')), S.grouped([list(range(k))], pw.shape, lambda *i: S.at(pw, i)), 'vectorize', 'float64'))
                c.ob('dtensor-derived', TFILE + 'DTensor.mul', inst + 'mul(itself)',
                     lambda: c.eq(h, T(h, h.m(r, 'mul', r, k - 1, k - 1)), S.contract(pw, pw, [k - 1], [k - 1]), 'mul', 'float64'))
                c.ob('dtensor-derived', TFILE + 'DTensor.__add__', inst + '+ itself',
                     lambda: c.eq(h, T(h, h.m(r, '__add__', r)), S.build(pw.shape, lambda *i: alg.add(S.at(pw, i), S.at(pw, i))), '+', 'float64'))
            c.ob('dtensor-getitem', TFILE + 'DTensor.__getitem__', 'from %s, %s, [0]' % (src, pat),
                 lambda: c.eq(h, h.m(d, '__getitem__', 0), S.build(sizes[1:], lambda *i: S.at(X, [0] + list(i))), 'd[0]'))
            c.ob('dtensor-getitem', TFILE + 'DTensor.__getitem__', 'from %s, %s, [0,0,..]' % (src, pat),
                 lambda: c.eq(h, h.m(d, '__getitem__', (0,) * n), D.scalar(S.at(X, [0] * n)), 'd[0,0,..]'))
            for m in range(n):
                M = D.tensor('M', [S.dim(sizes[m]), S.prodp([S.dim(s) for k, s in enumerate(sizes) if k != m])])
                c.ob('dtensor-fold', TFILE + 'DTensor.fold', 'mode %d, %s' % (m, pat),
                     lambda: c.eq(h, T(h, h.one(h.attr(cls, 'fold'), h.tfd(M), m, tuple(size(s) for s in sizes))), S.fold(M, m, sizes), 'DTensor.fold'))

            def ev():
                sess = h.one(Ext("tf.Session"))
                c.eq(h, h.m(d, 'eval', None, sess), X, 'eval')
            c.ob('dtensor-eval', TFILE + 'DTensor.eval', 'from %s, %s' % (src, pat), ev)
        A = D.tensor('A', [S.dim('I'), S.dim('R')])
        B = D.tensor('B', [S.dim('J'), S.dim('R')])
        a = h.one(cls, h.tfd(A) if src == 'tf.Tensor' else h.npd(A))
        for bn, b in (('DTensor', h.one(cls, h.tfd(B))), ('tf.Tensor', h.tfd(B))):
            c.ob('dtensor-method', TFILE + 'DTensor.kron', 'from %s with %s' % (src, bn), lambda: c.eq(h, T(h, h.m(a, 'kron', b)), S.kron([A, B]), 'kron'))
            c.ob('dtensor-method', TFILE + 'DTensor.khatri', 'from %s with %s' % (src, bn), lambda: c.eq(h, T(h, h.m(a, 'khatri', b)), S.khatri([A, B]), 'khatri'))


@rule('C07', 'Abstract interpretation of KTensor and TTensor construction and extract() for every accepted form of factors, weights and core '
             '(tensor, array, vector or column), orders up to the bound, symbolic and aliased sizes; index-level comparison with the CP / Tucker formula.')
def c07(c):
    h = c.h()
    K, TT = h.get(TYPE, 'KTensor'), h.get(TYPE, 'TTensor')
    for n in orders(c, 4, 6):
        for pat in ('distinct', 'equal', 'size 1', 'rank 1') + (('one factor object throughout',) if n > 1 else ()):
            one = 'object' in pat
            sizes = [L[k] if pat != 'equal' and not one else 'I' for k in range(n)]
            if pat == 'size 1':
                sizes[n // 2] = 1
            R = {'equal': 'I', 'rank 1': 1}.get(pat, 'R')
            Rd = S.dim(R)
            for form, dt, odt in (('tf', 'float32', 'float32'), ('tf', 'float64', 'float64'), ('np', 'float64', 'float32'), ('np', 'float32', 'float32')):
                U = [D.tensor('U%d' % k, [S.dim(sizes[k]), Rd]) for k in range(n)]
                ul = [h.tfd(d, dt) if form == 'tf' else h.npd(d, dt) for d in U]
                if one:
                    U, ul = U[:1] * n, ul[:1] * n
                u = h.lst(*ul)
                W1, W2 = D.tensor('w', [Rd]), D.tensor('w', [Rd, 1])
                lams = [('none', None, None), ('array', h.npd(W1, 'float64'), W1), ('column array', h.npd(W2, 'float32'), W2),
                        ('tensor', h.tfd(W1, odt), W1), ('column tensor', h.tfd(W2, odt), W2)]
                for ln, lv, ld in lams:
                    inst = 'order %d, %s, factors %s %s, weights %s' % (n, pat, form, dt, ln)

                    def f():
                        k = h.one(K, u, *([] if ld is None else [lv]))
                        c.eq(h, h.m(k, 'extract'), S.cp_full(U, ld), 'extract()', odt)
                        if h.attr(k, 'order') != n:
                            raise Bad('order is %r' % (h.attr(k, 'order'),))
                    c.ob('ktensor-extract', TFILE + 'KTensor.extract', inst, f)
            rk = ['R%d' % k for k in range(n)] if pat != 'equal' else ['I'] * n
            if one:
                rk = ['R'] * n
            if pat == 'rank 1':
                rk = [1] * n
            G = D.tensor('G', [S.dim(r) for r in rk])
            U = [D.tensor('U%d' % (0 if one else k), [S.dim(sizes[k]), S.dim(rk[k])]) for k in range(n)]
            for gf in ('tf', 'np'):
                for uf in ('tf', 'np'):
                    for dt in ('float32', 'float64'):
                        def factors():
                            l = [h.tfd(d, dt) if uf == 'tf' else h.npd(d, dt) for d in (U[:1] if one else U)]
                            return h.lst(*(l * n if one else l))

                        def f():
                            t = h.one(TT, h.tfd(G, dt) if gf == 'tf' else h.npd(G, dt), factors())
                            c.eq(h, h.m(t, 'extract'), S.tucker_full(G, U), 'extract()', dt)
                            if h.attr(t, 'order') != n:
                                raise Bad('order is %r' % (h.attr(t, 'order'),))
                        c.ob('ttensor-extract', TFILE + 'TTensor.extract', 'order %d, %s, core %s, factors %s, %s' % (n, pat, gf, uf, dt), f)


@rule('C08', 'Abstract interpretation of the loss functions against their formulas, including zero entries of the data, and their error exit '
             'on different shapes.')
def c08(c):
    h = c.h()
    l2, rmse, riz = [h.get(LOSS, f) for f in ('l2', 'rmse', 'rmse_ignore_zero')]
    for n in orders(c, 4, 5):
        for pname, sizes in patterns(n, c.thorough):
            if pname == 'concrete' and n > 3:
                continue
            A, B = D.tensor('A', [S.dim(s) for s in sizes]), D.tensor('B', [S.dim(s) for s in sizes])
            for dt in ('float32', 'float64'):
                a, b = h.tfd(A, dt), h.tfd(B, dt)
                sse = S.total(sizes, lambda *i: S.sq(alg.sub_(S.at(A, i), S.at(B, i))))
                cnt = S.prodp([S.dim(s) for s in sizes])
                inst = 'order %d, sizes %s, %s' % (n, pname, dt)
                c.ob('l2', LFILE + 'l2', inst, lambda: c.eq(h, h.one(l2, a, b), D.scalar(alg.mul(alg.const('1/2') if False else alg.to_poly(HALF), sse)), 'l2', dt))
                c.ob('rmse', LFILE + 'rmse', inst, lambda: c.eq(h, h.one(rmse, a, b), D.scalar(alg.sqrt(alg.mul(sse, alg.power(cnt, -1)))), 'rmse', dt))
                c.ob('rmse_ignore_zero', LFILE + 'rmse_ignore_zero', inst,
                     lambda: c.eq(h, h.one(riz, a, b), D.scalar(S.rmse_ignore_zero(A, B)), 'rmse_ignore_zero', dt))
    for sa, sb in (([2, 3], [3, 2]), ('IJ', 'I'), ([2, 3, 4], [2, 3, 5]), ('I', 'IJ'), ([1, 3], [3, 1]), ([4, 1], [4]), ([1, 3], [2, 3])):
        _, a = tens(h, 'A', sa)
        _, b = tens(h, 'B', sb)
        for nm, f in (('rmse', rmse), ('rmse_ignore_zero', riz)):
            c.ob('loss-shape-mismatch', LFILE + nm, 'shapes %s and %s' % (sa, sb), lambda: must_raise(h, ['TensorErr'], f, a, b))


from fractions import Fraction
HALF = Fraction(1, 2)


# ------------------------------------------------------------ C09 argument immutability

def content(h, ref):
    o = h.I.obj(ref)
    return o.kind, o.data, o.info


def unchanged(h, refs, call, label):
    """run call(); every argument object must hold the same contents in every outcome"""
    I = h.I
    before = [(nm, r, content(h, r)) for nm, r in refs]
    outs = I.run(call)
    for o in outs:
        if o[0] == 'raise' and o[2].may:
            continue
        I2 = I.st
        I.st = o[1]
        try:
            for nm, r, b in before:
                a = content(h, r)
                if a[0] != b[0] or not same_content(a[1], b[1]):
                    raise Bad('%s changes its argument %s from %s to %s%s' % (
                        label, nm, D.clip(str(b[1]), 120), D.clip(str(a[1]), 120), '' if o[0] == 'ok' else ' before raising %s' % o[2]), None)
        finally:
            I.st = I2
    if not [o for o in outs if o[0] == 'ok']:
        e = outs[0][2] if outs else 'no outcome'
        raise Undec('no normal outcome: %s' % e)


def same_content(a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        if len(a) == 2 and isinstance(a[0], D.Den) and isinstance(b[0], D.Den):
            return a[1] == b[1] and D.equal(a[0], b[0])[0]
        return len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(a[k] is b[k] or same(a[k], b[k]) for k in a)
    return same(a, b)


@rule('C09', 'Effect analysis by abstract interpretation: for each public entry point, every list and array argument must be bound to the '
             'same contents in every outcome state of the call (normal or raising).')
def c09(c):
    h = c.h()
    g = lambda n: h.get(OPS, n)
    tf = lambda nm, sz: h.tf(nm, sz)
    I = h.I

    def run(label, construct, refs, call):
        c.ob('argument-unchanged', construct, label, lambda: unchanged(h, refs, call, label))

    for n in (2, 3, 4):
        sizes = list(L[:n])
        x = tf('X', sizes)
        for mode in range(n):
            shp = h.lst(*[size(s) for s in sizes])
            m = h.tfd(D.tensor('M', [S.dim(sizes[mode]), S.prodp([S.dim(s) for k, s in enumerate(sizes) if k != mode])]))
            run('fold(M, %d, shape list)' % mode, OPSF + 'fold', [('shape', shp)], lambda: I.call(g('fold'), [m, mode, shp], {}))
        for cut in range(1, n):
            r, cc = h.lst(*range(cut)), h.lst(*range(cut, n))
            run('t2mat(X, list, list)', OPSF + 't2mat', [('r_axis', r), ('c_axis', cc)], lambda: I.call(g('t2mat'), [x, r, cc], {}))
            run('t2mat(X, list, -1)', OPSF + 't2mat', [('r_axis', r)], lambda: I.call(g('t2mat'), [x, r, -1], {}))
            if cut == n - 1:
                run('t2mat(X, list, int)', OPSF + 't2mat', [('r_axis', r)], lambda: I.call(g('t2mat'), [x, r, n - 1], {}))
            run('mul with axis lists', OPSF + 'mul', [('a_axis', r), ('b_axis', r)], lambda: I.call(g('mul'), [x, x, r, r], {}))
        ms = h.lst(*[tf('M%d' % k, ['R%d' % k, sizes[k]]) for k in range(n)])
        mt = h.lst(*[tf('M%d' % k, [sizes[k], 'R']) for k in range(n)])
        mh = h.lst(*[tf('M%d' % k, ['I', 'R']) for k in range(n)])
        run('ttm(X, matrices)', OPSF + 'ttm', [('matrices', ms)], lambda: I.call(g('ttm'), [x, ms], {}))
        ax = h.lst(*range(n))
        run('ttm(X, matrices, axis)', OPSF + 'ttm', [('matrices', ms), ('axis', ax)], lambda: I.call(g('ttm'), [x, ms, ax], {}))
        sk = h.lst(0)
        run('ttm(X, matrices, skip)', OPSF + 'ttm', [('matrices', ms), ('skip', sk)], lambda: I.call(g('ttm'), [x, ms], {'skip_matrices_index': sk}))
        run('ttm(X, matrices, skip=int)', OPSF + 'ttm', [('matrices', ms)], lambda: I.call(g('ttm'), [x, ms], {'skip_matrices_index': 0}))
        m0 = tf('M', ['I', 'R'])
        mr = h.lst(*[m0 for k in range(n)])
        for fn, lst in (('kron', mt), ('khatri', mt), ('hadamard', mh), ('max_single_value_mul', mt),
                        ('kron', mr), ('khatri', mr), ('hadamard', mr), ('max_single_value_mul', mr)):
            for kw in ([{}, {'skip_matrices_index': sk}, {'skip_matrices_index': 0}] + ([{'reverse': True}, {'reverse': True, 'skip_matrices_index': sk}] if fn in ('kron', 'khatri') else [])):
                run('%s(%s%s)' % (fn, ', '.join(sorted(kw)), '; one object' if lst is mr else ''), OPSF + fn, [('matrices', lst), ('skip', sk)], lambda: I.call(g(fn), [lst], dict(kw)))
        v = h.tfd(D.tensor('V', [S.prodp([S.dim(s) for s in sizes])]))
        shp = h.lst(*[size(s) for s in sizes])
        run('vec_to_tensor', OPSF + 'vec_to_tensor', [('shape', shp)], lambda: I.call(g('vec_to_tensor'), [v, shp], {}))
        for form in ('tf', 'np'):
            U = [D.tensor('U%d' % k, [S.dim(sizes[k]), S.dim('R')]) for k in range(n)]
            ul = [h.tfd(d, 'float32') if form == 'tf' else h.npd(d, 'float32') for d in U]
            u = h.lst(*ul)
            w = h.np('w', ['R'], 'float32')
            refs = [('factors', u), ('lambdas', w)] + ([('factor %d' % k, r) for k, r in enumerate(ul)] if form == 'np' else [])
            run('KTensor(%s).extract()' % form, TFILE + 'KTensor', refs, lambda: I.call(I.getattr(I.call(h.get(TYPE, 'KTensor'), [u, w], {}), 'extract'), [], {}))
            V = [D.tensor('U%d' % k, [S.dim(sizes[k]), S.dim('R%d' % k)]) for k in range(n)]
            vl = [h.tfd(d, 'float32') if form == 'tf' else h.npd(d, 'float32') for d in V]
            vv = h.lst(*vl)
            gg = h.np('G', ['R%d' % k for k in range(n)], 'float32')
            refs = [('factors', vv), ('core', gg)] + ([('factor %d' % k, r) for k, r in enumerate(vl)] if form == 'np' else [])
            run('TTensor(%s).extract()' % form, TFILE + 'TTensor', refs, lambda: I.call(I.getattr(I.call(h.get(TYPE, 'TTensor'), [gg, vv], {}), 'extract'), [], {}))
        xa = h.np('X', sizes)
        for meth, args in (('unfold', (0,)), ('vectorize', ()), ('t2mat', (0, -1)), ('__mul__', (xa,)), ('__add__', (xa,)), ('__sub__', (xa,))):
            run('DTensor(array).%s' % meth, TFILE + 'DTensor.' + meth, [('array', xa)], lambda: I.call(I.getattr(I.call(h.get(TYPE, 'DTensor'), [xa], {}), meth), list(args), {}))


OPSF = 'tensorD/base/ops.py:'
