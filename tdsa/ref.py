"""Reference state machines of the factorization algorithms, over denotations.

A reference machine enumerates the paths of the *specified* algorithm (written here
from the published algorithm and the documentation, not from the code): a path is a
guard (BDD over the canonical data-dependent conditions) and a state of Dens.  Every
stored quantity is named by the hash-consed value it denotes (`cut`), the same global
value numbering the interpreter uses for what the analysed code stores."""
from .alg import *
from . import alg, bdd
from . import den as D
from . import spec as S
from .lib_tf import value_base
from .bdd import AND, NOT, OR
from fractions import Fraction


def cut(d, name='ref'):
    if not D.all_bases(d):
        return d
    b = value_base(d, name, 'ver')
    return D.from_base(b, d.shape)


def cres(d, name='ref', nn=False):
    """value of a fetched result"""
    if not D.all_bases(d):
        return d
    b = value_base(d, name, 'res', nn)
    return D.from_base(b, d.shape)


def lt(a, b):
    return bdd.of_poly(lt0(sub_(to_poly(a), to_poly(b))))


def at0(d):
    return d.body


def scal(p):
    return D.scalar(to_poly(p))


class Machine(object):
    """one specified algorithm; subclasses give init/step/accept/reject"""
    has_stop = True

    def __init__(self, X, dims, ranks, draw):
        self.X, self.dims, self.ranks, self.draw = X, dims, ranks, draw
        self.N = len(dims)

    # residual quantities, as the specification defines them
    def measure(self, s):
        X = self.X
        full = s['full']
        diff = S.sub(full, X)
        ss = S.sumsq(diff)
        s['loss'] = cres(scal(S.rmse_ignore_zero(X, full)), nn=True)
        s['rel'] = cres(scal(mul(alg.sqrt(ss), power(S.fro(X), -1))), nn=True)
        s['obj'] = cres(scal(mul(to_poly(num('1/2')), ss)), nn=True)

    def accept(self, s):
        return s

    def reject(self, s):
        return s

    def run(self, steps, tol, branch=True, only=None):
        """[(guard, state)] at the end; state['hist'] lists (loss, rel)"""
        s = self.init()
        s['hist'], s['nstall'], s['steps'] = [], 0, 0
        paths = [(bdd.TRUE, s)]
        done = []
        for step in range(1, steps + 1):
            nxt = []
            for g, s in paths:
                s = dict(s)
                self.step(s)
                self.measure(s)
                s['hist'] = s['hist'] + [(s['loss'], s['rel'])]
                s['steps'] = step
                obj, rel = at0(s['obj']), at0(s['rel'])
                obj0 = add(obj, ONE) if step == 1 else s['obj0']
                relerr1 = mul(alg.absval(sub_(obj, obj0)), power(add(obj0, ONE), -1))
                crit = lt(relerr1, tol)
                for gc, stall in ((AND(g, crit), s['nstall'] + 1), (AND(g, NOT(crit)), 0)):
                    if gc == bdd.FALSE:
                        continue
                    small = lt(rel, tol)
                    stop = bdd.TRUE if stall >= 3 else small
                    gs = AND(gc, stop)
                    if gs != bdd.FALSE:
                        e = dict(s)
                        e['stopped'] = True
                        done.append((gs, e))
                    go = AND(gc, NOT(stop))
                    if go == bdd.FALSE:
                        continue
                    better = lt(obj, obj0)
                    for gb, up in ((AND(go, better), True), (AND(go, NOT(better)), False)):
                        if gb == bdd.FALSE:
                            continue
                        e = dict(s)
                        e['nstall'] = stall
                        e = self.after(e, up, obj, obj0, step)
                        nxt.append((gb, e))
            paths = self.merge(nxt)
        return done + paths

    def after(self, s, better, obj, obj0, step):
        """algorithms without momentum only remember the objective"""
        s['obj0'] = obj
        return s

    def merge(self, paths):
        out = {}
        for g, s in paths:
            k = self.key(s)
            if k in out:
                out[k] = (OR(out[k][0], g), s)
            else:
                out[k] = (g, s)
        return list(out.values())

    def key(self, s):
        r = []
        for n in sorted(s):
            v = s[n]
            if isinstance(v, D.Den):
                r.append((n, v.key()))
            elif isinstance(v, list):
                r.append((n, tuple(x.key() if isinstance(x, D.Den) else tuple(y.key() if isinstance(y, D.Den) else y for y in x)
                                   if isinstance(x, tuple) else x for x in v)))
            else:
                r.append((n, v))
        return tuple(r)


def num(x):
    return const(Fraction(x))


def div_el(d, p):
    q = power(to_poly(p), -1)
    return S.build(d.shape, lambda *i: mul(S.at(d, i), q))


def mttkrp(X, A, n):
    """M[i, r] = sum over the other indices of X * prod_{m != n} A_m[i_m, r]"""
    others = [m for m in range(X.rank) if m != n]

    def el(i, r):
        def term(*s):
            ix = [None] * X.rank
            ix[n] = i
            for m, v in zip(others, s):
                ix[m] = v
            return S.prodp([S.at(X, ix)] + [S.at(A[m], [ix[m], r]) for m in others])
        return S.total([X.shape[m] for m in others], term)
    return S.build([X.shape[n], A[others[0]].shape[1]], el)


def pair(X, Y, n):
    """P[i, j] = sum over the other indices of X[.., i, ..] * Y[.., j, ..]  (= X_(n) Y_(n)^T)"""
    others = [m for m in range(X.rank) if m != n]

    def el(i, j):
        def term(*s):
            ix, iy = [None] * X.rank, [None] * X.rank
            ix[n], iy[n] = i, j
            for m, v in zip(others, s):
                ix[m] = iy[m] = v
            return mul(S.at(X, ix), S.at(Y, iy))
        return S.total([X.shape[m] for m in others], term)
    return S.build([X.shape[n], Y.shape[n]], el)


class CP(Machine):
    def init(self):
        return {'A': [cut(self.draw([n, self.ranks[0]])) for n in self.dims]}

    def step(self, s):
        A = list(s['A'])
        for n in range(self.N):
            V = S.hadamard([S.gram(A[m]) for m in range(self.N) if m != n])
            M = S.mm(mttkrp(self.X, A, n), D.matop('pinv', V))
            lam = D.reduce_(M, 'max', [0])
            A[n] = cut(S.build(M.shape, lambda i, r: mul(S.at(M, [i, r]), power(S.at(lam, [r]), -1))))
        s['A'] = A
        s['lambdas'] = cres(lam)
        s['full'] = S.cp_full(A, lam)
        s['full_out'] = cres(s['full'])


class NCP(Machine):
    def init(self):
        nrm = power(S.fro(self.X), Fraction(1, self.nparts()))
        out = {}

        def start(sizes):
            d = self.draw(sizes)
            d = cut(S.build(d.shape, lambda *i: alg.relu(S.at(d, i))))
            q = mul(nrm, power(S.fro(d), -1))
            return cut(S.build(d.shape, lambda *i: mul(S.at(d, i), q)))
        out['A'] = [start([n, self.ranks[0 if self.cp else k]]) for k, n in enumerate(self.dims)]
        out['Am'] = list(out['A'])
        out['A0'] = list(out['A'])
        if not self.cp:
            out['g'] = out['gm'] = out['g0'] = start(self.ranks)
        k = self.nparts()
        out['L'] = [scal(ONE)] * (self.N + 1)
        out['L0'] = [scal(ONE)] * (self.N + 1)
        out['t'] = out['t0'] = scal(ONE)
        return out

    cp = True

    def nparts(self):
        return self.N

    def prox(self, Am, grad, L):
        q = power(at0(L), -1)
        return cut(S.build(Am.shape, lambda *i: alg.relu(sub_(S.at(Am, i), mul(S.at(grad, i), q)))))

    def lip(self, s, k, val):
        L, L0 = list(s['L']), list(s['L0'])
        L0[k] = L[k]
        L[k] = cut(val)
        s['L'], s['L0'] = L, L0
        return L[k]

    def step(self, s):
        A = list(s['A'])
        for n in range(self.N):
            V = S.hadamard([S.gram(A[m]) for m in range(self.N) if m != n])
            G = S.sub(S.mm(s['Am'][n], V), mttkrp(self.X, A, n))
            L = self.lip(s, n, S.max_sv(V))
            A[n] = self.prox(s['Am'][n], G, L)
        s['A'] = A
        s['full'] = S.cp_full(A)
        s['full_out'] = cres(s['full'])
        s['t'] = cut(scal(self.tnext(s)))

    def tnext(self, s):
        return mul(add(ONE, alg.sqrt(add(ONE, scale(S.sq(at0(s['t0'])), 4)))), num('1/2'))

    def after(self, s, better, obj, obj0, step):
        if better:
            w = mul(sub_(at0(s['t0']), ONE), power(at0(s['t']), -1))
            wa = []
            for k in range(self.N + (0 if self.cp else 1)):
                r = alg.sqrt(mul(at0(s['L0'][k]), power(at0(s['L'][k]), -1)))
                wa.append(at0(cut(scal(alg.min2(w, r)))))
            Am = []
            for n in range(self.N):
                a, a0 = s['A'][n], s['A0'][n]
                Am.append(self.extrap(a, a0, wa[n]))
            s['Am'] = Am
            s['A0'] = list(s['A'])
            if not self.cp:
                s['gm'] = self.extrap(s['g'], s['g0'], wa[self.N])
                s['g0'] = s['g']
            s['t0'] = s['t']
            s['obj0'] = obj
        else:
            s['Am'] = list(s['A0'])
            if not self.cp:
                s['gm'] = s['g0']
            s['obj0'] = obj0
        return s

    def extrap(self, a, a0, w):
        return cut(S.build(a.shape, lambda *i: add(S.at(a, i), mul(w, sub_(S.at(a, i), S.at(a0, i))))))


class NTucker(NCP):
    cp = False

    def nparts(self):
        return self.N + 1

    def step(self, s):
        A = list(s['A'])
        N = self.N
        gm = s['gm']
        Gr = [S.gram(a) for a in A]
        L = ONE
        for g in Gr:
            L = mul(L, at0(S.max_sv(g)))
        L = self.lip(s, N, scal(L))
        lhs = cut(S.ttm(gm, Gr, list(range(N))))
        rhs = S.ttm(self.X, A, list(range(N)), transpose=True)
        s['g'] = self.prox(gm, cut(S.sub(lhs, rhs)), L)
        s['core_out'] = s['g']
        for n in range(N):
            others = [m for m in range(N) if m != n]
            B = S.ttm(s['g'], [A[m] for m in others], others)
            BB = pair(B, B, n)
            G = S.sub(S.mm(s['Am'][n], BB), pair(self.X, B, n))
            L = self.lip(s, n, S.max_sv(BB))
            A[n] = self.prox(s['Am'][n], G, L)
        s['A'] = A
        s['full'] = S.tucker_full(s['g'], A)
        s['full_out'] = cres(s['full'])
        s['t'] = cut(scal(self.tnext(s)))


def lead(U, r):
    """the first r columns"""
    return D.slice_axis(U, 1, ZERO, to_poly(r))


class Hosvd(Machine):
    def hosvd(self):
        A = [lead(D.svd_u_den(S.unfold(self.X, n)), self.ranks[n]) for n in range(self.N)]
        return A

    def run(self, steps, tol, **kw):
        A = self.hosvd()
        core = S.ttm(self.X, A, list(range(self.N)), transpose=True)
        s = {'A': [cres(a) for a in A], 'core_out': cres(core), 'hist': [], 'steps': 0}
        s['full_out'] = cres(S.tucker_full(core, A))
        return [(bdd.TRUE, s)]


class Hooi(Hosvd):
    def run(self, steps, tol, **kw):
        return Machine.run(self, steps, tol)

    def init(self):
        return {'A': [cut(a) for a in self.hosvd()]}

    def step(self, s):
        A = list(s['A'])
        N = self.N
        for n in range(N):
            others = [m for m in range(N) if m != n]
            Y = S.ttm(self.X, [A[m] for m in others], others, transpose=True)
            A[n] = cut(lead(D.svd_u_den(S.unfold(Y, n)), self.ranks[n]))
        s['A'] = A
        core = S.ttm(self.X, A, list(range(N)), transpose=True)
        s['core_out'] = cres(core)
        s['full'] = S.tucker_full(core, A)
        s['full_out'] = cres(s['full'])


MACHINES = {'CP_ALS': CP, 'NCP_BCU': NCP, 'NTUCKER_BCU': NTucker, 'HOSVD': Hosvd, 'HOOI': Hooi}
