"""Scalar value domain of the analyser: multivariate polynomials with bound
(summed) index variables, rational exponents and a few atomic function factors,
kept in a canonical form so that two abstract values are equal exactly when
their keys are equal.

A Poly is   sum_t coef_t * SUM_{bound_t} PROD_f factor_f ** exp_f .

Nothing here looks at numbers produced by running code: it is the term algebra
in which the dataflow analysis records what a program point computes.
"""
import math
from fractions import Fraction
import itertools

# ----------------------------------------------------------------------------
# global key interning: structural tuples -> small ints
_KT = {}
_KR = []


def K(t):
    r = _KT.get(t)
    if r is None:
        r = len(_KR)
        _KT[t] = r
        _KR.append(t)
    return r


_uid = itertools.count(1)


class TooBig(Exception):
    """the abstract value outgrew its bound: caller turns it into 'unknown'"""


MAX_TERMS = 4000


class IVar(object):
    """an index variable ranging over 0..size-1"""
    __slots__ = ('id', 'size')

    def __init__(self, size):
        self.id = next(_uid)
        self.size = size

    def __repr__(self):
        return 'i%d' % self.id


class Base(object):
    """A tensor-valued atom.  `key` identifies it; `ops` are operand Dens of
    opaque operators (so that substitution can go through them)."""
    __slots__ = ('name', 'key', 'rank', 'nonneg', 'kind', 'ops', 'info', 'positive', 'shape', 'unit')

    def __init__(self, name, key, rank, nonneg=False, kind='sym', ops=(), info=None, positive=False, shape=None):
        self.name = name
        self.key = key
        self.rank = rank
        self.nonneg = nonneg or positive
        self.positive = positive
        self.kind = kind
        self.ops = ops
        self.info = info
        self.shape = shape

    def __repr__(self):
        return self.name


class Factor(object):
    __slots__ = ('kind', 'args', 'fv', 'uid', 'memo', 'nonneg', 'positive')

    # kinds and args
    #  'S' (name, flags)          scalar symbol; flags subset of 'pi' (positive, integer)
    #  'N' (prime,)               a prime number under a fractional power
    #  'A' (Base, (Poly,...))     element of a tensor
    #  'I' (IVar,)                value of an index variable
    #  'R' (Poly,)                max(0, poly)
    #  'L' (Poly,)                1 if poly < 0 else 0
    #  'E' (Poly,)                1 if poly == 0 else 0
    #  'M' ((IVar,...), Poly)     max over the index variables
    #  'X' ((Poly,...),)          n-ary max
    #  'P' (Poly,)                base of a rational power
    #  'F' (name, (Poly,...))     uninterpreted pure function
    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self.uid = next(_uid)
        self.memo = {}
        fv = set()
        nonneg = positive = False
        if kind == 'S':
            positive = 'p' in args[1]
            nonneg = positive or 'n' in args[1]
        elif kind == 'N':
            positive = nonneg = True
        elif kind == 'A':
            for p in args[1]:
                fv |= p.fv
            nonneg = args[0].nonneg
            positive = args[0].positive
        elif kind == 'I':
            fv.add(args[0])
            nonneg = True
        elif kind in 'RLE':
            fv |= args[0].fv
            nonneg = True
        elif kind == 'P':
            fv |= args[0].fv
            nonneg = True       # only even or fractional powers are kept nonneg-aware (see mono_nonneg)
        elif kind == 'M':
            fv |= args[1].fv
            fv -= set(args[0])
            nonneg = is_nonneg(args[1])
            positive = is_positive(args[1])
        elif kind == 'X':
            for p in args[0]:
                fv |= p.fv
            nonneg = any(is_nonneg(p) for p in args[0])
            positive = any(is_positive(p) for p in args[0])
        elif kind == 'F':
            for p in args[1]:
                fv |= p.fv
            if args[0] in ('exp', 'cosh'):
                positive = nonneg = True
            elif args[0] in ('floor_abs', 'mod', 'udiv', 'umod', 'sigmoid', 'count'):
                nonneg = True
            elif args[0] == 'floordiv':
                nonneg = all(is_nonneg(p) for p in args[1])
        self.fv = frozenset(fv)
        self.nonneg = nonneg
        self.positive = positive

    def key(self, env):
        ek = tuple(sorted((v.id, env[v]) for v in self.fv if v in env)) if env else ()
        r = self.memo.get(ek)
        if r is not None:
            return r
        k, a = self.kind, self.args
        if k == 'S':
            r = K(('S', a[0]))
        elif k == 'N':
            r = K(('N', a[0]))
        elif k == 'A':
            r = K(('A', a[0].key) + tuple(p.key(env) for p in a[1]))
        elif k == 'I':
            v = a[0]
            r = K(('I', env[v])) if v in env else K(('Iv', v.id))
        elif k in 'RLEP':
            r = K((k, a[0].key(env)))
        elif k == 'M':
            r = K(('M', canon_bound(a[0], [(a[1], 1)], env, 'M')))
        elif k == 'X':
            r = K(('X',) + tuple(sorted(p.key(env) for p in a[0])))
        elif k == 'F':
            ks = [p.key(env) for p in a[1]]
            if a[0] in COMMUT:
                ks.sort()
            r = K(('F', a[0]) + tuple(ks))
        else:
            raise AssertionError(k)
        self.memo[ek] = r
        return r

    def __repr__(self):
        k, a = self.kind, self.args
        if k == 'S':
            return a[0]
        if k == 'N':
            return str(a[0])
        if k == 'A':
            if not a[1]:
                return repr(a[0])
            return '%r[%s]' % (a[0], ','.join(map(repr, a[1])))
        if k == 'I':
            return repr(a[0])
        if k == 'R':
            return 'max(0,%r)' % (a[0],)
        if k == 'L':
            return '[%r<0]' % (a[0],)
        if k == 'E':
            return '[%r==0]' % (a[0],)
        if k == 'P':
            return '(%r)' % (a[0],)
        if k == 'M':
            return 'max_{%s}(%r)' % (','.join(map(repr, a[0])), a[1])
        if k == 'X':
            return 'max(%s)' % ', '.join(map(repr, a[0]))
        return '%s(%s)' % (a[0], ', '.join(map(repr, a[1])))


COMMUT = {'bitxor'}


def canon_bound(bound, items, env, tag):
    """canonical key of a product of `items` [(keyable, exp)] under binders."""
    if not bound:
        return K((tag,) + tuple(sorted((f.key(env), e) for f, e in items)))
    bset = set(bound)
    colour = {b: K(('b0', b.size.key({}) if isinstance(b.size, Poly) else b.size)) for b in bound}
    occ = {b: [(f, e) for f, e in items if b in f.fv] for b in bound}

    def refine(colour):
        n = len(set(colour.values()))
        for _ in range(len(bound) + 1):
            if n == len(bound):
                break
            new = {}
            base = dict(env)
            base.update(colour)
            for b in bound:
                save = base[b]
                base[b] = -1
                new[b] = K((colour[b],) + tuple(sorted((f.key(base), e) for f, e in occ[b])))
                base[b] = save
            colour = new
            m = len(set(new.values()))
            if m == n:
                break
            n = m
        return colour

    def final(colour, depth):
        colour = refine(colour)
        cls = {}
        for b in bound:
            cls.setdefault(colour[b], []).append(b)
        if len(cls) == len(bound):
            e2 = dict(env)
            for r, b in enumerate(sorted(bound, key=lambda b: colour[b])):
                e2[b] = -2 - r - 1000 * 0
            # tokens must not clash with outer tokens: tag with depth-independent offset
            e2 = dict(env)
            off = 0
            for v in env.values():
                if isinstance(v, int) and v <= -1000:
                    off = min(off, v)
            start = (off if off else -1000)
            for r, b in enumerate(sorted(bound, key=lambda b: colour[b])):
                e2[b] = start - 1 - r
            sizes = tuple(b.size.key(e2) for b in sorted(bound, key=lambda b: colour[b]))
            return K((tag, sizes) + tuple(sorted((f.key(e2), e) for f, e in items)))
        # individualise
        c = min((k for k, v in cls.items() if len(v) > 1), key=lambda k: (len(cls[k]), k))
        best = None
        members = cls[c]
        if depth > 6:
            members = members[:1]
        for b in members:
            col2 = dict(colour)
            col2[b] = K(('ind', colour[b]))
            r = final(col2, depth + 1)
            if best is None or r < best:
                best = r
        return best

    return final(colour, 0)


class Mono(object):
    __slots__ = ('bound', 'fac', 'fv', 'uid', 'memo')

    def __init__(self, bound, fac):
        self.bound = bound          # tuple of IVar
        self.fac = fac              # tuple of (Factor, Fraction)
        fv = set()
        for f, e in fac:
            fv |= f.fv
        for b in bound:
            fv |= b.size.fv
        self.fv = frozenset(fv - set(bound))
        self.uid = next(_uid)
        self.memo = {}

    def key(self, env):
        ek = tuple(sorted((v.id, env[v]) for v in self.fv if v in env)) if env else ()
        r = self.memo.get(ek)
        if r is None:
            r = canon_bound(self.bound, self.fac, {v: env[v] for v in self.fv if v in env}, 'm')
            self.memo[ek] = r
        return r

    def __repr__(self):
        s = '*'.join((repr(f) if e == 1 else '%r^%s' % (f, e)) for f, e in self.fac) or '1'
        if self.bound:
            s = 'sum_{%s}(%s)' % (','.join(map(repr, self.bound)), s)
        return s


class Poly(object):
    __slots__ = ('terms', 'fv', 'uid', 'memo', 'mx')

    def __init__(self, terms):
        self.terms = terms       # dict key -> (Mono, Fraction)
        fv = set()
        for m, c in terms.values():
            fv |= m.fv
        self.fv = frozenset(fv)
        self.uid = next(_uid)
        self.memo = {}
        self.mx = None

    def key(self, env=None):
        env = env or {}
        ek = tuple(sorted((v.id, env[v]) for v in self.fv if v in env)) if env else ()
        r = self.memo.get(ek)
        if r is None:
            if not self.fv or not ek:
                r = K(('p',) + tuple(sorted((k, c) for k, (m, c) in self.terms.items())))
            else:
                e2 = {v: env[v] for v in self.fv if v in env}
                acc = {}
                for m, c in self.terms.values():
                    k = m.key(e2)
                    acc[k] = acc.get(k, 0) + c
                r = K(('p',) + tuple(sorted((k, c) for k, c in acc.items())))
            self.memo[ek] = r
        return r

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and _ONEK in self.terms)

    def const(self):
        """Fraction if constant else None"""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and _ONEK in self.terms:
            return self.terms[_ONEK][1]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def single(self):
        """(Mono, coef) if exactly one term"""
        if len(self.terms) == 1:
            return next(iter(self.terms.values()))
        return None

    def as_ivar(self):
        s = self.single()
        if s and s[1] == 1 and not s[0].bound and len(s[0].fac) == 1:
            f, e = s[0].fac[0]
            if f.kind == 'I' and e == 1:
                return f.args[0]
        return None

    def __eq__(self, o):
        if not isinstance(o, Poly):
            return NotImplemented
        return self is o or self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __add__(self, o):
        return add(self, to_poly(o))

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, scale(to_poly(o), Fraction(-1)))

    def __rsub__(self, o):
        return add(to_poly(o), scale(self, Fraction(-1)))

    def __neg__(self):
        return scale(self, Fraction(-1))

    def __mul__(self, o):
        return mul(self, to_poly(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(to_poly(o), Fraction(-1)))

    def __rtruediv__(self, o):
        return mul(to_poly(o), power(self, Fraction(-1)))

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, c in self.terms.values():
            s = repr(m)
            if c == 1:
                out.append('+ ' + s)
            elif c == -1:
                out.append('- ' + s)
            elif s == '1':
                out.append(('+ ' if c > 0 else '- ') + str(abs(c)))
            else:
                out.append(('+ ' if c > 0 else '- ') + '%s*%s' % (abs(c), s))
        r = ' '.join(out)
        return r[2:] if r.startswith('+ ') else r


_ONE_M = Mono((), ())
_ONEK = _ONE_M.key({})
ZERO = Poly({})
ONE = Poly({_ONEK: (_ONE_M, Fraction(1))})
_const_cache = {}


def const(c):
    c = Fraction(c)
    r = _const_cache.get(c)
    if r is None:
        r = ZERO if c == 0 else Poly({_ONEK: (_ONE_M, c)})
        _const_cache[c] = r
    return r


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    if isinstance(x, IVar):
        return ivar(x)
    raise TypeError(x)


def from_terms(pairs):
    acc = {}
    for m, c in pairs:
        k = m.key({})
        if k in acc:
            c2 = acc[k][1] + c
            if c2 == 0:
                del acc[k]
            else:
                acc[k] = (acc[k][0], c2)
        elif c != 0:
            acc[k] = (m, c)
    if not acc:
        return ZERO
    if len(acc) > MAX_TERMS:
        raise TooBig()
    return Poly(acc)


def add(a, b):
    if not a.terms:
        return b
    if not b.terms:
        return a
    acc = dict(a.terms)
    for k, (m, c) in b.terms.items():
        if k in acc:
            c2 = acc[k][1] + c
            if c2 == 0:
                del acc[k]
            else:
                acc[k] = (acc[k][0], c2)
        else:
            acc[k] = (m, c)
    if len(acc) > MAX_TERMS:
        raise TooBig()
    return Poly(acc) if acc else ZERO


def sum_polys(ps):
    r = ZERO
    for p in ps:
        r = add(r, p)
    return r


def scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO
    return Poly({k: (m, v * c) for k, (m, v) in a.terms.items()})


_sym_cache = {}


def sym(name, flags=''):
    k = (name, flags)
    if k not in _sym_cache:
        _sym_cache[k] = fpoly(Factor('S', (name, flags)))
    return _sym_cache[k]


def dimsym(name):
    return sym(name, 'pi')


_ivar_cache = {}


def ivar(v):
    if v.id not in _ivar_cache:
        _ivar_cache[v.id] = fpoly(Factor('I', (v,)))
    return _ivar_cache[v.id]


def fpoly(f, e=1):
    m = Mono((), ((f, Fraction(e)),))
    return Poly({m.key({}): (m, Fraction(1))})


def acc(base, idx):
    return fpoly(Factor('A', (base, tuple(to_poly(i) for i in idx))))


# ----------------------------------------------------------------------------
# term construction

EXPAND = 8


def mk_term(coef, bound, fac):
    """Build coef * SUM_bound PROD fac as a Poly, applying the simplification rules.
    fac: list of (Factor, exp)"""
    # combine equal factors
    acc_ = {}
    order = []
    for f, e in fac:
        k = f.key({})
        if k in acc_:
            acc_[k][1] += e
        else:
            acc_[k] = [f, Fraction(e)]
            order.append(k)
    items = []
    expand = []
    for k in order:
        f, e = acc_[k]
        if e == 0:
            continue
        kd = f.kind
        if kd in 'LE':
            if e < 0:
                items.append((f, e))
                continue
            e = Fraction(1)
        elif kd == 'N':
            fl = e.numerator // e.denominator
            if fl:
                coef = coef * Fraction(f.args[0]) ** fl
                e -= fl
                if e == 0:
                    continue
        elif kd == 'P' and e >= 1:
            fl = e.numerator // e.denominator
            expand.append((f.args[0], fl))
            e -= fl
            if e == 0:
                continue
        items.append((f, e))
    if expand:
        r = mk_term(coef, bound, items) if not bound else None
        if r is None:
            # multiply inside the sum
            p = mk_term_inner(coef, items)
            for q, n in expand:
                for _ in range(n):
                    p = mul(p, q)
            return sum_over(p, bound)
        for q, n in expand:
            for _ in range(n):
                r = mul(r, q)
        return r
    # zero: x * [x==0]
    eqs = [f for f, e in items if f.kind == 'E']
    if eqs:
        for f in eqs:
            s = f.args[0].single()
            if s and not s[0].bound:
                ks = {g.key({}) for g, e in items if e > 0}
                if s[0].fac and all(g.key({}) in ks for g, e in s[0].fac):
                    return ZERO
                if len(s[0].fac) == 1 and s[0].fac[0][0].key({}) in ks:
                    return ZERO
        # delta elimination over bound variables
        if bound:
            bs = set(bound)
            for f in eqs:
                r = solve_eq(f.args[0], bs)
                if r is not None:
                    b, q = r
                    rest = [(g, e) for g, e in items if g is not f]
                    p = mk_term_inner(coef, rest)
                    p = subst(p, {b: q})
                    nb = tuple(x for x in bound if x is not b)
                    return sum_over(p, nb)
        # a free index fixed by an equality with a constant: x[i]*[i==c] -> x[c]*[i==c]
    # complementary indicators [p<0][p==0] = 0
    ls = [f for f, e in items if f.kind == 'L']
    if ls and eqs:
        ek = {f.args[0].key({}) for f in eqs}
        for f in ls:
            if f.args[0].key({}) in ek or (-f.args[0]).key({}) in ek:
                return ZERO
    if bound:
        fvs = set()
        for f, e in items:
            fvs |= f.fv
        used = []
        for b in bound:
            if b in fvs:
                used.append(b)
            else:
                # sum over an unused index multiplies by its size
                rest = tuple(x for x in bound if x is not b)
                p = mk_term_inner(coef, items)
                return sum_over(mul(p, b.size), rest)
        bound = tuple(used)
        for b in bound:
            n = b.size.as_int()
            if n is not None and n <= EXPAND:
                rest = tuple(x for x in bound if x is not b)
                p = mk_term_inner(coef, items)
                r = ZERO
                for c in range(n):
                    r = add(r, subst(p, {b: const(c)}))
                return sum_over(r, rest)
        # factor independent of the bound variables stay inside (canonical: all in one product)
    m = Mono(bound, tuple(items))
    return Poly({m.key({}): (m, Fraction(coef))})


def mk_term_inner(coef, items):
    m = Mono((), tuple(items))
    return Poly({m.key({}): (m, Fraction(coef))}) if coef != 0 else ZERO


def solve_eq(p, bs):
    """p == 0 with a bound variable occurring linearly (+-1): return (var, expr)"""
    for k, (m, c) in p.terms.items():
        if m.bound or len(m.fac) != 1:
            continue
        f, e = m.fac[0]
        if f.kind == 'I' and e == 1 and f.args[0] in bs and abs(c) == 1:
            b = f.args[0]
            rest = Poly({k2: v for k2, v in p.terms.items() if k2 != k})
            if b in rest.fv:
                continue
            q = scale(rest, -1 / c)
            # only when the solution is certainly inside the range
            qi = q.as_ivar()
            if qi is not None and qi.size == b.size:
                return b, q
            ci = q.as_int()
            if ci is not None:
                n = b.size.as_int()
                if n is not None:
                    if 0 <= ci < n:
                        return b, q
                elif ci >= 0:
                    return b, q
            s = q.single()
            if s and s[1] == 1 and len(s[0].fac) == 1 and s[0].fac[0][0].kind == 'A' and \
                    s[0].fac[0][0].args[0].info == 'index':
                return b, q
    return None


def sum_over(p, bound):
    bound = tuple(bound)
    if not bound or not p.terms:
        return p
    out = ZERO
    for m, c in p.terms.values():
        ren = {b: IVar(b.size) for b in bound}
        bset = [b for b in bound]
        fac = m.fac
        used = [b for b in bset if b in m.fv]
        if used:
            mm = subst_mono(m, {b: ivar(ren[b]) for b in used})
            for m2, c2 in mm.terms.values():
                nb = m2.bound + tuple(ren[b] for b in used)
                t = mk_term(c * c2, nb, list(m2.fac))
                for b in bset:
                    if b not in used:
                        t = mul(t, b.size)
                out = add(out, t)
        else:
            t = Poly({m.key({}): (m, c)})
            for b in bset:
                t = mul(t, b.size)
            out = add(out, t)
    return out


def freshen(m):
    """rename the bound variables of a monomial (returns bound, fac)"""
    if not m.bound:
        return (), m.fac
    ren = {b: IVar(b.size) for b in m.bound}
    mp = {b: ivar(v) for b, v in ren.items()}
    fac = [(subst_factor_raw(f, mp), e) for f, e in m.fac]
    return tuple(ren[b] for b in m.bound), fac


def subst_factor_raw(f, mp):
    """substitute index variables by index variables only (factor stays a factor)"""
    if not any(v in f.fv for v in mp):
        return f
    k, a = f.kind, f.args
    if k == 'I':
        v = mp[a[0]].as_ivar()
        return ivar_factor(v)
    if k == 'A':
        return Factor('A', (a[0], tuple(subst(p, mp) for p in a[1])))
    if k in 'RLEP':
        return Factor(k, (subst(a[0], mp),))
    if k == 'M':
        return Factor('M', (a[0], subst(a[1], mp)))
    if k == 'X':
        return Factor('X', (tuple(subst(p, mp) for p in a[0]),))
    if k == 'F':
        return Factor('F', (a[0], tuple(subst(p, mp) for p in a[1])))
    return f


def ivar_factor(v):
    return next(iter(ivar(v).terms.values()))[0].fac[0][0]


def mul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    ca, cb = a.const(), b.const()
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    # exact cancellation p * p^-e
    r = _cancel(a, b)
    if r is not None:
        return r
    r = _cancel(b, a)
    if r is not None:
        return r
    if len(a.terms) * len(b.terms) > MAX_TERMS:
        raise TooBig()
    out = {}
    res = ZERO
    simple = []
    for m1, c1 in a.terms.values():
        for m2, c2 in b.terms.values():
            b2, f2 = m2.bound, m2.fac
            if m1.bound and b2 and set(m1.bound) & set(b2):
                b2, f2 = freshen(m2)
            t = mk_term(c1 * c2, m1.bound + tuple(b2), list(m1.fac) + list(f2))
            for k, (m, c) in t.terms.items():
                if k in out:
                    cc = out[k][1] + c
                    if cc == 0:
                        del out[k]
                    else:
                        out[k] = (out[k][0], cc)
                else:
                    out[k] = (m, c)
    if len(out) > MAX_TERMS:
        raise TooBig()
    return Poly(out) if out else ZERO


def _cancel(a, b):
    """a is an expanded poly (>=2 terms or bound), b a single unbound monomial containing P(a')^-e with a = c*a'"""
    sb = b.single()
    if not sb or sb[0].bound:
        return None
    if len(a.terms) < 2 and not (a.single() and a.single()[0].bound):
        return None
    for i, (f, e) in enumerate(sb[0].fac):
        if f.kind == 'P' and e < 0:
            cc = proportional(a, f.args[0])
            if cc is not None:
                rest = list(sb[0].fac)
                rest[i] = (f, e + 1)
                return scale(mk_term(sb[1], (), rest), cc)
    return None


def proportional(a, b):
    """c with a == c*b, else None (c rational)"""
    if len(a.terms) != len(b.terms) or not a.terms:
        return None
    ratio = None
    for k, (m, c) in a.terms.items():
        if k not in b.terms:
            return None
        r = c / b.terms[k][1]
        if ratio is None:
            ratio = r
        elif r != ratio:
            return None
    return ratio


def prod(ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


# ----------------------------------------------------------------------------
# substitution

def subst(p, mp):
    """substitute index variables by Polys"""
    if not mp or not any(v in p.fv for v in mp):
        return p
    out = ZERO
    keep = []
    for k, (m, c) in p.terms.items():
        if any(v in m.fv for v in mp):
            out = add(out, scale(subst_mono(m, mp), c))
        else:
            keep.append((k, m, c))
    if keep:
        out = add(Poly({k: (m, c) for k, m, c in keep}), out)
    return out


def subst_mono(m, mp):
    mp = {v: q for v, q in mp.items() if v in m.fv}
    if not mp:
        return Poly({m.key({}): (m, Fraction(1))})
    bound, fac = m.bound, m.fac
    if bound:
        # capture check: does a substituted expr mention one of our bound variables?
        mention = set()
        for q in mp.values():
            mention |= q.fv
        if mention & set(bound):
            bound, fac = freshen(m)
    # bound sizes may mention variables
    parts = []
    pend = ONE
    newf = []
    for f, e in fac:
        if any(v in f.fv for v in mp):
            r = subst_factor(f, mp)
            s = r.single()
            if s and not s[0].bound and (s[1] == 1):
                for g, e2 in s[0].fac:
                    newf.append((g, e2 * e))
            else:
                pend = mul(pend, power(r, e))
        else:
            newf.append((f, e))
    if pend is ONE:
        return mk_term(Fraction(1), bound, newf)
    inner = mul(mk_term_inner(Fraction(1), _comb(newf)), pend) if True else None
    return sum_over(inner, bound)


def _comb(fac):
    acc_ = {}
    for f, e in fac:
        k = f.key({})
        if k in acc_:
            acc_[k] = (f, acc_[k][1] + e)
        else:
            acc_[k] = (f, Fraction(e))
    return [(f, e) for f, e in acc_.values() if e != 0]


def subst_factor(f, mp):
    k, a = f.kind, f.args
    if k == 'I':
        return mp.get(a[0], None) if a[0] in mp else fpoly(f)
    if k == 'A':
        return acc(a[0], [subst(p, mp) for p in a[1]])
    if k == 'R':
        return relu(subst(a[0], mp))
    if k == 'L':
        return lt0(subst(a[0], mp))
    if k == 'E':
        return eq0(subst(a[0], mp))
    if k == 'P':
        return power_base(subst(a[0], mp))
    if k == 'M':
        return redmax(subst(a[1], mp), a[0])
    if k == 'X':
        return maxn([subst(p, mp) for p in a[0]])
    if k == 'F':
        return func(a[0], [subst(p, mp) for p in a[1]])
    return fpoly(f)


def power_base(p):
    """a P factor's base as a Poly: plain value"""
    return p


def map_bases(p, fn, memo=None):
    """rebuild p with every tensor access base[idx] replaced by fn(base, idx) (a Poly) or kept
    when fn returns None.  Goes through operands of opaque bases via fn itself."""
    if memo is None:
        memo = {}
    r = memo.get(p.uid)
    if r is not None:
        return r[1]
    out = ZERO
    for m, c in p.terms.values():
        newf = []
        pend = ONE
        changed = False
        for f, e in m.fac:
            r = _mapf(f, fn, memo)
            if r is None:
                newf.append((f, e))
            else:
                changed = True
                s = r.single()
                if s and not s[0].bound and s[1] == 1:
                    for g, e2 in s[0].fac:
                        newf.append((g, e2 * e))
                else:
                    pend = mul(pend, power(r, e))
        nb = m.bound
        if nb and any(b.size.fv or _has_acc(b.size) for b in nb):
            pass
        if not changed:
            out = add(out, Poly({m.key({}): (m, c)}))
        elif pend is ONE:
            out = add(out, mk_term(c, m.bound, newf))
        else:
            out = add(out, sum_over(mul(mk_term_inner(c, _comb(newf)), pend), m.bound))
    memo[p.uid] = (p, out)
    return out


def _has_acc(p):
    return False


def _mapf(f, fn, memo):
    k, a = f.kind, f.args
    if k == 'A':
        idx = [map_bases(p, fn, memo) for p in a[1]]
        r = fn(a[0], idx)
        if r is None:
            if all(x is y or x.key() == y.key() for x, y in zip(idx, a[1])):
                return None
            return acc(a[0], idx)
        return r
    if k in 'RLEP':
        q = map_bases(a[0], fn, memo)
        if q.key() == a[0].key():
            return None
        return {'R': relu, 'L': lt0, 'E': eq0, 'P': power_base}[k](q)
    if k == 'M':
        q = map_bases(a[1], fn, memo)
        if q.key() == a[1].key():
            return None
        return redmax(q, a[0])
    if k == 'X':
        qs = [map_bases(p, fn, memo) for p in a[0]]
        if all(x.key() == y.key() for x, y in zip(qs, a[0])):
            return None
        return maxn(qs)
    if k == 'F':
        qs = [map_bases(p, fn, memo) for p in a[1]]
        if all(x.key() == y.key() for x, y in zip(qs, a[1])):
            return None
        return func(a[0], qs)
    return None


def bases_of(p, out=None):
    """set of Base objects occurring anywhere in p (not through operands)"""
    if out is None:
        out = {}
    for m, c in p.terms.values():
        for f, e in m.fac:
            _basesf(f, out)
    return out


def _basesf(f, out):
    k, a = f.kind, f.args
    if k == 'A':
        if a[0].key not in out:
            out[a[0].key] = a[0]
        for p in a[1]:
            bases_of(p, out)
    elif k in 'RLEP':
        bases_of(a[0], out)
    elif k == 'M':
        bases_of(a[1], out)
    elif k in 'XF':
        for p in (a[0] if k == 'X' else a[1]):
            bases_of(p, out)


def factors_of(p, pred, out=None):
    """all factors (nested) satisfying pred"""
    if out is None:
        out = []
    for m, c in p.terms.values():
        for f, e in m.fac:
            if pred(f):
                out.append(f)
            k, a = f.kind, f.args
            if k == 'A':
                for q in a[1]:
                    factors_of(q, pred, out)
            elif k in 'RLEP':
                factors_of(a[0], pred, out)
            elif k == 'M':
                factors_of(a[1], pred, out)
            elif k == 'X':
                for q in a[0]:
                    factors_of(q, pred, out)
            elif k == 'F':
                for q in a[1]:
                    factors_of(q, pred, out)
    return out


# ----------------------------------------------------------------------------
# sign analysis

def mono_nonneg(m):
    for f, e in m.fac:
        if e.denominator != 1:
            continue            # even root / real fractional power: taken nonnegative
        if e.numerator % 2 == 0:
            continue
        if f.kind == 'P':
            if not is_nonneg(f.args[0]):
                return False
        elif not f.nonneg:
            return False
    return True


def mono_positive(m):
    if m.bound and not all(is_positive(b.size) for b in m.bound):
        return False
    for f, e in m.fac:
        if f.positive:
            continue
        if f.kind == 'P' and is_positive(f.args[0]):
            continue
        return False
    return True


def is_nonneg(p):
    if all(c > 0 and mono_nonneg(m) for m, c in p.terms.values()):
        return True
    return is_abs(p) or size_nonneg(p)


def size_nonneg(p):
    """a polynomial in positive integers that has no negative coefficient once every one of them is written as 1 + a natural number"""
    if len(p.terms) > 8 or sum(c for m, c in p.terms.values()) < 0:
        return False
    out = {}
    for m, c in p.terms.values():
        if m.bound:
            return False
        fs = []
        for f, e in m.fac:
            if f.kind != 'S' or 'p' not in f.args[1] or 'i' not in f.args[1] or e.denominator != 1 or not 0 < e.numerator < 5:
                return False
            fs += [f.args] * e.numerator
        if len(fs) > 6:
            return False
        for k in range(len(fs) + 1):
            for pick in itertools.combinations(sorted(fs), k):
                out[pick] = out.get(pick, 0) + c
    return all(c >= 0 for c in out.values())


def is_abs(p):
    """p = q * (2 max(0,y) - y) with q positive: an absolute value"""
    if len(p.terms) < 2:
        return False
    hit = None
    for m, c in p.terms.values():
        if c > 0 and not m.bound:
            rs = [f for f, e in m.fac if f.kind == 'R' and e == 1]
            if len(rs) == 1 and mono_nonneg(m):
                if hit is not None:
                    return False
                hit = (m, c, rs[0])
    if hit is None:
        return False
    m, c, r = hit
    q = mk_term(c / 2, (), [(f, e) for f, e in m.fac if f is not r])
    return mul(q, sub_(fpoly(r), sub_(r.args[0], fpoly(r)))).key() == p.key()


def is_positive(p):
    if not p.terms:
        return False
    return is_nonneg(p) and any(mono_positive(m) for m, c in p.terms.values())


def is_integer(p):
    for m, c in p.terms.values():
        if c.denominator != 1:
            return False
        for f, e in m.fac:
            if e.denominator != 1 or e < 0:
                return False
            if f.kind == 'S' and 'i' in f.args[1]:
                continue
            if f.kind in 'ILE':
                continue
            if f.kind == 'A' and f.args[0].info in ('index', 'int'):
                continue
            if f.kind == 'R' and is_integer(f.args[0]):
                continue
            if f.kind == 'F' and f.args[0] in ('mod', 'floordiv', 'udiv', 'umod', 'int', 'count'):
                continue
            return False
    return True


# ----------------------------------------------------------------------------
# normalisation of scale and sign

def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def content(p):
    """positive rational content and positive-symbol monomial common to all terms"""
    num = 0
    den = 1
    for m, c in p.terms.values():
        num = _gcd(num, abs(c.numerator))
        den = den * c.denominator // _gcd(den, c.denominator)
    cont = Fraction(num, den)
    # common positive symbols
    common = None
    for m, c in p.terms.values():
        d = {}
        for f, e in m.fac:
            if f.positive and not f.fv:
                d[f.key({})] = (f, e)
        if common is None:
            common = d
        else:
            n = {}
            for k in set(common) | set(d):
                if k in common and k in d:
                    e = min(common[k][1], d[k][1])
                elif k in common:
                    e = min(common[k][1], Fraction(0))
                else:
                    e = min(d[k][1], Fraction(0))
                if e != 0:
                    n[k] = ((common.get(k) or d.get(k))[0], e)
            common = n
    return cont, list(common.values()) if common else []


def pull_content(p):
    """p = q * r with q a positive Poly and r primitive"""
    if not p.terms:
        return ONE, p
    cont, com = content(p)
    q = mk_term(cont, (), com)
    if q.const() == 1:
        return ONE, p
    inv = mk_term(1 / cont, (), [(f, -e) for f, e in com])
    return q, mul(p, inv)


def _anon_env(p):
    return {v: K(('anon', v.size.key({}) if not v.size.fv else 0)) for v in p.fv}


def sign_of(p):
    """+1/-1: invariant choice of orientation, or 0 when it cannot be made"""
    pos = sum(1 for m, c in p.terms.values() if c > 0)
    neg = len(p.terms) - pos
    if pos != neg:
        return 1 if pos > neg else -1
    env = _anon_env(p)
    ks = {}
    for m, c in p.terms.values():
        k = m.key(env)
        ks.setdefault(k, []).append(c)
    for k in sorted(ks):
        s = sum(ks[k])
        if len(ks[k]) == 1 or s != 0:
            return 1 if s > 0 else -1
    return 0


def relu(p):
    c = p.const()
    if c is not None:
        return const(max(c, 0))
    if is_nonneg(p):
        return p
    n = -p
    if is_nonneg(n):
        return ZERO
    q, r = pull_content(p)
    if r.single() and not r.single()[0].bound:
        pass
    s = sign_of(r)
    if s < 0:
        r2 = -r
        base = fpoly(Factor('R', (r2,)))
        res = add(r, base)       # relu(x) = x + relu(-x)
    else:
        res = fpoly(Factor('R', (r,)))
    res = mul(q, res)
    return res


def absval(p):
    if is_nonneg(p):
        return p
    if is_nonneg(-p):
        return -p
    return sub_(scale(relu(p), Fraction(2)), p)


def sub_(a, b):
    return add(a, scale(b, Fraction(-1)))


def lt0(p):
    """[p < 0]"""
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    if is_nonneg(p):
        return ZERO
    if is_positive(-p):
        return ONE
    q, r = pull_content(p)
    if is_integer(p) and not is_integer(r):
        r = p
    s = sign_of(r)
    if s < 0:
        return sub_(sub_(ONE, fpoly(Factor('L', (-r,)))), eq0(r))
    return fpoly(Factor('L', (r,)))


def eq0(p):
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_positive(p) or is_positive(-p):
        return ZERO
    # index variable against a constant outside its range
    q, r = pull_content(p)
    s = sign_of(r)
    if s < 0:
        r = -r
    sg = r.single()
    if sg and not sg[0].bound and len(sg[0].fac) >= 1:
        # product is zero iff some factor is zero; drop strictly positive factors and powers
        fs = [(f, e) for f, e in sg[0].fac if not f.positive]
        if all(e > 0 for f, e in fs):
            if len(fs) == 0:
                return ZERO
            if len(fs) == 1:
                f = fs[0][0]
                if f.kind == 'P':
                    return eq0(f.args[0])
                r = fpoly(f)
            else:
                # [xy==0] = 1-(1-[x==0])(1-[y==0])
                t = ONE
                for f, e in fs:
                    t = mul(t, sub_(ONE, eq0(fpoly(f))))
                return sub_(ONE, t)
        if len(fs) == 1 and fs[0][0].kind in 'LE':
            return sub_(ONE, fpoly(fs[0][0]))
    cr = _range_excludes_zero(r)
    if cr:
        return ZERO
    return fpoly(Factor('E', (r,)))


def _range_excludes_zero(p):
    """i - c with c constant outside 0..size-1"""
    iv = None
    k0 = Fraction(0)
    coef = None
    for k, (m, c) in p.terms.items():
        if k == _ONEK:
            k0 = c
        elif not m.bound and len(m.fac) == 1 and m.fac[0][0].kind == 'I' and m.fac[0][1] == 1 and iv is None:
            iv = m.fac[0][0].args[0]
            coef = c
        else:
            return False
    if iv is None:
        return False
    v = -k0 / coef
    if v < 0 or v.denominator != 1:
        return True
    n = iv.size.as_int()
    return n is not None and v >= n


def max2(a, b):
    return maxn([a, b])


def maxn(ps):
    els = {}
    for p in ps:
        if p.mx is not None:
            for q in p.mx:
                els[q.key()] = q
        else:
            els[p.key()] = p
    lst = [els[k] for k in els]
    # drop dominated
    out = []
    for i, p in enumerate(lst):
        dom = False
        for j, q in enumerate(lst):
            if i == j:
                continue
            d = sub_(q, p)
            if is_nonneg(d) and not (is_nonneg(sub_(p, q)) and i < j):
                dom = True
                break
        if not dom:
            out.append(p)
    if not out:
        out = lst[:1]
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        a, b = out
        r = add(a, relu(sub_(b, a)))
        if r.mx is None and not r.is_const():
            r = Poly(dict(r.terms))
            r.mx = (a, b)
        return r
    r = fpoly(Factor('X', (tuple(out),)))
    r.mx = tuple(out)
    return r


def min2(a, b):
    return -maxn([-a, -b])


def minn(ps):
    return -maxn([-p for p in ps])


def largest_first(p, ivs):
    """the singular values of a matrix come in descending order: their maximum is the first one"""
    s = p.single()
    if not s or s[1] <= 0 or s[0].bound or len(s[0].fac) != 1 or len(ivs) != 1:
        return None
    f, e = s[0].fac[0]
    if e <= 0 or f.kind != 'A' or f.args[0].kind != 'op' or _KR[f.args[0].key][1] != 'svd_s' or len(f.args[1]) != 1:
        return None
    i = f.args[1][0].single()
    if not i or i[1] != 1 or i[0].bound or len(i[0].fac) != 1 or i[0].fac[0][1] != 1:
        return None
    g = i[0].fac[0][0]
    return subst(p, {ivs[0]: const(0)}) if g.kind == 'I' and g.args[0] is ivs[0] else None


def redmax(p, ivs):
    ivs = tuple(v for v in ivs if v in p.fv)
    if not ivs:
        return p
    first = largest_first(p, ivs)
    if first is not None:
        return first
    for v in ivs:
        n = v.size.as_int()
        if n is not None and n <= EXPAND:
            rest = tuple(x for x in ivs if x is not v)
            return redmax(maxn([subst(p, {v: const(c)}) for c in range(n)]), rest)
    # positive factors independent of the indices can be pulled out when p is one term
    s = p.single()
    outer = ONE
    if s:
        m, c = s
        if not m.bound:
            out, inn = [], []
            for f, e in m.fac:
                if f.positive and not (f.fv & set(ivs)):
                    out.append((f, e))
                else:
                    inn.append((f, e))
            if c < 0:
                outer = mk_term(-c, (), out)
                p = mk_term(Fraction(-1), (), inn)
            else:
                outer = mk_term(c, (), out)
                p = mk_term(Fraction(1), (), inn)
    else:
        q, r = pull_content(p)
        outer, p = q, r
    # fresh binders
    ren = {v: IVar(v.size) for v in ivs}
    p2 = subst(p, {v: ivar(w) for v, w in ren.items()})
    s = p2.single()
    if s and s[1] == 1 and len(s[0].fac) == 1 and not s[0].bound and s[0].fac[0][0].kind == 'M' and s[0].fac[0][1] == 1:
        g = s[0].fac[0][0]
        return mul(outer, fpoly(Factor('M', (tuple(ren.values()) + g.args[0], g.args[1]))))
    return mul(outer, fpoly(Factor('M', (tuple(ren.values()), p2))))


def redmin(p, ivs):
    return -redmax(-p, ivs)


# ----------------------------------------------------------------------------
# powers

def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def num_power(c, e):
    """positive rational c to rational e as Poly"""
    fac = []
    for pr, k in _primes(c.numerator).items():
        fac.append((Factor('N', (pr,)), k * e))
    for pr, k in _primes(c.denominator).items():
        fac.append((Factor('N', (pr,)), -k * e))
    return mk_term(Fraction(1), (), fac)


def power(p, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        if c == 0:
            return ZERO if e > 0 else func('div0', [])
        if e.denominator == 1:
            return const(c ** int(e))
        if c > 0:
            return num_power(c, e)
        return func('pow', [p, const(e)])
    if e.denominator == 1 and e > 0:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    s = p.single()
    if s and not s[0].bound:
        m, c = s
        if e.denominator == 1:
            # negative integer
            cf = c ** int(e)
            return mk_term(cf, (), [(f, x * e) for f, x in m.fac])
        if c > 0:
            res = num_power(c, e)
            fac = []
            ok = True
            for f, x in m.fac:
                if f.nonneg and not (f.kind == 'P' and x.denominator == 1 and not is_nonneg(f.args[0])):
                    fac.append((f, x * e))
                elif x.denominator == 1 and x % 2 == 0:
                    y = x * e
                    if y.denominator == 1 and y % 2 == 0:
                        fac.append((f, y))
                    else:
                        a = absval(fpoly(f))
                        res = mul(res, power(a, y)) if a.single() and not a.single()[0].bound and False else \
                            mul(res, _pp(fpoly(f, 2), x * e / 2))
                elif x.denominator != 1:
                    fac.append((f, x * e))
                else:
                    ok = False
            if ok:
                return mul(res, mk_term(Fraction(1), (), fac))
    q, r = pull_content(p)
    if e.denominator == 1:
        sg = sign_of(r)
        if sg < 0:
            r = -r
            res = _pp(r, e)
            if int(e) % 2:
                res = -res
        else:
            res = _pp(r, e)
    else:
        res = _pp(r, e)
    if q is not ONE:
        res = mul(power(q, e), res)
    return res


def _pp(r, e):
    s = r.single()
    if s and s[1] == 1 and not s[0].bound and len(s[0].fac) == 1 and s[0].fac[0][0].kind == 'P':
        f, x = s[0].fac[0]
        return mk_term(Fraction(1), (), [(f, x * e)])
    return mk_term(Fraction(1), (), [(Factor('P', (r,)), Fraction(e))])


def sqrt(p):
    return power(p, Fraction(1, 2))


def func(name, args):
    args = tuple(to_poly(a) for a in args)
    if name in ('floordiv', 'mod', 'udiv', 'umod') and all(a.as_int() is not None for a in args) and args[1].as_int() != 0:
        x, y = args[0].as_int(), args[1].as_int()
        return const(x // y if name in ('floordiv', 'udiv') else x % y)
    if name in ('trunc', 'floor', 'ceil', 'rint') and args[0].const() is not None:
        c = Fraction(args[0].const())
        return const({'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'rint': round}[name](c))
    if name == 'mod' and args[1].const() in (1, -1) and is_integer(args[0]):
        return ZERO
    if name == 'floordiv' and args[1].const() == 1 and is_integer(args[0]):
        return args[0]
    if name == 'floordiv' and is_integer(args[0]) and is_integer(args[1]):
        q = mul(args[0], power(args[1], -1))
        if is_integer(q):
            return q
    if name == 'mod' and is_integer(args[0]) and is_integer(args[1]):
        q = mul(args[0], power(args[1], -1))
        if is_integer(q):
            return ZERO
    if name == 'exp' and args[0].const() == 0:
        return ONE
    if name == 'log' and args[0].const() == 1:
        return ZERO
    return fpoly(Factor('F', (name, args)))


# unflatten helper: linear = sum parts ; (linear // stride) % size
def unflat(linear, stride, size):
    """component of a row-major linear index"""
    # split the linear index terms: those divisible by stride*size vanish, those divisible by
    # stride contribute, the rest must be < stride.
    cl, cs, cz = linear.as_int(), stride.as_int(), size.as_int()
    if cl is not None and cs and cz:
        return const(cl // cs % cz)
    n = mul(stride, size)
    hi, mid, lo = ZERO, ZERO, ZERO
    for k, (m, c) in linear.terms.items():
        t = Poly({k: (m, c)})
        q = mul(t, power(n, -1))
        if is_integer(q):
            hi = add(hi, t)
            continue
        q = mul(t, power(stride, -1))
        if is_integer(q):
            mid = add(mid, q)
        else:
            lo = add(lo, t)
    if _bounded(lo, stride) and _bounded(mid, size):
        return mid
    return fpoly(Factor('F', ('umod', (fpoly(Factor('F', ('udiv', (linear, stride)))), size))))


def _bounded(p, n):
    """0 <= p < n certainly, for p a mixed-radix sum of index variables"""
    if not p.terms:
        return True
    # max value of p with each index at size-1
    mx = ZERO
    for m, c in p.terms.values():
        if c < 0 or m.bound:
            return False
        t = const(c)
        for f, e in m.fac:
            if f.kind == 'I':
                if e != 1:
                    return False
                t = mul(t, sub_(f.args[0].size, ONE))
            elif f.kind == 'S' and 'p' in f.args[1]:
                t = mul(t, fpoly(f, e))
            else:
                return False
        mx = add(mx, t)
    d = sub_(sub_(n, mx), ONE)
    return is_nonneg(d)
