"""Random interpretation of abstract values (in the sense of random-interpretation
dataflow analysis): two terms of the value domain whose normal forms differ are
evaluated under random assignments of their atoms.  It is the *terms computed by
the analysis* that are evaluated; no code of the analysed program runs here."""
import math
import time
import random
import itertools
from fractions import Fraction
from .alg import *
from . import alg


class Skip(Exception):
    """this world gives no finite value"""


class Singular(Skip):
    """a matrix inverse that does not exist"""


class NoEval(Exception):
    """the term cannot be evaluated (too big, or contains an unknown)"""


UNKNOWN_KINDS = ('race', 'mu', 'uninit', 'opaque')


class World(object):
    def __init__(self, seed, style, dims=None, budget=400000, limit=20):
        self.seed, self.style = seed, style
        self.scal = dict(dims or {})
        self.elem = {}
        self.arr = {}
        self.memo = {}
        self.won = {}               # which operand decided a maximum
        self.budget = budget
        self.points = ()            # style 'brk': values around which conditions change
        self.null = False           # give singular vectors the matrix does not determine arbitrary values
        self.t_end = time.time() + limit

    # -------------------------------------------------------------- atoms
    def rng(self, *k):
        return random.Random('%s|%s|%s' % (self.seed, self.style, k))

    def draw(self, r, nonneg, positive):
        st = self.style
        if st == 'pos':
            return r.uniform(0.2, 2.0)
        if st == 'real':
            v = r.uniform(-2, 2)
        elif st == 'wild':
            v = r.choice([-1, 1]) * 10 ** r.uniform(-1.5, 1)
        elif st == 'peak':
            v = r.choice([-1, 1, 1, 1]) * r.uniform(0.5, 1.5) * r.choice([0.03, 0.03, 0.03, 1])
        elif st == 'sparse':
            v = r.choice([0, 0, r.uniform(-2, 2)])
        elif st == 'brk' and self.points:
            v = r.choice([r.uniform(-2, 2)] + [Fraction(r.choice((-1, 1))) * x * y for x in self.points for y in (Fraction(1, 3), Fraction(7, 8), 1, Fraction(9, 8), 3)])
        else:
            v = r.choice([-2, -1, 0, 1, 2, 3])
        if nonneg:
            v = abs(v)
        if positive and v == 0:
            v = r.uniform(0.2, 2.0)
        return v

    def roomy(self):
        """most interpretations have no size 1, which would hide a wrong order of elements"""
        k = self.seed[-1] if isinstance(self.seed, tuple) else None
        return not isinstance(k, int) or k % 4 != 3

    def scalar(self, name, flags):
        v = self.scal.get(name)
        if v is None:
            r = self.rng('S', name)
            if 'i' in flags:
                v = r.choice([2, 3] if self.roomy() else [1, 2, 3]) if 'p' in flags else r.choice([0, 1, 2]) if 'n' in flags else r.choice([-2, -1, 0, 1, 2])
            elif flags == 'eps':
                v = 1e-3
            else:
                v = self.draw(r, 'n' in flags or 'p' in flags, 'p' in flags)
            self.scal[name] = v
        return v

    def element(self, base, idx):
        if base.kind in UNKNOWN_KINDS:
            raise NoEval('depends on %s' % base.name)
        if base.shape is not None and len(base.shape) == len(idx):
            for s, i in zip(base.shape, idx):
                if s is not None and not (0 <= i < self.size(s)):
                    raise Skip('index out of range')
        if base.kind == 'op':
            return self.array(base)[idx]
        if base.kind in ('ver', 'res') and base.info is not None:
            return self.array(base)[idx]
        k = (base.key, idx)
        v = self.elem.get(k)
        if v is None:
            v = self.draw(self.rng('E', alg._KR[base.key], idx), base.nonneg, base.positive)
            if base.name.startswith('randint') or base.kind == 'int':
                v = self.rng('I', alg._KR[base.key], idx).choice(self.choices(base))
            self.elem[k] = v
        return v

    def choices(self, base):
        """values of an integer draw"""
        i = base.info
        if isinstance(i, tuple) and len(i) == 4:
            i = i[2:]
        if isinstance(i, tuple) and len(i) == 2 and all(isinstance(x, alg.Poly) for x in i):
            lo, hi = self.size(i[0]), self.size(i[1])
            if lo < hi:
                return list(range(lo, hi))
        return [0, 1, 2]

    def size(self, p):
        v = self.poly(p, {})
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Skip('non integral size')
            v = int(round(v))
        return int(v)

    def array(self, base):
        a = self.arr.get(base.key)
        if a is None:
            if base.kind == 'op':
                a = numeric_op(self, base)
            else:
                a = self.den(base.info)
            self.arr[base.key] = a
        return a

    def den(self, d):
        """dict index tuple -> value"""
        out = {}
        sizes = [[self.size(v.size) for v in g] for g in d.axes]
        flat = [v for g in d.axes for v in g]
        rngs = [range(s) for g in sizes for s in g]
        for tup in itertools.product(*rngs):
            env = dict(zip(flat, tup))
            pos, k = [], 0
            for g in sizes:
                lin = 0
                for s in g:
                    lin = lin * s + tup[k]
                    k += 1
                pos.append(lin)
            out[tuple(pos)] = self.poly(d.body, env)
        return out

    def shape(self, d):
        r = []
        for g in d.axes:
            n = 1
            for v in g:
                n *= self.size(v.size)
            r.append(n)
        return r

    # -------------------------------------------------------------- terms
    def poly(self, p, env):
        return plan_poly(p)(self, env)

    def tick(self):
        self.budget -= 1
        if self.budget < 0 or not self.budget & 4095 and time.time() > self.t_end:
            raise NoEval('evaluation budget')

    def pw(self, v, e):
        if e == 1:
            return v
        if e.denominator == 1:
            n = int(e)
            if n < 0 and isinstance(v, int):
                v = Fraction(v)
            return v ** n
        if v < 0:
            if v > -1e-9:
                v = 0.0
            else:
                raise Skip('root of a negative number')
        if v == 0 and e < 0:
            raise Skip('division by zero')
        return float(v) ** float(e)

    def fun(self, name, xs):
        try:
            if name == 'floordiv':
                if xs[1] == 0:
                    raise Skip('division by zero')
                return xs[0] // xs[1]
            if name == 'mod':
                if xs[1] == 0:
                    raise Skip('division by zero')
                return xs[0] % xs[1]
            if name == 'udiv':
                return int(xs[0]) // int(xs[1])
            if name == 'umod':
                return int(xs[0]) % int(xs[1])
            if name == 'minsize':
                return min(xs)
            if name == 'div0':
                return 0 if xs[1] == 0 else (Fraction(xs[0]) / Fraction(xs[1]) if all(isinstance(x, (int, Fraction)) for x in xs) else xs[0] / xs[1])
            x = xs[0]
            if name in ('exp', 'sin', 'cos', 'tanh', 'log', 'floor', 'ceil', 'trunc'):
                if name == 'log' and x <= 0:
                    raise Skip('log of a non-positive number')
                return getattr(math, name)(x)
            if name in ('rint', 'round'):
                return round(x)
            if name == 'sigmoid':
                return 1 / (1 + math.exp(-x))
            if name == 'pow':
                return float(xs[0]) ** float(xs[1])
            if name == 'float32' and len(xs) == 1:
                return x
        except (OverflowError, ValueError, ZeroDivisionError, TypeError):
            raise Skip(name)
        raise NoEval('function %s' % name)

    def hash(self, *k):
        def rd(x):
            if isinstance(x, (int, Fraction, float)):
                x = float(x)
                return 0.0 if abs(x) < 1e-7 else float('%.5g' % x)
            if isinstance(x, (list, tuple)):
                return tuple(rd(y) for y in x)
            return x
        return random.Random(repr((self.seed, tuple(rd(x) for x in k)))).uniform(-2, 2)


# ------------------------------------------------------------------ plans
# A term is turned once into nested functions (world, env) -> value; sums are
# taken innermost-last with every factor multiplied in as early as its index
# variables are known, and inner sums are remembered per value of the variables
# they depend on.

_PLAN = {}


def plan_poly(p):
    r = _PLAN.get(id(p))
    if r is None:
        r = (make_poly(p), p)
        _PLAN[id(p)] = r
    return r[0]


def make_poly(p):
    if not p.terms:
        return lambda w, env: 0
    terms = [(int(c) if isinstance(c, Fraction) and c.denominator == 1 else c, m) for m, c in p.terms.values()]
    if len(terms) == 1 and not terms[0][1].bound:
        c, m = terms[0]
        if not m.fac:
            return lambda w, env: c
        if len(m.fac) == 1 and m.fac[0][0].kind == 'I' and m.fac[0][1] == 1 and c == 1:
            v = m.fac[0][0].args[0]
            return lambda w, env: env[v]
    ts = [(c, make_mono(m)) for c, m in terms]
    pid = id(p)
    fv = sorted(p.fv, key=lambda v: v.id)
    if fv and not any(m.bound for c, m in terms) and all(f.kind == 'I' and e == 1 or f.kind == 'S' for c, m in terms for f, e in m.fac):
        def f(w, env):
            tot = 0
            for c, m in ts:
                tot = tot + c * m(w, env)
            return tot
        return f

    def f(w, env):
        k = (pid,) + tuple([env.get(v) for v in fv])
        r = w.memo.get(k)
        if r is not None:
            return r
        tot = 0
        for c, m in ts:
            tot = tot + c * m(w, env)
        if isinstance(tot, Fraction) and tot.denominator == 1:
            tot = int(tot)
        if isinstance(tot, float) and (tot != tot or tot in (math.inf, -math.inf)):
            raise Skip('not finite')
        w.memo[k] = tot
        return tot
    return f


def make_mono(m):
    fac = [(f, e, make_factor(f)) for f, e in m.fac]
    if not m.bound:
        return make_prod(fac)
    bound = set(m.bound)
    left, order = list(m.bound), []
    fvs = [set(f.fv) & bound for f, e, _ in fac]
    have = set()
    while left:         # next the variable that decides most guards, then most factors
        def gain(v):
            done = [k for k, s in enumerate(fvs) if v in s and s <= have | {v}]
            return (sum(1 for k in done if fac[k][0].kind in 'LE'), len(done), -left.index(v))
        v = max(left, key=gain)
        left.remove(v)
        order.append(v)
        have.add(v)
    levels = []
    seen = set()
    used = set()
    for j in range(len(order) + 1):
        if j:
            seen.add(order[j - 1])
        now = [k for k in range(len(fac)) if k not in used and fvs[k] <= seen]
        used.update(now)
        levels.append(make_prod([fac[k] for k in now]))
    deps = []
    for j in range(len(order) + 1):     # variables the sums from level j on depend on
        inner = set(order[j:])
        d = set()
        for k, (f, e, _) in enumerate(fac):
            if fvs[k] & inner:
                d |= set(f.fv)
        for v in order[j:]:
            d |= set(v.size.fv) if hasattr(v.size, 'fv') else set()
        deps.append(sorted(d - inner, key=lambda v: v.id))
    mid = id(m)
    keep = [j > 0 and len(set(order[:j]) - set(deps[j])) > 0 for j in range(len(order) + 1)]
    brute = make_prod(fac)
    # zero times an undefined value must stay undefined unless a guard made it zero
    unsafe = [any(e < 0 for f, e, _ in fac) and not any(f.kind in 'LE' and fvs[i] <= set(order[:j]) for i, (f, e, _) in enumerate(fac)) for j in range(len(order) + 1)]

    def sums(w, env, j):
        if j == len(order):
            return 1
        k = None
        if keep[j]:
            k = (mid, j) + tuple([env.get(v) for v in deps[j]])
            r = w.memo.get(k)
            if r is not None:
                return r
        v = order[j]
        tot = 0
        lv = levels[j + 1]
        last = j + 1 == len(order)
        for x in range(w.size(v.size)):
            env[v] = x
            r = lv(w, env)
            if r or unsafe[j + 1]:
                tot = tot + (r if last else r * sums(w, env, j + 1))
        if k is not None:
            w.memo[k] = tot
        return tot

    def f(w, env):
        e2 = dict(env)
        try:
            r = levels[0](w, e2)
            return r * sums(w, e2, 0) if r or unsafe[0] else r
        except Skip:
            pass
        tot = 0
        sizes = [w.size(b.size) for b in m.bound]
        for tup in itertools.product(*[range(s) for s in sizes]):
            e2 = dict(env)
            e2.update(zip(m.bound, tup))
            tot = tot + brute(w, e2)
        return tot
    f.term = m
    return f


def make_prod(fac):
    guards = [(e, g) for f, e, g in fac if e > 0 and f.kind in 'LE']
    neg = [(e, g) for f, e, g in fac if e < 0 and f.kind != 'N']
    rest = [(int(e) if e.denominator == 1 else e, g) for f, e, g in fac if not (e > 0 and f.kind in 'LE') and not (e < 0 and f.kind != 'N')]
    if len(rest) == 1 and not guards and not neg and rest[0][0] == 1:
        one = rest[0][1]

        def g(w, env):
            w.tick()
            return one(w, env)
        return g

    def f(w, env):
        w.tick()
        for e, g in guards:
            if g(w, env) == 0:
                return 0
        r = 1
        for e, g in rest:
            v = g(w, env)
            r = r * (v if e == 1 else w.pw(v, Fraction(e)))
        for e, g in neg:
            v = g(w, env)
            if v == 0 or (isinstance(v, float) and abs(v) < 1e-12):
                raise Skip('division by zero')
            r = r * w.pw(v, e)
        return r
    return f


def ival(v):
    if type(v) is int:
        return v
    if isinstance(v, float):
        if abs(v - round(v)) > 1e-9:
            raise Skip('non integral index')
        return int(round(v))
    if isinstance(v, Fraction):
        raise Skip('non integral index')
    return v


def make_factor(f):
    k, a = f.kind, f.args
    if k == 'S':
        name, flags = a
        return lambda w, env: w.scalar(name, flags)
    if k == 'N':
        return lambda w, env: a[0]
    if k == 'A':
        base = a[0]
        idx = [plan_poly(p) for p in a[1]]
        return lambda w, env: w.element(base, tuple([ival(p(w, env)) for p in idx]))
    if k == 'I':
        v = a[0]
        return lambda w, env: env[v]
    if k == 'P':
        return plan_poly(a[0])
    if k == 'R':
        p = plan_poly(a[0])

        def relu(w, env):
            v = p(w, env)
            w.won.setdefault(f.uid, set()).add(v > 0)
            return v if v > 0 else 0
        return relu
    if k == 'L':
        p = plan_poly(a[0])

        def less(w, env):
            v = p(w, env)
            if isinstance(v, float) and abs(v) < 1e-9:
                raise Skip('comparison too close')
            return 1 if v < 0 else 0
        return less
    if k == 'E':
        p = plan_poly(a[0])

        def zero(w, env):
            v = p(w, env)
            if isinstance(v, float) and 0 < abs(v) < 1e-9:
                raise Skip('comparison too close')
            return 1 if v == 0 else 0
        return zero
    if k == 'M':
        p = plan_poly(a[1])

        def most(w, env):
            best = None
            for tup in itertools.product(*[range(w.size(b.size)) for b in a[0]]):
                e2 = dict(env)
                e2.update(zip(a[0], tup))
                v = p(w, e2)
                if best is None or v > best:
                    best = v
            if best is None:
                raise Skip('max of nothing')
            return best
        return most
    if k == 'X':
        ps = [plan_poly(p) for p in a[0]]

        def largest(w, env):
            vs = [p(w, env) for p in ps]
            i = max(range(len(vs)), key=vs.__getitem__)
            w.won.setdefault(f.uid, set()).add(i)
            return vs[i]
        return largest
    if k == 'F':
        ps = [plan_poly(p) for p in a[1]]
        return lambda w, env: w.fun(a[0], [p(w, env) for p in ps])

    def unknown(w, env):
        raise NoEval(k)
    return unknown


# ------------------------------------------------------------------ matrices

def mat(w, d):
    a = w.den(d)
    m, n = w.shape(d)
    return [[float(a[i, j]) for j in range(n)] for i in range(m)]


def eig_sym(a):
    """Jacobi eigen-decomposition of a small symmetric matrix: values (desc), vectors as columns"""
    n = len(a)
    a = [row[:] for row in a]
    v = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    for _ in range(100):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-24:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    order = sorted(range(n), key=lambda i: -a[i][i])
    vals = [a[i][i] for i in order]
    for x, y in zip(vals, vals[1:]):
        if abs(x - y) < 1e-6 * max(1.0, abs(vals[0])):
            pass
    cols = []
    for i in order:
        col = [v[k][i] for k in range(n)]
        top = max(abs(x) for x in col)
        big = min(k for k in range(n) if abs(col[k]) >= top * (1 - 1e-5))      # same choice for entries equal up to rounding
        if col[big] < 0:
            col = [-x for x in col]
        cols.append(col)
    return vals, [[cols[j][i] for j in range(n)] for i in range(n)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def inverse(a):
    n = len(a)
    m = [row[:] + [1.0 if i == j else 0.0 for j in range(n)] for i, row in enumerate(a)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-9:
            raise Singular('inverse of a singular matrix')
        m[i], m[p] = m[p], m[i]
        x = m[i][i]
        m[i] = [y / x for y in m[i]]
        for r in range(n):
            if r != i and m[r][i]:
                f = m[r][i]
                m[r] = [y - f * z for y, z in zip(m[r], m[i])]
    return [row[n:] for row in m]


def pinv(a):
    m, n = len(a), len(a[0])
    g = mm(a, tr(a))
    vals, u = eig_sym(g)
    r = [[0.0] * m for _ in range(n)]
    for k in range(m):
        if vals[k] > 1e-9 * max(1.0, vals[0]):
            col = [u[i][k] for i in range(m)]
            av = [sum(a[i][j] * col[i] for i in range(m)) for j in range(n)]
            for j in range(n):
                for i in range(m):
                    r[j][i] += av[j] * col[i] / vals[k]
    return r


def todict(a):
    return {(i, j): x for i, row in enumerate(a) for j, x in enumerate(row)}


def distinct(vals, k, tol=1e-5):
    top = max([1e-9] + [abs(x) for x in vals])
    for x, y in zip(vals[:k], vals[1:k + 1]):
        if abs(x - y) < tol * top:
            raise Skip('repeated singular values')


def numeric_op(w, base):
    name = alg._KR[base.key][1]
    ds = base.ops
    if name == 'cut':
        return w.den(ds[0])
    if name == 'inv':
        return todict(inverse(mat(w, ds[0])))
    if name == 'pinv':
        return todict(pinv(mat(w, ds[0])))
    if name == 'svd_s':
        vals, _ = eig_sym(mat(w, ds[0]))
        return {(i,): math.sqrt(max(0.0, x)) for i, x in enumerate(vals)}
    if name == 'svd_u':
        g = mat(w, ds[0])
        vals, u = eig_sym(g)
        if not w.null:
            distinct(vals, len(g))
            return todict(u)
        top = max([abs(x) for x in vals] + [1e-9])
        k = len([x for x in vals if x > 1e-9 * top and x > 1e-10])
        distinct(vals[:k], k)
        out = todict(u)
        for i, j in out:
            if j >= k:
                out[i, j] = w.hash('nullspace-u', i, j)
        return out
    if name == 'svd_v':
        a = mat(w, ds[0])
        vals, u = eig_sym(mm(a, tr(a)))
        k = min(len(a), len(a[0]))
        if w.null:
            sure = len([x for x in vals[:k] if x > 1e-10])
            distinct(vals[:sure], sure)
        else:
            distinct(vals, k)
        out = {}
        for j in range(k):
            s = math.sqrt(max(0.0, vals[j]))
            if s < 1e-5:
                if not w.null:
                    raise Skip('rank deficient')
                # not determined by the matrix: an arbitrary vector
                for i in range(len(a[0])):
                    out[i, j] = w.hash('nullspace', i, j)
                continue
            for i in range(len(a[0])):
                out[i, j] = sum(a[r][i] * u[r][j] for r in range(len(a))) / s
        n = len(a[0])
        for j in range(k, n):
            for i in range(n):
                out[i, j] = w.hash('nullspace', i, j)
        return out
    raise NoEval('operator %s' % name)


# ------------------------------------------------------------------ comparison

STYLES = ('pos', 'real', 'sparse', 'int', 'real')


def syms_of(d, out=None, seen=None):
    """names of scalar symbols"""
    out = {} if out is None else out
    seen = set() if seen is None else seen

    def walk(p):
        if id(p) in seen:
            return
        seen.add(id(p))
        for f in factors_of(p, lambda f: f.kind in 'SA'):
            if f.kind == 'S':
                out[f.args[0]] = f.args[1]
            else:
                for x in f.args[0].ops:
                    syms_of(x, out, seen)
                if f.args[0].kind in ('ver', 'res') and f.args[0].info is not None:
                    syms_of(f.args[0].info, out, seen)
    walk(d.body)
    for g in d.axes:
        for v in g:
            walk(v.size)
    return out


def conditions(d, out=None, seen=None):
    """the comparisons and maxima a term is made of, through stored results and operators"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if id(d) in seen:
        return out
    seen.add(id(d))
    for f in factors_of(d.body, lambda f: f.kind in 'LERXA'):
        if f.kind != 'A':
            out[f.uid] = f
            continue
        b = f.args[0]
        for x in list(b.ops) + ([b.info] if b.kind in ('ver', 'res') else []):
            if hasattr(x, 'body'):
                conditions(x, out, seen)
    return out


def points(fs):
    """magnitudes around which some of these conditions may change"""
    out = set()
    for f in fs:
        ps = [f.args[0]] if f.kind in 'LER' else [alg.sub_(a, b) for a, b in itertools.combinations(f.args[0], 2)]
        for p in ps:
            cs = [(Fraction(c), bool(m.fac)) for m, c in p.terms.values()]
            for c in [c for c, v in cs if not v]:
                out |= {abs(c / x) for x, v in cs if v and x}
    return tuple(sorted(x for x in out if x))[:8]


def close(x, y):
    if x == y:
        return True
    x, y = float(x), float(y)
    d = abs(x - y)
    if d <= 1e-6 * max(1e-3, abs(x), abs(y)):
        return True
    if d < 1e-5:
        raise Skip('difference within the rounding of the interpretation')
    return False


def compare(a, b, seed=1, want=3, dims=None):
    """'equal' | ('differ', text) | ('unknown', why) for two Dens with different normal forms"""
    agree = 0
    worlds = 0
    why = 'no world gave a finite value'
    ca, cb = conditions(a), conditions(b)
    pts = points([f for u, f in list(ca.items()) + list(cb.items()) if u not in ca or u not in cb])
    for attempt in range(36 if pts else 24):
        style = STYLES[attempt % len(STYLES)] if attempt < 24 else 'brk'
        w = World((seed, attempt), style, dims(attempt) if dims else None)
        w.points = pts
        try:
            sa, sb = w.shape(a), w.shape(b)
            if sa != sb:
                return ('differ', 'shape %s, expected %s' % (sa, sb))
            xb = w.den(b)
            try:
                xa = w.den(a)
            except Singular as e:
                return ('differ', 'the %s under a random interpretation, where the specified value is defined' % e)
        except Skip as e:
            why = str(e)
            continue
        except NoEval as e:
            return ('unknown', str(e))
        except RecursionError:
            return ('unknown', 'term too deep')
        try:
            same = {k: close(xa[k], xb[k]) for k in sorted(xa)}
        except Skip as e:
            why = str(e)
            continue
        worlds += 1
        for k in sorted(xa):
            if not same[k]:
                return ('differ', 'e.g. at index %s under a random interpretation: %.6g, expected %.6g' % (k, float(xa[k]), float(xb[k])))
            agree += 1
        if worlds >= 3 * len(STYLES) and agree >= want and not pts:
            break
    if worlds >= 3:
        return 'equal'
    return ('unknown', why)
