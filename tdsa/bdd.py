"""Reduced ordered binary decision diagrams for path conditions (merge guards)."""
from .alg import *
from . import alg

FALSE, TRUE = 0, 1
_nodes = [None, None]            # (var, lo, hi)
_uniq = {}
_var = {}                        # atom key -> var number
ATOMS = []                       # var number -> Atom


class Atom(object):
    __slots__ = ('key', 'poly', 'desc', 'opaque', 'kind', 'zero')

    def __init__(self, key, poly, desc, opaque, kind, zero=None):
        self.key, self.poly, self.desc, self.opaque, self.kind = key, poly, desc, opaque, kind
        self.zero = zero         # the atom says that this Poly is zero (when poly is None)


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    r = _uniq.get(k)
    if r is None:
        r = len(_nodes)
        _nodes.append(k)
        _uniq[k] = r
    return r


def atom(key, poly=None, desc='', opaque=False, kind='b', zero=None):
    v = _var.get(key)
    if v is None:
        v = len(ATOMS)
        _var[key] = v
        ATOMS.append(Atom(key, poly, desc, opaque, kind, zero))
    return _mk(v, FALSE, TRUE)


_ite = {}


def ite(f, g, h):
    if f == TRUE:
        return g
    if f == FALSE:
        return h
    if g == h:
        return g
    if g == TRUE and h == FALSE:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    v = min(_nodes[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][2 if b else 1]
        return x
    r = _mk(v, ite(co(f, 0), co(g, 0), co(h, 0)), ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite[k] = r
    return r


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(x):
    return ite(x, FALSE, TRUE)


def XOR(a, b):
    return ite(a, NOT(b), b)


def implies(a, b):
    return AND(a, NOT(b)) == FALSE


_res = {}


def restrict(f, c):
    """a simpler function that agrees with f wherever c holds"""
    if c == TRUE or f <= 1:
        return f
    if c == FALSE:
        return f
    k = (f, c)
    r = _res.get(k)
    if r is not None:
        return r
    vf, vc = _nodes[f][0], _nodes[c][0]
    if vc < vf:
        r = restrict(f, OR(_nodes[c][1], _nodes[c][2]))
    else:
        fl, fh = _nodes[f][1], _nodes[f][2]
        if vc == vf:
            cl, ch = _nodes[c][1], _nodes[c][2]
            if cl == FALSE:
                r = restrict(fh, ch)
            elif ch == FALSE:
                r = restrict(fl, cl)
            else:
                r = _mk(vf, restrict(fl, cl), restrict(fh, ch))
        else:
            r = _mk(vf, restrict(fl, c), restrict(fh, c))
    _res[k] = r
    return r


def support(f, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if f <= 1 or f in seen:
        return out
    seen.add(f)
    v, lo, hi = _nodes[f]
    out.add(v)
    support(lo, out, seen)
    support(hi, out, seen)
    return out


def cofactor(f, var, val):
    if f <= 1:
        return f
    v, lo, hi = _nodes[f]
    if v > var:
        return f
    if v == var:
        return hi if val else lo
    return _mk(v, cofactor(lo, var, val), cofactor(hi, var, val))


def exists(f, vs):
    for v in sorted(vs):
        f = OR(cofactor(f, v, 0), cofactor(f, v, 1))
    return f


def forall(f, vs):
    for v in sorted(vs):
        f = AND(cofactor(f, v, 0), cofactor(f, v, 1))
    return f


def unsure(f):
    """the path may not exist: whether it does hangs on conditions the analysis knows nothing about"""
    ov = [v for v in support(f) if ATOMS[v].opaque]
    return bool(ov) and forall(f, ov) == FALSE


def one_sat(f):
    out = []
    while f > 1:
        v, lo, hi = _nodes[f]
        if lo != FALSE:
            out.append((v, False))
            f = lo
        else:
            out.append((v, True))
            f = hi
    return out


def describe(f, limit=8):
    if f == TRUE:
        return 'always'
    if f == FALSE:
        return 'never'
    parts = []
    for v, b in one_sat(f)[:limit]:
        a = ATOMS[v]
        s = a.desc if len(a.desc) < 120 else a.desc[:120] + '...'
        parts.append(('' if b else 'not ') + '(' + s + ')')
    return ' and '.join(parts)


def walk(f, test):
    """value of f when test(Atom) -> bool gives the atoms"""
    while f > 1:
        v, lo, hi = _nodes[f]
        f = hi if test(ATOMS[v]) else lo
    return f == TRUE


# --- conditions from 0/1 valued Polys ---------------------------------------

def _ind_factor(p):
    for m, c in p.terms.values():
        for f, e in m.fac:
            if f.kind in 'LE':
                return f
    return None


def _cof_poly(p, fk, val):
    """substitute indicator factor with key fk by 0/1 (top level factors only)"""
    out = alg.ZERO
    for k, (m, c) in p.terms.items():
        hit = [i for i, (f, e) in enumerate(m.fac) if f.key({}) == fk]
        if not hit:
            out = add(out, Poly({k: (m, c)}))
        elif val:
            rest = [(f, e) for f, e in m.fac if f.key({}) != fk]
            out = add(out, mk_term(c, m.bound, rest))
    return out


_cc = {}


def of_poly(p):
    """BDD of  p != 0  for a scalar Poly p (no free index variables)"""
    k = p.key()
    r = _cc.get(k)
    if r is not None:
        return r
    r = _of_poly(p)
    _cc[k] = r
    return r


def _of_poly(p):
    c = p.const()
    if c is not None:
        return TRUE if c != 0 else FALSE
    boolean = all(f.kind in 'LE' and not m.bound for m, cc in p.terms.values() for f, e in m.fac)
    if not boolean:
        # try indicator factors at top level first
        f = None
        for m, cc in p.terms.values():
            if not m.bound:
                for g, e in m.fac:
                    if g.kind in 'LE':
                        f = g
        if f is None:
            z = eq0(p)
            if z.is_const():
                return FALSE if z.const() == 1 else TRUE
            zb = all(f.kind in 'LE' and not m.bound for m, cc in z.terms.values() for f, e in m.fac)
            if zb:
                return NOT(of_poly(z))
            return NOT(atom(('E', p.key()), None, '%r == 0' % (p,), False, 'b', p))
    else:
        f = _ind_factor(p)
    fk = f.key({})
    a = atom(fk, fpoly(f), _desc(f), _opaque(f), f.kind)
    return ite(a, of_poly(_cof_poly(p, fk, 1)), of_poly(_cof_poly(p, fk, 0)))


def _desc(f):
    s = repr(f.args[0])
    if len(s) > 160:
        s = s[:160] + '...'
    return '%s %s 0' % (s, '<' if f.kind == 'L' else '==')


def _opaque(f):
    return any(b.kind == 'opaque' for b in bases_of(f.args[0]).values()) or \
        bool(factors_of(f.args[0], lambda g: g.kind == 'S' and g.args[0].startswith('?')))


def to_poly(f):
    """0/1 Poly of a BDD (atoms must carry polys)"""
    if f == TRUE:
        return alg.ONE
    if f == FALSE:
        return alg.ZERO
    v, lo, hi = _nodes[f]
    a = ATOMS[v]
    p = a.poly
    if p is None:
        p = sym('[' + a.desc + ']', 'n')
    return add(mul(p, to_poly(hi)), mul(sub_(alg.ONE, p), to_poly(lo)))


def consistent(f):
    """f conjoined with the facts relating its atoms (p<0 excludes p==0; thresholds on one integer)"""
    vs = sorted(support(f))
    by = {}
    for v in vs:
        a = ATOMS[v]
        if a.poly is None or a.kind not in 'LE':
            continue
        fac = next(iter(a.poly.terms.values()))[0].fac[0][0]
        by.setdefault((fac.args[0].key({})), []).append((a.kind, v))
    for k, lst in by.items():
        if len(lst) == 2:
            f = AND(f, NOT(AND(_mk(lst[0][1], 0, 1), _mk(lst[1][1], 0, 1))))
    # thresholds: polys x + c (same non-constant part)
    groups = {}
    for v in vs:
        a = ATOMS[v]
        if a.poly is None or a.kind not in 'LE':
            continue
        p = next(iter(a.poly.terms.values()))[0].fac[0][0].args[0]
        c = p.terms.get(alg._ONEK)
        c = c[1] if c else Fraction(0)
        rest = sub_(p, const(c))
        groups.setdefault(rest.key({}), []).append((c, a.kind, v))
        groups.setdefault((-rest).key({}), []).append((c, a.kind + '-', v))
    for k, lst in groups.items():
        pl = [t for t in lst if not t[1].endswith('-')]
        ne = [t for t in lst if t[1].endswith('-')]
        # [x + c1 < 0] implies [x + c2 < 0] for c2 <= c1
        for c1, k1, v1 in pl:
            for c2, k2, v2 in pl:
                if v1 == v2:
                    continue
                A, B = _mk(v1, 0, 1), _mk(v2, 0, 1)
                if k1 == 'L' and k2 == 'L' and c2 < c1:
                    f = AND(f, OR(NOT(A), B))
                if k1 == 'L' and k2 == 'E' and c2 <= c1 and c1 != c2:
                    # x<-c1 and x==-c2 >= -c1 : contradiction
                    f = AND(f, NOT(AND(A, B))) if -c2 >= -c1 else f
                if k1 == 'L' and k2 == 'E' and c2 > c1:
                    # x == -c2 < -c1  implies x < -c1
                    f = AND(f, OR(NOT(B), A))
                if k1 == 'E' and k2 == 'E' and c1 != c2:
                    f = AND(f, NOT(AND(A, B)))
            for c2, k2, v2 in ne:
                # x < -c1 and -x + c2 < 0 i.e. x > c2
                if v1 == v2:
                    continue
                A, B = _mk(v1, 0, 1), _mk(v2, 0, 1)
                k2 = k2[0]
                if k1 == 'L' and k2 == 'L':
                    if c2 >= -c1:
                        f = AND(f, NOT(AND(A, B)))
                    if c2 < -c1:
                        f = AND(f, OR(A, B))
    return f
