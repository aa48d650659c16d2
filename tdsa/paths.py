"""Guarded results: reading them out of the interpreter's heap and comparing them with
the alternatives of a reference machine."""
import itertools
from .values import *
from .alg import *
from . import alg, bdd
from . import den as D
from .den import Den
from .bdd import AND, OR, NOT
from . import rinterp
from . import lib_np as NP
from . import lib_tf as TF


class Leaf(object):
    """something the comparison cannot look into"""

    def __init__(self, v, why=''):
        self.v, self.why = v, why

    def __repr__(self):
        return '<%s %s>' % (self.v, self.why)


def tree(I, v, g=bdd.TRUE, depth=0):
    """[(guard, structure)]: structure = None | Den | tuple of structures | bool/str | Leaf"""
    if depth > 8:
        return [(g, Leaf(v, 'nesting'))]
    if isinstance(v, GVal):
        out = []
        for a, x in v.alts:
            h = AND(g, a)
            if h != bdd.FALSE:
                out.extend(tree(I, x, h, depth + 1))
        return out
    if isinstance(v, Ref):
        return tree_obj(I, v, I.obj(v), g, depth)
    if isinstance(v, tuple):
        return seq(I, v, g, depth)
    if v is None or isinstance(v, (bool, str)):
        return [(g, v)]
    if isinstance(v, BVal):
        r = []
        if AND(g, v.g) != bdd.FALSE:
            r.append((AND(g, v.g), True))
        if AND(g, NOT(v.g)) != bdd.FALSE:
            r.append((AND(g, NOT(v.g)), False))
        return r
    if isinstance(v, (TF.TVar, TF.TNode)):
        return [(g, Leaf(v, 'graph tensor'))]
    try:
        d, dt = NP.den_of(I, v)
        return [(g, d)]
    except (Unsupported, D.ShapeErr, D.Undecided):
        return [(g, Leaf(v))]


def tree_obj(I, v, o, g, depth):
    if o.kind == 'alt':
        out = []
        for a, x in o.data:
            h = AND(g, a)
            if h != bdd.FALSE:
                out.extend(tree_obj(I, v, x, h, depth + 1))
        return out
    if o.kind == 'ndarray':
        return [(g, o.data[0])]
    if o.kind == 'list':
        return seq(I, o.data, g, depth)
    return [(g, Leaf(v, o.kind))]


def seq(I, items, g, depth):
    outs = [(g, ())]
    for x in items:
        nxt = []
        for h, acc_ in outs:
            for h2, s in tree(I, x, h, depth + 1):
                nxt.append((h2, acc_ + (s,)))
        outs = nxt
        if len(outs) > 256:
            raise Unsupported('too many alternatives')
    return outs


def merge(alts):
    """join alternatives with the same structure"""
    out = {}
    for g, s in alts:
        k = skey(s)
        if k in out:
            out[k] = (OR(out[k][0], g), s)
        else:
            out[k] = (g, s)
    return list(out.values())


def skey(s):
    if isinstance(s, Den):
        return ('d', s.key())
    if isinstance(s, tuple):
        return tuple(skey(x) for x in s)
    if isinstance(s, Leaf):
        return ('leaf', id(s.v))
    return s


def leaves(s, path=()):
    if isinstance(s, tuple):
        for i, x in enumerate(s):
            for y in leaves(x, path + (i,)):
                yield y
    else:
        yield path, s


def expand(d, kinds=('res',), depth=6):
    """replace bases that name a fetched/stored result by their definitions"""
    if not isinstance(d, Den):
        raise D.Undecided('not tracked: %s' % (d,))
    for _ in range(depth):
        hit = [b for b in D.all_bases(d).values() if b.kind in kinds and b.info is not None]
        if not hit:
            return d
        d = D.map_den(d, lambda base, idx: TF.at(D.fresh(base.info), idx) if base.kind in kinds and base.info is not None else None)
    return d


def deep_bases(d, out=None):
    """all bases d depends on, through stored results and operators"""
    out = {} if out is None else out
    todo = [d]
    seen = set()
    while todo:
        x = todo.pop()
        for k, b in D.all_bases(x).items():
            if k in seen:
                continue
            seen.add(k)
            out[k] = b
            if b.kind in ('ver', 'res') and isinstance(b.info, Den):
                todo.append(b.info)
            for y in b.ops:
                todo.append(y)
    return out


class Mismatch(Exception):
    pass


def struct_diff(a, b):
    """symbolic comparison: None if equal, else (path, text, surely)"""
    if isinstance(a, tuple) != isinstance(b, tuple):
        return 'is %s, specified %s' % (show(a), show(b)), True
    if isinstance(a, tuple):
        if len(a) != len(b):
            return 'has %d entries, specified %d' % (len(a), len(b)), True
        worst = None
        for i, (x, y) in enumerate(zip(a, b)):
            r = struct_diff(x, y)
            if r is not None:
                r = ('[%d] %s' % (i, r[0]), r[1])
                if r[1]:
                    return r
                worst = worst or r
        return worst
    if isinstance(a, Den) and isinstance(b, Den):
        if a.rank != b.rank:
            return 'has %d axes, specified %d' % (a.rank, b.rank), True
        if D.equal(a, b)[0]:
            return None
        return 'is %s, specified %s' % (D.clip(repr(a), 240), D.clip(repr(b), 240)), False
    if isinstance(a, Leaf) or isinstance(b, Leaf):
        return '%s not tracked' % (a,), False
    if type(a) is type(b) and a == b:
        return None
    return 'is %s, specified %s' % (show(a), show(b)), True


def show(x):
    if isinstance(x, Den):
        return 'an array' if x.rank else 'a number'
    if isinstance(x, tuple):
        return 'a list of %d' % len(x)
    return repr(x)


def guard_in(w, g):
    def test(a):
        if a.opaque:
            raise rinterp.NoEval('unknown condition %s' % a.desc)
        if a.poly is not None:
            return w.poly(a.poly, {}) != 0
        if a.zero is not None:
            v = w.poly(a.zero, {})
            return abs(v) < 1e-12
        raise rinterp.NoEval('unknown condition %s' % a.desc)
    return bdd.walk(g, test)


def pick(w, alts, index=False):
    act = [i if index else s for i, (g, s) in enumerate(alts) if guard_in(w, g)]
    if len(act) != 1:
        raise rinterp.Skip('%d alternatives active' % len(act))
    return act[0]


def num_diff(w, a, b):
    if isinstance(a, tuple) != isinstance(b, tuple) or isinstance(a, tuple) and len(a) != len(b):
        return 'structure %s, specified %s' % (show(a), show(b))
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            r = num_diff(w, x, y)
            if r:
                return '[%d]%s' % (i, r if r.startswith('[') else ' ' + r)
        return None
    if isinstance(a, Leaf) or isinstance(b, Leaf):
        raise rinterp.NoEval('%s not tracked' % (a,))
    if isinstance(a, Den) and isinstance(b, Den):
        sa, sb = w.shape(a), w.shape(b)
        if sa != sb:
            return 'has shape %s, specified %s' % (sa, sb)
        xb = w.den(b)
        try:
            xa = w.den(a)
        except rinterp.Singular as e:
            return 'is not defined (%s), the specified value is' % e
        for k in sorted(xa):
            if not rinterp.close(xa[k], xb[k]):
                return 'at index %s is %.6g, specified %.6g' % (k, float(xa[k]), float(xb[k]))
        return None
    if type(a) is type(b) and a == b:
        return None
    return 'is %s, specified %s' % (show(a), show(b))


def maxima(s):
    """the maxima a structure is made of, through stored results and operators"""
    out = {}
    for _, d in leaves(s):
        if not isinstance(d, Den):
            continue
        todo = [d]
        for b in deep_bases(d).values():
            todo.extend(x for x in list(b.ops) + [b.info] if isinstance(x, Den))
        for x in todo:
            for f in alg.factors_of(x.body, lambda f: f.kind in 'XR'):
                out[f.uid] = f
    return out


def cut_of(alts):
    """the relative cut of a pseudo-inverse with a visible cut"""
    for g, s in alts:
        for _, d in leaves(s):
            if isinstance(d, Den):
                for b in deep_bases(d).values():
                    if b.kind == 'op' and alg._KR[b.key][1] == 'pinv_cut' and dict(alg._KR[b.key][2]).get('rcond') not in (None, 'None'):
                        return dict(alg._KR[b.key][2])['rcond']
    return None


def compare(got, want, worlds, enough=None, thorough=False):
    """got, want: [(guard, structure)].  Returns ('equal', how) | ('differ', text) | ('unknown', why)
    thorough: where two terms differ in their maxima, an agreement counts only if every operand of these has decided somewhere"""
    enough = enough or (4 if thorough else 10)
    got, want = merge(got), merge(want)
    open_ = {}                   # pairs of alternatives whose normal forms differ: number of interpretations that took them
    first = None
    pairs = 0
    for i, (g1, a) in enumerate(got):
        for j, (g2, b) in enumerate(want):
            g = bdd.consistent(AND(g1, g2))
            if g == bdd.FALSE:
                continue
            pairs += 1
            r = struct_diff(a, b)
            if r is not None:
                first = first or r[0]
                open_[i, j] = 0
                if r[1] and len(got) == 1 and len(want) == 1:
                    return ('differ', r[0])
    if first is None:
        return ('equal', '%d path pairs, same value numbers' % pairs)
    cut = [b for alts in (got, want) for b in [cut_of(alts)]]
    if cut[0] is not None and cut[1] is None:
        return ('differ', 'the pseudo-inverse treats singular values below %s of the largest as zero; e.g. symbolically %s' % (cut[0], first))
    ok = 0
    why = 'no usable interpretation'
    won, sides = {}, set()
    if thorough:
        for i, j in open_:
            sides |= set(maxima(got[i][1])) ^ set(maxima(want[j][1]))
    ca, cb = {}, {}
    for i, j in open_:
        for cs, t in ((ca, got[i][1]), (cb, want[j][1])):
            for _, d in leaves(t):
                if isinstance(d, Den):
                    rinterp.conditions(d, cs)
    pts = rinterp.points([f for u, f in list(ca.items()) + list(cb.items()) if u not in ca or u not in cb])
    plan = [(w, False) for w in worlds()]
    if pts:
        plan[1::3] = [(w, True) for w, _ in plan[1::3]]
    for w, near in plan:
        if near:
            w.style, w.points = 'brk', pts
        try:
            i, j = pick(w, got, True), pick(w, want, True)
            r = num_diff(w, got[i][1], want[j][1])
        except rinterp.Skip as e:
            why = str(e)
            continue
        except rinterp.NoEval as e:
            return ('unknown', '%s (first difference: %s)' % (e, first))
        except RecursionError:
            return ('unknown', 'term too deep')
        if r:
            return ('differ', '%s; under a random interpretation%s; e.g. symbolically %s' % (r, '', first))
        ok += 1
        if (i, j) in open_:
            open_[i, j] += 1
        if sides:
            for u, x in w.won.items():
                won.setdefault(u, set()).update(x)
        if ok >= enough and min(open_.values()) >= 2 and all(len(won.get(u, ())) != 1 for u in sides):
            break
    if ok < 3:
        return ('unknown', '%s (first difference: %s)' % (why, first))
    if any(len(won.get(u, ())) == 1 for u in sides):
        return ('unknown', 'no interpretation decides a maximum the other way (first difference: %s)' % first)
    rare = [p for p in open_ if not open_[p]]
    for i, j in rare:
        # no interpretation took these alternatives: equality whatever the path is enough
        n = 0
        for w in worlds():
            try:
                if num_diff(w, got[i][1], want[j][1]):
                    n = 0
                    break
                n += 1
            except (rinterp.Skip, rinterp.NoEval, RecursionError):
                continue
            if n >= 3:
                break
        if n < 3:
            return ('unknown', 'no interpretation found for a path on which the normal forms differ (first difference: %s)' % first)
    return ('equal', '%d random interpretations' % ok)
