"""Abstract run-time values of the analysed Python program."""
from fractions import Fraction
from .alg import *
from . import bdd


class Dead(Exception):
    """the current abstract state is unreachable"""


class Unsupported(Exception):
    """construct outside the analysed subset"""


class _Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = _Unbound()
MISSING = object()


class Site(object):
    __slots__ = ('file', 'line', 'func')

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)


NOSITE = Site('<analysis>', 0, '-')


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return 'obj%d' % self.id


class Obj(object):
    """heap object (treated as immutable; updates replace it)
    kinds: list dict set inst frame ndarray nview sess res graph class module alt"""
    __slots__ = ('kind', 'data', 'cls', 'info')

    def __init__(self, kind, data, cls=None, info=None):
        self.kind, self.data, self.cls, self.info = kind, data, cls, info

    def with_(self, data):
        return Obj(self.kind, data, self.cls, self.info)


class SVal(object):
    """symbolic number (python or numpy scalar)"""
    __slots__ = ('poly', 'dtype')

    def __init__(self, poly, dtype='int'):
        self.poly = poly
        self.dtype = dtype

    def __eq__(self, o):
        return isinstance(o, SVal) and o.dtype == self.dtype and o.poly == self.poly

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('SVal', self.poly.key()))

    def __repr__(self):
        return '<%s %r>' % (self.dtype, self.poly)


class BVal(object):
    """symbolic boolean"""
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        return isinstance(o, BVal) and o.g == self.g

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('BVal', self.g))

    def __repr__(self):
        return '<bool %s>' % bdd.describe(self.g)


class Opq(object):
    """unknown value"""
    __slots__ = ('why', 'site', 'kind', 'id', 'reach')
    _n = 0

    def __init__(self, why, site=None, kind='any', reach=()):
        Opq._n += 1
        self.id = Opq._n
        self.why, self.site, self.kind = why, site, kind
        self.reach = reach          # mutable values a store through this one may change

    def __repr__(self):
        return '<unknown %s: %s at %s>' % (self.kind, self.why, self.site)


class StrV(object):
    """string whose text is not tracked (formatted output)"""
    __slots__ = ('parts', 'tag')

    def __init__(self, parts=(), tag=None):
        self.parts = tuple(parts)
        self.tag = tag

    def __repr__(self):
        return '<str %s>' % (self.tag or '?',)


class MuVal(object):
    """value a location had in an arbitrary previous iteration"""
    __slots__ = ('loc', 'id', 'like')
    _n = 0

    def __init__(self, loc, like=None):
        MuVal._n += 1
        self.id = MuVal._n
        self.loc = loc
        self.like = like

    def __repr__(self):
        return '<previous-iteration value of %s>' % (self.loc,)


class GVal(object):
    """guarded alternatives"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return '<' + ' | '.join('%r if %s' % (v, bdd.describe(g)) for g, v in self.alts) + '>'


class SliceV(object):
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class RangeV(object):
    """range with symbolic bounds"""
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class FuncVal(object):
    __slots__ = ('node', 'name', 'defaults', 'kwdefaults', 'frame', 'module', 'locals_', 'isgen', 'cls', 'globals_', 'qual', 'attrs')

    def __init__(self, node, name, defaults, kwdefaults, frame, module, locals_, isgen, globals_):
        self.node, self.name, self.defaults, self.kwdefaults = node, name, defaults, kwdefaults
        self.frame, self.module, self.locals_, self.isgen = frame, module, locals_, isgen
        self.globals_ = globals_
        self.cls = None
        self.qual = name
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual


class BoundMethod(object):
    __slots__ = ('self_', 'func')

    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and self.self_ == o.self_ and self.func == o.func

    def __hash__(self):
        return hash((id(self.func),))

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self_)


class Builtin(object):
    """analyser-implemented callable: fn(interp, args, kwargs)"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class BType(object):
    """builtin / library type used as a callable or in isinstance"""
    __slots__ = ('name',)
    _c = {}

    def __new__(cls, name):
        if name not in cls._c:
            o = object.__new__(cls)
            o.name = name
            cls._c[name] = o
        return cls._c[name]

    def __repr__(self):
        return '<type %s>' % self.name


class Ext(object):
    """attribute path of an external library, e.g. tf.matmul"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Ext', self.path))

    def __repr__(self):
        return '<ext %s>' % self.path


class ClassVal(object):
    __slots__ = ('name', 'bases', 'ref', 'module', 'node', 'mro', 'attrs')

    def __init__(self, name, bases, ref, module, node):
        self.name, self.bases, self.ref, self.module, self.node = name, bases, ref, module, node
        self.attrs = {}
        # C3 linearisation
        seqs = [list(b.mro) if isinstance(b, ClassVal) else [b] for b in bases] + [list(bases)]
        mro = [self]
        while any(seqs):
            seqs = [q for q in seqs if q]
            for q in seqs:
                if not any(q[0] in r[1:] for r in seqs):
                    break
            c = q[0]
            mro.append(c)
            seqs = [[x for x in r if x != c] for r in seqs]
        self.mro = mro

    def __repr__(self):
        return '<class %s>' % self.name


class Property(object):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class ClassM(object):
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class Partial(object):
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)


class SuperV(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class DType(object):
    __slots__ = ('name',)
    _c = {}

    def __new__(cls, name):
        if name not in cls._c:
            o = object.__new__(cls)
            o.name = name
            cls._c[name] = o
        return cls._c[name]

    def __repr__(self):
        return '<dtype %s>' % self.name


class ShapeV(object):
    """tf.TensorShape: dims is None (unknown rank) or a tuple of Poly/None"""
    __slots__ = ('dims',)

    def __init__(self, dims):
        self.dims = None if dims is None else tuple(dims)

    def __eq__(self, o):
        return isinstance(o, ShapeV) and self.dims == o.dims

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('shape', self.dims))

    def __repr__(self):
        return 'TensorShape(%r)' % (self.dims,)


class DimV(object):
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, DimV) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('dim', self.d))

    def __repr__(self):
        return 'Dimension(%r)' % (self.d,)


class NView(object):
    """basic-indexing view of a heap ndarray"""
    __slots__ = ('ref', 'keys')

    def __init__(self, ref, keys):
        self.ref, self.keys = ref, tuple(keys)

    def __repr__(self):
        return 'view of %r' % self.ref


class ExcVal(object):
    __slots__ = ('cls', 'args', 'site', 'may', 'attrs')

    def __init__(self, cls, args, site, may=False):
        self.cls, self.args, self.site, self.may = cls, args, site, may
        self.attrs = {}

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, (ClassVal, BType)) else str(self.cls)

    def __repr__(self):
        a = ', '.join(str(x) for x in self.args)
        return '%s(%s) at %s' % (self.name, a, self.site)


class GenV(object):
    """eagerly evaluated generator / iterator over concrete items, with a position held on the heap"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class NT(tuple):
    """instance of a named tuple class"""
    cls = None

    def __getnewargs__(self):
        return (tuple(self),)


def mk_nt(cls, vals):
    t = NT(vals)
    t.cls = cls
    return t


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, SVal, BVal, Ext, BoundMethod, ShapeV, DimV)):
        return type(a) is type(b) and a == b
    if isinstance(a, (bool, int, Fraction, float, str, bytes)) or a is None:
        return type(a) is type(b) and a == b
    if isinstance(a, tuple):
        if getattr(a, 'cls', None) is not getattr(b, 'cls', None):
            return False
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, GVal):
        return isinstance(b, GVal) and len(a.alts) == len(b.alts) and \
            all(g == h and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, NView):
        return isinstance(b, NView) and a.ref == b.ref and same(a.keys, b.keys)
    if isinstance(a, StrV):
        return isinstance(b, StrV) and a.tag is not None and a.tag == b.tag
    if isinstance(a, MuVal):
        return isinstance(b, MuVal) and a.id == b.id
    if isinstance(a, ClassVal):
        return a is b
    if isinstance(a, GenV):
        return isinstance(b, GenV) and a.ref == b.ref
    if isinstance(a, SliceV):
        return isinstance(b, SliceV) and same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, Base):
        return isinstance(b, Base) and a.key == b.key
    if isinstance(a, SuperV):
        return isinstance(b, SuperV) and a.cls is b.cls and same(a.obj, b.obj)
    return False


def merge_val(g1, v1, g2, v2):
    """value equal to v1 under g1 and v2 under g2"""
    if same(v1, v2):
        return v1
    if isinstance(v1, tuple) and isinstance(v2, tuple) and len(v1) == len(v2) and not isinstance(v1, str):
        c1, c2 = getattr(v1, 'cls', None), getattr(v2, 'cls', None)
        if c1 is c2:
            r = tuple(merge_val(g1, a, g2, b) for a, b in zip(v1, v2))
            return r if c1 is None else mk_nt(c1, r)
    alts = []
    for g, v in ((g1, v1), (g2, v2)):
        if isinstance(v, GVal):
            for h, x in v.alts:
                gg = bdd.AND(g, h)
                if gg != bdd.FALSE:
                    alts.append([gg, x])
        else:
            alts.append([g, v])
    if all(isinstance(x, (BVal, bool)) for _, x in alts):
        r = bdd.FALSE
        for g, x in alts:
            r = bdd.OR(r, bdd.AND(g, x.g if isinstance(x, BVal) else (bdd.TRUE if x else bdd.FALSE)))
        r = bdd.restrict(r, bdd.OR(g1, g2))
        return True if r == bdd.TRUE else False if r == bdd.FALSE else BVal(r)
    out = []
    for g, x in alts:
        for o in out:
            if same(o[1], x):
                o[0] = bdd.OR(o[0], g)
                break
        else:
            out.append([g, x])
    if len(out) == 1:
        return out[0][1]
    tot = bdd.OR(g1, g2)
    return GVal([(bdd.restrict(g, tot), x) for g, x in out])
