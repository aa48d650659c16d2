"""Builds abstract inputs and drives the entry points of the analysed library
through the abstract interpreter."""
import os
from .values import *
from .alg import *
from . import alg, bdd
from . import den as D
from .den import Den
from .interp import Interp, ImportFailed, AnalysisLimit
from . import lib_tf as TF
from . import lib_np as NP
from . import rinterp

ROOT = os.environ.get('TDSA_ROOT', '/repo')


class AnchorMissing(Exception):
    """a public entry point the property is about no longer exists"""


class NoResult(Exception):
    """the analysis has no usable outcome (reason in args)"""


def dim(s):
    return dimsym(s) if isinstance(s, str) else to_poly(s)


def size_val(s):
    """value given to the program for a size: symbolic int or Python int"""
    p = dim(s)
    n = p.as_int()
    return n if n is not None else SVal(p, 'int')


class H(object):
    def __init__(self, root=None, model_exc=False):
        self.I = Interp(root or ROOT)
        self.I.model_exc = model_exc

    # ------------------------------------------------------------- lookup
    def mod(self, dotted):
        try:
            return self.I.import_module(dotted)
        except ImportFailed as e:
            raise AnchorMissing('module %s cannot be analysed: %s' % (dotted, e))

    def get(self, dotted, *names):
        m = self.mod(dotted)
        I = self.I
        v = m
        for n in names:
            r = I.run(lambda: I.getattr(v, n))
            if len(r) != 1 or r[0][0] != 'ok':
                raise AnchorMissing('%s.%s not found' % (dotted, '.'.join(names)))
            v = r[0][2]
        return v

    # ------------------------------------------------------------- calling
    def outs(self, f, *a, **kw):
        I = self.I
        I.steps = 0
        return I.run(lambda: I.call(f, list(a), kw))

    def one(self, f, *a, **kw):
        """the value of the only outcome; anything else is NoResult"""
        return self.only(self.outs(f, *a, **kw))

    def only(self, outs):
        oks = [o for o in outs if o[0] == 'ok']
        bad = [o for o in outs if o[0] == 'raise' and not o[2].may]
        sure = [o for o in bad if not bdd.unsure(o[1].pg)]
        if sure and self.I.issues:
            raise NoResult('%s after an imprecise step (%s at %s)' % (sure[0][2], self.I.issues[0][1], self.I.issues[0][2]))
        if sure:
            e = sure[0][2]
            raise Raised(e, sure[0][1])
        if bad:
            raise NoResult('%s on a path the analysis cannot confirm' % (bad[0][2],))
        if len(oks) != 1:
            raise NoResult('no single outcome: %s' % [str(o[2]) for o in outs][:3])
        self.I.st = oks[0][1]
        return oks[0][2]

    def attr(self, o, n):
        I = self.I
        return self.only(I.run(lambda: I.getattr(o, n)))

    def m(self, o, n, *a, **kw):
        """call method n of o"""
        I = self.I
        return self.only(self.mouts(o, n, *a, **kw))

    def mouts(self, o, n, *a, **kw):
        I = self.I
        I.steps = 0
        return I.run(lambda: I.call(I.getattr(o, n), list(a), kw))

    # ------------------------------------------------------------- inputs
    def tf(self, name, sizes, dtype='float64', **kw):
        return TF.constant(self.I, D.tensor(name, [dim(s) for s in sizes], **kw), dtype)

    def tfd(self, d, dtype='float64'):
        return TF.constant(self.I, d, dtype)

    def np(self, name, sizes, dtype='float64', **kw):
        return self.I.nd(D.tensor(name, [dim(s) for s in sizes], **kw), dtype)

    def npd(self, d, dtype='float64'):
        return self.I.nd(d, dtype)

    def lst(self, *xs):
        return self.I.list_(list(xs))

    def num(self, name, flags='', dtype='float'):
        return SVal(sym(name, flags), dtype)

    # ------------------------------------------------------------- results
    def den(self, v):
        """denotation of a returned value, or None when the analysis lost it"""
        I = self.I
        v = I.simp(v)
        if isinstance(v, TF.TVar):
            v = v.snap
        if isinstance(v, TF.TNode):
            return v.den
        try:
            return NP.den_of(I, v)[0]
        except (Unsupported, D.ShapeErr, D.Undecided):
            return None

    def items(self, v):
        I = self.I
        return self.only(I.run(lambda: tuple(I.iterate(v))))


class Raised(Exception):
    def __init__(self, exc, st=None):
        Exception.__init__(self, '%s' % (exc,))
        self.exc = exc
        self.st = st


# ------------------------------------------------------------------ models

MODELS = {
    'CP_ALS': ('tensorD.factorization.cp', 'CP_ALS', 'CP_Args'),
    'NCP_BCU': ('tensorD.factorization.ncp', 'NCP_BCU', 'NCP_Args'),
    'NTUCKER_BCU': ('tensorD.factorization.ntucker', 'NTUCKER_BCU', 'NTUCKER_Args'),
    'HOSVD': ('tensorD.factorization.tucker', 'HOSVD', 'HOSVD_Args'),
    'HOOI': ('tensorD.factorization.tucker', 'HOOI', 'HOOI_Args'),
}
LETTERS = 'IJKLMNOP'


class Trained(object):
    """one abstract build+train of a model"""

    def __init__(self, name, dims, ranks, steps, h=None, validation=None, verbose=None, tol='sym', path='/tmp/summary',
                 before=None, train=True, args_kw=None, provider=None, xname='X'):
        self.name, self.steps = name, steps
        self.h = h or H()
        I = self.h.I
        self.I = I
        mod, cls, acls = MODELS[name]
        self.file = os.path.relpath(mod.replace('.', '/') + '.py')
        self.cls = self.h.get(mod, cls)
        self.dims = [dim(d) for d in dims]
        if provider is None:
            self.X = D.tensor(xname, self.dims)
            self.data = I.nd(self.X)
            Provider = self.h.get('tensorD.dataproc.provider', 'Provider')
            self.provider = self.h.one(Provider)
            X = self.data
            I.setattr(self.provider, 'full_tensor', Builtin('full_tensor', lambda I, a, kw: X))
        else:
            self.provider = provider
        Env = self.h.get('tensorD.factorization.env', 'Environment')
        self.env = self.h.one(Env, self.provider, path)
        if before:
            before(self)
        self.log0 = len(I.log)
        self.model = self.h.one(self.cls, self.env)
        tucker = name != 'CP_ALS' and name != 'NCP_BCU'
        if tucker:
            self.ranks = [dim(r) for r in ranks]
            rv = self.h.lst(*[size_val(r) for r in ranks])
            self.rank_arg = rv
        else:
            self.ranks = [dim(ranks)]
            rv = size_val(ranks)
        kw = dict(args_kw or {})
        if name != 'HOSVD':
            if validation is not None:
                kw.setdefault('validation_internal', validation)
            if verbose is not None:
                kw.setdefault('verbose', verbose)
            if tol == 'sym':
                kw.setdefault('tol', SVal(sym('tol', 'p'), 'float'))
            elif tol is not None:
                kw.setdefault('tol', tol)
        self.args = self.h.one(self.h.get(mod, cls, acls), rv, **kw)
        self.build()
        self.log1 = len(I.log)
        self.outcomes = None
        if train:
            self.train(steps)

    def build(self):
        self.h.m(self.model, 'build_model', self.args)

    def train(self, steps):
        self.outcomes = self.h.mouts(self.model, 'train', steps)
        oks = [o for o in self.outcomes if o[0] == 'ok']
        if len(oks) == 1:
            self.I.st = oks[0][1]
            self.hist = oks[0][2]
        return self.outcomes

    def get(self, attr):
        """published attribute (property or zero-argument method)"""
        v = self.h.attr(self.model, attr)
        if isinstance(v, (BoundMethod, FuncVal)):
            v = self.h.one(v)
        return v

    @property
    def log(self):
        return self.I.log[self.log0:]

    def runs(self):
        return [l for l in self.log if l[1] == 'run']
