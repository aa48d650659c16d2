"""Factorization models: algorithm steps, state machines, published results, lifecycle."""
import itertools
import random
import time
from fractions import Fraction
from ..alg import *
from .. import alg, bdd
from .. import den as D
from .. import spec as S
from .. import ref
from .. import paths as P
from .. import rinterp
from .. import lib_tf as TF
from ..values import *
from ..check import Bad, Undec
from ..harness import H, Trained, MODELS, NoResult, Raised, dim
from . import rule

FILE = {m: MODELS[m][0].replace('.', '/') + '.py:' + m for m in MODELS}
CPLIKE = ('CP_ALS', 'NCP_BCU')
DIMS = 'IJKLM'
RANKS = 'PQSTU'
SMALL = {'I': 3, 'J': 2, 'K': 2, 'L': 2, 'M': 2, 'U': 2, 'P': 2, 'Q': 2, 'S': 2, 'T': 2, 'R': 2}
SIZES = [SMALL, dict(SMALL, I=2, J=2, K=1, L=1, R=3, P=2, Q=2, S=1, T=1), dict(SMALL, I=2, J=2, K=3, R=1, P=1, Q=2, S=2),
         dict(SMALL, I=3, J=3, K=2, R=3, P=2, Q=3, S=1), dict(SMALL, I=2, J=3, K=2, P=2, Q=1, S=2)]
TOLS = [0.05, 0.3, 0.6, 0.9, 0.01, 1.5]


def ranks_of(name, order):
    return 'R' if name in CPLIKE else RANKS[:order]


def worlds(seed, n=28, order=3):
    def gen():
        for k in range(n):
            sc = dict(SIZES[k % len(SIZES)])
            sc['tol'] = TOLS[k % len(TOLS)]
            yield rinterp.World((seed, k), ('real', 'pos', 'real', 'int', 'sparse')[k % 5], sc, budget=3000000)
    return gen


class Draws(object):
    """random initial values: which draw of the analysed program plays which role (found by shape)"""

    def __init__(self, structs, kinds=('rndrun',)):
        bs = {}
        for s in structs:
            for _, x in P.leaves(s):
                if isinstance(x, D.Den):
                    P.deep_bases(x, bs)
        self.bases = [b for b in bs.values() if b.kind in kinds]
        self.used = {}

    def __call__(self, sizes):
        sizes = [dim(s) for s in sizes]
        hit = [b for b in self.bases if b.shape is not None and len(b.shape) == len(sizes) and all(x == y for x, y in zip(b.shape, sizes))]
        hit = [b for b in hit if b.info[1] == 'rand']
        if hit:
            b = max(hit, key=lambda b: alg._KR[b.key][-1])      # the most recent draw
            self.used[b.key] = b
            return D.from_base(b, sizes)
        return D.tensor('draw%s' % 'x'.join(map(repr, sizes)), sizes, nonneg=True)


ATTR = {'factors': lambda s: tuple(s['A']), 'full': lambda s: s['full_out'], 'lambdas': lambda s: s['lambdas'],
        'core': lambda s: s['core_out'], 'hist': lambda s: tuple((l, r) for l, r in s['hist'])}
PUB = {'CP_ALS': ('factors', 'lambdas', 'full'), 'NCP_BCU': ('factors', 'lambdas', 'full'), 'NTUCKER_BCU': ('core', 'factors', 'full'),
       'HOSVD': ('core', 'factors', 'full'), 'HOOI': ('core', 'factors', 'full')}


def published(t, attr):
    if attr == 'hist':
        return P.merge(P.tree(t.I, t.hist))
    return P.merge(P.tree(t.I, t.get(attr)))


def trained(c, name, order, steps, tol=0, **kw):
    kw.setdefault('verbose', None)
    t = Trained(name, DIMS[:order], ranks_of(name, order), steps, h=c.h(), tol=tol, **kw)
    t.h.only(t.outcomes)
    return t


def settle(r, what, site):
    if r[0] == 'equal':
        return r[1]
    if r[0] == 'differ':
        raise Bad('%s %s' % (what, r[1]), site)
    raise Undec('%s: %s' % (what, r[1]))


class Later(object):
    """settle several comparisons: a violation at once, what is undecided only after all have been looked at"""
    def __init__(self):
        self.open = []

    def settle(self, r, what, site):
        try:
            return settle(r, what, site)
        except Undec as e:
            self.open.append(e)

    def done(self):
        if self.open:
            raise self.open[0]


def model_site(t):
    return '%s' % FILE[t.name]


def machine(t, got):
    draw = Draws([s for alts in got for g, s in alts])
    return ref.MACHINES[t.name](t.X, t.dims, t.ranks, draw)


def ones_row(n):
    return D.full([1, n], 1)


def tol_poly(t):
    return sym('tol', 'p') if t == 'sym' else const(t)


def check_results(c, rname, name, order, steps, attrs=None, tol=0, label=None, force=False, **kw):
    """published results after `steps` training steps denote what the reference machine computes"""
    con = FILE[name]
    inst0 = 'order %d, %d step%s, tol %s%s' % (order, steps, 's' if steps > 1 else '', tol, (', ' + label) if label else '')
    box = {}

    def setup():
        t = trained(c, name, order, steps, tol, **kw)
        got = {a: published(t, a) for a in PUB[name]}
        if name != 'HOSVD':
            got['hist'] = published(t, 'hist')
        m = machine(t, list(got.values()))
        al = Aligned(m, got['hist'], name) if force else None
        want = m.run(steps, tol_poly(tol))
        box['t'], box['got'], box['want'] = t, got, want
        if al is not None and al.complete([a for x in got.values() for a in x] + P.merge([(g, tuple(ATTR[a](s) for a in PUB[name] if a != 'lambdas' or name != 'NCP_BCU')) for g, s in want]), True):
            box['worlds'] = al.forced(t, steps)
    if c.ob(rname, con, inst0 + ': build and train', setup) is not True:
        return None
    t, got, want = box['t'], box['got'], box['want']
    for a in (attrs or PUB[name]):
        def one():
            if a == 'lambdas' and name == 'NCP_BCU':
                w = [(bdd.TRUE, ones_row(t.ranks[0]))]
            else:
                w = [(g, ATTR[a](s)) for g, s in want]
            race_reach(t, got[a], '%s of %s after %d steps' % (a, name, steps))
            return settle(P.compare(got[a], w, box.get('worlds') or worlds(name), thorough=force), '%s of %s after %d steps:' % (a, name, steps), con)
        c.ob(rname, con, inst0 + ': ' + a, one)
    return box


# ------------------------------------------------------------------ algorithms

def orders(c, lo=2):
    return [3, 2, 4] if c.thorough else [3, 2]


METHOD = ('Abstract interpretation of build_model and train into tensor denotations with value numbering; every path of the training loop is '
          'compared with the paths of a reference state machine of the published algorithm (guards and value numbers must coincide; where normal '
          'forms differ, the two terms are compared by random interpretation).')


@rule('C10', 'CP-ALS: ' + METHOD)
def c10(c):
    for o in [3, 2, 4]:
        for s in ((1, 2, 3) if c.thorough else (1, 2)):
            check_results(c, 'cp-als-step', 'CP_ALS', o, s)


@rule('C11', 'Non-negative CP (BCU): ' + METHOD)
def c11(c):
    for o in [3, 2, 4]:
        for s in ((1, 2, 3) if c.thorough else (1, 3)):
            check_results(c, 'ncp-step', 'NCP_BCU', o, s, force=s > 1)


@rule('C12', 'Non-negative Tucker (BCU): ' + METHOD)
def c12(c):
    for o in [3, 2, 4]:
        for s in ((1, 2, 3) if c.thorough else (1, 3)):
            check_results(c, 'ntucker-step', 'NTUCKER_BCU', o, s, force=s > 1)


@rule('C13', 'Extrapolation and restart of the BCU methods: ' + METHOD)
def c13(c):
    for name in ('NCP_BCU', 'NTUCKER_BCU'):
        for o in ([3, 2] if not c.thorough else [3, 2, 4]):
            for s in ((2, 3, 4) if not c.thorough else (2, 3, 4, 5)):
                check_results(c, 'extrapolation', name, o, s, force=True)


@rule('C15', 'HOSVD and HOOI: ' + METHOD)
def c15(c):
    for o in [3, 2, 4]:
        check_results(c, 'hosvd', 'HOSVD', o, 1)
        for s in ((1, 2, 3) if c.thorough else (1, 2)):
            check_results(c, 'hooi', 'HOOI', o, s)


# ------------------------------------------------------------------ invariants of the published results

ITER = ('CP_ALS', 'NCP_BCU', 'NTUCKER_BCU', 'HOOI')
ALL = ('CP_ALS', 'NCP_BCU', 'NTUCKER_BCU', 'HOSVD', 'HOOI')


def attempt(c, rname, con, inst, fn):
    """run the set-up of several obligations as one obligation; returns its value or None"""
    box = []

    def go():
        box.append(fn())
    if c.ob(rname, con, inst, go) is True:
        return box[0]
    return None


def sign_check(name, alts, what, con):
    open_ = None
    for g, s in alts:
        for path, d in P.leaves(s):
            if not isinstance(d, D.Den):
                raise Undec('%s not tracked' % what)
            x = P.expand(d, ('res',))
            if is_nonneg(d.body) or is_nonneg(x.body):
                continue
            # not provable by signs: look for a witness
            n = 0
            for w in worlds(name, 30)():
                try:
                    if not P.guard_in(w, g):
                        continue
                    vals = w.den(d)
                except (rinterp.Skip,):
                    continue
                except rinterp.NoEval:
                    break
                n += 1
                neg = [k for k in vals if vals[k] < -1e-9]
                if neg:
                    raise Bad('%s%s is not kept nonnegative: entry %s is %.4g under a random interpretation; %s' % (
                        what, list(path), neg[0], float(vals[neg[0]]), D.clip(repr(x), 240)), con)
            open_ = open_ or Undec('sign of %s%s not derivable: %s' % (what, list(path), D.clip(repr(x), 200)))
    if open_:
        raise open_


@rule('C14', 'Sign analysis (abstract domain of nonnegative terms over the tensor denotations) of every published factor, core and reconstruction '
             'on every path of the training loop; a sign that cannot be derived is reported only with a witness interpretation.')
def c14(c):
    for name in ('NCP_BCU', 'NTUCKER_BCU'):
        for o in orders(c):
            for s in ((1, 2, 3, 4) if not c.thorough else (1, 2, 3, 4, 5, 6)):
                con = FILE[name]
                inst = 'order %d, %d steps' % (o, s)
                t = attempt(c, 'nonnegative', con, inst + ': train', lambda: trained(c, name, o, s, 'sym'))
                if t is None:
                    continue
                for a in PUB[name]:
                    c.ob('nonnegative', con, inst + ': ' + a, lambda: sign_check(name, published(t, a), a, con))


def race_reach(t, alts, what):
    for g, s in alts:
        for _, d in P.leaves(s):
            if not isinstance(d, D.Den):
                continue
            for b in P.deep_bases(d).values():
                if b.kind == 'race':
                    raise Bad('%s depends on the order in which TensorFlow runs unordered operations: %s (%s)' % (
                        what, b.name, race_text(t, b)), race_text(t, b))


def race_text(t, b):
    for l in t.runs():
        for v, s1, s2, k in l[2]['races']:
            if b.name == 'race:%s' % v.name:
                return '%s at %s unordered with the assignment at %s' % ('read' if k == 'read' else 'assignment', s1, s2)
    return str(b.info)


@rule('C16', 'Happens-before analysis of every session run: graph nodes ordered by data and control edges; a variable access without an order to an '
             'assignment of the same variable becomes an unknown value, which must not reach any published result or history entry.')
def c16(c):
    for name in ALL:
        con = FILE[name]
        for o in orders(c):
            steps = (1,) if name == 'HOSVD' else (1, 2, 3, 4) if c.thorough else (3,)
            for s in steps:
                inst = 'order %d, %d steps' % (o, s)
                t = attempt(c, 'ordered-access', con, inst + ': train', lambda: trained(c, name, o, s, 'sym'))
                if t is None:
                    continue
                runs = t.runs()
                c.counts = getattr(c, 'counts', {})
                for l in runs:
                    ev = l[2]
                    for k in ('n_nodes', 'n_reads', 'n_assigns'):
                        c.counts[k] = c.counts.get(k, 0) + ev[k]
                for a in PUB[name] + (() if name == 'HOSVD' else ('hist',)):
                    c.ob('ordered-access', con, inst + ': ' + a, lambda: race_reach(t, published(t, a), a))


@rule('C17', 'Every training starts afresh: the same model trained twice, and rebuilt with other arguments, is interpreted abstractly; the second result '
             'must denote the reference machine started from draws of the second initialisation only, and no variable may be read uninitialised.')
def c17(c):
    for name in ALL:
        con = FILE[name]
        for o in orders(c):
            for s in ((1, 2) if name != 'HOSVD' else (1,)):
                inst = 'order %d, %d steps' % (o, s)

                def again():
                    t = trained(c, name, o, s, 0)
                    t.h.only(t.train(s))
                    return t
                second(c, 'fresh-start', name, con, inst + ', trained twice', again, s)

                def rebuilt():
                    t = trained(c, name, o, s, 0)
                    return rebuild(t, s)
                second(c, 'rebuild', name, con, inst + ', rebuilt with other ranks', rebuilt, s)

                def regraph():
                    t = trained(c, name, o, s, 0)
                    t.h.one(Ext('tf.reset_default_graph'))
                    return rebuild(t, s)
                second(c, 'rebuild', name, con, inst + ', rebuilt in a fresh graph', regraph, s)
            if name in ITER and (o == 2 or c.thorough):
                for s in (2, 3) if c.thorough else (3,):
                    inst = 'order %d, up to %d steps, trained twice, second stop' % (o, s)

                    def again():
                        t = trained(c, name, o, s, 'sym')
                        t.h.only(t.train(s))
                        return t
                    t = attempt(c, 'fresh-stop', con, inst + ': train', again)
                    if t is not None:
                        c.ob('fresh-stop', con, inst, lambda: check_stopping(t, name, s, con))


def rebuild(t, s, names='ABCD'):
    """build the same model again with other ranks and train it"""
    name = t.name
    mod, cls, acls = MODELS[name]
    h = t.h
    if name in CPLIKE:
        t.ranks = [dim('W')]
        rv = SVal(dim('W'), 'int')
    else:
        t.ranks = [dim(n) for n in names[:len(t.dims)]]
        rv = h.lst(*[SVal(r, 'int') for r in t.ranks])
    kw = {} if name == 'HOSVD' else {'tol': 0}
    t.args = h.one(h.get(mod, cls, acls), rv, **kw)
    t.build()
    h.only(t.train(s))
    return t


def second(c, rname, name, con, inst, fn, s):
    t = attempt(c, rname, con, inst + ': train', fn)
    if t is None:
        return
    compare_with_machine(c, rname, t, con, inst, s)


def compare_with_machine(c, rname, t, con, inst, s, tol=0):
    name = t.name
    got = attempt(c, rname, con, inst + ': results', lambda: {a: published(t, a) for a in PUB[name]})
    if got is None:
        return
    want = attempt(c, rname, con, inst + ': reference', lambda: machine(t, list(got.values())).run(s, tol_poly(tol)))
    if want is None:
        return
    for a in PUB[name]:
        w = [(bdd.TRUE, ones_row(t.ranks[0]))] if a == 'lambdas' and name == 'NCP_BCU' else [(g, ATTR[a](st)) for g, st in want]
        c.ob(rname, con, inst + ': ' + a,
             lambda: settle(P.compare(got[a], w, worlds(name)), '%s of %s:' % (a, name), con))


def recon(name, f, x):
    """the specified reconstruction from published pieces"""
    if name in CPLIKE:
        return S.cp_full(list(f), x)
    return S.tucker_full(x, list(f))


def joint(*lists):
    outs = [(bdd.TRUE, ())]
    for alts in lists:
        outs = [(bdd.AND(g, h), s + (x,)) for g, s in outs for h, x in alts if bdd.AND(g, h) != bdd.FALSE]
    return [(g, s) for g, s in outs if bdd.consistent(g) != bdd.FALSE]


@rule('C18', 'Relational check of the published results: on every joint path of the training loop (symbolic tolerance, so every early exit is a path) '
             'the published full tensor must denote the reconstruction of the published factors with the published weights or core.')
def c18(c):
    for name in ALL:
        con = FILE[name]
        for o in orders(c):
            for s in ((1,) if name == 'HOSVD' else (1, 2, 3, 4, 5) if c.thorough else (1, 3) if o == 3 else (1, 5)):
                inst = 'order %d, up to %d steps' % (o, s)
                t = attempt(c, 'consistent', con, inst + ': train', lambda: trained(c, name, o, s, 'sym'))
                if t is None:
                    continue

                def one():
                    pubs = [published(t, 'factors'), published(t, 'lambdas' if name in CPLIKE else 'core'), published(t, 'full')]
                    js = joint(*pubs)
                    later = Later()
                    for g, (f, x, full) in js:
                        if full is None or f is None or x is None:
                            raise Bad('a published result is None', con)
                        if name == 'NCP_BCU':
                            x = D.reshape(x, [x.size(1)])
                        f = [P.expand(y) for y in f]
                        want = recon(name, f, P.expand(x))
                        r = under(name, g, P.expand(full), want, lambda: all_paths(t, name, s))
                        later.settle(r, 'full of %s is not the reconstruction of the published pieces%s:' % (
                            name, '' if g == bdd.TRUE else ' when ' + bdd.describe(g)[:200]), con)
                    later.done()
                    return '%d joint paths' % len(js)
                c.ob('consistent', con, inst, one)


def all_paths(t, name, steps):
    """interpretations reaching every combination of decisions of the training loop; None if the decisions depend on something else"""
    if 'paths' not in t.__dict__:
        hist = published(t, 'hist')
        m = machine(t, [hist, published(t, 'full')])
        al = Aligned(m, hist, name)
        want = m.run(steps, tol_poly('sym'))
        t.paths = al.forced(t, steps, 400) if al.complete(hist + P.merge([(g, tuple(s['hist'])) for g, s in want]), True) else None
    return t.paths


def guarded(name, g, more=None):
    def gen():
        for w in itertools.chain(worlds(name)(), more() if more else ()):
            try:
                if P.guard_in(w, g):
                    yield w
            except (rinterp.Skip, rinterp.NoEval):
                continue
    return gen


def under(name, g, got, want, more=None):
    """compare on the path g; where interpretations on that path are too rare, equality everywhere is enough"""
    r = P.compare([(bdd.TRUE, got)], [(bdd.TRUE, want)], guarded(name, g))
    if r[0] == 'unknown' and g != bdd.TRUE:
        r2 = P.compare([(bdd.TRUE, got)], [(bdd.TRUE, want)], worlds(name))
        if r2[0] == 'equal':
            return r2
        more = more() if more else None
        if more is not None:
            return P.compare([(bdd.TRUE, got)], [(bdd.TRUE, want)], guarded(name, g, more))
    return r


def metrics(X, full):
    diff = S.sub(full, X)
    return (D.scalar(S.rmse_ignore_zero(X, full)), D.scalar(mul(S.fro(diff), power(S.fro(X), -1))))


@rule('C19', 'Relational check of the returned history: on every joint path the last row must denote (RMSE over the nonzero entries, relative residual) '
             'of the published full tensor, every earlier row must be the last row of the path that stops there, without a tolerance there is '
             'exactly one row per step, and a returned history still denotes the same rows after another training.')
def c19(c):
    for name in ITER:
        con = FILE[name]
        for o in orders(c):
            for s in ((1, 2, 3, 4) if c.thorough else (1, 3)):
                for label, kw in (('', {}), ('verbose', {'verbose': True})):
                    inst = 'order %d, up to %d steps%s' % (o, s, ' ' + label if label else '')
                    t = attempt(c, 'history', con, inst + ': train', lambda: trained(c, name, o, s, 'sym', **kw))
                    if t is None:
                        continue
                    c.ob('history', con, inst, lambda: check_history(t, name, con))
            for s in ((1, 2, 3, 4) if c.thorough else (1, 2, 3)):
                inst = 'order %d, %d steps, tolerance 0' % (o, s)
                t = attempt(c, 'history-length', con, inst + ': train', lambda: trained(c, name, o, s, 0))
                if t is None:
                    continue

                def length():
                    for g, rows in published(t, 'hist'):
                        if not isinstance(rows, tuple):
                            raise Bad('train returns no list', con)
                        if len(rows) != s:
                            raise Bad('%d history rows after %d steps without a tolerance%s' % (
                                len(rows), s, '' if g == bdd.TRUE else ' when ' + bdd.describe(g)[:200]), con)
                c.ob('history-length', con, inst, length)
            inst = 'order %d, trained again' % o
            t = attempt(c, 'history-kept', con, inst + ': train', lambda: trained(c, name, o, 2, 0))
            if t is None:
                continue
            held, rows = t.hist, published(t, 'hist')
            if attempt(c, 'history-kept', con, inst + ': train again', lambda: (t.h.only(t.train(1)), 1)) is not None:
                c.ob('history-kept', con, inst,
                     lambda: settle(P.compare(P.merge(P.tree(t.I, held)), rows, worlds(name)), 'the history returned by the first training, after the second:', con))


def check_history(t, name, con):
    hist, full = published(t, 'hist'), published(t, 'full')
    lasts = {}
    n = 0
    later = Later()
    for g, (rows, f) in joint(hist, full):
        if not isinstance(rows, tuple) or not rows:
            raise Bad('train returns no history rows', con)
        want = metrics(t.X, P.expand(f))
        for row in rows:
            if not isinstance(row, tuple) or len(row) != 2:
                raise Bad('a history row is %s, specified a pair (RMSE, relative residual)' % P.show(row), con)
        last = tuple(P.expand(x) if isinstance(x, D.Den) else x for x in rows[-1])
        r = under(name, g, last, want)
        later.settle(r, 'last history row (RMSE, relative residual) of %s:' % name, con)
        lasts.setdefault(len(rows), set()).add(P.skey(rows[-1]))
        n += 1
    for g, rows in hist:
        for k, row in enumerate(rows[:-1]):
            if k + 1 in lasts and P.skey(row) not in lasts[k + 1]:
                # a different value number: compare the meaning with the rows of the stopping paths
                alts = [r2[-1] for g2, r2 in hist if len(r2) == k + 1]
                for cand in alts:
                    res = P.compare([(bdd.TRUE, tuple(P.expand(x) for x in row))], [(bdd.TRUE, tuple(P.expand(x) for x in cand))], guarded(name, g))
                    if res[0] == 'equal':
                        break
                else:
                    raise Bad('history row %d of a longer training is not the row recorded at step %d' % (k + 1, k + 1), con) \
                        if alts and res[0] == 'differ' else Undec('history row %d: %s' % (k + 1, res[1]))
    later.done()
    return '%d joint paths' % n


@rule('C20', 'Path conditions of the training loop: the guard under which the loop leaves after k steps must equal, as a decision diagram over canonical '
             'conditions, the guard of the specified stopping rule (relative objective change below tol three times in a row, or residual below tol).')
def c20(c):
    for name in ITER:
        con = FILE[name]
        for o in orders(c):
            for s in ((2, 4, 5, 6) if c.thorough else (2,) if o == 2 else (5,)):
                inst = 'order %d, up to %d steps' % (o, s)
                t = attempt(c, 'stopping', con, inst + ': train', lambda: trained(c, name, o, s, 'sym'))
                if t is None:
                    continue

                c.ob('stopping', con, inst, lambda: check_stopping(t, name, s, con))


def check_stopping(t, name, s, con):
    hist = published(t, 'hist')
    got = P.merge([(g, ('steps', len(r)) if isinstance(r, tuple) else r) for g, r in hist])
    m = machine(t, [hist, published(t, 'full')])
    al = Aligned(m, hist, name)
    want = P.merge([(g, ('steps', st['steps'])) for g, st in m.run(s, tol_poly('sym'))])
    got = [(g, k[1]) for g, k in got]
    want = [(g, k[1]) for g, k in want]
    wd = dict((k, g) for g, k in want)
    bad = None
    for g, k in got:
        w = wd.get(k, bdd.FALSE)
        x = bdd.consistent(bdd.XOR(g, w))
        if x != bdd.FALSE:
            bad = 'leaves after %d steps under other conditions than specified, e.g. %s when %s' % (
                k, 'it leaves' if bdd.consistent(bdd.AND(g, bdd.NOT(w))) != bdd.FALSE else 'it goes on', bdd.describe(x)[:400])
    if bad is None:
        return '%d exits, same guards' % len(got)
    if al.complete(hist + want):
        return al.sequences(t, hist, want, s, bad, con)
    return stop_numeric(t, name, hist, s, bad, con)


class Aligned(object):
    """names the objective and the residual of the specified algorithm by the results the program fetches, where these have the same value"""
    def __init__(self, m, hist, name):
        self.name, self.memo, self.steps = name, {}, {}
        self.cand = {}
        for g, _ in hist:
            for v in bdd.support(g):
                a = bdd.ATOMS[v]
                for x in (a.poly, a.zero):
                    if x is not None:
                        for k, b in alg.bases_of(x).items():
                            if b.kind == 'res' and isinstance(b.info, D.Den) and not b.info.rank:
                                self.cand[k] = b
        plain = m.measure

        def measure(s):
            plain(s)
            for q in ('obj', 'rel'):
                s[q] = self.align(s[q])
            self.steps.setdefault(s['steps'] + 1, []).append((s['obj'], s['rel']))
        m.measure = measure

    def align(self, d):
        k = d.key()
        if k not in self.memo:
            self.memo[k] = d
            bs = D.all_bases(d)
            if not (set(bs) & set(self.cand)):
                for b in self.cand.values():
                    x = D.from_base(b, [])
                    if P.compare([(bdd.TRUE, P.expand(x))], [(bdd.TRUE, P.expand(d))], worlds((self.name, 'align')))[0] == 'equal':
                        self.memo[k] = x
                        break
        return self.memo[k]

    def bases(self, own):
        out = {}
        for step, prs in self.steps.items():
            for o, r in prs:
                for x, what in ((o, 'obj'), (r, 'rel')):
                    for k, b in D.all_bases(x).items():
                        if k in self.cand or own and b.kind == 'res':
                            out[k] = (step, what)
        return out

    def complete(self, alts, own=False):
        """the conditions speak of nothing but the tolerance and the aligned quantities"""
        self.known = self.bases(own)
        for g, _ in alts:
            for v in bdd.support(g):
                a = bdd.ATOMS[v]
                x = a.poly if a.poly is not None else a.zero
                if x is None or a.opaque or any(k not in self.known for k in alg.bases_of(x)):
                    return False
        return True

    def forced(self, t, steps, n=96):
        """interpretations in which the objective runs through arbitrary sequences (every accept/reject decision, ties included)
        while everything else is evaluated from its term"""
        def gen():
            for k in range(n):
                r = random.Random(repr((self.name, steps, 'forced', k)))
                sc = dict(SIZES[k % len(SIZES)])
                sc['tol'] = r.choice([1, 2, 10, 30, 100]) / 100.
                w = rinterp.World((self.name, 'f', k), ('wild', 'pos', 'peak', 'real', 'peak', 'int', 'peak')[k % 7], sc, budget=3000000)
                try:
                        xn = Fraction(w.poly(S.fro(t.X), {}))
                except rinterp.Skip:
                    continue
                rel = [Fraction(r.randint(30, 300), 100)]
                while len(rel) < steps:
                    rel.append(rel[-1] * r.choice([Fraction(r.randint(20, 95), 100), 1, Fraction(r.randint(105, 200), 100)]))
                for key, (step, what) in self.known.items():
                    x = rel[step - 1]
                    w.arr[key] = {(): x if what == 'rel' else (x * xn) ** 2 / 2}
                yield w
        return gen

    def sequences(self, t, hist, want, steps, bad, con, n=6000):
        """the guards over arbitrary sequences of objective values, ties included"""
        r = random.Random(repr((self.name, steps)))
        F = Fraction
        for i in range(n):
            tol = F(r.choice([1, 2, 5, 10, 30, 60, 90, 150]), 100)
            rel = [F(r.randint(20, 400), 100)]
            xn = F(r.choice([1, 1, 3, 10]))
            for _ in range(steps):
                u = r.random()
                if u < 0.55:
                    rel.append(rel[-1] * (1 + tol * F(r.randint(-40, 40), 100)))
                elif u < 0.9:
                    rel.append(rel[-1] * F(r.randint(5, 180), 100))
                else:
                    rel.append(rel[-1])
            rows = [(None, x) for x in rel[:steps]]
            if r.random() < 0.3:
                tol = r.choice(list(criteria(rows, xn, self.name in ('NCP_BCU', 'NTUCKER_BCU'), F(1, 2))))
            w = rinterp.World((self.name, i), 'pos', {'tol': tol}, budget=10 ** 7)
            for k, (step, what) in self.known.items():
                x = rel[step - 1]
                w.arr[k] = {(): x if what == 'rel' else F(1, 2) * (x * xn) ** 2}
            try:
                got, spec = len(P.pick(w, hist)), P.pick(w, want)
            except rinterp.Skip:
                continue
            except rinterp.NoEval as e:
                raise Undec('%s (%s)' % (bad, e))
            if got != spec:
                raise Bad('%s; with tolerance %g and residuals %s it leaves after %d steps, specified %d' % (
                    bad, tol, ', '.join('%.4g' % x for x in rel[:max(got, spec)]), got, spec), con)
        return '%d sequences of residuals' % n


def stop_numeric(t, name, hist, steps, bad, con):
    """guards differ as diagrams: decide on interpretations, from the recorded residuals only"""
    ok = 0
    momentum = name in ('NCP_BCU', 'NTUCKER_BCU')
    end = time.time() + 60

    def leaves_after(w, tol):
        w.scal['tol'] = tol
        rows = P.pick(w, hist)
        return [tuple(float(w.poly(x.body, {})) for x in row) for row in rows]
    for w in worlds((name, 'stop'), 40)():
        if ok and time.time() > end:
            break
        try:
            vals = leaves_after(w, 1e-12)
            xn = float(w.poly(S.fro(t.X), {}))
            # tolerances that separate the quantities the rule compares with it
            q = sorted(set(criteria(vals, xn, momentum)))
            tols = [(x + y) / 2 for x, y in zip(q, q[1:]) if y - x > 1e-7 * y]
        except rinterp.Skip:
            continue
        except rinterp.NoEval as e:
            raise Undec('%s (%s)' % (bad, e))
        for tol in tols:
            v = rinterp.World(w.seed, w.style, w.scal, budget=3000000)
            try:
                vals = leaves_after(v, tol)
                want = rule_steps(vals, xn, tol, steps, momentum)
            except rinterp.Skip:
                continue
            except rinterp.NoEval as e:
                raise Undec('%s (%s)' % (bad, e))
            if want is None or want != len(vals):
                raise Bad('%s; under an interpretation with tol=%g it leaves after %d steps, specified %s' % (bad, tol, len(vals), want or 'more'), con)
            ok += 1
        if ok >= 60:
            break
    if ok < 12:
        raise Undec(bad)
    return '%d random interpretations' % ok


def criteria(rows, xn, momentum, half=0.5):
    obj0 = None
    for k, (_, rel) in enumerate(rows):
        obj = half * (rel * xn) ** 2
        if k == 0:
            obj0 = obj + 1
        yield abs(obj - obj0) / (obj0 + 1)
        yield rel
        if not momentum or obj < obj0:
            obj0 = obj


def rule_steps(rows, xn, tol, steps, momentum):
    stall, obj0 = 0, None
    for k, (_, rel) in enumerate(rows):
        obj = 0.5 * (rel * xn) ** 2
        if k == 0:
            obj0 = obj + 1
        e = abs(obj - obj0) / (obj0 + 1)
        if abs(e - tol) < 1e-9 or abs(rel - tol) < 1e-9 or momentum and abs(obj - obj0) < 1e-9:
            raise rinterp.Skip('tie')
        stall = stall + 1 if e < tol else 0
        if stall >= 3 or rel < tol:
            return k + 1
        if not momentum or obj < obj0:
            obj0 = obj
    return steps if len(rows) == steps else None


# ------------------------------------------------------------------ lifecycle

def run_outs(t, fn):
    """outcomes of fn in the present state, restoring the state afterwards"""
    st = t.I.st
    r = fn()
    t.I.st = st
    return r


def expect_tensorerr(t, idx, when, con):
    outs = run_outs(t, lambda: t.h.mouts(t.model, 'predict', *idx))
    if any(bdd.unsure(o[1].pg) for o in outs):
        raise Undec('predict %s: a condition is not tracked' % when)
    for o in outs:
        if o[0] == 'ok':
            raise Bad('predict %s returns a value instead of raising TensorErr' % when, con)
        if o[2].name != 'TensorErr':
            raise Bad('predict %s raises %s instead of TensorErr' % (when, o[2]), o[2].site or con)
    return '%d outcomes' % len(outs)


def flag(t, st=None):
    """alternatives of train_finish (a property or a method) in state st"""
    I = t.I
    keep = I.st
    try:
        if st is not None:
            I.st = st
        v = t.get('train_finish')
        base = I.pg
        return [(bdd.AND(base, g), x) for g, x in tree_bool(I, v)]
    finally:
        I.st = keep


def tree_bool(I, v):
    return [(g, x) for g, x in P.tree(I, v)]


def expect_flag(t, want, when, con, st=None):
    for g, x in flag(t, st):
        if g == bdd.FALSE or bdd.consistent(g) == bdd.FALSE:
            continue
        if isinstance(x, P.Leaf):
            raise Undec('train_finish %s not tracked' % when)
        if isinstance(x, D.Den):
            x = x.body.as_int() if not x.rank else None
            if x is None:
                raise Undec('train_finish %s not tracked' % when)
        if bool(x) is not want:
            raise Bad('train_finish is %s %s' % (x, when), con)


def small_dims(order):
    return [3, 2, 2, 2][:order]


@rule('C21', 'Typestate of a model (fresh, built, trained, training again, failed): abstract interpretation of the calls a user can make in each state; '
             'predict must raise TensorErr before training and denote the entry of the published full tensor afterwards; train_finish must be true exactly '
             'after a completed training, including every exit on which a session run, a writer or a file operation fails.')
def c21(c):
    import itertools as it
    for name in ALL:
        con = FILE[name]
        for o in (3, 2, 4) + ((5,) if c.thorough and name in CPLIKE + ('HOSVD',) else ()):
            for form in ('symbolic', 'concrete') if o == 3 else ('symbolic',):
                dims = DIMS[:o] if form == 'symbolic' else [DIMS[0], 3, 2, 2][:o]
                rk = ranks_of(name, o)
                for s in ((1,) if name == 'HOSVD' or form == 'concrete' or o > 3 else (1, 3)):
                    inst = 'order %d, %s sizes, up to %d steps' % (o, form, s)
                    t = attempt(c, 'predict', con, inst + ': build', lambda: Trained(name, dims, rk, s, h=c.h(), train=False))
                    if t is None:
                        continue
                    cells = list(it.product((0, -1), repeat=o))
                    if form == 'concrete':
                        cells = list(it.product((0, -1), (0, 1, 2), (1,)))
                    c.ob('predict-early', con, inst, lambda: expect_tensorerr(t, cells[0], 'before training', con))
                    c.ob('train-finish', con, inst + ': built', lambda: expect_flag(t, False, 'before training', con))
                    if attempt(c, 'predict', con, inst + ': train', lambda: (t.h.only(t.train(s)), 1)) is None:
                        continue
                    c.ob('train-finish', con, inst + ': trained', lambda: expect_flag(t, True, 'after a completed training', con))

                    def pred():
                        full = published(t, 'full')
                        for cell in cells:
                            got = P.merge(P.tree(t.I, t.h.m(t.model, 'predict', *cell)))
                            want = [(g, f if f is None else D.scalar(S.at(f, [const(k) if k >= 0 else add(dim(dims[a]), const(k)) for a, k in enumerate(cell)]))) for g, f in full]
                            settle(P.compare(got, want, worlds(name)), 'predict%s of %s:' % (cell, name), con)
                        return '%d indices' % len(cells)
                    c.ob('predict', con, inst, pred)
                    if attempt(c, 'train-finish', con, inst + ': train again', lambda: (t.h.only(t.train(s)), 1)) is None:
                        continue
                    c.ob('train-finish', con, inst + ': trained again', lambda: expect_flag(t, True, 'after a second completed training', con))
        for n in (2, 3) if c.thorough else (2,):
            for s in ((1,) if name == 'HOSVD' else (1, 2)):
                failing(c, name, n, s)
        fresh = attempt(c, 'predict-early', con, 'unbuilt: construct', lambda: unbuilt(c, name))
        if fresh is not None:
            c.ob('predict-early', con, 'unbuilt model', lambda: expect_tensorerr(fresh, (0, 0, 0), 'before build_model', con))
            c.ob('train-finish', con, 'unbuilt model', lambda: expect_flag(fresh, False, 'before build_model', con))


class Bare(object):
    pass


def unbuilt(c, name):
    t = Trained.__new__(Trained)
    h = t.h = c.h()
    t.I, t.name = h.I, name
    mod, cls, acls = MODELS[name]
    prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
    X = h.np('X', DIMS[:3])
    t.I.setattr(prov, 'full_tensor', Builtin('full_tensor', lambda I, a, kw: X))
    t.model = h.one(h.get(mod, cls), h.one(h.get('tensorD.factorization.env', 'Environment'), prov, '/tmp/summary'))
    return t


def failing(c, name, order, s):
    """every external failure inside a training that follows `k` completed trainings"""
    con = FILE[name]
    for k in (0, 1):
        inst = 'order %d, %d steps, failing training after %d completed' % (order, s, k)

        def go():
            t = Trained(name, DIMS[:order], ranks_of(name, order), s, h=H(model_exc=False), train=False, tol=0)
            for _ in range(k):
                t.h.only(t.train(s))
            t.I.model_exc = True
            outs = t.h.mouts(t.model, 'train', s)
            bad = [o for o in outs if o[0] == 'raise']
            if not bad:
                raise Undec('no failing exit found')
            for o in bad:
                expect_flag(t, False, 'after a training that failed with %s' % (o[2],), o[2].site or con, o[1])
            for o in outs:
                if o[0] == 'ok':
                    expect_flag(t, True, 'after a completed training', con, o[1])
            c.interps.append(t.h)
            return '%d failing exits' % len(bad)
        c.ob('train-finish-failure', con, inst, go)


# ------------------------------------------------------------------ isolation of models that share a process

def foreign(h, what):
    """things another part of the program may have put into the default graph"""
    I = h.I
    tf = lambda n, *a, **kw: h.one(Ext('tf.' + n), *a, **kw)
    if 'placeholder' in what:
        p = tf('placeholder', 'float32', shape=())
        tf('summary.scalar', 'foreign-input', p)
    if 'variable' in what:
        v = tf('Variable', h.tfd(D.tensor('F', [dim('M')]), 'float32'), name='A-0')
        w = tf('Variable', h.tfd(D.tensor('F2', [dim('M')]), 'float32'), name='foreign')
        tf('summary.scalar', 'foreign-value', tf('reduce_sum', w))
    if 'collection' in what:
        tf('summary.histogram', 'foreign-histogram', h.tfd(D.tensor('F3', [dim('M')]), 'float32'))


@rule('C22', 'Non-interference: the same abstract execution is repeated with foreign placeholders, variables and summaries in the default graph, with a '
             'second model of every kind built and trained between the steps, and with two models interleaved; every published result must denote the '
             'reference machine applied to that model\'s own data, on every path.')
def c22(c):
    for name in ALL:
        con = FILE[name]
        for o in (3, 2) if c.thorough else (3,):
            s = 1 if name == 'HOSVD' else 2
            for what in (('placeholder',), ('variable',), ('placeholder', 'variable', 'collection')):
                inst = 'order %d, foreign %s in the default graph' % (o, ' and '.join(what))

                def go():
                    h = c.h()
                    foreign(h, what)
                    t = Trained(name, DIMS[:o], ranks_of(name, o), s, h=h, tol=0)
                    h.only(t.outcomes)
                    return t
                t = attempt(c, 'foreign-graph', con, inst + ': train', go)
                if t is not None:
                    compare_with_machine(c, 'foreign-graph', t, con, inst, s)
                    c.ob('own-summaries', con, inst, lambda: content(t, name, con))
            others = ALL if c.thorough or o == 3 else ()
            for other in others:
                inst = 'order %d, with %s trained on other data' % (o, other)
                pair_of(c, name, other, con, inst, o, s)


def pair_of(c, name, other, con, inst, o, s):
    def both():
        h = c.h()
        a = Trained(name, DIMS[:o], ranks_of(name, o), s, h=h, tol=0, train=False)
        od = ['I', 'M', 'N']
        ork = 'W' if other in CPLIKE else ['U', 'V', 'W']
        b = Trained(other, od, ork, 1, h=h, tol=0, train=False, xname='Z')
        h.only(a.train(s))
        hist = a.hist
        first = {k: published(a, k) for k in PUB[name]}
        rows = P.merge(P.tree(a.I, hist))
        h.only(b.train(1))
        return a, b, first, hist, rows
    r = attempt(c, 'interleaved', con, inst + ': train', both)
    if r is None:
        return
    a, b, first, hist, rows = r

    def kept():
        settle(P.compare(P.merge(P.tree(a.I, hist)), rows, worlds(name)), 'history of %s after the other model was trained:' % name, con)
        for k in PUB[name]:
            settle(P.compare(published(a, k), first[k], worlds(name)), '%s of %s after the other model was trained:' % (k, name), con)
    c.ob('interleaved-kept', con, inst, kept)
    compare_with_machine(c, 'interleaved', a, con, inst, s)
    compare_with_machine(c, 'interleaved', b, FILE[other], inst + ' (the other model)', 1)
    if attempt(c, 'interleaved', con, inst + ': first model again', lambda: (a.h.only(a.train(s)), 1)) is not None:
        compare_with_machine(c, 'interleaved', a, con, inst + ', trained again', s)


# ------------------------------------------------------------------ resources

@rule('C29', 'Resource typestate over every exit of training (open, closed) for summary writers and files: each writer or file opened during a call must '
             'be closed when the call returns, nothing may be written to a closed one, and each is opened once per training.')
def c29_models(c):
    for name in ALL:
        con = FILE[name]
        for o in (2, 3):
            for s in ((1,) if name == 'HOSVD' else (1, 3)):
                inst = 'order %d, up to %d steps' % (o, s)
                t = attempt(c, 'writer-closed', con, inst + ': train', lambda: trained(c, name, o, s, 'sym'))
                if t is None:
                    continue
                c.ob('writer-closed', con, inst, lambda: resources_closed(t.I, t.log, con))
                c.ob('writer-open-when-written', con, inst, lambda: writes_open(t.I, t.log, con))
                mark = len(t.I.log)
                if attempt(c, 'writer-closed', con, inst + ': train again', lambda: (t.h.only(t.train(s)), 1)) is not None:
                    c.ob('writer-closed', con, inst + ', second training', lambda: resources_closed(t.I, t.I.log[mark:], con))
                    c.ob('writer-open-when-written', con, inst + ', second training', lambda: writes_open(t.I, t.I.log[mark:], con))


def resources_closed(I, log, con):
    """in the present state everything opened in this log is closed on every path"""
    n = 0
    for g, kind, data, site in log:
        if kind not in ('writer', 'open'):
            continue
        r = data[0]
        n += 1
        o = I.obj(r)
        left = still_open(I, o)
        left = bdd.consistent(bdd.AND(I.pg, g, left))
        if left != bdd.FALSE:
            if bdd.unsure(left):
                raise Undec('closing of the resource opened at %s hangs on an untracked condition' % (site,))
            raise Bad('the %s opened at %s is still open when the call returns%s' % (
                'summary writer' if kind == 'writer' else 'file', site, '' if left == bdd.TRUE else ' when ' + bdd.describe(left)[:200]), site)
    return '%d resources' % n


def still_open(I, o):
    if o.kind == 'alt':
        return bdd.OR(*[bdd.AND(g, still_open(I, x)) for g, x in o.data])
    return bdd.NOT(I.truth(o.data.get('closed', False)))


def writes_open(I, log, con):
    n = 0
    for g, kind, data, site in log:
        if kind != 'sumwrite':
            continue
        n += 1
        bad = bdd.consistent(bdd.AND(g, data[4]))
        if bad != bdd.FALSE and not bdd.unsure(bad):
            raise Bad('%s on a summary writer that is already closed%s' % (data[1], '' if bad == bdd.TRUE else ' when ' + bdd.describe(bad)[:200]), site)
    if not n:
        raise Bad('nothing is written to the summary writer', con)
    return '%d writes' % n


# ------------------------------------------------------------------ reporting

@rule('C30', 'Event guards: for every step the guard under which a summary record is written (and the step is printed) must equal the guard of reaching a '
             'step that has to be reported; the written scalars must denote the values recorded in the history at that step, and go to the given directory.')
def c30(c):
    for name in ALL:
        con = FILE[name]
        for o in (3, 2) if c.thorough else (3,):
            confs = [('defaults', None, None), ('verbose', None, True), ('every 2', 2, None), ('every 3', 3, False), ('every 1', 1, False)]
            if name == 'HOSVD':
                confs = confs[:1]
            for label, vi, vb in confs:
                for s in ((1,) if name == 'HOSVD' else (1, 2, 5) if not c.thorough else (1, 2, 3, 4, 5, 6, 7)):
                    for tol in (0, 'sym'):
                        if tol == 'sym' and (s > 3 and not c.thorough or name == 'HOSVD'):
                            continue
                        inst = 'order %d, %d steps, tol %s, %s' % (o, s, tol, label)
                        t = attempt(c, 'report-schedule', con, inst + ': train',
                                    lambda: trained(c, name, o, s, tol, validation=vi, verbose=vb))
                        if t is None:
                            continue
                        c.ob('report-schedule', con, inst, lambda: schedule(t, name, con, s, -1 if vi is None else vi, bool(vb)))
                        c.ob('report-content', con, inst, lambda: content(t, name, con))
    from . import pitf_rules as PR
    for s in (1, 2, 3, 5) + ((4, 6, 7) if c.thorough else ()):
        for vi in (None, -1, 1, 2, 3):
            inst = '%d steps, validation_internal %s' % (s, vi)
            t = attempt(c, 'report-schedule', PR.TFC, inst + ': train', lambda: PR.Pitf(c, 'tf', 1, s, vi=vi))
            if t is not None:
                c.ob('report-schedule', PR.TFC, inst, lambda: PR.reported(t, vi))


def int_of(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v
    if isinstance(v, SVal):
        return v.poly.as_int()
    return None


def reach_guards(t, name, s):
    """step -> guard of carrying it out"""
    if name == 'HOSVD':
        return {1: bdd.TRUE}
    out = {k: bdd.FALSE for k in range(1, s + 1)}
    for g, rows in published(t, 'hist'):
        if not isinstance(rows, tuple):
            raise Undec('history not tracked')
        for k in range(1, min(len(rows), s) + 1):
            out[k] = bdd.OR(out[k], g)
    return out


def escaped(log):
    for g, kind, data, site in log:
        if kind == 'escaped' and g != bdd.FALSE:
            raise Undec('a resource is handed to code the analysis does not model at %s' % (site,))


def schedule(t, name, con, s, vi, verbose):
    reach = reach_guards(t, name, s)
    escaped(t.log)
    want = {k: (g if k == 1 or k == s or verbose or vi != -1 and k % vi == 0 else bdd.FALSE) for k, g in reach.items()}
    got = {}
    n = 0
    for g, kind, data, site in t.log:
        if kind != 'sumwrite' or data[1] != 'add_summary':
            continue
        k = int_of(t.I.simp(data[3]))
        if k is None:
            if t.I.simp(data[3]) is None:
                raise Bad('a summary record without a step number', site)
            raise Undec('step number of a summary record not tracked: %s' % (data[3],))
        if k not in want:
            raise Bad('a summary record for step %d of a training of %d steps' % (k, s), site)
        if bdd.consistent(bdd.AND(got.get(k, bdd.FALSE), g)) != bdd.FALSE:
            raise Bad('step %d is recorded twice' % k, site)
        got[k] = bdd.OR(got.get(k, bdd.FALSE), g)
        n += 1
    for k in want:
        x = bdd.consistent(bdd.XOR(want[k], got.get(k, bdd.FALSE)))
        if x != bdd.FALSE:
            if any(bdd.ATOMS[v].opaque for v in bdd.support(x)):
                raise Undec('reporting of step %d hangs on an untracked condition' % k)
            raise Bad('step %d is %s%s (steps %d, validation_internal %d, verbose %s)' % (
                k, 'not recorded although it has to be' if bdd.consistent(bdd.AND(want[k], bdd.NOT(got.get(k, bdd.FALSE)))) != bdd.FALSE else 'recorded although it must not be',
                '' if x == bdd.TRUE else ' when ' + bdd.describe(x)[:160], s, vi, verbose), con)
    for g, kind, data, site in t.log:
        if kind == 'writer':
            p = t.I.simp(data[1])
            if p != '/tmp/summary':
                raise Bad('the summary is written to %r, not to the directory of the environment' % (p,), site)
    return '%d records' % n


def content(t, name, con, log=None):
    hist = None if name == 'HOSVD' else published(t, 'hist')
    n = 0
    for g, kind, data, site in (t.log if log is None else log):
        if kind != 'sumwrite' or data[1] != 'add_summary':
            continue
        k = int_of(t.I.simp(data[3]))
        if k is None:
            raise Undec('step number of a summary record not tracked')
        v = data[2]
        for gm, msg in (t.I.alts(v) if isinstance(v, GVal) else [(bdd.TRUE, v)]):
            gg = bdd.consistent(bdd.AND(g, gm))
            if gg != bdd.FALSE:
                n += one_record(t, name, hist, gg, msg, k, site)
    return '%d values' % n


def one_record(t, name, hist, g, msg, k, site):
    vals = t.I.summaries.get(tuple(msg.tag[1:])) if isinstance(msg, StrV) and isinstance(msg.tag, tuple) else None
    if vals is None:
        raise Undec('summary message not tracked: %s' % str(msg)[:100])
    if not vals:
        raise Bad('an empty summary record', site)
    tags = {}
    for tag, d in vals:
        if not isinstance(tag, str):
            raise Undec('summary tag not tracked')
        if tag.startswith('foreign'):
            raise Bad('the summary record of step %d contains %r, which does not belong to the model' % (k, tag), site)
        if tag in tags:
            raise Bad('two values with the tag %r in one summary record' % tag, site)
        tags[tag] = d
    if name == 'HOSVD':
        want = {'loss': [(h, D.scalar(S.rmse_ignore_zero(t.X, P.expand(f)))) for h, f in published(t, 'full')]}
    else:
        sel = [(h, rows[k - 1]) for h, rows in hist if isinstance(rows, tuple) and len(rows) >= k]
        want = {'loss': [(h, P.expand(r[0])) for h, r in sel], 'relative_residual': [(h, P.expand(r[1])) for h, r in sel]}
    n = 0
    for tag, w in want.items():
        if tag not in tags:
            raise Bad('the summary record of step %d has no value %r' % (k, tag), site)
        d = tags[tag]
        if d is None:
            raise Undec('summary value %r not tracked' % tag)
        w = [(bdd.AND(g, h), x) for h, x in w if bdd.consistent(bdd.AND(g, h)) != bdd.FALSE]
        settle(P.compare([(g, P.expand(d))], w, worlds(name)), 'summary value %r at step %d:' % (tag, k), site)
        n += 1
    return n
