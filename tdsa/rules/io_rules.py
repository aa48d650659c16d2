"""Data input (dataproc/), environment (factorization/env.py), contracts of the base classes, synthetic data and the scripts."""
import ast
import itertools
import os
import random
from . import rule
from ..alg import *
from .. import alg, bdd
from .. import den as D
from .. import spec as S
from .. import paths as P
from .. import rinterp
from ..values import *
from ..check import Bad, Undec
from ..harness import H, size_val, NoResult, Raised, dim, AnchorMissing, ROOT
from .ops_rules import must_raise
from .factor_rules import settle, attempt, resources_closed
from .type_rules import unchanged, content

READ = 'tensorD/dataproc/reader.py:TensorReader'


# ------------------------------------------------------------------ C23

class Data(object):
    """content of a data file: rows of (index tuple | None for a blank line); index entries are ints or symbols"""

    def __init__(self, name, rows, text='%d', symbolic=False):
        self.name, self.rows = name, rows
        self.symbolic = symbolic
        self.tag = name
        self.text = text
        self.order = len([r for r in rows if r][0])
        self.entries = [(k, r) for k, r in enumerate(rows) if r]

    def cells(self, I):
        out = []
        for k, r in enumerate(self.rows):
            if not r:
                out.append(I.list_([]))
                continue
            row = []
            for c, i in enumerate(r):
                row.append(StrV((), ('cell', self.tag, k, c)) if self.symbolic else self.text % i)
            row.append(StrV((), ('cell', self.tag, k, len(r))))
            out.append(I.list_(row))
        return out

    def index(self, k, c):
        return sym('int%s' % ((self.tag, k, c),), 'ni') if self.symbolic else const(self.rows[k][c])

    def value(self, k):
        return sym('float%s' % ((self.tag, k, self.order),), '')

    def indices(self):
        return table([[self.index(k, c) for c in range(self.order)] for k, r in self.entries])

    def values(self):
        return vector([self.value(k) for k, r in self.entries])

    def shape(self):
        return [add(alg.maxn([self.index(k, c) for k, r in self.entries]) if self.symbolic else const(max(r[c] for _, r in self.entries)), ONE)
                for c in range(self.order)]

    def dense(self, shape):
        def el(*ix):
            tot = ZERO
            for k, r in self.entries:
                cond = ONE
                for c, i in enumerate(ix):
                    cond = mul(cond, eq0(sub_(i, self.index(k, c))))
                tot = add(tot, mul(cond, self.value(k)))
            return tot
        return S.build(shape, el)


class Text(Data):
    """a data file given by its text"""

    def __init__(self, name, text, rows):
        Data.__init__(self, name, [r[:-1] for r in rows])
        self.lines = text.splitlines(True)
        self.vals = [Fraction(r[-1]) for r in rows]

    def value(self, k):
        return const(self.vals[k])

    def cells(self, I, kw=()):
        from ..lib_py import csv_parse
        return csv_parse(I, self.lines, kw)


def pick_row(i, vals):
    tot = ZERO
    for k, v in enumerate(vals):
        tot = add(tot, mul(eq0(sub_(i, const(k))), v)) if len(vals) > 1 else v
    return tot


def vector(vals):
    return S.build([len(vals)], lambda i: pick_row(i, vals))


def table(rows):
    return S.build([len(rows), len(rows[0])], lambda i, j: pick_row(i, [pick_row(j, r) for r in rows]))


def datasets(c):
    B = None
    out = [Data('one entry', [(0, 0, 0)]),
           Data('largest index in different rows', [(0, 3, 1), (2, 0, 0), (1, 1, 4)]),
           Data('falling order', [(3, 1), (2, 2), (0, 0), (0, 1)]),
           Data('blank lines', [B, (1, 0, 2), B, B, (0, 2, 0), B]),
           Data('order 1', [(4,), (0,), (2,)]),
           Data('order 4', [(1, 0, 2, 1), (0, 3, 0, 0), (1, 0, 0, 0)]),
           Data('padded cells', [(1, 2), (0, 5)], text=' %d'),
           Data('any indices, order 2', [(0, 0), (0, 0)], symbolic=True),
           Data('any indices, order 3', [(0, 0, 0), (0, 0, 0)], symbolic=True)]
    out += [Text('plain text', '0,1,2.5\n3,0,-1\n\n1,1,0\n', [(0, 1, '2.5'), (3, 0, '-1'), (1, 1, 0)]),
            Text('text, falling order, no final newline', '2,0,1,7\n0,2,0,.5\n0,1,1,1e2', [(2, 0, 1, 7), (0, 2, 0, '.5'), (0, 1, 1, 100)]),
            Text('text with spaces and tabs', ' 1, 0,\t3.25\n0 ,2, -1e-2 \n', [(1, 0, '3.25'), (0, 2, '-0.01')]),
            Text('text, two digits, equal values', '10,02,1\n9,11,1\n0,0,1\n', [(10, 2, 1), (9, 11, 1), (0, 0, 1)]),
            Text('quoted cells, \\r\\n', '"1","2","10.5"\r\n0,"0",-0.5\r\n\r\n', [(1, 2, '10.5'), (0, 0, '-0.5')]),
            Text('text with repeated rows', '0,1,2\n0,1,2\n1,0,3\n0,1,2\n', [(0, 1, 2), (0, 1, 2), (1, 0, 3), (0, 1, 2)]),
            Text('text with repeated values', '0,1,2\n2,1,2\n1,0,2\n', [(0, 1, 2), (2, 1, 2), (1, 0, 2)]),
            Text('text with zero values', '0,1,0\n2,1,-0.0\n1,3,0\n', [(0, 1, 0), (2, 1, 0), (1, 3, 0)]),
            Text('order 1 text', '3,1.5\n0,2\n1,-7\n', [(3, '1.5'), (0, 2), (1, -7)])]
    r = random.Random(7)
    for n in range(12 if c.thorough else 3):
        o = r.choice([1, 2, 3, 4, 5] if c.thorough else [2, 3, 4])
        dims = [r.randint(1, 5) for _ in range(o)]
        every = list(itertools.product(*[range(d) for d in dims]))
        rows = r.sample(every, min(len(every), r.randint(2, 8)))
        for _ in range(r.randint(0, 2)):
            rows.insert(r.randint(0, len(rows)), None)
        out.append(Data('sample %d' % n, rows))
    return out


def wl(seed, data, shape=None):
    """interpretations; symbolic indices get distinct positions inside the shape (anything else is not a valid file)"""
    def gen():
        for k in range(30):
            w = rinterp.World((seed, k), ('real', 'int')[k % 2])
            if data.symbolic:
                rr = random.Random('%s%s' % (seed, k))
                sizes = [rr.randint(2, 4) for _ in range(data.order)]
                for c, s in enumerate(sizes):
                    w.scal['n%d' % c] = s
                for (e, _), ix in zip(data.entries, rr.sample(list(itertools.product(*[range(s) for s in sizes])), len(data.entries))):
                    for cc, i in enumerate(ix):
                        w.scal['int%s' % ((data.tag, e, cc),)] = i
            yield w
    return gen


class Reading(object):
    def __init__(self, c, data, path='dir.x/data.csv', model_exc=False, **kw):
        self.h = h = c.h(model_exc=model_exc)
        self.I = h.I
        self.data = data
        self.I.hooks['csv_rows'] = self.rows
        if isinstance(data, Text):
            self.I.hooks['file_lines'] = lambda I, v: list(self.data.lines)
        self.path = path
        self.cls = h.get('tensorD.dataproc.reader', 'TensorReader')
        self.reader = h.one(self.cls, path)
        self.log0 = len(self.I.log)

    def rows(self, I, v):
        kw = I.obj(v).data.get('kw', ())
        if isinstance(self.data, Text):
            return self.data.cells(I, kw)
        if kw:
            raise Unsupported('csv reader with a dialect')
        return self.data.cells(I)

    def read(self, *a, **kw):
        h = self.h
        h.I.steps = 0
        return h.I.run(lambda: h.I.call(h.I.getattr(self.reader, 'read'), list(a), kw))


def val_den(t, v, what):
    d = t.h.den(v)
    if d is None:
        if v is None:
            raise Bad('%s is None after reading' % what, READ)
        raise Undec('%s not tracked: %s' % (what, str(v)[:100]))
    return d


def compare_den(t, v, want, what, seed, dtype=None):
    v = t.I.simp(v)
    d = val_den(t, v, what)
    settle(P.compare([(bdd.TRUE, d)], [(bdd.TRUE, want)], wl(seed, t.data)), what, getattr(v, 'site', None) or READ)
    if dtype is not None:
        dt = getattr(v, 'dtype', None)
        dt = str(getattr(dt, 'name', dt))
        if dt not in dtype:
            raise Bad('%s has dtype %s, expected %s' % (what, dt, dtype[0]), READ)


def read_result(c, t, data, shape, seed):
    h = t.h
    sp = h.attr(t.reader, 'sparse_data')
    if sp is None:
        raise Bad('sparse_data is None after reading', READ)
    if not (isinstance(sp, Ref) and t.I.obj(sp).info == 'sparse'):
        raise Undec('sparse_data not tracked: %s' % (sp,))
    o = t.I.obj(sp).data
    compare_den(t, o['indices'], data.indices(), 'the index table of sparse_data', seed, ('int64', 'int32'))
    compare_den(t, o['values'], data.values(), 'the values of sparse_data', seed, ('float64',))
    compare_den(t, o['dense_shape'], vector([to_poly(s) for s in shape]), 'the shape of sparse_data', seed)
    if len(set(r for _, r in data.entries)) < len(data.entries) and not data.symbolic:
        return '%d entries, some repeated' % len(data.entries)       # the dense value of a repeated index is not specified
    compare_den(t, h.attr(t.reader, 'full_data'), data.dense(shape), 'full_data', seed, ('float64',))
    return '%d entries' % len(data.entries)


def opened_right(t):
    n = 0
    for g, kind, d, site in t.I.log[t.log0:]:
        if kind != 'open':
            continue
        n += 1
        path, mode = t.I.simp(d[1]), t.I.simp(d[2])
        if path != t.path:
            raise Bad('opens %r instead of the given path %r' % (path, t.path), site)
        if not isinstance(mode, str):
            raise Undec('file mode not tracked')
        if set(mode) & set('wax+'):
            raise Bad('opens the data file with mode %r, which can change it' % mode, site)
    return '%d opened' % n


@rule('C23', 'Abstract interpretation of TensorReader over families of file contents (rows of symbolic index and value cells, blank rows, orders, given and '
             'inferred shapes): index table, values, shape and the dense scatter are compared with their definition; refused file types; re-reading.')
def c23(c):
    for data in datasets(c):
        for ext in ('csv', 'txt') if data.name in ('blank lines', 'order 4') else ('csv',):
            inst = '%s file, %s' % (ext, data.name)

            def plain():
                t = Reading(c, data, 'dir.x/data.' + ext)
                t.h.only(t.read())
                opened_right(t)
                return read_result(c, t, data, data.shape(), inst)
            c.ob('inferred-shape', READ + '.read', inst, plain)
        forms = [('list', lambda h, s: h.lst(*s)), ('tuple', lambda h, s: tuple(s))]
        for fname, mk in forms:
            def given():
                t = Reading(c, data)
                if data.symbolic:
                    shape = [sym('n%d' % k, 'ip') for k in range(data.order)]
                    arg = mk(t.h, [SVal(s, 'int') for s in shape])
                else:
                    shape = [int(p.as_int()) + k for k, p in enumerate(data.shape(), 1)]
                    arg = mk(t.h, shape)
                refs = [('full_shape', arg)] if isinstance(arg, Ref) else []
                before = [content(t.h, r) for _, r in refs]
                t.h.only(t.read(arg) if fname == 'list' else t.read(full_shape=arg))
                for (nm, r), b in zip(refs, before):
                    if str(content(t.h, r)) != str(b):
                        raise Bad('reading changes the given full_shape', READ + '.read')
                return read_result(c, t, data, shape, inst)
            c.ob('given-shape', READ + '.read', '%s, full_shape as %s' % (data.name, fname), given)
    for data in [d for d in datasets(c) if d.name in ('blank lines', 'order 4', 'plain text', 'falling order')]:
        for grow in (0, 1):
            def smaller():
                t = Reading(c, data)
                shape = [max(1, int(p.as_int()) - 1 + grow * k) for k, p in enumerate(data.shape())]
                outs = t.read(t.h.lst(*shape))
                for o in outs:
                    if o[0] != 'ok' or bdd.unsure(o[1].pg):
                        continue            # refusing such a shape would be no wrong answer
                    t.I.st = o[1]
                    sp = t.h.attr(t.reader, 'sparse_data')
                    if not (isinstance(sp, Ref) and t.I.obj(sp).info == 'sparse'):
                        raise Undec('sparse_data not tracked: %s' % (sp,))
                    compare_den(t, t.I.obj(sp).data['dense_shape'], vector([to_poly(x) for x in shape]), 'the shape of sparse_data', data.name)
                return '%d outcomes' % len(outs)
            c.ob('given-shape', READ + '.read', '%s, a given shape smaller than the data (%d)' % (data.name, grow), smaller)
    two = [d for d in datasets(c) if d.name in ('blank lines', 'order 4', 'falling order', 'order 1')]
    for a, b in itertools.permutations(two, 2):
        def again():
            t = Reading(c, a)
            t.h.only(t.read())
            t.data = b
            t.h.only(t.read())
            return read_result(c, t, b, b.shape(), (a.name, b.name))
        c.ob('read-again', READ + '.read', 'the file holds "%s", then "%s"' % (a.name, b.name), again)

        def forget_shape():
            t = Reading(c, a)
            shape = [p.as_int() + 2 for p in a.shape()]
            t.h.only(t.read(t.h.lst(*shape)))
            t.data = b
            t.h.only(t.read())
            return read_result(c, t, b, b.shape(), (a.name, b.name))
        c.ob('read-again', READ + '.read', '"%s" with a given shape, then "%s" without' % (a.name, b.name), forget_shape)

        def others():
            t = Reading(c, a)
            t.h.only(t.read())
            first = t.reader
            t.reader = t.h.one(t.cls, 'other.csv')
            t.data = b
            t.h.only(t.read())
            read_result(c, t, b, b.shape(), (a.name, b.name))
            t.reader, t.data = first, a
            return read_result(c, t, a, a.shape(), (a.name, b.name))
        c.ob('two-readers', READ, '"%s" and "%s"' % (a.name, b.name), others)
    for label, text in (('a row of one cell', '0,1,2.5\n3\n1,1,4\n'), ('a first row of text', 'i,j,value\n1,1,4\n'), ('an index that is no number', '0,1,2.5\n0,x,1\n'),
                        ('an index that is no integer', '0,1,2.5\n0,1.5,1\n'), ('a value that is no number', '0,1,2.5\n1,1,none\n'), ('an empty cell', '0,1,2.5\n1,,3\n'),
                        ('an empty value', '0,1,2.5\n1,0,\n'), ('a row of spaces', '0,1,2.5\n  \n1,0,1\n'), ('a comment row', '0,1,2.5\n# x\n1,0,1\n'), ('no rows', '')):
        def malformed():
            t = Reading(c, Text(label, text, [(0, 1, 1)]))
            outs = t.read()
            if any(o[0] == 'ok' and not bdd.unsure(o[1].pg) for o in outs):
                raise Bad('a file with %s is read without an error' % label, READ + '.read')
            if not outs or any(o[0] == 'ok' for o in outs):
                raise Undec('no definite outcome')
        c.ob('malformed-content', READ + '.read', label, malformed)
    for ext in ('dat', 'CSV', 'csv.gz', 'json', 'csv.bak', 'tsv', '', 'cs', 'tx', 't', 'v', 'csvx', 'xcsv', 'txt~', 'Txt', 'csv '):
        def refused():
            t = Reading(c, two[0], 'dir.csv/data' + ('.' + ext if ext else ''))
            outs = t.read()
            for o in outs:
                if o[0] == 'ok':
                    raise Bad('a file of type %r is accepted' % ext, READ + '.read')
                if not bdd.unsure(o[1].pg) and not o[2].may and str(getattr(o[2].cls, 'name', '')).split('.')[-1] != 'ArgumentError':
                    raise Bad('a file of type %r is refused with %s, specified ArgumentError' % (ext, o[2]), READ + '.read')
            if not outs:
                raise Undec('no outcome')
            t.I.st = outs[0][1]
            for nm in ('sparse_data', 'full_data'):
                if t.I.simp(t.h.attr(t.reader, nm)) is not None:
                    raise Bad('%s is set although the file was refused' % nm, READ + '.read')
        c.ob('refused-type', READ + '.read', 'extension %r' % ext, refused)

    def unread():
        t = Reading(c, two[0])
        for nm in ('sparse_data', 'full_data'):
            if t.I.simp(t.h.attr(t.reader, nm)) is not None:
                raise Bad('%s is set before anything was read' % nm, READ)
        if any(k == 'open' for g, k, d, s in t.I.log):
            raise Bad('the file is opened before it is read', READ)
    c.ob('unread', READ, 'fresh reader', unread)



# ------------------------------------------------------------------ C29 (files)

@rule('C29', 'Resource typestate over every exit of training (open, closed) for summary writers and files: each writer or file opened during a call must '
             'be closed when the call returns, nothing may be written to a closed one, and each is opened once per training.')
def c29_reader(c):
    bad = Data('bad', [(0, 1), (1, 0)])
    for label, data, path in (('valid content', bad, 'a.csv'), ('symbolic cells, any cell may be malformed', Data('sy', [(0, 1), (1, 0)], symbolic=True), 'a.csv'),
                              ('refused type', bad, 'a.dat'), ('empty file', None, 'a.csv'), ('text', bad, 'a.txt')):
        def closed():
            t = Reading(c, data, path, model_exc=True)
            if data is None:
                t.I.hooks['csv_rows'] = lambda I, v: []
            outs = t.read()
            n = 0
            for o in outs:
                t.I.st = o[1]
                how = 'returns' if o[0] == 'ok' else 'raises %s at %s' % (o[2].name, o[2].site)
                for g, kind, d, site in t.I.log[t.log0:]:
                    if kind != 'open':
                        continue
                    if d[0].id not in t.I.st.heap:
                        continue            # opening failed on this exit
                    left = bdd.consistent(bdd.AND(o[1].pg, g, bdd.NOT(t.I.truth(t.I.obj(d[0]).data.get('closed', False)))))
                    if left == bdd.FALSE:
                        continue
                    if bdd.unsure(left):
                        raise Undec('closing of the file hangs on an untracked condition')
                    raise Bad('the data file opened at %s is still open when reading %s' % (site, how), site)
                n += 1
            if not n:
                raise Undec('no outcome')
            return '%d exits' % n
        c.ob('file-closed', READ + '.read', label, closed)


# ------------------------------------------------------------------ C27

ENV = 'tensorD/factorization/env.py:Environment'
PROV = 'tensorD/dataproc/provider.py:Provider'
BASE = 'tensorD/factorization/factorization.py:BaseFact'
ARGS = {        # class -> (module, owner, required, defaults)
    'CP_Args': ('cp', 'CP_ALS', ['rank'], {'validation_internal': -1, 'verbose': False, 'tol': '1/10000'}),
    'NCP_Args': ('ncp', 'NCP_BCU', ['rank'], {'validation_internal': -1, 'verbose': False, 'tol': '1/10000'}),
    'NTUCKER_Args': ('ntucker', 'NTUCKER_BCU', ['ranks'], {'validation_internal': -1, 'verbose': False, 'tol': '1/10000'}),
    'HOSVD_Args': ('tucker', 'HOSVD', ['ranks'], {}),
    'HOOI_Args': ('tucker', 'HOOI', ['ranks'], {'validation_internal': -1, 'verbose': False, 'tol': '1/10000'}),
    'PITF_Args': ('pitf', 'PITF', ['rank', 'delt', 'tao', 'sample_num'], {'validation_internal': -1, 'verbose': False}),
    'PITF_np_Args': ('pitf_numpy', 'PITF_np', ['rank', 'delt', 'tao', 'sample_num'], {'validation_internal': -1, 'verbose': False, 'steps': 1000}),
}
IMPL = {'CP_ALS': 'cp', 'NCP_BCU': 'ncp', 'NTUCKER_BCU': 'ntucker', 'HOSVD': 'tucker', 'HOOI': 'tucker', 'PITF': 'pitf', 'PITF_np': 'pitf_numpy'}


def raises_not_implemented(h, call, what, con):
    outs = h.I.run(call)
    for o in outs:
        if o[0] == 'ok':
            raise Bad('%s returns instead of raising NotImplementedError' % what, con)
        n = str(getattr(o[2].cls, 'name', '')).split('.')[-1]
        if n != 'NotImplementedError' and not bdd.unsure(o[1].pg):
            raise Bad('%s raises %s, specified NotImplementedError' % (what, o[2]), con)
    if not outs:
        raise Undec('no outcome')


def zero(p, q):
    return not alg.sub_(to_poly(p), to_poly(q)).terms


@rule('C27', 'Abstract interpretation of Environment, Provider, BaseFact and the argument classes: what is handed in is handed out, for symbolic data that changes '
             'between calls; every session access yields a new open session; unimplemented base methods raise NotImplementedError; every model overrides them.')
def c27(c):
    for label, mk in (('array', lambda h, n: h.np(n, ['I', 'J', 'K'])), ('graph tensor', lambda h, n: h.tf(n, [2, 3])), ('order 4 array', lambda h, n: h.np(n, [2, 1, 3, 2]))):
        def data():
            h = c.h()
            I = h.I
            prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
            env = h.one(h.get('tensorD.factorization.env', 'Environment'), prov, '/tmp/s')
            box = [mk(h, 'X')]
            I.setattr(prov, 'full_tensor', Builtin('full_tensor', lambda I, a, kw: box[0]))
            for k in range(4):
                if k == 2:
                    box[0] = mk(h, 'Y')
                got = I.simp(h.m(env, 'full_data'))
                if h.den(got) is None or not D.equal(h.den(got), h.den(box[0]))[0]:
                    raise Bad('full_data() is %s, the provider holds %s' % (D.clip(repr(h.den(got)), 100), D.clip(repr(h.den(box[0])), 100)), ENV + '.full_data')
                sh = h.m(env, 'full_shape')
                want = [v for v in h.den(box[0]).axes]
                dims = list(I.iterate(sh))
                polys = [x.d if isinstance(x, DimV) else to_poly(I.num(x)) for x in dims]
                sizes = [h.den(box[0]).size(k) for k in range(len(want))]
                if len(polys) != len(sizes) or any(not zero(p, q) for p, q in zip(polys, sizes)):
                    raise Bad('full_shape() is %s, the data has shape %s' % (polys, sizes), ENV + '.full_shape')
        c.ob('data-handed-through', ENV, label, data)

    def fresh_shape():
        h = c.h()
        I = h.I
        prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
        env = h.one(h.get('tensorD.factorization.env', 'Environment'), prov)
        box = [h.np('X', [2, 3])]
        I.setattr(prov, 'full_tensor', Builtin('full_tensor', lambda I, a, kw: box[0]))
        h.m(env, 'full_shape')
        box[0] = h.np('Y', [4, 5, 6])
        sh = [to_poly(I.num(x)).as_int() for x in I.iterate(h.m(env, 'full_shape'))]
        if sh != [4, 5, 6]:
            raise Bad('full_shape() is %s after the data changed to shape [4, 5, 6]' % sh, ENV + '.full_shape')
    c.ob('data-handed-through', ENV, 'shape after the data changed', fresh_shape)

    for path in ('/tmp/a', 'rel/x', None):
        def spath():
            h = c.h()
            prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
            E = h.get('tensorD.factorization.env', 'Environment')
            env = h.one(E, prov, path) if path == '/tmp/a' else h.one(E, prov, summary_path=path) if path else h.one(E, prov)
            other = h.one(E, prov, '/tmp/other')
            if h.I.simp(h.attr(env, 'summary_path')) != path:
                raise Bad('summary_path is %r, given %r' % (h.attr(env, 'summary_path'), path), ENV + '.summary_path')
            if h.I.simp(h.attr(other, 'summary_path')) != '/tmp/other':
                raise Bad('two environments share their summary path', ENV + '.summary_path')
        c.ob('path-handed-through', ENV, 'summary_path=%r' % path, spath)

    def queue():
        h = c.h()
        prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
        env = h.one(h.get('tensorD.factorization.env', 'Environment'), prov)
        x = h.np('Q', ['I'])
        seen = []
        h.I.setattr(prov, 'data_queue', Builtin('data_queue', lambda I, a, kw: seen.append((a, kw)) or x))
        if h.I.simp(h.m(env, 'data_queue')) is not x or not seen:
            raise Bad('data_queue() does not return the queue of the provider', ENV + '.data_queue')
        if seen[0][0] and seen[0][0][0] is not True or seen[0][1].get('shuffled', True) is not True:
            raise Bad('data_queue() asks the provider for an unshuffled queue', ENV + '.data_queue')
    c.ob('data-handed-through', ENV, 'data_queue', queue)

    def sessions():
        h = c.h()
        prov = h.one(h.get('tensorD.dataproc.provider', 'Provider'))
        env = h.one(h.get('tensorD.factorization.env', 'Environment'), prov)
        got = []
        for k in range(3):
            s = h.I.simp(h.attr(env, 'sess'))
            if not (isinstance(s, Ref) and h.I.obj(s).info == 'sess_obj'):
                raise Undec('session not tracked: %s' % (s,))
            if s in got:
                raise Bad('two accesses of sess give the same session', ENV + '.sess')
            if h.I.simp(h.I.obj(s).data.get('closed', False)) is not False:
                raise Bad('sess gives a closed session', ENV + '.sess')
            got.append(s)
    c.ob('new-session', ENV, 'three accesses', sessions)

    for nm, args in (('full_tensor', ()), ('data_queue', ()), ('data_queue', (False,))):
        c.ob('abstract-method', PROV, nm + str(args), lambda: (lambda h: (lambda p: raises_not_implemented(
            h, lambda: h.I.call(h.I.getattr(p, nm), list(args), {}), 'Provider.%s' % nm, PROV))(h.one(h.get('tensorD.dataproc.provider', 'Provider'))))(c.h()))
    c.ob('abstract-method', PROV, 'batch_size', lambda: (lambda h: (lambda p: raises_not_implemented(
        h, lambda: h.I.getattr(p, 'batch_size'), 'Provider.batch_size', PROV))(h.one(h.get('tensorD.dataproc.provider', 'Provider'))))(c.h()))
    for nm, args in (('build_model', (None,)), ('train', ()), ('train', (5,)), ('predict', (0, 1)), ('full', ())):
        c.ob('abstract-method', BASE, '%s%s' % (nm, args), lambda: (lambda h: (lambda p: raises_not_implemented(
            h, lambda: h.I.call(h.I.getattr(p, nm), list(args), {}), 'BaseFact.%s' % nm, BASE))(h.one(h.get('tensorD.factorization.factorization', 'BaseFact'))))(c.h()))

    for cls, (mod, owner, req, dflt) in sorted(ARGS.items()):
        con = 'tensorD/factorization/%s.py:%s.%s' % (mod, owner, cls)

        def make(h, n, extra, pos):
            A = h.get('tensorD.factorization.' + mod, owner, cls)
            vals = {}
            for r in req:
                vals[r] = h.lst(*[h.num('%s%d%d' % (r, n, k), 'ip') for k in range(3)]) if r == 'ranks' else h.num('%s%d' % (r, n), 'p')
            if extra:
                for k in dflt:
                    vals[k] = True if k == 'verbose' else h.num('%s%d' % (k, n), 'i' if k not in ('tol', 'delt', 'tao') else '')
            if pos:
                return h.one(A, *[vals[r] for r in req], **{k: v for k, v in vals.items() if k not in req}), vals
            return h.one(A, **vals), vals
        for extra in (False, True):
            for pos in (False, True):
                def kept():
                    h = c.h()
                    a, va = make(h, 1, extra, pos)
                    b, vb = make(h, 2, False, pos)
                    for o, vals, ex in ((a, va, extra), (b, vb, False)):
                        for k in list(req) + list(dflt):
                            got = h.I.simp(h.attr(o, k))
                            want = vals[k] if k in vals else dflt[k]
                            if isinstance(want, str):
                                want = Fraction(want)
                            if isinstance(want, (int, Fraction)) and not isinstance(want, bool):
                                p = h.I.num(got) if not isinstance(got, (Ref, Opq)) else None
                                p = to_poly(p) if p is not None else None
                                if p is None or not zero(p, const(want)):
                                    raise Bad('%s of the arguments is %s by default, specified %s' % (k, got, want), con)
                            elif isinstance(want, Ref):
                                if got != want:
                                    x, y = [h.den(z) for z in (got, want)]
                                    items = h.items(got)
                                    wi = h.items(want)
                                    if len(items) != len(wi) or any(not zero(to_poly(h.I.num(p)), to_poly(h.I.num(q))) for p, q in zip(items, wi)):
                                        raise Bad('%s of the arguments differs from what was given' % k, con)
                            elif isinstance(want, SVal):
                                if not isinstance(got, SVal) or not zero(got.poly, want.poly):
                                    raise Bad('%s of the arguments is %s, given %s' % (k, got, want), con)
                            elif got is not want:
                                raise Bad('%s of the arguments is %s, specified %s' % (k, got, want), con)
                c.ob('arguments-kept', con, '%s%s' % ('all given' if extra else 'defaults', ', positional' if pos else ''), kept)
        def exact():
            n = 0
            for num in (0, 1, 3, Fraction(-1, 2), Fraction(1, 10 ** 9), Fraction(10 ** 6)):
                for vb in (True, False):
                    for vi in (-1, 0, 1, 7):
                        h = c.h()
                        A = h.get('tensorD.factorization.' + mod, owner, cls)
                        vals = {r: h.lst(2, 5, 1) if r == 'ranks' else num if r not in ('rank', 'steps', 'sample_num') else abs(int(num)) for r in req}
                        for k in dflt:
                            vals[k] = {'verbose': vb, 'validation_internal': vi}.get(k, num if k not in ('rank', 'steps', 'sample_num') else abs(int(num)))
                        o = h.one(A, **vals)
                        for k, want in vals.items():
                            got = h.I.simp(h.attr(o, k))
                            if k == 'ranks':
                                w = [2, 5, 1]
                                g = [to_poly(h.I.num(x)).as_int() for x in h.items(got)]
                            elif isinstance(want, bool):
                                w, g = want, got if isinstance(got, bool) else const_of(h, got)
                            else:
                                w, g = Fraction(want), const_of(h, got)
                            if g is None:
                                raise Undec('%s not tracked: %s' % (k, got))
                            if g != w:
                                raise Bad('%s of the arguments is %s, given %s (verbose %s, validation_internal %s, numbers %s)' % (k, g, w, vb, vi, num), con)
                            n += 1
            return '%d values' % n
        c.ob('arguments-kept', con, 'combinations of concrete values', exact)
    for cls, mod in sorted(IMPL.items()):
        def overrides():
            h = c.h()
            C = h.get('tensorD.factorization.' + mod, cls)
            B = h.get('tensorD.factorization.factorization', 'BaseFact')
            for nm in ('build_model', 'train', 'predict', 'full'):
                if nm in ('build_model', 'train', 'predict') and cls == 'PITF_np' or nm == 'predict' and cls == 'PITF':
                    continue        # not offered by these methods
                f, g = h.I.find_method(C, nm), h.I.find_method(B, nm)
                if f is None:
                    raise Bad('%s has no %s' % (cls, nm), cls)
                if f is g:
                    raise Bad('%s does not implement %s' % (cls, nm), cls)
        c.ob('implemented', 'tensorD/factorization/%s.py:%s' % (mod, cls), 'BaseFact methods', overrides)


def const_of(h, v):
    if isinstance(v, (Ref, Opq, GVal)) or v is None:
        return None
    p = h.I.num(v)
    return None if p is None else to_poly(p).const()


# ------------------------------------------------------------------ C28

GEN = 'tensorD/demo/DataGenerator.py:'


def draws_of(d, kind):
    return sorted([b for b in P.deep_bases(d).values() if b.kind in ('rand', 'rnd', 'rndrun') and b.name.startswith(kind)],
                  key=lambda b: alg._KR[b.key][-1] if isinstance(alg._KR[b.key][-1], int) else b.key)


@rule('C28', 'Abstract interpretation of the synthetic data generators: the result is compared, entry by entry with symbolic sizes and ranks, with the '
             'reconstruction from separately drawn uniform factors plus the clipped scaled normal noise.')
def c28(c):
    confs = []
    for o in (1, 2, 3, 4) if c.thorough else (2, 3):
        confs += [('distinct', list('IJKL'[:o])), ('concrete', [2, 3, 4, 5][:o]), ('equal', ['I'] * o)]
    confs += [('ranks %d' % k, [2, 3, 2]) for k in (1, 4, 5)]
    for label, sizes in confs:
        for noise in ('default', 'symbolic', 'zero', 'any sign', 'negative'):
            if label in ('ranks 1', 'ranks 4', 'ranks 5') and noise not in ('default', 'zero'):
                continue
            for fn in ('synthetic_data_cp', 'synthetic_data_tucker'):
                o = len(sizes)

                def gen():
                    h = c.h()
                    I = h.I
                    ranks = ['R'] if fn == 'synthetic_data_cp' else (['P', 'Q', 'R', 'S'][:o] if label != 'concrete' else [3, 2, 2, 2][:o])
                    if label.startswith('ranks'):
                        k = int(label.split()[1])
                        ranks = [k] if fn == 'synthetic_data_cp' else [k, 2, k, 1][:o]
                    N = h.lst(*[size_val(s) for s in sizes])
                    rk = size_val(ranks[0]) if fn == 'synthetic_data_cp' else h.lst(*[size_val(r) for r in ranks])
                    refs = [('N_list', N)] + ([('Ranks', rk)] if isinstance(rk, Ref) else [])
                    before = [str(content(h, r)) for _, r in refs]
                    kw = {} if noise == 'default' else {'max_noise': level(h, noise)}
                    v = h.one(h.get('tensorD.demo.DataGenerator', fn), N, rk, **kw)
                    for (nm, r), b in zip(refs, before):
                        if str(content(h, r)) != b:
                            raise Bad('%s is changed' % nm, GEN + fn)
                    d = h.den(v)
                    if d is None:
                        raise Undec('result not tracked: %s' % (v,))
                    eps = {'default': const(Fraction('1/10') if fn == 'synthetic_data_cp' else Fraction('1/25')), 'symbolic': sym('s', 'p'), 'any sign': sym('s'), 'negative': const(Fraction(-1, 2)), 'zero': ZERO}[noise]
                    uni, nrm = draws_of(d, 'rand'), []
                    nrm = [b for b in uni if b.name.startswith('randn')]
                    uni = [b for b in uni if not b.name.startswith('randn')]
                    want = 'no draw of the right shapes'
                    for w in specs(d, sizes, ranks, fn, uni, nrm, eps):
                        if D.equal(d, w)[0]:
                            return 'value numbers'
                        want = w
                    if isinstance(want, str):
                        raise Bad('%s: draws %s' % (want, [(b.name, b.shape) for b in uni + nrm]), GEN + fn)
                    last = None
                    for w in specs(d, sizes, ranks, fn, uni, nrm, eps):
                        last = P.compare([(bdd.TRUE, d)], [(bdd.TRUE, w)], gen_worlds((label, fn)))
                        if last[0] == 'equal':
                            return last[1]
                    settle(last, 'the synthetic tensor', GEN + fn)
                c.ob('synthetic-data', GEN + fn, 'sizes %s, noise %s' % (label, noise), gen)


def level(h, noise):
    return {'symbolic': lambda: h.num('s', 'p'), 'any sign': lambda: h.num('s'), 'negative': lambda: SVal(const(Fraction(-1, 2)), 'float'), 'zero': lambda: 0}[noise]()


def gen_worlds(seed):
    def gen():
        for k in range(12):
            yield rinterp.World((seed, k), ('real', 'int')[k % 2], {'I': 2, 'J': 3, 'K': 2, 'L': 2, 'P': 2, 'Q': 1, 'R': 2, 'S': 2})
    return gen


def specs(d, sizes, ranks, fn, uni, nrm, eps):
    def fits(b, sh):
        return b.shape is not None and len(b.shape) == len(sh) and all(zero(x, dim(y)) for x, y in zip(b.shape, sh))
    want = [(n, ranks[0] if fn == 'synthetic_data_cp' else ranks[k]) for k, n in enumerate(sizes)]
    if fn != 'synthetic_data_cp':
        want.append(tuple(ranks))
    noises = [b for b in nrm if fits(b, sizes)] or [None]
    cand = [[b for b in uni if fits(b, w)] for w in want]
    for combo in itertools.product(*cand):
        if len(set(b.key for b in combo)) != len(combo):
            continue
        for nb in noises:
            if nb is None and eps.terms:
                continue
            mats = [D.from_base(b, [dim(x) for x in w]) for b, w in zip(combo, want)]
            if fn == 'synthetic_data_cp':
                full = S.build(sizes, lambda *i: S.total([ranks[0]], lambda r: S.prodp([S.at(m, (x, r)) for m, x in zip(mats, i)])))
            else:
                full = S.build(sizes, lambda *i: S.total(ranks, lambda *r: mul(S.at(mats[-1], r), S.prodp([S.at(m, (x, y)) for m, x, y in zip(mats, i, r)]))))
            if nb is None:
                yield full
            else:
                ns = D.from_base(nb, [dim(x) for x in sizes])
                yield S.build(sizes, lambda *i: add(S.at(full, i), alg.relu(mul(eps, S.at(ns, i)))))


# ------------------------------------------------------------------ C31

def scripts():
    out = []
    for d in ('demo', 'ex'):
        base = os.path.join(ROOT, 'tensorD', d)
        if not os.path.isdir(base):
            continue
        for f in sorted(os.listdir(base)):
            if f.endswith('.py') and f != '__init__.py':
                try:
                    tree = ast.parse(open(os.path.join(base, f), encoding='utf-8').read())
                except (SyntaxError, OSError):
                    out.append((d, f[:-3]))
                    continue
                if any(isinstance(s, ast.If) and '__main__' in ast.dump(s.test) for s in tree.body):
                    out.append((d, f[:-3]))
    return out


@rule('C31', 'Abstract interpretation of every demo and experiment script as the main program (training cut to one step, file contents and command line '
             'symbolic or fixed): no call, attribute, import or keyword fails, each trains at least one model, every history row is written, every file is closed.')
def c31(c):
    found = scripts()
    if not found:
        raise AnchorMissing('no demo or experiment script')
    for d, name in found:
        con = 'tensorD/%s/%s.py' % (d, name)

        def works():
            from ..interp import ImportFailed
            h = c.h()
            I = h.I
            data = Data('file', [(0, 0, 0), (2, 1, 3), (1, 1, 0)])
            I.hooks['csv_rows'] = lambda I, v: data.cells(I)
            I.cut_terms = 16
            I.hooks['argv'] = lambda I: I.list_([name + '.py', '4', '3', '5', '2', '2', '1'])
            trained = []
            for cls, mod in IMPL.items():
                C = h.get('tensorD.factorization.' + mod, cls)
                f = I.find_method(C, 'train')
                if f is None or cls == 'PITF_np':
                    continue

                def short(I, a, kw, f=f, cls=cls):
                    vals, first = I.bind_args(f, list(a), dict(kw))
                    trained.append(cls)
                    if 'steps' in vals and isinstance(I.simp(vals['steps']), int):
                        a = [a[0]] + [1 if x == I.simp(vals['steps']) else x for x in a[1:]]
                        kw = {k: 1 if k == 'steps' else x for k, x in kw.items()}
                    return I.call(f, list(a), dict(kw))
                I.setattr(C, 'train', Builtin('method:train', short))
            I.main_module = 'tensorD.%s.%s' % (d, name)
            log0 = len(I.log)
            try:
                I.import_module(I.main_module)
            except ImportFailed as e:
                exc = I.handlers[0][-1] if I.handlers and I.handlers[0] else None
                if I.issues:
                    raise Undec('%s after an imprecise step (%s)' % (e, I.issues[0][1]))
                raise Bad('the script fails: %s' % (e,), exc[1].site if exc else con)
            if not trained:
                raise Bad('the script trains no model', con)
            log = I.log[log0:]
            files = [x for x in log if x[1] == 'open' and isinstance(I.simp(x[2][2]), str) and 'w' in I.simp(x[2][2])]
            rows = [x for x in log if x[1] == 'fwrite']
            if files and not rows:
                raise Bad('nothing is written to the result file', files[0][3])
            resources_closed(I, [x for x in log if x[1] == 'open'], con)
            return 'trains %s, %d result rows' % (', '.join(trained), len(rows))
        c.ob('script-runs', con, 'as main program', works)
