"""Python builtins and small parts of the standard library, as transfer functions."""
import math
import sys
import operator
from fractions import Fraction
from .values import *
from .alg import *
from . import alg, bdd
from . import den as D

AND, OR, NOT = bdd.AND, bdd.OR, bdd.NOT


# ------------------------------------------------------------------ numbers

def num_op(I, op, a, b):
    try:
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if b == 0:
                I.raise_('ZeroDivisionError', 'division by zero')
            return Fraction(a) / Fraction(b)
        if op == 'FloorDiv':
            if b == 0:
                I.raise_('ZeroDivisionError', 'division by zero')
            return a // b
        if op == 'Mod':
            if b == 0:
                I.raise_('ZeroDivisionError', 'modulo by zero')
            return a % b
        if op == 'Pow':
            if isinstance(b, (bool, int)) or b.denominator == 1:
                if b < 0:
                    if a == 0:
                        I.raise_('ZeroDivisionError', 'zero to a negative power')
                    return Fraction(a) ** int(b)
                return a ** int(b)
            return I.mknum(power(to_poly(a), Fraction(b)), 'float')
        return {'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
                'LShift': operator.lshift, 'RShift': operator.rshift}[op](a, b)
    except (TypeError, KeyError):
        I.raise_('TypeError', 'unsupported operand types for %s' % op)


def float_op(I, op, a, b):
    try:
        x, y = float(a), float(b)
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
             'Pow': lambda: x ** y}[op]()
        return r if r != r or r in (math.inf, -math.inf) else Fraction(repr(r))
    except (KeyError, ZeroDivisionError, OverflowError):
        return I.opq('float operation %s' % op)


def rdtype(op, a, b):
    def dt(v):
        if isinstance(v, bool) or isinstance(v, BVal):
            return 'int'
        if isinstance(v, int):
            return 'int'
        if isinstance(v, (Fraction, float)):
            return 'float'
        return v.dtype
    x, y = dt(a), dt(b)
    if op == 'Div':
        return 'float'
    return 'float' if 'float' in (x, y) else 'int'


def poly_op(I, op, x, y):
    if op == 'Add':
        return add(x, y)
    if op == 'Sub':
        return sub_(x, y)
    if op == 'Mult':
        return mul(x, y)
    if op == 'Div':
        return mul(x, power(y, -1))
    if op == 'FloorDiv':
        return func('floordiv', [x, y])
    if op == 'Mod':
        return func('mod', [x, y])
    if op == 'Pow':
        c = y.const()
        if c is not None:
            return power(x, c)
        return func('pow', [x, y])
    return None


def sym_op(I, op, a, b):
    x, y = to_poly(I.num(a)), to_poly(I.num(b))
    if op in ('Div', 'FloorDiv', 'Mod'):
        c = y.const()
        if c == 0:
            I.raise_('ZeroDivisionError', 'division by zero')
        if c is None and not is_positive(y) and not is_positive(-y):
            I.raise_if(bdd.of_poly(eq0(y)), 'ZeroDivisionError', 'division by zero')
    r = poly_op(I, op, x, y)
    if r is None:
        return I.opq('operator %s on symbolic numbers' % op)
    dt = rdtype(op, a, b)
    if op == 'Pow' and dt == 'int' and y.const() is not None and y.const() < 0:
        dt = 'float'
    return I.mknum(r, dt)


def str_op(I, op, a, b):
    if op == 'Mod':
        parts = []
        items = b if isinstance(b, tuple) else (b,)
        if isinstance(a, str):
            if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in items):
                try:
                    return a % tuple(items)
                except (TypeError, ValueError) as e:
                    I.raise_(type(e).__name__, str(e))
            n = count_specs(a)
            if n is not None and n != len(items):
                I.raise_('TypeError', 'wrong number of arguments for format string')
            for spec, x in zip(spec_list(a), items):
                if spec in 'dfgeiFGExXo':
                    chk_number(I, x)
        return StrV((a,) + tuple(items), tag=('mod', txt(I, a), tuple(txt(I, x) for x in items)))
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
            return StrV((a, b), tag=('cat', txt(I, a), txt(I, b)))
        if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
            return Opq('string concatenation with unknown', I.site())
        I.raise_('TypeError', 'can only concatenate str')
    if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
        return a * b
    return I.opq('string operator %s' % op)


def chk_number(I, x):
    x = I.simp(x)
    if x is None or isinstance(x, (str, StrV)):
        I.raise_('TypeError', 'a number is required for the format, not %r' % (x,))
    if I.lib_tf.is_tensor(x):
        I.raise_('TypeError', 'a number is required for the format, not a tensor')


def spec_list(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '%':
            j = i + 1
            while j < len(s) and s[j] in '0123456789.-+# *lh':
                j += 1
            if j < len(s):
                if s[j] != '%':
                    out.append(s[j])
                i = j
        i += 1
    return out


def count_specs(s):
    if '%(' in s or '*' in s:
        return None
    return len(spec_list(s))


def txt(I, x):
    """canonical description of a value used inside a formatted string"""
    if isinstance(x, SVal):
        return ('n', x.poly.key())
    if isinstance(x, StrV):
        return x.tag
    if isinstance(x, Ref):
        o = I.obj(x)
        if o.kind == 'ndarray':
            return ('nd', o.data[0].key())
        return ('obj', x.id)
    if isinstance(x, (str, int, Fraction, float, bool)) or x is None:
        return x
    if isinstance(x, tuple):
        return tuple(txt(I, y) for y in x)
    if isinstance(x, GVal):
        return ('g',) + tuple((g, txt(I, y)) for g, y in x.alts)
    if isinstance(x, BVal):
        return ('b', x.g)
    return repr(x)


def fmt_value(I, v, spec, conv):
    if isinstance(v, str) and spec == '':
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        try:
            return format(v, spec) if isinstance(spec, str) else StrV((v,), ('f', v))
        except ValueError as e:
            I.raise_('ValueError', str(e))
    if isinstance(spec, str) and spec and spec[-1] in 'dfge':
        chk_number(I, v)
    return StrV((v,), tag=('f', txt(I, v), spec if isinstance(spec, str) else None))


# ------------------------------------------------------------------ containers

def container_op(I, op, a, b):
    def kind(v):
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, Ref):
            return I.obj(v).kind
        if isinstance(v, ShapeV):
            return 'shape'
        return None
    ka, kb = kind(a), kind(b)
    if ka == 'alt' or kb == 'alt':
        r = a if ka == 'alt' else b
        return I.split_obj(r, lambda: container_op(I, op, a, b))
    if op == 'Add':
        if ka == 'list' and kb == 'list':
            return I.new('list', I.obj(a).data + I.obj(b).data, None, I.obj(a).info)
        if ka == 'tuple' and kb == 'tuple':
            return a + b
        if ka == 'shape':
            return ShapeV(None if a.dims is None else a.dims + tuple(dims_of(I, b)))
        if ka in ('list', 'tuple') and (kb in ('list', 'tuple') or I.is_num(b) or b is None):
            I.raise_('TypeError', 'can only concatenate %s (not %s) to %s' % (ka, kb or 'number', ka))
    if op == 'Mult':
        for x, y, k in ((a, b, ka), (b, a, kb)):
            if k in ('list', 'tuple') and isinstance(y, (int, bool)):
                if k == 'tuple':
                    return x * int(y)
                return I.list_(I.obj(x).data * int(y))
            if k in ('list', 'tuple') and isinstance(y, SVal):
                return I.opq('sequence repeated a symbolic number of times')
    if ka == 'set' and kb == 'set':
        x, y = I.obj(a).data, I.obj(b).data
        if op == 'Sub':
            return make_set(I, [v for v in x if definitely_in(I, v, y) is False])
        if op == 'BitOr':
            return make_set(I, list(x) + list(y))
        if op == 'BitAnd':
            return make_set(I, [v for v in x if definitely_in(I, v, y)])
        if op == 'BitXor':
            return make_set(I, [v for v in x if not definitely_in(I, v, y)] + [v for v in y if not definitely_in(I, v, x)])
    if ka == 'dict' and kb == 'dict' and op == 'BitOr':
        r = I.new('dict', I.obj(a).data)
        for k, v in I.obj(b).data:
            dict_set(I, r, k, v)
        return r
    return MISSING


def dims_of(I, v):
    v = I.simp(v)
    if isinstance(v, ShapeV):
        return list(v.dims)
    out = []
    for x in I.iterate(v):
        out.append(dim1(I, x))
    return out


def dim1(I, x):
    x = I.simp(x)
    if x is None:
        return None
    if isinstance(x, DimV):
        return x.d
    return to_poly(I.num(x))


def definitely_in(I, v, xs):
    for x in xs:
        c = I.truth(compare(I, 'Eq', v, x))
        if AND(I.pg, NOT(c)) == bdd.FALSE:
            return True
        if AND(I.pg, c) != bdd.FALSE:
            raise Unsupported('set membership of symbolic values')
    return False


def make_set(I, items):
    out = []
    for v in items:
        if not definitely_in(I, v, out):
            out.append(v)
    if all(isinstance(x, int) for x in out):
        out.sort()          # CPython iterates small-int sets in increasing order
    return I.new('set', tuple(out))


def dict_items(I, d):
    d = I.simp(d)
    if isinstance(d, Ref):
        o = I.obj(d)
        if o.kind == 'dict':
            return list(o.data)
    raise Unsupported('items of %r' % (d,))


def keyeq(I, a, b):
    if same(a, b):
        return True
    if isinstance(a, (SVal, BVal, GVal, StrV, Opq)) or isinstance(b, (SVal, BVal, GVal, StrV, Opq)):
        c = I.truth(I.compare('Eq', a, b))
        if AND(I.pg, c) == bdd.FALSE:
            return False
        if AND(I.pg, NOT(c)) == bdd.FALSE:
            return True
        raise Unsupported('symbolic dictionary key')
    if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
        return a == b
    return False


def dict_set(I, r, k, v):
    o = I.obj(r)
    if o.kind == 'alt':
        return I.split_obj(r, lambda: dict_set(I, r, k, v))
    if isinstance(k, Ref) and I.obj(k).kind in ('list', 'dict', 'set', 'ndarray'):
        I.raise_('TypeError', 'unhashable type')
    data = list(o.data)
    for i, (kk, _) in enumerate(data):
        if keyeq(I, kk, k):
            data[i] = (kk, v)
            break
    else:
        data.append((k, v))
    I.put(r, o.with_(tuple(data)))


def delitem(I, o, k):
    o = I.simp(o)
    if isinstance(o, Ref):
        h = I.obj(o)
        if h.kind == 'dict':
            data = [(a, b) for a, b in h.data if not keyeq(I, a, k)]
            if len(data) == len(h.data):
                I.raise_('KeyError', repr(k))
            I.put(o, h.with_(tuple(data)))
            return
        if h.kind == 'list':
            data = list(h.data)
            if isinstance(k, int):
                if not -len(data) <= k < len(data):
                    I.raise_('IndexError', 'list assignment index out of range')
                del data[k]
                I.put(o, h.with_(tuple(data)))
                return
            if isinstance(k, SliceV):
                del data[pyslice(I, k)]
                I.put(o, h.with_(tuple(data)))
                return
    raise Unsupported('del item')


def pyslice(I, s):
    def c(v):
        v = I.simp(v)
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, SVal) and v.poly.as_int() is not None:
            return v.poly.as_int()
        raise Unsupported('symbolic slice bound')
    return slice(c(s.start), c(s.stop), c(s.step))


def contains(I, cont, item):
    cont = I.simp(cont)
    if isinstance(cont, GVal):
        return I.plift(lambda c: contains(I, c, item), cont)
    if isinstance(cont, str):
        if isinstance(item, str):
            return item in cont
        return I.opq('substring test', 'bool')
    if isinstance(cont, RangeV):
        x = to_poly(I.num(item))
        lo = lt0(sub_(x, to_poly(I.num(cont.start))))
        hi = lt0(sub_(x, to_poly(I.num(cont.stop))))
        return I.boolval(AND(NOT(bdd.of_poly(lo)), bdd.of_poly(hi)))
    if isinstance(cont, Ref) and I.obj(cont).kind == 'dict':
        xs = [k for k, _ in I.obj(cont).data]
    elif isinstance(cont, Ref) and I.obj(cont).kind == 'list' and I.obj(cont).info:
        return I.opq('membership in a list of unknown length', 'bool')
    elif I.is_dunder(cont):
        f = I.find_method(I.obj(cont).cls, '__contains__')
        if f is not None:
            return I.call(BoundMethod(cont, f), [item], {})
        xs = I.iterate(cont)
    elif cont is None or I.is_num(cont):
        I.raise_('TypeError', "argument of type %r is not iterable" % (cont,))
    else:
        xs = I.iterate(cont)
    g = bdd.FALSE
    for x in xs:
        if isinstance(item, GVal) or isinstance(x, GVal):
            c = I.truth(I.compare('Eq', item, x))
        else:
            c = bdd.TRUE if same(item, x) else I.truth(I.compare('Eq', item, x))
        g = OR(g, c)
    return I.boolval(g)


CMP = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Eq': operator.eq, 'NotEq': operator.ne}


def cmp_poly(I, op, x, y):
    d = sub_(x, y)
    if op == 'Lt':
        return bdd.of_poly(lt0(d))
    if op == 'GtE':
        return NOT(bdd.of_poly(lt0(d)))
    if op == 'Gt':
        return bdd.of_poly(lt0(-d))
    if op == 'LtE':
        return NOT(bdd.of_poly(lt0(-d)))
    if op == 'Eq':
        return bdd.of_poly(eq0(d))
    return NOT(bdd.of_poly(eq0(d)))


def negate_if(I, op, r):
    if op == 'NotEq':
        return I.boolval(NOT(I.truth(r)))
    return r


def compare(I, op, a, b):
    a, b = I.simp(a), I.simp(b)
    if isinstance(a, GVal) or isinstance(b, GVal):
        return I.plift(lambda x, y: compare(I, op, x, y), a, b)
    N = (bool, int, Fraction, float)
    if isinstance(a, N) and isinstance(b, N):
        return CMP[op](a, b)
    if isinstance(a, str) and isinstance(b, str):
        return CMP[op](a, b)
    if I.is_dunder(a) or I.is_dunder(b):
        nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if I.is_dunder(a):
            f = I.find_method(I.obj(a).cls, nm)
            if f is not None:
                return I.call(BoundMethod(a, f), [b], {})
            if op == 'NotEq':
                f = I.find_method(I.obj(a).cls, '__eq__')
                if f is not None:
                    return I.boolval(NOT(I.truth(I.call(BoundMethod(a, f), [b], {}))))
        if op in ('Eq', 'NotEq'):
            return same(a, b) == (op == 'Eq')
    if I.lib_tf.is_tensor(a) or I.lib_tf.is_tensor(b):
        if op in ('Eq', 'NotEq'):
            # TF1 tensors compare by identity
            return (a is b) == (op == 'Eq')
        return I.lib_tf.compare(I, op, a, b)
    if I.lib_np.is_arr(I, a) or I.lib_np.is_arr(I, b):
        if a is None or b is None:
            if op in ('Eq', 'NotEq'):
                o = a if b is None else b
                d, dt = I.lib_np.den_of(I, o)
                return I.nd(D.Den(d.axes, ZERO if op == 'Eq' else ONE), 'bool')
            I.raise_('TypeError', 'comparison of array with None')
        return I.lib_np.compare(I, op, a, b)
    if isinstance(a, float) and I.is_num(b) or isinstance(b, float) and I.is_num(a):
        # infinities and NaN
        f = a if isinstance(a, float) else b
        if f != f:
            return op == 'NotEq'
        big = (f > 0) == (a is f)
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'
        return big == (op in ('Gt', 'GtE'))
    if I.is_num(a) and I.is_num(b):
        return I.boolval(cmp_poly(I, op, to_poly(I.num(a)), to_poly(I.num(b))))
    if isinstance(a, (Opq, MuVal)) or isinstance(b, (Opq, MuVal)):
        return Opq('comparison of unknown', I.site(), 'bool')
    if isinstance(a, DimV) or isinstance(b, DimV):
        x = a.d if isinstance(a, DimV) else (None if a is None else to_poly(I.num(a)))
        y = b.d if isinstance(b, DimV) else (None if b is None else to_poly(I.num(b)))
        if x is None or y is None:
            return I.opq('comparison of an unknown dimension')
        return I.boolval(cmp_poly(I, op, x, y))
    if isinstance(a, ShapeV) or isinstance(b, ShapeV):
        if op not in ('Eq', 'NotEq'):
            I.raise_('TypeError', 'shapes are not ordered')
        if a is None or b is None:
            return op == 'NotEq'
        try:
            x = a.dims if isinstance(a, ShapeV) else tuple(dims_of(I, a))
            y = b.dims if isinstance(b, ShapeV) else tuple(dims_of(I, b))
        except Unsupported:
            return op == 'NotEq'
        g = shape_eq(I, x, y)
        if g is None:
            return I.opq('comparison of unknown shapes', 'bool')
        return I.boolval(g if op == 'Eq' else NOT(g))
    if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Ref) or isinstance(b, Ref):
        return seq_compare(I, op, a, b)
    if op in ('Eq', 'NotEq'):
        if isinstance(a, StrV) or isinstance(b, StrV):
            if isinstance(a, StrV) and isinstance(b, StrV) and a.tag is not None and a.tag == b.tag:
                return op == 'Eq'
            if not isinstance(a, (str, StrV)) or not isinstance(b, (str, StrV)):
                return op == 'NotEq'
            ka, kb = sorted([repr(txt(I, a)), repr(txt(I, b))])
            g = bdd.atom(('streq', ka, kb), None, '%r == %r' % (a, b), False, 's')
            return I.boolval(g if op == 'Eq' else NOT(g))
        r = same(a, b)
        if not r and (isinstance(a, Ext) or isinstance(b, Ext)):
            x = b if isinstance(a, Ext) else a
            if isinstance(x, (str, int, float, Fraction)):
                return I.opq('comparison of %r and %r' % (a, b), 'bool')
        if isinstance(a, DType) or isinstance(b, DType):
            r = I.lib_np.dtype_eq(a, b)
        return r == (op == 'Eq')
    if isinstance(a, StrV) or isinstance(b, StrV):
        return I.opq('string ordering', 'bool')
    if isinstance(a, Ext) or isinstance(b, Ext):
        return I.opq('comparison of %r and %r' % (a, b), 'bool')
    I.raise_('TypeError', "'%s' not supported between %r and %r" % (op, a, b))


def shape_eq(I, x, y):
    if x is None or y is None:
        return None
    if len(x) != len(y):
        return bdd.FALSE
    g = bdd.TRUE
    for p, q in zip(x, y):
        if p is None and q is None:
            return None
        if p is None or q is None:
            return bdd.FALSE
        g = AND(g, bdd.of_poly(eq0(sub_(p, q))))
    return g


def seq_compare(I, op, a, b):
    def items(v):
        if isinstance(v, tuple):
            return 'tuple', v
        if isinstance(v, Ref):
            o = I.obj(v)
            if o.kind == 'list' and not o.info:
                return 'list', o.data
            if o.kind == 'set':
                return 'set', o.data
            if o.kind == 'dict':
                return 'dict', o.data
        return None, None
    if isinstance(a, Ref) and I.obj(a).kind == 'alt':
        return I.split_obj(a, lambda: seq_compare(I, op, a, b))
    if isinstance(b, Ref) and I.obj(b).kind == 'alt':
        return I.split_obj(b, lambda: seq_compare(I, op, a, b))
    ka, xa = items(a)
    kb, xb = items(b)
    if same(a, b):
        if op in ('Eq', 'LtE', 'GtE'):
            return True
    if ka is None or kb is None or ka != kb:
        if op in ('Eq', 'NotEq'):
            if isinstance(a, Ref) and I.obj(a).kind == 'list' or isinstance(b, Ref) and I.obj(b).kind == 'list':
                if (isinstance(a, Ref) and I.obj(a).info) or (isinstance(b, Ref) and I.obj(b).info):
                    return I.opq('comparison with a list of unknown content', 'bool')
            return op == 'NotEq'
        I.raise_('TypeError', 'unorderable values')
    if op in ('Eq', 'NotEq'):
        if ka == 'set':
            g = bdd.TRUE if len(xa) == len(xb) and all(definitely_in(I, x, xb) for x in xa) else bdd.FALSE
        elif ka == 'dict':
            g = bdd.FALSE
            if len(xa) == len(xb):
                g = bdd.TRUE
                for k, v in xa:
                    m = [w for kk, w in xb if keyeq(I, kk, k)]
                    g = AND(g, I.truth(I.compare('Eq', v, m[0]))) if m else bdd.FALSE
        elif len(xa) != len(xb):
            g = bdd.FALSE
        else:
            g = bdd.TRUE
            for x, y in zip(xa, xb):
                g = AND(g, I.truth(I.compare('Eq', x, y)))
        return I.boolval(g if op == 'Eq' else NOT(g))
    if ka in ('tuple', 'list'):
        # lexicographic order
        strict = 'Lt' if op in ('Lt', 'LtE') else 'Gt'
        g, eqg = bdd.FALSE, bdd.TRUE
        for x, y in zip(xa, xb):
            g = OR(g, AND(eqg, I.truth(I.compare(strict, x, y))))
            eqg = AND(eqg, I.truth(I.compare('Eq', x, y)))
        la, lb = len(xa), len(xb)
        if op == 'Lt':
            fin = la < lb
        elif op == 'LtE':
            fin = la <= lb
        elif op == 'Gt':
            fin = la > lb
        else:
            fin = la >= lb
        if fin:
            g = OR(g, eqg)
        return I.boolval(g)
    return I.opq('comparison of containers', 'bool')


# ------------------------------------------------------------------ iteration

def iterate(I, v):
    from .interp import SymIter
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, GenV):
        o = I.obj(v.ref)
        if o.kind == 'inst' and o.data.get('endless'):
            raise Unsupported('iteration over an endless iterator')
        lst = I.simp(o.data['list'])
        pos = o.data['pos']
        lo = I.obj(lst)
        if lo.kind == 'alt':
            raise Unsupported('iterator over alternatives')
        items = list(lo.data)[pos:]
        I.set_raw(v.ref, 'pos', len(lo.data))
        return items
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind in ('list', 'set'):
            if o.info and o.kind == 'list':
                raise Unsupported('iteration over a list of unknown length')
            return list(o.data)
        if o.kind == 'dict':
            return [k for k, _ in o.data]
        if o.kind == 'alt':
            raise Unsupported('iteration over alternative containers')
        if o.kind == 'inst' and o.info == 'csvreader':
            return csv_rows(I, v)
        if o.kind == 'inst' and o.info == 'file':
            rows = I.hooks.get('file_lines')
            if rows is not None and o.data.get('mode', 'r').startswith('r'):
                return [x for x in rows(I, v)]
            raise Unsupported('iteration over a file')
        if o.kind == 'inst' and isinstance(o.cls, ClassVal):
            f = I.find_method(o.cls, '__iter__')
            if f is not None:
                return I.iterate(I.call(BoundMethod(v, f), [], {}))
            g = I.find_method(o.cls, '__getitem__')
            if g is not None:
                raise Unsupported('iteration through __getitem__')
    if isinstance(v, ClassVal) and 'enum' in v.attrs:
        return enum_members(v)
    if I.lib_np.is_arr(I, v):
        d, dt = I.lib_np.den_of(I, v)
        if d.rank == 0:
            I.raise_('TypeError', 'iteration over a 0-d array')
        n = d.size(0).as_int()
        if n is None:
            raise Unsupported('iteration over an array of symbolic length')
        return [I.lib_np.getitem(I, v, i) for i in range(n)]
    if isinstance(v, RangeV):
        raise Unsupported('iteration over a symbolic range')
    if isinstance(v, SymIter):
        raise Unsupported('iteration of symbolic length')
    if isinstance(v, ShapeV):
        if v.dims is None:
            I.raise_('ValueError', 'iterating over an unknown shape')
        return [DimV(d) for d in v.dims]
    if I.lib_tf.is_tensor(v):
        I.raise_('TypeError', 'graph tensors are not iterable')
    if v is None or isinstance(v, (bool, int, Fraction, SVal, BVal, float, FuncVal, BoundMethod, Builtin, DType)):
        I.raise_('TypeError', '%r is not iterable' % (v,))
    raise Unsupported('iteration over %r' % (v,))


def csv_rows(I, v):
    f = I.obj(v).data.get('file')
    fo = I.obj(f) if isinstance(f, Ref) else None
    if fo is not None and fo.data.get('closed') is True:
        I.raise_('ValueError', 'I/O operation on closed file')
    I.may_raise('csv.Error', 'reading rows')
    I.log.append((I.pg, 'csvread', f, I.site()))
    pos = I.obj(v).data.get('pos', 0)
    items = csv_source(I, v)[pos:]
    I.set_raw(v, 'pos', pos + len(items))
    return items


def next_item(I, v, default=MISSING):
    v = I.simp(v)
    if isinstance(v, GenV):
        o = I.obj(v.ref)
        lst = I.obj(I.simp(o.data['list']))
        pos = o.data['pos']
        if lst.kind != 'list' or not isinstance(pos, int):
            raise Unsupported('next on alternatives')
        if pos >= len(lst.data):
            if default is not MISSING:
                return default
            I.raise_('StopIteration', '')
        I.set_raw(v.ref, 'pos', pos + 1)
        return lst.data[pos]
    if isinstance(v, Ref) and I.obj(v).info == 'csvreader':
        pos = I.obj(v).data.get('pos', 0)
        rs = csv_source(I, v)
        if pos >= len(rs):
            if default is not MISSING:
                return default
            I.raise_('StopIteration', '')
        I.set_raw(v, 'pos', pos + 1)
        return rs[pos]
    raise Unsupported('next of %r' % (v,))


def getitem(I, o, k):
    if isinstance(o, tuple) or isinstance(o, str) or (isinstance(o, Ref) and I.obj(o).kind == 'list'):
        items = I.obj(o).data if isinstance(o, Ref) else o
        prefix = I.obj(o).info if isinstance(o, Ref) else None
        if isinstance(k, SliceV):
            if prefix:
                raise Unsupported('slice of a list of unknown length')
            s = pyslice(I, k)
            if isinstance(o, Ref):
                return I.list_(items[s])
            return items[s]
        if isinstance(k, BVal):
            k = SVal(bdd.to_poly(k.g), 'int')
        if isinstance(k, DimV) and k.d is not None:
            k = I.mknum(k.d)
        if isinstance(k, (bool, int)):
            if prefix:
                if k < 0 and -k <= len(items):
                    return items[k]
                raise Unsupported('index into a list of unknown length')
            if not -len(items) <= k < len(items):
                I.raise_('IndexError', 'list index %d out of range (length %d)' % (k, len(items)))
            return items[k]
        if isinstance(k, SVal):
            c = k.poly.as_int()
            if c is not None:
                return getitem(I, o, c)
            if prefix or not items:
                raise Unsupported('symbolic index')
            # gated selection
            alts = []
            tot = bdd.FALSE
            for i, x in enumerate(items):
                g = bdd.of_poly(eq0(sub_(k.poly, const(i))))
                if AND(I.pg, g) != bdd.FALSE:
                    alts.append((g, x))
            if not alts:
                raise Unsupported('symbolic index')
            v = alts[0][1]
            gg = alts[0][0]
            for g, x in alts[1:]:
                v = merge_val(gg, v, g, x)
                gg = OR(gg, g)
            return v
        if isinstance(k, Opq) or isinstance(k, MuVal):
            return Opq('item at an unknown index', I.site())
        if isinstance(k, (Fraction, float, str, StrV, tuple)) or k is None:
            I.raise_('TypeError', 'indices must be integers')
        raise Unsupported('index %r' % (k,))
    if isinstance(o, Ref):
        h = I.obj(o)
        if h.kind == 'dict':
            for kk, v in h.data:
                if keyeq(I, kk, k):
                    return v
            if h.info is not None and h.info[0] == 'default':
                v = I.call(h.info[1], [], {})
                dict_set(I, o, k, v)
                return v
            I.raise_('KeyError', repr(k))
    if isinstance(o, ShapeV):
        if o.dims is None:
            I.raise_('ValueError', 'indexing an unknown shape')
        if isinstance(k, SliceV):
            return ShapeV(o.dims[pyslice(I, k)])
        k = I.num(k)
        if isinstance(k, Poly):
            k = k.as_int()
        if k is None:
            raise Unsupported('symbolic shape index')
        if not -len(o.dims) <= k < len(o.dims):
            I.raise_('IndexError', 'shape index out of range')
        return DimV(o.dims[k])
    if isinstance(o, RangeV):
        st, n = to_poly(I.num(o.start)), to_poly(I.num(k))
        return I.mknum(add(st, mul(n, to_poly(I.num(o.step)))))
    if o is None:
        I.raise_('TypeError', "'NoneType' object is not subscriptable")
    if isinstance(o, (bool, int, Fraction, float, SVal, FuncVal, BoundMethod)):
        I.raise_('TypeError', '%r is not subscriptable' % (o,))
    if isinstance(o, (Opq, MuVal)):
        return Opq('item of unknown', I.site())
    if isinstance(o, (BType, Ext, ClassVal)):
        return o          # generic aliases such as List[int]
    if isinstance(o, StrV):
        return I.opq('character of a formatted string')
    return I.opq('subscript of %r' % (o,))


def setitem(I, o, k, v):
    if isinstance(o, Ref):
        h = I.obj(o)
        if h.kind == 'dict':
            dict_set(I, o, k, v)
            return
        if h.kind == 'list':
            if h.info:
                if isinstance(k, int) and k < 0 and -k <= len(h.data):
                    data = list(h.data)
                    data[k] = v
                    I.put(o, h.with_(tuple(data)))
                    return
                raise Unsupported('store into a list of unknown length')
            data = list(h.data)
            if isinstance(k, SliceV):
                data[pyslice(I, k)] = I.iterate(v)
                I.put(o, h.with_(tuple(data)))
                return
            if isinstance(k, SVal) and k.poly.as_int() is not None:
                k = k.poly.as_int()
            if isinstance(k, (bool, int)):
                if not -len(data) <= k < len(data):
                    I.raise_('IndexError', 'list assignment index out of range')
                data[k] = v
                I.put(o, h.with_(tuple(data)))
                return
            if isinstance(k, SVal):
                for i in range(len(data)):
                    g = bdd.of_poly(eq0(sub_(k.poly, const(i))))
                    if AND(I.pg, g) != bdd.FALSE:
                        data[i] = merge_val(g, v, NOT(g), data[i])
                I.put(o, h.with_(tuple(data)))
                return
    if isinstance(o, (tuple, str)) or o is None or I.is_num(o) or isinstance(o, ShapeV):
        I.raise_('TypeError', 'object does not support item assignment')
    if isinstance(o, (Opq, MuVal)):
        I.issue('unknown', 'store into an unknown object')
        return
    raise Unsupported('store into %r' % (o,))


# ------------------------------------------------------------------ files

def new_file(I, path, mode):
    I.may_raise('OSError', 'open')
    r = I.new('inst', {'closed': False, 'path': path, 'mode': mode, 'opened_at': repr(I.site())}, None, 'file')
    I.log.append((I.pg, 'open', (r, path, mode), I.site()))
    return r


def context(I, cm):
    """(enter, exit) of a context manager value"""
    if isinstance(cm, Ref):
        o = I.obj(cm)
        if o.kind == 'inst' and o.info in ('file', 'writer', 'sess_obj'):
            def enter():
                return cm

            def exit_(exc):
                close_obj(I, cm)
            if o.info == 'sess_obj':
                def enter():
                    I.sess_stack.append(cm)
                    return cm

                def exit_(exc):
                    if I.sess_stack and I.sess_stack[-1] == cm:
                        I.sess_stack.pop()
                    close_obj(I, cm)
            return enter, exit_
        if o.kind == 'inst' and isinstance(o.info, tuple) and o.info[0] == 'ctx':
            return o.info[1], o.info[2]
        if o.kind == 'inst' and isinstance(o.cls, ClassVal):
            en = I.find_method(o.cls, '__enter__')
            ex = I.find_method(o.cls, '__exit__')
            if en is None or ex is None:
                I.raise_('AttributeError', '__enter__')

            def exit_(exc):
                if exc is None:
                    a = [None, None, None]
                else:
                    a = [exc.cls, exc, None]
                r = I.call(BoundMethod(cm, ex), a, {})
                g = I.truth(r)
                return AND(I.pg, NOT(g)) == bdd.FALSE
            return (lambda: I.call(BoundMethod(cm, en), [], {})), exit_
    if isinstance(cm, CtxV):
        return cm.enter, cm.exit
    if isinstance(cm, (Opq, MuVal)):
        return (lambda: Opq('value of an unknown context manager', I.site())), (lambda e: None)
    I.raise_('AttributeError', '%r is not a context manager' % (cm,))


class CtxV(object):
    __slots__ = ('enter', 'exit', 'name')

    def __init__(self, enter, exit_, name='ctx'):
        self.enter, self.exit, self.name = enter, exit_, name


def close_obj(I, r):
    o = I.obj(r)
    if o.kind == 'alt':
        return I.split_obj(r, lambda: close_obj(I, r))
    I.set_raw(r, 'closed', True)
    I.log.append((I.pg, 'close', r, I.site()))


# ------------------------------------------------------------------ attributes

def method(name):
    def deco(fn):
        fn.pyname = name
        return fn
    return deco


LIST_M, DICT_M, STR_M, SET_M, TUPLE_M, DEQUE_M = {}, {}, {}, {}, {}, {}


def lm(f):
    LIST_M[f.__name__.rstrip('_')] = f
    return f


def _lst(I, s):
    return I.obj(s)


@lm
def append(I, s, x):
    o = I.obj(s)
    I.put(s, o.with_(o.data + (x,)))


@lm
def extend(I, s, xs):
    items = tuple(I.iterate(xs))
    o = I.obj(s)
    I.put(s, o.with_(o.data + items))


@lm
def insert(I, s, i, x):
    o = I.obj(s)
    if o.info:
        raise Unsupported('insert into a list of unknown length')
    d = list(o.data)
    d.insert(cint(I, i), x)
    I.put(s, o.with_(tuple(d)))


@lm
def pop(I, s, i=-1):
    o = I.obj(s)
    d = list(o.data)
    i = cint(I, i)
    if o.info and not (i < 0 and -i <= len(d)):
        raise Unsupported('pop from a list of unknown length')
    if not -len(d) <= i < len(d):
        I.raise_('IndexError', 'pop index out of range')
    v = d.pop(i)
    I.put(s, o.with_(tuple(d)))
    return v


@lm
def remove(I, s, x):
    o = I.obj(s)
    if o.info:
        raise Unsupported('remove from a list of unknown length')
    d = list(o.data)
    cond = bdd.TRUE
    for i, y in enumerate(d):
        c = I.truth(I.compare('Eq', x, y))
        if AND(I.pg, NOT(c)) == bdd.FALSE:
            del d[i]
            I.put(s, o.with_(tuple(d)))
            return None
        if AND(I.pg, c) != bdd.FALSE:
            raise Unsupported('removal of a symbolic item')
    I.raise_('ValueError', 'list.remove(x): x not in list')


@lm
def index(I, s, x, *a):
    items = I.obj(s).data if isinstance(s, Ref) else s
    for i, y in enumerate(items):
        c = I.truth(I.compare('Eq', x, y))
        if AND(I.pg, NOT(c)) == bdd.FALSE:
            return i
        if AND(I.pg, c) != bdd.FALSE:
            raise Unsupported('index of a symbolic item')
    I.raise_('ValueError', 'not in list')


@lm
def count(I, s, x):
    items = I.obj(s).data if isinstance(s, Ref) else s
    n = 0
    for y in items:
        c = I.truth(I.compare('Eq', x, y))
        if AND(I.pg, NOT(c)) == bdd.FALSE:
            n += 1
        elif AND(I.pg, c) != bdd.FALSE:
            raise Unsupported('count of symbolic items')
    return n


@lm
def reverse(I, s):
    o = I.obj(s)
    I.put(s, o.with_(o.data[::-1]))


@lm
def sort(I, s, key=None, reverse=False):
    o = I.obj(s)
    I.put(s, o.with_(tuple(py_sorted(I, list(o.data), key, reverse))))


@lm
def copy_(I, s):
    o = I.obj(s)
    return I.new('list', o.data, None, o.info)


@lm
def clear(I, s):
    o = I.obj(s)
    I.put(s, Obj(o.kind, (), o.cls, None))


TUPLE_M['index'] = index
TUPLE_M['count'] = count


def py_sorted(I, items, key, rev):
    ks = []
    for x in items:
        k = I.call(key, [x], {}) if key is not None else x
        ks.append(I.simp(k))

    def conc(k):
        if isinstance(k, (bool, int, Fraction, str)):
            return k
        if isinstance(k, tuple):
            return tuple(conc(x) for x in k)
        raise Unsupported('sorting symbolic keys')
    cs = [conc(k) for k in ks]
    r = I.truth(rev) if not isinstance(rev, bool) else (bdd.TRUE if rev else bdd.FALSE)
    order = sorted(range(len(items)), key=lambda i: cs[i], reverse=(r == bdd.TRUE))
    return [items[i] for i in order]


def cint(I, v):
    v = I.num(v)
    if isinstance(v, Poly):
        v = v.as_int()
        if v is None:
            raise Unsupported('symbolic integer where a constant is needed')
    return int(v)


def dm(f):
    DICT_M[f.__name__.rstrip('_').replace('d_', '')] = f
    return f


@dm
def d_get(I, s, k, default=None):
    for kk, v in I.obj(s).data:
        if keyeq(I, kk, k):
            return v
    return default


@dm
def d_items(I, s):
    return I.list_([(k, v) for k, v in I.obj(s).data])


@dm
def d_keys(I, s):
    return I.list_([k for k, v in I.obj(s).data])


@dm
def d_values(I, s):
    return I.list_([v for k, v in I.obj(s).data])


@dm
def d_update(I, s, other=None, **kw):
    if other is not None:
        for k, v in dict_items(I, other):
            dict_set(I, s, k, v)
    for k, v in kw.items():
        dict_set(I, s, k, v)


@dm
def d_pop(I, s, k, default=MISSING):
    o = I.obj(s)
    for kk, v in o.data:
        if keyeq(I, kk, k):
            I.put(s, o.with_(tuple((a, b) for a, b in o.data if a is not kk)))
            return v
    if default is MISSING:
        I.raise_('KeyError', repr(k))
    return default


@dm
def d_setdefault(I, s, k, default=None):
    for kk, v in I.obj(s).data:
        if keyeq(I, kk, k):
            return v
    dict_set(I, s, k, default)
    return default


@dm
def d_copy(I, s):
    o = I.obj(s)
    return I.new('dict', o.data, None, o.info)


@dm
def d_clear(I, s):
    o = I.obj(s)
    I.put(s, o.with_(()))


def str_method(I, s, name):
    def fn(I, a, kw):
        if isinstance(s, str):
            if name == 'format':
                if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in list(a) + list(kw.values())):
                    try:
                        return s.format(*a, **kw)
                    except (IndexError, KeyError, ValueError) as e:
                        I.raise_(type(e).__name__, str(e))
                return StrV((s,) + tuple(a), tag=('format', s, tuple(txt(I, x) for x in a)))
            if name == 'join':
                items = I.iterate(a[0])
                if all(isinstance(x, str) for x in items):
                    return s.join(items)
                if all(isinstance(x, (str, StrV)) for x in items):
                    return StrV(items, tag=('join', s, tuple(txt(I, x) for x in items)))
                if any(isinstance(x, (Opq, MuVal)) for x in items):
                    return I.opq('join of unknown')
                I.raise_('TypeError', 'sequence item: expected str instance')
            if name == 'encode':
                return I.opq('bytes')
            if all(isinstance(x, (str, int)) or x is None for x in a) or all(isinstance(x, tuple) for x in a):
                try:
                    r = getattr(s, name)(*a, **kw)
                except (ValueError, TypeError) as e:
                    I.raise_(type(e).__name__, str(e))
                if isinstance(r, list):
                    return I.list_(r)
                return r
        if isinstance(s, StrV) and s.tag and s.tag[0] == 'cell' and name in ('strip', 'rstrip', 'lstrip'):
            return s
        if isinstance(s, StrV) and name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'format'):
            return StrV((s,), tag=(name, s.tag, tuple(txt(I, x) for x in a)))
        return I.opq('str.%s' % name)
    return Builtin('str.' + name, fn)


TENSOR_A = frozenset('consumers device dtype eval experimental_ref get_shape graph name ndim op ref set_shape shape '
                     'value_index __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __neg__ '
                     '__abs__ __getitem__ __matmul__ __pow__ __hash__ __class__ __doc__'.split())
VARIABLE_A = frozenset('aggregation assign assign_add assign_sub batch_scatter_update constraint count_up_to create '
                       'from_proto gather_nd handle initial_value initialized_value initializer is_initialized load '
                       'numpy read_value read_value_no_copy scatter_add scatter_div scatter_max scatter_min scatter_mul '
                       'scatter_nd_add scatter_nd_max scatter_nd_min scatter_nd_sub scatter_nd_update scatter_sub '
                       'scatter_update sparse_read synchronization to_proto trainable value _shape'.split()) | TENSOR_A
NDARRAY_A = frozenset('T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj '
                      'conjugate copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat '
                      'flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition prod put ravel '
                      'real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std '
                      'strides sum swapaxes take to_device tobytes tofile tolist trace transpose var view '
                      '__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __neg__ __abs__ __getitem__ '
                      '__setitem__ __len__ __iter__ __matmul__ __pow__ __iadd__ __isub__ __imul__ __copy__ '
                      '__deepcopy__ __array__ __contains__ __class__ __doc__'.split())


def real_type(I, o):
    """what attributes the real object has: a type, or a set of names"""
    if I.lib_tf.is_tensor(o):
        return VARIABLE_A if isinstance(o, I.lib_tf.TVar) else TENSOR_A
    if I.lib_np.is_arr(I, o):
        return NDARRAY_A
    if isinstance(o, SVal):
        return {'int': int, 'float': float, 'bool': bool}.get(o.dtype, NDARRAY_A)
    if isinstance(o, BVal):
        return bool
    if isinstance(o, (Fraction, float)):
        return float
    if isinstance(o, (bool, int, str, tuple)) or o is None:
        return type(o)
    if isinstance(o, StrV):
        return str
    if isinstance(o, RangeV):
        return range
    if isinstance(o, SliceV):
        return slice
    if isinstance(o, Ref):
        return {'list': list, 'dict': dict, 'set': set}.get(I.obj(o).kind)
    return None


SEQ_DUNDER = {
    '__getitem__': lambda I, o, k: I.getitem(o, k),
    '__setitem__': lambda I, o, k, v: I.setitem(o, k, v),
    '__delitem__': lambda I, o, k: delitem(I, o, k),
    '__len__': lambda I, o: b_len(I, o),
    '__contains__': lambda I, o, x: contains(I, o, x),
    '__iter__': lambda I, o: I.make_iter(I.list_(I.iterate(o))),
    '__add__': lambda I, o, x: I.binop('Add', o, x),
    '__mul__': lambda I, o, x: I.binop('Mult', o, x),
    '__eq__': lambda I, o, x: I.compare('Eq', o, x),
}


def builtin_attr(I, o, name, default=MISSING):
    def miss():
        t = real_type(I, o)
        if t is not None and (name in t if isinstance(t, (tuple, frozenset)) else hasattr(t, name)):
            return I.unmodelled(o, '%s.%s' % (tname(I, o), name))
        if default is not MISSING:
            return default
        I.raise_('AttributeError', '%s has no attribute %s' % (tname(I, o), name))
    if name in SEQ_DUNDER and (isinstance(o, (tuple, str)) or isinstance(o, Ref) and I.obj(o).kind in ('list', 'dict')):
        if not (isinstance(o, str) and name in ('__setitem__', '__delitem__') or isinstance(o, tuple) and name in ('__setitem__', '__delitem__')):
            return Builtin('%s' % name, lambda I, a, kw: SEQ_DUNDER[name](I, o, *a))
    if o is None:
        if name == '__class__':
            return BType('NoneType')
        return miss()
    if isinstance(o, Ext):
        return ext_attr(I, o, name)
    if isinstance(o, (Opq, MuVal)):
        return Opq('attribute %s of unknown' % name, I.site())
    if I.lib_tf.is_tensor(o):
        return I.lib_tf.attr(I, o, name, miss)
    if I.lib_np.is_arr(I, o) or (isinstance(o, SVal) and o.dtype not in ('int', 'float', 'bool')):
        return I.lib_np.attr(I, o, name, miss)
    if isinstance(o, Ref):
        h = I.obj(o)
        tbl = {'list': LIST_M, 'dict': DICT_M, 'set': SET_M}.get(h.kind)
        if tbl is not None:
            if h.kind == 'list' and isinstance(h.cls, str) and h.cls.startswith('deque'):
                if name == 'maxlen':
                    return int(h.cls[6:]) if ':' in h.cls else None
                f = DEQUE_M.get(name) or tbl.get(name)
                if f is None or name in ('sort',):
                    return I.opq('deque.%s' % name)

                def meth(I, a, kw):
                    r = f(I, o, *a, **kw)
                    dq_trim(I, o, name not in ('appendleft', 'extendleft'))
                    return r
                return Builtin('deque.%s' % name, lambda I, a, kw: I.split_obj(o, lambda: meth(I, a, kw)))
            if name in tbl:
                f = tbl[name]
                return Builtin('%s.%s' % (h.kind, name), lambda I, a, kw: I.split_obj(o, lambda: f(I, o, *a, **kw)))
            if h.kind == 'set':
                return set_method(I, o, name, miss)
            if name == '__len__':
                return Builtin('len', lambda I, a, kw: BUILTINS['len'].fn(I, [o], {}))
            if name == '__class__':
                return BType(h.kind)
            if name.startswith('__'):
                return I.opq('%s.%s' % (h.kind, name))
            return miss()
        if h.kind == 'inst' and h.info is not None:
            return special_attr(I, o, h, name, miss)
    if isinstance(o, NT):
        v = nt_attr(I, o, name)
        if v is not MISSING:
            return v
    if isinstance(o, tuple):
        if name in TUPLE_M:
            f = TUPLE_M[name]
            return Builtin('tuple.' + name, lambda I, a, kw: f(I, o, *a, **kw))
        return miss()
    if isinstance(o, (str, StrV)):
        if hasattr('', name):
            return str_method(I, o, name)
        return miss()
    if isinstance(o, (bool, int, Fraction, SVal, BVal, float)):
        if name in ('real',):
            return o
        if name == 'item' and isinstance(o, SVal):
            return Builtin('item', lambda I, a, kw: o)
        if name == 'is_integer':
            return I.opq('is_integer')
        if name in ('numerator',) and isinstance(o, int):
            return o
        if name == '__class__':
            return BType('int' if isinstance(o, int) else 'float')
        return miss()
    if isinstance(o, (ShapeV, DimV)):
        return I.lib_tf.shape_attr(I, o, name, miss)
    if isinstance(o, DType):
        return I.lib_np.dtype_attr(I, o, name, miss)
    if isinstance(o, FuncVal):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return None
        return miss()
    if isinstance(o, BoundMethod):
        if name == '__name__' and isinstance(o.func, FuncVal):
            return o.func.name
        if name == '__self__':
            return o.self_
        return miss()
    if isinstance(o, Property):
        if name in ('setter',):
            return Builtin('property.setter', lambda I, a, kw: Property(o.fget, a[0]))
        if name in ('getter', 'deleter'):
            return Builtin('property.getter', lambda I, a, kw: o)
        if name == 'fget':
            return o.fget
    if isinstance(o, ExcVal):
        if name in o.attrs:
            return o.attrs[name]
        if name == 'args':
            return tuple(o.args)
        if isinstance(o.cls, ClassVal):
            m = I.find_method(o.cls, name)
            if m is not None:
                return I.bind(o, m)
        return I.opq('attribute %s of exception' % name)
    if isinstance(o, BType):
        if name == '__name__':
            return o.name
        if o.name == 'dict' and name == 'fromkeys':
            def fk(I, a, kw):
                r = I.new('dict', ())
                for k in I.iterate(a[0]):
                    dict_set(I, r, k, a[1] if len(a) > 1 else None)
                return r
            return Builtin('dict.fromkeys', fk)
        if o.name == 'str' and hasattr('', name):
            return Builtin('str.' + name, lambda I, a, kw: I.call(str_method(I, a[0], name), a[1:], kw))
        if o.name == 'list' and name in LIST_M:
            return Builtin('list.' + name, lambda I, a, kw: LIST_M[name](I, *a, **kw))
        if o.name == 'np.ndarray' and name in NDARRAY_A:
            return Builtin('ndarray.' + name, lambda I, a, kw: I.call(I.getattr(a[0], name), a[1:], kw))
        if o.name == 'object' and name == '__init__':
            return Builtin('object.__init__', lambda I, a, kw: None)
        if o.name == 'object' and name in ('__setattr__',):
            return Builtin('object.__setattr__', lambda I, a, kw: I.set_raw(a[0], a[1], a[2]))
        return I.opq('attribute %s of %r' % (name, o))
    if isinstance(o, Partial):
        return {'func': o.func, 'args': o.args}.get(name) or miss()
    if isinstance(o, (RangeV, SliceV)):
        if name in ('start', 'stop', 'step'):
            return getattr(o, name)
        return miss()
    if isinstance(o, Builtin):
        if name == '__name__':
            return o.name
        return I.opq('attribute of builtin')
    return I.opq('attribute %s of %r' % (name, o))


def tname(I, o):
    if isinstance(o, Ref):
        h = I.obj(o)
        return h.kind if h.kind != 'inst' else str(h.info)
    return type(o).__name__ if o is not None else 'NoneType'


def set_method(I, o, name, miss):
    def fn(I, a, kw):
        cur = list(I.obj(o).data)
        if name == 'add':
            r = make_set(I, cur + [a[0]])
            I.put(o, I.obj(r))
            return None
        if name in ('discard', 'remove'):
            new = [x for x in cur if not definitely_in(I, a[0], [x])]
            if name == 'remove' and len(new) == len(cur):
                I.raise_('KeyError', repr(a[0]))
            I.put(o, I.obj(o).with_(tuple(new)))
            return None
        if name in ('union', 'difference', 'intersection'):
            b = make_set(I, I.iterate(a[0]))
            return container_op(I, {'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd'}[name], o, b)
        if name == 'update':
            r = make_set(I, cur + I.iterate(a[0]))
            I.put(o, I.obj(r))
            return None
        if name == 'issubset':
            ys = I.iterate(a[0])
            return all(definitely_in(I, x, ys) for x in cur)
        if name == 'copy':
            return I.new('set', tuple(cur))
        return I.opq('set.%s' % name)
    return Builtin('set.' + name, fn)


def special_attr(I, o, h, name, miss):
    k = h.info
    if k == 'file':
        if name == 'close':
            def cl(I, a, kw):
                close_obj(I, o)
            return Builtin('file.close', cl)
        if name in ('write', 'writelines'):
            def wr(I, a, kw):
                I.raise_if(_closed(I, o), 'ValueError', 'I/O operation on closed file')
                I.may_raise('OSError', 'write')
                I.log.append((I.pg, 'fwrite', (o, tuple(a)), I.site()))
            return Builtin('file.write', wr)
        if name in ('flush', 'seek', 'truncate'):
            return Builtin('file.' + name, lambda I, a, kw: None)
        if name == 'closed':
            return h.data.get('closed', False)
        if name == 'name':
            return h.data.get('path')
        if name == '__enter__':
            return Builtin('file.enter', lambda I, a, kw: o)
        if name == '__exit__':
            return Builtin('file.exit', lambda I, a, kw: close_obj(I, o))
        if name in ('read', 'readlines', 'readline'):
            def rd(I, a, kw):
                fl = I.hooks.get('file_lines')
                if fl is not None and not a and not kw:
                    I.raise_if(_closed(I, o), 'ValueError', 'I/O operation on closed file')
                    ls = fl(I, o)
                    if name == 'readlines':
                        return I.list_(ls)
                    if name == 'read' and all(isinstance(x, str) for x in ls):
                        return ''.join(ls)
                    if name == 'readline':
                        pos = h.data.get('pos', 0)
                        I.set_raw(o, 'pos', pos + 1)
                        return ls[pos] if pos < len(ls) else ''
                return I.opq('file content')
            return Builtin('file.' + name, rd)
        return I.opq('file attribute %s' % name)
    if k == 'sess_obj':
        return I.lib_tf.sess_attr(I, o, h, name, miss)
    if k == 'writer':
        return I.lib_tf.writer_attr(I, o, h, name, miss)
    if k == 'graph':
        return I.lib_tf.graph_attr(I, o, h, name, miss)
    if k == 'sparse':
        return h.data[name] if name in h.data else I.lib_tf.sparse_attr(I, o, h, name, miss)
    if k == 'iter':
        if name == '__next__':
            return Builtin('next', lambda I, a, kw: next_item(I, GenV(o)))
    if k == 'logger':
        return Builtin('logger.' + name, lambda I, a, kw: None)
    if isinstance(k, tuple) and k[0] == 'ns':
        if name in h.data:
            return h.data[name]
        return miss()
    if k == 'mu':
        return Opq('attribute of an unknown object', I.site())
    if isinstance(h.data, dict) and name in h.data:
        return h.data[name]
    return I.opq('attribute %s of %s' % (name, k))


def _closed(I, o):
    h = I.obj(o)
    if h.kind == 'alt':
        return bdd.FALSE
    return I.truth(h.data.get('closed', False))


# ------------------------------------------------------------------ builtin functions

BUILTINS = {}


def bi(name):
    def deco(fn):
        BUILTINS[name] = Builtin(name, lambda I, a, kw: fn(I, *a, **kw))
        return fn
    return deco


@bi('len')
def b_len(I, x):
    x = I.simp(x)
    if isinstance(x, GVal):
        return I.plift(lambda y: b_len(I, y), x)
    if isinstance(x, (tuple, str)):
        return len(x)
    if isinstance(x, Ref):
        o = I.obj(x)
        if o.kind == 'alt':
            return I.split_obj(x, lambda: b_len(I, x))
        if o.kind == 'list' and o.info:
            n = sym('len:%d' % x.id, 'i')
            return SVal(add(n, const(len(o.data))), 'int')
        if o.kind in ('list', 'set', 'dict'):
            return len(o.data)
        if o.kind == 'inst' and isinstance(o.cls, ClassVal):
            f = I.find_method(o.cls, '__len__')
            if f is not None:
                return I.call(BoundMethod(x, f), [], {})
    if I.lib_np.is_arr(I, x):
        d, dt = I.lib_np.den_of(I, x)
        if d.rank == 0:
            I.raise_('TypeError', 'len() of unsized object')
        return I.mknum(d.size(0))
    if isinstance(x, ShapeV):
        if x.dims is None:
            I.raise_('ValueError', 'length of unknown shape')
        return len(x.dims)
    if isinstance(x, RangeV):
        return I.mknum(relu(sub_(to_poly(I.num(x.stop)), to_poly(I.num(x.start)))))
    if isinstance(x, (Opq, MuVal, StrV)):
        return I.opq('length of %r' % (x,), 'int')
    if I.lib_tf.is_tensor(x):
        I.raise_('TypeError', 'len of a graph tensor')
    I.raise_('TypeError', 'object %r has no len()' % (x,))


@bi('range')
def b_range(I, a, b=None, c=1):
    if b is None:
        a, b = 0, a
    vals = []
    for v in (a, b, c):
        v = I.simp(v)
        if isinstance(v, GVal):
            st = [a, b, c]
            i = len(vals)

            def one(x):
                st2 = list(st)
                st2[i] = x
                return b_range(I, *st2)
            return I.cases(v, one)
        if isinstance(v, (Fraction, float)) or (isinstance(v, SVal) and v.dtype == 'float'):
            I.raise_('TypeError', "'float' object cannot be interpreted as an integer")
        if v is None or isinstance(v, (str, tuple)):
            I.raise_('TypeError', '%r cannot be interpreted as an integer' % (v,))
        if isinstance(v, (Opq, MuVal)):
            return I.opq('range with unknown bounds')
        n = I.num(v)
        if isinstance(n, Poly):
            n = n.as_int() if n.as_int() is not None else n
        vals.append(n)
    if all(isinstance(v, int) for v in vals):
        if vals[2] == 0:
            I.raise_('ValueError', 'range() arg 3 must not be zero')
        r = range(*vals)
        if len(r) > 100000:
            raise Unsupported('huge range')
        return I.list_([x for x in r]) if len(r) <= 4000 else RangeV(*vals)
    # start..start+c : constant length
    if vals[2] == 1:
        n = sub_(to_poly(vals[1]), to_poly(vals[0])).as_int()
        if n is not None:
            return I.list_([I.mknum(add(to_poly(vals[0]), const(i))) for i in range(max(0, n))])
    return RangeV(*[I.mknum(v) if isinstance(v, Poly) else v for v in vals])


@bi('enumerate')
def b_enumerate(I, x, start=0):
    from .interp import SymIter
    x = I.simp(x)
    if isinstance(x, RangeV):
        st = to_poly(I.num(x.start))
        s0 = to_poly(I.num(start))
        return SymIter(x, lambda k: (I.mknum(add(sub_(k, st), s0)), I.mknum(k)))
    items = I.iterate(x)
    s = cint(I, start)
    return I.make_iter(I.list_([(i + s, v) for i, v in enumerate(items)]))


@bi('zip')
def b_zip(I, *xs, strict=False):
    from .interp import SymIter
    if any(isinstance(x, RangeV) for x in xs):
        raise Unsupported('zip of symbolic ranges')
    ls = bounded(I, xs)
    if ls is None:
        if not xs:
            return I.make_iter(I.list_(()))
        return endless(I, [tuple(t) for t in zip(*[infinite(I, I.simp(x))[0] for x in xs])])
    return I.make_iter(I.list_([tuple(t) for t in zip(*ls)]))


@bi('map')
def b_map(I, f, *xs):
    ls = bounded(I, xs)
    if ls is None:
        raise Unsupported('map over an endless iterator')
    return I.make_iter(I.list_([I.call(f, list(t), {}) for t in zip(*ls)]))


@bi('filter')
def b_filter(I, f, xs):
    out = []
    for x in I.iterate(xs):
        g = I.truth(x if f is None else I.call(f, [x], {}))
        if AND(I.pg, NOT(g)) == bdd.FALSE:
            out.append(x)
        elif AND(I.pg, g) != bdd.FALSE:
            raise Unsupported('filter on a symbolic condition')
    return I.make_iter(I.list_(out))


@bi('sorted')
def b_sorted(I, xs, key=None, reverse=False):
    return I.list_(py_sorted(I, I.iterate(xs), key, reverse))


@bi('reversed')
def b_reversed(I, xs):
    return I.make_iter(I.list_(I.iterate(xs)[::-1]))


def b_minmax(kind):
    def fn(I, *xs, key=None, default=MISSING):
        if len(xs) == 1:
            xs = I.iterate(xs[0])
        xs = [I.simp(x) for x in xs]
        if not xs:
            if default is not MISSING:
                return default
            I.raise_('ValueError', '%s() arg is an empty sequence' % kind)
        if key is not None:
            ks = [I.simp(I.call(key, [x], {})) for x in xs]
            if all(isinstance(k, (int, Fraction, str)) for k in ks):
                i = (max if kind == 'max' else min)(range(len(xs)), key=lambda j: ks[j])
                return xs[i]
            raise Unsupported('%s with a symbolic key' % kind)
        if all(isinstance(x, (bool, int, Fraction)) for x in xs) or all(isinstance(x, str) for x in xs) \
                or all(isinstance(x, (bool, int, Fraction, float)) for x in xs):
            return (max if kind == 'max' else min)(xs)
        if any(isinstance(x, (Opq, MuVal)) for x in xs):
            return Opq('%s of unknown' % kind, I.site())
        fs = [x for x in xs if isinstance(x, float)]
        if fs and all(I.is_num(x) for x in xs):
            # infinities
            keep = [x for x in xs if not isinstance(x, float)]
            for f in fs:
                if (f > 0) == (kind == 'max'):
                    return f
            xs = keep
        if all(I.is_num(x) for x in xs):
            ps = [to_poly(I.num(x)) for x in xs]
            dt = 'float' if any(isinstance(x, Fraction) or (isinstance(x, SVal) and x.dtype != 'int') for x in xs) else 'int'
            return I.mknum((maxn if kind == 'max' else minn)(ps), dt)
        if any(I.lib_np.is_arr(I, x) for x in xs):
            ds = []
            for x in xs:
                d, dt = I.lib_np.den_of(I, x)
                for g in d.axes:
                    if g:
                        I.raise_('ValueError', 'the truth value of an array with more than one element is ambiguous')
                ds.append(d)
            rk = max(d.rank for d in ds)
            body = (maxn if kind == 'max' else minn)([d.body for d in ds])
            return I.nd(D.Den([()] * rk, body))
        if any(isinstance(x, GVal) for x in xs):
            return I.plift(lambda *t: fn(I, *t), *xs)
        if any(I.lib_tf.is_tensor(x) for x in xs):
            I.raise_('TypeError', 'using a graph tensor as a Python bool')
        if any(x is None for x in xs):
            I.raise_('TypeError', 'unorderable values')
        raise Unsupported('%s of %r' % (kind, xs))
    return fn


bi('max')(b_minmax('max'))
bi('min')(b_minmax('min'))


@bi('sum')
def b_sum(I, xs, start=0):
    r = start
    for x in I.iterate(xs):
        r = I.binop('Add', r, x)
    return r


@bi('abs')
def b_abs(I, x):
    x = I.simp(x)
    if isinstance(x, GVal):
        return I.plift(lambda y: b_abs(I, y), x)
    if isinstance(x, (int, Fraction, float)):
        return abs(x)
    if isinstance(x, (SVal, BVal)):
        return I.mknum(absval(to_poly(I.num(x))), x.dtype if isinstance(x, SVal) else 'int')
    if I.lib_tf.is_tensor(x):
        return I.lib_tf.call_tf(I, 'abs', [x], {})
    if I.lib_np.is_arr(I, x):
        d, dt = I.lib_np.den_of(I, x)
        return I.nd(D.ew(absval, d), dt)
    if isinstance(x, (Opq, MuVal)):
        return Opq('abs of unknown', I.site())
    I.raise_('TypeError', 'bad operand for abs(): %r' % (x,))


@bi('all')
def b_all(I, xs):
    g = bdd.TRUE
    for x in I.iterate(xs):
        g = AND(g, I.truth(x))
    return I.boolval(g)


@bi('any')
def b_any(I, xs):
    g = bdd.FALSE
    for x in I.iterate(xs):
        g = OR(g, I.truth(x))
    return I.boolval(g)


def type_of(I, v):
    v = I.simp(v)
    if isinstance(v, bool) or isinstance(v, BVal):
        return BType('bool')
    if isinstance(v, int):
        return BType('int')
    if isinstance(v, (Fraction, float)):
        return BType('float')
    if isinstance(v, SVal):
        return BType(v.dtype if v.dtype in ('int', 'float', 'bool') else 'np.' + v.dtype)
    if isinstance(v, (str, StrV)):
        return BType('str')
    if isinstance(v, NT):
        return v.cls
    if isinstance(v, tuple):
        return BType('tuple')
    if v is None:
        return BType('NoneType')
    if I.lib_tf.is_tensor(v):
        return BType('tf.Variable' if I.lib_tf.is_varobj(v) else 'tf.Tensor')
    if isinstance(v, NView):
        return BType('np.ndarray')
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'alt':
            o = o.data[0][1]
        if o.kind in ('list', 'dict', 'set'):
            return BType(o.kind)
        if o.kind == 'ndarray':
            return BType('np.ndarray')
        if o.kind == 'inst' and o.cls is not None:
            return o.cls
        if o.kind == 'inst' and o.info == 'sparse':
            return BType('tf.SparseTensor')
        if o.kind == 'module':
            return BType('module')
    if isinstance(v, ShapeV):
        return BType('tf.TensorShape')
    if isinstance(v, DimV):
        return BType('tf.Dimension')
    if isinstance(v, DType):
        return BType('tf.DType')
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, (FuncVal, Builtin)):
        return BType('function')
    if isinstance(v, BoundMethod):
        return BType('method')
    if isinstance(v, (ClassVal, BType)):
        return BType('type')
    return BType('?')


SUPERT = {'bool': ('int',), 'np.float64': ('float', 'np.floating', 'np.generic', 'np.number'),
          'np.float32': ('np.floating', 'np.generic', 'np.number'),
          'np.int64': ('np.integer', 'np.generic', 'np.number', 'np.signedinteger'),
          'np.int32': ('np.integer', 'np.generic', 'np.number', 'np.signedinteger'),
          'np.bool': ('np.bool_', 'np.generic')}
TALIAS = {'tf.Tensor': 'tf.Tensor', 'tf.python.framework.ops.Tensor': 'tf.Tensor', 'tf.TensorShape': 'tf.TensorShape',
          'numbers.Integral': 'int', 'numbers.Number': 'float', 'numbers.Real': 'float',
          'collections.abc.Sequence': 'seq', 'collections.abc.Iterable': 'iterable', 'np.bool_': 'np.bool_',
          'tf.sparse.SparseTensor': 'tf.SparseTensor', 'typing.Sequence': 'seq', 'tf.is_tensor': 'tf.Tensor'}


@bi('isinstance')
def b_isinstance(I, v, t):
    v = I.simp(v)
    if isinstance(v, GVal):
        return I.plift(lambda y: b_isinstance(I, y, t), v)
    if isinstance(t, Ref):
        t = tuple(I.iterate(t))
    if isinstance(t, tuple):
        g = bdd.FALSE
        for x in t:
            g = OR(g, I.truth(b_isinstance(I, v, x)))
        return I.boolval(g)
    if isinstance(v, Ref) and I.obj(v).kind == 'alt':
        return I.split_obj(v, lambda: b_isinstance(I, v, t))
    if isinstance(v, (Opq, MuVal)):
        if isinstance(v, MuVal) and v.like is not None and v.like is not UNBOUND:
            return b_isinstance(I, v.like, t)
        return I.opq('isinstance of unknown', 'bool')
    ty = type_of(I, v)
    if isinstance(t, ClassVal):
        return isinstance(ty, ClassVal) and t in ty.mro
    name = t.name if isinstance(t, BType) else t.path if isinstance(t, Ext) else None
    if name is None:
        return I.opq('isinstance with %r' % (t,), 'bool')
    name = TALIAS.get(name, name)
    if isinstance(ty, ClassVal):
        return name == 'object' or any(isinstance(b, BType) and b.name == name for b in ty.mro)
    if name == 'object':
        return True
    if name in ('seq', 'iterable'):
        return ty.name in ('list', 'tuple', 'str') or (name == 'iterable' and ty.name in ('dict', 'set', 'np.ndarray'))
    if t in (BType('float'),) and isinstance(t, BType) is False:
        pass
    if isinstance(t, Ext) and t.path.startswith('numbers.'):
        if t.path == 'numbers.Integral':
            return ty.name in ('int', 'bool', 'np.int64', 'np.int32')
        return ty.name in ('int', 'bool', 'float') or ty.name.startswith('np.float') or ty.name.startswith('np.int')
    if ty.name == '?':
        return I.opq('isinstance of %r' % (v,), 'bool')
    return ty.name == name or name in SUPERT.get(ty.name, ())


@bi('issubclass')
def b_issubclass(I, a, b):
    if isinstance(a, ClassVal):
        return b in a.mro
    return I.opq('issubclass', 'bool')


@bi('getattr')
def b_getattr(I, o, n, default=MISSING):
    if not isinstance(n, str):
        return I.opq('getattr with a computed name')
    return I.getattr(o, n, default)


@bi('setattr')
def b_setattr(I, o, n, v):
    if not isinstance(n, str):
        I.issue('unknown', 'setattr with a computed name')
        return None
    I.setattr(o, n, v)


@bi('hasattr')
def b_hasattr(I, o, n):
    m = object()
    o = I.simp(o)
    if isinstance(o, (Opq, MuVal)):
        return I.opq('hasattr of unknown', 'bool')
    r = I.getattr(o, n, None.__class__)
    if r is None.__class__:
        return False
    if isinstance(r, Opq):
        return I.opq('hasattr', 'bool')
    return True


@bi('delattr')
def b_delattr(I, o, n):
    I.setattr(o, n, UNBOUND)


@bi('print')
def b_print(I, *a, **kw):
    f = kw.get('file')
    if f is not None and isinstance(f, Ref) and I.obj(f).info == 'file':
        I.raise_if(_closed(I, f), 'ValueError', 'I/O operation on closed file')
        I.may_raise('OSError', 'print to file')
    I.log.append((I.pg, 'print', (f, tuple(a)), I.site()))
    return None


@bi('open')
def b_open(I, path, mode='r', *a, **kw):
    return new_file(I, path, mode)


@bi('callable')
def b_callable(I, f):
    f = I.simp(f)
    if isinstance(f, (FuncVal, BoundMethod, Builtin, ClassVal, BType, Partial)):
        return True
    if isinstance(f, (Opq, MuVal, Ext)):
        return I.opq('callable', 'bool')
    if I.is_dunder(f):
        return I.find_method(I.obj(f).cls, '__call__') is not None
    return False


@bi('id')
def b_id(I, x):
    return SVal(sym('id:%r' % (x,), 'pi'), 'int')


@bi('repr')
def b_repr(I, x):
    return StrV((x,), tag=('repr', txt(I, x)))


@bi('round')
def b_round(I, x, n=None):
    x = I.simp(x)
    if isinstance(x, (int, Fraction)) and (n is None or isinstance(n, int)):
        r = round(x, n) if n is not None else round(x)
        return r
    return I.mknum(func('round', [to_poly(I.num(x))] + ([to_poly(I.num(n))] if n is not None else [])), 'float')


@bi('divmod')
def b_divmod(I, a, b):
    return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))


@bi('pow')
def b_pow(I, a, b, m=None):
    return I.binop('Pow', a, b)


@bi('chr')
def b_chr(I, x):
    x = I.num(x)
    if isinstance(x, Poly):
        x = x.as_int()
    if x is None:
        raise Unsupported('chr of a symbolic value')
    if not 0 <= x < 0x110000:
        I.raise_('ValueError', 'chr() arg not in range')
    return chr(int(x))


@bi('ord')
def b_ord(I, x):
    if isinstance(x, str):
        if len(x) != 1:
            I.raise_('TypeError', 'ord() expected a character')
        return ord(x)
    return I.opq('ord')


@bi('iter')
def b_iter(I, x, *a):
    if isinstance(x, GenV):
        return x
    if isinstance(x, Ref) and I.obj(x).info == 'csvreader':
        return x
    return I.make_iter(I.list_(I.iterate(x)))


@bi('next')
def b_next(I, x, default=MISSING):
    return next_item(I, x, default)


@bi('hash')
def b_hash(I, x):
    return SVal(sym('hash:%r' % (x,), 'i'), 'int')


@bi('vars')
def b_vars(I, x):
    return I.getattr(x, '__dict__')


@bi('dir')
def b_dir(I, x=None):
    return I.opq('dir')


@bi('input')
def b_input(I, *a):
    return I.opq('input')


@bi('format')
def b_format(I, v, spec=''):
    return fmt_value(I, v, spec, -1)


for _n in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'object', 'type', 'property', 'staticmethod',
           'classmethod', 'frozenset', 'bytes', 'complex', 'slice', 'bytearray', 'memoryview'):
    BUILTINS[_n] = BType(_n)
BUILTINS['NotImplemented'] = Ext('NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis
BUILTINS['__name__'] = '__analysed__'
BUILTINS['__debug__'] = True
BUILTINS['__file__'] = StrV((), ('file',))
BUILTINS['__doc__'] = None


def call_type(I, t, a, kw):
    from .interp import PYEXC
    n = t.name
    if n == 'int':
        return to_int(I, *a, **kw)
    if n == 'float':
        return to_float(I, *a)
    if n == 'bool':
        return I.boolval(I.truth(a[0])) if a else False
    if n == 'str':
        if not a:
            return ''
        x = I.simp(a[0])
        if isinstance(x, (str, StrV)):
            return x
        if isinstance(x, int) and not isinstance(x, bool):
            return str(x)
        return StrV((x,), tag=('str', txt(I, x)))
    if n == 'list':
        if not a:
            return I.list_(())
        x = I.simp(a[0])
        if isinstance(x, Ref) and I.obj(x).kind == 'alt':
            return I.split_obj(x, lambda: call_type(I, t, [x], kw))
        if isinstance(x, Ref) and I.obj(x).kind == 'list' and I.obj(x).info:
            return I.new('list', I.obj(x).data, None, I.obj(x).info)
        return I.list_(I.iterate(x))
    if n == 'tuple':
        return tuple(I.iterate(a[0])) if a else ()
    if n in ('set', 'frozenset'):
        return make_set(I, I.iterate(a[0]) if a else [])
    if n == 'dict':
        r = I.new('dict', ())
        if a:
            x = I.simp(a[0])
            if isinstance(x, Ref) and I.obj(x).kind == 'dict':
                for k, v in I.obj(x).data:
                    dict_set(I, r, k, v)
            else:
                for p in I.iterate(x):
                    k, v = I.iterate(p)
                    dict_set(I, r, k, v)
        for k, v in kw.items():
            dict_set(I, r, k, v)
        return r
    if n == 'object':
        return I.new('inst', {}, None, ('ns',))
    if n == 'type':
        if len(a) == 1:
            return type_of(I, a[0])
        return I.opq('dynamic class')
    if n == 'property':
        return Property(a[0] if a else kw.get('fget'), a[1] if len(a) > 1 else kw.get('fset'))
    if n == 'staticmethod':
        return StaticM(a[0])
    if n == 'classmethod':
        return ClassM(a[0])
    if n == 'slice':
        a = list(a) + [None] * (3 - len(a))
        if len([x for x in a if x is not None]) and a[1] is None and a[2] is None:
            return SliceV(None, a[0], None)
        return SliceV(*a)
    if n in PYEXC or n.split('.')[-1] in ('OutOfRangeError', 'InvalidArgumentError', 'ArgumentError', 'LinAlgError'):
        return ExcVal(t, tuple(a), I.site())
    if n.startswith('np.'):
        return I.lib_np.call_np(I, n[3:], a, kw)
    if n.startswith('tf.'):
        return I.lib_tf.call_tf(I, n[3:], a, kw)
    return I.opq('call of type %s' % n)


def to_int(I, x=0, base=None, **kw):
    x = I.simp(x)
    if isinstance(x, GVal):
        return I.plift(lambda y: to_int(I, y), x)
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, float):
        I.raise_('ValueError', 'cannot convert float to integer')
    if isinstance(x, BVal):
        return I.mknum(bdd.to_poly(x.g))
    if isinstance(x, SVal):
        if is_integer(x.poly):
            return I.mknum(x.poly, 'int')
        if is_nonneg(x.poly):
            return SVal(func('floor_abs', [x.poly]), 'int')
        return SVal(func('trunc', [x.poly]), 'int')
    if isinstance(x, DimV):
        if x.d is None:
            I.raise_('TypeError', 'int() of an unknown dimension')
        return I.mknum(x.d)
    if isinstance(x, str):
        try:
            return int(x, base or 10)
        except ValueError as e:
            I.raise_('ValueError', str(e))
    if isinstance(x, StrV):
        I.may_raise('ValueError', 'int() of text')
        if x.tag and x.tag[0] == 'cell':
            return SVal(sym('int%s' % (x.tag[1:],), 'ni'), 'int')
        if x.tag and x.tag[0] in ('strip',):
            return to_int(I, StrV((), x.tag[1]))
        return SVal(sym('int(%s)' % (x.tag,), 'i'), 'int')
    if I.lib_np.is_arr(I, x):
        d, dt = I.lib_np.den_of(I, x)
        if any(g for g in d.axes):
            I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
        return to_int(I, I.mknum(d.body, 'int' if dt.startswith('int') else 'float'))
    if I.lib_tf.is_tensor(x):
        I.raise_('TypeError', 'int() of a graph tensor')
    if x is None or isinstance(x, (tuple, Ref)):
        I.raise_('TypeError', 'int() argument must be a string or a number, not %r' % (x,))
    return I.opq('int of %r' % (x,), 'int')


def to_float(I, x=0):
    x = I.simp(x)
    if isinstance(x, GVal):
        return I.plift(lambda y: to_float(I, y), x)
    if isinstance(x, (bool, int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return x
    if isinstance(x, (SVal, BVal)):
        return SVal(to_poly(I.num(x)), 'float')
    if isinstance(x, str):
        try:
            v = float(x)
            return v if v != v or v in (math.inf, -math.inf) else Fraction(repr(v))
        except ValueError as e:
            I.raise_('ValueError', str(e))
    if isinstance(x, StrV):
        I.may_raise('ValueError', 'float() of text')
        if x.tag and x.tag[0] == 'cell':
            return SVal(sym('float%s' % (x.tag[1:],), ''), 'float')
        return SVal(sym('float(%s)' % (x.tag,), ''), 'float')
    if I.lib_np.is_arr(I, x):
        d, dt = I.lib_np.den_of(I, x)
        if any(g for g in d.axes):
            I.raise_('TypeError', 'only length-1 arrays can be converted to Python scalars')
        return SVal(d.body, 'float')
    if isinstance(x, DimV) and x.d is not None:
        return SVal(x.d, 'float')
    if x is None or isinstance(x, (tuple, Ref)) or I.lib_tf.is_tensor(x):
        I.raise_('TypeError', 'float() argument must be a string or a number')
    return I.opq('float of %r' % (x,), 'float')


# ------------------------------------------------------------------ external modules

CONSTS = {'math.pi': 'pi', 'np.pi': 'pi', 'math.e': 'e', 'np.e': 'e'}
EXTTYPES = {'np.ndarray', 'tf.Tensor', 'tf.Variable', 'tf.SparseTensor', 'np.generic', 'np.integer', 'np.floating',
            'tf.TensorShape', 'tf.Dimension', 'tf.DType', 'tf.Session', 'np.number'}
NPDT = {'float32', 'float64', 'float16', 'int32', 'int64', 'int8', 'int16', 'uint8', 'bool', 'bool_', 'string', 'double',
        'complex64', 'complex128', 'object_', 'int_', 'float_', 'single', 'object'}


def ext_attr(I, m, name):
    p = m.path + '.' + name
    if p in CONSTS:
        return SVal(sym(CONSTS[p], 'p'), 'float')
    if p in ('np.inf', 'math.inf', 'np.Inf', 'np.infty'):
        return float('inf')
    if p in ('np.nan', 'math.nan', 'np.NaN'):
        return float('nan')
    if p == 'np.newaxis' or p == 'tf.newaxis':
        return None
    root = p.split('.')[0]
    rest = p.split('.', 1)[1] if '.' in p else ''
    if root == 'tf' and name in NPDT and m.path in ('tf', 'tf.dtypes'):
        return DType({'double': 'float64', 'bool_': 'bool'}.get(name, name))
    if root == 'np' and m.path == 'np' and name in NPDT:
        return DType({'double': 'float64', 'bool_': 'bool', 'int_': 'int64', 'float_': 'float64', 'single': 'float32'}.get(name, name))
    if p in EXTTYPES:
        return BType(p)
    if root == 'typing':
        return Ext(p)
    if p == 'tf.compat' or p == 'tf.compat.v1':
        return Ext('tf')
    if root == 'tf' and name.endswith('Error') and 'errors' in p:
        return BType(name)
    if p == 'ctypes.ArgumentError':
        return BType('ArgumentError')
    if name == 'LinAlgError':
        return BType('LinAlgError')
    if root == 'os' and p in ('os.sep',):
        return '/'
    if p == 'os.environ':
        return I.opq('environment variables')
    if p == 'sys.maxsize':
        return 2 ** 63 - 1
    if p == 'sys.argv' and 'argv' in I.hooks:
        return I.hooks['argv'](I)
    if p in ('sys.stdout', 'sys.stderr'):
        return I.new('inst', {'closed': False, 'std': True}, None, 'stdfile')
    return Ext(p)


def call_ext(I, f, a, kw):
    p = f.path
    root = p.split('.')[0]
    if p in STD:
        return STD[p](I, *a, **kw)
    if root == 'np':
        return I.lib_np.call_np(I, p[3:], a, kw)
    if root == 'tf':
        return I.lib_tf.call_tf(I, p[3:], a, kw)
    if root in ('logging', 'logger', 'warnings', 'time', 'gc'):
        if p == 'logging.getLogger':
            return I.new('inst', {}, None, 'logger')
        if root == 'time' and p in ('time.time', 'time.perf_counter', 'time.monotonic'):
            I._tc = getattr(I, '_tc', 0) + 1
            return SVal(sym('time%d' % I._tc, 'p'), 'float')
        return Opq('result of %s' % p, I.site()) if p.startswith('logging.') and p.split('.')[1][0].isupper() else None
    if p.startswith('os.path.') or p in ('os.getcwd', 'os.getenv', 'os.listdir'):
        if p == 'os.path.join' and all(isinstance(x, str) for x in a):
            import posixpath
            return posixpath.join(*a)
        if p == 'os.path.splitext':
            if isinstance(a[0], str):
                import posixpath
                return posixpath.splitext(a[0])
            return (Opq(p, I.site()), Opq(p, I.site()))
        if p == 'os.path.basename' and isinstance(a[0], str):
            import posixpath
            return posixpath.basename(a[0])
        if p in ('os.path.exists', 'os.path.isdir', 'os.path.isfile'):
            return I.boolval(bdd.atom((p, repr(txt(I, a[0]))), None, '%s(%r)' % (p, a[0]), False, 'fs'))
        return StrV(a, tag=(p,) + tuple(txt(I, x) for x in a))
    if p.startswith('os.'):
        I.log.append((I.pg, 'os', (p, tuple(a)), I.site()))
        return None
    if p == 'NotImplemented':
        I.raise_('TypeError', 'NotImplemented is not callable')
    I.escape(a, kw)
    r = I.opq('call of external %s' % p)
    r.reach = I.reach(a, kw)
    return r


STD = {}


def std(*names):
    def deco(fn):
        for n in names:
            STD[n] = fn
        return fn
    return deco


@std('functools.reduce')
def f_reduce(I, f, xs, init=MISSING):
    items = I.iterate(xs)
    if init is MISSING:
        if not items:
            I.raise_('TypeError', 'reduce() of empty iterable with no initial value')
        r = items[0]
        items = items[1:]
    else:
        r = init
    for x in items:
        r = I.call(f, [r, x], {})
    return r


@std('functools.partial')
def f_partial(I, f, *a, **kw):
    return Partial(f, a, kw)


@std('functools.wraps')
def f_wraps(I, f, *a, **kw):
    return Builtin('wraps', lambda I, a, k: a[0])


@std('functools.lru_cache', 'functools.cache')
def f_cache(I, *a, **kw):
    if a and isinstance(a[0], FuncVal):
        return a[0]
    return Builtin('lru_cache', lambda I, a, k: a[0])


@std('contextlib.contextmanager')
def f_ctxm(I, f):
    from .interp import CtxGen
    return Builtin('contextmanager', lambda I, a, kw: CtxGen(f, a, kw))


@std('contextlib.closing')
def f_closing(I, r):
    return CtxV(lambda: r, lambda e: I.call(I.getattr(r, 'close'), [], {}) and None)


@std('contextlib.suppress')
def f_suppress(I, *excs):
    return CtxV(lambda: None, lambda e: e is not None and I.exc_matches(e, tuple(excs)))


@std('contextlib.nullcontext')
def f_null(I, x=None):
    return CtxV(lambda: x, lambda e: None)


@std('contextlib.ExitStack')
def f_exitstack(I):
    stk = I.list_(())

    def enter_context(I, a, kw):
        en, ex = context(I, a[0])
        v = en()
        append(I, stk, Builtin('exit', lambda I, b, k: ex(b[0])))
        return v

    def callback(I, a, kw):
        f, rest = a[0], a[1:]
        append(I, stk, Builtin('exit', lambda I, b, k: (I.call(f, list(rest), kw), None)[1]))
        return f

    def push(I, a, kw):
        try:
            en, ex = context(I, a[0])
        except Dead:
            raise Unsupported('ExitStack.push')
        append(I, stk, Builtin('exit', lambda I, b, k: ex(b[0])))
        return a[0]

    def exit_(e):
        o = I.obj(stk)
        if o.kind != 'list':
            raise Unsupported('exit stack')
        I.put(stk, o.with_(()))
        sw = False
        for f in reversed(o.data):
            if f.fn(I, [None if sw else e], {}) is True:
                sw = True
        return sw

    def pop_all(I, a, kw):
        raise Unsupported('ExitStack.pop_all')
    ref = I.new('inst', {}, None, None)
    I.put(ref, Obj('inst', {'enter_context': Builtin('enter_context', enter_context),
                            'callback': Builtin('callback', callback), 'push': Builtin('push', push),
                            'pop_all': Builtin('pop_all', pop_all),
                            'close': Builtin('close', lambda I, a, kw: (exit_(None), None)[1]),
                            '__enter__': Builtin('__enter__', lambda I, a, kw: ref)},
                   None, ('ctx', lambda: ref, exit_)))
    return ref


@std('itertools.chain')
def it_chain(I, *xs):
    out = []
    for x in xs:
        out += I.iterate(x)
    return I.make_iter(I.list_(out))


@std('itertools.chain.from_iterable')
def it_chainfi(I, xs):
    out = []
    for x in I.iterate(xs):
        out += I.iterate(x)
    return I.make_iter(I.list_(out))


@std('itertools.product')
def it_product(I, *xs, repeat=1):
    import itertools
    ls = [I.iterate(x) for x in xs] * repeat
    return I.make_iter(I.list_([tuple(t) for t in itertools.product(*ls)]))


@std('itertools.permutations')
def it_perm(I, xs, r=None):
    import itertools
    return I.make_iter(I.list_([tuple(t) for t in itertools.permutations(I.iterate(xs), r)]))


@std('itertools.combinations')
def it_comb(I, xs, r):
    import itertools
    return I.make_iter(I.list_([tuple(t) for t in itertools.combinations(I.iterate(xs), r)]))


ENDLESS = 200


def endless(I, items):
    g = I.make_iter(I.list_(items))
    I.set_raw(g.ref, 'endless', True)
    return g


def infinite(I, v):
    """(items, function that advances the iterator) of an endless iterator, None for any other value"""
    if not isinstance(v, GenV):
        return None
    o = I.obj(v.ref)
    if o.kind != 'inst' or not o.data.get('endless'):
        return None
    pos = I.simp(o.data['pos'])
    if not isinstance(pos, int):
        raise Unsupported('endless iterator at an unknown place')

    def advance():
        I.set_raw(v.ref, 'pos', I.binop('Add', I.obj(v.ref).data['pos'], 1))
    return list(I.obj(I.simp(o.data['list'])).data)[pos:], advance


def bounded(I, xs):
    """items of several iterables consumed together: as many as the shortest finite one has"""
    inf = [infinite(I, I.simp(x)) for x in xs]
    ls = [I.iterate(x) if f is None else None for x, f in zip(xs, inf)]
    fin = [len(l) for l in ls if l is not None]
    if not fin:
        return None
    n = min(fin)
    short = [i for i, l in enumerate(ls) if l is not None and len(l) == n][0]
    out = []
    for i, (x, l, f) in enumerate(zip(xs, ls, inf)):
        if f is None:
            out.append(l)
        else:
            if len(f[0]) < n:
                raise Unsupported('long endless iterator')
            out.append(f[0][:n])
            I.set_raw(I.simp(x).ref, 'pos', I.simp(I.obj(I.simp(x).ref).data['pos']) + n + (i < short))
    return out


@std('itertools.count')
def it_count(I, start=0, step=1):
    out = [start]
    for _ in range(ENDLESS):
        out.append(I.binop('Add', out[-1], step))
    return endless(I, out)


@std('itertools.cycle')
def it_cycle(I, xs):
    l = I.iterate(xs)
    if not l:
        return I.make_iter(I.list_(()))
    return endless(I, (l * (ENDLESS // len(l) + 1))[:ENDLESS])


@std('itertools.repeat')
def it_repeat(I, x, n=None):
    if n is None:
        return endless(I, [x] * ENDLESS)
    return I.make_iter(I.list_([x] * cint(I, n)))


@std('itertools.islice')
def it_islice(I, xs, *a):
    import itertools
    inf = infinite(I, I.simp(xs))
    if inf is not None:
        sl = [None if v is None else cint(I, v) for v in a]
        stop = sl[0] if len(sl) == 1 else sl[1]
        if stop is None:
            return endless(I, inf[0][slice(*sl)])
        if stop > len(inf[0]):
            raise Unsupported('long endless iterator')
        for _ in range(stop):
            inf[1]()
        return I.make_iter(I.list_(inf[0][slice(*sl)]))
    return I.make_iter(I.list_(list(itertools.islice(I.iterate(xs), *[None if v is None else cint(I, v) for v in a]))))


@std('itertools.accumulate')
def it_acc(I, xs, f=None):
    out = []
    for x in I.iterate(xs):
        if not out:
            out.append(x)
        else:
            out.append(I.call(f, [out[-1], x], {}) if f is not None else I.binop('Add', out[-1], x))
    return I.make_iter(I.list_(out))


@std('itertools.starmap')
def it_starmap(I, f, xs):
    return I.make_iter(I.list_([I.call(f, I.iterate(x), {}) for x in I.iterate(xs)]))


def _op(name):
    @std('operator.' + name.lower())
    def f(I, a, b):
        return I.binop(name, a, b)


for _n, _o in (('mul', 'Mult'), ('add', 'Add'), ('sub', 'Sub'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
               ('matmul', 'MatMult'), ('pow', 'Pow')):
    STD['operator.' + _n] = (lambda o: lambda I, a, b: I.binop(o, a, b))(_o)


@std('operator.neg')
def op_neg(I, a):
    return I.unary('USub', a)


@std('operator.itemgetter')
def op_ig(I, *ks):
    if len(ks) == 1:
        return Builtin('itemgetter', lambda I, a, kw: I.getitem(a[0], ks[0]))
    return Builtin('itemgetter', lambda I, a, kw: tuple(I.getitem(a[0], k) for k in ks))


@std('operator.attrgetter')
def op_ag(I, k):
    return Builtin('attrgetter', lambda I, a, kw: I.getattr(a[0], k))


@std('copy.copy')
def c_copy(I, x):
    x = I.simp(x)
    if isinstance(x, Ref):
        o = I.obj(x)
        return I.new(o.kind, o.data, o.cls, o.info)
    return x


@std('copy.deepcopy')
def c_deep(I, x, memo=None):
    x = I.simp(x)
    if isinstance(x, Ref):
        o = I.obj(x)
        if o.kind in ('list', 'set'):
            return I.new(o.kind, tuple(c_deep(I, y) for y in o.data), o.cls, o.info)
        if o.kind == 'dict':
            return I.new('dict', tuple((k, c_deep(I, v)) for k, v in o.data), o.cls, o.info)
        if o.kind == 'inst' and o.info is None:
            return I.new('inst', {k: c_deep(I, v) for k, v in o.data.items()}, o.cls)
        return I.new(o.kind, o.data, o.cls, o.info)
    if isinstance(x, tuple):
        return tuple(c_deep(I, y) for y in x)
    return x


@std('math.sqrt')
def m_sqrt(I, x):
    return I.mknum(sqrt(to_poly(I.num(x))), 'float')


@std('math.prod')
def m_prod(I, xs, start=1):
    r = start
    for x in I.iterate(xs):
        r = I.binop('Mult', r, x)
    return r


@std('math.fabs')
def m_fabs(I, x):
    return b_abs(I, x)


@std('math.floor')
def m_floor(I, x):
    x = I.simp(x)
    if isinstance(x, (int, Fraction)):
        return math.floor(x)
    return SVal(func('floor', [to_poly(I.num(x))]), 'int')


@std('math.ceil')
def m_ceil(I, x):
    x = I.simp(x)
    if isinstance(x, (int, Fraction)):
        return math.ceil(x)
    return SVal(func('ceil', [to_poly(I.num(x))]), 'int')


@std('math.pow')
def m_pow(I, x, y):
    return I.binop('Pow', x, y)


@std('math.isnan', 'math.isinf')
def m_isnan(I, x):
    x = I.simp(x)
    if isinstance(x, float):
        return x != x
    return I.opq('isnan', 'bool')


@std('math.isfinite')
def m_isfin(I, x):
    return I.opq('isfinite', 'bool')


@std('math.log', 'math.exp', 'math.sin', 'math.cos')
def m_fn(I, x, *a):
    return I.opq('math function')


@std('csv.reader')
def csv_reader(I, f, *a, **kw):
    d = {'file': f, 'pos': 0}
    kw = {k: I.simp(x) for k, x in kw.items()}
    if a and isinstance(I.simp(a[0]), str):
        kw['dialect'] = I.simp(a[0])
        a = a[1:]
    if a or any(not isinstance(x, (str, bool, int)) and x is not None for x in kw.values()):
        I.issue('unknown', 'csv reader with a dialect')
        return I.opq('csv reader dialect')
    d['kw'] = tuple(sorted((k, x) for k, x in kw.items() if (k, x) not in CSV_DEFAULT))
    return I.new('inst', d, None, 'csvreader')


CSV_DEFAULT = (('delimiter', ','), ('quotechar', '"'), ('skipinitialspace', False), ('strict', False), ('doublequote', True), ('dialect', 'excel'))


def csv_source(I, v):
    """rows of a csv reader: of the file content given by the check, or of a list of text lines"""
    f = I.simp(I.obj(v).data.get('file'))
    if isinstance(f, tuple) or isinstance(f, Ref) and I.obj(f).kind == 'list' and not I.obj(f).info or isinstance(f, GenV):
        lines = [I.simp(x) for x in I.iterate(f)]
        if not all(isinstance(x, str) for x in lines):
            raise Unsupported('csv reader of lines that are not tracked')
        return csv_parse(I, lines, I.obj(v).data.get('kw', ()))
    rows = I.hooks.get('csv_rows')
    if rows is None:
        raise Unsupported('csv content')
    return rows(I, v)


def csv_parse(I, lines, kw):
    import csv
    try:
        return [I.list_(r) for r in csv.reader(lines, **dict(kw))]
    except csv.Error as e:
        I.raise_('csv.Error', str(e))
    except TypeError as e:
        I.raise_('TypeError', str(e))


@std('collections.OrderedDict')
def od(I, *a, **kw):
    return call_type(I, BType('dict'), list(a), kw)


@std('collections.defaultdict')
def dd(I, f=None, *a, **kw):
    return I.new('dict', (), None, ('default', f))


@std('collections.deque')
def deque(I, xs=(), maxlen=None):
    xs = tuple(I.iterate(xs))
    if maxlen is None:
        return I.new('list', xs, 'deque')
    n = cint(I, maxlen)
    return I.new('list', xs[len(xs) - min(n, len(xs)):], sys.intern('deque:%d' % n))


def dq_trim(I, s, left):
    o = I.obj(s)
    if o.cls and o.cls.startswith('deque:'):
        n = int(o.cls[6:])
        if len(o.data) > n:
            I.put(s, o.with_(tuple(o.data[len(o.data) - n:] if left else o.data[:n])))


def dq(f):
    DEQUE_M[f.__name__] = f
    return f


@dq
def appendleft(I, s, x):
    o = I.obj(s)
    I.put(s, o.with_((x,) + tuple(o.data)))


@dq
def popleft(I, s):
    o = I.obj(s)
    if not o.data:
        I.raise_('IndexError', 'pop from an empty deque')
    I.put(s, o.with_(tuple(o.data[1:])))
    return o.data[0]


@dq
def extendleft(I, s, xs):
    o = I.obj(s)
    I.put(s, o.with_(tuple(reversed(I.iterate(xs))) + tuple(o.data)))


@dq
def rotate(I, s, n=1):
    o = I.obj(s)
    n = I.simp(n)
    if not isinstance(n, int):
        raise Unsupported('rotation by an unknown amount')
    if o.data:
        n %= len(o.data)
        I.put(s, o.with_(tuple(o.data[len(o.data) - n:]) + tuple(o.data[:len(o.data) - n])))


# ------------------------------------------------- named tuples, enumerations
@std('collections.namedtuple')
def namedtuple(I, name, fields, rename=False, defaults=(), module=None):
    fs = fields.replace(',', ' ').split() if isinstance(fields, str) else I.iterate(fields)
    ds = I.iterate(defaults) if defaults is not None else []
    return nt_class(I, name, fs, dict(zip(fs[len(fs) - len(ds):], ds)))


@std('typing.NamedTuple')
def typing_nt(I, name, fields=()):
    return nt_class(I, name, [I.iterate(x)[0] for x in I.iterate(fields)], {})


def nt_class(I, name, fs, dfl):
    c = ClassVal(name, [BType('tuple')], I.new('class', {'__name__': name}), I.frames[-1].module if I.frames else None, None)
    c.attrs['ntfields'] = (list(fs), dict(dfl))
    return c


def nt_fields(c):
    for k in c.mro:
        if isinstance(k, ClassVal) and 'ntfields' in k.attrs:
            return k.attrs['ntfields']
    return None


def make_nt(I, c, k, args, kw):
    fs, dfl = k.attrs['ntfields']
    if len(args) > len(fs):
        I.raise_('TypeError', '%s() takes %d arguments but %d were given' % (c.name, len(fs), len(args)))
    vals = dict(dfl)
    pos = dict(zip(fs, args))
    vals.update(pos)
    for n, v in kw.items():
        if n not in fs or n in pos:
            I.raise_('TypeError', '%s() got an unexpected argument %s' % (c.name, n))
        vals[n] = v
    for f in fs:
        if f not in vals:
            I.raise_('TypeError', '%s() missing argument %s' % (c.name, f))
    return mk_nt(c, [vals[f] for f in fs])


def nt_class_attr(I, c, name):
    x = nt_fields(c)
    if x is None:
        return MISSING
    if name == '_fields':
        return tuple(x[0])
    if name == '_make':
        def make(I, a, kw):
            it = I.iterate(a[0])
            if len(it) != len(x[0]):
                I.raise_('TypeError', 'expected %d arguments, got %d' % (len(x[0]), len(it)))
            return mk_nt(c, it)
        return Builtin('_make', make)
    if name == '_field_defaults':
        return I.new('dict', tuple(x[1].items()))
    if name in x[0]:
        i = x[0].index(name)
        return Property(Builtin('field', lambda I, a, kw: I.simp(a[0])[i]))
    return MISSING


def nt_attr(I, o, name):
    fs, dfl = nt_fields(o.cls)
    if name in fs:
        return o[fs.index(name)]
    if name == '_replace':
        def rep(I, a, kw):
            for n in kw:
                if n not in fs:
                    I.raise_('ValueError', 'unexpected field name %s' % n)
            return mk_nt(o.cls, [kw.get(f, v) for f, v in zip(fs, o)])
        return Builtin('_replace', rep)
    if name == '_asdict':
        return Builtin('_asdict', lambda I, a, kw: I.new('dict', tuple(zip(fs, o))))
    if name == '__class__':
        return o.cls
    v = I.find_method(o.cls, name)
    if v is not None:
        return I.bind(o, v)
    return nt_class_attr(I, o.cls, name)


def special_class(I, c):
    """classes whose meaning comes from a base class of the standard library"""
    import ast
    ext = [b.path for b in c.bases if isinstance(b, (Ext,))]
    std_ = [getattr(b, 'path', None) or getattr(b, 'name', None) for b in c.bases]
    data = I.st.heap[c.ref.id].data
    if any(str(n).endswith('NamedTuple') for n in std_):
        fs = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign)]
        c.attrs['ntfields'] = (fs, {f: data[f] for f in fs if f in data})
        I.st.heap[c.ref.id] = I.st.heap[c.ref.id].with_({k: v for k, v in data.items() if k not in fs})
        c.bases = [BType('tuple')]
        c.mro = [c, BType('tuple')]
        return
    if 'enum.Enum' in ext or 'enum.IntEnum' in ext or 'enum.Flag' in ext or any(
            isinstance(k, ClassVal) and 'enum' in k.attrs for k in c.mro):
        if 'enum.Enum' not in ext:
            c.attrs['opaque'] = True
        mem = []
        d = dict(data)
        n = 0
        for s in c.node.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                k = s.targets[0].id
                v = d.get(k, MISSING)
                if k.startswith('_') or v is MISSING:
                    continue
                if isinstance(v, Opq):
                    n += 1
                    v = n
                else:
                    n = v if isinstance(v, int) else n
                if c.attrs.get('opaque'):
                    d[k] = I.opq('member of %s' % c.name)
                    continue
                old = [m for nm, m, w in mem if same(w, v)]
                m = old[0] if old else I.new('inst', {'name': k, 'value': v, '_name_': k, '_value_': v}, c)
                mem.append((k, m, v))
                d[k] = m
        c.attrs['enum'] = mem
        I.st.heap[c.ref.id] = I.st.heap[c.ref.id].with_(d)


def enum_members(c):
    out = []
    for n, m, v in c.attrs['enum']:
        if m not in out:
            out.append(m)
    return out


def enum_lookup(I, c, args):
    v = I.simp(args[0]) if args else None
    if isinstance(v, (int, str, Fraction)) or isinstance(v, Ref):
        for n, m, w in c.attrs['enum']:
            if same(w, v) or same(m, v):
                return m
        if 'opaque' not in c.attrs and all(isinstance(w, (int, str, Fraction)) for n, m, w in c.attrs['enum']):
            I.raise_('ValueError', '%r is not a valid %s' % (v, c.name))
    return I.opq('member of %s' % c.name)


@std('types.SimpleNamespace')
def simplens(I, **kw):
    r = I.new('inst', dict(kw), None, ('ns',))
    return r


@std('typing.cast')
def t_cast(I, t, v):
    return v


@std('dataclasses.field')
def dc_field(I, default=MISSING, default_factory=MISSING, init=True, compare=True, **kw):
    if default_factory is not MISSING:
        d = Builtin('factory', lambda I, a, k: I.call(default_factory, [], {}))
    elif default is not MISSING:
        d = default
    else:
        d = MISSING
    return DCField(d, init, compare)


class DCField(object):
    def __init__(self, default, init, compare):
        self.default, self.init, self.compare = default, init, compare


@std('dataclasses.dataclass')
def dataclass(I, c=None, eq=True, frozen=False, init=True, **kw):
    if c is None:
        return Builtin('dataclass', lambda I, a, k: make_dataclass(I, a[0], eq, frozen))
    return make_dataclass(I, c, eq, frozen)


@std('dataclasses.asdict')
def dc_asdict(I, o):
    fs = I.obj(o).cls.attrs.get('dataclass') if isinstance(o, Ref) and isinstance(I.obj(o).cls, ClassVal) else None
    if not fs:
        return I.opq('asdict')
    return I.new('dict', tuple((f, I.getattr(o, f)) for f, _ in fs))


@std('dataclasses.replace')
def dc_replace(I, o, **kw):
    c = I.obj(o).cls if isinstance(o, Ref) else None
    fs = c.attrs.get('dataclass') if isinstance(c, ClassVal) else None
    if not fs:
        return I.opq('replace')
    d = {f: I.getattr(o, f) for f, x in fs if not isinstance(x, DCField) or x.init}
    d.update(kw)
    return I.call(c, [], d)


def make_dataclass(I, c, eq=True, frozen=False):
    import ast
    fields = {}
    for k in reversed(c.mro):
        if isinstance(k, ClassVal) and k is not c and 'dataclass' in k.attrs:
            fields.update(k.attrs['dataclass'])
    data = dict(I.st.heap[c.ref.id].data)
    for s in c.node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            if 'ClassVar' in ast.dump(s.annotation):
                continue
            n = s.target.id
            fields[n] = data.get(n, MISSING)
            if isinstance(fields[n], DCField):
                if fields[n].default is MISSING or isinstance(fields[n].default, Builtin):
                    data.pop(n)
                else:
                    data[n] = fields[n].default
    fields = list(fields.items())
    I.st.heap[c.ref.id] = I.st.heap[c.ref.id].with_(data)

    def init(I, a, kw):
        self_, rest = a[0], a[1:]
        names = [f for f, d in fields if not isinstance(d, DCField) or d.init]
        if len(rest) > len(names):
            I.raise_('TypeError', 'too many arguments for %s' % c.name)
        vals = dict(zip(names, rest))
        for k in kw:
            if k not in names or k in vals:
                I.raise_('TypeError', '%s() got an unexpected argument %s' % (c.name, k))
        vals.update(kw)
        for f, dflt in fields:
            if f in vals:
                I.set_raw(self_, f, vals[f])
                continue
            if isinstance(dflt, DCField):
                if dflt.default is MISSING and not dflt.init:
                    continue
                dflt = dflt.default
            if dflt is MISSING:
                I.raise_('TypeError', 'missing argument %s' % f)
            if isinstance(dflt, Builtin) and dflt.name == 'factory':
                dflt = I.call(dflt, [], {})
            I.set_raw(self_, f, dflt)
        pi = I.find_method(c, '__post_init__')
        if pi is not None:
            I.call(BoundMethod(self_, pi), [], {})

    def eq_(I, a, kw):
        x, y = a
        if type_of(I, x) is not type_of(I, y):
            return False
        g = bdd.TRUE
        for f, d in fields:
            if not isinstance(d, DCField) or d.compare:
                g = AND(g, I.truth(I.compare('Eq', I.getattr(x, f), I.getattr(y, f))))
        return I.boolval(g)
    if '__init__' not in data:
        I.set_raw(c.ref, '__init__', Builtin('method:dataclass_init', init))
    if eq and '__eq__' not in data:
        I.set_raw(c.ref, '__eq__', Builtin('method:dataclass_eq', eq_))
    if frozen and '__setattr__' not in data:
        I.set_raw(c.ref, '__setattr__', Builtin('method:frozen', lambda I, a, kw: I.raise_('AttributeError', 'cannot assign to field %r' % (a[1],))))
    c.attrs['dataclass'] = fields
    return c


def class_decorator(I, dv, c):
    r = I.call(dv, [c], {})
    return c if isinstance(r, Opq) else r


@std('abc.abstractmethod')
def abstractmethod(I, f):
    if isinstance(f, FuncVal):
        f.attrs['__isabstractmethod__'] = True
    return f


def is_abstract(I, c):
    if not any(isinstance(k, Ext) and k.path == 'abc.ABC' or isinstance(k, ClassVal) and k.node is not None and
               any(w.arg == 'metaclass' for w in k.node.keywords) for k in c.mro):
        return False
    names = set()
    for k in c.mro:
        if isinstance(k, ClassVal):
            names |= set(I.st.heap[k.ref.id].data)
    for n in names:
        m = I.find_method(c, n)
        f = m.fget if isinstance(m, Property) else m.func if isinstance(m, (StaticM, ClassM)) else m
        if isinstance(f, FuncVal) and f.attrs.get('__isabstractmethod__'):
            return True
    return False


@std('unittest.main')
def ut_main(I, *a, **kw):
    return None


@std('warnings.warn')
def w_warn(I, *a, **kw):
    return None


@std('os.path.exists')
def os_exists(I, p):
    return I.boolval(bdd.atom(('exists', repr(txt(I, p))), None, 'path exists %r' % (p,), False, 'fs'))
