"""Models of Python builtins and of the (non-numpy) library surface."""
import collections
import math
import os
import re
import string
import textwrap
import types

import numpy as np

from . import terms as T
from . import npmodel as N
from .terms import Node
from .values import *      # noqa
from . import values as V

TABLE = {}
CONSTS = {}
BUILTINS = {}


def bi(*names, raw=False):
    def deco(f):
        for n in names:
            b = Builtin(n, f)
            b.raw = raw
            BUILTINS[n] = b
        return f
    return deco


def ext(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


for _t in ('int', 'float', 'str', 'bool', 'complex', 'tuple', 'list', 'dict', 'set', 'frozenset', 'object', 'bytes',
           'property', 'classmethod', 'staticmethod', 'slice', 'type', 'range', 'bytearray'):
    BUILTINS[_t] = BType(_t)


# ------------------------------------------------------------------ formatting
def _alt(s):
    return s


def format_value(I, v, spec='', repr_=False):
    v = I.resolve(v)
    if isinstance(v, Choice):
        return I.branch(v.c, lambda: format_value(I, v.a, spec, repr_), lambda: format_value(I, v.b, spec, repr_))
    if isinstance(v, str):
        if repr_:
            return repr(v) if not V.has_ph(v) else "'" + v + "'"
        if spec and not V.has_ph(v):
            try:
                return format(v, spec)
            except ValueError as e:
                I.throw(ValueError, str(e))
        return v
    if isinstance(v, Arr):
        if v.size == 1 and (v.scalar or v.ndim == 0 or True):
            x = v.item()
            if v.ndim and spec:
                I.throw(TypeError, 'unsupported format string passed to numpy.ndarray.__format__')
            if isinstance(x, Node) and T.is_num(x) and v.dt.kind == 'f':
                x = float(x.args[0])
            elif isinstance(x, Node):
                x = I.pynum(x)
            s = format_value(I, x, spec)
            return s if v.ndim == 0 else '[' * v.ndim + s + ']' * v.ndim
        if spec:
            I.throw(TypeError, 'unsupported format string passed to numpy.ndarray.__format__')
        return '[' + ' '.join(format_value(I, x) for x in v.elems()) + ']'
    if isinstance(v, Node):
        if T.is_bool(v):
            return V.placeholder(v, spec)
        if T.is_num(v):
            x = v.args[0]
            if x.denominator == 1 and (not spec or spec[-1] in 'd' or spec[-1:].isdigit()):
                return format(int(x), spec)
            return format(float(x), spec)
        return V.placeholder(v, spec)
    if isinstance(v, (int, float, complex, bool)):
        try:
            return format(v, spec)
        except ValueError as e:
            I.throw(ValueError, str(e))
    if v is None:
        return 'None'
    if isinstance(v, (LList, tuple)):
        xs = [format_value(I, x, '', True) for x in I.iterate(v)]
        a, b = ('[', ']') if isinstance(v, LList) else ('(', ')')
        return a + ', '.join(xs) + b
    if isinstance(v, Exc):
        return ', '.join(format_value(I, a) for a in v.args)
    if isinstance(v, DDict):
        return '{' + ', '.join(f'{format_value(I, k, "", True)}: {format_value(I, x, "", True)}' for k, x in v.items.items()) + '}'
    if isinstance(v, Inst):
        for nm in (('__repr__',) if repr_ else ('__str__', '__repr__')):
            m = I.find_method(v, nm)
            if m is not None:
                return I.call(m, [], {})
        return f'<{v.cls.name}>'
    if isinstance(v, Opaque):
        if v.node is None:
            v.node = T.uf('opaque:' + v.path)
        return V.placeholder(v.node, spec)
    return f'<{type(v).__name__}>'


def str_format(I, fmt, args, kwargs):
    out = []
    auto = [0]
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'([^.\[]*)(.*)', field)
        first, rest = m.groups()
        if first == '':
            first = str(auto[0])
            auto[0] += 1
        if first.isdigit():
            if int(first) >= len(args):
                I.throw(IndexError, 'Replacement index out of range')
            v = args[int(first)]
        else:
            if first not in kwargs:
                I.throw(KeyError, first)
            v = kwargs[first]
        for tok in re.findall(r'\.(\w+)|\[([^\]]*)\]', rest):
            if tok[0]:
                v = I.getattr(v, tok[0])
            else:
                v = I.getitem(v, int(tok[1]) if tok[1].isdigit() else tok[1])
        if spec and '{' in spec:
            spec = re.sub(r'\{([^}]*)\}', lambda mm: str(format_value(
                I, args[(auto.__setitem__(0, auto[0] + 1) or auto[0] - 1)] if mm.group(1) == '' else
                (args[int(mm.group(1))] if mm.group(1).isdigit() else kwargs[mm.group(1)]))), spec)
        out.append(format_value(I, v, spec or '', conv == 'r'))
    return ''.join(out)


def percent_format(I, fmt, args):
    args = I.resolve(args)
    vals = list(args) if isinstance(args, tuple) else [args]
    pos = [0]

    def rep(m):
        if m.group(0) == '%%':
            return '%'
        if m.group(1):
            v = I.getitem(args, m.group(1)[1:-1])
        else:
            if pos[0] >= len(vals):
                I.throw(TypeError, 'not enough arguments for format string')
            v = vals[pos[0]]
            pos[0] += 1
        spec, c = m.group(2), m.group(3)
        if c in 'sr':
            s = format_value(I, v, '', c == 'r')
            w = spec.lstrip('-')
            if w.isdigit() and not V.has_ph(s):
                return s.ljust(int(w)) if spec.startswith('-') else s.rjust(int(w))
            return s
        if c in 'di':
            return format_value(I, N.toint(I, v) if not isinstance(v, Node) else v, spec.replace('-', '<') + 'd' if spec else '')
        return format_value(I, v, spec.replace('-', '<') + c)
    r = re.sub(r'%(\([^)]*\))?([-+0 #]*\d*(?:\.\d+)?)([diouxXeEfFgGcrs%])', rep, fmt)
    return r


# ------------------------------------------------------------------ constructors
def construct(I, t, args, kwargs):
    n = t.name
    a = I.resolve(args[0]) if args else None
    if n == 'int':
        return to_int(I, a, args, kwargs)
    if n == 'float':
        return to_float(I, a, args)
    if n == 'complex':
        if len(args) == 2:
            return T.add(N.num_el(I.resolve(args[0])), T.mul(N.num_el(I.resolve(args[1])), T.I))
        return N.num_el(a) if args else T.ZERO
    if n == 'str':
        return format_value(I, a) if args else ''
    if n == 'bool':
        return I.truth(a) if args else False
    if n == 'tuple':
        return tuple(I.iterate(a)) if args else ()
    if n == 'list':
        return LList(I.iterate(a) if args else [])
    if n in ('set', 'frozenset'):
        return SSet(I.iterate(a) if args else [])
    if n == 'dict':
        d = DDict()
        dict_update(I, d, args, kwargs)
        return d
    if n == 'range':
        return range(*[N.toint(I, x) for x in args])
    if n == 'slice':
        return slice(*[None if I.resolve(x) is None else I.idxval(x) for x in args])
    if n == 'object':
        return Inst(Class('object', [], {}, None, 'object'))
    if n == 'property':
        return Prop(*args)
    if n == 'classmethod':
        return ClassM(a)
    if n == 'staticmethod':
        return Static(a)
    if n == 'type' and len(args) == 1:
        return type_of(I, a)
    if n == 'bytes':
        return b''
    raise Limit(f'{n}()')


def type_of(I, a):
    if isinstance(a, Inst):
        return a.cls
    if isinstance(a, Exc):
        return a.cls
    for ty, nm in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (tuple, 'tuple'), (LList, 'list'),
                   (DDict, 'dict'), (SSet, 'set')):
        if isinstance(a, ty):
            return BUILTINS[nm]
    if isinstance(a, Arr):
        return Ext('numpy.float64') if a.scalar else Ext('numpy.ndarray')
    if isinstance(a, Node):
        return BUILTINS['float']
    if a is None:
        return BUILTINS.setdefault('NoneType', BType('NoneType'))
    raise Limit('type()')


def to_int(I, a, args, kwargs):
    if not args:
        return 0
    if isinstance(a, str):
        if V.has_ph(a):
            return T.fn('trunc', N.str_to_num(I, a))
        try:
            return int(a, *[N.toint(I, x) for x in args[1:]])
        except ValueError as e:
            I.throw(ValueError, str(e))
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, (int, float)):
        try:
            return int(a)
        except (ValueError, OverflowError) as e:
            I.throw(type(e), str(e))
    if isinstance(a, Arr):
        if a.size != 1:
            I.throw(TypeError, 'only size-1 arrays can be converted to Python scalars')
        x = a.item()
        return to_int(I, x, [x], {})
    if isinstance(a, Node):
        if a is T.NAN:
            I.throw(ValueError, 'cannot convert float NaN to integer')
        x = T.fn('trunc', N.num_el(a))
        return I.pynum(x)
    if a is None or isinstance(a, (LList, tuple, DDict)):
        I.throw(TypeError, f"int() argument must be a string, a bytes-like object or a real number")
    raise Limit(f'int({a!r})')


def to_float(I, a, args):
    if not args:
        return T.ZERO
    if isinstance(a, str):
        if a.strip().lower() in ('inf', '+inf', 'infinity'):
            return T.INF
        if a.strip().lower() == 'nan':
            return T.NAN
        return N.str_to_num(I, a)
    if isinstance(a, Arr):
        if a.size != 1:
            I.throw(TypeError, 'only size-1 arrays can be converted to Python scalars')
        return to_float(I, a.item(), [1])
    if isinstance(a, (bool, int, float, Node)):
        return N.num_el(a)
    if isinstance(a, Opaque):
        return T.uf('opaque:' + a.path)
    if a is None or isinstance(a, (LList, tuple, DDict)):
        I.throw(TypeError, 'float() argument must be a string or a real number')
    raise Limit(f'float({a!r})')


# ------------------------------------------------------------------ isinstance
_EXTT = {
    'numpy.ndarray': lambda v: isinstance(v, Arr) and not v.scalar or getattr(v, 'is_ndarray', False),
    'numpy.generic': lambda v: isinstance(v, Arr) and v.scalar,
    'numpy.number': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind in 'ifc',
    'numpy.floating': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind == 'f',
    'numpy.float64': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind == 'f',
    'numpy.integer': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind == 'i',
    'numpy.bool_': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind == 'b',
    'numpy.datetime64': lambda v: isinstance(v, Arr) and v.scalar and v.dt.kind == 'M',
}


def _isnumber(v):
    return isinstance(v, (int, float, complex, Node)) or isinstance(v, Arr) and v.scalar and v.dt.kind in 'bifc'


for _n in ('numbers.Number', 'numbers.Real', 'numbers.Complex'):
    _EXTT[_n] = _isnumber
_EXTT['numbers.Integral'] = lambda v: isinstance(v, int) or isinstance(v, Arr) and v.scalar and v.dt.kind in 'ib'
for _n in ('collections.abc.Mapping', 'typing.Mapping', 'collections.abc.MutableMapping'):
    _EXTT[_n] = lambda v: isinstance(v, DDict) or isinstance(v, Inst) and v.data is not None
for _n in ('collections.abc.Sequence', 'typing.Sequence'):
    _EXTT[_n] = lambda v: isinstance(v, (LList, tuple, str, range))
for _n in ('collections.abc.Iterable', 'typing.Iterable', 'collections.abc.Collection'):
    _EXTT[_n] = lambda v: isinstance(v, (LList, tuple, str, range, DDict, SSet)) or isinstance(v, Arr) and not v.scalar
_EXTT['collections.abc.Callable'] = lambda v: isinstance(v, (Func, Bound, Builtin, Class))


def isinstance_(I, v, t):
    v, t = I.resolve(v), I.resolve(t)
    if isinstance(v, Choice):
        return T.bor(T.band(v.c, isinstance_(I, v.a, t)), T.band(T.bnot(v.c), isinstance_(I, v.b, t)))
    if isinstance(t, (tuple, LList)):
        return T.bor(*[isinstance_(I, v, x) for x in I.iterate(t)])
    if isinstance(t, BType):
        n = t.name
        if n == 'object':
            return True
        if n == 'bool':
            return isinstance(v, bool) or isinstance(v, Node) and T.is_bool(v)
        if n == 'int':
            return isinstance(v, int) or isinstance(v, Node) and (
                T.is_bool(v) or v.op == 'sym' and T.SYM_KIND[v.args[0]]['kind'] == 'int')
        if n == 'float':
            return isinstance(v, float) or isinstance(v, Node) and not T.is_bool(v) and \
                not (v.op == 'sym' and T.SYM_KIND[v.args[0]]['kind'] == 'int') or \
                isinstance(v, Arr) and v.scalar and v.dt.kind == 'f'
        if n == 'complex':
            return isinstance(v, complex) or isinstance(v, Arr) and v.scalar and v.dt.kind == 'c'
        if n == 'str':
            return isinstance(v, str)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'list':
            return isinstance(v, LList) and not isinstance(v, V.Iter)
        if n == 'dict':
            return isinstance(v, DDict) or isinstance(v, Inst) and v.data is not None
        if n in ('set', 'frozenset'):
            return isinstance(v, SSet)
        if n == 'slice':
            return isinstance(v, slice)
        if n == 'range':
            return isinstance(v, range)
        if n == 'type':
            return isinstance(v, (Class, BType, type))
        if n == 'NoneType':
            return v is None
        if n in ('bytes', 'bytearray'):
            return isinstance(v, bytes)
        raise Limit(f'isinstance {n}')
    if isinstance(t, Class):
        if isinstance(v, Exc) and isinstance(v.cls, Class):
            return t in v.cls.mro()
        return isinstance(v, Inst) and t in v.cls.mro()
    if isinstance(t, type):
        return isinstance(v, Exc) and I.exc_match(v, t)
    if isinstance(t, Ext):
        f = _EXTT.get(t.path)
        if f is not None:
            return f(v)
        if isinstance(v, ExtObjBase):
            return v.tname == t.path
        if t.path.startswith(('pandas.', 'datetime.', 'pathlib.', 'h5py.', 'io.', 'os.')):
            return False
    raise Limit(f'isinstance(…, {t!r})')


def ExtObjBase_():
    from .interp import ExtObj
    return ExtObj


class _Lazy(type):
    def __instancecheck__(cls, o):
        from .interp import ExtObj
        return isinstance(o, ExtObj)


class ExtObjBase(metaclass=_Lazy):
    pass


# ------------------------------------------------------------------ builtins
@bi('isinstance')
def _isinstance(I, a, k):
    return isinstance_(I, a[0], a[1])


@bi('issubclass')
def _issubclass(I, a, k):
    c, t = I.resolve(a[0]), I.resolve(a[1])
    ts = I.iterate(t) if isinstance(t, (tuple, LList)) else [t]
    m = c.mro() if isinstance(c, Class) else [c]
    return any(x in m or isinstance(c, type) and isinstance(x, type) and issubclass(c, x) for x in ts)


@bi('print')
def _print(I, a, k):
    I.event('print', args=a)
    f = I.resolve(k.get('file'))
    if isinstance(f, ExtObjBase):
        sep, end = [d if I.resolve(k.get(n)) is None else I.resolve(k[n]) for n, d in (('sep', ' '), ('end', '\n'))]
        t = sep.join(I.resolve(I.call(BUILTINS['str'], [x], {})) for x in a) + end
        I.call(I.getattr(f, 'write'), [t], {})


@bi('len')
def _len(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Arr):
        if v.ndim == 0:
            I.throw(TypeError, 'len() of unsized object')
        return int(v.shape[0])
    if isinstance(v, str):
        if V.has_ph(v):
            raise Limit('len of symbolic text')
        return len(v)
    if isinstance(v, (tuple, range, bytes)):
        return len(v)
    if isinstance(v, (V.Iter, V.Inf)):
        I.throw(TypeError, 'iterator has no len()')
    if isinstance(v, LList):
        return len(I.iterate(v))
    if isinstance(v, SSet):
        return len(v.items)
    if isinstance(v, Inst):
        m = I.find_method(v, '__len__')
        if m is not None:
            return I.call(m, [], {})
    if I.dict_of(v) is not None:
        return len(I.dict_items(v))
    if v is None or isinstance(v, (int, float, Node)):
        I.throw(TypeError, 'object has no len()')
    if isinstance(v, ExtObjBase):
        return len(v.iter(I))
    raise Limit(f'len({v!r})')


@bi('zip')
def _zip(I, a, k):
    cols = []
    shared = len({id(I.resolve(x)) for x in a}) < len(a)
    for x in a:
        x = I.resolve(x)
        cols.append(x if isinstance(x, (Opaque, V.Inf)) or shared and isinstance(x, V.Iter) else I.iterate(x))
    if not a:
        return V.Iter()
    if all(isinstance(c, V.Inf) for c in cols):
        return V.Inf(lambda i: tuple(I.draw(c)[1] for c in cols))
    ns = [len(c) for c in cols if isinstance(c, list)]
    if k.get('strict') and len(set(ns)) > 1:
        I.throw(ValueError, 'zip() arguments have different lengths')
    if not ns and not any(isinstance(c, V.Iter) for c in cols):
        raise Limit('zip of opaque')
    out = []
    i = 0
    while True:
        row = []
        for c in cols:
            if isinstance(c, list):
                if i >= len(c):
                    return V.Iter(out)
                row.append(c[i])
            elif isinstance(c, Opaque):
                row.append(Opaque(f'{c.path}[{i}]'))
            else:
                ok, x = I.draw(c)
                if not ok:
                    return V.Iter(out)
                row.append(x)
        out.append(tuple(row))
        i += 1


@bi('enumerate')
def _enumerate(I, a, k):
    s = N.toint(I, a[1] if len(a) > 1 else k.get('start', 0))
    v = I.resolve(a[0])
    if isinstance(v, V.Inf):
        return V.Inf(lambda i: (i + s, I.draw(v)[1]))
    return V.Iter([(i + s, v) for i, v in enumerate(I.iterate(v))])


@bi('map')
def _map(I, a, k):
    cols = _zip(I, list(a[1:]), {})
    if isinstance(cols, V.Inf):
        return V.Inf(lambda i: I.call(a[0], list(I.draw(cols)[1]), {}))
    return V.Iter([I.call(a[0], list(t), {}) for t in I.iterate(cols)])


@bi('filter')
def _filter(I, a, k):
    out = []
    for x in I.iterate(a[1]):
        c = I.truth(x if I.resolve(a[0]) is None else I.call(a[0], [x], {}))
        if c is True:
            out.append(x)
        elif c is not False:
            raise Limit('conditional filter')
    return V.Iter(out)


def _pykey(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr) and v.size == 1:
        v = v.item()
    if isinstance(v, Node):
        if T.is_const(v):
            from . import pit
            return pit.const(v)
        raise Limit('symbolic sort key')
    if isinstance(v, tuple):
        return tuple(_pykey(I, x) if not isinstance(x, (Arr, Inst, DDict, LList, Func)) else 0 for x in v)
    if isinstance(v, (str, int, float)):
        return v
    raise Limit('sort key')


@bi('sorted')
def _sorted(I, a, k):
    xs = I.iterate(a[0])
    key = I.resolve(k.get('key'))
    ks = [_pykey(I, x if key is None else I.call(key, [x], {})) for x in xs]
    order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(k.get('reverse', False)))
    return LList([xs[i] for i in order])


@bi('reversed')
def _reversed(I, a, k):
    if isinstance(I.resolve(a[0]), (V.Iter, V.Inf)):
        I.throw(TypeError, 'iterator is not reversible')
    return V.Iter(list(reversed(I.iterate(a[0]))))


@bi('list_iterator', 'iter')
def _iter(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, (V.Iter, V.Inf)):
        return v
    if len(a) > 1:
        out = []
        while True:
            x = I.call(v, [], {})
            c = I.simp(I.truth(I.compare('Eq', x, a[1])))
            if c is True:
                return V.Iter(out)
            if c is not False or len(out) > 5000:
                raise Limit('iter() with data-dependent sentinel')
            out.append(x)
    return V.Iter(I.iterate(v))


@bi('next')
def _next(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, (V.Iter, V.Inf)):
        ok, x = I.draw(v)
        if not ok:
            if len(a) > 1:
                return a[1]
            I.throw(StopIteration)
        return x
    if isinstance(v, (LList, tuple, str, Arr, DDict)):
        I.throw(TypeError, 'object is not an iterator')
    if isinstance(v, ExtObjBase) and hasattr(v, 'next'):
        return v.next(I, *a[1:])
    raise Limit('next')


def _mm(name):
    def f(I, a, k):
        xs = I.iterate(a[0]) if len(a) == 1 else list(a)
        xs = [I.resolve(x) for x in xs]
        if not xs:
            if 'default' in k:
                return k['default']
            I.throw(ValueError, f'{name}() arg is an empty sequence')
        key = I.resolve(k.get('key'))
        if key is not None:
            ks = [_pykey(I, I.call(key, [x], {})) for x in xs]
            i = (ks.index(min(ks)) if name == 'min' else ks.index(max(ks)))
            return xs[i]
        if all(isinstance(x, (int, float)) for x in xs) or all(isinstance(x, str) for x in xs):
            return min(xs) if name == 'min' else max(xs)
        if any(x is None for x in xs):
            I.throw(TypeError, "'<' not supported between instances of 'NoneType'")
        isarr = [x for x in xs if isinstance(x, Arr)]
        if any(x.size != 1 for x in isarr):
            I.throw(ValueError, 'The truth value of an array with more than one element is ambiguous')
        r = T.fn(name, *[N.num_el(x) for x in xs])
        if isarr:
            return Arr(Buf([r]), np.zeros((), dtype=int), N.promote([x.dt for x in isarr]), True)
        return I.pynum(r) if all(isinstance(x, int) for x in xs) else r
    BUILTINS[name] = Builtin(name, f)


_mm('min')
_mm('max')


@bi('abs')
def _abs(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Node):
        return T.fn('abs', v)
    return N.TABLE['numpy.abs'](I, [v], {})


@bi('sum')
def _sum(I, a, k):
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.iterate(a[0]):
        r = I.binop('Add', r, x)
    return r


TABLE['math.fsum'] = lambda I, a, k: _sum(I, a, {})


@bi('round')
def _round(I, a, k):
    v = I.resolve(a[0])
    n = I.resolve(a[1]) if len(a) > 1 else k.get('ndigits')
    if isinstance(v, (int, float)) and not isinstance(n, Node):
        return round(v, n) if n is not None else round(v)
    r = N.TABLE['numpy.around'](I, [v] + ([n] if n is not None else []), {})
    return r.item() if isinstance(r, Arr) and not isinstance(v, Arr) else r


@bi('any')
def _any(I, a, k):
    v = I.resolve(a[0])
    xs = I.iterate(v)
    return T.bor(*[I.truth(x) for x in xs]) if xs else False


@bi('all')
def _all(I, a, k):
    xs = I.iterate(a[0])
    return T.band(*[I.truth(x) for x in xs]) if xs else True


@bi('pow')
def _pow(I, a, k):
    if len(a) == 3 and I.resolve(a[2]) is not None:
        return I.binop('Mod', I.binop('Pow', a[0], a[1]), a[2])
    return I.binop('Pow', a[0], a[1])


TABLE['math.pow'] = _pow


@bi('divmod')
def _divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


@bi('repr')
def _repr(I, a, k):
    return format_value(I, a[0], '', True)


@bi('format')
def _format(I, a, k):
    return format_value(I, a[0], a[1] if len(a) > 1 else '')


@bi('callable')
def _callable(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Inst):
        return I.find_method(v, '__call__') is not None
    return isinstance(v, (Func, Bound, Class, Builtin, Ext, BType, type))


@bi('id')
def _id(I, a, k):
    return id(a[0])


@bi('hash')
def _hash(I, a, k):
    return hash(I.key(a[0]))


@bi('getattr')
def _getattr(I, a, k):
    o, name = I.resolve(a[0]), I.resolve(a[1])
    if len(a) == 2:
        return I.getattr(o, name)
    return try_(I, lambda: I.getattr(o, name), AttributeError, lambda: a[2])


@bi('hasattr')
def _hasattr(I, a, k):
    o, name = I.resolve(a[0]), I.resolve(a[1])
    return try_(I, lambda: (I.getattr(o, name), True)[1], AttributeError, lambda: False)


def try_(I, f, exc, g):
    r = I.run_region(f)
    caught = [o for o in r.outcomes if o.kind == 'raise' and I.exc_match(o.value, exc)]
    I.lift_outcomes([o for o in r.outcomes if o not in caught])
    if not caught:
        if not r.normal:
            raise Dead()
        I.pc.extend(r.extra)
        I.commit(r.delta)
        return r.v
    if not r.normal:
        return g()
    raise Limit('conditional attribute')


def try_stmt(I, body, types):
    """with suppress(types): body"""
    n0 = len(I.pc)
    r = I.run_region(body)
    caught = [o for o in r.outcomes if o.kind == 'raise' and any(I.exc_match(o.value, t) for t in types)]
    I.lift_outcomes([o for o in r.outcomes if o not in caught])
    ends = [(I.cond_since(o.pc, n0), None, o.delta) for o in caught]
    if r.normal:
        ends.append((T.band(*r.extra) if r.extra else True, None, r.delta))
    if not ends:
        raise Dead()
    if len(ends) == 1:
        I.pc.extend(caught[0].pc[n0:] if caught else r.extra)
    _, d = I.merge_many(ends)
    I.commit(d)


@bi('setattr')
def _setattr(I, a, k):
    I.setattr(a[0], I.resolve(a[1]), a[2])


@bi('delattr')
def _delattr(I, a, k):
    o = I.resolve(a[0])
    I.touch(o)
    o.attrs.pop(a[1], None)


@bi('vars')
def _vars(I, a, k):
    return I.getattr(a[0], '__dict__')


@bi('super')
def _super(I, a, k):
    return Super(a[0], a[1])


@bi('globals')
def _globals(I, a, k):
    return DDict(I.frames[-1].module.env.vars)


@bi('locals')
def _locals(I, a, k):
    return DDict(I.frames[-1].env.vars)


@bi('input', 'eval', 'exec', 'compile', '__import__', 'open_code')
def _no(I, a, k):
    raise Limit('dynamic code')


# ------------------------------------------------------------------ dict
def dict_update(I, d, args, kwargs):
    new = {}
    if args:
        s = I.resolve(args[0])
        if s is None:
            I.throw(TypeError, "'NoneType' object is not iterable")
        if I.dict_of(s) is not None or isinstance(s, ExtObjBase) and hasattr(s, 'keys'):
            for k, v in I.dict_items(s):
                new[k] = v
        else:
            for it in I.iterate(s):
                k, v = I.iterate(it)
                new[I.key(k)] = v
    new.update(kwargs)
    I.touch(d)
    d.items.update(new)


def has_default(I, d, k):
    """True/False/cond whether key is present"""
    if k not in d.items:
        if isinstance(k, Node):
            raise Limit('symbolic dict key')
        return False
    v = d.items[k]
    if isinstance(v, Choice) and v.a is UNDEF:
        return I.simp(T.bnot(v.c))
    if isinstance(v, Choice) and v.b is UNDEF:
        return I.simp(v.c)
    return True


def dict_method(I, d, name, inst=None):
    def get(I, a, k):
        kk = I.key(a[0])
        dflt = a[1] if len(a) > 1 else k.get('default')
        c = has_default(I, d, kk)
        return I.branch(c, lambda: I.dict_get(d, kk), lambda: dflt)

    def setdefault(I, a, k):
        kk = I.key(a[0])
        dflt = a[1] if len(a) > 1 else k.get('default')

        def put():
            I.touch(d)
            d.items[kk] = dflt
            return dflt
        return I.branch(has_default(I, d, kk), lambda: I.dict_get(d, kk), put)

    def pop(I, a, k):
        kk = I.key(a[0])
        c = has_default(I, d, kk)

        def yes():
            v = I.dict_get(d, kk)
            I.touch(d)
            del d.items[kk]
            return v

        def no():
            if len(a) > 1:
                return a[1]
            if 'default' in k:
                return k['default']
            I.throw(KeyError, kk)
        return I.branch(c, yes, no)

    def clear(I, a, k):
        I.touch(d)
        d.items = {}

    def popitem(I, a, k):
        I.touch(d)
        kk = list(d.items)[-1]
        return (kk, d.items.pop(kk))

    def setitem(I, a, k):
        I.touch(d)
        d.items[I.key(a[0])] = a[1]

    def delitem(I, a, k):
        kk = I.key(a[0])
        if kk not in d.items:
            I.throw(KeyError, kk)
        I.touch(d)
        del d.items[kk]

    def ior(I, a, k):
        dict_update(I, d, a, {})
        return inst if inst is not None else d

    m = {
        'get': get, 'setdefault': setdefault, 'pop': pop, 'clear': clear, 'popitem': popitem,
        'items': lambda I, a, k: LList([(x, I.resolve(y)) for x, y in I.dict_items(d)]),
        'keys': lambda I, a, k: LList([x for x, _ in I.dict_items(d)]),
        'values': lambda I, a, k: LList([I.resolve(y) for _, y in I.dict_items(d)]),
        'update': lambda I, a, k: dict_update(I, d, a, k),
        'copy': lambda I, a, k: DDict(d.items),
        '__getitem__': lambda I, a, k: I.dict_get(d, a[0]),
        '__setitem__': setitem, '__delitem__': delitem,
        '__contains__': lambda I, a, k: has_default(I, d, I.key(a[0])),
        '__len__': lambda I, a, k: len(I.dict_items(d)),
        '__iter__': lambda I, a, k: LList([x for x, _ in I.dict_items(d)]),
        '__ior__': ior,
        '__or__': lambda I, a, k: DDict(dict(I.dict_items(d) + I.dict_items(a[0]))),
        'move_to_end': lambda I, a, k: None,
        '__repr__': lambda I, a, k: format_value(I, d),
        '__str__': lambda I, a, k: format_value(I, d),
    }.get(name)
    if m is None:
        return None
    return Builtin('dict.' + name, m)


def type_attr(I, t, name):
    if t.name == '__name__' or name == '__name__':
        return t.name
    if t.name == 'dict':
        if name == 'fromkeys':
            return Builtin('dict.fromkeys', lambda I, a, k: DDict({I.key(x): (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])}))

        def un(I, a, k):
            d = I.dict_of(a[0])
            if name == '__init__':
                return dict_update(I, d, a[1:], k)
            m = dict_method(I, d, name, a[0] if isinstance(a[0], Inst) else None)
            if m is None:
                no_attr(I, name, dict)
            return m.f(I, a[1:], k)
        return Builtin('dict.' + name, un)
    if t.name == 'object' and name == '__setattr__':
        return Builtin('object.__setattr__', lambda I, a, k: I.setattr(a[0], a[1], a[2], raw=True))
    if t.name == 'str' and name == 'maketrans':
        def maketrans(I, a, k):
            a = [I.resolve(x) for x in a]
            if I.dict_of(a[0]) is not None:
                a = [{kk: I.resolve(v) for kk, v in I.dict_items(a[0])}]
            if not all(isinstance(x, (str, dict)) for x in a):
                raise Limit('str.maketrans')
            try:
                return DDict(str.maketrans(*a))
            except (ValueError, TypeError) as e:
                I.throw(type(e), str(e))
        return Builtin('str.maketrans', maketrans)
    if t.name in ('str', 'list', 'tuple', 'set'):
        return Builtin(t.name + '.' + name, lambda I, a, k: I.call(value_attr(I, a[0], name), a[1:], k))
    if t.name == 'object' and name in ('__init__',):
        return Builtin('object.__init__', lambda I, a, k: None)
    return None


def ext_getitem(I, path, k):
    return N.ext_getitem(I, path, k)


def _field(I, a, k):
    return ('dataclass.field', k)


TABLE['dataclasses.field'] = _field


# ------------------------------------------------------------------ attributes of plain values
def no_attr(I, name, *types):
    """the attribute is not modelled: absent from the real types, or beyond the model"""
    for t in types:
        if hasattr(t, name):
            raise Limit(f'{t.__name__}.{name}')
    I.throw(AttributeError, f"'{types[0].__name__}' object has no attribute '{name}'")


def value_attr(I, o, name):
    if isinstance(o, Arr):
        return N.arr_attr(I, o, name)
    if isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, (V.Iter, V.Inf)):
        if name == '__next__':
            return Builtin('next', lambda I, a, k: _next(I, [o], {}))
        if name == '__iter__':
            return Builtin('iter', lambda I, a, k: o)
        if name == 'close':
            return Builtin('close', lambda I, a, k: I.iterate(o) and None)
        I.throw(AttributeError, f"iterator has no attribute '{name}'")
    if isinstance(o, LList):
        return list_attr(I, o, name)
    if isinstance(o, DDict):
        m = dict_method(I, o, name)
        if m is not None:
            return m
        no_attr(I, name, dict, collections.OrderedDict, collections.defaultdict, collections.Counter)
    if isinstance(o, NTuple):
        names, _, cls = o.spec
        if name in names:
            return o[names.index(name)]
        if name == '_fields':
            return tuple(names)
        if name == '_asdict':
            return Builtin(name, lambda I, a, k: DDict(dict(zip(names, o))))
        if name == '_replace':
            return Builtin(name, lambda I, a, k: o.like(k.get(n, x) for n, x in zip(names, o)))
        if cls is not None and name in cls.ns:
            return I.bind_attr(cls.ns[name], o, cls)
    if isinstance(o, tuple):
        if name == 'index':
            return Builtin(name, lambda I, a, k: list_index(I, list(o), a))
        if name == 'count':
            return Builtin(name, lambda I, a, k: sum(1 for x in o if I.truth(I.compare('Eq', x, a[0])) is True))
        no_attr(I, name, tuple)
    if isinstance(o, SSet):
        return set_attr(I, o, name)
    if isinstance(o, BType):
        m = type_attr(I, o, name)
        if m is not None:
            return m
        raise Limit(f'{o.name}.{name}')
    if isinstance(o, type):
        if name == '__name__':
            return o.__name__
        raise Limit(f'{o}.{name}')
    if isinstance(o, DT):
        if name == 'kind':
            return o.kind
        if name == 'names':
            return o.names
        if name == 'type':
            return Opaque('dtype.type') if o.kind == 'O' else o
        if name == 'itemsize':
            return 8
        if name == 'name':
            return {'f': 'float64', 'i': 'int64', 'b': 'bool', 'c': 'complex128', 'O': 'object', 'U': 'str'}.get(o.kind, o.kind)
        raise Limit(f'dtype.{name}')
    if isinstance(o, (int, float, complex, Node)):
        if isinstance(o, Node) and name in ('real', 'imag'):
            return T.fn(name, o)
        if name in ('real', 'imag') and isinstance(o, (int, float)):
            return o if name == 'real' else 0
        if name in ('conjugate',):
            return Builtin(name, lambda I, a, k: T.fn('conj', N.num_el(o)))
        if name == 'is_integer':
            return Builtin(name, lambda I, a, k: T.cmp('eq', T.fn('floor', N.num_el(o)), N.num_el(o)))
        no_attr(I, name, float, int, complex, np.float64)
    if isinstance(o, range):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}[name]
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, Masked):
        if name == 'size':
            raise Limit('size of masked selection')
        raise Limit(f'masked.{name}')
    if isinstance(o, Builtin):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return None
        if name == '_make' and hasattr(o, 'spec'):
            return Builtin(name, lambda I, a, k: I.call(o, I.iterate(a[0]), {}))
        if name == '_fields' and hasattr(o, 'spec'):
            return tuple(o.spec[0])
    if isinstance(o, bytes):
        if name == 'decode':
            return Builtin(name, lambda I, a, k: o.decode())
    raise Limit(f'attribute {name} of {o!r}')


def named_tuple(tname, names, defaults, cls):
    spec = (list(names), defaults, cls)

    def make(I, a, k):
        if len(a) > len(names):
            I.throw(TypeError, 'too many arguments')
        vals = dict(zip(names, a))
        for kk, v in k.items():
            if kk not in names or kk in vals:
                I.throw(TypeError, f'got an unexpected keyword argument {kk!r}')
            vals[kk] = v
        for n in names:
            if n not in vals:
                if n not in defaults:
                    I.throw(TypeError, f'missing required argument {n!r}')
                vals[n] = defaults[n]
        r = NTuple(vals[n] for n in names)
        r.spec = spec
        return r
    b = Builtin(tname, make)
    b.raw = True
    b.spec = spec
    return b


@ext('collections.namedtuple')
def _namedtuple(I, a, k):
    f = I.resolve(a[1] if len(a) > 1 else k['field_names'])
    names = f.replace(',', ' ').split() if isinstance(f, str) else list(I.iterate(f))
    d = list(I.iterate(k['defaults'])) if I.resolve(k.get('defaults')) is not None else []
    return named_tuple(I.resolve(a[0]), names, dict(zip(names[len(names) - len(d):], d)), None)


def list_index(I, xs, a):
    for i, x in enumerate(xs):
        c = I.truth(I.compare('Eq', x, a[0]))
        if c is True:
            return i
        if c is not False:
            raise Limit('symbolic index')
    I.throw(ValueError, 'not in list')


def list_attr(I, o, name):
    def append(I, a, k):
        I.touch(o)
        o.items = o.items + [a[0]]
        if o.origin is not None:
            I.event('write', origin=o.origin)

    def extend(I, a, k):
        xs = I.iterate(a[0])
        I.touch(o)
        o.items = o.items + xs

    def insert(I, a, k):
        I.touch(o)
        xs = list(o.items)
        xs.insert(N.toint(I, a[0]), a[1])
        o.items = xs

    def pop(I, a, k):
        I.touch(o)
        xs = list(o.items)
        if not xs:
            I.throw(IndexError, 'pop from empty list')
        v = xs.pop(N.toint(I, a[0]) if a else -1)
        o.items = xs
        return v

    def remove(I, a, k):
        i = list_index(I, o.items, a)
        I.touch(o)
        o.items = o.items[:i] + o.items[i + 1:]

    def clear(I, a, k):
        I.touch(o)
        o.items = []

    def reverse(I, a, k):
        I.touch(o)
        o.items = o.items[::-1]

    def sort(I, a, k):
        r = _sorted(I, [LList(o.items)], k)
        I.touch(o)
        o.items = r.items
    m = dict(append=append, extend=extend, insert=insert, pop=pop, remove=remove, clear=clear, reverse=reverse, sort=sort,
             copy=lambda I, a, k: LList(o.items), index=lambda I, a, k: list_index(I, o.items, a),
             count=lambda I, a, k: sum(1 for x in o.items if I.truth(I.compare('Eq', x, a[0])) is True),
             __len__=lambda I, a, k: len(o.items),
             isdisjoint=lambda I, a, k: not any(x in I.iterate(a[0]) for x in o.items),
             __getitem__=lambda I, a, k: I.getitem(o, a[0]),
             __iter__=lambda I, a, k: o,
             send=None, close=lambda I, a, k: None).get(name)
    if m is None:
        no_attr(I, name, list, types.GeneratorType, type({}.keys()), type({}.items()), collections.deque, np.flatiter)
    return Builtin('list.' + name, m)


def set_attr(I, o, name):
    def add(I, a, k):
        I.touch(o)
        x = I.key(a[0])
        if x not in o.items:
            o.items = o.items + [x]

    def update(I, a, k):
        I.touch(o)
        for s in a:
            for x in I.iterate(s):
                if x not in o.items:
                    o.items = o.items + [x]

    def others(a):
        return [x for s in a for x in I.iterate(s)]
    m = dict(add=add, update=update, copy=lambda I, a, k: SSet(o.items),
             union=lambda I, a, k: SSet(o.items + others(a)),
             intersection=lambda I, a, k: SSet([x for x in o.items if all(x in I.iterate(s) for s in a)]),
             difference=lambda I, a, k: SSet([x for x in o.items if x not in others(a)]),
             issubset=lambda I, a, k: all(x in others(a) for x in o.items),
             issuperset=lambda I, a, k: all(x in o.items for x in others(a)),
             isdisjoint=lambda I, a, k: not any(x in o.items for x in others(a))).get(name)
    if name in ('discard', 'remove'):
        def m(I, a, k):
            I.touch(o)
            o.items = [x for x in o.items if x != a[0]]
    if m is None:
        raise Limit('set.' + name)
    return Builtin('set.' + name, m)


_SAFE = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'splitlines', 'startswith', 'endswith', 'replace',
         'find', 'rfind', 'index', 'count', 'join', 'zfill', 'title', 'capitalize', 'isdigit', 'isalpha', 'isalnum', 'isspace',
         'partition', 'rpartition', 'ljust', 'rjust', 'center', 'expandtabs', 'casefold', 'isnumeric', 'isupper', 'islower',
         'isidentifier', 'isdecimal', 'swapcase', 'removeprefix', 'removesuffix', 'translate', 'encode')


def str_attr(I, o, name):
    if name == 'format':
        return Builtin('str.format', lambda I, a, k: str_format(I, o, a, k))
    if name == 'join':
        def join(I, a, k):
            xs = [I.resolve(x) for x in I.iterate(a[0])]
            for x in xs:
                if not isinstance(x, str):
                    I.throw(TypeError, 'sequence item: expected str instance')
            return o.join(xs)
        return Builtin('str.join', join)
    if name not in _SAFE:
        no_attr(I, name, str)
    f = getattr(o, name)

    def call(I, a, k):
        aa = []
        for x in a:
            x = I.resolve(x)
            if name == 'translate' and I.dict_of(x) is not None:
                x = {kk: I.resolve(v) for kk, v in I.dict_items(x)}
            if isinstance(x, LList):
                x = tuple(x.items)
            if isinstance(x, Node):
                x = I.pynum(x)
            if isinstance(x, (Node, Arr, DDict)):
                raise Limit('str method argument')
            aa.append(x)
        if V.has_ph(o) and name in ('isdigit', 'isalpha', 'ljust', 'rjust', 'zfill', 'center', 'isnumeric', 'encode'):
            if name in ('ljust', 'rjust', 'zfill', 'center'):
                return o
            raise Limit('str method on symbolic text')
        if V.has_ph(o) and name in ('replace',) and (V.has_ph(str(aa[0])) or not aa[0]):
            raise Limit('replace on symbolic text')
        try:
            r = f(*aa, **{kk: I.resolve(v) for kk, v in k.items()})
        except (ValueError, TypeError) as e:
            I.throw(type(e), str(e))
        return LList(r) if isinstance(r, list) else r
    return Builtin('str.' + name, call)


def unknown(I, path, args, kwargs):
    I.event('opaque_call', path=path, args=args, kwargs=kwargs)
    if path.startswith(('requests.', 'urllib.', 'http.', 'socket.', 'ftplib.')):
        I.event('network', path=path, args=args)
    return Opaque(path + '()')
from .extlibs import Obj   # noqa  (library models register themselves)
