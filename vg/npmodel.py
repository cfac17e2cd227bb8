"""Transfer functions for numpy over abstract arrays."""
import inspect
import math
import re
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Node
from .values import *      # noqa
from . import values as V

TABLE = {}
CONSTS = {
    'numpy.pi': T.PI, 'math.pi': T.PI, 'numpy.nan': T.NAN, 'numpy.NaN': T.NAN, 'math.nan': T.NAN,
    'numpy.inf': T.INF, 'math.inf': T.INF, 'numpy.e': T.fn('exp', 1), 'math.e': T.fn('exp', 1),
}
# numpy.newaxis is None: handled in interp via ext_value -> need sentinel
NEWAXIS = None


def reg(*names):
    def deco(f):
        for n in names:
            TABLE['numpy.' + n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def isnum(v):
    return isinstance(v, (int, float, complex, Node, Fraction))


def kind_of(v):
    if isinstance(v, (bool, np.bool_)):
        return B
    if isinstance(v, (int, np.integer)):
        return INT
    if isinstance(v, complex):
        return C
    if isinstance(v, (float, Fraction)):
        return F
    if isinstance(v, Node):
        if T.is_bool(v):
            return B
        if v.op == 'sym' and T.SYM_KIND[v.args[0]]['kind'] == 'int':
            return INT
        if T.has_complex(v):
            return C
        return F
    if isinstance(v, str):
        return U
    return O


def el(v):
    """array element for python scalar"""
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, complex, Fraction)):
        return T.num(v)
    if isinstance(v, np.generic):
        return T.num(v.item())
    return v


def scal(v, dt=None):
    """numpy scalar"""
    return Arr(Buf([el(v)]), np.zeros((), dtype=int), dt or kind_of(v), True)


def num_el(x):
    """element as numeric term"""
    if isinstance(x, bool):
        return T.num(int(x))
    if isinstance(x, Node):
        if T.is_bool(x):
            return T.mk('ite', x, T.ONE, T.ZERO)
        return x
    if isinstance(x, (int, float, complex, Fraction)):
        return T.num(x)
    if isinstance(x, Arr) and x.size == 1:
        return num_el(x.item())
    raise Limit(f'not numeric: {x!r}')


def A(I, v, dt=None):
    """any value -> Arr (no copy when already an array)"""
    v = I.resolve(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Masked):
        raise Limit('masked selection as array')
    if isinstance(v, (Iter, Inf)):
        raise Limit('iterator as array')
    if isinstance(v, LList):
        v = tuple(I.iterate(v))
    if isinstance(v, range):
        v = tuple(v)
    if isinstance(v, tuple):
        if dt is not None and dt.kind == 'O':
            subs = [I.resolve(x) for x in v]
            if not all(isinstance(x, Arr) and not x.scalar for x in subs) or \
                    len({x.shape for x in subs}) != 1:
                if all(isinstance(x, (DDict, Inst, str)) or x is None for x in subs) or \
                        any(isinstance(x, Arr) for x in subs):
                    return new_arr(objarr((len(subs),), subs), O)
        subs = [A(I, x) for x in v]
        if not subs:
            return new_arr(np.empty((0,), dtype=object), F)
        sh = {s.shape for s in subs}
        if len(sh) > 1:
            I.throw(ValueError, 'setting an array element with a sequence (inhomogeneous shape)')
        d = promote([s.dt for s in subs])
        objs = np.stack([conv(I, s, d).get() for s in subs])
        return new_arr(objs, d)
    if isinstance(v, Choice):
        a, b = A(I, v.a), A(I, v.b)
        if a.shape != b.shape:
            raise Limit('conditional shape')
        return new_arr(objarr(a.shape, [T.ite(v.c, num_el(x), num_el(y)) for x, y in zip(a.elems(), b.elems())]),
                       promote([a.dt, b.dt]))
    if isinstance(v, Opaque):
        return Arr(Buf([T.uf('opaque:' + v.path)]), np.zeros((), dtype=int), F)
    if hasattr(v, 'as_array'):
        return v.as_array(I)
    return Arr(Buf([el(v)]), np.zeros((), dtype=int), kind_of(v))


ORDER = 'bifc'


def promote(dts):
    ks = {d.kind for d in dts}
    if len(ks) == 1:
        us = {d.unit for d in dts}
        if len(us) > 1 and ks == {'f'}:
            return F
        if len(us) > 1 and None not in us:
            u = dts[0].unit
            for d in dts:
                u = finer(u, d.unit)
            return DT(dts[0].kind, u)
        for d in dts:
            return d
    if 'O' in ks:
        return O
    if 'U' in ks:
        return U
    if 'M' in ks:
        return DT('M', 'ns')
    if 'm' in ks:
        return DT('m', 'ns')
    return DT(max(ks, key=ORDER.index))


def ints(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr):
        return [toint(I, x) for x in v.elems()] if v.ndim else [toint(I, v)]
    if isinstance(v, (int, Node)):
        return [toint(I, v)]
    return [toint(I, x) for x in I.iterate(v)]


def toint(I, v):
    v = I.resolve(v)
    if isinstance(v, Arr) and v.size == 1:
        v = v.item()
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, Node):
        if T.is_num(v):
            return int(v.args[0])
        if T.is_const(v):
            from . import pit
            return int(pit.const(v) + 1e-9)
    if isinstance(v, Choice):
        raise Limit('conditional integer')
    if v is None or isinstance(v, (str, LList, tuple)):
        I.throw(TypeError, f'expected integer, got {v!r}')
    raise Limit(f'symbolic integer {v!r} at {I.loc()}')


def to_dt(I, d):
    d = I.resolve(d)
    if d is None:
        return None
    if isinstance(d, DT):
        return d
    if isinstance(d, BType):
        m = {'float': F, 'int': INT, 'bool': B, 'complex': C, 'object': O, 'str': U}.get(d.name)
        if m:
            return m
    if isinstance(d, Ext):
        p = d.path.split('.')[-1]
        if p in ('float32', 'float16', 'half', 'single'):
            return V.F4
        if p.startswith(('float', 'double', 'longdouble', 'floating')):
            return F
        if p.startswith(('int', 'uint', 'long', 'signedinteger', 'integer')):
            return INT
        if p.startswith('complex'):
            return C
        if p in ('bool_', 'bool'):
            return B
        if p in ('str_', 'unicode_', 'bytes_'):
            return U
        if p in ('object_',):
            return O
        if p == 'datetime64':
            return DT('M', None)
        if p == 'timedelta64':
            return DT('m', None)
    if isinstance(d, str):
        m = re.fullmatch(r'(datetime64|timedelta64|M8|m8)(?:\[(\w+)\])?', d.lstrip('<>='))
        if m:
            return DT('M' if m.group(1) in ('datetime64', 'M8') else 'm', m.group(2))
        s = d.lstrip('<>=|')
        if s in ('f', 'e', 'f4', 'f2', 'float32', 'float16', 'half', 'single'):
            return V.F4
        if s.startswith(('float', 'f', 'd')):
            return F
        if s.startswith(('int', 'i', 'uint', 'u')):
            return INT
        if s.startswith(('complex', 'c')):
            return C
        if s in ('O', 'object'):
            return O
        if s.startswith(('U', 'S', 'str', 'bytes')):
            return U
        if s.startswith(('bool', '?')):
            return B
        if s == 'category':
            return DT('cat')
    raise Limit(f'dtype {d!r}')


UNIT_DAYS = {'D': Fraction(1), 'h': Fraction(1, 24), 'm': Fraction(1, 1440), 's': Fraction(1, 86400),
             'ms': Fraction(1, 86400 * 10**3), 'us': Fraction(1, 86400 * 10**6), 'ns': Fraction(1, 86400 * 10**9),
             'W': Fraction(7)}


NSMAX = Fraction(2**63, 86400 * 10**9)      # days that fit into 64-bit nanoseconds


def nslimit(x):
    """dates and time differences in nanoseconds overflow beyond 292 years: the wrapped number is never the right one"""
    x = T.lift(x)
    if T.is_num(x):
        return x if abs(x.args[0]) < NSMAX else T.NAN
    return T.ite(T.band(T.cmp('lt', x, NSMAX), T.cmp('lt', -NSMAX, x)), x, T.NAN)


def floor_unit(x, unit):
    """days-since-1970 floored to unit"""
    if unit == 'Y':
        return T.fn('civil', T.fn('year', x), 1, 1)
    if unit in ('D',):
        return T.fn('floor', x)
    if unit in ('us', 'ns') and T.is_num(x):
        u = UNIT_DAYS[unit]
        n = x.args[0] / u
        x = T.num(Fraction(math.floor(n + Fraction(1, 1000))) * u)
    if unit == 'ns':
        return nslimit(x)
    if unit in (None, 'us'):
        return x       # truncation below a millisecond is below the model's resolution
    if unit in UNIT_DAYS:
        u = UNIT_DAYS[unit]
        return T.scale(T.fn('floor', T.scale(x, 1 / u)), u)
    raise Limit(f'datetime unit {unit}')


def trunc_unit(x, unit):
    """a time difference in days, cut to a whole number of units as numpy does for products with floats"""
    if unit == 'ns':
        return nslimit(x)
    if unit in (None, 'us'):
        return x
    u = UNIT_DAYS.get(unit)
    if u is None:
        raise Limit(f'timedelta unit {unit}')
    return T.scale(T.fn('trunc', T.scale(x, 1 / u)), u)


def finer(a, b):
    """unit of the sum of two dates or time differences"""
    if a is None or b is None:
        return 'ns'
    if a not in UNIT_DAYS or b not in UNIT_DAYS:
        return b if a not in UNIT_DAYS else a
    return a if UNIT_DAYS[a] <= UNIT_DAYS[b] else b


def parse_date(I, s):
    parts = V.ph_split(s)
    if len(parts) == 1 and isinstance(parts[0], str):
        m = re.fullmatch(r'(-?\d{4,})(?:-(\d\d)(?:-(\d\d)(?:[T ](\d\d)(?::(\d\d)(?::(\d\d(?:\.\d+)?))?)?)?)?)?', s.strip())
        if m:
            g = m.groups()
            mo, da = int(g[1] or 1), int(g[2] or 1)
            if not (1 <= mo <= 12 and 1 <= da <= 31):
                I.throw(ValueError, f'datetime string {s!r} out of range')
            f = Fraction(int(g[3] or 0), 24) + Fraction(int(g[4] or 0), 1440) + Fraction(g[5] or 0) / 86400
            return T.num(civil_const(int(g[0]), mo, da) + f)
        if re.fullmatch(r'[\d\- ]*', s):
            I.throw(ValueError, f'Error parsing datetime string {s!r}')
        raise Limit(f'date {s!r}')
    toks = re.split('-', s)
    if len(toks) > 3:
        raise Limit('date')
    vals = [str_to_num(I, t) for t in toks] + [T.num(1)] * (3 - len(toks))
    return civil(*vals)


def civil_const(y, m, d):
    from .pit import civil_days
    return civil_days(y, m, d)


def civil(y, m, d):
    if all(T.is_num(x) for x in (y, m, d)):
        return T.num(civil_const(*[int(x.args[0]) for x in (y, m, d)]))
    return T.fn('civil', y, m, d)


def str_to_num(I, s):
    parts = [p for p in V.ph_split(s.strip())]
    if len(parts) == 1:
        p = parts[0]
        if isinstance(p, tuple):
            return p[0]
        try:
            return T.num(float(p)) if not re.fullmatch(r'[+-]?\d+', p) else T.num(int(p))
        except ValueError:
            I.throw(ValueError, f'could not convert string to float: {s!r}')
    if not parts:
        I.throw(ValueError, 'could not convert string to float')
    if len(parts) == 2 and parts[0] == '-' and isinstance(parts[1], tuple):
        return T.neg(parts[1][0])
    # 0-padded / glued tokens
    raise Limit(f'number text {s!r}')


def conv_el(I, x, src, dst):
    k, s = dst.kind, src.kind
    if k == 'O':
        return x
    if k == 'f' and dst.unit is not None:
        v = conv_el(I, x, src, F)
        return v if src.unit == dst.unit else T.fn('f32', v)
    if k == 'U':
        if isinstance(x, str):
            return x
        return I.format(num_el(x) if not isinstance(x, bool) else x, '')
    if s == 'U' and isinstance(x, str):
        if k == 'M':
            return floor_unit(parse_date(I, x), dst.unit)
        v = str_to_num(I, x)
        return v
    if getattr(x, 'tname', '') == ('datetime.datetime' if k == 'M' else 'datetime.timedelta'):
        if k in 'Mm':
            return floor_unit(x.st['days'], dst.unit or 'us')
        if k != 'O':
            I.throw(TypeError, 'float() argument must be a string or a real number, not datetime')
    if k == 'M':
        if s == 'M':
            return x if dst.unit is None else floor_unit(num_el(x), dst.unit)
        if s in 'if':
            if dst.unit == 'Y':
                return civil(T.add(num_el(x), 1970), T.num(1), T.num(1))
            return trunc_unit(T.scale(num_el(x), UNIT_DAYS[dst.unit]), dst.unit)
    if k == 'm':
        if s == 'm':
            return x if dst.unit is None else floor_unit(num_el(x), dst.unit)
        u = UNIT_DAYS.get(dst.unit)
        if u is None:
            raise Limit('timedelta unit')
        return trunc_unit(T.scale(num_el(x), u), dst.unit)
    if s == 'M' and k in 'if':
        if src.unit == 'Y':
            return T.sub(year_of(num_el(x)), 1970)
        u = UNIT_DAYS[src.unit or 'ns']
        return T.scale(num_el(x), 1 / u)
    if s == 'm' and k in 'if':
        u = UNIT_DAYS[src.unit or 'ns']
        return T.scale(num_el(x), 1 / u)
    if k == 'b':
        if isinstance(x, bool) or (isinstance(x, Node) and T.is_bool(x)):
            return x
        return T.cmp('ne', num_el(x), 0)
    v = I.resolve(x)
    if isinstance(v, str):
        return str_to_num(I, v)
    if v is None:
        if k == 'f':
            return T.NAN
        I.throw(TypeError, 'float() argument must be a string or a real number, not NoneType')
    v = num_el(v)
    if k == 'i':
        if s in 'ib':
            return v
        return T.fn('trunc', v)
    if k == 'f' and (s == 'c' or T.has_complex(v)):
        return T.fn('real', v)
    return v


def year_of(x):
    if isinstance(x, Node) and x.op == 'fn' and x.args[0] == 'civil' and x.args[2] is T.ONE and x.args[3] is T.ONE:
        return x.args[1]
    if T.is_num(x):
        from .pit import year_of as yo
        return T.num(yo(x.args[0]))
    return T.fn('year', x)


def conv(I, a, dt):
    """astype without copy if same"""
    if dt is None or (a.dt.kind == dt.kind and (dt.kind not in 'fMm' or dt.unit in (None, a.dt.unit))):
        return a if dt is None or dt.kind != 'f' or a.dt.unit == dt.unit else new_arr(objarr(a.shape, a.elems()), dt, a.scalar)
    return new_arr(objarr(a.shape, [conv_el(I, x, a.dt, dt) for x in a.elems()]), dt, a.scalar)


def bshape(I, *shapes):
    try:
        return np.broadcast_shapes(*shapes)
    except ValueError:
        I.throw(ValueError, 'operands could not be broadcast together with shapes ' + str(shapes))


def ret(objs, dt, force_arr=False):
    """result of a numpy function: scalar if 0-d"""
    if not isinstance(objs, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = objs
        objs = o
    if objs.ndim == 0 and not force_arr:
        return Arr(Buf([el(objs.item())]), np.zeros((), dtype=int), dt, True)
    flat = objs.ravel()
    return new_arr(objarr(objs.shape, [el(x) for x in flat]), dt)


def elementwise(I, f, arrs, dt):
    sh = bshape(I, *[a.shape for a in arrs])
    if math.prod(sh) > 80000:
        raise Limit(f'array of shape {sh}')
    cols = []
    for a in arrs:
        idx = np.broadcast_to(a.idx, sh).ravel()
        d = a.buf.data
        cols.append([d[i] for i in idx])
    out = [f(*xs) for xs in zip(*cols)]
    if sh == ():
        return Arr(Buf(out), np.zeros((), dtype=int), dt, True)
    return new_arr(objarr(sh, out), dt)


# ------------------------------------------------------------------ binary operators
def binop(I, op, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('expr')
    if isinstance(a, (Inst,)) or isinstance(b, Inst):
        return dunder(I, op, a, b)
    for x in (a, b):
        if hasattr(x, 'binop'):
            return x.binop(I, op, a, b)
    if a is None or b is None:
        I.throw(TypeError, f'unsupported operand type(s) for {op}: NoneType')
    if isinstance(a, Masked) or isinstance(b, Masked):
        m = a if isinstance(a, Masked) else b
        for x in (a, b):
            if isinstance(x, Masked) and not same_mask(x.mask, m.mask):
                raise Limit('masks differ')
            if isinstance(x, Arr) and x.size != 1:
                raise Limit('masked with array')
        fa = a.full if isinstance(a, Masked) else a
        fb = b.full if isinstance(b, Masked) else b
        return Masked(A(I, binop(I, op, fa, fb)), m.mask)
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa or sb:
        if op == 'Add' and sa and sb:
            return a + b
        if op == 'Mult' and (sa and isinstance(b, int) or sb and isinstance(a, int)):
            return a * b
        if op == 'Mod' and sa:
            return I.ext.percent_format(I, a, b)
        if not (isinstance(a, Arr) or isinstance(b, Arr)):
            I.throw(TypeError, f'unsupported operand type(s) for {op}: str')
    if isinstance(a, (Iter, Inf)) or isinstance(b, (Iter, Inf)):
        I.throw(TypeError, f'unsupported operand type(s) for {op}: iterator')
    for x, y in ((a, b),):
        if isinstance(x, LList) and isinstance(y, LList) and op == 'Add':
            return LList(I.iterate(x) + I.iterate(y))
        if isinstance(x, tuple) and isinstance(y, tuple) and op == 'Add':
            return x + y
        if isinstance(x, DDict) and op == 'BitOr':
            return DDict(dict(I.dict_items(x) + I.dict_items(y)))
        if isinstance(x, SSet) and isinstance(y, SSet):
            xs, ys = x.items, y.items
            if op == 'Sub':
                return SSet([i for i in xs if i not in ys])
            if op == 'BitOr':
                return SSet(xs + ys)
            if op == 'BitAnd':
                return SSet([i for i in xs if i in ys])
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (LList, tuple)) and not isinstance(y, (Arr,)) and isnum(y):
                n = toint(I, y)
                return LList(x.items * n) if isinstance(x, LList) else x * n
            if isinstance(x, (LList, tuple)) and isinstance(y, Arr) and y.scalar and y.dt.kind in 'ib':
                n = toint(I, y)
                return LList(x.items * n) if isinstance(x, LList) else x * n
    pa, pb = isinstance(a, (bool, int, float, complex)), isinstance(b, (bool, int, float, complex))
    if pa and pb:
        return py_binop(I, op, a, b)
    if isnum(a) and isnum(b):
        return scalar_op(I, op, num_or_bool(a), num_or_bool(b))
    if isinstance(a, (LList, tuple)) and not isinstance(b, Arr) or isinstance(b, (LList, tuple)) and not isinstance(a, Arr):
        I.throw(TypeError, f'unsupported operand type(s) for {op}')
    if isinstance(a, (DDict, SSet, Func, Class)) or isinstance(b, (DDict, SSet, Func, Class)):
        I.throw(TypeError, f'unsupported operand type(s) for {op}')
    if not (isinstance(a, Arr) or isinstance(b, Arr)):
        if hasattr(a, 'binop'):
            return a.binop(I, op, b, False)
        if hasattr(b, 'binop'):
            return b.binop(I, op, a, True)
        raise Limit(f'binop {op} {a!r} {b!r}')
    return arr_binop(I, op, A(I, a), A(I, b))


def dunder(I, op, a, b):
    nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'BitOr': 'or'}.get(op, op.lower())
    if isinstance(a, Inst):
        m = I.find_method(a, f'__{nm}__')
        if m is not None:
            return I.call(m, [b], {})
        if a.data is not None and op == 'BitOr':
            return DDict(dict(I.dict_items(a) + I.dict_items(b)))
    if isinstance(b, Inst):
        m = I.find_method(b, f'__r{nm}__')
        if m is not None:
            return I.call(m, [a], {})
        if b.data is not None and op == 'BitOr':
            return DDict(dict(I.dict_items(a) + I.dict_items(b)))
    I.throw(TypeError, f'unsupported operand type(s) for {op}')


def same_mask(m1, m2):
    return m1.shape == m2.shape and all(x is y or x == y for x, y in zip(m1.elems(), m2.elems()))


def num_or_bool(x):
    if isinstance(x, bool):
        return x
    return T.lift(x)


def py_binop(I, op, a, b):
    try:
        if op == 'Add':
            r = a + b
        elif op == 'Sub':
            r = a - b
        elif op == 'Mult':
            r = a * b
        elif op == 'Div':
            if isinstance(a, int) and isinstance(b, int) and b != 0 and a % b != 0:
                return T.div(T.num(a), T.num(b))
            r = a / b
        elif op == 'FloorDiv':
            r = a // b
        elif op == 'Mod':
            r = a % b
        elif op == 'Pow':
            if isinstance(a, int) and isinstance(b, int) and b < 0 and a != 0:
                return T.power(T.num(a), b)
            if isinstance(b, float) and not isinstance(a, complex) and b != int(b):
                return T.power(T.num(a), T.num(b))
            r = a ** b
        elif op == 'BitOr':
            r = a | b
        elif op == 'BitAnd':
            r = a & b
        elif op == 'BitXor':
            r = a ^ b
        elif op == 'LShift':
            r = a << b
        elif op == 'RShift':
            r = a >> b
        else:
            raise Limit(op)
    except ZeroDivisionError:
        I.throw(ZeroDivisionError, 'division by zero')
    except TypeError:
        I.throw(TypeError, 'unsupported operand')
    if isinstance(r, (float, complex)) and not isinstance(r, bool):
        # keep exactness: recompute through rationals
        t = scalar_op(I, op, T.num(a), T.num(b)) if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow') else T.num(r)
        if T.is_num(t):
            return _Rat(t)
        return t
    return r


def _Rat(t):
    v = t.args[0]
    f = float(v)
    if Fraction(repr(f)) == v:
        return f
    return t


def scalar_op(I, op, a, b):
    """a, b: Node or bool"""
    bb = all(isinstance(x, bool) or T.is_bool(x) for x in (a, b))
    if op in ('BitAnd', 'BitOr', 'BitXor') and bb:
        if op == 'BitAnd':
            return T.band(a, b)
        if op == 'BitOr':
            return T.bor(a, b)
        return T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b))
    a, b = num_el(a), num_el(b)
    if op == 'Add':
        return T.add(a, b)
    if op == 'Sub':
        return T.sub(a, b)
    if op == 'Mult':
        return T.mul(a, b)
    if op == 'Div':
        return T.div(a, b)
    if op == 'Pow':
        return T.power(a, b)
    if op == 'FloorDiv':
        return T.fn('floor', T.div(a, b))
    if op == 'Mod':
        return mod(a, b)
    raise Limit(f'operator {op}')


def mod(a, b):
    if b is T.ONE and a.op == 'sum':
        # drop integer-valued summands
        c, items = a.args
        rest = [(k, v) for k, v in items if not (v.denominator == 1 and T.is_int(k))]
        if len(rest) != len(items) or c.denominator == 1 and c != 0:
            c2 = c - (c.numerator // c.denominator)
            return T.fn('mod', T._mk_sum(c2, rest), b)
    return T.fn('mod', a, b)


def arr_binop(I, op, a, b):
    ka, kb = a.dt.kind, b.dt.kind
    if 'M' in (ka, kb) or 'm' in (ka, kb):
        return dt_binop(I, op, a, b)
    if 'U' in (ka, kb):
        if op == 'Add':
            return elementwise(I, lambda x, y: x + y, [a, b], U)
        I.throw(TypeError, f'ufunc {op} not supported for strings')
    if op == 'MatMult':
        return matmul(I, [a, b], {})
    if 'O' in (ka, kb):
        return elementwise(I, lambda x, y: I.binop(op, x, y), [a, b], O)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if 'f' in (ka, kb) or 'c' in (ka, kb):
            I.throw(TypeError, f'ufunc {op} not supported for floats')
        dt = B if ka == kb == 'b' else INT
    elif op == 'Div':
        dt = C if 'c' in (ka, kb) else F
    else:
        dt = promote([a.dt, b.dt])
        if dt.kind == 'b':
            dt = B if op in ('Add', 'Mult') else INT
        if op == 'Pow' and dt.kind == 'i' and any(T.is_num(y) and not T.has_complex(y) and float(y.args[0]) < 0 for y in map(num_el, b.elems())):
            I.throw(ValueError, 'Integers to negative integer powers are not allowed.')
    if dt.kind == 'b' and op in ('Add', 'Mult'):
        op = {'Add': 'BitOr', 'Mult': 'BitAnd'}[op]
    return elementwise(I, lambda x, y: scalar_op(I, op, x, y), [a, b], dt)


def dt_binop(I, op, a, b):
    ka, kb = a.dt.kind, b.dt.kind

    def days(x, k):
        return num_el(x)
    if op in ('Add', 'Sub'):
        if ka == 'M' and kb == 'M':
            if op == 'Add':
                I.throw(TypeError, 'datetime + datetime')
            dt = DT('m', finer(a.dt.unit, b.dt.unit))
        elif ka == 'm' and kb == 'm':
            dt = DT('m', finer(a.dt.unit, b.dt.unit))
        elif {ka, kb} == {'M', 'm'}:
            dt = DT('M', finer(a.dt.unit, b.dt.unit))
        elif {ka, kb} <= {'M', 'm', 'i', 'b'}:
            # integers are counted in the unit of the other operand
            u = (a if ka in 'Mm' else b).dt.unit
            dt = DT('M' if 'M' in (ka, kb) else 'm', u)
            sc = UNIT_DAYS.get(u)
            if sc is None:
                raise Limit('datetime + int')
            f = (lambda x, y: T.add(num_el(x), T.scale(num_el(y), sc if op == 'Add' else -sc))) if ka in 'Mm' else \
                (lambda x, y: T.add(T.scale(num_el(x), sc), num_el(y)))
            return elementwise(I, f, [a, b], dt)
        else:
            I.throw(TypeError, 'datetime with float')
        f = T.add if op == 'Add' else T.sub
        lim = nslimit if dt.unit == 'ns' else (lambda x: x)
        return elementwise(I, lambda x, y: lim(f(lim(num_el(x)), lim(num_el(y)))), [a, b], dt)
    if op == 'Mult' and ka != kb and 'm' in (ka, kb) and 'M' not in (ka, kb):
        u = (a if ka == 'm' else b).dt.unit
        return elementwise(I, lambda x, y: trunc_unit(T.mul(num_el(x), num_el(y)), u), [a, b], DT('m', u))
    if op in ('Div', 'FloorDiv') and ka == 'm':
        if kb == 'm':
            r = elementwise(I, lambda x, y: T.div(num_el(x), num_el(y)), [a, b], F)
            if op == 'FloorDiv':
                r = elementwise(I, lambda x: T.fn('floor', x), [r], INT)
            return r
        return elementwise(I, lambda x, y: trunc_unit(T.div(num_el(x), num_el(y)), a.dt.unit), [a, b], DT('m', a.dt.unit))
    I.throw(TypeError, f'{op} on datetime')


def unary(I, op, v):
    if isinstance(v, Opaque):
        return v
    if v is None or isinstance(v, (str, LList, tuple, DDict)):
        I.throw(TypeError, f'bad operand type for unary {op}')
    if op == 'USub':
        if isinstance(v, (bool, int, float, complex)):
            return -v
        if isinstance(v, Node):
            return T.neg(num_el(v))
        if isinstance(v, Masked):
            return Masked(A(I, unary(I, op, v.full)), v.mask)
        return elementwise(I, lambda x: T.neg(num_el(x)), [A(I, v)], v.dt)
    if op == 'UAdd':
        return v
    if op == 'Invert':
        if isinstance(v, bool):
            return ~v
        if isinstance(v, int):
            return ~v
        if isinstance(v, Node) and T.is_bool(v):
            return T.bnot(v)
        if isinstance(v, Arr) and v.dt.kind == 'b':
            return elementwise(I, lambda x: T.bnot(x), [v], B)
    raise Limit(f'unary {op} {v!r}')


def compare(I, op, a, b):
    o = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('cmp')
    if isinstance(a, Arr) or isinstance(b, Arr):
        if (a is None or b is None) and op in ('Eq', 'NotEq'):
            x = a if isinstance(a, Arr) else b
            if x.scalar or x.ndim == 0:
                return op == 'NotEq'
            return new_arr(objarr(x.shape, [op == 'NotEq'] * x.size), B)
        aa, bb = A(I, a), A(I, b)
        try:
            np.broadcast_shapes(aa.shape, bb.shape)
        except ValueError:
            if op == 'Eq':
                return False
            if op == 'NotEq':
                return True
            I.throw(ValueError, 'operands could not be broadcast together')
        return elementwise(I, lambda x, y: cmp_el(I, o, x, y), [aa, bb], B)
    if isinstance(a, (bool, int, float, complex)) and isinstance(b, (bool, int, float, complex)):
        try:
            return {'eq': a == b, 'ne': a != b}[o] if o in ('eq', 'ne') else \
                {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
        except TypeError:
            I.throw(TypeError, 'not comparable')
    if isnum(a) and isnum(b):
        return T.cmp(o, num_el(a), num_el(b))
    if isinstance(a, str) and isinstance(b, str):
        if o == 'eq':
            return a == b
        if o == 'ne':
            return a != b
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
    if o in ('eq', 'ne'):
        r = eq(I, a, b)
        return r if o == 'eq' else T.bnot(r)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            c = I.simp(I.truth(compare(I, 'Eq', x, y)))
            if c is True:
                continue
            if c is False:
                return compare(I, op, x, y)
            raise Limit('tuple ordering')
        la, lb = len(a), len(b)
        return {'lt': la < lb, 'le': la <= lb, 'gt': la > lb, 'ge': la >= lb}[o]
    if isinstance(a, LList) and isinstance(b, LList):
        return compare(I, op, tuple(a.items), tuple(b.items))
    I.throw(TypeError, f"'{o}' not supported between instances")


def eq(I, a, b):
    if a is b:
        return True
    if isinstance(a, (LList, tuple)) and type(a) is type(b):
        x, y = I.iterate(a), I.iterate(b)
        if len(x) != len(y):
            return False
        return T.band(*[I.truth(I.compare('Eq', p, q)) for p, q in zip(x, y)])
    if isinstance(a, (DDict, Inst)) and isinstance(b, (DDict, Inst)):
        if isinstance(a, Inst):
            m = I.find_method(a, '__eq__')
            if m is not None:
                return I.truth(I.call(m, [b], {}))
        da, db = I.dict_of(a), I.dict_of(b)
        if da is None or db is None:
            return False
        x, y = dict(I.dict_items(a)), dict(I.dict_items(b))
        if set(x) != set(y):
            return False
        return T.band(*[I.truth(I.compare('Eq', x[k], y[k])) for k in x])
    if isinstance(a, DT) or isinstance(b, DT):
        try:
            d1, d2 = to_dt(I, a), to_dt(I, b)
        except Limit:
            return False
        return d1 is not None and d2 is not None and d1.kind == d2.kind
    if isinstance(a, SSet) and isinstance(b, SSet):
        return set(a.items) == set(b.items)
    if isinstance(a, BType) and isinstance(b, BType):
        return a.name == b.name
    return False


def cmp_el(I, o, x, y):
    if isinstance(x, str) or isinstance(y, str):
        if isinstance(x, str) and isinstance(y, str):
            if has_ph(x) or has_ph(y):
                if x == y:
                    return o in ('eq', 'le', 'ge')
                raise Limit('string comparison')
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o]
        return o == 'ne'
    bx, by = isinstance(x, bool) or (isinstance(x, Node) and T.is_bool(x)), isinstance(y, bool) or (isinstance(y, Node) and T.is_bool(y))
    if bx and by and o in ('eq', 'ne'):
        e = T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y)))
        return e if o == 'eq' else T.bnot(e)
    if isinstance(x, (Node, bool)) and isinstance(y, (Node, bool)):
        return T.cmp(o, num_el(x), num_el(y))
    r = I.truth(I.compare({'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}[o], x, y))
    return r


# ------------------------------------------------------------------ indexing
def norm_key(I, k):
    k = I.resolve(k)
    if isinstance(k, Masked) and k.nz == (0, 1):
        return k.mask
    if isinstance(k, tuple):
        k = tuple(I.resolve(x) for x in k)
        if k and isinstance(k[0], Masked) and k[0].nz is not None and k[0].nz[0] == 0:
            # the positions found by nonzero are the mask
            n = k[0].nz[1]
            if len(k) >= n and all(isinstance(x, Masked) and x.nz == (i, n) and same_mask(x.mask, k[0].mask) for i, x in enumerate(k[:n])):
                k = (k[0].mask,) + k[n:]
        k = tuple(norm_one(I, x) for x in k)
        if k and is_symmask(k[0]) and all(x is Ellipsis or isinstance(x, slice) and x == slice(None) for x in k[1:]):
            return k[0]
        return k
    if isinstance(k, LList):
        return norm_one(I, A(I, k))
    return norm_one(I, k)


def norm_one(I, x):
    x = I.resolve(x)
    if x is None or x is Ellipsis or isinstance(x, (slice, bool)):
        if isinstance(x, slice):
            return slice(*[None if p is None else toint(I, p) for p in (x.start, x.stop, x.step)])
        return x
    if isinstance(x, int):
        return x
    if isinstance(x, (LList, tuple, range)):
        x = A(I, x)
    if isinstance(x, Node):
        if T.is_num(x):
            if x.args[0].denominator != 1:
                I.throw(IndexError, 'only integers are valid indices')
            return int(x.args[0])
        if T.is_bool(x):
            return scal(x)
        return x
    if isinstance(x, Arr):
        if x.dt.kind == 'b':
            es = x.elems()
            if all(isinstance(e, bool) for e in es):
                return np.array(es, dtype=bool).reshape(x.shape)
            return x      # symbolic mask
        es = x.elems()
        if all(isinstance(e, Node) and T.is_num(e) and e.args[0].denominator == 1 for e in es):
            if x.dt.kind == 'f' and x.size:
                I.throw(IndexError, 'arrays used as indices must be of integer (or boolean) type')
            if x.scalar or x.ndim == 0:
                return int(es[0].args[0])
            return np.array([int(e.args[0]) for e in es], dtype=int).reshape(x.shape)
        if x.size == 1 and x.ndim == 0:
            return es[0]
        return x
    if isinstance(x, str):
        return x
    if isinstance(x, float):
        I.throw(IndexError, 'only integers, slices, ellipsis, None and arrays are valid indices')
    raise Limit(f'index {x!r}')


def is_symmask(x):
    return isinstance(x, Arr) and x.dt.kind == 'b'


def getitem(I, a, k):
    key = norm_key(I, k)
    if is_symmask(key):
        if key.shape == a.shape:
            if a.ndim == 0 and not a.scalar or True:
                return Masked(a, key)
        if key.shape == a.shape[:key.ndim]:
            m = np.broadcast_to(key.idx.reshape(key.shape + (1,) * (a.ndim - key.ndim)), a.shape)
            return Masked(a, Arr(key.buf, m, B))
        I.throw(IndexError, 'boolean index did not match')
    if isinstance(key, str):
        raise Limit('field access on array')
    if isinstance(key, Arr) or isinstance(key, tuple) and any(isinstance(x, Arr) for x in key):
        return gather(I, a, key)
    if isinstance(key, Node) or isinstance(key, tuple) and any(isinstance(x, Node) for x in key):
        return gather(I, a, key)
    adv = any(isinstance(x, np.ndarray) for x in (key if isinstance(key, tuple) else (key,)))
    try:
        idx = a.idx[key]
    except IndexError as e:
        I.throw(IndexError, str(e))
    if not isinstance(idx, np.ndarray):
        v = a.buf.data[int(idx)]
        if a.dt.kind == 'O':
            return I.resolve(v)
        return Arr(Buf([v]), np.zeros((), dtype=int), a.dt, True)
    if adv:
        return new_arr(objarr(idx.shape, [a.buf.data[i] for i in idx.ravel()]), a.dt)
    if a.scalar:
        return new_arr(objarr(idx.shape, [a.buf.data[i] for i in idx.ravel()]), a.dt)
    return Arr(a.buf, idx, a.dt)


def gather(I, a, key):
    """symbolic integer index: select chain along one axis"""
    kt = key if isinstance(key, tuple) else (key,)
    sym = [i for i, x in enumerate(kt) if isinstance(x, (Node, Arr))]
    if len(sym) != 1 or any(is_symmask(x) for x in kt):
        raise Limit('symbolic index')
    j = sym[0]
    if any(x is None or x is Ellipsis for x in kt[:j]):
        raise Limit('symbolic index')
    n = a.shape[j]
    if n > 24:
        raise Limit('symbolic index range')
    ix = kt[j]
    es = ix.elems() if isinstance(ix, Arr) else [ix]
    outs = []
    for e in es:
        res = None
        for p in range(n - 1, -1, -1):
            v = getitem(I, a, kt[:j] + (p,) + kt[j + 1:])
            va = A(I, v)
            if res is None:
                res = va.get()
            else:
                c = T.bor(T.cmp('eq', e, p), T.cmp('eq', e, p - n))
                res = objarr(va.shape, [T.ite(c, x, y) for x, y in zip(va.elems(), res.ravel() if isinstance(res, np.ndarray) else [res])])
        outs.append(res)
    if isinstance(ix, Arr):
        st = np.stack([np.asarray(o, dtype=object) for o in outs])
        rest = st.shape[1:]
        return ret(st.reshape(ix.shape + rest), a.dt)
    return ret(outs[0], a.dt)


def positions(I, a, key):
    try:
        return a.idx[key]
    except IndexError as e:
        I.throw(IndexError, str(e))


def store_conv(I, a, src_dt, x):
    k = a.dt.kind
    if k == 'O':
        return x
    if src_dt.kind == k and not (k == 'f' and isinstance(x, Node) and T.has_complex(x)) and k not in 'Mm' and a.dt.unit is None:
        return el(x)
    return conv_el(I, el(x), src_dt, a.dt)


def setitem(I, a, k, v, inplace=False):
    if a.scalar:
        I.throw(TypeError, "'numpy.float64' object does not support item assignment")
    key = norm_key(I, k)
    if is_symmask(key):
        rest = a.ndim - key.ndim
        if key.shape != a.shape:
            if key.shape == a.shape[:key.ndim]:
                key = Arr(key.buf, np.broadcast_to(key.idx.reshape(key.shape + (1,) * (a.ndim - key.ndim)), a.shape), B)
            else:
                I.throw(IndexError, 'boolean index did not match')
        if isinstance(v, Masked):
            if not same_mask(v.mask, key):
                raise Limit('masks differ')
            src = v.full
        else:
            src = A(I, v)
            if src.size != 1 and src.ndim > rest:
                raise Limit('array assigned through symbolic mask')
        try:
            idx = np.broadcast_to(src.idx if src.size != 1 else src.idx.reshape(()), a.shape)
        except ValueError:
            I.throw(ValueError, 'shape mismatch: value array could not be broadcast to indexing result')
        I.touch(a.buf)
        ce = key.elems()
        for p, q, c in zip(a.idx.ravel(), idx.ravel(), ce):
            new = store_conv(I, a, src.dt, src.buf.data[q])
            a.buf.data[p] = T.ite(c, num_el(new) if not _b(new) else new, a.buf.data[p]) if a.dt.kind != 'O' else I.merge_val(c, new, a.buf.data[p])
        return
    if isinstance(v, Masked):
        raise Limit('masked value stored')
    if isinstance(key, (Node, Arr)) or isinstance(key, tuple) and any(isinstance(x, (Node, Arr)) for x in key):
        return scatter(I, a, key, v)
    pos = positions(I, a, key)
    parr = np.asarray(pos)
    if a.dt.kind == 'O' and parr.ndim == 0:
        I.touch(a.buf)
        a.buf.data[int(parr)] = v
        return
    src = A(I, v)
    write(I, a, parr, src)


def scatter(I, a, key, v):
    kt = key if isinstance(key, tuple) else (key,)
    sym = [i for i, x in enumerate(kt) if isinstance(x, (Node, Arr))]
    if len(sym) != 1 or not isinstance(kt[sym[0]], Node):
        raise Limit('symbolic store index')
    j = sym[0]
    if any(x is None or x is Ellipsis for x in kt[:j]):
        raise Limit('symbolic store index')
    e = kt[j]
    src = A(I, v)
    for p in range(a.shape[j]):
        kk = kt[:j] + (p,) + kt[j + 1:]
        pos = np.asarray(a.idx[kk])
        c = T.bor(T.cmp('eq', e, p), T.cmp('eq', e, p - a.shape[j]))
        idx = np.broadcast_to(src.idx, pos.shape)
        I.touch(a.buf)
        for q, s in zip(pos.ravel(), idx.ravel()):
            a.buf.data[q] = T.ite(c, store_conv(I, a, src.dt, src.buf.data[s]), a.buf.data[q])


def _b(x):
    return isinstance(x, bool) or isinstance(x, Node) and T.is_bool(x)


def write(I, a, pos, src):
    sh = src.shape
    while len(sh) > pos.ndim and sh[0] == 1:
        src = Arr(src.buf, src.idx[0], src.dt)
        sh = src.shape
    try:
        idx = np.broadcast_to(src.idx, pos.shape)
    except ValueError:
        I.throw(ValueError, f'could not broadcast input array from shape {src.shape} into shape {pos.shape}')
    vals = [store_conv(I, a, src.dt, src.buf.data[i]) for i in idx.ravel()]
    I.touch(a.buf)
    data = a.buf.data
    l = I.loc() if len(vals) <= 96 else None
    for p, v in zip(pos.ravel(), vals):
        data[p] = v
        if l is not None and isinstance(v, Node):
            I.prov[v.id] = l
    if a.buf.origin is not None:
        I.event('write', origin=a.buf.origin, buf=a.buf)


def assign_view(I, a, r):
    if isinstance(r, Masked):
        raise Limit('masked')
    src = A(I, r)
    if len(src.shape) > a.ndim:
        I.throw(ValueError, 'non-broadcastable output operand')
    write(I, a, a.idx, src)


# ------------------------------------------------------------------ argument helper
NEUTRAL = {'subok', 'like', 'casting', 'kind', 'stable', 'copy', 'check_finite', 'order'}


class Args:
    """arguments of a modelled function; a given argument the model never looks at is beyond the model"""
    def __init__(self, I, fname, args, kwargs, names):
        self.I = I
        self.fname = fname
        vals = dict(zip(names, args))
        if len(args) > len(names):
            raise Limit(f'{fname}: too many arguments')
        for k, v in kwargs.items():
            if k not in names:
                if k in ('subok', 'like', 'casting') or k == 'order' and v in ('C', 'K', 'A', None):
                    continue
                bad_kwarg(I, fname, k)
            vals[k] = v
        self.v = vals
        self.used = set()

    def __call__(self, name, default=None):
        self.used.add(name)
        return self.v.get(name, default)

    def has(self, name):
        self.used.add(name)
        return name in self.v

    def done(self):
        for k, v in self.v.items():
            if k not in self.used and k not in NEUTRAL and self.I.resolve(v) not in DEFAULTS.get(k, (None, False)):
                raise Limit(f'{self.fname}: argument {k}')


DEFAULTS = {}


def real_fn(name):
    f = np
    for q in name.replace('numpy.', '', 1).split('.'):
        f = getattr(f, q, None)
        if f is None:
            return None
    return f


def bad_kwarg(I, fname, k):
    """unknown keyword: an error of the library, or an argument the model lacks"""
    f = real_fn(FULL.get(fname, fname))
    try:
        ps = inspect.signature(f).parameters
        known = k in ps or any(q.kind == q.VAR_KEYWORD for q in ps.values())
    except (TypeError, ValueError):
        known = True
    if known:
        raise Limit(f'{fname}: argument {k}')
    I.throw(TypeError, f'{fname}() got an unexpected keyword argument {k!r}')


FULL = {}


def sig(names):
    names = names.split()

    def deco(f):
        def g(I, args, kwargs):
            p = Args(I, f.__name__, args, kwargs, names)
            r = f(I, p)
            p.done()
            return r
        g.sig_of = f.__name__
        return g
    return deco


def axis_(I, v, default=None):
    v = I.resolve(v)
    if v is None:
        return default
    if isinstance(v, (tuple, LList)):
        return tuple(ints(I, v))
    return toint(I, v)


# ------------------------------------------------------------------ creation
@reg('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
@sig('a dtype order copy')
def asarray(I, p):
    a = A(I, p('a'), to_dt(I, p('dtype')))
    if a.scalar:
        a = Arr(Buf([a.item()]), np.zeros((), dtype=int), a.dt)
    dt = to_dt(I, p('dtype'))
    r = conv(I, a, dt)
    if r.scalar:
        r = Arr(r.buf, r.idx, r.dt)
    if I.resolve(p('copy')) is True and r.buf is a.buf:
        r = copy_arr(r)
    return r


def copy_arr(a, origin=None):
    return new_arr(objarr(a.shape, a.elems()), a.dt, origin=origin)


@reg('array')
@sig('object dtype copy order subok ndmin')
def array(I, p):
    dt = to_dt(I, p('dtype'))
    a = A(I, p('object'), dt)
    r = conv(I, a, dt)
    if I.resolve(p('copy', True)) is False and isinstance(p('object'), Arr):
        return Arr(r.buf, r.idx, r.dt)
    r = copy_arr(r)
    nd = p('ndmin')
    if nd is not None and r.ndim < nd:
        r = Arr(r.buf, r.idx.reshape((1,) * (nd - r.ndim) + r.shape), r.dt)
    return r


@reg('copy')
@sig('a order subok')
def npcopy(I, p):
    return copy_arr(A(I, p('a')))


def filled(I, shape, val, dt):
    sh = tuple(ints(I, shape))
    if any(s < 0 for s in sh):
        I.throw(ValueError, 'negative dimensions are not allowed')
    n = int(np.prod(sh)) if sh else 1
    return new_arr(objarr(sh, [val] * n), dt)


ZEROV = {'f': T.ZERO, 'i': T.ZERO, 'c': T.ZERO, 'b': False, 'O': None, 'U': '', 'M': T.ZERO, 'm': T.ZERO}


def _alloc(name, val):
    @sig('shape dtype order')
    def f(I, p):
        dt = to_dt(I, p('dtype')) or F
        if name == 'empty':
            sh = tuple(ints(I, p('shape')))
            n = int(np.prod(sh)) if sh else 1
            if dt.kind in 'fic':
                k = T.fresh('uninit')
                return new_arr(objarr(sh, [T.uf('uninit', k, T.num(i)) for i in range(n)]), dt)
            return filled(I, sh, ZEROV[dt.kind], dt)
        v = ZEROV[dt.kind] if val == 0 else (True if dt.kind == 'b' else T.ONE)
        return filled(I, p('shape'), v, dt)
    TABLE['numpy.' + name] = f

    @sig('a dtype order subok shape')
    def g(I, p):
        a = A(I, p('a'))
        dt = to_dt(I, p('dtype')) or a.dt
        return f(I, [p('shape') if p('shape') is not None else a.shape, dt], {})
    TABLE['numpy.' + name + '_like'] = g


_alloc('zeros', 0)
_alloc('ones', 1)
_alloc('empty', None)


@reg('full')
@sig('shape fill_value dtype')
def full(I, p):
    v = A(I, p('fill_value'))
    dt = to_dt(I, p('dtype')) or v.dt
    sh = tuple(ints(I, p('shape')))
    r = filled(I, sh, ZEROV[dt.kind], dt)
    write(I, r, r.idx, v)
    return r


@reg('full_like')
@sig('a fill_value dtype')
def full_like(I, p):
    a = A(I, p('a'))
    return full(I, [a.shape, p('fill_value')], {'dtype': to_dt(I, p('dtype')) or a.dt})


@reg('arange')
@sig('start stop step dtype')
def arange(I, p):
    a, b, s = p('start'), p('stop'), p('step', 1)
    if b is None:
        a, b = 0, a
    a, b, s = [x.item() if isinstance(x, Arr) else x for x in map(I.resolve, (a, b, s))]
    isint = all(isinstance(x, int) or (isinstance(x, Node) and T.is_int(x)) for x in (a, b, s))
    a, b, s = num_el(a), num_el(b), num_el(s)
    n = T.div(T.sub(b, a), s)
    if T.is_const(n):
        from . import pit
        v = pit.const(n)
        cnt = max(0, math.ceil(v - 1e-9))
        if not isint and cnt and abs(v - round(v)) < 1e-9 and not all(T.is_num(x) for x in (a, b, s)):
            I.event('rounding', what='number of elements of arange', n=cnt)
    else:
        raise Limit(f'arange with symbolic length {n!r}')
    if cnt > 100000:
        raise Limit('arange length')
    dt = to_dt(I, p('dtype')) or (INT if isint else F)
    return new_arr(objarr((cnt,), [T.add(a, T.mul(T.num(i), s)) for i in range(cnt)]), dt)


@reg('linspace')
@sig('start stop num endpoint retstep dtype axis')
def linspace(I, p):
    n = toint(I, p('num', 50))
    if n > 100:       # plotting grids: a coarse grid stands for the fine one
        n = n % 3 + 3
    a, b = np.broadcast_arrays(numobj(A(I, p('start'))), numobj(A(I, p('stop'))))
    d = (n - 1) if I.resolve(p('endpoint', True)) else n
    dt = to_dt(I, p('dtype')) or F
    out = np.empty((n,) + a.shape, dtype=object)
    for i in range(n):
        for j in np.ndindex(*a.shape):
            out[(i,) + j] = T.add(a[j], T.mul(T.sub(b[j], a[j]), T.num(Fraction(i, d) if d else 0)))
    r = conv(I, new_arr(np.moveaxis(out, 0, toint(I, p('axis', 0))), F), dt)
    if I.resolve(p('retstep', False)):
        st = [T.div(T.sub(b[j], a[j]), T.num(d)) if d else T.NAN for j in np.ndindex(*a.shape)]
        return r, ret(objarr(a.shape, st), F)
    return r


# ------------------------------------------------------------------ unary ufuncs
def ufunc1(name, f, dt='f', names=None):
    def g(I, args, kwargs):
        kwargs = dict(kwargs)
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', None)
        dty = to_dt(I, kwargs.pop('dtype', None))
        kwargs.pop('casting', None)
        if set(kwargs) - {'x'}:
            raise Limit(f'{name}: {sorted(kwargs)}')
        if len(args) == 2:
            args, out = args[:1], args[1]
        v = I.resolve(args[0]) if args else I.resolve(kwargs.get('x'))
        if isinstance(v, Masked):
            return Masked(A(I, g(I, [v.full], {})), v.mask)
        if v is None:
            I.throw(TypeError, f'loop of ufunc does not support argument of type NoneType ({name})')
        if isinstance(v, str) or isinstance(v, (DDict,)):
            I.throw(TypeError, f'ufunc {name} not supported for the input types')
        a = A(I, v)
        if a.dt.kind == 'O':
            a = conv(I, a, F)
        d = a.dt if dt == 'same' else (C if a.dt.kind == 'c' and dt == 'f' else DT(dt))
        if dty is not None and dty.kind != d.kind:
            a = conv(I, a, dty)
            d = dty
        r = elementwise(I, f, [a], d)
        return ufunc_out(I, r, out, where)
    TABLE['numpy.' + name] = g
    TABLE.setdefault('math.' + name, g)
    return g


def ufunc_out(I, r, out, where=None):
    out = I.resolve(out) if out is not None else None
    if isinstance(out, tuple):
        out = I.resolve(out[0])
    if where is not None and I.resolve(where) is not True:
        w = A(I, where)
        if out is None:
            raise Limit('ufunc where without out')
        old = A(I, out)
        r = elementwise(I, lambda c, x, y: T.ite(c, x, y), [w, A(I, r), old], old.dt)
    if out is not None:
        assign_view(I, out, r)
        return out
    return r


def n1(fname):
    return lambda x: T.fn(fname, num_el(x))


D2R = T.div(T.PI, T.num(180))
R2D = T.div(T.num(180), T.PI)
for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'arctan', 'arccos', 'arcsin', 'sinh', 'cosh'):
    ufunc1(_n, n1(_n))
for _m, _n in (('atan', 'arctan'), ('acos', 'arccos'), ('asin', 'arcsin')):
    TABLE['math.' + _m] = TABLE['numpy.' + _n]
    TABLE['numpy.' + _m] = TABLE['numpy.' + _n]
ufunc1('sqrt', lambda x: T.sqrt(num_el(x)))
for _n in ('radians', 'deg2rad'):
    ufunc1(_n, lambda x: T.mul(num_el(x), D2R))
for _n in ('degrees', 'rad2deg'):
    ufunc1(_n, lambda x: T.mul(num_el(x), R2D))
ufunc1('square', lambda x: T.power(num_el(x), 2), 'same')
ufunc1('negative', lambda x: T.neg(num_el(x)), 'same')
ufunc1('positive', lambda x: num_el(x), 'same')
ufunc1('reciprocal', lambda x: T.power(num_el(x), -1))
ufunc1('floor', n1('floor'))
ufunc1('ceil', n1('ceil'))
ufunc1('trunc', n1('trunc'))
ufunc1('fix', n1('trunc'))
ufunc1('rint', n1('round'))
ufunc1('isnan', lambda x: T.fn('isnan', num_el(x)), 'b')
ufunc1('isfinite', lambda x: T.bnot(T.fn('isnan', num_el(x))), 'b')
ufunc1('isinf', lambda x: False, 'b')
ufunc1('sign', n1('sign'), 'same')
ufunc1('logical_not', lambda x: T.bnot(x if _b(x) else T.cmp('ne', num_el(x), 0)), 'b')
ufunc1('invert', lambda x: T.bnot(x), 'b')
ufunc1('conj', lambda x: T.fn('conj', num_el(x)), 'same')
ufunc1('conjugate', lambda x: T.fn('conj', num_el(x)), 'same')


def _abs(I, args, kwargs):
    a = A(I, args[0])
    return ufunc_out(I, elementwise(I, lambda x: T.fn('abs', num_el(x)), [a], F if a.dt.kind == 'c' else a.dt),
                     kwargs.get('out'), kwargs.get('where'))


for _n in ('abs', 'absolute', 'fabs'):
    TABLE['numpy.' + _n] = _abs
TABLE['math.fabs'] = _abs


def _real(I, args, kwargs):
    a = A(I, args[0])
    return elementwise(I, lambda x: T.fn('real', num_el(x)), [a], F if a.dt.kind == 'c' else a.dt)


def _imag(I, args, kwargs):
    return elementwise(I, lambda x: T.fn('imag', num_el(x)), [A(I, args[0])], F)


TABLE['numpy.real'] = _real
TABLE['numpy.imag'] = _imag


@reg('angle')
@sig('z deg')
def angle(I, p):
    r = elementwise(I, lambda x: T.fn('angle', num_el(x)), [A(I, p('z'))], F)
    if I.resolve(p('deg')):
        r = elementwise(I, lambda x: T.mul(x, R2D), [r], F)
    return r


@reg('around', 'round', 'round_')
@sig('a decimals out')
def around(I, p):
    d = toint(I, p('decimals', 0))
    s = T.num(Fraction(10) ** d)
    a = A(I, p('a'))
    return ufunc_out(I, elementwise(I, lambda x: T.div(T.fn('round', T.mul(num_el(x), s)), s), [a], a.dt if a.dt.kind in 'ic' else F), p('out'))


# ------------------------------------------------------------------ binary ufuncs
IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': 0, 'bitwise_xor': 0, 'logical_xor': False,
         'hypot': 0}


def ufunc_methods(name, f):
    def sc(x, dt):
        return Arr(Buf([x]), np.zeros((), dtype=int), dt)

    def line(I, a, ax):
        """arrays along an axis"""
        return [view(a, np.take(a.idx, i, axis=ax)) for i in range(a.shape[ax])]

    def fold(I, xs):
        r = xs[0]
        for x in xs[1:]:
            r = A(I, f(I, A(I, r), x))
        return r

    def arg(I, a):
        return conv(I, a, B) if name.startswith('logical_') else a

    def reduce(I, p):
        a = arg(I, A(I, p('a')))
        ax, kd, init = axis_(I, p('axis', 0)), I.resolve(p('keepdims', False)), p('initial')
        if a.ndim == 0:
            return a
        sh = a.shape
        axes = tuple(range(a.ndim)) if ax is None else tuple(x % a.ndim for x in (ax if isinstance(ax, tuple) else (ax,)))
        rest = [i for i in range(a.ndim) if i not in axes]
        m = np.transpose(a.idx, list(axes) + rest).reshape((-1,) + tuple(sh[i] for i in rest))
        xs = [view(a, m[i]) for i in range(m.shape[0])]
        if init is not None:
            xs = [A(I, init)] + xs
        if not xs:
            if name not in IDENT:
                I.throw(ValueError, f'zero-size array to reduction operation {name} which has no identity')
            xs = [filled(I, m.shape[1:], IDENT[name] if isinstance(IDENT[name], bool) else T.num(IDENT[name]), a.dt)]
        r = copy_arr(A(I, fold(I, xs)))
        if kd:
            r = do_reshape(I, r, tuple(1 if i in axes else n for i, n in enumerate(sh)))
        elif not rest:
            r = Arr(r.buf, r.idx, r.dt, True)
        return ufunc_out(I, r, p('out'))
    reduce.__name__ = name + '.reduce'

    def accumulate(I, p):
        a = arg(I, A(I, p('a')))
        ax = axis_(I, p('axis', 0))
        out = []
        for x in line(I, a, ax):
            out.append(A(I, f(I, out[-1], x)) if out else x)
        r = TABLE['numpy.stack'](I, [LList(out)], {'axis': ax}) if out else a
        return ufunc_out(I, r, p('out'))
    accumulate.__name__ = name + '.accumulate'

    def reduceat(I, p):
        a = arg(I, A(I, p('a')))
        ix, ax = ints(I, p('indices')), axis_(I, p('axis', 0))
        xs = line(I, a, ax)
        out = []
        for i, j in zip(ix, list(ix[1:]) + [len(xs)]):
            out.append(fold(I, xs[i:j]) if i < j else xs[i])
        return TABLE['numpy.stack'](I, [LList(out)], {'axis': ax})
    reduceat.__name__ = name + '.reduceat'

    def at(I, args, kwargs):
        a, key = A(I, args[0]), norm_key(I, args[1])
        if isinstance(key, (Node, Arr)) or isinstance(key, tuple) and any(isinstance(x, (Node, Arr)) for x in key):
            raise Limit('symbolic index of ufunc.at')
        pos = np.asarray(positions(I, a, key))
        v = A(I, args[2])
        vi = np.broadcast_to(v.idx, pos.shape)
        for q, w in zip(pos.ravel(), vi.ravel()):
            one = Arr(a.buf, np.array(q), a.dt)
            write(I, a, np.array(q), A(I, f(I, one, sc(v.buf.data[w], v.dt))))
    TABLE[f'numpy.{name}.reduce'] = sig('a axis dtype out keepdims initial where')(reduce)
    TABLE[f'numpy.{name}.accumulate'] = sig('a axis dtype out')(accumulate)
    TABLE[f'numpy.{name}.reduceat'] = sig('a indices axis dtype out')(reduceat)
    TABLE[f'numpy.{name}.at'] = at


def ufunc2(name, f):
    def g(I, args, kwargs):
        kwargs = dict(kwargs)
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', None)
        dty = to_dt(I, kwargs.pop('dtype', None))
        kwargs.pop('casting', None)
        if kwargs:
            raise Limit(f'{name}: {sorted(kwargs)}')
        if len(args) == 3:
            args, out = args[:2], args[2]
        a, b = I.resolve(args[0]), I.resolve(args[1])
        if a is None or b is None:
            I.throw(TypeError, f'unsupported operand type for {name}: NoneType')
        if isinstance(a, Masked) or isinstance(b, Masked):
            fa = a.full if isinstance(a, Masked) else a
            fb = b.full if isinstance(b, Masked) else b
            m = (a if isinstance(a, Masked) else b).mask
            return Masked(A(I, f(I, A(I, fa), A(I, fb))), m)
        r = f(I, A(I, a), A(I, b))
        if dty is not None:
            r = conv(I, A(I, r), dty)
        return ufunc_out(I, r, out, where)
    TABLE['numpy.' + name] = g

    def outer(I, args, kwargs):
        a, b = A(I, args[0]), A(I, args[1])
        aa = Arr(a.buf, a.idx.reshape(a.shape + (1,) * b.ndim), a.dt)
        return f(I, aa, b)
    TABLE['numpy.' + name + '.outer'] = outer
    ufunc_methods(name, f)
    return g


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('power', 'Pow'), ('float_power', 'Pow'), ('remainder', 'Mod'), ('mod', 'Mod'),
               ('floor_divide', 'FloorDiv'), ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr'),
               ('bitwise_xor', 'BitXor')):
    ufunc2(_n, lambda I, a, b, _o=_o: arr_binop(I, _o, a, b))
for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'),
               ('greater', 'Gt'), ('greater_equal', 'GtE')):
    ufunc2(_n, lambda I, a, b, _o=_o: compare(I, _o, a, b))


def _tb(x):
    return x if _b(x) else T.cmp('ne', num_el(x), 0)


ufunc2('logical_and', lambda I, a, b: elementwise(I, lambda x, y: T.band(_tb(x), _tb(y)), [a, b], B))
ufunc2('logical_or', lambda I, a, b: elementwise(I, lambda x, y: T.bor(_tb(x), _tb(y)), [a, b], B))
ufunc2('logical_xor', lambda I, a, b: elementwise(
    I, lambda x, y: scalar_op(I, 'BitXor', _tb(x), _tb(y)), [a, b], B))
ufunc2('arctan2', lambda I, a, b: elementwise(I, lambda x, y: T.fn('arctan2', num_el(x), num_el(y)), [a, b], F))
TABLE['math.atan2'] = TABLE['numpy.arctan2']
TABLE['numpy.atan2'] = TABLE['numpy.arctan2']
ufunc2('hypot', lambda I, a, b: elementwise(
    I, lambda x, y: T.sqrt(T.add(T.power(num_el(x), 2), T.power(num_el(y), 2))), [a, b], F))
TABLE['math.hypot'] = TABLE['numpy.hypot']
ufunc2('minimum', lambda I, a, b: elementwise(I, lambda x, y: T.fn('min', num_el(x), num_el(y)), [a, b], promote([a.dt, b.dt])))
ufunc2('maximum', lambda I, a, b: elementwise(I, lambda x, y: T.fn('max', num_el(x), num_el(y)), [a, b], promote([a.dt, b.dt])))
TABLE['numpy.fmin'] = TABLE['numpy.minimum']
TABLE['numpy.fmax'] = TABLE['numpy.maximum']
ufunc2('fmod', lambda I, a, b: elementwise(
    I, lambda x, y: T.sub(num_el(x), T.mul(T.fn('trunc', T.div(num_el(x), num_el(y))), num_el(y))), [a, b], F))
TABLE['math.fmod'] = TABLE['numpy.fmod']
ufunc2('outer', lambda I, a, b: arr_binop(I, 'Mult', Arr(a.buf, a.idx.reshape(-1, 1), a.dt), Arr(b.buf, b.idx.reshape(-1), b.dt)))


@reg('where')
@sig('condition x y')
def where(I, p):
    c = A(I, p('condition'))
    if not p.has('x'):
        if all(isinstance(e, bool) for e in c.elems()):
            r = np.nonzero(np.array(c.elems(), dtype=bool).reshape(c.shape))
            return tuple(ret(np.array(x, dtype=object), INT) for x in r)
        return nonzero(I, [c], {})
    x, y = A(I, p('x')), A(I, p('y'))
    dt = promote([x.dt, y.dt])
    r = elementwise(I, lambda k, u, v: T.ite(_tb(k), u, v) if dt.kind not in 'OU' else I.merge_val(_tb(k), u, v), [c, x, y], dt)
    if r.scalar:        # np.where returns a 0-d array
        r = Arr(r.buf, r.idx, r.dt)
    return r


@reg('flatnonzero')
@sig('a')
def flatnonzero(I, p):
    return nonzero(I, [do_reshape(I, A(I, p('a')), (-1,))], {})[0]


@reg('argwhere')
@sig('a')
def argwhere(I, p):
    a = A(I, p('a'))
    r = nonzero(I, [a], {})
    if any(isinstance(x, Masked) for x in r):
        raise Limit('argwhere')
    return ret(objarr((r[0].size, a.ndim), [x for row in zip(*[c.elems() for c in r]) for x in row]), INT)


@reg('nonzero')
@sig('a')
def nonzero(I, p):
    a = A(I, p('a'))
    if a.ndim == 0:
        I.throw(ValueError, 'Calling nonzero on 0d arrays is not allowed.')
    es = [I.simp(_tb(e)) for e in a.elems()]
    if not all(isinstance(e, bool) for e in es):
        mask = new_arr(objarr(a.shape, es), B)
        return tuple(Masked(A(I, ret(np.indices(a.shape)[i].astype(object), INT)), mask, (i, a.ndim)) for i in range(a.ndim))
    r = np.nonzero(np.array(es, dtype=bool).reshape(a.shape))
    return tuple(ret(np.array(x, dtype=object), INT) for x in r)


@reg('clip')
@sig('a a_min a_max out min max')
def clip(I, p):
    a = A(I, p('a'))
    r = copy_arr(a)
    lo, hi = p('a_min', p('min')), p('a_max', p('max'))
    if I.resolve(lo) is not None:
        lo = A(I, lo)
        r = elementwise(I, lambda x, y: T.fn('max', num_el(x), num_el(y)), [r, lo], a.dt)
    if I.resolve(hi) is not None:
        hi = A(I, hi)
        r = elementwise(I, lambda x, y: T.fn('min', num_el(x), num_el(y)), [A(I, r), hi], a.dt)
    return ufunc_out(I, r, p('out'))


# ------------------------------------------------------------------ reductions
def reduce_(I, a, axis, keepdims, f, dt):
    objs = a.get()
    if axis is None:
        v = f(list(objs.ravel()))
        if keepdims:
            return new_arr(objarr((1,) * a.ndim, [v]), dt)
        return Arr(Buf([v]), np.zeros((), dtype=int), dt, True)
    axes = axis if isinstance(axis, tuple) else (axis,)
    try:
        axes = tuple(np.lib.array_utils.normalize_axis_index(x, a.ndim) for x in axes) if hasattr(np.lib, 'array_utils') \
            else tuple(x % a.ndim for x in axes)
    except Exception:
        I.throw(ValueError, 'axis out of bounds')
    rest = [i for i in range(a.ndim) if i not in axes]
    m = np.transpose(objs, rest + list(axes))
    rsh = tuple(a.shape[i] for i in rest)
    m = m.reshape((int(np.prod(rsh)) if rsh else 1, -1))
    out = [f(list(row)) for row in m]
    if keepdims:
        sh = tuple(1 if i in axes else s for i, s in enumerate(a.shape))
        return new_arr(objarr(sh, out), dt)
    if rsh == ():
        return Arr(Buf(out), np.zeros((), dtype=int), dt, True)
    return new_arr(objarr(rsh, out), dt)


def _sum(xs):
    return T.add(*[num_el(x) for x in xs]) if xs else T.ZERO


def reduction(names, f, dtf, empty_err=False, comb=None, neutral=None):
    @sig('a axis dtype out keepdims initial where')
    def g(I, p):
        v = I.resolve(p('a'))
        if isinstance(v, Masked):
            raise Limit('reduction of masked selection')
        if v is None:
            I.throw(TypeError, f'{names[0]} of None')
        a = A(I, v)
        if a.dt.kind == 'O':
            a = conv(I, a, F)
        d = to_dt(I, p('dtype')) if p('dtype') is not None else None
        if d is not None:
            a = conv(I, a, d)
        init, w = I.resolve(p('initial')), p('where')
        if w is not None and I.resolve(w) is not True:
            if neutral is None and (comb is None or init is None):
                raise Limit(f'{names[0]}: where')
            ne = num_el(init) if neutral is None else neutral
            a = elementwise(I, lambda c, x: T.ite(_tb(c), x if _b(x) and _b(ne) else num_el(x), ne), [A(I, w), a], a.dt)
        if empty_err and a.size == 0 and init is None:
            I.throw(ValueError, 'zero-size array to reduction operation')
        h = f
        if init is not None:
            if comb is None:
                raise Limit(f'{names[0]}: initial')
            h = lambda xs: comb(num_el(init), f(xs)) if xs else num_el(init)      # noqa: E731
        r = reduce_(I, a, axis_(I, p('axis')), I.resolve(p('keepdims')) is True, h, d or dtf(a.dt))
        return ufunc_out(I, r, p('out'))
    for n in names:
        TABLE['numpy.' + n] = g
    return g


def _isnan(x):
    return T.fn('isnan', num_el(x))


def nanred(op):
    def f(xs):
        best = num_el(xs[0])
        for x in map(num_el, xs[1:]):
            best = T.ite(_isnan(best), x, T.ite(_isnan(x), best, T.fn(op, best, x)))
        return best
    return f


def _nz(xs):
    return [T.ite(_isnan(x), T.ZERO, num_el(x)) for x in xs]


def _median(xs):
    xs = [num_el(x) for x in xs]
    v = order_nodes(xs, 'sort')
    n = len(v)
    return v[n // 2] if n % 2 else T.div(T.add(v[n // 2 - 1], v[n // 2]), 2)


_same = lambda d: d      # noqa: E731
_i = lambda d: INT if d.kind == 'b' else d      # noqa: E731
_f = lambda d: C if d.kind == 'c' else F      # noqa: E731
np_sum = reduction(['sum'], _sum, _i, comb=T.add, neutral=T.ZERO)
reduction(['nansum'], lambda xs: _sum(_nz(xs)), _i)
np_prod = reduction(['prod', 'product'], lambda xs: T.mul(*[num_el(x) for x in xs]) if xs else T.ONE, _i, comb=T.mul, neutral=T.ONE)
np_min = reduction(['amin', 'min'], lambda xs: T.fn('min', *[num_el(x) for x in xs]), _same, True, comb=lambda a, b: T.fn('min', a, b))
np_max = reduction(['amax', 'max'], lambda xs: T.fn('max', *[num_el(x) for x in xs]), _same, True, comb=lambda a, b: T.fn('max', a, b))
reduction(['nanmin'], nanred('min'), _same, True)
reduction(['nanmax'], nanred('max'), _same, True)
np_mean = reduction(['mean'], lambda xs: T.div(_sum(xs), T.num(len(xs))) if xs else T.NAN, _f)
reduction(['nanmean'], lambda xs: T.div(_sum(_nz(xs)), _sum([T.bnot(_isnan(x)) for x in xs])), _f)
np_any = reduction(['any'], lambda xs: T.bor(*[_tb(x) for x in xs]) if xs else False, lambda d: B, neutral=False)
np_all = reduction(['all'], lambda xs: T.band(*[_tb(x) for x in xs]) if xs else True, lambda d: B, neutral=True)
np_cnt = reduction(['count_nonzero'], lambda xs: _sum([_tb(x) for x in xs]), lambda d: INT)
np_ptp = reduction(['ptp'], lambda xs: T.sub(T.fn('max', *[num_el(x) for x in xs]), T.fn('min', *[num_el(x) for x in xs])), _same)
np_median = reduction(['median'], _median, lambda d: F)


@reg('linalg.norm')
@sig('x ord axis keepdims')
def norm(I, p):
    o = I.resolve(p('ord'))
    if o not in (None, 2, 'fro'):
        raise Limit('norm order')
    a = A(I, p('x'))
    return reduce_(I, a, axis_(I, p('axis')), I.resolve(p('keepdims')) is True,
                   lambda xs: T.sqrt(_nn(T.add(*[T.power(num_el(x), 2) for x in xs]))), F)


def _nn(x):
    return x


@reg('cumsum')
@sig('a axis dtype out')
def cumsum(I, p):
    a = A(I, p('a'))
    ax = axis_(I, p('axis'))
    d = to_dt(I, p('dtype')) if p('dtype') is not None else INT if a.dt.kind == 'b' else a.dt
    r = ret(np.asarray(np.cumsum(numobj(a), axis=ax), dtype=object), d, True)
    return ufunc_out(I, r, p('out'))


def numobj(a):
    return objarr(a.shape, [num_el(x) for x in a.elems()])


def lastaxis(I, a, axis, f, dt):
    """f on every line along an axis (default last)"""
    ax = -1 if axis is None else axis
    o = np.moveaxis(numobj(a), ax, -1)
    sh = o.shape[:-1]
    rows = [f(list(o[i])) for i in np.ndindex(*sh)]
    if rows and isinstance(rows[0], list):
        st = np.empty(sh + (len(rows[0]),), dtype=object)
        for i, r in zip(np.ndindex(*sh), rows):
            for j, x in enumerate(r):
                st[i + (j,)] = x
        return new_arr(objarr(st.shape, [el(x) for x in np.moveaxis(st, -1, ax).reshape(-1)]), dt) if st.ndim == 1 else \
            ret(np.moveaxis(st, -1, ax), dt, True)
    return ret(objarr(sh, rows), dt)


def order_nodes(xs, what):
    """positions (or values) of the sorted sequence"""
    if len(xs) > 64:
        raise Limit('sort of long symbolic data')
    if all(T.is_const(x) for x in xs):
        v = [pit_const(x) for x in xs]
        if len(set(v)) == len(v):
            ix = sorted(range(len(v)), key=lambda i: v[i])
            return [T.num(i) if what == 'argsort' else xs[i] for i in ix]
    return [T.uf(f'{what}:{i}', *xs) for i in range(len(xs))]


def pit_const(x):
    from . import pit
    return pit.const(x)


@reg('argsort')
@sig('a axis kind order stable')
def argsort(I, p):
    a = A(I, p('a'))
    if I.resolve(p('axis', -1)) is None:
        a = A(I, ret(objarr((a.size,), a.elems()), a.dt, True))
    return lastaxis(I, a, axis_(I, p('axis', -1)), lambda xs: order_nodes(xs, 'argsort'), INT)


def _argext(name, op):
    @reg(name)
    @sig('a axis out')
    def f(I, p):
        a = A(I, p('a'))
        ax = axis_(I, p('axis'))

        def one(xs):
            if not xs:
                I.throw(ValueError, f'attempt to get {name} of an empty sequence')
            best, bi = xs[0], T.num(0)
            for i, x in enumerate(xs[1:], 1):
                c = T.cmp(op, x, best)
                best, bi = T.ite(c, x, best), T.ite(c, T.num(i), bi)
            return bi
        if ax is None:
            return ret(one([num_el(x) for x in a.elems()]), INT)
        return lastaxis(I, a, ax, one, INT)


_argext('argmax', 'gt')
_argext('argmin', 'lt')


def count_nodes(xs, v, op):
    s = T.ZERO
    for x in xs:
        c = T.cmp(op, num_el(x), v)
        s = T.add(s, T.ite(c, T.ONE, T.ZERO) if isinstance(c, Node) else T.num(int(c)))
    return s


@reg('searchsorted')
@sig('a v side sorter')
def searchsorted(I, p):
    a, v = A(I, p('a')), A(I, p('v'))
    if p('sorter') is not None or a.ndim != 1:
        raise Limit('searchsorted')
    op = 'lt' if I.resolve(p('side', 'left')) == 'left' else 'le'
    return ret(objarr(v.shape, [count_nodes(a.elems(), num_el(x), op) for x in v.elems()]), INT)


@reg('digitize')
@sig('x bins right')
def digitize(I, p):
    v, a = A(I, p('x')), A(I, p('bins'))
    r = I.resolve(p('right', False))
    return ret(objarr(v.shape, [count_nodes(a.elems(), num_el(x), 'lt' if r is True else 'le') for x in v.elems()]), INT)


@reg('sort')
@sig('a axis kind')
def npsort(I, p):
    a = A(I, p('a'))
    ax = I.resolve(p('axis', -1))
    if a.ndim == 1:
        return sort_terms(I, a, False)
    if ax is None:
        return sort_terms(I, A(I, ret(objarr((a.size,), a.elems()), a.dt, True)), False)
    return lastaxis(I, a, axis_(I, p('axis', -1)), lambda xs: order_nodes(xs, 'sort'), a.dt)


def sort_terms(I, a, uniq):
    es = a.elems()
    if not uniq and a.ndim > 1:
        return lastaxis(I, a, -1, lambda xs: order_nodes(xs, 'sort'), a.dt)
    if not uniq:
        try:
            return sort_terms_(I, a, uniq)
        except Limit:
            return lastaxis(I, a, -1, lambda xs: order_nodes(xs, 'sort'), a.dt)
    return sort_terms_(I, a, uniq)


def sort_terms_(I, a, uniq):
    es = a.elems()
    out = []
    for e in es:
        i = 0
        dup = False
        while i < len(out):
            c = T.cmp('lt', num_el(e), num_el(out[i]))
            if e is out[i]:
                if uniq:
                    dup = True
                break
            if c is True:
                break
            if c is not False:
                raise Limit('sort of unordered terms')
            i += 1
        if not dup:
            out.insert(i, e)
    return new_arr(objarr((len(out),), out), a.dt)


@reg('unique')
@sig('ar return_index return_inverse return_counts axis')
def unique(I, p):
    a = A(I, p('ar'))
    if p('axis') is not None and a.ndim != 1:
        raise Limit('unique axis')
    fl = [I.resolve(p(k, False)) for k in ('return_index', 'return_inverse', 'return_counts')]
    if any(fl):
        es = a.elems()
        if a.dt.kind == 'U':
            v = np.array(es)
        elif all(T.is_const(num_el(x)) for x in es):
            v = np.array([pit_const(num_el(x)) for x in es])
        else:
            raise Limit('unique of symbolic data')
        _, i, inv, c = np.unique(v.reshape(a.shape), return_index=True, return_inverse=True, return_counts=True)
        ii = lambda x: ret(np.array([T.num(int(y)) for y in x.ravel()], dtype=object).reshape(x.shape), INT)      # noqa: E731
        out = (new_arr(objarr((len(i),), [es[j] for j in i]), a.dt),)
        return out + tuple(ii(x) for x, f in zip((i, inv, c), fl) if f)
    if a.dt.kind == 'U':
        es = sorted(set(a.elems()))
        return new_arr(objarr((len(es),), es), U)
    return sort_terms(I, a, True)


@reg('diff')
@sig('a n axis prepend append')
def diff(I, p):
    a = A(I, p('a'))
    ax = toint(I, p('axis', -1))
    for k in ('prepend', 'append'):
        v = p(k)
        if v is not None:
            v = A(I, v)
            if v.ndim == 0:
                sh = tuple(1 if i == ax % a.ndim else n for i, n in enumerate(a.shape))
                v = Arr(v.buf, np.broadcast_to(v.idx, sh), v.dt)
            a = TABLE['numpy.concatenate'](I, [(v, a) if k == 'prepend' else (a, v)], {'axis': ax})
    return ret(np.diff(numobj(a), n=toint(I, p('n', 1)), axis=toint(I, p('axis', -1))), a.dt, True)


# ------------------------------------------------------------------ linear algebra via object arrays
def dtres(*arrs):
    d = promote([a.dt for a in arrs])
    return INT if d.kind == 'b' else d


def matmul(I, args, kwargs):
    a, b = A(I, args[0]), A(I, args[1])
    try:
        r = np.matmul(numobj(a), numobj(b))
    except ValueError as e:
        I.throw(ValueError, str(e))
    return ufunc_out(I, ret(r, dtres(a, b)), kwargs.get('out'))


TABLE['numpy.matmul'] = matmul


def obj2(name):
    f = np
    for part in name.split('.'):
        f = getattr(f, part)

    def g(I, args, kwargs):
        kw = {}
        for k, v in kwargs.items():
            v = I.resolve(v)
            kw[k] = tuple(ints(I, v)) if isinstance(v, (tuple, LList)) else (toint(I, v) if v is not None else None)
        a, b = A(I, args[0]), A(I, args[1])
        extra = [axis_(I, x) for x in args[2:]]
        try:
            r = f(numobj(a), numobj(b), *extra, **kw)
        except (ValueError, IndexError) as e:
            I.throw(ValueError, str(e))
        return ret(r, dtres(a, b))
    TABLE['numpy.' + name] = g


for _n in ('dot', 'inner', 'vdot', 'kron'):
    obj2(_n)


@reg('convolve')
@sig('a v mode')
def convolve(I, p):
    a, b = A(I, p('a')), A(I, p('v'))
    m = I.resolve(p('mode', 'full'))
    if a.ndim != 1 or b.ndim != 1:
        I.throw(ValueError, 'object too deep for desired array')
    if a.size < b.size:
        a, b = b, a
    x, y = numobj(a), numobj(b)
    full = [T.add(*[T.mul(x[i], y[k - i]) for i in range(len(x)) if 0 <= k - i < len(y)]) for k in range(len(x) + len(y) - 1)]
    n = len(y) - 1
    if m == 'valid':
        full = full[n:len(full) - n]
    elif m == 'same':
        full = full[n // 2:n // 2 + len(x)]
    elif m != 'full':
        I.throw(ValueError, f'mode {m}')
    return ret(objarr((len(full),), full), dtres(a, b))


@reg('tensordot')
@sig('a b axes')
def tensordot(I, p):
    a, b = A(I, p('a')), A(I, p('b'))
    x = I.resolve(p('axes', 2))
    if isinstance(x, (tuple, LList, Arr)) and not (isinstance(x, Arr) and x.ndim == 0):
        x = tuple(tuple(ints(I, v)) if isinstance(I.resolve(v), (tuple, LList)) else toint(I, v) for v in I.iterate(x))
    else:
        x = toint(I, x)
    try:
        r = np.tensordot(numobj(a), numobj(b), axes=x)
    except (ValueError, IndexError) as e:
        I.throw(ValueError, str(e))
    return ret(np.asarray(r, dtype=object), dtres(a, b))


@reg('cross')
@sig('a b axisa axisb axisc axis')
def cross(I, p):
    a, b = A(I, p('a')), A(I, p('b'))
    kw = {}
    for k in ('axisa', 'axisb', 'axisc', 'axis'):
        if p.has(k) and I.resolve(p(k)) is not None:
            kw[k] = toint(I, p(k))
    try:
        r = np.cross(numobj(a), numobj(b), **kw)
    except ValueError as e:
        I.throw(ValueError, str(e))
    return ret(r, dtres(a, b))


@reg('einsum')
def einsum(I, args, kwargs):
    s = I.resolve(args[0])
    arrs = [A(I, x) for x in args[1:]]
    try:
        r = np.einsum(s, *[numobj(a) for a in arrs])
    except ValueError as e:
        I.throw(ValueError, str(e))
    return ret(np.asarray(r, dtype=object), dtres(*arrs))


@reg('trace')
@sig('a offset axis1 axis2')
def trace(I, p):
    a = A(I, p('a'))
    return ret(np.trace(numobj(a), offset=toint(I, p('offset', 0)), axis1=toint(I, p('axis1', 0)), axis2=toint(I, p('axis2', 1))), a.dt)


@reg('eye')
@sig('N M k dtype order')
def eye(I, p):
    n = toint(I, p('N'))
    m = I.resolve(p('M'))
    r = np.eye(n, n if m is None else toint(I, m), toint(I, p('k', 0)), dtype=int)
    return conv(I, ret(np.array(r, dtype=object), INT), to_dt(I, p('dtype')) or F)


@reg('identity')
@sig('n dtype')
def identity(I, p):
    return eye(I, [p('n')], {'dtype': p('dtype')})


@reg('diag')
@sig('v k')
def diag(I, p):
    a = A(I, p('v'))
    n = numobj(a)
    k = toint(I, p('k', 0))
    if a.ndim == 1:
        m = a.size + abs(k)
        r = np.full((m, m), T.ZERO, dtype=object)
        for i in range(a.size):
            r[i + max(0, -k), i + max(0, k)] = n[i]
        return ret(r, a.dt)
    return ret(np.diag(n, k), a.dt)


@reg('linalg.inv', 'linalg.solve', 'linalg.det', 'linalg.lstsq', 'linalg.pinv')
def linalg_uf(I, args, kwargs):
    raise Limit('linalg')


# ------------------------------------------------------------------ fft / quadrature
@reg('fft.fft')
@sig('a n axis norm')
def fft(I, p):
    return _fft(I, p, -1)


@reg('fft.ifft')
@sig('a n axis norm')
def ifft(I, p):
    return _fft(I, p, 1)


@reg('fft.rfft')
@sig('a n axis norm')
def rfft(I, p):
    r = _fft(I, p, -1)
    ax = toint(I, p('axis', -1))
    n = r.shape[ax] // 2 + 1
    return take(I, [r], {'indices': tuple(range(n)), 'axis': ax})


def _fft(I, p, sgn):
    a = A(I, p('a'))
    ax = toint(I, p('axis', -1))
    norm = I.resolve(p('norm')) or 'backward'
    if norm not in ('forward', 'backward', 'ortho'):
        I.throw(ValueError, f'Invalid norm value {norm}')
    if I.resolve(p('n')) is not None and toint(I, p('n')) != a.shape[ax]:
        raise Limit('fft n')
    objs = np.moveaxis(numobj(a), ax, -1)
    n = objs.shape[-1]
    if n > 64 and a.size > 4096:
        raise Limit('fft size')
    w = {}
    for k in range(n):
        ang = T.mul(T.num(Fraction(2 * k, n)), T.PI)
        w[k] = T.add(T.fn('cos', ang), T.mul(T.num(sgn), T.I, T.fn('sin', ang)))
    out = np.empty(objs.shape, dtype=object)
    for ix in np.ndindex(objs.shape[:-1]):
        row = objs[ix]
        for k in range(n):
            v = T.add(*[T.mul(row[j], w[(j * k) % n]) for j in range(n)])
            if norm == 'ortho':
                v = T.div(v, T.sqrt(T.num(n)))
            elif (norm == 'forward') == (sgn < 0):
                v = T.div(v, T.num(n))
            out[ix + (k,)] = v
    return ret(np.moveaxis(out, -1, ax), C)


@reg('polynomial.legendre.leggauss')
def leggauss(I, args, kwargs):
    x, w = np.polynomial.legendre.leggauss(toint(I, args[0]))
    return (ret(np.array([T.num(float(v)) for v in x], dtype=object), F),
            ret(np.array([T.num(float(v)) for v in w], dtype=object), F))


# ------------------------------------------------------------------ shape
def view(a, idx):
    """array sharing (or copying) depending on whether idx shares memory"""
    if a.scalar or not np.shares_memory(idx, a.idx):
        return new_arr(objarr(idx.shape, [a.buf.data[i] for i in idx.ravel()]), a.dt)
    return Arr(a.buf, idx, a.dt)


def shapes(I, args):
    if len(args) == 1:
        return tuple(ints(I, args[0]))
    return tuple(toint(I, x) for x in args)


def do_reshape(I, a, sh, order=None):
    order = I.resolve(order) or 'C'
    if order == 'A':
        raise Limit('reshape order A')
    try:
        idx = a.idx.reshape(sh, order=order)
    except ValueError as e:
        I.throw(ValueError, str(e))
    return view(a, idx)


@reg('reshape')
@sig('a shape order newshape')
def reshape(I, p):
    return do_reshape(I, A(I, p('a')), tuple(ints(I, p('shape') if p('shape') is not None else p('newshape'))), p('order'))


@reg('ravel')
@sig('a order')
def ravel(I, p):
    a = A(I, p('a'))
    o = I.resolve(p('order')) or 'C'
    if o not in ('F', 'C'):
        raise Limit('ravel order')
    return view(a, a.idx.ravel(order=o))


@reg('squeeze')
@sig('a axis')
def squeeze(I, p):
    a = A(I, p('a'))
    ax = axis_(I, p('axis'))
    try:
        return view(a, a.idx.squeeze(axis=ax))
    except ValueError as e:
        I.throw(ValueError, str(e))


@reg('expand_dims')
@sig('a axis')
def expand_dims(I, p):
    a = A(I, p('a'))
    try:
        return view(a, np.expand_dims(a.idx, axis_(I, p('axis'))))
    except Exception as e:
        I.throw(ValueError, str(e))


@reg('swapaxes')
@sig('a axis1 axis2')
def swapaxes(I, p):
    a = A(I, p('a'))
    return view(a, np.swapaxes(a.idx, toint(I, p('axis1')), toint(I, p('axis2'))))


@reg('moveaxis')
@sig('a source destination')
def moveaxis(I, p):
    a = A(I, p('a'))
    return view(a, np.moveaxis(a.idx, axis_(I, p('source')), axis_(I, p('destination'))))


@reg('rollaxis')
@sig('a axis start')
def rollaxis(I, p):
    a = A(I, p('a'))
    return view(a, np.rollaxis(a.idx, axis_(I, p('axis')), axis_(I, p('start', 0))))


@reg('transpose', 'permute_dims', 'matrix_transpose')
@sig('a axes')
def transpose(I, p):
    a = A(I, p('a'))
    ax = axis_(I, p('axes'))
    return view(a, np.transpose(a.idx, ax))


@reg('atleast_1d')
def atleast_1d(I, args, kwargs):
    r = [view(A(I, v), np.atleast_1d(A(I, v).idx)) for v in args]
    return r[0] if len(r) == 1 else tuple(r)


@reg('atleast_2d')
def atleast_2d(I, args, kwargs):
    a = A(I, args[0])
    return view(a, np.atleast_2d(a.idx))


@reg('broadcast_to')
@sig('array shape subok')
def broadcast_to(I, p):
    a = A(I, p('array'))
    try:
        return Arr(a.buf, np.broadcast_to(a.idx, tuple(ints(I, p('shape')))), a.dt)
    except ValueError as e:
        I.throw(ValueError, str(e))


@reg('broadcast_arrays')
def broadcast_arrays(I, args, kwargs):
    arrs = [A(I, x) for x in args]
    sh = bshape(I, *[a.shape for a in arrs])
    return tuple(Arr(a.buf, np.broadcast_to(a.idx, sh), a.dt) for a in arrs)


@reg('broadcast_shapes')
def broadcast_shapes(I, args, kwargs):
    return bshape(I, *[tuple(ints(I, x)) for x in args])


@reg('broadcast')
def broadcast(I, args, kwargs):
    sh = bshape(I, *[A(I, x).shape for x in args])
    o = Inst(Class('broadcast', [], {}, None, 'numpy.broadcast'))
    o.attrs = {'shape': sh, 'ndim': len(sh), 'nd': len(sh), 'size': int(np.prod(sh)) if sh else 1}
    return o


@reg('meshgrid')
def meshgrid(I, args, kwargs):
    arrs = [A(I, x) for x in args]
    ix = I.resolve(kwargs.get('indexing', 'xy'))
    sp = I.resolve(kwargs.get('sparse', False))
    ids = np.meshgrid(*[a.idx.ravel() for a in arrs], indexing=ix, sparse=bool(sp))
    return tuple(new_arr(objarr(i.shape, [a.buf.data[j] for j in i.ravel()]), a.dt) for a, i in zip(arrs, ids))


def joiner(name, f):
    def g(I, args, kwargs):
        kw = {}
        dt = None
        if isinstance(I.resolve(args[0]), (Iter, Inf)):
            I.throw(TypeError, 'arrays must be passed as a sequence')
        for k, v in kwargs.items():
            if k == 'dtype':
                dt = to_dt(I, v)
                continue
            if k in ('out', 'casting'):
                raise Limit(k)
            if k not in ('axis',):
                I.throw(TypeError, f'{name}() got an unexpected keyword argument')
            v = I.resolve(v)
            kw[k] = None if v is None else toint(I, v)
        if len(args) > 1:
            kw['axis'] = toint(I, args[1])
        arrs = [A(I, x) for x in I.iterate(args[0])]
        if not arrs:
            I.throw(ValueError, 'need at least one array')
        d = dt or promote([a.dt for a in arrs])
        arrs = [conv(I, a, d) for a in arrs]
        try:
            r = f([a.get() for a in arrs], **kw)
        except ValueError as e:
            I.throw(ValueError, str(e))
        return ret(r, d, True)
    TABLE['numpy.' + name] = g


for _n in ('stack', 'concatenate', 'vstack', 'hstack', 'column_stack', 'dstack', 'row_stack', 'concat'):
    if hasattr(np, _n):
        joiner(_n, getattr(np, _n))
TABLE['numpy.row_stack'] = TABLE['numpy.vstack']


@reg('append')
@sig('arr values axis')
def append(I, p):
    a, b = A(I, p('arr')), A(I, p('values'))
    ax = axis_(I, p('axis'))
    d = promote([a.dt, b.dt]) if a.size or a.dt.kind != 'f' or True else b.dt
    a, b = conv(I, a, d), conv(I, b, d)
    return ret(np.append(a.get(), b.get(), axis=ax), d, True)


def objfun(name, params):
    f = getattr(np, name)
    names = params.split()

    def g(I, args, kwargs):
        p = Args(I, name, args, kwargs, names)
        a = A(I, p(names[0]))
        kw = {}
        for n in names[1:]:
            if p.has(n):
                v = I.resolve(p(n))
                if v is None:
                    kw[n] = None
                elif isinstance(v, (tuple, LList)) or isinstance(v, Arr) and v.ndim:
                    kw[n] = np.array(ints(I, v)) if n in ('repeats', 'indices', 'obj') else tuple(ints(I, v))
                else:
                    kw[n] = toint(I, v)
        try:
            r = f(a.get(), **kw)
        except (ValueError, IndexError) as e:
            I.throw(type(e), str(e))
        return ret(r, a.dt)
    TABLE['numpy.' + name] = g


objfun('roll', 'a shift axis')
objfun('repeat', 'a repeats axis')
objfun('tile', 'A reps')
objfun('flip', 'm axis')
objfun('flipud', 'm')
objfun('fliplr', 'm')


@reg('take')
@sig('a indices axis out mode')
def take(I, p):
    a = A(I, p('a'))
    ax = axis_(I, p('axis'))
    ix = p('indices')
    if ax is None:
        return getitem(I, do_reshape(I, a, (-1,)), A(I, ix))
    return getitem(I, a, (slice(None),) * (ax % a.ndim) + (A(I, ix),))


objfun('delete', 'arr obj axis')


@reg('split')
@sig('ary indices_or_sections axis')
def split(I, p):
    return _split(I, p, np.split)


@reg('array_split')
@sig('ary indices_or_sections axis')
def array_split(I, p):
    return _split(I, p, np.array_split)


def _split(I, p, fn):
    a = A(I, p('ary'))
    s = I.resolve(p('indices_or_sections'))
    s = ints(I, s) if isinstance(s, (tuple, LList, Arr)) and not (isinstance(s, Arr) and s.ndim == 0) else toint(I, s)
    try:
        return LList([view(a, x) for x in fn(a.idx, s, axis=toint(I, p('axis', 0)))])
    except ValueError as e:
        I.throw(ValueError, str(e))


@reg('insert')
@sig('arr obj values axis')
def insert(I, p):
    a, v = A(I, p('arr')), A(I, p('values'))
    return ret(np.insert(a.get(), toint(I, p('obj')), v.get(), axis=axis_(I, p('axis'))), promote([a.dt, v.dt]), True)


@reg('pad')
@sig('array pad_width mode constant_values')
def pad(I, p):
    a = A(I, p('array'))
    m = I.resolve(p('mode', 'constant'))
    if m not in ('constant', 'edge', 'wrap', 'reflect', 'symmetric'):
        raise Limit('pad mode')

    def pw(v):
        v = I.resolve(v)
        if isinstance(v, (tuple, LList)):
            return tuple(pw(x) for x in I.iterate(v))
        return toint(I, v)
    if m != 'constant':
        ids = np.pad(a.idx, pw(p('pad_width')), mode=m)
        return new_arr(objarr(ids.shape, [a.buf.data[i] for i in ids.ravel()]), a.dt)
    ids = np.pad(a.idx, pw(p('pad_width')), mode='constant', constant_values=-1)
    cv = num_el(I.resolve(p('constant_values', 0)))
    return new_arr(objarr(ids.shape, [a.buf.data[i] if i >= 0 else cv for i in ids.ravel()]), a.dt)


@reg('ndindex')
def ndindex(I, args, kwargs):
    sh = shapes(I, args) if args else ()
    return LList([tuple(int(i) for i in ix) for ix in np.ndindex(*sh)])


@reg('ndim')
@sig('a')
def ndim(I, p):
    return A(I, p('a')).ndim


@reg('shape')
@sig('a')
def shape(I, p):
    return A(I, p('a')).shape


@reg('size')
@sig('a axis')
def size(I, p):
    ax = p('axis')
    a = A(I, p('a'))
    return a.size if ax is None else a.shape[toint(I, ax)]


@reg('isscalar')
@sig('a')
def isscalar(I, p):
    v = I.resolve(p('a'))
    return isnum(v) or isinstance(v, str) or isinstance(v, Arr) and v.scalar


@reg('array_equal', 'array_equiv')
def array_equal(I, args, kwargs):
    a, b = A(I, args[0]), A(I, args[1])
    if a.shape != b.shape:
        return False
    return T.band(*[cmp_el(I, 'eq', x, y) for x, y in zip(a.elems(), b.elems())]) if a.size else True


@reg('isclose')
@sig('a b rtol atol equal_nan')
def isclose(I, p):
    rt, at = num_el(I.resolve(p('rtol', 1e-5))), num_el(I.resolve(p('atol', 1e-8)))

    def f(x, y):
        x, y = num_el(x), num_el(y)
        if x is y:
            return True
        return T.cmp('le', T.fn('abs', T.sub(x, y)), T.add(at, T.mul(rt, T.fn('abs', y))))
    return elementwise(I, f, [A(I, p('a')), A(I, p('b'))], B)


@reg('allclose')
def allclose(I, args, kwargs):
    r = isclose(I, args, kwargs)
    return T.band(*r.elems()) if r.size else True


@reg('iscomplexobj')
@sig('x')
def iscomplexobj(I, p):
    return A(I, p('x')).dt.kind == 'c'


@reg('isrealobj')
@sig('x')
def isrealobj(I, p):
    return A(I, p('x')).dt.kind != 'c'


@reg('isin', 'in1d')
@sig('element test_elements')
def isin(I, p):
    t = A(I, p('test_elements')).elems()
    return elementwise(I, lambda x: T.bor(*[cmp_el(I, 'eq', x, y) for y in t]) if t else False, [A(I, p('element'))], B)


@reg('issubdtype')
def issubdtype(I, args, kwargs):
    a, b = I.resolve(args[0]), I.resolve(args[1])
    d = a if isinstance(a, DT) else to_dt(I, a)
    if isinstance(b, Ext):
        n = b.path.split('.')[-1]
        if n in ('number', 'inexact'):
            return d.kind in ('ifc' if n == 'number' else 'fc')
        if n in ('integer', 'signedinteger'):
            return d.kind in 'i'
        if n == 'generic':
            return True
        if n in ('character', 'flexible'):
            return d.kind == 'U'
        if n == 'datetime64':
            return d.kind == 'M'
        if n == 'timedelta64':
            return d.kind == 'm'
    if isinstance(b, Opaque) and 'dtype' in b.path:
        return d.kind == 'O'
    e = b if isinstance(b, DT) else to_dt(I, b)
    return d.kind == e.kind and not (d == I4 and e == INT)


class DTypeType:
    """np.dtype(x).type"""


@reg('dtype')
def np_dtype(I, args, kwargs):
    v = I.resolve(args[0])
    if isinstance(v, Ext) and v.path == 'datetime.datetime':
        return O
    if isinstance(v, Class):
        return O
    return to_dt(I, v)


@reg('result_type', 'promote_types')
def result_type(I, args, kwargs):
    return promote([x if isinstance(x, DT) else A(I, x).dt for x in args])


@reg('datetime64')
def datetime64(I, args, kwargs):
    v = I.resolve(args[0])
    unit = I.resolve(args[1]) if len(args) > 1 else None
    if isinstance(v, str):
        days = parse_date(I, v)
        u = unit or ('Y' if re.fullmatch(r'\d+', v) else 'D')
        return Arr(Buf([floor_unit(days, u) if unit else days]), np.zeros((), dtype=int), DT('M', u), True)
    if getattr(v, 'tname', '') == 'datetime.datetime':
        return Arr(Buf([floor_unit(v.st['days'], unit or 'us')]), np.zeros((), dtype=int), DT('M', unit or 'us'), True)
    if isinstance(v, Arr) and v.dt.kind == 'M':
        return Arr(Buf([floor_unit(v.item(), unit) if unit else v.item()]), np.zeros((), dtype=int), DT('M', unit or v.dt.unit), True)
    if isnum(v) or isinstance(v, Arr):
        return Arr(Buf([T.scale(num_el(v), UNIT_DAYS[unit])]), np.zeros((), dtype=int), DT('M', unit), True)
    raise Limit('datetime64')


@reg('timedelta64')
def timedelta64(I, args, kwargs):
    unit = I.resolve(args[1]) if len(args) > 1 else 'D'
    v = I.resolve(args[0])
    if isinstance(v, Arr) and v.dt.kind == 'm':
        return v
    if unit not in UNIT_DAYS:
        raise Limit('timedelta unit')
    return Arr(Buf([T.scale(num_el(v), UNIT_DAYS[unit])]), np.zeros((), dtype=int), DT('m', unit), True)


def charfun(name, f):
    def g(I, args, kwargs):
        a = A(I, args[0])
        rest = [I.resolve(x) for x in args[1:]]
        return elementwise(I, lambda x: f(x, *rest), [a], U)
    TABLE['numpy.char.' + name] = g
    TABLE['numpy.strings.' + name] = g


def ph_zfill(s, n):
    if has_ph(s):
        return s
    return s.zfill(n)


charfun('zfill', lambda s, n: ph_zfill(s, n if isinstance(n, int) else 2))
charfun('strip', lambda s: s.strip())
charfun('lower', lambda s: s.lower())
charfun('upper', lambda s: s.upper())


def char_add(I, args, kwargs):
    return elementwise(I, lambda x, y: x + y, [A(I, args[0]), A(I, args[1])], U)


TABLE['numpy.char.add'] = char_add
TABLE['numpy.strings.add'] = char_add


def char_rjust(I, args, kwargs):
    return A(I, args[0])


@reg('fromstring')
@sig('string dtype count sep')
def fromstring(I, p):
    s = I.resolve(p('string'))
    sep = I.resolve(p('sep', ''))
    if not isinstance(s, str) or sep.strip() not in ('', ','):
        raise Limit('fromstring')
    if sep == '':
        I.throw(ValueError, 'The binary mode of fromstring is removed')
    toks = s.split() if sep.strip() == '' else [t for t in s.split(sep.strip())]
    vals = [str_to_num(I, t) for t in toks]
    dt = to_dt(I, p('dtype')) or F
    return new_arr(objarr((len(vals),), vals), dt)


@reg('loadtxt', 'genfromtxt')
def loadtxt(I, args, kwargs):
    kw = {k: I.resolve(v) for k, v in kwargs.items()}
    src = I.resolve(args[0] if args else kw.pop('fname'))
    for k, v in zip(('dtype', 'comments', 'delimiter'), args[1:]):
        kw[k] = I.resolve(v)
    if len(args) > 4:
        raise Limit('loadtxt arguments')
    extra = [k for k in kw if k not in ('dtype', 'comments', 'ndmin', 'delimiter', 'skiprows', 'usecols', 'unpack', 'max_rows')]
    if extra:
        raise Limit(f'loadtxt {extra}')
    v = None
    if getattr(src, 'tname', '') == 'pathlib.Path':
        src = I.call(Ext('os.fspath'), [src], {})
    if isinstance(src, str):
        v = I.fs.items.get(src)
        I.event('open', path=src, mode='r', via='loadtxt')
        if v is None:
            I.throw(FileNotFoundError, f'{src} not found.')
    elif isinstance(src, (LList, tuple)) or isinstance(src, I.ext.ExtObjBase) and hasattr(src, 'iter'):
        ls = I.iterate(src)
        if not all(isinstance(x, str) for x in ls):
            raise Limit('loadtxt lines')
        v = ''.join(x if x.endswith('\n') else x + '\n' for x in ls)
    dt = to_dt(I, kw.get('dtype')) or F
    skip, nrows = kw.get('skiprows') or 0, kw.get('max_rows')
    if isinstance(v, Arr):
        if skip:
            raise Limit('skipped rows')
        e = v.get()
        e = e.reshape((1,) * (2 - e.ndim) + e.shape) if e.ndim < 2 else e
    elif isinstance(v, str):
        cm, sep = kw.get('comments', '#'), kw.get('delimiter')
        if not isinstance(cm, str) or sep is not None and not isinstance(sep, str):
            raise Limit('loadtxt comments')
        rows = [ln.split(cm)[0].strip() for ln in v.split('\n')[toint(I, skip):]]
        rows = [[str_to_num(I, t) for t in ln.split(sep)] for ln in rows if ln]
        if not rows:
            raise Limit('empty text file')
        if any(len(r) != len(rows[0]) for r in rows):
            I.throw(ValueError, 'the number of columns changed')
        e = objarr((len(rows), len(rows[0])), [x for r in rows for x in r])
    else:
        raise Limit(f'loadtxt {src!r}')
    if nrows is not None:
        e = e[:toint(I, nrows)]
    cols = kw.get('usecols')
    if cols is not None:
        cols = [toint(I, cols)] if isinstance(cols, int) else ints(I, cols)
        if any(not -e.shape[1] <= c < e.shape[1] for c in cols):
            I.throw(ValueError, 'invalid column index')
        e = e[:, cols]
    nd = toint(I, kw.get('ndmin') or 0)
    if e.ndim > nd:
        e = e.squeeze()
    if e.ndim < nd:
        e = e.reshape(-1, 1) if nd == 2 and e.ndim == 1 else np.atleast_1d(e)
    r = new_arr(e, v.dt if isinstance(v, Arr) and 'dtype' not in kw else dt)
    if I.simp(I.truth(kw.get('unpack', False))) is True and r.ndim > 1:
        return arr_attr(I, r, 'T')
    return r


@reg('errstate', 'printoptions')
def errstate(I, args, kwargs):
    return Opaque('numpy.errstate()')


@reg('seterr')
def seterr(I, args, kwargs):
    I.event('global_state', what='numpy.seterr')
    return DDict()


@reg('copyto')
@sig('dst src casting where')
def copyto(I, p):
    d, s = A(I, p('dst')), A(I, p('src'))
    w = p('where')
    if w is not None and I.resolve(w) is not True:
        s = elementwise(I, lambda c, x, y: T.ite(c, x, y), [A(I, w), s, d], d.dt)
    write(I, d, d.idx, A(I, s))


def ext_getitem(I, path, k):
    """index objects: np.r_[...], np.s_[...] and the like; None when it is none of them"""
    n = path.split('.')[-1]
    if path not in ('numpy.r_', 'numpy.c_', 'numpy.s_', 'numpy.index_exp', 'numpy.ogrid', 'numpy.mgrid'):
        return None
    if n == 's_':
        return (k,)
    if n == 'index_exp':
        return (k if isinstance(k, tuple) else (k,),)
    parts = [I.resolve(x) for x in (k if isinstance(k, tuple) else (k,))]

    def rng(x):
        st = I.resolve(x.step)
        if isinstance(st, complex) or isinstance(st, Node) and T.has_complex(st) or isinstance(st, Arr) and st.dt.kind == 'c':
            st = st.item() if isinstance(st, Arr) else st
            im = st.imag if isinstance(st, complex) else T.fn('imag', st)
            return TABLE['numpy.linspace'](I, [x.start or 0, x.stop, toint(I, im)], {})
        return TABLE['numpy.arange'](I, [0 if x.start is None else x.start, x.stop, 1 if st is None else st], {})
    if n in ('r_', 'c_'):
        out = []
        for x in parts:
            if isinstance(x, str):
                raise Limit(f'{path} directive')
            v = rng(x) if isinstance(x, slice) else A(I, x)
            v = A(I, v)
            v = do_reshape(I, v, (1,)) if v.ndim == 0 else v
            if n == 'c_' and v.ndim == 1:
                v = do_reshape(I, v, (-1, 1))
            out.append(v)
        return (TABLE['numpy.concatenate'](I, [LList(out)], {'axis': 0 if n == 'r_' else -1}),)
    g = [A(I, rng(x)) for x in parts]
    if not isinstance(k, tuple):
        return (g[0],)
    r = meshgrid(I, g, {'indexing': 'ij', 'sparse': n == 'ogrid'})
    return (r if n == 'ogrid' else TABLE['numpy.stack'](I, [LList(list(r))], {}),)


@reg('frompyfunc')
def frompyfunc(I, args, kwargs):
    if toint(I, args[2]) != 1:
        raise Limit('frompyfunc')
    return vectorize(I, args[:1], {})


@reg('vectorize')
def vectorize(I, args, kwargs):
    if set(kwargs) - {'otypes', 'doc', 'cache'} or len(args) > 1 or not isinstance(I.resolve(args[0]), (Func, Bound, Builtin, Ext)):
        raise Limit('vectorize')
    f = args[0]

    def g(I, a, k):
        arrs = [A(I, x) for x in a]
        return elementwise(I, lambda *xs: num_el(I.call(f, list(xs), {})), arrs, F)
    return Builtin('vectorized', g)


@reg('polyval')
@sig('p x')
def polyval(I, p):
    c, x = A(I, p('p')).elems(), I.resolve(p('x'))
    r = 0
    for k in c:
        r = I.binop('Add', I.binop('Mult', r, x), k)
    return r


@reg('float64', 'float_', 'double')
def float64(I, args, kwargs):
    a = A(I, args[0]) if args else A(I, 0.0)
    r = conv(I, a, F)
    return Arr(Buf([r.item()]), np.zeros((), dtype=int), F, True) if r.ndim == 0 else r


@reg('float32', 'float16', 'half', 'single')
def float32(I, args, kwargs):
    a = A(I, args[0]) if args else A(I, 0.0)
    r = conv(I, a, V.F4)
    return Arr(Buf([r.item()]), np.zeros((), dtype=int), V.F4, True) if r.ndim == 0 else r


@reg('int64', 'int32', 'int_', 'intp')
def int64(I, args, kwargs):
    a = A(I, args[0])
    r = conv(I, a, INT)
    return Arr(Buf([r.item()]), np.zeros((), dtype=int), INT, True) if r.ndim == 0 else r


@reg('bool_')
def bool_(I, args, kwargs):
    return scal(I.truth(args[0]))


@reg('str_')
def str_(I, args, kwargs):
    return I.format(args[0], '')


@reg('iterable')
def iterable(I, args, kwargs):
    v = I.resolve(args[0])
    return isinstance(v, (LList, tuple, str, DDict)) or isinstance(v, Arr) and v.ndim > 0


@reg('nan_to_num')
@sig('x copy nan posinf neginf')
def nan_to_num(I, p):
    v = num_el(I.resolve(p('nan', 0.0)))
    return elementwise(I, lambda x: T.ite(T.fn('isnan', num_el(x)), v, num_el(x)), [A(I, p('x'))], F)


# ------------------------------------------------------------------ array attributes
def arr_attr(I, a, name):
    if name == 'shape':
        return tuple(int(s) for s in a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        return int(a.size)
    if name == 'T':
        return Arr(a.buf, a.idx.T, a.dt)
    if name == 'dtype':
        return a.dt
    if name in ('real', 'imag') and a.dt.kind == 'c' and not a.scalar:
        return Arr(PartBuf(a.buf, name), a.idx, F)
    if name == 'real':
        return a if a.dt.kind != 'c' else _real(I, [a], {})
    if name == 'imag':
        return _imag(I, [a], {})
    if name == 'flat':
        return Arr(a.buf, a.idx.ravel(), a.dt)
    if name in ('base',):
        return None
    if name == 'itemsize':
        return 8
    if name == 'nbytes':
        return 8 * int(a.size)
    if name == 'flags':
        return Opaque('flags')

    def meth(f):
        return Builtin('ndarray.' + name, f)

    if name == 'copy':
        return meth(lambda I, p, k: copy_arr(a))
    if name == 'astype':
        def astype(I, p, k):
            dt = to_dt(I, p[0] if p else k['dtype'])
            c = I.resolve(k.get('copy', True))
            r = conv(I, a, dt)
            if r.buf is a.buf and c is not False and not a.scalar:
                r = copy_arr(a)
                r.dt = dt if dt.kind not in 'Mm' or dt.unit else a.dt
            return r
        return meth(astype)
    if name == 'reshape':
        return meth(lambda I, p, k: do_reshape(I, a, shapes(I, p if p else [k['shape']]), k.get('order')))
    if name == 'item':
        def item(I, p, k):
            if p:
                v = getitem(I, a, p[0] if len(p) == 1 else tuple(p))
                return pyel(v.item() if isinstance(v, Arr) else v)
            if a.size != 1:
                I.throw(ValueError, 'can only convert an array of size 1 to a Python scalar')
            return pyel(a.item())
        return meth(item)
    if name == 'tolist':
        def tolist(I, p, k):
            def go(objs):
                if objs.ndim == 0:
                    return pyel(objs.item())
                return LList([go(x) if isinstance(x, np.ndarray) else pyel(x) for x in objs])
            return go(a.get())
        return meth(tolist)
    if name == 'fill':
        return meth(lambda I, p, k: write(I, a, a.idx, A(I, p[0])))
    if name == 'flatten':
        def flatten(I, p, k):
            o = I.resolve(p[0] if p else k.get('order', 'C'))
            if o not in ('C', 'F'):
                raise Limit('flatten order')
            return new_arr(objarr((a.size,), [a.buf.data[i] for i in a.idx.ravel(order=o)]), a.dt)
        return meth(flatten)
    if name == 'dot':
        return meth(lambda I, p, k: TABLE['numpy.dot'](I, [a] + p, k))
    if name == 'transpose':
        return meth(lambda I, p, k: view(a, a.idx.transpose(*(shapes(I, p) if p and p[0] is not None else ()))))
    if name == 'sort':
        def sort(I, p, k):
            write(I, a, a.idx, npsort(I, [a] + list(p), k))
        return meth(sort)
    if name == 'tobytes':
        return meth(lambda I, p, k: ('bytes',) + tuple(a.elems()))
    if name == 'view':
        return meth(lambda I, p, k: Arr(a.buf, a.idx, a.dt))
    if name == 'any' or name == 'all' or name in ('sum', 'prod', 'min', 'max', 'mean', 'std', 'squeeze', 'ravel', 'swapaxes',
                                                  'conj', 'conjugate', 'round', 'clip', 'cumsum', 'repeat', 'take', 'trace',
                                                  'nonzero', 'ptp', 'argsort', 'argmax', 'argmin', 'searchsorted',
                                                  'var', 'cumprod', 'diagonal', 'compress', 'choose', 'partition', 'argpartition'):
        if name == 'ptp' and not hasattr(np.ndarray, name):
            I.ext.no_attr(I, name, np.ndarray, np.float64)
        return meth(lambda I, p, k: I.call_ext('numpy.' + name, [a] + list(p), k))
    if name == 'put':
        raise Limit('ndarray.put')
    if name == 'setflags':
        return meth(lambda I, p, k: None)
    if name in ('__len__',):
        return meth(lambda I, p, k: a.shape[0])
    if a.scalar and name in ('is_integer',):
        return meth(lambda I, p, k: T.cmp('eq', T.fn('floor', num_el(a.item())), num_el(a.item())))
    I.ext.no_attr(I, name, np.ndarray, np.float64)


def pyel(x):
    if isinstance(x, Node) and x.op == 'num':
        v = x.args[0]
        return int(v) if v.denominator == 1 else float(v)
    return x
