"""Value-graph terms: hash-consed, normalised expressions.

A term is an interned node; two program values that normalise to the same node
are equal for every input (value numbering).  Numbers are exact rationals.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNTER = [0]


class Node:
    __slots__ = ('op', 'args', 'id', '_free', '_sign')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _COUNTER[0] += 1
        self.id = _COUNTER[0]
        self._free = None
        self._sign = 0

    def __repr__(self):
        return show(self)

    # identity semantics (interned)
    __hash__ = object.__hash__

    def __bool__(self):
        raise TypeError('truth of symbolic term')


def mk(op, *args):
    key = (op, args)
    n = _TABLE.get(key)
    if n is None:
        n = Node(op, args)
        _TABLE[key] = n
    return n


# ------------------------------------------------------------------ atoms
SYM_KIND = {}      # name -> dict(kind=..., pool=...)


def sym(name, kind='real', pool=None):
    n = mk('sym', name)
    if name not in SYM_KIND:
        SYM_KIND[name] = dict(kind=kind, pool=pool)
    return n


PI = mk('pi')
I = mk('imag')
NAN = mk('nan')
INF = mk('inf')
_fresh = [0]


def fresh(prefix, kind='real', pool=None):
    _fresh[0] += 1
    return sym(f'{prefix}#{_fresh[0]}', kind, pool)


def num(x):
    """Exact rational constant."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return INF if x > 0 else scale(INF, Fraction(-1))
        x = Fraction(repr(x))
    elif isinstance(x, complex):
        return add(num(x.real), mul(num(x.imag), I))
    else:
        x = Fraction(x)
    return mk('num', x)


ZERO = num(0)
ONE = num(1)


def lift(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, int, float, complex, Fraction)):
        return num(x)
    raise TypeError(f'not a number: {x!r}')


def is_num(n):
    return isinstance(n, Node) and n.op == 'num'


# ------------------------------------------------------------------ sums
# sum node: ('sum', const, ((node, coef), ...))   coef: Fraction != 0
def _as_sum(n):
    if n.op == 'num':
        return n.args[0], ()
    if n.op == 'sum':
        return n.args
    return Fraction(0), ((n, Fraction(1)),)


def _mk_sum(const, items):
    items = tuple(sorted(((k, v) for k, v in items if v != 0),
                         key=lambda kv: kv[0].id))
    if not items:
        return mk('num', const)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('sum', const, items)


def add(*xs):
    const = Fraction(0)
    acc = {}
    for x in xs:
        x = lift(x)
        if x is NAN:
            return NAN
        c, items = _as_sum(x)
        const += c
        for k, v in items:
            acc[k] = acc.get(k, 0) + v
    return _mk_sum(const, acc.items())


def scale(x, f):
    x = lift(x)
    if isinstance(f, float):
        f = Fraction(f)
    if f == 0:
        if x is NAN or x is INF:
            return NAN
        return ZERO
    if f == 1:
        return x
    c, items = _as_sum(x)
    return _mk_sum(c * f, [(k, v * f) for k, v in items])


def neg(x):
    return scale(x, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


# ------------------------------------------------------------------ products
# prod node: ('prod', ((base, exp), ...))  exp Fraction, coefficient free
def _factor(n):
    """-> (coef, [(base, exp)])"""
    if n.op == 'num':
        return n.args[0], ()
    if n.op == 'prod':
        return Fraction(1), n.args[0]
    if n.op == 'sum':
        c, items = n.args
        if c == 0 and len(items) == 1:
            k, v = items[0]
            f, fs = _factor(k)
            return v * f, fs
        # normalise leading coefficient so 2x+2y = 2*(x+y)
        lead = items[0][1]
        if lead != 1:
            return lead, ((scale(n, 1 / lead), Fraction(1)),)
        return Fraction(1), ((n, Fraction(1)),)
    return Fraction(1), ((n, Fraction(1)),)


def _mk_prod(coef, acc):
    if coef == 0:
        if any(b is NAN or b is INF for b in acc):
            return NAN
        return ZERO
    items = []
    for b, e in acc.items():
        if e == 0:
            continue
        if b is I and e.denominator == 1:
            r = int(e) % 4
            if r >= 2:
                coef = -coef
            if r % 2:
                items.append((I, Fraction(1)))
            continue
        if b.op == 'num':
            v = b.args[0]
            if e.denominator == 1:
                if v == 0 and e < 0:
                    items.append((b, e))
                    continue
                coef *= v ** int(e)
                continue
            w = _root(v, e)
            if w is not None:
                coef *= w
                continue
            # split integer part of exponent: 3^(3/2) = 3 * 3^(1/2)
            ip = e.numerator // e.denominator
            if ip != 0 and v != 0:
                coef *= v ** ip
                e = e - ip
            # rational -> integer radicand for 1/2 powers
            if e == Fraction(1, 2) and v > 0 and (v.denominator != 1):
                coef /= v.denominator
                b = mk('num', Fraction(v.numerator * v.denominator))
            if e == Fraction(1, 2) and v > 0:
                # pull out squares
                nn = b.args[0].numerator
                s = 1
                k = 2
                while k * k <= nn and k < 1000:
                    while nn % (k * k) == 0:
                        nn //= k * k
                        s *= k
                    k += 1
                coef *= s
                if nn == 1:
                    continue
                b = mk('num', Fraction(nn))
            items.append((b, e))
            continue
        items.append((b, e))
    # merge sqrt numerics: sqrt2*sqrt3 = sqrt6
    rad = [(b, e) for b, e in items if b.op == 'num' and e == Fraction(1, 2)]
    if len(rad) > 1:
        p = 1
        rest = [x for x in items if x not in rad]
        for b, _ in rad:
            p *= b.args[0]
        sub_ = dict(rest)
        sub_[mk('num', Fraction(p))] = Fraction(1, 2)
        return _mk_prod(coef, sub_)
    items.sort(key=lambda be: be[0].id)
    items = tuple(items)
    if not items:
        return mk('num', coef)
    if len(items) == 1 and items[0][1] == 1:
        base = items[0][0]
    else:
        base = mk('prod', items)
    return scale(base, coef)


def _root(v, e):
    """exact v**e for perfect powers, else None"""
    if v < 0:
        return None
    d = e.denominator
    if d > 4:
        return None

    def r(k):
        x = round(k ** (1.0 / d)) if k < 10**15 else None
        if x is None:
            return None
        return x if x ** d == k else None
    a, b = r(v.numerator), r(v.denominator)
    if a is None or b is None:
        return None
    if a == 0 and e < 0:
        return None
    return Fraction(a, b) ** e.numerator


def mul(*xs):
    coef = Fraction(1)
    acc = {}
    for x in xs:
        x = lift(x)
        if x is NAN:
            return NAN
        f, fs = _factor(x)
        coef *= f
        for b, e in fs:
            acc[b] = acc.get(b, 0) + e
    return _mk_prod(coef, acc)


def power(x, e):
    """x ** e"""
    x = lift(x)
    e = lift(e)
    if x is NAN:
        return NAN
    if is_num(e):
        ev = e.args[0]
        if ev == 0:
            return ONE
        f, fs = _factor(x)
        if ev.denominator == 1:
            if f == 0:
                return ZERO if ev > 0 else mk('fn', 'inf0')
            acc = {}
            for b, ee in fs:
                acc[b] = acc.get(b, 0) + ee * ev
            return _mk_prod(f ** int(ev), acc)
        # fractional
        if f == 0:
            return ZERO if ev > 0 else mk('fn', 'inf0')
        if f < 0 or any(sign(b) not in ('+', '0+') for b, _ in fs):
            if not fs:
                # negative constant to fractional power -> nan
                if f < 0:
                    return NAN
                return _mk_prod(Fraction(1), {mk('num', f): ev})
            # keep positive numeric coefficient outside
            if f > 0 and f != 1:
                core = _mk_prod(Fraction(1), dict(fs))
                return mul(_mk_prod(Fraction(1), {mk('num', f): ev}),
                           mk('fpow', core, ev))
            return mk('fpow', x, ev)
        acc = {}
        for b, ee in fs:
            acc[b] = acc.get(b, 0) + ee * ev
        acc2 = dict(acc)
        if f != 1:
            k = mk('num', f)
            acc2[k] = acc2.get(k, 0) + ev
        return _mk_prod(Fraction(1), acc2)
    return mk('pow', x, e)


def div(a, b):
    b = lift(b)
    if is_num(b) and b.args[0] == 0:
        return mk('fn', 'div0', lift(a))
    return mul(a, power(b, -1))


def sqrt(x):
    return power(x, Fraction(1, 2))


# ------------------------------------------------------------------ signs
_POSITIVE_KINDS = {'pos', 'radius', 'gap'}
_NONNEG_KINDS = {'theta', 'nonneg'}


def sign(n):
    """'+', '-', '0+', '0-', '0' or None (unknown)."""
    if n._sign != 0:
        return n._sign
    s = _sign(n)
    n._sign = s
    return s


def _sign(n):
    op = n.op
    if op == 'num':
        v = n.args[0]
        return '+' if v > 0 else '-' if v < 0 else '0'
    if op in ('pi', 'inf'):
        return '+'
    if op == 'sym':
        k = SYM_KIND.get(n.args[0], {}).get('kind')
        if k in _POSITIVE_KINDS:
            return '+'
        if k in _NONNEG_KINDS:
            return '0+'
        return None
    if op == 'sum':
        c, items = n.args
        ss = []
        if c != 0:
            ss.append('+' if c > 0 else '-')
        for k, v in items:
            s = sign(k)
            if s is None:
                return None
            if v < 0:
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0'}[s]
            ss.append(s)
        if all(s in ('+', '0+', '0') for s in ss):
            return '+' if '+' in ss else '0+'
        if all(s in ('-', '0-', '0') for s in ss):
            return '-' if '-' in ss else '0-'
        return None
    if op == 'prod':
        r = '+'
        for b, e in n.args[0]:
            s = sign(b)
            if e.denominator == 1 and int(e) % 2 == 0:
                if b is I:
                    return None
                s = '+' if s in ('+', '-') else ('0+' if _is_real(b) else None)
            if s is None:
                return None
            if s == '0':
                return None if e < 0 else '0'
            if '0' in s:
                r = {'+': '0+', '-': '0-'}.get(r, r)
            if '-' in s:
                r = {'+': '-', '-': '+', '0+': '0-', '0-': '0+'}[r]
        return r
    if op == 'fpow':
        return None if has_complex(n) else '0+'
    if op == 'fn':
        if n.args[0] in ('abs',):
            return '0+'
        if n.args[0] == 'exp':
            return '+' if _is_real(n.args[1]) else None
    if op == 'ite':
        a, b = sign(n.args[1]), sign(n.args[2])
        return a if a == b else None
    return None


def _is_real(n):
    return not has_complex(n)


_cplx = {}


def has_complex(n):
    r = _cplx.get(n.id)
    if r is None:
        if n.op == 'imag':
            r = True
        elif n.op == 'sym':
            r = SYM_KIND.get(n.args[0], {}).get('kind') == 'complex'
        elif n.op == 'fn' and n.args[0] in ('real', 'imag', 'abs'):
            r = False
        elif n.op in ('uf',):
            r = False
        else:
            r = any(has_complex(c) for c in children(n))
        _cplx[n.id] = r
    return r


# ------------------------------------------------------------------ children
def children(n):
    op = n.op
    if op == 'sum':
        return [k for k, _ in n.args[1]]
    if op == 'prod':
        return [b for b, _ in n.args[0]]
    if op in ('num', 'sym', 'pi', 'imag', 'nan', 'inf'):
        return []
    if op == 'fpow':
        return [n.args[0]]
    out = []
    for a in n.args:
        if isinstance(a, Node):
            out.append(a)
    return out


def free_syms(n):
    if n._free is not None:
        return n._free
    # iterative post-order
    stack = [n]
    while stack:
        x = stack[-1]
        if x._free is not None:
            stack.pop()
            continue
        todo = [c for c in children(x) if c._free is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset([x.args[0]]) if x.op == 'sym' else frozenset()
        cs = children(x)
        if cs:
            s = s.union(*[c._free for c in cs])
        x._free = s
        stack.pop()
    return n._free


def is_const(n):
    return not free_syms(n) and not _has_uf(n)


_uf = {}


def _has_uf(n):
    r = _uf.get(n.id)
    if r is None:
        r = n.op == 'uf' or any(_has_uf(c) for c in children(n))
        _uf[n.id] = r
    return r


# ------------------------------------------------------------------ booleans
def band(*cs):
    flat = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c.op == 'and':
            flat.extend(c.args)
        else:
            flat.append(c)
    seen = {}
    for c in flat:
        seen[c.id] = c
    for c in flat:
        nc = bnot(c)
        if isinstance(nc, Node) and nc.id in seen:
            return False
    items = sorted(seen.values(), key=lambda x: x.id)
    if not items:
        return True
    if len(items) == 1:
        return items[0]
    return mk('and', *items)


def bor(*cs):
    r = band(*[bnot(c) for c in cs])
    return bnot(r)


def bnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c.op == 'not':
        return c.args[0]
    if c.op == 'lt':
        # not(a<b) is kept as 'not' (nan-safe); pairs handled by simplifier
        return mk('not', c)
    return mk('not', c)


def cmp(op, a, b):
    """op in lt le gt ge eq ne -> bool or Node"""
    if op == 'gt':
        return cmp('lt', b, a)
    if op == 'ge':
        return cmp('le', b, a)
    if op == 'ne':
        return bnot(cmp('eq', a, b))
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return False
    if a is INF or b is INF:
        if op == 'eq':
            return a is b
        if b is INF:
            return op == 'le' or a is not INF
        return op == 'le' and b is INF
    if op == 'eq':
        if a is b:
            return True
    d = sub(a, b)        # a - b ? 0
    if is_const(d):
        from . import pit
        v = pit.const(d)
        if isinstance(v, complex):
            v = v.real
        if abs(v) < 1e-12:
            v = 0.0
        return {'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[op]
    s = sign(d)
    if op == 'lt':
        if s == '-':
            return True
        if s in ('+', '0+', '0'):
            return False
    elif op == 'le':
        if s in ('-', '0-', '0'):
            return True
        if s == '+':
            return False
    else:
        if s in ('+', '-'):
            return False
        if s == '0':
            return True
        if a.id > b.id:
            a, b = b, a
        return mk('eq', a, b)
    return mk(op, a, b)


def ite(c, a, b):
    """numeric or boolean select"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool) or \
            (isinstance(a, Node) and is_bool(a)) or (isinstance(b, Node) and is_bool(b)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        if isinstance(a, bool) or isinstance(b, bool) or (is_bool(a) and is_bool(b)):
            return bor(band(c, a), band(bnot(c), b))
    a, b = lift(a), lift(b)
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def is_bool(n):
    if isinstance(n, bool):
        return True
    if n.op in ('lt', 'le', 'eq', 'and', 'not', 'bsym'):
        return True
    if n.op == 'sym':
        return SYM_KIND.get(n.args[0], {}).get('kind') == 'bool'
    if n.op == 'fn' and n.args[0] in ('isnan',):
        return True
    return False


# ------------------------------------------------------------------ functions
def fn(name, *args):
    args = tuple(lift(a) if not isinstance(a, (Node, bool, str)) else a for a in args)
    if any(a is NAN for a in args) and name not in ('isnan',):
        return NAN
    a0 = args[0] if args else None
    if name == 'sin':
        if a0 is ZERO:
            return ZERO
        f = _coef(a0)
        if f < 0:
            return neg(fn('sin', neg(a0)))
        r = _trig(a0)
        if r is not None:
            return r[0]
    elif name == 'cos':
        if a0 is ZERO:
            return ONE
        if _coef(a0) < 0:
            return fn('cos', neg(a0))
        r = _trig(a0)
        if r is not None:
            return r[1]
    elif name == 'tan':
        return div(fn('sin', a0), fn('cos', a0))
    elif name == 'f32':
        if a0.op == 'fn' and a0.args[0] == 'f32':
            return a0
        if a0.op == 'num' and a0.args[0].denominator & (a0.args[0].denominator - 1) == 0 and abs(a0.args[0].numerator) < 2**24:
            return a0
    elif name in ('floor', 'trunc', 'ceil', 'round'):
        if a0.op == 'fn' and a0.args[0] in ('floor', 'trunc', 'ceil', 'round', 'year', 'civil'):
            return a0
        if is_int(a0):
            return a0
        if is_const(a0):
            from . import pit
            v = pit.const(a0)
            if abs(v - round(v)) < 1e-9:
                return num(int(round(v)))
            return num({'floor': math.floor, 'trunc': math.trunc,
                        'ceil': math.ceil, 'round': round}[name](v))
    elif name == 'abs':
        s = sign(a0)
        if s in ('+', '0+', '0'):
            return a0
        if s in ('-', '0-'):
            return neg(a0)
    elif name == 'mod':
        if is_num(a0) and is_num(args[1]) and args[1].args[0] != 0:
            return num(a0.args[0] % args[1].args[0])
    elif name == 'isnan':
        if a0 is NAN:
            return True
        if is_const(a0):
            return False
    elif name in ('real', 'conj'):
        if not has_complex(a0):
            return a0
    elif name == 'imag':
        if not has_complex(a0):
            return ZERO
    elif name in ('min', 'max'):
        return _minmax(name, args)
    elif name == 'exp':
        if a0 is ZERO:
            return ONE
    elif name == 'arccos' or name == 'arcsin' or name == 'arctan':
        pass
    return mk('fn', name, *args)


def _coef(n):
    f, _ = _factor(n)
    return f


def _trig(a):
    """(sin, cos) for rational multiples of pi/2"""
    q = div(a, PI)
    if is_num(q):
        v = q.args[0] * 2
        if v.denominator == 1:
            k = int(v) % 4
            return [(ZERO, ONE), (ONE, ZERO), (ZERO, neg(ONE)), (neg(ONE), ZERO)][k]
    return None


def _minmax(name, args):
    items = []
    for a in args:
        a = lift(a)
        if a.op == 'fn' and a.args[0] == name:
            items.extend(a.args[1:])
        else:
            items.append(a)
    items = sorted(set(items), key=lambda x: x.id)
    keep = []
    for x in items:
        le = (lambda p, q: cmp('le', p, q)) if name == 'min' else (lambda p, q: cmp('le', q, p))
        if any(le(y, x) is True for y in keep):
            continue
        keep = [y for y in keep if le(x, y) is not True]
        keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk('fn', name, *keep)


def is_int(n):
    """integer-valued?"""
    if n.op == 'num':
        return n.args[0].denominator == 1
    if n.op == 'sym':
        return SYM_KIND.get(n.args[0], {}).get('kind') == 'int'
    if n.op == 'sum':
        return n.args[0].denominator == 1 and all(
            v.denominator == 1 and is_int(k) for k, v in n.args[1])
    if n.op == 'prod':
        return all(e.denominator == 1 and e > 0 and is_int(b) for b, e in n.args[0])
    if n.op == 'fn':
        return n.args[0] in ('floor', 'trunc', 'ceil', 'round', 'year', 'civil') or \
            (n.args[0] in ('mod', 'min', 'max', 'abs') and all(is_int(a) for a in n.args[1:]))
    if n.op == 'ite':
        return is_int(n.args[1]) and is_int(n.args[2])
    return False


def uf(name, *args):
    return mk('uf', name, *args)


# ------------------------------------------------------------------ printing
def show(n, depth=6):
    if not isinstance(n, Node):
        return repr(n)
    if depth == 0:
        return '…'
    d = depth - 1
    op = n.op
    if op == 'num':
        v = n.args[0]
        return str(v.numerator) if v.denominator == 1 else f'{float(v):.10g}'
    if op == 'sym':
        return n.args[0]
    if op == 'pi':
        return 'π'
    if op == 'imag':
        return 'i'
    if op in ('nan', 'inf'):
        return op
    if op == 'sum':
        parts = []
        if n.args[0] != 0:
            parts.append(f'{float(n.args[0]):.10g}')
        for k, v in n.args[1][:8]:
            s = show(k, d)
            parts.append(s if v == 1 else f'{float(v):.10g}*{s}')
        if len(n.args[1]) > 8:
            parts.append('…')
        return '(' + ' + '.join(parts) + ')'
    if op == 'prod':
        return '*'.join((show(b, d) if e == 1 else f'{show(b, d)}^{e}') for b, e in n.args[0][:8])
    if op == 'fpow':
        return f'{show(n.args[0], d)}^{n.args[1]}'
    if op in ('fn', 'uf'):
        rest = n.args[1:]
        s = ', '.join(show(a, d) if isinstance(a, Node) else repr(a) for a in rest[:6])
        return f'{n.args[0]}({s}{", …" if len(rest) > 6 else ""})'
    if op in ('lt', 'le', 'eq'):
        return f'{show(n.args[0], d)} {dict(lt="<", le="<=", eq="==")[op]} {show(n.args[1], d)}'
    if op == 'not':
        return f'not({show(n.args[0], d)})'
    if op == 'and':
        return '(' + ' and '.join(show(a, d) for a in n.args) + ')'
    if op == 'ite':
        return f'[{show(n.args[0], d)} ? {show(n.args[1], d)} : {show(n.args[2], d)}]'
    return f'{op}({", ".join(show(a, d) if isinstance(a, Node) else repr(a) for a in n.args)})'


# operator sugar so that object arrays of terms work in shape routines
def _bx(x):
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, Node) and is_bool(x):
        return mk('ite', x, ONE, ZERO)
    return x


def _op(f, rev=False):
    def g(a, b):
        if not isinstance(b, (Node, int, float, complex, Fraction)):
            try:
                b = b.item()
            except AttributeError:
                return NotImplemented
        a, b = _bx(a), _bx(b)
        return f(b, a) if rev else f(a, b)
    return g


Node.__add__ = _op(lambda a, b: add(a, b))
Node.__radd__ = _op(lambda a, b: add(a, b))
Node.__sub__ = _op(sub)
Node.__rsub__ = _op(sub, True)
Node.__mul__ = _op(lambda a, b: mul(a, b))
Node.__rmul__ = _op(lambda a, b: mul(a, b))
Node.__truediv__ = _op(div)
Node.__rtruediv__ = _op(div, True)
Node.__pow__ = _op(power)
Node.__rpow__ = _op(power, True)
Node.__neg__ = lambda a: neg(a)
Node.conjugate = lambda a: fn('conj', a)
