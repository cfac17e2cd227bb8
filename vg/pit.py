"""Random interpretation of value graphs (Gulwani & Necula, POPL'03/'04).

Two different normal forms are told apart (or taken as one value number) by
interpreting the graphs over pseudo-random assignments of their leaves.
Uninterpreted operators become random smooth functions, so equal arguments give
equal results and different arguments (almost surely) different ones.
"""
import cmath
import hashlib
import math
import struct
import random
from fractions import Fraction

from . import terms as T


class Undefined(Exception):
    pass


def _h(*parts):
    d = hashlib.sha256('\x00'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(d[:8], 'big') / 2.0**64


def civil_days(y, m, d):
    """days since 1970-01-01 of proleptic Gregorian date"""
    y = int(y) - (1 if m <= 2 else 0)
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (int(m) + (-3 if m > 2 else 9)) + 2) // 5 + int(d) - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def year_of(days):
    z = math.floor(days) + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return y + (1 if m <= 2 else 0)


class Trial:
    def __init__(self, seed, overrides=None, special=0.25):
        self.seed = seed
        self.memo = {}
        self.env = dict(overrides or {})
        self.rng = seed
        self.special = special

    def symval(self, name):
        if name in self.env:
            return self.env[name]
        info = T.SYM_KIND.get(name, {})
        kind, pool = info.get('kind', 'real'), info.get('pool')
        r = random.Random(hashlib.sha256(f'{self.seed}|{name}'.encode()).hexdigest())
        if pool and r.random() < self.special:
            v = r.choice(pool)
        elif kind in ('pos', 'gap'):
            v = r.uniform(0.3, 2.5)
        elif kind == 'radius':
            v = r.uniform(5500.0, 9000.0)
        elif kind == 'theta':
            v = r.uniform(3.0, 177.0)
        elif kind == 'phi':
            v = r.uniform(-300.0, 500.0)
        elif kind == 'mjd':
            v = r.uniform(-60000.0, 9000.0)
        elif kind == 'dyear':
            v = r.uniform(1840.0, 2030.0)
        elif kind == 'day':
            v = r.uniform(-30000.0, 30000.0)
        elif kind == 'int':
            v = r.randint(-5, 9)
        elif kind == 'bool':
            v = r.random() < 0.5
        elif kind == 'complex':
            v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
        elif kind == 'nonneg':
            v = 0.0 if r.random() < 0.3 else r.uniform(0.1, 2.5)
        else:
            v = r.uniform(-2.0, 2.0)
        self.env[name] = v
        return v

    # ------------------------------------------------------------ evaluation
    def ev(self, n):
        if not isinstance(n, T.Node):
            return n
        memo = self.memo
        if n.id in memo:
            return memo[n.id]
        stack = [(n, False)]
        while stack:
            x, done = stack.pop()
            if x.id in memo:
                continue
            if done:
                try:
                    memo[x.id] = self._ev(x)
                except (OverflowError, ZeroDivisionError, ValueError):
                    memo[x.id] = float('nan')
                continue
            stack.append((x, True))
            for c in T.children(x):
                if c.id not in memo:
                    stack.append((c, False))
        return memo[n.id]

    def _ev(self, n):
        m = self.memo
        op = n.op
        if op == 'num':
            return float(n.args[0])
        if op == 'sym':
            return self.symval(n.args[0])
        if op == 'pi':
            return math.pi
        if op == 'imag':
            return 1j
        if op == 'nan':
            return float('nan')
        if op == 'inf':
            return float('inf')
        if op == 'sum':
            r = float(n.args[0])
            for k, v in n.args[1]:
                r = r + float(v) * _c(m[k.id])
            return r
        if op == 'prod':
            r = 1.0
            for b, e in n.args[0]:
                r = r * _pow(_c(m[b.id]), e)
            return r
        if op == 'fpow':
            return _pow(_c(m[n.args[0].id]), n.args[1])
        if op == 'pow':
            a, b = m[n.args[0].id], m[n.args[1].id]
            if not isinstance(a, complex) and a < 0 and b != int(b):
                return float('nan')
            return a ** b
        if op == 'fn':
            return self._fn(n.args[0], [m[a.id] if isinstance(a, T.Node) else a for a in n.args[1:]])
        if op == 'uf':
            return self._uf(n.args[0], [m[a.id] if isinstance(a, T.Node) else a for a in n.args[1:]])
        if op in ('lt', 'le', 'eq'):
            a, b = m[n.args[0].id], m[n.args[1].id]
            if isinstance(a, complex) or isinstance(b, complex):
                if op == 'eq':
                    return close(a, b)
                a, b = _c(a).real, _c(b).real
            if a != a or b != b:
                return False
            near = abs(a - b) <= 1e-11 * max(1.0, abs(a), abs(b))
            if op == 'eq':
                return near
            if op == 'lt':
                return a < b and not near
            return a <= b or near
        if op == 'and':
            return all(bool(m[a.id]) for a in n.args)
        if op == 'not':
            return not m[n.args[0].id]
        if op == 'ite':
            return m[n.args[1].id] if m[n.args[0].id] else m[n.args[2].id]
        raise Undefined(op)

    def _fn(self, name, a):
        x = a[0] if a else None
        cx = any(isinstance(v, complex) for v in a)
        mod = cmath if cx else math
        if name in ('sin', 'cos', 'exp', 'sinh', 'cosh'):
            return getattr(mod, name)(x)
        if name == 'log':
            return mod.log(x)
        if name == 'arctan2':
            y, z = a
            if abs(y) < 1e-13 and abs(z) < 1e-13:
                return 0.0
            return math.atan2(y, z)
        if name == 'arctan':
            return math.atan(x)
        if name == 'arccos':
            if x != x or abs(x) > 1 + 1e-9:
                return float('nan')
            return math.acos(max(-1.0, min(1.0, x)))
        if name == 'arcsin':
            if abs(x) > 1 + 1e-9:
                return float('nan')
            return math.asin(max(-1.0, min(1.0, x)))
        if name == 'abs':
            return abs(x)
        if name in ('floor', 'trunc', 'ceil', 'round'):
            if x != x:
                return x
            r = round(x)
            if abs(x - r) < 1e-9:
                return float(r)
            return float({'floor': math.floor, 'trunc': math.trunc, 'ceil': math.ceil, 'round': round}[name](x))
        if name == 'f32':
            # rounding is made visible: any value that single precision cannot hold is off by far more than its last digit
            return x if x != x or abs(x) == math.inf or struct.unpack('f', struct.pack('f', max(-3e38, min(3e38, x))))[0] == x else x * (1 + 1e-5)
        if name == 'mod':
            if a[1] == 0:
                return float('nan')
            r = math.fmod(x, a[1])
            if r != 0 and (r < 0) != (a[1] < 0):
                r += a[1]
            if abs(r - a[1]) < 1e-9 * max(1, abs(x)):
                r = 0.0
            return r
        if name == 'fdiv':
            return float(math.floor(x / a[1]))
        if name in ('min', 'max'):
            if any(v != v for v in a):
                return float('nan')
            return min(a) if name == 'min' else max(a)
        if name == 'isnan':
            return x != x
        if name == 'real':
            return _c(x).real
        if name == 'imag':
            return _c(x).imag
        if name == 'conj':
            return _c(x).conjugate()
        if name == 'angle':
            return cmath.phase(x)
        if name == 'civil':
            return float(civil_days(int(round(a[0])), int(round(a[1])), int(round(a[2]))))
        if name == 'year':
            return float(year_of(x))
        if name == 'div0':
            return float('nan')
        if name == 'inf0':
            return float('inf')
        if name == 'sign':
            return float((x > 0) - (x < 0))
        raise Undefined(name)

    def _uf(self, name, a):
        if name.startswith('lsq:'):
            return lsq(name, tuple(a))
        if name.startswith(('argsort:', 'sort:')):
            k = int(name.split(':')[1])
            ix = sorted(range(len(a)), key=lambda i: (1, 0.0) if a[i] != a[i] else (0, a[i]))
            return float(ix[k]) if name[0] == 'a' else a[ix[k]]
        r = _h('b', name, len(a)) * 6
        im = 0.0
        for i, v in enumerate(a):
            if isinstance(v, complex):
                im = 1.0
                w1, w2 = v.real, v.imag
                r += math.sin((0.3 + _h('w', name, i)) * _sq(w1) + _h('p', name, i) * 6) * (1 + _h('a', name, i))
                r += math.sin((0.3 + _h('v', name, i)) * _sq(w2) + _h('q', name, i) * 6) * (1 + _h('c', name, i))
            elif isinstance(v, bool) or isinstance(v, (str, type(None), tuple)):
                r += _h('s', name, i, v) * 3
            else:
                if v != v:
                    v = 77.7 + i
                r += math.sin((0.3 + _h('w', name, i)) * _sq(v) + _h('p', name, i) * 6) * (1 + _h('a', name, i))
        # mix so that the value is not additive in its arguments
        return r + 0.35 * math.sin(1.7 * r + 0.4)


_LSQ = {}


def lsq(name, a):
    """coefficient i of the least-squares spline of the samples (arguments: i, knots, sites, values)"""
    import numpy as np
    from scipy.interpolate import BSpline
    _, k, nt, nx = name.split(':')
    k, nt, nx = int(k), int(nt), int(nx)
    key = (name, a[1:])
    c = _LSQ.get(key)
    if c is None:
        t, x, y = np.array(a[1:1 + nt]), np.array(a[1 + nt:1 + nt + nx]), np.array(a[1 + nt + nx:])
        n = nt - k - 1
        if np.any(np.diff(t) < 0) or np.any(np.isnan(t)) or np.any(np.isnan(x)) or np.any(np.isnan(y)) \
                or np.any(x < t[k]) or np.any(x > t[n]):
            c = np.full(n, np.nan)
        else:
            m = BSpline.design_matrix(x, t, k).toarray()
            c, _, rank, _ = np.linalg.lstsq(m, y, rcond=None)
            if rank < n:
                c = np.full(n, np.nan)
        if len(_LSQ) > 4000:
            _LSQ.clear()
        _LSQ[key] = c
    return float(c[int(a[0])])


def _sq(v):
    """squash large magnitudes smoothly (monotone) to keep precision"""
    if abs(v) <= 20:
        return v
    if abs(v) == math.inf:
        return 1e3 if v > 0 else -1e3
    return math.copysign(20 + 40 * math.log(abs(v) / 20), v)


def _c(x):
    if isinstance(x, bool):
        return float(x)
    return x


def _pow(b, e):
    if e.denominator == 1:
        k = int(e)
        if k < 0 and b == 0:
            return float('nan')
        return b ** k
    if isinstance(b, complex):
        return b ** float(e)
    if b < 0:
        if b > -1e-12:
            b = 0.0
        else:
            return float('nan')
    if b == 0 and e < 0:
        return float('nan')
    return b ** float(e)


def close(a, b, tol=1e-7):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    an, bn = (a != a), (b != b)
    if an or bn:
        return an and bn
    if a == b:
        return True
    d = abs(a - b)
    return d <= tol * max(1e-3, min(abs(a), abs(b))) or d <= 1e-9 * max(abs(a), abs(b))


_const_memo = {}


def const(n):
    """numeric value of a closed term"""
    v = _const_memo.get(n.id)
    if v is None:
        v = Trial('const').ev(n)
        _const_memo[n.id] = v
    return v


# ------------------------------------------------------------ where conditions change
DOMAIN = dict(real=(-2.0, 2.0), pos=(0.3, 2.5), gap=(0.3, 2.5), radius=(5500.0, 9000.0), theta=(3.0, 177.0), phi=(-300.0, 500.0),
              mjd=(-60000.0, 9000.0), dyear=(1840.0, 2030.0), day=(-30000.0, 30000.0), nonneg=(0.0, 2.5))


def atoms(roots, limit=120):
    """comparisons (and kinks) in the value graphs: list of (operator, left, right)"""
    out, seen = [], set()
    stack = list(roots)
    n = 0
    while stack and len(out) < limit and n < 60000:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n += 1
        if x.op in ('lt', 'le', 'eq'):
            out.append((x.op, x.args[0], x.args[1]))
        elif x.op == 'fn' and x.args[0] in ('abs', 'sign'):
            out.append(('lt', x.args[1], 0.0))
        elif x.op == 'fn' and x.args[0] in ('min', 'max') and len(x.args) == 3:
            out.append(('lt', x.args[1], x.args[2]))
        stack.extend(T.children(x))
    return out


def _vary(t, name, v, base):
    env = dict(base)
    env[name] = v
    return Trial(t.seed, env, t.special)


def cells(t, ats, budget=400, most=24):
    """trials that differ from t in one symbol, one in every interval in which none of the comparisons changes its truth,
    and, for equalities, one at the place where it holds"""
    syms = {}
    for a in ats:
        names = set()
        for x in a[1:]:
            if isinstance(x, T.Node):
                names |= set(T.free_syms(x))
        if len(names) > 12:
            continue
        for s in names:
            if T.SYM_KIND.get(s, {}).get('kind', 'real') in DOMAIN:
                syms.setdefault(s, []).append(a)
    base = {}
    for s, k in T.SYM_KIND.items():
        if s in t.env:
            base[s] = t.env[s]
    out = []
    for s in sorted(syms):
        kind = T.SYM_KIND.get(s, {}).get('kind', 'real')
        lo, hi = DOMAIN[kind]
        cuts, exact = [], []
        for op, a, b in syms[s]:
            if budget <= 0:
                break

            def f(v):
                nonlocal budget
                budget -= 1
                u = _vary(t, s, v, base)
                p, q = _num(u.ev(a)), _num(u.ev(b))
                return p - q

            xs = [lo + (hi - lo) * k / 4 for k in range(5)]
            ys = [f(x) for x in xs]
            for (x0, y0), (x1, y1) in zip(zip(xs, ys), zip(xs[1:], ys[1:])):
                if y0 != y0 or y1 != y1 or (y0 > 0) == (y1 > 0) or abs(y0) == math.inf or abs(y1) == math.inf:
                    continue
                # linear first
                r = x0 - y0 * (x1 - x0) / (y1 - y0)
                y = f(r)
                if not abs(y) <= 1e-12 * (abs(y0) + abs(y1)):
                    c0, c1, z0 = x0, x1, y0
                    for _ in range(60):
                        r = (c0 + c1) / 2
                        y = f(r)
                        if y == 0 or y != y or c1 - c0 <= 1e-15 * max(1.0, abs(r)):
                            break
                        if (y > 0) == (z0 > 0):
                            c0 = r
                        else:
                            c1 = r
                    if y != y:
                        continue
                cuts.append(r)
                if op == 'eq':
                    exact.append(r)
        if not cuts:
            continue
        cuts = sorted(cuts)
        pts = [lo, cuts[0]]
        edges = [lo]
        for c in cuts:
            if c - edges[-1] > 1e-9 * max(1.0, abs(c)):
                edges.append(c)
        if hi - edges[-1] > 1e-9 * max(1.0, abs(hi)):
            edges.append(hi)
        pts = [(u + v) / 2 for u, v in zip(edges, edges[1:])]
        out.append([_vary(t, s, v, t.env) for v in pts + exact])
    # round robin over the symbols
    res = []
    k = 0
    while len(res) < most and any(k < len(o) for o in out):
        res += [o[k] for o in out if k < len(o)]
        k += 1
    return res[:most]


def _num(v):
    if isinstance(v, (bool, int, float)):
        return float(v)
    return float('nan')
