"""Interval analysis of value graphs in one variable.

A cell is a half-open interval of the variable; every node gets bounds of its values and of its derivative over the cell, and
its value at the middle of the cell.  Where a node is only piecewise smooth (remainder, floor, comparison, angle) and a cell
reaches over a break, the cell is followed once for each piece, each piece being continued smoothly over the cell; the union
covers the values of the function.  Bounds are widened by a relative 1e-12 per operation for rounding.
"""
import math

import numpy as np

from . import terms as T


class Unsupported(Exception):
    pass


EPS = 1e-12
TWO_PI = 2*math.pi


def order(roots):
    done, out, stack = set(), [], [(r, False) for r in roots]
    while stack:
        n, fin = stack.pop()
        if n.id in done:
            continue
        if fin:
            done.add(n.id)
            out.append(n)
            continue
        stack.append((n, True))
        stack += [(c, False) for c in T.children(n) if c.id not in done]
    return out


class Enclosure:
    """bounds of several nodes over cells"""

    def __init__(self, roots, var, lo, hi, consts=None):
        self.lo, self.hi = np.asarray(lo, float), np.asarray(hi, float)
        self.var = var
        self.cell = np.arange(self.lo.size)          # which of the given cells a row continues
        self.half = (self.hi - self.lo)/2
        self.v = {}                                  # id -> [mid, lo, hi, dlo, dhi] or boolean
        self.order = order(roots)
        last = {}
        for k, n in enumerate(self.order):
            for c in T.children(n):
                last[c.id] = k
        for r in roots:
            last[r.id] = len(self.order)
        drop = {}
        for i, k in last.items():
            drop.setdefault(k, []).append(i)
        with np.errstate(all='ignore'):
            for k, n in enumerate(self.order):
                self.v[n.id] = self.node(n)
                for i in drop.get(k, ()):
                    self.v.pop(i, None)
        self.roots = [self.v[r.id] for r in roots]

    # ------------------------------------------------------------------ rows
    def split(self, mask):
        """follow the rows of the mask a second time; their new indices"""
        k = np.flatnonzero(mask)
        if k.size:
            n = self.cell.size
            ext = lambda a: np.concatenate([a, a[k]])
            self.cell, self.half, self.lo, self.hi = map(ext, (self.cell, self.half, self.lo, self.hi))
            for i, x in self.v.items():
                self.v[i] = ext(x) if isinstance(x, np.ndarray) else [ext(a) for a in x]
            return k, np.arange(n, n + k.size)
        return k, k

    def get(self, n):
        if not isinstance(n, T.Node):
            n = T.num(n)
        if n.id not in self.v and n.op == 'num':
            return self.const(float(n.args[0]))
        return self.v[n.id]

    def real(self, n):
        x = self.get(n)
        if isinstance(x, np.ndarray):
            raise Unsupported('truth value in arithmetic')
        return x

    def const(self, c):
        f = lambda a: np.full(self.cell.size, float(a))
        e = abs(c)*1e-16
        return [f(c), f(c - e), f(c + e), f(0), f(0)]

    def fin(self, m, lo, hi, dlo, dhi):
        """widen, and meet with the mean value form"""
        w = EPS*np.maximum(np.abs(lo), np.abs(hi))
        lo, hi = lo - w, hi + w
        w = EPS*np.maximum(np.abs(dlo), np.abs(dhi))
        dlo, dhi = dlo - w, dhi + w
        r = np.maximum(np.abs(dlo), np.abs(dhi))*self.half + EPS*np.abs(m)
        lo = np.where(np.isfinite(m - r), np.maximum(np.where(np.isnan(lo), -np.inf, lo), m - r), np.where(np.isnan(lo), -np.inf, lo))
        hi = np.where(np.isfinite(m + r), np.minimum(np.where(np.isnan(hi), np.inf, hi), m + r), np.where(np.isnan(hi), np.inf, hi))
        dlo = np.where(np.isnan(dlo), -np.inf, dlo)
        dhi = np.where(np.isnan(dhi), np.inf, dhi)
        return [m, lo, hi, dlo, dhi]

    @staticmethod
    def imul(a, b, c, d):
        p = [a*c, a*d, b*c, b*d]
        p = [np.where(np.isnan(q), 0, q) if False else q for q in p]
        bad = np.isnan(p[0]) | np.isnan(p[1]) | np.isnan(p[2]) | np.isnan(p[3])
        lo = np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3]))
        hi = np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))
        return np.where(bad, -np.inf, lo), np.where(bad, np.inf, hi)

    def times(self, x, y):
        lo, hi = self.imul(x[1], x[2], y[1], y[2])
        a, b = self.imul(x[3], x[4], y[1], y[2])
        c, d = self.imul(x[1], x[2], y[3], y[4])
        return self.fin(x[0]*y[0], lo, hi, a + c, b + d)

    def chain(self, x, m, lo, hi, glo, ghi):
        """value and derivative of a function of x with derivative in [glo, ghi]"""
        a, b = self.imul(glo, ghi, x[3], x[4])
        return self.fin(m, lo, hi, a, b)

    def powq(self, x, e):
        e = float(e)
        if e == 1:
            return x
        if e == int(e) and e > 0:
            r = x
            for _ in range(int(e) - 1):
                r = self.times(r, x)
            if int(e) % 2 == 0:
                r[1] = np.maximum(r[1], 0)
            return r
        if e == int(e):
            ok = (x[1] > 0) | (x[2] < 0)
            a, b = np.where(ok, 1/x[1], np.nan), np.where(ok, 1/x[2], np.nan)
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            g = np.where(ok, np.minimum(1/x[1]**2, 1/x[2]**2), np.nan), np.where(ok, np.maximum(1/x[1]**2, 1/x[2]**2), np.nan)
            return self.powq(self.chain(x, 1/x[0], lo, hi, -g[1], -g[0]), -e)
        ok = x[1] > 0
        a, b = np.where(ok, x[1]**e, np.nan), np.where(ok, x[2]**e, np.nan)
        g = np.where(ok, e*x[1]**(e - 1), np.nan), np.where(ok, e*x[2]**(e - 1), np.nan)
        return self.chain(x, x[0]**e, np.minimum(a, b), np.maximum(a, b), np.minimum(*g), np.maximum(*g))

    @staticmethod
    def isin(lo, hi):
        """bounds of the sine"""
        a, b = np.sin(lo), np.sin(hi)
        top = np.floor((hi - math.pi/2)/TWO_PI) >= np.ceil((lo - math.pi/2)/TWO_PI)
        bot = np.floor((hi + math.pi/2)/TWO_PI) >= np.ceil((lo + math.pi/2)/TWO_PI)
        bad = ~np.isfinite(lo) | ~np.isfinite(hi)
        return (np.where(bot | bad, -1, np.minimum(a, b)), np.where(top | bad, 1, np.maximum(a, b)))

    # ------------------------------------------------------------------ nodes
    def node(self, n):
        op = n.op
        if op == 'num':
            return self.const(float(n.args[0]))
        if op == 'pi':
            return self.const(math.pi)
        if op == 'sym':
            if n.args[0] != self.var:
                raise Unsupported(f'the symbol {n.args[0]}')
            one = np.ones(self.cell.size)
            return [(self.lo + self.hi)/2, self.lo.copy(), self.hi.copy(), one, one]
        if op == 'sum':
            r = self.const(float(n.args[0]))
            for k, c in n.args[1]:
                x, c = self.real(k), float(c)
                y = x if c > 0 else [x[0], x[2], x[1], x[4], x[3]]
                r = [a + c*b for a, b in zip(r, y)]
            return self.fin(*r)
        if op == 'prod':
            r = None
            for b, e in n.args[0]:
                x = self.powq(self.real(b), e)
                r = x if r is None else self.times(r, x)
            return r
        if op == 'fpow':
            return self.powq(self.real(n.args[0]), n.args[1])
        if op in ('lt', 'le', 'eq'):
            return self.compare(op, *n.args)
        if op == 'and':
            r = np.ones(self.cell.size, bool)
            for a in n.args:
                r &= self.get(a)
            return r
        if op == 'not':
            return ~self.get(n.args[0])
        if op == 'ite':
            c, a, b = (self.get(x) for x in n.args)
            if isinstance(a, np.ndarray):
                return np.where(c, a, b)
            return [np.where(c, p, q) for p, q in zip(a, b)]
        if op == 'fn':
            return self.fn(n.args[0], n.args[1:])
        raise Unsupported(op)

    def compare(self, op, a, b):
        if op == 'eq':
            raise Unsupported('equality')
        a, b = self.get(a if isinstance(a, T.Node) else T.num(a)), self.get(b if isinstance(b, T.Node) else T.num(b))
        # the variable does not reach the upper end of its cell
        d = [b[0] - a[0], b[1] - a[2], b[2] - a[1]]
        yes, no = d[1] > 0, d[2] <= 0
        if op == 'le':
            yes, no = d[1] >= 0, d[2] < 0
        r = yes.copy()
        k, new = self.split(~yes & ~no)
        r = np.concatenate([r, r[k]])
        r[new] = True
        return r

    def pieces(self, x, c):
        """x - c*k for the integers k = floor(x/c) of each cell"""
        k0 = np.floor(x[1]/c)
        k1 = np.maximum(np.ceil(x[2]/c) - 1, k0)
        k0, k1 = np.where(np.isfinite(k0), k0, 0), np.where(np.isfinite(k1), k1, 1e9)
        # the bounds are widened for rounding: a break that is hardly touched counts
        wide = k1 > k0 + 1
        s = (k1 > k0) & ~wide
        kk, new = self.split(s)
        k0, wide = np.concatenate([k0, k0[kk]]), np.concatenate([wide, wide[kk]])
        k0[new] += 1
        return k0, wide

    def fn(self, name, args):
        if name in ('sin', 'cos'):
            x = self.real(args[0])
            q = math.pi/2 if name == 'cos' else 0.
            lo, hi = self.isin(x[1] + q, x[2] + q)
            glo, ghi = self.isin(x[1] + q + math.pi/2, x[2] + q + math.pi/2)
            return self.chain(x, getattr(np, name)(x[0]), lo, hi, glo, ghi)
        if name == 'arctan':
            x = self.real(args[0])
            big = np.maximum(np.abs(x[1]), np.abs(x[2]))
            small = np.where((x[1] <= 0) & (x[2] >= 0), 0, np.minimum(np.abs(x[1]), np.abs(x[2])))
            return self.chain(x, np.arctan(x[0]), np.arctan(x[1]), np.arctan(x[2]), 1/(1 + big**2), 1/(1 + small**2))
        if name in ('arcsin', 'arccos'):
            x = self.real(args[0])
            ok = (x[1] > -1) & (x[2] < 1)
            g = [np.where(ok, 1/np.sqrt(1 - y**2), np.inf) for y in (x[1], x[2])]
            lo = np.where((x[1] <= 0) & (x[2] >= 0), 1, np.minimum(*g))
            hi = np.maximum(*g)
            f = getattr(np, name)
            a, b = f(np.clip(x[1], -1, 1)), f(np.clip(x[2], -1, 1))
            if name == 'arcsin':
                return self.chain(x, f(np.clip(x[0], -1, 1)), a, b, lo, hi)
            return self.chain(x, f(np.clip(x[0], -1, 1)), b, a, -hi, -lo)
        if name == 'arctan2':
            y, x = self.real(args[0]), self.real(args[1])
            sq = lambda z: (np.where((z[1] <= 0) & (z[2] >= 0), 0, np.minimum(z[1]**2, z[2]**2)), np.maximum(z[1]**2, z[2]**2))
            r0, r1 = (a + b for a, b in zip(sq(x), sq(y)))
            a, b = self.imul(x[1], x[2], y[3], y[4])
            c, d = self.imul(y[1], y[2], x[3], x[4])
            ok = r0 > 0
            dlo, dhi = self.imul(a - d, b - c, np.where(ok, 1/r1, -np.inf), np.where(ok, 1/r0, np.inf))
            m = np.arctan2(y[0], x[0])
            r = self.fin(m, np.full_like(m, -np.inf), np.full_like(m, np.inf), dlo, dhi)
            for s in (1, -1):
                over = (r[2] > math.pi) if s == 1 else (r[1] < -math.pi)
                k, new = self.split(over)
                r = [np.concatenate([a, a[k]]) for a in r]
                for j in range(3):
                    r[j][new] -= s*TWO_PI
            return r
        if name in ('mod', 'floor', 'fdiv'):
            if name != 'floor':
                c = args[1]
                if isinstance(c, T.Node):
                    if not T.is_num(c):
                        raise Unsupported('a variable divisor')
                    c = c.args[0]
                c = float(c)
                if c <= 0:
                    raise Unsupported('a negative divisor')
            else:
                c = 1.
            n = args[0]
            k, wide = self.pieces(self.snap(n), c)
            x = self.real(n)
            if name == 'mod':
                r = self.fin(x[0] - c*k, x[1] - c*k, x[2] - c*k, x[3].copy(), x[4].copy())
            else:
                z = np.zeros_like(k)
                r = [k.copy(), k.copy(), k.copy(), z, z.copy()]
            for j, w in ((1, -np.inf), (2, np.inf), (3, -np.inf), (4, np.inf)):
                r[j][wide] = w
            return r
        if name in ('ceil', 'trunc'):
            neg = self.compare('lt', args[0], T.num(0)) if name == 'trunc' else np.ones(self.cell.size, bool)
            x = self.real(args[0])
            y = [-x[0], -x[2], -x[1]]
            k = np.where(neg, -np.floor(y[1]), np.floor(x[1]))
            # breaks of the ceiling lie at the other end of the cell
            last = np.where(neg, -np.floor(y[2]), np.maximum(np.ceil(x[2]) - 1, k))
            a, b = np.minimum(k, last), np.maximum(k, last)
            a, b = np.where(np.isfinite(a), a, 0), np.where(np.isfinite(b), b, 1e9)
            wide = b > a + 1
            kk, new = self.split((b > a) & ~wide)
            a, wide = np.concatenate([a, a[kk]]), np.concatenate([wide, wide[kk]])
            a[new] += 1
            z = np.zeros_like(a)
            r = [a, a.copy(), a.copy(), z, z.copy()]
            for j, w in ((1, -np.inf), (2, np.inf), (3, -np.inf), (4, np.inf)):
                r[j][wide] = w
            return r
        if name == 'abs':
            x = self.real(args[0])
            neg = self.compare('lt', args[0], T.num(0))
            x = self.real(args[0])
            return [np.where(neg, -p, q) for p, q in zip([x[0], x[2], x[1], x[4], x[3]], x)]
        raise Unsupported(name)

    def snap(self, n):
        """bounds without the widening, where the node is the variable itself"""
        if n.op == 'sym':
            return [None, self.lo, self.hi]
        return self.real(n)
