"""closed-form reference values as graph terms (the specifications the code is compared with)"""
import math
from fractions import Fraction

import numpy as np

from .. import terms as T


def legendre_coeffs(n):
    """coefficients of the Legendre polynomial P_n, lowest power first (explicit sum)"""
    c = [Fraction(0)] * (n + 1)
    for k in range(n // 2 + 1):
        c[n - 2 * k] = Fraction((-1) ** k * math.comb(n, k) * math.comb(2 * n - 2 * k, n), 2 ** n)
    return c


def dpoly(c, m=1):
    for _ in range(m):
        c = [Fraction(k) * c[k] for k in range(1, len(c))] or [Fraction(0)]
    return c


def pv(c, x):
    s = T.ZERO
    for k, a in enumerate(c):
        if a:
            s = T.add(s, T.mul(T.num(a), T.power(x, k) if k else T.ONE))
    return s


def rad(th):
    return T.mul(T.lift(th), T.div(T.PI, T.num(180)))


def cs(th):
    t = T.lift(th)
    if T.is_num(t):
        v = float(t.args[0]) if t.op == 'num' else None
        tab = {0: (1, 0), 90: (0, 1), 180: (-1, 0)}
        if v in tab:
            return T.num(tab[v][0]), T.num(tab[v][1])
    a = rad(t)
    return T.fn('cos', a), T.fn('sin', a)


def spow(s, k):
    return T.ONE if k == 0 else T.power(s, k)


def schmidt(n, m, th):
    """(P, dP/dtheta, P/sin theta [m>0]) of degree n and order m, Schmidt semi-normalised"""
    x, s = cs(th)
    nrm = T.sqrt(T.num((2 if m else 1) * Fraction(math.factorial(n - m), math.factorial(n + m))))
    c = dpoly(legendre_coeffs(n), m)
    q, dq = pv(c, x), pv(dpoly(c), x)
    P = T.mul(nrm, spow(s, m), q)
    if m == 0:
        return P, T.neg(T.mul(nrm, s, dq)), None
    dP = T.mul(nrm, T.sub(T.mul(T.num(m), spow(s, m - 1), x, q), T.mul(spow(s, m + 1), dq)))
    return P, dP, T.mul(nrm, spow(s, m - 1), q)


def index(nmin, nmax, mmax=None):
    """(n, m, 'g'|'h') in the order of the coefficient vector"""
    mmax = nmax if mmax is None else mmax
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0, 'g'))
        for m in range(1, min(n, mmax) + 1):
            out += [(n, m, 'g'), (n, m, 'h')]
    return out


def basis(n, m, gh, src, r, th, ph, a):
    """minus the gradient of the potential of one coefficient: (B_r, B_theta, B_phi)"""
    P, dP, Ps = schmidt(n, m, th)
    q = T.div(T.lift(r), a)
    mp = T.mul(T.num(m), rad(ph))
    c, s = (T.fn('cos', mp), T.fn('sin', mp)) if m else (T.ONE, T.ZERO)
    tr, dtr = (c, T.neg(s)) if gh == 'g' else (s, c)
    if src == 'internal':
        f = T.power(q, -(n + 2))
        br = T.mul(T.num(n + 1), f, P, tr)
    else:
        f = spow(q, n - 1)
        br = T.mul(T.num(-n), f, P, tr)
    bt = T.neg(T.mul(f, dP, tr))
    bp = T.neg(T.mul(f, T.num(m), Ps, dtr)) if m else T.ZERO
    return br, bt, bp


def field(coeffs, src, r, th, ph, a, nmin=1, nmax=None, mmax=None):
    """field of a coefficient vector at one point"""
    ix = index(nmin, nmax, mmax)
    assert len(ix) == len(coeffs), (len(ix), len(coeffs))
    out = [T.ZERO] * 3
    for co, (n, m, gh) in zip(coeffs, ix):
        for i, b in enumerate(basis(n, m, gh, src, r, th, ph, a)):
            out[i] = T.add(out[i], T.mul(co, b))
    return out


# ------------------------------------------------------------------ splines
def fall(k, nu):
    f = 1
    for i in range(nu):
        f *= k - i
    return f


def piece(co, i, s, nu=0):
    """nu-th derivative of piece i at local coordinate s; co: object array (order, pieces)"""
    K = co.shape[0]
    out = T.ZERO
    for j in range(K):
        p = K - 1 - j
        if p >= nu:
            out = T.add(out, T.mul(T.num(fall(p, nu)), co[j, i], T.power(s, p - nu) if p > nu else T.ONE))
    return out


def ppval(co, brk, t, nu=0):
    """piecewise polynomial continued by its end pieces"""
    M = co.shape[1]
    v = piece(co, M - 1, T.sub(t, brk[M - 1]), nu)
    for i in range(M - 2, -1, -1):
        v = T.ite(T.cmp('lt', t, brk[i + 1]), piece(co, i, T.sub(t, brk[i]), nu), v)
    return v


def taylor(co, brk, side, terms, t, nu=0):
    """Taylor polynomial with that many terms about an end point, nu-th derivative"""
    M = co.shape[1]
    i = 0 if side < 0 else M - 1
    x0 = brk[0] if side < 0 else brk[-1]
    s0 = T.ZERO if side < 0 else T.sub(brk[-1], brk[-2])
    out = T.ZERO
    d = T.sub(t, x0)
    for k in range(nu, terms):
        out = T.add(out, T.mul(piece(co, i, s0, k) if True else 0, T.num(Fraction(1, math.factorial(k - nu))),
                               T.power(d, k - nu) if k > nu else T.ONE))
    return out


def extrap(co, brk, terms, t, nu=0):
    """spline inside its period, Taylor polynomials outside; terms=None: not-a-number outside"""
    mid = ppval(co, brk, t, nu)
    lo = taylor(co, brk, -1, terms, t, nu) if terms is not None else T.NAN
    hi = taylor(co, brk, 1, terms, t, nu) if terms is not None else T.NAN
    return T.ite(T.cmp('lt', t, brk[0]), lo, T.ite(T.cmp('lt', brk[-1], t), hi, mid))


def extrap_all(co, brk, terms, ts, nu=0, scale=True):
    """array over times and coefficients; co: (order, pieces, dim)"""
    co = co.get() if hasattr(co, 'get') else co
    ts = np.asarray(ts, dtype=object)
    out = np.empty(ts.shape + co.shape[2:], dtype=object)
    f = T.num(Fraction('365.25') ** nu) if scale else T.ONE
    for i in np.ndindex(*ts.shape):
        for d in range(co.shape[2]):
            out[i + (d,)] = T.mul(f, extrap(co[:, :, d], brk, terms, ts[i], nu))
    return out
