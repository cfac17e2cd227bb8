"""Library functions expressed by modelled ones.

This text is interpreted by the abstract interpreter (never imported): a call of
an unmodelled numpy.a.b is replaced by numpy__a__b below where it is defined.
"""
import numpy as np
import operator


# ------------------------------------------------------------------ element-wise
def numpy__cbrt(x):
    return np.sign(x)*np.abs(x)**(1/3)


def numpy__log10(x):
    return np.log(x)/np.log(10.)


def numpy__log2(x):
    return np.log(x)/np.log(2.)


def numpy__log1p(x):
    return np.log(np.add(x, 1.))


def numpy__expm1(x):
    return np.exp(x) - 1.


def numpy__exp2(x):
    return np.power(2., x)


def numpy__tanh(x):
    p, q = np.exp(x), np.exp(np.negative(x))
    return (p - q)/(p + q)


def numpy__arcsinh(x):
    return np.log(np.add(x, np.sqrt(np.square(x) + 1.)))


def numpy__arccosh(x):
    return np.log(np.add(x, np.sqrt(np.square(x) - 1.)))


def numpy__arctanh(x):
    return 0.5*np.log(np.add(1., x)/np.subtract(1., x))


def numpy__copysign(x, y):
    return np.where(np.less(y, 0.), -np.abs(x), np.abs(x))


def numpy__signbit(x):
    return np.less(x, 0.)


def numpy__heaviside(x, y):
    return np.where(np.less(x, 0.), 0., np.where(np.greater(x, 0.), 1., y))


def numpy__sinc(x):
    y = np.pi*np.asarray(x)
    return np.where(y == 0., 1., np.sin(y)/np.where(y == 0., 1., y))


def numpy__divmod(x, y):
    return np.floor_divide(x, y), np.mod(x, y)


def numpy__modf(x):
    w = np.trunc(x)
    return x - w, w


def numpy__isposinf(x):
    return np.logical_and(np.isinf(x), np.greater(x, 0))


def numpy__isneginf(x):
    return np.logical_and(np.isinf(x), np.less(x, 0))


def numpy__isreal(x):
    return np.imag(x) == 0


def numpy__iscomplex(x):
    return np.imag(x) != 0


def numpy__unwrap(p, discont=None, axis=-1, *, period=2*np.pi):
    p = np.moveaxis(np.asarray(p), axis, -1)
    d = np.diff(p)
    half = period/2
    m = np.mod(d + half, period) - half
    m = np.where((m == -half) & (d > 0), half, m)
    c = np.where(np.abs(d) < (half if discont is None else discont), 0., m - d)
    up = np.array(p, dtype=float)
    up[..., 1:] = p[..., 1:] + np.cumsum(c, axis=-1)
    return np.moveaxis(up, -1, axis)


def numpy__select(condlist, choicelist, default=0):
    out = default
    for i in range(len(condlist) - 1, -1, -1):
        out = np.where(condlist[i], choicelist[i], out)
    return out


def numpy__choose(a, choices):
    out = choices[len(choices) - 1]
    for i in range(len(choices) - 2, -1, -1):
        out = np.where(np.equal(a, i), choices[i], out)
    return out


def numpy__piecewise(x, condlist, funclist, *args, **kw):
    x = np.asarray(x)
    n = len(condlist)
    val = [f(x, *args, **kw) if callable(f) else f for f in funclist]
    if len(val) == n:
        val.append(0)
    out = val[n]*np.ones(x.shape)
    for c, v in zip(condlist, val):
        out = np.where(c, v, out)
    return out


# ------------------------------------------------------------------ shapes
def numpy__atleast_3d(*arys):
    out = []
    for a in arys:
        a = np.asarray(a)
        if a.ndim == 0:
            a = a.reshape(1, 1, 1)
        elif a.ndim == 1:
            a = a[None, :, None]
        elif a.ndim == 2:
            a = a[:, :, None]
        out.append(a)
    return out[0] if len(out) == 1 else tuple(out)


def numpy__asfortranarray(a, dtype=None):
    return np.asarray(a, dtype=dtype)


def numpy__asarray_chkfinite(a, dtype=None):
    return np.asarray(a, dtype=dtype)


def numpy__require(a, dtype=None, requirements=None):
    return np.asarray(a, dtype=dtype)


def numpy__astype(a, dtype, copy=True):
    return a.astype(dtype, copy=copy)


def numpy__diagonal(a, offset=0, axis1=0, axis2=1):
    a = np.moveaxis(np.asarray(a), (axis1, axis2), (-2, -1))
    r, c = max(0, -offset), max(0, offset)
    n = max(0, min(a.shape[-2] - r, a.shape[-1] - c))
    return np.stack([a[..., r + i, c + i] for i in range(n)], axis=-1)


def numpy__diagflat(v, k=0):
    return np.diag(np.ravel(v), k)


def numpy__fill_diagonal(a, val):
    n = min(a.shape)
    val = np.broadcast_to(val, (n,))
    for i in range(n):
        a[(i,)*a.ndim] = val[i]


def numpy__diag_indices(n, ndim=2):
    return (np.arange(n),)*ndim


def numpy__diag_indices_from(a):
    return (np.arange(a.shape[0]),)*a.ndim


def numpy__indices(dimensions, dtype=int, sparse=False):
    dimensions = tuple(dimensions)
    n = len(dimensions)
    out = []
    for i, d in enumerate(dimensions):
        x = np.arange(d).reshape((1,)*i + (d,) + (1,)*(n - i - 1))
        out.append(x if sparse else np.broadcast_to(x, dimensions))
    return tuple(out) if sparse else np.stack(out)


def numpy__ix_(*args):
    n = len(args)
    out = []
    for i, a in enumerate(args):
        a = np.asarray(a)
        if a.dtype == bool:
            a = np.flatnonzero(a)
        out.append(a.reshape((1,)*i + (-1,) + (1,)*(n - i - 1)))
    return tuple(out)


def numpy__fromfunction(function, shape, *, dtype=float, **kwargs):
    return function(*numpy__indices(shape, dtype), **kwargs)


def numpy__fromiter(iter, dtype, count=-1):
    x = list(iter)
    return np.array(x if count < 0 else x[:count], dtype=dtype)


def numpy__tri(N, M=None, k=0, dtype=float):
    M = N if M is None else M
    return np.array([[1 if j <= i + k else 0 for j in range(M)] for i in range(N)], dtype=dtype)


def numpy__tril(m, k=0):
    m = np.asarray(m)
    return np.where(numpy__tri(m.shape[-2], m.shape[-1], k, bool), m, 0)


def numpy__triu(m, k=0):
    m = np.asarray(m)
    return np.where(numpy__tri(m.shape[-2], m.shape[-1], k - 1, bool), 0, m)


def numpy__tril_indices(n, k=0, m=None):
    m = n if m is None else m
    p = [(i, j) for i in range(n) for j in range(m) if j <= i + k]
    return np.array([i for i, j in p], dtype=int), np.array([j for i, j in p], dtype=int)


def numpy__triu_indices(n, k=0, m=None):
    m = n if m is None else m
    p = [(i, j) for i in range(n) for j in range(m) if j >= i + k]
    return np.array([i for i, j in p], dtype=int), np.array([j for i, j in p], dtype=int)


def numpy__tril_indices_from(a, k=0):
    return numpy__tril_indices(a.shape[-2], k, a.shape[-1])


def numpy__triu_indices_from(a, k=0):
    return numpy__triu_indices(a.shape[-2], k, a.shape[-1])


def numpy__hsplit(a, n):
    return np.split(a, n, axis=0 if np.ndim(a) == 1 else 1)


def numpy__vsplit(a, n):
    return np.split(a, n, axis=0)


def numpy__dsplit(a, n):
    return np.split(a, n, axis=2)


def numpy__unstack(a, *, axis=0):
    a = np.moveaxis(a, axis, 0)
    return tuple(a[i] for i in range(a.shape[0]))


def numpy__rot90(m, k=1, axes=(0, 1)):
    k = k % 4
    m = np.moveaxis(np.asarray(m), axes, (0, 1))
    if k == 1:
        m = np.swapaxes(m, 0, 1)[::-1]
    elif k == 2:
        m = m[::-1, ::-1]
    elif k == 3:
        m = np.swapaxes(m, 0, 1)[:, ::-1]
    return np.moveaxis(m, (0, 1), axes)


def numpy__resize(a, new_shape):
    a = np.ravel(a)
    n = int(np.prod(new_shape))
    return np.array([a[i % a.size] for i in range(n)]).reshape(new_shape)


def numpy__block(arrays):
    def join(x, depth):
        if isinstance(x, list):
            return np.concatenate([join(y, depth - 1) for y in x], axis=-depth)
        return np.atleast_1d(x) if depth0 < 2 else np.atleast_2d(x)
    depth0, y = 0, arrays
    while isinstance(y, list):
        depth0 += 1
        y = y[0]
    return join(arrays, depth0)


def numpy__take_along_axis(arr, indices, axis=-1):
    if axis is None:
        return np.take(np.ravel(arr), indices)
    arr, indices = np.moveaxis(arr, axis, -1), np.moveaxis(indices, axis, -1)
    out = [arr[i][indices[i]] for i in np.ndindex(*arr.shape[:-1])]
    return np.moveaxis(np.reshape(np.stack(out), indices.shape), -1, axis)


def numpy__put_along_axis(arr, indices, values, axis):
    arr, indices = np.moveaxis(arr, axis, -1), np.moveaxis(indices, axis, -1)
    values = np.moveaxis(np.broadcast_to(values, indices.shape), axis, -1) if np.ndim(values) else np.broadcast_to(values, indices.shape)
    for i in np.ndindex(*arr.shape[:-1]):
        arr[i][indices[i]] = values[i]


def numpy__apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = np.moveaxis(np.asarray(arr), axis, -1)
    sh = arr.shape[:-1]
    out = [np.asarray(func1d(arr[i], *args, **kwargs)) for i in np.ndindex(*sh)]
    one = out[0].shape
    out = np.stack(out).reshape(sh + one)
    for j in range(len(one)):
        out = np.moveaxis(out, len(sh) + j, (axis % arr.ndim) + j)
    return out


def numpy__putmask(a, mask, values):
    a[mask] = values if np.ndim(values) == 0 else np.resize(values, a.shape)[mask]


def numpy__place(a, mask, vals):
    n = int(np.sum(mask))
    if n:
        a[mask] = np.resize(vals, (n,))


def numpy__put(a, ind, v):
    i = np.ravel(ind)
    a.flat[i] = np.resize(v, i.shape)


def numpy__compress(condition, a, axis=None):
    i = np.flatnonzero(condition)
    return np.take(np.ravel(a), i) if axis is None else np.take(a, i, axis=axis)


def numpy__extract(condition, a):
    return np.ravel(a)[np.ravel(condition)]


def numpy__ravel_multi_index(multi_index, dims):
    out = 0
    for x, d in zip(multi_index, dims):
        out = out*d + x
    return out


def numpy__unravel_index(indices, shape):
    out = []
    for d in shape[::-1]:
        out.append(indices % d)
        indices = indices // d
    return tuple(out[::-1])


# ------------------------------------------------------------------ reductions
def numpy__cumprod(a, axis=None):
    if axis is None:
        a, axis = np.ravel(a), 0
    a = np.moveaxis(np.asarray(a), axis, 0)
    out = [a[0]]
    for i in range(1, a.shape[0]):
        out.append(out[-1]*a[i])
    return np.moveaxis(np.stack(out), 0, axis)


def numpy__cumulative_sum(x, *, axis=None, include_initial=False):
    axis = 0 if axis is None else axis
    y = np.cumsum(x, axis=axis)
    return np.concatenate([0*np.take(y, [0], axis=axis), y], axis=axis) if include_initial else y


def numpy__cumulative_prod(x, *, axis=None, include_initial=False):
    axis = 0 if axis is None else axis
    y = numpy__cumprod(x, axis=axis)
    return np.concatenate([0*np.take(y, [0], axis=axis) + 1, y], axis=axis) if include_initial else y


def numpy__ediff1d(ary, to_end=None, to_begin=None):
    d = [np.diff(np.ravel(ary))]
    if to_begin is not None:
        d.insert(0, np.ravel(to_begin))
    if to_end is not None:
        d.append(np.ravel(to_end))
    return np.concatenate(d)


def numpy__gradient(f, *varargs, axis=None, edge_order=1):
    f = np.asarray(f)
    if f.ndim != 1 or len(varargs) > 1 or edge_order != 1:
        raise NotImplementedError
    h = varargs[0] if varargs else 1.
    x = h*np.arange(f.size) if np.ndim(h) == 0 else np.asarray(h)
    out = [(f[1] - f[0])/(x[1] - x[0])]
    for i in range(1, f.size - 1):
        a, b = x[i] - x[i - 1], x[i + 1] - x[i]
        out.append((a**2*f[i + 1] + (b**2 - a**2)*f[i] - b**2*f[i - 1])/(a*b*(a + b)))
    out.append((f[-1] - f[-2])/(x[-1] - x[-2]))
    return np.array(out)


def numpy__trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(np.asarray(y), axis, -1)
    if x is None:
        d = dx
    else:
        x = np.asarray(x)
        d = np.diff(x) if x.ndim == 1 else np.diff(np.moveaxis(x, axis, -1))
    return np.sum(d*(y[..., 1:] + y[..., :-1])/2., axis=-1)


def numpy__trapz(y, x=None, dx=1.0, axis=-1):
    return numpy__trapezoid(y, x, dx, axis)


def numpy__var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    a = np.asarray(a)
    n = a.size if axis is None else a.shape[axis]
    d = np.abs(a - np.mean(a, axis=axis, keepdims=True))**2
    return np.sum(d, axis=axis, keepdims=keepdims)/(n - ddof)


def numpy__vecdot(a, b, axis=-1):
    return np.sum(np.conj(a)*b, axis=axis)


def numpy__matvec(a, b):
    return np.einsum('...ij,...j->...i', a, b)


def numpy__vecmat(a, b):
    return np.einsum('...i,...ij->...j', np.conj(a), b)


def numpy__linalg__vecdot(a, b, axis=-1):
    return np.sum(np.conj(a)*b, axis=axis)


def numpy__linalg__vector_norm(x, *, axis=None, keepdims=False, ord=2):
    return np.linalg.norm(np.ravel(x) if axis is None else x, ord=ord, axis=axis, keepdims=keepdims)


def numpy__linalg__matmul(a, b):
    return np.matmul(a, b)


def numpy__linalg__cross(a, b, axis=-1):
    return np.cross(a, b, axis=axis)


def numpy__linalg__outer(a, b):
    return np.outer(a, b)


def numpy__linalg__tensordot(a, b, axes=2):
    return np.tensordot(a, b, axes)


def numpy__linalg__diagonal(a, offset=0):
    return numpy__diagonal(a, offset, -2, -1)


def numpy__linalg__trace(a, offset=0):
    return np.sum(numpy__diagonal(a, offset, -2, -1), axis=-1)


def numpy__linalg__matrix_transpose(a):
    return np.swapaxes(a, -1, -2)


def numpy__linalg__multi_dot(arrays):
    out = arrays[0]
    for a in arrays[1:]:
        out = np.dot(out, a)
    return out


def numpy__linalg__matrix_power(a, n):
    out = np.eye(a.shape[-1])
    for i in range(n):
        out = np.matmul(out, a)
    return out


# ------------------------------------------------------------------ ranges, polynomials
def numpy__logspace(start, stop, num=50, endpoint=True, base=10.0):
    return np.power(base, np.linspace(start, stop, num, endpoint=endpoint))


def numpy__geomspace(start, stop, num=50, endpoint=True):
    return np.exp(np.linspace(np.log(start), np.log(stop), num, endpoint=endpoint))


def numpy__vander(x, N=None, increasing=False):
    x = np.asarray(x)
    N = len(x) if N is None else N
    k = range(N) if increasing else range(N - 1, -1, -1)
    return np.stack([x**i for i in k], axis=-1)


def numpy__polyder(p, m=1):
    p = np.asarray(p)
    for i in range(m):
        n = len(p) - 1
        p = p[:-1]*np.arange(n, 0, -1)
    return p


def numpy__polymul(a, b):
    return np.convolve(a, b)


def numpy__polynomial__polynomial__polyval(x, c, tensor=True):
    c = np.asarray(c)
    if tensor:
        c = c.reshape(c.shape + (1,)*np.ndim(x))
    out = c[-1] + np.asarray(x)*0
    for i in range(2, len(c) + 1):
        out = c[-i] + out*x
    return out


def numpy__polynomial__legendre__legvander(x, deg):
    x = np.asarray(x) + 0.0
    v = [x*0 + 1]
    if deg > 0:
        v.append(x)
    for i in range(2, deg + 1):
        v.append((v[i - 1]*x*(2*i - 1) - v[i - 2]*(i - 1))/i)
    return np.stack(v, axis=-1)


def numpy__polynomial__legendre__legval(x, c, tensor=True):
    c = np.asarray(c)
    if tensor:
        c = c.reshape(c.shape + (1,)*np.ndim(x))
    v = numpy__polynomial__legendre__legvander(x, len(c) - 1)
    out = c[0]*v[..., 0]
    for i in range(1, len(c)):
        out = out + c[i]*v[..., i]
    return out


# ------------------------------------------------------------------ spectra
def numpy__fft__fftfreq(n, d=1.0):
    k = list(range((n - 1)//2 + 1)) + list(range(-(n//2), 0))
    return np.array(k)/(n*d)


def numpy__fft__rfftfreq(n, d=1.0):
    return np.arange(n//2 + 1)/(n*d)


def numpy__fft__fftshift(x, axes=None):
    axes = range(np.ndim(x)) if axes is None else (axes,) if isinstance(axes, int) else axes
    for i in axes:
        x = np.roll(x, x.shape[i]//2, axis=i)
    return x


def numpy__fft__ifftshift(x, axes=None):
    axes = range(np.ndim(x)) if axes is None else (axes,) if isinstance(axes, int) else axes
    for i in axes:
        x = np.roll(x, -(x.shape[i]//2), axis=i)
    return x


# ------------------------------------------------------------------ sets of concrete values
def numpy__union1d(a, b):
    return np.unique(np.concatenate([np.ravel(a), np.ravel(b)]))


def numpy__intersect1d(a, b):
    a, b = np.unique(a), np.unique(b)
    return a[np.isin(a, b)]


def numpy__setdiff1d(a, b):
    a = np.unique(a)
    return a[~np.isin(a, b)]


def numpy__unique_values(x):
    return np.unique(x)


def numpy__bincount(x, weights=None, minlength=0):
    x = [int(i) for i in x]
    n = max(minlength, max(x) + 1 if x else 0)
    out = [0]*n
    for i, k in enumerate(x):
        out[k] = out[k] + (1 if weights is None else weights[i])
    return np.array(out)


def numpy__lexsort(keys):
    n = len(keys[0])
    return np.array(sorted(range(n), key=lambda i: tuple(k[i] for k in keys[::-1])))


# ------------------------------------------------------------------ math
def math__cbrt(x):
    return numpy__cbrt(x)


def math__log10(x):
    return np.log(x)/np.log(10.)


def math__log2(x):
    return np.log(x)/np.log(2.)


def math__log1p(x):
    return np.log(1. + x)


def math__expm1(x):
    return np.exp(x) - 1.


def math__exp2(x):
    return 2.**x


def math__tanh(x):
    return numpy__tanh(x)


def math__asinh(x):
    return numpy__arcsinh(x)


def math__acosh(x):
    return numpy__arccosh(x)


def math__atanh(x):
    return numpy__arctanh(x)


def math__copysign(x, y):
    return -abs(x) if y < 0 else abs(x)


def math__modf(x):
    w = np.trunc(x)
    return x - w, w


def math__dist(p, q):
    return np.sqrt(sum((x - y)**2 for x, y in zip(p, q)))


def math__sumprod(p, q):
    return sum(x*y for x, y in zip(p, q))


def math__gcd(*a):
    r = 0
    for x in a:
        while x:
            r, x = x, r % x
    return abs(r)


def math__lcm(*a):
    r = 1
    for x in a:
        r = abs(r*x)//math__gcd(r, x) if x else 0
    return r


def math__perm(n, k=None):
    k = n if k is None else k
    r = 1
    for i in range(k):
        r = r*(n - i)
    return r


def math__isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    return abs(a - b) <= max(rel_tol*max(abs(a), abs(b)), abs_tol)


# ------------------------------------------------------------------ itertools, operator
def itertools__starmap(f, it):
    return [f(*x) for x in it]


def itertools__zip_longest(*its, fillvalue=None):
    its = [list(x) for x in its]
    n = max([len(x) for x in its]) if its else 0
    return [tuple(x[i] if i < len(x) else fillvalue for x in its) for i in range(n)]


def itertools__takewhile(f, it):
    out = []
    for x in it:
        if not f(x):
            break
        out.append(x)
    return out


def itertools__dropwhile(f, it):
    out, on = [], False
    for x in it:
        if not on and not f(x):
            on = True
        if on:
            out.append(x)
    return out


def itertools__filterfalse(f, it):
    return [x for x in it if not (f(x) if f is not None else x)]


def itertools__compress(data, selectors):
    return [x for x, s in zip(data, selectors) if s]


def itertools__groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return out


def itertools__batched(it, n):
    x = list(it)
    return [tuple(x[i:i + n]) for i in range(0, len(x), n)]


def itertools__tee(it, n=2):
    x = list(it)
    return tuple(list(x) for i in range(n))


def itertools__combinations(it, r):
    x = list(it)
    if r == 0:
        return [()]
    return [(x[i],) + y for i in range(len(x)) for y in itertools__combinations(x[i + 1:], r - 1)]


def itertools__permutations(it, r=None):
    x = list(it)
    r = len(x) if r is None else r
    if r == 0:
        return [()]
    return [(x[i],) + y for i in range(len(x)) for y in itertools__permutations(x[:i] + x[i + 1:], r - 1)]


def itertools__combinations_with_replacement(it, r):
    x = list(it)
    if r == 0:
        return [()]
    return [(x[i],) + y for i in range(len(x)) for y in itertools__combinations_with_replacement(x[i:], r - 1)]


def operator__neg(x):
    return -x


def operator__not_(x):
    return not x


def operator__truth(x):
    return bool(x)


def operator__abs(x):
    return abs(x)


def operator__pos(x):
    return +x


def operator__invert(x):
    return ~x


def operator__floordiv(x, y):
    return x // y


def operator__matmul(x, y):
    return x @ y


def operator__and_(x, y):
    return x & y


def operator__or_(x, y):
    return x | y


def operator__xor(x, y):
    return x ^ y


def operator__eq(x, y):
    return x == y


def operator__ne(x, y):
    return x != y


def operator__lt(x, y):
    return x < y


def operator__le(x, y):
    return x <= y


def operator__gt(x, y):
    return x > y


def operator__ge(x, y):
    return x >= y


def operator__is_(x, y):
    return x is y


def operator__is_not(x, y):
    return x is not y


def operator__contains(x, y):
    return y in x


def operator__getitem(x, y):
    return x[y]


def operator__setitem(x, y, z):
    x[y] = z


def operator__delitem(x, y):
    del x[y]


def operator__concat(x, y):
    return x + y


def operator__countOf(x, y):
    return sum(1 for z in x if z == y)


def operator__indexOf(x, y):
    return list(x).index(y)


def operator__methodcaller(name, *args, **kw):
    return lambda o: getattr(o, name)(*args, **kw)


def operator__iadd(x, y):
    x += y
    return x


def operator__imul(x, y):
    x *= y
    return x


def operator__isub(x, y):
    x -= y
    return x


def operator__call(f, *args, **kw):
    return f(*args, **kw)


# ------------------------------------------------------------------ scipy
def scipy__special__comb(n, k, exact=False):
    r = 1
    for i in range(int(k)):
        r = r*(n - i)/(i + 1)
    return r


def scipy__special__binom(n, k):
    return scipy__special__comb(n, k)


def scipy__special__factorial2(n, exact=False):
    r = 1
    while n > 1:
        r, n = r*n, n - 2
    return r


# ------------------------------------------------------------------ more of numpy
def numpy__pow(x, y):
    return np.power(x, y)


def numpy__acosh(x):
    return numpy__arccosh(x)


def numpy__asinh(x):
    return numpy__arcsinh(x)


def numpy__atanh(x):
    return numpy__arctanh(x)


def numpy__nanprod(a, axis=None):
    return np.prod(np.where(np.isnan(a), 1., a), axis=axis)


def numpy__nanvar(a, axis=None, ddof=0):
    n = np.sum(~np.isnan(a), axis=axis, keepdims=True)
    m = np.sum(np.where(np.isnan(a), 0., a), axis=axis, keepdims=True)/n
    d = np.where(np.isnan(a), 0., a - m)
    return np.sum(d**2, axis=axis)/(np.sum(~np.isnan(a), axis=axis) - ddof)


def numpy__nanstd(a, axis=None, ddof=0):
    return np.sqrt(numpy__nanvar(a, axis=axis, ddof=ddof))


def numpy__nancumsum(a, axis=None):
    return np.cumsum(np.where(np.isnan(a), 0., a), axis=axis)


def numpy__fft__irfft(a, n=None, axis=-1, norm=None):
    a = np.moveaxis(np.asarray(a), axis, -1)
    n = 2*(a.shape[-1] - 1) if n is None else n
    if n//2 + 1 != a.shape[-1]:
        raise NotImplementedError
    back = np.conj(a[..., 1:(n + 1)//2][..., ::-1])
    return np.moveaxis(np.real(np.fft.ifft(np.concatenate([a, back], axis=-1), norm=norm)), -1, axis)


def numpy__logaddexp(x, y):
    return np.log(np.exp(x) + np.exp(y))


def numpy__geterr():
    return {'divide': 'warn', 'over': 'warn', 'under': 'ignore', 'invalid': 'warn'}


def numpy__get_printoptions():
    return {'precision': 8, 'threshold': 1000}




# ------------------------------------------------------------------ statistics
def numpy__average(a, axis=None, weights=None, returned=False, *, keepdims=False):
    a = np.asarray(a)
    if weights is None:
        r = np.mean(a, axis=axis, keepdims=keepdims)
        w = np.ones(a.shape)
    else:
        w = np.asarray(weights)
        if w.shape != a.shape:
            if axis is None:
                raise TypeError('Axis must be specified when shapes of a and weights differ.')
            s = [1]*a.ndim
            s[axis] = a.shape[axis]
            w = np.broadcast_to(w.reshape(s), a.shape)
        r = np.sum(a*w, axis=axis, keepdims=keepdims)/np.sum(w, axis=axis, keepdims=keepdims)
    if returned:
        return r, np.sum(w, axis=axis, keepdims=keepdims)*np.ones(np.shape(r))
    return r


def numpy__std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    return np.sqrt(numpy__var(a, axis, dtype, out, ddof, keepdims))


def numpy__atleast_3d(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return a.reshape(1, 1, 1)
    if a.ndim == 1:
        return a[None, :, None]
    if a.ndim == 2:
        return a[:, :, None]
    return a


# ------------------------------------------------------------------ containers
class collections__defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kwargs):
        self.default_factory = default_factory
        self.update(*args, **kwargs)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class collections__Counter(dict):
    def __init__(self, iterable=()):
        for x in iterable:
            self[x] = self[x] + 1

    def __missing__(self, key):
        return 0


class collections__ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, key):
        for m in self.maps:
            if key in m:
                return m[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        self.maps[0][key] = value

    def __contains__(self, key):
        for m in self.maps:
            if key in m:
                return True
        return False

    def get(self, key, default=None):
        for m in self.maps:
            if key in m:
                return m[key]
        return default

    def keys(self):
        d = {}
        for m in reversed(self.maps):
            d.update(m)
        return d.keys()

    def values(self):
        return [self[k] for k in self.keys()]

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __iter__(self):
        return iter(list(self.keys()))

    def __len__(self):
        return len(list(self.keys()))


class collections__deque:
    def __init__(self, iterable=(), maxlen=None):
        self.q = list(iterable)
        self.maxlen = maxlen
        self.cut()

    def cut(self):
        if self.maxlen is not None and len(self.q) > self.maxlen:
            self.q = self.q[len(self.q) - self.maxlen:]

    def append(self, x):
        self.q.append(x)
        self.cut()

    def appendleft(self, x):
        self.q.insert(0, x)
        if self.maxlen is not None:
            self.q = self.q[:self.maxlen]

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def extendleft(self, xs):
        for x in xs:
            self.appendleft(x)

    def pop(self):
        return self.q.pop()

    def popleft(self):
        return self.q.pop(0)

    def clear(self):
        self.q = []

    def rotate(self, n=1):
        if self.q:
            k = n % len(self.q)
            self.q = self.q[len(self.q) - k:] + self.q[:len(self.q) - k]

    def __len__(self):
        return len(self.q)

    def __iter__(self):
        return iter(self.q)

    def __getitem__(self, i):
        return self.q[i]

    def __setitem__(self, i, v):
        self.q[i] = v

    def __contains__(self, x):
        return x in self.q
