"""field synthesis: potential, truncation, extrapolation, derivatives, wrappers, sums, spectra, broadcasting"""
import itertools

from . import oracle as S
from .common import *

LIM = {'quick': 6, 'thorough': 10}
SRC = ('internal', 'external')


def rsurf(A):
    return cfgval(A, 'params.r_surf')


def setr(A, tag='rs'):
    """a symbolic reference radius"""
    v = T.scale(sym(tag, 'gap'), 6000.)
    setcfg(A, 'params.r_surf', v)
    return v


def triple(rows, shape=None):
    """three component arrays from a list of (Br, Bt, Bp)"""
    out = []
    for i in range(3):
        e = np.empty(len(rows), dtype=object)
        for j, x in enumerate(rows):
            e[j] = x[i]
        out.append(e.reshape(shape) if shape is not None else e)
    return tuple(out)


def oarr(xs, shape):
    e = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        e[i] = x
    return e.reshape(shape)


def elems(a):
    return list(a.get().ravel())


def ncoef(nmin, nmax, mmax):
    return len(S.index(nmin, nmax, mmax))


@rule('C16', 'The synthesised field is the negative gradient of the stated potential',
      'value-graph equality of the expansion with explicit Schmidt functions and their gradient, per degree and order')
def c16(ck):
    def legendre(c, n):
        A = c.an()
        w = c.where(MU + 'legendre_poly')
        th = sym('th', 'theta')
        for pt in (th, A.syms('tt', 2, 'theta'), T.num(0), T.num(180), T.num(90), A.arr([T.num(0), th, T.num(180)])):
            r = A.call(MU + 'legendre_poly', n, pt)
            c.returns(r, w, 'legendre_poly')
            pts = elems(pt) if isinstance(pt, Arr) else [pt]
            sh = pt.shape if isinstance(pt, Arr) else ()
            v = r.value.v
            c.ok(v.shape == (n + 1, n + 2) + tuple(sh), w, f'shape {v.shape} of the Legendre table')
            for k in range(1, n + 1):
                for m in range(k + 1):
                    ref = [S.schmidt(k, m, p) for p in pts]
                    c.equal(v[k, m], oarr([x[0] for x in ref], sh) if sh else ref[0][0], w, f'P({k},{m})', n=3)
                    c.equal(v[m, k + 1], oarr([x[1] for x in ref], sh) if sh else ref[0][1], w, f'dP({k},{m})/dtheta', n=3)
    for n in range(1, (7 if True else 0)):
        ck.add(f'legendre/{n}', legendre, n)
    for n in ([8, 10, 13] if ck.tier == 'thorough' else [8]):
        ck.add(f'legendre/{n}', legendre, n)

    def synth(c, src, n, nmin=1, mmax=None, pts='one', give=()):
        A = c.an()
        w = c.where(MU + 'synth_values')
        a = setr(A) if (n + nmin) % 2 else rsurf(A)
        a = T.lift(a.item() if isinstance(a, Arr) else a)
        P = {'one': [point('1')], 'mix': [(sym('r1', 'radius'), T.num(0), sym('p1', 'phi')), point('2'),
                                         (sym('r3', 'radius'), T.num(180), sym('p3', 'phi'))],
             'north': [(sym('r1', 'radius'), T.num(0), sym('p1', 'phi'))], 'south': [(sym('r1', 'radius'), T.num(180), sym('p1', 'phi'))]}[pts]
        co = A.syms('c', ncoef(nmin, n, mmax))
        kw = dict(nmin=nmin, nmax=n, mmax=mmax)
        kw = {k: kw[k] for k in give}
        if nmin > 1:
            kw['nmin'] = nmin
        if src != 'default':
            kw['source'] = src
        if len(P) == 1:
            args = P[0]
        else:
            args = [A.arr([p[i] for p in P]) for i in range(3)]
        r = A.call(MU + 'synth_values', co, *args, **kw)
        c.returns(r, w, 'synth_values')
        rows = [S.field(elems(co), 'internal' if src == 'default' else src, *p, a, nmin, n, mmax) for p in P]
        want = triple(rows, (len(P),) if len(P) > 1 else ())
        for i, comp in enumerate(('radial', 'colatitude', 'azimuth')):
            c.equal(r.value[i], want[i] if len(P) > 1 else want[i][()], w,
                    f'{comp} component, {src} source, degrees {nmin}..{n}, orders to {mmax or n}, point {pts}', n=4)

        # design matrix: one column per coefficient
        w2 = c.where(MU + 'design_gauss')
        kd = {k: v for k, v in kw.items() if k != 'nmax'}
        r = A.call(MU + 'design_gauss', *args, n, **({**kd, 'mmax': mmax} if mmax is not None else kd))
        c.returns(r, w2, 'design_gauss')
        ix = S.index(nmin, n, mmax)
        for i, comp in enumerate(('radial', 'colatitude', 'azimuth')):
            want = oarr([S.basis(*j, 'internal' if src == 'default' else src, *p, a)[i] for p in P for j in ix],
                        ((len(P),) if len(P) > 1 else ()) + (len(ix),))
            c.equal(r.value[i], want, w2, f'{comp} rows, {src} source, degrees {nmin}..{n}, orders to {mmax or n}, point {pts}', n=3)
    top = LIM[ck.tier]
    for src in SRC:
        for n in range(1, top + 1):
            ck.add(f'field/{src}/{n}', synth, src, n)
        for n in (1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 5):
            for pts in ('mix', 'north', 'south'):
                ck.add(f'field/{src}/{n}/{pts}', synth, src, n, 1, None, pts)
        for nmin, n, mmax in ((2, 2, None), (2, 4, None), (3, 3, None), (4, 5, None), (3, 3, 1), (2, 3, 0), (3, 4, 2)):
            give = ('nmax',) if mmax is None else ('nmax', 'mmax')
            ck.add(f'field/{src}/{nmin}-{n}-{mmax}', synth, src, n, nmin, mmax, 'one', give)
            if nmin < 4:
                ck.add(f'field/{src}/{nmin}-{n}-{mmax}/mix', synth, src, n, nmin, mmax, 'mix', give)
        for n, mmax in ((3, 0), (3, 1), (4, 2), (2, 2)):
            ck.add(f'field/{src}/{n}-{mmax}', synth, src, n, 1, mmax, 'one', ('mmax', 'nmax'))
        ck.add(f'field/{src}/only mmax', synth, src, 4, 1, 2, 'one', ('mmax',))
        ck.add(f'field/{src}/only mmax, nmin', synth, src, 4, 2, 2, 'one', ('mmax', 'nmin'))
        ck.add(f'field/{src}/only mmax below nmin', synth, src, 5, 4, 1, 'one', ('mmax', 'nmin'))
        ck.add(f'field/{src}/only nmin', synth, src, 4, 3, None, 'one', ('nmin',))
    ck.add('field/default', synth, 'default', 2)
    ck.add('field/default/mix', synth, 'default', 2, 1, None, 'mix')

    def models(c, src, n):
        # model objects use the same potential, external coefficients of external models included
        A = c.an()
        a = setr(A)
        b = breaks_syms(3)
        m, _, co = basemodel(A, order=2, n=n, source=src, brk=b) if src else basemodel(A, order=2, n=n, brk=b)
        t = inside(b)
        p = point()
        g = S.extrap_all(co, b, 2, t)
        r = A.method(m, 'synth_values', t, *p)
        w = c.where('chaos.BaseModel.synth_values')
        c.returns(r, w, 'synth_values')
        want = S.field(list(g.ravel()), src or 'internal', *p, a, 1, n)
        c.equal(r.value, tuple(want), w, f'field of a {src or "default"} model')
        if src is None:
            C = Chaos(A, order=2, n=n, nstat=n + 1, brk=b)
            for name, g, args in (('tdep', S.extrap_all(C.parts['coeffs_tdep'], b, 2, t), (t,)),
                                  ('static', C.parts['coeffs_static'].get()[0, 0], ())):
                r = C.call(f'synth_values_{name}', *args, *p)
                w = c.where(f'chaos.CHAOS.synth_values_{name}')
                c.returns(r, w, name)
                c.equal(r.value, tuple(S.field(list(g.ravel()), 'internal', *p, a, 1, n if name == 'tdep' else n + 1)), w,
                        f'{name} field of the composite model')
            fulllib(A, n=2)
            C = Chaos(A, order=2, n=n, nstat=n, brk=b)
            for s in SRC:
                for name, kw in (('gsm', {}), ('sm', {'rc_e': sym('re'), 'rc_i': sym('ri')})):
                    r = C.call(f'synth_values_{name}', t, *p, source=s, **kw)
                    kc = dict(rc=kw['rc_e' if s == 'external' else 'rc_i']) if kw else {}
                    g = C.call(f'synth_coeffs_{name}', t, source=s, **kc)
                    w = c.where(f'chaos.CHAOS.synth_values_{name}')
                    c.returns(r, w, name)
                    c.equal(r.value, tuple(S.field(list(g.value.v.ravel()), s, *p, a, 1, 2)), w, f'{s} {name} field', n=3)
    for n in (1, 2):
        for src in (None,) + SRC:
            ck.add(f'model/{src}/{n}', models, src, n)


@rule('C15', 'Synthesis, design matrices and spline forms agree',
      'cross-implementation equivalence of value graphs: synthesis, design matrices, B-spline and piecewise forms')
def c15(ck):
    def gauss(c, src, nmin, n, mmax, shape):
        A = c.an()
        w = c.where(MU + 'design_gauss')
        co = A.syms('c', ncoef(nmin, n, mmax))
        if shape == 'poles':
            th = A.arr([T.num(0), sym('th', 'theta'), T.num(180)])
            P = (A.syms('r', 3, 'radius'), th, A.syms('p', 3, 'phi'))
        elif shape == 'bcast':
            P = (sym('r', 'radius'), A.syms('th', (2, 1), 'theta'), A.syms('p', 3, 'phi'))
        else:
            P = (A.syms('r', shape, 'radius'), A.syms('th', shape, 'theta'), A.syms('p', shape, 'phi'))
        kw = dict(source=src) if src else {}
        if nmin > 1:
            kw['nmin'] = nmin
        if mmax is not None:
            kw['mmax'] = mmax
        x = A.call(MU + 'synth_values', co, *P, nmax=n, **kw)
        y = A.call(MU + 'design_gauss', *P, n, **kw)
        c.returns(x, c.where(MU + 'synth_values'), 'synth_values')
        c.returns(y, w, 'design_gauss')
        env = spec(A, 'def mul(G, c):\n    return tuple(np.matmul(g, c) for g in G)\n')
        z = A.run(lambda: A.I.call(env['mul'], [A.I.call(A.get(MU + 'design_gauss'), list(P) + [n], dict(kw)), co], {}))
        c.returns(z, w, 'design matrix times coefficients')
        for i in range(3):
            c.equal(x.value[i], z.value[i], w, f'component {i}: synthesis and design matrix, {src} {nmin}..{n}/{mmax} {shape}', n=4)
    for src in (None,) + SRC:
        for nmin, n, mmax in ((1, 1, None), (1, 3, None), (2, 3, None), (3, 4, None), (1, 3, 1), (2, 3, 2), (1, 2, 0), (3, 4, 1)):
            for shape in (2, 'poles') + (('bcast', (2, 2)) if n < 3 else ()):
                ck.add(f'gauss/{src}/{nmin}-{n}-{mmax}/{shape}', gauss, src, nmin, n, mmax, shape)

    def inferred(c, src, nmin, n, mmax, shape):
        # the maximum degree follows from the number of coefficients
        A = c.an()
        w = c.where(MU + 'synth_values')
        co = A.syms('c', ncoef(nmin, n, mmax) if not shape else (2, ncoef(nmin, n, mmax)))
        P = (sym('r', 'radius'), sym('th', 'theta'), sym('p', 'phi'))
        kw = {**(dict(source=src) if src else {}), **({'nmin': nmin} if nmin > 1 else {}), **({} if mmax is None else {'mmax': mmax})}
        x = A.call(MU + 'synth_values', co, *P, **kw)
        c.returns(x, w, 'synth_values without maximum degree')
        one = [A.arr([q]) for q in P]
        env = spec(A, 'def mul(G, c):\n    return tuple(np.matmul(c, g[0]) for g in G)\n')
        z = A.run(lambda: A.I.call(env['mul'], [A.I.call(A.get(MU + 'design_gauss'), one + [n], dict(kw)), co], {}))
        c.returns(z, w, 'design matrix times coefficients')
        for i in range(3):
            c.equal(x.value[i], z.value[i], w, f'component {i}: degree inferred from {co.shape[-1]} coefficients, {src} {nmin}..{n}/{mmax}', n=4)
    for src in (None, 'external'):
        for nmin, n, mmax in ((1, 1, None), (1, 3, None), (2, 2, None), (2, 3, None), (3, 3, None), (3, 4, None), (4, 4, None), (1, 3, 1), (1, 3, 2),
                              (1, 2, 0), (2, 3, 2), (2, 4, 1), (3, 4, 1), (3, 4, 2), (3, 5, 0)):
            for shape in (False, True):
                ck.add(f'inferred/{src}/{nmin}-{n}-{mmax}/{"many" if shape else "one"}', inferred, src, nmin, n, mmax, shape)
    if ck.tier == 'thorough':
        for src in SRC:
            for nmin, n, mmax in ((1, 6, None), (4, 6, None), (1, 6, 3), (5, 6, 2)):
                ck.add(f'gauss/{src}/{nmin}-{n}-{mmax}', gauss, src, nmin, n, mmax, 'poles')

    def setup(c, order, pieces, n, ns=None):
        A = c.an()
        b = breaks_syms(pieces + 1)
        knots = A.call(MU + 'augment_breaks', A.arr(b), order).value
        nk = pieces + order - 1
        bc = A.syms('bc', (nk, dim(n)))
        t = [inside(b, f'u{i}') for i in range(2)]
        kn = [b[0]] * (order - 1) + b + [b[-1]] * (order - 1)
        w = c.where(MU + 'augment_breaks')
        c.equal(knots, oarr(kn, (len(kn),)), w, 'knots augmented by end points')
        return A, b, A.arr(kn), bc, t

    def forms(c, order, pieces):
        A, b, knots, bc, t = setup(c, order, pieces, 1)
        w = c.where(MU + 'pp_from_bspline')
        env = spec(A, '''
def colloc(cp, x, knots, order, bc, deriv):
    return np.matmul(cp.model_utils.colloc_matrix(x, knots, order, deriv), bc)
def scipy_form(x, knots, order, bc, deriv):
    from scipy.interpolate import BSpline
    return BSpline(knots, bc, order - 1)(x, nu=deriv)
def pp_form(cp, x, knots, order, bc, deriv):
    from scipy.interpolate import PPoly
    c, brk = cp.model_utils.pp_from_bspline(bc, knots, order)
    return PPoly(c, brk)(x, nu=deriv)
''')
        cp = A.I.module('chaosmagpy')
        T_ = A.arr(t)
        for d in range(order + 1):
            x = A.call(env['colloc'], cp, T_, knots, order, bc, d)
            z = A.call(env['pp_form'], cp, T_, knots, order, bc, d)
            c.returns(x, c.where(MU + 'colloc_matrix'), 'collocation matrix')
            c.returns(z, w, 'piecewise form')
            if d < order:
                y = A.call(env['scipy_form'], T_, knots, order, bc, d)
                c.equal(x.value, y.value, c.where(MU + 'colloc_matrix'), f'collocation matrix of derivative {d}, order {order}')
            else:
                y = z
                c.equal(x.value, oarr([T.ZERO] * 6, (2, 3)), c.where(MU + 'colloc_matrix'), f'derivative {d} of order {order}')
            c.equal(z.value, y.value, w, f'piecewise polynomial and B-spline, derivative {d}, order {order}')
        # the same through the model class
        m = A.new('chaos.BaseModel.from_bspline', 'x', knots, bc, order) if False else A.do(
            lambda: A.I.call(A.I.getattr(A.get('chaos.BaseModel'), 'from_bspline'), ['x', knots, bc, order], {}))
        for tt in (T_, t[0]):
            q = A.method(m, 'synth_coeffs', tt)
            wm = c.where('chaos.BaseModel.from_bspline')
            c.returns(q, wm, 'model from B-spline')
            y = A.call(env['scipy_form'], tt, knots, order, bc, 0)
            c.equal(q.value, y.value, wm, f'model made from B-spline coefficients, order {order}')
        at = A.do(lambda: A.I.getattr(m, 'breaks'))
        c.equal(snapof(A, at), oarr(b, (len(b),)), c.where('chaos.BaseModel.from_bspline'), 'break points of the model')
        c.equal(snapof(A, A.do(lambda: A.I.getattr(m, 'order'))), order, c.where('chaos.BaseModel.from_bspline'), 'order of the model')
    for order in (1, 2, 3, 4) + ((5, 6) if ck.tier == 'thorough' else ()):
        for pieces in (1, 2, 3):
            ck.add(f'forms/{order}/{pieces}', forms, order, pieces)

    def tdep(c, order, pieces, n, ns, src, pole=False):
        A, b, knots, bc, t = setup(c, order, pieces, n)
        w = c.where(MU + 'design_matrix')
        P = (A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('p', 2, 'phi'))
        if pole:
            P = (P[0], A.arr([T.num(180 if pole == 'south' else 0), sym('th', 'theta')]), P[2])
        kw = dict(source=src) if src else {}
        if ns is not None:
            kw['n_static'] = ns
        st = A.syms('st', dim(ns) - dim(n)) if ns else None
        full = A.arr([T.ZERO] * dim(n) + elems(st)) if ns else None
        env = spec(A, '''
def design(cp, knots, order, n, t, P, bc, st, kw):
    G = cp.model_utils.design_matrix(knots, order, n, t, *P, **kw)
    x = bc.T.ravel()
    if st is not None:
        x = np.concatenate((x, st))
    return tuple(np.matmul(g, x) for g in G)
def synth(cp, knots, order, t, P, bc, full, source):
    c, brk = cp.model_utils.pp_from_bspline(bc, knots, order)
    a = cp.model_utils.synth_from_pp(brk, order, c, t, *P, source=source)
    if full is None:
        return a
    s = cp.model_utils.synth_values(full, *P, source=source)
    return tuple(x + y for x, y in zip(a, s))
''')
        cp = A.I.module('chaosmagpy')
        x = A.call(env['design'], cp, knots, order, n, A.arr(t), P, bc, st, DDict(kw))
        y = A.call(env['synth'], cp, knots, order, A.arr(t), P, bc, full, src)
        c.returns(x, w, 'time-dependent design matrix')
        c.returns(y, c.where(MU + 'synth_from_pp'), 'synthesis from the piecewise polynomial')
        for i in range(3):
            c.equal(x.value[i], y.value[i], w, f'component {i}: design matrix times coefficients and synthesis, order {order}, '
                                               f'{pieces} pieces, degree {n}, static {ns}, {src}', n=4)
    for order in (1, 2, 3, 4):
        ck.add(f'tdep/{order}/2', tdep, order, 2, 1, None, None)
    for src in SRC:
        ck.add(f'tdep/2/1/n2/{src}', tdep, 2, 1, 2, None, src)
        ck.add(f'tdep/2/2/static/{src}', tdep, 2, 2, 1, 2, src)
        for pole in ('north', 'south'):
            ck.add(f'tdep/2/1/n2/{src}/{pole}', tdep, 2, 1, 2, None, src, pole)
            ck.add(f'tdep/2/1/static/{src}/{pole}', tdep, 2, 1, 1, 2, src, pole)
    ck.add('tdep/3/2/static/None', tdep, 3, 2, 1, 2, None)
    ck.add('tdep/3/3/static3', tdep, 3, 3, 2, 3, None)
    def tdepstatic(c, n, ns):
        # a static part that is not of higher degree than the time-dependent one
        A, b, knots, bc, t = setup(c, 2, 2, n)
        w = c.where(MU + 'design_matrix')
        P = (A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('p', 2, 'phi'))
        f = A.get(MU + 'design_matrix')
        x = A.run(lambda: A.I.call(f, [knots, 2, n, A.arr(t), *P], dict(n_static=ns)))
        if 0 < ns < n:
            c.always_raises(x, ValueError, w, f'static degree {ns} below time-dependent degree {n}')
        else:
            c.returns(x, w, f'static degree {ns}, time-dependent degree {n}')
            y = A.run(lambda: A.I.call(f, [knots, 2, n, A.arr(t), *P], {}))
            for i in range(3):
                c.equal(x.value[i], y.value[i], w, f'component {i}: static degree {ns} adds nothing to time-dependent degree {n}', n=4)
    for n, ns in ((1, 1), (2, 2), (2, 1), (3, 1)):
        ck.add(f'tdep/static degree {ns} of {n}', tdepstatic, n, ns)

    def badbreaks(c):
        A = c.an()
        c.always_raises(A.call(MU + 'augment_breaks', A.arr([[T.num(1), T.num(2)], [T.num(3), T.num(4)]]), 2), ValueError, c.where(MU + 'augment_breaks'),
                        'break points that are no vector')
    ck.add('break points', badbreaks)
    if ck.tier == 'thorough':
        for order in (2, 4):
            for src in SRC:
                ck.add(f'tdep/{order}/3/static/{src}', tdep, order, 3, 2, 4, src)


METHODS = {'constant': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4}


def nterms(method, order):
    """number of Taylor terms, None for not-a-number"""
    if method is None or method is True:
        k = 2
    elif method is False or method == 'off':
        return None
    elif method == 'spline':
        k = order
    elif isinstance(method, str):
        k = METHODS[method]
    else:
        k = int(method)
    return min(k, order)


@rule('C11', 'Extrapolation continues the Taylor expansion of the chosen order',
      'value-graph equality with the Taylor polynomial of the end pieces, per order, end point, method and derivative')
def c11(ck):
    ALL = (None, 'constant', 'linear', 'quadratic', 'cubic', 'spline', True, 1, 2, 3, 4, 5, 7)

    def taylor(c, order, pieces, method, cls='chaos.BaseModel'):
        A = c.an()
        b = breaks_syms(pieces + 1)
        m, _, co = basemodel(A, pieces, order, 1, brk=b, cls=cls) if cls == 'chaos.BaseModel' else \
            (A.new(cls, 'x', A.arr(b), order, A.syms('c', (order, pieces, 3))), 0, None)
        co = A.syms('c', (order, pieces, 3))
        w = c.where('chaos.Base.synth_coeffs')
        K = nterms(method, order)
        kw = {} if method is None else dict(extrapolate=method)
        pts = {'before': before(b), 'after': after(b), 'inside': inside(b), 'start': b[0], 'end': b[-1]}
        for d in (0, 1, 2) if order < 4 else (0, 1, 3):
            if d:
                kw['deriv'] = d
            for lab, t in pts.items():
                r = A.method(m, 'synth_coeffs', t, **kw)
                c.returns(r, w, f'{method} extrapolation at {lab}')
                want = S.extrap_all(co, b, K, t, d)
                c.equal(r.value, want, w, f'order {order} spline, {method} extrapolation, derivative {d}, {lab} of the period', n=4)
            # the end points belong to the period, whatever other times are asked for
            ts = A.arr([pts['after'], pts['inside'], pts['end'], pts['before'], after(b, 'post2'), pts['start'], inside(b, 'u2')])
            r = A.method(m, 'synth_coeffs', ts, **kw)
            c.returns(r, w, f'{method} extrapolation of mixed times')
            c.equal(r.value, S.extrap_all(co, b, K, ts.get(), d), w, f'order {order} spline, {method} extrapolation, derivative {d}, '
                                                                    f'times before, in and after the period', n=4)
    for order in (1, 2, 3, 4) + ((5, 6) if ck.tier == 'thorough' else (5,)):
        for method in ALL:
            for pieces in (1, 3) if ck.tier == 'thorough' or order in (2, 4) else (2,):
                ck.add(f'taylor/{order}/{pieces}/{method}', taylor, order, pieces, method)
    for method in (5, 6, 7, 4):
        ck.add(f'taylor/6/2/{method}', taylor, 6, 2, method)
    for order in (1, 3):
        for method in (None, 'constant', 'quadratic', 'spline', 2):
            ck.add(f'taylor/Base/{order}/{method}', taylor, order, 2, method, 'chaos.Base')

    def inside_same(c, order):
        A = c.an()
        b = breaks_syms(3)
        m, _, co = basemodel(A, 2, order, 1, brk=b)
        w = c.where('chaos.Base.synth_coeffs')
        ts = A.arr([b[0], inside(b), b[1], inside(b, 'u3'), b[-1]])
        mixed = A.arr([before(b), b[0], inside(b), after(b), b[1], inside(b, 'u3'), b[-1]])
        env = spec(A, 'def pick(f, t, e, d):\n    return f(t, deriv=d, extrapolate=e)[np.array([1, 2, 4, 5, 6])]\n')
        for d in (0, 1, 2):
            ref = A.method(m, 'synth_coeffs', ts, deriv=d)
            c.returns(ref, w, f'derivative {d}')
            for e in ('constant', 'linear', 'quadratic', 'cubic', 'spline', 'off', True, False, 0, 1, 2, 3, 9):
                r = A.method(m, 'synth_coeffs', ts, extrapolate=e, deriv=d)
                c.returns(r, w, f'method {e}')
                c.equal(r.value, ref.value, w, f'values inside the period with method {e!r}, derivative {d}')
                r = A.call(env['pick'], A.getattr(m, 'synth_coeffs'), mixed, e, d)
                c.returns(r, w, f'method {e}')
                c.equal(r.value, ref.value, w, f'values inside the period next to outside times with method {e!r}, derivative {d}')
    for order in (1, 2, 3, 4):
        ck.add(f'inside/{order}', inside_same, order)

    def through(c, name):
        # field values and composite models use the same continuation
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C = Chaos(A, order=4, n=1, nstat=1, brk=b)
        p = point()
        for method in (None, 'constant', 'quadratic', 'spline', 'off', 4):
            for lab, t in (('before', before(b)), ('after', after(b)), ('inside', inside(b))):
                kw = {} if method is None else dict(extrapolate=method)
                K = nterms(method, 4)
                if name == 'euler':
                    K = nterms(method, 1)
                    co = A.syms('eb', (1, 2, 3))
                    r = C.call('synth_euler_angles', t, 'swarm_b', **kw)
                    w = c.where('chaos.CHAOS.synth_euler_angles')
                    want = S.extrap_all(co, b, K, t)
                elif name == 'coeffs':
                    r = C.call('synth_coeffs_tdep', t, **kw)
                    w = c.where('chaos.CHAOS.synth_coeffs_tdep')
                    want = S.extrap_all(C.parts['coeffs_tdep'], b, K, t)
                else:
                    r = C.call('synth_values_tdep', t, *p, **kw)
                    w = c.where('chaos.CHAOS.synth_values_tdep')
                    g = S.extrap_all(C.parts['coeffs_tdep'], b, K, t)
                    a = rsurf(A)
                    want = tuple(S.field(list(g.ravel()), 'internal', *p, T.lift(a.item() if isinstance(a, Arr) else a), 1, 1))
                c.returns(r, w, f'{name}, {method} extrapolation')
                c.equal(r.value, want, w, f'{name}, {method} extrapolation, time {lab} of the period', n=4)
        if name == 'values':
            # the total field extrapolates the time-dependent part linearly
            for t in (before(b), after(b)):
                r = C.query(t, *p, source_list='tdep')
                q = C.call('synth_values_tdep', t, *p, extrapolate='linear')
                c.returns(r, c.where('chaos.CHAOS.__call__'), 'total field')
                c.equal(r.value, q.value, c.where('chaos.CHAOS.__call__'), 'total field outside the period')
    for name in ('coeffs', 'values', 'euler'):
        ck.add(f'through/{name}', through, name)


@rule('C17', 'Time derivatives are per year of the coefficient series in days',
      'value-graph equality with the symbolic derivative of the piecewise polynomial, unit conversion included')
def c17(ck):
    def coeffs(c, order, pieces):
        A = c.an()
        b = breaks_syms(pieces + 1)
        m, _, co = basemodel(A, pieces, order, 1, brk=b)
        w = c.where('chaos.Base.synth_coeffs')
        for d in range(order + 2):
            for ts in (inside(b), A.arr([inside(b), inside(b, 'u2')]), A.arr([[inside(b)], [inside(b, 'u2')]])):
                r = A.method(m, 'synth_coeffs', ts, deriv=d)
                c.returns(r, w, f'derivative {d}')
                c.equal(r.value, S.extrap_all(co, b, 2, ts.get() if isinstance(ts, Arr) else ts, d), w,
                        f'derivative {d} of an order {order} spline', n=4)
            tt = A.arr([before(b), after(b)])
            if d < order:
                r = A.method(m, 'synth_coeffs', tt, deriv=d, extrapolate='spline')
                c.returns(r, w, f'derivative {d}')
                c.equal(r.value, S.extrap_all(co, b, order, tt.get(), d), w, f'derivative {d} of the continued spline, order {order}', n=4)
        r = A.method(m, 'synth_coeffs', inside(b))
        r0 = A.method(m, 'synth_coeffs', inside(b), deriv=0)
        c.equal(r.value, r0.value, w, 'derivative 0 is the value')
    for order in (1, 2, 3, 4, 5):
        for pieces in (1, 2) + ((3,) if ck.tier == 'thorough' else ()):
            ck.add(f'coeffs/{order}/{pieces}', coeffs, order, pieces)

    def orders(c, cls, order, rows):
        # a model of lower order than its coefficients has the terms of lowest degree
        A = c.an()
        b = breaks_syms(3)
        co = A.syms('c', (rows, 2, 3))
        args = ['x', A.arr(b), order, co]
        w = c.where(cls)
        r = A.run(lambda: A.I.call(A.get(cls), args, {}))
        c.returns(r, w, f'model of order {order} with {rows} coefficients')
        m = A.new(cls, *args)
        n = min(order or rows, rows)
        e = co.get()[rows - n:]
        c.equal(snapof(A, A.do(lambda: A.I.getattr(m, 'order'))), n, w, f'order of the model with {rows} coefficients made with order {order}')
        for d in range(n + 1):
            for t, k in ((inside(b), 2), (after(b), 2), (before(b), n)):
                r = A.method(m, 'synth_coeffs', t, deriv=d, **({} if k == 2 else {'extrapolate': 'spline'}))
                c.returns(r, w, f'derivative {d}')
                c.equal(r.value, S.extrap_all(e, b, k, t, d), w, f'derivative {d} of the model of order {order} with {rows} coefficients', n=4)
    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for order, rows in ((None, 1), (None, 3), (3, 2), (2, 4), (1, 3), (6, 4)):
            ck.add(f'orders/{cls}/{order} of {rows}', orders, cls, order, rows)

    def values(c, which, order):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        P = point()
        a = rsurf(A)
        a = T.lift(a.item() if isinstance(a, Arr) else a)
        t = inside(b)
        for d in range(order + 2):
            if which == 'model':
                m, _, co = basemodel(A, 2, order, 1, brk=b)
                r = A.method(m, 'synth_values', t, *P, deriv=d)
                w = c.where('chaos.BaseModel.synth_values')
            elif which == 'ext':
                m, _, co = basemodel(A, 2, order, 1, brk=b, source='external')
                r = A.method(m, 'synth_values', t, *P, deriv=d)
                w = c.where('chaos.BaseModel.synth_values')
            elif which == 'chaos':
                C = Chaos(A, order=order, n=1, nstat=1, brk=b)
                co = C.parts['coeffs_tdep']
                r = C.call('synth_values_tdep', t, *P, deriv=d)
                w = c.where('chaos.CHAOS.synth_values_tdep')
            else:
                co = A.syms('c', (order, 2, 3))
                r = A.call(MU + 'synth_from_pp', A.arr(b), order, co, t, *P, deriv=d)
                w = c.where(MU + 'synth_from_pp')
            c.returns(r, w, f'derivative {d}')
            g = S.extrap_all(co, b, 2, t, d)
            c.equal(r.value, tuple(S.field(list(g.ravel()), 'external' if which == 'ext' else 'internal', *P, a, 1, 1)), w,
                    f'field derivative {d}, order {order}', n=4)
    for which in ('model', 'ext', 'chaos', 'pp'):
        for order in (1, 2, 3, 4):
            ck.add(f'values/{which}/{order}', values, which, order)

    def others(c):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        co = A.syms('eu', (3, 2, 3))
        w = c.where('chaos.CHAOS.synth_euler_angles')
        m = A.new('chaos.Base', 'e', A.arr(b), 3, co, DDict({'Euler_prerotation': None}))
        C = Chaos(A, order=3, n=1, nstat=1, brk=b)
        A.do(lambda: A.I.setitem(A.I.getattr(C.m, 'model_euler'), 'swarm_b', m))
        t = inside(b)
        for d in (0, 1, 2, 3):
            r = C.call('synth_euler_angles', t, 'swarm_b', deriv=d)
            c.returns(r, w, 'Euler angles')
            c.equal(r.value, S.extrap_all(co, b, 2, t, d), w, f'derivative {d} of Euler angles')
            r = C.call('synth_coeffs_tdep', t, deriv=d)
            w2 = c.where('chaos.CHAOS.synth_coeffs_tdep')
            c.returns(r, w2, 'coefficients')
            c.equal(r.value, S.extrap_all(C.parts['coeffs_tdep'], b, 2, t, d), w2, f'derivative {d} of coefficients')
            bm, _, bco = basemodel(A, 2, 3, 2, brk=b, tag='ps')
            r = A.method(bm, 'power_spectrum', t, T.num(6000), deriv=d)
            w3 = c.where('chaos.BaseModel.power_spectrum')
            c.returns(r, w3, 'spectrum')
            g = S.extrap_all(bco, b, 2, t, d)
            want = A.call(MU + 'power_spectrum', A.arr(list(g.ravel())), T.num(6000))
            c.equal(r.value, want.value, w3, f'spectrum of derivative {d}')
            r = C.call('synth_coeffs_static', deriv=d) if d == 0 else None
    ck.add('other evaluations', others)
