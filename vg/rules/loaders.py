"""text-model loaders against an independent B-spline evaluation of the file contents"""
from .common import *
from .files import mjd

PHs = lambda x: V.placeholder(x, '')      # noqa


def deboor(k, order, knots, t, last):
    """B-spline k of that order on simple knots; closed at the end of the period"""
    if order == 1:
        a = T.cmp('le', knots[k], t)
        b = T.cmp('le' if last == k + 1 else 'lt', t, knots[k + 1])
        return T.ite(T.band(a, b), T.ONE, T.ZERO)
    l = T.mul(T.div(T.sub(t, knots[k]), T.sub(knots[k + order - 1], knots[k])), deboor(k, order - 1, knots, t, last))
    r = T.mul(T.div(T.sub(knots[k + order], t), T.sub(knots[k + order], knots[k + 1])), deboor(k + 1, order - 1, knots, t, last))
    return T.add(l, r)


def lines(nums, per):
    """the numbers as text, a few per line (pattern repeats)"""
    out, i, j = [], 0, 0
    while i < len(nums):
        n = per[j % len(per)]
        out.append('  ' + '  '.join(nums[i:i + n]))
        i, j = i + n, j + 1
    return '\n'.join(out) + '\n'


@rule('C32', 'Text-model loaders build the spline the file describes',
      'value-graph equality of the loaded model with a Cox-de Boor evaluation of the listed knots and coefficients')
def c32(ck):
    PATHS = {'/data/COV-OBS.x2-int': ('COV-OBS', 'COV-OBS.x2-int'), '/data/gufm1.txt': ('gufm1', 'gufm1.txt'), 'CALS7K.2': ('CALS7K', 'CALS7K.2')}

    def years(nk, kind, tag='y'):
        if kind == 'sym':
            y = [T.add(T.num(1900), T.scale(sym(f'{tag}0'), 30))]
            for i in range(1, nk):
                y.append(T.add(y[-1], T.scale(sym(f'{tag}g{i}', 'gap'), 4)))
            return y
        step = {'plain': 2.5, 'old': 137.25}[kind]
        return [T.num(-5000 + i * step if kind == 'old' else 1840 + i * step + (i % 3) * 0.25) for i in range(nk)]

    def text(kind, nmax, order, ys, co, per):
        yr = [PHs(y) if not T.is_num(y) else repr(float(y.args[0])) for y in ys]
        data = [PHs(x) for row in co for x in row]
        if kind == 'CovObs':
            return f'COV-OBS model\n{nmax} {len(ys)} {order} ' + ' '.join(yr) + '\n' + lines(data, per)
        if kind == 'gufm1':
            return f'gufm1 model\n {nmax} {len(ys) - 4}\n' + lines(yr, per) + lines(data, per)
        return f'{yr[0]} {yr[-1]} 4 0\n{nmax} 0 {len(ys) - 4} ' + lines(yr + data, per)

    def load(c, kind, nmax, order, nk, yk, per, name):
        A = c.an()
        fn = {'CovObs': 'load_CovObs_txtfile', 'gufm1': 'load_gufm1_txtfile', 'CALS7K': 'load_CALS7K_txtfile'}[kind]
        w = c.where(CH + fn)
        ys = years(nk, yk)
        ns = nk - order
        co = A.syms('k', (ns, dim(nmax)))
        cs = co.get()
        p = {'CovObs': '/data/COV-OBS.x2-int', 'gufm1': '/data/gufm1.txt', 'CALS7K': '/data/sub.dir/CALS7K.2'}[kind]
        A.put(p, text(kind, nmax, order, ys, cs, per))
        kw = {} if name is None else dict(name=name)
        m = must(c, A, CH + fn, p, where=w, what=fn, **kw)
        brk = [T.mul(T.sub(y, T.num(2000)), T.num(Fraction('365.25'))) for y in ys]
        at_ = lambda n: A.run(lambda: A.I.getattr(m, n)).value      # noqa
        c.equal(at_('breaks'), snapof(A, A.arr(brk)), w, 'break points in modified Julian dates')
        c.equal(at_('order'), T.num(order) if False else order, w, 'order')
        c.equal(at_('nmax'), nmax, w, 'degree')
        c.equal(at_('source'), 'internal', w, 'source')
        if name is not None:
            c.equal(at_('name'), name, w, 'name')
        ts = [inside(brk, 'u'), brk[0], brk[-1], brk[1], T.sub(brk[-1], T.scale(sym('v', 'pos'), 30))]
        want = np.empty((len(ts), dim(nmax)), dtype=object)
        for i, t in enumerate(ts):
            bs = [deboor(k, order, brk, t, nk - 1) for k in range(ns)]
            for d in range(dim(nmax)):
                want[i, d] = T.add(*[T.mul(cs[k, d], bs[k]) for k in range(ns)]) if ns else T.ZERO
        r = A.method(m, 'synth_coeffs', A.arr(ts))
        c.returns(r, w, 'coefficients')
        c.equal(r.value, SA(want, F, False), w, 'coefficients at times inside the period', n=5, tol=1e-6)
    for kind in ('CovObs', 'gufm1', 'CALS7K'):
        for nmax, order, nk, yk, per, name in (
                (1, 4, 6, 'plain', (3,), None), (2, 4, 6, 'sym', (5,), None), (1, 4, 5, 'plain', (1,), 'own'), (1, 4, 8, 'old', (4, 7), None),
                (1, 2, 4, 'plain', (3,), None), (2, 3, 5, 'plain', (8,), 'x'), (1, 3, 5, 'sym', (3,), None), (1, 5, 7, 'plain', (2,), None),
                (3, 4, 6, 'plain', (15,), None)):
            if kind != 'CovObs' and order != 4:
                continue
            ck.add(f'{kind}/degree {nmax}/order {order}/{nk} knots/{yk}/{per}/{name}', load, kind, nmax, order, nk, yk, per, name)

    def dnumbers(c):
        """Fortran exponents"""
        A = c.an()
        w = c.where(CH + 'load_CALS7K_txtfile')
        A.put('/data/CALS7K.2', ''' -5000.0 1950.0 4 0
1 0 2 -5.0D+03 -0.4D4 -3000. -2.0D3 0.1D4 1.95D+3
 1.5D0 2.5D-01 -3.5D2 4.5D+00 5.5 -6.5D1
''')
        m = must(c, A, CH + 'load_CALS7K_txtfile', '/data/CALS7K.2', where=w, what='load_CALS7K_txtfile')
        ys = [-5000, -4000, -3000, -2000, 1000, 1950]
        brk = [T.num((y - 2000) * Fraction('365.25')) for y in ys]
        cs = [[1.5, .25, -350.], [4.5, 5.5, -65.]]
        t = inside(brk, 'u')
        b = [deboor(k, 4, brk, t, 5) for k in range(2)]
        want = [T.add(T.mul(T.num(cs[0][d]), b[0]), T.mul(T.num(cs[1][d]), b[1])) for d in range(3)]
        r = A.method(m, 'synth_coeffs', t)
        c.returns(r, w, 'coefficients')
        c.equal(r.value, SA(np.array(want, dtype=object), F, False), w, 'coefficients of a file with Fortran exponents', n=6)
    ck.add('CALS7K/Fortran exponents', dnumbers)

    def igrf(c, nmax, ys, o, name):
        A = c.an()
        w = c.where(CH + 'load_IGRF_txtfile')
        nt = len(ys)
        g = A.syms('g', (dim(nmax), nt)).get()
        sv = A.syms('sv', dim(nmax)).get()
        ix = [(('g', n, 0),) + tuple((x, n, m) for m in range(1, n + 1) for x in 'gh') for n in range(1, nmax + 1)]
        ix = [y for x in ix for y in x]
        sep = o.get('sep', ' ')
        out = list(o.get('comments', ('# 13th Generation IGRF',)))
        if o.get('cs', True):
            out.append(sep.join(['c/s', 'deg', 'ord'] + ['IGRF'] * nt + ['SV']))
        out.append(sep.join(['g/h', 'n', 'm'] + [f'{y:.1f}' for y in ys] + [f'{ys[-1]:.0f}-{(ys[-1] + 5) % 100:.0f}']))
        for i, (x, n, m) in enumerate(ix):
            out.append(sep.join([x, str(n), str(m)] + [PHs(v) for v in g[i]] + [PHs(sv[i])]))
            if o.get('inner') and i == 1:
                out.append('# comment')
        A.put('/data/igrf13coeffs.txt', '\n'.join(out) + '\n')
        m = must(c, A, CH + 'load_IGRF_txtfile', '/data/igrf13coeffs.txt', where=w, what='load_IGRF_txtfile', **({} if name is None else dict(name=name)))
        yy = list(ys) + [ys[-1] + 5]
        brk = [T.num(mjd(y, True)) for y in yy]
        at_ = lambda n: A.run(lambda: A.I.getattr(m, n)).value      # noqa
        c.equal(at_('breaks'), snapof(A, A.arr(brk)), w, 'break points in modified Julian dates')
        c.equal(at_('nmax'), nmax, w, 'degree')
        c.equal(at_('source'), 'internal', w, 'source')
        if name is not None:
            c.equal(at_('name'), name, w, 'name')
        val_ = [[*g[i], T.add(g[i, -1], T.mul(T.num(5), sv[i]))] for i in range(dim(nmax))]
        ts = [inside(brk, 'u'), brk[0], brk[-1], brk[1], T.sub(brk[-1], T.scale(sym('v', 'pos'), 500)), T.add(brk[0], T.scale(sym('w', 'pos'), 500))]
        want = np.empty((len(ts), dim(nmax)), dtype=object)
        for i, t in enumerate(ts):
            for d in range(dim(nmax)):
                f = [T.add(val_[d][k], T.mul(T.sub(val_[d][k + 1], val_[d][k]), T.div(T.sub(t, brk[k]), T.sub(brk[k + 1], brk[k]))))
                     for k in range(nt)]
                v = f[-1]
                for k in range(nt - 2, -1, -1):
                    v = T.ite(T.cmp('lt', t, brk[k + 1]), f[k], v)
                want[i, d] = v
        r = A.method(m, 'synth_coeffs', A.arr(ts))
        c.returns(r, w, 'coefficients')
        c.equal(r.value, SA(want, F, False), w, 'coefficients at times inside the period', n=6)
        c.equal(A.run(lambda: A.I.getattr(m, 'order')).value, 2, w, 'order')
    for n, (nmax, ys, o, name) in enumerate((
            (1, (1900., 1905., 1910.), {}, None), (2, (2010., 2015.), {}, None), (1, (1995., 2000., 2005., 2010.), dict(cs=False), 'own'),
            (2, (1980., 1985., 1990.), dict(comments=('# a', '  # b', '#c'), inner=True), None), (3, (2000., 2005.), dict(sep='\t'), None),
            (1, (1900., 1905.5, 1912.5), dict(comments=()), None), (1, (1945., 1950., 1955., 1960., 1965.), dict(sep='    '), None))):
        ck.add(f'IGRF/{n}/degree {nmax}/{len(ys)} epochs', igrf, nmax, ys, o, name)

    def names(c, fn, path, want):
        A = c.an()
        from .textfiles import IGRF, COVOBS, GUFM, CALS
        w = c.where(CH + fn)
        A.put(path, {'load_IGRF_txtfile': IGRF, 'load_CovObs_txtfile': COVOBS, 'load_gufm1_txtfile': GUFM, 'load_CALS7K_txtfile': CALS}[fn])
        m = must(c, A, CH + fn, path, where=w, what=fn)
        c.equal(A.run(lambda: A.I.getattr(m, 'name')).value, want, w, f'name of the model of {path}')
        m = must(c, A, CH + fn, path, 'Given', where=w, what=fn)
        c.equal(A.run(lambda: A.I.getattr(m, 'name')).value, 'Given', w, 'given name')
    for fn, path, want in (('load_IGRF_txtfile', '/data/v1.2/igrf13coeffs.txt', 'igrf13coeffs'), ('load_CovObs_txtfile', 'COV-OBS.x2-int.txt', 'COV-OBS.x2-int'),
                           ('load_gufm1_txtfile', '/d/gufm1.dat', 'gufm1'), ('load_CALS7K_txtfile', '/d/CALS7K.2', 'CALS7K.2')):
        ck.add(f'{fn}/name', names, fn, path, want)
