"""leaving out an optional argument is the same as giving its documented default"""
from .catalog import *
from .catalog import Fix
from .textfiles import IGRF, COVOBS, GUFM, CALS, matcontents
from .wholenumbers import plain

SATELLITES = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c', 'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


def shc(order, step, nmin, nmax, years):
    """a coefficient file"""
    rows = [(n, m) for n in range(nmin, nmax + 1) for k in range(n + 1) for m in ((k, -k) if k else (0,))]
    return '# c\n%d %d %d %d %d\n %s\n' % (nmin, nmax, len(years), order, step, ' '.join(map(str, years))) + '\n'.join(
        f'{n} {m} ' + ' '.join(str(1.5 * i + j * j + 0.25) for j in range(len(years))) for i, (n, m) in enumerate(rows)) + '\n'


def compare(c, w, r0, r1, what, files=(), tol=1e-7, pair=False, words=('the documented default is refused', 'only when left out')):
    if r1.ret is None:
        o = r1.raises[0]
        if pair and r0.ret is None:
            return
        c.fail(f'{what}: {words[0]} ({o.exc_name} {o.msg!s:.60})', o.loc or w)
    if r0.ret is None:
        o = r0.raises[0]
        c.fail(f'{what}: raises {o.exc_name} ({o.msg!s:.60}) {words[1]}', o.loc or w)
    c.cond_equal(r0.raise_cond(), r1.raise_cond(), w, f'{what}: raising')
    a, b = r0.value, r1.value
    if isinstance(a, SI) and isinstance(b, SI):
        a, b = SI(a.cls, dict(a.attrs), a.data), SI(b.cls, dict(b.attrs), b.data)
        for x in (a, b):
            x.attrs.pop('timestamp', None)
    c.equal(a, b, w, what, tol=tol)
    f0, f1 = r0.ret.fs, r1.ret.fs
    c.ok(set(f0) == set(f1), w, f'{what}: writes {sorted(set(f0) ^ set(f1))}')
    for p in files:
        c.ok(p in f0, w, f'{what}: {p} is not written')
        c.equal(plain(f0[p]), plain(f1[p]), w, f'{what}: content of {p}')
    drawn = lambda r: tuple((x['path'], x['s']) for x in r.evs('opaque_call') if x['path'].split('.')[-1] in (  # noqa
        'pcolormesh', 'plot', 'semilogy', 'contour', 'set_title', 'set_ylabel', 'set_label', 'subplots'))
    if drawn(r1):
        c.equal(drawn(r0), drawn(r1), w, f'{what}: what is drawn')


@rule('C99', 'Optional arguments take their documented defaults',
      'equivalence of two interpreted calls: every optional argument left out and given its documented value, on inputs for which '
      'another value matters; the parameters of a freshly imported package against their documentation')
def c99(ck):
    cells = {}

    def session(c):
        if cells.get('key') != id(c.check):
            A = An(ROOT)
            c.check.analysers.append(A)
            cells.update(key=id(c.check), A=A, F=Fix(A))
        A = c.A = cells['A']
        A.push()
        c.mine.append(A)
        return A, cells['F']

    def one(c, mk, where, param, value, files, other):
        A, F = session(c)
        w = c.where(where)
        f, args, kw = mk(A, F)
        call = lambda more: A.run(lambda: A.I.call(f, list(args), {**kw, **more}))      # noqa
        v = value(A, F) if callable(value) else value
        more = {q: x(A, F) if callable(x) else x for q, x in other.items()}
        compare(c, w, call(more), call({param: v, **more}), f'{where.split(".", 1)[1]}: leaving out {param} and giving its documented default'
                + ''.join(f', {q} = {x!r:.40}' for q, x in more.items()), files, 1e-18 if where.endswith('mjd2000') else 1e-7, bool(other))

    def add(where_, mk_, _files=(), _tag='', _alt=None, **defaults):
        for p, v in defaults.items():
            ck.add(f'{where_.split(".", 1)[1]}/{p}{_tag}', one, mk_, where_, p, v, _files, {})
            for q, xs in (_alt or {}).items():
                for i, x in enumerate(xs):
                    if q != p:
                        ck.add(f'{where_.split(".", 1)[1]}/{p}{_tag}/other {q} {i}', one, mk_, where_, p, v, _files, {q: x})

    def fn(name_, args, kw=None, **o):
        def mk(A, F):
            return A.get(name_), args(A, F), (kw(A, F) if callable(kw) else dict(kw or {}))
        add(name_, mk, **o)

    def meth_(cls_, name_, obj, args, kw=None, **o):
        def mk(A, F):
            m = obj(F)
            return A.I.getattr(m, name_) if name_ != '__call__' else m, args(A, F), (kw(A, F) if callable(kw) else dict(kw or {}))
        add(f'chaos.{cls_}.{name_}', mk, **o)

    dipole = lambda A, F: cfgval(A, 'params.dipole')         # noqa
    P = lambda A, F: [*F.pts(2)]     # noqa
    knots = lambda F, k: F.A.arr([F.brk[0]] * k + F.brk + [F.brk[-1]] * k)      # noqa
    day = lambda A, F: [F.s('day', 2, 'day')]        # noqa

    EX = dict(nmax=[1], deriv=[1, 2], extrapolate=['constant', 'spline', 'off'])

    # ---- model_utils
    fn(MU + 'synth_values', lambda A, F: [F.s('c', 8), *F.pts(2)], nmax=2, nmin=1, mmax=2, source='internal', grid=False,
       _alt=dict(nmax=[1], mmax=[1], source=['external'], grid=[True]))
    fn(MU + 'synth_values', lambda A, F: [F.s('c', 5), *F.pts(2)], dict(nmin=2), nmax=2, mmax=2, source='internal', grid=False, _tag=' from degree 2')
    fn(MU + 'synth_values', lambda A, F: [F.s('c', 8), *F.pts(2)], dict(nmax=1), mmax=1, _tag=' of degree 1')
    fn(MU + 'synth_values', lambda A, F: [F.s('c', (2, 3)), *F.pts(2)], nmax=1, _tag=' of a series')
    fn(MU + 'design_gauss', lambda A, F: [*F.pts(2), 2], nmin=1, mmax=2, source='internal',
       _alt=dict(nmin=[2], mmax=[0, 1], source=['external']))
    fn(MU + 'design_matrix', lambda A, F: [knots(F, 1), 2, 1, F.ins(2), *F.pts(2)], source='internal', _alt=dict(n_static=[2]))
    fn(MU + 'colloc_matrix', lambda A, F: [F.ins(2), knots(F, 2), 3], deriv=0)
    fn(MU + 'synth_from_pp', lambda A, F: [A.arr(F.brk), 2, F.s('c', (2, 2, 8)), F.ins(2), *F.pts(2)], nmax=2, source='internal', deriv=0,
       grid=False, _alt=dict(nmax=[1], source=['external'], deriv=[1], grid=[True]))
    rs = lambda A, F: cfgval(A, 'params.r_surf')      # noqa
    fn(MU + 'power_spectrum', lambda A, F: [F.s('c', (3, 8))], radius=rs, nmax=2, source='internal', axis=-1,
       _alt=dict(radius=[lambda A, F: F.r], nmax=[1], source=['external', 'toroidal']))
    fn(MU + 'power_spectrum', lambda A, F: [F.s('c', (3, 3))], axis=-1, _tag=' of a square array')
    for src in ('internal', 'external'):
        fn(MU + 'power_spectrum', lambda A, F: [F.s('c', (2, 8))], dict(source=src), radius=rs, _tag=f' of an {src} field')

    # ---- coordinate_utils
    fn(CO + 'igrf_dipole', lambda A, F: [], epoch='2015')
    fn(CO + 'dipole_to_vec', lambda A, F: [], dipole=dipole)
    for k in ('gsm', 'sm'):
        fn(CO + 'basevectors_' + k, day, dipole=dipole)
    fn(CO + 'basevectors_mag', lambda A, F: [], dipole=dipole)
    fn(CO + 'synth_rotate_gauss', lambda A, F: [F.s('day', 2, 'day'), F.s('f', (2, 3, 3), 'nonneg'), F.s('z', (2, 3, 3), 'complex')], scaled=False)
    two = lambda A, F: [F.s('th', 2, 'theta'), F.s('ph', 2, 'phi')]       # noqa
    fn(CO + 'geo_to_base', lambda A, F: two(A, F) + F.bases(), inverse=False)
    fn(CO + 'matrix_geo_to_base', lambda A, F: two(A, F) + F.bases(), inverse=False)
    for k in ('gsm', 'sm', 'mag'):
        tk = dict(reference=k)
        fn(CO + 'transform_points', two, lambda A, F, k=k: dict(reference=k, **({} if k == 'mag' else dict(time=F.s('day', 2, 'day')))),
           inverse=False, dipole=dipole, _tag=f' to {k}', _alt=dict(inverse=[True]))
        fn(CO + 'transform_vectors', lambda A, F: two(A, F) + [F.s('Bt', 2), F.s('Bp', 2)],
           lambda A, F, k=k: dict(reference=k, **({} if k == 'mag' else dict(time=F.s('day', 2, 'day')))), inverse=False, dipole=dipole,
           _tag=f' to {k}', _alt=dict(inverse=[True]))
    fn(CO + 'sh_analysis', lambda A, F: [lambda_(A), 1], kmax=1)
    fn(CO + 'sh_analysis', lambda A, F: [lambda_(A), 2], kmax=2, _tag=' of degree 2')

    def lambda_(A):
        return A.client('import numpy as np\ndef f(theta, phi):\n    return np.cos(np.radians(theta))*np.sin(np.radians(2*phi)) + theta**3\n')['f']

    # ---- rotate_gauss_fft: rotation matrices stand for themselves (the components of the base vectors), samples are few
    def fft(c, param, value, kw):
        A = c.an()
        w = c.where(CO + 'rotate_gauss_fft')
        used = []

        def rot(I, a, k):
            xs = [N_(A, x) for x in list(a)[2:] + [k[q] for q in ('base_1', 'base_2', 'base_3') if q in k]]
            nt = xs[0].shape[0]
            e = np.empty((nt, 3, 3), dtype=object)
            for t in range(nt):
                for i in range(3):
                    for j in range(3):
                        e[t, i, j] = xs[i][t, j]
            used.append(nt)
            return A.arr(e) if nt < 100 else new_arr(e, F)
        A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'] = rot
        A.I.overrides['chaosmagpy.coordinate_utils.q_response'] = lambda I, a, k: A.syms('q', (1, 3), 'complex')
        run = lambda more: A.call(CO + 'rotate_gauss_fft', 1, 1, **{**kw, **more})       # noqa
        r0, r1 = run({}), run({param: value})
        if not used:
            raise Undecided('rotation matrices do not come from rotate_gauss')
        compare(c, w, r0, r1, f'rotate_gauss_fft: leaving out {param} and giving its documented default')
        if param == 'save_to':
            c.ok(not [e for e in r0.evs('open') if e.get('mode', 'r')[0] in 'wax'], w, 'a file is written although save_to is not given')
    for param, value, kw in (('step', 1.0, dict(N=4, filter=2)), ('filter', 3, dict(N=4)), ('filter', 3, dict(N=5)),
                             ('save_to', False, dict(N=4, filter=2)), ('reference', 'gsm', dict(N=4, filter=2)),
                             ('scaled', False, dict(N=4, filter=2)), ('start_date', 0.0, dict(N=4, filter=2))):
        ck.add(f'rotate_gauss_fft/{param}/{kw}', fft, param, value, kw)

    def samples(c):
        """the default number of samples: the times for which base vectors are asked for"""
        A = c.an()
        w = c.where(CO + 'rotate_gauss_fft')
        seen = []

        def base(I, a, k):
            t = A.I.resolve(a[0] if a else k['time'])
            seen.append(t)
            I.throw(KeyError, 'stop')
        A.I.overrides['chaosmagpy.coordinate_utils.basevectors_gsm'] = base
        A.call(CO + 'rotate_gauss_fft', 1, 1)
        if not seen:
            raise Undecided('base vectors do not come from basevectors_gsm')
        t = seen[0]
        n = int(8 * 365.25 * 24)
        c.ok(isinstance(t, Arr) and t.shape == (n,), w, f'{t.shape} samples instead of the documented {n}')
        e = t.get()
        c.equal(tuple(e[i] for i in (0, 1, n - 1)), tuple(T.num(Fraction(i, 24)) for i in (0, 1, n - 1)), w, 'times of the samples')
    ck.add('rotate_gauss_fft/N', samples)

    # ---- data_utils
    whole = lambda *x: lambda A, F: [A.arr([v], INT) for v in x]       # noqa
    zero = dict(hour=0, minute=0, second=0, microsecond=0, nanosecond=0)
    fn(DU + 'mjd2000', whole(2000), month=1, day=1, **zero)
    fn(DU + 'mjd2000', whole(2004, 3), day=1, **zero, _tag=' with a month')
    fn(DU + 'mjd2000', whole(2004, 3, 5, 7, 11, 13, 17), nanosecond=0, _tag=' with a time')
    for f, k in (('dyear_to_mjd', 'dyear'), ('mjd_to_dyear', 'mjd')):
        fn(DU + f, lambda A, F, k=k: [F.s('x', 2, k)], leap_year=True)
    fn(DU + 'gauss_units', lambda A, F: [], deriv=0)

    def shcfile(text):
        def args(A, F):
            A.put('/data/a.b.shc', text)
            return ['/data/a.b.shc']
        return args
    text = shc(2, 1, 1, 1, [2001.25, 2003.5, 2004.75])
    fn(DU + 'load_shcfile', shcfile(text), leap_year=True, comment='#', _alt=dict(leap_year=[False], comment=[('#', 'c')]))
    out = ['/out/a.shc']
    sv = lambda A, F: [F.s('mj', 3, 'mjd'), F.s('c', (3, 8))]      # noqa
    fn(DU + 'save_shcfile', sv, dict(filepath=out[0]), order=1, nmin=1, nmax=2, leap_year=True, header='', _files=out,
       _alt=dict(order=[2, 3], nmin=[2], nmax=[1], leap_year=[False], header=['# x\n']))
    fn(DU + 'save_shcfile', sv, dict(filepath=out[0], nmin=2), nmax=2, _files=out, _tag=' from degree 2')

    def cwd(c):
        A, Fx = session(c)
        w = c.where(DU + 'save_shcfile')
        r = A.run(lambda: A.I.call(A.get(DU + 'save_shcfile'), sv(A, Fx), {}))
        c.returns(r, w, 'save_shcfile without a file path')
        new = [p for p in r.ret.fs if p not in A.I.fs.items]
        c.ok([os_path(p) for p in new] == ['model.shc'], w, f'save_shcfile without a file path writes {new}')
    ck.add('save_shcfile/filepath', cwd)

    def os_path(p):
        import os
        c = '/cwd'
        return os.path.relpath(p, c) if p.startswith(c + '/') else os.path.normpath(p)

    def dates(c):
        A, Fx = session(c)
        w = c.where(DU + 'load_RC_datfile')
        p = rcfile(A, 'dat', '/data/RC.dat', tag='f')[0]
        f = A.client('import numpy as np\nimport chaosmagpy as cp\ndef f(p, **k):\n    d = cp.data_utils.load_RC_datfile(p, **k)\n'
                     '    return [np.asarray(d[c]) for c in ("time", "RC", "RC_e", "RC_i")]\n')['f']
        run = lambda **kw: A.run(lambda: A.I.call(f, [p], kw))     # noqa
        compare(c, w, run(), run(parse_dates=False), 'load_RC_datfile: leaving out parse_dates and giving its documented default')
    ck.add('load_RC_datfile/parse_dates', dates)

    # ---- spline models
    for nm, get in (('Base', lambda F: F.A.new('chaos.Base', 'b', F.A.arr(F.brk), 3, F.s('bc', (3, 2, 4)))),):
        meth_('Base', 'synth_coeffs', get, lambda A, F: [F.ts(2)], dim=4, deriv=0, extrapolate='linear',
              _alt=dict(dim=[2], deriv=[1, 2, 3], extrapolate=['constant', 'quadratic', 'spline', 'off']))
        meth_('Base', 'save_matfile', get, lambda A, F: ['/out/p.mat'], path='/pp', _files=['/out/p.mat'])
    meth_('Base', 'synth_coeffs', lambda F: F.A.new('chaos.Base', 'b', F.A.arr(F.brk), 4, F.s('bq', (4, 2, 2))), lambda A, F: [F.ts(2)],
          extrapolate='linear', deriv=0, _tag=' of a cubic spline')
    base = lambda F: F.base      # noqa
    cub = lambda F: basemodel(F.A, order=4, n=1, brk=F.brk, tag='cub')[0]       # noqa
    meth_('BaseModel', 'synth_coeffs', base, lambda A, F: [F.ts(2)], nmax=2, deriv=0, extrapolate='linear', _alt=EX)
    meth_('BaseModel', 'synth_coeffs', cub, lambda A, F: [F.ts(2)], nmax=1, extrapolate='linear', _tag=' of a cubic spline')
    meth_('BaseModel', 'synth_values', base, lambda A, F: [F.ts(2), *F.pts(2)], nmax=2, deriv=0, grid=False, extrapolate='linear',
          _alt=dict(EX, grid=[True]))
    meth_('BaseModel', 'power_spectrum', base, lambda A, F: [F.t], radius=rs, nmax=2, deriv=0, _alt=dict(EX, radius=[lambda A, F: F.r]))
    meth_('BaseModel', 'power_spectrum', base, lambda A, F: [F.t], dict(deriv=1), radius=rs, nmax=2, _tag=' of the secular variation')

    def spl(A, F):
        return ['x', knots(F, 2), F.s('bc', (4, 3)), 3]
    meth_('BaseModel', 'from_bspline', lambda F: F.A.get('chaos.BaseModel'), spl, source='internal')
    meth_('BaseModel', 'to_shc', base, lambda A, F: ['/out/a.shc'], leap_year=False, nmin=1, nmax=2, _files=out,
          _alt=dict(leap_year=[True], nmin=[2], nmax=[1], header=['# x\n']))
    meth_('BaseModel', 'to_shc', base, lambda A, F: ['/out/a.shc'], dict(nmin=2), nmax=2, _files=out, _tag=' from degree 2')
    meth_('BaseModel', 'from_shc', lambda F: F.A.get('chaos.BaseModel'), shcfile(text), name='a.b', leap_year=False, source='internal',
          _alt=dict(name=['q'], leap_year=[True], source=['external']))

    # ---- composite model
    C = lambda F: F.C.m      # noqa
    TT = lambda A, F: [F.ins(2), *F.pts(2)]       # noqa
    rc = lambda A, F: dict(rc_e=F.s('re', 2), rc_i=F.s('ri', 2))        # noqa
    meth_('CHAOS', '__call__', C, TT, rc, source_list=lambda A, F: LList(['tdep', 'static', 'gsm', 'sm']), verbose=False,
          _alt=dict(source_list=['internal', 'external'], verbose=[True], nmax_static=[1]))
    meth_('CHAOS', 'synth_coeffs_tdep', C, lambda A, F: [F.ts(2)], nmax=1, deriv=0, extrapolate='linear', _alt=EX)
    meth_('CHAOS', 'synth_values_tdep', C, lambda A, F: [F.ts(2), *F.pts(2)], nmax=1, deriv=0, grid=False, extrapolate='linear',
          _alt=dict(EX, grid=[True]))
    meth_('CHAOS', 'synth_coeffs_static', C, lambda A, F: [], nmax=2)
    meth_('CHAOS', 'synth_values_static', C, lambda A, F: [*F.pts(2)], nmax=2)
    meth_('CHAOS', 'synth_coeffs_gsm', C, lambda A, F: [F.ins(2)], nmax=2, source='external', _alt=dict(nmax=[1], source=['internal']))
    meth_('CHAOS', 'synth_values_gsm', C, TT, nmax=2, source='all', grid=False,
          _alt=dict(nmax=[1], source=['external', 'internal'], grid=[True]))
    meth_('CHAOS', 'synth_coeffs_sm', C, lambda A, F: [F.ins(2)], lambda A, F: dict(rc=F.s('re', 2)), nmax=2, source='external',
          _alt=dict(nmax=[1], source=['internal']))
    meth_('CHAOS', 'synth_coeffs_sm', C, lambda A, F: [F.ins(2)], source='external', _tag=' with the RC file')
    meth_('CHAOS', 'synth_values_sm', C, TT, rc, nmax=2, source='all', grid=False,
          _alt=dict(nmax=[1], source=['external', 'internal'], grid=[True]))
    meth_('CHAOS', 'synth_euler_angles', C, lambda A, F: [F.ts(2), 'swarm_b'], dim=3, deriv=0, extrapolate='linear',
          _alt=dict(dim=[2], deriv=[1], extrapolate=['constant', 'off']))
    meth_('CHAOS', 'save_shcfile', C, lambda A, F: ['/out/a.shc'], model='tdep', leap_year=False, _files=out, _alt=dict(leap_year=[True], model=['static']))
    meth_('CHAOS', 'save_shcfile', C, lambda A, F: ['/out/a.shc'], dict(model='static'), leap_year=False, _files=out, _tag=' of the static field')
    meth_('CHAOS', 'plot_maps_tdep', C, lambda A, F: [F.t, sym('rm', 'radius')], nmax=1, deriv=0, _alt=dict(deriv=[1]))
    meth_('CHAOS', 'plot_maps_static', C, lambda A, F: [sym('rm', 'radius')], nmax=2)
    meth_('CHAOS', 'plot_maps_external', C, lambda A, F: [F.t, sym('rm', 'radius')], nmax=2, reference='all', source='all',
          _alt=dict(reference=['gsm', 'sm'], source=['external', 'internal']))
    meth_('CHAOS', 'plot_maps_external', C, lambda A, F: [F.t, sym('rm', 'radius')], dict(reference='gsm'), source='all', _tag=' of GSM')
    meth_('CHAOS', 'plot_maps_external', C, lambda A, F: [F.t, sym('rm', 'radius')], dict(source='internal'), reference='all',
          _tag=' of internal sources')

    def lithosphere(c, nmax):
        """the static field beyond degree 85; field values stand for the coefficients that enter them"""
        A = c.an()
        lib_present(A)
        w = c.where('chaos.CHAOS.__call__')
        k = dim(nmax)
        co = np.array([T.ZERO] * k, dtype=object)
        for n in range(80, nmax + 1):
            co[n * n - 1] = sym(f'g{n}')
        calls = []

        def field(I, a, kw):
            names = ('coeffs', 'radius', 'theta', 'phi')
            d = {**dict(zip(names, a)), **kw}
            x = N_(A, d['coeffs'])
            n = A.I.resolve(d.get('nmax'))
            n = int(np.sqrt(x.shape[-1] + 1) - 1) if n is None else int(T.const(n)) if isinstance(n, Node) else int(n)
            calls.append(n)
            x = x[..., :dim(n)].reshape(-1, min(x.shape[-1], dim(n)))
            s = T.add(*[v for v in x.ravel() if v is not T.ZERO])
            return tuple(A.arr(s) for _ in range(3))
        A.I.overrides['chaosmagpy.model_utils.synth_values'] = field
        b = breaks_syms(2)
        m = A.new('chaos.CHAOS', A.arr(b), 1, coeffs_static=new_arr(co.reshape(1, 1, k), F), name='lith')
        run = lambda **kw: A.run(lambda: A.I.call(m, [inside(b), *point()], dict(source_list=LList(['static']), **kw)))     # noqa
        r0, r1 = run(), run(nmax_static=85)
        if not calls:
            raise Undecided('field values do not come from synth_values')
        compare(c, w, r0, r1, 'CHAOS.__call__: leaving out nmax_static and giving its documented default')
    ck.add('CHAOS.__call__/nmax_static', lithosphere, 87)

    # ---- loaders
    for f, txt, path, name in (('load_IGRF_txtfile', IGRF, '/data/sub.x/IGRF-13.v2.txt', 'IGRF-13.v2'),
                               ('load_CovObs_txtfile', COVOBS, '/data/sub.x/COV-OBS.x2.txt', 'COV-OBS.x2'),
                               ('load_gufm1_txtfile', GUFM, '/data/gufm1.v2.txt', 'gufm1.v2'),
                               ('load_CALS7K_txtfile', CALS, '/data/sub.x/CALS7K.2', 'CALS7K.2'),
                               ('load_CHAOS_shcfile', text, '/data/sub.x/CHAOS-7.18_core.shc', 'CHAOS-7.18_core')):
        def put(A, F, txt=txt, path=path):
            A.put(path, txt)
            return [path]
        fn('chaos.' + f, put, name=name, **(dict(leap_year=False) if 'shc' in f else {}))

    def names(c, cls, how):
        """the file name of a MAT-file names the model, the documented satellites name the Euler angles"""
        A, F = session(c)
        w = c.where('chaos.load_CHAOS_matfile' if cls is None else 'chaos.CHAOS.from_mat')
        path = '/data/x.y/CHAOS-7.18.mat'
        A.put(path)
        A.I.overrides['chaosmagpy.data_utils.load_matfile'] = lambda I, a, k: matcontents(A, F.brk, sats=len(SATELLITES))
        g = A.get('chaos.load_CHAOS_matfile') if cls is None else A.I.getattr(A.get('chaos.CHAOS'), 'from_mat')
        run = lambda **kw: A.run(lambda: A.I.call(g, [path], kw))       # noqa
        compare(c, w, run(), run(**{k: A.lift(v) for k, v in how.items()}), f'loading a MAT-file without {", ".join(how)} and with the documented default')
    for cls in (None, 'CHAOS'):
        for how in (dict(name='CHAOS-7.18'), dict(satellites=SATELLITES)):
            ck.add(f'{"load_CHAOS_matfile" if cls is None else "CHAOS.from_mat"}/{list(how)[0]}', names, cls, how)

    def from_shc(A, F):
        A.put('/data/x.y.shc', text)
        return ['/data/x.y.shc']
    meth_('CHAOS', 'from_shc', lambda F: F.A.get('chaos.CHAOS'), from_shc, leap_year=False)

    # ---- configuration
    def conf(c, key, want, tol):
        A = c.an()
        r = A.run(lambda: A.I.getitem(cfg(A), key))
        c.returns(r, 'config_utils.DEFAULTS', key)
        v = conc(r.value, c.tr(1)[0])
        v = list(v) if isinstance(v, (np.ndarray, list, tuple)) else v
        ok = len(v) == len(want) and all(abs(float(x) - y) <= tol for x, y in zip(v, want)) if isinstance(want, list) else \
            v == want if isinstance(want, str) else abs(float(v) - want) <= tol
        c.ok(ok, 'chaosmagpy/config_utils.py DEFAULTS', f'{key} is {v!r} after importing the package, documented is {want!r}')
    for key, want, tol in (('params.r_surf', 6371.2, 0), ('params.r_cmb', 3485.0, 0), ('params.ellipsoid', [6378.137, 6356.752], 5e-4),
                           ('params.cdf_to_mjd', 730485, 0)):
        ck.add(f'configuration/{key}', conf, key, want, tol)

    def dip(c):
        """the configured dipole is the one of IGRF-12, epoch 2015"""
        A = c.an()
        w = c.where(CO + 'igrf_dipole')
        c.equal(val(c, A, CO + 'igrf_dipole', '2015'), val(c, A, CO + 'dipole_to_vec'), w, 'dipole of IGRF-12 (2015) and configured dipole')
        x = val(c, A, CO + 'dipole_to_vec')
        g = [-29442.0, -1501.0, 4797.1]
        nn = float(np.linalg.norm(g))
        c.equal(x, SA(np.array([T.num(-y / nn) for y in (g[1], g[2], g[0])], dtype=object), F_, False), w, 'unit vector to the pole of IGRF-12 (2015)')
    ck.add('configuration/params.dipole', dip)

    def lib(c, key, fname):
        A = c.an()
        r = A.run(lambda: A.I.getitem(cfg(A), key))
        c.returns(r, 'config_utils.DEFAULTS', key)
        c.ok(isinstance(r.value, str) and r.value.endswith('/lib/' + fname), 'chaosmagpy/config_utils.py DEFAULTS',
             f'{key} is {r.value!r} after importing the package')
    for key, fname in (('file.RC_index', 'RC_index.h5'), ('file.GSM_spectrum', 'frequency_spectrum_gsm.npz'),
                       ('file.SM_spectrum', 'frequency_spectrum_sm.npz'), ('file.Earth_conductivity', 'Earth_conductivity.dat'),
                       ('file.shp_coastline', 'ne_110m_coastline.zip')):
        ck.add(f'configuration/{key}', lib, key, fname)


F_ = F


def N_(A, v):
    """elements of an array argument"""
    v = A.I.resolve(v)
    return v.get() if isinstance(v, Arr) else np.array(v, dtype=object)
