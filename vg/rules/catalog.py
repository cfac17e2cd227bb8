"""Catalogue of public calls: every public function and method with representative arguments for every option branch.
Each entry names the caller-owned containers it passes, the models it queries, and the files it may touch."""
from .common import *

CO = 'coordinate_utils.'
MATFILE = '/data/model.mat'


class Entry:
    def __init__(self, label, where, thunk, own, models=(), reads=(), writes=(), raises=False, plot=False, heavy=False,
                 clock=False):
        self.label, self.where, self.thunk, self.own = label, where, thunk, own
        self.models, self.reads, self.writes = models, reads, writes
        self.raises, self.plot, self.heavy, self.clock = raises, plot, heavy, clock


class Fix:
    """fixtures of one analysis session"""
    def __init__(self, A, tag=''):
        self.A, self.tag = A, tag
        fulllib(A)
        A.put(MATFILE)
        self.brk = breaks_syms(3)
        self.base, _, self.base_co = basemodel(A, order=3, n=2, brk=self.brk)
        self.one, _, _ = basemodel(A, order=1, n=1, tag='o', brk=self.brk)
        self.ext, _, _ = basemodel(A, order=2, n=2, tag='x', brk=self.brk, source='external')
        self.C = Chaos(A, order=2, n=1, nstat=2, brk=self.brk)
        self.empty = A.new('chaos.BaseModel', 'none', A.arr(self.brk), 2)
        self.t = inside(self.brk)
        self.r, self.th, self.ph = point(tag)

    def ts(self, n=3, tag='w'):
        """times around the period"""
        return self.vary(lambda g: self.A.arr([anytime(self.brk, f'{tag}{g}{i}') for i in range(n)]))

    def ins(self, n=3, tag='v'):
        return self.vary(lambda g: self.A.arr([inside(self.brk, f'{tag}{g}{i}') for i in range(n)]))

    def s(self, name, shape, kind='real'):
        return self.vary(lambda g: self.A.syms(name + g, shape, kind))

    variant = None

    def given(self, v):
        """how an argument is passed"""
        return v

    def vary(self, mk):
        """an argument related to the one of the first catalogue: same numbers in another order, or only some of them changed"""
        if self.variant is None:
            return mk(self.tag)
        a, b = mk('').get(), mk('zv').get()
        x = a.ravel().copy()
        if self.variant == 'reversed':
            x = x[::-1]
        elif self.variant == 'same first':
            x[1:] = b.ravel()[1:]
        elif self.variant == 'same last':
            x[:-1] = b.ravel()[:-1]
        elif self.variant == 'same ends':
            x[1:-1] = b.ravel()[1:-1]
        return self.A.arr(x.reshape(a.shape))

    def related(self, variant):
        F = Fix.__new__(Fix)
        F.__dict__.update(self.__dict__)
        if variant == 'other models':
            A = self.A
            F.base, _, F.base_co = basemodel(A, order=3, n=2, brk=self.brk, tag='om')
            F.one, _, _ = basemodel(A, order=1, n=1, tag='omo', brk=self.brk)
            F.ext, _, _ = basemodel(A, order=2, n=2, tag='omx', brk=self.brk, source='external')
            F.C = Chaos(A, order=2, n=1, nstat=2, brk=self.brk, tag='om')
        else:
            F.variant = variant
        return F

    def pts(self, n=3, poles=False):
        A = self.A
        th = self.s('th', n, 'theta')
        if poles:
            e = list(th.get())
            e[0], e[-1] = T.num(0), T.num(180)
            th = A.arr(e)
        return self.s('r', n, 'radius'), th, self.s('ph', n, 'phi')

    def bases(self, n=2):
        return [self.s(f'b{i}', (n, 3)) for i in (1, 2, 3)]


def call_entry(A, f, args, kw):
    g = A.get(f) if isinstance(f, str) else f

    def thunk():
        return A.I.call(g, list(args), dict(kw))
    thunk.kw, thunk.alt = dict(kw), lambda k: call_entry(A, f, args, k)
    thunk.args, thunk.given = list(args), lambda a, k: call_entry(A, f, a, k)
    return thunk


def meth(A, o, name, args, kw):
    def thunk():
        return A.I.call(A.I.getattr(o, name), list(args), dict(kw))
    thunk.kw, thunk.alt = dict(kw), lambda k: meth(A, o, name, args, k)
    thunk.args, thunk.given = list(args), lambda a, k: meth(A, o, name, a, k)
    return thunk


def owned(args, kw):
    d = {}
    for k, v in list(enumerate(args)) + list(kw.items()):
        if isinstance(v, (Cell, Arr)):
            d[f'argument {k}'] = v
        elif isinstance(v, tuple):
            for i, x in enumerate(v):
                if isinstance(x, (Cell, Arr)):
                    d[f'argument {k}[{i}]'] = x
    return d


def entries(F):
    """all entries over fixtures F: dict label -> Entry"""
    A = F.A
    out = {}

    def add(label, f, *args, **kw):
        opt = {k: kw.pop('_' + k) for k in ('models', 'reads', 'writes', 'raises', 'plot', 'heavy', 'clock') if '_' + k in kw}
        args, kw = [F.given(x) for x in args], {k: F.given(x) for k, x in kw.items()}
        out[label] = Entry(label, f, call_entry(A, f, args, kw), owned(args, kw), **opt)

    def m(label, obj, cls, name, *args, **kw):
        opt = {k: kw.pop('_' + k) for k in ('models', 'reads', 'writes', 'raises', 'plot', 'heavy', 'clock') if '_' + k in kw}
        opt.setdefault('models', [obj])
        args, kw = [F.given(x) for x in args], {k: F.given(x) for k, x in kw.items()}
        th = call_entry(A, obj, args, kw) if name == '__call__' else meth(A, obj, name, args, kw)
        out[label] = Entry(label, f'chaos.{cls}.{name}', th, owned(args, kw), **opt)

    P, PP = F.pts(), F.pts(poles=True)
    g2 = (F.s('th', 2, 'theta'), F.s('ph', 2, 'phi'))
    co8, co3 = F.s('c', 8), F.s('c', 3)

    # ---- model_utils
    for src in ('internal', 'external'):
        add(f'synth_values/{src}', MU + 'synth_values', co8, *P, source=src)
        add(f'synth_values/{src}/poles', MU + 'synth_values', co8, *PP, source=src)
        add(f'synth_values/{src}/grid', MU + 'synth_values', co8, F.r, *g2, source=src, grid=True)
        add(f'synth_values/{src}/nmin', MU + 'synth_values', F.s('c', 5), *P, source=src, nmin=2, nmax=2)
        add(f'synth_values/{src}/mmax', MU + 'synth_values', F.s('c', 6), *P, source=src, nmax=2, mmax=1)
        add(f'design_gauss/{src}', MU + 'design_gauss', *P, 2, source=src)
        add(f'design_gauss/{src}/poles', MU + 'design_gauss', *PP, 2, source=src, nmin=2, mmax=1)
        add(f'power_spectrum/{src}', MU + 'power_spectrum', co8, F.r, source=src)
    add('synth_values/series', MU + 'synth_values', F.s('c', (3, 8)), *P)
    add('synth_values/lists', MU + 'synth_values', LList(list(co3.get())), LList(list(P[0].get())), LList(list(P[1].get())),
        LList(list(P[2].get())))
    add('synth_values/badsource', MU + 'synth_values', co8, *P, source='nonsense', _raises=True)
    add('synth_values/badtheta', MU + 'synth_values', co8, F.r, A.arr([F.th, T.num(190)]), F.ph, _raises=True)
    add('design_matrix', MU + 'design_matrix', A.arr([F.brk[0]] + F.brk + [F.brk[-1]]), 2, 1, F.ins(), *P)
    add('design_matrix/static', MU + 'design_matrix', A.arr([F.brk[0]] + F.brk + [F.brk[-1]]), 2, 1, F.ins(), *P, n_static=2)
    add('colloc_matrix', MU + 'colloc_matrix', F.ins(), A.arr([F.brk[0]] * 2 + F.brk + [F.brk[-1]] * 2), 3)
    add('colloc_matrix/deriv', MU + 'colloc_matrix', F.ins(), A.arr([F.brk[0]] * 2 + F.brk + [F.brk[-1]] * 2), 3, 1)
    add('augment_breaks', MU + 'augment_breaks', A.arr(F.brk), 3)
    add('augment_breaks/list', MU + 'augment_breaks', LList(list(F.brk)), 3)
    add('pp_from_bspline', MU + 'pp_from_bspline', F.s('bc', (4, 3)), A.arr([F.brk[0]] * 2 + F.brk + [F.brk[-1]] * 2), 3)
    for dv in (0, 1):
        add(f'synth_from_pp/{dv}', MU + 'synth_from_pp', A.arr(F.brk), 2, F.s('c', (2, 2, 8)), F.ins(), *P, deriv=dv)
    add('synth_from_pp/nmax', MU + 'synth_from_pp', A.arr(F.brk), 2, F.s('c', (2, 2, 8)), F.ins(), *P, nmax=1)
    add('legendre_poly', MU + 'legendre_poly', 3, F.s('th', 2, 'theta'))
    add('power_spectrum/toroidal', MU + 'power_spectrum', F.s('c', (2, 8)), source='toroidal')
    add('power_spectrum/axis', MU + 'power_spectrum', F.s('c', (8, 2)), F.r, axis=0, nmax=1)
    add('degree_correlation', MU + 'degree_correlation', co8, F.s('e', 8))
    add('sensitivity', MU + 'sensitivity', co8, F.s('e', 8, 'pos'))

    # ---- coordinate_utils
    day = F.s('day', 3, 'day')
    dip = F.s('dip', 3, 'gap')
    add('igrf_dipole', CO + 'igrf_dipole')
    add('igrf_dipole/2010', CO + 'igrf_dipole', '2010')
    add('dipole_to_vec', CO + 'dipole_to_vec')
    add('dipole_to_vec/array', CO + 'dipole_to_vec', dip)
    add('dipole_to_vec/matrix', CO + 'dipole_to_vec', F.s('dips', (2, 3), 'gap'))
    add('dipole_to_vec/angles', CO + 'dipole_to_vec', (F.s('dt', 2, 'theta'), F.s('dp', 2, 'phi')))
    add('dipole_to_vec/list', CO + 'dipole_to_vec', LList([F.s('d0', 2), F.s('d1', 2, 'gap'), F.s('d2', 2)]))
    for sc in (True, False):
        add(f'synth_rotate_gauss/{sc}', CO + 'synth_rotate_gauss', day, F.s('f', (2, 3, 3), 'nonneg'), F.s('z', (2, 3, 3), 'complex'),
            scaled=sc)
    add('synth_rotate_gauss/vector', CO + 'synth_rotate_gauss', day, F.s('f', 2, 'nonneg'), F.s('z', (2, 3, 3), 'complex'))
    add('sun_position', CO + 'sun_position', day)
    add('zenith_angle', CO + 'zenith_angle', day, P[1], P[2])
    add('spherical_to_cartesian', CO + 'spherical_to_cartesian', *P)
    add('spherical_to_cartesian/lists', CO + 'spherical_to_cartesian', *[LList(list(x.get())) for x in P])
    add('cartesian_to_spherical', CO + 'cartesian_to_spherical', F.s('x', 3), F.s('y', 3), F.s('z', 3))
    h, be = F.s('h', 3, 'gap'), F.s('beta', 3, 'theta')
    add('gg_to_geo', CO + 'gg_to_geo', h, be)
    add('gg_to_geo/vector', CO + 'gg_to_geo', h, be, F.s('X', 3), F.s('Z', 3))
    add('geo_to_gg', CO + 'geo_to_gg', P[0], P[1])
    add('geo_to_gg/vector', CO + 'geo_to_gg', P[0], P[1], F.s('X', 3), F.s('Z', 3))
    add('basevectors_gg', CO + 'basevectors_gg', P[1], be)
    for fr in ('gsm', 'sm'):
        add(f'basevectors_{fr}', CO + f'basevectors_{fr}', day)
        add(f'basevectors_{fr}/dipole', CO + f'basevectors_{fr}', day, dip)
    add('basevectors_mag', CO + 'basevectors_mag')
    add('basevectors_mag/dipole', CO + 'basevectors_mag', dip)
    add('basevectors_mag/dipole list', CO + 'basevectors_mag', LList([sym('d0'), sym('d1', 'gap'), sym('d2')]))
    add('basevectors_use', CO + 'basevectors_use', P[1], P[2])
    for inv in (False, True):
        add(f'geo_to_base/{inv}', CO + 'geo_to_base', P[1].__class__ and F.s('th', 2, 'theta'), F.s('ph', 2, 'phi'), *F.bases(), inverse=inv)
        add(f'matrix_geo_to_base/{inv}', CO + 'matrix_geo_to_base', F.s('th', 2, 'theta'), F.s('ph', 2, 'phi'), *F.bases(), inverse=inv)
        for fr in ('gsm', 'sm', 'mag'):
            add(f'transform_points/{fr}/{inv}', CO + 'transform_points', P[1], P[2], day, reference=fr, inverse=inv)
            add(f'transform_points/{fr}/{inv}/dipole', CO + 'transform_points', P[1], P[2], day, reference=fr, inverse=inv, dipole=dip)
            add(f'transform_vectors/{fr}/{inv}', CO + 'transform_vectors', P[1], P[2], F.s('Bt', 3), F.s('Bp', 3), day,
                reference=fr, inverse=inv)
    add('transform_vectors/dipole', CO + 'transform_vectors', P[1], P[2], F.s('Bt', 3), F.s('Bp', 3), day, reference='sm', dipole=dip)
    add('center_azimuth', CO + 'center_azimuth', F.s('az', 3, 'phi'))
    add('center_azimuth/scalar', CO + 'center_azimuth', sym('az', 'phi'))
    add('local_time', CO + 'local_time', day, P[2])
    add('rotate_gauss', CO + 'rotate_gauss', 1, 1, *F.bases(1), _heavy=True)
    per, sig, rad = F.s('per', 2, 'gap'), F.s('sig', 2, 'gap'), A.arr([6371., 6000.])
    add('q_response_1D/quadratic', CO + 'q_response_1D', per, sig, rad, 1, kind='quadratic')

    # ---- data_utils
    add('mjd2000', DU + 'mjd2000', F.s('yr', 2, 'int') and A.arr([2001, 1999], INT), A.arr([1, 12], INT), A.arr([1, 31], INT), F.s('hh', 2, 'hour') if False else 12)
    add('timestamp', DU + 'timestamp', day)
    add('is_leap_year', DU + 'is_leap_year', A.arr([2000, 1900, 2001], INT))
    for ly in (True, False):
        add(f'dyear_to_mjd/{ly}', DU + 'dyear_to_mjd', F.s('dy', 2, 'dyear'), leap_year=ly)
        add(f'mjd_to_dyear/{ly}', DU + 'mjd_to_dyear', F.s('mj', 2, 'mjd'), leap_year=ly)
    add('gauss_units', DU + 'gauss_units', 2)
    add('save_shcfile', DU + 'save_shcfile', F.s('mj', 2, 'mjd'), F.s('c', (2, 8)), order=2, filepath='/out/a.shc', _writes=['/out/a.shc'], _clock=True)
    add('save_shcfile/1-D', DU + 'save_shcfile', F.s('mj', 1, 'mjd'), F.s('c', 8), filepath='/out/a.shc', nmin=2, nmax=2,
        leap_year=False, header='# x\n', _writes=['/out/a.shc'], _clock=True)
    add('save_shcfile/bad', DU + 'save_shcfile', F.s('mj', 1, 'mjd'), F.s('c', 8), filepath='/out/a.shc', nmin=3, nmax=2,
        _raises=True, _clock=True)
    A.put('/data/in.shc', '# c\n1 1 2 2 1\n 2000.0 2001.0\n1 0 1.0 2.0\n1 1 3.0 4.0\n1 -1 5.0 6.0\n')
    add('load_shcfile', DU + 'load_shcfile', '/data/in.shc', _reads=['/data/in.shc'])
    add('load_shcfile/noleap', DU + 'load_shcfile', '/data/in.shc', leap_year=False, _reads=['/data/in.shc'])
    rcp, _, _ = rcfile(A, 'dat', '/data/RC.dat', tag='f')
    add('load_RC_datfile', DU + 'load_RC_datfile', rcp, _reads=[rcp])
    add('save_RC_h5file', DU + 'save_RC_h5file', '/out/RC.h5', rcp, _reads=[rcp], _writes=['/out/RC.h5'])

    # ---- plot_utils
    LL = {'ne_110m_coastline.zip'}
    coast = [LIB + x for x in LL]
    add('plot_timeseries', PU + 'plot_timeseries', F.s('t', 3, 'day'), F.s('x', 3), F.s('y', 3), titles=LList(['a', 'b']), _plot=True)
    add('plot_maps', PU + 'plot_maps', *g2, F.s('x', (2, 2)), F.s('y', (2, 2)), _plot=True, _reads=coast)
    add('plot_maps/titles', PU + 'plot_maps', *g2, F.s('x', (2, 2)), titles=LList(['a']), cmap='nio', _plot=True, _reads=coast)
    add('plot_power_spectrum', PU + 'plot_power_spectrum', A.arr([sym('x0', 'pos'), T.num(0), sym('x1', 'pos')]), _plot=True)

    # ---- spline models
    t, ts, ins = F.t, F.ts(), F.ins()
    ep = ('linear', 'quadratic', 'cubic', 'constant', 'spline', 'off', 2, False)
    for mn, mo, cls in (('base', F.base, 'BaseModel'), ('one', F.one, 'BaseModel'), ('ext', F.ext, 'BaseModel')):
        m(f'{mn}.synth_coeffs', mo, cls, 'synth_coeffs', ins)
        m(f'{mn}.synth_coeffs/scalar', mo, cls, 'synth_coeffs', t)
        m(f'{mn}.synth_coeffs/deriv', mo, cls, 'synth_coeffs', ts, deriv=1)
        m(f'{mn}.synth_values', mo, cls, 'synth_values', ts, *P)
        m(f'{mn}.power_spectrum', mo, cls, 'power_spectrum', t)
    for e in ep:
        m(f'base.synth_coeffs/{e}', F.base, 'BaseModel', 'synth_coeffs', ts, extrapolate=e)
    m('base.synth_coeffs/nmax', F.base, 'BaseModel', 'synth_coeffs', ts, nmax=1)
    m('base.synth_coeffs/big', F.base, 'BaseModel', 'synth_coeffs', ts, nmax=9)
    m('base.synth_coeffs/bad', F.base, 'BaseModel', 'synth_coeffs', A.arr([before(F.brk)]), extrapolate='nonsense', _raises=True)
    m('base.synth_values/grid', F.base, 'BaseModel', 'synth_values', t, F.r, *g2, grid=True)
    m('base.synth_values/badtheta', F.base, 'BaseModel', 'synth_values', t, F.r, A.arr([T.num(181)]), F.ph, _raises=True)
    m('base.power_spectrum/nmax', F.base, 'BaseModel', 'power_spectrum', t, F.r, nmax=1, deriv=1)
    m('base.to_ppdict', F.base, 'Base', 'to_ppdict')
    m('base.save_matfile', F.base, 'Base', 'save_matfile', '/out/p.mat', _writes=['/out/p.mat'])
    m('base.to_shc', F.base, 'BaseModel', 'to_shc', '/out/b.shc', _writes=['/out/b.shc'], _clock=True)
    m('base.to_shc/opt', F.base, 'BaseModel', 'to_shc', '/out/b.shc', nmin=2, nmax=2, leap_year=True, header='# h\n',
      _writes=['/out/b.shc'], _clock=True)
    m('one.to_shc', F.one, 'BaseModel', 'to_shc', '/out/b.shc', _writes=['/out/b.shc'], _clock=True)
    m('base.plot_power_spectrum', F.base, 'BaseModel', 'plot_power_spectrum', t, _plot=True)
    m('base.plot_maps', F.base, 'BaseModel', 'plot_maps', t, F.r, _plot=True, _reads=coast, _heavy=True)
    m('base.plot_timeseries', F.base, 'BaseModel', 'plot_timeseries', F.r, F.th, F.ph, _plot=True, _heavy=True)
    m('empty.synth_coeffs', F.empty, 'BaseModel', 'synth_coeffs', t, _raises=True)

    # ---- composite model
    c = F.C.m
    gs, ss = [LIB + 'frequency_spectrum_gsm.npz'], [LIB + 'frequency_spectrum_sm.npz']
    rc = [LIB + 'RC_index.h5']
    m('chaos()/default', c, 'CHAOS', '__call__', ins, *P, rc_e=F.s('re', 3), rc_i=F.s('ri', 3), _reads=gs + ss)
    m('chaos()/verbose', c, 'CHAOS', '__call__', ins, *P, rc_e=F.s('re', 3), rc_i=F.s('ri', 3), verbose=True, _reads=gs + ss, _clock=True)
    m('chaos()/list', c, 'CHAOS', '__call__', t, *P, source_list=LList(['tdep', 'static']), nmax_static=1)
    m('chaos()/internal', c, 'CHAOS', '__call__', ts, *P, source_list='internal')
    m('chaos()/external', c, 'CHAOS', '__call__', t, F.r, F.th, F.ph, rc_e=sym('re'), rc_i=sym('ri'), source_list='external', _reads=gs + ss)
    m('chaos()/bad', c, 'CHAOS', '__call__', t, F.r, F.th, F.ph, source_list=LList(['tdep', 'nonsense']), _raises=True)
    m('chaos.str', c, 'CHAOS', '__str__')
    m('chaos.synth_coeffs_tdep', c, 'CHAOS', 'synth_coeffs_tdep', ts, nmax=1, deriv=1)
    m('chaos.synth_values_tdep', c, 'CHAOS', 'synth_values_tdep', ts, *P)
    m('chaos.synth_coeffs_static', c, 'CHAOS', 'synth_coeffs_static')
    m('chaos.synth_coeffs_static/nmax', c, 'CHAOS', 'synth_coeffs_static', nmax=1)
    m('chaos.synth_values_static', c, 'CHAOS', 'synth_values_static', *P)
    m('chaos.synth_values_static/grid', c, 'CHAOS', 'synth_values_static', F.r, *g2, nmax=1, grid=True)
    for s in ('external', 'internal'):
        m(f'chaos.synth_coeffs_gsm/{s}', c, 'CHAOS', 'synth_coeffs_gsm', ts, source=s, _reads=gs)
        m(f'chaos.synth_coeffs_sm/{s}/rc', c, 'CHAOS', 'synth_coeffs_sm', ts, source=s, rc=F.s('rc', 3), _reads=ss)
        m(f'chaos.synth_coeffs_sm/{s}/file', c, 'CHAOS', 'synth_coeffs_sm', ts, source=s, nmax=1, _reads=ss + rc)
        m(f'chaos.synth_values_gsm/{s}', c, 'CHAOS', 'synth_values_gsm', ins, *P, source=s, _reads=gs)
        m(f'chaos.synth_values_sm/{s}', c, 'CHAOS', 'synth_values_sm', ins, *P, source=s, rc_e=F.s('re', 3), rc_i=F.s('ri', 3), _reads=ss)
    m('chaos.synth_values_gsm/all', c, 'CHAOS', 'synth_values_gsm', ins, *P, _reads=gs)
    m('chaos.synth_values_gsm/grid', c, 'CHAOS', 'synth_values_gsm', t, F.r, *g2, grid=True, nmax=1, _reads=gs)
    m('chaos.synth_values_sm/all', c, 'CHAOS', 'synth_values_sm', ins, *P, rc_e=F.s('re', 3), rc_i=F.s('ri', 3), _reads=ss)
    m('chaos.synth_coeffs_sm/badsource', c, 'CHAOS', 'synth_coeffs_sm', t, source='nonsense', _raises=True)
    m('chaos.synth_euler_angles', c, 'CHAOS', 'synth_euler_angles', ts, 'swarm_b')
    m('chaos.synth_euler_angles/opt', c, 'CHAOS', 'synth_euler_angles', ts, 'swarm_a', dim=2, extrapolate='off')
    m('chaos.synth_euler_angles/bad', c, 'CHAOS', 'synth_euler_angles', ts, 'nosat', _raises=True)
    m('chaos.save_shcfile', c, 'CHAOS', 'save_shcfile', '/out/c.shc', _writes=['/out/c.shc'], _clock=True)
    m('chaos.save_shcfile/static', c, 'CHAOS', 'save_shcfile', '/out/c.shc', model='static', leap_year=True, _writes=['/out/c.shc'], _clock=True)
    m('chaos.save_matfile', c, 'CHAOS', 'save_matfile', '/out/c.mat', _writes=['/out/c.mat'])
    m('chaos.plot_timeseries_tdep', c, 'CHAOS', 'plot_timeseries_tdep', F.r, F.th, F.ph, _plot=True, _heavy=True)
    m('chaos.plot_maps_tdep', c, 'CHAOS', 'plot_maps_tdep', t, F.r, _plot=True, _reads=coast, _heavy=True)
    m('chaos.plot_maps_static', c, 'CHAOS', 'plot_maps_static', F.r, _plot=True, _reads=coast, _heavy=True)
    m('chaos.plot_maps_external', c, 'CHAOS', 'plot_maps_external', t, F.r, reference='gsm', source='external', _plot=True, _reads=coast + gs, _heavy=True)

    # ---- constructors and loaders
    b = A.arr(F.brk)
    add('Base()', 'chaos.Base', 'b', b, 2, F.s('c', (3, 2, 3)), DDict({'a': 1}))
    add('Base()/one break', 'chaos.Base', 'b', A.arr([F.brk[0]]), 1, F.s('c', (1, 1, 3)))
    add('BaseModel()', 'chaos.BaseModel', 'b', b, 2, F.s('c', (2, 2, 3)), 'external')
    add('BaseModel()/lists', 'chaos.BaseModel', 'b', LList(list(F.brk)), 1,
        LList([LList([LList([sym('a'), sym('b'), sym('c')]), LList([sym('d'), sym('e'), sym('f')])])]))
    add('CHAOS()', 'chaos.CHAOS', b, 2, coeffs_tdep=F.s('c', (2, 2, 3)), coeffs_static=F.s('s', (1, 1, 8)), coeffs_sm=F.s('sm', 8),
        coeffs_gsm=F.s('g', 8), breaks_euler=DDict({'a': A.arr(F.brk)}), coeffs_euler=DDict({'a': F.s('eu', (1, 2, 3))}),
        breaks_cal=DDict({'k': A.arr(F.brk)}), coeffs_cal=DDict({'k': F.s('ca', (1, 2, 9))}),
        meta=DDict({'params': DDict({'Euler_prerotation': F.s('pre', (2, 3))})}), _clock=True)
    add('BaseModel.from_bspline', 'chaos.BaseModel.from_bspline', 'x', A.arr([F.brk[0]] * 2 + F.brk + [F.brk[-1]] * 2),
        F.s('bc', (4, 3)), 3)
    bound = A.I.getattr(A.get('chaos.BaseModel'), 'from_bspline')
    e = out['BaseModel.from_bspline']
    a0 = ('x', A.arr([F.brk[0]] * 2 + F.brk + [F.brk[-1]] * 2), F.s('bc', (4, 3)), 3)
    e.thunk, e.own = call_entry(A, bound, a0, {}), owned(a0, {})
    add('load_CHAOS_shcfile', 'chaos.load_CHAOS_shcfile', '/data/in.shc', _reads=['/data/in.shc'], _clock=True)
    from .textfiles import IGRF, COVOBS, GUFM, CALS
    for nm, txt in (('IGRF', IGRF), ('CovObs', COVOBS), ('gufm1', GUFM), ('CALS7K', CALS)):
        A.put(f'/data/{nm}.txt', txt)
        add(f'load_{nm}_txtfile', f'chaos.load_{nm}_txtfile', f'/data/{nm}.txt', _reads=[f'/data/{nm}.txt'])
    from .textfiles import matcontents
    for extra in (False, True):
        sats = LList(['oersted'] if extra else ['swarm_a', 'swarm_b'])
        args = (MATFILE,)
        kw = dict(satellites=sats)

        def load(args=args, kw=kw):
            A.I.overrides['chaosmagpy.data_utils.load_matfile'] = lambda I, a, k: matcontents(A, F.brk)
            try:
                return A.I.call(A.get('chaos.load_CHAOS_matfile'), list(args), dict(kw))
            finally:
                del A.I.overrides['chaosmagpy.data_utils.load_matfile']
        out[f'load_CHAOS_matfile/{extra}'] = Entry(f'load_CHAOS_matfile/{extra}', 'chaos.load_CHAOS_matfile', load, owned(args, kw),
                                                   reads=[MATFILE], clock=True)
    return out
