"""documented names, argument names and argument order"""
from .catalog import *
from .catalog import call_entry
from .textfiles import IGRF, COVOBS, GUFM, CALS, matcontents
from .defaults import compare, shc
from .purity import add_all, _cat

# documented signatures: required | optional, both also by position | by keyword | further positional arguments
TABLE = """
model_utils.design_matrix: knots order n_tdep time radius theta phi | n_static source
model_utils.colloc_matrix: x knots order | deriv
model_utils.augment_breaks: breaks order |
model_utils.pp_from_bspline: coeffs knots order |
model_utils.synth_from_pp: breaks order coeffs time radius theta phi |  | nmax source deriv grid
model_utils.synth_values: coeffs radius theta phi |  | nmax nmin mmax source grid
model_utils.design_gauss: radius theta phi nmax |  | nmin mmax source
model_utils.legendre_poly: nmax theta |
model_utils.power_spectrum: coeffs | radius | nmax source axis
model_utils.degree_correlation: coeffs_1 coeffs_2 |
model_utils.sensitivity: coeffs coeffs_true |
coordinate_utils.igrf_dipole:  | epoch
coordinate_utils.dipole_to_vec:  | dipole
coordinate_utils.synth_rotate_gauss: time frequency spectrum | scaled
coordinate_utils.rotate_gauss_fft: nmax kmax |  | qfunc step N filter save_to reference scaled start_date
coordinate_utils.rotate_gauss: nmax kmax base_1 base_2 base_3 |
coordinate_utils.sh_analysis: func nmax | kmax
coordinate_utils.sun_position: time |
coordinate_utils.zenith_angle: time theta phi |
coordinate_utils.spherical_to_cartesian: radius theta phi |
coordinate_utils.cartesian_to_spherical: x y z |
coordinate_utils.gg_to_geo: height beta | X Z
coordinate_utils.geo_to_gg: radius theta | B_radius B_theta
coordinate_utils.basevectors_gg: theta beta |
coordinate_utils.basevectors_gsm: time | dipole
coordinate_utils.basevectors_sm: time | dipole
coordinate_utils.basevectors_mag:  | dipole
coordinate_utils.basevectors_use: theta phi |
coordinate_utils.geo_to_base: theta phi base_1 base_2 base_3 | inverse
coordinate_utils.transform_points: theta phi | time | reference inverse dipole
coordinate_utils.matrix_geo_to_base: theta phi base_1 base_2 base_3 | inverse
coordinate_utils.transform_vectors: theta phi B_theta B_phi | time reference inverse dipole
coordinate_utils.center_azimuth: phi |
coordinate_utils.local_time: time phi |
coordinate_utils.q_response_1D: periods sigma radius n | kind
coordinate_utils.q_response: frequency nmax |
data_utils.load_matfile: filepath | variable_names
data_utils.load_RC_datfile:  | filepath parse_dates
data_utils.save_RC_h5file: filepath | read_from
data_utils.load_shcfile: filepath | leap_year comment
data_utils.save_shcfile: time coeffs | order filepath nmin nmax leap_year header
data_utils.mjd2000: year | month day hour minute second microsecond nanosecond
data_utils.timestamp: time |
data_utils.is_leap_year: year |
data_utils.dyear_to_mjd: time | leap_year
data_utils.mjd_to_dyear: time | leap_year
data_utils.memory_usage: pandas_obj |
data_utils.gauss_units:  | deriv
plot_utils.plot_timeseries: time |  |  | *
plot_utils.plot_maps: theta_grid phi_grid |  |  | *
plot_utils.plot_power_spectrum: spectrum |
plot_utils.nio_colormap:  |
config_utils.BasicConfig.__init__:  |  |  | *
config_utils.BasicConfig.update:  |  |  | *
config_utils.BasicConfig.setdefault: key | default
config_utils.BasicConfig.reset: key |
config_utils.BasicConfig.fullreset:  |
config_utils.BasicConfig.load: filepath |
config_utils.BasicConfig.save: filepath |
config_utils.BasicConfig.context: key value |
chaos.Base.__init__: name | breaks order coeffs meta
chaos.Base.synth_coeffs: time |  | dim deriv extrapolate
chaos.Base.to_ppdict:  |
chaos.Base.save_matfile: filepath | path
chaos.BaseModel.__init__: name | breaks order coeffs source meta
chaos.BaseModel.synth_coeffs: time |  | nmax deriv extrapolate
chaos.BaseModel.synth_values: time radius theta phi |  | nmax deriv grid extrapolate
chaos.BaseModel.power_spectrum: time | radius
chaos.BaseModel.plot_power_spectrum: time |
chaos.BaseModel.plot_maps: time radius |
chaos.BaseModel.plot_timeseries: radius theta phi |
chaos.BaseModel.from_bspline: name knots coeffs order | source meta
chaos.BaseModel.to_shc: filepath |  | leap_year nmin nmax header
chaos.BaseModel.from_shc: filepath |  | name leap_year source meta
chaos.CHAOS.__init__: breaks | order | coeffs_tdep coeffs_static coeffs_sm coeffs_gsm breaks_delta coeffs_delta breaks_euler coeffs_euler breaks_cal coeffs_cal name meta
chaos.CHAOS.__call__: time radius theta phi | rc_e rc_i source_list nmax_static verbose
chaos.CHAOS.synth_coeffs_tdep: time |  | nmax
chaos.CHAOS.synth_values_tdep: time radius theta phi |  | nmax deriv grid extrapolate
chaos.CHAOS.plot_timeseries_tdep: radius theta phi |
chaos.CHAOS.plot_maps_tdep: time radius |  | nmax deriv
chaos.CHAOS.synth_coeffs_static:  |  | nmax
chaos.CHAOS.synth_values_static: radius theta phi |  | nmax
chaos.CHAOS.plot_maps_static: radius |  | nmax
chaos.CHAOS.synth_coeffs_gsm: time |  | nmax source
chaos.CHAOS.synth_values_gsm: time radius theta phi |  | nmax source grid
chaos.CHAOS.synth_coeffs_sm: time |  | nmax source rc
chaos.CHAOS.synth_values_sm: time radius theta phi |  | rc_e rc_i nmax source grid
chaos.CHAOS.plot_maps_external: time radius |  | nmax reference source
chaos.CHAOS.synth_euler_angles: time satellite |  | dim deriv extrapolate
chaos.CHAOS.save_shcfile: filepath |  | model leap_year
chaos.CHAOS.save_matfile: filepath |
chaos.CHAOS.from_mat: filepath | name satellites
chaos.CHAOS.from_shc: filepath |  | name leap_year
chaos.load_CHAOS_matfile: filepath | name satellites
chaos.load_CHAOS_shcfile: filepath | name leap_year
chaos.load_CovObs_txtfile: filepath | name
chaos.load_gufm1_txtfile: filepath | name
chaos.load_CALS7K_txtfile: filepath | name
chaos.load_IGRF_txtfile: filepath | name
"""
EXPORTS = dict(CHAOS='chaos', load_CHAOS_matfile='chaos', load_CHAOS_shcfile='chaos', load_CovObs_txtfile='chaos',
               load_gufm1_txtfile='chaos', load_CALS7K_txtfile='chaos', load_IGRF_txtfile='chaos', basicConfig='config_utils',
               synth_values='model_utils', mjd2000='data_utils', timestamp='data_utils', dyear_to_mjd='data_utils',
               mjd_to_dyear='data_utils')


def table():
    out = {}
    for line in TABLE.strip().splitlines():
        path, rest = line.split(':', 1)
        req, opt, key, more = ([x.split() for x in rest.split('|')] + [[], [], [], []])[:4]
        out[path] = (req + opt, len(req), key, bool(more))
    return out


SIG = table()
WORDS = ('refuses its arguments in this form', 'only with the other form')


def forms(path, args, kw):
    """the documented ways to give the same arguments: (what, args, kw)"""
    pos, req, key, more = SIG[path]
    named, first = ({}, list(args)) if len(args) > len(pos) else (dict(zip(pos, args)), [])
    out = []
    if named:
        out.append(('by name', first, {**named, **kw}))
        out.append(('by name in another order', first, dict(reversed(list({**named, **kw}.items())))))
    full = {**named, **kw}
    run = list(first)
    if not first:
        for p in pos:
            if p not in full:
                break
            run.append(full.pop(p))
        out.append(('by position', run, full))
    return [(w, a, k) for w, a, k in out if (len(a), list(k)) != (len(args), list(kw))]


@rule('C35', 'The documented interface is available under its documented names and arguments',
      'name resolution on the package and its modules; equivalence of interpreted calls with the same arguments given by their documented names, '
      'in another order, and in their documented positions')
def c35(ck):
    # ---- names
    def exists(c, path):
        A = c.an()
        owner, name = path.rsplit('.', 1)
        o = A.get(owner)
        w = c.where(owner) if '.' in owner else f'chaosmagpy/{owner}.py'
        r = A.run(lambda: A.I.getattr(o, name))
        if r.ret is None:
            c.fail(f'documented name {path} does not exist', w)
        c.ok(A.do(lambda: A.I.call(A.client('def f(x):\n    return callable(x)\n')['f'], [r.ret.raw], {})) is True, w, f'{path} is not callable')
    for path in SIG:
        ck.add(f'name/{path}', exists, path)

    def exported(c, name, mod):
        A = c.an()
        w = 'chaosmagpy/__init__.py'
        f = A.client(f'import chaosmagpy as cp\ndef f():\n    return cp.{name}, cp.{mod}.{name}, cp.{name} is cp.{mod}.{name}\n'
                     f'def g():\n    from chaosmagpy import {name}\n    from chaosmagpy.{mod} import {name} as x\n    return x is {name}\n')
        for k in 'fg':
            r = A.run(lambda: A.I.call(f[k], [], {}))
            if r.ret is None:
                c.fail(f'chaosmagpy.{name} is not available ({r.raises[0].exc_name})', w)
        c.ok(A.do(lambda: A.I.call(f['g'], [], {})) is True and A.do(lambda: A.I.call(f['f'], [], {}))[2] is True, w,
             f'chaosmagpy.{name} is not {mod}.{name}')
        a = A.do(lambda: A.I.call(A.client('import chaosmagpy as cp\ndef f(n):\n    return n in cp.__all__, type(cp.__version__) is str\n')['f'],
                                  [name], {}))
        c.ok(a[0] is True, w, f'{name} is not in __all__')
        c.ok(a[1] is True, w, 'no version string')
    for name, mod in EXPORTS.items():
        ck.add(f'export/{name}', exported, name, mod)

    # ---- arguments
    def same(c, A, w, label, path, mk, args, kw, files=()):
        r0 = A.run(mk(args, kw))
        todo = forms(path, args, kw)
        if not todo:
            raise Skip('one way to call')
        for what, a, k in todo:
            r1 = A.run(mk(a, k))
            title = f'{path.split(".", 1)[1]}: arguments given {what} ({", ".join(list(k)) or len(a)})'
            if r0.ret is None:
                c.ok(r1.ret is None, w, f'{title}: returns, the same call in another form raises {r0.raises[0].exc_name}')
                x, y = {o.exc_name for o in r0.raises}, {o.exc_name for o in r1.raises}
                c.ok(x == y, w, f'{title}: raises {sorted(y)} instead of {sorted(x)}')
                continue
            compare(c, w, r0, r1, title, files, words=WORDS)

    def entry(c, label):
        F, E = _cat(c)
        e = E[label]
        path = e.where + '.__init__' if e.where in ('chaos.Base', 'chaos.BaseModel', 'chaos.CHAOS') else e.where
        if path not in SIG or not hasattr(e.thunk, 'given'):
            raise Skip('no arguments')
        same(c, c.A, c.where(e.where), label, path, e.thunk.given, e.thunk.args, e.thunk.kw, e.writes)
    add_all(ck, entry, lambda e: bool(getattr(e.thunk, 'args', None) or getattr(e.thunk, 'kw', None)), 'call/')

    # ---- arguments of other names are refused, not dropped
    def unknown(c, label):
        F, E = _cat(c)
        e = E[label]
        A = c.A
        r = A.run(e.thunk)
        if r.ret is None:
            raise Skip('raises')
        for k in ('extrapolation', 'nmax_'):
            c.always_raises(A.run(e.thunk.given(e.thunk.args, {**e.thunk.kw, k: 1})), TypeError, c.where(e.where),
                            f'{e.where.split(".", 1)[1]} with an argument {k} it does not have')
    add_all(ck, unknown, lambda e: (e.where in SIG or e.where + '.__init__' in SIG) and not e.plot and not e.raises and hasattr(e.thunk, 'given'), 'unknown/')

    # ---- further calls with every argument
    def more(c, path, mk):
        F, E = _cat(c)
        A = c.A
        f, args, kw, files = mk(A, F)
        same(c, A, c.where(path[:-9] if path.endswith('.__init__') else path), path, path, lambda a, k: call_entry(A, f, a, k), args, kw, files)

    def add(path, mk, tag=''):
        ck.add(f'all arguments/{path}{tag}', more, path, mk)

    def fn(path, args, kw=None, files=(), tag=''):
        add(path, lambda A, F: (path, list(args(A, F)), dict(kw(A, F)) if kw else {}, files), tag)

    def me(path, obj, args, kw=None, files=(), tag=''):
        add(path, lambda A, F: (A.I.getattr(obj(A, F), path.rsplit('.', 1)[1]) if not path.endswith('__call__') else obj(A, F),
                                list(args(A, F)), dict(kw(A, F)) if kw else {}, files), tag)
    knots = lambda A, F, k: A.arr([F.brk[0]] * k + F.brk + [F.brk[-1]] * k)      # noqa
    fn(MU + 'design_matrix', lambda A, F: [knots(A, F, 1), 2, 1, F.ins(), *F.pts(), 2, 'external'])
    fn(MU + 'power_spectrum', lambda A, F: [F.s('c', (8, 2)), F.r], lambda A, F: dict(nmax=1, source='external', axis=0))
    fn(MU + 'synth_values', lambda A, F: [F.s('c', 5), F.r, F.s('th', 2, 'theta'), F.s('ph', 3, 'phi')],
       lambda A, F: dict(nmax=2, nmin=2, mmax=2, source='external', grid=True))
    fn(MU + 'synth_from_pp', lambda A, F: [A.arr(F.brk), 2, F.s('c', (2, 2, 8)), F.ins(2), *F.pts(2)],
       lambda A, F: dict(nmax=1, source='external', deriv=1, grid=False))
    fn(CO + 'sh_analysis', lambda A, F: [A.client('import numpy as np\ndef f(theta, phi):\n    return np.cos(np.radians(theta)) + theta*phi\n')['f'], 2, 1])
    fn(CO + 'transform_vectors', lambda A, F: [F.s('th', 2, 'theta'), F.s('ph', 2, 'phi'), F.s('Bt', 2), F.s('Bp', 2), F.s('day', 2, 'day'), 'sm', True, F.s('dip', 3, 'gap')])
    fn(DU + 'mjd2000', lambda A, F: [A.arr([v], INT) for v in (2004, 3, 5, 7, 11, 13, 17, 19)])
    fn(DU + 'save_shcfile', lambda A, F: [F.s('mj', 3, 'mjd'), F.s('c', (3, 5)), 3, '/out/a.shc', 2, 2, False, '# x\n'], files=['/out/a.shc'])

    def infile(A, F):
        A.put('/data/k.shc', shc(2, 1, 1, 1, [2001.25, 2003.5, 2004.75]))
        return ['/data/k.shc']
    fn(DU + 'load_shcfile', lambda A, F: infile(A, F) + [False, ('#', 'c')])
    me('chaos.BaseModel.from_shc', lambda A, F: A.get('chaos.BaseModel'), infile, lambda A, F: dict(name='q', leap_year=True, source='external', meta=DDict({'a': 1})))
    me('chaos.CHAOS.from_shc', lambda A, F: A.get('chaos.CHAOS'), infile, lambda A, F: dict(name='q', leap_year=True))
    fn('chaos.load_CHAOS_shcfile', lambda A, F: infile(A, F) + ['q', True])
    for f, txt in (('load_IGRF_txtfile', IGRF), ('load_CovObs_txtfile', COVOBS), ('load_gufm1_txtfile', GUFM), ('load_CALS7K_txtfile', CALS)):
        def put(A, F, txt=txt, f=f):
            A.put(f'/data/{f}.t', txt)
            return [f'/data/{f}.t', 'q']
        fn('chaos.' + f, put)

    def series(A, F):
        return [rcfile(A, 'dat', '/data/RCs.dat', tag='f')[0]]
    fn(DU + 'save_RC_h5file', lambda A, F: ['/out/x.h5'] + series(A, F), files=['/out/x.h5'])
    for cls, args in (('Base', lambda A, F: ['b', A.arr(F.brk), 2, F.s('c', (2, 2, 3)), DDict({'a': 1})]),
                      ('BaseModel', lambda A, F: ['b', A.arr(F.brk), 2, F.s('c', (2, 2, 3)), 'external', DDict({'a': 1})])):
        add(f'chaos.{cls}.__init__', lambda A, F, cls=cls, args=args: ('chaos.' + cls, args(A, F), {}, ()))
    me('chaos.BaseModel.from_bspline', lambda A, F: A.get('chaos.BaseModel'),
       lambda A, F: ['x', knots(A, F, 2), F.s('bc', (4, 3)), 3, 'external', DDict({'a': 1})])
    me('chaos.Base.save_matfile', lambda A, F: F.base, lambda A, F: ['/out/p.mat', '/a/pp'], files=['/out/p.mat'])
    me('chaos.Base.synth_coeffs', lambda A, F: A.new('chaos.Base', 'b', A.arr(F.brk), 3, F.s('bc', (3, 2, 4))), lambda A, F: [F.ts(2)],
       lambda A, F: dict(dim=2, deriv=1, extrapolate='constant'))
    m = lambda A, F: F.C.m       # noqa
    me('chaos.CHAOS.__call__', m, lambda A, F: [F.ins(2), *F.pts(2), F.s('re', 2), F.s('ri', 2), LList(['tdep', 'static', 'sm']), 1, True])
    me('chaos.CHAOS.synth_values_sm', m, lambda A, F: [F.ins(2), *F.pts(2)],
       lambda A, F: dict(rc_e=F.s('re', 2), rc_i=F.s('ri', 2), nmax=1, source='all', grid=False))
    for k in ('gsm', 'sm'):
        me(f'chaos.CHAOS.synth_coeffs_{k}', m, lambda A, F: [F.ins(2)],
           lambda A, F, k=k: dict(nmax=1, source='internal', **({} if k == 'gsm' else dict(rc=F.s('rc', 2)))))
    me('chaos.CHAOS.synth_values_gsm', m, lambda A, F: [F.t, F.r, F.s('th', 2, 'theta'), F.s('ph', 2, 'phi')], lambda A, F: dict(nmax=1, source='internal', grid=True))
    me('chaos.CHAOS.synth_values_tdep', m, lambda A, F: [F.t, F.r, F.s('th', 2, 'theta'), F.s('ph', 2, 'phi')],
       lambda A, F: dict(nmax=1, deriv=1, grid=True, extrapolate='constant'))
    me('chaos.CHAOS.synth_euler_angles', m, lambda A, F: [F.ts(2), 'swarm_b'], lambda A, F: dict(dim=2, deriv=1, extrapolate='constant'))
    me('chaos.BaseModel.synth_values', lambda A, F: F.base, lambda A, F: [F.t, F.r, F.s('th', 2, 'theta'), F.s('ph', 2, 'phi')],
       lambda A, F: dict(nmax=1, deriv=1, grid=True, extrapolate='constant'))
    me('chaos.BaseModel.power_spectrum', lambda A, F: F.base, lambda A, F: [F.t, F.r], lambda A, F: dict(nmax=1, deriv=1, extrapolate='constant'))
    me('chaos.CHAOS.plot_maps_external', m, lambda A, F: [F.t, sym('rm', 'radius')], lambda A, F: dict(nmax=1, reference='gsm', source='external'))
    me('chaos.CHAOS.plot_maps_tdep', m, lambda A, F: [F.t, sym('rm', 'radius')], lambda A, F: dict(nmax=1, deriv=1))
    me('chaos.CHAOS.plot_maps_static', m, lambda A, F: [sym('rm', 'radius')], lambda A, F: dict(nmax=1))

    # ---- MAT-files: everything the file holds is given
    def mat(c, cls):
        F, E = _cat(c)
        A = c.A
        path = 'chaos.CHAOS.from_mat' if cls else 'chaos.load_CHAOS_matfile'
        A.put('/data/k.mat')
        A.I.overrides['chaosmagpy.data_utils.load_matfile'] = lambda I, a, k: matcontents(A, F.brk)
        g = A.I.getattr(A.get('chaos.CHAOS'), 'from_mat') if cls else A.get('chaos.load_CHAOS_matfile')
        try:
            same(c, A, c.where(path), path, path, lambda a, k: call_entry(A, g, a, k), ['/data/k.mat', 'q', LList(['a', 'b'])], {})
        finally:
            del A.I.overrides['chaosmagpy.data_utils.load_matfile']
    for cls in (False, True):
        ck.add(f'all arguments/{"CHAOS.from_mat" if cls else "load_CHAOS_matfile"}', mat, cls)

    # ---- configuration
    CONF = [('setdefault', ['params.r_surf', 6000.5], {}), ('reset', ['params.r_surf'], {}), ('load', ['/data/conf.txt'], {}),
            ('save', ['/out/conf.txt'], {}), ('context', ['params.r_surf', 6000.5], {})]

    def conf(c, name, args):
        A = c.an()
        path = 'config_utils.BasicConfig.' + name
        w = c.where(path)
        A.put('/data/conf.txt', '# a\nparams.r_surf : 6123.25\n')
        pos = SIG[path][0]
        f = A.client('def f(c, name, a, k):\n    c["params.r_surf"] = 6200.75\n    try:\n        r = getattr(c, name)(*a, **k)\n'
                     '        if name == "context":\n            with r:\n                return dict(c), dict(c)\n'
                     '    except (KeyError, ValueError) as e:\n        return str(e), dict(c)\n    return r, dict(c)\n')['f']
        run = lambda a, k: A.run(lambda: A.I.call(f, [cfg(A), name, LList(list(a)), DDict(dict(k))], {}))      # noqa
        compare(c, w, run(args, {}), run([], dict(zip(pos, args))), f'BasicConfig.{name}: arguments given by name', words=WORDS)
    for name, args, _ in CONF:
        ck.add(f'configuration/{name}', conf, name, args)
