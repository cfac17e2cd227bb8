"""missing components, unknown options, colatitude range and poles, periods of validity"""
import itertools
import re
from . import oracle as S
from .common import *
from .synth import elems, oarr

COMP = ('tdep', 'static', 'gsm', 'sm', 'delta', 'euler')


def evaluations(A, M, brk, plots=True):
    """(name, needed components, thunk) of every evaluation, plot and text export of the composite model"""
    m = M.m
    t, r, th, ph = inside(brk), *point()
    g = (A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'))
    rc = dict(rc_e=sym('re'), rc_i=sym('ri'))
    out = []

    def add(label, need, name, *a, writes=False, **k):
        f = (lambda: A.I.call(m, list(a), dict(k))) if name == '__call__' else (
            lambda: A.I.call(A.I.getattr(m, name), list(a), dict(k)))
        out.append((label, frozenset(need), f, f'chaos.CHAOS.{name}', writes))
    T_, S_, G, SM, E = {'tdep'}, {'static'}, {'gsm', 'static'}, {'sm', 'delta'}, {'euler'}
    add('synth_coeffs_tdep', T_, 'synth_coeffs_tdep', t)
    add('synth_coeffs_tdep/options', T_, 'synth_coeffs_tdep', t, nmax=1, deriv=1, extrapolate='off')
    add('synth_values_tdep', T_, 'synth_values_tdep', t, r, th, ph)
    add('synth_values_tdep/grid', T_, 'synth_values_tdep', t, r, *g, grid=True)
    add('synth_coeffs_static', S_, 'synth_coeffs_static')
    add('synth_coeffs_static/nmax', S_, 'synth_coeffs_static', nmax=1)
    add('synth_values_static', S_, 'synth_values_static', r, th, ph)
    add('synth_values_static/nmax', S_, 'synth_values_static', r, th, ph, nmax=1)
    for s in ('external', 'internal'):
        add(f'synth_coeffs_gsm/{s}', G, 'synth_coeffs_gsm', t, source=s)
        add(f'synth_coeffs_sm/{s}', SM, 'synth_coeffs_sm', t, source=s, rc=sym('rc'))
        add(f'synth_values_gsm/{s}', G, 'synth_values_gsm', t, r, th, ph, source=s)
        add(f'synth_values_sm/{s}', SM, 'synth_values_sm', t, r, th, ph, source=s, **rc)
    add('synth_coeffs_gsm', G, 'synth_coeffs_gsm', t)
    add('synth_coeffs_gsm/nmax', G, 'synth_coeffs_gsm', t, nmax=1)
    add('synth_coeffs_sm/file', SM, 'synth_coeffs_sm', t_rc(A, brk))
    add('synth_coeffs_sm/nmax', SM, 'synth_coeffs_sm', t, nmax=1, rc=sym('rc'))
    add('synth_values_gsm', G, 'synth_values_gsm', t, r, th, ph)
    add('synth_values_sm', SM, 'synth_values_sm', t, r, th, ph, **rc)
    add('synth_euler_angles', E, 'synth_euler_angles', t, 'swarm_b')
    add('synth_euler_angles/options', E, 'synth_euler_angles', t, 'swarm_a', dim=2, deriv=0, extrapolate='off')
    add('save_shcfile', T_, 'save_shcfile', '/out/m.shc', writes=True)
    add('save_shcfile/tdep', T_, 'save_shcfile', '/out/m.shc', model='tdep', leap_year=True, writes=True)
    add('save_shcfile/static', S_, 'save_shcfile', '/out/m.shc', model='static', writes=True)
    src = dict(tdep=T_, static=S_, gsm=G, sm=SM)
    for k in range(1, 5):
        for c in itertools.combinations(src, k):
            add('call/' + '+'.join(c), set().union(*(src[x] for x in c)), '__call__', t, r, th, ph, source_list=LList(list(c)), **rc)
    add('call', T_ | S_ | G | SM, '__call__', t, r, th, ph, **rc)
    add('call/internal', T_ | S_, '__call__', t, r, th, ph, source_list='internal')
    add('call/external', G | SM, '__call__', t, r, th, ph, source_list='external', **rc)
    add('call/verbose', T_, '__call__', t, r, th, ph, source_list='tdep', verbose=True)
    if plots:
        add('plot_timeseries_tdep', T_, 'plot_timeseries_tdep', r, th, ph)
        add('plot_maps_tdep', T_, 'plot_maps_tdep', t, r)
        add('plot_maps_tdep/options', T_, 'plot_maps_tdep', t, r, nmax=1, deriv=1)
        add('plot_maps_static', S_, 'plot_maps_static', r)
        add('plot_maps_static/options', S_, 'plot_maps_static', r, nmax=1)
        for ref, n in (('gsm', G), ('sm', SM), ('all', G | SM)):
            for s in ('all', 'external', 'internal'):
                add(f'plot_maps_external/{ref}/{s}', n, 'plot_maps_external', t_rc(A, brk), r, reference=ref, source=s)
    return out


def t_rc(A, brk):
    """a time inside the period of the model and of the RC index"""
    return sym('trc') if getattr(A, 'trc', None) is None else A.trc


def rc_covering(A, brk):
    """an RC file whose period covers the model's"""
    ts = [before(brk, 'rcpre'), inside(brk, 'rcin'), after(brk, 'rcpost')]
    cols = {k: A.syms('rc' + k, 3) for k in ('RC', 'RC_e', 'RC_i')}
    A.put(LIB + 'RC_index.h5', DDict({'time': A.arr(ts), **cols, 'flag': new_arr(np.array(['D'] * 3, dtype=object), U)}))
    A.trc = inside(brk, 'u')


@rule('C07', 'Asking for a missing model component raises a value error',
      'exception-flow analysis over the lattice of component subsets: must-raise where a needed one is missing, '
      'value-graph equality with the complete model where none is')
def c07(ck):
    def setup(c):
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        rc_covering(A, brk)
        return A, brk

    def make(A, brk, present):
        return Chaos(A, order=2, pieces=2, n=1, nstat=2, brk=brk, **{k: k in present for k in COMP})

    def subsets(c, need, all_):
        rest = [x for x in COMP if x not in need]
        others = [set(), set(rest)] + [set(rest) - {x} for x in rest] + [{x} for x in rest]
        if all_:
            others = [set(s) for k in range(len(rest) + 1) for s in itertools.combinations(rest, k)]
        seen = set()
        for o in others:
            for k in range(len(need) + 1):
                for part in itertools.combinations(sorted(need), k):
                    s = frozenset(o | set(part))
                    if s not in seen:
                        seen.add(s)
                        yield s

    def names():
        A = An(ROOT)
        A.push()
        fulllib(A)
        brk = breaks_syms(3)
        rc_covering(A, brk)
        try:
            return [(x[0], x[3]) for x in evaluations(A, make(A, brk, set(COMP)), brk)]
        finally:
            A.pop()

    def one(c, label):
        A, brk = setup(c)
        full = [x for x in evaluations(A, make(A, brk, set(COMP)), brk) if x[0] == label][0]
        _, need, f, where, writes = full
        plot = 'plot' in label
        ref = A.run(f)
        c.returns(ref, where, f'{label} of the complete model')
        drawn = lambda r: [(e['path'], e['s']) for e in r.evs('opaque_call') if e['path'].split('.')[-1] in ('pcolormesh', 'plot')]  # noqa
        for s in subsets(c, need, c.thorough):
            A.push()
            try:
                M = make(A, brk, s)
                x = [y for y in evaluations(A, M, brk) if y[0] == label][0]
                missing = need - s
                has = f'with {", ".join(sorted(s)) or "no part"} present'
                if missing:
                    r = A.run(x[2])
                    c.always_raises(r, ValueError, where, f'{label} without {", ".join(sorted(missing))} ({has})')
                    if writes:
                        for o in r.raises:
                            c.ok('/out/m.shc' not in o.fs, where, f'{label}: file written although a component is missing')
                    if plot:
                        c.ok(not drawn(r), where, f'{label}: plotted although a component is missing')
                elif not plot or s == need:
                    r = A.run(x[2])
                    c.returns(r, where, f'{label} {has}')
                    if plot:
                        c.equal([e[1] for e in drawn(r)], [e[1] for e in drawn(ref)], where, f'{label} {has}: drawn values')
                    elif not writes:
                        c.equal(r.value, ref.value, where, f'{label} {has}')
            finally:
                A.pop()
    try:
        labs = names()
    except Exception as ex:
        def bad(c, ex=ex):
            raise Undecided(f'catalogue: {type(ex).__name__} {ex}')
        ck.add('catalogue', bad)
        labs = []
    for l, w in labs:
        ck.add(l, one, l)

    def offsets(c, which):
        A, brk = setup(c)
        M = make(A, brk, set(COMP))
        d = {k: v for k, v in M.parts.items() if k != which}
        m = A.new('chaos.CHAOS', A.arr(brk), 2, **d)
        t, r, th, ph = inside(brk), *point()
        for s in ('external', 'internal', None):
            r1 = A.method(m, 'synth_coeffs_sm', t, source=s, rc=sym('rc'))
            c.always_raises(r1, ValueError, 'chaos.CHAOS.synth_coeffs_sm', f'synth_coeffs_sm without {which}')
        r1 = A.method(m, 'synth_values_sm', t, r, th, ph, rc_e=sym('a'), rc_i=sym('b'))
        c.always_raises(r1, ValueError, 'chaos.CHAOS.synth_values_sm', f'synth_values_sm without {which}')
    for w in ('breaks_delta', 'coeffs_delta'):
        ck.add(f'RC offsets/{w}', offsets, w)

    def nocoeffs(c, cls, how):
        A, brk = setup(c)
        co = A.arr(np.zeros((2, 2, 0))) if how == 'empty' else None
        m = A.new(f'chaos.{cls}', 'x', A.arr(brk), 2, co)
        t, r, th, ph = inside(brk), *point()
        g = (A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'))
        calls = [('synth_coeffs', (t,), {}), ('synth_coeffs', (A.arr([t, before(brk)]),), dict(deriv=1)),
                 ('synth_coeffs', (t,), dict(extrapolate='off'))]
        if cls == 'BaseModel':
            calls += [('synth_coeffs', (t,), dict(nmax=1)), ('synth_values', (t, r, th, ph), {}),
                      ('synth_values', (t, r, th, ph), dict(nmax=1)), ('synth_values', (t, r, *g), dict(grid=True, deriv=1)),
                      ('power_spectrum', (t,), {}), ('power_spectrum', (t, r), dict(nmax=1)),
                      ('plot_power_spectrum', (t,), {}), ('plot_maps', (t, r), {}), ('plot_maps', (t, r), dict(nmax=1)),
                      ('plot_timeseries', (r, th, ph), {}), ('to_shc', ('/out/m.shc',), {}),
                      ('to_shc', ('/out/m.shc',), dict(nmin=1, nmax=1, leap_year=True))]
        else:
            calls += [('synth_coeffs', (t,), dict(dim=1))]
        for name, a, k in calls:
            if how == 'empty' and name == 'to_shc':
                continue
            q = A.method(m, name, *a, **k)
            opt = f' with {", ".join(k)}' if k else ''
            c.always_raises(q, ValueError, f'chaos.{cls}.{name}', f'{name}{opt} of a model without coefficients')
            for o in q.raises:
                c.ok('/out/m.shc' not in o.fs, f'chaos.{cls}.{name}', f'{name}: file written although coefficients are missing')
    for cls in ('Base', 'BaseModel'):
        for how in ('none', 'empty'):
            ck.add(f'{cls} without coefficients/{how}', nocoeffs, cls, how)


BAD = ('nonsense', 'Internal ', 'int', None)


@rule('C08', 'Unknown option values are rejected, documented ones accepted',
      'exception-flow analysis of every option that takes a name: must-raise for any name outside the documented list, '
      'may-not-raise for the documented ones')
def c08(ck):
    def cases(A, brk, M, B, X):
        """(label, where, documented values, call(value), extra undocumented values)"""
        P = (A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'))
        t = inside(brk)
        day = A.syms('day', 2, 'day')
        out = []

        def fn(label, name, good, f, bad=()):
            out.append((label, name, good, f, bad))

        def call(name, *a, **k):
            return lambda v, key: A.I.call(A.get(name), list(a), {**k, key: v})
        co = A.syms('c', 8)
        fn('synth_values source', MU + 'synth_values', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'synth_values'), [co, *P], dict(source=v)), ('toroidal', 'all', 'INTERNAL', 'i'))
        fn('synth_values source, grid', MU + 'synth_values', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'synth_values'), [co, P[0].get()[0], P[1], P[2]], dict(source=v, grid=True)), ('all',))
        fn('synth_values source, poles', MU + 'synth_values', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'synth_values'), [co, P[0], A.arr([T.num(0), T.num(180)]), P[2]], dict(source=v)), ('all',))
        fn('synth_values source, truncated', MU + 'synth_values', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'synth_values'), [co, *P], dict(source=v, nmin=1, nmax=1, mmax=0)), ('all',))
        fn('design_gauss source', MU + 'design_gauss', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'design_gauss'), [*P, 2], dict(source=v)), ('toroidal', 'all', 'ext'))
        fn('design_gauss source, truncated', MU + 'design_gauss', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'design_gauss'), [*P, 2], dict(source=v, nmin=2, mmax=0)), ('all',))
        fn('synth_from_pp source', MU + 'synth_from_pp', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'synth_from_pp'), [A.arr(brk), 2, A.syms('c', (2, 2, 3)), A.arr([t, t]), *P], dict(source=v)),
           ('all',))
        fn('design_matrix source', MU + 'design_matrix', ('internal', 'external'),
           lambda v: A.I.call(A.get(MU + 'design_matrix'), [A.arr([brk[0]] + brk + [brk[-1]]), 2, 1, A.arr([t, t]), *P], dict(source=v)),
           ('all',))
        fn('power_spectrum source', MU + 'power_spectrum', ('internal', 'external', 'toroidal'),
           lambda v: A.I.call(A.get(MU + 'power_spectrum'), [co, P[0].get()[0]], dict(source=v)), ('poloidal', 'all', 'i'))

        def bm(name, *a, **k):
            def f(v):
                m = A.I.call(A.get('chaos.BaseModel'), ['x', A.arr(brk), 2, A.syms('c', (2, 2, 3))], dict(source=v))
                return A.I.call(A.I.getattr(m, name), list(a), dict(k))
            return f
        fn('BaseModel source/synth_values', 'chaos.BaseModel.synth_values', ('internal', 'external'), bm('synth_values', t, *P), ('all',))
        fn('BaseModel source/power_spectrum', 'chaos.BaseModel.power_spectrum', ('internal', 'external', 'toroidal'),
           bm('power_spectrum', t), ('all',))
        for inv in (False, True):
            for tm in (False, True):
                dd = day if tm else None
                fn(f'transform_points reference/{inv}/{tm}', CO_ + 'transform_points', ('gsm', 'sm', 'mag') if tm else ('mag',),
                   lambda v, inv=inv, dd=dd: A.I.call(A.get(CO_ + 'transform_points'), [P[1], P[2]] + ([dd] if dd is not None else []),
                                                      dict(reference=v, inverse=inv)), ('geo', 'gse', 'gsmm', 's'))
                fn(f'transform_vectors reference/{inv}/{tm}', CO_ + 'transform_vectors', ('gsm', 'sm', 'mag') if tm else ('mag',),
                   lambda v, inv=inv, dd=dd: A.I.call(A.get(CO_ + 'transform_vectors'),
                                                      [P[1], P[2], A.syms('Bt', 2), A.syms('Bp', 2)] + ([dd] if dd is not None else []),
                                                      dict(reference=v, inverse=inv)), ('geo', 'gse', 'gsmm', 'm'))
        fn('rotate_gauss_fft reference', CO_ + 'rotate_gauss_fft', ('gsm', 'sm'), lambda v: A.I.call(
            A.get(CO_ + 'rotate_gauss_fft'), [1, 1], dict(reference=v, N=4, filter=1, qfunc=A.qf)), ('mag', 'geo', 'gse'))
        fn('igrf_dipole epoch', CO_ + 'igrf_dipole', ('2010', '2015', None),
           lambda v: A.I.call(A.get(CO_ + 'igrf_dipole'), [v], {}), ('2020', '2005', '201', 'igrf', '20100'))
        per, sig, rad = A.syms('per', 2, 'gap'), A.syms('sig', 2, 'gap'), A.arr([6371., 6000.])
        fn('q_response_1D kind', CO_ + 'q_response_1D', ('quadratic', None),
           lambda v: A.I.call(A.get(CO_ + 'q_response_1D'), [per, sig, rad, 1], dict(kind=v)), ('linear', 'cubic', 'quad'))
        # times outside the period: the method matters
        ext = ('linear', 'quadratic', 'cubic', 'constant', 'spline', 'off', None, 1, 2, 3, 0, True, False)
        xbad = ('lin', 'none', 'on', 'quartic', 'Linear', 'nearest')
        for tag, tt in (('before', before(brk)), ('after', after(brk)), ('mixed', A.arr([inside(brk), after(brk)]))):
            fn(f'extrapolate/{tag}', 'chaos.Base.synth_coeffs', ext,
               lambda v, tt=tt: A.I.call(A.I.getattr(B, 'synth_coeffs'), [tt], dict(extrapolate=v)), xbad)
        tt = A.arr([before(brk), after(brk)])
        fn('extrapolate/synth_values', 'chaos.BaseModel.synth_values', ext,
           lambda v: A.I.call(A.I.getattr(B, 'synth_values'), [tt, *P], dict(extrapolate=v)), xbad)
        fn('extrapolate/synth_values_tdep', 'chaos.CHAOS.synth_values_tdep', ext,
           lambda v: A.I.call(A.I.getattr(M.m, 'synth_values_tdep'), [tt, *P], dict(extrapolate=v)), xbad)
        fn('extrapolate/synth_coeffs_tdep', 'chaos.CHAOS.synth_coeffs_tdep', ext,
           lambda v: A.I.call(A.I.getattr(M.m, 'synth_coeffs_tdep'), [tt], dict(extrapolate=v)), xbad)
        fn('extrapolate/synth_euler_angles', 'chaos.CHAOS.synth_euler_angles', ext,
           lambda v: A.I.call(A.I.getattr(M.m, 'synth_euler_angles'), [tt, 'swarm_a'], dict(extrapolate=v)), xbad)
        fn('save_shcfile model', 'chaos.CHAOS.save_shcfile', ('tdep', 'static', None),
           lambda v: A.I.call(A.I.getattr(M.m, 'save_shcfile'), ['/out/x.shc'], dict(model=v)), ('gsm', 'sm', 'internal', 'TDEP', 'all'))
        fn('synth_euler_angles satellite', 'chaos.CHAOS.synth_euler_angles', ('swarm_a', 'swarm_b'),
           lambda v: A.I.call(A.I.getattr(M.m, 'synth_euler_angles'), [t, v], {}), ('swarm_c', 'swarm', 'a', 'oersted'))
        for s, allowed in (('coeffs', ('external', 'internal', None)), ('values', ('external', 'internal', 'all', None))):
            a = (A.trc,) if s == 'coeffs' else (A.trc, P[0].get()[0], P[1].get()[0], P[2].get()[0])
            for fr in ('gsm', 'sm'):
                bad = ('both', 'ext', 'tdep') + (('all',) if s == 'coeffs' else ())
                fn(f'synth_{s}_{fr} source', f'chaos.CHAOS.synth_{s}_{fr}', allowed,
                   lambda v, s=s, fr=fr, a=a: A.I.call(A.I.getattr(M.m, f'synth_{s}_{fr}'), list(a), dict(source=v)), bad)
                if fr == 'sm':
                    k = dict(rc=sym('rc')) if s == 'coeffs' else dict(rc_e=sym('re'), rc_i=sym('ri'))
                    fn(f'synth_{s}_{fr} source, given RC', f'chaos.CHAOS.synth_{s}_{fr}', allowed,
                       lambda v, s=s, fr=fr, a=a, k=k: A.I.call(A.I.getattr(M.m, f'synth_{s}_{fr}'), list(a), dict(source=v, **k)), bad)
        for ref in ('gsm', 'sm', 'all'):
            fn(f'plot_maps_external source/{ref}', 'chaos.CHAOS.plot_maps_external', ('all', 'external', 'internal', None),
               lambda v, ref=ref: A.I.call(A.I.getattr(M.m, 'plot_maps_external'), [A.trc, P[0].get()[0]], dict(reference=ref, source=v)),
               ('both', 'ext'))
        fn('plot_maps_external reference', 'chaos.CHAOS.plot_maps_external', ('all', 'gsm', 'sm', None),
           lambda v: A.I.call(A.I.getattr(M.m, 'plot_maps_external'), [A.trc, P[0].get()[0]], dict(reference=v)),
           ('both', 'external', 'mag', 'geo'))
        rc = dict(rc_e=sym('re'), rc_i=sym('ri'))
        p = (t, P[0].get()[0], P[1].get()[0], P[2].get()[0])
        S4 = ('tdep', 'static', 'gsm', 'sm')
        lists = [('text', lambda v: v)] + [
            ('list', lambda v: LList([v])), ('tuple', lambda v: (v,)), ('second', lambda v: LList(['tdep', v])),
            ('first', lambda v: LList([v, 'static'])), ('between', lambda v: LList(['gsm', v, 'sm']))]
        for tag, wrap in lists:
            good = S4 + (('internal', 'external', None) if tag == 'text' else ())
            fn(f'source list/{tag}', 'chaos.CHAOS.__call__', good,
               lambda v, wrap=wrap: A.I.call(M.m, list(p), dict(source_list=wrap(v), **rc)),
               ('mag', 'crust', 'stat', 'tdep2', 'TDEP') + (('internal', 'external') if tag != 'text' else ()))
        return out
    CO_ = CU_ = 'coordinate_utils.'

    def setup(c):
        A = c.an() if c is not None else An(ROOT)
        if c is None:
            A.push()
        fulllib(A)
        brk = breaks_syms(3)
        rc_covering(A, brk)
        A.qf = A.client('def q(freq, k):\n    return 0.5\n')['q']
        M = Chaos(A, order=2, pieces=2, n=1, nstat=2, brk=brk)
        B, _, _ = basemodel(A, order=3, n=1, brk=brk, tag='bb')
        return A, cases(A, brk, M, B, None), A.dict

    def quiet(A):
        """rotation matrices and spectra of small size only"""
        z = lambda I, a, k: A.syms('rg', (4, 3, 3))      # noqa
        A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'] = z

    def good(c, label):
        A, cs, _ = setup(c)
        _, where, vals, f, _ = [x for x in cs if x[0] == label][0]
        if label.startswith('rotate_gauss_fft'):
            quiet(A)
        for v in vals:
            r = A.run(lambda: f(v))
            c.returns(r, where, f'{label} = {v!r}')

    def bad(c, label):
        A, cs, _ = setup(c)
        _, where, vals, f, more = [x for x in cs if x[0] == label][0]
        none = None in vals or label.split()[0] in ('synth_values', 'design_gauss', 'synth_from_pp', 'design_matrix', 'power_spectrum',
                                                    'BaseModel', 'rotate_gauss_fft') or label.startswith(
            ('synth_', 'source list', 'extrapolate', 'transform', 'plot'))
        for v in BAD + more:
            if v is None and none or v in vals:
                continue
            r = A.run(lambda: f(v))
            c.always_raises(r, ValueError, where, f'{label} = {v!r}')
            for o in r.raises:
                c.ok('/out/x.shc' not in o.fs, where, f'{label} = {v!r}: file written')
                # a message that lists choices lists the documented ones
                words = [x for x in vals if isinstance(x, str) and not (label.startswith('source list') and x.endswith('ternal'))]
                msg = o.msg if isinstance(o.msg, str) else ''
                has = lambda x: re.search(rf'(?<![A-Za-z0-9_]){re.escape(x)}(?![A-Za-z0-9_])', msg) is not None      # noqa: E731,B023
                if len(words) > 1 and any(has(x) for x in words):
                    for x in words:
                        c.ok(has(x), where, f'{label} = {v!r}: the message {msg!r} does not list {x!r}')
                    for x in (y for y in more if isinstance(y, str) and y != v):
                        if not label.startswith('transform'):
                            c.ok(not has(x), where, f'{label} = {v!r}: the message {msg!r} lists {x!r}, which is refused')
    try:
        A, cs, _ = setup(None)
        labs = [x[0] for x in cs]
        A.pop()
    except Exception as ex:
        def cat(c, ex=ex):
            raise Undecided(f'catalogue: {type(ex).__name__} {ex}')
        ck.add('catalogue', cat)
        labs = []
    for l in labs:
        if not l.startswith('q_response'):
            ck.add('accepted/' + l, good, l)
        ck.add('rejected/' + l, bad, l)

    def kind(c):
        A, cs, _ = setup(c)
        r = A.call(CO_ + 'q_response_1D', A.syms('per', 2, 'gap'), A.syms('sig', 2, 'gap'), A.arr([6371., 6000.]), 1, kind='quadratic')
        c.returns(r, CO_ + 'q_response_1D', 'quadratic conductivity')
        q = A.call(CO_ + 'q_response_1D', A.syms('per', 2, 'gap'), A.syms('sig', 2, 'gap'), A.arr([6371., 6000.]), 1)
        c.equal(r.value, q.value, CO_ + 'q_response_1D', 'default conductivity kind')
    ck.add('accepted/q_response_1D kind', kind)


@rule('C09', 'Colatitudes outside [0, 180] degrees are rejected, poles are handled',
      'path-condition analysis of the range check against the box [0, 180]; value-graph equality with the limit at the poles')
def c09(ck):
    kinds = dict(inner=lambda A, i: sym(f'th{i}', 'theta'), north=lambda A, i: T.num(0), south=lambda A, i: T.num(180),
                 below=lambda A, i: T.neg(sym(f'lo{i}', 'gap')), above=lambda A, i: T.add(T.num(180), sym(f'hi{i}', 'gap')),
                 tiny=lambda A, i: T.scale(sym(f'e{i}', 'gap'), -1e-3), over=lambda A, i: T.add(T.num(180), T.scale(sym(f'e{i}', 'gap'), 1e-3)),
                 hair_below=lambda A, i: T.num(-1e-11), hair_over=lambda A, i: T.num(180.00000000001),
                 hair_above=lambda A, i: T.num(1e-11), hair_under=lambda A, i: T.num(179.99999999999))
    out = ('below', 'above', 'tiny', 'over', 'hair_below', 'hair_over')

    def fns(A, src, n):
        co = A.syms('c', dim(2))
        r, ph = A.syms('r', n, 'radius'), A.syms('ph', n, 'phi')
        one = r.get()[0]
        f = {
            'synth_values': (MU + 'synth_values', lambda th: A.I.call(A.get(MU + 'synth_values'), [co, r, th, ph], dict(source=src))),
            'synth_values series': (MU + 'synth_values', lambda th: A.I.call(
                A.get(MU + 'synth_values'), [A.syms('c', (n, dim(2))), r, th, ph], dict(source=src))),
            'synth_values grid': (MU + 'synth_values', lambda th: A.I.call(
                A.get(MU + 'synth_values'), [co, one, th, ph], dict(source=src, grid=True))),
            'synth_values broadcast': (MU + 'synth_values', lambda th: A.I.call(
                A.get(MU + 'synth_values'), [co, one, A.I.call(A.I.getattr(th, 'reshape'), [(n, 1)], {}), ph], dict(source=src))),
            'synth_values nmin mmax': (MU + 'synth_values', lambda th: A.I.call(
                A.get(MU + 'synth_values'), [A.syms('c', 3), r, th, ph], dict(source=src, nmin=2, nmax=2, mmax=1))),
            'design_gauss': (MU + 'design_gauss', lambda th: A.I.call(A.get(MU + 'design_gauss'), [r, th, ph, 2], dict(source=src))),
            'design_gauss nmin mmax': (MU + 'design_gauss', lambda th: A.I.call(
                A.get(MU + 'design_gauss'), [r, th, ph, 2], dict(source=src, nmin=2, mmax=1))),
            'design_matrix': (MU + 'design_matrix', lambda th: A.I.call(A.get(MU + 'design_matrix'), [
                A.arr([T.num(0)] * 2 + [T.num(9)] * 2), 2, 1, A.arr([T.num(1)] * n), r, th, ph], dict(source=src))),
            'design_matrix static': (MU + 'design_matrix', lambda th: A.I.call(A.get(MU + 'design_matrix'), [
                A.arr([T.num(0), T.num(4), T.num(9)]), 1, 1, A.arr([T.num(k) for k in range(n)]), r, th, ph], dict(source=src, n_static=2))),
        }
        return f
    FN = ('synth_values', 'synth_values series', 'synth_values grid', 'synth_values broadcast', 'synth_values nmin mmax', 'design_gauss',
          'design_gauss nmin mmax', 'design_matrix', 'design_matrix static')

    def rng(c, src, name):
        A = c.an()
        mixes = [(k,) for k in kinds] + [m for m in itertools.product(('inner', 'north', 'south', 'below', 'above'), repeat=2)]
        mixes += [('inner', 'tiny'), ('over', 'inner'), ('north', 'tiny'), ('over', 'south'), ('tiny', 'south')]
        mixes += [m for m in itertools.permutations(('north', 'inner', 'below'))] + [
            m for m in itertools.permutations(('south', 'inner', 'above'))] + [('north', 'south', 'inner'), ('inner', 'north', 'south')]
        if c.thorough:
            mixes += list(itertools.product(kinds, repeat=3))
        for m in mixes:
            th = A.arr([kinds[k](A, i) for i, k in enumerate(m)])
            w, f = fns(A, src, len(m))[name]
            r = A.run(lambda: f(th))
            if any(k in out for k in m):
                c.always_raises(r, ValueError, w, f'{name} with colatitudes {m}')
            else:
                c.returns(r, w, f'{name} with colatitudes {m}')

    for src in ('internal', 'external'):
        for n in FN:
            ck.add(f'range/{src}/{n}', rng, src, n)

    def scalar(c, src):
        A = c.an()
        r, ph = sym('r', 'radius'), sym('ph', 'phi')
        for k in kinds:
            th = kinds[k](A, 0)
            for name, f in (('synth_values', lambda: A.I.call(A.get(MU + 'synth_values'), [A.syms('c', 8), r, th, ph], dict(source=src))),
                            ('synth_values of integers' if k in ('north', 'south') else 'synth_values of an array', lambda: A.I.call(
                                A.get(MU + 'synth_values'), [A.syms('c', 8), r, (0 if k == 'north' else 180) if k in ('north', 'south')
                                                             else A.arr(th), ph], dict(source=src))),
                            ('design_gauss', lambda: A.I.call(A.get(MU + 'design_gauss'), [r, th, ph, 2], dict(source=src)))):
                x = A.run(f)
                if k in out:
                    c.always_raises(x, ValueError, MU + name.split()[0], f'{name} of a single point, {k}')
                else:
                    c.returns(x, MU + name.split()[0], f'{name} of a single point, {k}')
    for src in ('internal', 'external'):
        ck.add(f'range/{src}/scalar', scalar, src)

    def free(c, src, f):
        # one symbolic colatitude anywhere: raises exactly outside the interval
        A = c.an()
        thx = T.scale(sym('w', 'real'), 300)
        r, ph = sym('r', 'radius'), sym('ph', 'phi')
        x = A.call(MU + f, *([A.syms('c', 3), r, thx, ph] if f == 'synth_values' else [r, thx, ph, 1]), source=src)
        want = T.bor(T.cmp('lt', thx, T.num(0)), T.cmp('lt', T.num(180), thx))
        c.cond_equal(x.raise_cond(ValueError), want, MU + f, f'{f}: value error')
        c.cond_equal(T.bor(*[o.cond for o in x.raises]) if x.raises else False, want, MU + f, f'{f}: error')
    for src in ('internal', 'external'):
        for f in ('synth_values', 'design_gauss'):
            ck.add(f'free colatitude/{src}/{f}', free, src, f)

    def wrappers(c):
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        M = Chaos(A, order=2, pieces=2, n=1, nstat=1, brk=brk)
        B, _, _ = basemodel(A, order=2, n=1, brk=brk, tag='bb')
        t, r = inside(brk), A.syms('r', 3, 'radius')
        ph = A.syms('ph', 3, 'phi')
        rc = dict(rc_e=sym('re'), rc_i=sym('ri'))
        for m in (('north', 'inner', 'below'), ('above', 'south', 'inner'), ('inner', 'inner', 'tiny')):
            th = A.arr([kinds[k](A, i) for i, k in enumerate(m)])
            for w, x in (('chaos.BaseModel.synth_values', A.method(B, 'synth_values', t, r, th, ph)),
                         ('chaos.CHAOS.synth_values_tdep', M.call('synth_values_tdep', t, r, th, ph)),
                         ('chaos.CHAOS.synth_values_static', M.call('synth_values_static', r, th, ph)),
                         ('chaos.CHAOS.synth_values_gsm', M.call('synth_values_gsm', t, r, th, ph)),
                         ('chaos.CHAOS.synth_values_sm', M.call('synth_values_sm', t, r, th, ph, **rc)),
                         ('chaos.CHAOS.__call__', M.query(t, r, th, ph, **rc)),
                         (MU + 'synth_from_pp', A.call(MU + 'synth_from_pp', A.arr(brk), 2, A.syms('c', (2, 2, 3)),
                                                       A.arr([t] * 3), r, th, ph))):
                c.always_raises(x, ValueError, w, f'colatitudes {m}')
    ck.add('range/model methods', wrappers)

    def poles(c, src, kind, nmax):
        # the value at a pole is the limit along the meridian, other points unaffected
        A = c.an()
        rs = setr_(A)
        th = A.arr([kinds[k](A, i) for i, k in enumerate(kind)])
        n = len(kind)
        r, ph = A.syms('r', n, 'radius'), A.syms('ph', n, 'phi')
        co = A.syms('c', dim(nmax))
        x = A.call(MU + 'synth_values', co, r, th, ph, source=src)
        v = c.returns(x, MU + 'synth_values', f'colatitudes {kind}')
        want = [S.field(co.get(), src, r.get()[i], th.get()[i], ph.get()[i], rs, 1, nmax) for i in range(n)]
        for j, name in enumerate(('radial', 'colatitude', 'azimuth')):
            c.equal(v[j], SA(np.array([x_[j] for x_ in want], dtype=object), F, False), MU + 'synth_values',
                    f'{name} component at points of kind {", ".join(kind)}')

    def design_poles(c, src, kind):
        A = c.an()
        th = A.arr([kinds[k](A, i) for i, k in enumerate(kind)])
        n = len(kind)
        r, ph = A.syms('r', n, 'radius'), A.syms('ph', n, 'phi')
        co = A.syms('c', dim(2))
        x = A.call(MU + 'synth_values', co, r, th, ph, source=src)
        d = A.call(MU + 'design_gauss', r, th, ph, 2, source=src)
        v, w = c.returns(x, MU + 'synth_values', 'poles'), c.returns(d, MU + 'design_gauss', 'poles')
        want = [[T.add(*[T.mul(a, b) for a, b in zip(w[j].v[i], co.get())]) for i in range(n)] for j in range(3)]
        c.equal(tuple(v), tuple(SA(np.array(x_, dtype=object), F, False) for x_ in want), MU + 'design_gauss',
                'design matrix times coefficients at the poles')
        for f, q in (('synth_values', x), ('design_gauss', d)):
            c.ok(any(c.sat(e['cond'], 4) for e in q.evs('warn')), MU + f, f'{f}: no warning at the poles')

    def silent(c, src):
        A = c.an()
        r, th, ph = A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')
        for f, a in (('synth_values', [A.syms('c', 8), r, th, ph]), ('design_gauss', [r, th, ph, 2])):
            x = A.call(MU + f, *a, source=src)
            c.returns(x, MU + f, 'interior points')
            c.ok(not any(c.sat(e['cond'], 8) for e in x.evs('warn')), MU + f, f'{f}: warning although no point is at a pole')

    def setr_(A):
        return cfgval(A, 'params.r_surf') if not isinstance(cfgval(A, 'params.r_surf'), Arr) else cfgval(A, 'params.r_surf').get()[()]

    K = [('north',), ('south',), ('north', 'south'), ('inner', 'north'), ('south', 'inner', 'north')]
    for src in ('internal', 'external'):
        ck.add(f'no warning without poles/{src}', silent, src)
        for k in K:
            ck.add(f'limit/{src}/{"+".join(k)}', poles, src, k, 2)
            ck.add(f'design/{src}/{"+".join(k)}', design_poles, src, k)
        ck.add(f'limit/{src}/degree 4', poles, src, ('north', 'south'), 4)


@rule('C10', 'Evaluation outside the model period is never silent',
      'path-condition equality of every warning and error with "some time outside the period"; not-a-number propagation')
def c10(ck):
    WHO = ('Base', 'BaseModel', 'values', 'tdep', 'values_tdep', 'euler', 'gsm ext', 'gsm int', 'sm ext', 'sm int', 'values_gsm',
           'values_sm', 'call')

    def calls(A, brk):
        M = Chaos(A, order=2, pieces=2, n=1, nstat=1, brk=brk)
        B, _, _ = basemodel(A, order=3, n=1, brk=brk, tag='bb')
        Z, _, _ = basemodel(A, order=3, n=2, brk=brk, tag='zz', cls='chaos.Base')
        r, th, ph = point()
        rc = dict(rc_e=sym('re'), rc_i=sym('ri'))
        me = lambda o, n, *a, **k: (lambda t, **kw: A.I.call(A.I.getattr(o, n), [t, *a], {**k, **kw}))      # noqa
        return M, {
            'Base': ('chaos.Base.synth_coeffs', me(Z, 'synth_coeffs')), 'BaseModel': ('chaos.Base.synth_coeffs', me(B, 'synth_coeffs')),
            'values': ('chaos.BaseModel.synth_values', me(B, 'synth_values', r, th, ph)),
            'tdep': ('chaos.CHAOS.synth_coeffs_tdep', me(M.m, 'synth_coeffs_tdep')),
            'values_tdep': ('chaos.CHAOS.synth_values_tdep', me(M.m, 'synth_values_tdep', r, th, ph)),
            'euler': ('chaos.Base.synth_coeffs', me(A.I.getitem(A.I.getattr(M.m, 'model_euler'), 'swarm_b'), 'synth_coeffs')),
            'gsm ext': ('chaos.CHAOS.synth_coeffs_gsm', me(M.m, 'synth_coeffs_gsm', source='external')),
            'gsm int': ('chaos.CHAOS.synth_coeffs_gsm', me(M.m, 'synth_coeffs_gsm', source='internal')),
            'sm ext': ('chaos.CHAOS.synth_coeffs_sm', me(M.m, 'synth_coeffs_sm', source='external', rc=sym('rc'))),
            'sm int': ('chaos.CHAOS.synth_coeffs_sm', me(M.m, 'synth_coeffs_sm', source='internal', rc=sym('rc'))),
            'values_gsm': ('chaos.CHAOS.synth_values_gsm', me(M.m, 'synth_values_gsm', r, th, ph)),
            'values_sm': ('chaos.CHAOS.synth_values_sm', me(M.m, 'synth_values_sm', r, th, ph, **rc)),
            'call': ('chaos.CHAOS.__call__', lambda t, **k: A.I.call(M.m, [t, r, th, ph], dict(rc, nmax_static=1)))}

    def start(c):
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        rc_covering(A, brk)
        M, cs = calls(A, brk)
        return A, brk, M, cs

    def outside(brk, ts):
        return T.bor(*[T.bor(T.cmp('lt', t, brk[0]), T.cmp('lt', brk[-1], t)) for t in ts])

    def wcond(r):
        w = r.evs('warn')
        return T.bor(*[e['cond'] if isinstance(e['cond'], Node) else bool(e['cond']) for e in w]) if w else False

    def warns(c, who):
        A, brk, M, cs = start(c)
        where, f = cs[who]
        a, b, d = anytime(brk, 'w1'), anytime(brk, 'w2'), anytime(brk, 'w3')
        i, j = inside(brk, 'v1'), inside(brk, 'v2')
        sets = {'one time': [a], 'two times': [a, b], 'first out': [before(brk), i], 'last out': [i, after(brk)],
                'middle': [i, a, j], 'both ends and inside': [brk[0], i, brk[-1]], 'end': [brk[-1]], 'start': [brk[0]],
                'end and outside': [brk[-1], after(brk)], 'inner break': [brk[1], i], 'three': [a, b, d]}
        for name, ts in sets.items():
            for shape in (('scalar',) if len(ts) == 1 else ()) + ('array',) + (('matrix',) if len(ts) == 2 else ()):
                t = ts[0] if shape == 'scalar' else A.arr([ts, ts] if shape == 'matrix' else ts)
                r = A.run(lambda: f(t))
                c.returns(r, where, f'{who}, {name} ({shape})')
                c.cond_equal(wcond(r), outside(brk, ts), where, f'{who}: warning for {name} ({shape})')
    for w in WHO:
        ck.add(f'warns/{w}', warns, w)

    def methods(c, who):
        # the warning does not depend on the extrapolation method, derivative or truncation
        A, brk, M, cs = start(c)
        where, f = cs[who]
        a, i = anytime(brk, 'w1'), inside(brk, 'v1')
        for e in ('linear', 'quadratic', 'cubic', 'constant', 'spline', 'off', True, False, 0, 1, 2, 3, 7):
            for kw in (dict(extrapolate=e), dict(extrapolate=e, deriv=1)):
                r = A.run(lambda: f(A.arr([a, i]), **kw))
                c.returns(r, where, f'{who} with {kw}')
                c.cond_equal(wcond(r), outside(brk, [a]), where, f'{who}: warning with {kw}')
    for w in ('Base', 'BaseModel', 'values', 'tdep', 'values_tdep', 'euler'):
        ck.add(f'warns with every method/{w}', methods, w)

    def again(c, who):
        # every evaluation warns anew, whatever has been evaluated before
        A, brk, M, cs = start(c)
        where, f = cs[who]
        a, i = anytime(brk, 'w1'), inside(brk, 'v1')
        lo, hi = before(brk), after(brk)
        for seq in (([lo, i], [lo, i]), ([i, hi], [i, hi], [i, hi]), ([lo, hi], [i, i], [hi, hi]), ([i, i], [hi, lo]), ([lo, lo], [a, a]),
                    ([hi, lo], [brk[0], brk[-1]]), ([hi, i], [i, a])):
            mark = []

            def run():
                for n, ts in enumerate(seq):
                    mark.append(len(A.I.events))
                    f(A.arr(ts))
                mark.append(len(A.I.events))
            n0 = len(A.I.events)
            r = A.run(run)
            c.returns(r, where, who)
            for n, ts in enumerate(seq):
                ev = [e for e in r.events[mark[n] - n0:mark[n + 1] - n0] if e['kind'] == 'warn']
                got = T.bor(*[e['cond'] if isinstance(e['cond'], Node) else bool(e['cond']) for e in ev]) if ev else False
                c.cond_equal(got, outside(brk, ts), where, f'{who}: warning of evaluation {n + 1} of {len(seq)}')
    for w in WHO:
        ck.add(f'warns again/{w}', again, w)

    def off(c, who, dv):
        A, brk, M, cs = start(c)
        where, f = cs[who]
        i, j = inside(brk, 'v1'), inside(brk, 'v2')
        lo, hi = before(brk), after(brk)
        for ts, ins in (([i, hi], (1, 0)), ([lo, i], (0, 1)), ([lo, hi], (0, 0)), ([i, j], (1, 1)), ([hi, brk[0]], (0, 1)),
                        ([lo, brk[-1]], (0, 1)), ([hi, brk[-1]], (0, 1))):
            full = A.run(lambda: f(A.arr(ts), extrapolate='spline', deriv=dv)).value
            for o in ('off', False, 0):
                r = A.run(lambda: f(A.arr(ts), extrapolate=o, deriv=dv))
                v = c.returns(r, where, f'{who} with extrapolation off')
                vs = v if isinstance(v, tuple) else (v,)
                fs = full if isinstance(full, tuple) else (full,)
                for q in (0, 1):
                    for x, y in zip(vs, fs):
                        x, y = pick(x, q), pick(y, q)
                        if ins[q]:
                            c.equal(x, y, where, f'{who}, extrapolation off ({o!r}): value inside the period')
                            continue
                        for tr in c.tr():
                            c.facts += 1
                            if not np.all(np.isnan(np.asarray(conc(x, tr), dtype=float))):
                                c.fail(f'{who}, extrapolation off ({o!r}): value outside the period is not not-a-number', where)

    def pick(x, q):
        if isinstance(x, SC):
            return SC(x.c, pick(x.a, q), pick(x.b, q))
        return SA(np.asarray(x.v[q], dtype=object) if isinstance(x.v[q], np.ndarray) else np.array(x.v[q], dtype=object), x.dt, False)
    for w in ('Base', 'BaseModel', 'values', 'tdep', 'values_tdep', 'euler'):
        for dv in (0, 1):
            ck.add(f'off/{w}/derivative {dv}', off, w, dv)

    def periods(c, perm, what):
        # the RC offsets have their own periods, the SM part warns outside their overlap
        A = c.an()
        fulllib(A)
        bs = breaks_syms(6)
        lo, hi = perm
        k = ('q10', 'q11', 's11')
        d = {k[j]: [bs[lo[j]], bs[3 + hi[j]]] for j in range(3)}
        brk = [bs[0], bs[5]] if what != 'call/narrow' else [bs[1], bs[3]]
        M = Chaos(A, order=2, pieces=1, n=1, nstat=1, brk=brk, delta=d)
        rc_covering(A, bs)
        r, th, ph = point()
        rc = dict(rc_e=sym('re'), rc_i=sym('ri'))
        a, i = anytime(bs, 'w1'), inside([bs[2], bs[3]], 'v1')
        own = T.bor(T.cmp('lt', a, bs[2]), T.cmp('lt', bs[3], a))
        tot = T.bor(own, T.cmp('lt', a, brk[0]), T.cmp('lt', brk[-1], a))
        runs = {'coeffs': [('chaos.CHAOS.synth_coeffs_sm', own, lambda t: A.I.call(A.I.getattr(M.m, 'synth_coeffs_sm'), [t], dict(rc=sym('rc'), source=s)))
                           for s in ('external', 'internal')],
                'values': [('chaos.CHAOS.synth_values_sm', own, lambda t: A.I.call(A.I.getattr(M.m, 'synth_values_sm'), [t, r, th, ph], dict(rc)))],
                'call': [('chaos.CHAOS.__call__', tot, lambda t: A.I.call(M.m, [t, r, th, ph], dict(rc, nmax_static=1)))]}
        for where, cond, f in runs[what.split('/')[0]]:
            for t in (a, A.arr([a, i]), A.arr([i, a])):
                x = A.run(lambda: f(t))
                c.returns(x, where, what)
                c.cond_equal(wcond(x), cond, where, f'{what}: warning outside the overlap of the periods')
    perms = [((0, 1, 2), (0, 1, 2)), ((2, 0, 1), (1, 0, 2)), ((1, 2, 0), (2, 1, 0))]
    for perm in perms + ([((2, 1, 0), (0, 2, 1)), ((0, 2, 1), (1, 2, 0))] if ck.tier == 'thorough' else []):
        for what in ('coeffs', 'values', 'call', 'call/narrow'):
            ck.add(f'periods of the offsets/{perm}/{what}', periods, perm, what)

    def rcperiod(c, src, fmt, how):
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        M = Chaos(A, order=2, pieces=2, n=1, nstat=1, brk=brk)
        ts = [inside(brk, 'k0'), None, None]
        ts[1] = T.add(ts[0], T.scale(sym('k1', 'gap'), 100))
        ts[2] = T.add(ts[1], T.scale(sym('k2', 'gap'), 100))
        if fmt == 'h5':
            p = LIB + 'RC_index.h5'
            cols = {k: A.syms('rc' + k, 3) for k in ('RC', 'RC_e', 'RC_i')}
            A.put(p, DDict({'time': A.arr(ts), **cols, 'flag': new_arr(np.array(['D'] * 3, dtype=object), U)}))
        else:
            p = '/data/RC.dat'
            cols = {k: A.syms('rc' + k, 3) for k in ('RC', 'RC_e', 'RC_i')}
            rows = ['  '.join([V.placeholder(ts[i], '')] + [V.placeholder(cols[k].get()[i], '') for k in ('RC', 'RC_e', 'RC_i')] + ['D'])
                    for i in range(3)]
            A.put(p, '# RC\n' + '\n'.join(rows) + '\n')
            setcfg(A, 'file.RC_index', p)
        a, b = anytime(ts, 'w1'), anytime(ts, 'w2')
        out = outside(ts, [a, b])
        r_, th, ph = point()
        t = A.arr([a, b])
        if how == 'coeffs':
            where = 'chaos.CHAOS.synth_coeffs_sm'
            run = lambda t, rc=None: M.call('synth_coeffs_sm', t, source=src, rc=rc)      # noqa
        elif how == 'values':
            where = 'chaos.CHAOS.synth_values_sm'
            run = lambda t, rc=None: M.call('synth_values_sm', t, r_, th, ph, source=src, rc_e=rc, rc_i=rc)      # noqa
        else:
            where = 'chaos.CHAOS.__call__'
            run = lambda t, rc=None: M.query(t, r_, th, ph, source_list='external', rc_e=rc, rc_i=rc)      # noqa
        for tt, cond in ((t, out), (a, outside(ts, [a])), (A.arr([ts[0], ts[-1]]), False),
                         (A.arr([inside(ts, 'p'), after(ts, 'q')]), True), (A.arr([before(ts, 'p'), inside(ts, 'q')]), True)):
            x = run(tt)
            c.cond_equal(x.raise_cond(ValueError), cond, where, 'value error for times outside the RC index')
            c.cond_equal(T.bor(*[o.cond for o in x.raises]) if x.raises else False, cond, where, 'error for times outside the RC index')
            y = run(tt, A.syms('myrc', (2,)) if isinstance(tt, Arr) else sym('myrc'))
            c.returns(y, where, 'RC values given')
    for src in ('external', 'internal'):
        for fmt in ('h5', 'dat'):
            ck.add(f'RC period/{src}/{fmt}/coefficients', rcperiod, src, fmt, 'coeffs')
            ck.add(f'RC period/{src}/{fmt}/values', rcperiod, src, fmt, 'values')
    ck.add('RC period/call', rcperiod, None, 'h5', 'call')
