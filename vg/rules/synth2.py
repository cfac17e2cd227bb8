"""truncation, wrappers, sums of sources, spectra, broadcasting"""
import itertools

from . import oracle as S
from .common import *
from .synth import SRC, elems, oarr, rsurf, triple, setr


def blockspectra(A, n=2, nf=2):
    """spectra that do not mix degrees"""
    fulllib(A, n=n, nf=nf)
    for w3 in ('gsm', 'sm'):
        f = A.I.fs.items[LIB + f'frequency_spectrum_{w3}.npz']
        deg = [x[0] for x in S.index(1, n)]
        for k in ('spectrum', 'spectrum_ind'):
            e = f.items[k].get().copy()
            for i, a in enumerate(deg):
                for j, b in enumerate(deg):
                    if a != b:
                        e[:, i, j] = T.ZERO
            f.items[k] = new_arr(e, C)


def drawn(c, res, name, w, what):
    """positional arguments of the drawing calls of that kind (coast lines excluded)"""
    out = []
    for e in res.evs('opaque_call'):
        if e['path'].split('.')[-1] == name:
            if e['s'] is None:
                raise Undecided('arguments of a drawing call')
            a = e['s'][0]
            if name == 'plot' and e['s'][1].get('color') == 'k':
                continue
            out.append(a)
    if not out:
        raise Undecided(f'{what}: no call of {name} found')
    return out


def noticed(c, r, w, what):
    ok = any(c.sat(e['cond'], 8) for e in r.evs('warn', 'print'))
    c.ok(ok, w, f'{what}: no notice to the user')


@rule('C12', 'The maximum degree truncates exactly and never exceeds the model',
      'value-graph equality with the zero-padded model over degrees; must-notify analysis of the clamped branches')
def c12(ck):
    N = 4 if ck.tier == 'thorough' else 3

    def zeroed(arr, k):
        """copy of a coefficient array with the degrees above k zero"""
        e = arr.get().copy()
        e[..., dim(k):] = T.ZERO
        return new_arr(e, F)

    def cut(v, k):
        return SA(v.v[..., :dim(k)], v.dt, False) if isinstance(v, SA) else v

    def leading(v, k):
        return SA(v.v[..., :k], v.dt, False)

    P = point()

    def cases(A, n):
        b = breaks_syms(3)
        t = inside(b)
        ts = A.arr([anytime(b, 'w1'), before(b)])
        lists = {}

        def model(co, **kw):
            return A.new('chaos.BaseModel', 'm', A.arr(b), 2, co, **kw)

        def comp(static=None, tdep=None, sm=None, gsm=None):
            return A.new('chaos.CHAOS', A.arr(b), 2, name='x', coeffs_tdep=tdep, coeffs_static=static, coeffs_sm=sm, coeffs_gsm=gsm,
                         breaks_delta=A.dict({k: A.arr([b[0], b[-1]]) for k in ('q10', 'q11', 's11')}),
                         coeffs_delta=A.dict({k: A.syms(k, (1, 1)) for k in ('q10', 'q11', 's11')}))
        co = A.syms('c', (2, 2, dim(n)))
        st = A.syms('s', (1, 1, dim(n)))
        M = lambda o, name, *a, **k: A.I.call(o if name == '__call__' else A.I.getattr(o, name), list(a), dict(k))  # noqa: E731
        for lab, name, args, kind, kw in (
                ('synth_coeffs', 'synth_coeffs', (t,), 'coeffs', {}), ('synth_coeffs/outside', 'synth_coeffs', (ts,), 'coeffs', {}),
                ('synth_coeffs/deriv', 'synth_coeffs', (t,), 'coeffs', dict(deriv=1)),
                ('synth_values', 'synth_values', (t,) + P, 'values', {}), ('synth_values/outside', 'synth_values', (ts,) + P, 'values', {}),
                ('power_spectrum', 'power_spectrum', (t, sym('rr', 'radius')), 'spectrum', {}),
                ('plot_power_spectrum', 'plot_power_spectrum', (t,), 'semilogy', {}),
                ('plot_maps', 'plot_maps', (t, P[0]), 'pcolormesh', {}),
                ('plot_timeseries', 'plot_timeseries', P, 'plot', {})):
            for src in SRC:
                if src == 'external' and kind not in ('values', 'spectrum'):
                    continue
                lists[f'BaseModel.{lab}/{src}'] = (
                    f'chaos.BaseModel.{name}', lambda src=src: model(co, source=src), lambda k, src=src: model(zeroed(co, k), source=src),
                    lambda o, name=name, args=args, kw=kw, **q: M(o, name, *args, **kw, **q), kind)
        for lab, name, args, kind, kw in (
                ('synth_coeffs_tdep', 'synth_coeffs_tdep', (ts,), 'coeffs', {}), ('synth_values_tdep', 'synth_values_tdep', (t,) + P, 'values', {}),
                ('plot_maps_tdep', 'plot_maps_tdep', (t, P[0]), 'pcolormesh', {}),
                ('plot_timeseries_tdep', 'plot_timeseries_tdep', P, 'plot', {})):
            lists[f'CHAOS.{lab}'] = (f'chaos.CHAOS.{name}', lambda: comp(tdep=co), lambda k: comp(tdep=zeroed(co, k)),
                                     lambda o, name=name, args=args, kw=kw, **q: M(o, name, *args, **kw, **q), kind)
        for lab, name, args, kind, kw in (
                ('synth_coeffs_static', 'synth_coeffs_static', (), 'coeffs', {}), ('synth_values_static', 'synth_values_static', P, 'values', {}),
                ('plot_maps_static', 'plot_maps_static', (P[0],), 'pcolormesh', {})):
            lists[f'CHAOS.{lab}'] = (f'chaos.CHAOS.{name}', lambda: comp(static=st), lambda k: comp(static=zeroed(st, k)),
                                     lambda o, name=name, args=args, kw=kw, **q: M(o, name, *args, **kw, **q), kind)

        def total(o, nmax=None, **q):
            return M(o, '__call__', t, *P, source_list='static', nmax_static=nmax, **q)
        lists['CHAOS.__call__/static'] = ('chaos.CHAOS.__call__', lambda: comp(static=st), lambda k: comp(static=zeroed(st, k)), total, 'values')

        def total2(o, nmax=None, **q):
            return M(o, '__call__', t, *P, source_list='internal', nmax_static=nmax, **q)
        lists['CHAOS.__call__/internal'] = ('chaos.CHAOS.__call__', lambda: comp(static=st, tdep=co),
                                            lambda k: comp(static=zeroed(st, k), tdep=co), total2, 'values')

        def pp(cc):
            return lambda **q: A.I.call(A.get(MU + 'synth_from_pp'), [A.arr(b), 2, cc, t, *P], dict(q))
        lists['synth_from_pp'] = (MU + 'synth_from_pp', lambda: pp(co), lambda k: pp(zeroed(co, k)), lambda o, **q: o(**q), 'values')
        lists['synth_from_pp/deriv'] = (MU + 'synth_from_pp', lambda: pp(co), lambda k: pp(zeroed(co, k)), lambda o, **q: o(deriv=1, **q), 'values')
        flat = A.syms('f', dim(n))

        def ps(cc):
            return lambda **q: A.I.call(A.get(MU + 'power_spectrum'), [cc, T.num(6000)], dict(q))
        for s in SRC + ('toroidal',):
            lists[f'power_spectrum/{s}'] = (MU + 'power_spectrum', lambda: ps(flat), lambda k: ps(zeroed(flat, k)),
                                            lambda o, s=s, **q: o(source=s, **q), 'spectrum')
        mat = A.syms('m', (2, dim(n)))
        lists['power_spectrum/leading axis'] = (MU + 'power_spectrum', lambda: ps(mat), lambda k: ps(zeroed(mat, k)), lambda o, **q: o(**q), 'spectrum')

        def sv(cc):
            return lambda **q: A.I.call(A.get(MU + 'synth_values'), [cc, *P], dict(q))
        for s in SRC:
            lists[f'synth_values/{s}'] = (MU + 'synth_values', lambda: sv(flat), lambda k: sv(zeroed(flat, k)),
                                          lambda o, s=s, **q: o(source=s, **q), 'low')
        return lists, comp, b, t, ts, M

    def check(c, label, n, k):
        A = c.an()
        lib_present(A)
        lists, *_ = cases(A, n)
        f, mk, mk0, call, kind = lists[label]
        w = c.where(f)
        o = mk()
        if k is None:       # beyond the model
            if kind == 'low':
                raise Skip('no model degree')
            a = A.run(lambda: call(o))
            for over in (n + 1, n + 4):
                r = A.run(lambda: call(o, nmax=over))
                c.returns(r, w, f'{label} with too large a maximum degree')
                noticed(c, r, w, f'{label}: nmax={over} for a model of degree {n}')
                compare(c, r, a, kind, w, f'{label}: nmax={over} for a model of degree {n}', None)
            return
        r = A.run(lambda: call(o, nmax=k))
        c.returns(r, w, label)
        z = mk0(k)
        a = A.run(lambda: call(z) if kind != 'low' else call(z, nmax=n))
        compare(c, r, a, kind, w, f'{label}: nmax={k} for a model of degree {n}', k)
        if k == n:
            a = A.run(lambda: call(o))
            compare(c, r, a, kind, w, f'{label}: nmax={k} is the default', k)

    def compare(c, r, a, kind, w, what, k):
        if kind == 'coeffs':
            if k:
                c.ok(r.value.v.shape[-1] == dim(k), w, f'{what}: {r.value.v.shape[-1]} coefficients')
            c.equal(r.value, cut(a.value, k) if k else a.value, w, what, n=4)
        elif kind == 'spectrum':
            if k:
                c.ok(r.value.v.shape[-1] == k, w, f'{what}: spectrum of {r.value.v.shape[-1]} degrees')
            c.equal(r.value, leading(a.value, k) if k else a.value, w, what, n=4)
        elif kind in ('values', 'low'):
            c.equal(r.value, a.value, w, what, n=4)
        else:
            x, y = drawn(c, r, kind, w, what), drawn(c, a, kind, w, what)
            c.ok(len(x) == len(y), w, f'{what}: number of curves')
            for i, (p, q) in enumerate(zip(x, y)):
                if kind == 'semilogy' and k:
                    q = (leading(q[0], k), leading(q[1], k))
                c.equal(p, q, w, f'{what}: drawn values, component {i}', n=4)
    A0 = An(ROOT)
    names = list(cases(A0, 1)[0])
    for label in names:
        n = N if 'plot' not in label else 2
        for k in range(1, n + 1):
            ck.add(f'{label}/{n}/{k}', check, label, n, k)
        ck.add(f'{label}/{n}/beyond', check, label, n, None)

    def ext(c, which, source, block):
        A = c.an()
        (blockspectra if block else fulllib)(A)
        _, comp, b, t, ts, M = cases(A, 1)
        co = A.syms('e', dim(2))
        kw = dict(rc=sym('rc')) if which == 'sm' else {}
        kv = dict(rc_e=sym('rc'), rc_i=sym('ri')) if which == 'sm' else {}
        st = A.syms('s', (1, 1, 3))
        o = comp(static=st, **{which: co})
        z = comp(static=st, **{which: zeroed(co, 1)})
        wc, wv = c.where(f'chaos.CHAOS.synth_coeffs_{which}'), c.where(f'chaos.CHAOS.synth_values_{which}')
        for tt in (t, ts):
            for k in (1, 2):
                if source != 'all':
                    r = A.run(lambda: M(o, f'synth_coeffs_{which}', tt, nmax=k, source=source, **kw))
                    c.returns(r, wc, 'coefficients')
                    full = A.run(lambda: M(o, f'synth_coeffs_{which}', tt, source=source, **kw))
                    c.equal(r.value, cut(full.value, k), wc, f'{source} {which} coefficients to degree {k}')
                    if block:
                        q = A.run(lambda: M(z if k == 1 else o, f'synth_coeffs_{which}', tt, source=source, **kw))
                        c.equal(r.value, cut(q.value, k), wc, f'{source} {which} coefficients to degree {k} and zeroed model')
                if block:
                    r = A.run(lambda: M(o, f'synth_values_{which}', tt, *P, nmax=k, source=source, **kv))
                    c.returns(r, wv, 'values')
                    q = A.run(lambda: M(z if k == 1 else o, f'synth_values_{which}', tt, *P, source=source, **kv))
                    c.equal(r.value, q.value, wv, f'{source} {which} field to degree {k} and zeroed model', n=4)
            for over in (3, 5):
                if source != 'all':
                    r = A.run(lambda: M(o, f'synth_coeffs_{which}', tt, nmax=over, source=source, **kw))
                    full = A.run(lambda: M(o, f'synth_coeffs_{which}', tt, source=source, **kw))
                    c.returns(r, wc, 'coefficients')
                    noticed(c, r, wc, f'{which} coefficients beyond the model degree')
                    c.equal(r.value, full.value, wc, f'{source} {which} coefficients to degree {over} of a degree 2 model')
                r = A.run(lambda: M(o, f'synth_values_{which}', tt, *P, nmax=over, source=source, **kv))
                q = A.run(lambda: M(o, f'synth_values_{which}', tt, *P, source=source, **kv))
                c.returns(r, wv, 'values')
                noticed(c, r, wv, f'{which} field beyond the model degree')
                c.equal(r.value, q.value, wv, f'{source} {which} field to degree {over} of a degree 2 model', n=3)
    for which in ('gsm', 'sm'):
        for source in SRC + ('all',):
            for block in (True, False):
                ck.add(f'{which}/{source}/{"block" if block else "full"}', ext, which, source, block)

    def unequal(c, which, source, ng, ns):
        # GSM and SM parts of different degree: each is limited by its own
        A = c.an()
        lib_present(A)
        spectra(A, n=ng, which=('gsm',))
        spectra(A, n=ns, which=('sm',))
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=2, brk=b, gsm=ng if ng != 2 else True, sm=ns if ns != 2 else True)
        n = ng if which == 'gsm' else ns
        kw = dict(rc=sym('rc')) if which == 'sm' else {}
        kv = dict(rc_e=sym('rc'), rc_i=sym('ri')) if which == 'sm' else {}
        wc, wv = c.where(f'chaos.CHAOS.synth_coeffs_{which}'), c.where(f'chaos.CHAOS.synth_values_{which}')
        for t in (inside(b), A.arr([inside(b), b[1]])):
            full = C.call(f'synth_coeffs_{which}', t, source=source, **kw)
            c.returns(full, wc, f'degrees {ng} (GSM) and {ns} (SM)')
            c.ok(full.value.v.shape[-1] == dim(n), wc, f'{which} part of degree {n}: {full.value.v.shape[-1]} coefficients')
            vals = C.call(f'synth_values_{which}', t, *P, source=source, **kv)
            c.returns(vals, wv, f'degrees {ng} (GSM) and {ns} (SM)')
            for k in range(1, 5):
                r = C.call(f'synth_coeffs_{which}', t, nmax=k, source=source, **kw)
                c.returns(r, wc, f'nmax={k}')
                c.equal(r.value, cut(full.value, min(k, n)), wc, f'{source} {which} coefficients to degree {k} of a part of degree {n}')
                if k >= n:
                    r = C.call(f'synth_values_{which}', t, *P, nmax=k, source=source, **kv)
                    c.returns(r, wv, f'nmax={k}')
                    c.equal(r.value, vals.value, wv, f'{source} {which} field to degree {k} of a part of degree {n}', n=3)
    for which in ('gsm', 'sm'):
        for source in SRC:
            for ng, ns in ((1, 2), (2, 1), (1, 3), (3, 1)):
                ck.add(f'{which}/{source}/degrees {ng} and {ns}', unequal, which, source, ng, ns)

    def ext_maps(c, ref):
        A = c.an()
        blockspectra(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=1, brk=b)
        t = A.do(lambda: A.I.getattr(A.I.getattr(C.m, 'model_static'), 'breaks')).get()[0]
        rcfile(A)
        A.put(LIB + 'RC_index.h5', DDict({'time': A.arr([T.sub(b[0], T.num(1)), T.add(b[-1], T.num(1))]), 'RC_e': A.syms('re', 2), 'RC_i': A.syms('ri', 2)}))
        w = c.where('chaos.CHAOS.plot_maps_external')
        full = C.call('plot_maps_external', t, P[0], reference=ref)
        over = C.call('plot_maps_external', t, P[0], reference=ref, nmax=7)
        c.returns(over, w, 'plot_maps_external')
        x, y = drawn(c, over, 'pcolormesh', w, 'maps'), drawn(c, full, 'pcolormesh', w, 'maps')
        for i, (p, q) in enumerate(zip(x, y)):
            c.equal(p, q, w, f'map {i} beyond the model degree', n=3)
        noticed(c, over, w, 'maps beyond the model degree')
    for ref in ('all', 'gsm', 'sm'):
        ck.add(f'plot_maps_external/{ref}', ext_maps, ref)


# ------------------------------------------------------------------ wrappers
def same_notices(c, r, q, w, what):
    def given(x, t):
        return any(t.ev(e['cond']) if isinstance(e['cond'], Node) else e['cond'] for e in x.evs('warn'))
    for t in c.tr(4):
        c.ok(given(r, t) == given(q, t), w, f'{what}: warnings differ from the call on the part')


@rule('C13', 'Convenience methods forward their arguments faithfully',
      'value-graph equality of each wrapper with the call on the part, over combinations of options')
def c13(ck):
    def env(c):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        return A, b, Chaos(A, order=3, n=2, nstat=3, brk=b)

    def part(A, o, name):
        return A.do(lambda: A.I.getattr(o, name))

    def wrap(c, name, partname, pname, args, opts):
        A, b, C = env(c)
        w = c.where(f'chaos.CHAOS.{name}')
        p = part(A, C.m, partname)
        t0 = part(A, p, 'breaks').get()[0] if partname == 'model_static' else None
        kw = {k: v for k, v in opts.items() if v != 'unset'}
        for t in ((before(b), inside(b), A.arr([anytime(b, 'w1'), after(b)]).get()) if t0 is None else (None,)):
            tt = A.arr(list(t)) if isinstance(t, np.ndarray) else t
            a = tuple(args(A))
            if kw.get('grid'):
                a = (a[0], A.syms('gth', 2, 'theta'), A.syms('gph', 3, 'phi'))
                if isinstance(tt, Arr):
                    tt = A.arr([[[tt.get()[0]]], [[tt.get()[1]]]])
            r = C.call(name, *(() if t0 is not None else (tt,)), *a, **kw)
            q = A.method(p, pname, t0 if t0 is not None else tt, *a, **kw)
            c.returns(r, w, f'{name}({kw})')
            c.equal(r.value, q.value, w, f'{name}({kw}) and the same call on the part', n=4)
            same_notices(c, r, q, w, f'{name}({kw})')
    none, pts = (lambda A: ()), (lambda A: point())
    quick = ck.tier == 'quick'

    def combos(**opts):
        keys = list(opts)
        full = [dict(zip(keys, v)) for v in itertools.product(*opts.values())]
        return full

    def lab(o):
        return ','.join(f'{k}={v}' for k, v in o.items() if v != 'unset') or 'defaults'
    EX = ('unset', 'constant', 'quadratic', 'spline', 'off') if quick else ('unset', 'constant', 'linear', 'quadratic', 'cubic', 'spline', 'off', 2, True, False)
    for o in combos(nmax=('unset', 1, 5), deriv=('unset', 1, 2), extrapolate=EX):
        ck.add(f'synth_coeffs_tdep/{lab(o)}', wrap, 'synth_coeffs_tdep', 'model_tdep', 'synth_coeffs', none, o)
    for o in combos(nmax=('unset', 1), deriv=('unset', 1), grid=('unset', True, False), extrapolate=EX[:4]):
        ck.add(f'synth_values_tdep/{lab(o)}', wrap, 'synth_values_tdep', 'model_tdep', 'synth_values', pts, o)
    for o in combos(nmax=('unset', 1, 2, 9), deriv=('unset', 0)):
        ck.add(f'synth_coeffs_static/{lab(o)}', wrap, 'synth_coeffs_static', 'model_static', 'synth_coeffs', none, o)
    for o in combos(nmax=('unset', 2), grid=('unset', True, False)):
        ck.add(f'synth_values_static/{lab(o)}', wrap, 'synth_values_static', 'model_static', 'synth_values', pts, o)

    def euler(c, o):
        A, b, C = env(c)
        w = c.where('chaos.CHAOS.synth_euler_angles')
        kw = {k: v for k, v in o.items() if v != 'unset'}
        for sat in ('swarm_a', 'swarm_b'):
            p = part(A, C.m, 'model_euler').items[sat]
            for t in (inside(b), A.arr([before(b), inside(b), after(b)])):
                r = C.call('synth_euler_angles', t, sat, **kw)
                q = A.method(p, 'synth_coeffs', t, **kw)
                c.returns(r, w, 'Euler angles')
                c.equal(r.value, q.value, w, f'Euler angles of {sat} with {kw}')
        D = Chaos(A, order=3, n=2, nstat=3, brk=b, meta=False)      # no notice about angles of a pre-rotation
        p = part(A, D.m, 'model_euler').items['swarm_b']
        for t in (inside(b), A.arr([before(b), inside(b), after(b)])):
            r, q = D.call('synth_euler_angles', t, 'swarm_b', **kw), A.method(p, 'synth_coeffs', t, **kw)
            c.equal(r.value, q.value, w, f'Euler angles with {kw}')
            same_notices(c, r, q, w, f'synth_euler_angles({kw})')
    for o in combos(dim=('unset', 1, 2, 3, 5), deriv=('unset', 0, 1), extrapolate=('unset', 'constant', 'off', 'spline')):
        ck.add(f'synth_euler_angles/{lab(o)}', euler, o)

    def spectrum(c, o):
        A = c.an()
        b = breaks_syms(3)
        m, _, co = basemodel(A, 2, 3, 2, brk=b)
        w = c.where('chaos.BaseModel.power_spectrum')
        kw = {k: v for k, v in o.items() if v != 'unset'}
        for t in (inside(b), before(b), A.arr([inside(b), after(b)])):
            for r_ in (None, sym('rr', 'radius')):
                r = A.method(m, 'power_spectrum', t, *([] if r_ is None else [r_]), **kw)
                c.returns(r, w, 'spectrum')
                g = A.method(m, 'synth_coeffs', t, **kw)

                def sp():
                    cc = A.I.call(A.I.getattr(m, 'synth_coeffs'), [t], dict(kw))
                    return A.I.call(A.get(MU + 'power_spectrum'), [cc, cfgval(A, 'params.r_surf') if r_ is None else r_], {'source': 'internal'})
                c.equal(r.value, A.run(sp).value, w, f'spectrum with {kw}', n=4)
    for o in combos(nmax=('unset', 1), deriv=('unset', 1), extrapolate=('unset', 'constant', 'spline')):
        ck.add(f'BaseModel.power_spectrum/{lab(o)}', spectrum, o)

    def shc(c, which, leap):
        A, b, C = env(c)
        w = c.where('chaos.CHAOS.save_shcfile')
        kw = {} if leap == 'unset' else dict(leap_year=leap)
        r = C.call('save_shcfile', '/out/a.shc', **({} if which == 'default' else dict(model=which)), **kw)
        c.returns(r, w, 'save_shcfile')
        p = part(A, C.m, 'model_static' if which == 'static' else 'model_tdep')
        q = A.method(p, 'to_shc', '/out/a.shc', nmin=3 if which == 'static' else 1, **kw)
        c.returns(q, c.where('chaos.BaseModel.to_shc'), 'to_shc')
        strip = lambda s: [x for x in s.split('\n') if not x.strip().startswith('#')]      # noqa: E731
        c.equal(strip(r.ret.fs['/out/a.shc']), strip(q.ret.fs['/out/a.shc']), w, f'SHC file of the {which} part, leap_year {leap}')
        head = [x for x in r.ret.fs['/out/a.shc'].split('\n') if x.strip().startswith('#')]
        c.ok(any('Foo' in x for x in head), w, 'the header does not name the model')
    for which in ('default', 'tdep', 'static'):
        for leap in ('unset', True, False):
            ck.add(f'save_shcfile/{which}/{leap}', shc, which, leap)

    def loaders(c, kind):
        A = c.an()
        F_ = {}
        if kind == 'shc':
            A.put('/data/in.shc', '# c\n1 2 3 2 1\n 2000.0 2001.0 2003.0\n' + ''.join(
                f'{n} {m} {n+m}.5 2.25 {n*3+m}.0\n' for n in (1, 2) for m in [0] + [x for k in range(1, n + 1) for x in (k, -k)]))
            for kw in ({}, dict(name='zz'), dict(leap_year=True), dict(leap_year=False, name='q')):
                for meth, fn in (('chaos.CHAOS', 'load_CHAOS_shcfile'),):
                    r = A.run(lambda: A.I.call(A.I.getattr(A.get(meth), 'from_shc'), ['/data/in.shc'], dict(kw)))
                    q = A.call('chaos.load_CHAOS_shcfile', '/data/in.shc', **kw)
                    w = c.where('chaos.CHAOS.from_shc')
                    c.returns(r, w, 'from_shc')
                    strip = lambda s: {k: v for k, v in s.attrs.items() if k != 'timestamp'}      # noqa: E731
                    c.equal(strip(r.value), strip(q.value), w, f'from_shc({kw})')
        else:
            from .textfiles import matcontents
            b = breaks_syms(3)
            A.put('/data/m.mat')
            A.I.overrides['chaosmagpy.data_utils.load_matfile'] = lambda I, a, k: matcontents(A, b)
            for kw in ({}, dict(name='zz'), dict(satellites=LList(['a', 'b'])), dict(name='q', satellites=('x', 'y', 'z'))):
                r = A.run(lambda: A.I.call(A.I.getattr(A.get('chaos.CHAOS'), 'from_mat'), ['/data/m.mat'], dict(kw)))
                q = A.call('chaos.load_CHAOS_matfile', '/data/m.mat', **kw)
                w = c.where('chaos.CHAOS.from_mat')
                c.returns(r, w, 'from_mat')
                strip = lambda s: {k: v for k, v in s.attrs.items() if k != 'timestamp'}      # noqa: E731
                c.equal(strip(r.value), strip(q.value), w, f'from_mat({kw})')
    ck.add('from_shc', loaders, 'shc')
    ck.add('from_mat', loaders, 'mat')

    # ---- plots draw what the evaluation returns
    def grid_of(A, a):
        env = spec(A, 'def back(x, y):\n    return 90. - np.degrees(y), np.degrees(x)\n')
        return A.run(lambda: A.I.call(env['back'], [unsnap(A, a[0]), unsnap(A, a[1])], {})).ret.raw

    def unsnap(A, s):
        return new_arr(s.v.copy(), s.dt)

    def maps(c, which, o, when='inside'):
        A, b, C = env(c)
        kw = {k: v for k, v in o.items() if v != 'unset'}
        r0 = sym('r', 'radius')
        t = inside(b) if when == 'inside' else T.sub(b[0], sym('e', 'gap')) if when == 'before' else T.add(b[-1], sym('e', 'gap'))
        if which == 'tdep':
            obj, w, args = C.m, 'chaos.CHAOS.plot_maps_tdep', (t, r0)
            q, name, qargs = C.m, 'synth_values_tdep', (t, r0)
        elif which == 'static':
            obj, w, args = C.m, 'chaos.CHAOS.plot_maps_static', (r0,)
            q, name, qargs = C.m, 'synth_values_static', (r0,)
        elif which in ('model', 'external model'):
            m, _, _ = basemodel(A, 2, 3, 2, brk=b, **({'source': 'external'} if which != 'model' else {}))
            obj, w, args = m, 'chaos.BaseModel.plot_maps', (t, r0)
            q, name, qargs = m, 'synth_values', (t, r0)
        else:
            obj, w, args = C.m, 'chaos.CHAOS.plot_maps_external', (t, r0)
            rcfile(A)
            A.put(LIB + 'RC_index.h5', DDict({'time': A.arr([T.sub(b[0], T.num(1)), T.add(b[-1], T.num(1))]),
                                              'RC_e': A.syms('re', 2), 'RC_i': A.syms('ri', 2)}))
        r = A.method(obj, w.split('.')[-1], *args, **kw)
        w = c.where(w)
        c.returns(r, w, f'maps with {kw}')
        d = drawn(c, r, 'pcolormesh', w, 'maps')
        c.ok(len(d) == 3, w, f'{len(d)} maps are drawn')
        th, ph = grid_of(A, d[0])
        if which == 'ext':
            kq = {k: v for k, v in kw.items() if k in ('nmax', 'source')}
            ref = kw.get('reference', 'all').lower()
            if 'source' in kq:
                kq['source'] = kq['source'].lower()

            def total():
                out = None
                for p in ('gsm', 'sm'):
                    if ref in ('all', p):
                        v = A.I.call(A.I.getattr(C.m, f'synth_values_{p}'), [t, r0, th, ph], dict(grid=True, **kq))
                        out = v if out is None else tuple(A.I.binop('+', x, y) if hasattr(A.I, 'binop') else None for x, y in zip(out, v))
                return out
            env_ = spec(A, '''
def total(m, parts, t, r, th, ph, kw):
    out = None
    for p in parts:
        v = getattr(m, 'synth_values_' + p)(t, r, th, ph, grid=True, **kw)
        out = v if out is None else tuple(x + y for x, y in zip(out, v))
    return out
''')
            want = A.call(env_['total'], C.m, LList([p for p in ('gsm', 'sm') if ref in ('all', p)]), t, r0, th, ph, DDict(kq)).value
        else:
            kq = {k: v for k, v in kw.items() if k in ('nmax', 'deriv')}
            want = A.method(q, name, *qargs, th, ph, grid=True, **kq).value
        for i in range(3):
            c.equal((d[i][0], d[i][1]), (d[0][0], d[0][1]), w, f'coordinates of map {i}')
            c.equal(d[i][2], want[i], w, f'map {i} ({("radial", "colatitude", "azimuth")[i]} component) with {kw}', n=4)
    for o in combos(nmax=('unset', 1, 2), deriv=('unset', 1)):
        for which in ('tdep', 'model') + (('external model',) if o['deriv'] == 'unset' else ()):
            ck.add(f'maps/{which}/{lab(o)}', maps, which, o)
            if which == 'model':
                for when in ('before', 'after'):
                    ck.add(f'maps/{which}/{when} the period/{lab(o)}', maps, which, o, when)
    for o in combos(nmax=('unset', 1, 3)):
        ck.add(f'maps/static/{lab(o)}', maps, 'static', o)
    for o in combos(nmax=('unset', 1), reference=('unset', 'gsm', 'SM', 'all'), source=('unset', 'internal', 'External', 'all')):
        ck.add(f'maps/external/{lab(o)}', maps, 'ext', o)

    def series(c, which, o):
        A, b, C = env(c)
        kw = {k: v for k, v in o.items() if v != 'unset'}
        P = point()
        if which == 'tdep':
            obj, w, name = C.m, 'chaos.CHAOS.plot_timeseries_tdep', 'synth_values_tdep'
        else:
            m, _, _ = basemodel(A, 2, 3, 2, brk=b, **({'source': 'external'} if which != 'model' else {}))
            obj, w, name = m, 'chaos.BaseModel.plot_timeseries', 'synth_values'
        r = A.method(obj, w.split('.')[-1], *P, **kw)
        w = c.where(w)
        c.returns(r, w, f'time series with {kw}')
        d = drawn(c, r, 'plot', w, 'time series')
        c.ok(len(d) == 3, w, f'{len(d)} curves are drawn')
        # dates back to modified Julian dates
        t = A.arr([T.sub(x, T.num(10957)) for x in d[0][0].v.ravel()])
        want = A.method(obj, name, t, *P, **{k: v for k, v in kw.items() if k in ('nmax', 'deriv', 'extrapolate')}).value
        for i in range(3):
            c.equal(d[i][0], d[0][0], w, f'dates of curve {i}')
            c.equal(d[i][1], want[i], w, f'curve {i} ({("radial", "colatitude", "azimuth")[i]} component) with {kw}', n=4)
        # the series covers the model period
        ends = A.arr([b[0], b[-1]])
        tt = d[0][0].v.ravel()
        c.equal((tt[0], tt[-1]), (T.add(b[0], T.num(10957)), T.add(b[-1], T.num(10957))), w, 'period of the time series')
    for o in combos(nmax=('unset', 1), deriv=('unset', 1), extrapolate=('unset', 'spline')):
        ck.add(f'series/tdep/{lab(o)}', series, 'tdep', o)
        ck.add(f'series/model/{lab(o)}', series, 'model', o)
    ck.add('series/external model', series, 'external', {})

    def specplot(c, o):
        A = c.an()
        b = breaks_syms(3)
        w = c.where('chaos.BaseModel.plot_power_spectrum')
        kw = {k: v for k, v in o.items() if v != 'unset'}
        if kw.get('radius') == 'r':
            kw['radius'] = sym('rr', 'radius')
        for src in SRC:
            m, _, _ = basemodel(A, 2, 3, 2, brk=b, source=src)
            r = A.method(m, 'plot_power_spectrum', inside(b), **kw)
            c.returns(r, w, 'plot_power_spectrum')
            d = drawn(c, r, 'semilogy', w, 'spectrum')
            want = A.method(m, 'power_spectrum', inside(b), kw.get('radius'), **{k: v for k, v in kw.items() if k != 'radius'}).value
            c.equal(d[0][1], want, w, f'drawn spectrum with {list(kw)}')
            c.equal(d[0][0], oarr([T.num(i + 1) for i in range(want.v.shape[0])], want.v.shape), w, 'degrees of the drawn spectrum')
    for o in combos(nmax=('unset', 1), deriv=('unset', 1), radius=('unset', 'r')):
        ck.add(f'spectrum/{lab(o)}', specplot, o)

    def lowplots(c):
        A = c.an()
        lib_present(A)
        th, ph = A.syms('th', 2, 'theta'), A.syms('ph', 3, 'phi')
        f = [A.syms(x, (2, 3)) for x in 'xyz']
        w = c.where(PU + 'plot_maps')
        for n in (1, 2, 3):
            r = A.call(PU + 'plot_maps', th, ph, *f[:n])
            c.returns(r, w, 'plot_maps')
            d = drawn(c, r, 'pcolormesh', w, 'maps')
            c.ok(len(d) == n, w, f'{len(d)} maps for {n} arrays')
            for i in range(n):
                c.equal(d[i][2], snapof(A, f[i]), w, f'map {i}')
                a, b = grid_of(A, d[i])
                c.equal(snapof(A, (a, b)), snapof(A, (th, ph)), w, f'coordinates of map {i}')
        t = A.syms('t', 3, 'day')
        f = [A.syms(x, 3) for x in 'xyz']
        w = c.where(PU + 'plot_timeseries')
        for n in (1, 2, 3):
            r = A.call(PU + 'plot_timeseries', t, *f[:n])
            c.returns(r, w, 'plot_timeseries')
            d = drawn(c, r, 'plot', w, 'series')
            c.ok(len(d) == n, w, f'{len(d)} curves for {n} arrays')
            for i in range(n):
                c.equal(d[i][1], snapof(A, f[i]), w, f'curve {i}')
                c.equal(d[i][0], oarr([T.add(x, T.num(10957)) for x in t.get()], (3,)), w, f'dates of curve {i}')
    ck.add('plot functions', lowplots)


# ------------------------------------------------------------------ sum of sources
@rule('C14', 'The total field is the sum of the selected sources',
      'value-graph equality of the total with the sum of the parts, over all selections and orders')
def c14(ck):
    PARTS = ('tdep', 'static', 'gsm', 'sm')
    SUM = '''
def total(m, parts, t, r, th, ph, re, ri, nstat):
    out = None
    for p in parts:
        if p == 'tdep':
            v = m.synth_values_tdep(t, r, th, ph)
        elif p == 'static':
            v = m.synth_values_static(r, th, ph, nmax=nstat)
        elif p == 'gsm':
            e = m.synth_values_gsm(t, r, th, ph, source='external')
            i = m.synth_values_gsm(t, r, th, ph, source='internal')
            v = (e[0] + i[0], e[1] + i[1], e[2] + i[2])
        else:
            e = m.synth_values_sm(t, r, th, ph, source='external', rc_e=re)
            i = m.synth_values_sm(t, r, th, ph, source='internal', rc_i=ri)
            v = (e[0] + i[0], e[1] + i[1], e[2] + i[2])
        out = v if out is None else (out[0] + v[0], out[1] + v[1], out[2] + v[2])
    return out
'''

    def setup(c, n=1, nst=2):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        A.put(LIB + 'RC_index.h5', DDict({'time': A.arr([T.sub(b[0], T.num(1)), T.add(b[-1], T.num(1))]),
                                          'RC_e': A.syms('fe', 2), 'RC_i': A.syms('fi', 2)}))
        return A, b, Chaos(A, order=2, n=n, nstat=nst, brk=b), spec(A, SUM)['total']

    def call(c, parts, form, rc, nstat, shape, n=1, nst=2):
        A, b, C, tot = setup(c, n, nst)
        w = c.where('chaos.CHAOS.__call__')
        if shape:
            t, r, th, ph = A.arr([inside(b, f'u{i}') for i in range(2)]), A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')
            if shape == 'poles':
                th = A.arr([sym('th', 'theta'), T.num(180)])
        else:
            t, (r, th, ph) = inside(b), point()
        re, ri = {'scalar': (sym('re'), sym('ri')), 'array': (A.syms('re', 2), A.syms('ri', 2)), None: (None, None),
                  'e': (sym('re'), None), 'i': (None, sym('ri'))}[rc]
        sl = {'list': lambda: LList(list(parts)), 'tuple': lambda: tuple(parts), 'str': lambda: parts, 'none': lambda: None}[form]()
        kw = {}
        if sl is not None:
            kw['source_list'] = sl
        if re is not None:
            kw['rc_e'] = re
        if ri is not None:
            kw['rc_i'] = ri
        if nstat:
            kw['nmax_static'] = nstat
        x = C.query(t, r, th, ph, **kw)
        c.returns(x, w, 'total field')
        chosen = {'internal': PARTS[:2], 'external': PARTS[2:], None: PARTS}.get(parts) if not isinstance(parts, tuple) else parts
        chosen = chosen or (parts,)
        want = A.call(tot, C.m, LList(list(chosen)), t, r, th, ph, re, ri, nstat)
        c.returns(want, w, 'sum of the parts')
        for i in range(3):
            c.equal(x.value[i], want.value[i], w, f'component {i} of sources {parts} ({form}), rc {rc}, static degree {nstat}', n=4)
    subsets = [s for k in range(1, 5) for s in itertools.combinations(PARTS, k)]
    for s in subsets:
        ck.add(f'list/{"+".join(s)}', call, s, 'list', 'scalar', None, None)
        if len(s) > 1:
            ck.add(f'list/{"+".join(reversed(s))}', call, tuple(reversed(s)), 'list', 'scalar', None, None)
    if ck.tier == 'thorough':
        for s in itertools.permutations(PARTS):
            ck.add(f'order/{"+".join(s)}', call, s, 'list', 'array', 1, 2)
    for s in PARTS + ('internal', 'external'):
        ck.add(f'name/{s}', call, s, 'str', 'scalar', None, None)
        ck.add(f'name/{s}/array', call, s, 'str', 'array', 1, 2)
    ck.add('default', call, None, 'none', 'scalar', None, None)
    ck.add('default/arrays', call, None, 'none', 'array', None, 2)
    ck.add('default/poles', call, None, 'none', 'array', None, 'poles')
    ck.add('default/static degree', call, None, 'none', 'scalar', 1, None)
    ck.add('default/rc file', call, None, 'none', None, None, None)
    ck.add('default/rc file, arrays', call, None, 'none', None, 1, 2)
    ck.add('default/rc_e only', call, None, 'none', 'e', None, 2)
    ck.add('default/rc_i only', call, None, 'none', 'i', None, 2)
    # the maximum degree concerns the static part only, whatever the degrees of the parts
    for n, nst in ((2, 3), (2, 1), (2, 2), (3, 4)):
        for k in range(1, nst + 2):
            for s in (('tdep', 'static'), 'internal', PARTS) if n < 3 else (('tdep', 'static'),):
                ck.add(f'static degree {k} of {nst} with {n}/{s if isinstance(s, str) else "+".join(s)}', call, s, 'str' if isinstance(s, str) else 'list',
                       'scalar', k, None, n, nst)
    for s in (('tdep', 'sm'), ('static', 'gsm'), ('gsm', 'sm')):
        for form in ('tuple',):
            ck.add(f'{form}/{"+".join(s)}', call, s, form, 'array', None, 2)
        for rc in (None, 'e', 'i'):
            ck.add(f'rc {rc}/{"+".join(s)}', call, s, 'list', rc, None, None)

    def ext(c, which, shape, opts):
        A, b, C, tot = setup(c)
        w = c.where(f'chaos.CHAOS.synth_values_{which}')
        if shape == 'grid':
            t, r, th, ph = inside(b), sym('r', 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 3, 'phi')
            opts = dict(opts, grid=True)
        elif shape:
            t, r, th, ph = A.arr([inside(b, f'u{i}') for i in range(2)]), A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')
        else:
            t, (r, th, ph) = inside(b), point()
        env = spec(A, '''
def one(m, which, s, t, r, th, ph, rc, nmax, grid):
    kw = {} if which == 'gsm' else {'rc': rc}
    if nmax is not None:
        kw['nmax'] = nmax
    c = getattr(m, 'synth_coeffs_' + which)(t, source=s, **kw)
    return cp.model_utils.synth_values(c, r, th, ph, source=s, grid=grid)
def both(m, which, t, r, th, ph, re, ri, nmax, grid):
    e = one(m, which, 'external', t, r, th, ph, re, nmax, grid)
    i = one(m, which, 'internal', t, r, th, ph, ri, nmax, grid)
    return e[0] + i[0], e[1] + i[1], e[2] + i[2]
''')
        for re, ri in ((sym('re'), sym('ri')), (None, None), (sym('re'), None), (None, sym('ri'))) if which == 'sm' else ((None, None),):
            kw = dict(opts)
            if re is not None:
                kw['rc_e'] = re
            if ri is not None:
                kw['rc_i'] = ri
            for s in (None, 'all') + SRC:
                k2 = dict(kw) if s is None else dict(kw, source=s)
                x = C.call(f'synth_values_{which}', t, r, th, ph, **k2)
                c.returns(x, w, f'{which} field')
                nm, gr = opts.get('nmax'), opts.get('grid', False)
                if s in (None, 'all'):
                    q = A.call(env['both'], C.m, which, t, r, th, ph, re, ri, nm, gr)
                else:
                    q = A.call(env['one'], C.m, which, s, t, r, th, ph, re if s == 'external' else ri, nm, gr)
                c.returns(q, w, 'sum of external and induced part')
                for i in range(3):
                    c.equal(x.value[i], q.value[i], w, f'component {i} of source {s} of the {which} field, {opts}', n=3)
    for which in ('gsm', 'sm'):
        for shape in (None, 2, 'grid'):
            for opts in ({}, {'nmax': 1}):
                ck.add(f'{which}/{shape}/{opts}', ext, which, shape, opts)

    def parts_missing(c):
        # only the selected parts are needed
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        w = c.where('chaos.CHAOS.__call__')
        t, P = inside(b), point()
        for name, kw in (('tdep', dict(static=False, sm=False, gsm=False, delta=False)), ('static', dict(tdep=False, sm=False, gsm=False, delta=False)),
                         ('gsm', dict(tdep=False, sm=False, delta=False)), ('sm', dict(tdep=False, static=False, gsm=False))):
            C = Chaos(A, order=2, n=1, nstat=2, brk=b, euler=False, **kw)
            x = C.query(t, *P, rc_e=sym('re'), rc_i=sym('ri'), source_list=LList([name]))
            c.returns(x, w, f'only {name} present')
    ck.add('other parts not needed', parts_missing)

    def verbose(c):
        A, b, C, tot = setup(c)
        w = c.where('chaos.CHAOS.__call__')
        t, P = inside(b), point()
        x = C.query(t, *P, rc_e=sym('re'), rc_i=sym('ri'))
        y = C.query(t, *P, rc_e=sym('re'), rc_i=sym('ri'), verbose=True)
        z = C.query(t, *P, sym('re'), sym('ri'))
        c.returns(y, w, 'verbose')
        c.equal(y.value, x.value, w, 'verbose output changes the result')
        c.equal(z.value, x.value, w, 'positional RC values')
    ck.add('verbose', verbose)


# ------------------------------------------------------------------ spectra
@rule('C26', 'Spectra and correlations follow their definitions',
      'value-graph equality with the closed forms per degree, source, axis and shape')
def c26(ck):
    def factor(src, n, q):
        """q: reference radius over radius"""
        if src == 'internal':
            return T.mul(T.num(n + 1), T.power(q, 2 * n + 4))
        if src == 'external':
            return T.mul(T.num(n), T.power(q, -(2 * n - 2)) if n > 1 else T.ONE)
        return T.div(T.num(n * (n + 1)), T.num(2 * n + 1))

    def closed(co, axis, nmax, src, q):
        co = np.moveaxis(co, axis, -1)
        e = np.empty(co.shape[:-1] + (nmax,), dtype=object)
        for i in np.ndindex(*co.shape[:-1]):
            for n in range(1, nmax + 1):
                s = T.ZERO
                for k in range(n * n - 1, n * n + 2 * n):
                    s = T.add(s, T.mul(co[i + (k,)], co[i + (k,)]))
                e[i + (n - 1,)] = T.mul(factor(src, n, q), s)
        return np.moveaxis(e, -1, axis)

    def power(c, src, n, shape, axis, radius):
        A = c.an()
        w = c.where(MU + 'power_spectrum')
        a = setr(A)
        sh = list(shape)
        co = A.syms('c', tuple(sh))
        kw = {} if axis is None else dict(axis=axis)
        if src != 'default':
            kw['source'] = src
        r = sym('r', 'radius') if radius else None
        q = T.div(a, r) if radius else T.ONE
        for nm in (None,) + tuple(range(1, n + 1)):
            k2 = dict(kw) if nm is None else dict(kw, nmax=nm)
            x = A.call(MU + 'power_spectrum', co, *([r] if radius else []), **k2)
            c.returns(x, w, 'power spectrum')
            want = closed(co.get(), -1 if axis is None else axis, nm or n, 'internal' if src == 'default' else src, q)
            c.equal(x.value, want, w, f'{src} spectrum, degree {nm or n}, shape {shape}, axis {axis}, radius {"given" if radius else "default"}', n=4)
    for src in ('default',) + SRC + ('toroidal',):
        for n in (1, 2, 3) + ((5,) if ck.tier == 'thorough' else ()):
            for radius in (False, True):
                ck.add(f'power/{src}/{n}/{radius}', power, src, n, (dim(n),), None, radius)
        for shape, axis in (((2, 8), None), ((2, 8), -1), ((8, 2), 0), ((2, 8, 3), 1), ((2, 8, 3), -2), ((2, 2, 8), None), ((16, 8), None), ((8, 15), 0), ((3, 8, 24), 1), ((2, 15, 8), 2)):
            ck.add(f'power/{src}/{shape}/{axis}', power, src, 2, shape, axis, True)

    def scalar_radius_kinds(c):
        A = c.an()
        w = c.where(MU + 'power_spectrum')
        co = A.syms('c', 8)
        a = rsurf(A)
        a = T.lift(a.item() if isinstance(a, Arr) else a)
        for r in (T.num(6371.2), 3485.0, 6371):
            x = A.call(MU + 'power_spectrum', co, r)
            c.equal(x.value, closed(co.get(), -1, 2, 'internal', T.div(a, T.lift(r))), w, f'radius {r}')
    ck.add('power/numeric radius', scalar_radius_kinds)

    def corr(c, n):
        A = c.an()
        w = c.where(MU + 'degree_correlation')
        x, y = A.syms('x', dim(n)), A.syms('y', dim(n))
        r = A.call(MU + 'degree_correlation', x, y)
        c.returns(r, w, 'degree correlation')
        e = np.empty(n, dtype=object)
        X, Y = x.get(), y.get()

        def dot(p, q, k):
            s = T.ZERO
            for i in range(k * k - 1, k * k + 2 * k):
                s = T.add(s, T.mul(p[i], q[i]))
            return s
        for k in range(1, n + 1):
            e[k - 1] = T.div(dot(X, Y, k), T.sqrt(T.mul(dot(X, X, k), dot(Y, Y, k))))
        c.equal(r.value, e, w, f'degree correlation to degree {n}')
        w = c.where(MU + 'sensitivity')
        r = A.call(MU + 'sensitivity', x, y)
        c.returns(r, w, 'sensitivity')
        e = np.empty(dim(n), dtype=object)
        for k in range(1, n + 1):
            m = T.sqrt(T.div(dot(Y, Y, k), T.num(2 * k + 1)))
            for i in range(k * k - 1, k * k + 2 * k):
                e[i] = T.div(T.sub(X[i], Y[i]), m)
        c.equal(r.value, e, w, f'sensitivity to degree {n}')
        for f in ('degree_correlation', 'sensitivity'):
            for a in ((A.syms('z', (2, 3)), A.syms('z', (2, 3))), (A.syms('x', 3), A.syms('y', 8)), (A.syms('x', 3), A.syms('z', (1, 3)))):
                q = A.call(MU + f, *a)
                c.always_raises(q, ValueError, c.where(MU + f), 'arrays of unequal size or several dimensions')
    for n in (1, 2, 3, 4):
        ck.add(f'correlation/{n}', corr, n)

    def model(c, src, order):
        A = c.an()
        a = setr(A)
        b = breaks_syms(3)
        m, _, co = basemodel(A, 2, order, 2, brk=b, source=src) if src else basemodel(A, 2, order, 2, brk=b)
        w = c.where('chaos.BaseModel.power_spectrum')
        for t in (inside(b), A.arr([inside(b), inside(b, 'u2')])):
            for rad_ in (None, sym('r', 'radius')):
                for kw in ({}, {'nmax': 1}, {'deriv': 1}, {'nmax': 1, 'deriv': 1}):
                    x = A.method(m, 'power_spectrum', t, *([] if rad_ is None else [rad_]), **kw)
                    c.returns(x, w, 'spectrum of a model')
                    g = S.extrap_all(co, b, 2, t.get() if isinstance(t, Arr) else t, kw.get('deriv', 0))
                    k = kw.get('nmax', 2)
                    want = closed(g[..., :dim(k)], -1, k, src or 'internal', T.ONE if rad_ is None else T.div(a, rad_))
                    c.equal(x.value, want, w, f'spectrum of a {src or "default"} model, {kw}, radius {rad_}', n=4)
        x = A.method(m, 'power_spectrum', before(b), sym('r', 'radius'), extrapolate='constant')
        g = S.extrap_all(co, b, min(1, order), before(b), 0)
        c.equal(x.value, closed(g, -1, 2, src or 'internal', T.div(a, sym('r', 'radius'))), w, 'spectrum outside the period', n=4)
    for src in (None,) + SRC:
        for order in (1, 3):
            ck.add(f'model/{src}/{order}', model, src, order)


# ------------------------------------------------------------------ broadcasting
@rule('C31', 'Broadcasting and grid evaluation equal point-wise evaluation',
      'shape and element-dependence analysis: each element of a broadcast result against the point-wise value graph')
def c31(ck):
    def bidx(i, shape):
        """index into an array of that shape for broadcast index i"""
        j = i[len(i) - len(shape):]
        return tuple(0 if s == 1 else k for k, s in zip(j, shape))

    def el(a, i):
        return a.get()[bidx(i, a.shape)] if isinstance(a, Arr) else a

    def mkarg(A, name, sh, kind, b=None):
        if sh is None:
            return (sym(name, kind) if kind != 'time' else anytime(b, name))
        if kind == 'time':
            n = int(np.prod(sh))
            return A.arr(oarr([(inside if k % 3 else anytime)(b, f'{name}{k}') for k in range(n)], sh))
        if kind == 'thetap':
            a = A.syms(name, sh, 'theta').get().copy()
            f = a.ravel()
            f[0] = T.num(180)
            if f.size > 2:
                f[-1] = T.num(0)
            return A.arr(f.reshape(sh))
        return A.syms(name, sh, kind)

    SH = [(None, None, None), ((2,), None, None), (None, (2,), None), (None, None, (3,)), ((2, 1), (3,), None), ((1,), (1,), (1,)),
          (None, (2, 1), (1, 3)), ((2, 1, 1), (2, 1), (2,)), ((1, 3), (2, 1), (3,)), ((2,), (2,), (2,)), ((2, 2), (2, 2), (2, 2)),
          ((), (), ()), ((1, 1), (2,), None)]

    def bshape(*sh):
        return np.broadcast_shapes(*[s or () for s in sh])

    def low(c, f, src, sh, pole, csh=()):
        A = c.an()
        w = c.where(MU + f)
        r, th, ph = [mkarg(A, n, s, k) for n, s, k in zip(('r', 'th', 'ph'), sh, ('radius', 'thetap' if pole and sh[1] else 'theta', 'phi'))]
        if pole and not sh[1]:
            th = T.num(180)
        kw = dict(source=src)
        co = A.syms('c', csh + (8,))
        if f == 'synth_values':
            x = A.call(MU + f, co, r, th, ph, **kw)
        else:
            x = A.call(MU + f, r, th, ph, 2, **kw)
        c.returns(x, w, f)
        tot = bshape(*sh, csh) if f == 'synth_values' else bshape(*sh)
        comps = [[], [], []]
        for i in np.ndindex(*tot):
            p = (el(r, i), el(th, i), el(ph, i))
            if f == 'synth_values':
                cc = A.arr(list(co.get()[bidx(i, csh)])) if csh else co
                y = A.call(MU + f, cc, *p, **kw)
            else:
                y = A.call(MU + f, *p, 2, **kw)
            for k in range(3):
                comps[k].append(y.value[k])
        for k in range(3):
            got = x.value[k].v if isinstance(x.value[k], SA) else np.array(x.value[k], dtype=object)
            want_sh = tot + ((8,) if f == 'design_gauss' else ())
            c.ok(got.shape == want_sh, w, f'result of shape {got.shape} for shapes {sh} and coefficients {csh}, expected {want_sh}')
            for j, i in enumerate(np.ndindex(*tot)):
                y = comps[k][j]
                c.equal(got[i], y.v if f == 'design_gauss' else (y.v[()] if isinstance(y, SA) else y), w,
                        f'component {k}, element {i} of shapes {sh}, coefficients {csh}, and the single point', n=2)
    for f in ('synth_values', 'design_gauss'):
        for n, sh in enumerate(SH):
            for pole in (False, True):
                if f == 'design_gauss' and n > 8:
                    continue
                ck.add(f'{f}/{sh}/{"poles" if pole else "interior"}', low, f, SRC[n % 2], sh, pole)
    for csh, sh in (((2,), (None, None, None)), ((2,), ((2,), (2,), (2,))), ((2, 1), (None, (2,), None)), ((3,), (None, (2, 1), None)),
                    ((2, 2), ((2,), None, None)), ((1,), (None, (2,), (2,)))):
        for pole in (False, True):
            ck.add(f'synth_values/series{csh}/{sh}/{pole}', low, 'synth_values', 'internal', sh, pole, csh)

    def grid(c, csh, rsh, nth, nph, pole, src):
        A = c.an()
        w = c.where(MU + 'synth_values')
        co = A.syms('c', csh + (8,))
        r = mkarg(A, 'r', rsh, 'radius')
        th = mkarg(A, 'th', (nth,), 'thetap' if pole else 'theta')
        ph = mkarg(A, 'ph', (nph,), 'phi')
        x = A.call(MU + 'synth_values', co, r, th, ph, source=src, grid=True)
        c.returns(x, w, 'grid')
        tot = np.broadcast_shapes(csh, rsh or (), (nth, nph))
        for k in range(3):
            got = x.value[k].v
            c.ok(got.shape == tot, w, f'grid result of shape {got.shape}, expected {tot}')
        for i in np.ndindex(*tot):
            cc = A.arr(list(co.get()[bidx(i, csh)])) if csh else co
            y = A.call(MU + 'synth_values', cc, el(r, i), th.get()[i[-2]], ph.get()[i[-1]], source=src)
            for k in range(3):
                yy = y.value[k]
                c.equal(x.value[k].v[i], yy.v[()] if isinstance(yy, SA) else yy, w, f'grid element {i} of component {k}', n=2)
    for csh, rsh, nth, nph in (((), None, 2, 3), ((), None, 1, 1), ((), None, 3, 1), ((2, 1, 1), None, 2, 2), ((), (2, 1, 1), 2, 2), ((), (2, 3), 2, 3),
                               ((1, 1), None, 2, 3)):
        for pole in (False, True):
            for src in SRC[:2 if ck.tier == 'thorough' or not csh else 1]:
                ck.add(f'grid/{csh}/{rsh}/{nth}x{nph}/{pole}/{src}', grid, csh, rsh, nth, nph, pole, src)

    def gridflag(c, name, on):
        A = c.an()
        th, ph, r, t = A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'), sym('r', 'radius'), None
        if name == 'model_utils':
            f, w = A.get(MU + 'synth_values'), c.where(MU + 'synth_values')
            a = [A.syms('c', (8,)), r, th, ph]
        else:
            m, b, _ = basemodel(A, 2, 2, 2)
            f, w = A.I.getattr(m, 'synth_values'), c.where('chaos.BaseModel.synth_values')
            a = [inside(b), r, th, ph]
        want = A.run(lambda: A.I.call(f, a, dict(grid=on)))
        want = c.returns(want, w, f'grid={on}')
        if not on:
            for kw in ({}, dict(grid=None)):
                c.equal(A.run(lambda: A.I.call(f, a, kw)).value, want, w, f'values without the option grid {kw}', n=3)
        env = A.client(f"""
import numpy as np
def one(f, a):
    return f(*a, grid={int(on)})
def two(f, a):
    return f(*a, grid=np.bool_({on}))
""")
        for n, what in (('one', int(on)), ('two', f'np.bool_({on})')):
            c.equal(c.returns(A.call(env[n], f, tuple(a)), w, f'grid={what}'), want, w, f'grid={what} means grid={on}', n=3)
    for name in ('model_utils', 'chaos'):
        for on in (True, False):
            ck.add(f'grid flag/{name}/{on}', gridflag, name, on)

    def mgridlead(c, tsh, psh, csh, pole):
        # colatitudes and longitudes with leading dimensions: the grid is spanned by the last ones
        A = c.an()
        w = c.where(MU + 'synth_values')
        co = A.syms('c', csh + (8,))
        r = sym('r', 'radius')
        th = mkarg(A, 'th', tsh, 'thetap' if pole else 'theta')
        ph = mkarg(A, 'ph', psh, 'phi')
        x = A.call(MU + 'synth_values', co, r, th, ph, grid=True)
        c.returns(x, w, 'grid with leading dimensions')
        lead = np.broadcast_shapes(tsh[:-1], psh[:-1])
        tot = np.broadcast_shapes(csh, lead + (tsh[-1], psh[-1]))
        for k in range(3):
            c.ok(x.value[k].v.shape == tot, w, f'grid result of shape {x.value[k].v.shape} for colatitudes {tsh} and longitudes {psh}, expected {tot}')
        for i in np.ndindex(*tot):
            l = i[len(i) - 2 - len(lead):-2]
            cc = A.arr(list(co.get()[bidx(i, csh)])) if csh else co
            y = A.call(MU + 'synth_values', cc, r, th.get()[bidx(l, tsh[:-1]) + (i[-2],)], ph.get()[bidx(l, psh[:-1]) + (i[-1],)])
            for k in range(3):
                yy = y.value[k]
                c.equal(x.value[k].v[i], yy.v[()] if isinstance(yy, SA) else yy, w, f'grid element {i} of component {k}', n=2)
    for tsh, psh, csh in (((2, 3), (2, 2), ()), ((2, 1, 2), (3,), ()), ((2,), (2, 1, 3), ()), ((2, 2), (1, 2), ()), ((2, 1, 2), (1, 2, 2), ()),
                          ((1, 2), (2, 2), (2, 1, 1))):
        for pole in (False, True):
            ck.add(f'grid/{csh}/{tsh}x{psh}/{pole}', mgridlead, tsh, psh, csh, pole)

    def coeffs(c, order, sh):
        A = c.an()
        b = breaks_syms(3)
        m, _, _ = basemodel(A, 2, order, 1, brk=b)
        w = c.where('chaos.BaseModel.synth_coeffs')
        for kw in ({}, dict(deriv=1), dict(extrapolate='constant'), dict(extrapolate='off'), dict(extrapolate='spline', nmax=1)):
            t = mkarg(A, 't', sh, 'time', b)
            x = A.method(m, 'synth_coeffs', t, **kw)
            c.returns(x, w, 'coefficients')
            c.ok(x.value.v.shape == (sh or ()) + (3,), w, f'shape {x.value.v.shape} for times of shape {sh}')
            for i in np.ndindex(*(sh or ())):
                y = A.method(m, 'synth_coeffs', el(t, i), **kw)
                c.equal(x.value.v[i], y.value.v, w, f'coefficients at time {i} of shape {sh} with {kw}', n=3)
    for order in (1, 2, 4):
        for sh in (None, (), (1,), (3,), (2, 2), (3, 1), (1, 1, 2)):
            ck.add(f'coeffs/{order}/{sh}', coeffs, order, sh)

    TSH = [(None, None, None, None), ((2,), None, None, None), (None, (2,), (2,), (2,)), ((2,), (2,), (2,), (2,)), ((2, 1), (2,), None, (2,)),
           ((1,), (1,), (1,), (1,)), ((2, 1), None, (1, 2), None), (None, None, None, (3,)), (None, (2, 1), (2,), None)]

    def model(c, which, sh, pole=False):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=2, brk=b)
        args = [mkarg(A, n, s, k, b) for n, s, k in zip(('t', 'r', 'th', 'ph'), sh, ('time', 'radius', 'thetap' if pole and sh[2] else 'theta', 'phi'))]
        tot = bshape(*sh)
        kw = {}
        if which == 'pp':
            tt = args[0]
            n = int(np.prod(sh[0])) if sh[0] is not None else 1
            ins = [inside(b, f'z{i}') for i in range(n)]
            args[0] = A.arr(oarr(ins, sh[0])) if sh[0] is not None else ins[0]
            co = A.syms('c', (2, 2, 3))
            q, w = (lambda a, k: A.run(lambda: A.I.call(A.get(MU + 'synth_from_pp'), [A.arr(b), 2, co] + list(a), dict(k)))), c.where(MU + 'synth_from_pp')
        elif which == 'base':
            m, _, _ = basemodel(A, 2, 3, 2, brk=b, source='external')
            q, w = (lambda a, k: A.method(m, 'synth_values', *a, **k)), c.where('chaos.BaseModel.synth_values')
        elif which == 'call':
            kw = dict(rc_e=sym('re'), rc_i=sym('ri'))
            q, w = (lambda a, k: C.query(*a, **k)), c.where('chaos.CHAOS.__call__')
        elif which == 'call/rc':
            kw = dict(rc_e=mkarg(A, 're', sh[0], 'real'), rc_i=mkarg(A, 'ri', sh[0], 'real'))
            q, w = (lambda a, k: C.query(*a, **k)), c.where('chaos.CHAOS.__call__')
        elif which == 'static':
            args, sh = args[1:], sh[1:]
            tot = bshape(*sh)
            q, w = (lambda a, k: C.call('synth_values_static', *a, **k)), c.where('chaos.CHAOS.synth_values_static')
        elif which == 'sm':
            kw = dict(rc_e=mkarg(A, 're', sh[0], 'real'), rc_i=mkarg(A, 'ri', sh[0], 'real'))
            q, w = (lambda a, k: C.call('synth_values_sm', *a, **k)), c.where('chaos.CHAOS.synth_values_sm')
        else:
            q, w = (lambda a, k: C.call(f'synth_values_{which}', *a, **k)), c.where(f'chaos.CHAOS.synth_values_{which}')
        x = q(args, kw)
        c.returns(x, w, which)
        pt = {}
        for i in np.ndindex(*tot):
            pt[i] = q([el(a, i) for a in args], {k: el(v, i) for k, v in kw.items()})
        for k in range(3):
            got = x.value[k].v if isinstance(x.value[k], SA) else np.array(x.value[k], dtype=object)
            c.ok(got.shape == tot, w, f'{which}: result of shape {got.shape} for shapes {sh}, expected {tot}')
            for i in np.ndindex(*tot):
                y = pt[i].value[k]
                c.equal(got[i], y.v[()] if isinstance(y, SA) else y, w, f'{which}: component {k}, element {i} of shapes {sh} and the single point', n=2)
    for which in ('base', 'tdep', 'call', 'gsm', 'sm', 'static', 'pp', 'call/rc'):
        for sh in TSH:
            if which in ('sm', 'call/rc') and sh[0] is None:
                continue
            ck.add(f'{which}/{sh}', model, which, sh)
        ck.add(f'{which}/poles', model, which, ((2,), (2,), (2,), (2,)), True)

    def mgrid(c, which, T_):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=2, brk=b)
        m, _, _ = basemodel(A, 2, 3, 2, brk=b)
        tsh = (T_, 1, 1) if T_ else None
        t = mkarg(A, 't', tsh, 'time', b)
        r, th, ph = sym('r', 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 3, 'phi')
        kw = {}
        if which == 'base':
            q, w = (lambda a, k: A.method(m, 'synth_values', *a, **k)), c.where('chaos.BaseModel.synth_values')
        elif which == 'static':
            q, w = (lambda a, k: C.call('synth_values_static', *a[1:], **k)), c.where('chaos.CHAOS.synth_values_static')
        elif which == 'pp':
            co = A.syms('c', (2, 2, 3))
            t = inside(b) if not T_ else A.arr(oarr([inside(b, f'z{i}') for i in range(T_)], tsh))
            q, w = (lambda a, k: A.run(lambda: A.I.call(A.get(MU + 'synth_from_pp'), [A.arr(b), 2, co] + list(a), dict(k)))), c.where(MU + 'synth_from_pp')
        else:
            if which == 'sm':
                kw = dict(rc_e=sym('re'), rc_i=sym('ri'))
            q, w = (lambda a, k: C.call(f'synth_values_{which}', *a, **k)), c.where(f'chaos.CHAOS.synth_values_{which}')
        x = q([t, r, th, ph], dict(kw, grid=True))
        c.returns(x, w, which)
        tot = ((T_,) if T_ and which != 'static' else ()) + (2, 3)
        for k in range(3):
            c.ok(x.value[k].v.shape == tot, w, f'{which}: grid result of shape {x.value[k].v.shape}, expected {tot}')
        for i in np.ndindex(*tot):
            y = q([t.get()[i[0], 0, 0] if T_ else t, r, th.get()[i[-2]], ph.get()[i[-1]]], kw)
            for k in range(3):
                yy = y.value[k]
                c.equal(x.value[k].v[i], yy.v[()] if isinstance(yy, SA) else yy, w, f'{which}: grid element {i} of component {k}', n=2)
    for which in ('base', 'tdep', 'static', 'gsm', 'sm', 'pp'):
        for T_ in (0, 2):
            ck.add(f'grid/{which}/{T_}', mgrid, which, T_)

    def refused(c, which, sh, kw):
        # shapes that cannot be broadcast
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=2, brk=b)
        m, _, _ = basemodel(A, 2, 3, 2, brk=b)
        t, r, th, ph = [mkarg(A, n, s, k, b) for n, s, k in zip(('t', 'r', 'th', 'ph'), sh, ('time', 'radius', 'theta', 'phi'))]
        if which in ('synth_values', 'design_gauss'):
            f, w = A.get(MU + which), c.where(MU + which)
            a = [A.syms('c', (sh[0] or ()) + (8,)), r, th, ph] if which == 'synth_values' else [r, th, ph, 2]
        elif which == 'base':
            f, w, a = A.I.getattr(m, 'synth_values'), c.where('chaos.BaseModel.synth_values'), [t, r, th, ph]
        elif which == 'call':
            f, w, a = C.m, c.where('chaos.CHAOS.__call__'), [t, r, th, ph]
        else:
            w = c.where(f'chaos.CHAOS.synth_values_{which}')
            f, a = A.I.getattr(C.m, f'synth_values_{which}'), [t, r, th, ph][which == 'static':]
        if which in ('call', 'sm'):
            kw = dict(kw, rc_e=sym('re'), rc_i=sym('ri'))
        c.always_raises(A.run(lambda: A.I.call(f, a, kw)), ValueError, w, f'{which} with shapes {sh} that cannot be broadcast')
    for which in ('synth_values', 'design_gauss', 'base', 'tdep', 'static', 'gsm', 'sm', 'call'):
        for sh in ((None, (2,), (3,), None), (None, None, (2,), (3,)), (None, (2, 1), (2, 2), (3,)), ((2,), None, (3,), (3,)), ((2,), (2,), (2,), (3,))):
            if which in ('design_gauss', 'static') and sh[0] and sh[3] == (3,) and sh[2] == (3,):
                continue
            ck.add(f'refused/{which}/{sh}', refused, which, sh, {})
        if which not in ('design_gauss', 'call'):
            ck.add(f'refused/{which}/grid', refused, which, (None, (4,), (2,), (3,)), dict(grid=True))
