"""inputs whose number of dimensions or size does not fit are refused"""
from .common import *
from .synth import oarr

CO = 'coordinate_utils.'


@rule('C95', 'Inputs of the wrong shape or size are refused',
      'exception analysis: every exit of the call raises, under every condition, before anything is drawn or written')
def c95(ck):
    def refused(c, A, f, where, what, cls=Exception):
        r = A.run(f)
        c.always_raises(r, cls, where, what)
        drawn_ = [e for e in r.evs('opaque_call') if e['path'].endswith(('.subplots', '.plot', '.pcolormesh', '.figure'))]
        c.ok(not drawn_, where, f'{what}: something is drawn before the input is refused')
        wr = [e for e in r.evs('open') if any(ch in str(e['mode']) for ch in 'wax+')]
        c.ok(not wr, where, f'{what}: a file is opened for writing before the input is refused')

    def call(A, f, *a, **k):
        return lambda: A.I.call(A.get(f), list(a), dict(k))

    def meth(A, o, f, *a, **k):
        return lambda: A.I.call(A.I.getattr(o, f), list(a), dict(k))

    # ---- spectra and correlations
    def corr(c, f, a, b):
        A = c.an()
        x, y = (A.syms('x', a, 'real'), A.syms('y', b, 'real'))
        w = c.where(MU + f)
        refused(c, A, call(A, MU + f, x, y), w, f'{f} of arrays of shape {a} and {b}')
        refused(c, A, call(A, MU + f, y, x), w, f'{f} of arrays of shape {b} and {a}')
    SH = [((3,), (8,)), ((15,), (8,)), ((3,), (1, 3)), ((3,), (3, 1)), ((1, 8), (1, 8)), ((2, 3), (2, 3)), ((3,), ()), ((), ()),
          ((8,), (2, 2, 2)), ((8,), (24,)), ((2, 8), (2, 8))]
    for f in ('degree_correlation', 'sensitivity'):
        for a, b in SH:
            ck.add(f'{f}/{a} and {b}', corr, f, a, b)

    # ---- degrees
    def degrees(c, nc, kw, src, grid):
        A = c.an()
        w = c.where(MU + 'synth_values')
        if grid:
            th, ph = A.syms('th', 2, 'theta'), A.syms('ph', 3, 'phi')
        else:
            th, ph = sym('th', 'theta'), sym('ph', 'phi')
        refused(c, A, call(A, MU + 'synth_values', A.syms('c', dim(nc)), sym('r', 'radius'), th, ph, source=src, grid=grid, **kw), w,
                f'synth_values of degree {nc} with {kw}')
    for nc, kw in ((2, dict(nmin=3, nmax=2)), (3, dict(nmin=3, nmax=2)), (3, dict(nmin=2, nmax=1)), (1, dict(nmin=2, nmax=5)),
                   (4, dict(nmin=5, nmax=9)), (2, dict(nmax=0)), (1, dict(nmax=2)), (2, dict(nmax=3)), (2, dict(nmin=2, nmax=4)),
                   (3, dict(nmin=3, nmax=1, mmax=1)), (1, dict(nmax=2, mmax=1))):
        for src in ('internal', 'external'):
            for grid in (False, True):
                ck.add(f'degrees/{nc}/{kw}/{src}/{"grid" if grid else "point"}', degrees, nc, kw, src, grid)

    def shc(c, nc, kw):
        A = c.an()
        refused(c, A, call(A, DU + 'save_shcfile', A.syms('t', 2, 'day'), A.syms('c', (2, dim(nc))), filepath='/out/a.shc', **kw),
                c.where(DU + 'save_shcfile'), f'save_shcfile of degree {nc} with {kw}')
        m, _, _ = basemodel(A, 1, 3, nc)
        refused(c, A, meth(A, m, 'to_shc', '/out/a.shc', **kw), c.where(CH + 'BaseModel.to_shc'), f'to_shc of degree {nc} with {kw}')
    for nc, kw in ((2, dict(nmin=3)), (3, dict(nmin=3, nmax=2)), (1, dict(nmin=2)), (3, dict(nmin=2, nmax=1))):
        ck.add(f'SHC degrees/{nc}/{kw}', shc, nc, kw)

    def design(c, n, ns, order):
        A = c.an()
        b = breaks_syms(3)
        a = (A.arr(b), order, n, A.arr([inside(b, f'u{i}') for i in range(2)]), A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'),
             A.syms('ph', 2, 'phi'))
        refused(c, A, design_call(A, a, ns), c.where(MU + 'design_matrix'), f'design_matrix of degree {n} with a static part of degree {ns}')

    def design_call(A, a, ns):
        knots, order, n, t, r, th, ph = a
        k = A.I.call(A.get(MU + 'augment_breaks'), [knots, order], {})
        return lambda: A.I.call(A.get(MU + 'design_matrix'), [k, order, n, t, r, th, ph], {'n_static': ns})
    for n, ns in ((2, 1), (3, 1), (3, 2), (4, 2)):
        for order in (1, 3):
            ck.add(f'design degrees/{n} with {ns}/order {order}', design, n, ns, order)

    def ragged(c, which):
        A = c.an()
        b = breaks_syms(3)
        k = A.I.call(A.get(MU + 'augment_breaks'), [A.arr(b), 2], {})
        a = dict(time=A.arr([inside(b, f'u{i}') for i in range(2)]), radius=A.syms('r', 2, 'radius'), theta=A.syms('th', 2, 'theta'),
                 phi=A.syms('ph', 2, 'phi'))
        for sh in ((3,), (1,), (2, 1)):
            z = dict(a)
            z[which] = A.arr([inside(b, f'v{i}') for i in range(sh[0])]) if which == 'time' else \
                A.syms('z', sh, {'radius': 'radius', 'theta': 'theta', 'phi': 'phi'}[which])
            if which == 'time' and sh == (2, 1):
                z[which] = A.arr([[inside(b, 'v0')], [inside(b, 'v1')]])
            refused(c, A, lambda: A.I.call(A.get(MU + 'design_matrix'), [k, 2, 1, z['time'], z['radius'], z['theta'], z['phi']], {}),
                    c.where(MU + 'design_matrix'), f'design_matrix with {which} of shape {sh}')
    for w in ('time', 'radius', 'theta', 'phi'):
        ck.add(f'design matrix/{w}', ragged, w)

    def gauss(c, n, kw):
        A = c.an()
        for src in ('internal', 'external'):
            refused(c, A, call(A, MU + 'design_gauss', A.syms('r', 2, 'radius'), A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'), n, source=src, **kw),
                    c.where(MU + 'design_gauss'), f'design_gauss of degree {n} with {kw}')
    for n, kw in ((0, {}), (-1, {}), (2, dict(nmin=0)), (2, dict(nmin=-1)), (2, dict(nmin=3)), (1, dict(nmin=2)), (2, dict(nmin=4)),
                  (2, dict(mmax=3)), (1, dict(mmax=2)), (2, dict(mmax=-1)), (2, dict(nmin=2, mmax=3)), (3, dict(nmin=4, mmax=1))):
        ck.add(f'design_gauss degrees/{n}/{kw}', gauss, n, kw)

    def below_one(c, kw):
        A = c.an()
        for src in ('internal', 'external'):
            refused(c, A, call(A, MU + 'synth_values', A.syms('c', 8), sym('r', 'radius'), sym('th', 'theta'), sym('ph', 'phi'), source=src, **kw),
                    c.where(MU + 'synth_values'), f'synth_values with {kw}')
    for kw in (dict(nmin=0), dict(nmin=-1), dict(nmin=0, nmax=2), dict(nmin=0, mmax=1), dict(nmin=0, nmax=2, mmax=1)):
        ck.add(f'degrees below one/{kw}', below_one, kw)

    def rotation(c, shapes):
        A = c.an()
        b = [A.syms(f'e{i}', s + (3,)) for i, s in enumerate(shapes)]
        refused(c, A, call(A, CO + 'rotate_gauss', 1, 1, *b), c.where(CO + 'rotate_gauss'), f'base vectors of shapes {shapes}')
    for sh in (((2,), (2,), (3,)), ((2,), (1,), (2,)), ((1,), (2,), (2,)), ((), (2,), (2,)), ((2,), (2,), ()), ((2, 1), (2,), (2,)), ((1, 2), (2, 1), (1, 2))):
        ck.add(f'base vectors/{sh}', rotation, sh)

    # ---- arrays that do not broadcast
    def nobroad(c, fn, bad):
        A = c.an()
        n = {k: 2 for k in ('c', 'r', 'th', 'ph', 't', 'bt', 'bp')}
        n[bad] = 3
        th, ph, t = A.syms('th', n['th'], 'theta'), A.syms('ph', n['ph'], 'phi'), A.syms('t', n['t'], 'day')
        r = A.syms('r', n['r'], 'radius')
        w = c.where((MU if fn == 'synth_values' else CO if fn.startswith(('trans', 'geo')) else 'chaos.BaseModel.') + fn)
        if fn == 'synth_values':
            refused(c, A, call(A, MU + fn, A.syms('c', (n['c'], 3)), r, th, ph), w, f'{fn} with another length of {bad}')
        elif fn == 'transform_points':
            for ref in ('gsm', 'sm'):
                refused(c, A, call(A, CO + fn, th, ph, t, reference=ref), w, f'{fn} with another length of {bad} ({ref})')
        elif fn == 'transform_vectors':
            for ref in ('gsm', 'sm', 'mag'):
                for inv in (False, True):
                    if ref == 'mag' and bad == 't':
                        continue
                    refused(c, A, call(A, CO + fn, th, ph, A.syms('bt', n['bt']), A.syms('bp', n['bp']), *(() if ref == 'mag' else (t,)),
                                       reference=ref, inverse=inv), w, f'{fn} with another length of {bad} ({ref}, inverse={inv})')
        else:
            m, b, _ = basemodel(A, 2, 3, 1)
            tt = A.arr([inside(b, f'u{i}') for i in range(n['t'])])
            refused(c, A, meth(A, m, 'synth_values', tt, r, th, ph), c.where('chaos.BaseModel.synth_values'), f'BaseModel.synth_values with another length of {bad}')
    for fn, ks in (('synth_values', ('c', 'r', 'th', 'ph')), ('transform_points', ('th', 'ph', 't')), ('transform_vectors', ('th', 'ph', 't', 'bt', 'bp')),
                   ('model', ('t', 'r', 'th', 'ph'))):
        for k in ks:
            ck.add(f'broadcast/{fn}/{k}', nobroad, fn, k)

    # ---- splines
    def breaks(c, sh, order):
        A = c.an()
        x = oarr([T.num(i) for i in range(int(np.prod(sh)))], sh)
        refused(c, A, call(A, MU + 'augment_breaks', new_arr(x, F), order), c.where(MU + 'augment_breaks'), f'break points of shape {sh}')
    for sh in ((2, 2), (1, 3), (3, 1), (2, 2, 2)):
        for order in (1, 2, 4):
            ck.add(f'breaks/{sh}/order {order}', breaks, sh, order)

    def pieces(c, order, n, given_):
        # coefficients of another number of pieces than the break points make
        A = c.an()
        b = breaks_syms(n + 1)
        for cls, extra in (('chaos.Base', 3), ('chaos.BaseModel', 3)):
            w = c.where(cls + '.synth_coeffs')

            def run():
                m = A.I.call(A.get(cls), ['x', A.arr(b), order, A.syms('c', (order, given_, extra))], {})
                return A.I.call(A.I.getattr(m, 'synth_coeffs'), [inside(b)], {})
            refused(c, A, run, w, f'{given_} pieces of coefficients for {n + 1} break points')
    for order in (1, 2, 4):
        for n, g in ((2, 1), (2, 3), (1, 2), (3, 5)):
            ck.add(f'pieces/order {order}/{g} for {n}', pieces, order, n, g)

    def bspline(c, order, short):
        A = c.an()
        b = breaks_syms(3)
        k = A.I.call(A.get(MU + 'augment_breaks'), [A.arr(b), order], {})
        n = int(k.size) - order - short
        refused(c, A, lambda: A.I.call(A.I.getattr(A.get('chaos.BaseModel'), 'from_bspline'), ['x', k, A.syms('c', (n, 3)), order], {}),
                c.where(CH + 'BaseModel.from_bspline'), f'{n} spline coefficients for {int(k.size)} knots of order {order}')
    for order in (2, 3, 4):
        ck.add(f'B-spline/order {order}', bspline, order, 1)

    # ---- dipole and base vectors
    def dipoles(c, n, kind, fn):
        A = c.an()
        d = [sym(f'd{i}', 'gap') for i in range(n)]
        dip = LList(d) if kind == 'list' else tuple(d)
        a = {'basevectors_mag': (), 'dipole_to_vec': ()}.get(fn, (A.syms('t', 2, 'day'),))
        if fn.startswith('transform'):
            a = (A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')) + ((A.syms('bt', 2), A.syms('bp', 2)) if 'vectors' in fn else ()) + a
            for ref in ('gsm', 'sm', 'mag'):
                refused(c, A, call(A, CO + fn, *a, reference=ref, dipole=dip), c.where(CO + fn), f'{fn} with a dipole of {n} numbers ({ref})')
            return
        refused(c, A, call(A, CO + fn, *a, dipole=dip), c.where(CO + fn), f'{fn} with a dipole of {n} numbers')
    for n in (4, 5):
        for kind in ('list', 'tuple'):
            for fn in ('basevectors_gsm', 'basevectors_sm', 'basevectors_mag', 'transform_points', 'transform_vectors'):
                ck.add(f'dipole/{fn}/{kind} of {n}', dipoles, n, kind, fn)

    def use(c, form):
        A = c.an()
        ph = A.syms('ph', 3, 'phi')
        for p in (0, 180):
            th = {'number': T.num(p), 'first': A.arr([T.num(p), sym('t1', 'theta'), sym('t2', 'theta')]),
                  'middle': A.arr([sym('t0', 'theta'), T.num(p), sym('t2', 'theta')]),
                  'last': A.arr([sym('t0', 'theta'), sym('t1', 'theta'), T.num(p)]),
                  'all': A.arr([T.num(p)] * 3), 'grid': A.arr([[T.num(p)], [sym('t1', 'theta')]]),
                  'both': A.arr([T.num(0), sym('t1', 'theta'), T.num(180)])}[form]
            refused(c, A, call(A, CO + 'basevectors_use', th, ph if form != 'number' else ph.get()[0]), c.where(CO + 'basevectors_use'),
                    f'unit vectors at a pole ({form})')
    for form in ('number', 'first', 'middle', 'last', 'all', 'grid', 'both'):
        ck.add(f'poles/{form}', use, form)

    # ---- response
    def response(c, kind, per, sig):
        A = c.an()
        kw = {} if kind is None else dict(kind=kind)
        p = A.arr(np.full(per, 7200.).tolist()) if per else A.arr([7200.])
        s = A.arr(np.full(sig, 2.).tolist())
        n = sig[0] if sig else 1
        refused(c, A, call(A, CO + 'q_response_1D', p, s, A.arr([6371. - 100 * i for i in range(max(sig))]), 1, **kw),
                c.where(CO + 'q_response_1D'), f'periods of shape {per} and conductivity of shape {sig}')
    for kind in (None, 'constant', 'quadratic'):
        for per, sig in (((2, 2), (3,)), ((1, 1), (3,)), ((3, 1), (3,)), ((2,), (3, 1)), ((2,), (1, 3)), ((2,), (2, 2)), ((1, 2), (1, 3))):
            ck.add(f'response/{kind}/{per} {sig}', response, kind, per, sig)

    # ---- plots
    def layout(c, fn, n, lay):
        A = c.an()
        lib_present(A)
        if fn == 'plot_timeseries':
            a = [A.syms('t', 2, 'day')] + [A.syms(f'x{i}', 2) for i in range(n)]
        else:
            a = [A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')] + [A.syms(f'x{i}', (2, 2)) for i in range(n)]
        refused(c, A, call(A, PU + fn, *a, layout=lay), c.where(PU + fn), f'{fn} of {n} components with the layout {lay}')
    for fn in ('plot_timeseries', 'plot_maps'):
        for n, lay in ((3, (1, 2)), (3, (2, 2)), (1, (2, 1)), (3, (3, 2)), (2, (1, 1)), (3, (1, 4)), (3, (0, 3))):
            ck.add(f'layout/{fn}/{n} in {lay}', layout, fn, n, lay)

    def model_layout(c, name, lay):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C_ = Chaos(A, order=2, n=1, nstat=2, brk=b)
        m, _, _ = basemodel(A, 2, 3, 1, brk=b)
        r, th, ph = point()
        o, cls, a = {'plot_timeseries_tdep': (C_.m, 'CHAOS', (r, th, ph)), 'plot_maps_tdep': (C_.m, 'CHAOS', (inside(b), r)),
                     'plot_maps_static': (C_.m, 'CHAOS', (r,)), 'plot_maps_external': (C_.m, 'CHAOS', (inside(b), r)),
                     'plot_timeseries': (m, 'BaseModel', (r, th, ph)), 'plot_maps': (m, 'BaseModel', (inside(b), r))}[name]
        refused(c, A, meth(A, o, name, *a, layout=lay), c.where(f'chaos.{cls}.{name}'), f'{name} with the layout {lay}')
    for name in ('plot_timeseries_tdep', 'plot_maps_tdep', 'plot_maps_static', 'plot_timeseries', 'plot_maps'):
        for lay in ((1, 2), (2, 2)):
            ck.add(f'layout/{name}/{lay}', model_layout, name, lay)

    # ---- RC values and times
    def rc(c, src, nt, nr):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        M = Chaos(A, order=2, n=1, nstat=1, brk=b)
        t = A.arr([inside(b, f'u{i}') for i in range(nt)])
        refused(c, A, meth(A, M.m, 'synth_coeffs_sm', t, source=src, rc=A.syms('rc', nr)), c.where(CH + 'CHAOS.synth_coeffs_sm'),
                f'{nr} values of RC for {nt} times')
    for src in ('external', 'internal'):
        for nt, nr in ((3, 2), (2, 3)):
            ck.add(f'RC/{src}/{nr} for {nt}', rc, src, nt, nr)

    # ---- files
    def shcfile(c, what):
        A = c.an()
        body = [f'{n} {m} {n + m}.5 2.0' for n in (1, 2) for m in [0] + [x for k in range(1, n + 1) for x in (k, -k)]]
        head = '1 2 2 2 1'
        rows = {'number missing': body[:-1] + ['2 -2 1.0'], 'additional number': body[:-1] + ['2 -2 1. 2. 3.']}[what]
        A.put('/data/in.shc', '# c\n' + head + '\n 2000.0 2001.0\n' + '\n'.join(rows) + '\n')
        for f in (DU + 'load_shcfile', 'chaos.load_CHAOS_shcfile'):
            refused(c, A, call(A, f, '/data/in.shc'), c.where(f), f'SHC file: {what}')
        refused(c, A, lambda: A.I.call(A.I.getattr(A.get('chaos.BaseModel'), 'from_shc'), ['/data/in.shc'], {}), c.where(CH + 'BaseModel.from_shc'),
                f'SHC file: {what}')
    for what in ('number missing', 'additional number'):
        ck.add(f'SHC file/{what}', shcfile, what)
