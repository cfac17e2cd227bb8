"""rotation spectra, RC index"""
from .common import *
from .errors import rc_covering

RG, SY = CU + 'rotate_gauss_fft', CU + 'synth_rotate_gauss'

REF = '''
def harm(t, f, s, once):
    # t: one time, f and s: (k, m, n); real part of the harmonics, zero frequency once
    out = np.zeros(s.shape[1:])
    for k in range(s.shape[0]):
        a = 2*np.pi*f[k]*t
        w = np.where(f[k] == 0., 1., 1. if once else 2.)
        out = out + w*(s[k].real*np.cos(a) - s[k].imag*np.sin(a))
    return out

def fourier(t, R, N, step, start, resp):
    # series R (N, m, n) sampled every step hours from the start; t: one time
    out = np.zeros(R.shape[1:])
    for k in range(N // 2 + 1):
        re = np.zeros(R.shape[1:])
        im = np.zeros(R.shape[1:])
        for j in range(N):
            re = re + R[j]*np.cos(2*np.pi*k*j/N)/N
            im = im - R[j]*np.sin(2*np.pi*k*j/N)/N
        if resp is not None:
            qr, qi = resp[k].real, resp[k].imag     # (m, 1)
            re, im = re*qr - im*qi, re*qi + im*qr
        a = 2*np.pi*(k/(N*step/24))*(t - start)
        out = out + (1 if k == 0 else 2)*(re*np.cos(a) - im*np.sin(a))
    return out
'''


def conform(c, t):
    return t


@rule('C24', 'Rotation spectra are used consistently with how they were made',
      'value-graph equality of the synthesised matrices with an independent Fourier series, for producer and consumer')
def c24(ck):
    def freqs(A, shape):
        """frequencies with zeros at different places of each element"""
        f = A.syms('f', shape, 'pos').get().copy()
        for n, i in enumerate(np.ndindex(*shape[1:]) if len(shape) > 1 else [()]):
            f[(n % shape[0],) + i] = T.num(0)
        return A.arr(f)

    def consumer(c, sc, vec, tsh):
        A = c.an()
        e = spec(A, REF)
        w = c.where(SY)
        sh = (3, 2, 2)
        f = freqs(A, (3,) if vec else sh)
        s = A.syms('z', sh, 'complex')
        full = spec(A, 'def g(f, s): return np.array([[[f[k]]*s.shape[2]]*s.shape[1] for k in range(s.shape[0])])\n')
        f3 = live(A, full['g'], f, s) if vec else f
        t = A.syms('t', tsh, 'mjd')
        kw = {} if sc == 'unset' else dict(scaled={'0d True': new_arr(objarr0(True), B), '0d False': new_arr(objarr0(False), B)}.get(sc, sc))
        r = A.call(SY, t, f, s, **kw)
        c.returns(r, w, 'rotation matrices')
        v = snapof(A, t).v
        once = sc in (True, '0d True')
        for i in np.ndindex(*tsh):
            q = A.call(e['harm'], v[i], f3, s, once)
            c.equal(SA_at(r.value, i), q.value, w, f'matrices at one time, scaled={sc}')
        c.ok(tuple(r.value.v.shape) == tsh + sh[1:], w, f'shape {r.value.v.shape}')
    for sc in ('unset', None, True, False, '0d True', '0d False'):
        for vec in (False, True):
            for tsh in ((), (2,), (2, 2)) if ck.tier == 'thorough' or sc in (True, False) else ((), (2,)):
                ck.add(f'matrices/scaled={sc}/{"vector" if vec else "element-wise"} frequencies/time {tsh}', consumer, sc, vec, tsh)

    def setup(c, nmax, kmax, N, ref, resp):
        A = c.an()
        lib_present(A)
        e = spec(A, REF)

        def rg(I, a, k):
            n, kk, b1, b2, b3 = a
            bs = [snapof_raw(A, b) for b in (b1, b2, b3)]
            out = np.empty(bs[0].shape[:-1] + (dim(int(n)), dim(int(kk))), dtype=object)
            for i in np.ndindex(*out.shape):
                xs = [b[i[:-2] + (j,)] for b in bs for j in range(3)]
                out[i] = T.uf(f'R:{i[-2]}:{i[-1]}', *xs)
            return A.arr(out)
        A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'] = rg
        A.I.overrides['chaosmagpy.coordinate_utils.q_response'] = lambda I, a, k: A.I.call(qr['q_response'], list(a), k)
        qr = spec(A, '''
def q_response(frequency, nmax):
    return np.array([[(n + 1)*q0*f*1000 + q1 + 1j*(q2*(n + 2) + f*1000) for f in frequency] for n in range(nmax)])
def qfunc(freq, k):
    return np.array([(k + 1)*q0*f*1000 + q1 + 1j*(q2*(k + 2) + f*1000) for f in freq])
def of_degree(f, nmax):
    # (frequency, coefficient, 1)
    out = []
    for x in f:
        q = q_response([x], nmax)
        out.append(np.array([[q[n - 1][0]] for n in range(1, nmax + 1) for m in range(2*n + 1)]))
    return out
def of_coeff(f, nmax):
    out = []
    for x in f:
        out.append(np.array([[qfunc([x], k)[0]] for k in range(nmax*(nmax + 2))]))
    return out
''', q0=sym('q0'), q1=sym('q1'), q2=sym('q2'))
        return A, e, qr

    def producer(c, nmax, kmax, N, ref, o):
        resp = o.pop('q', None)
        A, e, qr = setup(c, nmax, kmax, N, ref, resp)
        w = c.where(RG)
        step = sym('step', 'pos')
        start = sym('start', 'day')
        kw = dict(N=N, step=step, reference=ref, **o)
        if kw.get('start_date') == 'sym':
            kw['start_date'] = start
        else:
            start = T.num(0)
        if resp:
            kw['qfunc'] = qr['qfunc']
        p = '/out/s.npz'
        r = A.call(RG, nmax, kmax, save_to=p, **kw)
        c.returns(r, w, 'rotate_gauss_fft')
        back = spec(A, '''
def back(path, keys):
    with np.load(path) as f:
        d = dict(f)
    return tuple(d[k] for k in keys)
''')
        A.do(lambda: A.I.call(A.get(RG), [nmax, kmax], dict(save_to=p, **kw)))
        keys = ('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind')
        q = A.call(back['back'], p, LList(list(keys)))
        c.returns(q, w, 'reading the saved spectrum')
        for k, x, y in zip(keys, r.value, q.value):
            c.equal(y, x, w, f'saved {k} and the one returned')
        g = A.call(back['back'], p, LList(['scaled', 'dipole', 'step', 'N', 'start_date']))
        c.returns(g, w, 'saved settings')
        want = A.run(lambda: (A.I.getattr(A.get('numpy') if False else cfgval(A, 'params.dipole'), 'copy'), ))
        c.equal(SA_flat(g.value[0]), bool(o.get('scaled') or False), w, 'saved flag of the scaling')
        c.equal(g.value[1], snapof(A, cfgval(A, 'params.dipole')), w, 'saved dipole')
        # matrices synthesised from the saved arrays
        fr, sp, fi, si, sc = live(A, back['back'], p, LList(list(keys) + ['scaled']))
        t = A.syms('t', (), 'mjd')
        b = ref or 'gsm'
        tn = T.num(0)
        times = A.arr([T.add(T.mul(T.num(j), T.div(step, T.num(24))), start) for j in range(N)])
        bs = live(A, CU + 'basevectors_' + b.lower(), times)
        R = A.arr(snapof_raw(A, A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'](A.I, [nmax, kmax, *bs], {})))
        full = o.get('filter') in (None, N // 2 + 1)
        fsec = LList([T.div(T.num(k), T.mul(T.num(3600 * N), step)) for k in range(N // 2 + 1)])
        rs = live(A, qr['of_coeff' if resp else 'of_degree'], fsec, nmax)
        for nm, f_, s_, q_ in (('', fr, sp, None), ('induced ', fi, si, rs)):
            m = A.call(SY, t, f_, s_, scaled=sc)
            c.returns(m, w, 'matrices')
            if full:
                x = A.call(e['fourier'], t, R, N, step, start, q_)
                c.equal(m.value, x.value, w, f'{nm}matrices of the whole spectrum', n=4, tol=1e-6)
        if not full:        # the strongest components, whatever the flag
            z = live(A, RG, nmax, kmax, **{**kw, 'filter': o['filter'], 'scaled': False})
            m0 = A.call(SY, t, z[0], z[1], scaled=False)
            m1 = A.call(SY, t, z[2], z[3], scaled=False)
            c.equal(A.call(SY, t, fr, sp, scaled=sc).value, m0.value, w, 'matrices of a scaled and of a plain spectrum', n=4, tol=1e-6)
            c.equal(A.call(SY, t, fi, si, scaled=sc).value, m1.value, w, 'induced matrices of a scaled and of a plain spectrum', n=4, tol=1e-6)
            # kept components: frequency and amplitude belong together and the strongest come first
            for nm, f_, s_, q_ in (('', z[0], z[1], None), ('induced ', z[2], z[3], rs)):
                k_ = spec(A, """
def best(R, N, step, start, resp, keep):
    amp, comp = [], []
    for k in range(N // 2 + 1):
        re = np.zeros(R.shape[1:])
        im = np.zeros(R.shape[1:])
        for j in range(N):
            re = re + R[j]*np.cos(2*np.pi*k*j/N)/N
            im = im - R[j]*np.sin(2*np.pi*k*j/N)/N
        if resp is not None:
            qr, qi = resp[k].real, resp[k].imag
            re, im = re*qr - im*qi, re*qi + im*qr
        amp.append(np.sqrt(re**2 + im**2))
    return np.sort(np.array(amp), axis=0)[::-1][:keep]
def have(s):
    return np.sqrt(s.real**2 + s.imag**2)
""")
                x = A.call(k_['best'], R, N, step, start, q_, o['filter'])
                y = A.call(k_['have'], s_)
                c.equal(y.value, x.value, w, f'amplitudes of the {nm}components kept', n=4, tol=1e-6)
    K = [(1, 1, 3, None, {}), (1, 1, 3, 'sm', dict(scaled=True)), (2, 1, 3, 'gsm', dict(scaled=True)), (1, 2, 5, 'SM', dict(scaled=False)),
         (1, 1, 3, 'gsm', dict(scaled=True, start_date='sym')), (1, 1, 5, 'sm', dict(start_date='sym')),
         (1, 1, 5, 'gsm', dict(filter=2, scaled=True)), (1, 1, 5, 'sm', dict(filter=2, scaled=False)), (1, 1, 5, 'sm', dict(filter=1, scaled=True)),
         (1, 1, 5, 'gsm', dict(filter=3, scaled=True)), (1, 2, 4, 'GSM', dict(filter=2, scaled=True)),
         (2, 1, 3, 'gsm', dict(scaled=True, q=True)), (1, 1, 5, 'sm', dict(filter=2, scaled=True, q=True)), (2, 1, 4, 'sm', dict(scaled=True))]
    if ck.tier == 'thorough':
        K += [(2, 2, 5, 'sm', dict(scaled=True)), (2, 2, 6, 'gsm', dict(scaled=True, filter=3, start_date='sym')), (2, 1, 7, 'gsm', dict(scaled=False, filter=2))]
    for n, (a, b, N_, ref, o) in enumerate(K):
        ck.add(f'spectrum/{a}x{b}/N={N_}/{ref}/' + ','.join(f'{k}={v}' for k, v in o.items()), producer, a, b, N_, ref, o)

    # ---- the external field
    def field(c, which, source, scaled, shape3, tsh):
        A = c.an()
        lib_present(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=1, brk=b)
        path = {'gsm': '/data/g.npz', 'sm': '/data/s.npz'}
        sp = spectra(A, scaled=scaled, shape3=shape3, path=path)
        setcfg(A, 'file.GSM_spectrum', path['gsm'])
        setcfg(A, 'file.SM_spectrum', path['sm'])
        e = spec(A, REF)
        w = c.where(f'chaos.CHAOS.synth_coeffs_{which}')
        t = A.syms('t', tsh, 'mjd')
        v = snapof(A, t).v
        rc = A.syms('rcv', tsh)
        kw = dict(rc=rc) if which == 'sm' else {}
        if source:
            kw['source'] = source
        r = C.call(f'synth_coeffs_{which}', t, **kw)
        c.returns(r, w, f'{which} coefficients')
        full = spec(A, 'def g(f, s): return f if f.ndim == 3 else np.array([[[f[k]]*s.shape[2]]*s.shape[1] for k in range(s.shape[0])])\n')
        F = {s: live(A, full['g'], sp[which]['frequency' + s], sp[which]['spectrum' + s]) for s in ('', '_ind')}
        rcv = snapof(A, rc).v
        co = C.parts[f'coeffs_{which}']
        for i in np.ndindex(*tsh):
            M = {s: live(A, e['harm'], v[i], F[s], sp[which]['spectrum' + s], scaled) for s in ('', '_ind')}
            if which == 'gsm':
                x = A.call(spec(A, 'def f(M, c): return np.array([sum(M[i, j]*c[j] for j in range(8)) for i in range(8)])\n')['f'],
                           M['_ind' if source == 'internal' else ''], co)
            else:
                d = [live(A, spec(A, 'def f(t, brk, co):\n'
                                    '    v = co[0, -1]\n'
                                    '    for k in range(co.shape[1] - 2, -1, -1):\n'
                                    '        v = np.where(t < brk[k + 1], co[0, k], v)\n'
                                    '    return v\n')['f'], v[i], C.parts['breaks_delta'].items[k], C.parts['coeffs_delta'].items[k])
                     for k in ('q10', 'q11', 's11')]
                x = A.call(spec(A, '''
def f(M, Mi, c, rc, d, internal):
    out = []
    for i in range(8):
        v = 0.
        for j in range(8):
            if not internal:
                v = v + M[i, j]*(rc*c[j] + d[j] if j < 3 else c[j])
            else:
                v = v + Mi[i, j]*(d[j] if j < 3 else c[j])
                if i < 3 and j < 3:
                    v = v + M[i, j]*rc*c[j]
        out.append(v)
    return np.array(out)
''')['f'], M[''], M['_ind'], co, rcv[i], LList(d), source == 'internal')
            c.equal(SA_at(r.value, i), x.value, w, f'{which} coefficients from a {"scaled" if scaled else "plain"} spectrum', n=4)
    for which in ('gsm', 'sm'):
        for source in (None, 'external', 'internal'):
            for scaled in (True, False):
                for s3 in (True, False):
                    for tsh in ((), (2,)):
                        if tsh and not s3 and ck.tier == 'quick':
                            continue
                        ck.add(f'{which} field/{source}/{"scaled" if scaled else "plain"}/{"element-wise" if s3 else "vector"}/time {tsh}',
                               field, which, source, scaled, s3, tsh)

    def refuse(c, which, entry, k):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=1, brk=b)
        rc_covering(A, b)
        d = snapof(A, cfgval(A, 'params.dipole')).v.copy()
        d[k] = T.add(d[k], T.num(1))
        other = A.arr(d)
        t = inside(b)
        P = point()
        M = {'coeffs': lambda: A.I.call(A.I.getattr(C.m, f'synth_coeffs_{which}'), [t], dict(source='internal')),
             'values': lambda: A.I.call(A.I.getattr(C.m, f'synth_values_{which}'), [t, *P], {}),
             'maps': lambda: A.I.call(A.I.getattr(C.m, 'plot_maps_external'), [t, P[0]], dict(reference=which))}[entry]
        w = c.where(f'chaos.CHAOS.synth_coeffs_{which}')
        # configured dipole changed, spectrum files unchanged
        old = cfgval(A, 'params.dipole')
        setcfg(A, 'params.dipole', other)
        r = A.run(M)
        c.always_raises(r, Exception, w, f'{which} {entry} with another dipole configured than that of the spectrum (component {k})')
        setcfg(A, 'params.dipole', old)
        spectra(A, dipole=other, which=(which,))
        r = A.run(M)
        c.always_raises(r, Exception, w, f'{which} {entry} with a spectrum made for another dipole (component {k})')
        spectra(A, which=(which,))
        if entry != 'maps':
            c.returns(A.run(M), w, f'{which} {entry} with the dipole of the spectrum')
    for which in ('gsm', 'sm'):
        for entry in ('coeffs', 'values') + (('maps',) if ck.tier == 'thorough' else ()):
            for k in range(3):
                ck.add(f'other dipole/{which}/{entry}/{k}', refuse, which, entry, k)


def live(A, f, *args, **kw):
    """the value itself, not a snapshot"""
    g = A.get(f) if isinstance(f, str) else f
    return A.do(lambda: A.I.call(g, list(args), dict(kw)))


def snapof_raw(A, v):
    return np.asarray(v.get(), dtype=object)


def SA_at(s, i):
    return SA(s.v[i], s.dt, False) if i else s


def SA_flat(s):
    return s.v.item() if isinstance(s, SA) and s.v.size == 1 else s


# ------------------------------------------------------------------ RC index
RCREF = '''
def lin(t, x, y):
    # straight lines between the samples
    n = len(x)
    v = y[n - 2] + (y[n - 1] - y[n - 2])*(t - x[n - 2])/(x[n - 1] - x[n - 2])
    for k in range(n - 3, -1, -1):
        v = np.where(t <= x[k + 1], y[k] + (y[k + 1] - y[k])*(t - x[k])/(x[k + 1] - x[k]), v)
    return v
def lins(ts, x, y):
    return np.array([lin(t, x, y) for t in ts])
'''


def rctext(ts, cols, flags='D', sep='   ', comments=('# RC index', '#time RC RC_e RC_i flag'), order=('RC', 'RC_e', 'RC_i'), between={}, pattern=None):
    num = lambda x: 'NaN' if x is T.NAN else V.placeholder(x, '')       # noqa: E731
    rows = [sep.join([num(ts[i])] + [num(cols[k].get()[i]) for k in order] + [flags[i % len(flags)]])
            for i in range(len(ts))]
    for i, x in sorted(between.items(), reverse=True):
        rows.insert(i, x)
    return '\n'.join([*comments, *rows]) + '\n'


@rule('C25', 'The RC index is read, converted and selected correctly',
      'value-graph equality with linear interpolation of the column of the file; absence of information flow from the file when RC is given')
def c25(ck):
    def setup(c, fmt, where, nt=4):
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        M = Chaos(A, order=2, pieces=2, n=1, nstat=1, brk=brk)
        ts = [before(brk, 'rp')]
        for i in range(1, nt - 1):
            ts.append(T.add(brk[0], T.mul(T.sub(brk[-1], brk[0]), T.scale(T.add(T.num(i - 1), T.scale(sym(f'ri{i}', 'pos'), 0.3)), 1 / (nt - 2)))))
        ts.append(after(brk, 'rq'))
        cols = {k: A.syms('rc' + k, nt) for k in ('RC', 'RC_e', 'RC_i')}
        p = {'default': LIB + 'RC_index.h5', 'own': '/data/RC.h5' if fmt == 'h5' else '/data/RC.dat'}[where]
        if fmt == 'h5':
            A.put(p, DDict({'flag': new_arr(np.array(['D'] * nt, dtype=object), U), 'time': A.arr(ts), **cols}))
        else:
            A.put(p, rctext(ts, cols))
        if where == 'own':
            setcfg(A, 'file.RC_index', p)
        return A, brk, M, ts, cols, p, spec(A, RCREF)

    COL = {'external': 'RC_e', 'internal': 'RC_i', None: 'RC_e'}

    def coeffs(c, fmt, where, src, tsh, o):
        A, brk, M, ts, cols, p, e = setup(c, fmt, where)
        w = c.where('chaos.CHAOS.synth_coeffs_sm')
        t = inside(brk, 'u') if tsh == () else A.arr([[inside(brk, f'u{i}{j}') for j in range(2)] for i in range(2)]) if tsh == (2, 2) else \
            A.arr([inside(brk, 'u'), ts[1], inside(brk, 'v')])
        kw = dict(o)
        if src:
            kw['source'] = src
        r = M.call('synth_coeffs_sm', t, **kw)
        c.returns(r, w, 'coefficients')
        x, y = A.arr(ts), cols[COL[src]]
        if tsh == (2, 2):
            tt = np.asarray(t.get())
            rc = A.arr([[live(A, e['lin'], tt[i, j], x, y).get().item() for j in range(2)] for i in range(2)])
        else:
            rc = live(A, e['lin' if tsh == () else 'lins'], t, x, y)
        q = M.call('synth_coeffs_sm', t, rc=rc, **kw)
        c.returns(q, w, 'coefficients for given RC')
        c.equal(r.value, q.value, w, f'{src or "default"} coefficients and the ones for column {COL[src]} interpolated')
        # the file is read, only read and left alone
        c.ok({(x['path'], x['mode'][0]) for x in r.evs('open') if x['path'] == p} == {(p, 'r')}, w, 'RC file opened otherwise than for reading')
    for fmt in ('h5', 'dat'):
        for where in ('default', 'own'):
            for src in (None, 'external', 'internal'):
                for tsh in ((), (3,), (2, 2)):
                    ck.add(f'coefficients/{fmt}/{where}/{src}/time {tsh}', coeffs, fmt, where, src, tsh, {})
    for src in ('external', 'internal'):
        ck.add(f'coefficients/nmax/{src}', coeffs, 'h5', 'own', src, (), dict(nmax=1))

    def values(c, fmt, how, src, given):
        A, brk, M, ts, cols, p, e = setup(c, fmt, 'own', 3)
        t = inside(brk, 'u')
        P = point()
        fn = {'values': 'synth_values_sm', 'call': '__call__'}[how]
        w = c.where('chaos.CHAOS.' + fn)
        own = {'rc_e': sym('mye'), 'rc_i': sym('myi')}
        if given == 'zero':
            own = {'rc_e': T.num(0), 'rc_i': T.num(0)}
        g = {} if not given else own if given in ('both', 'zero') else {given: own[given]}

        def call(**rc):
            if how == 'values':
                return M.call(fn, t, *P, **({'source': src} if src else {}), **rc)
            return M.query(t, *P, source_list=src or 'external', **rc)
        r = call(**g)
        c.returns(r, w, f'{fn} with {sorted(g)}')
        ref = {'rc_e': live(A, e['lin'], t, A.arr(ts), cols['RC_e']), 'rc_i': live(A, e['lin'], t, A.arr(ts), cols['RC_i'])}
        q = call(**{**ref, **g})
        c.returns(q, w, 'reference')
        c.equal(r.value, q.value, w, f'field for RC from the file{" and " + "/".join(sorted(g)) + " given" if g else ""}', n=5)
        if given in ('both', 'zero'):
            A.do(lambda: A.I.fs.items.pop(p, None))
            z = call(**g)
            c.returns(z, w, 'RC values given, no file')
            c.equal(z.value, r.value, w, 'field for given RC with and without a file', n=5)
            c.ok(not [x for x in z.evs('open') if x['path'] == p], w, 'RC file read although values are given')
    for how in ('values', 'call'):
        for fmt in ('h5', 'dat'):
            for src in (None, 'all', 'external', 'internal') if how == 'values' else (None, 'internal'):
                if how == 'call' and src == 'internal':
                    continue
                for given in (None, 'rc_e', 'rc_i', 'both', 'zero'):
                    ck.add(f'{how}/{fmt}/{src}/given {given}', values, fmt, how, src, given)

    def given(c, src, tsh, kind):
        """values of the caller replace those of the file: nothing of the file is used"""
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        M = Chaos(A, order=2, pieces=2, n=1, nstat=1, brk=brk)
        w = c.where('chaos.CHAOS.synth_coeffs_sm')
        t = inside(brk, 'u') if tsh == () else A.arr([inside(brk, 'u'), before(brk, 'v'), after(brk, 'v')])
        rc = {'array': A.syms('my', tsh or ()), 'scalar': sym('my'), 'zero': T.num(0), 'zeros': A.arr([T.num(0)] * 3) if tsh else A.arr(T.num(0)),
              'list': LList([sym('my0'), sym('my1'), sym('my2')]) if tsh else sym('my'), 'int': T.num(3)}[kind]
        r = M.call('synth_coeffs_sm', t, source=src, rc=rc)
        c.returns(r, w, f'RC values given ({kind})')
        c.ok(not [x for x in r.evs('open') if 'RC_index' in str(x['path'])], w, 'RC file is opened although values are given')
        s = set()
        for x in np.asarray(r.value.v).ravel():
            s |= T.free_syms(x) if isinstance(x, Node) else set()
        c.ok(not [x for x in s if x.startswith('rcRC')], w, 'values of the file are used although values are given')
        # linear in the given values with the response of the dipole terms
        tt = [t] if tsh == () else list(t.get())
        vals = [rc] * len(tt) if isinstance(rc, Node) else [rc.items[i] if isinstance(rc, LList) else rc.get().ravel()[i] for i in range(len(tt))]
        for i in range(len(tt)):
            x = M.call('synth_coeffs_sm', tt[i], source=src, rc=vals[i])
            c.equal(SA_at(r.value, (i,)) if tsh else r.value, x.value, w, 'each time uses its own RC value')
        one = M.call('synth_coeffs_sm', tt[0], source=src, rc=T.num(1))
        two = M.call('synth_coeffs_sm', tt[0], source=src, rc=T.num(0))
        g = SA_at(r.value, (0,)) if tsh else r.value
        want = SA(np.array([T.add(b, T.mul(vals[0], T.sub(a, b))) for a, b in zip(one.value.v, two.value.v)], dtype=object), F, False)
        c.equal(g, want, w, 'proportionality to RC')
    for src in ('external', 'internal'):
        for tsh in ((), (3,)):
            for kind in ('array', 'scalar', 'zero', 'zeros', 'list', 'int'):
                ck.add(f'given/{src}/time {tsh}/{kind}', given, src, tsh, kind)

    FILES = {
        'plain': {}, 'flags': dict(flags='DPQ'), 'no comments': dict(comments=()), 'tabs': dict(sep='\t'), 'single blanks': dict(sep=' '),
        'comments between': dict(between={1: '# gap', 3: '', 4: '#'}), 'repeated values': dict(pattern=(0, 1, 0, 0)),
        'missing values': dict(pattern=(0, None, 2, None)),
    }

    def columns(A, n, pattern=None, **_):
        """RC columns; the pattern says which rows share a value and which have none"""
        cols = {k: A.syms('rc' + k, n) for k in ('RC', 'RC_e', 'RC_i')}
        if pattern:
            cols = {k: A.arr([T.NAN if i is None else v.get()[i] for i in pattern]) for k, v in cols.items()}
        return cols

    def load(c, f, dates):
        A = c.an()
        n = 4
        ts = breaks_syms(n, 'k')
        cols = columns(A, n, **FILES[f])
        A.put('/data/RC.dat', rctext(ts, cols, **FILES[f]))
        w = c.where(DU + 'load_RC_datfile')
        e = spec(A, '''
def cols(df, names):
    return [df[k].values for k in names]
def names(df):
    return [c for c in df.columns]
def index(df, t):
    return [(x - y)/np.timedelta64(1, 'ns') for x, y in zip(np.asarray(df.index, dtype='datetime64[ns]'), t)]
''')
        kw = {} if dates == 'unset' else dict(parse_dates=dates)
        df = must(c, A, DU + 'load_RC_datfile', '/data/RC.dat', where=w, what='load_RC_datfile', **kw)
        nm = A.call(e['names'], df)
        want = (['time'] if dates is not True else []) + ['RC', 'RC_e', 'RC_i', 'flag']
        c.equal(nm.value, want, w, 'columns')
        g = A.call(e['cols'], df, LList(want))
        c.returns(g, w, 'columns')
        ref = {'time': snapof(A, A.arr(ts)), **{k: snapof(A, v) for k, v in cols.items()}}
        for k, v in zip(want, g.value):
            if k != 'flag':
                c.equal(v, ref[k], w, f'column {k}')
            else:
                c.ok(list(np.asarray(v.v).ravel()) == [FILES[f].get('flags', 'D')[i % len(FILES[f].get('flags', 'D'))] for i in range(n)], w, 'flags')
    for f in FILES:
        for dates in ('unset', False, None, True):
            ck.add(f'load/{f}/parse_dates={dates}', load, f, dates)

    def convert(c, f, exists):
        A = c.an()
        n = 4
        ts = breaks_syms(n, 'k')
        cols = columns(A, n, **FILES[f])
        A.put('/data/RC.dat', rctext(ts, cols, **FILES[f]))
        if exists:
            A.put('/out/RC.h5', DDict({'time': A.syms('old', 2), 'junk': A.syms('junk', 2)}))
        w = c.where(DU + 'save_RC_h5file')
        must(c, A, DU + 'save_RC_h5file', '/out/RC.h5', where=w, what='save_RC_h5file', read_from='/data/RC.dat')
        e = spec(A, '''
import h5py
def read(path):
    with h5py.File(path, 'r') as f:
        return sorted(f.keys()), {k: f[k][:] for k in f.keys()}
def text(x):
    return [v.decode() if isinstance(v, bytes) else v for v in x]
''')
        r = A.call(e['read'], '/out/RC.h5')
        c.returns(r, w, 'reading the converted file')
        keys, d = r.value
        c.equal(keys, sorted(['time', 'RC', 'RC_e', 'RC_i', 'flag']), w, 'columns of the HDF5 file')
        c.equal(d['time'], snapof(A, A.arr(ts)), w, 'times')
        for k, v in cols.items():
            c.equal(d[k], snapof(A, v), w, f'column {k}')
        fl = [x if isinstance(x, str) else str(x) for x in np.asarray(d['flag'].v).ravel()]
        fs = FILES[f].get('flags', 'D')
        c.ok(fl == [fs[i % len(fs)] for i in range(n)], w, f'flags {fl}')
        # the converted file and the text give the same field
        if None not in FILES[f].get('pattern', ()):
            fulllib(A)
            M = Chaos(A, order=2, pieces=1, n=1, nstat=1, brk=[ts[0], ts[-1]])
            t = inside(ts, 'u')
            v = {}
            for p in ('/out/RC.h5', '/data/RC.dat'):
                setcfg(A, 'file.RC_index', p)
                for src in ('external', 'internal'):
                    x = M.call('synth_coeffs_sm', t, source=src)
                    c.returns(x, c.where('chaos.CHAOS.synth_coeffs_sm'), 'coefficients')
                    v[p, src] = x.value
            for src in ('external', 'internal'):
                c.equal(v['/out/RC.h5', src], v['/data/RC.dat', src], w, f'{src} coefficients from the text and from the converted file')
    for f in FILES:
        for ex in (False, True):
            ck.add(f'convert/{f}/{"over an old file" if ex else "new file"}', convert, f, ex)

    def failing(c, bad):
        A = c.an()
        w = c.where(DU + 'save_RC_h5file')
        old = DDict({'time': A.syms('old', 2), 'RC': A.syms('oldrc', 2)})
        A.put('/out/RC.h5', old)
        if bad == 'binary':
            A.put('/data/x.dat', DDict({}))
        fs0 = A.run(lambda: None).ret.fs
        r = A.call(DU + 'save_RC_h5file', '/out/RC.h5', read_from='/data/x.dat')
        c.returns(r, w, 'failed conversion')
        fs1 = r.ret.fs
        c.ok('/out/RC.h5' in fs1 and identical(fs0['/out/RC.h5'], fs1['/out/RC.h5']), w, 'failed conversion changes the existing file')
        c.ok(len(r.evs('warn')) > 0, w, 'failed conversion without a warning')
    ck.add('convert/missing text file', failing, 'missing')
    ck.add('convert/unreadable text file', failing, 'binary')
