"""coefficient text files, MAT-files, RC index, frequency spectra, text-model loaders"""
from .common import *
from .times import days, doms

SAVE, LOAD = DU + 'save_shcfile', DU + 'load_shcfile'


def dyear(x, leap):
    """reference: decimal year of a modified Julian date"""
    if not leap:
        return x / 365.25 + 2000
    y = int(2000 + x // 365.25) - 2
    while not days(y, 1, 1) <= x < days(y + 1, 1, 1):
        y += 1
    return y + (x - days(y, 1, 1)) / (days(y + 1, 1, 1) - days(y, 1, 1))


def mjd(t, leap):
    """reference: modified Julian date of a decimal year"""
    if not leap:
        return (t - 2000) * 365.25
    y = int(np.floor(t))
    return days(y, 1, 1) + (t - y) * (days(y + 1, 1, 1) - days(y, 1, 1))


def render(text, tr):
    """the text with every number written as its format asks, for one interpretation of the inputs"""
    out = []
    for p in V.ph_split(text):
        if isinstance(p, str):
            out.append(p)
        else:
            v = tr.ev(p[0])
            try:
                out.append(format(v, p[1]))
            except (ValueError, TypeError):
                out.append(str(v))
    return ''.join(out)


class Shc:
    """an independent reader of the file format"""
    def __init__(self, text, comment='#'):
        lines = [l for l in text.split('\n') if l.strip() and not l.strip().startswith(comment)]
        self.head = [int(x) for x in lines[0].split()]
        self.times = [float(x) for x in lines[1].split()]
        self.rows = [l.split() for l in lines[2:]]
        self.deg = [(int(r[0]), int(r[1])) for r in self.rows]
        self.coef = np.array([[float(x) for x in r[2:]] for r in self.rows])
        self.comments = [l for l in text.split('\n') if l.strip().startswith(comment)]


def degord(nmin, nmax):
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, n + 1):
            out += [(n, m), (n, -m)]
    return out


def timesyms(nt, tag='t'):
    return [sym(f'{tag}{i}', 'mjd') for i in range(nt)]


def tdoms(c, names, n=None):
    """assignments of the times, including day and year boundaries away from rounding"""
    pool = [0.25, -0.25, 365.75, 59.5, 366.25, -365.5, 8035.125, -36524.75, 36890.5, 1461.0625, -10957.5, 7304.75, 60.5, 18262.3]
    k = n or (10 if c.tier == 'quick' else 30)
    return doms(c, **{v: [pool[(i * 5 + j * 3 + j * i) % len(pool)] + 0.01 * j for i in range(k)] for j, v in enumerate(names)})


def written(c, A, res, path, where, what):
    c.returns(res, where, what)
    fs = res.ret.fs
    a = fs.a if isinstance(fs, SC) else fs
    d = a if isinstance(a, dict) else getattr(a, 'data', None) or a
    c.ok(path in d, where, f'{what}: file {path} is not written')
    t = d[path]
    c.ok(isinstance(t, str), where, f'{what}: content of the file is not text')
    return t


def check_text(c, text, tr, where, what, times, coefs, nmin, nmax, order, leap, header=None, scale=1):
    """the text describes the coefficients at the times"""
    c.compared += 1
    s = render(text, tr)
    try:
        f = Shc(s)
    except (ValueError, IndexError) as e:
        c.fail(f'{what}: the file cannot be read ({e})', where, text=s[:600])
    nt = len(times)
    if f.head[:3] != [nmin, nmax, nt] or f.head[3] != order or (len(f.head) > 4 and f.head[4] != order - 1):
        c.fail(f'{what}: the header {f.head} does not describe degrees {nmin} to {nmax}, {nt} times, order {order}', where, text=s[:600])
    if len(f.head) != 5:
        c.fail(f'{what}: {len(f.head)} header parameters instead of five', where, text=s[:600])
    want = [dyear(tr.ev(T.lift(t)), leap) for t in times]
    if len(f.times) != nt or not np.allclose(f.times, want, rtol=0, atol=0.7e-8):
        c.fail(f'{what}: times {f.times} instead of {want}', where, text=s[:600])
    if f.deg != degord(nmin, nmax):
        c.fail(f'{what}: degrees and orders {f.deg} instead of {degord(nmin, nmax)}', where, text=s[:600])
    if len(f.rows) != len(coefs) or any(len(r) != nt + 2 for r in f.rows):
        c.fail(f'{what}: {len(f.rows)} rows of {[len(r) for r in f.rows]} entries', where, text=s[:600])
    w = np.array([[tr.ev(T.lift(x)) for x in r] for r in coefs], dtype=float)
    if not np.allclose(f.coef, w, rtol=1e-13, atol=0.7e-8):
        bad = np.argwhere(~np.isclose(f.coef, w, rtol=1e-13, atol=0.7e-8))[0]
        c.fail(f'{what}: coefficient {f.deg[bad[0]]} at time {bad[1]} is {f.coef[tuple(bad)]} instead of {w[tuple(bad)]}', where,
               text=s[:600])
    if header is not None:
        for l in header.strip('\n').split('\n'):
            if l.strip() and l.strip() not in [x.strip() for x in f.comments]:
                c.fail(f'{what}: header line {l!r} is missing', where, text=s[:600])


@rule('C22', 'Coefficient text files read back as written',
      'value-graph equality of the text written (every number with its format) with an independent reading of the file '
      'format, of the loader with the coefficients in a reference text, and of a spline model with itself after writing and reading')
def c22(ck):
    LOW = []
    for nmin, nmax, top in ((1, 1, 1), (1, 2, 2), (2, 3, 3), (1, 2, 3), (3, 3, 4), (None, None, 2), (2, None, 3), (None, 1, 2)):
        LOW.append((nmin, nmax, top))

    def low(c, nmin, nmax, top, nt, leap, order, header, oned):
        A = c.an()
        ts = timesyms(nt)
        co = A.syms('g', dim(top) if oned else (nt, dim(top)))
        e = co.get().reshape(nt, -1)
        big = T.num(10 ** 5)
        sc = np.empty(e.shape, dtype=object)
        for i in np.ndindex(*e.shape):
            sc[i] = T.mul(big, e[i]) if (i[0] + i[1]) % 3 == 0 else T.scale(e[i], 1e7) if (i[0] + i[1]) % 3 == 1 else e[i]
        arr = new_arr(sc.reshape(co.shape), F)
        kw = {k: v for k, v in dict(nmin=nmin, nmax=nmax, leap_year=leap, order=order, header=header).items() if v is not None}
        tv = A.arr(ts) if nt > 1 else (ts[0] if oned else A.arr(ts))
        r = A.call(SAVE, tv, arr, filepath='/out/x.shc', **kw)
        what = f'degrees {nmin} to {nmax} of {top}, {nt} times, leap_year={leap}, order={order}'
        text = written(c, A, r, '/out/x.shc', SAVE, what)
        a, b = nmin or 1, nmax or top
        D = tdoms(c, [f't{i}' for i in range(nt)])
        want = [[sc[j, i] for j in range(nt)] for i in range(a * a - 1, (b + 1) ** 2 - 1)]
        for tr in D:
            check_text(c, text, tr, SAVE, what, ts, want, a, b, order or 1, leap is not False, header)
        # reading it
        A.put('/out/x.shc', text)
        lw = {} if leap is None else dict(leap_year=leap)
        g = c.returns(A.call(LOAD, '/out/x.shc', **lw), LOAD, what)
        c.ok(isinstance(g, tuple) and len(g) == 3, LOAD, 'times, coefficients and parameters are returned')
        c.equal(g[0], SA(np.array(ts, dtype=object), F, False), LOAD, f'{what}: times read back', dom=D, tol=1e-9)
        c.equal(g[1], SA(np.array(want, dtype=object), F, False), LOAD, f'{what}: coefficients read back', dom=D)
    for i, (nmin, nmax, top) in enumerate(LOW):
        for nt, leap in (((1, True), (3, False)) if i % 2 else ((2, None), (4, True))):
            ck.add(f'save and load/{nmin}-{nmax} of {top}/{nt} times/leap {leap}', low, nmin, nmax, top, nt, leap,
                   (None, 2, 4, 6)[i % 4], (None, '# one\n# two words 3 4\n')[i % 2], False)
    ck.add('save and load/vector of coefficients', low, 1, 2, 2, 1, True, None, None, True)
    ck.add('save and load/truncated vector', low, 2, 3, 4, 1, False, None, '# a\n', True)
    ck.add('save and load/one time and a row of coefficients', low, 1, 2, 2, 1, None, 1, None, False)

    def bad(c):
        A = c.an()
        for kw in (dict(nmin=3, nmax=2), dict(nmin=3)):
            r = A.call(SAVE, A.arr(timesyms(2)), A.syms('g', (2, dim(2))), filepath='/out/x.shc', **kw)
            c.always_raises(r, ValueError, SAVE, f'{kw}')
    ck.add('minimum above maximum degree', bad)

    def ref(c, leap, nmin, nmax, nt, order, comment, extra, blank):
        """a file in the documented format, written by hand"""
        A = c.an()
        ts = [sym(f'y{i}', 'dyear') for i in range(nt)]
        rows = degord(nmin, nmax)
        g = [[sym(f'g{i}_{j}') for j in range(nt)] for i in range(len(rows))]
        ph = lambda n: V.placeholder(n, '')      # noqa
        cm = comment or '#'
        L = [f'{cm} a comment with numbers 1 2 3', f'  {cm} an indented one'] + ([f'{nmin} {nmax} {nt} {order} {order - 1}' + extra])
        L.append('         ' + '  '.join(ph(t) for t in ts))
        for k, ((n, m), r) in enumerate(zip(rows, g)):
            if k == 1:
                L.append(f'{cm} comment between')
            L.append(f'{n} {m} ' + '   '.join(ph(x) for x in r))
        if blank:
            L.append('')
        A.put('/data/a.b.shc', '\n'.join(L) + '\n')
        kw = {k: v for k, v in dict(leap_year=leap, comment=comment).items() if v is not None}
        what = f'file of degrees {nmin} to {nmax}, {nt} times, leap_year={leap}, comment={comment}'
        v = c.returns(A.call(LOAD, '/data/a.b.shc', **kw), LOAD, what)
        pool = [2000.25, 1999.5, 1900.125, 2004.75, 1840.3, 2024.9, 1970.01, 2100.5, 1904.99]
        D = doms(c, **{f'y{i}': pool[i:] + pool[:i] for i in range(nt)})
        c.equal(v[1], SA(np.array(g, dtype=object), F, False), LOAD, f'{what}: coefficients')
        for tr in D:
            c.compared += 1
            got = np.asarray(conc(v[0], tr), dtype=float)
            w = np.array([mjd(tr.ev(t), leap is not False) for t in ts])
            if got.shape != w.shape or not np.allclose(got, w, rtol=0, atol=1e-6):
                c.fail(f'{what}: times {got} instead of {w}', LOAD)
        p = conc(v[2], D[0])
        for k, w in dict(nmin=nmin, nmax=nmax, N=nt, order=order, step=order - 1).items():
            c.ok(k in p and p[k] == w, LOAD, f'{what}: parameter {k} is {p.get(k)} instead of {w}')
        c.ok(p.get('SHC') == 'a.b.shc', LOAD, f'{what}: file name {p.get("SHC")}')
    for args in ((None, 1, 1, 2, 1, None, '', False), (True, 2, 3, 3, 2, None, '', True), (False, 1, 2, 1, 1, '%', '', False),
                 (False, 3, 3, 5, 4, None, ' 1900.0 1905.0', True), (True, 1, 3, 4, 6, '//', '', False)):
        ck.add(f'load/{args}', ref, *args)

    # --------------------------------------------------------------- models
    TO, FROM = CH + 'BaseModel.to_shc', CH + 'BaseModel.from_shc'

    def splmodel(A, order, pieces, n, tag='c', brk=None):
        """a model made of B-spline coefficients (so that it is as smooth as its order says)"""
        brk = brk or breaks_syms(pieces + 1)
        knots = [brk[0]] * (order - 1) + list(brk) + [brk[-1]] * (order - 1)
        co = A.syms(tag, (pieces + order - 1, dim(n)))
        m = A.do(lambda: A.I.call(A.I.getattr(A.get(CH + 'BaseModel'), 'from_bspline'), ['mod', A.arr(knots), co, order], {}))
        return m, brk

    def model(c, order, pieces, n, leap, nmin, nmax, header):
        A = c.an()
        fixed = [T.num(x) for x in (-400.25, 59.5, 366.125, 1461.75)][:pieces + 1] if leap else None
        m, brk = splmodel(A, order, pieces, n, brk=fixed)
        kw = {k: v for k, v in dict(nmin=nmin, nmax=nmax, leap_year=leap, header=header).items() if v is not None}
        what = f'order {order}, {pieces} pieces, degree {n}, {kw}'
        r = A.method(m, 'to_shc', '/out/m.shc', **kw)
        text = written(c, A, r, '/out/m.shc', TO, what)
        c.ok(not [e for e in r.events if e['kind'] == 'rounding'], TO,
             f'{what}: the number of samples depends on rounding errors of the break points')
        nt = pieces if order == 1 else pieces * (order - 1) + 1
        st = max(order - 1, 1)
        times = []
        for j in range(pieces):
            for k in range(st):
                times.append(T.add(brk[j], T.scale(T.sub(brk[j + 1], brk[j]), T.num(k).args[0] / st)))
        if order > 1:
            times.append(brk[-1])
        a, b = nmin or 1, nmax or n
        co = val(c, A, A.I.getattr(m, 'synth_coeffs'), A.arr(times))
        want = [[co.v[j, i] for j in range(nt)] for i in range(a * a - 1, (b + 1) ** 2 - 1)]
        D = c.tr(4)
        for tr in D:
            check_text(c, text, tr, TO, what, times, want, a, b, order, bool(leap),
                       header if header is not None else '# mod\n')
        A.put('/out/m.shc', text)
        lw = {} if leap is None else dict(leap_year=leap)
        new = must(c, A, A.I.getattr(A.get(CH + 'BaseModel'), 'from_shc'), '/out/m.shc', where=FROM, what=what, **lw)
        # same break points
        at_ = T.add(brk[0], T.mul(T.sub(brk[-1], brk[0]), T.scale(sym('u', 'pos'), 0.375)))
        mids = [T.add(T.scale(brk[j], 0.4), T.scale(brk[j + 1], 0.6)) for j in range(pieces)]
        pts = A.arr([at_] + mids)
        g = val(c, A, A.I.getattr(new, 'synth_coeffs'), pts, where=FROM, what=what)
        w = val(c, A, A.I.getattr(m, 'synth_coeffs'), pts)
        e = np.array(w.v[:, :dim(b)])
        for i in range(a * a - 1):
            e[:, i] = T.ZERO
        if leap is True:
            D = [t for t in c.tr(8)]
        tol = 1e-6 if order < 4 else 1e-4
        c.equal(g, SA(e, F, False), FROM, f'{what}: coefficients read back', dom=D, tol=tol)
        gb = snapof(A, A.I.getattr(new, 'breaks'))
        if order > 1:
            c.equal(gb, SA(np.array(brk, dtype=object), F, False), FROM, f'{what}: break points read back', dom=D)
        for at, v in (('order', order), ('nmax', b)):
            x = conc(snapof(A, A.I.getattr(new, at)), D[0])
            c.ok(x == v, FROM, f'{what}: {at} is {x} instead of {v}')
        c.ok(snapof(A, A.I.getattr(new, 'source')) == 'internal', FROM, f'{what}: source')
    grid = []
    for order in (1, 2, 3, 4, 5, 6):
        for pieces in (1, 2, 3):
            grid.append((order, pieces, 1, None, None, None, None))
    for order in (1, 2, 4):
        grid += [(order, 2, 2, True, None, None, '# other\n# lines\n'), (order, 2, 2, False, 2, None, None),
                 (order, 2, 2, False, 1, 1, ''), (order, 1, 3, True, 2, 2, None), (order, 2, 3, None, 3, 3, None)]
    for g in grid:
        ck.add('model/order {} pieces {} degree {}/leap {}/{}-{}/{!r}'.format(*g), model, *g)
    ck.add('model/order 8', model, 8, 2, 1, None, None, None, None)

    def attrs(c):
        A = c.an()
        m, brk = splmodel(A, 2, 2, 1)
        text = written(c, A, A.method(m, 'to_shc', '/out/na.me.shc'), '/out/na.me.shc', TO, 'attributes')
        A.put('/out/na.me.shc', text)
        cls = A.get(CH + 'BaseModel')
        for kw, w in ((dict(), ('na.me', 'internal', None)), (dict(name='xyz', source='external', meta='M'), ('xyz', 'external', 'M'))):
            new = must(c, A, A.I.getattr(cls, 'from_shc'), '/out/na.me.shc', where=FROM, **kw)
            for at, v in zip(('name', 'source', 'meta'), w):
                c.ok(snapof(A, A.I.getattr(new, at)) == v, FROM, f'from_shc({kw}): {at} is {snapof(A, A.I.getattr(new, at))!r} instead of {v!r}')
    ck.add('model/name, source and meta', attrs)

    def missing(c):
        A = c.an()
        m = A.new(CH + 'BaseModel', 'mod', A.arr(breaks_syms(2)), 2)
        r = A.method(m, 'to_shc', '/out/x.shc')
        c.always_raises(r, ValueError, TO, 'model without coefficients')
    ck.add('model/no coefficients', missing)

    CS = CH + 'CHAOS.save_shcfile'

    def chaos(c, order, pieces, leap, which):
        A = c.an()
        lib_present(A)
        n, ns = 1, 3
        brk = [T.num(x) for x in (-400.25, 59.5, 366.125, 1461.75)][:pieces + 1] if leap else breaks_syms(pieces + 1)
        sp, _ = splmodel(A, order, pieces, n, brk=brk)
        ct = A.I.getattr(sp, 'coeffs')
        st = A.syms('s', (1, 1, dim(ns)))
        kw = dict(coeffs_static=st)
        if which != 'static only':
            kw['coeffs_tdep'] = ct
        m = A.new(CH + 'CHAOS', A.arr(brk), order, name='Foo', **kw)
        lw = {} if leap is None else dict(leap_year=leap)
        model = None if which == 'default' else 'tdep' if which == 'tdep' else 'static'
        sw = dict(lw, **({} if model is None else dict(model=model)))
        what = f'{which} part, order {order}, {pieces} pieces, leap_year={leap}'
        text = written(c, A, A.method(m, 'save_shcfile', '/out/c.shc', **sw), '/out/c.shc', CS, what)
        A.put('/out/c.shc', text)
        D = c.tr(4)
        for tr in D[:1]:
            s = render(text, tr)
            c.ok('Foo' in s.split('\n')[0] and s.startswith('#'), CS, f'{what}: the header names the model')
        for loader in ('load_CHAOS_shcfile', 'CHAOS.from_shc'):
            o = loader.split('.')
            f = A.get(CH + o[0])
            f = f if len(o) == 1 else A.I.getattr(f, o[1])
            new = must(c, A, f, '/out/c.shc', where=CH + loader, what=what, name='Bar', **lw)
            W = CH + loader
            pts = A.arr([inside(brk)] + [T.add(T.scale(brk[j], 0.3), T.scale(brk[j + 1], 0.7)) for j in range(pieces)])
            if model is None or model == 'tdep':
                g = val(c, A, A.I.getattr(new, 'synth_coeffs_tdep'), pts, where=W)
                w = val(c, A, A.I.getattr(m, 'synth_coeffs_tdep'), pts)
                c.equal(g, w, W, f'{what}: coefficients read back', dom=D, tol=1e-5)
                c.ok(snapof(A, A.I.getattr(new, 'model_static')) is None, W, f'{what}: no static part')
                c.ok(snapof(A, A.I.getattr(A.I.getattr(new, 'model_tdep'), 'name')) == 'Bar_tdep', W, f'{what}: name')
            else:
                g = val(c, A, A.I.getattr(new, 'synth_coeffs_static'), where=W)
                e = np.array(st.get().reshape(-1))
                if which == 'static':
                    e[:dim(n)] = T.ZERO
                c.equal(g, SA(e, F, False), W, f'{what}: coefficients read back', dom=D)
                c.ok(snapof(A, A.I.getattr(new, 'model_tdep')) is None, W, f'{what}: no time-dependent part')
            c.ok(snapof(A, A.I.getattr(new, 'name')) == 'Bar', W, f'{what}: name of the model')
    for which in ('default', 'tdep', 'static', 'static only'):
        for order, pieces, leap in ((2, 2, None), (3, 1, True), (4, 2, False)):
            ck.add(f'CHAOS/{which}/order {order} pieces {pieces} leap {leap}', chaos, order, pieces, leap, which)

    def chname(c):
        A = c.an()
        m, brk = splmodel(A, 2, 2, 1)
        A.put('/out/na.me.shc', written(c, A, A.method(m, 'to_shc', '/out/na.me.shc'), '/out/na.me.shc', TO, 'name'))
        new = must(c, A, CH + 'load_CHAOS_shcfile', '/out/na.me.shc')
        c.ok(snapof(A, A.I.getattr(new, 'name')) == 'na.me', CH + 'load_CHAOS_shcfile', 'the name is that of the file')
    ck.add('CHAOS/name', chname)


@rule('C23', 'A complete CHAOS model survives saving to and loading from a MAT-file',
      'value-graph equality of every part of the model and of its queries before saving and after loading, through a model of '
      'the MATLAB file structure')
def c23(ck):
    S, L = CH + 'CHAOS.save_matfile', CH + 'load_CHAOS_matfile'

    def build(A, order, pieces, n, nstat, bins, cal, q=(2, 1), same=False, sats=None, pre=True):
        lib_present(A)
        brk = breaks_syms(pieces + 1)
        sats = sats or tuple(f'sat_{k}' for k in range(len(bins)))
        rng = lambda m, t: breaks_syms(m + 1, t) if m else [sym(t + '0', 'day')]      # noqa
        d = dict(coeffs_tdep=A.syms('c', (order, pieces, dim(n))), coeffs_static=A.syms('s', (1, 1, dim(nstat))),
                 coeffs_sm=A.syms('sm', (8,)))
        g = [T.ZERO] * 8
        g[0], g[3] = sym('gsm0'), sym('gsm3')
        d['coeffs_gsm'] = A.arr(g)
        b1, b2 = rng(q[0], 'bq'), rng(q[1], 'bs')
        d['breaks_delta'] = A.dict({'q10': A.arr(b1), 'q11': A.arr(b2), 's11': A.arr(b2)})
        d['coeffs_delta'] = A.dict({'q10': A.syms('q10', (1, q[0])), 'q11': A.syms('q11', (1, q[1])), 's11': A.syms('s11', (1, q[1]))})
        be = {s: A.arr(rng(m, 'be' if same else f'be{k}_') if m != 1 or same else breaks_syms(2, f'be{k}_'))
              for k, (s, m) in enumerate(zip(sats, bins))}
        d['breaks_euler'] = A.dict(be)
        d['coeffs_euler'] = A.dict({s: A.syms(f'e{k}', (1, max(m, 1), 3)) for k, (s, m) in enumerate(zip(sats, bins))})
        if cal:
            d['breaks_cal'] = A.dict({'cryosat-2_1': A.arr(breaks_syms(cal + 1, 'bc'))})
            d['coeffs_cal'] = A.dict({'cryosat-2_1': A.syms('cal', (1, cal, 9))})
        d['meta'] = A.dict({'params': {'Euler_prerotation': A.syms('pre', (len(sats), 3))}, 'satellites': sats})
        m = A.new(CH + 'CHAOS', A.arr(brk), order, name='Foo', **d)
        return m, brk, sats

    def part(A, m, path):
        v = m
        for p in path.split('.'):
            if p.startswith('['):
                v = A.I.getitem(v, p[1:-1])
            else:
                v = A.I.getattr(v, p)
            if v is None:
                return None
        return v

    def flat(s):
        """array value up to the number of array dimensions of size one"""
        return SA(np.asarray(s.v, dtype=object).reshape([x for x in s.v.shape if x != 1]), F, False) if isinstance(s, SA) else s

    def trip(c, order, pieces, n, nstat, bins, cal, q, same, via, chaosname):
        A = c.an()
        sats = (('swarm_b', 'champ', 'oersted')[:len(bins)], None)[via // 2]
        m, brk, sats = build(A, order, pieces, n, nstat, bins, cal, q, same, sats)
        what = f'order {order}, {pieces} pieces, {len(bins)} satellites with {bins} bins' + (f', calibration ({cal} bins)' if cal else '')
        r = A.method(m, 'save_matfile', '/out/na.me.mat')
        c.returns(r, S, what)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/na.me.mat', where=S, what='saving')
        kw = dict(satellites=sats if via % 2 else A.I.resolve(A.run(lambda: None) and LList(list(sats))))
        if chaosname:
            kw['name'] = chaosname
        if via < 2:
            f = A.get(L)
        else:
            f = A.I.getattr(A.get(CH + 'CHAOS'), 'from_mat')
        new = must(c, A, f, '/out/na.me.mat', where=L, what=what, **kw)
        D = c.tr(4)
        # part by part
        paths = ['model_tdep.coeffs', 'model_tdep.breaks', 'model_static.coeffs', 'coeffs_sm', 'coeffs_gsm']
        for k in ('q10', 'q11', 's11'):
            paths += [f'breaks_delta.[{k}]', f'coeffs_delta.[{k}]']
        for s in sats:
            paths += [f'model_euler.[{s}].coeffs', f'model_euler.[{s}].breaks']
        if cal:
            paths += ['model_cal.[cryosat-2_1].coeffs', 'model_cal.[cryosat-2_1].breaks']
        for p in paths:
            a, b = snapof(A, part(A, m, p)), snapof(A, part(A, new, p))
            if b is None:
                c.fail(f'{what}: {p} is missing after loading', L)
            c.equal(flat(b), flat(a), L, f'{what}: {p}', dom=D)
        for p in ['model_tdep.order', 'model_tdep.nmax', 'model_static.nmax', 'n_sm', 'n_gsm'] + [f'model_euler.[{s}].order' for s in sats]:
            a, b = conc(snapof(A, part(A, m, p)), D[0]), conc(snapof(A, part(A, new, p)), D[0])
            c.ok(a == b, L, f'{what}: {p} is {b} instead of {a}')
        keys = [str(A.I.resolve(x)) for x in A.I.iterate(part(A, new, 'model_euler'))]
        c.ok(tuple(keys) == tuple(sats), L, f'{what}: satellites {keys} instead of {sats}')
        meta = part(A, new, 'meta')
        c.ok(snapof(A, A.I.getitem(meta, 'satellites')) == tuple(sats), L, f'{what}: satellites in the meta data')
        for k, s in enumerate(sats):
            a = snapof(A, A.I.getitem(A.I.getattr(part(A, m, f'model_euler.[{s}]'), 'meta'), 'Euler_prerotation'))
            b = snapof(A, A.I.getitem(A.I.getattr(part(A, new, f'model_euler.[{s}]'), 'meta'), 'Euler_prerotation'))
            c.equal(b, a, L, f'{what}: pre-rotation of {s}', dom=D)
        c.ok(snapof(A, part(A, new, 'name')) == (chaosname or 'na.me'), L, f'{what}: name')
        if not cal:
            c.ok(part(A, new, 'model_cal') is None, L, f'{what}: no calibration')
        # hence the same queries
        t = A.arr([inside(brk), anytime(brk)])
        for q_, args in (('synth_coeffs_tdep', (t,)), ('synth_coeffs_static', ())):
            c.equal(val(c, A, A.I.getattr(new, q_), *args, where=L), val(c, A, A.I.getattr(m, q_), *args), L, f'{what}: {q_}', dom=D)
        for s in sats[:2]:
            c.equal(val(c, A, A.I.getattr(new, 'synth_euler_angles'), t, s, where=L), val(c, A, A.I.getattr(m, 'synth_euler_angles'), t, s),
                    L, f'{what}: Euler angles of {s}', dom=D)
    CASES = [(4, 2, 1, 2, (2, 3), 0, (3, 2), False), (6, 3, 1, 2, (2, 2), 0, (2, 1), True), (2, 1, 2, 3, (3,), 0, (1, 1), False),
             (1, 2, 1, 2, (1, 2, 1), 2, (2, 2), False), (3, 2, 1, 1, (1, 1), 1, (3, 1), False), (5, 2, 2, 3, (1,), 3, (1, 2), False),
             (4, 3, 1, 2, (3, 3, 3), 0, (4, 3), False), (2, 2, 1, 2, (2, 2, 2), 1, (2, 2), True), (3, 1, 1, 2, (4, 1), 2, (1, 3), False)]
    for i, cs in enumerate(CASES):
        ck.add('round trip/order {} pieces {} n {}-{} bins {} cal {} q {} same {}'.format(*cs), trip, *cs, i % 4, (None, 'Bar')[i // 2 % 2])

    def single(c):
        """one Euler-angle bin given as a single break point"""
        A = c.an()
        m, brk, sats = build(A, 2, 1, 1, 2, (0, 2), 0)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/x.mat', where=S, what='saving')
        new = must(c, A, A.get(L), '/out/x.mat', where=L, what='loading', **dict(satellites=sats))
        for s in sats:
            for at in ('coeffs', 'breaks'):
                p = f'model_euler.[{s}].{at}'
                c.equal(flat(snapof(A, part(A, new, p))), flat(snapof(A, part(A, m, p))), L, f'single break point: {p}')
    ck.add('round trip/single break point', single)

    def external(c, nmax):
        A = c.an()
        sp, rc = fulllib(A)
        m, brk, sats = build(A, 2, 1, 1, 2, (1,), 0)
        fulllib(A)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/x.mat', where=S, what='saving')
        new = must(c, A, A.get(L), '/out/x.mat', where=L, what='loading', **dict(satellites=sats))
        t = A.arr([inside(brk)])
        for src in ('external', 'internal'):
            for q_, kw in (('synth_coeffs_gsm', dict(source=src)), ('synth_coeffs_sm', dict(source=src, rc=A.syms('rcv', 1)))):
                c.equal(val(c, A, A.I.getattr(new, q_), t, where=L, **kw), val(c, A, A.I.getattr(m, q_), t, **kw), L,
                        f'{q_} {src} after loading')
    ck.add('external coefficients', external, 2)

    def names(c, given, expect):
        A = c.an()
        m, brk, sats = build(A, 2, 1, 1, 2, (1, 2, 1), 0)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/x.mat', where=S, what='saving')
        kw = {} if given is None else dict(satellites=given)
        new = must(c, A, A.get(L), '/out/x.mat', where=L, what='loading', **kw)
        keys = tuple(str(A.I.resolve(x)) for x in A.I.iterate(part(A, new, 'model_euler')))
        c.ok(keys == expect, L, f'satellites {keys} instead of {expect}')
        for s, w in zip(expect, sats):
            for at in ('coeffs', 'breaks'):
                c.equal(flat(snapof(A, part(A, new, f'model_euler.[{s}].{at}'))), flat(snapof(A, part(A, m, f'model_euler.[{w}].{at}'))), L,
                        f'{at} of {s}')
    ck.add('names/default', names, None, ('oersted', 'champ', 'sac_c'))
    ck.add('names/tuple', names, ('x', 'y', 'z'), ('x', 'y', 'z'))
    ck.add('names/too many', names, ('x', 'y', 'z', 'u', 'v'), ('x', 'y', 'z'))
    ck.add('names/too few', names, ('x',), ('x', 'satellite_2', 'satellite_3'))

    def missing(c, drop, gone):
        """a file without one of the parts"""
        A = c.an()
        m, brk, sats = build(A, 2, 2, 1, 2, (1, 2), 1)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/x.mat', where=S, what='saving')
        root = A.I.resolve(A.I.fs.items['/out/x.mat'])
        c.ok(drop in root.items, S, f'{drop} is in the file')
        A.put('/out/x.mat', DDict({k: v for k, v in root.items.items() if k != drop}))
        r = A.call(L, '/out/x.mat', satellites=sats)
        c.returns(r, L, f'file without {drop}')
        c.ok(r.warns(), L, f'file without {drop}: a warning is given')
        new = must(c, A, A.get(L), '/out/x.mat', where=L, what='loading', **dict(satellites=sats))
        for p in gone:
            c.ok(part(A, new, p) is None, L, f'file without {drop}: {p} is missing')
        for p in ('model_tdep.coeffs', 'model_static.coeffs', 'coeffs_sm', 'coeffs_gsm', 'coeffs_delta.[q10]', 'coeffs_delta.[s11]',
                  'model_euler.[sat_1].coeffs', 'model_cal.[cryosat-2_1].coeffs'):
            if not any(p.startswith(g) for g in gone):
                c.equal(flat(snapof(A, part(A, new, p))), flat(snapof(A, part(A, m, p))), L, f'file without {drop}: {p}')
    for drop, gone in (('g', ['model_static']), ('model_ext', ['coeffs_sm', 'coeffs_gsm', 'coeffs_delta', 'breaks_delta']),
                       ('model_Euler', ['model_euler']), ('pp_CAL', ['model_cal']), ('params', [])):
        ck.add(f'missing part/{drop}', missing, drop, gone)

    def single_model(c, order, pieces, path):
        """a single model in piecewise-polynomial form"""
        A = c.an()
        m, brk, co = basemodel(A, pieces, order, 1)
        kw = {} if path is None else dict(path=path)
        must(c, A, A.I.getattr(m, 'save_matfile'), '/out/x.mat', where=S, what='saving', **kw)
        d = must(c, A, DU + 'load_matfile', '/out/x.mat')
        key = (path or '/pp').strip('/')
        pp = A.I.getitem(d, key)
        W = CH + 'Base.save_matfile'
        what = f'order {order}, {pieces} pieces'
        for k, w in dict(order=order, pieces=pieces, dim=3).items():
            x = conc(snapof(A, A.I.getitem(pp, k)), c.tr(1)[0])
            c.ok(float(np.asarray(x)) == w, W, f'{what}: {k} is {x} instead of {w}')
        c.equal(flat(snapof(A, A.I.getitem(pp, 'breaks'))), SA(np.array(brk, dtype=object), F, False), W, f'{what}: break points')
        e = np.asarray(snapof(A, A.I.getitem(pp, 'coefs')).v, dtype=object)
        want = co.get().reshape(order, -1).T
        c.equal(flat(SA(e, F, False)), flat(SA(want, F, False)), W, f'{what}: coefficients, one row per piece and component')
        c.ok(snapof(A, A.I.getitem(pp, 'form')) == 'pp', W, f'{what}: form')
    for order, pieces, path in ((1, 2, None), (4, 3, None), (2, 1, '/other'), (6, 2, '/pp')):
        ck.add(f'single model/order {order} pieces {pieces} {path}', single_model, order, pieces, path)
