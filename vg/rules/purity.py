"""effects: caller's data, model, configuration, files, clocks; decided over the catalogue of public calls"""
from .catalog import *
from .catalog import Fix, entries, owned, call_entry


def snapshot(A, cells):
    return A.run(lambda: None, watch=cells).ret.watch


def labels(heavy=True):
    """labels of the catalogue (from a throw-away session)"""
    return _cat(None)[1]


_CACHE = {}


def _cat(c):
    """catalogue of the session of an obligation"""
    if c is None:
        if 'labels' not in _CACHE:
            A = An(ROOT)
            A.push()
            _CACHE['labels'] = {k: e for k, e in entries(Fix(A)).items()}
            A.pop()
        return None, _CACHE['labels']
    key = id(c.check)
    if _CACHE.get('key') != key:
        A = An(ROOT)
        c.check.analysers.append(A)
        F = Fix(A)
        _CACHE.update(key=key, A=A, F=F, E=entries(F))
    A = c.A = _CACHE['A']
    A.push()
    c.mine.append(A)
    return _CACHE['F'], _CACHE['E']


def feas(c, cond):
    return c.sat(cond, 6)


def add_all(ck, fn, pred=lambda e: True, prefix=''):
    try:
        lab = labels()
    except Exception as ex:      # fixtures could not be built: keep one obligation that reports it
        def bad(c, ex=ex):
            raise Undecided(f'catalogue: {type(ex).__name__} {ex}')
        ck.add(prefix + 'catalogue', bad)
        return
    for k in lab:
        if pred(lab[k]):
            ck.add(prefix + k, fn, k)


@rule('C05', 'Public functions never modify the arrays and containers passed in',
      'mutation (write-effect) analysis of caller-owned objects over all exits of every public callable')
def c05(ck):
    def unmodified(c, label):
        F, E = _cat(c)
        e = E[label]
        if not e.own:
            raise Skip('no container arguments')
        before_ = snapshot(c.A, e.own)
        r = c.A.run(e.thunk, watch=e.own)
        for o in r.outs:
            if o.kind == 'raise' and not feas(c, o.cond):
                continue
            for k in e.own:
                c.equal(o.watch[k], before_[k], e.where,
                        f'{k} after the call ({"returns" if o.kind == "return" else "raises " + o.exc_name})')
    add_all(ck, unmodified)

    def model_inputs(c):
        # neither construction nor later use of a model writes into the arrays it was made from
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        own = dict(breaks=A.arr(b), tdep=A.syms('c', (2, 2, 3)), static=A.syms('s', (1, 1, 8)), sm=A.syms('sm', 8),
                   gsm=A.syms('g', 8), bd=DDict({k: A.arr(b) for k in ('q10', 'q11', 's11')}),
                   cd=DDict({k: A.syms('d' + k, (1, 2)) for k in ('q10', 'q11', 's11')}),
                   be=DDict({'swarm_a': A.arr(b)}), ce=DDict({'swarm_a': A.syms('eu', (1, 2, 3))}),
                   bc=DDict({'k': A.arr(b)}), cc=DDict({'k': A.syms('ca', (1, 2, 9))}),
                   meta=DDict({'params': DDict({'Euler_prerotation': A.syms('pre', (2, 3))}), 'satellites': ('swarm_a',)}))
        first = snapshot(A, own)
        t = A.arr([anytime(b, f'w{i}') for i in range(3)])
        r, th, ph = A.syms('r', 3, 'radius'), A.syms('th', 3, 'theta'), A.syms('ph', 3, 'phi')
        e3, i3 = A.syms('e', 3), A.syms('i', 3)
        m = A.new('chaos.CHAOS', own['breaks'], 2, coeffs_tdep=own['tdep'], coeffs_static=own['static'], coeffs_sm=own['sm'],
                  coeffs_gsm=own['gsm'], breaks_delta=own['bd'], coeffs_delta=own['cd'], breaks_euler=own['be'],
                  coeffs_euler=own['ce'], breaks_cal=own['bc'], coeffs_cal=own['cc'], meta=own['meta'])
        q = [('__call__', (t, r, th, ph), dict(rc_e=e3, rc_i=i3)), ('synth_coeffs_tdep', (t,), dict(deriv=1, extrapolate='spline')),
             ('synth_coeffs_gsm', (t,), dict(nmax=1)), ('synth_coeffs_sm', (t,), dict(rc=e3, source='internal')),
             ('synth_values_static', (r, th, ph), {}), ('synth_euler_angles', (t, 'swarm_a'), {}),
             ('save_matfile', ('/out/x.mat',), {}), ('save_shcfile', ('/out/x.shc',), {}), ('__str__', (), {})]
        for name, a, k in q:
            x = A.run(lambda: A.I.call(m if name == '__call__' else A.I.getattr(m, name), list(a), dict(k)), watch=own)
            for o in x.outs:
                for kk in own:
                    c.equal(o.watch[kk], first[kk], c.where(f'chaos.CHAOS.{name}'), f'array {kk} the model was made from, after {name}')
    ck.add('model inputs survive use of the model', model_inputs)


@rule('C06', 'Querying, plotting or saving a model does not change it',
      'mutation and alias analysis of model, configuration and defaults over the catalogue of public calls')
def c06(ck):
    def kept(c, label):
        F, E = _cat(c)
        e = E[label]
        A = c.A
        w = {'configuration': cfg(A), 'defaults': A.get('config_utils.BasicConfig.defaults')}
        for i, m in enumerate(e.models):
            w['model'] = m
        before_ = snapshot(A, w)
        r = A.run(e.thunk, watch=w)
        for o in r.outs:
            if o.kind == 'raise' and not feas(c, o.cond):
                continue
            for k in w:
                c.equal(o.watch[k], before_[k], e.where,
                        f'the {k} after the call ({"returns" if o.kind == "return" else "raises " + o.exc_name})')
    add_all(ck, kept, prefix='unchanged/')

    def independent(c, label):
        F, E = _cat(c)
        e = E[label]
        A = c.A
        r = A.run(e.thunk)
        if r.ret is None:
            raise Skip('raises')
        res = reach(r.ret.raw)
        for what, cell in [('model', m) for m in e.models] + [('configuration', cfg(A)),
                                                              ('defaults', A.get('config_utils.BasicConfig.defaults'))]:
            prot = reach(cell)
            sh = set(res) & set(prot)
            c.ok(not sh, e.where, f'the result shares memory with the {what}')
        # overwriting the result leaves later results as they were
        args = reach(tuple(e.own.values()))

        def again():
            v = A.I.call(Builtin('f', lambda I, a, k: e.thunk()), [], {})
            n = 0
            for key, x in reach(v).items():
                if isinstance(x, Arr) and key not in args and x.dt.kind in 'fc':
                    A.I.touch(x.buf)
                    x.buf.data = [T.sym(f'junk{n}_{i}') for i in range(len(x.buf.data))]
                    n += 1
            return e.thunk()
        r2 = A.run(again)
        if r2.ret is None:
            c.fail(f'second call raises {r2.raises[0].exc_name}', e.where)
        if not e.clock:
            c.equal(r2.value, r.value, e.where, 'result of a second call after the first result was overwritten')
        else:
            c.ok(True, e.where, '')
    add_all(ck, independent, lambda e: not e.raises and not e.plot, prefix='independent/')

    def rc_same(c):
        # a model queried, saved, plotted and queried again gives the same field
        A = c.an()
        F = Fix(A)
        t, r, th, ph = inside(F.brk, 'u1'), *point('9')
        env = A.client('''
def use(m, b, t, r, th, ph):
    a = m(t, r, th, ph, rc_e=1., rc_i=2.)
    m.save_matfile('/out/a.mat')
    m.save_shcfile('/out/a.shc')
    m.save_shcfile('/out/s.shc', model='static')
    m.synth_coeffs_tdep(t + 1e5, extrapolate='spline')
    m.synth_euler_angles(t, 'swarm_b')
    str(m)
    b.to_ppdict()
    p = b.to_ppdict()
    p['breaks'][...] = 0.
    p['coefs'][...] = 0.
    c = b.synth_coeffs(t)
    c[...] = 0.
    m.plot_timeseries_tdep(r, th, ph)
    return a, m(t, r, th, ph, rc_e=1., rc_i=2.), b.synth_values(t, r, th, ph)
''')
        x = A.call(env['use'], F.C.m, F.base, t, r, th, ph)
        c.returns(x, c.where('chaos.CHAOS'), 'sequence of queries')
        c.equal(x.value[0], x.value[1], c.where('chaos.CHAOS.__call__'), 'field before and after other uses of the model')
        y = A.method(F.base, 'synth_values', t, r, th, ph)
        c.equal(x.value[2], y.value, c.where('chaos.BaseModel.synth_values'), 'field after modifying exported arrays')
    ck.add('sequence', rc_same)

    def variants(c, what, name):
        # models that lack parts, or whose meta data are unusual, are left alone too
        A = c.an()
        fulllib(A)
        parts = {'all': {}, 'calibration': dict(cal=True), 'no pre-rotation': {}, 'more meta data': {}}.get(
            what, {what.split()[-1]: False})
        C = Chaos(A, **parts)
        if what == 'no pre-rotation':
            A.do(lambda: A.I.setitem(A.I.getitem(A.I.getattr(C.m, 'meta'), 'params'), 'Euler_prerotation', None))
        if what == 'more meta data':
            A.do(lambda: A.I.setitem(A.I.getitem(A.I.getattr(C.m, 'meta'), 'params'), 'source', 'x'))
            A.do(lambda: A.I.setitem(A.I.getattr(C.m, 'meta'), 'list', LList([1, None])))
        t, (r, th, ph) = inside(C.brk, 'u1'), point('9')
        f, a, k = {
            '__call__': ('__call__', (t, r, th, ph), dict(rc_e=sym('e'), rc_i=sym('i'))),
            'values': ('synth_values_tdep', (t, r, th, ph), {}), 'static': ('synth_values_static', (r, th, ph), {}),
            'gsm': ('synth_coeffs_gsm', (t,), {}), 'sm': ('synth_coeffs_sm', (t,), dict(rc=sym('e'))),
            'euler': ('synth_euler_angles', (t, 'swarm_a'), {}), 'mat': ('save_matfile', ('/out/x.mat',), {}),
            'shc': ('save_shcfile', ('/out/x.shc',), {}), 'shc static': ('save_shcfile', ('/out/x.shc',), dict(model='static')),
            'str': ('__str__', (), {})}[name]
        first = snapshot(A, {'model': C.m})
        x = A.run(lambda: A.I.call(C.m if f == '__call__' else A.I.getattr(C.m, f), list(a), dict(k)), watch={'model': C.m})
        for o in x.outs:
            c.equal(o.watch['model'], first['model'], c.where(f'chaos.CHAOS.{f}'),
                    f'the model ({what}) after {name} {"returns" if o.kind == "return" else "raises " + o.exc_name}')
    for what in ('all', 'calibration', 'no pre-rotation', 'more meta data', 'without tdep', 'without static', 'without sm', 'without gsm',
                 'without delta', 'without euler', 'without meta'):
        for name in ('__call__', 'values', 'static', 'gsm', 'sm', 'euler', 'mat', 'shc', 'shc static', 'str'):
            ck.add(f'variants/{what}/{name}', variants, what, name)

    def modules(c, label):
        # module-level data and class attributes keep their values
        F, E = _cat(c)
        e = E[label]
        A = c.A
        w = {}
        for name, mod in A.I.modules.items():
            for k, v in mod.env.vars.items():
                if isinstance(v, Arr) or isinstance(v, (LList, DDict, SSet)) and not isinstance(v, Inst):
                    w[f'{name}.{k}'] = v
        # caches that a memoising call fills are allowed (their effect is decided by independence)
        e0 = len(A.I.events)
        r = A.run(e.thunk, watch={k: v for k, v in w.items() if isinstance(v, Arr) or not getattr(v, 'memo', False)})
        gs = [x for x in r.events if x['kind'] == 'global_state']
        c.ok(not gs, e.where, f'changes process-wide state: {gs[0]["what"] if gs else ""}')
    add_all(ck, modules, lambda e: not e.raises, prefix='process-state/')


def taint(v, out=None):
    """names of clock and random symbols a result depends on"""
    out = set() if out is None else out
    if isinstance(v, SA):
        for x in v.v.ravel():
            taint(x, out)
    elif isinstance(v, SC):
        taint(v.c, out), taint(v.a, out), taint(v.b, out)
    elif isinstance(v, Node):
        out |= {s for s in T.free_syms(v) if s.startswith(('now#', 'rand#', 'env#'))}
    elif isinstance(v, (tuple, list)):
        for x in v:
            taint(x, out)
    elif isinstance(v, dict):
        for k, x in v.items():
            if k != 'timestamp':
                taint(x, out)
    elif isinstance(v, SI):
        taint(v.attrs, out), taint(v.data, out)
    elif isinstance(v, np.ndarray):
        for x in v.ravel():
            taint(x, out)
    elif isinstance(v, str) and V.has_ph(v):
        for line in v.split('\n'):
            if line.strip().startswith('#'):
                continue
            for x in V.ph_split(line):
                if not isinstance(x, str):
                    taint(x[0], out)
    return out


WARM = ['synth_values/external', 'synth_values/internal/poles', 'design_gauss/internal', 'legendre_poly', 'basevectors_gsm/dipole',
        'basevectors_mag/dipole', 'synth_rotate_gauss/True', 'base.synth_coeffs/cubic', 'base.synth_coeffs/nmax', 'base.to_ppdict',
        'one.synth_coeffs', 'ext.synth_values', 'chaos.synth_coeffs_gsm/internal', 'chaos.synth_coeffs_sm/external/rc',
        'chaos.synth_values_static', 'chaos.synth_euler_angles', 'power_spectrum/external', 'dipole_to_vec/angles', 'gg_to_geo',
        'load_shcfile', 'mjd_to_dyear/True', 'dyear_to_mjd/False', 'pp_from_bspline', 'colloc_matrix', 'chaos()/internal',
        'transform_points/sm/True', 'plot_power_spectrum', 'save_shcfile/1-D']


VARIANTS = ('reversed', 'same first', 'same last', 'same ends', 'other models')


@rule('C30', 'Results depend only on arguments, the model, configuration and files',
      'information-flow analysis: no clock, random or hidden-state value flows into a result')
def c30(ck):
    def pure(c, label):
        F, E = _cat(c)
        e = E[label]
        A = c.A
        r = A.run(e.thunk)
        c.ok(not r.evs('environ'), e.where, 'reads an environment variable')
        for o in r.outs:
            if o.kind == 'return':
                bad = taint(o.value)
                c.ok(not bad, e.where, f'the result depends on {"the clock" if any("now" in b for b in bad) else "random numbers"}')
            if isinstance(o.cond, Node):
                bad = {s for s in T.free_syms(o.cond) if s.startswith(('now#', 'rand#', 'env#'))}
                c.ok(not bad, e.where, 'the outcome depends on the clock or random numbers')
            for p in e.writes:
                bad = taint(o.fs.get(p))
                c.ok(not bad, e.where, f'the file content depends on the clock or random numbers: {p}')
    # the printed summary shows the creation time stamp of the model: the documented exception
    add_all(ck, pure, lambda e: not e.where.endswith('__str__'), prefix='pure/')

    def history(c, label):
        # the same call after a battery of other calls, including itself, gives the same
        F, E = _cat(c)
        e = E[label]
        A = c.A
        first = A.run(e.thunk)
        if '2nd' not in _CACHE or _CACHE['2nd'][0] is not A:
            F2 = Fix.__new__(Fix)
            F2.__dict__.update(F.__dict__)
            F2.tag = 'zz'
            F2.r, F2.th, F2.ph = point('zz')
            _CACHE['2nd'] = (A, entries(F2))
        E2 = _CACHE['2nd'][1]

        def warm():
            for k in WARM:
                if k in E2:
                    E2[k].thunk()
        if _CACHE.get('warm', (None,))[0] is not A:
            A.I.steps = 0
            _CACHE['warm'] = (A, A.I.run_region(warm).delta)

        def run():
            A.I.commit(_CACHE['warm'][1])
            if not e.raises and label in E2:
                E2[label].thunk()
            mid.append(len(A.I.events))
            return e.thunk()
        mid = []
        r = A.run(run)
        if first.ret is None:
            c.ok(r.ret is None, e.where, 'raises when called first but returns after other calls')
            return
        if r.ret is None:
            c.fail(f'returns when called first but raises {r.raises[0].exc_name} after other calls', e.where)
        if not e.clock or e.where.startswith('chaos.CHAOS.__call__'):
            c.equal(r.value, first.value, e.where, 'result after other calls')
        elif isinstance(first.value, SI):
            a, b = dict(r.value.attrs), dict(first.value.attrs)
            a.pop('timestamp', None), b.pop('timestamp', None)
            c.equal(a, b, e.where, 'result after other calls')
        for p in e.writes:
            strip = lambda s: '\n'.join(x for x in s.split('\n') if not x.strip().startswith('#')) if isinstance(s, str) else s  # noqa
            c.equal(strip(r.ret.fs.get(p)), strip(first.ret.fs.get(p)), e.where, f'content of {p} after other calls')
        # warnings and prints of the call itself are the same as well
        w1 = len([x for x in first.events if x['kind'] == 'warn'])
        w2 = len([x for x in A_events(r, mid) if x['kind'] == 'warn'])
        c.ok(w1 == w2, e.where, 'number of warnings differs after other calls')
    def A_events(r, mid):
        return r.events[-(len(r.events)):] if not mid else _tail(r, mid[0])

    def _tail(r, m):
        A = _CACHE['A']
        base = len(A.I.events) - len(r.events)
        return r.events[max(0, m - base):]
    add_all(ck, history, lambda e: not e.plot, prefix='history/')

    REL = {}

    def related(c, label):
        # the same call after a call with related arguments: other order, partly the same, another model
        F, E = _cat(c)
        e = E[label]
        A = c.A
        if REL.get('A') is not A:
            REL.clear()
            REL.update(A=A, E={v: entries(F.related(v)) for v in VARIANTS})
        first = A.run(e.thunk)
        if first.ret is None:
            raise Skip('never returns')
        for v in VARIANTS:
            e2 = REL['E'][v][label]
            if v == 'other models' and not e.models:
                continue

            def run():
                e2.thunk()
                return e.thunk()
            r = A.run(run)
            if r.ret is None:
                if A.run(e2.thunk).ret is None:
                    continue        # the related call itself is refused
                c.fail(f'returns when called first but raises {r.raises[0].exc_name} after a call with related arguments ({v})', e.where)
            c.equal(r.value, first.value, e.where, f'result after a call with related arguments ({v})')
    add_all(ck, related, lambda e: not e.plot and not e.heavy and not e.clock and not e.writes and not e.raises, prefix='related/')

    def options(c, label):
        # the same call, and the call with some options left at their default, after calls of the function with other options
        F, E = _cat(c)
        e = E[label]
        A = c.A
        kw = getattr(e.thunk, 'kw', {})
        less = [{k: v for k, v in kw.items() if k != d} for d in kw] + ([{}] if len(kw) > 1 else [])
        mine = [(f'without {sorted(set(kw) - set(k))}', e.thunk.alt(k)) for k in less] + [('', e.thunk)]
        others = [(x.label, x.thunk) for x in E.values() if x.where == e.where and not x.raises and not x.heavy and x is not e] + mine
        n = 0
        one = {}

        def alone(f):
            if f not in one:
                one[f] = A.run(f)
            return one[f]
        for what, f in mine:
            first = alone(f)
            if first.ret is None or first.raises and all(r.cond is True for r in first.raises):
                continue
            for before_, g in others:
                if g is f or what and before_.startswith('without') or alone(g).ret is None:
                    continue
                n += 1

                def run():
                    g()
                    return f()
                r = A.run(run)
                if r.ret is None:
                    c.fail(f'{what}: returns when called first but raises {r.raises[0].exc_name} after {before_ or label}', e.where)
                c.equal(r.value, first.value, e.where, f'result {what} after a call with other options ({before_ or label})')
        if not n:
            raise Skip('no other options')
    add_all(ck, options, lambda e: not e.plot and not e.heavy and not e.clock and not e.writes and not e.raises, prefix='options/')

    def memo_args(c):
        # results follow their arguments when an argument array is modified in place between two calls
        A = c.an()
        F = Fix(A)
        env = A.client('''
def seq(f, a, i, x, args, kw):
    f(*args, **kw)
    a[i] = x
    return f(*args, **kw)
''')
        x = sym('newval', 'theta')
        th = A.syms('th', 2, 'theta')
        for label, f, args, kw, arr in (
                ('legendre_poly', MU + 'legendre_poly', lambda t: (2, t), {}, th),
                ('synth_values', MU + 'synth_values', lambda t: (A.syms('c', 3), F.r, t, F.ph), {}, th),
                ('design_gauss', MU + 'design_gauss', lambda t: (F.r, t, F.ph, 1), {}, th),
                ('transform_points', CO + 'transform_points', lambda t: (t, F.ph, sym('d', 'day')), {'reference': 'mag'}, th)):
            g = A.get(f)
            r = A.call(env['seq'], g, arr, 0, x, args(arr), DDict(kw))
            th2 = A.arr([x, th.get()[1]])
            want = A.call(f, *args(th2), **kw)
            c.returns(r, c.where(f), label)
            c.equal(r.value, want.value, c.where(f), f'{label} after its argument was modified in place')
    ck.add('argument modified in place', memo_args)

    def model_modified(c):
        # a model whose coefficients are replaced evaluates the new ones
        A = c.an()
        b = breaks_syms(3)
        m, _, _ = basemodel(A, 2, 2, 1, brk=b)
        new = A.syms('new', (2, 2, 3))
        m2 = A.new('chaos.BaseModel', 'm2', A.arr(b), 2, new)
        env = A.client('''
def seq(m, new, t, r, th, ph, how):
    m.synth_coeffs(t); m.synth_values(t, r, th, ph)
    if how:
        m.coeffs = new
    else:
        m.coeffs[...] = new
    return m.synth_coeffs(t), m.synth_values(t, r, th, ph)
''')
        t = inside(b)
        r, th, ph = point()
        want = A.run(lambda: (A.I.call(A.I.getattr(m2, 'synth_coeffs'), [t], {}), A.I.call(A.I.getattr(m2, 'synth_values'), [t, r, th, ph], {})))
        for how in (True, False):
            x = A.call(env['seq'], m, new, t, r, th, ph, how)
            c.returns(x, c.where('chaos.BaseModel.synth_coeffs'), 'evaluation of a changed model')
            c.equal(x.value, want.value, c.where('chaos.BaseModel.synth_coeffs'), 'evaluation after the coefficients of the model changed')
    ck.add('model modified by the user', model_modified)

    def rc_changed(c):
        # files are read again when their content changes
        A = c.an()
        F = Fix(A)
        t = inside(F.brk)
        rcfile(A, 'h5', tag='old')
        w = c.where('chaos.CHAOS.synth_coeffs_gsm')
        q = lambda: A.I.call(A.I.getattr(F.C.m, 'synth_coeffs_gsm'), [t], {})     # noqa
        new = DDict(dict(A.I.fs.items[LIB + 'frequency_spectrum_gsm.npz'].items))
        new.items['spectrum'] = A.syms('otherz', new.items['spectrum'].get().shape, 'complex')

        def run():
            q()
            A.put(LIB + 'frequency_spectrum_gsm.npz', new)
            return q()

        def run2():
            A.put(LIB + 'frequency_spectrum_gsm.npz', new)
            return q()
        c.equal(A.run(run).value, A.run(run2).value, w, 'coefficients after the spectrum file changed')
    ck.add('file changed between calls', rc_changed)


@rule('C29', 'Files are written only where asked and every opened file is closed',
      'typestate of file handles over all exits including exception edges, and effect analysis of paths')
def c29(ck):
    def effects(c, label):
        F, E = _cat(c)
        e = E[label]
        A = c.A
        fs0 = snapshot_fs(A)
        r = A.run(e.thunk)
        for x in r.evs('open'):
            if not feas(c, x['cond']):
                continue
            p, mode = x['path'], str(x['mode'])
            wr = any(ch in mode for ch in 'wax+')
            c.ok(not (wr and p not in e.writes), f'{x["loc"]}', f'opens {p} for writing, which is not the requested path')
            c.ok(p in e.reads or p in e.writes, f'{x["loc"]}', f'opens {p}, which is neither given nor configured')
        c.ok(not r.evs('fs_effect'), e.where, 'changes the file system')
        for o in r.outs:
            if o.kind == 'raise' and not feas(c, o.cond):
                continue
            ch = changed(fs0, o.fs)
            c.ok(ch <= set(e.writes), e.where, f'writes {sorted(ch - set(e.writes))}')
            if o.kind == 'return':
                for p in e.writes:
                    c.ok(p in o.fs, e.where, f'does not write the requested file {p}')
            closed(c, e, o)
    add_all(ck, effects, prefix='paths/')

    def closed(c, e, o):
        for h, st in o.open_handles:
            for t in c.tr(4):
                if isinstance(o.cond, Node) and not ccond(o.cond, t):
                    continue
                if not conc(st, t):
                    raise Violation(f'file {h.st["path"]} opened via {h.via} is still open when the call '
                                    f'{"returns" if o.kind == "return" else "raises " + o.exc_name + " at " + str(o.loc)}', h.where)

    def faults(c, label):
        # every library call made while a file is open may raise
        F, E = _cat(c)
        e = E[label]
        A = c.A
        A.I.faults = dict(seen=set(), n=0, h0=len(A.I.handles))
        try:
            r = A.run(e.thunk)
            n = A.I.faults['n']
        finally:
            A.I.faults = None
        if not n:
            raise Skip('no library call while a file is open')
        for o in r.outs:
            for h, st in o.open_handles:
                ok = True
                for t in witness(o.cond, c):
                    if not conc(st, t):
                        ok = False
                c.ok(ok, h.where, f'file {h.st["path"]} opened via {h.via} stays open when '
                                  f'{"the call returns" if o.kind == "return" else str(o.msg) + " raises at " + str(o.loc)}')
    add_all(ck, faults, lambda e: bool(e.reads or e.writes), prefix='faults/')

    def bad_content(c, what):
        # files with missing or malformed content: raises, but everything is closed
        A = c.an()
        F = Fix(A)
        t = F.t
        C = F.C
        cases = {
            'spectrum without arrays': (LIB + 'frequency_spectrum_gsm.npz', DDict({'dipole': cfgval(A, 'params.dipole')}),
                                        lambda: A.I.call(A.I.getattr(C.m, 'synth_coeffs_gsm'), [t], {})),
            'spectrum of another dipole': (LIB + 'frequency_spectrum_gsm.npz', DDict({'dipole': A.arr([1., 2., 3.])}),
                                           lambda: A.I.call(A.I.getattr(C.m, 'synth_coeffs_gsm'), [t], {})),
            'SM spectrum of another dipole': (LIB + 'frequency_spectrum_sm.npz', DDict({'dipole': A.arr([1., 2., 3.])}),
                                              lambda: A.I.call(A.I.getattr(C.m, 'synth_coeffs_sm'), [t], {'rc': sym('rc')})),
            'RC file without columns': (LIB + 'RC_index.h5', DDict({'time': A.arr([1., 2.])}),
                                        lambda: A.I.call(A.I.getattr(C.m, 'synth_coeffs_sm'), [t], {})),
            'SHC file with wrong size': ('/data/bad.shc', '1 1 2 2 1\n 2000. 2001.\n1 0 1.0\n',
                                         lambda: A.I.call(A.get(DU + 'load_shcfile'), ['/data/bad.shc'], {})),
            'model text too short': ('/data/bad.txt', 'x\n',
                                     lambda: A.I.call(A.get('chaos.load_CovObs_txtfile'), ['/data/bad.txt'], {})),
        }
        path, content, f = cases[what]
        A.put(path, content)
        r = A.run(f)
        c.ok(r.ret is None, 'chaosmagpy', f'{what}: no error is raised')
        for o in r.outs:
            closed(c, None, o)
    for what in ('spectrum without arrays', 'spectrum of another dipole', 'SM spectrum of another dipole', 'RC file without columns',
                 'SHC file with wrong size', 'model text too short'):
        ck.add(f'bad content/{what}', bad_content, what)

    def names(c, path, what):
        # the path is taken literally, whatever its form
        A = c.an()
        F = Fix(A)
        t = A.arr([T.num(0), T.num(366)])
        co = A.syms('c', (2, 8))
        txt = '# c\n1 2 1 1 1\n 2000.0\n' + ''.join(f'{n} {m} 1.5\n' for n in (1, 2) for m in [0] + [x for k in range(1, n + 1) for x in (k, -k)])
        call = lambda f, *a, **k: lambda: A.I.call(A.get(f), list(a), k)                              # noqa: E731
        meth = lambda o, f, *a, **k: lambda: A.I.call(A.I.getattr(o, f), list(a), k)                  # noqa: E731
        other = set()
        if what in ('save_RC_h5file',):
            other = {rcfile(A, 'dat', '/data/RCin.dat')[0]}
        if what == 'load_RC_datfile':
            rcfile(A, 'dat', path)
        elif what == 'load_shcfile' or what == 'from_shc':
            A.put(path, txt)
        elif what.startswith('load_') and what.endswith('txtfile'):
            from .textfiles import IGRF, COVOBS, GUFM, CALS
            A.put(path, {'IGRF': IGRF, 'CovObs': COVOBS, 'gufm1': GUFM, 'CALS7K': CALS}[what.split('_')[1]])
        elif what == 'configuration/load':
            A.put(path, '{}')
        f = {'save_shcfile': call(DU + 'save_shcfile', t, co, filepath=path), 'to_shc': meth(F.base, 'to_shc', path),
             'CHAOS.save_shcfile': meth(F.C.m, 'save_shcfile', path), 'CHAOS.save_shcfile static': meth(F.C.m, 'save_shcfile', path, model='static'),
             'save_matfile': meth(F.C.m, 'save_matfile', path), 'configuration/save': meth(cfg(A), 'save', path),
             'configuration/load': meth(cfg(A), 'load', path),
             'save_RC_h5file': call(DU + 'save_RC_h5file', path, read_from='/data/RCin.dat'),
             'load_RC_datfile': call(DU + 'load_RC_datfile', path), 'load_shcfile': call(DU + 'load_shcfile', path),
             'from_shc': call('chaos.load_CHAOS_shcfile', path)}.get(what) or call('chaos.' + what, path)
        w = c.where({'to_shc': 'chaos.BaseModel.to_shc', 'save_matfile': 'chaos.CHAOS.save_matfile', 'configuration/save': 'config_utils.BasicConfig.save',
                     'configuration/load': 'config_utils.BasicConfig.load', 'from_shc': 'chaos.load_CHAOS_shcfile'}.get(what)
                    or ('chaos.CHAOS.save_shcfile' if what.startswith('CHAOS') else ('chaos.' if what.endswith('txtfile') else DU) + what))
        fs0 = snapshot_fs(A)
        r = A.run(f)
        c.returns(r, w, f'{what}({path!r})')
        ch = changed(fs0, r.ret.fs)
        c.ok(ch == ({path} if 'save' in what or what == 'to_shc' else set()), w, f'{what}({path!r}) writes {sorted(ch)}')
        op = {x['path'] for x in r.evs('open')}
        c.ok(op <= {path} | other, w, f'{what}({path!r}) opens {sorted(op)}')
        closed(c, None, r.ret)
    for path in ('/out/noextension', '/out/v1.2/model', 'relative', 'dir/relative.shc', '/out/x.TXT', '/out/with blank.y', '/out/.hidden',
                 '/out/a.shc.old', '/out/%s{0}', '/out/~', '/out/x.gz'):
        for what in ('save_shcfile', 'to_shc', 'CHAOS.save_shcfile', 'CHAOS.save_shcfile static', 'save_matfile', 'configuration/save', 'save_RC_h5file',
                     'configuration/load', 'load_RC_datfile', 'load_shcfile', 'from_shc', 'load_IGRF_txtfile', 'load_CovObs_txtfile',
                     'load_gufm1_txtfile', 'load_CALS7K_txtfile'):
            if path.endswith('.gz') and what == 'load_RC_datfile':
                continue            # pandas decompresses
            ck.add(f'names/{what}/{path}', names, path, what)

    def config_files(c, name):
        A = c.an()
        lib_present(A)
        conf = cfg(A)
        A.run(lambda: None)
        for flt in (False, True):
            if name == 'load':
                A.do(lambda: A.I.call(A.I.getattr(conf, 'save'), ['/cfg/s.json'], {}))
            fs0 = snapshot_fs(A)
            A.I.faults = dict(seen=set(), n=0, h0=len(A.I.handles)) if flt else None
            try:
                r = A.method(conf, name, '/cfg/s.json')
            finally:
                A.I.faults = None
            w = c.where(f'config_utils.BasicConfig.{name}')
            for x in r.evs('open'):
                c.ok(x['path'] == '/cfg/s.json', w, f'opens {x["path"]}')
            for o in r.outs:
                ch = changed(fs0, o.fs)
                c.ok(ch <= ({'/cfg/s.json'} if name == 'save' else set()), w, f'writes {ch}')
                for h, st in o.open_handles:
                    c.ok(all(bool(conc(st, t)) for t in witness(o.cond, c)), h.where, f'{h.st["path"]} stays open')
    ck.add('configuration/save', config_files, 'save')
    ck.add('configuration/load', config_files, 'load')

    def spectrum_saved(c):
        A = c.an()
        lib_present(A)
        w = c.where(CO + 'rotate_gauss_fft')
        A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'] = lambda I, a, k: A.syms('R', (4, 3, 3))
        A.put(LIB + 'Earth_conductivity.dat', '0.0 1.0\n100.0 2.0\n')
        A.I.overrides['chaosmagpy.coordinate_utils.q_response_1D'] = lambda I, a, k: tuple(A.syms('q', 2, 'complex') for _ in range(4))
        for save in (None, False, '/out/s.npz', '/out/s'):
            fs0 = snapshot_fs(A)
            r = A.call(CO + 'rotate_gauss_fft', 1, 1, N=4, filter=2, save_to=save)
            c.returns(r, w, 'rotate_gauss_fft')
            c.ok(changed(fs0, r.ret.fs) == ({'/out/s.npz'} if save else set()), w, f'writes {changed(fs0, r.ret.fs)} for save_to={save!r}')
            c.ok({x['path'] for x in r.evs('open')} <= {'/out/s.npz', LIB + 'Earth_conductivity.dat'}, w, 'opens other files')
            closed(c, None, r.ret)
    ck.add('rotation spectrum', spectrum_saved)


def snapshot_fs(A):
    return A.run(lambda: None).ret.fs


def changed(a, b):
    return {k for k in set(a) | set(b) if k not in a or k not in b or not (a[k] is b[k] or identical(a[k], b[k]))}


def witness(cond, c, n=3):
    """trials under which the exit is taken: fault symbols are forced along the condition"""
    if not isinstance(cond, Node):
        return c.tr(n)
    fs = sorted(s for s in T.free_syms(cond) if s.startswith('fault#'))
    out = []
    for i in [None] + list(range(len(fs))):
        for t in trials(2, c.seed, overrides={s: (j == i) for j, s in enumerate(fs)}):
            if ccond(cond, t):
                out.append(t)
    return out
