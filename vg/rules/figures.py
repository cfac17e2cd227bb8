"""figures: titles, labels, units, options, colour limits and gaps of what is drawn"""
from .common import *
from .synth import oarr


class Axis:
    """what a figure's axes carry, whatever form of the matplotlib call set it"""
    def __init__(self, path):
        self.path, self.title, self.ylabel, self.xlabel, self.bar, self.log = path, None, None, None, None, False
        self.draw, self.lines = [], []


DRAW = ('pcolormesh', 'plot', 'semilogy')


def axes(c, r, w):
    """the axes of the last figure, in order of subplot creation (row by row)"""
    ev = list(r.evs('opaque_call'))
    sub = [i for i, e in enumerate(ev) if e['path'].endswith('.subplots')]
    if len(sub) != 1:
        raise Undecided(f'{len(sub)} figures')
    out, order = {}, []
    root = ev[sub[0]]['path'] + '()[1]'

    def owner(path):
        for k in out:
            if path.startswith(k + '.'):
                return out[k]
        if path.startswith(root + '['):
            k = path[:path.index(']', len(root)) + 1]
            out[k] = Axis(k)
            order.append(k)
            return out[k]
        return None
    for e in ev[sub[0] + 1:]:
        if e['s'] is None:
            raise Undecided('arguments of a drawing call')
        a, k = e['s']
        m = e['path'].split('.')[-1]
        ax = owner(e['path'])
        if m == 'colorbar':
            tgt = [str(x) for x in (k.get('ax'),) + tuple(a)]
            for p in order:
                if any(p + '>' in t or p + '.' in t for t in tgt):
                    out[p].bar = k.get('label', out[p].bar)
        elif m == 'set_label' and 'colorbar()' in e['path']:
            raise Undecided('label of a colour bar set afterwards')
        if ax is None:
            continue
        if m == 'set_title':
            ax.title = a[0] if a else k.get('label')
        elif m in ('set_ylabel', 'set_xlabel'):
            setattr(ax, m[4:], a[0] if a else k.get(m[4:]))
        elif m == 'set_yscale':
            ax.log = a[0] == 'log'
        elif m == 'set':
            for n in ('title', 'ylabel', 'xlabel'):
                if n in k:
                    setattr(ax, n, k[n])
            if k.get('yscale') == 'log':
                ax.log = True
        elif m in DRAW:
            if m == 'plot' and (k.get('color') == 'k' or 'projection' in str(ev[sub[0]]['kwargs'].get('subplot_kw'))):
                ax.lines.append((a, k))
            else:
                ax.draw.append((m, a, k))
                ax.log = ax.log or m == 'semilogy'
    import re
    num = lambda p: int(re.search(r'\[(\d+)\]$', p).group(1))       # noqa: E731
    return [out[k] for k in sorted(out, key=num)], ev[sub[0]]


def plain(s):
    """a label without its TeX markup"""
    import re
    s = re.sub(r'\\mathrm|\\text|[${}\\ ]', '', s)
    return s


def unit_text(deriv):
    return 'nT' if deriv in (0, None) else 'nT/yr' if deriv == 1 else f'nT/yr^{deriv}'


@rule('C97', 'Figures label and scale what they show',
      'effect analysis: arguments of every drawing, labelling and scaling call per subplot, over layouts, options and derivatives')
def c97(ck):
    def start(c, name):
        A = c.an()
        lib_present(A)
        return A, c.where(PU + name)

    def args_of(A, name, n):
        f = [A.syms('xyzuvw'[i], (2, 2) if name == 'plot_maps' else 2) for i in range(n)]
        if name == 'plot_maps':
            return [A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi')], f
        return [A.syms('t', 2, 'day')], f

    LAB = {'plot_maps': 'label', 'plot_timeseries': 'ylabel'}

    def label_of(ax, name):
        return ax.bar if name == 'plot_maps' else ax.ylabel

    def subplots(c, name, n, layout):
        """each array gets its own subplot, with its own title and the common label"""
        A, w = start(c, name)
        co, f = args_of(A, name, n)
        ts = [f'title {i}' for i in range(n)]
        kw = {} if layout is None else {'layout': layout}
        for tt in (LList(list(ts)), tuple(ts)):
            r = A.call(PU + name, *co, *f, titles=tt, **{LAB[name]: 'my unit'}, **kw)
            c.returns(r, w, name)
            X, sub = axes(c, r, w)
            rows, cols = layout or (n, 1)
            shape = list(sub['s'][0]) + [None, None]
            shape = [sub['s'][1].get('nrows', shape[0]), sub['s'][1].get('ncols', shape[1])]
            c.ok(shape == [rows, cols], w, f'{shape} subplots for the layout {(rows, cols)}')
            c.ok(len(X) == n, w, f'{len(X)} subplots are used for {n} arrays')
            for i, ax in enumerate(X):
                c.ok(len(ax.draw) == 1, w, f'subplot {i}: {len(ax.draw)} arrays are drawn')
                c.equal(ax.draw[0][1][-1], snapof(A, f[i]), w, f'array of subplot {i}')
                c.ok(ax.title == ts[i], w, f'subplot {i} has the title {ax.title!r}, given {ts[i]!r}')
                c.ok(label_of(ax, name) == 'my unit', w, f'subplot {i}: label {label_of(ax, name)!r}, given "my unit"')
    for name in ('plot_maps', 'plot_timeseries'):
        for n, lay in ((1, None), (2, None), (3, None), (2, (1, 2)), (2, (2, 1)), (3, (1, 3)), (4, (2, 2)), (6, (2, 3)), (6, (3, 2))):
            ck.add(f'subplots/{name}/{n}/{lay or "default"}', subplots, name, n, lay)

    def badlayout(c, name):
        A, w = start(c, name)
        for n, lay in ((3, (2, 1)), (2, (2, 2)), (1, (0, 1)), (4, (2, 3))):
            co, f = args_of(A, name, n)
            r = A.call(PU + name, *co, *f, layout=lay)
            c.always_raises(r, ValueError, w, f'layout {lay} for {n} arrays: some array or subplot stays without partner')
    for name in ('plot_maps', 'plot_timeseries'):
        ck.add(f'layout that does not fit/{name}', badlayout, name)

    def nones(c, name):
        """None means the default, of every option with a default"""
        A, w = start(c, name)
        if name == 'plot_power_spectrum':
            co, f = [], [A.syms('s', 3, 'pos')]
            opts = ('figsize', 'titles', 'ylabel')
        else:
            co, f = args_of(A, name, 2)
            opts = ('figsize', 'titles', 'layout', LAB[name]) + (('cmap', 'limiter', 'projection', 'shading') if name == 'plot_maps' else ())
        ref = A.call(PU + name, *co, *f)
        c.returns(ref, w, name)
        ev = [(e['path'], e['s']) for e in ref.evs('opaque_call')]
        for o in opts + (opts,):
            r = A.call(PU + name, *co, *f, **{k: None for k in ((o,) if isinstance(o, str) else o)})
            c.returns(r, w, f'{name}({o}=None)')
            got = [(e['path'], e['s']) for e in r.evs('opaque_call')]
            c.ok(len(got) == len(ev), w, f'{name}({o}=None): other drawing calls than by default')
            for (p, s), (q, t) in zip(got, ev):
                c.ok(p == q, w, f'{name}({o}=None) calls {p}, by default {q}')
                c.equal(s, t, w, f'{name}({o}=None): arguments of {p}')
    for name in ('plot_maps', 'plot_timeseries', 'plot_power_spectrum'):
        ck.add(f'None is the default/{name}', nones, name)

    def through(c, name):
        """options that are matplotlib's reach the drawing call, in every subplot, and nothing else does"""
        A, w = start(c, name)
        if name == 'plot_power_spectrum':
            co, f = [], [A.syms('s', 3, 'pos')]
            own = dict(figsize=(3., 2.), titles='T', ylabel='Y')
        else:
            co, f = args_of(A, name, 2)
            own = {'figsize': (3., 2.), 'titles': LList(['a', 'b']), 'layout': (1, 2), LAB[name]: 'L'}
        if name == 'plot_maps':
            own['projection'] = 'hammer'
            mpl = dict(cmap='nio', vmin=-3., vmax=7., shading='gouraud', alpha=0.5, zorder=2)
        else:
            mpl = dict(color='r', linewidth=2.5, linestyle='--', alpha=0.5, label='curve')
        zero = {k: 0. for k, v in mpl.items() if isinstance(v, (int, float))}
        for given in (mpl, {**mpl, **own}, *({k: v} for k, v in mpl.items()), *({k: 0.} for k in zero), zero):
            r = A.call(PU + name, *co, *f, **given)
            c.returns(r, w, name)
            X, sub = axes(c, r, w)
            for i, ax in enumerate(X):
                c.ok(len(ax.draw) == 1, w, f'subplot {i}: {len(ax.draw)} arrays are drawn')
                k = ax.draw[0][2]
                for o, v in given.items():
                    if o in mpl:
                        c.ok(o in k and k[o] == v, w, f'{name}({o}={v!r}): subplot {i} is drawn with {k.get(o)!r}')
                for o in k:
                    c.ok(o not in own, w, f'{name}: the option {o} is handed to the drawing call')
                    c.ok(o in mpl or o in ('rasterized', 'transform', 'norm', 'snap', 'antialiased'), w,
                         f'{name}: drawing option {o} out of nowhere')
            if 'figsize' in given:
                c.ok(sub['s'][1].get('figsize') == (3., 2.), w, f'{name}: figure size {sub["s"][1].get("figsize")}')
            if 'projection' in given:
                c.ok('hammer' in repr(sub['s'][1]), w, 'the projection is ignored')
            if name == 'plot_power_spectrum' and 'titles' in given:
                c.ok(X[0].title == 'T' and X[0].ylabel == 'Y', w, f'title {X[0].title!r}, label {X[0].ylabel!r}')
    for name in ('plot_maps', 'plot_timeseries', 'plot_power_spectrum'):
        ck.add(f'options/{name}', through, name)

    def limits(c):
        """colour limits of a map: symmetric, spanning the largest absolute value unless given"""
        A, w = start(c, 'plot_maps')
        co, f = args_of(A, 'plot_maps', 1)
        env = spec(A, 'def top(x):\n    return np.amax(np.abs(x))\ndef half(x):\n    return np.amax(x)/2\n')
        top = A.call(env['top'], f[0]).value
        half = A.call(env['half'], f[0]).value
        for kw, lim, what in (({}, top, 'default'), (dict(limiter=None), top, 'limiter=None'), (dict(limiter=env['half']), half, 'own limiter')):
            r = A.call(PU + 'plot_maps', *co, *f, **kw)
            c.returns(r, w, 'plot_maps')
            X, _ = axes(c, r, w)
            k = X[0].draw[0][2]
            c.ok('vmin' in k and 'vmax' in k, w, f'{what}: no colour limits')
            hi, lo = val(k['vmax']), val(k['vmin'])
            c.equal(hi, val(lim), w, f'{what}: upper colour limit')
            c.equal(lo, T.mul(T.num(-1), val(lim)), w, f'{what}: lower colour limit')
        for kw, key, other, sg in ((dict(vmax=sym('V', 'gap')), 'vmax', 'vmin', -1), (dict(vmin=sym('V', 'gap')), 'vmin', 'vmax', 1)):
            r = A.call(PU + 'plot_maps', *co, *f, **kw)
            c.returns(r, w, 'plot_maps')
            k = axes(c, r, w)[0][0].draw[0][2]
            c.equal(val(k[key]), sym('V', 'gap'), w, f'given {key}')
            c.equal(val(k[other]), T.mul(T.num(sg), val(top)), w, f'{other} when only {key} is given')
    ck.add('colour limits', limits)

    def gaps(c):
        """zero spectrum values are gaps, all others drawn as they are, on a logarithmic axis over whole degrees"""
        A, w = start(c, 'plot_power_spectrum')
        for pat in ((1, 0, 1), (0, 1, 1), (1, 1, 0), (0, 0, 1), (1, 1, 1), (1,)):
            x = A.arr([sym(f's{i}', 'pos') if p else T.num(0) for i, p in enumerate(pat)])
            r = A.call(PU + 'plot_power_spectrum', x)
            c.returns(r, w, 'plot_power_spectrum')
            X, _ = axes(c, r, w)
            c.ok(len(X) == 1 and len(X[0].draw) == 1, w, 'one spectrum, one curve')
            c.ok(X[0].log, w, 'the axis of the spectrum is not logarithmic')
            d, s = X[0].draw[0][1][:2]
            want = A.arr([sym(f's{i}', 'pos') if p else T.num(float('nan')) for i, p in enumerate(pat)])
            c.equal(s, snapof(A, want), w, f'drawn spectrum of {pat}')
            for e in (-30, -9, 12):
                y = A.arr([T.scale(v, 10.**e) for v in x.get()])
                q = A.call(PU + 'plot_power_spectrum', y)
                c.returns(q, w, 'plot_power_spectrum')
                c.equal(axes(c, q, w)[0][0].draw[0][1][1], snapof(A, A.arr([T.scale(v, 10.**e) for v in want.get()])), w,
                        f'drawn spectrum of {pat}, values of the order 1e{e}')
            c.equal(d, oarr([T.num(i + 1) for i in range(len(pat))], (len(pat),)), w, 'degrees')
            c.ok('degree' in (X[0].xlabel or ''), w, f'horizontal axis is labelled {X[0].xlabel!r}')
    ck.add('gaps of the spectrum', gaps)

    def coastline(c):
        """coast lines of the file are drawn in every map: longitude, latitude in radians"""
        A, w = start(c, 'plot_maps')
        co, f = args_of(A, 'plot_maps', 2)
        r = A.call(PU + 'plot_maps', *co, *f)
        c.returns(r, w, 'plot_maps')
        X, _ = axes(c, r, w)
        env = spec(A, 'def back(x, y):\n    return np.degrees(x), np.degrees(y)\n')
        for i, ax in enumerate(X):
            c.ok(bool(ax.lines), w, f'map {i} has no coast lines')
            a = ax.lines[0][0]
            g = A.call(env['back'], *[new_arr(s.v.copy(), s.dt) for s in a[:2]]).value
            for s, what in zip(g, ('lon', 'lat')):
                c.equal(s, snapof(A, A.arr([T.sym(f'coast_{what}{j}') for j in range(2)])), w, f'{what} of the coast lines of map {i}')
    ck.add('coast lines', coastline)

    def unit(c):
        A = c.an()
        w = c.where(DU + 'gauss_units')
        for d in (None, 0, 1, 2, 3, 4, 7, 10):
            r = A.call(DU + 'gauss_units', *(() if d is None else (d,)))
            c.returns(r, w, 'gauss_units')
            c.ok(plain(r.value) == unit_text(d), w, f'units of derivative {d} are {r.value!r}')
            if d and d > 1:
                c.ok('{%d}' % d in r.value or d < 10 and '^%d' % d in r.value, w, f'exponent of derivative {d} is typeset as {r.value!r}')
        r = A.call(DU + 'gauss_units', deriv=None)
        c.ok(plain(r.value) == 'nT', w, f'units of derivative None are {r.value!r}')
    ck.add('units', unit)

    # ---- what the model methods hand over
    COMP = (('B_r',), ('theta',), ('phi',))

    def env_(c):
        A = c.an()
        fulllib(A)
        b = breaks_syms(3)
        A.put(LIB + 'RC_index.h5', DDict({'time': A.arr([T.sub(b[0], T.num(1)), T.add(b[-1], T.num(1))]),
                                          'RC_e': A.syms('re', 2), 'RC_i': A.syms('ri', 2)}))
        C = Chaos(A, order=4, n=2, nstat=3, brk=b)
        m, _, _ = basemodel(A, 2, 4, 2, brk=b)
        # the values themselves are C13's matter
        for f, n in (('model_utils.synth_values', 3),):
            A.I.overrides['chaosmagpy.' + f] = lambda I, a, k: tuple(A.syms('B' + x, (2, 3) if k.get('grid') else 2) for x in 'rtp')
        return A, b, C, m

    def obj(C, m, which):
        return {'base': m, 'tdep': C.m, 'static': C.m, 'ext': C.m}[which]

    def titled(c, X, w, what):
        c.ok(len(X) == 3, w, f'{what}: {len(X)} subplots')
        for i, ax in enumerate(X):
            for j, cs in enumerate(COMP):
                for x in cs:
                    c.ok((x in (ax.title or '')) == (i == j), w, f'{what}: subplot {i} ({("radial", "colatitude", "azimuth")[i]} '
                         f'component) has the title {ax.title!r}')

    def given(c, which, meth, lead):
        """labels of the model methods follow the derivative and the degree; the user's win"""
        A, b, C, m = env_(c)
        o = obj(C, m, which)
        w = c.where(f'chaos.{"BaseModel" if which == "base" else "CHAOS"}.{meth}')
        maps = 'maps' in meth
        r0, th, ph = point()
        args = {'base': (inside(b), r0), 'tdep': (inside(b), r0), 'static': (r0,)}[which] if maps else (r0, th, ph)
        lab = 'label' if maps else 'ylabel'
        for d in ('unset', None, 0, 1, 2, 3):
            for nm in (('unset', 1) if d in ('unset', 1) else ('unset',)):
                kw = {k: v for k, v in dict(deriv=d, nmax=nm).items() if v != 'unset'}
                r = A.method(o, meth, *args, **kw)
                c.returns(r, w, f'{meth}({kw})')
                X, _ = axes(c, r, w)
                what = f'{meth}({kw})'
                titled(c, X, w, what)
                dd = 0 if d in ('unset', None) else d
                for ax in X:
                    got = ax.bar if maps else ax.ylabel
                    c.ok(got is not None and plain(got) == unit_text(dd), w, f'{what}: label {got!r}, units of the values are {unit_text(dd)}')
                    if maps:
                        full = 3 if which == 'static' else 2
                        nn = full if nm == 'unset' else nm
                        import re
                        nums = re.findall(r'\d+', ax.title)
                        c.ok(str(nn) in nums, w, f'{what}: title {ax.title!r} does not name the degree {nn}')
                        c.ok(dd == 0 or str(dd) in nums, w, f'{what}: title {ax.title!r} does not name the derivative {dd}')
        r = A.method(o, meth, *args, **{lab: 'mine', 'titles': LList(['q', 's', 't']), 'deriv': 1, 'figsize': (3., 2.), 'layout': (1, 3)})
        c.returns(r, w, f'{meth} with labels')
        X, sub = axes(c, r, w)
        for i, ax in enumerate(X):
            c.ok((ax.bar if maps else ax.ylabel) == 'mine', w, f'{meth}: given {lab} is not used')
            c.ok(ax.title == 'qst'[i], w, f'{meth}: subplot {i} has the title {ax.title!r}, given {"qst"[i]!r}')
        c.ok(sub['s'][1].get('figsize') == (3., 2.), w, f'{meth}: given figure size is not used')
        mpl = dict(cmap='viridis', vmin=-5., vmax=4., alpha=0.5) if maps else dict(color='g', alpha=0.5)
        for kw in (mpl, *({k: v} for k, v in mpl.items()), *({k: 0.} for k, v in mpl.items() if isinstance(v, float))):
            r = A.method(o, meth, *args, **kw)
            c.returns(r, w, f'{meth}({kw})')
            for i, ax in enumerate(axes(c, r, w)[0]):
                k = ax.draw[0][2]
                for x, v in kw.items():
                    c.ok(k.get(x) == v, w, f'{meth}({x}={v!r}): subplot {i} is drawn with {k.get(x)!r}')
                if which == 'static':
                    for x, v in (('cmap', 'nio'), ('vmin', -200), ('vmax', 200)):
                        c.ok(k.get(x) == kw.get(x, v), w, f'{meth}({kw}): {x} is {k.get(x)!r}')
        if which == 'static':
            r = A.method(o, meth, *args, cmap=None, vmin=None, vmax=None)
            c.returns(r, w, f'{meth} with None')
            k = axes(c, r, w)[0][0].draw[0][2]
            for x, v in (('cmap', 'nio'), ('vmin', -200), ('vmax', 200)):
                c.ok(k.get(x) == v, w, f'{meth}({x}=None): drawn with {k.get(x)!r}')
    ck.add('model/maps', given, 'base', 'plot_maps', None)
    ck.add('model/series', given, 'base', 'plot_timeseries', None)
    ck.add('CHAOS/maps_tdep', given, 'tdep', 'plot_maps_tdep', None)
    ck.add('CHAOS/maps_static', given, 'static', 'plot_maps_static', None)
    ck.add('CHAOS/timeseries_tdep', given, 'tdep', 'plot_timeseries_tdep', None)

    def specs(c):
        A, b, C, m = env_(c)
        w = c.where('chaos.BaseModel.plot_power_spectrum')
        for d in ('unset', None, 0, 1, 2, 3):
            kw = {} if d == 'unset' else dict(deriv=d)
            r = A.method(m, 'plot_power_spectrum', inside(b), **kw)
            c.returns(r, w, 'plot_power_spectrum')
            X, _ = axes(c, r, w)
            dd = 0 if d in ('unset', None) else d
            got = plain(X[0].ylabel)
            c.ok(got == f'({unit_text(dd)})^2', w, f'spectrum of derivative {d}: label {X[0].ylabel!r}, '
                 f'units of the values are ({unit_text(dd)})^2')
            c.ok('spectrum' in (X[0].title or ''), w, f'title of the spectrum is {X[0].title!r}')
        r = A.method(m, 'plot_power_spectrum', inside(b), titles='mine', ylabel='L', color='r', linewidth=3., figsize=(3., 2.), deriv=1)
        c.returns(r, w, 'plot_power_spectrum')
        X, sub = axes(c, r, w)
        c.ok(X[0].title == 'mine' and X[0].ylabel == 'L', w, f'given title and label: drawn {X[0].title!r}, {X[0].ylabel!r}')
        c.ok(X[0].draw[0][2].get('color') == 'r' and X[0].draw[0][2].get('linewidth') == 3., w, f'drawing options {X[0].draw[0][2]}')
        c.ok(sub['s'][1].get('figsize') == (3., 2.), w, 'given figure size is not used')
    ck.add('model/spectrum', specs)

    def external(c, ref, src):
        A, b, C, m = env_(c)
        A.I.overrides.pop('chaosmagpy.model_utils.synth_values', None)
        w = c.where('chaos.CHAOS.plot_maps_external')
        kw = {k: v for k, v in dict(reference=ref, source=src).items() if v != 'unset'}
        r = A.method(C.m, 'plot_maps_external', inside(b), sym('r', 'radius'), **kw)
        c.returns(r, w, f'plot_maps_external({kw})')
        X, _ = axes(c, r, w)
        titled(c, X, w, f'plot_maps_external({kw})')
        s = 'all' if src in ('unset', None) else src.lower()
        f = 'all' if ref in ('unset', None) else ref.lower()
        for ax in X:
            low = ax.title.lower()
            c.ok(plain(ax.bar or '') == 'nT', w, f'label of external maps: {ax.bar!r}')
            for x in ('all', 'external', 'internal'):
                c.ok((x in low) == (x == s), w, f'external maps of source {s}: title {ax.title!r}')
            for x in ('gsm', 'sm'):
                import re
                c.ok((re.search(rf'\b{x}\b', low) is not None) == (x == f), w, f'external maps of reference {f}: title {ax.title!r}')
    for ref in ('unset', None, 'all', 'gsm', 'SM'):
        for src in ('unset', 'internal', 'External', 'all'):
            ck.add(f'CHAOS/maps_external/{ref}/{src}', external, ref, src)


def val(s):
    """the single element of a recorded number"""
    if isinstance(s, Node):
        return s
    if hasattr(s, 'v') and not isinstance(s, (int, float)):
        v = s.v
        return v.ravel()[0] if hasattr(v, 'ravel') else v
    return T.num(s) if isinstance(s, (int, float)) else s
