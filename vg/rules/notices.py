"""what the package tells the user: warnings and progress messages"""
import re

from .common import *
from .. import values as V
from .errors import rc_covering
from .textfiles import matcontents


def spoken(r, *kinds):
    """(condition, text parts) of the messages"""
    out = []
    for e in r.evs(*(kinds or ('warn',))):
        m = e.get('msg') if e['kind'] == 'warn' else e.get('text', e.get('args'))
        out.append((e['cond'], m))
    return out


def text(m):
    """the fixed text of a message, numbers that depend on the input cut out"""
    if isinstance(m, (tuple, list)):
        m = ' '.join(str(x) for x in m)
    return ''.join(p if isinstance(p, str) else '#' for p in V.ph_split(m))


def nodes(m):
    return [p[0] for p in V.ph_split(m) if not isinstance(p, str)]


def has(t, w):
    return re.search(rf'(?<![A-Za-z0-9_]){re.escape(str(w))}(?![A-Za-z0-9_])', t) is not None


METHODS = ('linear', 'quadratic', 'cubic', 'constant', 'spline', 'off')
KEY = dict(linear=2, quadratic=3, cubic=4, constant=1, off=0)


@rule('C98', 'Warnings state what was done',
      'effect analysis of every warning and progress message: its condition and its text against the path on which it is issued')
def c98(ck):
    def strs(c, r, w, what):
        out = []
        for cond, m in spoken(r):
            if not isinstance(m, str):
                raise Undecided(f'{what}: text of a warning')
            if c.sat(cond, 8):
                out.append((cond, m))
        return out

    def method(c, order, ex, who):
        """the extrapolation that is announced is the one that is done"""
        A = c.an()
        brk = breaks_syms(3)
        if who == 'Base':
            m, _, _ = basemodel(A, 2, order, 3, brk=brk, cls='chaos.Base')
            w = c.where('chaos.Base.synth_coeffs')
        else:
            m, _, _ = basemodel(A, 2, order, 1, brk=brk)
            w = c.where('chaos.BaseModel.synth_coeffs')
        kw = {} if ex == 'unset' else dict(extrapolate=ex)
        for t in (before(brk), after(brk), A.arr([inside(brk), after(brk)])):
            r = A.method(m, 'synth_coeffs', t, **kw)
            c.returns(r, w, f'extrapolate={ex!r}')
            ms = [x for _, x in strs(c, r, w, 'extrapolation') if 'extrapolation' in x]
            c.ok(len(ms) == 1, w, f'extrapolate={ex!r}: {len(ms)} warnings about extrapolation')
            tx, nn = text(ms[0]), nodes(ms[0])
            key = 2 if ex is None or ex is True or ex == 'unset' else 0 if ex is False else order if ex == 'spline' else KEY[ex] if isinstance(ex, str) else int(ex)
            key = min(key, order)
            ok = ['spline'] if key == order else []
            ok += [n for n, k in KEY.items() if k == key and n != 'off']
            ok += ['no'] if key == 0 else []
            if not ok:
                ok = [f'order-{key}', f'order {key}']
            named = [n for n in METHODS + ('no',) if re.search(rf'\b{n}\b', tx)]
            c.ok(any(re.search(rf'\b{o}\b', tx) for o in ok), w, f'extrapolate={ex!r} for a spline of order {order} is announced as: {tx!r}, expected {ok}')
            c.ok(all(n in ok or n == 'spline' and f'order-{key}' in tx for n in named), w, f'extrapolate={ex!r}, order {order}: {tx!r} names {named}')
            c.ok('{' not in tx and '}' not in tx, w, f'extrapolate={ex!r}: unfilled text {tx!r}')
            c.ok(len(nn) >= 2, w, f'extrapolate={ex!r}: the warning does not give the period')
            c.equal(nn[0], brk[0], w, 'start of the period in the warning')
            c.equal(nn[1], brk[-1], w, 'end of the period in the warning')
    for who in ('Base', 'BaseModel'):
        for order in (1, 2, 3, 4, 5, 6, 8):
            for ex in ('unset',) + METHODS + (None, True, False, 0, 1, 2, 3, 4, 5, 6, 9):
                ck.add(f'method/{who}/order {order}/{ex}', method, order, ex, who)

    def clamp(c, which):
        """a reduced degree is announced with the degree (or number of coefficients) that is used; no notice otherwise"""
        for ng, ns in ((2, 2), (1, 2), (3, 2), (2, 3)) if which.startswith(('gsm', 'sm')) else ((2, 2),):
            clamped(c, which, ng, ns)

    def clamped(c, which, ng, ns):
        A = c.an()
        lib_present(A)
        spectra(A, n=ng, which=('gsm',))
        spectra(A, n=ns, which=('sm',))
        brk = breaks_syms(3)
        C = Chaos(A, order=2, n=2, nstat=3, brk=brk, meta=False, gsm=ng if ng != 2 else True, sm=ns if ns != 2 else True)
        P = point()
        i = T.add(brk[0], T.scale(T.sub(brk[1], brk[0]), 0.5))
        obj, name, a, kw, n = {
            'tdep coeffs': (C.m, 'synth_coeffs_tdep', (i,), {}, 2), 'tdep values': (C.m, 'synth_values_tdep', (i, *P), {}, 2),
            'static coeffs': (C.m, 'synth_coeffs_static', (), {}, 3), 'static values': (C.m, 'synth_values_static', P, {}, 3),
            'gsm coeffs': (C.m, 'synth_coeffs_gsm', (i,), {}, ng), 'gsm values': (C.m, 'synth_values_gsm', (i, *P), {}, ng),
            'sm coeffs': (C.m, 'synth_coeffs_sm', (i,), dict(rc=sym('rc')), ns),
            'sm values': (C.m, 'synth_values_sm', (i, *P), dict(rc_e=sym('re'), rc_i=sym('ri')), ns)}[which]
        w = c.where(f'chaos.CHAOS.{name}')
        if which.startswith(('gsm', 'sm')):
            # the warning about the period is not the subject
            skip = 'outside'
        else:
            skip = None
        for nm in sorted({1, n, n + 1, n + 5}) + [None]:
            r = A.method(obj, name, *a, nmax=nm, **kw)
            c.returns(r, w, f'{name}(nmax={nm})')
            ms = [x for _, x in strs(c, r, w, name) if not (skip and skip in x) and 'outside' not in x]
            if nm is None or nm <= n:
                c.ok(not ms, w, f'{name}(nmax={nm}) of a model of degree {n} warns: {[text(x) for x in ms]}')
                continue
            c.ok(len(ms) >= 1, w, f'{name}(nmax={nm}) of a model of degree {n}: no warning')
            for x in ms:
                tx = text(x)
                c.ok(has(tx, nm) and has(tx, n) or has(tx, dim(nm)) and has(tx, dim(n)), w,
                     f'{name}(nmax={nm}) of a model of degree {n} is announced as {tx!r}')
                p1, p2 = tx.find(f'= {nm} '), tx.rfind(f'= {n} ')
                c.ok(p1 < 0 or p2 < 0 or p1 < p2, w, f'{name}: requested and used degree are confused in {tx!r}')
    for which in ('tdep', 'static', 'gsm', 'sm'):
        for k in ('coeffs', 'values'):
            ck.add(f'degree/{which} {k}', clamp, f'{which} {k}')

    def euler(c):
        """angles are announced as lacking the pre-rotation exactly for satellites that have one"""
        A = c.an()
        brk = breaks_syms(3)
        w = c.where('chaos.CHAOS.synth_euler_angles')
        i = T.add(brk[0], T.scale(T.sub(brk[1], brk[0]), 0.5))
        for meta in (True, False):
            C = Chaos(A, order=2, n=1, nstat=2, brk=brk, meta=meta)
            for s in ('swarm_a', 'swarm_b'):
                for kw in ({}, dict(dim=1), dict(deriv=1)):
                    r = C.call('synth_euler_angles', i, s, **kw)
                    c.returns(r, w, f'Euler angles of {s}')
                    ms = [x for _, x in strs(c, r, w, 'Euler') if 'outside' not in x]
                    if not meta:
                        c.ok(not ms, w, f'Euler angles without pre-rotation: warning {[text(x) for x in ms]}')
                        continue
                    c.ok(len(ms) == 1, w, f'Euler angles of {s} with a pre-rotation: {len(ms)} warnings')
                    pre = A.do(lambda: A.I.getattr(A.I.getattr(C.m, 'model_euler').items[s], 'meta').items['Euler_prerotation'])
                    got = nodes(ms[0])
                    for x in pre.get():
                        c.ok(any(g is x for g in got), w, f'pre-rotation of {s} is announced with other angles')
    ck.add('Euler pre-rotation', euler)

    def rcfiles(c, how):
        """the built-in RC-index is announced exactly when it is read"""
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        C = Chaos(A, order=2, n=1, nstat=2, brk=brk)
        rc_covering(A, brk)
        A.put('/data/rc.h5', DDict({'time': A.arr([T.sub(brk[0], T.num(1)), T.add(brk[-1], T.num(1))]), 'RC_e': A.syms('oe', 2), 'RC_i': A.syms('oi', 2)}))
        i = T.add(brk[0], T.scale(T.sub(brk[1], brk[0]), 0.5))
        P = point()
        ms = None
        if how == 'own file':
            setcfg(A, 'file.RC_index', '/data/rc.h5')
        for src in ('external', 'internal', 'all'):
            for name, a in (('synth_coeffs_sm', (i,)), ('synth_values_sm', (i, *P))):
                if src == 'all' and 'coeffs' in name:
                    continue
                w = c.where(f'chaos.CHAOS.{name}')
                kw = {} if how != 'given' else dict(rc=sym('rc')) if 'coeffs' in name else dict(rc_e=sym('re'), rc_i=sym('ri'))
                r = C.call(name, *a, source=src, **kw)
                c.returns(r, w, name)
                ms = [x for _, x in strs(c, r, w, name) if 'RC' in text(x)]
                opened = [e for e in r.evs('open') if 'RC_index' in str(e['path'])]
                if how == 'built-in':
                    c.ok(bool(opened), w, f'{name}: the built-in RC-index is not read')
                    c.ok(len(ms) >= 1, w, f'{name}({src}): the built-in RC-index is read without a notice')
                    for x in ms:
                        c.ok('built-in' in text(x) and str(cfgval(A, 'params.CHAOS_version')) in text(x), w, f'{name}: notice {text(x)!r}')
                else:
                    c.ok(not opened, w, f'{name}: the built-in RC-index is read, RC {how}')
                    c.ok(not ms, w, f'{name}({src}): notice about the built-in RC-index, RC {how}')
    for how in ('built-in', 'own file', 'given'):
        ck.add(f'RC-index/{how}', rcfiles, how)

    PARTS = {'g': 'static', 'model_ext': 'external', 'model_Euler': 'Euler', 'pp_CAL': 'calibration'}

    def missing(c, drop):
        """a MAT-file without some part: that part, and no other, is reported missing"""
        A = c.an()
        b = breaks_syms(3)
        A.put('/data/m.mat')
        A.I.overrides['chaosmagpy.data_utils.load_matfile'] = lambda I, a, k: matcontents(A, b, drop=drop)
        w = c.where('chaos.load_CHAOS_matfile')
        r = A.call('chaos.load_CHAOS_matfile', '/data/m.mat')
        c.returns(r, w, f'MAT-file without {drop}')
        ms = [text(x) for _, x in strs(c, r, w, 'MAT-file')]
        for k, word in PARTS.items():
            n = sum(word.lower() in x.lower() for x in ms if 'iss' in x)
            if k in drop:
                c.ok(n >= 1, w, f'MAT-file without {k}: nothing tells that the {word} part is missing')
            else:
                c.ok(n == 0, w, f'MAT-file with {k}: the {word} part is reported missing')
    import itertools
    for n in range(0, 5):
        for drop in itertools.combinations(PARTS, n):
            ck.add(f'MAT-file without {"+".join(drop) or "nothing"}', missing, drop)

    def empty(c):
        A = c.an()
        w = c.where('config_utils.BasicConfig.load')
        for txt, want in (('{}', True), ('{"params.r_surf": 6371.0}', False)):
            A.put('/data/conf.txt', txt)
            r = A.run(lambda: A.I.call(A.I.getattr(cfg(A), 'load'), ['/data/conf.txt'], {}))
            c.returns(r, w, 'load')
            c.ok(bool(strs(c, r, w, 'load')) == want, w, f'configuration file {txt}: warning {not want}')
    ck.add('empty configuration file', empty)

    def progress(c, parts):
        """progress messages are printed when asked for, and name the parts that are computed"""
        A = c.an()
        fulllib(A)
        brk = breaks_syms(3)
        C = Chaos(A, order=2, n=2, nstat=3, brk=brk)
        w = c.where('chaos.CHAOS.__call__')
        i = T.add(brk[0], T.scale(T.sub(brk[1], brk[0]), 0.5))
        nst = 3 if len(parts) % 2 else 2
        words = {'tdep': ('time-dependent', 2), 'static': ('static', nst), 'gsm': ('GSM', 2), 'sm': (' SM', 2)}
        for vb in ('unset', None, False, True, 0, 1):
            kw = {} if vb == 'unset' else dict(verbose=vb)
            r = C.call('__call__', i, *point(), source_list=LList(list(parts)), rc_e=sym('re'), rc_i=sym('ri'), nmax_static=nst, **kw)
            c.returns(r, w, f'verbose={vb}')
            out = [text(' '.join(str(x) for x in e['args'])) for e in r.evs('print') if c.sat(e['cond'], 4)]
            if vb in ('unset', None, False, 0):
                c.ok(not out, w, f'verbose={vb} prints {out}')
                continue
            for p, (word, n) in words.items():
                k = [x for x in out if 'omput' in x and word in x]
                c.ok(bool(k) == (p in parts), w, f'verbose: sources {parts}, messages {out}')
                for x in k:
                    c.ok(has(x, n), w, f'verbose: {x!r}, degree of the part is {n}')
    for parts in (('tdep',), ('static',), ('gsm',), ('sm',), ('tdep', 'static'), ('gsm', 'sm'), ('sm', 'tdep'), ('tdep', 'static', 'gsm', 'sm')):
        ck.add(f'progress/{"+".join(parts)}', progress, parts)

    # ---- comment lines of saved coefficient files
    def remarks(c, A, r, w, path, what, name=None, header=None, leap=None, asked=None):
        c.returns(r, w, what)
        s = r.ret.fs.get(path)
        c.ok(isinstance(s, str), w, f'{what}: {path} is not written')
        rows = [x for x in text(s).split('\n') if x.strip()]
        k = next((i for i, x in enumerate(rows) if not x.lstrip().startswith('#')), None)
        c.ok(k is not None and len(rows) > k + 1, w, f'{what}: no numbers in the file')
        com = ' '.join(x.strip().lstrip('#').strip() for x in rows[:k])
        nums = rows[k].split()
        c.ok(len(nums) == 5, w, f'{what}: parameters {rows[k]!r}')
        nmin, nmax, nt, order, step = nums
        if header is not None:
            c.ok(s.startswith(header), w, f'{what}: does not start with the header {header!r} that was given')
        if name is not None:
            c.ok(has(com, name), w, f'{what}: the comment {com!r} does not name the model {name}')
        c.ok('{' not in com and '}' not in com, w, f'{what}: unfilled comment {com!r}')
        for pat, want in ((r'degree (\S+) to (\w+)', (nmin, nmax)), (r'given at (\S+) points', (nt,)), (r'(\w+)-order', (order,)),
                          (r'every (\S+) step', (str(max(int(order) - 1, 1)),))):
            if header is None:
                for m in re.finditer(pat, com):
                    c.ok(m.groups() == want, w, f'{what}: the comment says {m.group(0)!r}, the file has {want}')
        own = [x for x in rows[:k] if header is None or x not in header]
        said = [x for x in own if 'eap year' in x]
        for x in said:
            c.ok(has(x, bool(leap)) and not has(x, not leap), w, f'{what}: the comment says {x!r}, leap_year is {leap}')
        for e in r.evs('print'):
            tx = text(' '.join(str(x) for x in e['args']))
            if 'SHC' in tx or 'saved' in tx.lower():
                c.ok(path in tx, w, f'{what}: prints {tx!r}')

    def comments(c, how, order, pieces, leap):
        A = c.an()
        lib_present(A)
        brk = breaks_syms(pieces + 1)
        kw = {} if leap is None else dict(leap_year=leap)
        if how in ('tdep', 'static', 'static alone'):
            C = Chaos(A, order=order, pieces=pieces, n=1, nstat=3, brk=brk, tdep=how != 'static alone')
            w = c.where('chaos.CHAOS.save_shcfile')
            r = C.call('save_shcfile', '/out/a.shc', model=how.split()[0], **kw)
            remarks(c, A, r, w, '/out/a.shc', f'CHAOS.save_shcfile of the {how} part, order {order}, {pieces} pieces', name='Foo', leap=bool(leap))
            return
        if how == 'function':
            w = c.where(DU + 'save_shcfile')
            for h in (None, '# mine\n', '# mine\n# degree 7 to 9\n'):
                r = A.run(lambda: A.I.call(A.get(DU + 'save_shcfile'), [A.syms('t', pieces + 1, 'mjd'), A.syms('c', (pieces + 1, 8))],
                                           dict(kw, order=order, filepath='/out/a.shc', nmin=order, nmax=2, **({} if h is None else dict(header=h)))))
                remarks(c, A, r, w, '/out/a.shc', f'save_shcfile with header {h!r}', header=h, leap=leap is None or leap)
            return
        m, _, _ = basemodel(A, order=order, n=2, brk=brk)
        w = c.where('chaos.BaseModel.to_shc')
        name = A.run(lambda: A.I.getattr(m, 'name')).value
        for nmin in (1, 2):
            for h in (None, '# mine\n'):
                r = A.method(m, 'to_shc', '/out/a.shc', nmin=nmin, **({} if h is None else dict(header=h)), **kw)
                remarks(c, A, r, w, '/out/a.shc', f'BaseModel.to_shc, order {order}, {pieces} pieces', name=name if h is None else None, header=h, leap=bool(leap))
    for how in ('tdep', 'static', 'static alone', 'model', 'function'):
        for order in (1, 2, 3) if how != 'function' else (1, 2):
            for pieces in (1, 2, 3) if how == 'tdep' else (2,):
                for leap in (None, True, False, 0, 1):
                    ck.add(f'comments/{how} order {order} pieces {pieces} leap {leap}', comments, how, order, pieces, leap)
