"""models hold what they are constructed from"""
from . import oracle as S
from .common import *


@rule('C34', 'A model describes exactly the data it was constructed from',
      'value-graph equality of the attributes and of the evaluated spline of a freshly constructed object with the constructor arguments')
def c34(ck):
    def at(A, o, path):
        v = o
        for p in path.split('.'):
            v = A.I.getitem(v, p[1:-1]) if p.startswith('[') else A.I.getattr(v, p)
        return v

    def build(c, A, f, args, kw, what, w):
        r = A.run(lambda: A.I.call(f, list(args), dict(kw)))
        c.returns(r, w, what)
        c.ok(not r.warns(), w, f'{what}: warns')
        return must(c, A, f, *args, where=w, what=what, **kw)

    def has(c, A, m, w, what, **want):
        for k, v in want.items():
            x = snapof(A, A.do(lambda: at(A, m, k)))
            if v is None:
                c.ok(x is None, w, f'{what}: {k} is {x!r:.60} instead of None')
            elif isinstance(v, str):
                c.ok(x == v, w, f'{what}: {k} is {x!r:.60} instead of {v!r}')
            elif isinstance(v, Whole):
                t = c.tr(1)[0]
                y = np.asarray(conc(x, t))
                c.ok(x is not None and not isinstance(x, bool) and y.shape == () and y == int(v), w, f'{what}: {k} is {x!r:.60} instead of {int(v)}')
            else:
                c.equal(x, v, w, f'{what}: {k}')

    def nested(A, co):
        """coefficients as nested lists"""
        e = co.get() if hasattr(co, 'get') else co
        f = lambda x: LList([f(y) for y in x]) if isinstance(x, np.ndarray) else x     # noqa
        return f(e)

    def spline(c, cls, pieces, order, rows, form, n):
        A = c.an()
        w = c.where(cls)
        b = breaks_syms(pieces + 1)
        k = dim(n) if cls.endswith('Model') else n
        co = A.syms('c', (rows, pieces, k))
        args = {'array': (A.arr(b), co), 'list': (LList(list(b)), nested(A, co)), 'tuple': (tuple(b), nested(A, co))}[form]
        meta = A.dict({'a': 1})
        kw = dict(breaks=args[0], coeffs=args[1], meta=meta, **({} if order is None else dict(order=order)))
        what = f'{cls.split(".")[1]} of {pieces} pieces from {form}s, order {order} with {rows} rows'
        m = build(c, A, A.get(cls), ['mod'], kw, what, w)
        K = min(order, rows) if order else rows
        has(c, A, m, w, what, name='mod', breaks=SA(np.array(b, dtype=object), F, False), pieces=Whole(pieces), order=Whole(K), dim=Whole(k),
            coeffs=SA(np.array(co.get()[rows - K:], dtype=object), F, False))
        c.ok(A.do(lambda: A.I.getattr(m, 'meta')) is meta, w, f'{what}: meta is not the object passed in')
        if cls.endswith('Model'):
            has(c, A, m, w, what, nmax=Whole(n), source='internal')
        e = co.get()[rows - K:]
        we = c.where('chaos.Base.synth_coeffs')
        for i in range(pieces):
            dl = T.sub(b[i + 1], b[i])
            for t, s in ((b[i], T.ZERO), (T.add(b[i], T.scale(dl, 0.25)), T.scale(dl, 0.25)), (T.add(b[i], T.scale(dl, 0.875)), T.scale(dl, 0.875))):
                v = [S.piece(e[:, :, j], i, s) for j in range(k)]
                r = A.method(m, 'synth_coeffs', t)
                c.returns(r, we, what)
                c.ok(not feasible_(c, r), we, f'{what}: warns inside its period')
                c.equal(r.value, SA(np.array(v, dtype=object), F, False), we, f'{what}: value on piece {i}', n=3)
        r = A.method(m, 'synth_coeffs', b[-1])
        v = [S.piece(e[:, :, j], pieces - 1, T.sub(b[-1], b[-2])) for j in range(k)]
        c.equal(r.value, SA(np.array(v, dtype=object), F, False), we, f'{what}: value at the last break point', n=3)

    def feasible_(c, r):
        from ..harness import feasible
        return any(feasible(e['cond'], c) for e in r.evs('warn')) if r.warns() else False

    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for pieces, order, rows in ((1, None, 1), (1, 1, 1), (2, 1, 1), (3, 2, 2), (2, 4, 4), (1, 3, 3), (2, 2, 4), (3, 1, 3), (2, 6, 3), (4, None, 2)):
            for form in ('array', 'list', 'tuple'):
                if form == 'array' or (pieces, rows) in ((2, 1), (2, 4)):
                    ck.add(f'spline/{cls}/{pieces} {order} {rows} {form}', spline, cls, pieces, order, rows, form, 1)
    for n in (2, 3, 5) + ((8, 13) if ck.tier == 'thorough' else ()):
        ck.add(f'spline/degree {n}', spline, 'chaos.BaseModel', 1, 2, 2, 'array', n)

    def degree(c, n):
        A = c.an()
        w = c.where('chaos.BaseModel')
        b = breaks_syms(2)
        m = build(c, A, A.get('chaos.BaseModel'), ['mod', A.arr(b), 1, A.syms('c', (1, 1, dim(n)))], {}, f'degree {n}', w)
        has(c, A, m, w, f'model of degree {n}', nmax=Whole(n), dim=Whole(dim(n)))
        z = A.syms('g', dim(n))
        C = build(c, A, A.get('chaos.CHAOS'), [A.arr(b), 1], dict(coeffs_gsm=z, coeffs_sm=z), f'degree {n}', w)
        has(c, A, C, w, f'external coefficients of degree {n}', n_sm=Whole(n), n_gsm=Whole(n))
    for n in range(1, 21):
        ck.add(f'degree/{n}', degree, n)

    def single(c, cls, given):
        """one break point"""
        A = c.an()
        w = c.where(cls)
        b = sym('b', 'day')
        co = A.syms('c', (1, 1, 3))
        x = {'number': b, 'list': LList([b]), 'array': A.arr([b])}[given]
        m = build(c, A, A.get(cls), ['mod', x, 1, co], {}, f'model of the single break point ({given})', w)
        has(c, A, m, w, f'single break point ({given})', breaks=SA(np.array([b, b], dtype=object), F, False), pieces=Whole(1), order=Whole(1))
        for t, inside_ in ((b, True), (T.add(b, sym('g', 'gap')), False), (T.sub(b, sym('g', 'gap')), False)):
            r = A.method(m, 'synth_coeffs', t)
            c.returns(r, w, 'evaluation of a constant model')
            c.equal(r.value, SA(np.array(co.get()[0, 0], dtype=object), F, False), w, 'value of a constant model')
    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for g in ('number', 'list', 'array'):
            ck.add(f'single/{cls}/{g}', single, cls, g)

    def stored(c, cls, kind):
        # break points are kept as given: repeated ones delimit pieces of no length
        A = c.an()
        w = c.where(cls)
        x, y, z = breaks_syms(3)
        b = {'first': [x, x, y, z], 'middle': [x, y, y, z], 'last': [x, y, z, z], 'all': [x, x, x, x], 'period': [x, x]}[kind]
        co = A.syms('c', (2, len(b) - 1, 3))
        what = f'break points with a repeated one ({kind})'
        m = build(c, A, A.get(cls), ['mod', A.arr(b), 2, co], {}, what, w)
        has(c, A, m, w, what, breaks=SA(np.array(b, dtype=object), F, False), pieces=Whole(len(b) - 1), order=Whole(2),
            coeffs=SA(np.array(co.get(), dtype=object), F, False))
    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for k in ('first', 'middle', 'last', 'all', 'period'):
            ck.add(f'stored/{cls}/{k}', stored, cls, k)

    def empty(c, cls, order):
        A = c.an()
        w = c.where(cls)
        b = breaks_syms(3)
        kw = {} if order is None else dict(order=order)
        m = build(c, A, A.get(cls), ['mod'], kw, 'model without coefficients', w)
        has(c, A, m, w, 'model without anything', breaks=None, pieces=None, coeffs=None, dim=None, meta=None, name='mod',
            order=None if order is None else Whole(order))
        m = build(c, A, A.get(cls), ['mod'], dict(kw, breaks=A.arr(b)), 'model without coefficients', w)
        has(c, A, m, w, 'model without coefficients', breaks=SA(np.array(b, dtype=object), F, False), pieces=Whole(2), coeffs=None, dim=None)
        if cls.endswith('Model'):
            has(c, A, m, w, 'model without coefficients', nmax=None, source='internal')
        m = build(c, A, A.get(cls), [5], {}, 'model with a number as name', w)
        has(c, A, m, w, 'model with a number as name', name='5')
    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for order in (None, 1, 4):
            ck.add(f'empty/{cls}/{order}', empty, cls, order)

    def source(c, src):
        A = c.an()
        w = c.where('chaos.BaseModel')
        b = breaks_syms(2)
        m = build(c, A, A.get('chaos.BaseModel'), ['mod', A.arr(b), 1, A.syms('c', (1, 1, 3))], dict(source=src), f'source {src}', w)
        has(c, A, m, w, f'source {src}', source=src)
    for src in ('internal', 'external'):
        ck.add(f'source/{src}', source, src)

    def bspline(c, order, n, src):
        A = c.an()
        w = c.where('chaos.BaseModel.from_bspline')
        b = breaks_syms(n)
        kn = [b[0]] * (order - 1) + b + [b[-1]] * (order - 1)
        co = A.syms('c', (n + order - 2, 3))
        meta = A.dict({'a': 1})
        kw = dict(meta=meta, **({} if src is None else dict(source=src)))
        what = f'model of B-splines of order {order}'
        m = build(c, A, A.I.getattr(A.get('chaos.BaseModel'), 'from_bspline'), ['spl', A.arr(kn), co, order], kw, what, w)
        has(c, A, m, w, what, name='spl', breaks=SA(np.array(b, dtype=object), F, False), pieces=Whole(n - 1), order=Whole(order), dim=Whole(3),
            nmax=Whole(1), source=src or 'internal')
        c.ok(A.do(lambda: A.I.getattr(m, 'meta')) is meta, w, f'{what}: meta is not the object passed in')
        c.ok(A.do(lambda: A.I.getattr(m, '__class__')) is A.get('chaos.BaseModel'), w, f'{what}: class')
        # the value is constant one where all B-splines have coefficient one
        one = A.arr([[T.ONE] * 3 for _ in range(n + order - 2)])
        m1 = build(c, A, A.I.getattr(A.get('chaos.BaseModel'), 'from_bspline'), ['spl', A.arr(kn), one, order], {}, what, w)
        for i in range(n - 1):
            t = T.add(b[i], T.scale(T.sub(b[i + 1], b[i]), 0.375))
            r = A.method(m1, 'synth_coeffs', t)
            c.equal(r.value, SA(np.array([T.ONE] * 3, dtype=object), F, False), w, f'{what}: partition of unity')
        # end points take the first and the last coefficient
        for t, i in ((b[0], 0), (b[-1], -1)):
            r = A.method(m, 'synth_coeffs', t)
            c.equal(r.value, SA(np.array(co.get()[i], dtype=object), F, False), w, f'{what}: value at the end of the period')
    for order in (1, 2, 3, 4):
        for n in (2, 3, 4):
            for src in (None, 'internal', 'external') if n == 3 else ('external',):
                ck.add(f'bspline/{order}/{n}/{src}', bspline, order, n, src)

    def ppdict(c, cls, order, pieces):
        A = c.an()
        w = c.where('chaos.Base.to_ppdict')
        m, b, co = basemodel(A, pieces, order, 1 if cls.endswith('Model') else 3, cls=cls)
        r = A.method(m, 'to_ppdict')
        what = f'pp-form of order {order}, {pieces} pieces'
        c.returns(r, w, what)
        d = must(c, A, A.I.getattr(m, 'to_ppdict'), where=w, what=what)
        keys = A.do(lambda: [*A.I.iterate(d)])
        c.ok(set(keys) == {'form', 'order', 'pieces', 'dim', 'breaks', 'coefs'}, w, f'{what}: keys {keys}')
        c.ok(A.do(lambda: A.I.getitem(d, 'form')) == 'pp', w, f'{what}: form')
        for k, x in dict(order=order, pieces=pieces, dim=3).items():
            v = np.asarray(conc(snapof(A, A.do(lambda: A.I.getitem(d, k))), c.tr(1)[0]))
            c.ok(v.shape == () and float(v) == x, w, f'{what}: {k} is {v}')
        c.equal(snapof(A, A.do(lambda: A.I.getitem(d, 'breaks'))), SA(np.array([b], dtype=object), F, False), w, f'{what}: break points in one row')
        # MATLAB: one row per piece and component (component fastest), highest power first
        rows = [[co.get()[k, i, j] for k in range(order)] for i in range(pieces) for j in range(3)]
        c.equal(snapof(A, A.do(lambda: A.I.getitem(d, 'coefs'))), SA(np.array(rows, dtype=object), F, False), w, f'{what}: coefficients')
    for cls in ('chaos.Base', 'chaos.BaseModel'):
        for order, pieces in ((1, 1), (1, 3), (2, 2), (4, 3), (6, 2)):
            ck.add(f'ppdict/{cls}/{order}/{pieces}', ppdict, cls, order, pieces)

    # ---- the composite model
    PARTS = ('tdep', 'static', 'sm', 'gsm', 'delta', 'euler', 'cal', 'meta')

    def composite(c, parts, order, pieces):
        A = c.an()
        w = c.where('chaos.CHAOS')
        C = Chaos(A, order=order, pieces=pieces, n=2, nstat=3, new=False, **{p: p in parts for p in PARTS})
        d, b = C.parts, C.brk
        what = f'composite model of {"+".join(parts) or "nothing"}'
        m = build(c, A, A.get('chaos.CHAOS'), [A.arr(b), order], dict(d, name='Foo'), what, w)
        arr_ = lambda e: SA(np.array(e, dtype=object), F, False)       # noqa
        has(c, A, m, w, what, name='Foo')
        if 'tdep' in parts:
            has(c, A, m, w, what, **{'model_tdep.breaks': arr_(b), 'model_tdep.order': Whole(order), 'model_tdep.nmax': Whole(2),
                                     'model_tdep.pieces': Whole(pieces), 'model_tdep.source': 'internal',
                                     'model_tdep.coeffs': arr_(d['coeffs_tdep'].get())})
        else:
            has(c, A, m, w, what, model_tdep=None)
        if 'static' in parts:
            has(c, A, m, w, what, **{'model_static.breaks': arr_([b[0], b[-1]]), 'model_static.order': Whole(1), 'model_static.nmax': Whole(3),
                                     'model_static.pieces': Whole(1), 'model_static.source': 'internal',
                                     'model_static.coeffs': arr_(d['coeffs_static'].get())})
        else:
            has(c, A, m, w, what, model_static=None)
        for s in ('sm', 'gsm'):
            if s in parts:
                has(c, A, m, w, what, **{f'coeffs_{s}': arr_(d[f'coeffs_{s}'].get()), f'n_{s}': Whole(2)})
            else:
                has(c, A, m, w, what, **{f'coeffs_{s}': None, f'n_{s}': None})
        if 'delta' in parts:
            for k in ('q10', 'q11', 's11'):
                g = lambda s: snapof(A, A.do(lambda: A.I.getitem(d[s], k)))      # noqa
                has(c, A, m, w, what, **{f'breaks_delta.[{k}]': g('breaks_delta'), f'coeffs_delta.[{k}]': g('coeffs_delta')})
        else:
            has(c, A, m, w, what, breaks_delta=None, coeffs_delta=None)
        for s, nm, nc in (('euler', 'model_euler', 3), ('cal', 'model_cal', 9)):
            if s not in parts:
                has(c, A, m, w, what, **{nm: None})
                continue
            bs, cs = d[f'breaks_{s}'], d[f'coeffs_{s}']
            x = A.do(lambda: A.I.getattr(m, nm))
            c.ok(list(x.items) == list(bs.items), w, f'{what}: satellites {list(x.items)} instead of {list(bs.items)}')
            for i, k in enumerate(bs.items):
                bb, cc = bs.items[k].get(), cs.items[k].get()
                has(c, A, m, w, f'{what}, {k}', **{f'{nm}.[{k}].name': k, f'{nm}.[{k}].breaks': arr_(bb), f'{nm}.[{k}].coeffs': arr_(cc),
                                                   f'{nm}.[{k}].order': Whole(1), f'{nm}.[{k}].dim': Whole(nc),
                                                   f'{nm}.[{k}].pieces': Whole(len(bb) - 1)})
                if s == 'euler':
                    pre = A.do(lambda: A.I.getitem(at(A, m, f'{nm}.[{k}].meta'), 'Euler_prerotation'))
                    if 'meta' in parts:
                        want = d['meta'].items['params'].items['Euler_prerotation'].get()[i]
                        c.equal(snapof(A, pre), arr_(want), w, f'{what}: pre-rotation of satellite number {i}')
                    else:
                        c.ok(pre is None, w, f'{what}: pre-rotation {pre!r:.60} without any')
        got = A.do(lambda: A.I.getattr(m, 'meta'))
        c.ok(got is d.get('meta'), w, f'{what}: meta is not the object passed in')
    import itertools
    combos = [PARTS, ()] + [(p,) for p in PARTS] + [tuple(q for q in PARTS if q != p) for p in PARTS] + [('tdep', 'static'), ('sm', 'gsm'), ('euler', 'meta')]
    if ck.tier == 'thorough':
        combos = [q for k in range(len(PARTS) + 1) for q in itertools.combinations(PARTS, k)]
    for i, p in enumerate(combos):
        ck.add(f'composite/{"+".join(p) or "nothing"}', composite, p, (1, 4, 2, 3)[i % 4], (2, 1, 3)[i % 3])

    def satellites(c, names, nbins, meta):
        A = c.an()
        w = c.where('chaos.CHAOS')
        b = breaks_syms(5)
        be = A.dict({s: A.arr(b[:k + 1]) for s, k in zip(names, nbins)})
        ce = A.dict({s: A.syms('e' + str(i), (1, k, 3)) for i, (s, k) in enumerate(zip(names, nbins))})
        # the same entries in another order: angles belong to their satellite by name
        ce2 = A.dict({s: ce.items[s] for s in reversed(names)})
        pre = A.syms('pre', (len(names), 3))
        kw = dict(breaks_euler=be, coeffs_euler=ce2, **(dict(meta=A.dict({'params': {'Euler_prerotation': pre}})) if meta else {}))
        what = f'Euler angles of {", ".join(names)}'
        m = build(c, A, A.get('chaos.CHAOS'), [A.arr(b)], kw, what, w)
        x = A.do(lambda: A.I.getattr(m, 'model_euler'))
        c.ok(list(x.items) == list(names), w, f'{what}: satellites {list(x.items)}')
        for i, (s, k) in enumerate(zip(names, nbins)):
            arr_ = lambda e: SA(np.array(e, dtype=object), F, False)       # noqa
            has(c, A, m, w, f'{what}, {s}', **{f'model_euler.[{s}].breaks': arr_(b[:k + 1]), f'model_euler.[{s}].coeffs': arr_(ce.items[s].get()),
                                               f'model_euler.[{s}].name': s})
            for j in range(k):
                t = T.add(b[j], T.scale(T.sub(b[j + 1], b[j]), 0.5))
                r = A.method(m, 'synth_euler_angles', t, s)
                if not meta:
                    c.returns(r, w, what)
                    c.equal(r.value, arr_(ce.items[s].get()[0, j]), c.where('chaos.CHAOS.synth_euler_angles'), f'{what}: angles of {s} in bin {j}')
            if meta:
                y = A.do(lambda: A.I.getitem(at(A, m, f'model_euler.[{s}].meta'), 'Euler_prerotation'))
                c.equal(snapof(A, y), arr_(pre.get()[i]), w, f'{what}: pre-rotation of {s}')
    for names, nb in ((('swarm_a',), (1,)), (('swarm_c', 'champ'), (2, 1)), (('oersted', 'champ', 'sac_c', 'swarm_a'), (1, 4, 2, 3)),
                      (('z', 'a', 'm'), (3, 3, 1))):
        for meta in (False, True):
            ck.add(f'satellites/{" ".join(names)}/{"meta" if meta else ""}', satellites, names, nb, meta)

    def naming(c, name):
        A = c.an()
        w = c.where('chaos.CHAOS')
        b = breaks_syms(2)
        m = build(c, A, A.get('chaos.CHAOS'), [A.arr(b)], {} if name is None else dict(name=name), 'naming a model', w)
        has(c, A, m, w, 'naming a model', name=name or 'CHAOS')
        s = must(c, A, A.get('chaos.CHAOS.__str__'), m, where=w, what='printing a model')
        txt = s if isinstance(s, str) else str(snapof(A, s))
        c.ok(txt.startswith(name or 'CHAOS'), c.where('chaos.CHAOS.__str__'), f'printing a model: {txt!r:.60} does not begin with its name')
    for name in (None, 'CHAOS-7', 'x'):
        ck.add(f'naming/{name}', naming, name)


class Whole(int):
    """an exact whole number"""
