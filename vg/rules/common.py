"""shared fixtures: representative models, coordinates, configurations, files"""
from fractions import Fraction

import numpy as np

from .. import terms as T
from .. import values as V
from ..api import *       # noqa
from ..harness import *   # noqa
from ..harness import rule, Violation, Undecided, Skip
from ..interp import ExtObj
from ..terms import Node, sym
from ..values import *    # noqa

MU, CU, DU, PU, CH = 'model_utils.', 'coordinate_utils.', 'data_utils.', 'plot_utils.', 'chaos.'
LIB = '/pkg/chaosmagpy/lib/'
LIBFILES = ['RC_index.h5', 'frequency_spectrum_gsm.npz', 'frequency_spectrum_sm.npz', 'Earth_conductivity.dat',
            'ne_110m_coastline.zip']


def cfg(A):
    return A.get('config_utils.basicConfig')


def lib_present(A):
    """the files shipped in the package's lib folder exist"""
    for f in LIBFILES:
        A.put(LIB + f)


def setcfg(A, key, val):
    A.do(lambda: A.I.setitem(cfg(A), key, val))


def cfgval(A, key):
    return cfg(A).data.items[key]


def point(tag=''):
    return sym('r' + tag, 'radius'), sym('th' + tag, 'theta'), sym('ph' + tag, 'phi')


def breaks_syms(n, tag='b'):
    """n increasing break points"""
    b = [sym(tag + '0', 'day')]
    for i in range(1, n):
        b.append(T.add(b[-1], T.scale(sym(f'{tag}gap{i}', 'gap'), 1000)))
    return b


def inside(brk, tag='u'):
    """a time strictly inside the period of the breaks"""
    L = T.sub(brk[-1], brk[0])
    return T.add(brk[0], T.mul(L, T.scale(sym(tag, 'pos'), 0.375)))


def anytime(brk, tag='w'):
    """a time before, in or after the period"""
    L = T.sub(brk[-1], brk[0])
    return T.add(brk[0], T.mul(L, T.add(T.num(0.5), sym(tag, 'real'))))


def before(brk, tag='pre'):
    return T.sub(brk[0], T.scale(sym(tag, 'gap'), 500))


def after(brk, tag='post'):
    return T.add(brk[-1], T.scale(sym(tag, 'gap'), 500))


def dim(n):
    return n * (n + 2)


def basemodel(A, pieces=2, order=3, n=2, source=None, tag='c', brk=None, cls='chaos.BaseModel', **kw):
    """(model, break nodes, coefficient array)"""
    brk = brk or breaks_syms(pieces + 1)
    co = A.syms(tag, (order, pieces, dim(n) if cls != 'chaos.Base' else n))
    if source is not None:
        kw['source'] = source
    m = A.new(cls, 'mod', A.arr(brk), order, co, **kw)
    return m, brk, co


def spectra(A, nf=2, n=2, scaled=True, dipole=None, which=('gsm', 'sm'), shape3=True, path=None):
    """put frequency-spectrum files compatible with the configured dipole"""
    out = {}
    for w in which:
        f = {}
        for s in ('', '_ind'):
            sh = (nf, dim(n), dim(n)) if shape3 else (nf,)
            a = A.syms(f'{w}f{s}', sh, 'nonneg')
            f['frequency' + s] = a
            f['spectrum' + s] = A.syms(f'{w}z{s}', (nf, dim(n), dim(n)), 'complex')
        f['scaled'] = new_arr(objarr0(scaled), B)
        d = dipole if dipole is not None else cfgval(A, 'params.dipole')
        f['dipole'] = A.I.call(A.I.getattr(d, 'copy'), [], {})
        f['step'] = A.arr(T.num(1))
        f['N'] = A.arr(T.num(8))
        f['filter'] = A.arr(T.num(nf))
        f['start_date'] = A.arr(T.num(0))
        p = (path or {}).get(w) or LIB + f'frequency_spectrum_{w}.npz'
        A.put(p, DDict(f))
        out[w] = f
    return out


def objarr0(x):
    e = np.empty((), dtype=object)
    e[()] = x
    return e


def rcfile(A, kind='h5', path=None, nt=3, tag='rc'):
    """an RC-index file; returns (path, time nodes, dict of columns)"""
    ts = breaks_syms(nt, tag + 't')
    cols = {k: A.syms(tag + k, nt) for k in ('RC', 'RC_e', 'RC_i')}
    path = path or (LIB + 'RC_index.h5' if kind == 'h5' else '/data/RC.dat')
    if kind == 'h5':
        A.put(path, DDict({'time': A.arr(ts), **cols, 'flag': new_arr(np.array(['D'] * nt, dtype=object), U)}))
    else:
        rows = []
        for i in range(nt):
            rows.append('  '.join([V.placeholder(ts[i], '')] + [V.placeholder(cols[k].get()[i], '') for k in ('RC', 'RC_e', 'RC_i')]
                                  + ['D']))
        A.put(path, '# RC index\n' + '\n'.join(rows) + '\n')
    return path, ts, cols


def fulllib(A, **kw):
    lib_present(A)
    sp = spectra(A, **kw)
    rc = rcfile(A)
    return sp, rc


CHAOS_DEFAULT = dict(tdep=True, static=True, sm=True, gsm=True, delta=True, euler=True, cal=False, meta=True)


class Chaos:
    """a CHAOS model whose parts are all symbolic"""
    def __init__(self, A, order=3, pieces=2, n=2, nstat=3, brk=None, tag='', **parts):
        syms = lambda name, sh: A.syms(name + tag, sh)      # noqa
        o = {**CHAOS_DEFAULT, **parts}
        self.A, self.order, self.n, self.nstat = A, order, n, nstat
        self.brk = b = brk or breaks_syms(pieces + 1)
        self.parts = d = {}
        if o['tdep']:
            d['coeffs_tdep'] = syms('c', (order, pieces, dim(n)))
        if o['static']:
            d['coeffs_static'] = syms('s', (1, 1, dim(nstat)))
        if o['sm']:
            d['coeffs_sm'] = syms('sm', (8 if o['sm'] is True else dim(o['sm']),))
        if o['gsm']:
            d['coeffs_gsm'] = syms('gsm', (8 if o['gsm'] is True else dim(o['gsm']),))
        if o['delta']:
            bd = o['delta'] if isinstance(o['delta'], dict) else {'q10': b, 'q11': [b[0], b[-1]], 's11': [b[0], b[-1]]}
            d['breaks_delta'] = A.dict({k: A.arr(v) for k, v in bd.items()})
            d['coeffs_delta'] = A.dict({k: syms(k, (1, len(v) - 1)) for k, v in bd.items()})
        if o['euler']:
            d['breaks_euler'] = A.dict({'swarm_a': A.arr([b[0], b[-1]]), 'swarm_b': A.arr(b)})
            d['coeffs_euler'] = A.dict({'swarm_a': syms('ea', (1, 1, 3)), 'swarm_b': syms('eb', (1, pieces, 3))})
        if o['cal']:
            d['breaks_cal'] = A.dict({'cryosat-2_1': A.arr(b)})
            d['coeffs_cal'] = A.dict({'cryosat-2_1': syms('cal', (1, pieces, 9))})
        if o['meta']:
            d['meta'] = A.dict({'params': {'Euler_prerotation': syms('pre', (2, 3))},
                                'satellites': ('swarm_a', 'swarm_b')})
        self.m = A.new('chaos.CHAOS', A.arr(b), order, name='Foo', **d) if parts.get('new', True) else None

    def call(self, name, *args, **kw):
        return self.A.method(self.m, name, *args, **kw)

    def query(self, *args, **kw):
        assume = kw.pop('assume', ())
        watch = kw.pop('watch', None)
        return self.A.run(lambda: self.A.I.call(self.m, list(args), kw), assume=assume, watch=watch)


NP = 'import numpy as np\n'


def spec(A, src, **vars):
    """a specification program, interpreted by the same abstract domain"""
    return A.client(NP + src, **vars)


def val(c, A, f, *args, where=None, what='call', assume=(), **kw):
    """value of a call that has to return"""
    r = A.call(f, *args, assume=assume, **kw)
    if r.ret is None:
        o = r.raises[0]
        raise Violation(f'{what}: always raises {o.exc_name} {o.msg!r:.80}', f'{o.loc}')
    return r.value


def snapof(A, v):
    return A.run(lambda: v).value


def at(snapshot, *idx):
    return snapshot.v[idx]


def reach(v, seen=None, out=None):
    """array buffers reachable from a raw value"""
    seen = set() if seen is None else seen
    out = {} if out is None else out
    if isinstance(v, Choice):
        reach(v.a, seen, out)
        reach(v.b, seen, out)
    elif isinstance(v, Arr):
        out[id(v.buf)] = v
        if v.dt.kind == 'O':
            for e in v.elems():
                reach(e, seen, out)
    elif isinstance(v, tuple):
        for x in v:
            reach(x, seen, out)
    elif isinstance(v, Cell):
        if id(v) in seen:
            return out
        seen.add(id(v))
        if not isinstance(v, Arr):
            out[id(v)] = v
        if isinstance(v, (LList, SSet)):
            for x in v.items:
                reach(x, seen, out)
        elif isinstance(v, DDict):
            for x in v.items.values():
                reach(x, seen, out)
        elif isinstance(v, Inst):
            for x in v.attrs.values():
                reach(x, seen, out)
            if v.data is not None:
                reach(v.data, seen, out)
        elif isinstance(v, ExtObj):
            for x in v.st.values():
                reach(x, seen, out)
    return out


def must(c, A, f, *args, where=None, what='call', **kw):
    """effects and value of a call that has to return for some input"""
    g = A.get(f) if isinstance(f, str) else f
    try:
        return A.do(lambda: A.I.call(g, list(args), dict(kw)))
    except Unexpected as e:
        c.fail(f'{what}: {e}', where or (f if isinstance(f, str) else f))
