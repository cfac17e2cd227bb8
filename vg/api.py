"""Driver interface of the abstract interpreter used by the rules."""
import random

import numpy as np

from . import terms as T
from . import pit
from .interp import Interp, EXC_TYPES
from .terms import Node
from .values import *      # noqa
from . import values as V
from .interp import ExtObj


class SA:
    """snapshot of an array value"""
    __slots__ = ('v', 'dt', 'scalar')

    def __init__(self, v, dt, scalar):
        self.v, self.dt, self.scalar = v, dt, scalar

    @property
    def shape(self):
        return self.v.shape

    def __repr__(self):
        return f'SA{self.v.shape}'


class SI:
    """snapshot of an instance"""
    def __init__(self, cls, attrs, data=None):
        self.cls, self.attrs, self.data = cls, attrs, data

    def __getitem__(self, k):
        return self.attrs[k]

    def __repr__(self):
        return f'SI<{self.cls}>'


class SC:
    """snapshot of a conditional value"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'SC({self.a!r}|{self.b!r})'


class SX:
    """opaque / library object"""
    def __init__(self, name, st=None):
        self.name, self.st = name, st or {}

    def __repr__(self):
        return f'SX<{self.name}>'


def smerge(c, a, b):
    """conditional snapshot, pushed into the elements where both sides have the same layout"""
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(smerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SA) and isinstance(b, SA) and a.v.shape == b.v.shape and isinstance(c, Node):
        h = np.empty(a.v.shape, dtype=object)
        for i in np.ndindex(*h.shape):
            x, y = a.v[i], b.v[i]
            if x is y:
                h[i] = x
            elif isinstance(x, Node) and isinstance(y, Node):
                h[i] = T.ite(c, x, y)
            else:
                return SC(c, a, b)
        return SA(h, a.dt, a.scalar)
    return SC(c, a, b)


def snap(v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Arr):
        try:
            g = v.get()
            if v.dt.kind == 'O':
                h = np.empty(g.shape, dtype=object)
                for i in np.ndindex(*g.shape):
                    h[i] = snap(g[i], memo)
                g = h
            return SA(g, v.dt, v.scalar)
        except Exception as e:
            raise Limit(f'snapshot: {e}')
    if isinstance(v, Choice):
        return smerge(v.c, snap(v.a, memo), snap(v.b, memo))
    if isinstance(v, tuple):
        return tuple(snap(x, memo) for x in v)
    if isinstance(v, Cell):
        if v in memo:
            return memo[v]
        if isinstance(v, LList):
            out = memo[v] = []
            out.extend(snap(x, memo) for x in v.items)
            return out
        if isinstance(v, SSet):
            out = memo[v] = []
            out.extend(snap(x, memo) for x in v.items)
            return out
        if isinstance(v, DDict):
            out = memo[v] = {}
            for k, x in v.items.items():
                out[k] = snap(x, memo)
            return out
        if isinstance(v, Inst):
            out = memo[v] = SI(getattr(v.cls, 'name', str(v.cls)), {})
            for k, x in v.attrs.items():
                out.attrs[k] = snap(x, memo)
            if v.data is not None:
                out.data = snap(v.data, memo)
            return out
        if isinstance(v, ExtObj):
            out = memo[v] = SX(v.tname)
            out.st = {k: snap(x, memo) for k, x in v.st.items()}
            return out
        return SX(type(v).__name__)
    if isinstance(v, (Func, Bound, Class, Module, Builtin, BType, Ext, Opaque)):
        return SX(repr(v))
    if isinstance(v, Exc):
        return SX('exc:' + v.name(), {'args': snap(tuple(v.args), memo)})
    return v


def conc(v, tr):
    """concrete interpretation of a snapshot under a trial"""
    if isinstance(v, SC):
        c = tr.ev(v.c) if isinstance(v.c, Node) else v.c
        return conc(v.a if c else v.b, tr)
    if isinstance(v, SA):
        out = np.empty(v.v.shape, dtype=object)
        for i in np.ndindex(*v.v.shape):
            out[i] = conc(v.v[i], tr)
        if v.v.shape == ():
            return out[()]
        return out
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = conc(v[i], tr)
        return out if v.shape else out[()]
    if isinstance(v, Node):
        return tr.ev(v)
    if isinstance(v, Choice):
        c = tr.ev(v.c) if isinstance(v.c, Node) else v.c
        return conc(v.a if c else v.b, tr)
    if isinstance(v, tuple):
        return tuple(conc(x, tr) for x in v)
    if isinstance(v, list):
        return [conc(x, tr) for x in v]
    if isinstance(v, dict):
        return {k: conc(x, tr) for k, x in v.items()}
    if isinstance(v, SI):
        return SI(v.cls, conc(v.attrs, tr), conc(v.data, tr) if v.data is not None else None)
    if isinstance(v, str) and has_ph(v):
        return ''.join(x if isinstance(x, str) else repr((tr.ev(x[0]), x[1])) for x in _phsplit(v))
    return v


def _phsplit(s):
    return ph_split(s)


def same(a, b, tol=1e-7):
    """equality of concrete structures; returns None or a path description"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            sa = getattr(a, 'shape', ())
            sb = getattr(b, 'shape', ())
            if sa == () and sb == ():
                pass
            return f'shape {sa} vs {sb}'
        if a.shape != b.shape:
            return f'shape {a.shape} vs {b.shape}'
        for i in np.ndindex(*a.shape):
            r = same(a[i], b[i], tol)
            if r:
                return f'[{", ".join(map(str, i))}] {r}'
        return None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return f'{type(a).__name__} of {len(a)} vs {type(b).__name__} of {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol)
            if r:
                return f'[{i}]{r}'
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f'extra key {k!r}'
        for k in b:
            if k not in a:
                return f'missing key {k!r}'
            r = same(a[k], b[k], tol)
            if r:
                return f'[{k!r}]{r}'
        return None
    if isinstance(a, SI) and isinstance(b, SI):
        if a.cls != b.cls:
            return f'{a.cls} vs {b.cls}'
        return same(a.attrs, b.attrs, tol) or (same(a.data, b.data, tol) if a.data is not None else None)
    if isinstance(a, SX) and isinstance(b, SX):
        return None if a.name == b.name else f'{a.name} vs {b.name}'
    num = (int, float, complex, bool)
    if isinstance(a, num) and isinstance(b, num):
        return None if pit.close(a, b, tol) else f' {a!r} vs {b!r}'
    if type(a) is type(b):
        try:
            return None if a == b else f' {a!r} vs {b!r}'
        except Exception:
            return None if a is b else f' {a!r} vs {b!r}'
    return f' {type(a).__name__} {a!r:.60} vs {type(b).__name__} {b!r:.60}'


def identical(a, b):
    """same normal form?"""
    if a is b:
        return True
    if isinstance(a, SA) and isinstance(b, SA):
        return a.v.shape == b.v.shape and all(identical(x, y) for x, y in zip(a.v.ravel(), b.v.ravel()))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        xa = a.v if isinstance(a, SA) else a
        xb = b.v if isinstance(b, SA) else b
        if not (isinstance(xa, np.ndarray) and isinstance(xb, np.ndarray)):
            return False
        return xa.shape == xb.shape and all(identical(x, y) for x, y in zip(xa.ravel(), xb.ravel()))
    if isinstance(a, SA) and a.v.shape == () and not isinstance(b, SA):
        return identical(a.v[()], b)
    if isinstance(b, SA) and b.v.shape == () and not isinstance(a, SA):
        return identical(a, b.v[()])
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, Node) and T.is_const(b) or \
                isinstance(b, (int, float)) and isinstance(a, Node) and T.is_const(a):
            return T.num(a) is T.num(b) if not isinstance(a, Node) and not isinstance(b, Node) else \
                _n(a) is _n(b)
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, SI):
        return a.cls == b.cls and identical(a.attrs, b.attrs) and identical(a.data, b.data)
    if isinstance(a, SC):
        return a.c is b.c and identical(a.a, b.a) and identical(a.b, b.b)
    if isinstance(a, SX):
        return a.name == b.name
    if isinstance(a, Node):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def _n(x):
    return x if isinstance(x, Node) else T.num(x)


class Out:
    """one outcome of an analysed call"""
    def __init__(self, kind, cond, value, exc, loc, watch, delta):
        self.kind, self.cond, self.value, self.exc = kind, cond, value, exc
        self.loc, self.watch, self.delta = loc, watch, delta

    @property
    def exc_name(self):
        return self.exc.name() if self.exc is not None else None

    def isa(self, cls):
        c = self.exc.cls if self.exc is not None else None
        while c is not None and not isinstance(c, type):
            bs = [b for b in c.mro() if isinstance(b, type)]
            c = bs[0] if bs else Exception
        return c is not None and issubclass(c, cls)

    @property
    def msg(self):
        a = self.exc.args if self.exc is not None else ()
        return a[0] if a and isinstance(a[0], str) else ''

    def __repr__(self):
        if self.kind == 'raise':
            return f'<raise {self.exc_name} {self.exc.args!r:.120} at {self.loc}>'
        return f'<return {self.value!r:.200}>'


class Res:
    def __init__(self, outs, events, handles):
        self.outs, self.events, self.handles = outs, events, handles

    @property
    def ret(self):
        r = [o for o in self.outs if o.kind == 'return']
        return r[0] if r else None

    @property
    def raw(self):
        return self.ret.raw

    @property
    def value(self):
        r = self.ret
        if r is None:
            return None
        return r.value

    @property
    def raises(self):
        return [o for o in self.outs if o.kind == 'raise']

    def raise_cond(self, cls=Exception):
        return T.bor(*[o.cond for o in self.raises if o.isa(cls)]) if any(
            o.isa(cls) for o in self.raises) else False

    def evs(self, *kinds):
        return [e for e in self.events if e['kind'] in kinds]

    def warns(self):
        return [e for e in self.events if e['kind'] == 'warn']

    def __repr__(self):
        return f'Res{self.outs!r}'


class An:
    """an analysis session: the package's modules in the abstract heap"""
    def __init__(self, root='/repo', absent=(), load=True, max_steps=3000000, configured=None):
        self.I = Interp(root)
        self.I.absent_modules = set(absent)
        self.I.max_steps = max_steps
        self.root = root
        if configured:
            # these values are in force while the other modules are imported
            self.I.after_import['chaosmagpy.config_utils'] = lambda m: [
                self.I.setitem(m.env.vars['basicConfig'], k, v) for k, v in configured(self).items()]
        if load:
            self.load('chaosmagpy')

    def push(self):
        """open a scope whose heap effects pop() takes back"""
        I = self.I
        from .interp import Region
        self._saved = (dict(I.overrides), dict(I.ext_hooks), set(I.absent_modules), len(I.handles), len(I.frames),
                       len(I.pc), len(I.events), len(I.regions))
        I.regions.append(Region(len(I.pc)))

    def pop(self):
        I = self.I
        ov, eh, ab, nh, nf, npc, ne, nr = self._saved
        while len(I.regions) > nr:
            r = I.regions.pop()
            for o, old in r.journal.items():
                o.restore(old)
        I.overrides, I.ext_hooks, I.absent_modules = ov, eh, ab
        del I.handles[nh:], I.frames[nf:], I.pc[npc:], I.events[ne:]

    def put(self, path, content='x'):
        self.I.touch(self.I.fs)
        self.I.fs.items[path] = content

    def load(self, name):
        try:
            return self.I.module(name)
        except Dead:
            o = [o for o in self.I.regions[-1].outcomes if o.kind == 'raise']
            raise ImportFailed(name, o[-1] if o else None)

    # --------------------------------------------------------- values
    def get(self, dotted):
        """value of e.g. 'model_utils.synth_values' or 'chaos.CHAOS'"""
        parts = dotted.split('.')
        m = self.I.module('chaosmagpy.' + parts[0]) if parts[0] else self.I.module('chaosmagpy')
        if m is None:
            raise Missing(dotted)
        v = m
        for p in parts[1:]:
            if isinstance(v, Module):
                if p not in v.env.vars:
                    raise Missing(dotted)
                v = v.env.vars[p]
            elif isinstance(v, Class):
                for k in v.mro():
                    if isinstance(k, Class) and p in k.ns:
                        v = k.ns[p]
                        break
                else:
                    raise Missing(dotted)
            else:
                raise Missing(dotted)
        return v

    def has(self, dotted):
        try:
            self.get(dotted)
            return True
        except Missing:
            return False

    def arr(self, elems, dt=None, origin=None):
        """array from nested lists of nodes / numbers"""
        e = np.empty(np.shape(np.array(elems, dtype=object)), dtype=object)
        src = np.array(elems, dtype=object)
        for i in np.ndindex(*e.shape):
            x = src[i]
            e[i] = x if isinstance(x, (Node, str)) or x is None else (x if isinstance(x, bool) else T.num(x))
        if dt is None:
            cx = any(isinstance(x, Node) and T.has_complex(x) for x in e.ravel())
            dt = C if cx else F
        return new_arr(e, dt, origin=origin)

    def syms(self, prefix, shape, kind='real', pool=None):
        if isinstance(shape, int):
            shape = (shape,)
        e = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            e[i] = T.sym(prefix + '_' + '_'.join(map(str, i)), kind, pool)
        return new_arr(e, C if kind == 'complex' else INT if kind == 'int' else F)

    def dict(self, d, origin=None):
        return DDict({k: self.lift(v) for k, v in d.items()}, origin=origin)

    def lift(self, v):
        if isinstance(v, dict):
            return self.dict(v)
        if isinstance(v, list):
            return LList([self.lift(x) for x in v])
        return v

    # --------------------------------------------------------- running
    def run(self, fn, watch=None, assume=()):
        """interpret fn() in a sandboxed region -> Res (heap is left unchanged)"""
        I = self.I
        e0, h0 = len(I.events), len(I.handles)
        I.steps = 0
        rr = I.run_region(fn, assume)
        outs = []
        watch = watch or {}

        def at(delta, f):
            def body():
                I.commit(delta)
                return f()
            return I.run_region(body).v

        for o in rr.outcomes:
            if o.kind != 'raise':
                continue
            w = at(o.delta, lambda: {k: snap(c) for k, c in watch.items()})
            cond = T.band(*o.pc) if o.pc else True
            outs.append(Out('raise', cond, None, o.value, getattr(o.value, 'loc', None) or o.loc, w, o.delta))
        if rr.normal:
            def both():
                memo = {}
                return snap(rr.v, memo), {k: snap(c, memo) for k, c in watch.items()}
            val, w = at(rr.delta, both)
            pcs = list(rr.extra) + [a for a in assume if a is not True]
            cond = T.band(*pcs) if pcs else True
            outs.append(Out('return', cond, val, None, None, w, rr.delta))
            outs[-1].raw = rr.v
        hs = I.handles[h0:]
        res = Res(outs, I.events[e0:], hs)
        for o in outs:
            o.open_handles = at(o.delta, lambda: [(h, snap(h.st.get('closed'))) for h in hs])
            o.fs = at(o.delta, lambda: snap(I.fs))
        return res

    def call(self, f, *args, watch=None, assume=(), **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.run(lambda: self.I.call(f, list(args), dict(kw)), watch=watch, assume=assume)

    def method(self, obj, name, *args, watch=None, assume=(), **kw):
        return self.run(lambda: self.I.call(self.I.getattr(obj, name), list(args), dict(kw)),
                        watch=watch, assume=assume)

    def do(self, fn):
        """interpret fn() and commit its effects; must return normally"""
        I = self.I
        I.steps = 0
        rr = I.run_region(fn)
        if not rr.normal:
            raise Unexpected('no normal return', [o for o in rr.outcomes])
        I.commit(rr.delta)
        return rr.v

    def new(self, dotted, *args, **kw):
        f = self.get(dotted) if isinstance(dotted, str) else dotted
        return self.do(lambda: self.I.call(f, list(args), dict(kw)))

    def getattr(self, o, name):
        return self.do(lambda: self.I.getattr(o, name))


class ImportFailed(Exception):
    def __init__(self, name, out):
        self.name, self.out = name, out
        super().__init__(f'{name}: {out.value if out else None} at {out.loc if out else None}')


class Missing(Exception):
    pass


class Unexpected(Exception):
    def __init__(self, what, outs):
        self.outs = outs
        super().__init__(what + ': ' + '; '.join(f'{o.value!r} at {o.loc}' for o in outs[:3]))


def trials(n, seed='vg', **kw):
    return [pit.Trial(f'{seed}{i}', **kw) for i in range(n)]


def ccond(c, tr):
    return bool(tr.ev(c)) if isinstance(c, Node) else bool(c)


def _client(self, src, **vars):
    """define client functions (abstract user programs); returns their environment"""
    m = self.I.client(src, **{'cp': self.I.module('chaosmagpy'), **vars})
    return m.env.vars


An.client = _client
