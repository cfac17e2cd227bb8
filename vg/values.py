"""Abstract values and heap cells."""
import numpy as np
from . import terms as T
from .terms import Node


class Limit(Exception):
    """construct outside the analysed fragment -> obligation undecided"""


class Dead(Exception):
    """no normal continuation"""


class Cell:
    """journaled mutable object"""
    def content(self):
        raise NotImplementedError

    def restore(self, c):
        raise NotImplementedError


class Env(Cell):
    def __init__(self, parent=None, vars=None):
        self.parent = parent
        self.vars = vars if vars is not None else {}
        self.globals = set()
        self.nonlocals = set()

    def content(self):
        return dict(self.vars)

    def restore(self, c):
        self.vars = dict(c)


class LList(Cell):
    def __init__(self, items=(), origin=None):
        self.items = list(items)
        self.origin = origin

    def content(self):
        return list(self.items)

    def restore(self, c):
        self.items = list(c)

    def __repr__(self):
        return f'LList{self.items!r}'


class Iter(LList):
    """iterator: its items are consumed"""


class Inf(Cell):
    """unbounded iterator"""
    def __init__(self, at):
        self.at = at
        self.pos = 0

    def content(self):
        return [self.pos]

    def restore(self, c):
        self.pos = c[0]


class SSet(Cell):
    def __init__(self, items=()):
        self.items = []
        for i in items:
            if i not in self.items:
                self.items.append(i)

    def content(self):
        return list(self.items)

    def restore(self, c):
        self.items = list(c)


class DDict(Cell):
    def __init__(self, items=None, origin=None):
        self.items = dict(items or {})
        self.origin = origin

    def content(self):
        return dict(self.items)

    def restore(self, c):
        self.items = dict(c)

    def __repr__(self):
        return f'DDict{self.items!r}'


class Inst(Cell):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs or {}
        self.data = None         # DDict for dict subclasses

    def content(self):
        return dict(self.attrs)

    def restore(self, c):
        self.attrs = dict(c)

    def __repr__(self):
        return f'<{getattr(self.cls, "name", self.cls)} instance>'


class Buf(Cell):
    __slots__ = ('data', 'origin')

    def __init__(self, data, origin=None):
        self.data = data
        self.origin = origin

    def content(self):
        return list(self.data)

    def restore(self, c):
        self.data = list(c)


class InstDict(DDict):
    """the attribute dictionary of an instance"""
    def __init__(self, inst):
        self.cell = inst
        self.origin = None

    @property
    def items(self):
        return self.cell.attrs

    @items.setter
    def items(self, v):
        self.cell.attrs = v


class _Part:
    """real or imaginary parts of the elements of a buffer, written through"""
    def __init__(self, buf, which):
        self.buf, self.which = buf, which

    def __len__(self):
        return len(self.buf.data)

    def __getitem__(self, i):
        v = self.buf.data[i]
        return [self.one(x) for x in v] if isinstance(i, slice) else self.one(v)

    def one(self, x):
        return T.fn(self.which, x if isinstance(x, Node) else T.num(x))

    def __setitem__(self, i, v):
        x = self.buf.data[i]
        x = x if isinstance(x, Node) else T.num(x)
        if self.which == 'real':
            self.buf.data[i] = T.add(v, T.mul(T.I, T.fn('imag', x)))
        else:
            self.buf.data[i] = T.add(T.fn('real', x), T.mul(T.I, v))

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])


class PartBuf(Buf):
    __slots__ = ('cell',)

    def __init__(self, buf, which):
        self.data = _Part(buf, which)
        self.origin = buf.origin
        self.cell = buf


class DT:
    """dtype: kind in f i b c O U M m V"""
    def __init__(self, kind, unit=None, names=None):
        self.kind, self.unit, self.names = kind, unit, names

    def __eq__(self, o):
        return isinstance(o, DT) and (self.kind, self.unit) == (o.kind, o.unit)

    def __hash__(self):
        return hash((self.kind, self.unit))

    def __repr__(self):
        return f'DT({self.kind}{self.unit or ""})'


F, INT, B, C, O, U = DT('f'), DT('i'), DT('b'), DT('c'), DT('O'), DT('U')
I4 = DT('i', 'i4')      # integers of another width than the default
F4 = DT('f', 'f4')      # single or half precision: values that are not exact in it are changed


class Arr:
    """numpy array: a view (idx) of a flat buffer"""
    __slots__ = ('buf', 'idx', 'dt', 'scalar')

    def __init__(self, buf, idx, dt, scalar=False):
        self.buf, self.idx, self.dt, self.scalar = buf, idx, dt, scalar

    @property
    def shape(self):
        return self.idx.shape

    @property
    def size(self):
        return self.idx.size

    @property
    def ndim(self):
        return self.idx.ndim

    def get(self):
        """object ndarray of the elements"""
        out = np.empty(self.idx.shape, dtype=object)
        data = self.buf.data
        flat = out.reshape(-1) if out.flags.c_contiguous else out.ravel()
        for k, i in enumerate(self.idx.ravel()):
            flat[k] = data[i]
        return flat.reshape(self.idx.shape)

    def elems(self):
        data = self.buf.data
        return [data[i] for i in self.idx.ravel()]

    def item(self):
        return self.buf.data[int(self.idx.ravel()[0])]

    def __repr__(self):
        return f'Arr{self.shape}{[T.show(e, 3) if isinstance(e, Node) else e for e in self.elems()[:6]]}'


def new_arr(objs, dt, scalar=False, origin=None):
    """fresh array from object ndarray"""
    objs = np.asarray(objs, dtype=object) if not isinstance(objs, np.ndarray) else objs
    flat = list(objs.ravel()) if objs.ndim else [objs.item()]
    idx = np.arange(len(flat)).reshape(objs.shape)
    return Arr(Buf(flat, origin), idx, dt, scalar)


def objarr(shape, elems):
    out = np.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        out[i] = e
    return out.reshape(shape)


class Masked:
    """arr[symbolic mask]: compressed selection kept at full shape"""
    def __init__(self, full, mask, nz=None):
        self.full, self.mask = full, mask
        self.nz = nz        # (axis, number of axes) of positions found by nonzero


class Func:
    def __init__(self, node, env, module, name, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.module = node, env, module
        self.name, self.qual = name, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.is_gen = False
        self.ctxmgr = False
        self.memo = None
        self.attrs = {}

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Class:
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def __repr__(self):
        return f'<class {self.qual}>'


class Static:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CProp(Prop):
    """functools.cached_property"""


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Module:
    def __init__(self, name, path, env, tree):
        self.name, self.path, self.env, self.tree = name, path, env, tree

    def __repr__(self):
        return f'<module {self.name}>'


class Ext:
    """external (library) object by dotted path"""
    _cache = {}

    def __new__(cls, path):
        o = cls._cache.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._cache[path] = o
        return o

    def __repr__(self):
        return f'<ext {self.path}>'


class Opaque:
    """result of an unmodelled library call"""
    def __init__(self, path, node=None):
        self.path = path
        self.node = node

    def __repr__(self):
        return f'<opaque {self.path}>'


class NTuple(tuple):
    """named tuple"""
    spec = None

    def like(self, items):
        r = NTuple(items)
        r.spec = self.spec
        return r


class BType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<type {self.name}>'


class Builtin:
    def __init__(self, name, f, self_=None):
        self.name, self.f = name, f
        self.self_ = self_

    def __repr__(self):
        return f'<builtin {self.name}>'


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'Choice({T.show(self.c, 3)}, {self.a!r}, {self.b!r})'


class _Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = _Undef()


class Exc:
    """exception value; cls is a python exception class or repo Class"""
    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args = cls, tuple(args)
        self.attrs = attrs or {}
        self.loc = None

    def name(self):
        return getattr(self.cls, '__name__', None) or self.cls.name

    def __repr__(self):
        return f'{self.name()}{self.args!r}'


class Outcome:
    __slots__ = ('kind', 'value', 'pc', 'delta', 'loc')

    def __init__(self, kind, value, pc, delta, loc):
        self.kind, self.value, self.pc, self.delta, self.loc = kind, value, pc, delta, loc


# ----------------------------------------------- placeholders in strings
PH = {}
_ph = [0]
L, R = '\ue000', '\ue001'


def placeholder(node, spec):
    for k, v in PH.items():
        if v[0] is node and v[1] == spec:
            return f'{L}{k}{R}'
    _ph[0] += 1
    PH[str(_ph[0])] = (node, spec)
    return f'{L}{_ph[0]}{R}'


def ph_split(s):
    """-> list of str | (node, spec)"""
    out = []
    i = 0
    while True:
        j = s.find(L, i)
        if j < 0:
            if s[i:]:
                out.append(s[i:])
            return out
        if s[i:j]:
            out.append(s[i:j])
        k = s.index(R, j)
        out.append(PH[s[j + 1:k]])
        i = k + 1


def has_ph(s):
    return L in s
