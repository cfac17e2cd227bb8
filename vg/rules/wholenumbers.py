"""the element type of numeric inputs does not matter: whole numbers stored as integers give what the same numbers give as floats"""
from .catalog import *
from .catalog import Fix, entries
from .purity import add_all


def toint(v):
    """the same numbers, stored as integers"""
    if isinstance(v, Arr):
        return Arr(Buf(list(v.buf.data)), v.idx, INT, v.scalar) if v.dt.kind == 'f' else v
    if isinstance(v, Node) and not T.has_complex(v):
        return Arr(Buf([v]), np.zeros((), dtype=int), INT, True)
    if isinstance(v, tuple):
        return tuple(toint(x) for x in v)
    if isinstance(v, LList):
        return LList([toint(x) for x in v.items])
    return v


class Ints:
    """analysis session whose arrays are integer arrays"""
    def __init__(self, A):
        self.A = A

    def __getattr__(self, n):
        return getattr(self.A, n)

    def arr(self, elems, dt=None, origin=None):
        a = self.A.arr(elems, dt, origin)
        return a if dt is not None else toint(a)

    def syms(self, *a, **k):
        return toint(self.A.syms(*a, **k))


class IntFix(Fix):
    def __init__(self, F):
        self.__dict__.update(F.__dict__)
        self.A = A = Ints(F.A)
        self.base, _, self.base_co = basemodel(A, order=3, n=2, brk=self.brk)
        self.one, _, _ = basemodel(A, order=1, n=1, tag='o', brk=self.brk)
        self.ext, _, _ = basemodel(A, order=2, n=2, tag='x', brk=self.brk, source='external')
        self.C = Chaos(A, order=2, n=1, nstat=2, brk=self.brk)
        self.empty = A.new('chaos.BaseModel', 'none', A.arr(self.brk), 2)

    def vary(self, mk):
        return toint(super().vary(mk))

    def given(self, v):
        return toint(v)


_BOTH = {}


def both(c, label):
    """a catalogue entry on floating-point and on integer inputs"""
    key = id(c.check)
    if _BOTH.get('key') != key:
        A = An(ROOT)
        c.check.analysers.append(A)
        F = Fix(A)
        _BOTH.update(key=key, A=A, E=entries(F), E2=entries(IntFix(F)))
    A = c.A = _BOTH['A']
    A.push()
    c.mine.append(A)
    return A, _BOTH['E'][label], _BOTH['E2'][label]


def plain(s):
    """text without its comment lines (they may show the time of writing)"""
    return '\n'.join(x for x in s.split('\n') if not x.strip().startswith('#')) if isinstance(s, str) else s


@rule('C96', 'Whole numbers give the same results as floating-point numbers',
      'element-type propagation: every public call is interpreted on floating-point and on integer arrays with the same values')
def c96(ck):
    def same_as_float(c, label):
        A, e, e2 = both(c, label)
        first = A.run(e.thunk)
        r = A.run(e2.thunk)
        if first.ret is None:
            c.ok(r.ret is None, e.where, 'raises for floating-point numbers but returns for whole numbers')
            return
        if r.ret is None:
            c.fail(f'returns for floating-point numbers but raises {r.raises[0].exc_name} ({r.raises[0].msg!s:.60}) for the same whole '
                   f'numbers stored as integers', r.raises[0].loc or e.where)
        c.cond_equal(r.raise_cond(), first.raise_cond(), e.where, 'raising for whole numbers stored as integers')
        if isinstance(first.value, SI):
            a, b = dict(r.value.attrs), dict(first.value.attrs)
            a.pop('timestamp', None), b.pop('timestamp', None)
            c.equal(a, b, e.where, 'result for whole numbers stored as integers')
        elif not e.clock or e.where.startswith('chaos.CHAOS.__call__'):
            c.equal(r.value, first.value, e.where, 'result for whole numbers stored as integers')
        for p in e.writes:
            c.equal(plain(r.ret.fs.get(p)), plain(first.ret.fs.get(p)), e.where, f'content of {p} for whole numbers stored as integers')
        if e.plot:
            drawn = lambda r: [(x['path'], x['s']) for x in r.evs('opaque_call') if x['path'].split('.')[-1] in ('pcolormesh', 'plot')]  # noqa
            c.equal(tuple(drawn(r)), tuple(drawn(first)), e.where, 'what is drawn for whole numbers stored as integers')
    # the printed summary shows the time of creation
    add_all(ck, same_as_float, lambda e: not e.raises and not e.where.endswith('__str__'))
