"""Library models: scipy.interpolate, files, h5py, hdf5storage, pandas, os, warnings, ..."""
import datetime
import functools
import math
import os
import re
import textwrap
from fractions import Fraction

import numpy as np

from . import terms as T
from . import npmodel as N
from . import extmodel as E
from .extmodel import TABLE, CONSTS, BUILTINS, ext, bi
from .interp import ExtObj
from .terms import Node
from .values import *      # noqa
from . import values as V


class Obj(ExtObj):
    """base for modelled library objects: methods are m_<name>, properties p_<name>"""
    def __init__(self, **st):
        self.st = st

    def set(self, I, **kw):
        I.touch(self)
        self.st = {**self.st, **kw}

    def get(self, I, k):
        return I.resolve(self.st.get(k))

    def getattr(self, I, name):
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            return Builtin(f'{self.tname}.{name}', f)
        f = getattr(self, 'p_' + name, None)
        if f is not None:
            return f(I)
        if name in self.st and not name.startswith('_'):
            return self.get(I, name)
        if name == '__enter__':
            return Builtin(name, lambda I, a, k: self.enter(I))
        if name == '__exit__':
            return Builtin(name, lambda I, a, k: self.exit(I))
        raise Limit(f'{self.tname}.{name}')

    def setattr(self, I, name, v):
        self.set(I, **{name: v})

    def enter(self, I):
        return self

    def exit(self, I):
        pass

    def getitem(self, I, k):
        raise Limit(f'{self.tname}[]')

    def setitem(self, I, k, v):
        raise Limit(f'{self.tname}[]=')


class Handle(Obj):
    """anything with an open/closed typestate"""
    def __init__(self, I, path, mode, via, **st):
        super().__init__(path=path, mode=mode, closed='unopened', **st)
        self.set(I, closed=False)
        self.via = via
        self.where = I.loc()
        I.handles.append(self)
        I.event('open', path=path, mode=mode, via=via, handle=self)

    def check(self, I):
        c = self.get(I, 'closed')
        I.throw_if(c if isinstance(c, bool) else I.truth(c), ValueError, 'I/O operation on closed file')

    def m_close(self, I, a, k):
        self.set(I, closed=True)

    def exit(self, I):
        self.set(I, closed=True)

    def m___exit__(self, I, a, k):
        self.set(I, closed=True)


def concat(I, old, s):
    if isinstance(old, Choice):
        return Choice(old.c, concat(I, old.a, s), concat(I, old.b, s))
    if not isinstance(old, str):
        raise Limit('append to non-text file')
    return old + s


def notstr(I, s):
    if isinstance(s, (Opaque, Node, ExtObj)):
        raise Limit(f'write of {s!r}')
    I.throw(TypeError, 'write() argument must be str')


class TextFile(Handle):
    tname = 'io.TextIOWrapper'

    def p_name(self, I):
        return self.get(I, 'path')

    def m_write(self, I, a, k):
        self.check(I)
        if self.st['mode'][0] == 'r':
            I.throw(OSError, 'not writable')
        s = I.resolve(a[0])
        if isinstance(s, Choice):
            s = s
        elif not isinstance(s, str):
            notstr(I, s)
        p = self.st['path']
        old = I.fs.items.get(p, '')
        I.touch(I.fs)
        if isinstance(s, Choice):
            I.fs.items[p] = Choice(s.c, concat(I, old, s.a), concat(I, old, s.b))
        else:
            I.fs.items[p] = concat(I, old, s)
        return 0

    def m_writelines(self, I, a, k):
        for s in I.iterate(a[0]):
            self.m_write(I, [s], {})

    def _text(self, I):
        self.check(I)
        v = I.resolve(I.fs.items.get(self.st['path'], ''))
        if isinstance(v, Choice):
            raise Limit('conditional file content')
        if not isinstance(v, str):
            raise Limit('binary content')
        return v[self.st.get('pos', 0):]

    def m_read(self, I, a, k):
        s = self._text(I)
        self.set(I, pos=10**9)
        return s

    def lines(self, I):
        s = self._text(I)
        self.set(I, pos=10**9)
        return s.splitlines(keepends=True)

    def m_readlines(self, I, a, k):
        return LList(self.lines(I))

    def m_readline(self, I, a, k):
        s = self._text(I)
        ls = s.splitlines(keepends=True)
        if not ls:
            return ''
        self.set(I, pos=self.st.get('pos', 0) + len(ls[0]))
        return ls[0]

    def iter(self, I):
        return self.lines(I)

    def next(self, I, *d):
        s = self.m_readline(I, [], {})
        if s == '':
            if d:
                return d[0]
            I.throw(StopIteration)
        return s

    def m_flush(self, I, a, k):
        pass

    def m_seek(self, I, a, k):
        self.set(I, pos=N.toint(I, a[0]))

    def m_fileno(self, I, a, k):
        return 3


class StringIO(Obj):
    """text buffer in memory; writing happens at the end"""
    tname = 'io.StringIO'

    def check(self, I):
        c = self.get(I, 'closed')
        I.throw_if(c if isinstance(c, bool) else I.truth(c), ValueError, 'I/O operation on closed file')

    def put(self, I, s):
        t = self.get(I, 'text')
        if self.st['pos'] is not None and not (isinstance(t, str) and self.st['pos'] >= len(t)):
            raise Limit('StringIO: write in the middle')
        if isinstance(s, Choice):
            t = Choice(s.c, concat(I, t, s.a), concat(I, t, s.b))
        else:
            t = concat(I, t, s)
        self.set(I, text=t, pos=None)

    def m_write(self, I, a, k):
        self.check(I)
        s = I.resolve(a[0])
        if not isinstance(s, (str, Choice)):
            notstr(I, s)
        self.put(I, s)
        return len(s) if isinstance(s, str) else 0

    m_writelines = TextFile.m_writelines
    m_readlines = TextFile.m_readlines
    m_read = TextFile.m_read
    next = TextFile.next
    iter = TextFile.iter

    def _text(self, I):
        self.check(I)
        v = self.get(I, 'text')
        if isinstance(v, Choice):
            raise Limit('conditional text')
        return v if self.st['pos'] == 0 else '' if self.st['pos'] is None else v[self.st['pos']:]

    lines = TextFile.lines

    def m_readline(self, I, a, k):
        s = self._text(I)
        ls = s.splitlines(keepends=True)
        if not ls:
            return ''
        self.set(I, pos=(self.st['pos'] or 0) + len(ls[0]))
        return ls[0]

    def m_getvalue(self, I, a, k):
        self.check(I)
        return self.get(I, 'text')

    def m_seek(self, I, a, k):
        n, wh = N.toint(I, a[0]), N.toint(I, a[1]) if len(a) > 1 else 0
        if wh not in (0, 2) or wh == 2 and n:
            raise Limit('seek')
        self.set(I, pos=None if wh == 2 else n)
        return n

    def m_flush(self, I, a, k):
        pass

    def m_close(self, I, a, k):
        self.set(I, closed=True)

    def exit(self, I):
        self.set(I, closed=True)


@ext('io.StringIO')
def stringio(I, a, k):
    t = I.resolve(a[0] if a else k.get('initial_value', ''))
    return StringIO(text='' if t is None else t, pos=0, closed=False)


def path_of(I, p):
    p = I.resolve(p)
    if isinstance(p, Obj) and p.tname == 'pathlib.Path':
        p = p.st['p']
    if p is None:
        I.throw(TypeError, 'expected str, bytes or os.PathLike object, not NoneType')
    if not isinstance(p, str):
        raise Limit(f'path {p!r}')
    return p


def exists(I, p):
    return p in I.fs.items or p.startswith('/pkg/')


@bi('open')
def _open(I, a, k):
    p = path_of(I, a[0] if a else k['file'])
    mode = I.resolve(a[1] if len(a) > 1 else k.get('mode', 'r'))
    if mode[0] == 'r' and p not in I.fs.items:
        I.event('open', path=p, mode=mode, via='open', handle=None)
        I.throw(FileNotFoundError, p)
    if 'x' in mode and p in I.fs.items:
        I.throw(FileExistsError, p)
    h = TextFile(I, p, mode, 'open', pos=0)
    if mode[0] in 'wx':
        I.touch(I.fs)
        I.fs.items[p] = ''
    elif mode[0] == 'a' and p not in I.fs.items:
        I.touch(I.fs)
        I.fs.items[p] = ''
    return h


TABLE['io.open'] = _open
TABLE['codecs.open'] = _open


# ------------------------------------------------------------------ json
def to_json(I, v, default):
    v = I.resolve(v)
    d = I.dict_of(v)
    if d is not None:
        return ('d', tuple((kk, to_json(I, x, default)) for kk, x in I.dict_items(v)))
    if isinstance(v, (LList, tuple)):
        return ('l', tuple(to_json(I, x, default) for x in I.iterate(v)))
    if isinstance(v, (str, int, float, Node)) or v is None:
        return ('v', v)
    if isinstance(v, Arr) and v.scalar and v.dt.kind == 'f':
        return ('v', v.item())
    if default is None:
        I.throw(TypeError, 'Object is not JSON serializable')
    return to_json(I, I.call(default, [v], {}), default)


def from_json(x):
    t, v = x
    if t == 'd':
        return DDict({k: from_json(y) for k, y in v})
    if t == 'l':
        return LList([from_json(y) for y in v])
    return v


@ext('json.dumps')
def dumps(I, a, k):
    return V.placeholder(to_json(I, a[0], k.get('default')), 'json')


@ext('json.dump')
def dump(I, a, k):
    s = dumps(I, a[:1], k)
    I.call(I.getattr(a[1], 'write'), [s], {})


@ext('json.loads')
def loads(I, a, k):
    s = I.resolve(a[0])
    parts = [p for p in V.ph_split(s) if not (isinstance(p, str) and not p.strip())]
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][1] == 'json':
        return from_json(parts[0][0])
    if len(parts) == 1 and isinstance(parts[0], str):
        import json as _json
        try:
            v = _json.loads(parts[0])
        except ValueError:
            I.throw(ValueError, 'Expecting value')

        def conv(x):
            if isinstance(x, dict):
                return DDict({k_: conv(y) for k_, y in x.items()})
            if isinstance(x, list):
                return LList([conv(y) for y in x])
            return x
        return conv(v)
    raise Limit('json text')


@ext('json.load')
def load(I, a, k):
    return loads(I, [I.call(I.getattr(a[0], 'read'), [], {})], {})


# ------------------------------------------------------------------ warnings
class Catch(Obj):
    tname = 'warnings.catch_warnings'

    def enter(self, I):
        self.saved = I.wstate.get(I, 'off')
        return LList()

    def exit(self, I):
        I.wstate.set(I, off=self.saved)


@ext('warnings.catch_warnings')
def catch_warnings(I, a, k):
    return Catch(record=bool(k.get('record', False)))


@ext('warnings.simplefilter', 'warnings.filterwarnings')
def simplefilter(I, a, k):
    act = I.resolve(a[0] if a else k.get('action'))
    I.event('global_state', what='warnings filter')
    I.wstate.set(I, off=(act == 'ignore'))


@ext('warnings.resetwarnings')
def resetwarnings(I, a, k):
    I.wstate.set(I, off=False)


@ext('warnings.warn')
def warn(I, a, k):
    msg = a[0] if a else k.get('message')
    if not (isinstance(I.resolve(msg), (str, Exc))):
        I.throw(TypeError, 'warning message')
    I.event('warn', msg=msg, off=I.wstate.get(I, 'off'))


# ------------------------------------------------------------------ os, text, misc
@ext('os.path.exists', 'os.path.isfile', 'os.path.lexists')
def path_exists(I, a, k):
    p = I.resolve(a[0])
    if isinstance(p, (int, float)) or p is None or isinstance(p, (LList, DDict, Arr)):
        I.throw(TypeError, 'stat: path should be string, bytes, os.PathLike or integer')
    return exists(I, path_of(I, p))


def _pp(name):
    f = getattr(os.path, name)

    def g(I, a, k):
        return f(*[path_of(I, x) for x in a])
    TABLE['os.path.' + name] = g


for _n in ('splitext', 'basename', 'dirname', 'split', 'normpath', 'isabs'):
    _pp(_n)


@ext('os.path.join')
def join(I, a, k):
    return os.path.join(*[path_of(I, x) for x in a])


@ext('os.path.abspath', 'os.path.realpath')
def abspath(I, a, k):
    return os.path.normpath(os.path.join('/cwd', path_of(I, a[0])))


TABLE['os.path.expanduser'] = lambda I, a, k: path_of(I, a[0])
TABLE['os.fspath'] = lambda I, a, k: path_of(I, a[0])
TABLE['os.getcwd'] = lambda I, a, k: '/cwd'
CONSTS['os.sep'] = '/'
CONSTS['os.linesep'] = '\n'


@ext('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.makedirs', 'os.mkdir', 'os.rmdir', 'shutil.rmtree',
     'shutil.copy', 'shutil.move', 'shutil.copyfile', 'os.system')
def os_write(I, a, k):
    I.event('fs_effect', args=a)
    for x in a[:1]:
        p = I.resolve(x)
        if isinstance(p, str) and p in I.fs.items:
            I.touch(I.fs)
            v = I.fs.items.pop(p)
            if len(a) > 1 and isinstance(I.resolve(a[1]), str):
                I.fs.items[I.resolve(a[1])] = v


@ext('os.environ.get', 'os.getenv')
def getenv(I, a, k):
    I.event('environ', args=a)
    return a[1] if len(a) > 1 else None


class PathObj(Obj):
    tname = 'pathlib.Path'

    def p_stem(self, I):
        return os.path.splitext(os.path.basename(self.st['p']))[0]

    def p_name(self, I):
        return os.path.basename(self.st['p'])

    def p_suffix(self, I):
        return os.path.splitext(self.st['p'])[1]

    def p_parent(self, I):
        return PathObj(p=os.path.dirname(self.st['p']))

    def m_exists(self, I, a, k):
        return exists(I, self.st['p'])

    m_is_file = m_exists

    def m_open(self, I, a, k):
        return _open(I, [self.st['p']] + a, k)

    def m_read_text(self, I, a, k):
        h = _open(I, [self.st['p'], 'r'], {})
        s = h.m_read(I, [], {})
        h.m_close(I, [], {})
        return s

    def m_write_text(self, I, a, k):
        h = _open(I, [self.st['p'], 'w'], {})
        h.m_write(I, a, k)
        h.m_close(I, [], {})

    def m_resolve(self, I, a, k):
        return self

    m_absolute = m_expanduser = m_resolve

    def m_joinpath(self, I, a, k):
        return PathObj(p=os.path.join(self.st['p'], *[path_of(I, x) for x in a]))


@ext('pathlib.Path', 'pathlib.PurePath')
def Path(I, a, k):
    return PathObj(p=os.path.join(*[path_of(I, x) for x in a]) if a else '.')


class DateTimeObj(Obj):
    """datetime.datetime without time zone: days since 1970"""
    tname = 'datetime.datetime'

    def as_array(self, I):
        return N.Arr(N.Buf([self]), np.zeros((), dtype=int), N.O)

    def const(self):
        x = self.st['days']
        if not T.is_num(x):
            raise Limit('fields of a symbolic datetime')
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(round(x.args[0] * 86400 * 10**6)))

    def p_year(self, I):
        return self.const().year

    def p_month(self, I):
        return self.const().month

    def p_day(self, I):
        return self.const().day

    def p_hour(self, I):
        return self.const().hour

    def p_minute(self, I):
        return self.const().minute

    def p_second(self, I):
        return self.const().second

    def p_microsecond(self, I):
        return self.const().microsecond

    def p_tzinfo(self, I):
        return None

    def m_isoformat(self, I, a, k):
        return self.const().isoformat(*[I.resolve(x) for x in a], **{x: I.resolve(v) for x, v in k.items()})

    def m_strftime(self, I, a, k):
        return self.const().strftime(I.resolve(a[0]))

    def m_toordinal(self, I, a, k):
        return self.const().toordinal()

    def m_replace(self, I, a, k):
        d = self.const().replace(*[I.resolve(x) for x in a], **{x: I.resolve(v) for x, v in k.items()})
        return from_datetime(d)

    def m_timetuple(self, I, a, k):
        return tuple(self.const().timetuple())

    def str(self, I):
        return str(self.const())

    def binop(self, I, op, a, b):
        def days(x):
            if isinstance(x, (DateTimeObj, TimeDeltaObj)):
                return x.st['days']
            return None
        x, y = days(a), days(b)
        if x is None or y is None:
            raise Limit(f'{op} on {self.tname}')
        if op == 'Sub' and type(a) is type(b):
            return TimeDeltaObj(days=T.sub(x, y))
        if op == 'Add' and type(a) is not type(b):
            return DateTimeObj(days=T.add(x, y))
        if op == 'Add' and isinstance(a, TimeDeltaObj):
            return TimeDeltaObj(days=T.add(x, y))
        if op == 'Sub' and isinstance(a, DateTimeObj):
            return DateTimeObj(days=T.sub(x, y))
        if op == 'Div' and isinstance(a, TimeDeltaObj) and isinstance(b, TimeDeltaObj):
            return T.div(x, y)
        I.throw(TypeError, f'unsupported operand type(s) for {op}: datetime')


class TimeDeltaObj(Obj):
    tname = 'datetime.timedelta'
    as_array = DateTimeObj.as_array
    binop = DateTimeObj.binop

    def const(self):
        x = self.st['days']
        if not T.is_num(x):
            raise Limit('fields of a symbolic timedelta')
        return datetime.timedelta(microseconds=int(round(x.args[0] * 86400 * 10**6)))

    def m_total_seconds(self, I, a, k):
        return T.scale(self.st['days'], 86400)

    def p_days(self, I):
        return self.const().days

    def p_seconds(self, I):
        return self.const().seconds

    def p_microseconds(self, I):
        return self.const().microseconds


def from_datetime(d):
    e = d - datetime.datetime(1970, 1, 1)
    return DateTimeObj(days=T.num(Fraction(e.days) + Fraction(e.seconds, 86400) + Fraction(e.microseconds, 86400 * 10**6)))


@ext('datetime.datetime')
def datetime_(I, a, k):
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    v = {**dict(zip(names, a)), **k}
    if set(v) - set(names):
        raise Limit('datetime with a time zone')
    v = {x: N.toint(I, y) for x, y in v.items()}
    try:
        return from_datetime(datetime.datetime(**v))
    except (ValueError, TypeError) as e:
        I.throw(type(e), str(e))


@ext('datetime.timedelta')
def timedelta_(I, a, k):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    u = (1, Fraction(1, 86400), Fraction(1, 86400 * 10**6), Fraction(1, 86400 * 10**3), Fraction(1, 1440), Fraction(1, 24), 7)
    v = {**dict(zip(names, a)), **k}
    return TimeDeltaObj(days=T.add(*[T.scale(N.num_el(I.resolve(y)), u[names.index(x)]) for x, y in v.items()], T.ZERO))


TABLE['textwrap.dedent'] = lambda I, a, k: textwrap.dedent(I.resolve(a[0]))
TABLE['textwrap.indent'] = lambda I, a, k: textwrap.indent(*[I.resolve(x) for x in a])


@ext('datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'time.time', 'time.ctime',
     'timeit.default_timer', 'time.perf_counter', 'time.strftime', 'time.asctime')
def now(I, a, k):
    I.nondet += 1
    n = T.sym(f'now#{I.nondet}', 'real')
    I.event('nondet', sym=n)
    return n


@ext('numpy.random.rand', 'numpy.random.random', 'numpy.random.randn', 'numpy.random.normal', 'random.random',
     'numpy.random.default_rng', 'numpy.random.uniform')
def rnd(I, a, k):
    I.nondet += 1
    I.event('nondet', sym=T.sym(f'rand#{I.nondet}', 'real'))
    raise Limit('random numbers')


class Match(Obj):
    tname = 're.Match'

    def m_group(self, I, a, k):
        return self.st['m'].group(*[I.resolve(x) for x in a])

    def m_groups(self, I, a, k):
        return tuple(self.st['m'].groups())

    def getitem(self, I, k):
        return self.st['m'][k]

    def m_end(self, I, a, k):
        return self.st['m'].end()

    def m_start(self, I, a, k):
        return self.st['m'].start()


class Regex(Obj):
    tname = 're.Pattern'

    def getattr(self, I, name):
        return Builtin('re.' + name, lambda I, a, k: _re(name)(I, [self.st['p']] + a, k))


def _re(name):
    def g(I, a, k):
        aa = [I.resolve(x) for x in a]
        if isinstance(aa[0], Regex):
            aa[0] = aa[0].st['p']
        for x in aa:
            if not isinstance(x, (str, int)):
                if isinstance(x, Arr) or x is None or isinstance(x, (LList, DDict, float, Node)):
                    I.throw(TypeError, 'expected string or bytes-like object')
                raise Limit('re argument')
            if isinstance(x, str) and V.has_ph(x):
                raise Limit('re on symbolic text')
        r = getattr(re, name)(*aa)
        if name in ('search', 'match', 'fullmatch'):
            return None if r is None else Match(m=r)
        if isinstance(r, list):
            return LList(r)
        return r
    return g


for _n in ('search', 'match', 'fullmatch', 'findall', 'sub', 'split'):
    TABLE['re.' + _n] = _re(_n)
TABLE['re.compile'] = lambda I, a, k: Regex(p=I.resolve(a[0]))
TABLE['math.factorial'] = lambda I, a, k: math.factorial(N.toint(I, a[0]))
TABLE['math.comb'] = lambda I, a, k: math.comb(N.toint(I, a[0]), N.toint(I, a[1]))
TABLE['math.isqrt'] = lambda I, a, k: math.isqrt(N.toint(I, a[0]))
TABLE['scipy.special.factorial'] = lambda I, a, k: N.scal(float(math.factorial(N.toint(I, a[0]))))


def _gamma(I, a, k):
    return N.scal(float(math.factorial(N.toint(I, a[0]) - 1)))


TABLE['scipy.special.gamma'] = TABLE['math.gamma'] = _gamma


@ext('scipy.special.poch')
def poch(I, a, k):
    m = N.toint(I, a[1])

    def f(x):
        r = T.ONE
        for i in range(m):
            r = T.mul(r, T.add(x, i))
        return r
    return N.elementwise(I, lambda x: f(N.num_el(x)), [N.A(I, a[0])], F)


@ext('math.prod')
def prod(I, a, k):
    r = 1
    for x in I.iterate(a[0]):
        r = I.binop('Mult', r, x)
    return r


# ------------------------------------------------------------------ functools, itertools, operator, copy, contextlib
@ext('functools.partial')
def partial(I, a, k):
    f, aa, kk = a[0], list(a[1:]), dict(k)
    b = Builtin('partial', lambda I, a2, k2: I.call(f, aa + list(a2), {**kk, **k2}))
    b.raw = True
    return b


@ext('functools.reduce')
def reduce(I, a, k):
    xs = I.iterate(a[1])
    if len(a) > 2:
        xs = [a[2]] + xs
    r = xs[0]
    for x in xs[1:]:
        r = I.call(a[0], [r, x], {})
    return r


def _itt(name, f):
    TABLE['itertools.' + name] = f


def _chain(I, parts):
    xs = []
    for s in parts:
        s = I.resolve(s)
        if isinstance(s, V.Inf):
            n = len(xs)
            return V.Inf(lambda i: xs[i] if i < n else I.draw(s)[1]) if n else s
        xs.extend(I.iterate(s))
    return V.Iter(xs)


_itt('chain', lambda I, a, k: _chain(I, a))
_itt('chain.from_iterable', lambda I, a, k: _chain(I, I.iterate(a[0])))


@ext('itertools.product')
def product(I, a, k):
    import itertools
    return V.Iter(itertools.product(*([I.iterate(s) for s in a] * N.toint(I, k.get('repeat', 1)))))


@ext('itertools.pairwise')
def pairwise(I, a, k):
    xs = I.iterate(a[0])
    return V.Iter(list(zip(xs, xs[1:])))


def _take(I, a):
    v = I.resolve(a[0])
    n = [I.resolve(x) for x in a[1:]]
    n = [x if x is None else N.toint(I, x) for x in n]
    lo, hi, st = (0, n[0], 1) if len(n) == 1 else (n[0] or 0, n[1], n[2] or 1 if len(n) > 2 else 1)
    if not isinstance(v, (V.Iter, V.Inf)):
        return I.iterate(v)[lo:hi:st]
    out = []
    i = 0
    while hi is None or i < hi:
        ok, x = I.draw(v)
        if not ok:
            break
        if i >= lo and (i - lo) % st == 0:
            out.append(x)
        i += 1
    return out


@ext('itertools.cycle')
def cycle(I, a, k):
    xs = I.iterate(a[0])
    return V.Inf(lambda i: xs[i % len(xs)]) if xs else V.Iter()


@ext('itertools.islice')
def islice(I, a, k):
    return V.Iter(_take(I, a))


@ext('itertools.count')
def count(I, a, k):
    s = N.toint(I, a[0]) if a else 0
    st = N.toint(I, a[1]) if len(a) > 1 else 1
    return V.Inf(lambda i: s + st * i)


@ext('itertools.repeat')
def repeat(I, a, k):
    if len(a) > 1:
        return V.Iter([a[0]] * N.toint(I, a[1]))
    return V.Inf(lambda i: a[0])


@ext('itertools.accumulate')
def accumulate(I, a, k):
    out = []
    f = a[1] if len(a) > 1 else k.get('func')
    a = [a[0]] + ([f] if I.resolve(f) is not None else [])
    r = I.resolve(k.get('initial'))
    if r is not None:
        out.append(r)
    for x in I.iterate(a[0]):
        r = x if r is None else (I.call(a[1], [r, x], {}) if len(a) > 1 else I.binop('Add', r, x))
        out.append(r)
    return V.Iter(out)


for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('pow', 'Pow'), ('mod', 'Mod')):
    TABLE['operator.' + _n] = (lambda o: lambda I, a, k: I.binop(o, a[0], a[1]))(_o)


@ext('operator.itemgetter')
def itemgetter(I, a, k):
    ks = list(a)
    return Builtin('itemgetter', lambda I, b, kk: I.getitem(b[0], ks[0]) if len(ks) == 1 else tuple(I.getitem(b[0], x) for x in ks))


@ext('operator.attrgetter')
def attrgetter(I, a, k):
    return Builtin('attrgetter', lambda I, b, kk: I.getattr(b[0], a[0]))


@ext('operator.index')
def op_index(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, (float, str)) or v is None:
        I.throw(TypeError, 'object cannot be interpreted as an integer')
    return N.toint(I, v)


@ext('copy.copy')
def copy_copy(I, a, k):
    v = I.resolve(a[0])
    if isinstance(v, Arr):
        return N.copy_arr(v)
    if isinstance(v, LList):
        return LList(v.items)
    if isinstance(v, DDict):
        return DDict(v.items)
    if isinstance(v, Inst):
        o = Inst(v.cls, dict(v.attrs))
        if v.data is not None:
            o.data = DDict(v.data.items)
        return o
    return v


@ext('copy.deepcopy')
def deepcopy(I, a, k):
    memo = {}

    def go(v):
        v = I.resolve(v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Arr):
            r = N.copy_arr(v)
        elif isinstance(v, LList):
            r = LList()
            memo[id(v)] = r
            r.items = [go(x) for x in v.items]
        elif isinstance(v, DDict):
            r = DDict()
            memo[id(v)] = r
            r.items = {kk: go(x) for kk, x in v.items.items()}
        elif isinstance(v, tuple):
            r = tuple(go(x) for x in v)
        elif isinstance(v, Inst):
            r = Inst(v.cls)
            memo[id(v)] = r
            r.attrs = {kk: go(x) for kk, x in v.attrs.items()}
            r.data = go(v.data) if v.data is not None else None
        elif isinstance(v, Choice):
            r = Choice(v.c, go(v.a), go(v.b))
        else:
            r = v
        memo[id(v)] = r
        return r
    return go(a[0])


class Closing(Obj):
    tname = 'contextlib.closing'

    def enter(self, I):
        return self.st['o']

    def exit(self, I):
        I.call(I.getattr(self.st['o'], 'close'), [], {})


TABLE['contextlib.closing'] = lambda I, a, k: Closing(o=a[0])


class NullCtx(Obj):
    tname = 'contextlib.nullcontext'

    def enter(self, I):
        return self.st.get('o')


TABLE['contextlib.nullcontext'] = lambda I, a, k: NullCtx(o=a[0] if a else None)


class ExitStack(Obj):
    tname = 'contextlib.ExitStack'

    def exit(self, I):
        for f in reversed(self.st['cbs']):
            I.call(f, [], {})

    def m_callback(self, I, a, k):
        f, aa = a[0], list(a[1:])
        self.set(I, cbs=self.st['cbs'] + (Builtin('cb', lambda I, x, y: I.call(f, list(aa), dict(k))),))

    def m_enter_context(self, I, a, k):
        m = I.resolve(a[0])
        if not isinstance(m, ExtObj):
            raise Limit('ExitStack.enter_context')
        self.set(I, cbs=self.st['cbs'] + (Builtin('cb', lambda I, x, y: m.exit(I)),))
        return m.enter(I)


TABLE['contextlib.ExitStack'] = lambda I, a, k: ExitStack(cbs=())


class Suppress(Obj):
    tname = 'contextlib.suppress'


TABLE['contextlib.suppress'] = lambda I, a, k: Suppress(types=tuple(a))
TABLE['collections.OrderedDict'] = lambda I, a, k: (lambda d: (E.dict_update(I, d, a, k), d)[1])(DDict())
TABLE['types.MappingProxyType'] = lambda I, a, k: a[0]
def _subplots(I, a, k):
    """figure and object array of axes, squeezed by default"""
    I.event('opaque_call', path='matplotlib.pyplot.subplots', args=a, kwargs=k)
    n = [I.resolve(a[i] if len(a) > i else k.get(('nrows', 'ncols')[i], 1)) for i in (0, 1)]
    sq = I.resolve(a[4] if len(a) > 4 else k.get('squeeze', True))
    n = [N.toint(I, x) for x in n]
    if min(n) < 1:
        I.throw(ValueError, 'Number of rows and columns must be positive')
    fig = Opaque('matplotlib.pyplot.subplots()[0]')
    ax = [Opaque(f'matplotlib.pyplot.subplots()[1][{i}]') for i in range(n[0]*n[1])]
    if sq and len(ax) == 1:
        return (fig, ax[0])
    arr = V.new_arr(V.objarr(tuple(n), ax), V.O)
    if sq:
        arr = V.Arr(arr.buf, arr.idx.squeeze(), V.O)
    return (fig, arr)


TABLE['matplotlib.pyplot.subplots'] = _subplots
TABLE['logging.getLogger'] = lambda I, a, k: Opaque('logging.logger')


# ------------------------------------------------------------------ npz
class Npz(Handle):
    tname = 'numpy.lib.npyio.NpzFile'

    def _d(self, I):
        self.check(I)
        return self.st['d']

    def getitem(self, I, k):
        d = self._d(I)
        v = I.dict_get(d, k)
        return N.copy_arr(v) if isinstance(v, Arr) else v

    def contains(self, I, k):
        return k in self._d(I).items

    def keys(self, I):
        return list(self._d(I).items)

    def iter(self, I):
        return self.keys(I)

    def p_files(self, I):
        return LList(self.keys(I))

    def m_keys(self, I, a, k):
        return LList(self.keys(I))

    def m_get(self, I, a, k):
        if I.key(a[0]) in self._d(I).items:
            return self.getitem(I, a[0])
        return a[1] if len(a) > 1 else None


@ext('numpy.load')
def np_load(I, a, k):
    p = path_of(I, a[0] if a else k['file'])
    d = I.resolve(I.fs.items.get(p))
    if d is None:
        I.event('open', path=p, mode='r', via='np.load', handle=None)
        I.throw(FileNotFoundError, p)
    if not isinstance(d, DDict):
        raise Limit('np.load content')
    return Npz(I, p, 'r', 'np.load', d=d)


@ext('numpy.savez', 'numpy.savez_compressed')
def savez(I, a, k):
    p = path_of(I, a[0])
    if not p.endswith('.npz'):
        p += '.npz'
    d = {}
    for i, x in enumerate(a[1:]):
        k = {**k, f'arr_{i}': x}
    for kk, v in k.items():
        v = N.A(I, v)
        d[kk] = Arr(Buf(list(v.elems())), np.arange(v.size).reshape(v.shape), v.dt)
    I.event('open', path=p, mode='w', via='np.savez', handle=None)
    I.touch(I.fs)
    I.fs.items[p] = DDict(d)


@ext('numpy.save', 'numpy.savetxt')
def npsave(I, a, k):
    p = path_of(I, a[0])
    I.event('open', path=p, mode='w', via='np.save', handle=None)
    I.touch(I.fs)
    I.fs.items[p] = N.copy_arr(N.A(I, a[1]))


# ------------------------------------------------------------------ h5py
class Dset(Obj):
    tname = 'h5py.Dataset'

    def arr(self, I):
        self.st['f'].check(I)
        return self.st['d'].items[self.st['k']]

    def as_array(self, I):
        return N.copy_arr(self.arr(I))

    def getitem(self, I, k):
        a = self.arr(I)
        if k == () and isinstance(k, tuple):
            return N.copy_arr(a)
        r = N.getitem(I, a, k)
        return N.copy_arr(r) if isinstance(r, Arr) and not r.scalar else r

    def setitem(self, I, k, v):
        a = self.arr(I)
        N.setitem(I, a, k, v)

    def p_shape(self, I):
        return tuple(int(x) for x in self.arr(I).shape)

    def p_size(self, I):
        return int(self.arr(I).size)

    def p_ndim(self, I):
        return self.arr(I).ndim

    def p_dtype(self, I):
        return self.arr(I).dt

    def iter(self, I):
        return I.iterate(self.arr(I))

    def m_astype(self, I, a, k):
        return N.conv(I, self.as_array(I), N.to_dt(I, a[0]))


class H5(Handle):
    tname = 'h5py.File'

    def p_filename(self, I):
        return self.st['path']

    def getitem(self, I, k):
        self.check(I)
        k = I.key(k)
        if k not in self.st['d'].items:
            I.throw(KeyError, k)
        return Dset(f=self, d=self.st['d'], k=k)

    def setitem(self, I, k, v):
        self.check(I)
        I.touch(self.st['d'])
        self.st['d'].items[I.key(k)] = N.copy_arr(N.A(I, v))

    def contains(self, I, k):
        return k in self.st['d'].items

    def keys(self, I):
        return list(self.st['d'].items)

    def iter(self, I):
        return self.keys(I)

    def m_keys(self, I, a, k):
        return LList(self.keys(I))

    def m_flush(self, I, a, k):
        pass

    def m_create_dataset(self, I, a, k):
        self.check(I)
        name = I.resolve(a[0] if a else k['name'])
        if 'data' in k or len(a) > 3:
            arr = N.copy_arr(N.A(I, k['data'] if 'data' in k else a[3]))
            dt = I.resolve(k.get('dtype', a[2] if len(a) > 2 else None))
            if dt is not None and arr.dt.kind in 'bif':
                arr = N.copy_arr(N.conv(I, arr, N.to_dt(I, dt)))
        else:
            sh = tuple(N.ints(I, a[1] if len(a) > 1 else k['shape']))
            dt = k.get('dtype', a[2] if len(a) > 2 else None)
            d = N.to_dt(I, dt) or F
            arr = N.filled(I, sh, '' if d.kind == 'U' else T.ZERO, d)
        I.touch(self.st['d'])
        self.st['d'].items[name] = arr
        return Dset(f=self, d=self.st['d'], k=name)


@ext('h5py.File')
def h5file(I, a, k):
    p = path_of(I, a[0] if a else k['name'])
    mode = I.resolve(a[1] if len(a) > 1 else k.get('mode', 'r'))
    d = I.resolve(I.fs.items.get(p))
    if mode[0] == 'r':
        if p not in I.fs.items:
            I.event('open', path=p, mode=mode, via='h5py', handle=None)
            I.throw(FileNotFoundError, p)
        if not isinstance(d, DDict):
            I.event('open', path=p, mode=mode, via='h5py', handle=None)
            I.throw(OSError, 'Unable to open file (file signature not found)')
    else:
        d = DDict() if mode[0] in 'wx' or not isinstance(d, DDict) else d
        I.touch(I.fs)
        I.fs.items[p] = d
    return H5(I, p, mode, 'h5py', d=d)


# ------------------------------------------------------------------ hdf5storage (matlab)
@ext('hdf5storage.write')
def hdf_write(I, a, k):
    names = ('data', 'path', 'filename', 'truncate_existing')
    vals = dict(zip(names, a))
    vals.update(k)
    p = path_of(I, vals.get('filename', 'data.h5'))
    I.event('open', path=p, mode='a', via='hdf5storage', handle=None)
    root = I.resolve(I.fs.items.get(p))
    if not isinstance(root, DDict):
        root = DDict()
        I.touch(I.fs)
        I.fs.items[p] = root
    at = I.resolve(vals.get('path', '/'))
    if not isinstance(at, str):
        I.throw(TypeError, 'p must be str, bytes, pathlib.PurePath, or an Sequence solely of one of those three.')
    parts = [x for x in at.split('/') if x]

    def snap(v):
        v = I.resolve(v)
        if isinstance(v, DDict) or isinstance(v, Inst) and v.data is not None:
            return DDict({kk: snap(x) for kk, x in I.dict_items(v)})
        if isinstance(v, Arr):
            if v.dt.kind == 'O':
                xs = [snap(x) for x in v.elems()]
                return N.new_arr(N.objarr(v.shape, xs), O)
            return N.copy_arr(v) if not v.scalar else v
        if isinstance(v, (LList, tuple)):
            xs = [snap(x) for x in I.iterate(v)]
            return LList(xs) if isinstance(v, LList) else tuple(xs)
        return v
    node = root
    for q in parts[:-1]:
        nx = node.items.get(q)
        if not isinstance(nx, DDict):
            nx = Implicit()
            I.touch(node)
            node.items[q] = nx
        node = nx
    I.touch(node)
    if parts:
        if len(parts) > 1 and not isinstance(node, Implicit):
            raise Limit('member added to a MATLAB structure')
        node.items[parts[-1]] = snap(vals['data'])
    elif not isinstance(snap(vals['data']), DDict):
        # the root of the file is a group: no variable of that name
        I.throw(ValueError, 'Unable to synchronously create dataset (name already exists)')
    else:
        for kk, x in I.dict_items(vals['data']):
            node.items[kk] = snap(x)


TABLE['hdf5storage.savemat'] = lambda I, a, k: hdf_write(I, [a[1], '/', a[0]], {})


class Implicit(DDict):
    """a group that exists only because of the path of something inside it"""


class Struct(Obj):
    """structured numpy array, fields of sub-array type"""
    tname = 'numpy.ndarray'
    is_ndarray = True

    def p_dtype(self, I):
        return DT('V', names=tuple(self.st['fields'].items))

    def p_shape(self, I):
        return self.st['shape_']

    def p_size(self, I):
        return int(np.prod(self.st['shape_']))

    def p_ndim(self, I):
        return len(self.st['shape_'])

    def getitem(self, I, k):
        k = I.resolve(k)
        if isinstance(k, str):
            return I.dict_get(self.st['fields'], k)
        k = N.toint(I, k) if not isinstance(k, (tuple, slice)) else None
        if k in (0, -1) and self.st['shape_'] == (1,):
            return Struct(shape_=(), fields=DDict({n: I.getitem(v, 0) for n, v in self.st['fields'].items.items()}))
        raise Limit('structured array index')

    def m_squeeze(self, I, a, k):
        if self.st['shape_'] == ():
            return self
        return self.getitem(I, 0)

    def m_item(self, I, a, k):
        return self.m_squeeze(I, a, k)


@ext('hdf5storage.loadmat')
def hdf_loadmat(I, a, k):
    vals = dict(zip(('file_name', 'mdict', 'appendmat', 'format', 'action_for_matlab_incompatible', 'matlab_compatible', 'keep_fieldnames',
                     'structured_numpy_ndarray_as_struct', 'variable_names'), a))
    vals.update(k)
    if [x for x in vals if x not in ('file_name', 'variable_names')]:
        raise Limit('loadmat options')
    p = path_of(I, vals['file_name'])
    I.event('open', path=p, mode='r', via='hdf5storage', handle=None)
    root = I.resolve(I.fs.items.get(p))
    if not isinstance(root, DDict):
        I.throw(FileNotFoundError, p)
    names = I.resolve(vals.get('variable_names'))
    names = None if names is None else [I.resolve(x) for x in I.iterate(names)]

    def cell(v):
        """what is in an object array: an array, or a dictionary"""
        return load(v)

    def load(v):
        v = I.resolve(v)
        if isinstance(v, Implicit):
            f = DDict()
            for q, x in sorted(v.items.items()):
                x = load(x)
                if not isinstance(x, Arr):
                    raise Limit('structured array of a group without arrays')
                f.items[q] = N.new_arr(N.objarr((1,) + x.shape, x.elems()), x.dt)
            return Struct(shape_=(1,), fields=f)
        if isinstance(v, DDict):
            return DDict({q: load(x) for q, x in v.items.items()})
        if isinstance(v, Arr):
            if v.dt.kind == 'O':
                return N.new_arr(N.objarr(v.shape, [cell(x) for x in v.elems()]), O)
            return N.copy_arr(v) if not v.scalar else v
        if isinstance(v, LList):
            return LList([load(x) for x in v.items])
        if isinstance(v, tuple):
            return tuple(load(x) for x in v)
        return v
    out = DDict()
    for q, x in sorted(root.items.items()):
        if names is None or q in names:
            out.items[q] = load(x)
    return out


# ------------------------------------------------------------------ pandas
class Series(Obj):
    tname = 'pandas.Series'

    def as_array(self, I):
        return self.st['a']

    def p_values(self, I):
        return self.st['a']

    def m_to_numpy(self, I, a, k):
        return self.st['a']

    def p_array(self, I):
        return self.st['a']

    def p_shape(self, I):
        return tuple(int(x) for x in self.st['a'].shape)

    def p_size(self, I):
        return int(self.st['a'].size)

    def p_iloc(self, I):
        return self.st['a']

    def getitem(self, I, k):
        return N.getitem(I, self.st['a'], k)

    def iter(self, I):
        return I.iterate(self.st['a'])

    def m_astype(self, I, a, k):
        return Series(a=N.conv(I, self.st['a'], N.to_dt(I, a[0])))


class Rows(Obj):
    """rows by position (the index of a table just read counts the rows)"""
    tname = 'pandas.indexer'

    def getitem(self, I, k):
        k = I.resolve(k)
        df = self.st['df']
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
            x = df.getitem(I, k[1])
            return x if k[0] == slice(None) else Series(a=N.getitem(I, x.st['a'], k[0]))
        if isinstance(k, Series):
            k = k.st['a']
        if isinstance(k, slice) or isinstance(k, Arr):
            return df.rows(I, k)
        if isinstance(k, LList):
            return df.rows(I, [int(I.resolve(x)) for x in k.items])
        raise Limit('rows of a table')


class DF(Obj):
    tname = 'pandas.DataFrame'

    def rows(self, I, keep):
        """selection of rows by index list or mask"""
        n = self.p_shape(I)[0]
        if isinstance(keep, slice):
            keep = list(range(n))[keep]
        ix = N.A(I, LList([int(i) for i in keep])) if isinstance(keep, list) else keep
        if isinstance(keep, list) and not keep:
            ix = N.new_arr(N.objarr((0,), []), N.INT)
        idx = self.st.get('index')
        return DF(cols=DDict({c: N.copy_arr(N.getitem(I, v, ix)) for c, v in self.st['cols'].items.items()}),
                  index=N.getitem(I, idx, ix) if isinstance(idx, Arr) else None)

    def put_rows(self, I, new, inplace):
        if inplace:
            I.touch(self.st['cols'])
            self.st['cols'].items = new.st['cols'].items
            return None
        return new

    def names_(self, I, v):
        v = I.resolve(v)
        return list(self.st['cols'].items) if v is None else [v] if isinstance(v, str) else I.iterate(v)

    def m_dropna(self, I, a, k):
        cols = self.names_(I, k.get('subset'))
        data = [self.st['cols'].items[c].elems() for c in cols]
        keep = [i for i in range(self.p_shape(I)[0]) if not any(x[i] is T.NAN for x in data)]
        return self.put_rows(I, self.rows(I, keep), I.resolve(k.get('inplace')))

    def m_drop_duplicates(self, I, a, k):
        cols = self.names_(I, k.get('subset', a[0] if a else None))
        data = [self.st['cols'].items[c].elems() for c in cols]
        how = I.resolve(k.get('keep', 'first'))
        n = self.p_shape(I)[0]
        key = [tuple(x[i] for x in data) for i in range(n)]
        keep = [i for i in range(n) if (key[i] not in key[:i] if how == 'first' else key[i] not in key[i + 1:] if how == 'last'
                                        else key.count(key[i]) == 1)]
        return self.put_rows(I, self.rows(I, keep), I.resolve(k.get('inplace')))

    def m_head(self, I, a, k):
        return self.rows(I, slice(0, int(I.resolve(a[0])) if a else 5))

    def m_tail(self, I, a, k):
        m = int(I.resolve(a[0])) if a else 5
        return self.rows(I, slice(max(0, self.p_shape(I)[0] - m), None))

    def m_reset_index(self, I, a, k):
        return DF(cols=DDict(dict(self.st['cols'].items)), index=None)

    def m_sort_values(self, I, a, k):
        by = self.names_(I, k.get('by', a[0] if a else None))
        if len(by) != 1:
            raise Limit('sort_values by several columns')
        asc = I.resolve(k.get('ascending', True))
        order = I.call(I.ext_value('numpy.argsort'), [self.st['cols'].items[by[0]]], {'kind': 'stable'})
        if not asc:
            order = N.getitem(I, order, slice(None, None, -1))
        return self.put_rows(I, self.rows(I, order), I.resolve(k.get('inplace')))

    def p_iloc(self, I):
        return Rows(df=self)

    p_loc = p_iloc

    def m_fillna(self, I, a, k):
        v = I.resolve(k.get('value', a[0] if a else None))
        d = {}
        for c, x in self.st['cols'].items.items():
            e = [N.A(I, v).item() if y is T.NAN else y for y in x.elems()]
            d[c] = N.new_arr(N.objarr(x.shape, e), x.dt)
        return self.put_rows(I, DF(cols=DDict(d), index=self.st.get('index')), I.resolve(k.get('inplace')))

    def m_round(self, I, a, k):
        f = I.ext_value('numpy.round')
        d = {c: I.call(f, [v, *a], {}) if v.dt.kind == 'f' else v for c, v in self.st['cols'].items.items()}
        return DF(cols=DDict(d), index=self.st.get('index'))

    def getitem(self, I, k):
        k = I.resolve(k)
        if isinstance(k, slice):
            return self.rows(I, k)
        if isinstance(k, Series):
            k = k.st['a']
        if isinstance(k, Arr) and k.dt.kind == 'b':
            return self.rows(I, k)
        if isinstance(k, LList):
            return DF(cols=DDict({x: I.dict_get(self.st['cols'], x) for x in k.items}), index=self.st.get('index'))
        return Series(a=I.dict_get(self.st['cols'], k))

    def setitem(self, I, k, v):
        I.touch(self.st['cols'])
        self.st['cols'].items[I.resolve(k)] = N.A(I, v)

    def p_columns(self, I):
        return LList(list(self.st['cols'].items))

    def iter(self, I):
        return list(self.st['cols'].items)

    def contains(self, I, k):
        return k in self.st['cols'].items

    def keys(self, I):
        return list(self.st['cols'].items)

    def m_items(self, I, a, k):
        return LList([(c, Series(a=v)) for c, v in self.st['cols'].items.items()])

    def getattr(self, I, name):
        if name in self.st['cols'].items:
            return Series(a=self.st['cols'].items[name])
        return super().getattr(I, name)

    def m_drop(self, I, a, k):
        cols = I.resolve(k.get('columns', k.get('labels', a[0] if a else None)))
        cols = [cols] if isinstance(cols, str) else I.iterate(cols)
        d = {c: v for c, v in self.st['cols'].items.items() if c not in cols}
        if k.get('inplace'):
            I.touch(self.st['cols'])
            self.st['cols'].items = d
            return None
        return DF(cols=DDict(d), index=self.st.get('index'))

    def m_set_index(self, I, a, k):
        v = I.resolve(a[0])
        if isinstance(v, str):
            d = {c: x for c, x in self.st['cols'].items.items() if c != v}
            return DF(cols=DDict(d), index=self.st['cols'].items[v])
        return DF(cols=self.st['cols'], index=v)

    def m_copy(self, I, a, k):
        return DF(cols=DDict({c: N.copy_arr(v) for c, v in self.st['cols'].items.items()}), index=self.st.get('index'))

    def p_shape(self, I):
        vs = list(self.st['cols'].items.values())
        return (int(vs[0].shape[0]), len(vs))


@ext('pandas.read_csv', 'pandas.read_table')
def read_csv(I, a, k):
    src = I.resolve(a[0] if a else k.get('filepath_or_buffer'))
    I.event('open', path=src, mode='r', via='pandas', handle=None)
    k = {x: I.resolve(v) for x, v in k.items()}
    if isinstance(src, Opaque) or isinstance(src, str) and (src.startswith('http') or V.has_ph(src)):
        I.event('network', path='pandas.read_csv', args=a)
        names = I.iterate(k['names']) if k.get('names') is not None else None
        if names is None:
            return Opaque('pandas.DataFrame')
        return DF(cols=DDict({n: N.new_arr(N.objarr((1,), [T.sym(f'web_{n}')]), F) for n in names}), index=None)
    content = I.resolve(I.fs.items.get(src)) if isinstance(src, str) else None
    if content is None:
        I.throw(FileNotFoundError, src)
    if not isinstance(content, str):
        I.throw(ValueError, 'not a text table')
    comment = k.get('comment')
    names = I.iterate(k['names']) if k.get('names') is not None else None
    dts = I.resolve(k.get('dtype'))
    sep = k.get('sep', k.get('delimiter', ','))
    rows = []
    for ln in content.splitlines():
        if comment and comment in ln:
            ln = ln[:ln.index(comment)]
        if not ln.strip():
            continue
        rows.append(ln.split() if sep in (r'\s+', ' ') or k.get('delim_whitespace') else [t.strip() for t in ln.split(sep)])
    if names is None or k.get('header', None) == 0 and rows:
        hdr = rows.pop(0)
        names = names or hdr
    sk = k.get('skiprows')
    if sk:
        rows = rows[sk:]
    uc = k.get('usecols')
    cols = {}
    for j, nme in enumerate(names):
        vals = []
        for r in rows:
            if j >= len(r):
                vals.append(T.NAN)
                continue
            dt = dts if not isinstance(dts, DDict) else dts.items.get(nme)
            dt = I.resolve(dt)
            if dt in ('category', 'str', 'object'):
                vals.append(r[j])
            else:
                if r[j] in ('NaN', 'nan', 'NA', 'N/A', 'null', 'NULL', ''):
                    vals.append(T.NAN)
                    continue
                try:
                    vals.append(N.str_to_num(I, r[j]) if V.has_ph(r[j]) or re.fullmatch(r'[-+\d.eE]+', r[j]) else r[j])
                except Limit:
                    vals.append(T.uf('csvtext', r[j]))
        num = all(isinstance(v, Node) for v in vals)
        cols[nme] = N.new_arr(N.objarr((len(vals),), vals), F if num else U)
    if uc is not None:
        keep = I.iterate(uc)
        cols = {c: v for i, (c, v) in enumerate(cols.items()) if c in keep or i in keep}
    return DF(cols=DDict(cols), index=None)


@ext('pandas.DataFrame')
def DataFrame(I, a, k):
    d = I.resolve(a[0] if a else k.get('data'))
    if not isinstance(d, DDict):
        raise Limit('DataFrame')
    return DF(cols=DDict({c: N.A(I, v) for c, v in d.items.items()}), index=k.get('index'))


@ext('pandas.to_datetime')
def to_datetime(I, a, k):
    v = N.A(I, a[0])
    unit = I.resolve(k.get('unit'))
    origin = I.resolve(k.get('origin'))
    if unit is None:
        raise Limit('to_datetime')
    days = [T.add(T.scale(N.num_el(x), N.UNIT_DAYS[unit]), N.num_el(origin.item()) if isinstance(origin, Arr) else T.ZERO) for x in v.elems()]
    return N.new_arr(N.objarr(v.shape, days), DT('M', 'ns'))


@ext('pandas.Timestamp')
def Timestamp(I, a, k):
    s = I.resolve(a[0])
    if isinstance(s, str):
        m = re.fullmatch(r'(\d+)-(\d+)-(\d+)', s)
        if m:
            return N.TABLE['numpy.datetime64'](I, ['%04d-%02d-%02d' % tuple(map(int, m.groups()))], {})
    raise Limit('Timestamp')


# ------------------------------------------------------------------ shapefile
class Shp(Handle):
    tname = 'shapefile.Reader'

    def m_shapeRecords(self, I, a, k):
        self.check(I)
        pts = LList([(T.sym(f'coast_lon{i}'), T.sym(f'coast_lat{i}')) for i in range(2)])
        rec = Obj(shape=Obj(points=pts))
        return LList([rec])

    def m_shapes(self, I, a, k):
        self.check(I)
        return LList([I.getattr(x, 'shape') for x in self.m_shapeRecords(I, a, k).items])

    m_iterShapeRecords = m_shapeRecords
    m_iterShapes = m_shapes


@ext('shapefile.Reader')
def shp_reader(I, a, k):
    p = path_of(I, a[0] if a else k['shp'])
    return Shp(I, p, 'r', 'shapefile')


# ------------------------------------------------------------------ scipy.interpolate
def tail(a):
    return a.shape[2:]


def ltx(I, t, x):
    """t < x, decided with facts when possible"""
    return I.simp(T.cmp('lt', t, x))


def poly(cs, s):
    """Horner in local variable s; cs highest order first"""
    r = T.ZERO
    for c in cs:
        r = T.add(T.mul(r, s), c)
    return r


def fall(p, nu):
    r = 1
    for i in range(nu):
        r *= p - i
    return r


def over_state(keys):
    """run a method of a library object under each alternative of its (conditional) state"""
    def deco(f):
        @functools.wraps(f)
        def g(self, I, *a):
            for key in keys:
                v = I.resolve(self.st.get(key))
                if isinstance(v, Choice):
                    def side(self=self):
                        return g(self, I, *a)
                    return I.branch(v.c, side, side)
            return f(self, I, *a)
        return g
    return deco


class PP(Obj):
    tname = 'scipy.interpolate.PPoly'

    def p_c(self, I):
        return self.get(I, 'c')

    def p_x(self, I):
        return self.get(I, 'x')

    @over_state(('c', 'x', 'extrapolate'))
    def call(self, I, a, k):
        t = I.resolve(a[0] if a else k['x'])
        if isinstance(t, Masked):
            r = N.A(I, self.call(I, [t.full] + list(a[1:]), {i: j for i, j in k.items() if i != 'x'}))
            m = t.mask.idx.reshape(t.mask.shape + (1,) * (r.ndim - t.mask.ndim))
            return Masked(r, Arr(t.mask.buf, np.broadcast_to(m, r.shape), t.mask.dt))
        t = N.A(I, t)
        nu = N.toint(I, a[1] if len(a) > 1 else k.get('nu', 0))
        ex = I.resolve(a[2] if len(a) > 2 else k.get('extrapolate'))
        if ex is None:
            ex = self.get(I, 'extrapolate')
        if isinstance(ex, Arr):
            ex = ex.item()
        if ex == 'periodic':
            raise Limit('periodic')
        return self.evaluate(I, t, nu, ex)

    def evaluate(self, I, t, nu, ex):
        c = self.get(I, 'c').get()
        x = [N.num_el(e) for e in self.get(I, 'x').elems()]
        K, M = c.shape[0], c.shape[1]
        rest = c.shape[2:]
        if len(x) != M + 1:
            I.throw(ValueError, 'x and c have incompatible shapes')
        if self.get(I, 'x').dt.kind in 'iub':
            I.throw(ValueError, "Buffer dtype mismatch, expected 'const double'")
        if self.get(I, 'c').dt.kind in 'iub':
            I.throw(TypeError, 'No matching signature found')
        flat = c.reshape(K, M, -1)
        D = flat.shape[2]
        out = []
        for te in t.elems():
            te = N.num_el(te)
            for d in range(D):
                val = None
                for i in range(M - 1, -1, -1):
                    s = T.sub(te, x[i])
                    cs = [T.scale(N.num_el(flat[j, i, d]), fall(K - 1 - j, nu)) for j in range(K - nu)]
                    v = poly(cs, s) if cs else T.ZERO
                    val = v if val is None else T.ite(ltx(I, te, x[i + 1]), v, val)
                inside = T.band(T.cmp('le', x[0], te), T.cmp('le', te, x[-1]))
                e = ex if isinstance(ex, bool) else (I.truth(ex) if not isinstance(ex, (int, float)) else bool(ex))
                if e is not True:
                    val = T.ite(I.simp(T.bor(e, inside)), val, T.NAN)
                out.append(val)
        return N.ret(N.objarr(tuple(t.shape) + tuple(rest), out), F)

    @over_state(('c', 'x', 'extrapolate'))
    def m_derivative(self, I, a, k):
        nu = N.toint(I, a[0] if a else k.get('nu', 1))
        if nu < 0:
            raise Limit('antiderivative')
        if self.get(I, 'c').dt.kind in 'iub':
            I.throw(TypeError, "Cannot cast ufunc 'multiply' output from float64 to int64")
        c = self.get(I, 'c').get()
        K = c.shape[0]
        if nu == 0:
            c2 = c.copy()
        else:
            c2 = c[:-nu].copy() if K - nu > 0 else c[:0]
            for j in range(c2.shape[0]):
                f = fall(K - 1 - j, nu)
                for ix in np.ndindex(c2[j].shape):
                    c2[(j,) + ix] = T.scale(N.num_el(c2[(j,) + ix]), f)
            if c2.shape[0] == 0:
                c2 = np.empty((1,) + c.shape[1:], dtype=object)
                c2[...] = T.ZERO
        return PP(c=new_arr(c2, F), x=self.get(I, 'x'), extrapolate=self.get(I, 'extrapolate'))

    def m_antiderivative(self, I, a, k):
        raise Limit('antiderivative')

    @over_state(('c', 'x', 'extrapolate'))
    def m_extend(self, I, a, k):
        c = N.A(I, a[0])
        x = N.A(I, a[1])
        sc, sx = self.get(I, 'c'), self.get(I, 'x')
        if c.ndim != sc.ndim or x.ndim != 1 or x.shape[0] != c.shape[1] or c.shape[2:] != sc.shape[2:]:
            I.throw(ValueError, 'Shapes of c and x are incompatible')
        if c.size == 0:
            return None
        k2 = max(c.shape[0], sc.shape[0])
        xs = [N.num_el(e) for e in x.elems()]
        xo = [N.num_el(e) for e in sx.elems()]
        app = I.simp(T.cmp('le', xo[-1], xs[0]))
        if app is True:
            mode = 'append'
        elif app is False:
            pre = I.simp(T.cmp('le', xs[-1], xo[0]))
            if pre is True:
                mode = 'prepend'
            elif pre is False:
                I.throw(ValueError, '`x` is neither on the left or on the right from `self.x`.')
            else:
                raise Limit('extend')
        else:
            raise Limit('extend order')

        def padto(arr):
            o = arr.get()
            if o.shape[0] < k2:
                z = np.empty((k2 - o.shape[0],) + o.shape[1:], dtype=object)
                z[...] = T.ZERO
                o = np.concatenate([z, o])
            return o
        parts = [padto(sc), padto(c)]
        c2 = np.concatenate(parts if mode == 'append' else parts[::-1], axis=1)
        x2 = xo + xs if mode == 'append' else xs + xo
        self.set(I, c=new_arr(c2, F), x=new_arr(N.objarr((len(x2),), x2), F))

    def m_copy(self, I, a, k):
        return PP(**self.st)


@ext('scipy.interpolate.PPoly')
def pp_checked(I, a, k):
    p = pp_new(I, a, k)
    for key in ('c', 'x'):
        v = p.st[key]
        if isinstance(v, Arr) and v.dt.kind in 'iub':
            p.st[key] = N.conv(I, v, F)
    return p


@ext('scipy.interpolate.PPoly.construct_fast')
def pp_new(I, a, k):
    vals = dict(zip(('c', 'x', 'extrapolate', 'axis'), a))
    vals.update(k)
    ax = I.resolve(vals.get('axis', 0))
    if ax not in (0, None):
        raise Limit('PPoly axis')
    c, x = N.A(I, vals['c']), N.A(I, vals['x'])
    ex = I.resolve(vals.get('extrapolate'))
    if ex is None:
        ex = True
    return PP(c=c, x=x, extrapolate=ex)


class BS(Obj):
    tname = 'scipy.interpolate.BSpline'

    def p_t(self, I):
        return self.st['t']

    def p_c(self, I):
        return self.st['c']

    def p_k(self, I):
        return self.st['k']

    def call(self, I, a, k):
        t = N.A(I, a[0])
        nu = N.toint(I, a[1] if len(a) > 1 else k.get('nu', 0))
        ex = I.resolve(a[2] if len(a) > 2 else k.get('extrapolate'))
        if ex is None:
            ex = self.get(I, 'extrapolate')
        bs_kinds(I, self)
        return bspl_eval(I, self, t, nu, ex)

    def m_derivative(self, I, a, k):
        nu = N.toint(I, a[0] if a else 1)
        return BSD(base=self, nu=nu)


class BSD(Obj):
    tname = 'scipy.interpolate.BSpline'

    def call(self, I, a, k):
        b = self.st['base']
        bs_kinds(I, b)
        return bspl_eval(I, b, N.A(I, a[0]), self.st['nu'], b.get(I, 'extrapolate'))


def bs_kinds(I, b):
    if b.st['t'].dt.kind in 'iub' or b.st['c'].dt.kind in 'iub':
        I.throw(ValueError, "Buffer dtype mismatch, expected 'const double' but got 'long'")


def knots_intervals(I, t, k, n):
    """non-empty intervals [l] with t[l]<t[l+1], k<=l<n; None if undecidable"""
    out = []
    for i in range(k, n):
        c = I.simp(T.cmp('lt', t[i], t[i + 1]))
        if c is True:
            out.append(i)
        elif c is not False:
            c2 = I.simp(T.cmp('le', t[i + 1], t[i]))
            if c2 is not True:
                return None
    return out


def basis_poly(t, k, l):
    """nonzero B-spline basis on interval l as polynomials (coef lists low->high in s=x-t[l]): {i: [..]}"""
    def padd(p, q):
        n = max(len(p), len(q))
        return [T.add(p[i] if i < len(p) else T.ZERO, q[i] if i < len(q) else T.ZERO) for i in range(n)]

    def pmul1(p, a, b):      # p * (a + b s)
        r = [T.mul(x, a) for x in p] + [T.ZERO]
        for i, x in enumerate(p):
            r[i + 1] = T.add(r[i + 1], T.mul(x, b))
        return r
    N_ = {l: [T.ONE]}
    for d in range(1, k + 1):
        new = {}
        for i in range(l - d, l + 1):
            acc = [T.ZERO]
            if i in N_:
                h = T.sub(t[i + d], t[i])
                if h is not T.ZERO:
                    acc = padd(acc, pmul1(N_[i], T.div(T.sub(t[l], t[i]), h), T.div(T.ONE, h)))
            if i + 1 in N_:
                h = T.sub(t[i + d + 1], t[i + 1])
                if h is not T.ZERO:
                    acc = padd(acc, pmul1(N_[i + 1], T.div(T.sub(t[i + d + 1], t[l]), h), T.neg(T.div(T.ONE, h))))
            new[i] = acc
        N_ = new
    return N_


def bspl_piece(I, t, c2, k, l, D):
    """polynomial coefficients (low->high) on interval l for each of D components"""
    bp = basis_poly(t, k, l)
    res = []
    for d in range(D):
        co = [T.ZERO] * (k + 1)
        for i, p in bp.items():
            for j, x in enumerate(p):
                co[j] = T.add(co[j], T.mul(x, N.num_el(c2[i, d])))
        res.append(co)
    return res


def bspl_eval(I, b, tt, nu, ex):
    t = [N.num_el(e) for e in b.st['t'].elems()]
    k = b.st['k']
    c = b.st['c'].get()
    rest = c.shape[1:]
    c2 = c.reshape(c.shape[0], -1)
    D = c2.shape[1]
    n = len(t) - k - 1
    iv = knots_intervals(I, t, k, n)
    out = []
    if iv is None or not iv:
        for te in tt.elems():
            for d in range(D):
                out.append(T.uf(f'bspline{k}', N.num_el(te), T.num(nu), *t, *[N.num_el(c2[i, d]) for i in range(c2.shape[0])]))
    else:
        pcs = {l: bspl_piece(I, t, c2, k, l, D) for l in iv}
        for te in tt.elems():
            te = N.num_el(te)
            for d in range(D):
                val = None
                for l in reversed(iv):
                    co = pcs[l][d]
                    s = T.sub(te, t[l])
                    v = poly([T.scale(co[j], fall(j, nu)) for j in range(k, nu - 1, -1)], s)
                    val = v if val is None else T.ite(ltx(I, te, t[l + 1]), v, val)
                if ex is not True:
                    ins = T.band(T.cmp('le', t[k], te), T.cmp('le', te, t[n]))
                    val = T.ite(I.simp(ins), val, T.NAN)
                out.append(val)
    return N.ret(N.objarr(tuple(tt.shape) + tuple(rest), out), F)


@ext('scipy.interpolate.BSpline')
def bs_checked(I, a, k):
    b = bs_new(I, a, k)
    for key in ('t', 'c'):
        if b.st[key].dt.kind in 'iub':
            b.st[key] = N.conv(I, b.st[key], F)
    return b


@ext('scipy.interpolate.BSpline.construct_fast')
def bs_new(I, a, k):
    vals = dict(zip(('t', 'c', 'k', 'extrapolate', 'axis'), a))
    vals.update(k)
    t, c, kk = N.A(I, vals['t']), N.A(I, vals['c']), N.toint(I, vals['k'])
    if t.shape[0] < 2 * kk + 2 or c.shape[0] < t.shape[0] - kk - 1:
        I.throw(ValueError, 'Need more knots/coefficients')
    return BS(t=t, c=c, k=kk, extrapolate=I.resolve(vals.get('extrapolate', True)))


@ext('scipy.interpolate.PPoly.from_spline')
def from_spline(I, a, k):
    b = I.resolve(a[0] if a else k['tck'])
    if isinstance(b, tuple):
        b = bs_new(I, list(b), {})
    if not isinstance(b, BS):
        raise Limit('from_spline')
    ex = I.resolve(a[1] if len(a) > 1 else k.get('extrapolate'))
    if ex is None:
        ex = b.get(I, 'extrapolate')
    t = [N.num_el(e) for e in b.st['t'].elems()]
    kk = b.st['k']
    c = b.st['c'].get()
    rest = c.shape[1:]
    c2 = c.reshape(c.shape[0], -1)
    D = c2.shape[1]
    n = len(t) - kk - 1
    iv = knots_intervals(I, t, kk, n)
    out = np.empty((kk + 1, len(t) - 1, D), dtype=object)
    for i in range(len(t) - 1):
        for d in range(D):
            if iv is not None and i in iv:
                co = bspl_piece(I, t, c2, kk, i, D)[d]
                for j in range(kk + 1):
                    out[kk - j, i, d] = co[j]
            else:
                for j in range(kk + 1):
                    out[kk - j, i, d] = T.uf('splpiece', T.num(i), T.num(j), T.num(d), *t, *[N.num_el(x) for x in c2[:, d]])
    out = out.reshape((kk + 1, len(t) - 1) + rest)
    return PP(c=new_arr(out, F), x=b.st['t'], extrapolate=ex)


@ext('scipy.interpolate.make_lsq_spline')
def lsq(I, a, k):
    vals = dict(zip(('x', 'y', 't', 'k', 'w', 'axis'), a))
    vals.update(k)
    x, y, t, kk = N.A(I, vals['x']), N.A(I, vals['y']), N.A(I, vals['t']), N.toint(I, vals.get('k', 3))
    n = t.shape[0] - kk - 1
    yo = y.get()
    rest = yo.shape[1:]
    y2 = yo.reshape(yo.shape[0], -1)
    xs = [N.num_el(e) for e in x.elems()]
    ts = [N.num_el(e) for e in t.elems()]
    out = np.empty((n, y2.shape[1]), dtype=object)
    I.event('lsq', x=xs, y=y2, t=ts, k=kk)
    if len(xs) == n and kk == 1 and xs == ts[1:-1]:
        out[:, :] = y2       # collocation at the knots: the interpolant itself
    else:
        for i in range(n):
            for d in range(y2.shape[1]):
                out[i, d] = T.uf(f'lsq:{kk}:{len(ts)}:{len(xs)}', T.num(i), *ts, *xs, *[N.num_el(v) for v in y2[:, d]])
    return BS(t=t, c=new_arr(out.reshape((n,) + rest), F), k=kk, extrapolate=True)


class Interp1d(Obj):
    tname = 'scipy.interpolate.interp1d'

    def call(self, I, a, k):
        t = N.A(I, a[0])
        x = [N.num_el(e) for e in self.st['x'].elems()]
        y = [N.num_el(e) for e in self.st['y'].elems()]
        fv = self.st['fill']
        out = []
        for te in t.elems():
            te = N.num_el(te)
            inside = T.band(T.cmp('le', x[0], te), T.cmp('le', te, x[-1]))
            if self.st['be'] is True and fv is not EXTRA:
                I.throw_if(T.bnot(inside), ValueError, 'A value in x_new is outside the interpolation range.')
            val = None
            for i in range(len(x) - 2, -1, -1):
                v = self.piece(I, te, x, y, i)
                val = v if val is None else T.ite(ltx(I, te, x[i + 1]), v, val)
            if fv is not EXTRA:
                lo, hi = fv
                val = T.ite(I.simp(inside), val, T.ite(ltx(I, te, x[0]), lo, hi))
            out.append(val)
        return N.new_arr(N.objarr(t.shape, out), F)

    def piece(self, I, te, x, y, i):
        kind = self.st['kind']
        if kind in ('linear', 1, 'slinear'):
            return T.add(y[i], T.mul(T.div(T.sub(y[i + 1], y[i]), T.sub(x[i + 1], x[i])), T.sub(te, x[i])))
        if kind in ('previous', 'zero', 0):
            return y[i]
        if kind == 'next':
            return y[i + 1]
        return T.uf(f'interp1d:{kind}', te, *x, *y)

    def m__check_bounds(self, I, a, k):
        t = N.A(I, a[0])
        x = [N.num_el(e) for e in self.st['x'].elems()]
        lo = N.elementwise(I, lambda e: T.cmp('lt', N.num_el(e), x[0]), [t], B)
        hi = N.elementwise(I, lambda e: T.cmp('lt', x[-1], N.num_el(e)), [t], B)
        return (lo, hi)

    def p_x(self, I):
        return self.st['x']

    def p_y(self, I):
        return self.st['y']


EXTRA = object()


@ext('scipy.interpolate.interp1d')
def interp1d(I, a, k):
    vals = dict(zip(('x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'), a))
    vals.update(k)
    x, y = N.A(I, vals['x']), N.A(I, vals['y'])
    if x.ndim != 1 or y.ndim != 1:
        raise Limit('interp1d dims')
    if x.shape != y.shape:
        I.throw(ValueError, 'x and y arrays must be equal in length along interpolation axis.')
    fv = I.resolve(vals.get('fill_value', T.NAN))
    if fv == 'extrapolate' and isinstance(fv, str):
        fill = EXTRA
    elif isinstance(fv, tuple):
        fill = tuple(N.num_el(I.resolve(v)) for v in fv)
    else:
        fill = (N.num_el(fv), N.num_el(fv))
    be = I.resolve(vals.get('bounds_error'))
    if be is None:
        be = 'fill_value' not in vals
    return Interp1d(x=x, y=y, kind=I.resolve(vals.get('kind', 'linear')), be=be, fill=fill)


@ext('numpy.interp')
def np_interp(I, a, k):
    vals = dict(zip(('x', 'xp', 'fp', 'left', 'right'), a))
    vals.update(k)
    xp, fp = N.A(I, vals['xp']), N.A(I, vals['fp'])
    lo = N.num_el(I.resolve(vals['left'])) if vals.get('left') is not None else N.num_el(fp.elems()[0])
    hi = N.num_el(I.resolve(vals['right'])) if vals.get('right') is not None else N.num_el(fp.elems()[-1])
    return Interp1d(x=xp, y=fp, kind='linear', be=False, fill=(lo, hi)).call(I, [vals['x']], {})


# ------------------------------------------------------------------ matplotlib: opaque, but recorded
class LibRaise:
    pass
