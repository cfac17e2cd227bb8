"""calendar and decimal-year conversions"""
import math

from .common import *
from .. import npmodel

Q = 86400.


def year0(y):
    """modified Julian date of January 1st"""
    return T.sub(npmodel.civil(y, T.num(1), T.num(1)), T.num(10957))


def leap(y):
    r = lambda k: T.cmp('eq', T.fn('mod', y, T.num(k)), T.ZERO)      # noqa
    return T.band(r(4), T.bor(T.bnot(r(100)), r(400)))


def ylen(y):
    return T.ite(leap(y), T.num(366), T.num(365))


def sc(x):
    return SA(np.array(T.lift(x), dtype=object), F, True)


class Env:
    """trials with prescribed values of symbols"""
    def __init__(self, c, n, **gen):
        self.ts = []
        for i, t in enumerate(c.tr(n)):
            for k, g in gen.items():
                t.env[k] = g(i, t)
            self.ts.append(t)


def doms(c, **vals):
    """all prescribed values of the symbols, zipped"""
    n = max(len(v) for v in vals.values())
    ts = c.tr(n)
    for i, t in enumerate(ts):
        for k, v in vals.items():
            t.env[k] = float(v[i % len(v)])
    return ts


YEARS = [2000, 2001, 1999, 1900, 2100, 2004, 1996, 2400, 1970, 1969, 1800, 1600, 2023, 2024, 1904, 1583, 2200, 1590, 1677, 1707, 2293]


def days(y, m, d):
    from datetime import date
    return (date(y, m, d) - date(2000, 1, 1)).days


def edges():
    out = []
    for y in YEARS:
        a, b = days(y, 1, 1), days(y + 1, 1, 1)
        out += [a, a + 1e-3, a + 0.5, b - 1e-3, b - 0.5, a + 59.25, a + 180.7, a + 31, a + 60]
    return out


def dyears():
    return [y + f for y in YEARS + [-1, 0, -5, 399, -4713] for f in (0., 1e-4, 0.25, 0.5, 0.75, 0.9999)]


@rule('C21', 'Time conversions are mutually inverse and follow the calendar',
      'value-graph equality of every conversion with the calendar closed form, and of the compositions with the identity, '
      'over a symbolic time and array shapes')
def c21(ck):
    def leapyear(c):
        A = c.an()
        y = sym('y', 'int')
        D = doms(c, y=list(range(1580, 2420)) if c.thorough else list(range(1890, 2110)) + [1600, 1700, 1800, 2200, 2300, 2400, 2800])
        want = SA(np.array(leap(y), dtype=object), B, True)
        for what, v in (('integer', y), ('array', new_arr(objarr0(y), INT))):
            r = A.call(DU + 'is_leap_year', v)
            g = c.returns(r, DU + 'is_leap_year', what)
            c.equal(boolof(g), boolof(want), DU + 'is_leap_year', f'leap year of an {what}', dom=D)
        g = c.returns(A.call(DU + 'is_leap_year', new_arr(objarr0(y), I4)), DU + 'is_leap_year', 'integer of 32 bits')
        c.equal(boolof(g), boolof(want), DU + 'is_leap_year', 'leap year of an integer of 32 bits', dom=D)
        for shape in ((2,), (2, 2)):
            a = A.syms('yy', shape, 'int')
            g = c.returns(A.call(DU + 'is_leap_year', a), DU + 'is_leap_year', 'array')
            e = a.get()
            w = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                w[i] = leap(e[i])
            D2 = doms(c, **{f'yy_{"_".join(map(str, i))}': YEARS[k * 3:] + YEARS for k, i in enumerate(np.ndindex(*shape))})
            c.equal(g, SA(w, B, False), DU + 'is_leap_year', f'leap years of an array of shape {shape}', dom=D2)
        for what, v in (('number', sym('f')), ('array', A.syms('f', 2)), ('float number', 2000.5)):
            c.always_raises(A.call(DU + 'is_leap_year', v), TypeError, DU + 'is_leap_year', f'leap year of a fractional {what}')

    def boolof(s):
        return s
    ck.add('leap year rule', leapyear)

    def d2m(c, ly, form):
        A = c.an()
        t = sym('t', 'dyear')
        kw = {} if ly is None else dict(leap_year=ly)
        if ly is False:
            want = T.scale(T.sub(t, T.num(2000)), 365.25)
        else:
            y = T.fn('floor', t)
            want = T.add(year0(y), T.mul(T.sub(t, y), ylen(y)))
        D = doms(c, t=dyears())
        arg = {'number': t, 'array': A.arr([t]), '0-d': A.arr(t), 'matrix': A.arr([[t], [t]])}[form]
        g = c.returns(A.call(DU + 'dyear_to_mjd', arg, **kw), DU + 'dyear_to_mjd', form)
        c.equal(off(float_(g)), off(shaped(want, arg)), DU + 'dyear_to_mjd', f'modified Julian date of a decimal year ({form})', dom=D, tol=1e-9)
        for y in (2000, 1999, 1900, 2004, 2100):
            for v in (y, float(y)):
                g = c.returns(A.call(DU + 'dyear_to_mjd', v, **kw), DU + 'dyear_to_mjd', 'whole year')
                w = (y - 2000) * 365.25 if ly is False else days(y, 1, 1)
                c.equal(float_(g), sc(T.num(w)), DU + 'dyear_to_mjd', f'start of the year {v!r}')

    def m2d(c, ly, form):
        A = c.an()
        t = sym('t', 'mjd')
        kw = {} if ly is None else dict(leap_year=ly)
        D = doms(c, t=edges())
        arg = {'number': t, 'array': A.arr([t]), '0-d': A.arr(t), 'matrix': A.arr([[t], [t]])}[form]
        g = c.returns(A.call(DU + 'mjd_to_dyear', arg, **kw), DU + 'mjd_to_dyear', form)
        for tr in D:
            x = tr.env['t']
            if ly is False:
                w = x / 365.25 + 2000
            else:
                y = int(2000 + x // 365.25) - 2
                while not days(y, 1, 1) <= x < days(y + 1, 1, 1):
                    y += 1
                w = y + (x - days(y, 1, 1)) / (days(y + 1, 1, 1) - days(y, 1, 1))
            v = np.asarray(conc(g, tr), dtype=float)
            c.compared += 1
            shp = {'number': (), '0-d': (), 'array': (1,), 'matrix': (2, 1)}[form]
            if v.shape != shp or not np.allclose(v, w, rtol=0, atol=1e-9):
                c.fail(f'decimal year of {x!r}: {v} instead of {w}', DU + 'mjd_to_dyear', got=str(v), want=w, time=x)
        for n in (0, 365, 366, 7305, -1, -365, 59, 60, 8766):
            for v in (n, float(n), new_arr(objarr0(T.num(n)), INT)):
                g = c.returns(A.call(DU + 'mjd_to_dyear', v, **kw), DU + 'mjd_to_dyear', 'whole day')
                if ly is False:
                    w = n / 365.25 + 2000
                else:
                    y = 1990
                    while not days(y, 1, 1) <= n < days(y + 1, 1, 1):
                        y += 1
                    w = y + (n - days(y, 1, 1)) / (days(y + 1, 1, 1) - days(y, 1, 1))
                c.equal(float_(g), sc(T.num(w)), DU + 'mjd_to_dyear', f'decimal year of day {n} ({type(v).__name__})', tol=1e-11)

    def float_(s):
        return SA(s.v, F, s.scalar) if isinstance(s, SA) else s

    def off(s):
        """shifted away from zero, so that the tolerance is one on the time, not on its distance to the epoch"""
        if not isinstance(s, SA):
            return s
        e = np.empty(s.v.shape, dtype=object)
        for i in np.ndindex(*s.v.shape):
            e[i] = T.add(T.lift(s.v[i]), T.num(1000))
        return SA(e if s.v.shape else np.array(e[()], dtype=object), F, s.scalar)

    def shaped(x, arg):
        if isinstance(arg, Arr):
            e = np.empty(arg.shape, dtype=object)
            e[...] = x
            return SA(e, F, False)
        return sc(x)
    for ly in (True, False, None):
        for form in ('number', 'array', '0-d', 'matrix'):
            ck.add(f'dyear_to_mjd/{ly}/{form}', d2m, ly, form)
            ck.add(f'mjd_to_dyear/{ly}/{form}', m2d, ly, form)

    def trip(c, ly):
        A = c.an()
        env = A.client('''
def there(t, ly):
    return cp.data_utils.dyear_to_mjd(cp.data_utils.mjd_to_dyear(t, leap_year=ly), leap_year=ly)
def back(t, ly):
    return cp.data_utils.mjd_to_dyear(cp.data_utils.dyear_to_mjd(t, leap_year=ly), leap_year=ly)
''')
        t, u = sym('t', 'mjd'), sym('u', 'dyear')
        for form, mk in (('number', lambda s: s), ('array', lambda s: A.arr([s, s]))):
            r = c.returns(A.call(env['there'], mk(t), ly), DU + 'dyear_to_mjd', 'round trip')
            c.equal(off(float_(r)), off(shaped(t, mk(t))), DU + 'dyear_to_mjd', f'date to decimal year and back ({form}, leap_year={ly})',
                    dom=doms(c, t=edges()), tol=1e-9)
            r = c.returns(A.call(env['back'], mk(u), ly), DU + 'mjd_to_dyear', 'round trip')
            c.equal(off(float_(r)), off(shaped(u, mk(u))), DU + 'mjd_to_dyear', f'decimal year to date and back ({form}, leap_year={ly})',
                    dom=doms(c, u=dyears()), tol=1e-11)
    for ly in (True, False, None):
        ck.add(f'round trip/{ly}', trip, ly)

    def default(c):
        A = c.an()
        t = sym('t', 'mjd')
        for f in ('dyear_to_mjd', 'mjd_to_dyear'):
            x = sym('u', 'dyear') if f == 'dyear_to_mjd' else t
            D = doms(c, t=edges(), u=dyears())
            a, b = A.call(DU + f, x).value, A.call(DU + f, x, leap_year=True).value
            c.equal(a, b, DU + f, 'default of the leap-year option', dom=D)
            env = A.client(f'''
import numpy as np
def same(x):
    f = cp.data_utils.{f}
    return [f(x, leap_year=1), f(x, leap_year=np.bool_(True)), f(x, True), f(x, leap_year=None)]
def other(x):
    f = cp.data_utils.{f}
    return [f(x, leap_year=0), f(x, leap_year=np.bool_(False)), f(x, False)]
''')
            for n, ly in (('same', True), ('other', False)):
                want = A.call(DU + f, x, leap_year=ly).value
                got = c.returns(A.call(env[n], x), DU + f, n)
                for k, g in enumerate(got):
                    c.equal(g, want, DU + f, f'leap-year option {k} that means {ly}', dom=D)
    ck.add('default option', default)

    PARTS = ('hour', 'minute', 'second', 'microsecond', 'nanosecond')
    UNIT = dict(hour=1 / 24, minute=1 / 1440, second=1 / Q, microsecond=1e-6 / Q, nanosecond=1e-9 / Q)

    def dates(c):
        A = c.an()
        rows = [(2000, 1, 1), (1999, 12, 31), (2004, 2, 29), (1900, 3, 1), (1969, 7, 20), (2023, 10, 9), (1600, 1, 1), (1590, 3, 1), (1700, 2, 28), (2301, 7, 4), (2100, 12, 31),
                (2018, 2, 28)]
        for y, m, d in rows:
            g = c.returns(A.call(DU + 'mjd2000', y, m, d), DU + 'mjd2000', 'date')
            c.equal(float_(g), sc(T.num(days(y, m, d))), DU + 'mjd2000', f'{y}-{m}-{d}')
        for y in (2000, 2003):
            c.equal(float_(A.call(DU + 'mjd2000', y).value), sc(T.num(days(y, 1, 1))), DU + 'mjd2000', f'year {y} only')
            c.equal(float_(A.call(DU + 'mjd2000', y, 5).value), sc(T.num(days(y, 5, 1))), DU + 'mjd2000', f'year {y} and month')
        for k in PARTS:
            s = sym('k', 'int')
            for y, m, d in rows[:4]:
                g = c.returns(A.call(DU + 'mjd2000', y, m, d, **{k: s}), DU + 'mjd2000', k)
                c.equal(float_(g), sc(T.add(T.num(days(y, m, d)), T.scale(s, UNIT[k]))), DU + 'mjd2000', f'{k} of {y}-{m}-{d}',
                        dom=doms(c, k=[0, 1, 7, 12, 23, 59, 100, -3]), tol=1e-12)
        ks = [sym(k, 'int') for k in PARTS]
        want = T.num(days(2011, 3, 4))
        for k, s in zip(PARTS, ks):
            want = T.add(want, T.scale(s, UNIT[k]))
        D = doms(c, hour=[0, 5, 23, 11], minute=[59, 3, 7], second=[1, 59, 30], microsecond=[5, 999999, 123456], nanosecond=[0, 999, 500])
        g = c.returns(A.call(DU + 'mjd2000', 2011, 3, 4, *ks), DU + 'mjd2000', 'all parts')
        c.equal(float_(g), sc(want), DU + 'mjd2000', 'date with all parts by position', dom=D, tol=1e-13)
        g = c.returns(A.call(DU + 'mjd2000', 2011, month=3, day=4, **dict(zip(PARTS, ks))), DU + 'mjd2000', 'all parts')
        c.equal(float_(g), sc(want), DU + 'mjd2000', 'date with all parts by name', dom=D, tol=1e-13)
    ck.add('calendar dates', dates)

    def bcast(c):
        A = c.an()
        ys, ms, ds = [2001, 1999, 2000], [1, 12, 2], [31, 5, 29]
        g = c.returns(A.call(DU + 'mjd2000', A.arr(ys, INT), A.arr(ms, INT), A.arr(ds, INT)), DU + 'mjd2000', 'arrays')
        c.equal(float_(g), SA(np.array([T.num(days(*x)) for x in zip(ys, ms, ds)], dtype=object), F, False), DU + 'mjd2000',
                'arrays of dates')
        g = c.returns(A.call(DU + 'mjd2000', A.arr(ys, INT), 3, 1), DU + 'mjd2000', 'arrays')
        c.equal(float_(g), SA(np.array([T.num(days(y, 3, 1)) for y in ys], dtype=object), F, False), DU + 'mjd2000', 'array of years')
        h = A.syms('h', 3)
        g = c.returns(A.call(DU + 'mjd2000', 2001, 3, 1, A.arr([1, 5, 23], INT)), DU + 'mjd2000', 'hours')
        c.equal(float_(g), SA(np.array([T.num(days(2001, 3, 1) + k / 24) for k in (1, 5, 23)], dtype=object), F, False), DU + 'mjd2000',
                'array of hours')
        g = c.returns(A.call(DU + 'mjd2000', new_arr(np.array([[T.num(2001)], [T.num(2002)]], dtype=object), INT), A.arr([1, 2], INT)),
                      DU + 'mjd2000', 'broadcast')
        w = np.array([[T.num(days(y, m, 1)) for m in (1, 2)] for y in (2001, 2002)], dtype=object)
        c.equal(float_(g), SA(w, F, False), DU + 'mjd2000', 'years in rows, months in columns')
    ck.add('arrays of dates', bcast)

    def objects(c, kind):
        A = c.an()
        rows = [(2000, 1, 1, 0, 0, 0, 0), (2002, 3, 4, 0, 0, 0, 0), (1999, 12, 31, 23, 59, 59, 999999), (2004, 2, 29, 12, 30, 15, 250000),
                (1969, 7, 20, 20, 17, 40, 1), (2023, 10, 9, 0, 0, 0, 123), (1900, 3, 1, 6, 0, 0, 500), (1601, 1, 1, 0, 0, 1, 999), (2399, 12, 31, 23, 0, 0, 1999)]
        if kind == 'M8[ns]':
            rows = [x for x in rows if 1700 < x[0] < 2250]

        def num(y, m, d, H, M, S, us):
            from fractions import Fraction as Fr
            return T.num(Fr(days(y, m, d)) + Fr(H * 3600 + M * 60 + S, 86400) + Fr(us, 86400 * 10**6))
        env = A.client('''
import datetime
import numpy as np
def one(row, kind):
    d = datetime.datetime(*row)
    if kind == 'array':
        d = np.array([d, d])
    elif kind == 'list':
        d = [d, d]
    elif kind == '0-d':
        d = np.asarray(d)
    elif kind == 'M8':
        d = np.datetime64(d)
    elif kind == 'M8[us]':
        d = np.array([d, d], dtype='datetime64[us]')
    elif kind == 'M8[ns]':
        d = np.array([d, d]).astype('datetime64[ns]')
    return cp.data_utils.mjd2000(d)
def all(rows, kind):
    d = [datetime.datetime(*row) for row in rows]
    if kind.startswith('M8'):
        d = np.array(d, dtype='datetime64[us]')
        if kind == 'M8[ns]':
            d = d.astype('datetime64[ns]')
    elif kind in ('array', '0-d'):
        d = np.array(d)
    return cp.data_utils.mjd2000(d)
def parts(row):
    return cp.data_utils.mjd2000(datetime.datetime(*row)) - cp.data_utils.mjd2000(*row)
''')
        w = DU + 'mjd2000'

        def within(s, rs):
            # counted from the day before, so that the tolerance is one on the time of the day
            e = np.array(s.v, dtype=object)
            for i, r in zip(np.ndindex(*e.shape), rs):
                e[i] = T.sub(T.lift(e[i]), T.num(days(*r[:3]) - 1))
            return SA(e, F, s.scalar)
        for r in rows:
            g = c.returns(A.call(env['one'], r, kind), w, f'datetime object ({kind})')
            want = SA(np.array([num(*r)] * 2, dtype=object), F, False) if kind in ('array', 'list', 'M8[us]', 'M8[ns]') else sc(num(*r))
            c.equal(within(float_(g), [r] * 2), within(want, [r] * 2), w, f'modified Julian date of the datetime object {r} ({kind})', tol=1e-10)
            if kind == 'single':
                g = c.returns(A.call(env['parts'], r), w, 'datetime object')
                c.equal(within(float_(g), [(1999, 12, 31)]), sc(T.num(2)), w, f'datetime object and calendar date {r}', tol=1e-10)
        g = c.returns(A.call(env['all'], tuple(rows), kind), w, f'datetime objects ({kind})')
        c.equal(within(float_(g), rows), within(SA(np.array([num(*r) for r in rows], dtype=object), F, False), rows), w, f'several datetime objects ({kind})',
                tol=1e-10)
    for kind in ('single', '0-d', 'array', 'list', 'M8', 'M8[us]', 'M8[ns]'):
        ck.add(f'datetime objects/{kind}', objects, kind)

    def stamps(c):
        A = c.an()
        t = sym('t', 'mjd')
        env = A.client('''
import numpy as np
def trip(t):
    return cp.data_utils.mjd2000(cp.data_utils.timestamp(t))
def since(t):
    return (cp.data_utils.timestamp(t) - np.datetime64('1970-01-01')) / np.timedelta64(1, 'D')
def dates(x):
    return cp.data_utils.mjd2000(x)
def parse(s):
    return cp.data_utils.mjd2000(np.datetime64(s))
def parses():
    return cp.data_utils.mjd2000(np.array(['2000-01-02', '1999-12-31T12:00'], dtype='datetime64'))
def out(s):
    return cp.data_utils.timestamp(cp.data_utils.mjd2000(np.datetime64(s))) - np.datetime64(s)
''')
        D = doms(c, t=[x for x in edges() if abs(x) < 95000] + [x + k / Q for x in (0., -1., 3653., -36525., 9000.) for k in (0.25, 0.501, 43210.123, 86399.75)])
        for form, mk in (('number', lambda s: s), ('array', lambda s: A.arr([s, s]))):
            g = c.returns(A.call(env['trip'], mk(t)), DU + 'timestamp', 'round trip')
            c.equal(off(float_(g)), off(shaped(t, mk(t))), DU + 'timestamp', f'date to time stamp and back ({form})', dom=D, tol=1e-9)
            g = c.returns(A.call(env['since'], mk(t)), DU + 'timestamp', 'time stamp')
            c.equal(off(float_(g)), off(shaped(T.add(t, T.num(10957)), mk(t))), DU + 'timestamp', f'time stamp in days since 1970 ({form})', dom=D,
                    tol=1e-9)
        for s, w in (('2000-01-01', 0), ('2000-01-02T12:00', 1.5), ('1999-12-31T18:00', -0.25), ('2004-02-29', days(2004, 2, 29)),
                     ('1900-01-01', days(1900, 1, 1)), ('1650-05-06', days(1650, 5, 6)), ('2350-01-01T06:00', days(2350, 1, 1) + .25), ('2000-01-01T00:00:30', 30 / Q)):
            g = c.returns(A.call(env['parse'], s), DU + 'mjd2000', s)
            c.equal(float_(g), sc(T.num(w)), DU + 'mjd2000', f'datetime64 {s}', tol=1e-12)
        g = c.returns(A.call(env['parses']), DU + 'mjd2000', 'array of datetime64')
        c.equal(float_(g), SA(np.array([T.num(1), T.num(-0.5)], dtype=object), F, False), DU + 'mjd2000', 'array of datetime64')
    ck.add('time stamps', stamps)
