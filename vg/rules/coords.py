"""coordinates, frames, rotations, time conversions"""
import math

from . import oracle as S
from .common import *
from .synth import setr, oarr
from ..enclose import Enclosure, Unsupported

CO = 'coordinate_utils.'
REFS = ('gsm', 'sm', 'mag')


def el(x, i=()):
    """element of a snapshot (scalars and arrays of one element alike)"""
    if isinstance(x, SA):
        return x.v[i] if x.v.shape else x.v[()]
    if isinstance(x, Arr):
        return el(SA(x.get(), x.dt, x.scalar), i)
    if isinstance(x, np.ndarray):
        return x[i]
    return T.lift(x)


def elems_of(*xs):
    """broadcast element tuples of snapshots / arrays / scalars with their index"""
    sh = [x.v.shape if isinstance(x, SA) else x.shape if isinstance(x, Arr) else () for x in xs]
    tot = np.broadcast_shapes(*sh)
    for i in np.ndindex(*tot):
        row = []
        for x, s in zip(xs, sh):
            j = i[len(i) - len(s):]
            row.append(el(x, tuple(0 if n == 1 else k for k, n in zip(j, s))))
        yield i, row


def dot(a, b):
    s = T.ZERO
    for x, y in zip(a, b):
        s = T.add(s, T.mul(x, y))
    return s


def cross(a, b):
    return [T.sub(T.mul(a[1], b[2]), T.mul(a[2], b[1])), T.sub(T.mul(a[2], b[0]), T.mul(a[0], b[2])),
            T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))]


def unit(v):
    n = T.sqrt(dot(v, v))
    return [T.div(x, n) for x in v]


def direction(th, ph):
    c, s = T.fn('cos', S.rad(th)), T.fn('sin', S.rad(th))
    return [T.mul(s, T.fn('cos', S.rad(ph))), T.mul(s, T.fn('sin', S.rad(ph))), c]


def use(th, ph):
    """up, south, east at a point, in cartesian components"""
    c, s, cp, sp = (T.fn(f, S.rad(x)) for x in (th, ph) for f in ('cos', 'sin'))
    return direction(th, ph), [T.mul(c, cp), T.mul(c, sp), T.neg(s)], [T.neg(sp), cp, T.ZERO]


def true(c, cond, w, what, n=None):
    c.cond_equal(cond, True, w, what, n=n)


def le(a, b, slack=1e-9):
    return T.cmp('le', a, T.add(T.lift(b), T.num(slack)))


def vec(s, i):
    """last axis of a (..., 3) snapshot at index i"""
    return [s.v[i + (k,)] for k in range(3)]


def isangle(c, got, want, w, what, n=None):
    """equal modulo 360 degrees"""
    for f in ('cos', 'sin'):
        c.equal(T.fn(f, S.rad(got)), T.fn(f, S.rad(want)), w, what, n=n)


def sunpos(A, t):
    """direction of the sun in the analysed tree, as (colatitude, azimuth)"""
    r = A.call(CO + 'sun_position', t)
    return r.value


DIP = {
    'configured': None, 'array': 'array', 'packed array': 'packed', 'three': 'three', 'list of three': 'list3', 'angles': 'angles',
    'list of angles': 'list2', 'arrays of angles': 'angles2', 'three arrays': 'three2',
}


def dipole(A, form, n=2):
    """(value to pass, list of unit vectors per leading index or a single one)"""
    g = [T.neg(T.add(sym('g10', 'pos'), T.num(1))), sym('g11', 'real'), sym('h11', 'real')]

    def north(g):
        return unit([T.neg(g[1]), T.neg(g[2]), T.neg(g[0])])
    th, ph = sym('dth', 'theta'), sym('dph', 'phi')
    if form is None:
        d = cfgval(A, 'params.dipole').get()
        return None, north(list(d)), ()
    if form == 'array':
        return A.arr(g), north(g), ()
    if form == 'packed':
        d = [[T.neg(T.add(sym(f'g10{i}', 'pos'), T.num(1))), sym(f'g11{i}', 'real'), sym(f'h11{i}', 'real')] for i in range(n)]
        return A.arr(d), [north(x) for x in d], (n,)
    if form == 'three':
        return tuple(g), north(g), ()
    if form == 'list3':
        return LList(g), north(g), ()
    if form == 'angles':
        return (th, ph), direction(th, ph), ()
    if form == 'list2':
        return LList([th, ph]), direction(th, ph), ()
    if form == 'angles2':
        a, b = A.syms('dth', n, 'theta'), A.syms('dph', n, 'phi')
        return (a, b), [direction(x, y) for x, y in zip(a.get(), b.get())], (n,)
    if form == 'three2':
        d = [[T.neg(T.add(sym(f'g10{i}', 'pos'), T.num(1))), sym(f'g11{i}', 'real'), sym(f'h11{i}', 'real')] for i in range(n)]
        return tuple(A.arr([x[k] for x in d]) for k in range(3)), [north(x) for x in d], (n,)
    raise KeyError(form)


def setdipole(A):
    g = A.arr([T.neg(T.add(sym('c10', 'pos'), T.num(1))), sym('c11', 'real'), sym('k11', 'real')])
    setcfg(A, 'params.dipole', g)


def args3(A, sh, tag='', th='theta', first='radius'):
    out = []
    for n, s, k in zip(('r', 'th', 'ph'), sh, (first, th, 'phi')):
        out.append(sym(n + tag, k) if s is None else A.syms(n + tag, s, k))
    return out


SH = [(None, None, None), ((3,), (3,), (3,)), ((2, 1), (3,), (3,)), (None, (2, 2), None), ((2,), None, (3, 1)), ((), (), ())]


# ------------------------------------------------------------------ elementary conversions
@rule('C18', 'Elementary coordinate conversions follow the documented conventions',
      'value-graph equality with the closed form of each conversion; range of the returned angles')
def c18(ck):
    def s2c(c, sh):
        A = c.an()
        w = c.where(CO + 'spherical_to_cartesian')
        r, th, ph = args3(A, sh)
        x = A.call(CO + 'spherical_to_cartesian', r, th, ph)
        c.returns(x, w, 'conversion')
        for i, (q, t, p, X, Y, Z) in elems_of(r, th, ph, *x.value):
            d = direction(t, p)
            for got, want, nm in zip((X, Y, Z), d, 'xyz'):
                c.equal(got, T.mul(q, want), w, f'{nm} of element {i} for shapes {sh}')

    def c2s(c, sh, kind):
        A = c.an()
        w = c.where(CO + 'cartesian_to_spherical')
        a = [sym(n, kind) if s is None else A.syms(n, s, kind) for n, s in zip('xyz', sh)]
        if kind == 'axis':
            a = [T.num(0), T.num(0), a[2]]
        r = A.call(CO + 'cartesian_to_spherical', *a)
        c.returns(r, w, 'conversion')
        for i, (x, y, z, rr, th, ph) in elems_of(*a, *r.value):
            c.equal(rr, T.sqrt(dot([x, y, z], [x, y, z])), w, f'radius of element {i}')
            for got, want, nm in zip(direction(th, ph), (x, y, z), 'xyz'):
                c.equal(T.mul(rr, got), want, w, f'{nm} of the direction of element {i}')
            true(c, T.band(le(T.num(0), th), le(th, 180), le(T.num(-180), ph), le(ph, 180)), w, 'colatitude in [0, 180], azimuth in (-180, 180]')

    def axes(c):
        A = c.an()
        w = c.where(CO + 'cartesian_to_spherical')
        for v, th, ph in (((0, 0, 2), 0, None), ((0, 0, -2), 180, None), ((3, 0, 0), 90, 0), ((-3, 0, 0), 90, 180), ((0, 2, 0), 90, 90),
                          ((0, -2, 0), 90, -90), ((1, 1, 0), 90, 45), ((-1, -1, 0), 90, -135)):
            r = A.call(CO + 'cartesian_to_spherical', *[T.num(x) for x in v])
            c.equal(el(r.value[1]), T.num(th), w, f'colatitude of {v}')
            if ph is not None:
                c.equal(el(r.value[2]), T.num(ph), w, f'azimuth of {v}')
    for n, sh in enumerate(SH):
        ck.add(f'spherical_to_cartesian/{sh}', s2c, sh)
        ck.add(f'cartesian_to_spherical/{sh}', c2s, sh, 'real')
    ck.add('cartesian_to_spherical/axes', axes)

    def azimuth(c, sh):
        A = c.an()
        w = c.where(CO + 'center_azimuth')
        p = sym('ph', 'phi') if sh is None else A.syms('ph', sh, 'phi')
        r = A.call(CO + 'center_azimuth', p)
        c.returns(r, w, 'centring')
        for i, (x, y) in elems_of(p, r.value):
            isangle(c, y, x, w, f'azimuth {i} modulo a full turn')
            true(c, T.band(T.cmp('lt', T.num(-180 - 1e-9), y), le(y, 180)), w, 'centred azimuth in (-180, 180]', 64)
    for sh in (None, (), (3,), (2, 2)):
        ck.add(f'center_azimuth/{sh}', azimuth, sh)

    def special(c):
        A = c.an()
        w = c.where(CO + 'center_azimuth')
        for v in (-720, -540, -450, -360, -270, -180, -90, 0, 90, 180, 181, 270, 359, 360, 450, 540, 720, -0.5, 179.5, 180.5):
            want = v % 360
            want = want - 360 if want > 180 else want
            for p in (T.num(v), A.arr([v, 0.])):
                r = A.call(CO + 'center_azimuth', p)
                c.equal(el(r.value, (0,)), T.num(want), w, f'centred azimuth of {v}')
    ck.add('center_azimuth/special', special)

    def local(c, sh):
        A = c.an()
        w = c.where(CO + 'local_time')
        t = sym('t', 'day') if sh[0] is None else A.syms('t', sh[0], 'day')
        p = sym('ph', 'phi') if sh[1] is None else A.syms('ph', sh[1], 'phi')
        r = A.call(CO + 'local_time', t, p)
        c.returns(r, w, 'local time')
        for i, (x, y, h) in elems_of(t, p, r.value):
            u = T.mul(T.num(2), T.PI, T.add(x, T.div(y, T.num(360))))
            g = T.mul(T.div(h, T.num(12)), T.PI)
            for f in ('cos', 'sin'):
                c.equal(T.fn(f, g), T.fn(f, u), w, f'local time {i}: hour angle', tol=1e-6)
            true(c, T.band(le(T.num(0), h), T.cmp('lt', h, T.num(24))), w, 'local time in [0, 24) hours', 48)
    for sh in ((None, None), ((3,), (3,)), ((2, 1), (3,)), (None, (2,)), ((2,), None)):
        ck.add(f'local_time/{sh}', local, sh)

    def zenith(c, sh):
        A = c.an()
        w = c.where(CO + 'zenith_angle')
        t, th, ph = args3(A, sh, first='mjd')
        r = A.call(CO + 'zenith_angle', t, th, ph)
        c.returns(r, w, 'zenith angle', assume=sunyears(t))
        s = sunpos(A, t)
        for i, (a, b, st, sp, z) in elems_of(th, ph, s[0], s[1], r.value):
            c.equal(T.fn('cos', S.rad(z)), dot(direction(a, b), direction(st, sp)), w, f'cosine of zenith angle {i}', assume=sunyears(t))
            true(c, T.band(le(T.num(0), z), le(z, 180)), w, 'zenith angle in [0, 180]')
    for sh in SH:
        ck.add(f'zenith_angle/{sh}', zenith, sh)

    def sun(c):
        # low-precision ephemeris of the Astronomical Almanac, an independent statement of the same convention
        A = c.an()
        w = c.where(CO + 'sun_position')
        t = T.add(T.num(9000), T.scale(sym('tau', 'real'), 9000))      # 1975 .. 2073
        r = A.call(CO + 'sun_position', t)
        c.returns(r, w, 'position of the sun')
        d = T.sub(t, T.num(0.5))
        g = S.rad(T.add(T.num(357.528), T.scale(d, 0.9856003)))
        lam = S.rad(T.add(T.num(280.46), T.scale(d, 0.9856474), T.scale(T.fn('sin', g), 1.915), T.scale(T.fn('sin', T.scale(g, 2)), 0.02)))
        eps = S.rad(T.num(23.439))
        cel = [T.fn('cos', lam), T.mul(T.fn('cos', eps), T.fn('sin', lam)), T.mul(T.fn('sin', eps), T.fn('sin', lam))]
        gm = S.rad(T.add(T.num(280.46062), T.scale(d, 360.9856473662)))
        cg, sg = T.fn('cos', gm), T.fn('sin', gm)
        geo = [T.add(T.mul(cg, cel[0]), T.mul(sg, cel[1])), T.sub(T.mul(cg, cel[1]), T.mul(sg, cel[0])), cel[2]]
        got = direction(el(r.value[0]), el(r.value[1]))
        true(c, T.cmp('lt', T.num(0.999999), dot(got, geo)), w, 'direction of the sun within 0.1 degree of the almanac', 40)
        true(c, T.band(le(T.num(0), el(r.value[0])), le(el(r.value[0]), 180), le(T.num(-180), el(r.value[1])), le(el(r.value[1]), 180)), w,
             'angles of the sun in range')
    ck.add('sun_position', sun)

    def geodetic(c, sh, conf, vecs):
        A = c.an()
        if conf:
            a = T.scale(T.add(sym('ea', 'gap'), T.num(3)), 1000)
            setcfg(A, 'params.ellipsoid', A.arr([a, T.mul(a, T.sub(T.num(1), T.scale(sym('fl', 'gap'), 0.02)))]))
        a, b = cfgval(A, 'params.ellipsoid').get()
        w = c.where(CO + 'gg_to_geo')
        h = T.scale(sym('h', 'real'), 200) if sh[0] is None else A.arr(oarr([T.scale(sym(f'h{i}', 'real'), 200) for i in range(int(np.prod(sh[0])))], sh[0]))
        be = sym('be', 'theta') if sh[1] is None else A.syms('be', sh[1], 'theta')
        X, Z = (sym('X'), sym('Z')) if not vecs or sh[2] is None else (A.syms('X', sh[2]), A.syms('Z', sh[2]))
        r = A.call(CO + 'gg_to_geo', h, be, *([X, Z] if vecs else []))
        c.returns(r, w, 'conversion')
        if vecs is False:
            c.ok(len(r.value) == 2, w, 'two results without vector components')
        for i, (hh, bb, xx, zz, rr, th, *B) in elems_of(h, be, X, Z, *r.value):
            sl, cl = T.fn('cos', S.rad(bb)), T.fn('sin', S.rad(bb))          # sine and cosine of latitude
            N = T.div(T.mul(a, a), T.sqrt(T.add(T.mul(a, a, cl, cl), T.mul(b, b, sl, sl))))
            rho = T.mul(T.add(N, hh), cl)
            z = T.mul(T.add(T.mul(N, T.div(T.mul(b, b), T.mul(a, a))), hh), sl)
            c.equal(T.mul(rr, T.fn('sin', S.rad(th))), rho, w, f'distance from the axis of point {i}')
            c.equal(T.mul(rr, T.fn('cos', S.rad(th))), z, w, f'height above the equatorial plane of point {i}')
            if vecs:
                ps = S.rad(T.sub(th, bb))
                cp, sp = T.fn('cos', ps), T.fn('sin', ps)
                c.equal(B[0], T.sub(T.neg(T.mul(sp, xx)), T.mul(cp, zz)), w, f'radial component {i} from north and down')
                c.equal(B[1], T.sub(T.mul(sp, zz), T.mul(cp, xx)), w, f'southward component {i} from north and down')
    for sh in ((None, None, None), ((3,), (3,), (3,)), (None, (2, 2), (2, 2)), ((2, 1), (3,), (3,))):
        for conf in (False, True):
            for vecs in (False, True):
                if vecs and sh[0] == (2, 1):
                    continue
                ck.add(f'gg_to_geo/{sh}/{"configured" if conf else "default"}/{"vectors" if vecs else "points"}', geodetic, sh, conf, vecs)

    def geocentric(c, sh, conf, vecs):
        A = c.an()
        if conf:
            a = T.scale(T.add(sym('ea', 'gap'), T.num(3)), 1000)
            setcfg(A, 'params.ellipsoid', A.arr([a, T.mul(a, T.sub(T.num(1), T.scale(sym('fl', 'gap'), 0.005)))]))
        a, b = cfgval(A, 'params.ellipsoid').get()
        w = c.where(CO + 'geo_to_gg')
        k = int(np.prod(sh)) if sh is not None else 1
        h = [T.mul(a, T.scale(sym(f'h{i}', 'real'), 0.03)) for i in range(k)]
        be = [sym(f'be{i}', 'theta') for i in range(k)]
        r, th = [], []
        for hh, bb in zip(h, be):
            sl, cl = T.fn('cos', S.rad(bb)), T.fn('sin', S.rad(bb))
            N = T.div(T.mul(a, a), T.sqrt(T.add(T.mul(a, a, cl, cl), T.mul(b, b, sl, sl))))
            rho = T.mul(T.add(N, hh), cl)
            z = T.mul(T.add(T.mul(N, T.div(T.mul(b, b), T.mul(a, a))), hh), sl)
            r.append(T.sqrt(T.add(T.mul(rho, rho), T.mul(z, z))))
            th.append(T.scale(T.div(T.fn('arctan2', rho, z), T.PI), 180))
        many = (lambda x: x[0]) if sh is None else (lambda x: A.arr(oarr(x, sh)))
        br, bt = (sym('br'), sym('bt')) if sh is None else (A.syms('br', sh), A.syms('bt', sh))
        x = A.call(CO + 'geo_to_gg', many(r), many(th), *([br, bt] if vecs else []))
        c.returns(x, w, 'conversion')
        c.ok(len(x.value) == (4 if vecs else 2), w, 'number of results')
        for i, (hh, bb, tt, xr, xt, got, gb, *B) in elems_of(many(h), many(be), many(th), br, bt, *x.value):
            c.equal(T.div(got, a), T.div(hh, a), w, f'height of point {i} above the ellipsoid', tol=1e-6)
            c.equal(gb, bb, w, f'geodetic colatitude of point {i}', tol=1e-5)
            if vecs:
                ps = S.rad(T.sub(tt, bb))
                cp, sp = T.fn('cos', ps), T.fn('sin', ps)
                c.equal(B[0], T.sub(T.neg(T.mul(sp, xr)), T.mul(cp, xt)), w, f'northward component {i}', tol=1e-6)
                c.equal(B[1], T.sub(T.mul(sp, xt), T.mul(cp, xr)), w, f'downward component {i}', tol=1e-6)
    for sh in (None, (3,), (2, 2)):
        for conf in (False, True):
            for vecs in (False, True):
                ck.add(f'geo_to_gg/{sh}/{"configured" if conf else "default"}/{"vectors" if vecs else "points"}', geocentric, sh, conf, vecs)


def sunyears(t):
    """the documented range of the position of the sun"""
    e = t.get().ravel() if isinstance(t, Arr) else [t]
    return T.band(*[T.band(T.cmp('lt', T.num(-35000), x), T.cmp('lt', x, T.num(36000))) for x in e])


# ------------------------------------------------------------------ frames
TSH = [None, (), (2,), (2, 2)]


@rule('C19', 'Reference frames are orthonormal, right-handed and oriented as defined',
      'algebraic identities on the value graphs of the base vectors; orientation with respect to the sun and dipole')
def c19(ck):
    def times(A, sh):
        return sym('t', 'day') if sh is None else A.syms('t', sh, 'day')

    def ortho(c, bs, i, w, what):
        v = [vec(b, i) for b in bs]
        for j in range(3):
            c.equal(dot(v[j], v[j]), T.ONE, w, f'{what}: length of axis {j + 1}', n=3)
            for k in range(j):
                c.equal(dot(v[j], v[k]), T.ZERO, w, f'{what}: axes {k + 1} and {j + 1} perpendicular', n=3)
        for got, want in zip(cross(v[0], v[1]), v[2]):
            c.equal(got, want, w, f'{what}: right-handed', n=3)
        return v

    def frame(c, ref, form, tsh, conf):
        A = c.an()
        if conf:
            setdipole(A)
        w = c.where(CO + f'basevectors_{ref}')
        n = tsh[-1] if tsh else 2
        d, north, dsh = dipole(A, DIP[form], n)
        a = [] if ref == 'mag' else [times(A, tsh)]
        if ref != 'mag' and dsh and tsh in (None, ()):
            raise Skip('one dipole per time')
        r = A.call(CO + f'basevectors_{ref}', *a, **({} if d is None else {'dipole': d}))
        c.returns(r, w, 'base vectors')
        tot = np.broadcast_shapes(dsh, (tsh or ()) if ref != 'mag' else ())
        s = sunpos(A, a[0]) if a else None
        for k in range(3):
            c.ok(r.value[k].v.shape == tot + (3,), w, f'axis {k + 1} has shape {r.value[k].v.shape}, expected {tot + (3,)}')
        for i in np.ndindex(*tot):
            v = ortho(c, r.value, i, w, f'{ref} at {i}')
            m = north[i[-1]] if dsh else north
            if ref != 'mag':
                sun = direction(el(s[0], i[len(i) - len(s[0].v.shape):] if isinstance(s[0], SA) else ()),
                                el(s[1], i[len(i) - len(s[1].v.shape):] if isinstance(s[1], SA) else ()))
            if ref == 'gsm':
                for x, y in zip(v[0], sun):
                    c.equal(x, y, w, 'first axis toward the sun', n=3)
                c.equal(dot(v[1], m), T.ZERO, w, 'dipole in the plane of axes one and three', n=3)
                true(c, T.cmp('lt', T.ZERO, dot(v[2], m)), w, 'third axis on the side of the geomagnetic north pole')
            elif ref == 'sm':
                for x, y in zip(v[2], m):
                    c.equal(x, y, w, 'third axis along the dipole', n=3)
                c.equal(dot(v[1], sun), T.ZERO, w, 'sun in the plane of axes one and three', n=3)
                true(c, T.cmp('lt', T.ZERO, dot(v[0], sun)), w, 'first axis on the side of the sun')
            else:
                for x, y in zip(v[2], m):
                    c.equal(x, y, w, 'third axis along the dipole', n=3)
                c.equal(v[1][2], T.ZERO, w, 'second axis perpendicular to the rotation axis', n=3)
                true(c, T.cmp('lt', v[0][2], T.ZERO), w, 'first axis toward the geographic south')
    for form in DIP:
        for ref in REFS:
            for tsh in (TSH if ref != 'mag' else [None]):
                ck.add(f'{ref}/{form}/{tsh}', frame, ref, form, tsh, form == 'configured')
    for ref in REFS:
        ck.add(f'{ref}/default dipole', frame, ref, 'configured', None if ref == 'mag' else (2,), False)

    def vectors(c, form, conf):
        A = c.an()
        if conf:
            setdipole(A)
        w = c.where(CO + 'dipole_to_vec')
        d, north, sh = dipole(A, DIP[form])
        r = A.call(CO + 'dipole_to_vec', *([] if d is None else [d]))
        c.returns(r, w, 'dipole')
        want = np.array(north, dtype=object).reshape(sh + (3,))
        c.equal(r.value, want, w, f'unit vector toward the geomagnetic north pole from {form}')
    for form in DIP:
        ck.add(f'dipole/{form}', vectors, form, False)
    ck.add('dipole/configured value', vectors, 'configured', True)

    def epochs(c):
        A = c.an()
        w = c.where(CO + 'igrf_dipole')
        d = {'2015': unit([T.num(1501.), T.num(-4797.1), T.num(29442.0)]), '2010': direction(T.num(11.32), T.num(289.59))}
        for k, v in d.items():
            for e in (k, int(k)):
                r = A.call(CO + 'igrf_dipole', e)
                c.returns(r, w, 'IGRF dipole')
                c.equal(r.value, np.array(v, dtype=object), w, f'IGRF dipole of {e!r}')
        c.equal(A.call(CO + 'igrf_dipole').value, np.array(d['2015'], dtype=object), w, 'default epoch')
    ck.add('igrf_dipole', epochs)

    def localframe(c, sh):
        A = c.an()
        w = c.where(CO + 'basevectors_use')
        _, th, ph = args3(A, (None,) + sh)
        r = A.call(CO + 'basevectors_use', th, ph)
        c.returns(r, w, 'base vectors')
        tot = np.broadcast_shapes(*[s or () for s in sh])
        for i, (a, b) in elems_of(th, ph):
            v = ortho(c, r.value, i, w, f'local frame at {i}')
            for k, (x, y) in enumerate(zip(v, use(a, b))):
                for p, q in zip(x, y):
                    c.equal(p, q, w, f'axis {("up", "south", "east")[k]}', n=3)
        c.ok(r.value[0].v.shape == tot + (3,), w, 'shape')

    def ggframe(c, sh):
        A = c.an()
        w = c.where(CO + 'basevectors_gg')
        th = sym('th', 'theta') if sh[0] is None else A.syms('th', sh[0], 'theta')
        be = sym('be', 'theta') if sh[1] is None else A.syms('be', sh[1], 'theta')
        r = A.call(CO + 'basevectors_gg', th, be)
        c.returns(r, w, 'base vectors')
        for i, (a, b) in elems_of(th, be):
            v = ortho(c, r.value, i, w, f'geodetic frame at {i}')
            ps = S.rad(T.sub(a, b))
            north = [T.neg(T.fn('sin', ps)), T.neg(T.fn('cos', ps)), T.ZERO]
            for x, y in zip(v[0], north):
                c.equal(x, y, w, 'first axis toward geodetic north', n=3)
            for x, y in zip(v[1], (T.ZERO, T.ZERO, T.ONE)):
                c.equal(x, y, w, 'second axis toward east', n=3)
    for sh in ((None, None), ((3,), (3,)), ((2, 1), (3,)), (None, (2,))):
        ck.add(f'local/{sh}', localframe, sh)
        ck.add(f'geodetic/{sh}', ggframe, sh)

    def points(c, ref, form, sh):
        A = c.an()
        w = c.where(CO + 'transform_points')
        t = sym('t', 'day') if sh[0] is None else A.syms('t', sh[0], 'day')
        _, th, ph = args3(A, (None,) + sh[1:])
        d, north, dsh = dipole(A, DIP[form])
        k = {} if d is None else {'dipole': d}
        b = A.call(CO + f'basevectors_{ref}', *([] if ref == 'mag' else [t]), **k).value
        for r in (ref, ref.upper()):
            x = A.call(CO + 'transform_points', th, ph, t, reference=r, **k)
            c.returns(x, w, 'transformation')
            for i, (a, p, u, v) in elems_of(th, ph, *x.value):
                j = i if b[0].v.ndim > 1 else ()
                g = direction(a, p)
                for m, y in enumerate(direction(u, v)):
                    c.equal(y, dot(vec(b[m], j[len(j) - b[m].v.ndim + 1:]), g), w, f'{r}: component {m + 1} of the direction of point {i}', n=3)
                true(c, T.band(le(T.num(0), u), le(u, 180), le(T.num(-180), v), le(v, 180)), w, 'angles in range')
    for ref in REFS:
        for form in ('configured', 'array', 'angles'):
            for sh in ((None, None, None), ((3,), (3,), (3,)), (None, (2,), (2,)), ((2,), None, None)):
                ck.add(f'points/{ref}/{form}/{sh}', points, ref, form, sh)


# ------------------------------------------------------------------ inverses
@rule('C20', 'Forward and inverse coordinate transformations undo each other',
      'algebraic identities on the composed value graphs (round trips, orthogonality, same physical vector)')
def c20(ck):
    def points(c, ref, form, sh, back):
        A = c.an()
        w = c.where(CO + 'transform_points')
        t = sym('t', 'day') if sh[0] is None else A.syms('t', sh[0], 'day')
        _, th, ph = args3(A, (None,) + sh[1:])
        d = dipole(A, DIP[form])[0]
        k = dict(reference=ref, **({} if d is None else {'dipole': d}))

        def go():
            f = A.get(CO + 'transform_points')
            p = A.I.call(f, [th, ph, t], dict(k, **({'inverse': True} if back else {})))
            p = p if isinstance(p, tuple) else tuple(A.I.iterate(p))
            return A.I.call(f, [p[0], p[1], t], dict(k, inverse=not back))
        x = A.run(go)
        c.returns(x, w, 'round trip')
        for i, (a, p, u, v) in elems_of(th, ph, *x.value):
            if isinstance(t, Arr) or True:
                c.equal(u, a, w, f'colatitude {i} after there and back ({ref}, {form})', n=3, tol=1e-6)
                isangle(c, v, p, w, f'longitude {i} after there and back ({ref}, {form})', n=3)
    for ref in REFS:
        for form in ('configured', 'array', 'angles', 'three'):
            for sh in ((None, None, None), ((2,), (2,), (2,)), (None, (2,), (2,)), ((2,), None, None)):
                for back in (False, True):
                    ck.add(f'points/{ref}/{form}/{sh}/{"from" if back else "to"}', points, ref, form, sh, back)

    def vectors(c, ref, form, sh, back):
        A = c.an()
        w = c.where(CO + 'transform_vectors')
        t = sym('t', 'day') if sh[0] is None else A.syms('t', sh[0], 'day')
        _, th, ph = args3(A, (None,) + sh[1:])
        bt, bp = (sym('bt'), sym('bp')) if sh[1] is None else (A.syms('bt', sh[1]), A.syms('bp', sh[1]))
        d = dipole(A, DIP[form])[0]
        k = dict(reference=ref, **({} if d is None else {'dipole': d}))
        f = A.get(CO + 'transform_vectors')

        def one():
            return A.I.call(f, [th, ph, bt, bp, t], dict(k, **({'inverse': True} if back else {})))

        def go():
            p = one()
            p = p if isinstance(p, tuple) else tuple(A.I.iterate(p))
            return A.I.call(f, list(p[:4]) + [t], dict(k, inverse=not back))
        x = A.run(one)
        c.returns(x, w, 'transformation')
        q = A.call(CO + 'transform_points', th, ph, t, inverse=back, **k)
        b = A.call(CO + f'basevectors_{ref}', *([] if ref == 'mag' else [t]), **({} if d is None else {'dipole': d})).value
        for i, (a, p, x1, x2, u, v, y1, y2, qa, qp) in elems_of(th, ph, bt, bp, *x.value, *q.value):
            c.equal(u, qa, w, f'colatitude of vector {i} and of the point', n=3, tol=1e-6)
            isangle(c, v, qp, w, f'longitude of vector {i} and of the point', n=3)
            c.equal(T.add(T.mul(y1, y1), T.mul(y2, y2)), T.add(T.mul(x1, x1), T.mul(x2, x2)), w, f'length of vector {i} ({ref})', n=3)
            _, so, ea = use(a, p)
            _, so2, ea2 = use(u, v)
            old = [T.add(T.mul(x1, m), T.mul(x2, n)) for m, n in zip(so, ea)]
            new = [T.add(T.mul(y1, m), T.mul(y2, n)) for m, n in zip(so2, ea2)]
            j = i[len(i) - b[0].v.ndim + 1:] if b[0].v.ndim > 1 else ()
            R = [vec(b[m], j) for m in range(3)]
            geo, frm = (new, old) if back else (old, new)
            for m in range(3):
                c.equal(frm[m], dot(R[m], geo), w, f'component {m + 1} of vector {i} in the {ref} frame', n=3, tol=1e-6)
        y = A.run(go)
        c.returns(y, w, 'round trip')
        for i, (a, p, x1, x2, u, v, y1, y2) in elems_of(th, ph, bt, bp, *y.value):
            c.equal(u, a, w, f'colatitude {i} after there and back', n=3, tol=1e-6)
            isangle(c, v, p, w, f'longitude {i} after there and back', n=3)
            c.equal(y1, x1, w, f'southward component {i} after there and back', n=3, tol=1e-6)
            c.equal(y2, x2, w, f'eastward component {i} after there and back', n=3, tol=1e-6)
    for ref in REFS:
        for form in ('configured', 'array', 'angles'):
            for sh in ((None, None, None), ((2,), (2,), (2,)), (None, (2,), (2,))):
                for back in (False, True):
                    ck.add(f'vectors/{ref}/{form}/{sh}/{"from" if back else "to"}', vectors, ref, form, sh, back)

    def matrix(c, n, back):
        A = c.an()
        w = c.where(CO + 'matrix_geo_to_base')
        sh = (n,) if n else None
        _, th, ph = args3(A, (None, sh, sh))
        # any rotation: from three Euler angles
        b = [A.arr(rotation()[k]) for k in range(3)]
        r = A.call(CO + 'matrix_geo_to_base', th, ph, *b, inverse=back)
        c.returns(r, w, 'matrix')
        q = A.call(CO + 'geo_to_base', th, ph, *b, inverse=back)
        other = A.run(lambda: A.I.call(A.get(CO + 'matrix_geo_to_base'), [x for x in tuple(A.I.iterate(A.I.call(
            A.get(CO + 'geo_to_base'), [th, ph] + b, {'inverse': back})))] + b, {'inverse': not back}))
        for i, (u, v, x, y) in elems_of(r.value[0], r.value[1], *q.value):
            c.equal(u, x, w, 'colatitude', tol=1e-6)
            isangle(c, v, y, w, 'longitude')
            M, N = r.value[2].v[i], other.value[2].v[i]
            for j in range(3):
                for k in range(3):
                    e = T.ONE if j == k else T.ZERO
                    c.equal(dot(M[j], M[k]), e, w, f'rotation matrix orthonormal ({j},{k})', n=3)
                    c.equal(dot(M[j], N[:, k]), e, w, f'matrices of both directions are inverse ({j},{k})', n=3, tol=1e-6)
            for k in range(3):
                c.equal(M[0, k], T.ONE if k == 0 else T.ZERO, w, 'the radial component is kept', n=3)
    for n in (0, 2):
        for back in (False, True):
            ck.add(f'matrix/{n}/{back}', matrix, n, back)

    def flags(c, name, back):
        A = c.an()
        w = c.where(CO + name)
        t = A.syms('t', (2,), 'day')
        _, th, ph = args3(A, (None, (2,), (2,)))
        if name in ('geo_to_base', 'matrix_geo_to_base'):
            R = rotation()
            a, k = [th, ph] + [A.arr(R[m]) for m in range(3)], {}
        elif name == 'transform_points':
            a, k = [th, ph, t], dict(reference='gsm')
        else:
            a, k = [th, ph, A.syms('bt', (2,)), A.syms('bp', (2,)), t], dict(reference='sm')
        want = c.returns(A.call(CO + name, *a, inverse=back, **k), w, f'inverse={back}')
        if not back:
            for kw in ({}, dict(inverse=None)):
                c.equal(A.call(CO + name, *a, **kw, **k).value, want, w, f'the forward direction with {kw or "no inverse option"}', n=3)
        env = A.client(f"""
import numpy as np
def one(f, a, k):
    return f(*a, inverse={int(back)}, **k)
def two(f, a, k):
    return f(*a, inverse=np.bool_({back}), **k)
def three(f, a, k):
    return f(*a, inverse=np.array([5])[0] == {5 if back else 6}, **k)
""")
        for n, what in (('one', int(back)), ('two', f'np.bool_({back})'), ('three', f'the outcome {back} of a comparison')):
            got = c.returns(A.call(env[n], A.get(CO + name), tuple(a), DDict(k)), w, f'inverse={what}')
            c.equal(got, want, w, f'inverse={what} means inverse={back}', n=3)
    for name in ('geo_to_base', 'matrix_geo_to_base', 'transform_points', 'transform_vectors'):
        for back in (False, True):
            ck.add(f'direction flag/{name}/{back}', flags, name, back)

    def geobase(c, n, back):
        A = c.an()
        w = c.where(CO + 'geo_to_base')
        sh = (n,) if n else None
        _, th, ph = args3(A, (None, sh, sh))
        R = rotation()
        b = [A.arr(R[k]) for k in range(3)]
        x = A.call(CO + 'geo_to_base', th, ph, *b, **({'inverse': True} if back else {}))
        c.returns(x, w, 'rotation')
        for i, (a, p, u, v) in elems_of(th, ph, *x.value):
            g, h = direction(a, p), direction(u, v)
            for m in range(3):
                row = [R[k][m] for k in range(3)] if back else R[m]
                c.equal(h[m], dot(row, g), w, f'component {m + 1} of the rotated direction', n=4)
    for n in (0, 3):
        for back in (False, True):
            ck.add(f'geo_to_base/{n}/{back}', geobase, n, back)

    def cart(c, sh):
        A = c.an()
        w = c.where(CO + 'cartesian_to_spherical')
        a = args3(A, sh)
        f, g = A.get(CO + 'spherical_to_cartesian'), A.get(CO + 'cartesian_to_spherical')
        x = A.run(lambda: A.I.call(g, list(A.I.iterate(A.I.call(f, a, {}))), {}))
        c.returns(x, w, 'round trip')
        for i, (r, t, p, r2, t2, p2) in elems_of(*a, *x.value):
            c.equal(r2, r, w, f'radius {i}')
            c.equal(t2, t, w, f'colatitude {i}')
            isangle(c, p2, p, w, f'longitude {i}')
        b = [sym(n) if s is None else A.syms(n, s) for n, s in zip('xyz', sh)]
        x = A.run(lambda: A.I.call(f, list(A.I.iterate(A.I.call(g, b, {}))), {}))
        for i, row in elems_of(*b, *x.value):
            for k in range(3):
                c.equal(row[3 + k], row[k], w, f'{"xyz"[k]} of element {i}')
    for sh in SH:
        ck.add(f'cartesian/{sh}', cart, sh)

    def geodetic(c, sh, conf, vecs, back):
        A = c.an()
        if conf:
            a = T.scale(T.add(sym('ea', 'gap'), T.num(3)), 1000)
            setcfg(A, 'params.ellipsoid', A.arr([a, T.mul(a, T.sub(T.num(1), T.scale(sym('fl', 'gap'), 0.005)))]))
        a = cfgval(A, 'params.ellipsoid').get()[0]
        w = c.where(CO + ('geo_to_gg' if back else 'gg_to_geo'))
        k = int(np.prod(sh)) if sh else 1

        def many(mk):
            return mk('') if sh is None else A.arr(oarr([mk(str(i)) for i in range(k)], sh))
        if back:
            p = many(lambda i: T.mul(a, T.add(T.num(1.02), T.scale(sym('q' + i, 'pos'), 0.05))))
        else:
            p = many(lambda i: T.mul(a, T.scale(sym('h' + i, 'real'), 0.03)))
        q = many(lambda i: sym('be' + i, 'theta'))
        X, Z = (sym('X'), sym('Z')) if sh is None else (A.syms('X', sh), A.syms('Z', sh))
        fs = [A.get(CO + f) for f in (('geo_to_gg', 'gg_to_geo') if back else ('gg_to_geo', 'geo_to_gg'))]
        args = [p, q] + ([X, Z] if vecs else [])
        x = A.run(lambda: A.I.call(fs[1], list(A.I.iterate(A.I.call(fs[0], args, {}))), {}))
        c.returns(x, w, 'round trip')
        c.ok(len(x.value) == len(args), w, 'number of results')
        for i, row in elems_of(*args, *x.value):
            m = len(args)
            c.equal(T.div(row[m], a), T.div(row[0], a), w, f'{"radius" if back else "height"} {i} after there and back', tol=1e-6)
            c.equal(row[m + 1], row[1], w, f'colatitude {i} after there and back', tol=1e-5)
            for j in range(2, m):
                c.equal(row[m + j], row[j], w, f'component {j - 1} of vector {i} after there and back', tol=1e-6)
    for sh in (None, (3,), (2, 2)):
        for conf in (False, True):
            for vecs in (False, True):
                for back in (False, True):
                    ck.add(f'geodetic/{sh}/{"configured" if conf else "default"}/{"vectors" if vecs else "points"}/{"back" if back else "forth"}',
                           geodetic, sh, conf, vecs, back)


def rotation():
    """rows of a general rotation matrix"""
    a, b, g = (T.scale(sym(x, 'real'), 2) for x in ('ra', 'rb', 'rg'))
    ca, sa, cb, sb, cg, sg = (T.fn(f, x) for x in (a, b, g) for f in ('cos', 'sin'))
    m = T.mul
    return [[m(ca, cb), T.sub(m(ca, sb, sg), m(sa, cg)), T.add(m(ca, sb, cg), m(sa, sg))],
            [m(sa, cb), T.add(m(sa, sb, sg), m(ca, cg)), T.sub(m(sa, sb, cg), m(ca, sg))],
            [T.neg(sb), m(cb, sg), m(cb, cg)]]


# ------------------------------------------------------------------ rotations of coefficients
@rule('C93', 'Rotation matrices of Gauss coefficients are exact for band-limited fields',
      'value-graph equality of the harmonics of the rotated frame with the rotated harmonics, quadrature unrolled')
def c93(ck):
    def harmonics(n, th, ph):
        out = []
        for k, m, gh in S.index(1, n):
            P = S.schmidt(k, m, th)[0]
            a = T.mul(T.num(m), S.rad(ph))
            out.append(P if m == 0 else T.mul(P, T.fn('cos' if gh == 'g' else 'sin', a)))
        return out

    def rot(c, nmax, kmax, n):
        A = c.an()
        w = c.where(CO + 'rotate_gauss')
        R = [rotation()] if n is None else [rotation(), [[T.ONE if i == j else T.ZERO for j in range(3)] for i in range(3)]]
        b = [A.arr(R[0][k]) if n is None else A.arr([r[k] for r in R]) for k in range(3)]
        x = A.call(CO + 'rotate_gauss', nmax, kmax, *b)
        c.returns(x, w, 'rotation matrices')
        M = x.value.v if n is not None else x.value.v[None]
        c.ok(M.shape == (len(R), dim(nmax), dim(kmax)), w, f'shape {x.value.v.shape}')
        th, ph = sym('th', 'theta'), sym('ph', 'phi')
        geo = harmonics(max(nmax, kmax), th, ph)
        q = direction(th, ph)
        for i, r in enumerate(R):
            d = [dot(r[m], q) for m in range(3)]
            thr, phr = S_angles(d)
            ref = harmonics(kmax, thr, phr)
            for k, (deg, m, gh) in enumerate(S.index(1, kmax)):
                if deg > nmax:
                    for j in range(dim(nmax)):
                        c.equal(M[i, j, k], T.ZERO, w, f'degrees do not mix: {gh}{deg}{m}', n=2)
                    continue
                s = T.ZERO
                for j in range(dim(nmax)):
                    s = T.add(s, T.mul(M[i, j, k], geo[j]))
                c.equal(s, ref[k], w, f'harmonic {gh}{deg}{m} of the rotated frame from those of the fixed frame', n=3, tol=1e-6)

    def S_angles(d):
        return (T.scale(T.div(T.fn('arctan2', T.sqrt(T.add(T.mul(d[0], d[0]), T.mul(d[1], d[1]))), d[2]), T.PI), 180),
                T.scale(T.div(T.fn('arctan2', d[1], d[0]), T.PI), 180))

    shapes = [((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)), ((1, 3), (1, 4), (2, 3), (3, 2), (4, 1))]
    if ck.tier == 'thorough':
        shapes[1] += ((3, 3), (2, 4), (2, 5), (1, 6), (4, 2), (5, 1))
    for (nmax, kmax), ns in [(s, (None, 2)) for s in shapes[0]] + [(s, (None,)) for s in shapes[1]]:
        for n in ns:
            ck.add(f'rotate_gauss/{nmax}/{kmax}/{n}', rot, nmax, kmax, n)

    def analysis(c, nmax, kmax, fmax):
        A = c.an()
        w = c.where(CO + 'sh_analysis')
        co = A.syms('c', dim(fmax))
        f = spec(A, 'def f(theta, phi):\n'
                    '    out = 0.\n'
                    '    j = 0\n'
                    f'    P = cp.model_utils.legendre_poly({fmax}, theta)\n'
                    f'    for n in range(1, {fmax} + 1):\n'
                    '        for m in range(n + 1):\n'
                    '            out = out + co[j] * P[n, m] * np.cos(m*np.radians(phi))\n'
                    '            j += 1\n'
                    '            if m:\n'
                    '                out = out + co[j] * P[n, m] * np.sin(m*np.radians(phi))\n'
                    '                j += 1\n'
                    '    return out\n', co=co)['f']
        x = A.call(CO + 'sh_analysis', f, nmax, *([] if kmax is None else [kmax]))
        c.returns(x, w, 'analysis')
        want = [co.get()[j] if j < dim(fmax) else T.ZERO for j in range(dim(nmax))]
        c.equal(x.value, np.array(want, dtype=object), w, f'coefficients to degree {nmax} of a field of degree {fmax}', tol=1e-6)
    for nmax, kmax, fmax in ((1, None, 1), (2, None, 2), (3, None, 3), (2, 3, 3), (3, 3, 2), (1, 3, 2), (3, None, 1), (2, 4, 4), (1, 3, 3), (2, 5, 5), (1, 2, 1)):
        ck.add(f'sh_analysis/{nmax}/{kmax}/{fmax}', analysis, nmax, kmax, fmax)


# ------------------------------------------------------------------ ephemeris
SUN = '''
def direction(t):
    # J. Meeus, Astronomical Algorithms (1998), chapters 12, 22 and 25, lower accuracy: good to 0.01 degree, here without the
    # difference of terrestrial and universal time (below 0.001 degree)
    d = t - 0.5
    T = d/36525
    L = 280.46646 + 36000.76983*T + 0.0003032*T**2
    M = np.radians(357.52911 + 35999.05029*T - 0.0001537*T**2)
    c = (1.914602 - 0.004817*T - 0.000014*T**2)*np.sin(M) + (0.019993 - 0.000101*T)*np.sin(2*M) + 0.000289*np.sin(3*M)
    node = np.radians(125.04 - 1934.136*T)
    lon = np.radians(L + c - 0.00569 - 0.00478*np.sin(node))
    eps = np.radians(23.439291 - 0.0130042*T + 0.00256*np.cos(node))
    gst = 280.46061837 + 360.98564736629*d + 0.000387933*T**2
    x, y, z = np.cos(lon), np.cos(eps)*np.sin(lon), np.sin(eps)*np.sin(lon)
    return 90 - np.degrees(np.arcsin(z)), np.degrees(np.arctan2(y, x)) - gst
'''


@rule('C91', 'The sun position is accurate to 0.01 degree between 1901 and 2099',
      'interval enclosure, over all times of the range, of the distance between the computed direction and an independent ephemeris')
def c91(ck):
    LO, HI = -36158, 36158        # 1 January 1901 to 31 December 2098
    TOL = 0.01 * math.pi / 180

    def position(c, sh, part, parts):
        A = c.an()
        w = c.where(CO + 'sun_position')
        t = sym('t', 'day') if sh is None else A.syms('t', sh, 'day')
        x = A.call(CO + 'sun_position', t)
        tot = () if sh is None else sh
        lo, hi = LO + (HI - LO) * part // parts, LO + (HI - LO) * (part + 1) // parts
        dom = c.tr(24)
        names = ['t'] if sh is None else ['t_' + '_'.join(map(str, i)) for i in np.ndindex(*sh)]
        for k, tr in enumerate(dom):
            for j, nm in enumerate(names):
                v = lo + (hi - lo) * ((k + 0.5 + 0.37 * j) % 24) / 24
                v = math.floor(v) + (0., 0.5)[k % 2] if k % 10 < 2 else math.floor(v) + (k * 0.61803398875 + 0.29 * j) % 1
                tr.env[nm] = min(max(v, LO), HI)
        inside = T.band(*[T.band(T.cmp('le', T.num(LO), e), T.cmp('le', e, T.num(HI))) for e in (t.get().ravel() if isinstance(t, Arr) else [t])])
        c.returns(x, w, 'sun position between 1901 and 2099', assume=inside)
        c.ok(len(x.value) == 2 and all(tuple(v.v.shape) == tot if isinstance(v, SA) else tot == () for v in x.value), w, 'the shape of the times is kept')
        env = spec(A, SUN)
        y = A.call(env['direction'], t)
        for i, (s, th, ph, th0, ph0) in elems_of(t, *x.value, *y.value):
            e = [T.sub(p, q) for p, q in zip(direction(th, ph), direction(th0, ph0))]
            c.cond_equal(T.cmp('lt', dot(e, e), T.num(TOL**2)), True, w, f'direction of the sun at time {i} within 0.01 degree', dom=dom)
            c.cond_equal(T.band(le(T.num(0), th), le(th, 180), T.cmp('lt', T.num(-180 - 1e-9), ph), le(ph, 180)), True, w, 'angles in range', dom=dom)
        for i, (s, th, ph, th0, ph0) in elems_of(t, *x.value, *y.value):
            a, n = np.arange(lo, hi, dtype=float), 1.
            step = np.ones_like(a)
            d_th, d_ph = T.sub(th, th0), T.sub(ph, ph0)
            for _ in range(8):
                try:
                    enc = Enclosure([d_th, d_ph, T.fn('sin', T.mul(th0, T.num(Fraction(1, 180)), T.PI)), th], s.args[0], a, a + step)
                except (Unsupported, KeyError, TypeError) as u:
                    c.notes.append(f'not bounded over whole intervals ({u}): compared at single times')
                    bad = np.ones(a.size, bool)
                    break
                (_, p0, p1, *_), (m, q0, q1, *_), (_, s0, s1, *_), (_, u0, u1, *_) = enc.roots
                m = 360 * np.round(m / 360)
                bound = lambda p, q: np.maximum(np.abs(p), np.abs(q))
                ok = bound(p0, p1)**2 + (bound(q0 - m, q1 - m) * np.minimum(bound(s0, s1), 1))**2 < (TOL * 180 / math.pi)**2
                ok &= (u0 > 0) & (u1 < 180)
                bad = np.zeros(a.size, bool)
                bad[enc.cell[~ok]] = True
                c.facts += int((~bad).sum())
                if not bad.any():
                    break
                a, step = a[bad], step[bad] / 2
                if a.size > 400000:
                    break
                a, step = np.concatenate([a, a + step]), np.concatenate([step, step])
            else:
                bad = np.ones(a.size, bool)
            if bad.any():
                # not bounded: decided where a time inside is off
                pts = []
                for k in np.linspace(0, a.size - 1, min(a.size, 400)).astype(int):
                    tr = c.tr(1)[0]
                    tr.env[s.args[0]] = float(a[k] + step[k] * ((0.618034 * k) % 1))
                    pts.append(tr)
                e = [T.sub(p, q) for p, q in zip(direction(th, ph), direction(th0, ph0))]
                c.cond_equal(T.cmp('lt', dot(e, e), T.num(TOL**2)), True, w, f'direction of the sun at time {i} within 0.01 degree', dom=pts)
                c.notes.append(f'{a.size} intervals, from {float(a[0])} on, not bounded: compared at single times')
    for sh, parts in ((None, 4), ((), 2), ((2,), 4), ((2, 2), 4)):
        for part in range(parts):
            ck.add(f'position/{sh}/{part + 1} of {parts}', position, sh, part, parts)

    def beyond(c, sh, side, where_):
        # times that are not between 1901 and 2099 are refused
        A = c.an()
        w = c.where(CO + 'sun_position')
        far = T.add(T.num(36525), T.scale(sym('far', 'gap'), 2000))
        if side == 'before':
            far = T.sub(T.num(0), far)
        t = far if sh is None else A.syms('t', sh, 'day')
        if sh is not None:
            t = A.arr(oarr([far if k == where_ % t.size else e for k, e in enumerate(t.get().ravel())], sh))
        c.always_raises(A.call(CO + 'sun_position', t), (AssertionError, ValueError), w, f'a time {side} the years 1901 to 2099')
    for sh, at_ in ((None, 0), ((), 0), ((2,), 0), ((2,), -1), ((2, 2), -1), ((3,), 1), ((2, 2), 2)):
        for side in ('before', 'after'):
            ck.add(f'beyond/{sh}/{side}/element {at_}', beyond, sh, side, at_)
