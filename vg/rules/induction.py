"""electromagnetic induction in a layered sphere"""
from fractions import Fraction

from .common import *
from .coords import el as el_

CO = 'coordinate_utils.'

RAD = [6371.2, 6011., 5480., 4210., 3480.]
R0 = 6371.2

ORACLE = '''
def series(x, n):
    # modified spherical Bessel functions of the first kind, times exp(-x), and of the second kind, times exp(x), with derivatives
    e = np.exp(-2*x)
    i = [(1 - e)/2/x, (x*(1 + e)/2 - (1 - e)/2)/x**2]
    k = [1/x, (1 + x)/x**2]
    for m in range(1, n):
        i.append(i[m-1] - (2*m + 1)/x*i[m])
        k.append(k[m-1] + (2*m + 1)/x*k[m])
    return i[n], i[n-1] - (n + 1)/x*i[n], k[n], -k[n-1] - (n + 1)/x*k[n]

def constant(T, sigma, r, n):
    """logarithmic derivative of the azimuthal electric field at the surface, uniform layers above a perfect conductor"""
    y = None
    for j in range(len(r) - 2, -1, -1):
        k = np.sqrt(1j*2*np.pi/T*4e-7*np.pi*sigma[j])
        a, b = k*1000*r[j], k*1000*r[j+1]
        i0, di0, k0, dk0 = series(a, n)
        i1, di1, k1, dk1 = series(b, n)
        if y is None:
            p, q = k1, -i1                        # vanishes at the perfect conductor
        else:
            p, q = k1*y - k*dk1, k*di1 - i1*y     # continuous with its derivative
        e = np.exp(-2*(a - b))
        y = k*(p*di0 + q*e*dk0)/(p*i0 + q*e*k0)
    return y

def quadratic(T, sigma, r, n):
    """the same with conductivities that decrease with the square of the radius in each layer, down to the centre"""
    y = None
    for j in range(len(r) - 1, -1, -1):
        R = 1000*r[j]
        b = np.sqrt((n + 0.5)**2 + 1j*2*np.pi/T*4e-7*np.pi*sigma[j]*R**2)
        if y is None:
            y = (b - 0.5)/R                       # finite at the centre
        else:
            S = 1000*r[j+1]
            z = (S/R)**(2*b)
            # powers b - 1/2 and -b - 1/2 of the radius, relative to their value at the lower boundary
            p, q = y*S + b + 0.5, b - 0.5 - y*S
            y = (p*(b - 0.5) - q*z*(b + 0.5))/(p + q*z)/R
    return y

def parts(y, T, r, n):
    C = r[0]/(1 + 1000*r[0]*y)
    m2 = C.real**2 + C.imag**2
    rho = 2*np.pi/T*4e-7*np.pi*m2*1e6
    Q = n/(n + 1)*(1 - (n + 1)*C/r[0])/(1 + n*C/r[0])
    return C.real, C.imag, rho, Q.real, Q.imag

def both(kind, periods, sigma, r, n):
    out = []
    for j in range(len(periods)):
        y = constant(periods[j], sigma, r, n) if kind == 'constant' else quadratic(periods[j], sigma, r, n)
        out.append(parts(y, periods[j], r, n))
    return tuple(np.array([o[i] for o in out]) for i in range(5))

def flat(res):
    C, rho, phi, Q = res
    return np.real(C), np.imag(C), rho, np.real(Q), np.imag(Q), phi
'''


def el(s):
    return el_(s, (0,)) if isinstance(s, SA) and s.v.shape else el_(s)


@rule('C92', 'The layered-Earth response solves the induction equation',
      'value-graph equality of both recursions with the layer-wise closed-form solutions of the induction equation')
def c92(ck):
    def run(c, kind, n, layers, T_, form, tight):
        A = c.an()
        w = c.where(CO + 'q_response_1D')
        wid = 1e-7 if tight else 0.2
        per = [T.scale(T.add(T.num(1), T.scale(sym(f'per{i}', 'gap'), wid)), t) for i, t in enumerate(T_)]
        sg = [T.scale(T.add(T.num(1), T.scale(sym(f'sg{i}', 'gap'), wid)), s) for i, s in enumerate(layers)]
        r = [T.scale(T.add(T.num(1), T.scale(sym(f'ra{i}', 'gap'), wid / 50)), x) for i, x in enumerate(RAD[:len(layers)])]
        p = per[0] if form == 'number' else A.arr(per[0]) if form == '0-d' else A.arr(per)
        A.I.decide = 12
        env = spec(A, ORACLE)
        kw = {} if kind is None else {'kind': kind}
        x = A.run(lambda: A.I.call(env['flat'], [A.I.call(A.get(CO + 'q_response_1D'), [p, A.arr(sg), A.arr(r), n], dict(kw))], {}))
        c.returns(x, w, f'response ({form} of periods)')
        A.I.decide = 0
        k = kind or 'quadratic'
        y = A.call(env['both'], k, A.arr(per), A.arr(sg), A.arr(r), n).value
        C, Q, rho, ph = x.value[:2], x.value[3:5], x.value[2], x.value[5]

        def flat(v):
            v = v.v if hasattr(v, 'v') else v
            return list(np.asarray(v, dtype=object).ravel())
        tol = 1e-6
        for got, want, nm in ((C[0], y[0], 'real part of the C-response'), (C[1], y[1], 'imaginary part of the C-response'),
                              (rho, y[2], 'apparent resistivity'), (Q[0], y[3], 'real part of the Q-response'), (Q[1], y[4], 'imaginary part of the Q-response')):
            g, h = flat(got), flat(want)
            c.ok(len(g) == len(h) == len(per), w, f'{nm}: {len(g)} values for {len(per)} periods')
            for i, (u, v) in enumerate(zip(g, h)):
                if 'C-resp' in nm:
                    m = T.sqrt(T.add(T.mul(flat(y[0])[i], flat(y[0])[i]), T.mul(flat(y[1])[i], flat(y[1])[i])))
                    u, v = T.add(T.div(u, m), T.num(2)), T.add(T.div(v, m), T.num(2))
                elif 'Q-resp' in nm:
                    u, v = T.add(u, T.num(2)), T.add(v, T.num(2))
                c.equal(u, v, w, f'{nm}, period {i}, degree {n}, {len(layers)} layers, {k}', n=4, tol=tol)
        for i, (f, re, im) in enumerate(zip(flat(ph), flat(C[0]), flat(C[1]))):
            want = T.add(T.num(90), T.scale(T.div(T.fn('arctan2', im, re), T.PI), 180))
            c.equal(T.div(f, 90), T.div(want, 90), w, f'phase in degrees, period {i}', n=4, tol=2e-4)
    S2, S3, S4 = (0.02, 3.), (0.01, 0.3, 2.), (0.003, 0.05, 0.8, 3.)
    PER = (7200., 86400., 2.6e6)
    for n in (1, 2, 3):
        for lay in ((1.,), S2, S3, S4):
            ck.add(f'quadratic/{n}/{len(lay)} layers', run, None if n == 2 else 'quadratic', n, lay, PER, 'array', False)
            if len(lay) > 1:
                ck.add(f'constant/{n}/{len(lay)} layers', run, 'constant', n, lay, (3600., 21600.), 'array', False)
                ck.add(f'constant/{n}/{len(lay)} layers/long periods', run, 'constant', n, lay, (4e6, 1.2e7), 'array', True)
    # short periods: the field does not reach the lower boundary of the layer
    for n in (1, 3):
        for kind in ('quadratic', 'constant'):
            ck.add(f'{kind}/{n}/short periods', run, kind, n, S3, (1e-3, 0.5, 40.), 'array', False)
            ck.add(f'{kind}/{n}/poor conductors', run, kind, n, (1e-5, 1e-3, 1.), (1e3, 1e5) if kind == 'quadratic' else (8., 100.), 'array', kind == 'constant')
    for form in ('number', '0-d', 'one'):
        for kind in ('quadratic', 'constant'):
            ck.add(f'{kind}/{form}', run, kind, 1, S3, (7200.,), form, False)

    def table(c, rows, freqs, nmax):
        A = c.an()
        lib_present(A)
        w = c.where(CO + 'q_response')
        A.put('/data/cond.dat', '# depth  conductivity\n' + ''.join(f'{d} {s}\n' for d, s in rows))
        fr = [T.num(0) if f == 0 else T.scale(T.add(T.num(1), T.scale(sym(f'f{i}', 'gap'), 0.2)), f) for i, f in enumerate(freqs)]
        env = spec(A, ORACLE + """
def run(f, g, nmax):
    q = f(g, nmax)
    return np.real(q), np.imag(q)
""")
        A.I.decide = 12

        def go():
            A.I.setitem(cfg(A), 'file.Earth_conductivity', '/data/cond.dat')
            return A.I.call(env['run'], [A.get(CO + 'q_response'), A.arr(fr), nmax], {})
        x = A.run(go)
        c.returns(x, w, 'response of the configured conductivity model')
        A.I.decide = 0
        c.ok(tuple(x.value[0].v.shape) == (nmax, len(fr)), w, f'shape {x.value[0].v.shape}')
        r, s = A.arr([T.num(Fraction(str(R0)) - Fraction(str(d))) for d, _ in rows]), A.arr([float(v) for _, v in rows])
        for n in range(1, nmax + 1):
            for i, f in enumerate(fr):
                if freqs[i] == 0:
                    for k in (0, 1):
                        c.equal(x.value[k].v[n - 1, i], T.ZERO, w, f'no response at zero frequency, degree {n}')
                    continue
                y = A.call(env['both'], 'quadratic', A.arr([T.div(T.ONE, f)]), s, r, n).value
                for k in (0, 1):
                    c.equal(T.add(x.value[k].v[n - 1, i], T.ONE), T.add(el(y[3 + k]), T.ONE), w, f'degree {n}, frequency {i}', n=4, tol=1e-7)
    TAB = (('0', '1.5'), ('7', '0.01'), ('410.5', '0.4'), ('2880', '50000'))
    for nmax in (1, 2, 3):
        for k, f in enumerate(((0, 1e-5), (2e-7, 1e-4, 3e-6), (0, 1e-5, 0, 4e-7), (3e-6,), (1e-5, 0))):
            ck.add(f'model/{nmax}/{k}', table, TAB[:4 - k % 2], f, nmax)
