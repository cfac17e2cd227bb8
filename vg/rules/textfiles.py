"""Contents of the text files the loaders read, and of a loaded MAT-file"""
from .common import *

IGRF = '''# comment
c/s deg ord IGRF IGRF IGRF SV
g/h n m 1900.0 1905.0 1910.0 1910-15
g 1 0 -31543 -31464 -31354 -10.5
g 1 1 -2298 -2298 -2297 2.25
h 1 1 5922 5909 5898 -3.5
'''
COVOBS = '''COV-OBS model
1 9 4  1900.0 1902.0 1904.0 1906.0 1908.0 1910.0
 1.5 2.5 3.5
 4.5 5.5 6.5
'''
GUFM = '''gufm1 model
1 2
1900.0 1902.5 1905.0 1907.5 1910.0 1912.5
 1.5 2.5 3.5 4.5
 5.5 6.5
'''
CALS = ''' 1900.0 1915.0 4 0
1 0 2 1900.0D0 1902.5 1905.0 1907.5 1910.0 1912.5
 1.5D0 2.5 3.5 4.5D+00 5.5 6.5
'''


def matcontents(A, brk, n=1, nstat=2, order=2, drop=(), sats=2):
    """what load_matfile returns for a MAT-file with all parts (values squeezed, one array per field)"""
    pc = len(brk) - 1
    d = dict(n=dim(n))
    o = {
        'pp': DDict({'order': arr0(A, order), 'pieces': arr0(A, pc), 'dim': arr0(A, d['n']), 'breaks': A.arr(brk),
                     'coefs': A.syms('mc', (d['n'] * pc, order)), 'form': 'pp'}),
        'g': A.syms('mg', dim(nstat)),
        'model_ext': DDict({'m_sm': A.syms('msm', 8), 'm_Dst': A.syms('mdst', 3), 'm_gsm': A.syms('mgsm', 2),
                            't_break_q10': A.arr(brk), 't_break_qs11': A.arr(brk), 'q10': A.syms('mq10', pc),
                            'qs11': A.syms('mqs11', (pc, 2))}),
        'params': DDict({'Euler_prerotation': A.syms('mpre', (sats, 3))}),
        'pp_CAL': DDict({'breaks': A.arr(brk), 'coefs': A.syms('mcal', (9 * pc, 1))}),
    }

    def objs(xs):
        e = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            e[i] = x
        return new_arr(e, V.O)
    o['model_Euler'] = DDict({'t_break_Euler': objs([A.arr(brk).__class__ and new_arr(A.arr(brk).get().reshape(-1, 1), F) for _ in range(sats)]),
                              **{k: objs([A.syms(f'm{k}{i}', (pc, 1)) for i in range(sats)]) for k in ('alpha', 'beta', 'gamma')}})
    for k in drop:
        del o[k]
    return DDict(o)


def arr0(A, x):
    return new_arr(objarr0(T.num(x)), F)
