"""configuration properties: scoped overrides, validated writes, incorruptible defaults"""
import itertools
from .common import *

VALS = {
    'params.r_surf': 'f', 'params.r_cmb': 'f', 'plots.figure_width': 'f',
    'params.dipole': 3, 'params.ellipsoid': 2, 'params.CHAOS_version': 'v', 'params.cdf_to_mjd': 'i',
    'file.RC_index': 'p', 'file.GSM_spectrum': 'p', 'file.SM_spectrum': 'p', 'file.Earth_conductivity': 'p',
    'file.shp_coastline': 'p',
}
KEYS = list(VALS)


def good(A, key, tag='n'):
    """(value to write, value that must be stored)"""
    k = VALS[key]
    if k == 'f':
        x = sym(f'{tag}_{key}', 'pos')
        return x, x
    if k == 'i':
        return 730400, 730400
    if k == 'v':
        return '7.1' + tag[-1:].replace('n', '1').replace('m', '2'), None
    if k == 'p':
        p = f'/data/{tag}_{key}'
        A.put(p)
        return p, p
    v = A.syms(f'{tag}_{key}', k)
    return v, None


def bad(A, key):
    """(invalid value, exceptions allowed)"""
    k = VALS[key]
    return {'f': ('abc', ValueError), 'i': ('abc', ValueError), 'v': ('seven', ValueError),
            'p': ('/no/such/file', FileNotFoundError)}.get(k) or (A.syms('bad', k + 1), ValueError)


SCOPE = '''
def normal(c, key, val, seen):
    with c.context(key, val):
        seen.append(c[key])
def raising(c, key, val, seen):
    with c.context(key, val):
        seen.append(c[key])
        raise KeyError('inside')
def raising_base(c, key, val, seen):
    with c.context(key, val):
        seen.append(c[key])
        raise KeyboardInterrupt()
def caught(c, key, val, seen):
    try:
        with c.context(key, val):
            seen.append(c[key])
            raise ValueError('inside')
    except ValueError:
        pass
def early(c, key, val, seen):
    with c.context(key, val):
        seen.append(c[key])
        return 1
    return 2
def broken(c, key, val, seen):
    for i in (1, 2):
        with c.context(key, val):
            seen.append(c[key])
            break
def continued(c, key, val, seen):
    for i in (1, 2):
        with c.context(key, val):
            seen.append(c[key])
            continue
def nested(c, key, val, seen, val2):
    with c.context(key, val2):
        with c.context(key, val):
            seen.append(c[key])
def nested_raise(c, key, val, seen, val2):
    with c.context(key, val2):
        with c.context(key, val):
            seen.append(c[key])
            raise KeyError('inside')
def assigned(c, key, val, seen, val2):
    with c.context(key, val):
        seen.append(c[key])
        c[key] = val2
def assigned_raise(c, key, val, seen, val2):
    with c.context(key, val):
        seen.append(c[key])
        c[key] = val2
        raise KeyError('inside')
def cond(c, key, val, seen, flag):
    with c.context(key, val):
        seen.append(c[key])
        if flag > 0:
            raise KeyError('inside')
def sequence(c, key, ops, vals, seen):
    for op, v in zip(ops, vals):
        if op == 'set':
            c[key] = v
        elif op == 'reset':
            c.reset(key)
        elif op == 'with':
            with c.context(key, v):
                seen.append(c[key])
        elif op == 'raise':
            try:
                with c.context(key, v):
                    seen.append(c[key])
                    raise KeyError('inside')
            except KeyError:
                pass
        elif op == 'inner':
            with c.context(key, vals[0]):
                with c.context(key, v):
                    seen.append(c[key])
                c.reset(key)
def entered(c, key, val, seen):
    with c.context(key, val):
        seen.append(1)
'''


@rule('C01', 'Temporary configuration overrides are always undone',
      'exception-edge dataflow over the context manager: heap state of the configuration at every exit of a with-block')
def c01(ck):
    def scope(c, key, fn, second=False):
        A = c.an()
        lib_present(A)
        env = A.client(SCOPE)
        w = c.where('config_utils.BasicConfig.context')
        v, want = good(A, key)
        seen = LList()
        conf = cfg(A)
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        extra = [good(A, key, 'm')[0]] if second else []
        if fn == 'cond':
            extra = [sym('flag')]
        f = env[fn]
        r = A.call(f, conf, key, v, seen, *extra, watch={'c': conf, 'seen': seen})
        stored = A.run(lambda: (A.I.setitem(conf, key, v), A.I.getitem(conf, key))[1]).value
        outs = [o for o in r.outs if c.sat(o.cond)]
        c.ok(outs, w, f'override of {key} has no outcome')
        for o in outs:
            lab = o.kind if o.kind == 'return' else o.exc_name
            if fn in ('raising', 'nested_raise', 'assigned_raise'):
                c.ok(o.kind == 'raise' and o.exc_name == 'KeyError', w, f'{key}: exception raised in the block is lost ({lab})')
            if fn == 'raising_base':
                c.ok(o.kind == 'raise' and o.exc_name == 'KeyboardInterrupt', w, f'{key}: exception raised in the block is replaced ({lab})')
            if fn in ('normal', 'early', 'broken', 'continued', 'nested', 'caught', 'assigned'):
                c.ok(o.kind == 'return', w, f'{key}: block raises {lab} {o.msg!r:.60}')
            got = o.watch['c']
            for k in before.data:
                c.ok(k in got.data, w, f'{k} vanished after override of {key} ({fn})')
                c.equal(got.data[k], before.data[k], w, f'after the {fn} block overriding {key}, parameter {k}')
            c.ok(set(got.data) == set(before.data), w, 'parameters were added')
            c.ok(len(o.watch['seen']) >= 1, w, f'block of {fn} never ran')
            for s in o.watch['seen']:
                c.equal(s, stored, w, f'value of {key} inside the block')

    for key in KEYS:
        for fn in ('normal', 'raising', 'raising_base', 'caught', 'early', 'broken', 'continued', 'cond'):
            ck.add(f'{key}/{fn}', scope, key, fn)
        for fn in ('nested', 'nested_raise', 'assigned', 'assigned_raise'):
            ck.add(f'{key}/{fn}', scope, key, fn, True)

    def modified_first(c, key):
        # previous value is not the default one
        A = c.an()
        lib_present(A)
        env = A.client(SCOPE)
        w = c.where('config_utils.BasicConfig.context')
        conf = cfg(A)
        v0, _ = good(A, key, 'm')
        A.do(lambda: A.I.setitem(conf, key, v0))
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        v, _ = good(A, key)
        for fn in ('normal', 'raising'):
            r = A.call(env[fn], conf, key, v, LList(), watch={'c': conf})
            for o in r.outs:
                c.equal(o.watch['c'].data, before.data, w, f'configuration after the {fn} block overriding {key}')
    for key in KEYS:
        ck.add(f'{key}/custom-previous', modified_first, key)

    def sequence(c, key, ops):
        # overrides and assignments one after the other: only the assignments last
        A = c.an()
        lib_present(A)
        env = A.client(SCOPE)
        w = c.where('config_utils.BasicConfig.context')
        conf = cfg(A)
        vals = [good(A, key, f's{i}m' if i % 2 else f's{i}')[0] for i in range(len(ops))]
        kept = [(o, v) for o, v in zip(ops, vals) if o in ('set', 'reset')]
        want = A.call(env['sequence'], conf, key, LList([o for o, v in kept]), LList([v for o, v in kept]), LList(), watch={'c': conf})
        seen = LList()
        r = A.call(env['sequence'], conf, key, LList(list(ops)), LList(vals), seen, watch={'c': conf, 'seen': seen})
        c.returns(r, w, f'overrides of {key}')
        c.equal(r.ret.watch['c'].data, want.ret.watch['c'].data, w, f'configuration after {", ".join(ops)} of {key}')
        stored = []
        for o, v in zip(ops, vals):
            if o in ('with', 'raise', 'inner'):
                stored.append(A.run(lambda: (A.I.setitem(conf, key, v), A.I.getitem(conf, key))[1]).value)
        c.equal(r.ret.watch['seen'], stored, w, f'values of {key} inside the blocks of {", ".join(ops)}')
    OPS = ('set', 'reset', 'with', 'raise', 'inner')
    for key in KEYS:
        for ops in itertools.product(OPS, repeat=3):
            if sum(o in ('with', 'raise', 'inner') for o in ops) and (ck.tier == 'thorough' or key in ('params.r_surf', 'params.dipole', 'file.RC_index')
                                                                    or ops[1] in ('set', 'reset') and ops[0] == 'with' and ops[2] != 'set'):
                ck.add(f'{key}/sequence/{"-".join(ops)}', sequence, key, ops)
        if ck.tier == 'thorough':
            for ops in itertools.product(OPS, repeat=4):
                if sum(o in ('with', 'raise', 'inner') for o in ops) > 1:
                    ck.add(f'{key}/sequence/{"-".join(ops)}', sequence, key, ops)

    def stale(c, key):
        # the previous value would not pass validation any more (its file is gone)
        A = c.an()
        env = A.client(SCOPE)
        w = c.where('config_utils.BasicConfig.context')
        conf = cfg(A)
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        v, _ = good(A, key)
        for fn in ('normal', 'raising'):
            r = A.call(env[fn], conf, key, v, LList(), watch={'c': conf})
            for o in r.outs:
                c.equal(o.watch['c'].data, before.data, w, f'configuration after the {fn} block overriding {key} '
                                                          f'whose previous file is gone')
    for key in KEYS:
        if VALS[key] == 'p':
            ck.add(f'{key}/previous-file-gone', stale, key)

    def rejected(c, key):
        A = c.an()
        lib_present(A)
        env = A.client(SCOPE)
        w = c.where('config_utils.BasicConfig.context')
        conf = cfg(A)
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        for k, v, ex in ((key,) + bad(A, key), ('params.nonsense', 1.0, KeyError)):
            seen = LList()
            r = A.call(env['entered'], conf, k, v, seen, watch={'c': conf, 's': seen})
            c.always_raises(r, (ex, ValueError) if ex is FileNotFoundError else ex, w, f'override of {k} with an invalid value')
            for o in r.outs:
                c.ok(not o.watch['s'], w, f'block entered although {k} was rejected')
                c.equal(o.watch['c'].data, before.data, w, f'configuration after the rejected override of {k}')
    for key in KEYS:
        ck.add(f'{key}/rejected', rejected, key)


# ------------------------------------------------------------------ C02
WRITES = '''
import numpy as np
def setitem(c, key, val): c[key] = val
def update(c, key, val): c.update({key: val})
def update_pairs(c, key, val): c.update([(key, val)])
def update_kw(c, key, val): c.update(**{key: val})
def update_both(c, key, val): c.update({}, **{key: val})
def merge(c, key, val): c |= {key: val}
def setdefault(c, key, val):
    c.setdefault(key, val)
def setdefault_missing(c, key, val):
    if key in c:
        del c[key]
    c.setdefault(key, val)
def load(c, key, val): c.load('/cfg/file.json')
def context(c, key, val):
    with c.context(key, val):
        inner.append(c[key])
def is_float(v): return isinstance(v, float)
def is_int(v): return isinstance(v, int)
def is_str(v): return isinstance(v, str)
def is_vec(v): return isinstance(v, np.ndarray) and v.dtype == float and v.ndim == 1
'''

TYPE = {'f': 'is_float', 'i': 'is_int', 'v': 'is_str', 'p': 'is_str'}


def goods(A, key):
    """valid values: (label, value, wanted stored value)"""
    k = VALS[key]
    if k == 'f':
        x = sym('g_' + key, 'pos')
        return [('float', x, x), ('int', 7, 7.0), ('str', '3.5', 3.5), ('negative', -2.5, -2.5)]
    if k == 'i':
        return [('int', 730400, 730400), ('float', 730400.0, 730400), ('str', '12', 12)]
    if k == 'v':
        return [('x.y', '7.11', '7.11'), ('x.yy', '8.2', '8.2')]
    if k == 'p':
        p = '/data/g_' + key
        A.put(p)
        return [('file', p, p), ('none', None, None)]
    xs = [sym(f'g_{key}{i}') for i in range(k)]
    a = A.arr(xs)
    return [('array', a, a), ('list', LList(list(xs)), a), ('tuple', tuple(xs), a),
            ('ints', LList(list(range(1, k + 1))), A.arr(list(range(1, k + 1)))),
            ('strings', LList([str(i + 0.5) for i in range(k)]), A.arr([i + 0.5 for i in range(k)]))]


def bads(A, key):
    k = VALS[key]
    if k == 'f':
        return [('text', 'abc'), ('list', LList([1.0, 2.0])), ('none', None), ('dict', DDict({}))]
    if k == 'i':
        return [('text', 'abc'), ('list', LList([1, 2])), ('none', None), ('real text', '1.5')]
    if k == 'v':
        return [('word', 'seven'), ('integer', 7), ('empty', ''), ('list', LList([7]))]
    if k == 'p':
        return [('missing file', '/no/such/file'), ('missing relative file', 'nothere.h5')]
    return [('short', A.syms('bad', k - 1)), ('long', A.syms('bad', k + 1)), ('matrix', A.syms('bad', (1, k))),
            ('column', A.syms('bad', (k, 1))), ('scalar', 1.5), ('text', 'abc'), ('none', None),
            ('words', LList(['a'] * k)), ('mixed', LList([1.0] * (k - 1) + ['x'])), ('empty', LList([]))]


def jsonable(v):
    if isinstance(v, Arr):
        return LList(list(v.get().ravel())) if v.get().ndim == 1 else LList(
            [LList(list(r)) for r in v.get()]) if v.get().ndim == 2 else None
    return v


@rule('C02', 'Only known parameters with valid values ever enter the configuration',
      'value-class analysis of every public write operation of the configuration (all writes dominated by validation)')
def c02(ck):
    OPS = ['setitem', 'update', 'update_pairs', 'update_kw', 'update_both', 'merge', 'setdefault_missing', 'load']

    def prep(A, op, key, v):
        if op == 'load':
            from ..extlibs import to_json
            A.put('/cfg/file.json', V.placeholder(to_json(A.I, DDict({key: jsonable(v)}), None), 'json'))

    def accept(c, key, op):
        A = c.an()
        lib_present(A)
        env = A.client(WRITES, inner=LList())
        w = c.where('config_utils.BasicConfig')
        conf = cfg(A)
        for lab, v, want in goods(A, key):
            if op == 'load' and isinstance(v, tuple):
                continue
            before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
            prep(A, op, key, v)
            r = A.call(env[op], conf, key, v, watch={'c': conf})
            c.returns(r, w, f'{op} of {key} with a valid value ({lab})')
            got = r.ret.watch['c'].data
            c.ok(key in got, w, f'{op} of {key} ({lab}) stores nothing')
            c.equal(got[key], snapof(A, want), w, f'value stored by {op} of {key} ({lab})')
            for k in before.data:
                if k != key:
                    c.equal(got[k], before.data[k], w, f'parameter {k} after {op} of {key}')
            c.ok(set(got) <= set(before.data), w, f'{op} of {key} adds parameters')

            def typ():
                A.I.call(env[op], [conf, key, v], {})
                x = A.I.getitem(conf, key)
                return A.I.call(env[TYPE.get(VALS[key], 'is_vec')], [x], {})
            if want is not None:
                t = A.run(typ).value
                c.ok(conc(t, c.tr(1)[0]) in (True, np.True_), w, f'{op} of {key} ({lab}) does not store the documented type')

    def reject(c, key, op):
        A = c.an()
        lib_present(A)
        env = A.client(WRITES, inner=LList())
        w = c.where('config_utils.BasicConfig')
        conf = cfg(A)
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        for lab, v in bads(A, key):
            if op == 'load' and isinstance(v, DDict):
                continue
            prep(A, op, key, v)
            r = A.call(env[op], conf, key, v, watch={'c': conf})
            c.always_raises(r, Exception, w, f'{op} of {key} with an invalid value ({lab})')
            for o in r.outs:
                got = o.watch['c'].data
                if op == 'setdefault_missing':
                    c.ok(key not in got, w, f'{op} of {key} keeps an invalid value ({lab})')
                    continue
                c.equal(got, before.data, w, f'configuration after {op} of {key} with an invalid value ({lab})')

    for key in KEYS:
        for op in OPS:
            ck.add(f'accept/{op}/{key}', accept, key, op)
            ck.add(f'reject/{op}/{key}', reject, key, op)

    def unknown(c, op):
        A = c.an()
        lib_present(A)
        env = A.client(WRITES, inner=LList())
        w = c.where('config_utils.BasicConfig')
        conf = cfg(A)
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        for key in ('params.nonsense', 'r_surf', '', 'params', 'PARAMS.R_SURF', 'defaults'):
            prep(A, op, key, 1.0)
            r = A.call(env[op], conf, key, 1.0, watch={'c': conf})
            c.always_raises(r, KeyError, w, f'{op} of the unknown parameter {key!r}')
            for o in r.outs:
                c.ok(key not in o.watch['c'].data, w, f'{op} stores the unknown parameter {key!r}')
                c.equal(o.watch['c'].data, before.data, w, f'configuration after {op} of an unknown parameter')
    for op in OPS + ['setdefault', 'context']:
        ck.add(f'unknown/{op}', unknown, op)

    def reset_unknown(c):
        A = c.an()
        conf = cfg(A)
        w = c.where('config_utils.BasicConfig.reset')
        r = A.method(conf, 'reset', 'params.nonsense', watch={'c': conf})
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        c.always_raises(r, KeyError, w, 'reset of an unknown parameter')
        for o in r.outs:
            c.equal(o.watch['c'].data, before.data, w, 'configuration after reset of an unknown parameter')
    ck.add('unknown/reset', reset_unknown)

    def present(c, key):
        # set-default on a present key keeps and returns the present value
        A = c.an()
        lib_present(A)
        env = A.client('def f(c, key, val): return c.setdefault(key, val)')
        conf = cfg(A)
        w = c.where('config_utils.BasicConfig')
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        v, _ = good(A, key)
        r = A.call(env['f'], conf, key, v, watch={'c': conf})
        c.returns(r, w, f'set-default of {key}')
        c.equal(r.value, before.data[key], w, f'value returned by set-default of {key}')
        c.equal(r.ret.watch['c'].data, before.data, w, f'configuration after set-default of the present {key}')
    for key in KEYS:
        ck.add(f'setdefault-present/{key}', present, key)

    def many(c, op):
        # one invalid entry among valid ones
        A = c.an()
        lib_present(A)
        env = A.client('def f(c, d): c.update(d)\ndef g(c, d): c |= d\ndef h(c, d): c.load("/cfg/file.json")')
        conf = cfg(A)
        w = c.where('config_utils.BasicConfig')
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c']
        for badkey, badval, ex in (('params.ellipsoid', LList([1.0]), ValueError), ('params.nonsense', 1.0, KeyError)):
            for order in (0, 1):
                items = [('params.r_surf', 6000.0), (badkey, badval), ('plots.figure_width', 5.0)]
                d = DDict(dict(items if order else items[::-1]))
                if op == 'h':
                    from ..extlibs import to_json
                    A.put('/cfg/file.json', V.placeholder(to_json(A.I, d, None), 'json'))
                r = A.call(env[op], conf, d, watch={'c': conf})
                c.always_raises(r, ex, w, f'bulk write with the invalid {badkey}')
                for o in r.outs:
                    got = o.watch['c'].data
                    c.ok(set(got) == set(before.data), w, 'bulk write adds or drops parameters')
                    if badkey in got:
                        c.equal(got[badkey], before.data[badkey], w, f'{badkey} after the refused bulk write')
    for op in 'fgh':
        ck.add(f'bulk/{op}', many, op)


# ------------------------------------------------------------------ C03
HIST = '''
import numpy as np
def nothing(c, key, val): pass
def assign(c, key, val): c[key] = val
def inplace(c, key, val): c[key][0] = 1.0
def inplace_all(c, key, val): c[key][:] = 0.
def inplace_op(c, key, val):
    a = c[key]
    a *= 2
def assign_inplace(c, key, val):
    c[key] = val
    c[key][0] = 1.0
def reset_inplace(c, key, val):
    c.reset(key)
    c[key][0] = 1.0
def fullreset_inplace(c, key, val):
    c.fullreset()
    c[key][0] = 1.0
def twice(c, key, val):
    c.fullreset()
    c[key][0] = 1.0
    c.reset(key)
    c[key][1] = 2.0
def context_inplace(c, key, val):
    with c.context(key, val):
        c[key][0] = 1.0
def context_default(c, key, val):
    with c.context(key, c[key]):
        c[key][0] = 1.0
def context_raise(c, key, val):
    try:
        with c.context(key, val):
            c[key][0] = 1.0
            raise ValueError('x')
    except ValueError:
        pass
def selfassign_inplace(c, key, val):
    c[key] = c[key]
    c[key][0] = 1.0
def default_assign_inplace(c, key, val):
    c[key] = c.defaults[key][0]
    c[key][0] = 1.0
def update_inplace(c, key, val):
    c.update({key: val})
    c[key][0] = 1.0
def values_inplace(c, key, val):
    for k, v in c.items():
        if k == key:
            v[0] = 1.0
def get_inplace(c, key, val):
    v = c.get(key)
    v[0] = 1.0
def copy_inplace(c, key, val):
    d = c.copy()
    d[key][0] = 1.0
def deleted(c, key, val): del c[key]
def popped(c, key, val): c.pop(key)
def cleared(c, key, val): c.clear()
def saved(c, key, val):
    c[key] = val
    c.save('/cfg/s.json')
    c.load('/cfg/s.json')
def user_array(c, key, val):
    c[key] = val
    val[0] = 1.0
'''
SCALAR_H = ['nothing', 'assign', 'deleted', 'popped', 'cleared', 'saved']
VECTOR_H = ['nothing', 'assign', 'inplace', 'inplace_all', 'inplace_op', 'assign_inplace', 'reset_inplace',
            'fullreset_inplace', 'twice', 'context_inplace', 'context_default', 'context_raise', 'selfassign_inplace',
            'default_assign_inplace', 'update_inplace', 'values_inplace', 'get_inplace', 'copy_inplace', 'deleted',
            'popped', 'cleared', 'saved', 'user_array']


@rule('C03', 'Built-in defaults cannot be corrupted and resetting restores them',
      'aliasing and mutation analysis of the abstract heap between live configuration and defaults table')
def c03(ck):
    def pristine(A):
        """the defaults as the module defines them"""
        d = A.get('config_utils.BasicConfig.defaults')
        return {k: conc(snapof(A, A.I.getitem(v, 0)), trials(1)[0]) for k, v in d.items.items()}

    def want(A, first):
        return first

    def hist(c, key, h, how):
        A = c.an()
        lib_present(A)
        env = A.client(HIST)
        conf = cfg(A)
        defs = A.get('config_utils.BasicConfig.defaults')
        w = c.where('config_utils.BasicConfig')
        first = pristine(A)
        v, _ = good(A, key)
        c.ok(set(first) == set(VALS), w, 'the set of parameters')

        def run():
            A.I.call(env[h], [conf, key, v], {})
            mid = snap(conf)
            if how == 'reset':
                A.I.call(A.I.getattr(conf, 'reset'), [key], {})
            elif how == 'fullreset':
                A.I.call(A.I.getattr(conf, 'fullreset'), [], {})
            got['mid'] = mid
        got = {}
        r = A.run(run, watch={'c': conf, 'd': defs})
        c.returns(r, w, f'history {h} of {key} then {how}')
        o = r.ret
        t = c.tr(1)[0]
        for k in first:
            dv = conc(o.watch['d'][k], t)[0]
            d = same(dv, first[k])
            c.ok(d is None, w, f'built-in default of {k} changed by history {h} of {key}: {d}')
        live = o.watch['c'].data
        if how == 'fullreset':
            for k in first:
                c.ok(k in live, w, f'{k} missing after a full reset')
                d = same(conc(live[k], t), first[k])
                c.ok(d is None, w, f'{k} after history {h} of {key} and a full reset is not its default: {d}')
        if how == 'reset':
            d = same(conc(live[key], t), first[key])
            c.ok(d is None, w, f'{key} after history {h} and reset is not its default: {d}')
            for k in live:
                if k != key:
                    c.ok(k in got['mid'].data, w, f'reset of {key} adds {k}')
                    c.equal(live[k], got['mid'].data[k], w, f'{k} after reset of {key}')
            c.ok(set(live) - {key} == set(got['mid'].data) - {key}, w, f'reset of {key} changes other parameters')
    for key in KEYS:
        for h in (VECTOR_H if isinstance(VALS[key], int) else SCALAR_H):
            for how in ('none', 'reset', 'fullreset'):
                ck.add(f'{key}/{h}/{how}', hist, key, h, how)

    def separate(c):
        # no array is shared between live values, defaults and a user's array
        A = c.an()
        lib_present(A)
        conf, defs = cfg(A), A.get('config_utils.BasicConfig.defaults')
        w = c.where('config_utils.BasicConfig')
        d = reach(defs)
        for how in ('import', 'reset', 'fullreset'):
            def run():
                if how == 'reset':
                    for k in KEYS:
                        A.I.call(A.I.getattr(conf, 'reset'), [k], {})
                elif how == 'fullreset':
                    A.I.call(A.I.getattr(conf, 'fullreset'), [], {})
                shared.extend(k for k, x in conf.data.items.items() if isinstance(x, Arr) and id(x.buf) in d)
            shared = []
            A.run(run)
            c.ok(not shared, w, f'after {how} the live value of {shared} is the array of the defaults table')
    ck.add('no-shared-arrays', separate)

    def initial(c):
        # configuration at import equals the defaults
        A = c.an()
        conf = cfg(A)
        first = pristine(A)
        t = c.tr(1)[0]
        w = c.where('config_utils.BasicConfig')
        live = A.run(lambda: None, watch={'c': conf}).ret.watch['c'].data
        d = same(conc(live, t), first)
        c.ok(d is None, w, f'configuration at import differs from the defaults: {d}')
    ck.add('initial', initial)


# ------------------------------------------------------------------ C33
@rule('C33', 'Saving and loading a configuration restores it',
      'value-graph equality of the configuration before save and after load, through the abstract file system')
def c33(ck):
    SRC = '''
def save(c): c.save('/cfg/s.json')
def load(c): c.load('/cfg/s.json')
import numpy as np
def kind(v):
    if isinstance(v, np.ndarray):
        return ('vector', v.dtype == float, v.ndim)
    return ('none' if v is None else 'str' if isinstance(v, str) else 'int' if isinstance(v, int) else
            'float' if isinstance(v, float) else 'other')
'''

    def trip(c, key, lab, between):
        A = c.an()
        lib_present(A)
        env = A.client(SRC)
        conf = cfg(A)
        w = c.where('config_utils.BasicConfig.save')
        for l, v, want in goods(A, key):
            if l != lab:
                continue
            got = {}

            def kinds():
                return {k: snap(A.I.call(env['kind'], [x], {})) for k, x in conf.data.items.items()}

            def run():
                A.I.setitem(conf, key, v)
                got['a'], got['ka'] = snap(conf).data, kinds()
                A.I.call(env['save'], [conf], {})
                got['b'] = snap(conf).data
                if between == 'fullreset':
                    A.I.call(A.I.getattr(conf, 'fullreset'), [], {})
                elif between == 'other':
                    for k in KEYS:
                        A.I.setitem(conf, k, good(A, k, 'm')[0])
                elif between == 'cleared':
                    A.I.call(A.I.getattr(conf, 'clear'), [], {})
                A.I.call(env['load'], [conf], {})
                got['c'], got['kc'] = snap(conf).data, kinds()
            r = A.run(run)
            c.returns(r, w, f'save and load with {key} = {lab}')
            c.equal(got['b'], got['a'], w, 'configuration after saving')
            c.equal(got['c'], got['a'], w, f'configuration after save, {between}, load ({key} = {lab})')
            c.equal(got['kc'], got['ka'], w, f'value types after save, {between}, load ({key} = {lab})')
    LABS = {'f': ['float', 'int', 'str', 'negative'], 'i': ['int'], 'v': ['x.y'], 'p': ['file', 'none']}
    for key in KEYS:
        for lab in LABS.get(VALS[key], ['array', 'ints']):
            for b in ('nothing', 'fullreset', 'other', 'cleared'):
                ck.add(f'{key}/{lab}/{b}', trip, key, lab, b)

    def empty(c):
        A = c.an()
        from ..extlibs import to_json
        conf = cfg(A)
        w = c.where('config_utils.BasicConfig.load')
        A.put('/cfg/e.json', V.placeholder(to_json(A.I, DDict({}), None), 'json'))
        before = A.run(lambda: None, watch={'c': conf}).ret.watch['c'].data
        r = A.method(conf, 'load', '/cfg/e.json', watch={'c': conf})
        c.returns(r, w, 'loading an empty file')
        c.equal(r.ret.watch['c'].data, before, w, 'configuration after loading an empty file')
    ck.add('empty-file', empty)


# ------------------------------------------------------------------ C04
def _models(A):
    d = {}
    d['base'], d['brk'], _ = basemodel(A, 2, 2, 2)
    d['ext'], _, _ = basemodel(A, 1, 1, 2, source='external', tag='x', brk=[d['brk'][0], d['brk'][-1]])
    d['chaos'] = Chaos(A, order=2, pieces=2, n=1, nstat=2, brk=d['brk'])
    d['t'] = inside(d['brk'])
    d['day'] = sym('day', 'day')
    d['r'], d['th'], d['ph'] = point()
    return d


def C_(A, f, *a, **k):
    return A.I.call(A.get(f) if isinstance(f, str) else f, list(a), k)


def M_(A, o, n, *a, **k):
    return A.I.call(A.I.getattr(o, n), list(a), k)


def c04_calls():
    """parameter -> {label: function(A, d) -> raw value}"""
    r, e, g, k = {}, {}, {}, {}
    P3 = lambda d: (d['r'], d['th'], d['ph'])      # noqa: E731
    r['synth_values internal'] = lambda A, d: C_(A, MU + 'synth_values', A.syms('c', 8), *P3(d))
    r['synth_values external'] = lambda A, d: C_(A, MU + 'synth_values', A.syms('c', 8), *P3(d), source='external', nmax=2)
    r['synth_values grid'] = lambda A, d: C_(A, MU + 'synth_values', A.syms('c', 3), d['r'], A.syms('th', 2, 'theta'),
                                             A.syms('ph', 2, 'phi'), grid=True)
    r['design_gauss internal'] = lambda A, d: C_(A, MU + 'design_gauss', *P3(d), 2)
    r['design_gauss external'] = lambda A, d: C_(A, MU + 'design_gauss', *P3(d), 2, nmin=2, source='external')
    r['design_matrix'] = lambda A, d: C_(A, MU + 'design_matrix', A.arr([d['brk'][0]] + d['brk'] + [d['brk'][-1]]), 2, 1,
                                         A.arr([d['t']]), *[A.arr([x]) for x in P3(d)])
    r['synth_from_pp'] = lambda A, d: C_(A, MU + 'synth_from_pp', A.arr(d['brk']), 2, A.syms('c', (2, 2, 3)), d['t'], *P3(d))
    for s in ('internal', 'external'):
        r[f'power_spectrum {s}'] = lambda A, d, s=s: C_(A, MU + 'power_spectrum', A.syms('c', 8), d['r'], source=s)
    r['model values'] = lambda A, d: M_(A, d['base'], 'synth_values', d['t'], *P3(d))
    r['external model values'] = lambda A, d: M_(A, d['ext'], 'synth_values', d['t'], *P3(d), deriv=0)
    r['model spectrum at radius'] = lambda A, d: M_(A, d['base'], 'power_spectrum', d['t'], d['r'])
    r['chaos tdep'] = lambda A, d: M_(A, d['chaos'].m, 'synth_values_tdep', d['t'], *P3(d))
    r['chaos static'] = lambda A, d: M_(A, d['chaos'].m, 'synth_values_static', *P3(d))
    r['chaos gsm'] = lambda A, d: M_(A, d['chaos'].m, 'synth_values_gsm', d['t'], *P3(d), nmax=1)
    r['chaos sm'] = lambda A, d: M_(A, d['chaos'].m, 'synth_values_sm', d['t'], *P3(d), rc_e=sym('e'), rc_i=sym('i'), nmax=1)
    r['chaos call'] = lambda A, d: A.I.call(d['chaos'].m, [d['t'], *P3(d)],
                                            dict(source_list='internal'))
    for X in (0, 1):
        kw = dict(X=sym('X'), Z=sym('Z')) if X else {}
        e[f'gg_to_geo {X}'] = lambda A, d, kw=kw: C_(A, CO_ + 'gg_to_geo', T.scale(sym('h', 'pos'), 100), sym('be', 'theta'), **kw)
        kw = dict(B_radius=sym('X'), B_theta=sym('Z')) if X else {}
        e[f'geo_to_gg {X}'] = lambda A, d, kw=kw: C_(A, CO_ + 'geo_to_gg', d['r'], d['th'], **kw)
    for fr in ('gsm', 'sm', 'mag'):
        tm = (lambda d: ()) if fr == 'mag' else (lambda d: (d['day'],))
        g[f'basevectors_{fr}'] = lambda A, d, fr=fr, tm=tm: C_(A, CO_ + f'basevectors_{fr}', *tm(d))
        for inv in (False, True):
            g[f'transform_points {fr} {inv}'] = lambda A, d, fr=fr, inv=inv: C_(
                A, CO_ + 'transform_points', d['th'], d['ph'], d['day'], reference=fr, inverse=inv)
            g[f'transform_vectors {fr} {inv}'] = lambda A, d, fr=fr, inv=inv: C_(
                A, CO_ + 'transform_vectors', d['th'], d['ph'], sym('Bt'), sym('Bp'), d['day'], reference=fr, inverse=inv)
    g['dipole_to_vec'] = lambda A, d: C_(A, CO_ + 'dipole_to_vec')
    return r, e, g


CO_ = 'coordinate_utils.'


@rule('C04', 'Configuration is read when a function is called',
      'dependence analysis of value graphs on symbolic configuration cells, across changes between calls')
def c04(ck):
    r, e, g = c04_calls()

    def at_import(A):
        """other values than the built-in ones, in force while the package is imported"""
        return {'params.r_surf': T.scale(sym('imp0', 'gap'), 6500.), 'params.dipole': A.syms('impd', 3, 'gap'),
                'params.ellipsoid': A.arr([T.scale(sym('impa', 'gap'), 6000.), T.scale(sym('impb', 'gap'), 5000.)]),
                'plots.figure_width': T.scale(sym('impw', 'gap'), 5.)}

    def live(c, key, lab, f, k):
        A = c.an()
        w = f'{lab} ({key})'

        def world(A):
            fulllib(A, n=2)
            d = _models(A)
            conf = cfg(A)
            v1, v2 = [(sym(f'cfg{i}', 'pos') if k == 'f' else A.syms(f'cfg{i}', k, 'gap')) for i in (1, 2)]
            if key == 'params.r_surf':
                v1, v2 = T.scale(v1, 5000.), T.scale(v2, 7000.)
            if key == 'params.ellipsoid':
                v1, v2 = [A.arr([T.scale(sym(f'cfga{i}', 'gap'), 6000.), T.scale(sym(f'cfgb{i}', 'gap'), 5000.)]) for i in (1, 2)]

            def seq(*vals):
                def run():
                    out = None
                    for v in vals:
                        if v is not None:
                            A.I.setitem(conf, key, v)
                        out = f(A, d)
                    return out
                x = A.run(run)
                c.returns(x, w, lab)
                return x.value
            return d, conf, v1, v2, seq
        B = c.an(configured=at_import)
        for o in ('params.r_surf', 'params.dipole', 'params.ellipsoid', 'plots.figure_width'):
            if o != key:
                B.do(lambda: B.I.setitem(cfg(B), o, A.I.getitem(cfg(A), o)))
        db, confb, b1, b2, seqb = world(B)
        other = seqb(b2)
        c.A = A
        d, conf, v1, v2, seq = world(A)
        base = seq(v2)
        c.equal(other, base, w, f'{lab}: value of {key} in force at the time of the call is used, not the one in force at import')
        c.equal(seq(None, v2), base, w, f'{lab}: value of {key} in force at the time of the call is used (earlier default call)')
        c.equal(seq(v1, v2), base, w, f'{lab}: value of {key} in force at the time of the call is used (earlier call)')
        first = seq(v1)
        dep = any(same(conc(first, t), conc(base, t)) for t in c.tr())
        c.ok(dep, w, f'{lab}: result does not depend on {key}')

        def ctx():
            # a temporary override acts like an assignment
            env = A.client('def run(c, key, v, f):\n    with c.context(key, v):\n        return f()\n')
            return A.I.call(env['run'], [conf, key, v2, Builtin('f', lambda I, a, k: f(A, d))], {})
        x = A.run(ctx)
        c.returns(x, w, lab)
        c.equal(x.value, base, w, f'{lab}: temporary override of {key} acts like an assignment')
        if key == 'params.r_surf':
            # only the ratio of radius and reference radius matters
            s = sym('sc', 'gap')
            d['r'] = T.mul(d['r'], s)
            y = seq(T.mul(v2, s) if isinstance(v2, Node) else v2)
            c.equal(y, base, w, f'{lab}: radius is measured in units of {key}')
    for lab, f in r.items():
        ck.add(f'r_surf/{lab}', live, 'params.r_surf', lab, f, 'f')
    for lab, f in e.items():
        ck.add(f'ellipsoid/{lab}', live, 'params.ellipsoid', lab, f, 2)
    for lab, f in g.items():
        ck.add(f'dipole/{lab}', live, 'params.dipole', lab, f, 3)

    def default_radius(c):
        A = c.an()
        m, brk, _ = basemodel(A)
        w = c.where(CH + 'BaseModel.power_spectrum')
        v = T.scale(sym('rs', 'gap'), 6000.)
        t = inside(brk)
        want = A.run(lambda: M_(A, m, 'power_spectrum', t, v)).value

        def run():
            M_(A, m, 'power_spectrum', t)
            A.I.setitem(cfg(A), 'params.r_surf', v)
            a = M_(A, m, 'power_spectrum', t)
            return a, M_(A, m, 'power_spectrum', t, v)
        x = A.run(run)
        c.returns(x, w, 'power spectrum')
        c.equal(x.value[0], x.value[1], w, 'default radius of the power spectrum is the configured reference radius')
    ck.add('r_surf/default radius of model spectrum', default_radius)

    def explicit(c, lab, fr, call):
        # explicit dipole wins over the configured one, in every accepted form
        A = c.an()
        d = _models(A)
        w = f'{lab}'
        forms = {'array': A.syms('dip', 3, 'gap'), 'list': LList([sym('dl0'), sym('dl1', 'gap'), sym('dl2')]),
                 'angles': (sym('dth', 'theta'), sym('dph', 'phi'))}
        for fl, dip in forms.items():
            def run(v):
                def body():
                    A.I.setitem(cfg(A), 'params.dipole', v)
                    return call(A, d, dip)
                return body
            a = A.run(run(A.syms('cfg1', 3, 'gap')))
            b = A.run(run(A.syms('cfg2', 3, 'pos')))
            c.returns(a, w, lab)
            c.equal(a.value, b.value, w, f'{lab}: explicit dipole ({fl}) takes precedence over the configured one')

            def same_as():
                A.I.setitem(cfg(A), 'params.dipole', forms['array'])
                return call(A, d, None)
            if fl == 'array':
                x = A.run(same_as)
                c.equal(x.value, a.value, w, f'{lab}: configured dipole acts like the explicit one')
    for fr in ('gsm', 'sm', 'mag'):
        tm = (lambda d: ()) if fr == 'mag' else (lambda d: (d['day'],))
        ck.add(f'dipole/explicit/basevectors_{fr}', explicit, f'basevectors_{fr}', fr,
               lambda A, d, dip, fr=fr, tm=tm: C_(A, CO_ + f'basevectors_{fr}', *tm(d), dipole=dip))
        for inv in (False, True):
            ck.add(f'dipole/explicit/transform_points/{fr}/{inv}', explicit, f'transform_points {fr}', fr,
                   lambda A, d, dip, fr=fr, inv=inv: C_(A, CO_ + 'transform_points', d['th'], d['ph'], d['day'],
                                                        reference=fr, inverse=inv, dipole=dip))
            ck.add(f'dipole/explicit/transform_vectors/{fr}/{inv}', explicit, f'transform_vectors {fr}', fr,
                   lambda A, d, dip, fr=fr, inv=inv: C_(A, CO_ + 'transform_vectors', d['th'], d['ph'], sym('Bt'), sym('Bp'),
                                                        d['day'], reference=fr, inverse=inv, dipole=dip))

    def spectrum_file(c, w3):
        A = c.an()
        fulllib(A)
        d = _models(A)
        path = f'/data/{w3}.npz'
        A.put(path)
        x0 = A.fs_items()[LIB + f'frequency_spectrum_{w3}.npz'] if hasattr(A, 'fs_items') else \
            A.I.fs.items[LIB + f'frequency_spectrum_{w3}.npz']
        new = DDict({k: (A.syms('new' + k, v.get().shape, 'complex' if 'spectrum' in k else 'nonneg')
                         if isinstance(v, Arr) and v.get().ndim == 3 else v) for k, v in x0.items.items()})
        A.put(path, new)
        key = f'file.{w3.upper()}_spectrum'
        kw = dict(rc=sym('rc')) if w3 == 'sm' else {}
        w = c.where(CH + f'CHAOS.synth_coeffs_{w3}')
        q = lambda s: M_(A, d['chaos'].m, f'synth_coeffs_{w3}', d['t'], source=s, **kw)     # noqa: E731
        for s in ('external', 'internal'):
            old = A.run(lambda: q(s))

            def run():
                q(s)
                A.I.setitem(cfg(A), key, path)
                return q(s)

            def run2():
                A.I.setitem(cfg(A), key, path)
                return q(s)
            a, b = A.run(run), A.run(run2)
            c.returns(a, w, f'{w3} coefficients')
            c.equal(a.value, b.value, w, f'{key} is read at each call')
            c.ok(any(same(conc(a.value, t), conc(old.value, t)) for t in c.tr()), w, f'{key} is ignored')
            opens = {e['path'] for e in b.evs('open')}
            c.ok(LIB + f'frequency_spectrum_{w3}.npz' not in opens, w, 'the default spectrum file is read although another is configured')
    for w3 in ('gsm', 'sm'):
        ck.add(f'files/spectrum/{w3}', spectrum_file, w3)

    def rc_file(c, kind):
        A = c.an()
        fulllib(A)
        d = _models(A)
        b = d['brk']
        p1, ts, cols = rcfile(A, kind, '/data/RCnew' + ('.h5' if kind == 'h5' else '.dat'), tag='n')
        w = c.where(CH + 'CHAOS.synth_coeffs_sm')
        key = 'file.RC_index'
        p0, ts0, _ = rcfile(A, kind, '/data/RCold' + ('.h5' if kind == 'h5' else '.dat'), tag='o')
        t, t0 = (T.add(x[0], T.mul(T.sub(x[-1], x[0]), T.scale(sym('u', 'pos'), 0.375))) for x in (ts, ts0))
        for s in ('external', 'internal'):
            def run():
                A.I.setitem(cfg(A), key, p1)
                return M_(A, d['chaos'].m, 'synth_coeffs_sm', t, source=s)

            def after():
                A.I.setitem(cfg(A), key, p0)
                M_(A, d['chaos'].m, 'synth_coeffs_sm', t0, source=s)
                return run()
            x = A.run(run)
            c.returns(x, w, 'SM coefficients with another RC file')
            y = A.run(after)
            c.returns(y, w, 'SM coefficients with another RC file')
            c.equal(y.value, x.value, w, 'the RC index is that of the file in force at the call, not that of an earlier call')
            opens = {e['path'] for e in x.evs('open')}
            c.ok(p1 in opens, w, 'the configured RC-index file is not read')
            c.ok(LIB + 'RC_index.h5' not in opens, w, 'the default RC-index file is read although another is configured')
    ck.add('files/rc/h5', rc_file, 'h5')
    ck.add('files/rc/dat', rc_file, 'dat')

    def conductivity(c):
        A = c.an()
        lib_present(A)
        w = c.where(CO_ + 'q_response')

        def oned(I, a, k):
            k = {**dict(zip(('periods', 'sigma', 'radius', 'n', 'kind'), a)), **k}
            return A.syms('C', 2, 'complex'), k['sigma'], k['sigma'], k['radius']
        A.I.overrides['chaosmagpy.coordinate_utils.q_response_1D'] = oned
        A.put(LIB + 'Earth_conductivity.dat', '0.0 1.0\n100.0 2.0\n')
        A.put('/data/cond.dat', '50.0 3.0\n700.0 4.0\n')
        ps = ('/data/cond.dat', LIB + 'Earth_conductivity.dat', '/data/cond.dat')
        ev = []
        fr = A.arr([sym('f0', 'gap'), sym('f1', 'gap')])

        def run(*ps):
            out = None
            for p in ps:
                e0 = len(A.I.events)
                A.I.setitem(cfg(A), 'file.Earth_conductivity', p)
                out = C_(A, CO_ + 'q_response', fr, 1)
                ev.append((p, {e['path'] for e in A.I.events[e0:] if e['kind'] == 'open'}))
            return out
        for i in range(len(ps)):
            ev.clear()
            x, y = A.run(lambda: run(ps[i])), A.run(lambda: run(*ps[:i + 1]))
            c.returns(x, w, 'conductivity response')
            c.returns(y, w, 'conductivity response')
            c.equal(y.value, x.value, w, 'the response takes the conductivity model in force at the call, not that of an earlier call')
            for p, e in ev:
                c.ok(e <= {p}, w, f'reads {sorted(e)} instead of the configured {p}')
            c.ok(ev[0][1] == {ps[i]}, w, f'reads {sorted(ev[0][1])} instead of the configured {ps[i]}')
        c.ok(any(same(conc(A.run(lambda: run(ps[0])).value, t), conc(A.run(lambda: run(ps[1])).value, t)) for t in c.tr()), w,
             'the configured conductivity model is ignored')
    ck.add('files/conductivity', conductivity)

    def figure(c, name, mult, args):
        A = c.an()
        lib_present(A)
        w = c.where(PU + name)
        a = args(A)
        n = len(a) - {'plot_timeseries': 1, 'plot_maps': 2}.get(name, 0)
        for v, before in ((sym('w1', 'gap'), False), (sym('w2', 'gap'), False), (sym('w2', 'gap'), True)):
            def run():
                if before:
                    C_(A, PU + name, *a)
                A.I.setitem(cfg(A), 'plots.figure_width', v)
                return C_(A, PU + name, *a)
            x = A.run(run)
            c.returns(x, w, name)
            sub = [e for e in x.evs('opaque_call') if e['path'].endswith('.subplots')]
            c.ok(len(sub) == 1 + before, w, 'one figure is created')
            sub = sub[-1:]
            fs = A.run(lambda: sub[0]['kwargs'].get('figsize')).value
            c.ok(fs is not None and len(fs) == 2, w, 'figure size is set')
            c.equal(fs, (v, T.mul(v, T.num(mult * (n if name != 'plot_power_spectrum' else 1)))), w, 'figure size follows the configured width')

        def run():
            return C_(A, PU + name, *a, figsize=(sym('f1'), sym('f2')))
        x = A.run(run)
        sub = [e for e in x.evs('opaque_call') if e['path'].endswith('.subplots')]
        c.equal(A.run(lambda: sub[0]['kwargs'].get('figsize')).value, (sym('f1'), sym('f2')), w, 'explicit figure size is used')
    ck.add('figure/plot_timeseries', figure, 'plot_timeseries', 0.8, lambda A: [A.syms('t', 2, 'day'), A.syms('x', 2), A.syms('y', 2)])
    ck.add('figure/plot_maps', figure, 'plot_maps', 0.4, lambda A: [A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'), A.syms('x', (2, 2)), A.syms('y', (2, 2))])
    ck.add('figure/plot_power_spectrum', figure, 'plot_power_spectrum', 0.8, lambda A: [A.syms('x', 3, 'pos')])

    def coast(c):
        A = c.an()
        lib_present(A)
        w = c.where(PU + 'plot_maps')
        A.put('/data/coast.zip')

        def run():
            C_(A, PU + 'plot_maps', A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'), A.syms('x', (2, 2)))
            e0 = len(A.I.events)
            A.I.setitem(cfg(A), 'file.shp_coastline', '/data/coast.zip')
            C_(A, PU + 'plot_maps', A.syms('th', 2, 'theta'), A.syms('ph', 2, 'phi'), A.syms('x', (2, 2)))
            ev.extend(A.I.events[e0:])
        ev = []
        x = A.run(run)
        c.returns(x, w, 'plot_maps')
        ps = {e['path'] for e in ev if e['kind'] == 'open'}
        c.ok('/data/coast.zip' in ps and LIB + 'ne_110m_coastline.zip' not in ps, w, f'coastline is read from {ps}')
    ck.add('files/coastline', coast)

    def fft_dipole(c):
        A = c.an()
        w = c.where(CO_ + 'rotate_gauss_fft')
        A.I.overrides['chaosmagpy.coordinate_utils.rotate_gauss'] = lambda I, a, k: A.syms('R', (4, 3, 3))
        A.I.overrides['chaosmagpy.coordinate_utils.q_response'] = lambda I, a, k: A.syms('q', (1, 3), 'complex')
        v = A.syms('dip', 3, 'gap')

        def run():
            C_(A, CO_ + 'rotate_gauss_fft', 1, 1, N=4, filter=2, save_to='/out/t.npz')
            A.I.setitem(cfg(A), 'params.dipole', v)
            return C_(A, CO_ + 'rotate_gauss_fft', 1, 1, N=4, filter=2, save_to='/out/s.npz')
        x = A.run(run)
        c.returns(x, w, 'rotate_gauss_fft')
        f = x.ret.fs['/out/s.npz']
        c.ok('dipole' in f, w, 'saved spectrum has no dipole')
        c.equal(f['dipole'], snapof(A, v), w, 'dipole saved with the spectrum is the configured one')
    ck.add('dipole/saved spectrum', fft_dipole)

