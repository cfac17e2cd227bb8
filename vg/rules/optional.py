"""optional libraries and the network: import closure of every module and effects of every public call"""
import itertools
from .purity import *
from .purity import _cat, add_all
from .catalog import Fix, entries

OPTIONAL = ('matplotlib', 'lxml', 'requests')
WEB = ('requests', 'lxml', 'urllib', 'urllib3', 'http', 'socket', 'ftplib', 'aiohttp', 'httpx', 'ssl', 'smtplib', 'xmlrpc',
       'telnetlib', 'paramiko', 'pooch')
_S = {}


def session(c, absent):
    """catalogue of a session in which the given libraries are not installed"""
    key = (id(c.check), absent)
    if key not in _S:
        A = An(ROOT, absent=absent)
        c.check.analysers.append(A)
        F = Fix(A)
        _S[key] = (A, F, entries(F))
    A, F, E = _S[key]
    c.A = A
    A.push()
    c.mine.append(A)
    return A, F, E


def importfail(c, absent, ex):
    out = ex.out
    loc = getattr(out, 'loc', None) or ex.name
    c.fail(f'import fails without {", ".join(absent) or "nothing"}: '
           f'{out.value.name() if out is not None else ""} {getattr(out.value, "args", "") if out is not None else ""}', str(loc))


@rule('C28', 'The package works without optional libraries and never uses the network unasked',
      'import-closure and effect analysis: every module and public call analysed with each subset of optional libraries absent')
def c28(ck):
    subsets = [s for n in range(len(OPTIONAL) + 1) for s in itertools.combinations(OPTIONAL, n)]

    def imports(c, absent):
        # every module of the package, in every possible first position
        import os
        mods = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'chaosmagpy')) if f.endswith('.py') and f != '__init__.py')
        for first in [''] + mods:
            A = An(ROOT, absent=absent, load=False)
            c.check.analysers.append(A)
            c.A = A
            try:
                A.load('chaosmagpy' + (f'.{first}' if first else ''))
                for m in mods:
                    A.load(f'chaosmagpy.{m}')
            except ImportFailed as ex:
                importfail(c, absent, ex)
            for x in A.I.events:
                if x['kind'] == 'network':
                    c.fail('the network is used when the package is imported', str(x.get('loc')))
            c.facts += 1
    for s in subsets:
        ck.add('import without ' + ('+'.join(s) or 'nothing'), imports, s)

    def works(c, label, absent):
        F, E = _cat(c)
        A0 = c.A
        e0 = E[label]
        r0 = A0.run(e0.thunk)
        ev0 = r0.warns()
        try:
            A, F, E = session(c, absent)
        except ImportFailed as ex:
            importfail(c, absent, ex)
        e = E[label]
        r = A.run(e.thunk)
        for o in r.raises:
            if o.exc_name in ('ImportError', 'ModuleNotFoundError', 'NameError', 'UnboundLocalError', 'AttributeError') and feas(c, o.cond):
                if not any(p.exc_name == o.exc_name and feas(c, p.cond) for p in r0.raises):
                    c.fail(f'{e.where} without {", ".join(absent)}: {o.exc_name} {o.msg}', str(o.loc))
        if r0.ret is None:
            c.ok(r.ret is None, e.where, f'raises {r0.raises[0].exc_name} only with the optional libraries')
            return
        if r.ret is None:
            c.fail(f'{e.where} does not work without {", ".join(absent)}: {r.raises[0].exc_name} {r.raises[0].msg}', str(r.raises[0].loc))
        if not e.clock or e.where.startswith('chaos.CHAOS.__call__'):
            c.equal(r.value, r0.value, e.where, f'result without {", ".join(absent)}')
        c.ok(len(r.warns()) == len(ev0), e.where, f'number of warnings without {", ".join(absent)}')
        for p in e.writes:
            c.ok(p in r.ret.fs, e.where, f'{p} is not written without {", ".join(absent)}')
    full = OPTIONAL
    add_all(ck, lambda c, l: works(c, l, full), lambda e: not e.plot, prefix='no optional library/')
    if ck.tier == 'thorough':
        for s in subsets[1:-1]:
            add_all(ck, lambda c, l, s=s: works(c, l, s), lambda e: not e.plot, prefix=f'without {"+".join(s)}/')

    def offline(c, label):
        F, E = _cat(c)
        e = E[label]
        r = c.A.run(e.thunk)
        for x in r.evs('network'):
            if feas(c, x['cond']):
                c.fail(f'{e.where} contacts the network through {x.get("path")}', str(x['loc']))
        for x in r.evs('import'):
            if x['name'].split('.')[0] in WEB and feas(c, x['cond']):
                c.fail(f'{e.where} imports {x["name"]} although a file is given or none is needed', str(x['loc']))
        c.facts += 1
    add_all(ck, offline, prefix='offline/')

    def rc(c, how):
        A = c.an()
        fulllib(A)
        w = c.where(DU + ('save_RC_h5file' if how.startswith('save') else 'load_RC_datfile'))
        if 'given' in how:
            p, _, _ = rcfile(A, 'dat', '/data/RC.dat', tag='f')
        elif 'missing' in how:
            p = '/data/nothing.dat'
        elif 'malformed' in how:
            p = '/data/bad.dat'
            A.put(p, '# c\n1.0 2.0\n')
        elif 'empty' in how:
            p = ''
        else:
            p = None
        if how.startswith('save'):
            r = A.call(DU + 'save_RC_h5file', '/out/RC.h5', *([] if 'default' in how else [p]))
        else:
            r = A.call(DU + 'load_RC_datfile', *([] if 'default' in how else [p]), **({'parse_dates': True} if 'dates' in how else {}))
        net = [x for x in r.evs('network') if feas(c, x['cond'])]
        if p is None:
            c.ok(bool(net), w, 'the RC index is not fetched although no file is given')
            for x in net:
                u = [a for a in x.get('args', ()) if isinstance(a, str) and a.startswith('http')]
                for a in u:
                    c.ok(a.startswith('http://www.spacecenter.dk/') or a.startswith('https://www.spacecenter.dk/'), w, f'contacts {a}')
        else:
            c.ok(not net, net and str(net[0]['loc']) or w, f'the network is contacted although a file is given ({how})')
            c.ok(not any(x['name'].split('.')[0] in WEB for x in r.evs('import')), w, f'imports a web library although a file is given')
        if 'missing' in how and how.startswith('load'):
            c.ok(r.ret is None, w, 'no error for a file that does not exist')
    for how in ('load given', 'load given dates', 'load missing', 'load malformed', 'load empty', 'load none', 'load default',
                'save given', 'save missing', 'save malformed', 'save empty', 'save none', 'save default'):
        ck.add('RC index/' + how, rc, how)

    def rc_models(c, how):
        # the configured RC index is a file; a missing one is an error, not a download
        A = c.an()
        F = Fix(A)
        w = c.where('chaos.CHAOS.synth_coeffs_sm')
        A.I.touch(A.I.fs)
        for k in list(A.I.fs.items):
            if 'RC_index' in k or ('spectrum' in k and how == 'spectra') or ('conductivity' in k and how == 'spectra'):
                del A.I.fs.items[k]
        for nm in ('synth_coeffs_sm', 'synth_coeffs_gsm'):
            r = A.run(lambda: A.I.call(A.I.getattr(F.C.m, nm), [F.t], {}))
            net = [x for x in r.evs('network') if feas(c, x['cond'])]
            c.ok(not net, w, 'the network is contacted by an evaluation whose files are missing')
    ck.add('missing RC file', rc_models, 'rc')
    ck.add('missing spectra', rc_models, 'spectra')
