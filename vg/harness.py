"""Obligations, verdicts, evidence, command line."""
import hashlib
import itertools
import json
import multiprocessing
import os
import pickle
import re
import sys
import threading
import time
import traceback

import numpy as np

from . import terms as T
from . import pit
from .api import *      # noqa
from .api import An, Res, SA, snap, conc, same, identical, trials, ccond, ImportFailed, Missing, Unexpected
from .terms import Node
from .values import *      # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
ROOT = os.environ.get('VG_ROOT', '/repo')


class Violation(Exception):
    def __init__(self, what, where, detail=None):
        self.what, self.where, self.detail = what, where, detail or {}
        super().__init__(what)


class Undecided(Exception):
    pass


class Skip(Exception):
    """the obligation does not apply to this tree"""


def showval(v):
    if isinstance(v, float):
        return float(f'{v:.12g}')
    if isinstance(v, complex):
        return str(v)
    if isinstance(v, np.ndarray):
        return [showval(x) for x in v.ravel()[:12]]
    if isinstance(v, (tuple, list)):
        return [showval(x) for x in list(v)[:12]]
    if isinstance(v, dict):
        return {str(k): showval(x) for k, x in list(v.items())[:12]}
    if v is None or isinstance(v, (int, str, bool)):
        return v
    return repr(v)[:200]


def element(v, path):
    """the part of a snapshot that a path of same() names"""
    try:
        for part in re.findall(r"\[([^\]]*)\]", path):
            while isinstance(v, SC):
                v = v.a
            if isinstance(v, SA):
                v = v.v[tuple(int(i) for i in part.split(','))] if part else v.v[()]
            elif isinstance(v, (tuple, list)):
                v = v[int(part)]
            elif isinstance(v, dict):
                v = v[part.strip('\'"')]
            elif isinstance(v, SI):
                v = v.attrs[part.strip('\'"')]
        while isinstance(v, SC):
            v = v.a
        if isinstance(v, SA) and v.v.size == 1:
            v = v.v.ravel()[0]
    except Exception:
        return None
    return v


def opaque_in(v):
    """name of an unmodelled library result that the snapshot depends on, or None"""
    todo, done = [v], set()
    while todo:
        x = todo.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        if isinstance(x, Node):
            if x.op == 'uf' and str(x.args[0]).startswith('opaque:'):
                return str(x.args[0])[7:]
            todo.extend(T.children(x))
        elif isinstance(x, SC):
            todo += [x.c, x.a, x.b]
        elif isinstance(x, SA):
            todo.extend(x.v.ravel())
        elif isinstance(x, np.ndarray):
            todo.extend(x.ravel())
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, SI):
            todo += [x.attrs, x.data]
        elif isinstance(x, SX):
            if x.name.startswith('<opaque '):
                return x.name[8:-1]
            todo.append(x.st)
        elif isinstance(x, str) and has_ph(x):
            todo.extend(p[0] for p in ph_split(x) if not isinstance(p, str))
    return None


class Ctx:
    """what an obligation gets"""
    def __init__(self, check, name):
        self.check, self.name = check, name
        self.tier = check.tier
        self.seed = f'{check.seed}/{check.pid}/{name}'
        self.ntr = 6 if check.tier == 'quick' else 24
        self.A = None
        self.mine = []
        self.compared = 0
        self.by_nf = 0
        self.by_ri = 0
        self.facts = 0
        self.notes = []
        self.cells = {}
        self.guided_used = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def an(self, **kw):
        fresh = kw.pop('fresh', False)
        key = repr(sorted(kw.items()))
        a = self.check.cache.get(key)
        if a is None or a in self.mine or fresh:
            a = An(ROOT, **kw)
            self.check.analysers.append(a)
            if not fresh:
                self.check.cache.setdefault(key, a)
        self.A = a
        a.push()
        self.mine.append(a)
        return a

    def done(self):
        for a in self.mine:
            a.pop()
        self.mine = []
        self.A = None

    # ------------------------------------------------------------ deciding
    def where(self, f):
        """file:line qualname of a function value or dotted name"""
        try:
            if isinstance(f, str):
                f = self.A.get(f)
        except Missing:
            return str(f)
        if isinstance(f, Bound):
            f = f.func
        if isinstance(f, (Static, ClassM)):
            f = f.f
        if isinstance(f, Class):
            return f'{f.qual}'
        if isinstance(f, Func):
            return f'{os.path.relpath(f.module.path, self.A.root)}:{f.node.lineno} {f.qual}'
        return repr(f)

    def fail(self, what, where, **detail):
        raise Violation(what, where if isinstance(where, str) else self.where(where), detail)

    def tr(self, n=None, **kw):
        return trials(n or self.ntr, self.seed, **kw)

    def guided(self, *vals, assume=None, most=None):
        """representatives of every interval between the places where a comparison in the value graphs changes its truth"""
        roots = nodes_in(vals)
        if not roots:
            return []
        ats = pit.atoms(roots)
        if not ats:
            return []
        key = (frozenset((o, getattr(a, 'id', a), getattr(b, 'id', b)) for o, a, b in ats), None if assume is None else getattr(assume, 'id', assume))
        if key in self.cells:
            return self.cells[key]
        out = []
        for t in self.tr(2):
            if assume is not None and not ccond(assume, t):
                continue
            for x in roots:
                t.ev(x)
            out += pit.cells(t, ats, most=most or (24 if self.tier == 'quick' else 80))
        if assume is not None:
            out = [t for t in out if ccond(assume, t)]
        self.guided_used += len(out)
        self.cells[key] = out
        return out

    def unmodelled(self, path, *vals):
        """a difference that involves the result of an unmodelled library call decides nothing"""
        sub = []
        for v in vals:
            w = element(v, path)
            sub.append(v if w is None else w)
        for v in sub:
            o = opaque_in(v)
            if o:
                raise Undecided(f'depends on the unmodelled {o}')

    def producer(self, got, path):
        """location of the construct that produced the differing element"""
        v = got
        A = self.A
        v = element(got, path)
        if isinstance(v, Node):
            seen = [v]
            for _ in range(60):
                if not seen:
                    break
                n = seen.pop(0)
                if n.id in A.I.prov:
                    return A.I.prov[n.id]
                seen.extend(T.children(n))
        return None

    def equal(self, got, want, where, what, assume=None, tol=1e-7, n=None, dom=None):
        """the two value graphs are the same function of the inputs"""
        self.compared += 1
        if assume is None and identical(got, want):
            self.by_nf += 1
            return
        used = 0
        for t in itertools.chain(self.tr(n or self.ntr), Lazy(lambda: self.guided(got, want, assume=assume))) if dom is None else dom:
            if assume is not None and not ccond(assume, t):
                continue
            used += 1
            g, w = conc(got, t), conc(want, t)
            d = same(g, w, tol)
            if d:
                self.unmodelled(d, got, want)
                loc = self.producer(got, d)
                wh = where if isinstance(where, str) and ':' in where else self.where(where)
                raise Violation(f'{what}: {d}', (f'{loc} (in {wh})' if loc else wh),
                                dict(expected=showval(w), got=showval(g),
                                     inputs={k: showval(v) for k, v in sorted(t.env.items())[:60]}))
        if used == 0 and assume is not None:
            raise Undecided('no representative satisfies the assumption')
        self.by_ri += 1

    def cond_equal(self, got, want, where, what, n=None, assume=None, dom=None):
        """two conditions hold for the same inputs"""
        self.compared += 1
        if got is want and assume is None:
            self.by_nf += 1
            return
        for t in (itertools.chain(self.tr(n or 4 * self.ntr), Lazy(lambda: self.guided(got, want, assume=assume))) if dom is None else dom):
            if assume is not None and not ccond(assume, t):
                continue
            g, w = ccond(got, t), ccond(want, t)
            if g != w:
                self.unmodelled('', got, want)
                wh = where if isinstance(where, str) and ':' in where else self.where(where)
                raise Violation(f'{what}: {"happens" if g else "does not happen"} where it should '
                                f'{"not" if g else ""}'.strip(), wh,
                                dict(inputs={k: showval(v) for k, v in sorted(t.env.items())[:60]}))
        self.by_ri += 1

    def ok(self, cond, where, what, **detail):
        """a decided structural fact"""
        self.facts += 1
        if not cond:
            self.fail(what, where, **detail)

    def returns(self, res, where, what, assume=None):
        """the call returns for every modelled input (no raising outcome is feasible)"""
        self.facts += 1
        for o in res.raises:
            for t in itertools.chain(self.tr(), Lazy(lambda: self.guided(o.cond, assume=assume))):
                if assume is not None and not ccond(assume, t):
                    continue
                if ccond(o.cond, t):
                    self.unmodelled('', o.cond)
                    raise Violation(f'{what}: raises {o.exc_name}: {o.msg!r:.100}', f'{o.loc} (in {self.where(where)})',
                                    dict(inputs={k: showval(v) for k, v in sorted(t.env.items())[:60]}))
        if res.ret is None:
            o = res.raises[0]
            raise Violation(f'{what}: always raises {o.exc_name}', o.loc)
        return res.value

    def always_raises(self, res, cls, where, what):
        """every outcome raises an instance of cls"""
        self.facts += 1
        cls = cls if isinstance(cls, tuple) else (cls,)
        names = '/'.join(c.__name__ for c in cls)
        if res.ret is not None and feasible(T.band(res.ret.cond, *[T.bnot(o.cond) for o in res.raises]), self):
            self.unmodelled('', res.ret.cond, *[o.cond for o in res.raises])
            self.fail(f'{what}: returns instead of raising {names}', where)
        for o in res.raises:
            if not any(o.isa(c) for c in cls) and feasible(o.cond, self):
                self.unmodelled('', o.cond)
                raise Violation(f'{what}: raises {o.exc_name} ({o.msg!r:.80}) instead of {names}',
                                f'{o.loc} (in {self.where(where)})')

    def sat(self, cond, n=None):
        return feasible(cond, self, n)


def feasible(cond, ctx, n=None):
    if not isinstance(cond, Node):
        return bool(cond)
    return any(ccond(cond, t) for t in itertools.chain(ctx.tr(n or 4 * ctx.ntr), Lazy(lambda: ctx.guided(cond))))


class Lazy:
    """an iterable made when it is needed"""
    def __init__(self, fn):
        self.fn = fn

    def __iter__(self):
        return iter(self.fn())


def nodes_in(v):
    """the value graphs in a structure"""
    todo, done, out = [v], set(), []
    while todo:
        x = todo.pop()
        if id(x) in done:
            continue
        done.add(id(x))
        if isinstance(x, Node):
            out.append(x)
        elif isinstance(x, (SC, Choice)):
            todo += [x.c, x.a, x.b]
        elif isinstance(x, SA):
            todo.extend(x.v.ravel())
        elif isinstance(x, np.ndarray):
            if x.dtype == object:
                todo.extend(x.ravel())
        elif isinstance(x, (tuple, list)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, SI):
            todo += [x.attrs, x.data]
        elif isinstance(x, SX):
            todo.append(x.st)
    return out


class Check:
    def __init__(self, pid, title, rule, tier, seed):
        self.pid, self.title, self.rule = pid, title, rule
        self.tier, self.seed = tier, seed
        self.obs = []
        self.analysers = []
        self.cache = {}

    def add(self, name, fn, *args, **kw):
        self.obs.append((name, fn, args, kw))

    def preload(self):
        """an analyser of the default context, shared by the workers"""
        try:
            a = An(ROOT)
        except Exception:
            return
        self.analysers.append(a)
        self.cache['[]'] = a


REG = {}


def rule(pid, title, technique):
    """decorator: function(check) registering obligations of property pid"""
    def deco(f):
        REG[pid] = (title, technique, f)
        return f
    return deco


def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['status'] == 'known':
                out.setdefault(e['property'], {})[e['obligation']] = e
    return out


def decide(ck, ob, t0, verbose):
    """run one obligation"""
    name, fn, args, kw = ob
    c = Ctx(ck, name)
    t1 = time.time()
    st, info, where, detail = 'holds', None, None, None
    try:
        if time.time() - t0 > BUDGET:
            raise Undecided('time budget of the check is used up')
        fn(c, *args, **kw)
        if c.compared + c.facts == 0:
            st, info = 'undecided', 'nothing compared'
    except Violation as v:
        st, info, where, detail = 'violated', v.what, v.where, v.detail
    except Skip as e:
        st, info = 'not applicable', str(e)
    except (Limit, Undecided) as e:
        st, info = 'undecided', f'{type(e).__name__}: {e}'
    except Missing as e:
        st, info = 'undecided', f'anchor not found: {e}'
    except (ImportFailed, Unexpected) as e:
        st, info = 'undecided', f'{type(e).__name__}: {e}'
    except RecursionError:
        st, info = 'undecided', 'recursion'
    except Exception as e:
        st, info = 'undecided', f'internal {type(e).__name__}: {e}'
        if verbose:
            traceback.print_exc()
    r = dict(name=name, st=st, info=info, where=where, detail=detail, compared=c.compared, nf=c.by_nf, ri=c.by_ri,
             facts=c.facts, notes=c.notes, wall=round(time.time() - t1, 3))
    if verbose:
        print(f'  {st:10s} {name:60s} cmp={c.compared} facts={c.facts} {time.time()-t1:.2f}s '
              f'{info if info is not None else ""}', flush=True)
    c.done()
    return r


BUDGET = 700


def seen(ck):
    return ({q for a in ck.analysers for q in a.I.funcs_seen},
            {os.path.relpath(m.path, ROOT) for a in ck.analysers for m in a.I.modules.values()})


def run_check(pid, tier, seed, only=None, verbose=False, jobs=None):
    """every obligation of a property; they are independent and decided by forked workers"""
    title, technique, f = REG[pid]
    ck = Check(pid, title, technique, tier, seed)
    t0 = time.time()
    f(ck)
    obs = [o for o in ck.obs if not only or o[0] == only]
    n = jobs or int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1))
    n = min(n, (len(obs) + 3) // 4)
    if n <= 1:
        res = [decide(ck, o, t0, verbose) for o in obs]
        ck.funcs, ck.files = seen(ck)
        return ck, res, time.time() - t0
    ck.preload()
    sys.stdout.flush()
    mp = multiprocessing.get_context('fork')
    nxt = mp.Value('i', 0)
    pipes, procs = [], []
    for _ in range(n):
        rd, wr = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(ck, obs, nxt, wr, rd, t0, verbose))
        p.start()
        wr.close()
        pipes.append(rd)
        procs.append(p)
    out = {}
    ck.funcs, ck.files = set(), set()
    for rd in pipes:
        try:
            part, fu, fi = pickle.loads(rd.recv_bytes())
            out.update(part)
            ck.funcs |= fu
            ck.files |= fi
        except EOFError:
            pass
    for p in procs:
        p.join()
    for i, o in enumerate(obs):     # work of a lost worker
        if i not in out:
            out[i] = decide(ck, o, t0, verbose)
    fu, fi = seen(ck)
    ck.funcs |= fu
    ck.files |= fi
    return ck, [out[i] for i in range(len(obs))], time.time() - t0


def _worker(ck, obs, nxt, wr, rd, t0, verbose):
    rd.close()
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def work():
        part = {}
        while True:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(obs):
                break
            part[i] = decide(ck, obs[i], t0, verbose)
        fu, fi = seen(ck)
        for r in part.values():
            if r['detail'] is not None:
                r['detail'] = json.loads(json.dumps(r['detail'], default=str))
        box.append(pickle.dumps((part, fu, fi)))
    t = threading.Thread(target=work)
    t.start()
    t.join()
    if box:
        wr.send_bytes(box[0])
    wr.close()


def report(pid, tier, seed, verbose=False, only=None):
    ck, res, wall = run_check(pid, tier, seed, only, verbose)
    kn = known().get(pid, {})
    viol, code = [], 0
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    for r in res:
        if r['st'] != 'violated':
            continue
        if r['name'] in kn:
            k = kn[r['name']]
            if k.get('match', '') in f'{r["info"]} {r["where"]}':
                print(f'KNOWN-FINDING: property={pid} {k["what"]}')
                r['st'] = 'known finding'
                continue
        viol.append(r)
    for i, r in enumerate(viol):
        h = hashlib.sha1(r['name'].encode()).hexdigest()[:8]
        path = os.path.join(EVID, 'replay', f'{pid}-{h}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, obligation=r['name'], what=r['info'], where=r['where'], seed=seed, tier=tier,
                           detail=r['detail'], rerun=f'python3-vt run.py {pid} --only {r["name"]!r}'), f, indent=1,
                      default=str)
        print(f'{r["where"]}: {r["info"]}   [{r["name"]}]')
        print(f'VIOLATION property={pid} replay={path}')
        code = 1
    und = [r for r in res if r['st'] == 'undecided']
    dec = [r for r in res if r['st'] in ('holds', 'violated', 'known finding')]
    funcs, files = sorted(ck.funcs), sorted(ck.files)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=f'Static analysis of the current source of {ROOT}/chaosmagpy by abstract interpretation of its '
                        f'syntax trees into hash-consed gated value graphs (no code of the package is executed or '
                        f'imported). Rule: {ck.rule}. Each obligation is one context (function, option setting, array '
                        f'shape) in which inputs are symbolic.',
            obligations=len(res), discharged=len([r for r in res if r['st'] == 'holds']),
            undecided=[dict(obligation=r['name'], why=str(r['info'])) for r in und],
            not_applicable=[r['name'] for r in res if r['st'] == 'not applicable'],
            violated=[dict(obligation=r['name'], where=r['where'], what=r['info']) for r in viol],
            value_graph_comparisons=sum(r['compared'] for r in res),
            equal_by_normal_form=sum(r['nf'] for r in res),
            equal_by_random_interpretation=sum(r['ri'] for r in res),
            structural_facts=sum(r['facts'] for r in res),
            notes=[f"{r['name']}: {x}" for r in res for x in r['notes']],
            functions_analysed=funcs, files=files,
            samples=[r['name'] for r in res][:400]),
        assumptions=['numpy/scipy/h5py/hdf5storage/pandas primitives behave as modelled in vg/npmodel.py, '
                     'vg/extmodel.py and vg/extlibs.py',
                     'arithmetic is over the reals; floating-point rounding is not modelled',
                     'graphs that agree under the random interpretations tried are taken as equal '
                     '(Gulwani-Necula); contexts are the finite list of obligations'],
        wall_s=round(wall, 3), violations=len(viol))
    if only is None and not os.environ.get('VG_NOEVIDENCE'):
        with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{pid} [{tier}] obligations={len(res)} holds={len([r for r in res if r["st"]=="holds"])} '
          f'violated={len(viol)} undecided={len(und)} functions={len(funcs)} {wall:.1f}s')
    for r in und:
        print(f'  undecided {r["name"]}: {str(r["info"])[:200]}')
    na = len([r for r in res if r['st'] == 'not applicable'])
    if code == 0 and 4 * len(dec) < len(res) - na:
        print('too little could be decided on this tree')
        return 2
    return code


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import rules      # noqa: registers everything
    if a.list:
        for p, (t, k, f) in sorted(REG.items()):
            print(p, t, '|', k)
        return 0
    if a.replay:
        d = json.load(open(a.replay))
        return report(d['property'], d['tier'], d['seed'], True, d['obligation'])
    pids = a.pid or sorted(REG)
    return max(report(p, a.tier if a.tier in ('quick', 'thorough') else 'quick', seed, a.v, a.only) for p in pids)
