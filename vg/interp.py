"""Abstract interpreter of Python source (AST) over value graphs.

* no code of the analysed package is ever executed or imported; only its AST is read
* joins merge with gated selects (no path enumeration, no solver)
* heap cells are journaled, so every outcome (return, raise, ...) carries the
  heap effect it has at that point
"""
import ast
import builtins as _bi
import os
import types

import numpy as np

from . import terms as T
from .terms import Node
from .values import *      # noqa
from . import values as V

POISON = V._Undef.__new__(V._Undef)
CLIENT = ast.parse('')


class Region:
    __slots__ = ('journal', 'outcomes', 'pc_len')

    def __init__(self, pc_len):
        self.journal = {}
        self.outcomes = []
        self.pc_len = pc_len


class RR:
    __slots__ = ('v', 'normal', 'delta', 'outcomes', 'extra')


class Slot(Cell):
    def __init__(self, obj, field):
        self.obj, self.field = obj, field

    def content(self):
        return dict(getattr(self.obj, self.field))

    def restore(self, c):
        setattr(self.obj, self.field, dict(c))


PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')).read()
PRELUDE_NAMES = {n.name for n in ast.parse(PRELUDE).body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


class Frame:
    def __init__(self, func, env, module):
        self.func, self.env, self.module = func, env, module
        self.on_yield = None
        self.line = 0
        self.exc = []


class GenCtx:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


DUNDER = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
RDUNDER = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}


class ExtObj(Cell):
    """library object modelled in python; methods m_<name>(I, *a, **k)"""
    tname = 'ext'

    def __init__(self):
        self.st = {}

    def content(self):
        return dict(self.st)

    def restore(self, c):
        self.st = dict(c)


EXC_TYPES = {n: getattr(_bi, n) for n in dir(_bi)
             if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}


class Interp:
    MAXDEPTH = 40

    def __init__(self, root, pkg='chaosmagpy'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.regions = []
        self.pc = []
        self.frames = []
        self.events = []
        self.overrides = {}
        self.steps = 0
        self.max_steps = 400000
        self.funcs_seen = set()
        self.lines_seen = set()
        self.fs = DDict()               # abstract file system: path -> content
        self.decide = self.decided = 0
        self.absent_modules = set()
        self.after_import = {}     # import raises ImportError
        self.ext_hooks = {}             # dotted path -> python callable(I,args,kwargs)
        self.nondet = 0
        self.faults = None      # exception edges of library calls while files are open
        self.prov = {}
        self.slots = {}
        self.hot_locs = {}
        from . import npmodel, extmodel
        self.np = npmodel
        self.ext = extmodel
        self.ext_table = {}
        self.ext_table.update(npmodel.TABLE)
        self.ext_table.update(extmodel.TABLE)
        self.regions.append(Region(0))
        self.handles = []
        self.wstate = extmodel.Obj(off=False)
        self.pre = self.client(PRELUDE)

    # ------------------------------------------------------------ heap
    def touch(self, obj):
        j = self.regions[-1].journal
        if isinstance(obj, InstDict) and isinstance(obj.cell, Func):
            return self.touch(self.slot(obj.cell, 'attrs'))
        if isinstance(obj, (InstDict, PartBuf)):
            obj = obj.cell
        if obj not in j:
            j[obj] = obj.content()

    def slot(self, obj, field):
        """journal cell standing for a dict-valued field of an immutable-looking object"""
        k = (id(obj), field)
        c = self.slots.get(k)
        if c is None:
            c = self.slots[k] = Slot(obj, field)
        return c

    def commit(self, delta):
        for o, c in delta.items():
            self.touch(o)
            o.restore(c)

    def run_region(self, fn, assume=()):
        r = Region(len(self.pc))
        self.regions.append(r)
        nframes = len(self.frames)
        assume = [a for a in assume if a is not True]
        self.pc.extend(assume)
        out = RR()
        try:
            try:
                out.v = fn()
                out.normal = True
            except Dead:
                out.v = None
                out.normal = False
            out.extra = list(self.pc[r.pc_len + len(assume):])
            out.delta = {o: o.content() for o in r.journal}
        finally:
            for o, old in r.journal.items():
                o.restore(old)
            del self.pc[r.pc_len:]
            self.regions.pop()
            del self.frames[nframes:]
        out.outcomes = r.outcomes
        return out

    def lift_outcomes(self, outs):
        if not outs:
            return
        parent = self.regions[-1]
        for o in outs:
            base = {x: x.content() for x in parent.journal if x not in o.delta}
            base.update(o.delta)
            parent.outcomes.append(Outcome(o.kind, o.value, o.pc, base, o.loc))

    def record(self, kind, value):
        r = self.regions[-1]
        r.outcomes.append(Outcome(kind, value, tuple(self.pc),
                                  {o: o.content() for o in r.journal}, self.loc()))

    def abrupt(self, kind, value=None):
        self.record(kind, value)
        raise Dead()

    def throw(self, cls, *args):
        e = Exc(cls, args)
        e.loc = self.loc()
        self.abrupt('raise', e)

    def throw_if(self, cond, cls, *args):
        cond = self.simp(cond)
        if cond is False:
            return
        if cond is True:
            self.throw(cls, *args)
        e = Exc(cls, args)
        e.loc = self.loc()
        self.pc.append(cond)
        self.record('raise', e)
        self.pc.pop()
        self.pc.append(T.bnot(cond))

    def branch(self, cond, fa, fb):
        cond = self.simp(cond)
        if cond is True:
            return fa()
        if cond is False:
            return fb()
        nc = T.bnot(cond)
        ra = self.run_region(fa, [cond])
        rb = self.run_region(fb, [nc])
        self.lift_outcomes(ra.outcomes)
        self.lift_outcomes(rb.outcomes)
        if ra.normal and rb.normal:
            d = self.merge_delta(cond, ra.delta, rb.delta)
            v = self.merge_val(cond, ra.v, rb.v)
            self.commit(d)
            return v
        if ra.normal:
            self.pc.append(cond)
            self.pc.extend(ra.extra)
            self.commit(ra.delta)
            return ra.v
        if rb.normal:
            self.pc.append(nc)
            self.pc.extend(rb.extra)
            self.commit(rb.delta)
            return rb.v
        raise Dead()

    def merge_delta(self, c, d1, d2):
        out = {}
        for o in list(d1) + [o for o in d2 if o not in d1]:
            c1 = d1[o] if o in d1 else o.content()
            c2 = d2[o] if o in d2 else o.content()
            out[o] = self.merge_content(c, o, c1, c2)
        return out

    def merge_content(self, c, o, c1, c2):
        if isinstance(c1, dict):
            out = {}
            for k in list(c1) + [k for k in c2 if k not in c1]:
                a = c1.get(k, UNDEF)
                b = c2.get(k, UNDEF)
                out[k] = a if a is b else self.merge_val(c, a, b)
            return out
        if len(c1) != len(c2):
            return [POISON]
        return [a if a is b else self.merge_val(c, a, b) for a, b in zip(c1, c2)]

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if a is POISON or b is POISON:
            return Choice(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.buf is b.buf and a.idx.shape == b.idx.shape and (a.idx == b.idx).all():
                return a
            if a.scalar and b.scalar:
                return Arr(Buf([self.merge_val(c, a.item(), b.item())]), a.idx * 0, a.dt, True)
            return Choice(c, a, b)
        ta, tb = type(a), type(b)
        if ta is tb and ta in (int, float, str, bool, bytes) and a == b:
            return a
        if isinstance(a, bool) and (isinstance(b, bool) or (isinstance(b, Node) and T.is_bool(b))) or \
                isinstance(b, bool) and isinstance(a, Node) and T.is_bool(a):
            return T.ite(c, a, b)
        if ta is int and tb is int:
            return Choice(c, a, b)
        numa = isinstance(a, (int, float, complex, Node)) and not isinstance(a, bool)
        numb = isinstance(b, (int, float, complex, Node)) and not isinstance(b, bool)
        if numa and numb:
            ba = isinstance(a, Node) and T.is_bool(a)
            bb = isinstance(b, Node) and T.is_bool(b)
            if ba == bb:
                return T.ite(c, a, b)
            return Choice(c, a, b)
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if ta is NTuple and tb is NTuple and a.spec is b.spec:
            return a.like(self.merge_val(c, x, y) for x, y in zip(a, b))
        if ta is Bound and tb is Bound and a.func is b.func and a.self_ is b.self_:
            return a
        return Choice(c, a, b)

    def cond_since(self, pc, n):
        return T.band(*pc[n:]) if len(pc) > n else True

    def merge_many(self, ends):
        """ends: [(cond, value, delta)] -> (value, delta)"""
        _, v, d = ends[-1]
        for c, v0, d0 in reversed(ends[:-1]):
            d = self.merge_delta(c, d0, d)
            v = self.merge_val(c, v0, v)
        return v, d

    # ------------------------------------------------------------ facts
    def simp(self, c):
        if c is True or c is False:
            return c
        if not isinstance(c, Node):
            raise Limit(f'condition {c!r}')
        ids = {p.id for p in self.pc}
        r = self._simp(c, ids)
        if self.decide and isinstance(r, Node):
            # conditions on magnitudes: true or false throughout the declared ranges of the symbols, by random interpretation
            from . import pit
            vals = {bool(pit.Trial(1000 + k).ev(r)) for k in range(self.decide)}
            if len(vals) == 1:
                self.decided += 1
                return vals.pop()
        return r

    def _simp(self, c, ids):
        if c is True or c is False:
            return c
        if c.id in ids:
            return True
        n = T.bnot(c)
        if n.id in ids:
            return False
        op = c.op
        if op == 'and':
            return T.band(*[self._simp(a, ids) for a in c.args])
        if op == 'not':
            return T.bnot(self._simp(c.args[0], ids))
        if op in ('lt', 'le', 'eq'):
            a, b = c.args

            def known(o, x, y):
                k = T._TABLE.get((o, (x, y)))
                return k is not None and k.id in ids
            if op == 'lt':
                if known('le', b, a) or known('lt', b, a) or known('eq', a, b) or known('eq', b, a):
                    return False
            elif op == 'le':
                if known('lt', a, b) or known('eq', a, b) or known('eq', b, a):
                    return True
                if known('lt', b, a):
                    return False
            else:
                if known('lt', a, b) or known('lt', b, a):
                    return False
        if op == 'ite':
            k = self._simp(c.args[0], ids)
            if k is True:
                return self._simp(c.args[1], ids)
            if k is False:
                return self._simp(c.args[2], ids)
        return c

    def resolve(self, v):
        """pick alternatives decided by the path condition; guard undefined ones"""
        while isinstance(v, Choice):
            c = self.simp(v.c)
            if c is True:
                v = v.a
            elif c is False:
                v = v.b
            elif v.a is UNDEF:
                self.throw_if(c, UnboundLocalError, 'unbound local')
                v = v.b
            elif v.b is UNDEF:
                self.throw_if(T.bnot(c), UnboundLocalError, 'unbound local')
                v = v.a
            else:
                return v
        if v is POISON:
            raise Limit('merged containers of different length')
        if isinstance(v, Node) and v.op == 'ite' and self.pc:
            c = self.simp(v.args[0])
            if c is True:
                return self.resolve(v.args[1])
            if c is False:
                return self.resolve(v.args[2])
        return v

    def over(self, v, f):
        """apply f to v, distributing over Choice"""
        v = self.resolve(v)
        if isinstance(v, Choice):
            return self.branch(v.c, lambda: self.over(v.a, f), lambda: self.over(v.b, f))
        return f(v)

    # ------------------------------------------------------------ locations
    def loc(self):
        if not self.frames:
            return '<driver>'
        for f in reversed(self.frames):
            if f.module is not None and f.module.tree is not CLIENT:
                return f'{os.path.relpath(f.module.path, self.root)}:{f.line}'
        return '<driver>'

    def client(self, src, **vars):
        """module of client code (an abstract user program over the package)"""
        env = Env()
        env.vars['__name__'] = '<client>'
        env.vars.update(vars)
        m = Module('<client>', os.path.join(self.root, '<client>'), env, CLIENT)
        tree = ast.parse(src)
        fr = Frame(None, env, m)
        self.frames.append(fr)
        try:
            self.exec_block(tree.body)
        finally:
            if fr in self.frames:
                del self.frames[self.frames.index(fr):]
        return m

    def note(self, v):
        """remember where a value was produced"""
        if isinstance(v, Node):
            self.prov[v.id] = self.loc()
        elif isinstance(v, Arr):
            if v.idx.size <= 96:
                l = None
                d = v.buf.data
                for i in v.idx.ravel():
                    x = d[i]
                    if isinstance(x, Node):
                        if l is None:
                            l = self.loc()
                        self.prov[x.id] = l
        elif type(v) is tuple:
            for x in v:
                self.note(x)

    def stack(self):
        return [f.func.qual if f.func else '<module>' for f in self.frames]

    def event(self, kind, **info):
        if kind == 'opaque_call':
            from .api import snap
            try:
                info['s'] = (snap(tuple(info['args'])), snap(DDict(dict(info['kwargs']))))
            except Limit:
                info['s'] = None
        self.events.append(dict(kind=kind, cond=T.band(*self.pc) if self.pc else True,
                                loc=self.loc(), stack=self.stack(), **info))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        parts = name.split('.')
        p = os.path.join(self.root, *parts)
        path = os.path.join(p, '__init__.py') if os.path.isdir(p) else p + '.py'
        if not os.path.exists(path):
            return None
        if len(parts) > 1:
            self.module('.'.join(parts[:-1]))
            if name in self.modules:
                return self.modules[name]
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        env = Env()
        env.vars['__name__'] = name
        env.vars['__file__'] = '/pkg/' + '/'.join(parts) + ('/__init__.py' if path.endswith('__init__.py') else '.py')
        env.vars['__doc__'] = ast.get_docstring(tree)
        m = Module(name, path, env, tree)
        self.modules[name] = m
        fr = Frame(None, env, m)
        self.frames.append(fr)
        try:
            self.exec_block(tree.body)
            if name in self.after_import:
                self.after_import[name](m)
        finally:
            if fr in self.frames:
                del self.frames[self.frames.index(fr):]
        if len(parts) > 1:
            par = self.modules['.'.join(parts[:-1])]
            par.env.vars.setdefault(parts[-1], m)
        return m

    def import_module(self, dotted):
        """value bound for module `dotted`"""
        top = dotted.split('.')[0]
        if dotted in self.absent_modules or top in self.absent_modules:
            self.event('import', name=dotted, ok=False)
            self.throw(ImportError, f'No module named {dotted}')
        self.event('import', name=dotted, ok=True)
        if top == self.pkg:
            m = self.module(dotted)
            if m is None:
                self.throw(ImportError, dotted)
            return m
        return Ext(dotted)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step budget')
        fr = self.frames[-1]
        fr.line = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Limit(f'statement {type(s).__name__} at {self.loc()}')
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        self.note(v)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            rhs = self.eval(s.value)
            r = self.iop(op, cur, rhs)
            self.note(r)
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            rhs = self.eval(s.value)
            self.setattr(o, t.attr, self.iop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            cur = self.getitem(o, k)
            rhs = self.eval(s.value)
            self.setitem(o, k, self.iop(op, cur, rhs), inplace=True)
        else:
            raise Limit('augassign target')

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        if isinstance(v, Node):
            self.prov.setdefault(v.id, self.loc())
        self.abrupt('return', v)

    def s_Break(self, s):
        self.abrupt('break')

    def s_Continue(self, s):
        self.abrupt('continue')

    def s_If(self, s):
        c = self.truth(self.eval(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Assert(self, s):
        c = self.truth(self.eval(s.test))
        c = self.simp(c)
        if c is True:
            return

        def fail():
            args = (self.eval(s.msg),) if s.msg is not None else ()
            e = Exc(AssertionError, args)
            e.loc = self.loc()
            self.abrupt('raise', e)
        self.branch(c, lambda: None, fail)

    def s_Raise(self, s):
        if s.exc is None:
            for f in reversed(self.frames):
                if f.exc:
                    self.abrupt('raise', f.exc[-1])
                break
            self.throw(RuntimeError, 'No active exception')
        v = self.resolve(self.eval(s.exc))
        if s.cause is not None:
            self.eval(s.cause)
        e = self.as_exc(v)
        e.loc = self.loc()
        self.abrupt('raise', e)

    def as_exc(self, v):
        if isinstance(v, Exc):
            return Exc(v.cls, v.args, v.attrs)
        if isinstance(v, type) and issubclass(v, BaseException):
            return Exc(v, ())
        if isinstance(v, Class):
            return Exc(v, ())
        if isinstance(v, Inst):
            return Exc(v.cls, tuple(v.attrs.get('args', ())), v.attrs)
        raise Limit(f'raise of {v!r}')

    def exc_match(self, e, t):
        """does exception e match handler type t"""
        t = self.resolve(t)
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        c = e.cls
        if isinstance(t, Ext):
            # library exception class: matches only same dotted class
            return isinstance(c, Ext) and c.path == t.path
        if isinstance(c, Class):
            for k in c.mro():
                if k is t or (isinstance(k, type) and isinstance(t, type) and issubclass(k, t)):
                    return True
            return False
        if isinstance(t, type):
            if isinstance(c, Ext):
                return t in (Exception, BaseException)
            return issubclass(c, t)
        return False

    def s_Try(self, s):
        if s.finalbody:
            body = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[])
            body.lineno = s.lineno
            run = (lambda: self.s_Try(body)) if s.handlers or s.orelse else (lambda: self.exec_block(s.body))
            self.finally_(run, lambda: self.exec_block(s.finalbody))
            return
        n0 = len(self.pc)
        fr = self.frames[-1]
        res = self.run_region(lambda: self.exec_block(s.body))
        ends = []
        passthru = []
        raised = []
        for o in res.outcomes:
            h = None
            if o.kind == 'raise':
                for hh in s.handlers:
                    if hh.type is None:
                        h = hh
                        break
                    if self.exc_match(o.value, self.eval(hh.type)):
                        h = hh
                        break
            if h is None:
                passthru.append(o)
                continue
            raised.append((o, h))
        normal = None
        if res.normal:
            normal = res
        handler_results = []
        for o, h in raised:
            def run(o=o, h=h):
                self.commit(o.delta)
                if h.name:
                    self.bind(h.name, o.value)
                fr.exc.append(o.value)
                try:
                    self.exec_block(h.body)
                finally:
                    fr.exc.pop()
            suffix = list(o.pc[n0:])
            r = self.run_region(run, suffix)
            handler_results.append((T.band(*suffix) if suffix else True, r))
        self.lift_outcomes(passthru)
        for c, r in handler_results:
            self.lift_outcomes(r.outcomes)
            if r.normal:
                ends.append((c, None, r.delta, r.extra))
        if normal is not None:
            if s.orelse:
                def run2():
                    self.commit(normal.delta)
                    self.exec_block(s.orelse)
                r = self.run_region(run2, list(normal.extra))
                self.lift_outcomes(r.outcomes)
                if r.normal:
                    ends.append((T.band(*normal.extra) if normal.extra else True, None, r.delta,
                                 normal.extra + r.extra))
            else:
                ends.append((T.band(*normal.extra) if normal.extra else True, None, normal.delta, normal.extra))
        if not ends:
            raise Dead()
        if len(ends) == 1:
            c, _, d, extra = ends[0]
            if c is not True:
                self.pc.extend(x for x in (c.args if c.op == 'and' else [c]))
            self.pc.extend(x for x in extra if x is not c)
            self.commit(d)
            return
        _, d = self.merge_many([e[:3] for e in ends])
        self.commit(d)

    s_TryStar = None

    def finally_(self, run, final):
        n0 = len(self.pc)
        res = self.run_region(run)
        outs = []
        for o in res.outcomes:
            def go(o=o):
                self.commit(o.delta)
                final()
            r = self.run_region(go, list(o.pc[n0:]))
            outs.extend(r.outcomes)
            if r.normal:
                outs.append(Outcome(o.kind, o.value, o.pc, r.delta, o.loc))
        self.lift_outcomes(outs)
        if not res.normal:
            raise Dead()
        self.pc.extend(res.extra)
        self.commit(res.delta)
        final()
        return res.v

    def s_With(self, s):
        self._with(s.items, 0, s.body)

    def _with(self, items, i, body):
        if i == len(items):
            self.exec_block(body)
            return
        it = items[i]
        mgr = self.eval(it.context_expr)
        mgr = self.resolve(mgr)
        inner = lambda: self._with(items, i + 1, body)     # noqa: E731

        def enter(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.with_value(mgr, enter, inner)

    def with_value(self, mgr, enter, inner):
        if isinstance(mgr, Choice):
            self.branch(mgr.c, lambda: self.with_value(self.resolve(mgr.a), enter, inner),
                        lambda: self.with_value(self.resolve(mgr.b), enter, inner))
            return
        if isinstance(mgr, GenCtx):
            caller_frames = list(self.frames)
            saved = []

            def on_yield(v):
                frames = self.frames
                self.frames = list(caller_frames)
                n0 = len(self.pc)
                try:
                    def bodyrun():
                        enter(v)
                        inner()
                    r = self.run_region(bodyrun)
                finally:
                    self.frames = frames
                raises = [o for o in r.outcomes if o.kind == 'raise']
                others = [o for o in r.outcomes if o.kind != 'raise']
                self.lift_outcomes(raises)
                ends = []
                for o in others:
                    c = self.cond_since(o.pc, n0)
                    saved.append((c, o.kind, o.value))
                    ends.append((c, None, o.delta))
                if r.normal:
                    ends.append((T.band(*r.extra) if r.extra else True, None, r.delta))
                if not ends:
                    raise Dead()
                if len(ends) == 1 and not others:
                    self.pc.extend(r.extra)
                _, d = self.merge_many(ends)
                self.commit(d)
                if others and not r.normal and not ends[:-1]:
                    saved[-1] = (True,) + saved[-1][1:]
                return None
            self.call_func(mgr.func, mgr.args, mgr.kwargs, on_yield=on_yield)
            for c, kind, value in saved:
                c = self.simp(c)
                if c is True:
                    self.abrupt(kind, value)
                if c is False:
                    continue
                self.pc.append(c)
                self.record(kind, value)
                self.pc.pop()
                self.pc.append(T.bnot(c))
            return
        if isinstance(mgr, ExtObj):
            if mgr.tname == 'contextlib.suppress':
                self.ext.try_stmt(self, inner, mgr.st['types'])
                return
            v = mgr.enter(self)

            def body():
                enter(v)
                inner()
            self.finally_(body, lambda: mgr.exit(self))
            return
        if isinstance(mgr, Opaque):
            enter(Opaque(mgr.path + '.__enter__()'))
            inner()
            return
        if isinstance(mgr, Inst):
            v = self.call(self.getattr(mgr, '__enter__'), [], {})
            enter(v)
            ex = self.getattr(mgr, '__exit__')
            n0 = len(self.pc)
            res = self.run_region(inner)
            outs = []
            ends = []
            for o in res.outcomes:
                hold = {}

                def go(o=o):
                    self.commit(o.delta)
                    if o.kind == 'raise':
                        r_ = self.call(ex, [o.value.cls, o.value, None], {})
                    else:
                        self.call(ex, [None, None, None], {})
                        r_ = None
                    return r_
                r = self.run_region(go, list(o.pc[n0:]))
                outs.extend(r.outcomes)
                if r.normal:
                    sup = self.truth(r.v) if o.kind == 'raise' else False
                    if sup is True:
                        ends.append((self.cond_since(o.pc, n0), None, r.delta))
                    elif sup is False:
                        outs.append(Outcome(o.kind, o.value, o.pc, r.delta, o.loc))
                    else:
                        raise Limit('conditional suppression in __exit__')
            if res.normal:
                def go2():
                    self.commit(res.delta)
                    self.call(ex, [None, None, None], {})
                r = self.run_region(go2, list(res.extra))
                outs.extend(r.outcomes)
                if r.normal:
                    ends.append((T.band(*res.extra) if res.extra else True, None, r.delta))
            self.lift_outcomes(outs)
            if not ends:
                raise Dead()
            if len(ends) == 1:
                self.pc.extend(x for x in res.extra)
            _, d = self.merge_many(ends)
            self.commit(d)
            return
        raise Limit(f'with {mgr!r} at {self.loc()}')

    def s_For(self, s):
        it = self.eval(s.iter)

        def go(it):
            it = self.resolve(it)
            items = it if isinstance(it, (V.Iter, V.Inf)) else self.iterate(it)
            self.loop(s, items, lambda v: self.assign(s.target, v))
        self.over(it, go)

    def draw(self, it):
        """next item of an iterator: (found, item)"""
        if isinstance(it, V.Inf):
            if not isinstance(it.pos, int):
                raise Limit('position of an iterator')
            self.touch(it)
            it.pos += 1
            if it.pos > 5000:
                raise Limit('iteration bound')
            return True, it.at(it.pos - 1)
        if POISON in it.items:
            raise Limit('iteration over merged list')
        if not it.items:
            return False, None
        self.touch(it)
        x = it.items[0]
        it.items = it.items[1:]
        return True, x

    def drawn(self, items):
        if not isinstance(items, (V.Iter, V.Inf)):
            yield from items
            return
        while True:
            ok, x = self.draw(items)
            if not ok:
                return
            yield x

    def loop(self, s, items, bindf):
        jumps = _has_jump(s.body)

        def whole():
            for v in self.drawn(items):
                def one(v=v):
                    bindf(v)
                    self.exec_block(s.body)
                if jumps:
                    self.iteration(one)
                else:
                    one()
            self.exec_block(s.orelse)
        self.loop_region(whole)

    def iteration(self, one):
        n0 = len(self.pc)
        r = self.run_region(one)
        conts = [o for o in r.outcomes if o.kind == 'continue']
        self.lift_outcomes([o for o in r.outcomes if o.kind != 'continue'])
        ends = [(self.cond_since(o.pc, n0), None, o.delta) for o in conts]
        if r.normal:
            ends.append((T.band(*r.extra) if r.extra else True, None, r.delta))
        if not ends:
            raise Dead()
        if len(ends) == 1:
            if conts:
                self.pc.extend(conts[0].pc[n0:])
            else:
                self.pc.extend(r.extra)
        _, d = self.merge_many(ends)
        self.commit(d)

    def loop_region(self, whole):
        n0 = len(self.pc)
        res = self.run_region(whole)
        brk = [o for o in res.outcomes if o.kind == 'break']
        self.lift_outcomes([o for o in res.outcomes if o.kind != 'break'])
        ends = [(self.cond_since(o.pc, n0), None, o.delta) for o in brk]
        if res.normal:
            ends.append((T.band(*res.extra) if res.extra else True, None, res.delta))
        if not ends:
            raise Dead()
        if len(ends) == 1:
            self.pc.extend(brk[0].pc[n0:] if brk else res.extra)
        _, d = self.merge_many(ends)
        self.commit(d)

    def s_While(self, s):
        def whole():
            n = 0
            while True:
                c = self.simp(self.truth(self.eval(s.test)))
                if c is False:
                    break
                if c is not True:
                    raise Limit(f'while on data-dependent condition at {self.loc()}')
                n += 1
                if n > 5000:
                    raise Limit('while bound')
                self.iteration(lambda: self.exec_block(s.body))
            self.exec_block(s.orelse)
        self.loop_region(whole)

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.resolve(self.eval(d))
            if isinstance(dv, Ext) and dv.path == 'contextlib.contextmanager':
                f.ctxmgr = True
            elif isinstance(dv, BType) and dv.name == 'classmethod':
                v = ClassM(v)
            elif isinstance(dv, BType) and dv.name == 'staticmethod':
                v = Static(v)
            elif isinstance(dv, BType) and dv.name == 'property':
                v = Prop(v)
            elif isinstance(dv, Ext) and dv.path == 'functools.cached_property':
                v = CProp(v)
            elif isinstance(dv, tuple) and dv and dv[0] == 'prop.setter':
                v = Prop(dv[1].fget, v)
            elif isinstance(dv, Ext) and dv.path in ('functools.lru_cache', 'functools.cache'):
                f.memo = DDict()
            elif isinstance(dv, Opaque) and dv.path.startswith('functools.lru_cache'):
                f.memo = DDict()
            elif isinstance(dv, Ext) and dv.path.startswith('functools.wraps'):
                pass
            elif isinstance(dv, Opaque) and dv.path.startswith('functools.wraps'):
                pass
            elif isinstance(dv, (Func, Bound, Class, Inst, Builtin)):
                v = self.call(dv, [v], {})
            else:
                raise Limit(f'decorator {dv!r}')
        self.bind(s.name, v)

    def make_func(self, s, name=None):
        fr = self.frames[-1]
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = [None if d is None else (self.eval(d),) for d in a.kw_defaults]
        qual = (self._qualprefix() + (name or getattr(s, 'name', '<lambda>')))
        f = Func(s, self._closure_env(), fr.module, getattr(s, 'name', '<lambda>'), qual, defaults, kwd)
        f.is_gen = _is_gen(s)
        f.in_class = getattr(fr, 'cls_env', None) is fr.env
        return f

    def _closure_env(self):
        fr = self.frames[-1]
        env = fr.env
        if getattr(fr, 'cls_env', None) is env:
            return env.parent
        return env

    def _qualprefix(self):
        fr = self.frames[-1]
        pre = fr.module.name + '.' if fr.module else ''
        q = getattr(fr, 'cls_qual', None)
        if q:
            return q + '.'
        if fr.func is not None:
            return fr.func.qual + '.<locals>.'
        return pre

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        bases = [self.resolve(self.eval(b)) for b in s.bases]
        env = Env(parent=fr.env)
        nf = Frame(fr.func, env, fr.module)
        nf.cls_env = env
        nf.cls_qual = self._qualprefix() + s.name
        nf.line = s.lineno
        self.frames.append(nf)
        try:
            self.exec_block(s.body)
            decos = []
            for d in reversed(s.decorator_list):
                dv = self.resolve(self.eval(d))
                name = getattr(dv, 'path', '')
                if name in ('dataclasses.dataclass', 'dataclasses.dataclass()'):
                    self.dataclass(s, env)
                elif isinstance(dv, (Func, Bound)):
                    decos.append(dv)
                elif name not in ('functools.total_ordering', 'typing.final'):
                    raise Limit(f'class decorator {dv!r}')
        finally:
            if self.frames and self.frames[-1] is nf:
                self.frames.pop()
        names = [getattr(b, 'path', '') for b in bases]
        if any(n.startswith('enum.') for n in names):
            raise Limit('enumeration class')
        if 'typing.NamedTuple' in names:
            fields = self.fields(s)
            ns = {k: v for k, v in env.vars.items() if k not in fields}
            dflt = {k: env.vars[k] for k in fields if k in env.vars}
            c = Class(s.name, [], ns, fr.module, nf.cls_qual)
            for v in ns.values():
                if isinstance(v, Func) and v.cls is None:
                    v.cls = c
            self.bind(s.name, self.ext.named_tuple(s.name, fields, dflt, c))
            return
        c = Class(s.name, bases, dict(env.vars), fr.module, nf.cls_qual)
        for v in c.ns.values():
            f = v
            if isinstance(f, (Static, ClassM)):
                f = f.f
            if isinstance(f, Prop):
                f = f.fget
            if isinstance(f, Func) and f.cls is None:
                f.cls = c
        for v in c.ns.values():
            if isinstance(v, Prop) and isinstance(v.fset, Func):
                v.fset.cls = c
        for dv in decos:
            c = self.call(dv, [c], {})
        self.bind(s.name, c)

    @staticmethod
    def fields(s):
        return [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)
                and 'ClassVar' not in ast.unparse(x.annotation)]

    def dataclass(self, s, env):
        """the generated initialiser, unless there is one"""
        if '__init__' in env.vars:
            return
        if s.bases:
            raise Limit('derived dataclass')
        sig, body, extra = [], [], []
        for f in self.fields(s):
            d = env.vars.get(f)
            if isinstance(d, tuple) and d and d[0] == 'dataclass.field':
                k = d[1]
                if set(k) - {'default', 'default_factory', 'init', 'repr', 'compare', 'hash', 'metadata'}:
                    raise Limit('dataclasses.field')
                env.vars.pop(f)
                val = f
                if 'default' in k:
                    env.vars[f] = k['default']
                elif 'default_factory' in k:
                    env.vars['_factory_' + f] = k['default_factory']
                    env.vars[f] = None
                    val = f'{f} if {f} is not None else _factory_{f}()'
                if k.get('init', True) is False:
                    if 'default_factory' in k:
                        extra.append(f'    object.__setattr__(self, {f!r}, _factory_{f}())')
                    continue
                sig.append(f + (f'={f}' if f in env.vars else ''))
                body.append(f'    object.__setattr__(self, {f!r}, {val})')
                continue
            sig.append(f + (f'={f}' if f in env.vars else ''))
            body.append(f'    object.__setattr__(self, {f!r}, {f})')
        body += extra
        if '__post_init__' in env.vars:
            body.append('    self.__post_init__()')
        src = f'def __init__({", ".join(["self"] + sig)}):\n' + '\n'.join(body or ['    pass']) + '\n'
        tree = ast.parse(src)
        for n in ast.walk(tree):
            if hasattr(n, 'lineno'):
                n.lineno = s.lineno
        self.exec_block(tree.body)

    def s_Import(self, s):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.bind(al.asname, m)
            else:
                top = al.name.split('.')[0]
                self.bind(top, Ext(top) if top != self.pkg else self.module(top))

    def s_ImportFrom(self, s):
        fr = self.frames[-1]
        if s.level:
            base = fr.module.name.split('.')
            if not fr.module.path.endswith('__init__.py'):
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            mod = '.'.join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        for al in s.names:
            nm = al.asname or al.name
            if mod.split('.')[0] == self.pkg:
                m = self.module(mod)
                if m is None:
                    self.throw(ImportError, mod)
                if al.name == '*':
                    allv = m.env.vars.get('__all__')
                    names = self.iterate(allv) if allv is not None else [k for k in m.env.vars if not k.startswith('_')]
                    for k in names:
                        self.bind(k, m.env.vars[k])
                    continue
                if al.name in m.env.vars:
                    self.bind(nm, m.env.vars[al.name])
                else:
                    sub = self.module(mod + '.' + al.name)
                    if sub is None:
                        self.throw(ImportError, al.name)
                    self.bind(nm, sub)
            else:
                self.import_module(mod)
                full = mod + '.' + al.name
                if full in self.absent_modules:
                    self.throw(ImportError, full)
                self.bind(nm, self.ext_value(full))

    def ext_value(self, path):
        if path == 'numpy.newaxis':
            return None
        h = self.ext.CONSTS.get(path)
        if h is None:
            h = self.np.CONSTS.get(path)
        if h is not None:
            return h
        return Ext(path)

    def s_Global(self, s):
        self.frames[-1].env.globals.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].env.nonlocals.update(s.names)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.frames[-1].env
                self.touch(env)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value), self.eval(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.eval(t.value))
                if not isinstance(o, Inst):
                    raise Limit('del attr')
                self.touch(o)
                o.attrs.pop(t.attr, None)
            else:
                raise Limit('del target')

    def s_Match(self, s):
        v = self.eval(s.subject)

        def go(i):
            if i == len(s.cases):
                return
            case = s.cases[i]
            c = self.match_pat(case.pattern, v)

            def body():
                if case.guard is not None:
                    g = self.truth(self.eval(case.guard))
                    self.branch(g, lambda: self.exec_block(case.body), lambda: go(i + 1))
                else:
                    self.exec_block(case.body)
            self.branch(c, body, lambda: go(i + 1))
        go(0)

    def match_pat(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.eval(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchOr):
            return T.bor(*[self.match_pat(q, v) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = True if p.pattern is None else self.match_pat(p.pattern, v)
            if p.name:
                self.bind(p.name, v)
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance_(v, self.eval(p.cls)))
        v = self.resolve(v)
        if isinstance(v, Choice):
            raise Limit('match pattern')
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, DDict, Node, int, float, Arr, Inst)) or v is None:
                if isinstance(v, Inst):
                    raise Limit('match pattern')
                return False
            xs = self.iterate(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(xs) == len(p.patterns) and T.band(*[self.match_pat(q, x) for q, x in zip(p.patterns, xs)])
            i, k = star[0], len(p.patterns) - star[0] - 1
            if len(xs) < i + k:
                return False
            if p.patterns[i].name:
                self.bind(p.patterns[i].name, LList(xs[i:len(xs) - k]))
            return T.band(*[self.match_pat(q, x) for q, x in zip(p.patterns[:i] + p.patterns[i + 1:], xs[:i] + xs[len(xs) - k:])])
        if isinstance(p, ast.MatchMapping):
            d = self.dict_of(v)
            if d is None:
                if isinstance(v, (Inst, ExtObj, Opaque)):
                    raise Limit('match pattern')
                return False
            keys = [self.resolve(self.eval(k)) for k in p.keys]
            for k in keys:
                if self.contains(v, k) is not True:
                    if self.contains(v, k) is False:
                        return False
                    raise Limit('match pattern')
            if p.rest:
                self.bind(p.rest, DDict({k: x for k, x in d.items.items() if k not in keys}))
            return T.band(*[self.match_pat(q, self.getitem(v, k)) for q, k in zip(p.patterns, keys)])
        raise Limit('match pattern')

    # ------------------------------------------------------------ binding
    def bind(self, name, v):
        env = self.frames[-1].env
        if name in env.globals:
            env = self.frames[-1].module.env
        elif name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e or env
        self.touch(env)
        env.vars[name] = v

    def lookup(self, name):
        fr = self.frames[-1]
        env = fr.env
        if name in env.globals:
            env = fr.module.env
        while env is not None:
            if name in env.vars:
                v = env.vars[name]
                if type(v) in (Choice, Node) or v is POISON:
                    r = self.resolve(v)
                    return r
                return v
            env = env.parent
        b = self.ext.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC_TYPES:
            return EXC_TYPES[name]
        if name in ('NotImplemented', 'Ellipsis'):
            return Ellipsis if name == 'Ellipsis' else Ext('NotImplemented')
        self.throw(NameError, f"name '{name}' is not defined")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.over(v, lambda v: self._unpack(t, v))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            self.setitem(o, self.eval(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Limit('assign target')

    def _unpack(self, t, v):
        if isinstance(v, Opaque):
            for i, e in enumerate(t.elts):
                self.assign(e, Opaque(f'{v.path}[{i}]'))
            return
        items = self.iterate(v)
        st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if st:
            k = st[0]
            after = len(t.elts) - k - 1
            if len(items) < len(t.elts) - 1:
                self.throw(ValueError, 'not enough values to unpack')
            vals = list(items[:k]) + [LList(items[k:len(items) - after])] + list(items[len(items) - after:])
        else:
            if len(items) != len(t.elts):
                self.throw(ValueError, f'cannot unpack {len(items)} into {len(t.elts)}')
            vals = items
        for e, x in zip(t.elts, vals):
            self.assign(e, x)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Limit(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return tuple(self._elts(e.elts))

    def e_List(self, e):
        return LList(self._elts(e.elts))

    def e_Set(self, e):
        return SSet(self._elts(e.elts))

    def _elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        d = DDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.resolve(self.eval(v))
                for kk, vv in self.dict_items(src):
                    d.items[kk] = vv
            else:
                kk = self.key(self.eval(k))
                d.items[kk] = self.eval(v)
        return d

    def dict_of(self, v):
        """DDict behind a mapping value or None"""
        v = self.resolve(v)
        if isinstance(v, DDict):
            return v
        if isinstance(v, Inst) and v.data is not None:
            return v.data
        return None

    def dict_items(self, v):
        d = self.dict_of(v)
        if d is None:
            if isinstance(v, ExtObj) and hasattr(v, 'keys'):
                return [(k, v.getitem(self, k)) for k in v.keys(self)]
            raise Limit(f'mapping {v!r}')
        out = []
        for k, x in d.items.items():
            if isinstance(x, Choice) and (x.a is UNDEF or x.b is UNDEF):
                c = self.simp(x.c)
                if c is True or c is False:
                    y = x.a if c else x.b
                    if y is UNDEF:
                        continue
                    out.append((k, y))
                    continue
                raise Limit('iteration over conditionally present keys')
            out.append((k, x))
        return out

    def key(self, k):
        k = self.resolve(k)
        if isinstance(k, Arr):
            if k.scalar:
                x = k.item()
                return self.key(self.pynum(x))
            self.throw(TypeError, 'unhashable type: numpy.ndarray')
        if isinstance(k, (LList, DDict, SSet)):
            self.throw(TypeError, 'unhashable type')
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Node):
            return self.pynum(k)
        if isinstance(k, Choice):
            raise Limit('conditional key')
        return k

    def pynum(self, n):
        """python number for integral constants, else node"""
        if isinstance(n, Node) and n.op == 'num':
            v = n.args[0]
            return int(v) if v.denominator == 1 else float(v)
        return n

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Choice):
            return self.over(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return self.over(b, lambda x: self.binop(op, a, x))
        return self.np.binop(self, op, a, b)

    def iop(self, op, cur, rhs):
        cur = self.resolve(cur)
        if isinstance(cur, Choice):
            return self.branch(cur.c, lambda: self.iop(op, cur.a, rhs), lambda: self.iop(op, cur.b, rhs))
        rhs = self.resolve(rhs)
        if isinstance(rhs, Choice):
            return self.over(rhs, lambda x: self.iop(op, cur, x))
        if isinstance(cur, LList) and not isinstance(cur, V.Iter) and op == 'Add':
            items = self.iterate(rhs)
            self.touch(cur)
            cur.items.extend(items)
            return cur
        if isinstance(cur, DDict) and op == 'BitOr':
            for k, v in self.dict_items(rhs):
                self.touch(cur)
                cur.items[k] = v
            return cur
        if isinstance(cur, Inst):
            m = self.find_method(cur, f'__i{ {"Add":"add","Sub":"sub","Mult":"mul","BitOr":"or"}.get(op, op.lower()) }__')
            if m is not None:
                return self.call(m, [rhs], {})
            if cur.data is not None and op == 'BitOr':
                for k, v in self.dict_items(rhs):
                    self.touch(cur.data)
                    cur.data.items[k] = v
                return cur
        if isinstance(cur, Arr) and not cur.scalar and cur.dt.kind != 'U':
            r = self.np.binop(self, op, cur, rhs)
            if isinstance(r, Arr) and cur.dt.kind in 'ib' and r.dt.kind in 'fc' and not isinstance(rhs, Masked):
                self.throw(TypeError, "Cannot cast ufunc output from float to int ('same_kind')")
            self.np.assign_view(self, cur, r)
            return cur
        return self.binop(op, cur, rhs)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        return self.over(v, lambda v: self.unary(op, v))

    def unary(self, op, v):
        if op == 'Not':
            return T.bnot(self.truth(v))
        return self.np.unary(self, op, v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v)
            return self.branch(c, lambda: v, lambda: go(i + 1))
        return go(0)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_Compare(self, e):
        left = self.eval(e.left)

        def go(left, i):
            right = self.eval(e.comparators[i])
            r = self.compare(type(e.ops[i]).__name__, left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.branch(c, lambda: go(right, i + 1), lambda: r)
        return go(left, 0)

    def compare(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else T.bnot(r)
        if isinstance(a, Choice):
            return self.over(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.over(b, lambda x: self.compare(op, a, x))
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return T.bnot(self.truth(self.contains(b, a)))
        for x, y, n in ((a, b, DUNDER.get(op)), (b, a, RDUNDER.get(op))):
            if isinstance(x, Inst) and isinstance(x.cls, Class):
                m = self.find_method(x, n)
                if m is not None:
                    return self.call(m, [y], {})
                if op == 'NotEq':
                    m = self.find_method(x, '__eq__')
                    if m is not None:
                        return T.bnot(self.truth(self.call(m, [y], {})))
        return self.np.compare(self, op, a, b)

    def is_(self, a, b):
        if isinstance(a, Choice):
            return T.bor(T.band(a.c, self.is_(self.resolve(a.a), b)), T.band(T.bnot(a.c), self.is_(self.resolve(a.b), b)))
        if isinstance(b, Choice):
            return self.is_(b, a)
        if a is b:
            return True
        if a is None or b is None:
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool):
                if isinstance(y, Node) and T.is_bool(y) and not isinstance(y, bool):
                    return y if x else T.bnot(y)
                return x is y
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, BType) and isinstance(b, BType):
            return a.name == b.name
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self_ is b.self_
        return False

    def contains(self, cont, x):
        cont = self.resolve(cont)
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            self.throw(TypeError, 'in <string> requires string')
        d = self.dict_of(cont)
        if d is not None:
            if isinstance(cont, Inst):
                m = self.find_method(cont, '__contains__')
                if m is not None:
                    return self.call(m, [x], {})
            k = self.key(x)
            if k in d.items:
                v = d.items[k]
                if isinstance(v, Choice) and v.a is UNDEF:
                    return self.simp(T.bnot(v.c))
                if isinstance(v, Choice) and v.b is UNDEF:
                    return self.simp(v.c)
                return True
            return False
        if isinstance(cont, ExtObj) and hasattr(cont, 'contains'):
            return cont.contains(self, self.key(x))
        if isinstance(cont, Inst):
            m = self.find_method(cont, '__contains__')
            if m is not None:
                return self.call(m, [x], {})
        if isinstance(cont, type(None)):
            self.throw(TypeError, "argument of type 'NoneType' is not iterable")
        if isinstance(cont, Arr):
            r = self.np.compare(self, 'Eq', cont, x)
            if isinstance(r, Arr):
                return T.bor(*r.elems()) if r.size else False
            return r
        res = False
        for it in self.iterate(cont):
            c = self.is_(self.resolve(it), x)
            if c is not True:
                c = self.truth(self.compare('Eq', it, x))
            res = T.bor(res, c)
            if res is True:
                break
        return res

    def e_Attribute(self, e):
        o = self.eval(e.value)
        self.frames[-1].line = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        self.frames[-1].line = e.lineno
        return self.getitem(o, k)

    def e_Slice(self, e):
        return slice(*[None if x is None else self.idxval(self.eval(x)) for x in (e.lower, e.upper, e.step)])

    def idxval(self, v):
        v = self.resolve(v)
        if isinstance(v, Arr) and v.size == 1:
            v = v.item()
        if isinstance(v, Node):
            if T.is_num(v) and v.args[0].denominator == 1:
                return int(v.args[0])
        return v

    def e_Starred(self, e):
        raise Limit('starred')

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                val = self.eval(v.value)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                if v.conversion == 114:
                    spec = spec or ''
                out.append(self.format(val, spec, repr_=v.conversion == 114))
        return ''.join(out)

    def format(self, v, spec='', repr_=False):
        return self.ext.format_value(self, v, spec, repr_)

    def _comp(self, e, add):
        fr = self.frames[-1]
        env = Env(parent=fr.env)
        nf = Frame(fr.func, env, fr.module)
        nf.line = fr.line
        nf.exc = fr.exc
        first = self.eval(e.generators[0].iter)
        self.frames.append(nf)

        def gen(i):
            if i == len(e.generators):
                add()
                return
            g = e.generators[i]
            it = first if i == 0 else self.eval(g.iter)

            def run(it):
                for v in self.iterate(it):
                    self.assign(g.target, v)

                    def conds(j):
                        if j == len(g.ifs):
                            gen(i + 1)
                            return
                        c = self.simp(self.truth(self.eval(g.ifs[j])))
                        if c is True:
                            conds(j + 1)
                        elif c is not False:
                            self.branch(c, lambda: conds(j + 1), lambda: None)
                    conds(0)
            self.over(it, run)
        try:
            gen(0)
        finally:
            if self.frames and self.frames[-1] is nf:
                self.frames.pop()

    def e_ListComp(self, e):
        out = LList()

        def add():
            v = self.eval(e.elt)
            self.touch(out)
            out.items.append(v)
        self._comp(e, add)
        if any(x is POISON for x in out.items):
            raise Limit('conditional comprehension')
        return out

    def e_GeneratorExp(self, e):
        return V.Iter(self.e_ListComp(e).items)

    def e_SetComp(self, e):
        return SSet(self.e_ListComp(e).items)

    def e_DictComp(self, e):
        out = DDict()

        def add():
            k = self.key(self.eval(e.key))
            v = self.eval(e.value)
            self.touch(out)
            out.items[k] = v
        self._comp(e, add)
        return out

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.frames[-1]
        if fr.on_yield is None:
            raise Limit('yield outside modelled generator')
        return fr.on_yield(v)

    def e_YieldFrom(self, e):
        fr = self.frames[-1]
        for v in self.iterate(self.eval(e.value)):
            fr.on_yield(v)

    def e_Await(self, e):
        raise Limit('await')

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        line = e.lineno
        # zero-argument super / locals
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            f = fr.func
            first = f.node.args.args[0].arg
            return Super(f.cls, fr.env.vars[first] if first in fr.env.vars else self.lookup(first))
        f = self.eval(e.func)
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                args.extend(self.iterate(self.resolve(v)))
            else:
                args.append(self.eval(a))
        for k in e.keywords:
            if k.arg is None:
                src = self.resolve(self.eval(k.value))
                for kk, vv in self.dict_items(src):
                    if kk in kwargs:
                        self.throw(TypeError, f'multiple values for keyword argument {kk!r}')
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value)
        self.frames[-1].line = line
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, Choice):
            return self.branch(f.c, lambda: self.call(f.a, list(args), dict(kwargs)),
                               lambda: self.call(f.b, list(args), dict(kwargs)))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Static):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            return Exc(f, args)
        if isinstance(f, Inst):
            m = self.find_method(f, '__call__')
            if m is None:
                self.throw(TypeError, 'object is not callable')
            return self.call(m, args, kwargs)
        if f is None or isinstance(f, (int, float, str, tuple, LList, DDict, Arr)):
            self.throw(TypeError, f"'{type(f).__name__}' object is not callable")
        # library / builtin: lift over conditional arguments
        for i, a in enumerate(args):
            a = self.resolve(a)
            args[i] = a
            if isinstance(a, Choice) and not getattr(f, 'raw', False):
                return self.branch(a.c, lambda: self.call(f, args[:i] + [a.a] + args[i + 1:], dict(kwargs)),
                                   lambda: self.call(f, args[:i] + [a.b] + args[i + 1:], dict(kwargs)))
        for k, a in list(kwargs.items()):
            a = self.resolve(a)
            kwargs[k] = a
            if isinstance(a, Choice):
                return self.branch(a.c, lambda: self.call(f, list(args), {**kwargs, k: a.a}),
                                   lambda: self.call(f, list(args), {**kwargs, k: a.b}))
        if self.faults is not None:
            self.fault_edge(f)
        if isinstance(f, Builtin):
            return f.f(self, args, kwargs)
        if isinstance(f, BType):
            return self.ext.construct(self, f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kwargs)
        if isinstance(f, ExtObj) and hasattr(f, 'call'):
            return f.call(self, args, kwargs)
        if isinstance(f, Opaque):
            self.event('opaque_call', path=f.path, args=args, kwargs=kwargs)
            return Opaque(f.path + '()')
        raise Limit(f'call of {f!r} at {self.loc()}')

    def fault_edge(self, f):
        """exception edge of a library call made while a file is open: it may raise"""
        name = f.name if isinstance(f, Builtin) else f.path if isinstance(f, (Ext, Opaque)) else getattr(f, 'name', '')
        if str(name).split('.')[-1] in ('close', '__exit__', '__enter__', 'exit', 'enter', 'exists', 'ExitStack', 'closing',
                                       'enter_context', 'callback', 'push', 'cb'):
            return
        if not any(self.resolve(h.st.get('closed')) not in (True, 'unopened') for h in self.handles[self.faults['h0']:]):
            return
        loc = self.loc()
        if (loc, name) in self.faults['seen']:
            return
        self.faults['seen'].add((loc, name))
        self.faults['n'] += 1
        self.throw_if(T.sym(f'fault#{self.faults["n"]}', 'bool'), OSError, f'fault in {name}')

    def call_ext(self, path, args, kwargs):
        h = self.ext_hooks.get(path)
        if h is not None:
            return h(self, args, kwargs)
        h = self.ext_table.get(path)
        if h is not None:
            return h(self, args, kwargs)
        f = self.prelude(path)
        if f is not None:
            r = self.call(f, list(args), dict(kwargs))
            if path.startswith('itertools.'):
                if isinstance(r, tuple):
                    return tuple(V.Iter(x.items) for x in r)
                return V.Iter(self.resolve(r).items)
            return r
        return self.ext.unknown(self, path, args, kwargs)

    def prelude(self, path):
        """library function expressed by modelled ones"""
        if path.replace('.', '__') not in PRELUDE_NAMES:
            return None
        return self.pre.env.vars[path.replace('.', '__')]

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = Env(parent=f.env)
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        n = len(pos)
        vals = {}
        if len(args) > n and a.vararg is None:
            self.throw(TypeError, f'{f.name}() takes {n} positional arguments but {len(args)} were given')
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[n:])
        ponly = {p.arg for p in a.posonlyargs}
        extra = {}
        names = {p.arg for p in pos} | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names and k not in ponly:
                if k in vals:
                    self.throw(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw(TypeError, f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vals:
                j = i - (n - nd)
                if j >= 0:
                    vals[p.arg] = f.defaults[j]
                else:
                    self.throw(TypeError, f"{f.name}() missing required argument: '{p.arg}'")
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg not in vals:
                if d is None:
                    self.throw(TypeError, f"{f.name}() missing keyword-only argument: '{p.arg}'")
                vals[p.arg] = d[0]
        if a.kwarg is not None:
            vals[a.kwarg.arg] = DDict(extra)
        env.vars = vals
        return env

    def call_func(self, f, args, kwargs, on_yield=None):
        ov = self.overrides.get(f.qual)
        if ov is not None:
            return ov(self, args, kwargs)
        if f.ctxmgr and on_yield is None:
            return GenCtx(f, args, kwargs)
        if f.memo is not None:
            try:
                key = self.key(tuple(args) + tuple(sorted(kwargs.items())))
                hash(key)
            except TypeError:
                raise Limit('memo key')
            if key in f.memo.items:
                return f.memo.items[key]
        if len(self.frames) > self.MAXDEPTH:
            raise Limit('call depth')
        collected = None
        if f.is_gen and on_yield is None:
            collected = V.Iter()

            def on_yield(v):
                self.touch(collected)
                collected.items.append(v)
                return None
        env = self.bind_args(f, args, kwargs)
        fr = Frame(f, env, f.module)
        fr.on_yield = on_yield
        fr.line = getattr(f.node, 'lineno', 0)
        self.funcs_seen.add(f.qual)
        n0 = len(self.pc)

        def run():
            self.frames.append(fr)
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                self.frames.pop()
                return v
            self.exec_block(f.node.body)
            self.frames.pop()
            return None
        res = self.run_region(run)
        keep_env = _has_inner(f.node)
        ends = []
        raises = []
        for o in res.outcomes:
            if not keep_env:
                o.delta.pop(env, None)
            if o.kind == 'return':
                ends.append((self.cond_since(o.pc, n0), o.value, o.delta))
            else:
                raises.append(o)
        if not keep_env:
            res.delta.pop(env, None)
        if res.normal:
            ends.append((T.band(*res.extra) if res.extra else True, res.v, res.delta))
        self.lift_outcomes(raises)
        if not ends:
            raise Dead()
        v, d = self.merge_many(ends)
        self.commit(d)
        if len(ends) == 1:
            c = ends[0][0]
            if isinstance(c, Node):
                self.pc.extend(c.args if c.op == 'and' else [c])
        else:
            for o in raises:
                suf = o.pc[n0:]
                if len(suf) == 1:
                    self.pc.append(T.bnot(suf[0]))
        if collected is not None:
            if any(x is POISON for x in collected.items):
                raise Limit('conditional generator')
            v = collected
        if f.memo is not None:
            self.touch(f.memo)
            f.memo.items[key] = v
        return v

    def instantiate(self, c, args, kwargs):
        mro = c.mro()
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in mro):
            return Exc(c, args)
        o = Inst(c)
        if any(isinstance(b, BType) and b.name == 'dict' for b in mro) or \
                any(isinstance(b, Ext) and b.path in ('collections.UserDict', 'collections.OrderedDict') for b in mro):
            o.data = DDict()
        init = self.find_method(o, '__init__')
        if init is not None:
            self.call(init, args, kwargs)
        elif o.data is not None:
            self.ext.dict_update(self, o.data, args, kwargs)
        elif args or kwargs:
            self.throw(TypeError, f'{c.name}() takes no arguments')
        return o

    def find_method(self, o, name):
        """user-defined class attribute bound to instance, or None"""
        for k in o.cls.mro() if isinstance(o.cls, Class) else []:
            if isinstance(k, Class) and name in k.ns:
                return self.bind_attr(k.ns[name], o, o.cls)
        return None

    def bind_attr(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Static):
            return v.f
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        return v

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Choice):
            return self.branch(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if o is None:
            self.ext.no_attr(self, name, type(None))
        if isinstance(o, Module):
            if name in o.env.vars:
                return self.resolve(o.env.vars[name])
            sub = self.module(o.name + '.' + name) if o.path.endswith('__init__.py') else None
            if sub is not None:
                return sub
            self.ext.no_attr(self, name, types.ModuleType)
        if isinstance(o, Ext):
            return self.ext_value(o.path + '.' + name)
        if isinstance(o, Inst):
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return InstDict(o)
            for k in o.cls.mro():
                if isinstance(k, Class) and name in k.ns and isinstance(k.ns[name], Prop):
                    if isinstance(k.ns[name], CProp):
                        if name not in o.attrs:
                            v = self.call(k.ns[name].fget, [o], {})
                            self.touch(o)
                            o.attrs[name] = v
                        break
                    return self.call(k.ns[name].fget, [o], {})
            if name in o.attrs:
                return self.attr_resolved(o.attrs[name], name)
            for k in o.cls.mro():
                if isinstance(k, Class) and name in k.ns:
                    return self.bind_attr(k.ns[name], o, o.cls)
            if o.data is not None:
                m = self.ext.dict_method(self, o.data, name, inst=o)
                if m is not None:
                    return m
            ga = self.find_method(o, '__getattr__')
            if ga is not None:
                return self.call(ga, [name], {})
            self.foreign_base(o.cls, name)
            self.ext.no_attr(self, name, object)
        if isinstance(o, Super):
            return self.super_attr(o, name)
        if isinstance(o, Class):
            if name == '__name__':
                return o.name
            for k in o.mro():
                if isinstance(k, Class) and name in k.ns:
                    v = k.ns[name]
                    if isinstance(v, ClassM):
                        return Bound(v.f, o)
                    if isinstance(v, Static):
                        return v.f
                    return v
                if isinstance(k, BType):
                    m = self.ext.type_attr(self, k, name)
                    if m is not None:
                        return m
            self.foreign_base(o, name)
            self.ext.no_attr(self, name, type, object)
        if isinstance(o, Exc):
            if name == 'args':
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, Class):
                for k in o.cls.mro():
                    if isinstance(k, Class) and name in k.ns:
                        return self.bind_attr(k.ns[name], o, o.cls)
            if name == '__class__':
                return o.cls
            return Opaque(f'exc.{name}')
        if isinstance(o, Func):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
            if name == '__dict__':
                return InstDict(o)
            if name in o.attrs:
                return o.attrs[name]
            if name == 'cache_clear' and o.memo is not None:
                def clear(I, a, k):
                    I.touch(o.memo)
                    o.memo.items = {}
                return Builtin('cache_clear', clear)
            self.ext.no_attr(self, name, types.FunctionType)
        if isinstance(o, Prop) and name == 'setter':
            return Builtin('setter', lambda I, a, k: Prop(o.fget, a[0]))
        if isinstance(o, Opaque):
            return Opaque(o.path + '.' + name, o.node)
        if isinstance(o, ExtObj):
            return o.getattr(self, name)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            return self.getattr(o.func, name)
        return self.ext.value_attr(self, o, name)

    def foreign_base(self, cls, name):
        """an attribute that a class may have from a base class outside the model"""
        for k in cls.mro():
            t = getattr(_bi, k.name, None) if isinstance(k, BType) else k
            if not isinstance(k, Class) and (not isinstance(t, type) or hasattr(t, name)):
                raise Limit(f'{name} of a class derived from {k!r}')

    def attr_resolved(self, v, name):
        if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
            c = v.c if v.a is UNDEF else T.bnot(v.c)
            self.throw_if(c, AttributeError, name)
            return self.attr_resolved(v.b if v.a is UNDEF else v.a, name)
        return self.resolve(v)

    def super_attr(self, s, name):
        o = s.self_
        mro = o.cls.mro() if isinstance(o, Inst) else o.mro()
        i = mro.index(s.cls) + 1
        for k in mro[i:]:
            if isinstance(k, Class) and name in k.ns:
                return self.bind_attr(k.ns[name], o, o.cls if isinstance(o, Inst) else o)
        if isinstance(o, Inst) and o.data is not None:
            m = self.ext.dict_method(self, o.data, name, inst=None)
            if m is not None:
                return m
        if name == '__init__':
            if isinstance(o, Inst) and o.data is not None:
                return Builtin('dict.__init__', lambda I, a, k: I.ext.dict_update(I, o.data, a, k))
            return Builtin('object.__init__', lambda I, a, k: None)
        if name == '__setattr__':
            return Builtin('setattr', lambda I, a, k: I.setattr(o, a[0], a[1], raw=True))
        self.throw(AttributeError, f"'super' object has no attribute '{name}'")

    def setattr(self, o, name, v, raw=False):
        o = self.resolve(o)
        if isinstance(o, Choice):
            self.branch(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Inst):
            for k in o.cls.mro():
                if isinstance(k, Class) and isinstance(k.ns.get(name), Prop) and not isinstance(k.ns[name], CProp):
                    p = k.ns[name]
                    if p.fset is None:
                        self.throw(AttributeError, f'can\'t set attribute {name}')
                    self.call(p.fset, [o, v], {})
                    return
            if not raw:
                m = self.find_method(o, '__setattr__')
                if m is not None:
                    self.call(m, [name, v], {})
                    return
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, ExtObj):
            o.setattr(self, name, v)
            return
        if isinstance(o, Func):
            self.touch(self.slot(o, 'attrs'))
            o.attrs = {**o.attrs, name: v}
            return
        if isinstance(o, Class):
            self.touch(self.slot(o, 'ns'))
            o.ns = {**o.ns, name: v}
            return
        if isinstance(o, Module):
            self.touch(o.env)
            o.env.vars[name] = v
            return
        if isinstance(o, Exc):
            o.attrs[name] = v
            return
        if isinstance(o, Opaque):
            return
        if isinstance(o, Arr) and name in ('real', 'imag', 'flat'):
            t = self.np.arr_attr(self, o, name)
            self.np.assign_view(self, t, v)
            return
        if isinstance(o, Arr) and name == 'shape':
            idx = o.idx.reshape(tuple(self.np.ints(self, v)))
            o.idx = idx
            return
        if o is None:
            self.throw(AttributeError, f"'NoneType' object has no attribute '{name}'")
        raise Limit(f'setattr on {o!r}')

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, Choice):
            return self.branch(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, Choice):
            return self.over(k, lambda x: self.getitem(o, x))
        if o is None:
            self.throw(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, Inst):
            m = self.find_method(o, '__getitem__')
            if m is not None:
                return self.call(m, [k], {})
            if o.data is not None:
                m = self.find_method(o, '__missing__')
                if m is not None and self.key(k) not in o.data.items:
                    return self.call(m, [k], {})
                return self.dict_get(o.data, k)
            self.throw(TypeError, 'object is not subscriptable')
        if isinstance(o, DDict):
            return self.dict_get(o, k)
        if isinstance(o, (V.Iter, V.Inf)):
            self.throw(TypeError, 'iterator is not subscriptable')
        if isinstance(o, LList):
            return self.seq_get(o.items, k, LList)
        if isinstance(o, tuple):
            return self.seq_get(o, k, tuple)
        if isinstance(o, str):
            i = self.idxval(k)
            if isinstance(i, (int, slice)):
                if has_ph(o):
                    toks = _phtoks(o)
                    r = toks[i]
                    return ''.join(r) if isinstance(i, slice) else r
                try:
                    return o[i]
                except IndexError:
                    self.throw(IndexError, 'string index out of range')
            raise Limit('string index')
        if isinstance(o, Arr):
            return self.np.getitem(self, o, k)
        if isinstance(o, Node):
            if k is Ellipsis or (isinstance(k, tuple) and all(x is Ellipsis or x is None for x in k)):
                return self.np.getitem(self, self.np.scal(o), k)
            self.throw(TypeError, 'scalar is not subscriptable')
        if isinstance(o, Opaque):
            return Opaque(f'{o.path}[{k!r}]')
        if isinstance(o, ExtObj):
            return o.getitem(self, k)
        if isinstance(o, range):
            i = self.idxval(k)
            return o[i]
        if isinstance(o, Ext):
            r = self.ext.ext_getitem(self, o.path, k)
            return Ext(o.path + '[]') if r is None else r[0]
        if isinstance(o, (BType, Class)):
            return o
        if isinstance(o, (int, float)):
            self.throw(TypeError, f"'{type(o).__name__}' object is not subscriptable")
        raise Limit(f'getitem on {o!r}')

    def dict_get(self, d, k):
        k = self.key(k)
        if k not in d.items:
            if isinstance(k, Node) and not T.is_const(k):
                raise Limit('symbolic dict key')
            self.throw(KeyError, k)
        v = d.items[k]
        if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
            c = v.c if v.a is UNDEF else T.bnot(v.c)
            self.throw_if(c, KeyError, k)
            v = v.b if v.a is UNDEF else v.a
        return self.resolve(v)

    def seq_get(self, items, k, typ):
        if any(x is POISON for x in items):
            raise Limit('merged list')
        i = self.idxval(k)
        if isinstance(i, slice):
            r = list(items)[i]
            return LList(r) if typ is LList else tuple(r)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            try:
                return items[i]
            except IndexError:
                self.throw(IndexError, 'index out of range')
        if isinstance(i, Node) and T.is_bool(i):
            return self.merge_val(i, items[1], items[0])
        if isinstance(i, (str, float)) or i is None:
            self.throw(TypeError, 'indices must be integers')
        raise Limit(f'sequence index {i!r}')

    def setitem(self, o, k, v, inplace=False):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, Choice):
            self.branch(o.c, lambda: self.setitem(o.a, k, v, inplace), lambda: self.setitem(o.b, k, v, inplace))
            return
        if isinstance(k, Choice):
            self.over(k, lambda x: self.setitem(o, x, v, inplace))
            return
        if isinstance(o, Inst):
            m = self.find_method(o, '__setitem__')
            if m is not None:
                self.call(m, [k, v], {})
                return
            if o.data is not None:
                self.touch(o.data)
                o.data.items[self.key(k)] = v
                return
        if isinstance(o, DDict):
            kk = self.key(k)
            self.touch(o)
            o.items[kk] = v
            return
        if isinstance(o, V.Iter):
            self.throw(TypeError, 'iterator does not support item assignment')
        if isinstance(o, LList):
            i = self.idxval(k)
            self.touch(o)
            if isinstance(i, slice):
                o.items[i] = list(self.iterate(v))
                return
            if not isinstance(i, int):
                raise Limit('list index')
            if not -len(o.items) <= i < len(o.items):
                self.throw(IndexError, 'list assignment index out of range')
            o.items[i] = v
            return
        if isinstance(o, Arr):
            v = self.resolve(v)
            if isinstance(v, Choice):
                self.over(v, lambda x: self.np.setitem(self, o, k, x, inplace))
                return
            self.np.setitem(self, o, k, v, inplace)
            return
        if isinstance(o, ExtObj):
            o.setitem(self, k, v)
            return
        if isinstance(o, Opaque):
            return
        if o is None or isinstance(o, (tuple, str, int, float)):
            self.throw(TypeError, 'object does not support item assignment')
        raise Limit(f'setitem on {o!r}')

    def delitem(self, o, k):
        o, k = self.resolve(o), self.resolve(k)
        if isinstance(o, Inst):
            m = self.find_method(o, '__delitem__')
            if m is not None:
                self.call(m, [k], {})
                return
        d = self.dict_of(o)
        if d is not None:
            kk = self.key(k)
            if kk not in d.items:
                self.throw(KeyError, kk)
            self.touch(d)
            del d.items[kk]
            return
        if isinstance(o, LList):
            self.touch(o)
            del o.items[self.idxval(k)]
            return
        raise Limit('delitem')

    # ------------------------------------------------------------ truth / iteration
    def truth(self, v):
        v = self.resolve(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, complex)):
            return bool(v)
        if isinstance(v, (str, tuple, bytes)):
            return len(v) > 0
        if isinstance(v, Node):
            if T.is_bool(v):
                return self.simp(v)
            return self.simp(T.cmp('ne', v, 0))
        if isinstance(v, LList):
            if POISON in v.items:
                raise Limit('truth of merged list')
            return len(v.items) > 0 or isinstance(v, V.Iter)
        if isinstance(v, V.Inf):
            return True
        if isinstance(v, SSet):
            return len(v.items) > 0
        if isinstance(v, DDict):
            return len(self.dict_items(v)) > 0
        if isinstance(v, Choice):
            return T.bor(T.band(v.c, self.truth(v.a)), T.band(T.bnot(v.c), self.truth(v.b)))
        if isinstance(v, Arr):
            if v.size == 1:
                return self.truth(v.item())
            if v.size == 0:
                return False
            self.throw(ValueError, 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, Inst):
            m = self.find_method(v, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            m = self.find_method(v, '__len__')
            if m is not None:
                return self.truth(self.call(m, [], {}))
            if v.data is not None:
                return len(v.data.items) > 0
            return True
        if isinstance(v, (Func, Bound, Class, Module, Ext, Exc, Builtin, BType)):
            return True
        if isinstance(v, ExtObj):
            if hasattr(v, 'truth'):
                return v.truth(self)
            return True
        if isinstance(v, range):
            return len(v) > 0
        raise Limit(f'truth of {v!r} at {self.loc()}')

    def iterate(self, v):
        v = self.resolve(v)
        if isinstance(v, LList):
            if any(x is POISON for x in v.items):
                raise Limit('iteration over merged list')
            xs = list(v.items)
            if isinstance(v, V.Iter) and xs:
                self.touch(v)
                v.items = []
            return xs
        if isinstance(v, SSet):
            return list(v.items)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return _phtoks(v)
        d = self.dict_of(v) if isinstance(v, (DDict, Inst)) else None
        if isinstance(v, Inst):
            m = self.find_method(v, '__iter__')
            if m is not None:
                return self.iterate(self.call(m, [], {}))
        if d is not None:
            return [k for k, _ in self.dict_items(v)]
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.throw(TypeError, 'iteration over a 0-d array')
            return [self.np.getitem(self, v, i) for i in range(v.shape[0])]
        if isinstance(v, ExtObj) and hasattr(v, 'iter'):
            return v.iter(self)
        if isinstance(v, Choice):
            ia = self.iterate(v.a)
            ib = self.iterate(v.b)
            if len(ia) == len(ib):
                return [self.merge_val(v.c, x, y) for x, y in zip(ia, ib)]
            raise Limit('iteration over conditional containers')
        if v is None:
            self.throw(TypeError, "'NoneType' object is not iterable")
        if isinstance(v, (int, float, Node)):
            self.throw(TypeError, 'object is not iterable')
        raise Limit(f'iteration over {v!r} at {self.loc()}')

    def isinstance_(self, v, t):
        return self.ext.isinstance_(self, v, t)


def _phtoks(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == V.L:
            j = s.index(V.R, i)
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return out


_gen_cache = {}


def _is_gen(s):
    if isinstance(s, ast.Lambda):
        return False
    r = _gen_cache.get(id(s))
    if r is None:
        r = False
        stack = list(s.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[id(s)] = r
        _keep.append(s)
    return r


_keep = []
_inner_cache = {}


def _has_inner(s):
    r = _inner_cache.get(id(s))
    if r is None:
        r = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(s) if n is not s)
        _inner_cache[id(s)] = r
        _keep.append(s)
    return r


_jump_cache = {}


def _has_jump(body):
    key = id(body)
    r = _jump_cache.get(key)
    if r is None:
        r = False
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Break, ast.Continue)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _jump_cache[key] = r
        _keep.append(body)
    return r
