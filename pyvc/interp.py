"""Symbolic interpreter for the Python subset the repository uses.

It executes the real functions' syntax trees, read from the source files of
/repo on every run.  Calls to repository functions are interpreted in turn,
unless a contract is registered for them; everything else goes to a model in
pyvc.models, or, with wholly concrete arguments, to the real library."""
import ast
import builtins
import functools
import os
import sys
import types

import z3

from .core import PathDone, PyRaise, Undecided
from .values import (SAny, SBase, SBool, SDict, SEnumerate, SInt, SList, SNum, SOpaque, SRange, SReversed, SExt, SStr, Sym, is_sym)

REPO = os.environ.get('VERIF_REPO', '/repo')

_TREES = {}


def _tree(filename):
    if filename not in _TREES:
        with open(filename) as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src)
        index = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                lines = [n.lineno] + [d.lineno for d in n.decorator_list]
                for ln in lines:
                    index.setdefault((n.name, ln), n)
            elif isinstance(n, ast.Lambda):
                index.setdefault(('<lambda>', n.lineno), n)
        _TREES[filename] = index
    return _TREES[filename]


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(REPO + '/modularcalculator')


def func_node(f):
    code = f.__code__
    node = _tree(code.co_filename).get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Undecided('no source for %s' % f.__qualname__)
    return node


def is_repo_class(c):
    m = sys.modules.get(getattr(c, '__module__', ''), None)
    return m is not None and (getattr(m, '__file__', None) or '').startswith(REPO + '/modularcalculator')


class UnknownVal(Sym):
    """Content lost at a loop cut; any use makes the unit undecided."""
    def __init__(self, why):
        self.why = why


class Frame:
    __slots__ = ('locals', 'globals', 'cells', 'parent', 'func', 'exc', 'name', 'loopdepth', 'globalnames')

    def __init__(self, globs, cells=None, parent=None, func=None, name=''):
        self.locals = {}
        self.globals = globs
        self.cells = cells or {}
        self.parent = parent
        self.func = func
        self.exc = None
        self.name = name
        self.loopdepth = 0
        self.globalnames = ()


class IFunc:
    """A function or lambda created by interpreted code."""

    def __init__(self, interp, node, frame, defaults, kwdefaults, name):
        self.interp, self.node, self.frame, self.defaults, self.kwdefaults = interp, node, frame, defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.call(self, list(a), k)


class Stub:
    """A callable given by a unit: fn(interp, *args, **kwargs)."""

    def __init__(self, fn, name='stub'):
        self.fn, self.name = fn, name
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Undecided('native call of stub %s' % self.name)


class BoundModel:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __call__(self, *a, **k):
        raise Undecided('native call of a symbolic method %s' % self.name)


class LoopSpec:
    """Invariant of a cut loop.  k is the (symbolic) number of completed iterations."""

    def init(self, it, fr):
        pass

    def havoc(self, it, fr, k):
        pass

    def step(self, it, fr, k):
        pass

    def exit(self, it, fr, n):
        self.havoc(it, fr, n)

    def may_write(self, obj):
        return False


def stored_names(nodes):
    out = set()
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    # names bound only inside nested comprehensions do not escape
    comp = set()
    other = set()

    def walk(n, incomp):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for m in ast.walk(g.target):
                    if isinstance(m, ast.Name):
                        comp.add(m.id)
                walk(g.iter, incomp)
                for c in g.ifs:
                    walk(c, True)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    walk(getattr(n, f), True)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            other.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            other.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c, incomp)
    for node in nodes:
        walk(node, False)
    return other & out


class Interp:
    def __init__(self, ctx, models=None):
        from . import models as M
        self.ctx = ctx
        ctx.interps.append(self)
        self.M = models or M
        self.contracts = {}        # function object -> handler(interp, args, kwargs)
        self.loop_specs = []       # callables (interp, node, frame, iterable) -> LoopSpec | None
        self.while_specs = []
        self.overrides = {}        # native callable -> handler
        self.skolems = []          # positions evaluated at loop exits
        self.index_skolems = []    # (bases, ranges, term): the same, only in loops over a list of one of the bases (position term)
        #                            and, with ranges, in loops over index ranges (the iteration in which the index is term)
        self.used = set()          # repo functions interpreted
        self.under_contract = set()
        self.depth = 0
        self.step_limit = 400000
        self.unroll = 64

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        if isinstance(f, SAny):
            f = f.resolve(ctx)
        if isinstance(f, Stub):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, BoundModel):
            return self.M.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, IFunc):
            return self.call_node(f.node, args, kwargs, f.frame.globals, {}, f.frame, None, f.defaults, f.kwdefaults, f.__name__)
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, (types.FunctionType,)):
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        key = f if self._hashable(f) else None
        if key is not None and key in self.overrides:
            return self.overrides[key](self, *args, **kwargs)
        if key is not None and key in self.contracts:
            h = self.contracts[key]
            r = h(self, args, kwargs)
            if r is not NotImplemented:
                self.under_contract.add(getattr(f, '__qualname__', str(f)))
                return r
        if is_repo_function(f):
            return self.call_function(f, args, kwargs)
        if isinstance(f, type) and is_repo_class(f):
            return self.construct(f, args, kwargs)
        m = self.M.lookup(f)
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(f, types.BuiltinMethodType) and not isinstance(f.__self__, types.ModuleType):
            return self.M.call_native_method(self, f, args, kwargs)
        if isinstance(f, Sym):
            raise Undecided('call of %r' % f)
        cm = getattr(type(f), '__call__', None)
        if isinstance(cm, types.FunctionType) and is_repo_function(cm):
            return self.call(cm, [f] + list(args), kwargs)
        return self.native(f, args, kwargs)

    def _hashable(self, f):
        try:
            hash(f)
            return True
        except Exception:
            return False

    def native(self, f, args, kwargs):
        if any(self.M.deep_sym(a) for a in args) or any(self.M.deep_sym(a) for a in kwargs.values()):
            raise Undecided('no model for %s with symbolic arguments' % getattr(f, '__qualname__', f))
        try:
            r = f(*args, **kwargs)
        except Exception as e:
            raise PyRaise(e)
        return r

    def construct(self, cls, args, kwargs):
        if cls in self.contracts:
            r = self.contracts[cls](self, args, kwargs)
            if r is not NotImplemented:
                return r
        try:
            obj = cls.__new__(cls, *args, **kwargs) if issubclass(cls, BaseException) else cls.__new__(cls)
        except Exception as e:
            raise PyRaise(e)
        self.ctx.alloc(obj)
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            self.call(init, [obj] + list(args), kwargs)
        elif init is not object.__init__ and not issubclass(cls, BaseException):
            self.native(init, [obj] + list(args), kwargs)
        return obj

    def call_function(self, f, args, kwargs):
        node = func_node(f)
        self.used.add('%s.%s' % (f.__module__.replace('modularcalculator.', ''), f.__qualname__))
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                cells[n] = c
        return self.call_node(node, args, kwargs, f.__globals__, cells, None, f, f.__defaults__ or (), f.__kwdefaults__ or {}, f.__qualname__)

    def call_node(self, node, args, kwargs, globs, cells, parent, func, defaults, kwdefaults, name):
        self.depth += 1
        if self.depth > 60:
            raise Undecided('interpretation depth (recursion without a contract): %s' % name)
        try:
            fr = Frame(globs, cells, parent, func, name)
            self.bind(fr, node.args, args, kwargs, defaults, kwdefaults, name)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            sig = self.block(node.body, fr)
            if sig and sig[0] == 'return':
                return sig[1]
            return None
        finally:
            self.depth -= 1

    def bind(self, fr, a, args, kwargs, defaults, kwdefaults, name):
        kwargs = dict(kwargs)
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(defaults)

        def bad(msg):
            raise PyRaise(TypeError('%s() %s' % (name, msg)))
        args = list(args)
        for i, n in enumerate(names):
            if args and i < len(args):
                if n in kwargs:
                    bad('multiple values for %s' % n)
                fr.locals[n] = args[i]
            elif n in kwargs:
                fr.locals[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                fr.locals[n] = defaults[i - (len(names) - nd)]
            else:
                bad('missing argument %s' % n)
        extra = args[len(names):]
        if a.vararg:
            fr.locals[a.vararg.arg] = tuple(extra)
        elif extra:
            bad('too many positional arguments')
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                fr.locals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                fr.locals[x.arg] = kwdefaults[x.arg]
            else:
                bad('missing keyword argument %s' % x.arg)
        if a.kwarg:
            fr.locals[a.kwarg.arg] = kwargs
        elif kwargs:
            bad('unexpected keyword arguments %s' % list(kwargs))

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            sig = self.stmt(s, fr)
            if sig:
                return sig
        return None

    def stmt(self, s, fr):
        self.ctx.steps += 1
        if self.ctx.steps > self.step_limit:
            raise Undecided('step limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s in %s' % (type(s).__name__, fr.name))
        return m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = mod
            else:
                fr.locals[a.name.split('.')[0]] = sys.modules[a.name.split('.')[0]]

    def s_ImportFrom(self, s, fr):
        import importlib
        mod = importlib.import_module(s.module)
        for a in s.names:
            fr.locals[a.asname or a.name] = getattr(mod, a.name)

    def s_Global(self, s, fr):
        fr.globalnames = tuple(fr.globalnames) + tuple(s.names)

    def s_Nonlocal(self, s, fr):
        raise Undecided('nonlocal')

    def s_Return(self, s, fr):
        return ('return', self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return ('break',)

    def s_Continue(self, s, fr):
        return ('continue',)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.assign(t, self.augop(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            old = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.augop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            idx = self.index(t.slice, fr)
            old = self.M.getitem(self, obj, idx)
            self.M.setitem(self, obj, idx, self.augop(s.op, old, self.ev(s.value, fr)))
        else:
            raise Undecided('augmented assignment target')

    def augop(self, op, old, val):
        opn = type(op).__name__
        if isinstance(old, list) and opn == 'Add':
            self.M.list_extend(self, old, val)
            return old
        if isinstance(old, SList) and opn == 'Add':
            self.M.call_method(self, old, 'extend', [val], {})
            return old
        if isinstance(old, (set,)) and opn in ('BitOr', 'Sub', 'BitAnd') and not self.M.deep_sym(val):
            self.ctx.log_write(old, 'set')
            if opn == 'BitOr':
                old |= val
            elif opn == 'Sub':
                old -= val
            else:
                old &= val
            return old
        return self.binop(opn, old, val)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.M.delitem(self, self.ev(t.value, fr), self.index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, fr)
                self.ctx.log_write(obj, t.attr)
                try:
                    delattr(obj, t.attr)
                except Exception as e:
                    raise PyRaise(e)
            else:
                raise Undecided('del target')

    def s_If(self, s, fr):
        return self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError(self.ev(s.msg, fr) if s.msg else ''))

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Undecided('decorated nested function')
        fr.locals[s.name] = self.make_func(s, fr, s.name)

    def make_func(self, node, fr, name):
        defaults = tuple(self.ev(d, fr) for d in node.args.defaults)
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        return IFunc(self, node, fr, defaults, kwd, name)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is None:
                raise PyRaise(RuntimeError('No active exception to reraise'))
            raise PyRaise(fr.exc)
        e = self.ev(s.exc, fr)
        if isinstance(e, SAny):
            e = e.resolve(self.ctx)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if isinstance(e, SOpaque) and issubclass(e.pyclass, BaseException):
            raise Undecided('raise of opaque exception')
        if not isinstance(e, BaseException):
            raise PyRaise(TypeError('exceptions must derive from BaseException'))
        raise PyRaise(e)

    def s_Try(self, s, fr):
        sig = None
        pending = None
        try:
            sig = self.block(s.body, fr)
        except PyRaise as p:
            pending = p
        if pending is not None:
            for h in s.handlers:
                if self.exc_match(pending.exc, h, fr):
                    saved = fr.exc
                    fr.exc = pending.exc
                    if h.name:
                        fr.locals[h.name] = pending.exc
                    pending2 = None
                    try:
                        sig = self.block(h.body, fr)
                    except PyRaise as p2:
                        pending2 = p2
                    if h.name:
                        fr.locals.pop(h.name, None)
                    fr.exc = saved
                    pending = pending2
                    break
        elif sig is None and s.orelse:
            try:
                sig = self.block(s.orelse, fr)
            except PyRaise as p:
                pending = p
        if s.finalbody:
            fsig = self.block(s.finalbody, fr)
            if fsig:
                return fsig
        if pending is not None:
            raise pending
        return sig

    def exc_match(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        return isinstance(exc, t)

    def s_With(self, s, fr):
        if len(s.items) != 1:
            raise Undecided('multi-item with')
        item = s.items[0]
        mgr = self.ev(item.context_expr, fr)
        v = self.call(self.getattr(mgr, '__enter__'), [])
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, fr)
        try:
            sig = self.block(s.body, fr)
        except PyRaise as p:
            r = self.call(self.getattr(mgr, '__exit__'), [type(p.exc), p.exc, None])
            if self.truth(r):
                return None
            raise
        self.call(self.getattr(mgr, '__exit__'), [None, None, None])
        return sig

    def s_While(self, s, fr):
        for spec_fn in self.while_specs:
            spec = spec_fn(self, s, fr)
            if spec is not None:
                return self.cut_while(s, fr, spec)
        n = 0
        while True:
            c = self.ev(s.test, fr)
            symbolic = isinstance(c, Sym)
            if not self.truth(c):
                return self.block(s.orelse, fr) if s.orelse else None
            n += 1
            if n > (self.unroll if symbolic else 100000):
                raise Undecided('while loop in %s needs an invariant' % fr.name)
            sig = self.block(s.body, fr)
            if sig:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'continue':
                    continue
                return sig

    def gathering(self, s, fr):
        """l = []; for x in it: [if c:] l.append(e)   is   l = [e for x in it [if c]]"""
        body, ifs = s.body, []
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            ifs.append(body[0].test)
            body = body[0].body
        if s.orelse or len(body) != 1 or not isinstance(body[0], ast.Expr):
            return None
        c = body[0].value
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name) and len(c.args) == 1 and not c.keywords):
            return None
        nm = c.func.value.id
        l = fr.locals.get(nm)
        if not (type(l) is list and not l or type(l) is SList and not l.chunks) or sum(1 for v in fr.locals.values() if v is l) != 1:
            return None
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Starred)) or isinstance(x, ast.Name) and x.id == nm for e in [s.iter, s.target, c.args[0]] + ifs for x in ast.walk(e)):
            return None
        return nm, ast.copy_location(ast.ListComp(elt=c.args[0], generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=ifs, is_async=0)]), s)

    def s_For(self, s, fr):
        g = None if getattr(self, 'keep_loops', False) else self.gathering(s, fr)
        if g is not None:
            fr.locals[g[0]] = self.M.list_comp(self, g[1], fr)
            for nm in stored_names([s.target]):
                fr.locals[nm] = UnknownVal('%s after the loop' % nm)
            return None
        it = self.ev(s.iter, fr)
        return self.for_loop(s, it, fr)

    def for_loop(self, s, it, fr):
        it = self.resolve(it)
        seq = self.M.concrete_iter(self, it)
        if seq is None:
            for spec_fn in self.loop_specs:
                spec = spec_fn(self, s, fr, it)
                if spec is not None:
                    return self.cut_for(s, fr, it, spec)
            return self.auto_for(s, fr, it)
        for x in seq:
            self.assign(s.target, x, fr)
            sig = self.block(s.body, fr)
            if sig:
                if sig[0] == 'break':
                    return None
                if sig[0] == 'continue':
                    continue
                return sig
        return self.block(s.orelse, fr) if s.orelse else None

    # ------------------------------------------------------------ loop cuts
    def _run_body(self, s, fr, log):
        """-> signal of one body execution; writes are appended to log"""
        self.ctx.write_logs.append(log)
        try:
            return self.block(s.body, fr)
        finally:
            self.ctx.write_logs.remove(log) if log in self.ctx.write_logs else None

    def _check_frame(self, log, serial, spec, extra=()):
        for obj, what in log:
            b = self.ctx.born.get(id(obj))
            if b is not None and b[1] is obj and b[0] > serial:
                continue
            if any(obj is e for e in extra):
                continue
            if spec is not None and spec.may_write(obj):
                continue
            raise Undecided('loop body writes %s.%s outside its declared frame' % (type(obj).__name__, what))

    def cut_for(self, s, fr, it, spec):
        ctx = self.ctx
        n, at = self.M.sym_iter(self, it)
        spec.init(self, fr)
        names = stored_names(s.body) | stored_names([s.target])
        if ctx.choose(2, 'loop') == 0:
            # arbitrary iteration k
            k = ctx.int('k')
            ctx.assume(z3.And(k >= 0, k < n))
            for nm in names:
                if nm in fr.locals:
                    fr.locals[nm] = UnknownVal('%s at loop head' % nm)
            spec.havoc(self, fr, k)
            self.assign(s.target, at(k), fr)
            serial = ctx.serial
            log = []
            try:
                sig = self._run_body(s, fr, log)
            except PyRaise:
                self._check_frame(log, serial, spec)
                raise
            self._check_frame(log, serial, spec)
            if sig is None or sig[0] == 'continue':
                spec.step(self, fr, k)
                raise PathDone()
            if sig[0] == 'break':
                return None
            return sig
        for nm in names:
            if nm in fr.locals:
                fr.locals[nm] = UnknownVal('%s after loop' % nm)
        spec.exit(self, fr, n)
        return self.block(s.orelse, fr) if s.orelse else None

    def cut_while(self, s, fr, spec):
        ctx = self.ctx
        spec.init(self, fr)
        names = stored_names(s.body)
        k = ctx.int('k')
        ctx.assume(k >= 0)
        for nm in names:
            if nm in fr.locals:
                fr.locals[nm] = UnknownVal('%s at loop head' % nm)
        spec.havoc(self, fr, k)
        if not self.truth(self.ev(s.test, fr)):
            if hasattr(spec, 'after'):
                spec.after(self, fr, k)
            return self.block(s.orelse, fr) if s.orelse else None
        serial = ctx.serial
        log = []
        try:
            sig = self._run_body(s, fr, log)
        except PyRaise:
            self._check_frame(log, serial, spec)
            raise
        self._check_frame(log, serial, spec)
        if sig is None or sig[0] == 'continue':
            spec.step(self, fr, k)
            raise PathDone()
        if sig[0] == 'break':
            return None
        return sig

    def positions(self, seq):
        out = list(self.skolems)
        while isinstance(seq, SEnumerate):
            seq = self.resolve(seq.it)
        for bases, ranges, term in self.index_skolems:
            if isinstance(seq, SRange):
                if ranges:
                    out.append(z3.simplify(term - seq.lo) if seq.step != -1 else z3.simplify(seq.hi - 1 - term))
            elif isinstance(seq, SList) and len(seq.chunks) == 1 and seq.chunks[0][0] == 'seg':
                if any(seq.chunks[0][1] is b for b in bases) or seq.chunks[0][1].name in bases:
                    out.append(term)
        return out

    def auto_for(self, s, fr, it):
        """Loops whose iterations carry nothing but appends to accumulator lists."""
        ctx = self.ctx
        n, at = self.M.sym_iter(self, it)
        names = stored_names(s.body) | stored_names([s.target])
        entry = dict(fr.locals)
        accs = {}          # id -> [obj]
        mode = ctx.choose(2, 'autoloop')

        def unknown_locals():
            for nm in names:
                if nm in entry:
                    fr.locals[nm] = UnknownVal('%s carried by a loop without invariant' % nm)
                else:
                    fr.locals.pop(nm, None)

        def one(k, accept_exit):
            """run the body at position k; -> (signal, {id(acc): appended value})"""
            unknown_locals()
            self.assign(s.target, at(k), fr)
            serial = ctx.serial
            log = []
            marks = []
            self.M.append_watch.append(marks)
            try:
                sig = self._run_body(s, fr, log)
            finally:
                self.M.append_watch.remove(marks)
            apps = {}
            for obj, val in marks:
                b = ctx.born.get(id(obj))
                if b is not None and b[1] is obj and b[0] > serial:
                    continue
                apps.setdefault(id(obj), (obj, []))[1].append(val)
            rest = [(o, w) for (o, w) in log if not (w == 'append' and id(o) in apps)]
            self._check_frame(rest, serial, None)
            return sig, apps

        lists = [(nm, v) for nm, v in entry.items() if type(v) in (list, SList) and nm not in names]
        heads = {id(v): (v, list(v) if isinstance(v, list) else list(v.chunks)) for nm, v in lists}

        def set_acc(obj, head, tail_n, values):
            base = SBase('acc', tail_n, None)
            base.mk = lambda c, i: UnknownVal('element of a loop accumulator at an index that was not evaluated')
            base.memo = list(values)
            base.mk_alias = False
            return base

        # which lists does the body append to?  (syntactic over-approximation)
        appended = set()
        for nd in s.body:
            for x in ast.walk(nd):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and isinstance(x.func.value, ast.Name):
                    nm = x.func.value.id
                    if nm in entry and type(entry[nm]) in (list, SList) and nm not in names:
                        appended.add(nm)
        for nm in appended:
            if type(entry[nm]) is list:
                fr.locals[nm] = SList([('el', v) for v in entry[nm]])
                # the list object itself is replaced: no alias of it may exist
                ctx.alloc(fr.locals[nm])
        serial_loop = ctx.serial

        if mode == 0:
            k = ctx.int('k')
            ctx.assume(z3.And(k >= 0, k < n))
            for nm in appended:
                l = fr.locals[nm]
                base = SBase('acc', k, lambda c, i: UnknownVal('earlier element of an accumulator'))
                base.mk_alias = False
                l.chunks.append(('seg', base, z3.IntVal(0), k))
            sig, apps = one(k, True)
            if sig is None or sig[0] == 'continue':
                for nm in appended:
                    l = fr.locals[nm]
                    got = apps.get(id(l), (None, []))[1]
                    if len(got) != 1:
                        raise Undecided('accumulator %s gets %d appends in an iteration' % (nm, len(got)))
                raise PathDone()
            if sig[0] == 'break':
                if appended:
                    raise Undecided('break out of an accumulating loop')
                return None
            return sig
        # loop ran to completion: evaluate the body at the registered positions
        tails = {nm: [] for nm in appended}
        for p in self.positions(it):
            if ctx.branch(z3.And(p >= 0, p < n)):
                try:
                    sig, apps = one(p, False)
                except PyRaise:
                    raise PathDone()
                if sig is not None and sig[0] != 'continue':
                    raise PathDone()
                for nm in appended:
                    got = apps.get(id(fr.locals[nm]), (None, []))[1]
                    if len(got) != 1:
                        raise Undecided('accumulator %s gets %d appends in an iteration' % (nm, len(got)))
                    fr.locals[nm].chunks.pop()
                    tails[nm].append((p, got[0]))
        for nm in appended:
            base = SBase('acc', n, lambda c, i: UnknownVal('element of an accumulator at an index that was not evaluated'))
            base.memo = tails[nm]
            base.mk_alias = False
            fr.locals[nm].chunks.append(('seg', base, z3.IntVal(0), n))
        unknown_locals()
        return self.block(s.orelse, fr) if s.orelse else None

    # ------------------------------------------------------------ targets
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globalnames:
                raise Undecided('assignment to global %s' % t.id)
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            vals = self.M.unpack(self, v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
            else:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            self.M.setitem(self, obj, self.index(t.slice, fr), v)
        else:
            raise Undecided('assignment target %s' % type(t).__name__)

    def index(self, node, fr):
        if isinstance(node, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (node.lower, node.upper, node.step)])
        return self.ev(node, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s in %s' % (type(e).__name__, fr.name))
        return m(e, fr)

    def resolve(self, v):
        if isinstance(v, SAny):
            return v.resolve(self.ctx)
        if isinstance(v, UnknownVal):
            raise Undecided('use of %s' % v.why)
        return v

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        n = e.id
        f = fr
        while f is not None:
            if n in f.locals:
                v = f.locals[n]
                return v
            if n in f.cells:
                try:
                    return f.cells[n].cell_contents
                except ValueError:
                    raise PyRaise(NameError(n))
            f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise(NameError("name '%s' is not defined" % n))

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, obj, name):
        obj = self.resolve(obj)
        if isinstance(obj, Sym):
            return self.M.getattr_sym(self, obj, name)
        static = None
        for k in type(obj).__mro__:
            if name in k.__dict__:
                static = k.__dict__[name]
                break
        if isinstance(static, property) and is_repo_function(static.fget):
            return self.call(static.fget, [obj])
        if (static is None or not hasattr(type(static), '__set__')) and not isinstance(obj, type) and name not in getattr(obj, '__dict__', {}):
            ga = getattr(type(obj), '__getattr__', None)
            if static is None and isinstance(ga, types.FunctionType) and is_repo_function(ga):
                return self.call(ga, [obj, name])
        try:
            return getattr(obj, name)
        except Exception as ex:
            raise PyRaise(ex)

    def setattr(self, obj, name, v):
        obj = self.resolve(obj)
        if isinstance(obj, Sym):
            return self.M.setattr_sym(self, obj, name, v)
        try:
            setattr(obj, name, v)
        except Exception as ex:
            raise PyRaise(ex)
        self.ctx.log_write(obj, name)

    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.zero_super(fr)
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.M.as_list(self, self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kwargs)

    def zero_super(self, fr):
        f = fr
        while f is not None and '__class__' not in f.cells:
            f = f.parent
        if f is None:
            raise Undecided('super() without __class__ cell')
        cls = f.cells['__class__'].cell_contents
        node = func_node(f.func)
        first = f.locals[node.args.args[0].arg]
        return super(cls, first)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
              'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}

    def repo_dunder(self, obj, name):
        if isinstance(obj, Sym):
            return None
        m = getattr(type(obj), name, None)
        if isinstance(m, types.FunctionType) and is_repo_function(m):
            return m
        return None

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        d = self.DUNDER.get(op)
        if d is None:
            raise Undecided('operator %s' % op)
        m = self.repo_dunder(a, '__%s__' % d)
        if m is not None:
            r = self.call(m, [a, b])
            if r is not NotImplemented:
                return r
        m = self.repo_dunder(b, '__r%s__' % d)
        if m is not None:
            r = self.call(m, [b, a])
            if r is not NotImplemented:
                return r
        return self.M.binop(self, op, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth_val(v)
            return SBool(z3.Not(t)) if z3.is_expr(t) else (not t)
        v = self.resolve(v)
        m = self.repo_dunder(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
        if m is not None:
            return self.call(m, [v])
        return self.M.unop(self, op, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, rn) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(rn, fr)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            a, b = self.resolve(a), self.resolve(b)
            r = a is b
            if isinstance(a, SBool) or isinstance(b, SBool):
                if isinstance(a, bool) or isinstance(b, bool):
                    raise Undecided('identity with a symbolic bool')
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.M.contains(self, self.resolve(b), a)
            if op == 'NotIn':
                return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
            return r
        a, b = self.resolve(a), self.resolve(b)
        name = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        swap = {'__eq__': '__eq__', '__ne__': '__ne__', '__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}
        m = self.repo_dunder(a, name)
        if m is not None:
            r = self.call(m, [a, b])
            if r is not NotImplemented:
                return r
        m = self.repo_dunder(b, swap[name])
        if m is not None:
            r = self.call(m, [b, a])
            if r is not NotImplemented:
                return r
        if op == 'NotEq' and (self.repo_dunder(a, '__eq__') is not None):
            r = self.compare('Eq', a, b)
            return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
        return self.M.compare(self, op, a, b)

    def truth_val(self, v):
        """-> Python bool or z3 Bool"""
        v = self.resolve(v)
        if isinstance(v, Sym):
            return self.M.truth_sym(self, v)
        m = self.repo_dunder(v, '__bool__') or self.repo_dunder(v, '__len__')
        if m is not None:
            r = self.call(m, [v])
            return self.truth_val(r)
        try:
            return bool(v)
        except Exception as ex:
            raise PyRaise(ex)

    def truth(self, v):
        t = self.truth_val(v)
        return t if isinstance(t, bool) else self.ctx.branch(t)

    def e_Subscript(self, e, fr):
        obj = self.ev(e.value, fr)
        return self.M.getitem(self, obj, self.index(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return self.ctx.alloc(self.seq(e.elts, fr))

    def e_Set(self, e, fr):
        vals = self.seq(e.elts, fr)
        if any(self.M.deep_sym(v) for v in vals):
            return self.M.sym_set(self, vals)
        return self.ctx.alloc(set(vals))

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.M.as_list(self, self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        hook = getattr(self, 'dict_hook', None)
        if hook is not None and not e.keys:
            r = hook(self)
            if r is not None:
                return r
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, (SDict, SExt)) and len(e.keys) == 1:
                    return self.M.b_dict(self, src)
                if isinstance(src, Sym):
                    raise Undecided('dict unpacking of symbolic dict')
                out.update(src)
            else:
                kk = self.ev(k, fr)
                if isinstance(kk, Sym):
                    raise Undecided('dict literal with symbolic key')
                out[kk] = self.ev(v, fr)
        return self.ctx.alloc(out)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, '<lambda>')

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, fr)
                parts.append(self.M.to_str(self, v) if x.format_spec is None and x.conversion in (-1, 115) else self.M.opaque_str(self))
        return self.M.concat_str(self, parts)

    def e_Starred(self, e, fr):
        raise Undecided('starred expression')

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.M.list_comp(self, e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.M.list_comp(self, e, fr)

    def e_SetComp(self, e, fr):
        r = self.M.list_comp(self, e, fr)
        if isinstance(r, SList) or any(self.M.deep_sym(v) for v in r):
            return self.M.sym_set(self, r)
        return self.ctx.alloc(set(r))

    def e_DictComp(self, e, fr):
        pairs = self.M.list_comp(self, ast.copy_location(ast.ListComp(elt=ast.Tuple([e.key, e.value], ast.Load()), generators=e.generators), e), fr)
        if isinstance(pairs, SList):
            raise Undecided('dict comprehension over a symbolic sequence')
        out = {}
        for k, v in pairs:
            if isinstance(k, Sym):
                raise Undecided('dict comprehension with symbolic key')
            out[k] = v
        return self.ctx.alloc(out)
