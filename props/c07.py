"""C07: user-defined functions: parameters and isolation."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc.interp import stored_names
from modularcalculator.engine import Engine
from modularcalculator.features.structure import inlinefunctions, externalfunctions, functionpointers
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.features.structure.functionpointers import FunctionPointerItem
from modularcalculator.objects import items as items_mod
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.operators import Operation
from modularcalculator.objects.exceptions import (CalculatorException, ExecuteException, CalculatingException, ExecutionException, ParsingException)

ASSUMPTIONS = ['execute() and calculate() are used by contract: they may change or replace the variable table in any way, and return or raise any exception',
               'parameters are named PARAM followed by their number; no other name is written by the call itself']

Inline = inlinefunctions.InlineFunctionsPointerHandler
External = externalfunctions.ExternalFunctionsPointerHandler


class VarTable(SExt):
    """a variable table: base content plus PARAM1..PARAMk holding the arguments of this call, or unknown content (dirty)"""
    pyclass = dict

    def __init__(self, env, base, k=None, dirty=False):
        self.env, self.base, self.k, self.dirty = env, base, k if k is not None else z3.IntVal(0), dirty

    def sx(self, it, op, *args):
        ctx = it.ctx
        if op == 'call' and args[0] == 'copy':
            return ctx.alloc(VarTable(self.env, self.base, self.k, self.dirty))
        if op == 'call' and args[0] == 'clear':
            ctx.log_write(self, 'item')
            self.base, self.k, self.dirty = 'empty', z3.IntVal(0), False
            return None
        if op == 'setitem':
            key, v = args
            t = self.param_number(key)
            if t is not None and isinstance(v, tuple) and len(v) == 2 and ctx.entails(t == self.k + 1) and self.env.is_arg(it, v, self.k):
                self.k = z3.simplify(self.k + 1)
            else:
                self.dirty = True
            return None
        if op in ('delitem',):
            self.dirty = True
            return None
        return NotImplemented

    def param_number(self, key):
        if isinstance(key, str):
            return z3.IntVal(int(key[5:])) if key.startswith('PARAM') and key[5:].isdigit() else None
        if isinstance(key, SConcat) and len(key.parts) == 2 and key.parts[0] == 'PARAM':
            src = getattr(key.parts[1], 'src', None)
            if isinstance(src, SInt):
                return src.t
        return None

    def same(self, it, base, k):
        return (not self.dirty) and self.base == base and it.ctx.entails(self.k == k)


class Env:
    """the arguments of one call, n of them"""

    def __init__(self, ctx):
        self.n = ctx.int('nargs')
        ctx.assume(self.n >= 0)
        self.vb = SBase('vals', self.n, lambda c, i: SOpaque('val'))
        self.ub = SBase('units', self.n, lambda c, i: SOpaque('unit'))
        self.vb.mk_alias = self.ub.mk_alias = False
        self.vals, self.units, self.refs = SList.of(self.vb), SList.of(self.ub), SList.of(SBase('refs', self.n, lambda c, i: None))
        ctx.inputs['number of arguments'] = self.n

    def is_arg(self, it, v, k):
        return it.ctx.entails(k < self.n) and v[0] is self.vb.get(it.ctx, k) and v[1] is self.ub.get(it.ctx, k)


class ParamLoop(LoopSpec):
    """invariant: PARAM1..PARAMk are set and nothing else has changed"""

    def __init__(self, calc, base):
        self.calc, self.base = calc, base

    def table(self, it):
        t = self.calc.vars
        if not isinstance(t, VarTable):
            raise Undecided('variable table is %r' % (t,))
        return t

    def init(self, it, fr):
        it.ctx.prove('parameters:before-the-loop', self.table(it).same(it, self.base, z3.IntVal(0)))

    def havoc(self, it, fr, k):
        self.table(it).k = k

    def step(self, it, fr, k):
        it.ctx.prove('parameters:PARAMi-is-argument-i', self.table(it).same(it, self.base, k + 1))

    def may_write(self, obj):
        return isinstance(obj, VarTable)


class Run:
    """contract of execute/calculate for the body, with the ghost state of the call"""

    def __init__(self, env, calc, base):
        self.env, self.calc, self.base = env, calc, base
        self.first = True

    def body(self, it):
        ctx = it.ctx
        t = self.calc.vars
        if self.first:
            ctx.prove('the-body-starts-with-exactly-its-arguments', isinstance(t, VarTable) and t.same(it, self.base, self.env.n))
        self.first = False
        k = ctx.choose(3, 'effect')
        if k == 1 and isinstance(t, VarTable):
            t.dirty = True
        elif k == 2:
            self.calc.vars = VarTable(self.env, 'other', dirty=True)
        e = [None, ExecuteException('x', [], None), CalculatorException('y'), ValueError('internal'), RecursionError('deep')][ctx.choose(5, 'how')]
        if e is not None:
            raise PyRaise(e)


class BodyLoop(LoopSpec):
    """invariant: the collected items (statement_items) are those since the last terminator; val is the result of the last statement executed, if any"""

    def __init__(self, run, base):
        self.run, self.base = run, base

    def init(self, it, fr):
        lists = [nm for nm, v in fr.locals.items() if isinstance(v, list) and not v or isinstance(v, SList) and not v.chunks]
        vals = [nm for nm, v in fr.locals.items() if v is None and nm in self.names]
        if len(lists) != 1 or len(vals) != 1:
            raise Undecided('the body is not walked with one list of items and one result')
        self.lst, self.val = lists[0], vals[0]

    def havoc(self, it, fr, k):
        ctx = it.ctx
        s = ctx.int('stmt_start')
        ctx.assume(z3.And(s >= 0, s <= k))
        fr.locals[self.lst] = ctx.alloc(SList([('seg', self.base, s, k)]))
        self.s = s
        if ctx.choose(2, 'executed before') == 1:
            self.run.first = False
            t = self.run.calc.vars
            if isinstance(t, VarTable):
                t.dirty = True
            fr.locals[self.val] = last_val(ctx, self.run, False)
        else:
            fr.locals[self.val] = None
            self.run.last = None

    def step(self, it, fr, k):
        ctx = it.ctx
        l = fr.locals[self.lst]
        if isinstance(l, list):
            l = SList([('el', x) for x in l])
        item = self.base.get(ctx, k)
        if ctx.branch(item.is_term.t):
            ctx.prove('body:statement-ends-at-a-terminator', l.length() == 0)
        else:
            ctx.prove('body:item-joins-its-statement', seg_is(it, l, self.base, self.s, k + 1))
        v = fr.locals[self.val]
        ctx.prove('body:result-of-the-last-statement', v is getattr(self.run, 'last', None))
        ctx.prove('body:a-failing-statement-ends-it', v is None or not isinstance(v.value, Exception) or not ctx.entails(item.is_term.t))

    def may_write(self, obj):
        return isinstance(obj, (SList, VarTable)) or obj is self.run.calc


def seg_is(it, l, base, lo, hi):
    """l is exactly base[lo:hi]"""
    if not isinstance(l, SList):
        return False
    pos = lo
    for c in l.chunks:
        if c[0] == 'seg':
            if c[1] is not base or not it.ctx.entails(c[2] == pos):
                if it.ctx.entails(c[2] == c[3]):
                    continue
                return False
            pos = c[3]
        else:
            if c[1] is not base.get(it.ctx, pos):
                return False
            pos = z3.simplify(pos + 1)
    return it.ctx.entails(pos == hi)


def last_val(ctx, run, may_fail=True):
    k = ctx.choose(2, 'val') if may_fail else 0
    v = OperandResult([SOpaque('body value'), ExecuteException('as value', [], None)][k], SOpaque('body unit'), None)
    run.last = v
    return v


def u_inline(ctx):
    it = Interp(ctx)
    env = Env(ctx)
    pre = VarTable(env, 'pre')
    ctx.alloc(pre)
    calc = mk_calc(ctx, vars=pre)
    rn = Run(env, calc, 'pre')
    rn.last = None
    n = ctx.int('nitems')
    ctx.assume(n >= 0)

    def mkitem(c, i):
        o = SOpaque('item')
        o.is_term = SBool(c.bool('is_terminator'))

        def desc(it_):
            return 'terminator' if it_.truth(o.is_term) else 'number'
        o.attrs = {'desc': Stub(desc, 'desc'), 'functional': Stub(lambda it_: SBool(z3.Not(o.is_term.t)))}
        return o
    base = SBase('body', n, mkitem)
    base.mk_alias = False
    ref = inlinefunctions.InlineFunctionItem.__new__(inlinefunctions.InlineFunctionItem)
    ref.items = SList.of(base)
    ref.text = '{...}'

    def execute(it_, args, kw):
        stmt = args[1]
        l = stmt if isinstance(stmt, SList) else SList([('el', x) for x in stmt])
        segs = [c for c in l.chunks]
        ctx.prove('body:executes-items-of-the-body', all((c[0] == 'seg' and c[1] is base) or c[0] == 'el' for c in segs))
        rn.last = None
        rn.body(it_)
        return last_val(ctx, rn)
    it.contracts[Engine.execute] = execute
    it.contracts[items_mod.functional_items] = lambda it_, args, kw: functional(it_, args[0])

    def functional(it_, l):
        m = ctx.int('nfunctional')
        ctx.assume(m >= 0)
        return SList.of(SBase('functional', m, lambda c, i: SOpaque('item')))

    def loops(it_, node, fr, seq):
        nn, _ = M.sym_iter(it_, seq)
        if isinstance(it_.resolve(seq), SList) and it_.resolve(seq).chunks and it_.resolve(seq).chunks[0][1] is base:
            b = BodyLoop(rn, base)
            b.names = stored_names(node.body)
            return b
        if ctx.entails(nn == env.n):
            return ParamLoop(calc, 'pre')
        return None
    it.loop_specs.append(loops)
    st, r = run(it, Inline.do_function, ref, calc, env.vals, env.units, env.refs, {})
    t = calc.vars
    ctx.prove('the-caller\'s-variables-are-restored', isinstance(t, VarTable) and t.same(it, 'pre', z3.IntVal(0)))
    if st == 'ok':
        last = getattr(rn, 'last', None)
        ctx.prove('result-is-that-of-the-last-statement', last is not None and r.value is last.value and r.unit is last.unit and not isinstance(r.value, Exception))
    ctx.cover('end-' + st)


def u_external(ctx):
    it = Interp(ctx)
    env = Env(ctx)
    pre = VarTable(env, 'pre')
    ctx.alloc(pre)
    calc = mk_calc(ctx, vars=pre)
    rn = Run(env, calc, 'empty')
    it.dict_hook = lambda it_: ctx.alloc(VarTable(env, 'empty'))
    content = SStr(ctx.string('content'))
    last = SOpaque('last', attrs={'value': SOpaque('v'), 'unit': SOpaque('u')})
    resp = SOpaque('response', attrs={'results': SOpaque('results')})

    def calculate(it_, args, kw):
        ctx.prove('runs-the-file', args[1] is content)
        ctx.prove('runs-it-fully', len(args) < 3 or not (args[2] or {}).get('parse_only'))
        rn.body(it_)
        return resp
    it.contracts[Engine.calculate] = calculate
    it.contracts[externalfunctions.get_last_result] = lambda it_, args, kw: (ctx.prove('last-result-of-the-file', args[0] is resp.attrs['results']), last)[1]

    def loops(it_, node, fr, seq):
        nn, _ = M.sym_iter(it_, seq)
        if ctx.entails(nn == env.n):
            return ParamLoop(calc, 'empty')
        return None
    it.loop_specs.append(loops)
    st, r = run(it, External.do_function, content, calc, env.vals, env.units, env.refs, {})
    t = calc.vars
    ctx.prove('the-caller\'s-variables-are-restored', isinstance(t, VarTable) and t.same(it, 'pre', z3.IntVal(0)))
    if st == 'ok':
        ctx.prove('result', r.value is last.attrs['value'] and r.unit is last.attrs['unit'])
    ctx.cover('end-' + st)


def u_handle(ctx):
    """the operation built for an inline function passes its arguments on untouched"""
    it = Interp(ctx)
    ref = inlinefunctions.InlineFunctionItem.__new__(inlinefunctions.InlineFunctionItem)
    st, f = run(it, Inline.handle, mk_calc(ctx), ref)
    ctx.prove('no-error', st == 'ok')
    if st != 'ok':
        return
    ctx.prove('runs-this-function', f.ref.func is Inline.do_function and f.ref.args == (ref,))
    ctx.prove('arguments-untouched', f.auto_convert_numerical_inputs is False and f.auto_convert_numerical_result is False and f.units_normalise is False)
    ctx.prove('any-number-and-type-of-arguments', f.minparams is None and f.maxparams is None and not f.value_restrictions and not f.unit_restrictions)
    ctx.prove('handled', it.call(Inline.should_handle, [ref]) is True and it.call(Inline.should_handle, ['path']) is False)
    ctx.cover('end')


class ArgLoop(LoopSpec):
    """invariant: inputs are the results of the first k arguments, in order"""

    def __init__(self, env):
        self.e = env

    def lists(self, fr):
        return [nm for nm, v in fr.locals.items() if v is self.e.inputs]

    def init(self, it, fr):
        for nm, v in fr.locals.items():
            if type(v) is list and not v and nm != 'results':
                self.name = nm
        self.head = fr.locals.get(getattr(self, 'name', None))
        # counters of the items do not go below where they start
        self.low = {nm: M.to_int(v) for nm, v in fr.locals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}

    def havoc(self, it, fr, k):
        l = it.ctx.alloc(SList([('seg', self.e.results, z3.IntVal(0), k)]))
        fr.locals[self.name] = l
        for nm in list(fr.locals):
            if type(fr.locals[nm]).__name__ == 'UnknownVal':
                fr.locals[nm] = SInt(it.ctx.int(nm))
                if nm in self.low:
                    it.ctx.assume(fr.locals[nm].t >= self.low[nm])
        self.e.cur = k

    def step(self, it, fr, k):
        for nm, v in self.low.items():
            if isinstance(fr.locals.get(nm), (int, SInt)):
                it.ctx.prove('arguments:%s-does-not-go-back' % nm, M.to_int(fr.locals[nm]) >= v)
        it.ctx.prove('arguments:one-result-each-in-order', seg_is(it, fr.locals[self.name], self.e.results, z3.IntVal(0), k + 1))

    def may_write(self, obj):
        return isinstance(obj, (FunctionPointerItem, SList)) or isinstance(obj, list) or isinstance(obj, Exception)


def u_pointer(ctx):
    """@name(args): the function stored in the variable is called once with the results of the arguments"""
    it = Interp(ctx)

    class E:
        pass
    e = E()
    n = ctx.int('nargs')
    ctx.assume(n >= 0)

    def some(c, what):
        m = c.int(what)
        c.assume(m >= 0)
        return m
    e.args = SBase('args', n, lambda c, i: SList.of(SBase('arg', some(c, 'len'), lambda c2, j: SOpaque('item'))))
    e.results = SBase('argresults', n, lambda c, i: OperandResult(SOpaque('argvalue'), None, None))
    e.args.mk_alias = e.results.mk_alias = False
    e.inputs = None
    name = sym_name(ctx, 'name')
    fref = SOpaque('function ref', pyclass=str)
    vs = SDict('vars', lambda c, k: (fref, None))
    calls = []
    f = FunctionDefinition.__new__(FunctionDefinition)

    def fcall(it_, calc_, inputs, flags):
        calls.append(inputs)
        if ctx.choose(2, 'fails') == 1:
            raise PyRaise([ExecuteException('x', [], None), CalculatorException('y')][ctx.choose(2, 'kind')])
        return OperandResult(SOpaque('result'), None, None)
    f.call = Stub(fcall, 'call')
    hk = ctx.choose(3, 'handler')
    handlers = [SOpaque('no', attrs={'should_handle': Stub(lambda it_, r: False), 'handle': Stub(lambda it_, c, r: ctx.fail('wrong-handler', 'x'))}),
                SOpaque('yes', attrs={'should_handle': Stub(lambda it_, r: r is fref), 'handle': Stub(lambda it_, c, r: f)})]
    handlers = [handlers, handlers[::-1], handlers[:1]][hk]
    calc = mk_calc(ctx, vars=vs, function_pointer_handlers=handlers)
    pre = snapshot(vs)
    p = FunctionPointerItem.__new__(FunctionPointerItem)
    p.text, p.truncated, p.unit, p.calculator, p.name = '@f(...)', False, None, calc, name
    p.items = SList.of(SBase('items', some(ctx, 'nitems'), lambda c, i: SOpaque('item', attrs={'text': SStr(c.string('t'))})))
    p.args = SList.of(e.args)

    def execute(it_, args, kw):
        ctx.prove('argument-evaluated-in-turn', args[1] is e.args.get(ctx, e.cur))
        k = ctx.choose(3, 'arg')
        if k == 1:
            raise PyRaise(ExecuteException('arg', [], None))
        r = e.results.get(ctx, e.cur)
        if k == 2:
            r.value = ExecuteException('arg value', [], None)
        return r
    it.contracts[Engine.execute] = execute
    it.contracts[ExecuteException.truncate] = lambda it_, args, kw: SStr(ctx.string('truncated'))
    e.cur = None

    def loops(it_, node, fr, seq):
        nn, _ = M.sym_iter(it_, seq)
        return ArgLoop(e) if ctx.entails(nn == n) else None
    it.loop_specs.append(loops)
    st, r = run(it, FunctionPointerItem.value, p, {})
    p0, v0 = M.dict_lookup(it, pre, name)
    ctx.prove('table-untouched', calc.vars is vs and not vs.updates)
    if st == 'ok':
        ctx.prove('called-once', p0 and len(calls) == 1)
        if calls:
            ctx.prove('called-with-its-arguments', seg_is(it, calls[0], e.results, z3.IntVal(0), n))
        ctx.prove('handled', hk != 2)
        ctx.cover('end')
        return
    ctx.prove('at-most-one-call', len(calls) <= 1)
    ctx.prove('calculator-error', isinstance(r, CalculatorException), repr(r))
    ctx.cover('error')


def u_frame(ctx):
    from props.c06 import WRITERS
    prove_writers(ctx, 'vars', WRITERS, 'variable table written only under contract')
    ctx.cover('end')


UNITS = [('inline do_function', u_inline), ('external do_function', u_external), ('inline handle', u_handle), ('FunctionPointerItem.value', u_pointer),
         ('assigns clause', u_frame)]


# ---------------------------------------------------------------- concrete oracle
# Programs that define and call functions, against an evaluator of their meaning written down here: parameters bound per call,
# inline functions running on a copy of the caller's table, external ones on a table of their own, arrays passed element by element.
import os
import shutil
import tempfile
from fractions import Fraction
from pyvc.concrete import calc, shown, table, to_py
from modularcalculator.objects.exceptions import CalculateException
from modularcalculator.objects.operators import OperationResult
from modularcalculator.objects.number import Number

SEARCH_SECONDS = (30, 240)


class Err(Exception):
    pass


class Unknown(Exception):
    """the evaluator has no opinion"""


ERR = 'ERR'


class Fn:
    def __init__(self, kind, body, text):
        self.kind, self.body, self.text = kind, body, text


def has_err(v):
    return v is ERR or (isinstance(v, list) and any(has_err(x) for x in v))


def lift(f, args, depth=0):
    lens = {len(a) for a in args if isinstance(a, list)}
    if not lens:
        return f(*args)
    if len(lens) > 1:
        raise Err('lengths')
    out = []
    for i in range(lens.pop()):
        try:
            out.append(lift(f, [a[i] if isinstance(a, list) else a for a in args], depth + 1))
        except Err:
            out.append(ERR)
    return out


def arith(op, a, b):
    for v in (a, b):
        if v is ERR:
            raise Unknown()
        if not isinstance(v, Fraction):
            raise Err('type')
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if b == 0:
        raise Err('zero')
    return a / b


def ev(e, tab):
    k = e[0]
    if k == 'num':
        return Fraction(e[1])
    if k == 'list':
        return [ev(x, tab) for x in e[1:]]
    if k == 'var':
        return tab.get(e[1])
    if k == 'fail':
        raise Err('fail')
    if k == 'raw':
        raise Unknown()
    if k == 'bin':
        a, b = operand(e[2], tab), operand(e[3], tab)
        if isinstance(a, Err) or isinstance(b, Err):
            if isinstance(a, list) or isinstance(b, list):
                raise Unknown()
            raise Err('operand')
        if has_err(a) or has_err(b):
            raise Unknown()
        return lift(lambda x, y: arith(e[1], x, y), [a, b])
    if k == 'call':
        args = [ev(a, tab) for a in e[2:]]
        if has_err(args):
            raise Unknown()
        f = tab.get(e[1])
        fs = f if isinstance(f, list) else [f]
        if not all(isinstance(g, Fn) for g in fs):
            raise Err('not a function')
        res = [lift(lambda *a, g=g: invoke(g, a, tab), args) for g in fs]
        return res if isinstance(f, list) else res[0]
    raise AssertionError(k)


def operand(e, tab):
    try:
        return ev(e, tab)
    except Err as err:
        return err


DEPTH = [0]


def invoke(f, args, tab):
    t = dict(tab) if f.kind == 'inline' else {}
    for i, a in enumerate(args):
        t['PARAM%d' % (i + 1)] = a
    DEPTH[0] += 1
    if DEPTH[0] > 12:
        DEPTH[0] = 0
        raise Unknown()
    try:
        r = None
        for s in f.body:
            r = stmt(s, t)
        return r
    finally:
        DEPTH[0] -= 1


def stmt(s, tab):
    if s[0] == 'set':
        tab[s[1]] = ev(s[2], tab)
        return tab[s[1]]
    if s[0] == 'add':
        if tab.get(s[1]) is None:
            raise Err('unset')
        v = ev(s[2], tab)
        if has_err(v) or has_err(tab[s[1]]):
            raise Unknown()
        if isinstance(v, Fn) or v is None:
            raise Err('type')
        tab[s[1]] = lift(lambda x, y: arith('+', x, y), [tab[s[1]], v])
        return tab[s[1]]
    if s[0] == 'ifset':
        if s[1] not in tab:
            tab[s[1]] = ev(s[2], tab)
        else:
            v = ev(s[2], tab)
        return tab[s[1]]
    return ev(s, tab)


def text(e):
    k = e[0]
    if k == 'num':
        return str(e[1])
    if k == 'list':
        return '[%s]' % ', '.join(text(x) for x in e[1:])
    if k in ('var', 'fail', 'raw'):
        return e[1]
    if k == 'bin':
        return '(%s %s %s)' % (text(e[2]), e[1], text(e[3]))
    if k == 'call':
        return '@%s(%s)' % (e[1], ', '.join(text(a) for a in e[2:]))
    return '%s %s %s' % (e[1], {'set': '=', 'add': '+=', 'ifset': '||='}[k], text(e[2]))


def pyval(v):
    """a value of the calculator -> the evaluator's"""
    if isinstance(v, list):
        return [pyval(x.value) for x in v]
    if isinstance(v, Exception):
        return ERR
    return Fraction(int(v.num), int(v.den)) if is_number(v) else v


def same_val(got, want):
    if isinstance(want, Fn):
        return True
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same_val(a, b) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


class Broken(BaseException):
    pass


BOOM = {'boom_value': ValueError, 'boom_key': KeyError, 'boom_deep': RecursionError, 'boom_calc': CalculatorException, 'boom_exec': None, 'boom_mem': MemoryError,
        'boom_attr': AttributeError, 'boom_assert': AssertionError}


def add_booms(c):
    for name, exc in BOOM.items():
        def f(calculator, vals, units, refs, flags, exc=exc):
            raise ExecuteException('boom', [], None) if exc is None else exc('boom')
        c.funcs[name] = FunctionDefinition('Test', name, 'fails', [], f)
        c.funcs[name].auto_convert_numerical_inputs = False


FAILS = ['1 / 0', 'undefinedvar + 1', '(1 m + 1 s)', 'factorial(-1)', "@nosuch(1)", "element([1, 2], 9)"    , "'a' * 2"] + ['%s(1)' % b for b in BOOM]


def setup(prog, d):
    c = calc(fresh=True)
    add_booms(c)
    tab = {}
    for s in prog['vars']:
        c.calculate(text(s))
        stmt(s, tab)
    for name, kind, body in prog['functions']:
        lines = '\n'.join(text(s) for s in body)
        f = Fn(kind, body, lines)
        if kind == 'inline':
            c.calculate('%s = {%s}' % (name, lines))
        else:
            p = os.path.join(d, name)
            with open(p, 'w') as fh:
                fh.write(lines)
            c.calculate("%s = '%s'" % (name, p))
        tab[name] = f
    return c, tab


def k_program(prog):
    """defines functions, then evaluates each call: right result, and nothing else in the table changed"""
    d = tempfile.mkdtemp(prefix='c07')
    try:
        c, tab = setup(prog, d)
        for s in prog['calls']:
            for again in (1, 2):
                before, ids = table(c), {k: id(v[0]) for k, v in c.vars.items()}
                t2 = dict(tab)
                DEPTH[0] = 0
                try:
                    want = stmt(s, t2)
                except Err:
                    want = Err
                except Unknown:
                    want = Unknown
                src = text(s)
                try:
                    r = c.calculate(src)
                    got = pyval(r.results[-1].value)
                except CalculatorException:
                    got = Err
                after = table(c)
                target = s[1] if s[0] in ('set', 'add') else None
                for k in sorted(set(before) | set(after)):
                    if k != target and (before.get(k) != after.get(k) or id(c.vars[k][0]) != ids[k]):
                        return '%s changed %s from %s to %s' % (src, k, before.get(k), after.get(k))
                if want is Unknown:
                    if target is not None:
                        return None
                    break
                if (want is Err) != (got is Err):
                    return '%s gives %s, expected %s (functions %s)' % (src, 'an error' if got is Err else got, 'an error' if want is Err else want,
                                                                       [(n, k, [text(x) for x in b]) for n, k, b in prog['functions']])
                if got is not Err and not same_val(got, want):
                    return '%s gives %s, expected %s (functions %s)' % (src, got, want, [(n, k, [text(x) for x in b]) for n, k, b in prog['functions']])
                if want is Err:
                    break
                if target is not None:
                    tab = t2
                    break
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def k_identity(arg, kind):
    """a parameter is its argument, with unit and notation; with any number of arguments around it"""
    d = tempfile.mkdtemp(prefix='c07')
    try:
        c = calc(fresh=True)
        c.calculate("PARAM1 = 100\nPARAM2 = 'two'")
        for n in (1, 2, 3, 11, 12):
            for i in {1, n, max(1, n - 1)}:
                if kind == 'inline':
                    c.calculate('idf = {PARAM%d}' % i)
                else:
                    with open(os.path.join(d, 'idf'), 'w') as fh:
                        fh.write('PARAM%d' % i)
                    c.calculate("idf = '%s'" % os.path.join(d, 'idf'))
                w = c.calculate(arg).results[-1]
                want = shown(w.value, w.unit, c)
                before = table(c)
                args = ['%d' % (k + 50) for k in range(n)]
                args[i - 1] = arg
                src = '@idf(%s)' % ', '.join(args)
                r = c.calculate(src).results[-1]
                if shown(r.value, r.unit, c) != want:
                    return '%s of %s function returning PARAM%d gives %s, expected %s' % (src, kind, i, shown(r.value, r.unit, c), want)
                if table(c) != before:
                    return '%s changed the variables' % src
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def k_types(types, args):
    """the INPUT line of an external function restricts its arguments"""
    d = tempfile.mkdtemp(prefix='c07')
    try:
        c = calc(fresh=True)
        c.calculate("PARAM1 = 100\nzz = 5")
        with open(os.path.join(d, 'ff'), 'w') as fh:
            fh.write('#INPUT %s\n%s' % (' '.join(types), '[%s]' % ', '.join('PARAM%d' % (i + 1) for i in range(len(types)))))
        c.calculate("ff = '%s'" % os.path.join(d, 'ff'))
        before = table(c)
        want = []
        bad = False
        for t, (a, at) in zip(types, args):
            w = c.calculate(a).results[-1]
            want.append(shown(w.value, w.unit, c))
            bad = bad or not fits(t, at)
        src = '@ff(%s)' % ', '.join(a for a, _ in args)
        try:
            r = c.calculate(src).results[-1]
            got = [shown(x.value, x.unit, c) for x in r.value]
        except CalculatorException:
            got = 'error'
        if table(c) != before:
            return '%s with INPUT %s changed the variables' % (src, types)
        if (got == 'error') != bad:
            return '%s with INPUT %s: %s, expected %s' % (src, types, got, 'an error' if bad else 'no error')
        if got != 'error':
            for g, w, t in zip(got, want, types):
                if g != w and t == 'array':
                    return '%s with INPUT %s: passes %s for %s' % (src, types, g, w)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fits(t, at):
    base = t.split(':')[0]
    if base == 'array':
        return at == 'array'
    if base == 'number':
        return at in ('number', 'length', 'speed') and (':' not in t or at == ('length' if t.endswith('distance') else 'speed'))
    return True


NUMS = ['0', '1', '2', '5', '7', '10', '3.5', '0.25']
GLOBALS = ['xx', 'yy', 'loc', 'PARAM1', 'PARAM2', 'PARAM3', 'tot']


def gen_expr(R, names, fns, depth):
    k = R.random()
    if depth <= 0 or k < 0.35:
        return ['var', R.choice(names)] if R.random() < 0.7 else ['num', R.choice(NUMS)]
    if k < 0.75 or not fns:
        return ['bin', R.choice('+-**+-/'), gen_expr(R, names, fns, depth - 1), gen_expr(R, names, fns, depth - 1)]
    if k < 0.95:
        n = R.choice([1, 1, 2, 2, 3])
        return ['call', R.choice(fns)] + [gen_expr(R, names, fns, depth - 1) for _ in range(n)]
    return ['list'] + [gen_expr(R, names, fns, 0) for _ in range(R.choice([2, 2, 3]))]


def gen_body(R, names, fns):
    names = list(names)
    out = []
    for _ in range(R.randrange(0, 3)):
        k = R.random()
        if k < 0.6:
            n = R.choice(GLOBALS + ['loc2'])
            out.append(['set', n, gen_expr(R, names, fns, 2)])
            if n not in names:
                names.append(n)
        elif k < 0.8:
            out.append(['add', R.choice(names), gen_expr(R, names, [], 1)])
        elif k < 0.9:
            out.append(['ifset', R.choice(names + ['loc2']), gen_expr(R, names, [], 1)])
        else:
            out.append(gen_expr(R, names, fns, 2))
    if R.random() < 0.25:
        out.append(['fail', R.choice(FAILS)])
        if R.random() < 0.3:
            out[-1] = ['set', R.choice(GLOBALS), out[-1]]
    out.append(gen_expr(R, names, fns, 2) if R.random() < 0.8 else ['set', R.choice(GLOBALS), gen_expr(R, names, fns, 1)])
    return out


def gen_program(R):
    vars_ = [['set', n, ['num', R.choice(NUMS)]] for n in R.sample(['xx', 'yy', 'PARAM1', 'PARAM2', 'tot'], R.randrange(1, 5))]
    if R.random() < 0.4:
        vars_.append(['set', 'lst', ['list'] + [['num', R.choice(NUMS)] for _ in range(3)]])
    have = [v[1] for v in vars_]
    fns = []
    for i in range(R.randrange(1, 4)):
        kind = R.choice(['inline', 'inline', 'external'])
        known = [f[0] for f in fns]
        params = ['PARAM1', 'PARAM2'][:R.choice([1, 2, 2])]
        if kind == 'inline':
            body = gen_body(R, [n for n in have if n != 'lst'] + params * 3, known)
        else:
            body = gen_body(R, params, ['PARAM1'] if R.random() < 0.15 else [])
        fns.append(['fun_' + 'abc'[i], kind, body])
    names = [f[0] for f in fns]
    calls = []
    for _ in range(R.randrange(1, 4)):
        nargs = R.choice([1, 2, 2, 2, 3])
        args = [['var', R.choice(have + names * (R.random() < 0.1))] if R.random() < 0.5 else
                (['list'] + [['num', R.choice(NUMS)] for _ in range(R.choice([2, 3]))] if R.random() < 0.2 else ['num', R.choice(NUMS)]) for _ in range(nargs)]
        call = ['call', names[-1] if R.random() < 0.7 else R.choice(names)] + args
        k = R.random()
        if k < 0.2:
            call = ['bin', R.choice('+-*'), ['var', R.choice(have)], call]
        elif k < 0.4:
            call = ['bin', R.choice('+-*'), call, ['var', R.choice(have)]]
        elif k < 0.5:
            call = ['set', R.choice(have), call]
        elif k < 0.6:
            call = ['call', R.choice(names), call, ['num', '2']]
        calls.append(call)
    return {'vars': vars_, 'functions': fns, 'calls': calls}


P = lambda n: ['var', 'PARAM%d' % n]
N = lambda n: ['num', str(n)]
B = lambda o, a, b: ['bin', o, a, b]
KINDS = {'program': k_program, 'identity': k_identity, 'types': k_types}


def fixed():
    start = [['set', 'xx', N(3)], ['set', 'PARAM1', N(100)], ['set', 'yy', ['list', N(4), N(0), N(6)]]]
    for n in (200, 3000):       # too deep to parse or run
        for deep in ('(' * n + '1' + ')' * n, '[' * n + '1' + ']' * n, '{' * n + '1' + '}' * n, 'abs(' * n + '1' + ')' * n, "'" + 'x' * n):
            yield {'vars': start, 'functions': [['fun_a', 'external', [['set', 'xx', P(1)], ['raw', deep]]]], 'calls': [['call', 'fun_a', N(1)], ['call', 'fun_a', ['var', 'yy']], ['var', 'PARAM1']]}
    for kind in ('inline', 'external'):
        # every way for a body to end, at every position, called directly, nested, and over an array
        for f in FAILS:
            for body in ([['fail', f]], [['set', 'xx', P(1)], ['fail', f], N(2)], [['set', 'PARAM1', ['fail', f]]], [['set', 'loc', N(5)], ['set', 'PARAM2', N(8)], ['fail', f]]):
                yield {'vars': start, 'functions': [['fun_a', kind, body], ['fun_b', 'inline', [['set', 'xx', N(9)], ['call', 'fun_a', P(1)], N(1)]]],
                       'calls': [['call', 'fun_a', N(1), N(2)], ['call', 'fun_b', N(1)], B('+', ['var', 'xx'], ['call', 'fun_b', ['var', 'xx']]), ['var', 'PARAM1'], ['var', 'PARAM2'],
                                 ['set', 'xx', ['call', 'fun_a', N(1)]], ['call', 'fun_a', ['var', 'yy']]]}
        yield {'vars': start, 'functions': [['fun_a', kind, [['set', 'xx', B('/', N(12), P(1))], ['set', 'PARAM1', N(0)], ['var', 'xx']]]],
               'calls': [['call', 'fun_a', N(3)], ['call', 'fun_a', ['var', 'yy']], ['call', 'fun_a', N(0)], ['var', 'xx']]}
        yield {'vars': start, 'functions': [['fun_a', kind, [B('+', B('*', P(1), N(10)), P(2))]],
                                            ['fun_b', 'inline', [B('+', ['call', 'fun_a', P(2), P(1)], B('*', P(1), N(1000)))]],
                                            ['fun_c', 'inline', [B('-', ['call', 'PARAM1', P(2), P(3)], P(2))]]],
               'calls': [['call', 'fun_a', N(1), N(2)], ['call', 'fun_b', N(1), N(2)], ['call', 'fun_c', ['var', 'fun_a'], N(4), N(5)],
                         ['call', 'fun_a', ['call', 'fun_a', N(1), N(2)], ['call', 'fun_b', N(3), N(4)]], ['call', 'fun_a', ['var', 'yy'], N(1)],
                         ['call', 'fun_a', ['var', 'yy'], ['list', N(1), N(2), N(3)]], ['call', 'fun_a', ['var', 'yy'], ['list', N(1), N(2)]], ['call', 'fun_b', ['var', 'yy'], ['var', 'xx']]]}
        yield {'vars': start + [['set', 'many', N(1)]], 'functions': [['fun_a', kind, [B('+', P(10), B('*', P(12), P(1)))]]], 'calls': [['call', 'fun_a'] + [N(i * i) for i in range(1, 14)]]}
        yield {'vars': start, 'functions': [['fun_a', kind, [['ifset', 'loc', N(7)], ['add', 'loc', P(1)], ['var', 'loc']]]], 'calls': [['call', 'fun_a', N(2)], ['call', 'fun_a', N(3)], ['var', 'loc']]}


def search(S):
    for a in ('5', '0x1f', '0b101', '3 m', '2.5 m/s', "'text'", 'true', '1E5', '50%', '{PARAM1 + 1}'):
        for k in ('inline', 'external'):
            S.run('identity', a, k)
    A = [('5', 'number'), ("[1, 2]", 'array'), ('3 m', 'length'), ('4 m/s', 'speed'), ('6 s', 'time'), ('7', 'number')]
    fx = list(fixed())
    S.rng.shuffle(fx)
    for p in fx:
        if S.time_left():
            S.run('program', p)
    for t in ('number', 'array'):
        for u in ('number', 'array'):
            for a in A[:2]:
                for b in A[:2]:
                    if not (t == 'number' and a[1] == 'array') and not (u == 'number' and b[1] == 'array'):
                        S.run('types', [t, u], [a, b])
    for t in ('number:distance', 'number:distance,time^-1'):
        for a in A[:1] + A[2:5]:
            S.run('types', [t], [a])
    while S.time_left():
        S.run('program', gen_program(S.rng))
