"""C06: the variable table."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PyRaise, Undecided
from modularcalculator.engine import Engine
from modularcalculator.features.state.assignment import AssignmentFeature, VariableItem
from modularcalculator.features.state.assignmentoperators import AssignmentOperatorsFeature
from modularcalculator.features.state.assignmentfunctions import AssignmentFunctionsFeature
from modularcalculator.features.structure.terminator import TerminatorFeature
from modularcalculator.objects.items import OperandItem, OperandResult, OperatorItem, LiteralItem
from modularcalculator.objects.operators import Operation, OperationResult
from modularcalculator.objects.exceptions import (CalculatorException, ExecuteException, CalculatingException, ExecutionException,
                                               ParsingException)
from modularcalculator.objects.number import Number
from modularcalculator.objects.units import UnitPowerList

ASSUMPTIONS = ['variable names are arbitrary strings and compared only by equality',
               'no code reaches the variable table by setattr, __dict__ or exec (checked: no such call names it)']


def item(it, ctx, name):
    v = VariableItem.__new__(VariableItem)
    v.text = v.var = name
    v.truncated = False
    v.unit = None
    ctx.alloc(v)
    return v


def flags_of(ctx):
    k = ctx.choose(3, 'flags')
    return [{}, {'stateless': False}, {'stateless': True}][k]


def refs_of(it, ctx, name):
    """the first operand is a variable, or (if the guard let it through) something else"""
    k = ctx.choose(2, 'ref')
    if k == 0:
        return item(it, ctx, name)
    return LiteralItem('1', SOpaque('literal'))


def prove_result(it, r, value, unit, what):
    ctx = it.ctx
    ctx.prove(what + ':result-value', r.value is value)
    ctx.prove(what + ':result-unit', r.unit_override and r.unit is unit)


def u_set(f, if_empty):
    def u(ctx):
        it = Interp(ctx)
        name = sym_name(ctx, 'name')
        ref = refs_of(it, ctx, name)
        flags = flags_of(ctx)
        c = mk_calc(ctx, vars=mk_vars(ctx))
        pre = snapshot(c.vars)
        val = SOpaque('value')
        unit = SOpaque('unit') if ctx.choose(2, 'u') == 0 else None
        st, r = run(it, f, c, [SOpaque('old'), val], [None, unit], [ref, None], flags)
        post = c.vars
        if st == 'raise':
            ctx.prove('error-only-if-not-a-variable', not isinstance(ref, VariableItem), repr(r))
            prove_same_vars(it, post, pre, 'unchanged-on-error')
            ctx.cover('error')
            return
        ctx.prove('only-variables-are-assigned', isinstance(ref, VariableItem))
        other = sym_name(ctx, 'other')
        ctx.assume(other.t != name.t)
        ctx.prove('other-variables-unchanged', same_entry(it, post, pre, other))
        prove_result(it, r, val, unit, 'result')
        stateless = flags.get('stateless', False)
        p0, v0 = M.dict_lookup(it, pre, name)
        p1, v1 = M.dict_lookup(it, post, name)
        if stateless or (if_empty and p0):
            ctx.prove('existing-value-kept', p1 == p0 and (not p1 or pair_is(v1, v0)))
        else:
            ctx.prove('holds-what-was-assigned', p1 and pair_is(v1, (val, unit)))
        ctx.cover('end')
    return u


COMPOUND = [('op_var_increment', '+', 1), ('op_var_decrement', '-', 1), ('op_var_add', '+', 2), ('op_var_subtract', '-', 2),
            ('op_var_multiply', '*', 2), ('op_var_divide', '/', 2), ('op_var_power', '^', 2), ('op_var_modulus', '%', 2),
            ('op_var_integer_divide', '\\', 2)]


def u_compound(fn, sym, n):
    def u(ctx):
        it = Interp(ctx)
        name = sym_name(ctx, 'name')
        ref = refs_of(it, ctx, name)
        c = mk_calc(ctx, vars=mk_vars(ctx))
        calls = []
        res_v, res_u = SOpaque('op-result'), (SOpaque('op-unit') if ctx.choose(2, 'u') == 0 else None)

        def op(sym_):
            o = Operation.__new__(Operation)

            def call(it, calc_, inputs, flags):
                calls.append((sym_, inputs))
                if ctx.choose(2, 'op') == 1:
                    raise PyRaise(CalculatorException('operation failed'))
                return OperandResult(res_v, res_u, None)
            o.call = Stub(call, 'Operation.call')
            return o
        c.ops_list = {s: op(s) for s in ('+', '-', '*', '/', '^', '%', '\\')}
        pre = snapshot(c.vars)
        val, unit = SOpaque('rhs'), SOpaque('rhs-unit')
        rref = SOpaque('rhs-ref')
        flags = {}
        if n == 1:
            st, r = run(it, getattr(AssignmentOperatorsFeature, fn), c, [SOpaque('old')], [None], [ref], flags)
        else:
            st, r = run(it, getattr(AssignmentOperatorsFeature, fn), c, [SOpaque('old'), val], [None, unit], [ref, rref], flags)
        post = c.vars
        p0, v0 = M.dict_lookup(it, pre, name)
        if st == 'raise':
            ctx.prove('fails-only-when-the-operation-fails', not isinstance(ref, VariableItem) or not p0
                      or (len(calls) == 1 and isinstance(r, CalculatorException)), repr(r))
            prove_same_vars(it, post, pre, 'unchanged-on-error')
            ctx.cover('error')
            return
        ctx.prove('one-call', len(calls) == 1 and p0)
        if len(calls) != 1:
            return
        s, inputs = calls[0]
        ctx.prove('is-the-plain-operation', s == sym)
        a, b = inputs
        ctx.prove('left-operand-is-the-variable', pair_is((a.value, a.unit), v0))
        if n == 2:
            ctx.prove('right-operand', b.value is val and b.unit is unit)
        else:
            ctx.prove('right-operand', is_number(b.value) and b.value.num == 1 and b.value.den == 1 and b.unit is None)
        other = sym_name(ctx, 'other')
        ctx.assume(other.t != name.t)
        ctx.prove('other-variables-unchanged', same_entry(it, post, pre, other))
        p1, v1 = M.dict_lookup(it, post, name)
        ctx.prove('holds-the-result', p1 and pair_is(v1, (res_v, res_u)))
        prove_result(it, r, res_v, res_u, 'result')
        ctx.cover('end')
    return u


def u_reset(ctx):
    it = Interp(ctx)
    c = mk_calc(ctx, vars=mk_vars(ctx))
    st, r = run(it, AssignmentFunctionsFeature.func_reset, c, [], [], [], {})
    ctx.prove('no-error', st == 'ok')
    v = c.vars
    if isinstance(v, dict):
        ctx.prove('empty', v == {})
    else:
        ctx.prove('empty', not M.dict_lookup(it, v, sym_name(ctx, 'any'))[0])
    ctx.cover('end')


def u_delete(ctx):
    it = Interp(ctx)
    name = sym_name(ctx, 'name')
    ref = refs_of(it, ctx, name)
    c = mk_calc(ctx, vars=mk_vars(ctx))
    pre = snapshot(c.vars)
    st, r = run(it, AssignmentFunctionsFeature.func_delete, c, [SOpaque('v')], [None], [ref], {})
    post = c.vars
    p0, v0 = M.dict_lookup(it, pre, name)
    if st == 'raise':
        ctx.prove('error-only-if-there-is-no-such-variable', not isinstance(ref, VariableItem) or not p0, repr(r))
        prove_same_vars(it, post, pre, 'unchanged-on-error')
        ctx.cover('error')
        return
    ctx.prove('a-variable', isinstance(ref, VariableItem))
    ctx.prove('removed', not M.dict_lookup(it, post, name)[0])
    other = sym_name(ctx, 'other')
    ctx.assume(other.t != name.t)
    ctx.prove('other-variables-unchanged', same_entry(it, post, pre, other))
    ctx.cover('end')


def u_value(f):
    def u(ctx):
        it = Interp(ctx)
        name = sym_name(ctx, 'name')
        ref = item(it, ctx, name)
        vs = mk_vars(ctx)
        copies = []

        def mkval(c_, key):
            if c_.choose(2, 'unit?') == 1:
                return (SOpaque('value'), None)
            unit = UnitPowerList.__new__(UnitPowerList)
            cp = UnitPowerList.__new__(UnitPowerList)
            copies.append((unit, cp))
            unit.copy = Stub(lambda it_: cp, 'copy')
            return (SOpaque('value'), unit)
        vs.mkval = mkval
        ref.calculator = mk_calc(ctx, vars=vs)
        pre = snapshot(vs)
        serial = ctx.serial
        st, r = run(it, f, ref, {})
        ctx.prove('reading-never-fails', st == 'ok', repr(r))
        if st != 'ok':
            return
        ctx.prove('same-table', ref.calculator.vars is vs and len(vs.updates) == 0)
        p0, v0 = M.dict_lookup(it, pre, name)
        ctx.prove('reference-kept', r.ref is ref)
        if not p0:
            ctx.prove('unset-variable-has-no-value', r.value is None and r.unit is None)
        else:
            ctx.prove('reads-the-value', r.value is v0[0])
            # the unit is a copy: later operations may tag it
            ctx.prove('reads-the-unit', (v0[1] is None and r.unit is None) or any(a is v0[1] and b is r.unit for a, b in copies))
        ctx.cover('end')
    return u


def u_terminator(ctx):
    it = Interp(ctx)
    c = mk_calc(ctx, vars=mk_vars(ctx), feature_options={'structure.terminator': {'Symbol': '\n'}}, last_failed_terminator=None)
    pre = snapshot(c.vars)

    def execute(it_, self_, items, flags):
        ctx.prove('only-a-fake-execution', 'fake_execution' in flags)
        k = ctx.choose(3, 'effect')
        if k == 1:      # changes the table in place
            c.vars.updates.append(('set', sym_name(ctx, 'changed'), (SOpaque('x'), None)))
        elif k == 2:    # replaces the table
            c.vars = mk_vars(ctx, 'replaced')
        e = [None, ExecuteException('Missing right operands for operator +', [], None), ExecuteException('other', [], None), CalculatorException('c'),
             ValueError('internal')][ctx.choose(5, 'how')]
        if e is not None:
            raise PyRaise(e)
        return OperandResult(None, None, None)
    it.contracts[Engine.execute] = lambda it_, args, kw: execute(it_, *args, **kw)
    flags = [{}, {'ignore_terminators': True}, {'ignore_terminators': False}][ctx.choose(3, 'flags')]
    expr = ['\n', 'a = 1\n2', 'x'][ctx.choose(3, 'expr')]
    items = [LiteralItem('1', SOpaque('literal'))]
    st, r = run(it, TerminatorFeature.parse_terminator, c, expr, 5 if expr[0] == 'a' else 0, items, flags)
    ctx.prove('no-error', st == 'ok', repr(r))
    prove_same_vars(it, c.vars, pre, 'variables-restored')
    ctx.cover('end')


class FakeItem(OperandItem):
    pass


def u_fake_operand(ctx):
    """a fake execution evaluates nothing"""
    it = Interp(ctx)
    c = mk_calc(ctx)
    x = FakeItem.__new__(FakeItem)
    x.text = 'x'

    def bad(it_, *a, **k):
        ctx.fail('nothing-is-evaluated', 'item evaluated in a fake execution')
        raise PyRaise(CalculatorException('x'))
    x.result = Stub(bad)
    x.value = Stub(bad)
    st, r = run(it, Engine.execute_operand, c, x, [], {'fake_execution': True})
    ctx.prove('no-error', st == 'ok')
    ctx.prove('placeholder', isinstance(r, OperandResult))
    ctx.cover('end')


def u_fake_operator(ctx):
    it = Interp(ctx)
    from modularcalculator.objects.operators import OperatorDefinition
    op = OperatorDefinition.__new__(OperatorDefinition)
    op.linputs, op.rinputs = [([], [1]), ([1], [1]), ([1], []), ([1], ['y', 1])][ctx.choose(4, 'shape')]

    def bad(it_, *a, **k):
        ctx.fail('nothing-is-evaluated', 'operation called in a fake execution')
        raise PyRaise(CalculatorException('x'))
    op.call = Stub(bad)
    op.ref = Stub(bad)
    c = mk_calc(ctx, ops_list={'x': op})
    n = ctx.choose(4, 'n')
    items = [OperandResult(None, None, None) for _ in range(n)]
    i = ctx.choose(n + 1, 'pos')
    items.insert(i, OperatorItem('x'))
    if len(items) > i + 1 and len(op.rinputs) == 2:
        items[i + 1] = OperatorItem('y')
    for k, x in enumerate(items):
        x._INDEX = k
    st, r = run(it, Engine.execute_operator, c, 'x', items, i, 1, list(items), {'fake_execution': True})
    ctx.prove('only-calculator-errors', st == 'ok' or isinstance(r, ExecuteException), repr(r))
    ctx.cover('end')


def u_parse_only(ctx):
    it = Interp(ctx)
    c = mk_calc(ctx, vars=mk_vars(ctx), unit_normaliser=None, unit_simplification=False, finalizers=[])
    vs = c.vars
    stmts = [[[LiteralItem('1', None)], [LiteralItem('2', None)]], [[]], [[LiteralItem('1', None)]]][ctx.choose(3, 'statements')]
    it.contracts[Engine.parse] = lambda it_, args, kw: (stmts, 5, {'times': [0] * len(stmts)})
    executed = []
    it.contracts[Engine.execute] = lambda it_, args, kw: executed.append(args[1]) or OperandResult(SOpaque('v'), None, None)
    po = ctx.choose(3, 'parse_only')
    flags = [{}, {'parse_only': True}, {'parse_only': False}][po]
    st, r = run(it, Engine.calculate, c, 'text', flags)
    ctx.prove('no-error', st == 'ok', repr(r))
    if po == 1:
        ctx.prove('parsing-only-executes-nothing', not executed)
    else:
        ctx.prove('every-statement-executed-once', len(executed) == sum(1 for s in stmts if s) and all(any(e is s for s in stmts) for e in executed))
    ctx.prove('same-table', c.vars is vs and not vs.updates)
    ctx.cover('end')


WRITERS = ['AssignmentFeature.install', 'AssignmentFeature.op_var_set', 'AssignmentFeature.op_var_set_if_empty', 'VariableItem.value',
           'AssignmentOperatorsFeature.assignment_operator', 'AssignmentFunctionsFeature.func_reset', 'AssignmentFunctionsFeature.func_delete',
           'TerminatorFeature.parse_terminator', 'engine:Engine.__init__',
           # under contract in C07
           'InlineFunctionsPointerHandler.do_function', 'ExternalFunctionsPointerHandler.do_function']


def u_frame(ctx):
    prove_writers(ctx, 'vars', WRITERS, 'variable table written only under contract')
    ctx.cover('end')


def u_install(ctx):
    """the compound operators are installed as the functions verified above, and take a variable and numbers"""
    from modularcalculator.modularcalculator import ModularCalculator
    c = ModularCalculator('Computing')
    table = {'++': 'op_var_increment', '--': 'op_var_decrement', '+=': 'op_var_add', '-=': 'op_var_subtract', '*=': 'op_var_multiply',
             '/=': 'op_var_divide', '^=': 'op_var_power', '%=': 'op_var_modulus', '\\=': 'op_var_integer_divide'}
    for s, fn in table.items():
        o = c.ops_list.get(s)
        ctx.prove('installed:' + s, o is not None and o.ref is getattr(AssignmentOperatorsFeature, fn))
        if o is not None:
            ctx.prove('first-operand-is-a-variable:' + s, o.input_must_be_type(0, 'variable') and o.minparams == o.maxparams == (1 if s in ('++', '--') else 2))
            ctx.prove('units-left-to-the-operation:' + s, s in ('++', '--') or not o.units_normalise)
    for s, f in (('=', AssignmentFeature.op_var_set), ('||=', AssignmentFeature.op_var_set_if_empty)):
        o = c.ops_list[s]
        ctx.prove('installed:' + s, o.ref is f and o.input_must_be_type(0, 'variable') and not o.units_normalise)
        ctx.prove('value-stored-as-is:' + s, o.input_can_be_type(1, 'array') and not o.input_can_be_type(1, 'number'))
    ctx.prove('installed:reset', c.funcs['reset'].ref is AssignmentFunctionsFeature.func_reset)
    ctx.prove('installed:delete', c.funcs['delete'].ref is AssignmentFunctionsFeature.func_delete)
    ctx.cover('end')


UNITS = [
    ('op_var_set', u_set(AssignmentFeature.op_var_set, False)),
    ('op_var_set_if_empty', u_set(AssignmentFeature.op_var_set_if_empty, True)),
    ('func_reset', u_reset),
    ('func_delete', u_delete),
    ('VariableItem.value', u_value(VariableItem.value)),
    ('VariableItem.result', u_value(VariableItem.result)),
    ('parse_terminator', u_terminator),
    ('execute_operand(fake)', u_fake_operand),
    ('execute_operator(fake)', u_fake_operator),
    ('calculate(parse_only)', u_parse_only),
    ('installed operators', u_install),
    ('assigns clause', u_frame),
] + [(fn, u_compound(fn, s, n)) for fn, s, n in COMPOUND]


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
from pyvc.concrete import calc, table, shown, to_py
import re as _re

NAMES = ['x', 'X', 'xy', 'x_1', '_q', 'andy', 'nota', 'a', 'ab', 'abc', 'orange', 'pix', 'PARAM1', 'sum']
COMP = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '^=': '^', '%=': '%', '\\=': '\\'}
LIT = ['0', '1', '2', '3.5', '-7', '1/3', "'5'", "'text'", 'true', '[1, 2, 3]', '[4, 5, 6]', '[[1, 2], [3, 4]]', '0x1f', '0b101', '2 meters', '3 feet', '50 cm', '4 s', '12%', '[]', "''", '1E5',
       '[1 m, 2 m]', '1 m^2', 'true', "'2020-01-01'"]
BAD = ['1/0', 'nosuch(1)', "'a' * 2", 'nosuchvar + 1', ')', '1 m + 1 s', "fact(-1)", 'x y z 1 /', '$', '[1', '1 = 2']


def run_stmt(c, text, flags=None):
    """-> 'ok' / 'error', result"""
    try:
        r = c.calculate(text, flags or {})
    except CalculatorException as e:
        return 'error', e
    return 'ok', (r.results[-1] if r.results else None)


def diff(before, after):
    return sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))


def operand_ok(d, rhs):
    st, r = run_stmt(d, '(%s)' % rhs)
    return st == 'ok' and (isinstance(r.value, list) or run_stmt(d, '(%s) * 1' % rhs)[0] == 'ok')


def k_script(stmts):
    """stmts: list of [op, name, rhs]; each is checked against the meaning of its text on a table computed by plain assignments"""
    c = calc(fresh=True)
    d = calc(fresh=True)            # evaluates right-hand sides on the tracked table; never sees an assignment of c
    for op, name, rhs in stmts:
        before = table(c)
        d.vars = dict(c.vars)
        if op == 'reset':
            st, r = run_stmt(c, 'reset()')
            want = {}
        elif op == 'delete':
            st, r = run_stmt(c, 'delete(%s)' % name)
            want = {k: v for k, v in before.items() if k != name}
            if st == 'error' and name in before:
                return 'delete(%s) failed: %s' % (name, r)
            if st == 'ok' and name not in before:
                return 'delete of an unset variable succeeded'
        elif op == 'read':
            st, r = run_stmt(c, rhs)
            want = before
        elif op == 'parse':
            st, r = run_stmt(c, rhs, {'parse_only': True})
            want = before
            if st == 'ok' and r is not None and r.has_result():
                return '%r with parse_only gave a result' % rhs
        else:
            text = '%s %s %s' % (name, op, rhs)
            if op == '=' or op == '||=':
                dst, dr = run_stmt(d, '(%s)' % rhs)
                plain = None
                st, r = run_stmt(c, text)
            else:
                sym, operand = ('+', '1') if op == '++' else ('-', '1') if op == '--' else (COMP[op], '(%s)' % rhs)
                if op in ('++', '--'):
                    text = name + op
                st, r = run_stmt(c, text)
                dst, dr = run_stmt(d, '%s %s %s' % (name, sym, operand))
            if op not in ('=', '||=') and name not in before:
                dst = 'error'       # a compound assignment needs a variable
            elif op in COMP and not operand_ok(d, rhs):
                dst = 'error'       # and a number or an array on its right
            if st != dst:
                return '%r: %s, but its right-hand side alone: %s (%s)' % (text, st, dst, r if st == 'error' else dr)
            want = dict(before)
            if st == 'ok' and not (op == '||=' and name in before):
                # plain assignment of the value just computed
                d.vars = dict(c.vars)
                w = shown(dr.value, dr.unit, d)
                want[name] = w
            if st == 'ok':
                got = shown(r.value, r.unit, c)
                w = shown(dr.value, dr.unit, d)
                if got != w:
                    return '%r shows %s, plain operation shows %s' % (text, got, w)
        after = table(c)
        if not close(after, want):
            bad = [k for k in diff(want, after) if not close1(after.get(k), want.get(k))]
            return 'after %s: %s' % ([op, name, rhs], ['%s is %s, expected %s' % (k, after.get(k), want.get(k)) for k in bad])
    # every variable reads back as what is in the table
    snap = table(c)
    for k in list(snap):
        st, r = run_stmt(c, k)
        if st == 'error' and "('error',)" in repr(snap[k]):
            continue
        if st == 'error':
            return 'reading %s: %s' % (k, r)
        if not close1(shown(r.value, r.unit, c), snap[k]):
            return 'reading %s gives %s, stored is %s' % (k, shown(r.value, r.unit, c), snap[k])
        if diff(snap, table(c)):
            return 'reading %s changed %s' % (k, diff(snap, table(c)))
    return None


def close1(a, b):
    """equal, up to the choice of unit when a result was simplified: then compare values only if the units are the same"""
    if a == b:
        return True
    if a is None or b is None or a[0] != b[0]:
        return False
    if a[0] == 'number':
        return a[4] != b[4] and a[4] is not None and b[4] is not None
    if a[0] == 'list':
        return len(a[1]) == len(b[1]) and all(close1(p, q) for p, q in zip(a[1], b[1]))
    return False


def close(a, b):
    return set(a) == set(b) and all(close1(a[k], b[k]) for k in a)


def k_multi(lines):
    """a script in one text equals its lines one by one, up to the first failing line; the completed assignments stay"""
    c = calc(fresh=True)
    d = calc(fresh=True)
    st, r = run_stmt(c, '\n'.join(lines))
    if isinstance(r, ParsingException):
        return None if table(c) == {} else 'script %r does not parse, but assigned %s' % (lines, table(c))
    n = 0
    for ln in lines:
        s, _ = run_stmt(d, ln)
        if s == 'error':
            break
        n += 1
    if (st == 'ok') != (n == len(lines)):
        return 'script %r: %s (%s), line by line %d of %d succeed' % (lines, st, r, n, len(lines))
    if table(c) != table(d):
        return 'script %r leaves %s, line by line %s' % (lines, table(c), table(d))
    if st == 'error' and r.response is not None and len(r.response.results) != n:
        return 'script %r: %d results reported, %d statements completed' % (lines, len(r.response.results), n)
    return None


def k_frame(expr):
    """an expression that assigns nothing changes no variable"""
    c = calc(fresh=True)
    run_stmt(c, "a = 3\nb = [3, 1, 2]\ns = 'text'\nm1 = 2 feet\nh = 0xff\nq = [[1, 2], [3, 4]]\nu = [1 m, 50 cm]\nt = true\nstrs = ['b', 'a', 'c']\nday = '2020-02-03'")
    before = table(c)
    ids = {k: (v[0]) for k, v in c.vars.items()}
    run_stmt(c, expr)
    after = table(c)
    if before != after:
        return '%r changed %s' % (expr, ['%s: %s -> %s' % (k, before.get(k), after.get(k)) for k in diff(before, after)])
    if any(c.vars[k][0] is not v for k, v in ids.items()):
        return '%r replaced a stored value' % expr
    return None


SEARCH_SECONDS = (45, 240)
KINDS = {'script': k_script, 'multi': k_multi, 'frame': k_frame}
FRAME_VARS = ['a', 'b', 's', 'm1', 'h', 'q', 'u', 't', 'strs', 'day']


def rand_stmt(R, names):
    k = R.random()
    n = R.choice(names)
    if k < 0.35:
        return ['=', n, R.choice(LIT + names + ['%s + 1' % R.choice(names), '(%s)' % R.choice(names)])]
    if k < 0.65:
        o = R.choice(list(COMP) + ['++', '--'])
        return [o, n, R.choice(LIT[:20] + names) if o != '^=' else R.choice(['2', '0', '3', '1/2', '[1, 2, 3]'])]
    if k < 0.75:
        return ['||=', n, R.choice(LIT + names)]
    if k < 0.82:
        return [R.choice(['=', '+=']), n, R.choice(BAD[:3] + BAD[5:7])]
    if k < 0.87:
        return ['delete', n, '']
    if k < 0.88:
        return ['reset', '', '']
    if k < 0.94:
        return ['read', '', '%s %s %s' % (R.choice(names), R.choice(['+', '*', '==', '-']), R.choice(LIT[:8] + names))]
    return ['parse', '', '%s = %s' % (n, R.choice(LIT))]




def search(S):
    for sym in list(COMP) + ['++', '--']:
        for v, r in (('7', '2'), ('-7', '2'), ('1/3', '3'), ('0x1f', '3'), ('5', '0b11'), ('[1, 2]', '2'), ('2', '[1, 2]'), ('[5, 6]', '[1, 2]'), ("'8'", '2'), ('5', '0'),
                     ('true', '1'), ('6 m', '2'), ('6 m', '3 m'), ('6 m', '200 cm'), ("'x'", '1'), ('5', "'x'")):
            S.run('script', [['=', 'x', v], ['=', 'y', '9'], [sym, 'x', r], ['read', '', 'x'], [sym, 'x', 'x' if sym != '^=' else '2']])
        S.run('script', [['=', 'y', '9'], [sym, 'x', '2'], [sym, 'y', 'x']])
    for v in LIT:
        S.run('script', [['=', 'x', v], ['=', 'y', 'x'], ['||=', 'x', '5'], ['||=', 'z', v], ['+=', 'y', '1'], ['read', '', 'x'], ['delete', 'x', ''], ['=', 'x', '1']])
        S.run('script', [['=', 'x', v], ['=', 'xy', '2'], ['delete', 'x', ''], ['delete', 'x', ''], ['read', '', 'xy'], ['reset', '', ''], ['||=', 'x', v]])
    for i, b in enumerate(BAD):
        for pre in ('y = ', '', 'x += ', 'x = ', '(z = 4) + '):
            S.run('multi', ['x = 1', 'w = 2', pre + b, 'w = 3', 'v = 4'])
    c = calc()
    fr = []
    for op in c.ops_list:
        if op in ('=', '||=', 'IMPLICIT_MULTIPLY') or op in COMP or op in ('++', '--') or 'UNIT' in op or not op:
            continue
        o = c.ops_list[op]
        for v in FRAME_VARS:
            if len(o.linputs) == 0 and len(o.rinputs) == 1:
                fr.append('%s %s' % (op, v))
            elif len(o.linputs) == 1 and len(o.rinputs) == 1:
                fr.append('%s %s %s' % (v, op, 'a'))
                fr.append('%s %s %s' % (v, op, v))
                fr.append('b %s %s' % (op, v))
    for f in c.funcs:
        if f in ('delete', 'reset'):
            continue
        for v in FRAME_VARS:
            fr.append('%s(%s)' % (f, v))
            for w in ('a', 's', 'b', "'x'", '2'):
                fr.append('%s(%s, %s)' % (f, v, w))
            fr.append('%s(%s, a, 2)' % (f, v))
            fr.append("%s(%s, 1, 'x')" % (f, v))
    fr += ['[a, b, h]', '[a..9]', 'b[2]', 'u', 'u * 2', 'q', 'm1 to meters', 'm1 as meters', 'h as decimal', 'h to binary', 'u to feet', 'h', '-h', 'a < h', 'b b', 'a h', 'h a',
           "{x = 5}(1)", 'a = ', "a ==", 'true then a else b', 'q + 1', 'filter(b, {PARAM1 > 1})']
    S.rng.shuffle(fr)
    lim = len(fr) if S.tier != 'quick' else 1200
    for e in fr[:lim]:
        if not S.time_left():
            break
        S.run('frame', e)
    while S.time_left():
        R = S.rng
        names = R.sample(NAMES, R.randrange(2, 5))
        S.run('script', [rand_stmt(R, names) for _ in range(R.randrange(3, 12))])
        if R.random() < 0.2:
            S.run('multi', ['%s = %s' % (R.choice(names), R.choice(LIT)) if R.random() < 0.8 else '%s %s' % (R.choice(names), R.choice(['++', '+= 2', '+= 1/0', '||= 3'])) for _ in range(6)])
