"""C19: logic and conditionals follow their truth tables; errors are values only where allowed."""
from pyvc.lib import *  # noqa: F401,F403
import functools
from pyvc.core import PathDone, PyRaise
from modularcalculator.engine import Engine
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.items import LiteralItem, OperandResult, OperatorItem
from modularcalculator.objects.exceptions import CalculatorException, ExecuteException
from modularcalculator.objects.number import Number

ASSUMPTIONS = ['operands that are arrays apply row by row (C10); a row is an application to single operands, which is what is specified here',
               'the operations are taken as the running installation code registers them (the Computing preset)']
TRUSTED = ['text of an operand in an error message (opaque)']

_CALC = ModularCalculator('Computing')
OP = {s: _CALC.ops_list[s] for s in ('and', 'or', 'xor', 'not', 'then')}
KINDS_ = ['boolean', 'failure', 'number', 'string', 'nothing', 'something else']
TABLE = {'and': lambda a, b: z3.And(a, b), 'or': lambda a, b: z3.Or(a, b), 'xor': lambda a, b: z3.Xor(a, b)}


def operand(ctx, it, name, kinds=KINDS_):
    """any operand that is not an array -> (operand, kind, its truth)"""
    k = ctx.choose(len(kinds), 'kind of ' + name)
    t = None
    if kinds[k] == 'boolean':
        t = ctx.bool(name)
        ctx.inputs[name] = t
        v = SBool(t)
    elif kinds[k] == 'failure':
        v = [ExecuteException, CalculatorException][ctx.choose(2, 'failure of ' + name)]
        v = v('earlier', [], None) if v is ExecuteException else v('earlier')
    elif kinds[k] == 'number':
        v = mk_number(it, name, cast=None)
    elif kinds[k] == 'string':
        v = SStr(ctx.string(name))
    elif kinds[k] == 'nothing':
        v = None
    else:
        v = SOpaque(name)
    has_unit = kinds[k] == 'number' and ctx.choose(2, 'unit of ' + name) == 1
    ref = SOpaque('ref of ' + name) if ctx.choose(2, 'ref of ' + name) else None
    o = ctx.alloc(OperandResult(v, SOpaque('unit of ' + name) if has_unit else None, ref))
    return o, kinds[k], t


def setup(ctx):
    it = Interp(ctx)
    it.contracts[OperandResult.to_string] = lambda it_, a, kw: 'an operand'
    calc = mk_calc(ctx, validators=_CALC.validators, number_types={}, unit_normaliser=SOpaque('normaliser'))
    # conversion of numbers is not part of logic: a number is a number, nothing else is (C04, C13)
    from modularcalculator.numericalengine import NumericalEngine
    it.contracts[NumericalEngine.validate_number] = lambda it_, a, kw: is_number(a[1])
    it.contracts[NumericalEngine.number] = lambda it_, a, kw: a[1]
    return it, calc


def call(ctx, it, calc, sym, ops):
    before = [(o.value, o.unit, o.ref) for o in ops]
    st, r = run(it, OP[sym].call, calc, ctx.alloc(list(ops)), ctx.alloc({}))
    for o, b in zip(ops, before):
        ctx.prove(sym + ':operands-unchanged', o.value is b[0] and o.unit is b[1] and o.ref is b[2])
    if st == 'raise':
        ctx.prove(sym + ':calculator-error', isinstance(r, CalculatorException), type(r).__name__)
    else:
        ctx.prove(sym + ':an-operand', isinstance(r, OperandResult), type(r).__name__)
    return st, r


def truth(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(v) if isinstance(v, bool) else None


def u_binary(ctx, sym):
    it, calc = setup(ctx)
    (a, ka, ta), (b, kb, tb) = operand(ctx, it, 'a'), operand(ctx, it, 'b')
    st, r = call(ctx, it, calc, sym, [a, b])
    if ka != 'boolean' or kb not in ('boolean', 'failure'):
        ctx.prove(sym + ':other-operands-are-errors', st == 'raise')
        ctx.cover('type error')
        return
    if kb == 'failure':
        # a failing second operand matters only when the first does not decide
        decided = {'and': z3.Not(ta), 'or': ta, 'xor': z3.BoolVal(False)}[sym]
        if st == 'raise':
            ctx.prove(sym + ':fails-only-when-undecided', z3.Not(decided))
            ctx.cover('failure')
            return
        ctx.prove(sym + ':undecided-fails', decided)
        want = z3.BoolVal(sym == 'or')
        ctx.cover('decided by the first')
    else:
        ctx.prove(sym + ':no-error', st == 'ok')
        if st != 'ok':
            return
        want = TABLE[sym](ta, tb)
        ctx.cover('table')
    t = truth(r.value)
    ctx.prove(sym + ':a-boolean', t is not None, repr(r.value))
    if t is not None:
        ctx.prove(sym + ':truth-table', t == want)
    ctx.prove(sym + ':no-unit', r.unit is None)
    ctx.prove(sym + ':no-ref', r.ref is None)


def u_not(ctx):
    it, calc = setup(ctx)
    a, ka, ta = operand(ctx, it, 'a')
    st, r = call(ctx, it, calc, 'not', [a])
    if ka == 'boolean':
        ctx.prove('not:no-error', st == 'ok')
        if st == 'ok':
            t = truth(r.value)
            ctx.prove('not:a-boolean', t is not None)
            if t is not None:
                ctx.prove('not:truth-table', t == z3.Not(ta))
            ctx.prove('not:no-unit', r.unit is None)
        ctx.cover('table')
    else:
        ctx.prove('not:other-operands-are-errors', st == 'raise' or isinstance(r.value, Exception))
        if ka == 'failure':
            ctx.prove('not:the-same-failure', st == 'raise' or r.value is a.value)
        ctx.cover('error')


def u_then(ctx):
    it, calc = setup(ctx)
    a, ka, ta = operand(ctx, it, 'a')
    if ka == 'boolean':
        b, c = [operand(ctx, it, n)[0] for n in 'bc']
    else:
        b, c = [operand(ctx, it, n, ['number', 'failure'])[0] for n in 'bc']
    st, r = call(ctx, it, calc, 'then', [a, b, c])
    if ka != 'boolean':
        ctx.prove('then:other-conditions-are-errors', st == 'raise')
        ctx.cover('error')
        return
    ctx.prove('then:no-error-of-its-own', st == 'ok')
    if st != 'ok':
        return
    for o, t in ((b, ta), (c, z3.Not(ta))):
        if not ctx.entails(z3.Not(t)):
            same = r.value is o.value or is_number(o.value) and is_number(r.value) and r.value.num is o.value.num and r.value.den is o.value.den and r.value.number_cast is o.value.number_cast
            ctx.prove('then:the-chosen-value', z3.Or(z3.Not(t), z3.BoolVal(bool(same))))
            ctx.prove('then:with-its-unit', z3.Or(z3.Not(t), z3.BoolVal(r.unit is o.unit)))
            ctx.prove('then:with-its-reference', z3.Or(z3.Not(t), z3.BoolVal(r.ref is o.ref)))
    ctx.cover('chosen')


def u_operator(ctx):
    """a failing application becomes an operand that holds the failure; the operands of `then` are those around its symbols"""
    it = Interp(ctx)
    calc = mk_calc(ctx, ops_list=_CALC.ops_list)
    sym = ['and', 'or', 'xor', 'then', 'not'][ctx.choose(5, 'operator')]
    n = {'then': 3, 'not': 1}.get(sym, 2)
    left, right = ctx.choose(2, 'items before'), ctx.choose(2, 'items after')
    ops = [ctx.alloc(OperandResult(SOpaque('operand %d' % i), None, None)) for i in range(n)]
    syms = [ops[0], 'then', ops[1], 'else', ops[2]] if sym == 'then' else ['not', ops[0]] if sym == 'not' else [ops[0], sym, ops[1]]
    at = 0 if sym == 'not' else 1
    wrong = sym == 'then' and ctx.choose(2, 'the else is missing')
    if wrong:
        syms[3] = 'and'
    items = [ctx.alloc(OperandResult(SOpaque('before'), None, None)) for _ in range(left)]
    for x in syms:
        items.append(ctx.alloc(OperatorItem(x)) if isinstance(x, str) else x)
    items += [ctx.alloc(OperandResult(SOpaque('after'), None, None)) for _ in range(right)]
    for i, x in enumerate(items):
        x._INDEX = i
    ctx.alloc(items)
    calls = []
    fail = ctx.choose(2, 'it fails')
    res = ctx.alloc(OperandResult(SOpaque('result'), SOpaque('unit'), None))

    def called(it_, a, kw):
        calls.append(list(a[2]))
        ctx.prove('operator:itself', a[0] is OP[sym])
        if fail:
            raise PyRaise(CalculatorException('failed'))
        return res
    it.contracts[type(OP[sym]).call] = called
    it.contracts[OperatorItem.to_string if hasattr(OperatorItem, 'to_string') else OperandResult.to_string] = lambda it_, a, kw: 'an item'
    st, r = run(it, Engine.execute_operator, calc, sym, items, left + at, 1, list(items), ctx.alloc({}))
    if wrong:
        ctx.prove('operator:else-is-required', st == 'raise' and isinstance(r, CalculatorException) and not calls)
        ctx.cover('no else')
        return
    ctx.prove('operator:no-error', st == 'ok')
    if st != 'ok':
        return
    ctx.prove('operator:applied-once-to-the-operands-around-it', len(calls) == 1 and len(calls[0]) == n and all(x is y for x, y in zip(calls[0], ops)))
    out = list(r)
    ctx.prove('operator:replaces-its-operands', len(out) == left + 1 + right and all(x is y for x, y in zip(out[:left] + out[left + 1:], items[:left] + items[len(items) - right:])))
    if len(out) == left + 1 + right:
        o = out[left]
        if fail:
            ctx.prove('operator:failure-is-the-operand', isinstance(o, OperandResult) and isinstance(o.value, CalculatorException))
        else:
            ctx.prove('operator:result-is-the-operand', o is res)
    ctx.cover('failed' if fail else 'ok')


def u_operand(ctx):
    """an operand that cannot be evaluated is an operand that holds the failure"""
    it = Interp(ctx)
    calc = mk_calc(ctx)
    item = ctx.alloc(LiteralItem('text', SOpaque('value')))
    k = ctx.choose(3, 'outcome')
    res = ctx.alloc(OperandResult(SOpaque('v'), None, None))

    def result(it_, a, kw):
        if k == 1:
            raise PyRaise(ExecuteException('failed', [], None))
        if k == 2:
            raise PyRaise(CalculatorException('failed'))
        return res
    it.contracts[LiteralItem.result] = result
    st, r = run(it, Engine.execute_operand, calc, item, ctx.alloc([]), ctx.alloc({}))
    ctx.prove('operand:no-error', st == 'ok')
    if st == 'ok':
        if k == 0:
            ctx.prove('operand:its-value', r is res)
        else:
            ctx.prove('operand:the-failure', isinstance(r, OperandResult) and isinstance(r.value, CalculatorException) and r.unit is None)
    ctx.cover(('ok', 'failure', 'error')[k])


P_ = functools.partial
UNITS = [('operator %s' % s, P_(u_binary, sym=s), {'max_paths': 6000, 'seconds': 80}) for s in ('and', 'or', 'xor')]
UNITS += [('operator not', u_not), ('operator then', u_then, {'max_paths': 9000, 'seconds': 100}), ('Engine.execute_operator', u_operator, {'max_paths': 400}), ('Engine.execute_operand', u_operand)]


# ---------------------------------------------------------------- concrete oracle
from pyvc.concrete import calc, shown, table, evaluate

SEARCH_SECONDS = (30, 240)
BAD = ('error',)
TRUE, FALSE = ('bool', 'True', None), ('bool', 'False', None)

SETUP = ['yes = true', 'no = false', 'n = 5', 'len = 5 meters', "word = 'x'", 'flags = [true, false]', 'mixed = [true, 1]', 'f = {1 / PARAM1 > 0}', 'g = {PARAM1 then 1 meters else 2 seconds}', 'three = [1, 2, 3]', 'partial = 1 / [1, 0]']
BOOLS = {'true': 1, 'false': 0, 'True': 1, 'FALSE': 0, '1 < 2': 1, '2 < 1': 0, '0x10 == 16': 1, "'a' == 'b'": 0, '5 meters > 30 cm': 1, 'yes': 1, 'no': 0, '@f(2)': 1, '@f(-1)': 0, '1 != 1': 0, '3 >= 3': 1}
FAILS = ['1/0 == 1', 'nosuch(1)', '5 meters > 3 seconds', '1/0', '@f(0)', 'length(1,2,3,4)', '1 +', '5 meters + 1 second', 'element([1, 2], 3) == 1', '[1, 1/0]', '1 < nosuch(2)', "5 > 'x'"]
VALUES = ['5', '0x10', '0b11', '5 meters', '10%', "'x'", "'true'", '0', '1', 'n', 'len', 'word', '3 seconds', '1/3', '1E3', 'missing']
LISTS = {'[true, false]': [1, 0], 'flags': [1, 0], '[false, false]': [0, 0], '[true]': [1], '[true, true, false]': [1, 1, 0], '(1/[1, 0] == 1)': [1, None], '(1/[0, 2] == 1)': [None, 0], '([1, 2] > 1)': [0, 1], '(5 / [0, 1] > 2)': [None, 1]}
VLISTS = {'[1, 2]': ['1', '2'], "['x', 5 meters]": ["'x'", '5 meters'], 'three': ['1', '2', '3'], '[7]': ['7'], 'mixed': ['true', '1'], 'partial': ['1', None], '[0x10, true]': ['0x10', 'true']}


def fresh():
    c = calc('Computing')
    for s in SETUP:
        evaluate(s, c=c)
    return c


_ATOM = {}


def atom(text):
    """a value on its own, as the calculator shows it"""
    if text not in _ATOM:
        st, r = evaluate(text, c=fresh())
        _ATOM[text] = shown(r.value, r.unit) if st == 'ok' else BAD
    return _ATOM[text]


def text_of(x):
    k = x[0]
    if k in 'bevlL':
        return '(%s)' % x[1] if k != 'l' and k != 'L' else x[1]
    if k == 'not':
        return '(not %s)' % text_of(x[1])
    if k == 'then':
        return '(%s then %s else %s)' % tuple(text_of(y) for y in x[1:])
    return '(%s %s %s)' % (text_of(x[1]), k, text_of(x[2]))


def truth_of(b):
    return BAD if b is None else TRUE if b else FALSE


def apply(k, a, b=None, c=None):
    if k == 'not':
        return truth_of(a != TRUE) if a in (TRUE, FALSE) else BAD
    if a not in (TRUE, FALSE):
        return BAD
    if k == 'then':
        return b if a == TRUE else c
    if b not in (TRUE, FALSE, BAD):
        return BAD
    if k == 'and':
        return FALSE if a == FALSE else b
    if k == 'or':
        return TRUE if a == TRUE else b
    return BAD if b == BAD else truth_of(a != b)


def is_list(m):
    return isinstance(m, list)


def model(x):
    k = x[0]
    if k == 'b':
        return truth_of(BOOLS[x[1]])
    if k == 'e':
        return BAD
    if k == 'v':
        return atom(x[1])
    if k == 'l':
        return [truth_of(b) for b in LISTS[x[1]]]
    if k == 'L':
        return [BAD if t is None else atom(t) for t in VLISTS[x[1]]]
    ms = [model(y) for y in x[1:]]
    n = {len(m) for m in ms if is_list(m)}
    if not n:
        return apply(k, *ms)
    if len(n) > 1:
        return BAD
    return [apply(k, *[m[i] if is_list(m) else m for m in ms]) for i in range(n.pop())]


def compare(want, got):
    if is_list(want):
        return got[0] == 'list' and len(got[1]) == len(want) and all(compare(w, g) for w, g in zip(want, got[1]))
    return got == want


def k_logic(tree):
    """logic has the value of its truth tables; what is not decided on does not matter, not even when it fails"""
    text, want = text_of(tree), model(tree)
    c = fresh()
    before = table(c)
    st, r = evaluate(text, c=c)
    got = shown(r.value, r.unit, c) if st == 'ok' else BAD
    if not compare(want, got):
        return '%s is %s; expected %s' % (text, str(r)[:200] if st != 'ok' else got, want)
    if table(c) != before:
        return 'evaluating %s changed a variable' % text
    return None


def k_assign(cond):
    """a conditional that chooses a variable can be assigned to"""
    want = model(cond)
    new, old = atom('3 seconds'), [atom('1'), atom('2')]
    c = fresh()
    evaluate('left = 1', c=c)
    evaluate('right = 2', c=c)
    st, r = evaluate('%s then left else right = 3 seconds' % text_of(cond), c=c)
    st2, l = evaluate('left', c=c)
    st3, m = evaluate('right', c=c)
    got = [shown(l.value, l.unit, c), shown(m.value, m.unit, c)]
    if want == TRUE or want == FALSE:
        expect = [new, old[1]] if want == TRUE else [old[0], new]
    elif is_list(want):
        return None
    else:
        expect = old
        if st == 'ok':
            return 'assigning through %s is no error' % text_of(cond)
    return None if got == expect else 'left and right are %s after assigning to (%s then left else right); expected %s' % (got, text_of(cond), expect)


KINDS = {'logic': k_logic, 'assign': k_assign}


def r_leaf(rng, lists, values):
    x = rng.random()
    if values and x < 0.35:
        if lists and x < 0.12:
            return ['L', rng.choice(sorted(VLISTS))]
        return ['v', rng.choice(VALUES)]
    x = rng.random()
    if x < 0.6:
        return ['b', rng.choice(sorted(BOOLS))]
    if x < 0.85 or not lists:
        return ['e', rng.choice(FAILS)]
    return ['l', rng.choice(sorted(LISTS))]


def r_tree(rng, d, lists, values=False):
    if d <= 0 or rng.random() < 0.12:
        return r_leaf(rng, lists, values or rng.random() < 0.1)
    k = rng.choice(['and', 'or', 'xor', 'not', 'then', 'then'])
    if k == 'not':
        return [k, r_tree(rng, d - 1, lists)]
    if k == 'then':
        return [k, r_tree(rng, d - 1, lists), r_tree(rng, d - 1, lists, values or rng.random() < 0.3), r_tree(rng, d - 1, lists, values or rng.random() < 0.3)]
    return [k, r_tree(rng, d - 1, lists), r_tree(rng, d - 1, lists)]


def search(S):
    rng = S.rng
    leaves = [['b', 'true'], ['b', 'false'], ['b', '1 < 2'], ['b', '2 < 1'], ['l', '[true, false]'], ['l', '(1/[1, 0] == 1)'], ['L', '[1, 2]']] + [['e', t] for t in FAILS] + [['v', t] for t in VALUES]
    for a in leaves:
        S.run('logic', ['not', a])
        S.run('assign', a)
        for b in leaves:
            for k in ('and', 'or', 'xor'):
                S.run('logic', [k, a, b])
    some = leaves[:7] + leaves[7::3]
    for a in some:
        for b in some:
            for c in some:
                S.run('logic', ['then', a, b, c])
    while S.time_left():
        if rng.random() < 0.1:
            S.run('assign', r_tree(rng, rng.randint(0, 3), False))
        else:
            S.run('logic', r_tree(rng, rng.randint(1, 5), rng.random() < 0.5))
