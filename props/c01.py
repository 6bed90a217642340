"""C01: rational arithmetic is exact and canonical."""
from pyvc.lib import *  # noqa: F401,F403
from modularcalculator.objects.number import Number
import operator

OPS = {
    '__add__': lambda a, b: a + b,
    '__sub__': lambda a, b: a - b,
    '__mul__': lambda a, b: a * b,
}


def u_init(ctx):
    it = Interp(ctx)
    num = sym_dec(ctx, 'num', (2, 2))
    den = sym_dec(ctx, 'den', (2, 2))
    st, r = run(it, Number, num, den)
    if st == 'raise':
        ctx.prove('init:raises-only-for-zero-denominator', den.t == 0)
        return
    ctx.prove('init:zero-denominator-is-refused', den.t != 0)
    prove_invariant(it, r, 'init')
    ctx.prove('init:exact-value', T(r.num) * den.t == num.t * T(r.den))
    ctx.cover('init')


def binary(name, spec):
    def u(ctx):
        it = Interp(ctx)
        cast = {'marker': 1}
        a = mk_number(it, 'a', cast=cast)
        b = mk_number(it, 'b')
        an, ad, bn, bd = a.num, a.den, b.num, b.den
        st, r = run(it, getattr(Number, name), a, b)
        if st == 'raise':
            ctx.fail(name + ':no-exception', repr(r))
            return
        prove_invariant(it, r, name)
        prove_value(it, r, spec(a._ghost, b._ghost), name, cast)
        ctx.prove(name + ':operands-unchanged', a.num is an and a.den is ad and b.num is bn and b.den is bd)
        ctx.cover(name)
    return u




def u_truediv(ctx):
    it = Interp(ctx)
    cast = {'marker': 1}
    a, b = mk_number(it, 'a', cast=cast), mk_number(it, 'b')
    st, r = run(it, Number.__truediv__, a, b)
    if st == 'raise':
        ctx.prove('__truediv__:raises-only-on-zero', b.num.t == 0)
        return
    ctx.prove('__truediv__:zero-divisor-refused', b.num.t != 0)
    prove_invariant(it, r, '__truediv__')
    ctx.prove('__truediv__:exact-value', T(r.num) * a.den.t * b.num.t == a.num.t * b.den.t * T(r.den))
    ctx.prove('__truediv__:keeps-representation', r.number_cast is cast)
    ctx.cover('__truediv__')


def u_mod(ctx):
    it = Interp(ctx)
    a, b = mk_number(it, 'a'), mk_number(it, 'b')
    st, r = run(it, Number.__mod__, a, b)
    if st == 'raise':
        ctx.prove('__mod__:raises-only-on-zero', b.num.t == 0)
        return
    ctx.prove('__mod__:zero-divisor-refused', b.num.t != 0)
    prove_invariant(it, r, '__mod__')
    rv = value_of(it, r)
    # a == b*q + r for an integer q, |r| < |b|, r has the sign of a
    dm = list(ctx.notes_tab('divmod').values())
    if len(dm) == 1:
        q = dm[0][0]
        ctx.prove('__mod__:integer-quotient', z3.And(z3.IsInt(q), a._ghost == b._ghost * q + rv))
    else:
        k = ctx.int('q')
        ctx.prove('__mod__:integer-quotient', z3.Exists([k], a._ghost == b._ghost * z3.ToReal(k) + rv))
    absb = z3.If(b._ghost >= 0, b._ghost, -b._ghost)
    absr = z3.If(rv >= 0, rv, -rv)
    ctx.prove('__mod__:smaller-than-divisor', absr < absb)
    ctx.prove('__mod__:sign-of-dividend', z3.If(a._ghost >= 0, rv >= 0, rv <= 0))
    ctx.cover('__mod__')


def unary(name, spec):
    def u(ctx):
        it = Interp(ctx)
        cast = {'marker': 1}
        a = mk_number(it, 'a', cast=cast)
        an, ad = a.num, a.den
        st, r = run(it, getattr(Number, name), a)
        if st == 'raise':
            ctx.fail(name + ':no-exception', repr(r))
            return
        prove_invariant(it, r, name)
        prove_value(it, r, spec(a._ghost), name, cast)
        ctx.prove(name + ':operand-unchanged', a.num is an and a.den is ad and a.number_cast is cast)
        ctx.cover(name)
    return u


def u_pow(ctx):
    it = Interp(ctx)
    ctx.notes_tab('powbound')['bound'] = (1, 2)
    cast = {'marker': 1}
    a = mk_number(it, 'a', cast=cast)
    b = mk_number(it, 'k', integer=True)
    st, r = run(it, Number.__pow__, a, b)
    k = b.num.t
    if st == 'raise':
        ctx.prove('__pow__:raises-only-on-zero-base', z3.And(a.num.t == 0, k <= 0))
        return
    prove_invariant(it, r, '__pow__')
    n, d = a.num.t, a.den.t
    if ctx.branch(k >= 0):
        P, Q = M.ipow(it, n, k), M.ipow(it, d, k)
    else:
        P, Q = M.ipow(it, d, -k), M.ipow(it, n, -k)
        ctx.prove('__pow__:zero-base-refused', n != 0)
    ctx.prove('__pow__:exact-value', T(r.num) * Q == P * T(r.den))
    ctx.prove('__pow__:keeps-representation', r.number_cast is cast)
    ctx.cover('__pow__')


def u_floordiv(ctx):
    it = Interp(ctx)
    a, b = mk_number(it, 'a'), mk_number(it, 'b')
    st, r = run(it, Number.__floordiv__, a, b)
    if st == 'raise':
        ctx.prove('__floordiv__:raises-only-on-zero', b.num.t == 0)
        return
    prove_invariant(it, r, '__floordiv__')
    q = M.quotient(it, a._ghost, b._ghost)
    ctx.prove('__floordiv__:floor', z3.And(T(r.den) == 1, z3.IsInt(T(r.num)), T(r.num) <= q, q < T(r.num) + 1))
    ctx.cover('__floordiv__')


def op_unit(cls_name, fn_name, module, spec, zero_guard=False):
    """an operator implementation, called as Operation.call calls it (unit-less operands)"""
    def u(ctx):
        import importlib
        it = Interp(ctx)
        cls = getattr(importlib.import_module(module), cls_name)
        a, b = mk_number(it, 'a'), mk_number(it, 'b')
        st, r = run(it, getattr(cls, fn_name), None, [a, b], [None, None], [None, None], {})
        if st == 'raise':
            ctx.prove(fn_name + ':raises-only-on-zero', (b.num.t == 0) if zero_guard else z3.BoolVal(False), repr(r))
            return
        v = r.value
        prove_invariant(it, v, fn_name)
        if zero_guard:
            ctx.prove(fn_name + ':zero-divisor-refused', b.num.t != 0)
            ctx.prove(fn_name + ':exact-value', T(v.num) * a.den.t * b.num.t == a.num.t * b.den.t * T(v.den))
        else:
            prove_value(it, v, spec(a._ghost, b._ghost), fn_name)
        ctx.prove(fn_name + ':no-unit', not r.unit_override or r.unit is None)
        ctx.cover(fn_name)
    return u


def u_init_decimal(ctx):
    """Number(x) for a Decimal with fraction digits: x = p/q with q a power of ten"""
    it = Interp(ctx)
    x = M.SNum(ctx.real('x'), 'dec', False, None)
    p, q = ctx.real('p'), ctx.real('q')
    ctx.assume(z3.And(z3.IsInt(p), z3.IsInt(q), q >= 1, x.t * q == p))
    x.bound = (1, 1)
    x.ratio = (SNum(p, 'int', True, (1, 1)), SNum(q, 'int', True, (1, 1)))
    st, r = run(it, Number, x)
    if st == 'raise':
        ctx.fail('init-decimal:no-exception', repr(r))
        return
    prove_invariant(it, r, 'init-decimal')
    ctx.prove('init-decimal:exact-value', T(r.num) == x.t * T(r.den))
    ctx.cover('init-decimal')


def u_intdiv(ctx):
    """`\\`: the quotient of the '/' operator, truncated towards zero"""
    from modularcalculator.features.numerical.advancedarithmetic import AdvancedArithmeticFeature
    from modularcalculator.objects.items import OperandResult
    it = Interp(ctx)
    a, b = mk_number(it, 'a'), mk_number(it, 'b')
    ctx.assume(b.num.t != 0)
    got = []

    def div(it2, calculator, inputs, flags):
        got.append([i.value for i in inputs])
        st, r = run(it, Number.__truediv__, inputs[0].value, inputs[1].value)
        return OperandResult(r, None, None)
    op = SOpaque('division', attrs={'call': Stub(div)})
    c = SOpaque('calculator', attrs={'ops_list': {'/': op}})
    st, r = run(it, AdvancedArithmeticFeature.op_number_integer_divide, c, [a, b], [None, None], [None, None], {})
    if st == 'raise':
        ctx.fail('integer-divide:no-exception', repr(r))
        return
    ctx.prove('integer-divide:divides-its-operands', len(got) == 1 and got[0][0] is a and got[0][1] is b)
    v = r.value
    prove_invariant(it, v, 'integer-divide')
    q = M.quotient(it, a._ghost, b._ghost)
    n = T(v.num)
    ctx.prove('integer-divide:integer', T(v.den) == 1)
    ctx.prove('integer-divide:truncates', z3.If(q >= 0, z3.And(n <= q, q < n + 1), z3.And(n - 1 < q, q <= n)))
    ctx.cover('integer-divide')


BA = ('BasicArithmeticFeature', 'modularcalculator.features.numerical.basicarithmetic')
UNITS = ([('Number.__init__', u_init), ('Number.__init__(fractional)', u_init_decimal)]
         + [('Number.' + n, binary(n, s)) for n, s in OPS.items()]
         + [('Number.__truediv__', u_truediv), ('Number.__mod__', u_mod), ('Number.__pow__', u_pow), ('Number.__floordiv__', u_floordiv),
            ('op_number_integer_divide', u_intdiv)]
         + [('Number.' + n, unary(n, s)) for n, s in
            [('__neg__', lambda a: -a), ('__pos__', lambda a: a), ('__abs__', lambda a: z3.If(a >= 0, a, -a)), ('copy', lambda a: a)]]
         + [(fn, op_unit(BA[0], fn, BA[1], sp, z)) for fn, sp, z in
            [('op_number_add', lambda a, b: a + b, False), ('op_number_subtract', lambda a, b: a - b, False),
             ('op_number_multiply', lambda a, b: a * b, False), ('op_number_divide', None, True)]])


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
from pyvc.concrete import canonical, evaluate, to_py, calc

LIMIT = 10 ** 24


class Skip(Exception):
    pass


def ideal(t):
    """value of an expression tree over the rationals; None = error"""
    op = t[0]
    if op == 'lit':
        return Fraction(t[1])
    xs = [ideal(x) for x in t[1:]]
    if any(x is None for x in xs):
        return None
    if op == '+':
        r = xs[0] + xs[1]
    elif op == '-':
        r = xs[0] - xs[1]
    elif op == '*':
        r = xs[0] * xs[1]
    elif op == '/':
        if xs[1] == 0:
            return None
        r = xs[0] / xs[1]
    elif op == '%':
        if xs[1] == 0:
            return None
        q = xs[0] / xs[1]
        q = Fraction(int(q))            # towards zero
        r = xs[0] - xs[1] * q
    elif op == '\\':
        if xs[1] == 0:
            return None
        q = xs[0] / xs[1]
        r = Fraction(int(q))
    elif op == '^':
        if xs[1].denominator != 1 or abs(xs[1]) > 12:
            raise Skip()
        if xs[0] == 0 and xs[1] <= 0:
            return None
        r = xs[0] ** int(xs[1])
    elif op == 'abs':
        r = abs(xs[0])
    else:
        raise ValueError(op)
    if abs(r.numerator) > LIMIT or r.denominator > LIMIT:
        raise Skip()
    return r


def render(t):
    op = t[0]
    if op == 'lit':
        return t[1] if t[1][0] != '-' else '(0%s)' % t[1]
    if op == 'abs':
        return 'abs(%s)' % render(t[1])
    return '(%s %s %s)' % (render(t[1]), op, render(t[2]))


def k_expr(tree):
    try:
        want = ideal(tree)
    except Skip:
        return None
    text = render(tree)
    st, r = evaluate(text)
    if st == 'error':
        return None if want is None else '%s: expected %s, got an error: %s' % (text, want, r)
    if want is None:
        return '%s: expected an error, got %s' % (text, to_py(r.value))
    got = to_py(r.value)
    if got != want:
        return '%s: expected %s, got %s' % (text, want, got)
    c = canonical(r.value)
    return '%s: %s' % (text, c) if c else None


def k_number(op, a, b):
    calc()
    x, y = Number(a), Number(b)
    for n, s in ((x, a), (y, b)):
        c = canonical(n)
        if c:
            return 'Number(%r): %s' % (s, c)
        if Fraction(int(n.num), int(n.den)) != Fraction(s):
            return 'Number(%r) is %s/%s' % (s, n.num, n.den)
    fx, fy = Fraction(a), Fraction(b)
    import math as _m
    f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '%': operator.mod}[op]
    if op in '/%' and fy == 0:
        try:
            r = f(x, y)
        except Exception:
            return None
        return '%s %s %s gave %r' % (a, op, b, r)
    want = {'+': lambda: fx + fy, '-': lambda: fx - fy, '*': lambda: fx * fy, '/': lambda: fx / fy,
            '%': lambda: fx - fy * Fraction(int(fx / fy))}[op]()
    before = (x.num, x.den, y.num, y.den)
    r = f(x, y)
    if (x.num, x.den, y.num, y.den) != before:
        return '%s %s %s changed an operand' % (a, op, b)
    if Fraction(int(r.num), int(r.den)) != want:
        return '%s %s %s: expected %s, got %r' % (a, op, b, want, r)
    c = canonical(r)
    return '%s %s %s: %s' % (a, op, b, c) if c else None


KINDS = {'expr': k_expr, 'number': k_number}


def rand_lit(rng):
    m = rng.randrange(7)
    if m == 0:
        return str(rng.randrange(0, 12))
    if m == 1:
        return '%d.%d' % (rng.randrange(100), rng.randrange(1, 1000))
    if m == 2:
        return str(rng.randrange(10 ** rng.randrange(1, 18)))
    if m == 3:
        return '-%d' % rng.randrange(1, 10 ** rng.randrange(1, 10))
    if m == 4:
        return '0.%s%d' % ('0' * rng.randrange(0, 12), rng.randrange(1, 1000))
    if m == 5:
        return '-%d.%d' % (rng.randrange(50), rng.randrange(1, 100))
    return str(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 60, 100, 360]))


def rand_tree(rng, depth):
    if depth == 0 or rng.random() < 0.15:
        return ['lit', rand_lit(rng)]
    op = rng.choice('++--**//%\\^a')
    if op == 'a':
        return ['abs', rand_tree(rng, depth - 1)]
    if op == '^':
        return ['^', rand_tree(rng, depth - 1), ['lit', str(rng.randrange(-5, 7))]]
    return [op, rand_tree(rng, depth - 1), rand_tree(rng, depth - 1)]


def search(S):
    edge = ['0', '1', '-1', '2', '-2', '3', '10', '0.1', '-0.1', '0.5', '1.5', '-2.5', '7', '-7', '12', '999999999999', '0.000000001',
            '100000000000000000000', '6', '4', '0.25']
    for op in '+-*/%':
        for a in edge:
            for b in edge:
                S.run('number', op, a, b)
    for op in '+-*/%\\':
        for a in edge[:14]:
            for b in edge[:14]:
                S.run('expr', [op, ['lit', a], ['lit', b]])
    for a in edge[:14]:
        for k in range(-4, 6):
            S.run('expr', ['^', ['lit', a], ['lit', str(k)]])
    while S.time_left():
        if S.rng.random() < 0.5:
            S.run('number', S.rng.choice('+-*/%'), rand_lit(S.rng), rand_lit(S.rng))
        else:
            S.run('expr', rand_tree(S.rng, S.rng.randrange(1, 5)))
