"""C22: statistics, logarithms, exponentials and fractional powers are right to the working precision."""
import statistics
from decimal import Decimal
from fractions import Fraction

from pyvc.lib import *  # noqa: F401,F403
from pyvc import models as M
from pyvc import rat, quantity as Q
from pyvc.core import PathDone, Undecided
from pyvc.interp import LoopSpec
from pyvc.rat import Rat, term, Pow
from pyvc.values import SBase, SList
from pyvc.concrete import calc as fresh, evaluate, shown, table
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.features.numerical.numericalconstants import NumericalConstantsFeature
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.number import Number

SEARCH_SECONDS = (20, 200)
ASSUMPTIONS = [rat.ASSUMPTION, 'the elements an array function is given are numbers in one unit (C09, C15); the result is put in that unit by Operation.call (C09)',
               'rounding at the working precision (100 digits) is not modelled: these units decide the formula, the bounded search the digits']
TRUSTED = ['statistics.mean, median, mode and stdev of Decimals, correctly rounded', 'Decimal.ln and powers of Decimals, correctly rounded; ln(a) - ln(b) = ln(a/b)']

_CALC = ModularCalculator('Computing')
I_, R_ = z3.IntSort(), z3.RealSort()
LN = z3.Function('ln', R_, R_)


class Dec(Rat):
    """a Decimal that has a logarithm"""

    def __init__(self, t):
        Rat.__init__(self, t, None, Decimal)

    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'ln':
            if it.ctx.branch(self.t <= 0):
                M.raise_py(ValueError('logarithm of a number that is not positive'))
            return Dec(LN(self.t))
        if op == 'binop' and isinstance(a[1], Dec) and a[0] in ('Sub', 'Add', 'Div', 'Mult') or op == 'rbinop' and isinstance(a[1], Dec):
            r = rat.arith(it, a[0], *((self, a[1]) if op == 'binop' else (a[1], self)))
            return Dec(r.t)
        return Rat.sx(self, it, op, *a)


def the_array(ctx):
    vals = z3.Function(ctx.fresh_name('value'), I_, R_)
    n = ctx.int('length')
    ctx.inputs['length'] = n
    ctx.assume(n >= 0)

    def mk(c, i):
        return c.alloc(OperandResult(Rat(vals(i)), SOpaque('unit'), None))
    b = SBase('array', n, mk)
    b.mk_alias = False
    l = SList.of(b)
    ctx.alloc(l)
    return l, vals, n


def is_all(ctx, it, l, vals, n):
    """l holds exactly the values of the array, in order"""
    l = l if isinstance(l, SList) else None
    if l is None or not ctx.entails(l.length() == n):
        return False
    if ctx.entails(n == 0):
        return True
    p = ctx.int('p')
    ok = []

    def at():
        ctx.assume(z3.And(p >= 0, p < n))
        e = M.get_at(it, l, p)
        return term(e), vals(p)
    if ctx.branch(n >= 1):
        a, b = at()
        return a is not None and ctx.entails(a == b)
    return True


class Total(LoopSpec):
    """after k rounds the total is the sum of the first k values"""

    def __init__(self, ctx, it, S, vals):
        self.ctx, self.S, self.vals = ctx, S, vals

    def init(self, it, fr):
        self.start = {nm: term(v) for nm, v in fr.locals.items() if term(v) is not None and not isinstance(v, bool)}
        self.ctx.assume(self.S(z3.IntVal(0)) == 0)

    def havoc(self, it, fr, k):
        for nm in self.start:
            if nm in self.carried:
                fr.locals[nm] = Rat(self.start[nm] + self.S(k))

    def step(self, it, fr, k):
        ctx = self.ctx
        ctx.assume(self.S(k + 1) == self.S(k) + self.vals(k))
        for nm in self.start:
            if nm in self.carried:
                t = term(fr.locals.get(nm))
                ctx.prove('loop:%s is the sum so far' % nm, t is not None and ctx.entails(t == self.start[nm] + self.S(k + 1)))


def setup(ctx):
    it = Interp(ctx)
    rat.install(it)
    calc = mk_calc(ctx, unit_normaliser=None)
    return it, calc


def u_stat(ctx, name):
    it, calc = setup(ctx)
    l, vals, n = the_array(ctx)
    S = z3.Function(ctx.fresh_name('S'), I_, R_)
    F = {k: ctx.real('the ' + k) for k in ('mean', 'median', 'mode', 'stdev')}
    least = {'stdev': 2}

    def specs(it_, node, fr, seq):
        from pyvc.interp import stored_names
        s = Total(ctx, it, S, vals)
        s.carried = stored_names(node.body)
        return s
    it.loop_specs.append(specs)
    for k in F:
        def stat(it_, xs, *rest, k=k):
            if rest:
                raise Undecided('%s with more arguments' % k)
            ctx.prove('%s of all elements' % k, is_all(ctx, it, xs, vals, n))
            if ctx.branch(n < least.get(k, 1)):
                M.raise_py(statistics.StatisticsError('too few'))
            if k == 'mean':
                ctx.assume(F[k] * z3.ToReal(n) == S(n))
            return Dec(F[k])
        it.overrides[getattr(statistics, k)] = stat

    def total(it_, xs, start=0):
        ctx.prove('sum of all elements', is_all(ctx, it, xs, vals, n))
        return Rat(term(start) + S(n))
    it.overrides[sum] = total
    st, r = run(it, _CALC.funcs[name].ref, calc, ctx.alloc([l]), ctx.alloc([None]), ctx.alloc([None]), ctx.alloc({}))
    if st == 'raise':
        ctx.prove('error-only-for-too-few-elements', n < (0 if name == 'sum' else least.get(name, 1)), repr(r))
        ctx.cover('too few')
        return
    t = term(r.value)
    ctx.prove('a-number', t is not None and getattr(r.value, 'pyclass', Number) is Number, repr(r.value))
    if t is None:
        return
    if name == 'sum':
        ctx.prove('the-sum', t == S(n))
    elif name == 'mean':
        ctx.prove('times-the-count-is-the-sum', t * z3.ToReal(n) == S(n))
    else:
        ctx.prove('the-' + name, t == F[name])
    ctx.cover('end')


def number(ctx, name):
    """a canonical number made of an abstract numerator and denominator"""
    a, b = ctx.real(name + ' numerator'), ctx.real(name + ' denominator')
    ctx.inputs[name + ' numerator'], ctx.inputs[name + ' denominator'] = a, b
    ctx.assume(b > 0)
    x = Number.__new__(Number)
    x.num, x.den, x.number_cast = Dec(a), Dec(b), None
    ctx.alloc(x)
    q = ctx.real(name)
    ctx.assume(q * b == a)
    ctx.assume(LN(q) == LN(a) - LN(b))      # where both are positive; q is positive iff a is
    return x, q


def u_log(ctx, arity):
    it, calc = setup(ctx)
    x, q = number(ctx, 'x')
    args, b = [x], None
    if arity == 2:
        y, b = number(ctx, 'base')
        args.append(y)
        ctx.assume(LN(z3.RealVal(1)) == 0)
    quotients = {id(v): t for v, t in ([(x, q)] + ([(args[1], b)] if b is not None else []))}
    it.contracts[Number.to_decimal] = lambda it_, a, k: Dec(quotients[id(a[0])]) if id(a[0]) in quotients else NotImplemented
    it.overrides[Decimal] = lambda it_, v: v if isinstance(v, Dec) else (_ for _ in ()).throw(Undecided('Decimal of %r' % (v,)))
    unit = SOpaque('unit')
    st, r = run(it, _CALC.funcs['log'].ref, calc, ctx.alloc(args), ctx.alloc([unit, None][:arity]), ctx.alloc([None] * arity), ctx.alloc({}))
    if st == 'raise':
        ctx.prove('error-only-where-there-is-no-logarithm', z3.Or(q <= 0, *([b <= 0, LN(b) == 0] if b is not None else [])), repr(r))
        ctx.cover('no logarithm')
        return
    ctx.prove('no-logarithm-is-an-error', z3.And(q > 0, *([b > 0, LN(b) != 0] if b is not None else [])))
    t = term(r.value)
    ctx.prove('a-number', t is not None, repr(r.value))
    if t is not None:
        ctx.prove('the-logarithm', (t if b is None else t * LN(b)) == LN(q))
    ctx.cover('end')


def u_exp(ctx):
    it, calc = setup(ctx)
    x = rat.rat(ctx, 'x')
    st, r = run(it, _CALC.funcs['exp'].ref, calc, ctx.alloc([x]), ctx.alloc([SOpaque('unit')]), ctx.alloc([None]), ctx.alloc({}))
    e = Fraction(NumericalConstantsFeature.e)
    lo = sum((Fraction(1, f) for f in factorials(60)), Fraction(0))
    ctx.prove('e-to-forty-digits', abs(e - lo) < Fraction(1, 10**40))
    if st == 'raise':
        ctx.fail('no-error', repr(r))
        return
    t = term(r.value)
    ctx.prove('a-number', t is not None, repr(r.value))
    if t is not None:
        ez = z3.RealVal(str(e))
        ctx.prove('e-to-that-power', z3.Or(t == Pow(ez, x.t), z3.And(x.t == 0, t == 1)))
    ctx.cover('end')


def factorials(n):
    f = 1
    yield f
    for i in range(1, n):
        f *= i
        yield f


UNITS = [(n, lambda c, n=n: u_stat(c, n)) for n in ('sum', 'mean', 'median', 'mode', 'stdev')] + \
        [('log', lambda c: u_log(c, 1)), ('log to a base', lambda c: u_log(c, 2)), ('exp', u_exp)]

# ---------------------------------------------------------------- concrete oracle
import mpmath  # noqa: E402

mpmath.mp.dps = 170
UNIT_SETS = [[None]] * 3 + [[u for u in s if u in Q.UNITS] for s in (['meters', 'centimeters', 'feet', 'kilometers', 'miles'], ['seconds', 'minutes', 'hours'], ['grams', 'kilograms', 'pounds'])]


def lit(x, unit):
    t = str(x.numerator) if x.denominator == 1 else ('%s' % (Decimal(x.numerator) / Decimal(x.denominator)) if False else '(%d / %d)' % (x.numerator, x.denominator))
    return t if unit is None else '(%s * 1 %s)' % (t, unit) if x.denominator != 1 else '%s %s' % (t, unit)


def near(got, want, rel):
    """both Fractions"""
    return got == want or abs(got - want) <= abs(want) * rel


def k_stat(name, items, how):
    """sum, mean, median, mode, stdev of quantities, in the unit of the first"""
    c = fresh()
    xs = [(Fraction(n, d), u) for n, d, u in items]
    u0 = xs[0][1]
    vs = [x if u is None else x * Q.UNITS[u][1] / Q.UNITS[u0][1] for x, u in xs]
    n = len(vs)
    e = '[' + ', '.join(lit(x, u) for x, u in xs) + ']'
    if how == 'stored':
        if evaluate('arr = ' + e, c=c)[0] != 'ok':
            return None
        s = '%s(arr)' % name
    elif how == 'arguments' and n > 1:
        s = '%s(%s)' % (name, e[1:-1])
    else:
        s = '%s(%s)' % (name, e)
    before = table(c)
    st, r = evaluate(s, c=c)
    want = None
    if name == 'sum':
        want = sum(vs, Fraction(0))
    elif name == 'mean':
        want = sum(vs, Fraction(0)) / n
    elif name == 'median':
        o = sorted(vs)
        want = o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2
    elif name == 'mode':
        m = max(vs.count(v) for v in vs)
        want = next(v for v in vs if vs.count(v) == m)
    elif n < 2:
        return None if st != 'ok' else '%s is %s; expected an error' % (s, shown(r.value, r.unit, c))
    if st != 'ok':
        return '%s failed: %s' % (s, str(r)[:200])
    if not isinstance(r.value, Number):
        return '%s is %s' % (s, shown(r.value, r.unit, c))
    got = Q.read(r.value)
    if name == 'stdev':
        mean = sum(vs, Fraction(0)) / n
        var = sum(((v - mean) ** 2 for v in vs), Fraction(0)) / (n - 1)
        # elements are rounded to 100 digits before
        size = max(abs(v) for v in vs)
        if got < 0 or abs(got * got - var) > var * Fraction(1, 10**40) + size * size * Fraction(1, 10**90):
            return '%s is %s; the variance is %s' % (s, shown(r.value, r.unit, c), mpmath.mpf(var.numerator) / var.denominator)
    elif name == 'sum':
        if got != want:
            return '%s is %s; expected %s' % (s, shown(r.value, r.unit, c), want)
    elif not (near(got, want, Fraction(1, 10**40)) or abs(got - want) <= max(abs(v) for v in vs) * Fraction(1, 10**90)):
        return '%s is %s; expected %s' % (s, shown(r.value, r.unit, c), want)
    if Q.read_unit(r.unit) != ([(u0, 1)] if u0 else []):
        return '%s is %s; expected the unit %s' % (s, shown(r.value, r.unit, c), u0)
    if table(c) != before:
        return '%s changed a variable' % s
    return None


def mp(x):
    return mpmath.mpf(x.numerator) / x.denominator


def k_function(name, x, b):
    """log, exp and fractional powers"""
    c = fresh()
    x = Fraction(*x)
    b = None if b is None else Fraction(*b)
    want = None
    if name == 'log':
        s = 'log(%s%s)' % (lit(x, None), '' if b is None else ', ' + lit(b, None))
        if x > 0 and (b is None or b > 0 and b != 1):
            want = mpmath.log(mp(x)) / (1 if b is None else mpmath.log(mp(b)))
    elif name == 'exp':
        s = 'exp(%s)' % lit(x, None)
        want = mpmath.exp(mp(x))
    else:
        s = '%s ^ %s' % (lit(x, None) if x >= 0 else '(0 - %s)' % lit(-x, None), lit(b, None))
        if x > 0 or x == 0 and b > 0:
            want = mpmath.power(mp(x), mp(b)) if x else mpmath.mpf(0)
        elif b.denominator == 1:
            return None
    st, r = evaluate(s, c=c)
    if want is None:
        return None if st != 'ok' else '%s is %s; expected an error' % (s, shown(r.value, r.unit, c))
    if st != 'ok':
        return '%s failed: %s; expected %s' % (s, str(r)[:200], mpmath.nstr(want, 40))
    if not isinstance(r.value, Number):
        return '%s is %s' % (s, shown(r.value, r.unit, c))
    got = mp(Q.read(r.value))
    tol = mpmath.mpf(10) ** -40 * (max(1, abs(want)) if name == 'log' else abs(want))
    if abs(got - want) > tol:
        return '%s is %s; expected %s' % (s, mpmath.nstr(got, 60), mpmath.nstr(want, 60))
    return None


KINDS = {'stat': k_stat, 'function': k_function}
STATS = ['sum', 'mean', 'median', 'mode', 'stdev']


def g_num(rng):
    x = rng.random()
    if x < 0.5:
        return rng.choice([0, 1, 2, 3, 5, 10, -1, -7, 12]), 1
    if x < 0.7:
        return rng.randint(-1000, 1000), rng.choice([1, 2, 3, 7, 10, 100])
    if x < 0.85:
        return rng.randint(-10**20, 10**20), rng.choice([1, 10**10])
    return rng.choice([1, 2, 3]) * 10**20 + rng.choice([0, 1, -1]), rng.choice([1, 10**20])


def g_pos(rng):
    x = rng.random()
    if x < 0.4:
        return rng.randint(1, 30), rng.choice([1, 1, 2, 3, 7, 10])
    if x < 0.7:
        return rng.randint(1, 10**6), rng.randint(1, 10**6)
    if x < 0.85:
        return 10**rng.randint(0, 40), 1
    if x < 0.95:
        return 1, 10**rng.randint(0, 40)
    return rng.choice([10**20 + 1, 10**20 - 1]), 10**20


def search(S):
    rng = S.rng
    for b in ((1, 10), (3, 10), (2, 1), (10, 1), (3, 1), (1, 3), (10**20, 1), (1, 10**20), None):
        for x in ((1, 1000), (8, 1), (100, 1), (1, 3), (10**40, 1), (1, 10**40), (27, 1), (0, 1), (-1, 1), (1, 1)):
            S.run('function', 'log', x, b)
    for b in ((0, 1), (-2, 1), (1, 1)):
        S.run('function', 'log', (8, 1), b)
    for x in ((0, 1), (1, 1), (-1, 1), (1, 3), (100, 1), (-100, 1), (1000, 1), (-1000, 1), (1, 10**20), (355, 113)):
        S.run('function', 'exp', x, None)
    for x in ((2, 1), (4, 1), (1, 4), (10, 1), (10**40, 3), (0, 1), (-8, 1), (-4, 1), (1, 1)):
        for b in ((1, 2), (1, 3), (-1, 2), (5, 2), (-7, 3), (1, 10), (99, 100)):
            S.run('function', 'power', x, b)
    for name in STATS:
        for items in ([(1, 1, None)], [(1, 1, None), (2, 1, None)], [(3, 1, None), (1, 1, None), (2, 1, None)], [(1, 3, None), (1, 3, None), (1, 1, None), (1, 1, None)], [(10**20 + 1, 1, None), (10**20, 1, None), (10**20 + 1, 1, None)],
                      [(1, 1, 'meters'), (3, 1, 'feet'), (50, 1, 'centimeters')], [(4, 1, None), (1, 1, None), (3, 1, None), (2, 1, None)], [(i % 7, 1, None) for i in range(60)], [(i, 1, 'seconds') for i in range(1, 41)]):
            for how in ('array', 'stored', 'arguments'):
                S.run('stat', name, items, how)
    while S.time_left():
        if rng.random() < 0.6:
            us = rng.choice(UNIT_SETS)
            n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 17])
            items = [g_num(rng) + (rng.choice(us),) for _ in range(n)]
            if rng.random() < 0.5:
                items = [rng.choice(items) for _ in range(n)]
            S.run('stat', rng.choice(STATS), items, rng.choice(['array', 'stored', 'arguments']))
        else:
            name = rng.choice(['log', 'log', 'exp', 'power', 'power'])
            if name == 'log':
                b = g_pos(rng) if rng.random() < 0.7 else None
                if b is not None and abs(Fraction(*b) - 1) < Fraction(1, 50) and b[0] != b[1]:
                    continue
                S.run('function', name, g_pos(rng), b)
            elif name == 'exp':
                S.run('function', name, (rng.randint(-1000, 1000), 1) if rng.random() < 0.5 else (rng.randint(-10**6, 10**6), rng.randint(10**4, 10**7)), None)
            else:
                S.run('function', name, g_pos(rng), (rng.randint(-50, 50), rng.choice([2, 3, 4, 7, 10, 100])))
