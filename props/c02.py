"""C02: comparisons, min, max and sort follow the exact order of the rationals."""
from pyvc.lib import *  # noqa: F401,F403
from modularcalculator.objects.number import Number
from modularcalculator.objects.items import OperandResult

CMPS = {
    'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'eq': lambda x, y: x == y,
    'ne': lambda x, y: x != y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
}
OPS = {'op_number_lessthan': 'lt', 'op_number_lessthanequal': 'le', 'op_number_equals': 'eq', 'op_number_notequals': 'ne',
       'op_number_morethan': 'gt', 'op_number_morethanequal': 'ge'}
PYOP = {'lt': 'Lt', 'le': 'LtE', 'eq': 'Eq', 'ne': 'NotEq', 'gt': 'Gt', 'ge': 'GtE'}


def truth_term(r):
    if isinstance(r, SBool):
        return r.t
    if isinstance(r, bool):
        return z3.BoolVal(r)
    return None


def cmp_unit(name):
    def u(ctx):
        it = Interp(ctx)
        a, b = mk_number(it, 'a', cast={'m': 1}), mk_number(it, 'b')
        try:
            r = it.compare(PYOP[name], a, b)
        except PyRaise as p:
            ctx.fail(name + ':no-exception', repr(p.exc))
            return
        t = truth_term(r)
        ctx.prove(name + ':returns-bool', t is not None)
        ctx.prove(name + ':agrees-with-the-rationals', t == CMPS[name](a._ghost, b._ghost))
        ctx.cover(name)
    return u


def trichotomy(ctx):
    """exactly one of <, ==, > holds between two numbers; one shared pair of operands"""
    it = Interp(ctx)
    a, b = mk_number(it, 'a'), mk_number(it, 'b')
    ts = {k: truth_term(it.compare(PYOP[k], a, b)) for k in CMPS}
    ctx.prove('trichotomy:at-least-one', z3.Or(ts['lt'], ts['eq'], ts['gt']))
    ctx.prove('trichotomy:at-most-one', z3.Not(z3.Or(z3.And(ts['lt'], ts['eq']), z3.And(ts['lt'], ts['gt']), z3.And(ts['eq'], ts['gt']))))
    ctx.prove('trichotomy:le', ts['le'] == z3.Or(ts['lt'], ts['eq']))
    ctx.prove('trichotomy:ge', ts['ge'] == z3.Or(ts['gt'], ts['eq']))
    ctx.prove('trichotomy:ne', ts['ne'] == z3.Not(ts['eq']))
    ctx.cover('trichotomy')


def op_unit(fn, name):
    def u(ctx):
        from modularcalculator.features.boolean.booleans import BooleansFeature
        it = Interp(ctx)
        a, b = mk_number(it, 'a'), mk_number(it, 'b')
        st, r = run(it, getattr(BooleansFeature, fn), None, [a, b], [None, None], [None, None], {})
        if st == 'raise':
            ctx.fail(fn + ':no-exception', repr(r))
            return
        t = truth_term(r.value)
        ctx.prove(fn + ':returns-bool', t is not None)
        ctx.prove(fn + ':agrees-with-the-rationals', t == CMPS[name](a._ghost, b._ghost))
        ctx.prove(fn + ':no-unit', (not r.unit_override) or r.unit is None)
        ctx.cover(fn)
    return u


def elements(it, name='vals'):
    """a list of unknown length of operand results prepared by Operation.call"""
    ctx = it.ctx

    def mk(c, i):
        e = OperandResult.__new__(OperandResult)
        e.value = mk_number(it, 'e')
        e.unit = SOpaque('unit')
        e.ref = SOpaque('ref')
        e.original_value = SOpaque('original value')
        e.original_unit = SOpaque('original unit')
        return e
    n = ctx.int('n')
    ctx.assume(n >= 0)
    base = SBase(name, n, mk)
    return base, SList.of(base)


def best_unit(fn, worse):
    def u(ctx):
        from modularcalculator.features.numerical.statisticalfunctions import StatisticalFunctionsFeature
        it = Interp(ctx)
        base, vals = elements(it)
        p = ctx.int('p')
        it.skolems.append(p)
        st, r = run(it, getattr(StatisticalFunctionsFeature, fn), None, [vals], [None], [None], {})
        if st == 'raise':
            ctx.prove(fn + ':error-only-for-an-empty-list', base.n == 0)
            return
        hits = [(i, e) for i, e in base.memo if e.original_value is r.value]
        ctx.prove(fn + ':returns-an-element', len(hits) == 1)
        if len(hits) != 1:
            return
        m, best = hits[0]
        ctx.prove(fn + ':element-in-range', z3.And(m >= 0, m < base.n))
        ctx.prove(fn + ':with-its-unit', r.unit_override and r.unit is best.original_unit)
        ctx.assume(z3.And(p >= 0, p < base.n))
        x = base.get(ctx, p)
        ctx.prove(fn + ':no-element-beats-it', z3.Not(worse(x.value._ghost, best.value._ghost)))
        ctx.cover(fn)
    return u


def sort_unit(ctx):
    from modularcalculator.features.arrays.arrayfunctions import ArrayFunctionsFeature
    it = Interp(ctx)
    base, vals = elements(it)
    before = list(vals.chunks)
    st, r = run(it, ArrayFunctionsFeature.func_array_sort, None, [vals], [None], [None], {})
    if st == 'raise':
        ctx.fail('sort:no-exception', repr(r))
        return
    out = r.value
    if not isinstance(out, SList):
        ctx.fail('sort:returns-a-list', repr(out))
        return
    ctx.prove('sort:same-length', out.length() == base.n)
    ctx.prove('sort:argument-list-unchanged', vals is not out and vals.chunks == before)
    i, j = ctx.int('i'), ctx.int('j')
    ctx.assume(z3.And(0 <= i, i < j, j < base.n))
    x, y = M.get_at(it, out, i), M.get_at(it, out, j)
    ins = [e for _, e in base.memo]
    ctx.prove('sort:elements-come-from-the-input', any(x is e for e in ins) and any(y is e for e in ins))
    ctx.prove('sort:no-element-twice', x is not y)
    ctx.prove('sort:ascending', x.value._ghost <= y.value._ghost)
    ctx.cover('sort')


UNITS = ([('Number.__%s__' % n, cmp_unit(n)) for n in CMPS] + [('trichotomy', trichotomy)]
         + [(f, op_unit(f, n)) for f, n in OPS.items()]
         + [('func_min', best_unit('func_min', lambda x, m: x < m)), ('func_max', best_unit('func_max', lambda x, m: x > m)),
            ('func_array_sort', sort_unit)])


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
from pyvc.concrete import evaluate, to_py, calc

SYM = {'<': 'lt', '<=': 'le', '==': 'eq', '!=': 'ne', '>': 'gt', '>=': 'ge'}


def lit(f, form):
    f = Fraction(f)
    s = '-' if f < 0 else ''
    n, d = abs(f.numerator), f.denominator
    if form == 1 and d == 1 and n < 10 ** 18:
        body = hex(n)
    elif form == 2 and d == 1 and n < 10 ** 18:
        body = bin(n)
    elif form == 3 and d == 1 and n < 10 ** 18:
        body = '0o%o' % n
    else:
        body = '%d' % n
    if d != 1:
        body = '(%s / %d)' % (body, d)
    return '(0 - %s)' % body if s else body


def k_cmp(a, fa, b, fb):
    x, y = Fraction(a), Fraction(b)
    for op, n in SYM.items():
        e = '%s %s %s' % (lit(a, fa), op, lit(b, fb))
        st, r = evaluate(e)
        if st == 'error':
            return '%s: error %s' % (e, r)
        want = bool(CMPS[n](x, y))
        if r.value is not want:
            return '%s: expected %s, got %r' % (e, want, r.value)
    return None


def k_number_cmp(a, b):
    calc()
    x, y = Fraction(a), Fraction(b)
    m, n = Number(x.numerator, x.denominator), Number(y.numerator, y.denominator)
    import operator
    for k, f in CMPS.items():
        if bool(getattr(operator, k)(m, n)) != bool(f(x, y)):
            return '%s %s %s: got %s' % (a, k, b, not f(x, y))
    if x == y and hash(m) != hash(n):
        return 'equal numbers with different hashes: %s' % a
    return None


def k_list(vals, forms):
    fr = [Fraction(v) for v in vals]
    arr = '[' + ', '.join(lit(v, f) for v, f in zip(vals, forms)) + ']'
    for fn, want in (('min', min(fr)), ('max', max(fr)), ('sort', sorted(fr))):
        e = '%s(%s)' % (fn, arr)
        st, r = evaluate(e)
        if st == 'error':
            return '%s: error %s' % (e, r)
        got = to_py(r.value)
        if got != want:
            return '%s: expected %s, got %s' % (e, want, got)
    return None


def k_units(vals, units, fn):
    """min/max over quantities: the element that is extreme in metres"""
    scale = {'metres': Fraction(1), 'feet': Fraction(3048, 10000), 'km': Fraction(1000), 'inches': Fraction(254, 10000)}
    e = '%s([%s])' % (fn, ', '.join('%s %s' % (lit(v, 0), u) for v, u in zip(vals, units)))
    st, r = evaluate(e)
    if st == 'error':
        return '%s: error %s' % (e, r)
    q = [Fraction(v) * scale[u] for v, u in zip(vals, units)]
    best = (min if fn == 'min' else max)(q)
    unit = {'meter': 'metres', 'metre': 'metres', 'foot': 'feet', 'kilometer': 'km', 'kilometre': 'km', 'inch': 'inches'}
    hits = [(Fraction(v), u) for v, u, w in zip(vals, units, q) if w == best]
    got = to_py(r.value)
    name = r.unit.singular() if r.unit is not None else None
    if not any(got == v for v, u in hits):
        return '%s: expected one of %s, got %s %s' % (e, hits, got, name)
    for v, u in hits:
        if got == v and unit.get(str(name)) in (u, None):
            return None
    return '%s: expected one of %s, got %s %s' % (e, hits, got, name)


KINDS = {'cmp': k_cmp, 'number': k_number_cmp, 'list': k_list, 'units': k_units}


def rand_frac(rng):
    m = rng.randrange(6)
    if m == 0:
        return Fraction(rng.randrange(-20, 20))
    if m == 1:
        return Fraction(rng.randrange(-50, 50), rng.randrange(1, 30))
    if m == 2:
        return Fraction(rng.randrange(-10 ** 12, 10 ** 12), rng.randrange(1, 10 ** 6))
    if m == 3:
        return Fraction(rng.randrange(-10 ** 24, 10 ** 24), rng.randrange(1, 10 ** 24))
    if m == 4:
        return Fraction(rng.choice([-1, 1]), rng.randrange(1, 10 ** 20))
    return Fraction(rng.randrange(-10 ** 24, 10 ** 24))


def near(rng, x):
    d = rng.randrange(1, 10 ** rng.randrange(1, 24))
    y = Fraction(round(x * d), d)
    if abs(y.numerator) > 10 ** 24:
        y = x
    return y


def search(S):
    edge = ['0', '1', '-1', '1/2', '-1/2', '1/3', '2/3', '100', '255', '-255', '1/1000000', '-1/1000000']
    for a in edge:
        for b in edge:
            S.run('number', a, b)
            S.run('cmp', a, 0, b, S.rng.randrange(4))
    while S.time_left():
        m = S.rng.random()
        x = rand_frac(S.rng)
        y = rand_frac(S.rng) if S.rng.random() < 0.4 else near(S.rng, x)
        if m < 0.5:
            S.run('number', str(x), str(y))
        elif m < 0.7:
            S.run('cmp', str(x), S.rng.randrange(4), str(y), S.rng.randrange(4))
        elif m < 0.9:
            n = S.rng.randrange(1, 8)
            vals = [x, y] + [rand_frac(S.rng) if S.rng.random() < 0.5 else near(S.rng, x) for _ in range(n)]
            S.rng.shuffle(vals)
            S.run('list', [str(v) for v in vals[:n]], [S.rng.randrange(4) for _ in range(n)])
        else:
            n = S.rng.randrange(1, 5)
            S.run('units', [str(S.rng.randrange(1, 40)) for _ in range(n)],
                  [S.rng.choice(['metres', 'feet', 'km', 'inches']) for _ in range(n)], S.rng.choice(['min', 'max']))
