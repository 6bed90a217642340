"""C08: conversion between units is exact, reversible and dimension-checked."""
import functools
from fractions import Fraction as F
from pyvc.lib import *  # noqa: F401,F403
from pyvc import concrete as CC, quantity as Q
from modularcalculator.objects.number import Number

from pyvc import rat as R
from pyvc.core import PyRaise
from modularcalculator.objects.units import UnitDefinition, UnitPower, UnitPowerList, DimensionPower, DimensionPowerList, AbstractPowerList
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.services.unitnormaliser import UnitNormaliser
from modularcalculator.features.units.units import UnitsFeature
from modularcalculator.features.unitdefinitions import temperature as TEMP

ASSUMPTIONS = [R.ASSUMPTION, 'Pow(s, p) stands for the p-th power of a scale; only Pow(s, 0) = 1, Pow(s, 1) = s, Pow(s, -p) * Pow(s, p) = 1 and positivity are used',
               'unit_normalised_dimensionlist gives the exponents of the base dimensions (compared with an independent computation by the concrete oracle)']
TRUSTED = ['data/units.json: names, dimensions and scales of the installed units, written down once']


def mk_unit(ctx, name, cls=UnitDefinition):
    u = cls.__new__(cls)
    s = ctx.real(name + '.scale')
    ctx.assume(s > 0)
    u.__dict__['unitscale'] = R.Rat(s)
    u._s = s
    return ctx.alloc(u)


def u_unit_convert(ctx):
    """a plain unit: the number is divided by scale^power, whatever the mode"""
    it = Interp(ctx)
    R.install(it)
    u = mk_unit(ctx, 'u')
    x, p = R.rat(ctx, 'x'), R.rat(ctx, 'p')
    rel = ctx.choose(2, 'relative') == 0
    st, r = run(it, UnitDefinition.convert, u, x, p, rel)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('exact-ratio', r.t * R.Pow(u._s, p.t) == x.t if not z3.is_rational_value(p.t) else True)
    ctx.cover('end')
    st, f = run(it, UnitDefinition.convertfrom, u, x, rel)
    ctx.prove('convertfrom-multiplies-by-the-scale', st == 'ok' and ctx.entails(f.t == x.t * u._s))
    st, b = run(it, UnitDefinition.convertto, u, f, rel)
    ctx.prove('convertto-undoes-convertfrom', st == 'ok' and ctx.entails(b.t == x.t))


def u_temperature(ctx, cls, to_k):
    """the affine scales: kelvin = a * x + b, exactly, and back"""
    it = Interp(ctx)
    R.install(it)
    u = cls()
    ctx.alloc(u)
    x = R.rat(ctx, 'x')
    a, b = [z3.RealVal(str(v)) for v in to_k]
    st, k = run(it, cls.convert, u, x, Number(-1), False)
    ctx.prove('to-kelvin', st == 'ok' and ctx.entails(k.t == a * x.t + b))
    st, y = run(it, cls.convert, u, k, Number(1), False)
    ctx.prove('back-to-the-same-number', st == 'ok' and ctx.entails(y.t == x.t))
    st, d = run(it, cls.convert, u, x, Number(-1), True)
    ctx.prove('difference-to-kelvin', st == 'ok' and ctx.entails(d.t == a * x.t))
    st, e = run(it, cls.convert, u, d, Number(1), True)
    ctx.prove('difference-back', st == 'ok' and ctx.entails(e.t == x.t))
    ctx.cover('end')


W = z3.Function('W', z3.IntSort(), z3.RealSort())       # W(k): product of the first k factors scale_i ^ (power_i * power)


class ConvertLoop(LoopSpec):
    """invariant: num * W(k) = the number given"""

    def __init__(self, x, base, n, term, lone):
        self.x, self.base, self.n, self.fac, self.lone = x, base, n, term, lone

    def init(self, it, fr):
        self.names = [nm for nm, v in fr.locals.items() if v is self.x]
        it.ctx.assume(W(z3.IntVal(0)) == 1)

    def at(self, it, fr, k):
        it.ctx.assume(W(k) > 0)
        v = R.rat(it.ctx, 'num')
        it.ctx.assume(v.t * W(k) == self.x.t)
        for nm in self.names:
            fr.locals[nm] = v

    def havoc(self, it, fr, k):
        self.at(it, fr, k)

    def step(self, it, fr, k):
        f = self.fac(k)
        it.ctx.assume(W(k + 1) == W(k) * f)
        nums = [fr.locals[nm] for nm in self.names if fr.locals.get(nm) is not self.x]
        it.ctx.prove('converted-by-one-more-factor', z3.Or(*[v.t * W(k + 1) == self.x.t for v in nums if isinstance(v, R.Rat)]))

    def exit(self, it, fr, n):
        self.at(it, fr, n)

    def may_write(self, obj):
        return False


def u_list_convert(ctx):
    """a compound unit: one factor for each of its units; offsets only for a unit on its own"""
    it = Interp(ctx)
    R.install(it)
    n = ctx.int('n')
    ctx.assume(n >= 0)

    def mk(c, i):
        o = UnitPower.__new__(UnitPower)
        o.unit = mk_unit(c, 'unit')
        o.power = R.rat(c, 'upower')
        return c.alloc(o)
    base = SBase('units', n, mk)
    base.mk_alias = False
    l = UnitPowerList.__new__(UnitPowerList)
    l._objects = ctx.alloc(SList.of(base))
    ctx.alloc(l)
    x = R.rat(ctx, 'x')
    power = Number(1) if ctx.choose(2, 'dir') == 0 else Number(-1)
    pw = z3.RealVal(1 if power == Number(1) else -1)
    rel = ctx.choose(2, 'relative') == 0
    calls = []

    def conv(it_, args, kw):
        u, num, p, relative = args
        calls.append((u, p, relative))
        v = R.rat(ctx, 'step')
        ctx.assume(v.t * R.power(it_, u._s, R.term(p)) == num.t)
        return v
    it.contracts[UnitDefinition.convert] = conv

    def fac(k):
        o = base.get(ctx, k)
        ctx.prove('one-conversion-for-this-unit', len(calls) == 1 and calls[0][0] is o.unit)
        ctx.prove('its-power-times-the-direction', R.term(calls[0][1]) == o.power.t * pw)
        ctx.prove('offset-only-for-a-unit-on-its-own', z3.Or(z3.BoolVal(bool(calls[0][2] is True)), z3.And(n == 1, base.get(ctx, z3.IntVal(0)).power.t == 1) if not rel else z3.BoolVal(False)))
        if rel:
            ctx.prove('relative-stays-relative', calls[0][2] is True)
        return R.power(it, o.unit._s, R.term(calls[0][1]))
    sp = ConvertLoop(x, base, n, fac, None)
    it.loop_specs.append(lambda it_, node, fr, seq: sp)
    st, r = run(it, UnitPowerList.convert, l, x, power, rel)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('divided-by-the-product-of-all-factors', r.t * W(n) == x.t)
    ctx.cover('end')


def u_conversion(ctx):
    """unit_conversion: equal units -> unchanged; no unit or other dimensions -> error; else the ratio of the scales"""
    it = Interp(ctx)
    R.install(it)

    class GU(SExt):
        pyclass = UnitPowerList

        def __init__(self, name):
            self.name = name
            self.s = ctx.real(name + '.scale')
            ctx.assume(self.s > 0)

        def sx(self, it_, op, *a):
            if op in ('compare', 'rcompare'):
                if a[1] is None:
                    return a[0] == 'NotEq'
                e = same if isinstance(a[1], GU) else z3.BoolVal(False)
                return SBool(e if a[0] == 'Eq' else z3.Not(e))
            if op == 'call' and a[0] in ('convertfrom', 'convertto'):
                v = R.rat(ctx, a[0])
                num, rel = a[1][0], a[1][1]
                modes.append(rel)
                ctx.assume(v.t == num.t * self.s if a[0] == 'convertfrom' else v.t * self.s == num.t)
                return v
            if op == 'call':
                return SStr(ctx.string('text'))
            return NotImplemented
    same = ctx.bool('same_unit')
    modes = []
    a, b = GU('from'), GU('to')
    ctx.assume(z3.Implies(same, a.s == b.s))
    da, db = ctx.int('dimension_from'), ctx.int('dimension_to')
    ctx.assume(z3.Implies(same, da == db))
    k = ctx.choose(4, 'none')
    fu, tu = (a, b) if k == 0 else (None, b) if k == 1 else (a, None) if k == 2 else (None, None)

    class DL(SExt):
        def __init__(self, t):
            self.t = t

        def sx(self, it_, op, *x):
            if op in ('compare', 'rcompare') and isinstance(x[1], DL):
                e = self.t == x[1].t
                return SBool(e if x[0] == 'Eq' else z3.Not(e))
            return NotImplemented
    it.contracts[UnitNormaliser.unit_normalised_dimensionlist] = lambda it_, args, kw: DL(da if args[1] is a else db)
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    x = R.rat(ctx, 'x')
    rel = ctx.choose(2, 'relative') == 0
    st, r = run(it, UnitNormaliser.unit_conversion, norm, x, fu, tu, rel)
    if st == 'raise':
        ctx.prove('calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.prove('error-only-without-a-unit-or-for-other-dimensions', z3.BoolVal(k in (1, 2)) if k else z3.And(z3.Not(same), da != db))
        ctx.cover('error')
        return
    num, unit = r
    ctx.prove('same-dimensions-or-same-unit', z3.BoolVal(k == 3) if k else da == db)
    if k == 0:
        ctx.prove('exact-ratio-of-the-scales', num.t * b.s == x.t * a.s)
        ctx.prove('in-the-target-unit', unit is b or (unit is a and ctx.entails(same)))
        ctx.prove('mode-passed-on', all(m is rel for m in modes))
    ctx.cover('end')


def u_laws(ctx):
    """lemmas over the contract of unit_conversion: there and back, and through an intermediate unit"""
    x, a, b, m, y, z, w = [ctx.real(n) for n in ('x', 'a', 'b', 'm', 'y', 'z', 'w')]
    ctx.assume(z3.And(a > 0, b > 0, m > 0))
    ctx.assume(z3.And(y * b == x * a, z * a == y * b))          # x a -> y b -> z a
    ctx.prove('there-and-back', z == x)
    ctx.assume(z3.And(w * m == x * a))                          # x a -> w m
    v = ctx.real('v')
    ctx.assume(v * b == w * m)                                  # w m -> v b
    ctx.prove('through-an-intermediate-unit', v == y)
    ctx.cover('end')


def u_op(ctx):
    """the to operator: converts the first operand's number (1 for a bare unit) and sets the result's unit"""
    it = Interp(ctx)
    R.install(it)
    calc = mk_calc(ctx)

    class Norm(SExt):
        pass
    calls = []
    num2 = R.rat(ctx, 'converted')
    src = UnitPowerList.__new__(UnitPowerList)
    dst = UnitPowerList.__new__(UnitPowerList)
    for o in (src, dst):
        o._objects = ctx.alloc([])
        ctx.alloc(o)
    up = UnitPower.__new__(UnitPower)
    up.unit, up.power = mk_unit(ctx, 'the unit'), mk_number(it, 'its power')
    dst._objects.append(ctx.alloc(up))

    def the_unit(u):
        l = getattr(u, '_objects', None)
        return u is dst or type(u) is UnitPowerList and type(l) is list and len(l) == 1 and l[0].unit is up.unit and l[0].power is up.power

    def conv(it_, args, kw):
        calls.append(args[1:])
        if ctx.choose(2, 'conv') == 1:
            raise PyRaise(CalculatorException('dimensions'))
        return num2, dst
    norm = UnitNormaliser.__new__(UnitNormaliser)
    it.contracts[UnitNormaliser.unit_conversion] = conv
    calc.unit_normaliser = norm
    x = R.rat(ctx, 'x')
    bare = ctx.choose(2, 'bare') == 1
    to = [dst, None, x][ctx.choose(3, 'to')]
    vals = ctx.alloc([src if bare else x, to])
    units = ctx.alloc([None if bare else src, None])
    st, r = run(it, UnitsFeature.op_unit_conversion, calc, vals, units, [None, None], {})
    if st == 'raise':
        ctx.prove('calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.cover('error')
        return
    ctx.prove('target-is-a-unit', to is dst)
    ctx.prove('one-conversion', len(calls) == 1)
    n, f, t, rel = calls[0]
    ctx.prove('of-the-operand', (ctx.entails(R.term(n) == 1) if bare else n is x) and f is src and t is dst)
    ctx.prove('absolute', rel is False)
    ctx.prove('result', r.value is num2 and the_unit(r.unit) and r.unit_override is True)
    ctx.cover('end')


def u_add(ctx):
    """adding a power to a unit list: the exponent of that unit changes by exactly that, no other does"""
    it = Interp(ctx)
    R.install(it)
    cls, kc = [(UnitPowerList, UnitPower), (DimensionPowerList, DimensionPower)][ctx.choose(2, 'class')]
    l = cls.__new__(cls)
    ctx.alloc(l)
    key = mk_unit(ctx, 'key') if cls is UnitPowerList else 'dimension'
    p = R.rat(ctx, 'power')
    q = R.rat(ctx, 'old')
    others = [SOpaque('other %d' % i) for i in range(2)]
    present = ctx.choose(2, 'present') == 0
    o = kc.__new__(kc)
    setattr(o, kc.keyfield, key)
    o.power = q
    ctx.alloc(o)
    objs = [others[0], o, others[1]] if present else list(others)
    l._objects = ctx.alloc(objs)
    removed = []
    it.contracts[AbstractPowerList.find] = lambda it_, args, kw: o if present else None

    def delete(it_, args, kw):
        ctx.prove('removes-the-object-found', args[1] is o)
        removed.append(o)
    it.contracts[AbstractPowerList._del] = delete
    sub = ctx.choose(2, 'remove') == 1
    st, r = run(it, AbstractPowerList.remove if sub else AbstractPowerList.add, l, key, p)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    d = -p.t if sub else p.t
    now = it.resolve(l._objects)
    now = list(now) if isinstance(now, list) else [c[1] for c in now.chunks]
    if present:
        ctx.prove('exponent-changes-by-the-power', o.power.t == q.t + d)
        ctx.prove('removed-exactly-when-zero', (q.t + d == 0) if removed else (q.t + d != 0))
        ctx.prove('others-untouched', all(any(x is y for y in now) for x in others) and len(now) == 3)
    else:
        new = [x for x in now if not any(x is y for y in others)]
        ctx.prove('one-new-entry', len(new) == 1 and len(now) == 3 and getattr(new[0], kc.keyfield) is key)
        ctx.prove('with-that-exponent', R.term(new[0].power) == d)
    ctx.cover('end')


def u_table(ctx):
    """every installed unit has the dimension, scale and names of the table"""
    c = CC.calc('Computing', True)
    for d, us in c.unit_normaliser.units.items():
        for u in us:
            n = u.names()[0]
            if n not in Q.INFO:
                continue
            row = Q.INFO[n]
            ctx.prove('dimension:' + n, d == row['dimension'] and u.dimension == row['dimension'])
            ctx.prove('scale:' + n, Q.read(u.unitscale) == F(row['scale']))
            for t in row['names']:
                ctx.prove('name:' + t, t.lower() in c.unit_normaliser.unitnames and c.unit_normaliser.get_unit(t) is u)
    for d, rel in Q.DIMS.items():
        if d in c.unit_normaliser.dimensions:
            got = {x.dimension: int(x.power.num) for x in c.unit_normaliser.normalised_dimension(d).list()}
            ctx.prove('dimension-relation:' + d, got == rel)
    ctx.cover('end')


UNITS = [('UnitDefinition.convert', u_unit_convert), ('Celsius', functools.partial(u_temperature, cls=TEMP.UnitDefinitionCelsius, to_k=(1, F('273.15')))),
         ('Fahrenheit', functools.partial(u_temperature, cls=TEMP.UnitDefinitionFahrenheit, to_k=(F(5, 9), F('459.67') * F(5, 9)))),
         ('UnitPowerList.convert', u_list_convert), ('unit_conversion', u_conversion), ('conversion laws', u_laws), ('to operator', u_op),
         ('power list add and remove', u_add), ('unit table', u_table)]

# ------------------------------------------------------------ concrete oracle


def _ev(c, e):
    st, r = CC.evaluate(e, c=c)
    return ('error', r) if st == 'error' else ('ok', r)


def k_convert(p, q, a, b):
    """p/q a to b: the exact value in exactly the target unit; the source is unchanged"""
    x = F(p, q)
    a, b = [tuple(u) for u in a], [tuple(u) for u in b]
    want = Q.convert(x, a, b)
    if want is None:
        return None
    c = CC.calc('Computing')
    src = Q.text(x, a)
    st, r = _ev(c, 'src = ' + src)
    if st == 'error':
        return '%s is an error: %s' % (src, r)
    before = CC.table(c)
    st, r = _ev(c, 'src to ' + Q.unit_text(b))
    if CC.table(c) != before:
        return 'converting %s to %s changed the variable: %s -> %s' % (src, b, before, CC.table(c))
    if want == 'error':
        if st != 'error':
            return '%s to %s gives %s, not an error' % (src, b, CC.shown(r.value, r.unit, c))
        return None
    if st == 'error':
        return '%s to %s is an error: %s' % (src, b, r)
    if not isinstance(r.value, Number):
        return '%s to %s gives %r' % (src, b, r.value)
    if Q.read(r.value) != want:
        return '%s to %s gives %s, not %s' % (src, b, Q.read(r.value), want)
    if Q.merge(Q.read_unit(r.unit)) != Q.merge(b):
        return '%s to %s has unit %s' % (src, b, r.unit)
    return None


def k_chain(p, q, chain):
    """through any number of intermediate units and back"""
    x = F(p, q)
    chain = [[tuple(u) for u in l] for l in chain]
    c = CC.calc('Computing')
    e = Q.text(x, chain[0])
    for l in chain[1:]:
        w = Q.convert(x, chain[0], l)
        if w is None or w == 'error':
            return None
        e = '(%s) to %s' % (e, Q.unit_text(l))
    st, r = _ev(c, e)
    if st == 'error':
        return '%s is an error: %s' % (e, r)
    want = Q.convert(x, chain[0], chain[-1])
    if Q.read(r.value) != want:
        return '%s gives %s, not %s' % (e, Q.read(r.value), want)
    return None


def k_name(text, unit):
    """a unit name stands for the unit it names"""
    c = CC.calc('Computing')
    st, r = _ev(c, '1 ' + text)
    if st == 'error':
        return '1 %s is an error: %s' % (text, r)
    got = Q.read_unit(r.unit)
    if got != [(unit, 1)] or Q.read(r.value) != 1:
        return '1 %s is %s %s, not 1 %s' % (text, r.value, r.unit, unit)
    return None


def k_refuse(src, to):
    """not a conversion at all: an error, never a number"""
    c = CC.calc('Computing')
    st, r = _ev(c, '%s to %s' % (src, to))
    if st != 'error':
        return '%s to %s gives %s' % (src, to, CC.shown(r.value, r.unit, c))
    return None


def k_frac(p, a, e1, b, e2):
    """fractional exponents (e/20): another exponent is another dimension; the same one is converted by the power of the ratio"""
    c = CC.calc('Computing')
    txt = '%d %s^%s to %s^%s' % (p, a, e1 / 20, b, e2 / 20)
    st, r = _ev(c, txt)
    if Q.UNITS[a][0] != Q.UNITS[b][0] or e1 != e2:
        return None if st == 'error' else '%s gives %s, not an error' % (txt, CC.shown(r.value, r.unit, c))
    if st == 'error':
        return '%s is an error: %s' % (txt, r)
    want = p * (float(Q.UNITS[a][1]) / float(Q.UNITS[b][1])) ** (e1 / 20)
    if abs(float(Q.read(r.value)) - want) > 1e-9 * abs(want):
        return '%s gives %s, not %s' % (txt, CC.shown(r.value, r.unit, c), want)
    return None


def k_array(vals, a, b):
    """element by element, and dimension-checked for each"""
    c = CC.calc('Computing')
    want = [Q.convert(F(p, q), a, b) for p, q in vals]
    e = '[%s] to %s' % (', '.join(Q.text(F(p, q), a) for p, q in vals), Q.unit_text(b))
    st, r = _ev(c, e)
    if st == 'error':
        return '%s: %s' % (e, r)
    got = ['error' if isinstance(v.value, Exception) else Q.read(v.value) for v in r.value]
    if got != want and None not in want:
        return '%s gives %s, not %s' % (e, got, want)
    return None


KINDS = {'frac': k_frac, 'convert': k_convert, 'chain': k_chain, 'name': k_name, 'refuse': k_refuse, 'array': k_array}
SEARCH_SECONDS = (25, 200)


def rand_value(rng):
    k = rng.random()
    if k < 0.1:
        return 0, 1
    if k < 0.4:
        return rng.randint(-1000, 1000), 1
    if k < 0.6:
        return rng.choice([-1, 1]) * rng.randint(1, 10 ** rng.randint(1, 18)), 10 ** rng.randint(0, 12)
    return rng.randint(-10 ** 6, 10 ** 6), rng.randint(1, 10 ** rng.randint(1, 6))


def rand_units(rng, pool=None, maxn=3):
    out = []
    names = set()
    for _ in range(rng.choice([1, 1, 1, 2, 2, maxn])):
        n = rng.choice(pool or (Q.COMMON if rng.random() < 0.6 else Q.EXACT))
        if n in names:
            continue
        names.add(n)
        out.append((n, rng.choice([1, 1, 1, 2, -1, -1, -2, 3, -3])))
    return out


def like(rng, units):
    """other units of the same dimensions"""
    out = []
    for n, p in units:
        d = Q.UNITS[n][0]
        if rng.random() < 0.3 and Q.DIMS[d] != {d: 1}:
            for b, e in Q.DIMS[d].items():
                out.append((rng.choice(Q.BY_DIM[b]), e * p))
        else:
            out.append((rng.choice(Q.BY_DIM[d]), p))
    out = list(Q.merge(out).items())
    if rng.random() < 0.3:
        # recognise a derived dimension
        dm = Q.dims(out)
        for d, v in Q.DIMS.items():
            if v == dm and v != {d: 1}:
                return [(rng.choice(Q.BY_DIM[d]), 1)]
    rng.shuffle(out)
    return out


def fits(*lists):
    n = 1
    for l in lists:
        n *= Q.size(l)
    return n < 10 ** 60


def search(S):
    rng = S.rng
    # every unit against the base unit of its dimension, there and back
    names = list(Q.EXACT)
    rng.shuffle(names)
    for n in names:
        if not S.time_left():
            return
        d = Q.UNITS[n][0]
        other = rng.choice(Q.BY_DIM[d])
        p, q = rand_value(rng)
        S.run('chain', p, q, [[[n, 1]], [[other, 1]], [[n, 1]]])
        S.run('convert', p, q, [[n, 1]], [[other, 1]])
    for n in rng.sample(names, 150):
        for t in Q.INFO[n]['names']:
            S.run('name', t, n)
            S.run('name', rng.choice([t.upper(), t.title(), t.lower()]), n)
    for ns, by in Q.AMBIGUOUS:
        for t in ns:
            S.run('name', t, by['us'])
    for s, t in (('5', 'meters'), ('5 meters', '5'), ('5 meters', '5 seconds'), ('5 meters', 'seconds'), ('5 Celsius', 'meters'), ('5 newtons', 'joules'), ("'a'", 'meters'),
                 ('5 meters', "'feet'"), ('true', 'meters'), ('5 hertz', 'seconds'), ('5 grays', 'meters'), ('5 meters', 'meters^2'), ('5 meters', 'meters^-1'), ('0', 'meters'), ('0 meters', 'seconds')):
        S.run('refuse', s, t)
    i = 0
    while S.time_left():
        i += 1
        p, q = rand_value(rng)
        k = rng.random()
        if k < 0.04:
            a = rng.choice(names)
            e1 = rng.choice([1, 2, 5, 7, 10, 15, 24, 25, 30, 35, 50, -5, -10, -30])
            e2 = e1 if rng.random() < 0.4 else rng.choice([1, 2, 5, 10, 15, 20, 25, 30, 40, -10, e1 + 1, e1 + 5, e1 - 4])
            if Q.UNITS[a][0] != 'temperature' and e1 and e2:
                S.run('frac', rng.randint(1, 50), a, e1, a if rng.random() < 0.3 else rng.choice(Q.BY_DIM[Q.UNITS[a][0]]), e2)
            continue
        if k < 0.12:
            t = ['kelvin', 'Celsius', 'Fahrenheit', 'kilokelvin', 'millikelvin']
            l = [[[rng.choice(t), 1]] for _ in range(rng.randint(2, 5))]
            S.run('chain', p, q, l)
            S.run('convert', p, q, l[0], l[-1])
        elif k < 0.24:
            a = rand_units(rng)
            b = rand_units(rng)
            if rng.random() < 0.5:
                b = like(rng, a)
                if b:
                    j = rng.randrange(len(b))
                    b[j] = (b[j][0], b[j][1] + rng.choice([-1, 1, 2]))
                    b = [u for u in b if u[1]]
            if b and fits(a, b):
                S.run('convert', p, q, a, b)
        elif k < 0.32:
            a = rand_units(rng, maxn=2)
            b = like(rng, a)
            if b and fits(a, b):
                S.run('array', [rand_value(rng) for _ in range(rng.randint(1, 4))], a, b)
        elif k < 0.5:
            a = rand_units(rng)
            l = [a]
            for _ in range(rng.randint(1, 3)):
                l.append(like(rng, a))
            if rng.random() < 0.5:
                l.append(a)
            if all(l) and fits(*l):
                S.run('chain', p, q, l)
        else:
            a = rand_units(rng)
            b = like(rng, a)
            if b and fits(a, b):
                S.run('convert', p, q, a, b)
