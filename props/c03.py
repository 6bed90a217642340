"""C03: floor, ceil and round to places."""
from pyvc.lib import *  # noqa: F401,F403
from decimal import Decimal
from modularcalculator.objects.number import Number
from modularcalculator.features.numerical.numericalfunctions import NumericalFunctionsFeature

ASSUMPTIONS = ['places n >= 0 and base^n <= B (negative numbers of places are outside the property)',
               'context rounding is ROUND_HALF_UP, which the engine sets and the concrete search checks']


def unit(fn, kind, with_places, cast_keys):
    def u(ctx):
        from pyvc.concrete import calc
        calc()
        it = Interp(ctx)
        ctx.notes_tab('powbound')['bound'] = (1, 1)
        cast = None
        base = z3.RealVal(10)
        off = z3.IntVal(0)
        if cast_keys:
            cast = {}
            if 'base' in cast_keys:
                b = ctx.int('base')
                ctx.assume(b >= 2)
                ctx.inputs['base'] = b
                cast['base'] = SInt(b)
                base = z3.ToReal(b)
            if 'places_offset' in cast_keys:
                off = ctx.int('offset')
                ctx.assume(off >= 0)
                cast['places_offset'] = SInt(off)
        x = mk_number(it, 'x', cast=cast)
        vals = [x]
        k = z3.RealVal(0)
        if with_places:
            p = mk_number(it, 'places', integer=True)
            ctx.assume(p.num.t >= 0)
            vals.append(p)
            k = p.num.t
        unitm = SOpaque('unit')
        st, r = run(it, getattr(NumericalFunctionsFeature, fn), None, vals, [unitm] + [None] * (len(vals) - 1), [None] * len(vals), {})
        if st == 'raise':
            ctx.fail(fn + ':no-exception', repr(r))
            return
        v = r.value
        prove_invariant(it, v, fn)
        P = M.ipow(it, base, z3.simplify(k + z3.ToReal(off)))
        ctx.assume(P >= 1)
        t = ctx.real('t')                       # result * base^places
        ctx.assume(t * T(v.den) == T(v.num) * P)
        cands = [s.t for s in ctx.notes_tab('near').values()]
        ctx.prove(fn + ':is-a-multiple', z3.Or(*[t == c for c in cands]) if cands else z3.IsInt(t))
        y = ctx.real('y')                       # operand * base^places
        ctx.assume(y == x._ghost * P)
        if kind == 'floor':
            ctx.prove(fn + ':greatest-not-above', z3.And(t <= y, y < t + 1))
        elif kind == 'ceil':
            ctx.prove(fn + ':least-not-below', z3.And(t - 1 < y, y <= t))
        else:
            h = z3.RealVal('1/2')
            ctx.prove(fn + ':nearest-ties-away', z3.If(y >= 0, z3.And(t - h <= y, y < t + h), z3.And(t - h < y, y <= t + h)))
        ctx.prove(fn + ':keeps-unit', r.unit_override and r.unit is unitm)
        ctx.prove(fn + ':keeps-representation', v.number_cast is cast)
        ctx.cover(fn)
    return u


UNITS = []
for _fn, _k in (('func_floor', 'floor'), ('func_ceil', 'ceil'), ('func_round', 'round')):
    UNITS.append((_fn, unit(_fn, _k, False, ())))
    UNITS.append((_fn + '(places)', unit(_fn, _k, True, ())))
    UNITS.append((_fn + '(places, base)', unit(_fn, _k, True, ('base',))))
    UNITS.append((_fn + '(places, offset)', unit(_fn, _k, True, ('places_offset',))))
    UNITS.append((_fn + '(offset, base)', unit(_fn, _k, False, ('base', 'places_offset'))))


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
import math as _m
from pyvc.concrete import evaluate, to_py, calc, canonical


def want(fn, x, P):
    y = x * P
    if fn == 'floor':
        n = _m.floor(y)
    elif fn == 'ceil':
        n = _m.ceil(y)
    else:
        a = abs(y)
        n = _m.floor(a + Fraction(1, 2))
        n = n if y >= 0 else -n
    return Fraction(n) / P


def form(n, d, base):
    """text of n/base^d in a base, n >= 0"""
    digs = '0123456789abcdefghijklmnopqrstuvwxyz'
    s = ''
    while n or len(s) <= d:
        s = digs[n % base] + s
        n //= base
    pre = {2: '0b', 8: '0o', 16: '0x', 10: ''}[base]
    return pre + (s[:-d] + '.' + s[-d:] if d else s)


def k_lit(fn, n, d, base, neg, places, unit, percent):
    x = Fraction(n, base ** d)
    text = form(n, d, base)
    if percent:
        text += '%'
        x /= 100
    if neg:
        text, x = '-' + text, -x
    P = base ** places * (100 if percent else 1)
    e = '%s(%s%s%s)' % (fn, text, ' ' + unit if unit else '', ', %d' % places if places is not None else '')
    return verdict(e, fn, x, P, unit)


def verdict(e, fn, x, P, unit):
    st, r = evaluate(e)
    if st == 'error':
        return '%s: error %s' % (e, r)
    got = to_py(r.value)
    w = want(fn, x, Fraction(P))
    if got != w:
        return '%s: expected %s, got %s' % (e, w, got)
    if unit and (r.unit is None or unit not in (str(r.unit.plural()), str(r.unit.singular()))):
        return '%s: unit %s' % (e, r.unit)
    return canonical(r.value)


def k_frac(fn, a, places):
    x = Fraction(a)
    e = '%s(%d / %d, %d)' % (fn, x.numerator, x.denominator, places)
    return verdict(e, fn, x, 10 ** places, None)


def k_repr(fn, n, base, places):
    """the representation (base) of the operand is kept"""
    e = '%s(%s, %d)' % (fn, form(n, 3, base), places)
    st, r = evaluate(e)
    if st == 'error':
        return '%s: error %s' % (e, r)
    text = r.value.to_string(calc())
    pre = {2: '0b', 8: '0o', 16: '0x'}[base]
    return None if text.startswith(pre) else '%s is shown as %s' % (e, text)


KINDS = {'lit': k_lit, 'frac': k_frac, 'repr': k_repr}


def search(S):
    for fn in ('floor', 'ceil', 'round'):
        for base in (10, 2, 8, 16):
            for d in (0, 1, 2, 3):
                for n in (0, 1, base - 1, base, base // 2, base ** 2 + base // 2, base ** 3 - 1, 5 * base ** 2 + 1, base ** d // 2):
                    for places in (0, 1, 2):
                        for neg in (False, True):
                            S.run('lit', fn, n, d, base, neg, places, None, False)
        for n in (5, 15, 25, 125, 1249, 1250, 1251):
            for p in (0, 1, 2):
                S.run('lit', fn, n, 2, 10, False, p, None, True)
                S.run('lit', fn, n, 2, 10, False, p, 'feet', False)
        for base in (2, 8, 16):
            S.run('repr', fn, 3 * base ** 2 + 1, base, 1)
    while S.time_left():
        fn = S.rng.choice(['floor', 'ceil', 'round'])
        if S.rng.random() < 0.5:
            base = S.rng.choice([10, 10, 2, 8, 16])
            S.run('lit', fn, S.rng.randrange(base ** S.rng.randrange(1, 12)), S.rng.randrange(0, 8), base, S.rng.random() < 0.4, S.rng.randrange(0, 7),
                  S.rng.choice([None, None, 'meters', 'feet']), False)
        else:
            places = S.rng.randrange(0, 10)
            x = Fraction(S.rng.randrange(-10 ** 10, 10 ** 10), S.rng.randrange(1, 10 ** 6))
            if S.rng.random() < 0.5:    # one unit below / above a tie or a multiple
                x = Fraction(S.rng.randrange(-2000, 2000), 2 * 10 ** places) + S.rng.choice([0, 1, -1]) * Fraction(1, 10 ** S.rng.randrange(places + 1, 18))
            S.run('frac', fn, str(x), places)
