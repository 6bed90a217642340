"""C21: dates: adding and subtracting time, differences, and how dates are written."""
import datetime as D
from fractions import Fraction

from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PyRaise, Undecided
from pyvc import rat, quantity as Q
from pyvc.rat import Rat, term
from pyvc.values import SExt
from pyvc.concrete import calc as fresh, evaluate, shown, table
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.features.dates.dates import DatesFeature
from modularcalculator.features.dates.datefunctions import DateFunctionsFeature
from modularcalculator.features.dates.dateoperators import DateOperatorsFeature
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.objects.units import UnitPowerList
from modularcalculator.services.unitnormaliser import UnitNormaliser

SEARCH_SECONDS = (20, 240)
ASSUMPTIONS = [rat.ASSUMPTION, 'unit_conversion multiplies by the ratio of the units or raises a calculator error (decided by C08)',
               'the date argument is text in at most one of the six forms of a date; the formats are the ones the running installation sets']
TRUSTED = ['datetime of the standard library: strptime reads the fields its format names, strftime writes them, an aware date is its local time minus its offset, adding a timedelta of whole microseconds is exact '
           'and out of the years 1 to 9999 raises OverflowError', 'timedelta of a float may round in any way']

# ---------------------------------------------------------------- deductive units

DAY, HOUR, MIN, SEC = 86400 * 10**6, 3600 * 10**6, 60 * 10**6, 10**6
_CALC = ModularCalculator('Computing')
OPTIONS = _CALC.feature_options
FORMS = sorted(v for k, v in OPTIONS['dates.dates'].items() if k.endswith('Format'))


class Text(SExt):
    """a text that is a date in one form, or not a date"""
    pyclass = str

    def __init__(self, date, form):
        self.date, self.form = date, form

    def sx(self, it, op, *a):
        if op == 'str':
            return self
        if op in ('binop', 'rbinop') and a[0] == 'Add' and (isinstance(a[1], str) or getattr(a[1], 'pyclass', None) is str):
            return Text(None, None)
        return NotImplemented


class Written(SExt):
    """what strftime writes"""
    pyclass = str

    def __init__(self, date, form, padding=None):
        self.date, self.form, self.padding = date, form, padding

    def sx(self, it, op, *a):
        if op == 'str':
            return self
        return NotImplemented


class Float(SExt):
    """a float: nothing is known of its value"""
    pyclass = float

    def sx(self, it, op, *a):
        if op in ('binop', 'rbinop'):
            return Float()
        return NotImplemented


class Span(SExt):
    """a timedelta of t microseconds"""
    pyclass = D.timedelta

    def __init__(self, t):
        self.t = t

    def sx(self, it, op, *a):
        if op in ('binop', 'rbinop'):
            o, x = a
            if o == 'FloorDiv' and op == 'binop' and micros(x) is not None:
                d = z3.simplify(micros(x))
                if z3.is_int_value(d) and d.as_long() > 0:
                    return SInt(self.t / d)
            if o in ('Div', 'Mult'):
                return Float() if o == 'Div' else Span(self.t * M.to_int(x)) if isinstance(x, (int, SInt)) else NotImplemented
            if o == 'Add' and isinstance(x, Moment):
                return x.sx(it, 'binop', 'Add', self)
            if micros(x) is not None and o in ('Add', 'Sub'):
                m = micros(x)
                return Span(self.t + m if o == 'Add' else self.t - m if op == 'binop' else m - self.t)
        if op in ('compare', 'rcompare') and micros(a[1]) is not None:
            x, y = (self.t, micros(a[1])) if op == 'compare' else (micros(a[1]), self.t)
            return SBool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y, 'NotEq': x != y}[a[0]])
        if op == 'abs':
            return Span(z3.If(self.t >= 0, self.t, -self.t))
        if op == 'unop' and a[0] == 'USub':
            return Span(-self.t)
        if op == 'truth':
            return self.t != 0
        if op == 'attr':
            n = {'days': self.t / DAY, 'seconds': (self.t % DAY) / SEC, 'microseconds': self.t % SEC}.get(a[0])
            if n is not None:
                return SInt(n)
        if op == 'call' and a[0] == 'total_seconds':
            return Float()
        return NotImplemented


def micros(x):
    if isinstance(x, Span):
        return x.t
    if isinstance(x, D.timedelta):
        return z3.IntVal(x // D.timedelta(microseconds=1))
    return None


class Moment(SExt):
    """a datetime: local microseconds since the beginning of year 1, and an offset in microseconds or None"""
    pyclass = D.datetime

    def __init__(self, local, offset):
        self.local, self.offset = local, offset

    def utc(self):
        return self.local if self.offset is None else self.local - self.offset

    def sx(self, it, op, *a):
        if op == 'attr':
            day = self.local % DAY
            n = {'hour': day / HOUR, 'minute': (day % HOUR) / MIN, 'second': (day % MIN) / SEC, 'microsecond': day % SEC}.get(a[0])
            if n is not None:
                return SInt(n)
            if a[0] == 'tzinfo':
                return None if self.offset is None else SOpaque('tzinfo')
        if op == 'call':
            if a[0] == 'utcoffset':
                return None if self.offset is None else Span(self.offset)
            if a[0] == 'strftime' and isinstance(a[1][0], str):
                return Written(self, a[1][0])
        if op == 'binop' and a[0] in ('Add', 'Sub') and micros(a[1]) is not None:
            t = self.local + micros(a[1]) if a[0] == 'Add' else self.local - micros(a[1])
            if it.ctx.branch(z3.Or(t < 0, t >= LAST)):
                M.raise_py(OverflowError('date value out of range'))
            return Moment(t, self.offset)
        if op == 'binop' and a[0] == 'Sub' and isinstance(a[1], Moment):
            if (self.offset is None) != (a[1].offset is None):
                M.raise_py(TypeError("can't subtract offset-naive and offset-aware datetimes"))
            return Span(self.utc() - a[1].utc())
        if op in ('compare', 'rcompare') and isinstance(a[1], Moment):
            if (self.offset is None) != (a[1].offset is None):
                M.raise_py(TypeError("can't compare offset-naive and offset-aware datetimes"))
            x, y = (self.utc(), a[1].utc()) if op == 'compare' else (a[1].utc(), self.utc())
            return SBool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y, 'Eq': x == y, 'NotEq': x != y}[a[0]])
        return NotImplemented


def in_seconds(u):
    return isinstance(u, UnitPowerList) and len(u.list()) == 1 and 'second' in u.list()[0].unit.names() and Q.read(u.list()[0].power) == 1


LAST = (D.date.max.toordinal()) * DAY


def setup(ctx):
    it = Interp(ctx)
    rat.install(it)

    def strptime(it_, text, form):
        if not isinstance(text, Text):
            raise Undecided('strptime of %r' % (text,))
        if text.date is None or form != text.form:
            M.raise_py(ValueError('time data does not match format'))
        return text.date
    it.overrides[D.datetime.strptime] = strptime

    def timedelta(it_, *args, **kw):
        names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
        scale = dict(zip(names, [DAY, SEC, 1, 1000, MIN, HOUR, 7 * DAY]))
        parts = dict(zip(names, args))
        parts.update(kw)
        t = z3.IntVal(0)
        for n, v in parts.items():
            if isinstance(v, (int, SInt)):
                t = t + M.to_int(v) * scale[n]
            elif isinstance(v, (float, Float)):
                t = t + ctx.int('rounded somehow')
            else:
                M.raise_py(TypeError('unsupported type for timedelta'))
        return Span(z3.simplify(t))
    it.overrides[D.timedelta] = timedelta
    for e in (Exception, ValueError, TypeError, OverflowError):
        it.overrides[e] = lambda it_, *a, e=e: e('...')
    it.overrides[float] = lambda it_, x: Float() if term(x) is not None else M.raise_py(TypeError('float'))

    def rounded(it_, x, places=None):
        t = term(x)
        if t is None or places not in (None, 0):
            raise Undecided('round')
        n = ctx.int('nearest')
        ctx.assume(z3.And(2 * t <= 2 * z3.ToReal(n) + 1, 2 * t >= 2 * z3.ToReal(n) - 1))
        return Rat(z3.ToReal(n))
    it.overrides[round] = rounded
    it.format_hook = lambda it_, v, spec: Written(v.date, v.form, spec) if isinstance(v, Written) and v.padding is None else (_ for _ in ()).throw(Undecided('format'))
    seconds = [u for u in [_CALC.unit_normaliser.get_unit('seconds')]][0]
    seen = []

    def unit_conversion(it_, args, kw):
        _self, v, f, t = args[:4]
        name = lambda u: u.name if isinstance(u, SOpaque) else 'seconds' if u is seconds or in_seconds(u) else None
        a, b = name(f), name(t)
        if term(v) is None or a is None or b is None:
            raise Undecided('conversion of %r' % (v,))
        if 'incompatible' in (a, b):
            raise PyRaise(CalculatorException("Can't convert units"))
        sc = {'seconds': z3.RealVal(1), 'given': it.ratio}
        seen.append((a, b))
        if a == b:
            return (v, t)
        q = ctx.real('converted')
        ctx.assume(q * sc[b] == term(v) * sc[a])
        return (Rat(q), t)
    it.contracts[UnitNormaliser.unit_conversion] = unit_conversion
    it.contracts[UnitNormaliser.get_unit] = lambda it_, a, k: seconds if a[1] in ('second', 'seconds') else (_ for _ in ()).throw(Undecided('unit'))
    it.contracts[UnitPowerList.new] = lambda it_, a, k: UnitPowerList.new(a[0]) if isinstance(a[0], list) and all(not isinstance(x, Rat) for x in a[0]) else (_ for _ in ()).throw(Undecided('unit list'))
    it.ratio = ctx.real('seconds in the unit')
    ctx.assume(it.ratio > 0)
    calc = mk_calc(ctx, feature_options=OPTIONS, unit_normaliser=UnitNormaliser.__new__(UnitNormaliser))
    return it, calc


def a_date(ctx, name, aware=None):
    """text of an arbitrary date in an arbitrary form -> (text, moment or None)"""
    k = ctx.choose(len(FORMS) + 1, 'form of ' + name)
    if k == len(FORMS):
        return Text(None, None), None
    form = FORMS[k]
    local = ctx.int('local time of ' + name)
    ctx.inputs[name] = local
    ctx.assume(z3.And(local >= 0, local < LAST))
    off = None
    if '%z' in form:
        off = ctx.int('offset of ' + name)
        ctx.assume(z3.And(off > -DAY, off < DAY))
    if '%H' not in form:
        ctx.assume(local % DAY == 0)
    elif '%f' not in form:
        ctx.assume(local % SEC == 0)
    m = Moment(local, off)
    return Text(m, form), m


def prove_written(ctx, w, local, offset, options='dates.dates', label=''):
    ok = isinstance(w, Written) and w.padding is not None
    ctx.prove('result-is-a-written-date', ok, repr(w))
    if not ok:
        return
    ctx.prove('the-right-moment', w.date.local == local)
    ctx.prove('its-own-timezone', w.date.offset is None if offset is None else w.date.offset is not None and ctx.entails(w.date.offset == offset))
    fits = w.form in OPTIONS[options].values()
    ctx.prove('an-installed-format', fits)
    f = w.form
    ctx.prove('year-month-day-written', all(any(x in f for x in y) for y in (('%Y',), ('%m', '%b', '%B'), ('%d',))))
    ctx.prove('offset-written-iff-it-has-one', ('%z' in f) == (offset is not None))
    has_time = all(x in f for x in ('%H', '%M', '%S'))
    ctx.prove('time-of-day-written-unless-midnight', z3.BoolVal(has_time) == (local % DAY != 0))
    ctx.prove('fraction-written-unless-whole-seconds', z3.BoolVal('%f' in f) == (local % SEC != 0))
    if options == 'dates.dates':
        # padded to the width of the format, so that years before 1000 keep four digits
        widths = {'%Y': 4, '%m': 2, '%d': 2, '%H': 2, '%M': 2, '%S': 2, '%f': 6, '%z': 5}
        n, i = 0, 0
        while i < len(f):
            if f[i:i + 2] in widths:
                n, i = n + widths[f[i:i + 2]], i + 2
            else:
                n, i = n + 1, i + 1
        ctx.prove('padded-to-its-width', w.padding == '0>%d' % n, '%r for %r' % (w.padding, f))
    else:
        ctx.prove('weekday-written', '%A' in f or '%a' in f)


def u_read(ctx):
    it, calc = setup(ctx)
    text, m = a_date(ctx, 'd')
    st, r = run(it, DatesFeature.string_to_date, calc, text)
    if m is None:
        ctx.prove('other-text-is-refused', st == 'raise')
    else:
        ctx.prove('reads-the-date', st == 'ok' and r is m, repr(r))
    ctx.cover('end')


def u_validate(ctx):
    it, calc = setup(ctx)
    text, m = a_date(ctx, 'd')
    st, r = run(it, DatesFeature.validate_date, calc, text, None, None)
    ctx.prove('valid-iff-a-date', st == 'ok' and r is (m is not None), repr(r))
    ctx.cover('end')


def u_write(ctx):
    it, calc = setup(ctx)
    local = ctx.int('local')
    ctx.assume(z3.And(local >= 0, local < LAST))
    off = ctx.int('offset') if ctx.choose(2, 'aware') else None
    st, r = run(it, DatesFeature.date_to_string, calc, Moment(local, off))
    ctx.prove('no-exception', st == 'ok', repr(r))
    if st == 'ok':
        prove_written(ctx, r, local, off)
    ctx.cover('end')


def u_format(ctx):
    it, calc = setup(ctx)
    text, m = a_date(ctx, 'd')
    st, r = run(it, DateFunctionsFeature.func_dateformat, calc, [text], [None], [None], {})
    if m is None:
        ctx.prove('other-text-is-refused', st == 'raise')
    else:
        ctx.prove('no-exception', st == 'ok', repr(r))
        if st == 'ok':
            prove_written(ctx, r.value, m.local, m.offset, 'dates.datefunctions')
            ctx.prove('no-unit', getattr(r, 'unit', None) is None)
    ctx.cover('end')


def u_add(ctx, f, sign):
    it, calc = setup(ctx)
    text, m = a_date(ctx, 'd')
    x = rat.rat(ctx, 'amount')
    ctx.inputs['amount'] = x.t
    unit = SOpaque(['given', 'seconds', 'incompatible'][ctx.choose(3, 'unit')])
    st, r = run(it, f, calc, [text, x], [None, unit], [None, None], {})
    if m is None or unit.name == 'incompatible':
        ctx.prove('refused', st == 'raise')
        ctx.cover('refused')
        return
    exact = z3.ToReal(m.local) + sign * SEC * x.t * (it.ratio if unit.name == 'given' else 1)
    if st == 'raise':
        ctx.prove('only-out-of-range-fails', z3.And(isinstance(r, OverflowError), z3.Or(2 * exact <= 1, 2 * exact >= 2 * LAST - 1)), repr(r))
        ctx.cover('out of range')
        return
    w = r.value
    ctx.prove('result-is-a-written-date', isinstance(w, Written), repr(w))
    if isinstance(w, Written):
        t = z3.ToReal(w.date.local)
        ctx.prove('that-much-later-to-the-nearest-microsecond', z3.And(2 * (t - exact) <= 1, 2 * (exact - t) <= 1))
        prove_written(ctx, w, w.date.local, m.offset)
    ctx.prove('no-unit', getattr(r, 'unit', None) is None)
    ctx.prove('amount-unchanged', x is not None and x.cast is None)
    ctx.cover('end')


def u_difference(ctx, arity):
    it, calc = setup(ctx)
    t1, a = a_date(ctx, 'a')
    t2, b = a_date(ctx, 'b')
    unit = SOpaque(['given', 'seconds', 'incompatible'][ctx.choose(3, 'unit')]) if arity == 3 else None
    st, r = run(it, DateFunctionsFeature.func_datedifference, calc, [t1, t2] + ([unit] if unit else []), [None] * arity, [None] * arity, {})
    if a is None or b is None or (a.offset is None) != (b.offset is None) or unit is not None and unit.name == 'incompatible':
        ctx.prove('refused', st == 'raise')
        ctx.cover('refused')
        return
    ctx.prove('no-exception', st == 'ok', repr(r))
    if st == 'ok':
        d = z3.ToReal(a.utc() - b.utc())
        d = z3.If(d >= 0, d, -d)
        v = term(r.value)
        ctx.prove('result-is-a-number', v is not None, repr(r.value))
        if v is not None:
            ctx.prove('exactly-the-time-between', v * SEC * (it.ratio if unit is not None and unit.name == 'given' else 1) == d)
        u = getattr(r, 'unit', None)
        ctx.prove('in-the-unit-asked-for', u is unit if unit is not None else in_seconds(u))
    ctx.cover('end')


def u_installed(ctx):
    """what the registered operations demand of their arguments"""
    for name, lo, hi in (('dateadd', 2, 2), ('datesubtract', 2, 2), ('datedifference', 2, 3), ('dateformat', 1, 1)):
        f = _CALC.funcs[name]
        ctx.prove('%s: arguments' % name, (f.minparams, f.maxparams) == (lo, hi))
    fs = {'dateadd': DateFunctionsFeature.func_dateadd, 'datesubtract': DateFunctionsFeature.func_datesubtract, 'datedifference': DateFunctionsFeature.func_datedifference, 'dateformat': DateFunctionsFeature.func_dateformat}
    for n, f in fs.items():
        ctx.prove('%s: is its code' % n, _CALC.funcs[n].ref is f)
    ctx.cover('end')


UNITS = [('string_to_date', u_read), ('validate_date', u_validate), ('date_to_string', u_write), ('func_dateformat', u_format),
         ('func_dateadd', lambda c: u_add(c, DateFunctionsFeature.func_dateadd, 1)), ('func_datesubtract', lambda c: u_add(c, DateFunctionsFeature.func_datesubtract, -1)),
         ('op_date_add', lambda c: u_add(c, DateOperatorsFeature.op_date_add, 1)), ('op_date_subtract', lambda c: u_add(c, DateOperatorsFeature.op_date_subtract, -1)),
         ('func_datedifference', lambda c: u_difference(c, 2)), ('func_datedifference in a unit', lambda c: u_difference(c, 3)), ('installed functions', u_installed)]

# ---------------------------------------------------------------- concrete oracle

ERR = 'ERR'
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
NAMES = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
WEEK = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month(y, m):
    return 29 if m == 2 and leap(y) else MONTHS[m - 1]


def number_of(y, m, d):
    """days since the first day of year 1"""
    n = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    return n + sum(month(y, k) for k in range(1, m)) + d - 1


END = number_of(10000, 1, 1) * DAY


def fields(t):
    n, us = t // DAY, t % DAY
    y = n // 366 + 1
    while number_of(y + 1, 1, 1) <= n:
        y += 1
    n -= number_of(y, 1, 1)
    m = 1
    while n >= month(y, m):
        n -= month(y, m)
        m += 1
    return y, m, n + 1, us // HOUR, us // MIN % 60, us // SEC % 60, us % SEC


def local_time(d):
    y, m, dd, h, mi, s, us, _z = d
    return number_of(y, m, dd) * DAY + h * HOUR + mi * MIN + s * SEC + us


def zone(z):
    return '' if z is None else '%s%02d%02d' % ('-' if z < 0 else '+', abs(z) // 60, abs(z) % 60)


def written(t, z):
    y, m, d, h, mi, s, us = fields(t)
    out = '%04d-%02d-%02d' % (y, m, d)
    if t % DAY:
        out += 'T%02d:%02d:%02d' % (h, mi, s)
        if us:
            out += '.%06d' % us
    return out + zone(z)


def literal(d, form):
    """the text of date d; form: how much is written although it is zero"""
    y, m, dd, h, mi, s, us, z = d
    out = '%04d-%02d-%02d' % (y, m, dd)
    if h or mi or s or us or form >= 1:
        out += 'T%02d:%02d:%02d' % (h, mi, s)
        if us or form == 2:
            f = '%06d' % us
            out += '.' + (f if form != 3 else f.rstrip('0'))
    return "'" + out + zone(z) + "'"


def value(e, c, what=None):
    st, r = evaluate(e, c=c)
    if st != 'ok':
        return ERR
    v = shown(r.value, r.unit, c)
    return ERR if v[0] == 'error' else v


def amount(num, den, unit):
    x = '%d' % num if den == 1 else '(%d / %d)' % (num, den)
    return x, '(%s * 1 %s)' % (x, unit) if den != 1 else '%s %s' % (x, unit)


def k_add(d, form, num, den, unit, how, stored):
    """a date plus (minus) an amount of time, and back again"""
    c = fresh()
    t = local_time(d)
    us = Fraction(num, den) * Q.UNITS[unit][1] * SEC
    src = literal(d, form)
    _x, am = amount(num, den, unit)
    if stored:
        for nm, e in (('da', src), ('am', am)):
            if evaluate('%s = %s' % (nm, e), c=c)[0] != 'ok':
                return None
        e1, e2 = 'da', 'am'
    else:
        e1, e2 = src, am
    before = table(c)
    expr = {'dateadd': 'dateadd(%s, %s)', 'datesubtract': 'datesubtract(%s, %s)', '+%': '%s +%% (%s)', '-%': '%s -%% (%s)'}[how] % (e1, e2)
    if how in ('datesubtract', '-%'):
        us = -us
    got = value(expr, c)
    near = {int(us // 1), int(us // 1) + 1} if (us * 2) % 2 == 1 else {int((us + Fraction(1, 2)) // 1)}
    want = {written(t + n, d[7]) if 0 <= t + n < END else ERR for n in near}
    g = got if got == ERR else got[1] if got[0] == 'str' else got
    if g not in want:
        return '%s is %s; expected %s' % (expr, got, ' or '.join(sorted(want)))
    if table(c) != before:
        return '%s changed a variable' % expr
    if g != ERR and us == int(us):
        back = {'dateadd': 'datesubtract', 'datesubtract': 'dateadd'}.get(how, 'dateadd' if how == '-%' else 'datesubtract')
        e = "%s('%s', %s)" % (back, g, am)
        b = value(e, fresh())
        if b == ERR or b[1] != written(t, d[7]):
            return '%s is %s; expected %s' % (e, b, written(t, d[7]))
        b = value("datedifference(%s, '%s', microseconds)" % (src, g), fresh())
        if b == ERR or (b[0], b[1], b[2]) != ('number', abs(us), 1):
            return "datedifference(%s, '%s', microseconds) is %s; expected %s" % (src, g, b, abs(us))
    return None


def k_difference(a, fa, b, fb, unit):
    """the exact time between two dates, whichever comes first"""
    c = fresh()
    x, y = literal(a, fa), literal(b, fb)
    u = '' if unit is None else ', ' + unit
    want = ERR
    if (a[7] is None) == (b[7] is None):
        d = abs(local_time(a) - (a[7] or 0) * MIN - local_time(b) + (b[7] or 0) * MIN)
        want = Fraction(d, SEC) / (Q.UNITS[unit][1] if unit else 1)
    for p, q in ((x, y), (y, x)):
        e = 'datedifference(%s, %s%s)' % (p, q, u)
        st, r = evaluate(e, c=c)
        if want == ERR:
            if st == 'ok':
                return '%s is %s; expected an error' % (e, shown(r.value, r.unit, c))
            continue
        if st != 'ok':
            return '%s failed: %s; expected %s' % (e, str(r)[:200], want)
        got = Q.read(r.value)
        if got != want or Q.read_unit(r.unit) != [(unit or 'seconds', 1)]:
            return '%s is %s; expected %s %s' % (e, shown(r.value, r.unit, c), want, unit or 'seconds')
    return None


def k_format(d, form):
    """the day of the week and the fields of the date, the time unless it is midnight"""
    t = local_time(d)
    e = 'dateformat(%s)' % literal(d, form)
    got = value(e, fresh())
    y, m, dd, h, mi, s, us = fields(t)
    out = []
    for yy in ('%d' % y, '%04d' % y):
        w = '%s, %02d-%s-%s' % (WEEK[t // DAY % 7], dd, NAMES[m - 1], yy)
        if t % DAY:
            w += ' at %02d:%02d:%02d' % (h, mi, s)
            if us:
                w += '.%06d' % us
        out.append(w + (' (%s)' % zone(d[7]) if d[7] is not None else ''))
    if got == ERR or got[1] not in out:
        return '%s is %s; expected %s' % (e, got, out[0])
    return None


def k_reject(expr):
    """not a date, not an amount of time, or no date at all: an error"""
    got = value(expr, fresh())
    return None if got == ERR else '%s is %s; expected an error' % (expr, got)


KINDS = {'add': k_add, 'difference': k_difference, 'format': k_format, 'reject': k_reject}
TIME = sorted(n for n, (d, s) in Q.UNITS.items() if d == 'time')
PLAIN = [n for n in ('seconds', 'minutes', 'hours', 'days', 'weeks', 'years', 'months', 'microseconds', 'milliseconds', 'nanoseconds', 'kiloseconds', 'fortnights', 'decades', 'centuries') if n in Q.UNITS]
YEARS = [1, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1752, 1899, 1900, 1969, 1970, 1999, 2000, 2004, 2012, 2023, 2024, 2038, 2100, 9998, 9999]
ZONES = [None, None, None, 0, 60, -120, 330, -270, 845, 720, -720, 1439, -1439]


def g_date(rng):
    if rng.random() < 0.05:     # near the ends of the calendar: beyond them in UTC
        return [1, 1, 1, rng.randint(0, 3), 0, 0, 0, rng.choice([60, 330, 720, 1439])] if rng.random() < 0.5 else [9999, 12, 31, rng.randint(20, 23), 59, 0, 0, rng.choice([-60, -270, -720, -1439])]
    y = rng.choice(YEARS) if rng.random() < 0.7 else rng.randint(1, 9999)
    m = rng.choice([1, 2, 2, 3, 12, rng.randint(1, 12)])
    d = rng.choice([1, month(y, m), 28, rng.randint(1, 28)])
    k = rng.random()
    tm = (0, 0, 0, 0) if k < 0.35 else (23, 59, 59, 999999) if k < 0.4 else (rng.randint(0, 23), rng.choice([0, 59, rng.randint(0, 59)]), rng.choice([0, 0, rng.randint(0, 59)]), rng.choice([0, 0, 1, 500000, 999999, 100000, rng.randint(0, 999999)]))
    return [y, m, d] + list(tm) + [rng.choice(ZONES)]


def g_form(rng):
    return rng.choice([0, 0, 0, 1, 2, 3])


def search(S):
    rng = S.rng
    for y in YEARS:
        for m, d in ((1, 1), (2, 28), (2, month(y, 2)), (12, 31), (3, 1)):
            x = [y, m, d, 0, 0, 0, 0, None]
            S.run('format', x, 0)
            for n in (1, -1, 365):
                S.run('add', x, 0, n, 1, 'days', 'dateadd' if n > 0 else '+%', False)
    for u in PLAIN:
        for n, dn in ((1, 1), (3, 2), (-5, 1), (1, 3)):
            S.run('add', [2012, 2, 28, 23, 59, 59, 999999, None], 0, n, dn, u, 'datesubtract', True)
        S.run('difference', [1, 1, 1, 0, 0, 0, 0, None], 0, [9999, 12, 31, 23, 59, 59, 999999, None], 0, u)
        S.run('difference', [2012, 1, 1, 0, 0, 0, 0, -120], 0, [2012, 1, 1, 0, 0, 0, 1, 330], 0, u)
    S.run('difference', [2012, 1, 2, 0, 0, 0, 0, None], 0, [2012, 1, 2, 0, 0, 0, 1, None], 0, None)
    S.run('difference', [2012, 1, 2, 0, 0, 0, 0, None], 0, [2012, 1, 2, 0, 0, 0, 1, 0], 0, None)
    for n in (1, -1, 300000000000 * SEC + 1, 10000000000 * SEC + 1, 63000000000 * SEC - 1):
        S.run('add', [1, 1, 1, 0, 0, 0, 0, None], 0, n, 1, 'microseconds', 'dateadd', False)
        S.run('add', [9999, 12, 31, 0, 0, 0, 0, 60], 1, n, 1, 'microseconds', '-%', True)
    bad = ["'2012-02-30'", "'2011-02-29'", "'1900-02-29'", "'2012-13-01'", "'2012-00-10'", "'0000-01-01'", "'2012-01-02T24:00:00'", "'2012-01-02T10:60:00'", "'2012-01-02 10:00:00'", "'x'", "''", "'2012'", "'2012-01-02T'", "2012", "true", "'2012-01-02T10:00:00.1234567'", "'2012-01-02+2500'", "'20120102'"]
    for b in bad:
        for e in ('dateadd(%s, 1 day)', 'datesubtract(%s, 1 day)', 'dateformat(%s)', "datedifference(%s, '2012-01-01')", "datedifference('2012-01-01', %s)", "%s +%% 1 day", "%s -%% 1 day"):
            S.run('reject', e % b)
    for a in ('5', '5 meters', '1 day^2', '5 meters/second', "'x'", "'2012-01-01'", 'true'):
        for e in ("dateadd('2012-01-01', %s)", "datesubtract('2012-01-01', %s)", "'2012-01-01' +%% (%s)", "'2012-01-01' -%% (%s)"):
            if '(' in e and '(true)' != a:
                S.run('reject', e % a)
    for u in ('meters', '5', "'days'", 'meters seconds'):
        S.run('reject', "datedifference('2012-01-01', '2012-01-05', %s)" % u)
    while S.time_left():
        x = rng.random()
        if x < 0.55:
            u = rng.choice(PLAIN) if rng.random() < 0.8 else rng.choice(TIME)
            y = rng.random()
            n = rng.randint(-100, 100) if y < 0.4 else rng.randint(-10**6, 10**6) if y < 0.7 else rng.randint(-10**rng.randint(1, 20), 10**rng.randint(1, 20))
            S.run('add', g_date(rng), g_form(rng), n, rng.choice([1, 1, 1, 2, 3, 7, 1000]), u, rng.choice(['dateadd', 'datesubtract', '+%', '-%']), rng.random() < 0.3)
        elif x < 0.85:
            S.run('difference', g_date(rng), g_form(rng), g_date(rng), g_form(rng), rng.choice([None] + PLAIN + PLAIN + TIME))
        else:
            S.run('format', g_date(rng), g_form(rng))
