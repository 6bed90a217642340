"""C04: printing a number."""
from pyvc.lib import *  # noqa: F401,F403
import decimal
from decimal import Decimal
from fractions import Fraction
from modularcalculator.objects.number import Number, NUMBER
from pyvc.core import PyRaise, Undecided

ASSUMPTIONS = ['context rounding is ROUND_HALF_UP, which the engine sets and the concrete search checks',
               'the class invariant of Number holds (C01)',
               'exact rounding of the value is claimed for numerators, denominators and 10^places within the size bound; that printing does not '
               'fail is proved for every size',
               'Decimal: a quotient is c*10^e with |c| < 10^prec and e its exponent; quantize raises InvalidOperation when the coefficient needs more than prec digits; '
               'format "f" of c*10^e writes all digits, a point iff e < 0, and keeps trailing zeros']


class DecText(SExt):
    """text of a non-zero decimal during printing.
    state: full (as written by format 'f'), point / nopoint (full, known to contain a point or not), stripped (trailing
    zeros removed, point may be last), canon, bad"""
    pyclass = str

    def __init__(self, v, state):
        self.v, self.state = v, state

    def haspoint(self, it):
        if self.state == 'full':
            # a value that is not an integer has a point; an integral one may have (2.00)
            isint = it.ctx.branch(z3.IsInt(self.v.t))
            if isint and it.ctx.choose(2, 'point') == 1:
                self.state = 'nopoint'
            else:
                self.state = 'point'
            self.integral = isint
        return self.state in ('point', 'stripped') and not (self.state == 'canon')

    def sx(self, it, op, *args):
        ctx = it.ctx
        if op == 'contains' and args[0] == '.':
            return self.point_now(it)
        if op == 'len':
            n = ctx.int('len')
            ctx.assume(n >= 1)
            return SInt(n)
        if op == 'call':
            name, a, kw = args
            if name in ('find', 'rfind', 'index', 'count') and a == ['.']:
                if self.point_now(it):
                    if name == 'count':
                        return 1
                    n = ctx.int('dot')
                    ctx.assume(n >= 1)
                    return SInt(n)
                if name == 'index':
                    raise PyRaise(ValueError('substring not found'))
                return 0 if name == 'count' else -1
            if name == 'rstrip' and a == ['0']:
                if self.state == 'stripped':
                    return self
                if self.point_now(it):
                    t = DecText(self.v, 'stripped')
                    t.integral = self.integral
                    return t
                return DecText(self.v, 'bad')
            if name == 'rstrip' and a == ['.']:
                self.point_now(it)
                if self.state == 'stripped':
                    return DecText(self.v, 'canon')
                return self
            if name in ('endswith', 'removesuffix') and a == ['.']:
                self.point_now(it)
                last = self.state == 'stripped' and self.integral
                if name == 'endswith':
                    return last
                return DecText(self.v, 'canon') if self.state == 'stripped' else self
            if name in ('strip', 'lower', 'upper') and not a:
                return self
            if name == 'startswith' and a == ['-']:
                return M._sb(self.v.t < 0)
        if op == 'getitem':
            i = args[0]
            if i == -1:
                self.point_now(it)
                if self.state == 'stripped' and self.integral:
                    return '.'
                return OtherChar()
            if i == 0:
                return '-' if ctx.branch(self.v.t < 0) else OtherChar()
            if isinstance(i, slice) and i.start in (0, None) and i.step is None and i.stop == -1:
                self.point_now(it)
                return DecText(self.v, 'canon' if self.state == 'stripped' and self.integral else 'bad')
        if op in ('compare', 'rcompare') and args[0] in ('Eq', 'NotEq'):
            if args[1] in ('-0', '0', '', '.'):
                return args[0] == 'NotEq'
        return NotImplemented

    def point_now(self, it):
        if self.state == 'full':
            self.haspoint(it)
        if self.state == 'stripped':
            return True
        if self.state == 'point':
            return True
        if self.state == 'nopoint':
            return False
        if self.state == 'canon':
            return not it.ctx.branch(z3.IsInt(self.v.t))
        raise Undecided('text in an unknown state')


class OtherChar(SExt):
    """a character that is neither '.' nor '-'"""
    pyclass = str

    def sx(self, it, op, *args):
        if op in ('compare', 'rcompare') and args[0] in ('Eq', 'NotEq') and args[1] in ('.', '-'):
            return args[0] == 'NotEq'
        return NotImplemented


def hooks(it, x, p, T, PREC, inbounds, Y=None):
    """decimal behaviour of the printed value x"""
    ctx = it.ctx
    y = ctx.real('y')
    ctx.assume(y == x.t * T)
    tab = {}

    def is_x(v):
        return v is x or (isinstance(v, SNum) and v.t.eq(x.t))

    def tie(m, mbound):
        """RND separation between q and m/(2T) or m/T"""
        if inbounds:
            ctx.assume((Y < m) == (y < m))
            ctx.assume((Y == m) == (y == m))

    def exponent():
        if 'e' not in tab:
            e = ctx.int('exponent')
            tab['e'] = e
            m = ctx.real('m')
            fine = e >= -p
            ctx.assume(z3.Implies(fine, z3.And(y == m, z3.IsInt(m))))
            ctx.assume(z3.Implies(z3.Not(fine), z3.If(y >= 0, y, -y) * 10 < PREC))
            if inbounds:
                ctx.assume(z3.Implies(fine, (Y < m) == (y < m)))
                ctx.assume(z3.Implies(fine, (Y == m) == (y == m)))
        return SInt(tab['e'])

    def tuple_hook(it, v):
        if not is_x(v):
            raise Undecided('as_tuple of another value')
        return SOpaque('DecimalTuple', attrs={'exponent': exponent()})

    def rounded(it, v):
        if not is_x(v):
            raise Undecided('rounding of another value')
        f = ctx.real('halfup')
        ctx.assume(z3.IsInt(f))
        h = z3.RealVal('1/2')
        ctx.assume(z3.If(y >= 0, z3.And(f - h <= y, y < f + h), z3.And(f - h < y, y <= f + h)))
        for m in (f - h, f + h, f):
            tie(m, None)
        tie(z3.RealVal(0), None)
        if ctx.branch(z3.Or(f >= PREC, -f >= PREC)):
            raise PyRaise(decimal.InvalidOperation([decimal.InvalidOperation]))
        r = ctx.real('rounded')
        ctx.assume(r * T == f)
        ctx.assume((r == 0) == (f == 0))
        ctx.assume((r < 0) == (f < 0))
        out = SNum(r, 'dec', False, None)
        out.negzero = True
        return out

    def round_hook(it, v, nd):
        if not (isinstance(nd, SInt) and nd.t.eq(p)):
            raise Undecided('rounding to another number of places')
        return rounded(it, v)

    def format_hook(it, v, spec):
        if spec != 'f':
            raise Undecided('format %r' % (spec,))
        if not isinstance(v, SNum):
            v = M.num(v)
        if ctx.branch(v.t == 0):
            return DecText(v, 'zero')
        return DecText(v, 'full')
    it.round_hook, it.tuple_hook, it.format_hook = round_hook, tuple_hook, format_hook
    return y


def unit(inbounds):
    def u(ctx):
        from pyvc.concrete import calc
        c = calc()
        it = Interp(ctx)
        p = ctx.int('places')
        T_ = ctx.real('T')
        ctx.assume(z3.And(p >= 0, T_ >= 1, z3.IsInt(T_)))
        PREC = ctx.real('PREC')              # 10^prec
        ctx.assume(PREC >= 10)
        old = NUMBER['decimal_places']
        NUMBER['decimal_places'] = SInt(p)
        try:
            if inbounds:
                n = mk_number(it, 'x')
                x = it.call(Number.to_decimal, [n])
                q = n._ghost
                Y = ctx.real('Y')
                ctx.assume(Y == q * T_)
                # |x*T| is far below 10^prec: |num| * 10^places <= B^3
                ctx.assume(z3.And(Y * 100 < PREC, -Y * 100 < PREC))
                if not x.isint and x.rnd is None:
                    raise Undecided('quotient model')
                if x.isint:
                    ctx.assume(Y == x.t * T_)
            else:
                n = Number.__new__(Number)
                n.num = SOpaque('num')
                n.den = SOpaque('den')
                n.number_cast = None
                x = SNum(ctx.real('x'), 'dec', False, None)
                it.contracts[Number.to_decimal] = lambda it, a, k: x
                Y = None
            hooks(it, x, p, T_, PREC, inbounds, Y)
            st, text = run(it, Number.to_string, n, c)
        finally:
            NUMBER['decimal_places'] = old
        if st == 'raise':
            ctx.fail('to_string:never-raises', repr(text))
            return
        if isinstance(text, str):
            ctx.prove('to_string:literal-text-is-canonical', text == '0')
            ctx.prove('to_string:no-exponent', True)
            F = z3.RealVal(0)
            if text != '0':
                return
        elif isinstance(text, DecText):
            if text.state in ('full', 'point', 'stripped'):
                text.point_now(it)
            ctx.prove('to_string:canonical-text', text.state in ('canon', 'nopoint') or (text.state == 'stripped' and not text.integral),
                      'state %s' % text.state)
            F = ctx.real('F')
            ctx.assume(F == text.v.t * T_)
        else:
            ctx.fail('to_string:returns-text', repr(text))
            return
        ctx.prove('to_string:at-most-the-configured-places', z3.IsInt(F))
        if inbounds:
            h = z3.RealVal('1/2')
            ctx.prove('to_string:rounded-half-up', z3.If(Y >= 0, z3.And(F - h <= Y, Y < F + h), z3.And(F - h < Y, Y <= F + h)))
        ctx.cover('to_string')
    return u


def unit_cast(ctx):
    """a number with a representation prints through its own to_string, once, with its arguments"""
    from pyvc.concrete import calc
    c = calc()
    it = Interp(ctx)
    calls = []
    n = Number.__new__(Number)
    n.num, n.den = SOpaque('num'), SOpaque('den')
    arg = SOpaque('arg')
    hasargs = ctx.choose(2, 'args')
    r = SStr(ctx.string('r'))

    def ts(it, *a):
        calls.append(a)
        return r
    n.number_cast = {'to_string': Stub(ts)}
    if hasargs:
        n.number_cast['args'] = [arg]
    st, text = run(it, Number.to_string, n, c)
    ctx.prove('to_string(cast):delegates', st == 'ok' and text is r and len(calls) == 1 and calls[0] == ((c, n, arg) if hasargs else (c, n)))
    ctx.cover('cast')


UNITS = [('Number.to_string (value, within bounds)', unit(True)), ('Number.to_string (any size)', unit(False)), ('Number.to_string (representation)', unit_cast)]


# ---------------------------------------------------------------- concrete oracle
from pyvc.concrete import evaluate, to_py, calc


def ref(x, places):
    s = -1 if x < 0 else 1
    n = (abs(x) * 10 ** places + Fraction(1, 2)).__floor__()
    w, f = divmod(n, 10 ** places)
    t = str(w)
    if f:
        t += '.' + str(f).rjust(places, '0').rstrip('0')
    return ('-' if s < 0 and n else '') + t


def k_text(num, den, prec, places, sign_zero=False):
    c = calc()
    try:
        c.number_size_set(prec)
        c.number_prec_set(places)
        x = Fraction(num, den)
        n = Number(Decimal(int(x.numerator)), Decimal(int(x.denominator)), skip_checks=True)
        if sign_zero:
            n = Number(Decimal('-0'), Decimal(1), skip_checks=True)
        got = n.to_string(c)
        # two roundings (to precision, then to places) may differ on a value that close to a tie: only claimed when
        # the quotient is separated from every tie
        exact = (abs(x.numerator) + 1) * 10 ** places * 4 < 10 ** prec and x.denominator * (abs(x.numerator) + 1) * 10 ** places * 4 < 10 ** prec
        want = ref(x, places)
        if exact and got != want:
            return '%s/%s at precision %d,%d prints %s, expected %s' % (num, den, prec, places, got, want)
        if 'E' in got.upper() or got in ('-0', '') or ('.' in got and got[-1] in '0.'):
            return '%s/%s prints %s' % (num, den, got)
        w, _, f = got.partition('.')
        if len(f) > places:
            return '%s/%s prints %d decimals' % (num, den, len(f))
        if not exact:
            g = Fraction(got)
            if abs(g - x) > Fraction(1, 10 ** places) + abs(x) * Fraction(2, 10 ** (prec - 1)):
                return '%s/%s prints %s' % (num, den, got[:60])
        if exact and x.denominator == 1 or (10 ** places * x).denominator == 1 and exact:
            if Fraction(got) != x:
                return '%s does not read back' % got
        return None
    finally:
        c.number_size_set(100)
        c.number_prec_set(30)


def k_expr(e, want):
    """text of the result of an expression; printing must not raise"""
    st, r = evaluate(e)
    if st == 'error':
        return '%s: %s' % (e, r.message)
    t = r.value.to_string(calc())
    if want is not None and t != want:
        return '%s prints %s, expected %s' % (e, t, want)
    if t in ('-0',) or 'E' in t:
        return '%s prints %s' % (e, t)
    return None


def k_lit(t):
    """reading the text back gives the number"""
    c = calc()
    st, r = evaluate(t)
    if st == 'error':
        return '%s: %s' % (t, r.message)
    x = to_py(r.value)
    s = r.value.to_string(c)
    if Fraction(s) != x or x != Fraction(t):
        return '%s reads as %s and prints %s' % (t, x, s)
    return None


def k_arr(e):
    c = calc()
    st, r = evaluate(e)
    if st == 'error':
        return None
    try:
        from modularcalculator.objects.items import OperandResult
        OperandResult(r.value, r.unit, None).to_string(c)
    except Exception as ex:
        return 'printing %s raised %s' % (e, type(ex).__name__)


KINDS = {'text': k_text, 'expr': k_expr, 'lit': k_lit, 'arr': k_arr}


def search(S):
    for e, w in [('10^80', '1' + '0' * 80), ('-1/10^40', '0'), ('1/3', '0.' + '3' * 30), ('2/3', '0.' + '6' * 29 + '7'), ('-2/3', '-0.' + '6' * 29 + '7'),
                 ('0 * -1', '0'), ('-0', '0'), ('100', '100'), ('1.50', '1.5'), ('0 - 0', '0'), ('10^99', '1' + '0' * 99), ('10^150', None),
                 ('1/10^30', '0.' + '0' * 29 + '1'), ('5/10^31', '0.' + '0' * 29 + '1'), ('-5/10^31', '-0.' + '0' * 29 + '1'), ('4/10^31', '0'),
                 ('10^70 + 0.5', '1' + '0' * 70 + '.5'), ('123456789 * 10^75 + 1/3', None), ('7^200 / 3', None), ('3^-200', None), ('1000', '1000'),
                 ('10^60/3', '3' * 60 + '.' + '3' * 30), ('1e20', None), ("1200 + 0", '1200')]:
        S.run('expr', e, w) if w is not None or '1e' not in e else None
    for e in ['[10^80, 1/3, -1/10^40]', '[1, [2, 10^90]]', '10^80 meters', 'x=[10^75/7]\nx']:
        S.run('arr', e)
    for prec, places in ((100, 30), (30, 10), (50, 0), (20, 5), (100, 1), (60, 30)):
        for n, d in ((0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (5, 10 ** (places + 1)), (-5, 10 ** (places + 1)), (4, 10 ** (places + 1)), (-4, 10 ** (places + 1)),
                     (10 ** (places + 1) - 5, 10 ** (places + 1)), (15, 10 ** (places + 1)), (25, 10 ** (places + 1)), (1, 3), (2, 3), (10, 3), (10 ** prec - 1, 1), (10 ** prec, 1),
                     (10 ** (prec + 5), 1), (10 ** prec - 1, 7), (100, 1), (1, 10 ** prec), (-1, 10 ** (prec + 3)), (10 ** (prec - places), 3), (10 ** (prec - places - 1), 3),
                     (10 ** (prec - places) - 1, 2), (-(10 ** (prec - 2)), 3)):
            S.run('text', n, d, prec, places)
    S.run('text', 0, 1, 100, 30, True)
    while S.time_left():
        r = S.rng
        prec = r.choice([100, 100, 30, 50, 12])
        places = r.choice([0, 1, 2, 5, 10, 30])
        if places >= prec:
            continue
        k = r.randrange(4)
        if k == 0:
            n, d = r.randrange(-10 ** r.randrange(1, prec + 4), 10 ** r.randrange(1, prec + 4)), r.randrange(1, 10 ** r.randrange(1, prec))
        elif k == 1:                                     # around ties
            n = 2 * r.randrange(-10 ** r.randrange(1, 8), 10 ** r.randrange(1, 8)) + 1
            d = 2 * 10 ** places
            e = r.randrange(1, 6)
            n, d = n * 10 ** e + r.choice([-1, 0, 1]), d * 10 ** e
        elif k == 2:
            n, d = r.randrange(-10 ** 6, 10 ** 6) * 10 ** r.randrange(0, prec + 10), r.choice([1, 1, 2, 3, 8])
        else:
            n, d = r.choice([-1, 1]) * r.randrange(1, 1000), 10 ** r.randrange(0, prec + 10)
        S.run('text', n, d, prec, places)
        if r.random() < 0.2:
            S.run('lit', '%s%d.%0*d' % (r.choice(['', '-']), r.randrange(10 ** r.randrange(1, 30)), 10, r.randrange(10 ** 10)))
