"""C18: bitwise and integer functions agree with integer arithmetic."""
from pyvc.lib import *  # noqa: F401,F403
import functools
import math
from pyvc.core import PathDone
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import OperationResult
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.features.numerical.bitwiseoperators import BitwiseOperatorsFeature as B
from modularcalculator.features.numerical.numericalfunctions import NumericalFunctionsFeature as N
from modularcalculator.features.numerical.binarynumbers import BinaryNumericalRepresentation

ASSUMPTIONS = ['a number that carries a width of binary digits fits in it (class invariant: established here by every bitwise operator; by the reading of binary text, see the concrete search)',
               'operands have at most as many digits as the number size; larger ones are searched concretely']
TRUSTED = ['facts about bits: x & (2^w - 1) = x mod 2^w; n ^ (2^w - 1) = 2^w - 1 - n for 0 <= n < 2^w; a & b, a | b and a ^ b are less than 2^w when 0 <= a, b < 2^w; '
           '2^(bits - 1) <= n < 2^bits for the bit length of n > 0', 'Python int operators &, |, ^, <<, >> and math.gcd, math.lcm, math.factorial are the mathematical functions',
           'gcd(a, b) * lcm(a, b) = |a * b|']
IN = {'bound': (1, 1)}


def pow2(it, k):
    p = M.ipow(it, z3.RealVal(2), z3.simplify(k))
    it.ctx.assume(p >= 1)
    return p


def bits(ctx, it, n):
    """bit length of n >= 0, with its facts"""
    b = M.BITLEN(n)
    ctx.assume(z3.And(z3.IsInt(b), b >= 0, n < pow2(it, b), z3.Implies(n > 0, b >= 1), z3.Implies(n == 0, b == 0)))
    return b


def operand(ctx, it, name, integer, widths=True):
    """an arbitrary number, with or without a width of binary digits -> (number, its width)"""
    n = mk_number(it, name, integer=integer, cast=None)
    if widths and ctx.choose(2, name + ' has a width') == 1:
        w = ctx.real(name + '.width')
        ctx.assume(z3.And(z3.IsInt(w), w >= 1))
        mag = z3.If(n._ghost >= 0, n._ghost, -n._ghost)
        if integer:
            ctx.assume(mag < pow2(it, w))
        n.binary_number_width = SNum(w, 'int', True, None)
        return n, w
    mag = n.num.t if integer else None
    if mag is None:
        return n, None
    mag = z3.If(n.num.t >= 0, n.num.t, -n.num.t)
    w = bits(ctx, it, n.num.t)
    ctx.assume(M.BITLEN(z3.simplify(-n.num.t)) == w)
    ctx.assume(z3.Implies(n.num.t < 0, z3.And(w >= 1, -n.num.t < pow2(it, w))))
    return n, z3.If(w >= 1, w, z3.RealVal(1))


def is_int(n):
    return T(n.den) == 1


def result_number(ctx, it, st, r, name):
    ctx.prove(name + ':returns', st == 'ok' and isinstance(r, OperationResult) and is_number(r.value), type(r).__name__)
    if st != 'ok':
        raise PathDone()
    prove_invariant(it, r.value, name)
    return r.value


WHOLE = {'&': M.BAND, '|': M.BOR, '^': M.BXOR}


def u_binary(ctx, fn, sym, integer):
    """and, or, xor: of integers the integer function; of anything else an error; the result fits its width"""
    it = Interp(ctx)
    kind = ctx.choose(2, 'which is an integer') if not integer else None
    (a, wa), (b, wb) = [operand(ctx, it, nm, integer or kind == i) for i, nm in enumerate(('a', 'b'))]
    vals = ctx.alloc([a, b])
    st, r = run(it, getattr(B, fn), mk_calc(ctx), vals, [None, None], [None, None], {})
    both = z3.And(is_int(a), is_int(b))
    if st == 'raise':
        ctx.prove(fn + ':error-only-of-non-integers', z3.Not(both))
        ctx.prove(fn + ':calculator-error', isinstance(r, CalculatorException), type(r).__name__)
        ctx.cover('error')
        return
    ctx.prove(fn + ':non-integers-are-errors', both)
    if not integer:
        return
    v = result_number(ctx, it, st, r, fn)
    x, y = a.num.t, b.num.t
    t = WHOLE[sym](x, y)
    ctx.assume(t == WHOLE[sym](y, x))
    ctx.prove(fn + ':integer-function', z3.And(T(v.den) == 1, T(v.num) == t))
    w = z3.If(wa >= wb, wa, wb)
    ctx.prove(fn + ':has-a-width', hasattr(v, 'binary_number_width'))
    if hasattr(v, 'binary_number_width'):
        ctx.prove(fn + ':as-wide-as-the-wider', T(v.binary_number_width) == w)
        P = pow2(it, w)
        ctx.assume(z3.Implies(z3.And(x >= 0, y >= 0, x < P, y < P), z3.And(t >= 0, t < P)))       # bits of a & b, a | b, a ^ b
        for u, wu in ((x, wa), (y, wb)):
            ctx.assume(pow2(it, wu) <= P)           # 2^w is monotone
        ctx.prove(fn + ':fits', z3.Implies(z3.And(x >= 0, y >= 0), z3.And(T(v.num) >= 0, T(v.num) < P)))
    ctx.cover('ok')


def u_not(ctx, integer):
    """not: every digit of the operand's width is flipped"""
    it = Interp(ctx)
    a, w = operand(ctx, it, 'a', integer)
    calc = mk_calc(ctx, number=Stub(lambda it_, v, *x, **kw: v))
    st, r = run(it, B.op_bitwise_not, calc, ctx.alloc([a]), [None], [None], {})
    if st == 'raise':
        ctx.prove('~:error-only-of-other-numbers', z3.Or(z3.Not(is_int(a)), a.num.t < 0))
        ctx.prove('~:calculator-error', isinstance(r, CalculatorException), type(r).__name__)
        ctx.cover('error')
        return
    ctx.prove('~:other-numbers-are-errors', z3.And(is_int(a), a.num.t >= 0))
    if not integer:
        return
    v = result_number(ctx, it, st, r, '~')
    n = a.num.t
    P = pow2(it, w)
    ctx.assume(n < P)
    # the facts about bits, for the terms the code may have formed
    for m in (P - 1, z3.simplify(P - 1)):
        for inv in (-n - 1, z3.simplify(-n - 1), z3.simplify(-1 * n - 1), z3.simplify(-(n + 1))):
            for x, y in ((inv, m), (m, inv)):
                ctx.assume(M.BAND(x, y) == P - 1 - n)
        for x, y in ((n, m), (m, n)):
            ctx.assume(M.BXOR(x, y) == P - 1 - n)
    ctx.prove('~:flips-every-digit', z3.And(T(v.den) == 1, T(v.num) == P - 1 - n))
    ctx.prove('~:has-a-width', hasattr(v, 'binary_number_width'))
    if hasattr(v, 'binary_number_width'):
        W = T(v.binary_number_width)
        b = M.BITLEN(T(v.num))
        ctx.assume(z3.And(z3.IsInt(b), b >= 0, z3.Implies(T(v.num) < P, b <= w)))       # bit length is monotone
        ctx.prove('~:as-wide-as-the-operand', W == w)
    ctx.cover('ok')


def u_shift(ctx, fn, left, integer):
    """shifts: multiplication and floor division by a power of two"""
    it = Interp(ctx)
    kind = ctx.choose(2, 'which is an integer') if not integer else None
    (a, wa) = operand(ctx, it, 'a', integer or kind == 0)
    (b, wb) = operand(ctx, it, 'b', integer or kind == 1, False)
    st, r = run(it, getattr(B, fn), mk_calc(ctx), ctx.alloc([a, b]), [None, None], [None, None], {})
    good = z3.And(is_int(a), is_int(b), b.num.t >= 0)
    if st == 'raise':
        ctx.prove(fn + ':error-only-of-other-numbers', z3.Not(good))
        ctx.prove(fn + ':calculator-error', isinstance(r, CalculatorException), type(r).__name__)
        ctx.cover('error')
        return
    ctx.prove(fn + ':other-numbers-are-errors', good)
    if not integer:
        return
    v = result_number(ctx, it, st, r, fn)
    x, P = a.num.t, pow2(it, b.num.t)
    ctx.prove(fn + ':an-integer', T(v.den) == 1)
    if left:
        ctx.prove(fn + ':exact', T(v.num) == x * P)
    else:
        ctx.prove(fn + ':floor', z3.And(T(v.num) * P <= x, x < T(v.num) * P + P))
    ctx.prove(fn + ':has-a-width', hasattr(v, 'binary_number_width'))
    if hasattr(v, 'binary_number_width'):
        W = T(v.binary_number_width)
        ctx.prove(fn + ':at-least-as-wide-as-the-operand', W >= wa)
        R = T(v.num)
        bl = M.BITLEN(R)
        Q = pow2(it, W)
        ctx.assume(z3.Implies(R >= 0, z3.And(z3.IsInt(bl), bl >= 0, R < pow2(it, bl), z3.Implies(W >= bl, pow2(it, bl) <= Q))))
        ctx.assume(z3.Implies(W >= wa, pow2(it, wa) <= Q))
        ctx.prove(fn + ':fits', z3.Implies(x >= 0, z3.And(R >= 0, R < Q)))
    ctx.cover('ok')


def u_function(ctx, fn, integer):
    """gcd, lcm, fact"""
    it = Interp(ctx)
    one = fn == 'func_fact'
    kind = ctx.choose(2, 'which is an integer') if not integer and not one else None
    ops = [mk_number(it, nm, integer=integer or kind == i) for i, nm in enumerate('a' if one else 'ab')]
    unit = SOpaque('unit')
    st, r = run(it, getattr(N, fn), mk_calc(ctx), ctx.alloc(list(ops)), [unit] + [None] * (len(ops) - 1), [None] * len(ops), {})
    good = z3.And([is_int(o) for o in ops] + ([ops[0].num.t >= 0] if one else []))
    if st == 'raise':
        ctx.prove(fn + ':error-only-of-other-numbers', z3.Not(good))
        ctx.prove(fn + ':calculator-error', isinstance(r, CalculatorException), type(r).__name__)
        ctx.cover('error')
        return
    ctx.prove(fn + ':other-numbers-are-errors', good)
    if not integer:
        return
    v = result_number(ctx, it, st, r, fn)
    ctx.prove(fn + ':an-integer', T(v.den) == 1)
    R = T(v.num)
    x = ops[0].num.t
    if one:
        ctx.prove(fn + ':factorial', R == M.FACT(x))
    else:
        y = ops[1].num.t
        g = M.GCD(x, y)
        ctx.assume(g == M.GCD(y, x))
        if fn == 'func_gcd':
            ctx.prove(fn + ':greatest-common-divisor', R == g)
        else:
            l = M.LCM(x, y)
            ctx.assume(l == M.LCM(y, x))
            p = z3.If(x * y >= 0, x * y, -(x * y))
            ctx.assume(g * l == p)
            ctx.prove(fn + ':least-common-multiple', z3.Or(R == l, z3.And(g != 0, R * g == p)))
    ctx.prove(fn + ':unit-of-the-first', r.unit is unit)
    ctx.cover('ok')


def u_int(ctx):
    """int of a number: truncation towards zero, exact"""
    it = Interp(ctx)
    a = mk_number(it, 'a')
    st, r = run(it, Number.__int__, a)
    ctx.prove('int:returns', st == 'ok')
    if st != 'ok':
        return
    t, x = T(r), a._ghost
    ctx.prove('int:integer', z3.BoolVal(True) if isinstance(r, int) or getattr(r, 'isint', False) else z3.IsInt(t))
    ctx.prove('int:towards-zero', z3.If(x >= 0, z3.And(t <= x, x < t + 1), z3.And(x <= t, t - 1 < x)))
    ctx.cover('ok')


P_ = functools.partial
OPT = {'max_paths': 3000, 'seconds': 80}
UNITS = []
for _fn, _sym in (('op_bitwise_and', '&'), ('op_bitwise_or', '|'), ('op_bitwise_xor', '^')):
    UNITS += [('%s of integers' % _fn, P_(u_binary, fn=_fn, sym=_sym, integer=True), OPT), ('%s of any numbers' % _fn, P_(u_binary, fn=_fn, sym=_sym, integer=False), OPT)]
for _i in (True, False):
    _k = 'integers' if _i else 'any numbers'
    UNITS += [('op_bitwise_not of %s' % _k, P_(u_not, integer=_i), OPT), ('op_bitwise_lshift of %s' % _k, P_(u_shift, fn='op_bitwise_lshift', left=True, integer=_i), OPT),
              ('op_bitwise_rshift of %s' % _k, P_(u_shift, fn='op_bitwise_rshift', left=False, integer=_i), OPT)]
    UNITS += [('%s of %s' % (f, _k), P_(u_function, fn=f, integer=_i), OPT) for f in ('func_gcd', 'func_lcm', 'func_fact')]
UNITS += [('Number.__int__', u_int)]



# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
from pyvc.concrete import calc, shown, evaluate

SEARCH_SECONDS = (30, 300)


class Bad(Exception):
    """an error is expected"""


class Unknown(Exception):
    """outside what is compared here"""


def lit(text):
    """-> (value, width of binary digits or None, form) of a literal"""
    t = text[1:-1] if text[:1] == "'" else text
    neg, t = t[:1] == '-', t.lstrip('-')
    width, form = None, None
    if text == 'true' or text == 'false':
        v = Fraction(text == 'true')
    elif t[:2] in ('0x', '0b', '0o') or 'z' in t:
        base = {'0x': 16, '0b': 2, '0o': 8}.get(t[:2]) or int(t.split('z')[0])
        digits = t.split('z')[1] if 'z' in t else t[2:]
        whole, _, frac = digits.partition('.')
        v = Fraction(int(whole, base)) + (Fraction(int(frac, base), base ** len(frac)) if frac else 0)
        form = t.split('z')[0] + 'z' if 'z' in t else t[1]
        if form == 'b':
            width = len(whole) if not frac else 0
    elif t.endswith('%'):
        v, form = Fraction(t[:-1]) / 100, '%'
    else:
        v = Fraction(t)
        form = 'E' if 'E' in t else 'd' if text[:1] == "'" else None
    return (-v if neg else v), width, form


def text_of(x):
    k = x[0]
    if k == 'n':
        return x[1]
    if k == 'o':
        return '(%s %s %s)' % (text_of(x[2]), x[1], text_of(x[3]))
    if k == '~':
        return '(~%s)' % text_of(x[1])
    if k == 'f':
        return '%s(%s)' % (x[1], ', '.join(text_of(y) for y in x[2]))
    if k == 'l':
        return '[%s]' % ', '.join(text_of(y) for y in x[1])
    if k == 'v':
        return 'stored%s' % 'abcdefgh'[x[1]]
    raise ValueError(k)


BAD = None


def has_bad(m):
    return any(has_bad(x) for x in m) if isinstance(m, list) else m is BAD


def whole(m):
    if m[0].denominator != 1:
        raise Bad()
    return int(m[0])


def natural(m):
    if whole(m) < 0:
        raise Bad()
    return int(m[0])


def width(m):
    return m[1] if m[1] is not None else max(abs(int(m[0])).bit_length(), 1)


def apply(op, ms):
    form = next((m[2] for m in ms if m[2] is not None), None)
    if op in ('&', '|', '^^'):
        a, b = whole(ms[0]), whole(ms[1])
        r = a & b if op == '&' else a | b if op == '|' else a ^ b
        return Fraction(r), max(width(ms[0]), width(ms[1])), form
    if op in ('<<', '>>'):
        a, b = whole(ms[0]), natural(ms[1])
        r = a << b if op == '<<' else a >> b
        return Fraction(r), max(width(ms[0]), max(abs(r).bit_length(), 1)) if op == '<<' else width(ms[0]), form
    if op == '~':
        a = natural(ms[0])
        w = width(ms[0])
        return Fraction(2 ** w - 1 - a), w, form
    if op in ('gcd', 'lcm'):
        a, b = whole(ms[0]), whole(ms[1])
        return Fraction(math.gcd(a, b) if op == 'gcd' else math.lcm(a, b)), None, form
    if op == 'fact':
        a = natural(ms[0])
        if a > 900:
            raise Unknown()
        return Fraction(math.factorial(a)), None, form
    if op in '+-*/':
        a, b = ms[0][0], ms[1][0]
        if op == '/' and b == 0:
            raise Bad()
        r = a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else a / b
        if max(abs(x) for m in (ms[0][0], ms[1][0], r) for x in (m.numerator, m.denominator)) >= 10 ** 45:
            raise Unknown()
        return r, None, form
    raise ValueError(op)


def rows(ms, fn):
    """fn of each row; an error stays in its row"""
    def one(ms):
        try:
            return BAD if any(m is BAD for m in ms) else fn(ms)
        except Bad:
            return BAD
    n = {len(m) for m in ms if isinstance(m, list)}
    if not n:
        return one(ms)
    if len(n) > 1:
        if has_bad(ms):
            raise Unknown()         # which of the errors comes first is not compared
        return BAD
    return [one([m[i] if isinstance(m, list) else m for m in ms]) for i in range(n.pop())]


def model(x, stored):
    k = x[0]
    if k == 'n':
        return lit(x[1])
    if k == 'o':
        if x[1] in ('<<', '>>'):
            b = model(x[3], stored)
            for y in (b if isinstance(b, list) else [b]):
                if y is not BAD and y[0] > 3000:
                    raise Unknown()
        ms = [model(y, stored) for y in x[2:4]]
        return rows(ms, lambda m: apply(x[1], m))
    if k == '~':
        return rows([model(x[1], stored)], lambda m: apply('~', m))
    if k == 'f':
        return rows([model(y, stored) for y in x[2]], lambda m: apply(x[1], m))
    if k == 'l':
        ms = [model(y, stored) for y in x[1]]
        if any(isinstance(m, list) for m in ms):
            raise Unknown()         # lists of lists: see C15
        return BAD if has_bad(ms) else ms
    if k == 'v':
        return model(stored[x[1]], stored)
    raise ValueError(k)


def binary_text(v, w):
    t = format(abs(v), 'b').zfill(w)
    return ('-' if v < 0 else '') + '0b' + t


def compare(want, v, text, top):
    if want is BAD:
        if isinstance(v, list):
            return None if all(isinstance(r.value, Exception) for r in v) else '%s is %s; expected errors' % (text, v)
        return None if isinstance(v, Exception) else '%s is %s; expected an error' % (text, str(v))
    if isinstance(want, list):
        if not isinstance(v, list) or len(v) != len(want):
            return '%s is %s' % (text, v)
        for w, r in zip(want, v):
            m = compare(w, r.value, text, top)
            if m:
                return m
        return None
    if isinstance(v, str):
        return None                 # a literal on its own is left as its text
    if isinstance(v, bool):
        v = Number(int(v))
    if not is_number(v):
        return '%s is %s; expected %s' % (text, v, want[0])
    if Fraction(int(v.num), int(v.den)) != want[0]:
        return '%s is %s; expected %s' % (text, Fraction(int(v.num), int(v.den)), want[0])
    if want[0].denominator == 1 and abs(want[0]) < 10 ** 95 and top:
        s = shown(v)[3]
        if want[2] == 'b' and want[1] is not None:
            if s != binary_text(int(want[0]), want[1]):
                return '%s is shown as %s; expected %s' % (text, s, binary_text(int(want[0]), want[1]))
        elif want[2] in (None, 'd') and s != str(want[0]):
            return '%s is shown as %s; expected %s' % (text, s, want[0])
        elif want[2] in ('x', 'o') and s.lower() != ('-' if want[0] < 0 else '') + '0' + want[2] + format(abs(int(want[0])), want[2]):
            return '%s is shown as %s; expected the digits of %s' % (text, s, want[0])
    return None


def k_integer(tree, stored):
    """an expression over bitwise and integer operations has the value, the digits and the errors of integer arithmetic"""
    c = calc('Computing')
    try:
        ms = [model(s, []) for s in stored]
        want = model(tree, stored)
    except Unknown:
        return None
    if has_bad(ms):
        return None
    for i, s in enumerate(stored):
        st, r = evaluate('%s = %s' % (text_of(['v', i]), text_of(s)), c=c)
        if st != 'ok':
            return '%s is an error: %s' % (text_of(s), r)
    what = text_of(tree) + (' with %s' % [text_of(s) for s in stored] if stored else '')
    st, r = evaluate(text_of(tree), c=c)
    if st != 'ok':
        return None if has_bad(want) else '%s is an error: %s; expected %s' % (what, str(r)[:200], str(want)[:200])
    if want is BAD and not isinstance(r.value, list):
        return '%s is %s; expected an error' % (what, str(shown(r.value))[:200])
    return compare(want, r.value, what, tree[0] in ('o', '~', 'f') and (tree[0] != 'o' or tree[1] not in '+-*/'))


KINDS = {'integer': k_integer}

ODD = ['5.5', '0b11.1', '0x1.8', '5%', '-2.5', '0.001', '1E-3']


def r_int(rng):
    x = rng.random()
    if x < 0.25:
        n = rng.randrange(0, 20)
    elif x < 0.6:
        n = max(0, 2 ** rng.randrange(0, rng.choice([10, 70, 130, 320])) + rng.choice([-2, -1, 0, 1, 2]))
    elif x < 0.8:
        n = rng.randrange(0, 10 ** rng.randrange(1, 40))
    elif x < 0.9:
        n = max(0, 10 ** rng.randrange(10, 150) + rng.choice([-1, 0, 1, rng.randrange(10 ** 10)]))
    else:
        n = rng.randrange(10 ** 99, 10 ** rng.randrange(100, 220))
    return n


def r_leaf(rng):
    x = rng.random()
    if x < 0.06:
        return ['n', rng.choice(ODD + ['1E3', '200%', '3z102', '5z41', 'true'])]
    n = r_int(rng)
    sign = '-' if rng.random() < 0.2 else ''
    if n >= 10 ** 90 or x < 0.4:
        return ['n', sign + str(n)]
    if x < 0.75:
        t = sign + '0b' + '0' * rng.choice([0, 0, 1, 2, 5]) + format(n, 'b')
    elif x < 0.85:
        t = sign + '0x' + '0' * rng.choice([0, 0, 1]) + format(n, 'X')
    elif x < 0.92:
        t = sign + '0o' + format(n, 'o')
    else:
        return ['n', "'%s'" % rng.choice([str(n), '0b' + format(n, '06b')])] if n < 10 ** 60 else ['n', str(n)]
    return ['n', t]


def r_shift(rng):
    return ['n', rng.choice(['0', '1', '2', '3', '7', '8', '63', '64', '0b11', '0x10', '100', '400', '1023', '1024', '1025', '2047', '2999', '-1', '1.5', str(rng.randrange(0, 340))])]


def r_tree(rng, d, stored):
    if d <= 0 or rng.random() < 0.1:
        if stored and rng.random() < 0.5:
            return ['v', rng.randrange(len(stored))]
        return r_leaf(rng)
    x = rng.random()
    if x < 0.45:
        return ['o', rng.choice(['&', '|', '^^']), r_tree(rng, d - 1, stored), r_tree(rng, d - 1, stored)]
    if x < 0.65:
        return ['~', r_tree(rng, d - 1, stored)]
    if x < 0.8:
        return ['o', rng.choice(['<<', '>>']), r_tree(rng, d - 1, stored), r_shift(rng)]
    if x < 0.88:
        return ['f', rng.choice(['gcd', 'lcm']), [r_tree(rng, d - 1, stored), r_tree(rng, d - 1, stored)]]
    if x < 0.9:
        return ['f', 'fact', [['n', str(rng.choice([0, 1, 5, 20, 69, 70, 71, 150, 300]))] if rng.random() < 0.7 else r_tree(rng, d - 1, stored)]]
    if x < 0.96:
        return ['o', rng.choice('+-*/'), r_tree(rng, d - 1, stored), r_tree(rng, d - 1, stored)]
    return ['l', [r_tree(rng, d - 2, [s for s in stored if s[0] != 'l']) if not stored else r_leaf(rng) for _ in range(rng.randint(1, 3))]]


def search(S):
    rng = S.rng
    N = lambda t: ['n', t]
    edge = ['0', '1', '2', '3', '7', '8', '15', '16', '255', '256', '-1', '-8', '0b0', '0b1', '0b0011', '0b1000', '0xFF', '5.5'] + [str(2 ** k + j) for k in (31, 53, 63, 64, 100, 333) for j in (-1, 0, 1)]
    for x in edge:
        S.run('integer', ['~', N(x)], [])
        for op in ('&', '|', '^^'):
            for y in edge[::3] + ['0b0101', '10']:
                S.run('integer', ['o', op, N(x), N(y)], [])
        for op in ('<<', '>>'):
            for y in ('0', '1', '5', '64', '-1', '0.5'):
                S.run('integer', ['o', op, N(x), N(y)], [])
        for y in edge[1::3]:
            S.run('integer', ['f', 'gcd', [N(x), N(y)]], [])
            S.run('integer', ['f', 'lcm', [N(x), N(y)]], [])
    for n in list(range(0, 40)) + [69, 70, 71, 72, 100, 170, 171, 200, 450]:
        S.run('integer', ['f', 'fact', [N(str(n))]], [])
    # the width of every number of digits, and of what is computed from it
    for w in range(1, 20):
        for v in (0, 1, 2 ** w - 1, 2 ** (w - 1)):
            b = N('0b' + format(v, 'b').zfill(w))
            S.run('integer', ['~', b], [])
            S.run('integer', ['~', ['~', b]], [])
            S.run('integer', ['~', ['o', '&', b, N('0b0001')]], [])
            S.run('integer', ['~', ['o', '>>', b, N('1')]], [])
            S.run('integer', ['~', ['o', '<<', b, N('2')]], [])
            S.run('integer', ['~', ['v', 0]], [b])
    while S.time_left():
        stored = [r_leaf(rng) if rng.random() < 0.5 else r_tree(rng, 1, []) for _ in range(rng.randint(0, 3))]
        S.run('integer', r_tree(rng, rng.randint(1, 4), stored), stored)
