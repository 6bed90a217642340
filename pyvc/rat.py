"""Numbers abstracted to the exact rational they stand for.

Justified by C01: within the size bound every Number operation is the exact operation on rationals.  Irrational powers and
anything that may round are outside (Pow is an uninterpreted function with the laws of exponents)."""
import operator
from fractions import Fraction

import z3

from .core import PyRaise, Undecided
from .values import SExt, SBool, SInt, SNum, is_sym
from modularcalculator.objects.number import Number

Pow = z3.Function('Pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
ASSUMPTION = 'Number operations are exact (decided by C01, within its size bound)'


class Rat(SExt):
    """an exact Number (or, with pyclass Decimal, its to_decimal() used only in comparisons)"""

    def __init__(self, t, cast=None, pyclass=Number):
        self.t = z3.simplify(t) if z3.is_expr(t) else z3.RealVal(str(t))
        self.cast = cast
        self.pyclass = pyclass

    def __repr__(self):
        return 'Rat(%s)' % self.t

    def sx(self, it, op, *a):
        if op == 'binop':
            return arith(it, a[0], self, a[1])
        if op == 'rbinop':
            return arith(it, a[0], a[1], self)
        if op in ('compare', 'rcompare'):
            o = term(a[1])
            if o is None:
                if a[0] in ('Eq', 'NotEq'):
                    return a[0] == 'NotEq'
                raise Undecided('comparing a number with %r' % (a[1],))
            x, y = (self.t, o) if op == 'compare' else (o, self.t)
            f = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[a[0]]
            return SBool(z3.simplify(f(x, y)))
        if op == 'unop':
            if a[0] == 'USub':
                return Rat(-self.t, self.cast)
            if a[0] == 'UAdd':
                return self
        if op == 'abs':
            return Rat(z3.If(self.t >= 0, self.t, -self.t), self.cast)
        if op == 'int':             # int(number): towards zero
            c = it.ctx.int('trunc')
            cr = z3.ToReal(c)
            it.ctx.assume(z3.If(self.t >= 0, z3.And(cr <= self.t, self.t < cr + 1), z3.And(cr >= self.t, self.t > cr - 1)))
            return SInt(c)
        if op == 'truth':
            return self.t != 0 if self.pyclass is not Number else z3.BoolVal(True)
        if op == 'attr' and a[0] == 'number_cast':
            return self.cast
        if op == 'attr' and a[0] == 'binary_number_width' and hasattr(self, 'width'):
            return self.width
        if op == 'hasattr' and self.pyclass is Number:
            if a[0] == 'binary_number_width':
                return hasattr(self, 'width')
            return a[0] in ('num', 'den', 'number_cast') or hasattr(Number, a[0])
        if op == 'setattr' and a[0] in ('number_cast', 'binary_number_width') and self.pyclass is Number:
            it.ctx.log_write(self, a[0])
            if a[0] == 'number_cast':
                self.cast = a[1]
            else:
                self.width = a[1]
            return None
        if op == 'call':
            if a[0] == 'to_decimal':
                from decimal import Decimal
                return Rat(self.t, None, Decimal)
            if a[0] == 'copy':
                return Rat(self.t, self.cast)
            h = getattr(it, 'rat_to_string', None)
            if a[0] == 'to_string' and h is not None:
                return h(it, [self] + list(a[1]), a[2])
        return NotImplemented


def term(v):
    """the rational a number stands for, or None"""
    if isinstance(v, Rat):
        return v.t
    if isinstance(v, Number):
        if is_sym(v.num) or is_sym(v.den):
            return None
        f = Fraction(int(v.num), int(v.den))
        return z3.RealVal(str(f))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(v))
    try:
        from decimal import Decimal
        if isinstance(v, Decimal):
            return z3.RealVal(str(Fraction(v)))
    except Exception:
        pass
    return None


def cast_of(a):
    return a.cast if isinstance(a, Rat) else getattr(a, 'number_cast', None)


def arith(it, op, a, b):
    x, y = term(a), term(b)
    if x is None or y is None:
        from .models import raise_py
        raise_py(TypeError('unsupported operand'))
    ctx = it.ctx
    if op == 'Add':
        t = x + y
    elif op == 'Sub':
        t = x - y
    elif op == 'Mult':
        t = x * y
    elif op == 'Div':
        if ctx.branch(y == 0):
            raise PyRaise(ZeroDivisionError('division by zero'))
        q = ctx.real('q')
        ctx.assume(q * y == x)
        t = q
    elif op == 'Pow':
        t = power(it, x, y)
    elif op in ('FloorDiv', 'Mod'):
        if ctx.branch(y == 0):
            raise PyRaise(ZeroDivisionError('division by zero'))
        q, r = ctx.real('fq'), ctx.real('fr')
        ctx.assume(z3.IsInt(q))
        ay = z3.If(y >= 0, y, -y)
        ctx.assume(x == q * y + r)
        if op == 'FloorDiv':        # greatest integer not above x / y
            ctx.assume(z3.If(y >= 0, z3.And(r >= 0, r < y), z3.And(r <= 0, r > y)))
        else:                       # remainder with the sign of the dividend
            ctx.assume(z3.If(x >= 0, z3.And(r >= 0, r < ay), z3.And(r <= 0, -r < ay)))
        t = q if op == 'FloorDiv' else r
    else:
        raise Undecided('operator %s on exact numbers' % op)
    return Rat(t, cast_of(a))


def power(it, x, y):
    """x ^ y with the laws of exponents that the proofs use, for a positive base"""
    ctx = it.ctx
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        f = y.as_fraction()
        if f == 1:
            return x
        if f == 0:
            return z3.RealVal(1)
        if f == -1:
            if ctx.branch(x == 0):
                raise PyRaise(ZeroDivisionError('0 to a negative power'))
            q = ctx.real('inv')
            ctx.assume(q * x == 1)
            return q
    t = Pow(x, y)
    ctx.assume(z3.Implies(x > 0, z3.And(t > 0, Pow(x, z3.simplify(-y)) * t == 1)))
    return t


_DUNDERS = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__pow__': 'Pow', '__floordiv__': 'FloorDiv', '__mod__': 'Mod'}
_CMPS = {'__eq__': 'Eq', '__ne__': 'NotEq', '__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE'}


def install(it):
    """contracts of Number's methods when an operand is abstract"""
    for name, op in _DUNDERS.items():
        f = Number.__dict__.get(name)
        if f is not None:
            def h(it_, args, kw, op=op):
                return arith(it_, op, args[0], args[1])
            it.contracts[f] = h
    it.contracts[Number] = construct
    for name, op in _CMPS.items():
        f = Number.__dict__.get(name)
        if f is not None:
            def h2(it_, args, kw, op=op):
                x, y = term(args[0]), term(args[1])
                if x is None or y is None:
                    return op == 'NotEq'
                return Rat(x).sx(it_, 'compare', op, Rat(y))
            it.contracts[f] = h2


def construct(it, args, kw):
    """Number(...) of abstract numerator, denominator"""
    vals = [it.resolve(a) for a in args]
    if len(vals) > 2 or set(kw) - {'number_cast'}:
        return NotImplemented
    if len(vals) == 1 and isinstance(vals[0], Rat) and vals[0].pyclass is Number:
        return Rat(vals[0].t, kw.get('number_cast', vals[0].cast))
    if not any(is_sym(v) for v in vals):
        return NotImplemented
    ts = [term(v) for v in vals[:2]]
    if not ts or any(t is None for t in ts):
        return NotImplemented
    cast = kw.get('number_cast')
    if len(ts) == 1:
        return Rat(ts[0], cast)
    if it.ctx.branch(ts[1] == 0):
        raise PyRaise(Exception('Cannot create Number with denominator of 0'))
    r = arith(it, 'Div', Rat(ts[0]), Rat(ts[1]))
    return Rat(r.t, cast)


def rat(ctx, name, cast=None):
    t = ctx.real(name)
    ctx.inputs[name] = t
    return Rat(t, cast)
