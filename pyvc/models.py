"""Models of the Python built-ins and library functions the repository uses.

Every model is an assumption about CPython / the standard library; the
conformance tests in pyvc/conform.py execute the interpreter on concrete
values against CPython, and each property's concrete replay exercises the real
library."""
import ast
import builtins
import copy as copymod
import decimal
import functools
import itertools
import math
import re
import sys
import types
from decimal import Decimal
from fractions import Fraction

import z3

from .core import PathDone, PyRaise, Undecided
from .values import (SAny, SBase, SBool, SConcat, SDict, SEnumerate, SInt, SList, SMatch, SNum, SOpaque, SRange, SReversed, SZip,
                     SSlice, SStr, SExt, Sym, is_sym)

append_watch = []

GCD = z3.Function('GCD', z3.RealSort(), z3.RealSort(), z3.RealSort())
IPOW = z3.Function('IPOW', z3.RealSort(), z3.RealSort(), z3.RealSort())
BAND = z3.Function('BAND', z3.RealSort(), z3.RealSort(), z3.RealSort())
BOR = z3.Function('BOR', z3.RealSort(), z3.RealSort(), z3.RealSort())
BXOR = z3.Function('BXOR', z3.RealSort(), z3.RealSort(), z3.RealSort())
FACT = z3.Function('FACT', z3.RealSort(), z3.RealSort())
LCM = z3.Function('LCM', z3.RealSort(), z3.RealSort(), z3.RealSort())
BITLEN = z3.Function('BITLEN', z3.RealSort(), z3.RealSort())


# ------------------------------------------------------------------ helpers
def fits(bound):
    """|x| * 10 <= 10**prec whenever |x| <= c*B**k (precondition 10**4 * B**4 <= 10**prec)."""
    return bound is not None and bound[0] <= 1000 and bound[1] <= 4


def bmul(a, b):
    return None if a is None or b is None else (a[0] * b[0], a[1] + b[1])


def badd(a, b):
    return None if a is None or b is None else (a[0] + b[0], max(a[1], b[1]))


def frac_val(x):
    f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def is_number(v):
    return isinstance(v, (SNum, SInt, SBool, int, float, Decimal)) and not isinstance(v, complex)


def num(v):
    """-> SNum view of a numeric value"""
    if isinstance(v, SNum):
        return v
    if isinstance(v, SInt):
        return SNum(z3.ToReal(v.t), 'int', True, getattr(v, 'bound', None))
    if isinstance(v, SBool):
        return SNum(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)), 'int', True, (1, 0))
    if isinstance(v, bool):
        return SNum(z3.RealVal(int(v)), 'int', True, (1, 0))
    if isinstance(v, int):
        return SNum(z3.RealVal(v), 'int', True, (abs(v) or 1, 0))
    if isinstance(v, Decimal):
        if not v.is_finite():
            raise Undecided('non-finite Decimal constant')
        f = Fraction(v)
        n = SNum(frac_val(v), 'dec', f.denominator == 1, (abs(f.numerator) // f.denominator + 1, 0))
        n.frac = f
        return n
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            raise Undecided('non-finite float constant')
        return SNum(frac_val(Fraction(v)), 'float', v == int(v), None)
    raise Undecided('numeric value expected, got %r' % (v,))


def concrete_num(v):
    return isinstance(v, (int, float, Decimal)) and not isinstance(v, Sym)


def deep_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if type(v).__name__ in ('Stub', 'IFunc', 'BoundModel'):
        return True
    if depth == 0:
        return False
    if type(v) in (list, tuple, set, frozenset):
        return any(deep_sym(x, depth - 1) for x in v)
    if type(v) is dict:
        return any(deep_sym(x, depth - 1) for x in v.values()) or any(deep_sym(k, 1) for k in v)
    d = getattr(v, '__dict__', None)
    if d and not isinstance(v, (type, types.ModuleType, types.FunctionType)):
        return any(isinstance(x, Sym) for x in d.values())
    return False


def to_int(v):
    """Numeric value known to be an integer -> z3 Int term"""
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, SNum) and v.py == 'int':
        return z3.ToInt(v.t)
    raise Undecided('integer expected, got %r' % (v,))


def raise_py(exc):
    raise PyRaise(exc)


# ------------------------------------------------------- Decimal rounding model
def quotient(it, a, b):
    """exact quotient term q with q*b == a (b != 0 on this path), shared per pair"""
    ctx = it.ctx
    if z3.is_rational_value(b):
        return z3.simplify(a / b)
    table = ctx.notes_tab('quot')
    key = (z3.simplify(a).get_id(), z3.simplify(b).get_id())
    if key in table:
        return table[key][0]
    q = ctx.real('q')
    ctx.assume(q * b == a)
    table[key] = (q, a, b)
    return q


def set_quotient(it, a, b, q):
    it.ctx.notes_tab('quot')[(z3.simplify(a).get_id(), z3.simplify(b).get_id())] = (q, a, b)


def rnd_value(it, q, nb, db):
    ctx = it.ctx
    table = ctx.notes_tab('rnd')
    key = q.get_id()
    if key not in table:
        r = ctx.real('rnd')
        table[key] = (SNum(r, 'dec', False, badd(nb, (1, 0)), rnd=(q, nb, db)), q)
        ctx.axioms_used.add('RND: Decimal division returns the correctly rounded quotient (monotone; exact on representable values; '
                            'separates distinct rationals n1/d1, n2/d2 with d1*n2 and d2*n1 < 10^(prec-1))')
    return table[key][0]


def as_rational(v):
    """-> (exact rational term, numerator bound, denominator bound) or None"""
    if v.rnd is not None:
        return v.rnd
    if v.isint and v.bound is not None:
        return (v.t, v.bound, (1, 0))
    f = getattr(v, 'frac', None)
    if f is not None:
        return (v.t, (abs(f.numerator) or 1, 0), (f.denominator, 0))
    return None


def relate(it, a, b):
    """Facts connecting two Decimal values of which at least one is rounded."""
    if a.rnd is None and b.rnd is None:
        return
    ra, rb = as_rational(a), as_rational(b)
    if ra is None or rb is None:
        raise Undecided('comparison of a rounded value with an unbounded one')
    ctx = it.ctx
    if not (fits(bmul(ra[2], rb[1])) and fits(bmul(rb[2], ra[1]))):
        ctx.assume(z3.Implies(ra[0] <= rb[0], a.t <= b.t))
        ctx.assume(z3.Implies(rb[0] <= ra[0], b.t <= a.t))
        return
    ctx.assume((ra[0] < rb[0]) == (a.t < b.t))
    ctx.assume((ra[0] == rb[0]) == (a.t == b.t))


def int_near(it, x, kind):
    """the integer floor/ceil/trunc of a real-valued SNum, as a z3 Real"""
    ctx = it.ctx
    if x.isint:
        return x
    table = ctx.notes_tab('near')
    key = (x.t.get_id(), kind)
    if key in table:
        return table[key]
    f = ctx.real(kind)
    base = x.rnd[1] if x.rnd is not None else x.bound
    r = SNum(f, 'int', True, badd(base, (1, 0)))
    up = SNum(f + 1, 'dec', True, badd(base, (2, 0)))
    dn = SNum(f - 1, 'dec', True, badd(base, (2, 0)))
    ctx.assume(z3.IsInt(f))
    if kind == 'floor':
        ctx.assume(z3.And(f <= x.t, x.t < f + 1))
    elif kind == 'ceil':
        ctx.assume(z3.And(f - 1 < x.t, x.t <= f))
    elif kind == 'trunc':
        ctx.assume(z3.If(x.t >= 0, z3.And(f <= x.t, x.t < f + 1), z3.And(f - 1 < x.t, x.t <= f)))
    elif kind in ('round_up', 'round_even'):
        half = Fraction(1, 2)
        hi = SNum(f + frac_val(half), 'dec', False, badd(base, (2, 0)))
        lo = SNum(f - frac_val(half), 'dec', False, badd(base, (2, 0)))
        if kind == 'round_up':
            ctx.assume(z3.If(x.t >= 0, z3.And(lo.t <= x.t, x.t < hi.t), z3.And(lo.t < x.t, x.t <= hi.t)))
        else:
            e = ctx.int('half')
            ctx.assume(z3.And(lo.t <= x.t, x.t <= hi.t, z3.Implies(z3.Or(x.t == lo.t, x.t == hi.t), f == 2 * z3.ToReal(e))))
        if x.rnd is not None:
            for h in (hi, lo):
                q, nb, db = x.rnd
                if fits(bmul(db, bmul((2, 0), h.bound))) and fits(bmul((2, 0), nb)):
                    ctx.assume((q < h.t) == (x.t < h.t))
                    ctx.assume((q == h.t) == (x.t == h.t))
    if x.rnd is not None:
        for g in (SNum(f, 'dec', True, r.bound), up, dn, SNum(z3.RealVal(0), 'dec', True, (1, 0))):
            relate(it, x, g)
    table[key] = r
    return r


def dec_div(it, a, b):
    ctx = it.ctx
    if ctx.branch(b.t == 0):
        if ctx.branch(a.t == 0):
            raise_py(decimal.InvalidOperation([decimal.DivisionUndefined]))
        raise_py(decimal.DivisionByZero([decimal.DivisionByZero]))
    if z3.is_rational_value(b.t) and b.t.as_fraction() in (1, -1):
        s = int(b.t.as_fraction())
        return SNum(a.t if s == 1 else z3.simplify(-a.t), 'dec', a.isint, a.bound, a.rnd if s == 1 else None)
    if a.t.eq(b.t):
        return SNum(z3.RealVal(1), 'dec', True, (1, 0))
    ex = exact_quotient(it, a, b)
    if ex is not None:
        return ex
    if not (a.isint and b.isint and fits(a.bound) and fits(b.bound)):
        raise Undecided('division of non-integral or unbounded Decimals')
    q = quotient(it, a.t, b.t)
    return rnd_value(it, q, a.bound, b.bound)


def exact_quotient(it, a, b):
    """a/b when a factor of a is a known multiple of b"""
    cof = it.ctx.cof
    key = (z3.simplify(a.t).get_id(), z3.simplify(b.t).get_id())
    if key in cof:
        c = cof[key][0]
        return SNum(c, 'dec', True, a.bound)
    facs = getattr(a, 'facs', None)
    if facs:
        for i, f in enumerate(facs):
            r = None
            if f.t.eq(b.t):
                r = SNum(z3.RealVal(1), 'dec', True, (1, 0))
            else:
                r = exact_quotient(it, f, b)
            if r is not None:
                out = r
                for j, g in enumerate(facs):
                    if j != i:
                        out = arith(it, 'Mult', out, SNum(g.t, 'dec', g.isint, g.bound))
                return SNum(out.t, 'dec', True, out.bound)
    return None


def set_cofactor(it, a, b, c):
    """records a == b * c with integer c"""
    it.ctx.cof[(z3.simplify(a).get_id(), z3.simplify(b).get_id())] = (c, a, b)


def arith(it, op, a, b):
    ctx = it.ctx
    pa, pb = a.py, b.py
    if 'float' in (pa, pb):
        if 'dec' in (pa, pb):
            raise_py(TypeError("unsupported operand type(s): float and Decimal"))
        raise Undecided('symbolic float arithmetic')
    py = 'dec' if 'dec' in (pa, pb) else 'int'

    def out(t, isint, bound, **kw):
        r = SNum(z3.simplify(t), py, isint, bound)
        if py == 'dec':
            if not (isint and fits(bound)):
                raise Undecided('Decimal operation that may round (operand bounds %s, %s)' % (a.bound, b.bound))
        for k, v in kw.items():
            setattr(r, k, v)
        return r
    if op == 'Add':
        if z3.is_rational_value(b.t) and b.t.as_fraction() == 0 and py == a.py:
            return a
        return out(a.t + b.t, a.isint and b.isint, badd(a.bound, b.bound))
    if op == 'Sub':
        if z3.is_rational_value(b.t) and b.t.as_fraction() == 0 and py == a.py:
            return a
        return out(a.t - b.t, a.isint and b.isint, badd(a.bound, b.bound))
    if op == 'Mult':
        if z3.is_rational_value(b.t) and b.t.as_fraction() == 1 and py == a.py:
            return a
        facs = (getattr(a, 'facs', None) or [a]) + (getattr(b, 'facs', None) or [b])
        if a.isint and b.isint:
            return out(a.t * b.t, True, bmul(a.bound, b.bound), facs=facs)
        fa, fb = as_rational(a), as_rational(b)
        raise Undecided('product of non-integral Decimals')
    if op == 'Div':
        if py == 'int':
            raise Undecided('float division of symbolic ints')
        return dec_div(it, a, b)
    if op in ('FloorDiv', 'Mod'):
        if ctx.branch(b.t == 0):
            if py == 'dec':
                if op == 'Mod' or ctx.branch(a.t == 0):
                    raise_py(decimal.InvalidOperation([decimal.InvalidOperation]))
                raise_py(decimal.DivisionByZero([decimal.DivisionByZero]))
            raise_py(ZeroDivisionError('division by zero'))
        if not (a.isint and b.isint):
            raise Undecided('remainder of non-integral values')
        if py == 'dec' and not (fits(a.bound) and fits(b.bound)):
            raise Undecided('remainder of unbounded Decimals')
        ex = exact_quotient(it, a, b)
        if ex is not None:
            return SNum(ex.t, py, True, a.bound) if op == 'FloorDiv' else SNum(z3.RealVal(0), py, True, (1, 0))
        table = ctx.notes_tab('divmod')
        key = (a.t.get_id(), b.t.get_id(), py)
        if key not in table:
            q, r = ctx.real('quo'), ctx.real('rem')
            ctx.assume(z3.And(z3.IsInt(q), z3.IsInt(r), a.t == q * b.t + r))
            if py == 'dec':     # truncated: remainder has the sign of the dividend
                ctx.assume(z3.If(a.t >= 0, r >= 0, r <= 0))
                ctx.assume(z3.If(r >= 0, r, -r) < z3.If(b.t >= 0, b.t, -b.t))
                ctx.axioms_used.add('Decimal // and %: truncated division of integral operands')
            else:
                ctx.assume(z3.If(b.t > 0, z3.And(r >= 0, r < b.t), z3.And(r <= 0, r > b.t)))
            table[key] = (q, r, a.t, b.t)
        q, r = table[key][:2]
        if op == 'FloorDiv':
            return SNum(q, py, True, a.bound)
        return SNum(r, py, True, b.bound)
    if op == 'Pow':
        return power(it, a, b, py)
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        if py != 'int':
            raise_py(TypeError('unsupported operand type(s) for bitwise operator'))
        if op == 'LShift':
            if ctx.branch(b.t < 0):
                raise_py(ValueError('negative shift count'))
            r = SNum(a.t * ipow(it, z3.RealVal(2), b.t), 'int', True, None)
            return r
        if op == 'RShift':
            if ctx.branch(b.t < 0):
                raise_py(ValueError('negative shift count'))
            p = ipow(it, z3.RealVal(2), b.t)
            q = ctx.real('shr')
            ctx.assume(z3.And(z3.IsInt(q), q * p <= a.t, a.t < q * p + p))
            return SNum(q, 'int', True, a.bound)
        f = {'BitAnd': BAND, 'BitOr': BOR, 'BitXor': BXOR}[op]
        t = f(a.t, b.t)
        ctx.assume(t == f(b.t, a.t))
        ctx.assume(z3.IsInt(t))
        if op == 'BitAnd':
            ctx.assume(z3.Implies(b.t >= 0, z3.And(t >= 0, t <= b.t)))
            ctx.assume(z3.Implies(a.t >= 0, z3.And(t >= 0, t <= a.t)))
        bound = None
        if op == 'BitAnd' and b.bound:
            bound = b.bound
        if op in ('BitOr', 'BitXor'):
            bound = badd(a.bound, b.bound)
        return SNum(t, 'int', True, bound)
    raise Undecided('numeric operator %s' % op)


def ipow(it, base, k):
    """IPOW(base, k) for integral k >= 0, with its basic facts"""
    ctx = it.ctx
    base, k = z3.simplify(base), z3.simplify(k)
    if z3.is_rational_value(k):
        n = k.as_fraction()
        if n.denominator == 1 and 0 <= n <= 8:
            t = z3.RealVal(1)
            for _ in range(int(n)):
                t = t * base
            return z3.simplify(t)
    if z3.is_rational_value(base) and base.as_fraction() == 1:
        return z3.RealVal(1)
    t = IPOW(base, k)
    table = ctx.notes_tab('ipow')
    if t.get_id() not in table:
        # the same power, its exponent written another way
        for u in list(table.values()):
            if z3.is_app(u) and u.num_args() == 2 and u.arg(0).eq(base) and ctx.entails(u.arg(1) == k):
                table[t.get_id()] = u
                ctx.assume(t == u)
                return u
    if t.get_id() not in table:
        table[t.get_id()] = t
        h = getattr(it, 'ipow_hook', None)
        if h is not None:
            h(base, k, t)
        ctx.assume(z3.Implies(base >= 1, t >= 1))
        ctx.assume(z3.Implies(base > 0, t > 0))
        ctx.assume(z3.Implies(base != 0, t != 0))
        ctx.assume(z3.Implies(z3.And(base == 0, k > 0), t == 0))
        ctx.assume(z3.Implies(k == 0, t == 1))
        ctx.assume(z3.Implies(k == 1, t == base))
    return t


def power(it, a, b, py):
    ctx = it.ctx
    if not b.isint:
        raise Undecided('power with a non-integral exponent')
    if ctx.branch(b.t < 0):
        if py == 'int':
            if ctx.branch(a.t == 0):
                raise_py(ZeroDivisionError('0.0 cannot be raised to a negative power'))
            return SNum(ctx.real('floatpow'), 'float', False, None)
        raise Undecided('Decimal power with a negative exponent')
    if py == 'dec' and ctx.branch(z3.And(a.t == 0, b.t == 0)):
        raise_py(decimal.InvalidOperation([decimal.InvalidOperation]))
    t = ipow(it, a.t, b.t)
    bound = None
    pb = ctx.notes_tab('powbound')
    if 'bound' in pb:
        bound = pb['bound']
    elif z3.is_rational_value(b.t) and a.bound:
        n = int(b.t.as_fraction())
        bound = (a.bound[0] ** n, a.bound[1] * n)
    if not a.isint:
        raise Undecided('power of a non-integral value')
    if py == 'dec' and not fits(bound):
        raise Undecided('Decimal power that may round')
    return SNum(t, py, True, bound)


# ------------------------------------------------------------------ operators
def binop(it, op, a, b):
    if isinstance(a, SExt):
        return sx(it, a, 'binop', op, b)
    if isinstance(b, SExt):
        return sx(it, b, 'rbinop', op, a)
    if not is_sym(a) and not is_sym(b) and not deep_sym(a) and not deep_sym(b):
        fn = OPS[op]
        try:
            return fn(a, b)
        except Exception as e:
            raise PyRaise(e)
    if is_number(a) and is_number(b):
        if isinstance(a, (SInt, int, bool)) and isinstance(b, (SInt, int, bool)) and op in ('Add', 'Sub', 'Mult') \
                and not isinstance(a, Decimal) and not isinstance(b, Decimal):
            x, y = to_int(a), to_int(b)
            return SInt(z3.simplify({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y}[op]()))
        if isinstance(a, (SInt, int)) and isinstance(b, int) and not isinstance(b, bool) and b > 0 and op in ('FloorDiv', 'Mod'):
            x = to_int(a)
            return SInt(z3.simplify(x / b if op == 'FloorDiv' else x % b))
        return arith(it, op, num(a), num(b))
    if op == 'Add' and _is_str(a) and _is_str(b):
        return concat_str(it, [a, b])
    if op == 'Add' and _is_list(a) and _is_list(b):
        return it.ctx.alloc(list_concat(it, a, b))
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if op == 'Mod' and isinstance(a, str):
        return opaque_str(it)
    if op == 'Mult' and ((_is_str(a) and is_number(b)) or (_is_str(b) and is_number(a))):
        return opaque_str(it)
    if op == 'Mult' and isinstance(a, list) and isinstance(b, int):
        return it.ctx.alloc(a * b)
    if op in ('BitOr', 'Sub', 'BitAnd') and isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return OPS[op](a, b)
    if (_known(a) and _known(b)):
        raise_py(TypeError('unsupported operand type(s) for %s: %s and %s' % (op, pytype(it, a).__name__, pytype(it, b).__name__)))
    raise Undecided('operator %s on %r and %r' % (op, a, b))


def _known(v):
    return is_number(v) or _is_str(v) or _is_list(v) or v is None or isinstance(v, (dict, tuple)) or type(v).__module__.startswith('modularcalculator')


def _is_str(v):
    return isinstance(v, (str, SStr, SSlice, SConcat)) or isinstance(v, SExt) and getattr(v, 'pyclass', None) is str


def _is_list(v):
    return isinstance(v, (list, SList))


def list_concat(it, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return list(a) + list(b)
    return SList(chunks(a) + chunks(b))


def chunks(v):
    return list(v.chunks) if isinstance(v, SList) else [('el', x) for x in v]


import operator as _op
OPS = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod, 'Pow': _op.pow,
       'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift}


def unop(it, op, v):
    if isinstance(v, SExt):
        return sx(it, v, 'unop', op)
    if not is_sym(v):
        try:
            return {'USub': _op.neg, 'UAdd': _op.pos, 'Invert': _op.invert}[op](v)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(v, SInt):
        if op == 'USub':
            return SInt(z3.simplify(-v.t))
        if op == 'UAdd':
            return v
        return SInt(z3.simplify(-v.t - 1))
    if is_number(v):
        n = num(v)
        if n.py == 'float':
            raise Undecided('float negation')
        if n.py == 'dec' and op in ('USub', 'UAdd') and not (n.isint and fits(n.bound)):
            if n.rnd is None:
                raise Undecided('sign change that may round')
        if op == 'USub':
            r = SNum(z3.simplify(-n.t), n.py, n.isint, n.bound)
            if n.rnd is not None:
                q, nb, db = n.rnd
                r.rnd = (z3.simplify(-q), nb, db)
            return r
        if op == 'UAdd':
            return n
        if op == 'Invert' and n.py == 'int':
            return SNum(z3.simplify(-n.t - 1), 'int', True, badd(n.bound, (1, 0)))
    if op == 'Invert' or _known(v):
        raise_py(TypeError('bad operand type for unary operator'))
    raise Undecided('unary %s on %r' % (op, v))


CMP = {'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
       'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b}


def _sb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def compare(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, SExt):
        return sx(it, a, 'compare', op, b)
    if isinstance(b, SExt):
        return sx(it, b, 'rcompare', op, a)
    if not deep_sym(a) and not deep_sym(b):
        try:
            return CMP[op](a, b)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(a, type) or isinstance(b, type):
        r = a is b
        return r if op == 'Eq' else (not r)
    if is_number(a) and is_number(b):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return _sb(CMP[op](to_int(a), to_int(b)))
        if isinstance(a, SBool) and isinstance(b, (SBool, bool)) or isinstance(b, SBool) and isinstance(a, (SBool, bool)):
            x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
            y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
            if op in ('Eq', 'NotEq'):
                return _sb(x == y if op == 'Eq' else x != y)
        x, y = num(a), num(b)
        relate(it, x, y)
        return _sb(CMP[op](x.t, y.t))
    if _is_str(a) and _is_str(b):
        return str_compare(it, op, a, b)
    if op in ('Eq', 'NotEq'):
        r = equal(it, a, b)
        if op == 'NotEq':
            return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
        return r
    if _known(a) and _known(b):
        raise_py(TypeError("'%s' not supported between instances of '%s' and '%s'" % (op, pytype(it, a).__name__, pytype(it, b).__name__)))
    raise Undecided('comparison of %r and %r' % (a, b))


def equal(it, a, b):
    if a is b:
        return True
    if isinstance(a, SExt):
        r = sx(it, a, 'compare', 'Eq', b)
        return r
    if isinstance(b, SExt):
        return sx(it, b, 'rcompare', 'Eq', a)
    if a is None or b is None:
        return False
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        h = getattr(a, 'eq', None) or getattr(b, 'eq', None)
        if h:
            return h(it, a, b)
        raise Undecided('equality of opaque values')
    ka, kb = pytype(it, a), pytype(it, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            r = it.compare('Eq', x, y)
            if r is False:
                return False
            if r is not True:
                res = r if res is True else SBool(z3.And(res.t, r.t))
        return res
    basic = (str, int, float, Decimal, list, dict, bool, tuple)
    if isinstance(a, (SList, SDict)) or isinstance(b, (SList, SDict)):
        if ka is kb:
            raise Undecided('equality of symbolic containers')
        return False
    if issubclass(ka, basic) and not issubclass(kb, basic) or issubclass(kb, basic) and not issubclass(ka, basic):
        return False
    if issubclass(ka, basic) and issubclass(kb, basic):
        if (issubclass(ka, str) != issubclass(kb, str)) or ka in (list, dict, tuple) or kb in (list, dict, tuple):
            if ka is not kb:
                return False
    if not is_sym(a) and not is_sym(b):
        # objects with symbolic fields and no repo __eq__: identity
        if type(a).__eq__ is object.__eq__ and type(b).__eq__ is object.__eq__:
            return a is b
        if type(a).__eq__ is BaseException.__eq__:
            return a is b
    raise Undecided('equality of %r and %r' % (a, b))


def str_compare(it, op, a, b):
    ctx = it.ctx
    if op not in ('Eq', 'NotEq'):
        za, zb = zstr(a), zstr(b)
        if za is None or zb is None:
            raise Undecided('ordering of symbolic strings')
        r = {'Lt': za < zb, 'LtE': za <= zb, 'Gt': zb < za, 'GtE': zb <= za}[op]
        return _sb(r)
    if isinstance(b, SSlice) and not isinstance(a, SSlice):
        a, b = b, a
    if isinstance(a, SSlice):
        r = slice_eq(it, a, b)
    else:
        za, zb = zstr(a), zstr(b)
        if za is None or zb is None:
            h = getattr(a, 'eq', None) or getattr(b, 'eq', None)
            if h is None:
                if a is b:
                    r = True
                elif isinstance(a, SConcat) and isinstance(b, SConcat) and len(a.parts) == len(b.parts) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(a.parts, b.parts)):
                    r = True
                else:
                    r = SBool(ctx.bool('streq'))
            else:
                r = h(it, a, b)
        else:
            r = _sb(za == zb)
    if op == 'NotEq':
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
    return r


def slice_eq(it, a, b):
    ctx = it.ctx
    if isinstance(b, SSlice):
        if a.base == b.base and a.fold == b.fold and ctx.entails(z3.And(a.lo == b.lo, a.hi == b.hi)):
            return True
        return SBool(ctx.bool('sliceeq'))
    if isinstance(b, str):
        n = len(b)
        if not ctx.branch(a.hi - a.lo == n):
            return False
        if n == 0:
            return True
        return text_at(it, a, b)
    return SBool(ctx.bool('sliceeq'))


def text_at(it, a, s):
    """does the text of slice a start with the constant s (length known to suffice)?"""
    ctx = it.ctx
    table = ctx.notes_tab('textat')
    lst = table.setdefault((a.base, a.fold), [])
    for lo, const, val in lst:
        if ctx.entails(lo == a.lo):
            if const == s:
                return val
            if val is True and const.startswith(s):
                return True
            if val is True and (not s.startswith(const)):
                return False
            if val is False and s.startswith(const):
                return False
    val = ctx.branch(ctx.bool('text_%s' % ''.join(ch if ch.isalnum() else '_' for ch in s)))
    lst.append((a.lo, s, val))
    return val


def zstr(v):
    if isinstance(v, SStr):
        return v.t
    if isinstance(v, str):
        return z3.StringVal(v)
    if isinstance(v, SConcat):
        ps = [zstr(p) for p in v.parts]
        if any(p is None for p in ps):
            return None
        return z3.Concat(*ps) if len(ps) > 1 else ps[0]
    return None


def contains(it, container, x):
    ctx = it.ctx
    container = it.resolve(container)
    if isinstance(container, SExt):
        return sx(it, container, 'contains', x)
    if isinstance(container, SDict):
        return dict_has(it, container, x)
    if isinstance(container, SDictKeys):
        return contains(it, container.d, x)
    if isinstance(x, SExt) and (isinstance(container, (set, frozenset, list, tuple)) or isinstance(container, SSet) and not deep_sym(container.members)):
        r = x.sx(it, 'inset', container.members if isinstance(container, SSet) else container)
        if r is not NotImplemented:
            return r
    if isinstance(x, SExt) and isinstance(container, str):
        return sx(it, x, 'instr', '__contains__', container, [])
    if not deep_sym(container, 2) and not deep_sym(x, 2) and not hasattr(x, '__dict__'):
        try:
            return x in container
        except Exception as e:
            raise PyRaise(e)
    if isinstance(container, dict) or isinstance(container, type({}.keys())):
        if isinstance(x, (SStr, SSlice, SConcat, SAny)):
            return dict_find(it, container, x) is not None
        try:
            return x in container
        except Exception as e:
            raise PyRaise(e)
    if isinstance(container, (list, tuple, set, frozenset)) or type(container) in (type({}.values()),):
        res = None
        for y in container:
            if y is x:
                return True
            r = it.compare('Eq', y, x)
            if it.truth(r):
                return True
        return False
    if isinstance(container, SList):
        k = getattr(container, 'contains_hook', None)
        if k:
            return k(it, container, x)
        raise Undecided('membership in a symbolic list')
    if _is_str(container) and isinstance(x, str):
        z = zstr(container)
        if z is not None:
            return _sb(z3.Contains(z, z3.StringVal(x)))
        return SBool(ctx.bool('contains'))
    if isinstance(container, SOpaque):
        h = container.attrs.get('__contains__')
        if h is not None:
            return it.call(h, [x])
    if isinstance(container, SRange):
        t = to_int(x)
        return _sb(z3.And(t >= container.lo, t < container.hi))
    if not is_sym(container):
        m = getattr(type(container), '__contains__', None)
        if isinstance(m, types.FunctionType):
            return it.call(m, [container, x])
    raise Undecided('membership test in %r' % (container,))


def dict_find(it, d, key):
    """key of a concrete dict equal to a symbolic string, by case split"""
    ctx = it.ctx
    table = ctx.notes_tab('dictfind')
    tk = (id(d) if isinstance(d, dict) else repr(list(d)), id(key))
    if tk in table:
        return table[tk][0]
    keys = list(d)
    hook = getattr(key, 'choices', None)
    found = None
    for k in keys:
        if not isinstance(k, str):
            continue
        if it.truth(it.compare('Eq', key, k)):
            found = k
            break
    table[tk] = (found, d, key)
    return found


def truth_sym(it, v):
    ctx = it.ctx
    if isinstance(v, SExt):
        return sx(it, v, 'truth')
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return z3.simplify(v.t != 0)
    if isinstance(v, SNum):
        return z3.simplify(v.t != 0)
    if isinstance(v, SList):
        return z3.simplify(v.length() != 0)
    if isinstance(v, SSlice):
        return z3.simplify(v.length() != 0)
    if isinstance(v, SStr):
        return z3.simplify(z3.Length(v.t) != 0)
    if isinstance(v, SMatch):
        return True
    if isinstance(v, SConcat):
        if any(isinstance(p, str) and p for p in v.parts):
            return True
        raise Undecided('truth of a symbolic string')
    if isinstance(v, SOpaque):
        if v.truth is not None:
            return v.truth
        if issubclass(v.pyclass, BaseException):
            return True
        raise Undecided('truth of %r' % v)
    raise Undecided('truth of %r' % (v,))


# ------------------------------------------------------------------ strings
def to_str(it, v):
    v = it.resolve(v)
    if _is_str(v) or (isinstance(v, SExt) and v.pyclass is str):
        return v
    if not is_sym(v):
        m = it.repo_dunder(v, '__str__')
        if m is not None:
            return it.call(m, [v])
        if not deep_sym(v):
            try:
                return str(v)
            except Exception as e:
                raise PyRaise(e)
    s = opaque_str(it)
    s.src = v
    return s


def opaque_str(it):
    s = SStr(it.ctx.string('text'))
    s.opaque = True
    return s


def concat_str(it, parts):
    if any(isinstance(p, SExt) for p in parts):
        r = parts[0]
        for p in parts[1:]:
            r = binop(it, 'Add', r, p)
        return r
    flat = []
    for p in parts:
        if isinstance(p, SConcat):
            flat.extend(p.parts)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) and p == '':
            continue
        elif isinstance(p, SSlice) and out and isinstance(out[-1], SSlice) and out[-1].base == p.base and out[-1].fold == p.fold and it.ctx.entails(out[-1].hi == p.lo):
            out[-1] = SSlice(p.base, out[-1].lo, p.hi, p.fold)
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SConcat(out)


def str_len(it, v):
    if isinstance(v, str):
        return len(v)
    if isinstance(v, SSlice):
        t = v.length()
        return t.as_long() if z3.is_int_value(t) else SInt(t)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, SConcat):
        tot = 0
        for p in v.parts:
            tot = binop(it, 'Add', tot, str_len(it, p))
        return tot
    raise Undecided('len of %r' % (v,))


def clamp(it, n, idx):
    """Python slice index -> z3 Int in [0, n] (branching)"""
    ctx = it.ctx
    t = to_int(idx)
    if ctx.branch(t < 0):
        t = z3.simplify(t + n)
        if ctx.branch(t < 0):
            return z3.IntVal(0)
        return t
    if ctx.branch(t <= n):
        return t
    return n


def str_getitem(it, s, idx):
    ctx = it.ctx
    if isinstance(s, SSlice):
        n = s.length()
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Undecided('stepped slice of text')
            lo = clamp(it, n, idx.start) if idx.start is not None else z3.IntVal(0)
            hi = clamp(it, n, idx.stop) if idx.stop is not None else n
            if not ctx.branch(lo <= hi):
                hi = lo
            return SSlice(s.base, z3.simplify(s.lo + lo), z3.simplify(s.lo + hi), s.fold)
        t = to_int(idx)
        if ctx.branch(t < 0):
            t = z3.simplify(t + n)
        if not ctx.branch(z3.And(t >= 0, t < n)):
            raise_py(IndexError('string index out of range'))
        return SSlice(s.base, z3.simplify(s.lo + t), z3.simplify(s.lo + t + 1), s.fold)
    if isinstance(s, SStr):
        n = z3.Length(s.t)
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Undecided('stepped slice of text')
            lo = clamp(it, n, idx.start) if idx.start is not None else z3.IntVal(0)
            hi = clamp(it, n, idx.stop) if idx.stop is not None else n
            if not ctx.branch(lo <= hi):
                hi = lo
            return SStr(z3.SubString(s.t, lo, hi - lo))
        t = to_int(idx)
        if ctx.branch(t < 0):
            t = z3.simplify(t + n)
        if not ctx.branch(z3.And(t >= 0, t < n)):
            raise_py(IndexError('string index out of range'))
        return SStr(z3.SubString(s.t, t, 1))
    if isinstance(s, SConcat):
        first = s.parts[0]
        if isinstance(first, str) and isinstance(idx, int) and 0 <= idx < len(first):
            return first[idx]
        if isinstance(idx, slice) and idx.stop is None and idx.step in (None, 1) and isinstance(idx.start, int) and isinstance(first, str) and 0 <= idx.start <= len(first):
            return concat_str(it, [first[idx.start:]] + s.parts[1:])
        raise Undecided('indexing of a concatenated string')
    if isinstance(s, str):
        if isinstance(idx, slice):
            raise Undecided('symbolic slice of a constant string')
        h = getattr(it, 'const_str_index', None)
        if h is not None:
            return h(it, s, idx)
        raise Undecided('symbolic index of a constant string')
    raise Undecided('indexing %r' % (s,))


# ------------------------------------------------------------------ containers
def get_at(it, l, t):
    """element of a list (SList) at z3 Int position t, known in range"""
    ctx = it.ctx
    pos = z3.IntVal(0)
    cs = l.chunks
    for c in cs:
        n = z3.IntVal(1) if c[0] == 'el' else z3.simplify(c[3] - c[2])
        nxt = z3.simplify(pos + n)
        if c is cs[-1] or ctx.branch(t < nxt):
            if c[0] == 'el':
                return c[1]
            return c[1].get(ctx, z3.simplify(c[2] + t - pos))
        pos = nxt
    raise_py(IndexError('list index out of range'))


def _norm_index(it, n, idx):
    ctx = it.ctx
    t = to_int(idx)
    if ctx.branch(t < 0):
        t = z3.simplify(t + n)
    if not ctx.branch(z3.And(t >= 0, t < n)):
        raise_py(IndexError('list index out of range'))
    return t


def slist_slice(it, l, lo, hi):
    ctx = it.ctx
    out = []
    pos = z3.IntVal(0)
    for c in l.chunks:
        n = z3.IntVal(1) if c[0] == 'el' else z3.simplify(c[3] - c[2])
        a = z3.simplify(z3.If(lo > pos, lo, pos))
        nxt = z3.simplify(pos + n)
        if c[0] == 'el':
            if ctx.branch(z3.And(lo <= pos, pos < hi)):
                out.append(c)
        else:
            if not ctx.branch(lo <= pos):
                s = z3.simplify(lo - pos) if ctx.branch(lo <= nxt) else n
            else:
                s = z3.IntVal(0)
            if not ctx.branch(hi >= nxt):
                e = z3.simplify(hi - pos) if ctx.branch(hi >= pos) else z3.IntVal(0)
            else:
                e = n
            if ctx.branch(s < e):
                out.append(('seg', c[1], z3.simplify(c[2] + s), z3.simplify(c[2] + e)))
        pos = nxt
    return SList(out)


def getitem(it, obj, idx):
    obj = it.resolve(obj)
    idx = it.resolve(idx) if not isinstance(idx, slice) else slice(*[it.resolve(x) for x in (idx.start, idx.stop, idx.step)])
    if isinstance(obj, SExt):
        return sx(it, obj, 'getitem', idx)
    if not is_sym(obj):
        m = getattr(type(obj), '__getitem__', None)
        if isinstance(m, types.FunctionType):
            return it.call(m, [obj, idx])
    symidx = is_sym(idx) or (isinstance(idx, slice) and any(is_sym(x) for x in (idx.start, idx.stop, idx.step)))
    if not is_sym(obj) and not symidx:
        try:
            r = obj[idx]
        except Exception as e:
            raise PyRaise(e)
        if isinstance(obj, list) and isinstance(idx, slice):
            it.ctx.alloc(r)
        return r
    if _is_str(obj):
        return str_getitem(it, obj, idx)
    if isinstance(obj, (list, tuple)) or isinstance(obj, SList):
        l = obj if isinstance(obj, SList) else SList(chunks(obj))
        n = l.length()
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Undecided('stepped slice')
            lo = clamp(it, n, idx.start) if idx.start is not None else z3.IntVal(0)
            hi = clamp(it, n, idx.stop) if idx.stop is not None else n
            return it.ctx.alloc(slist_slice(it, l, lo, hi))
        if isinstance(idx, Decimal) or (isinstance(idx, SNum) and idx.py != 'int'):
            raise_py(TypeError('list indices must be integers or slices'))
        return get_at(it, l, _norm_index(it, n, idx))
    if isinstance(obj, SDict):
        return dict_get(it, obj, idx)
    if isinstance(obj, dict):
        if isinstance(idx, (SStr, SSlice, SConcat)):
            k = dict_find(it, obj, idx)
            if k is None:
                raise_py(KeyError('symbolic key'))
            return obj[k]
        raise Undecided('symbolic dict key')
    if isinstance(obj, SOpaque) and '__getitem__' in obj.attrs:
        return it.call(obj.attrs['__getitem__'], [idx])
    raise Undecided('subscript of %r' % (obj,))


def setitem(it, obj, idx, v):
    obj = it.resolve(obj)
    idx = it.resolve(idx) if not isinstance(idx, slice) else idx
    it.ctx.log_write(obj, 'item')
    if isinstance(obj, SExt):
        sx(it, obj, 'setitem', idx, v)
        return
    if isinstance(obj, SDict):
        obj.updates.append(('set', idx, v))
        return
    if not is_sym(obj) and not is_sym(idx) and not isinstance(idx, slice):
        try:
            obj[idx] = v
        except Exception as e:
            raise PyRaise(e)
        return
    if isinstance(obj, SList) and not isinstance(idx, slice):
        n = obj.length()
        t = _norm_index(it, n, idx)
        pre = slist_slice(it, obj, z3.IntVal(0), t)
        post = slist_slice(it, obj, z3.simplify(t + 1), n)
        obj.chunks = pre.chunks + [('el', v)] + post.chunks
        return
    if isinstance(obj, list) and is_sym(idx):
        n = z3.IntVal(len(obj))
        t = _norm_index(it, n, idx)
        for k in range(len(obj)):
            if it.ctx.branch(t == k):
                obj[k] = v
                return
        raise PathDone()
    if isinstance(obj, dict) and isinstance(idx, (SStr, SSlice, SConcat)):
        raise Undecided('store with a symbolic key into a concrete dict')
    raise Undecided('item assignment on %r' % (obj,))


def delitem(it, obj, idx):
    obj, idx = it.resolve(obj), it.resolve(idx)
    it.ctx.log_write(obj, 'item')
    if isinstance(obj, SExt):
        sx(it, obj, 'delitem', idx)
        return
    if isinstance(obj, SDict):
        if not it.truth(dict_has(it, obj, idx)):
            raise_py(KeyError('symbolic key'))
        obj.updates.append(('del', idx, None))
        return
    if not is_sym(obj) and not is_sym(idx):
        try:
            del obj[idx]
        except Exception as e:
            raise PyRaise(e)
        return
    raise Undecided('del on %r' % (obj,))


def _key_eq(it, a, b):
    return it.truth(it.compare('Eq', a, b))


def dict_lookup(it, d, key):
    """-> (present, value); branches on key equality"""
    ctx = it.ctx
    for kind, k, v in reversed(d.updates):
        if k is None:          # 'clear'
            return (False, None)
        if _key_eq(it, k, key):
            return (kind == 'set', v)
    if d.empty:
        return (False, None)
    for k, present, v in d.memo:
        if k is key or _key_eq(it, k, key):
            return (ctx.branch(present), v)
    present = ctx.bool('in_' + d.name)
    v = d.mkval(ctx, key) if d.mkval else None
    d.memo.append((key, present, v))
    return (ctx.branch(present), v)


def dict_has(it, d, key):
    return dict_lookup(it, d, key)[0]


def dict_get(it, d, key):
    p, v = dict_lookup(it, d, key)
    if not p:
        raise_py(KeyError('symbolic key'))
    return v


class SDictKeys(Sym):
    def __init__(self, d):
        self.d = d


def list_extend(it, l, val):
    it.ctx.log_write(l, 'extend')
    val = it.resolve(val)
    c = concrete_iter(it, val)
    if c is None:
        raise Undecided('extending a concrete list with a symbolic sequence')
    l.extend(c)


def concrete_iter(it, v):
    v = it.resolve(v)
    if isinstance(v, SList):
        if all(c[0] == 'el' for c in v.chunks):
            return [c[1] for c in v.chunks]
        n = v.length()
        if z3.is_int_value(n):
            return [get_at(it, v, z3.IntVal(k)) for k in range(n.as_long())]
        return None
    if isinstance(v, SEnumerate):
        c = concrete_iter(it, v.it)
        return None if c is None else list(enumerate(c, v.start))
    if isinstance(v, SReversed):
        c = concrete_iter(it, v.it)
        return None if c is None else list(reversed(list(c)))
    if isinstance(v, SRange):
        lo, hi = z3.simplify(v.lo), z3.simplify(v.hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi):
            return range(lo.as_long(), hi.as_long())
        d = z3.simplify(hi - lo)
        if z3.is_int_value(d):
            return [SInt(z3.simplify(lo + k)) for k in range(d.as_long())]
        return None
    if isinstance(v, SDictKeys):
        if v.d.empty:
            raise Undecided('iteration over a symbolic dict')
        return None
    if isinstance(v, SExt):
        r = v.sx(it, 'iter')
        return None if r is NotImplemented else r
    if isinstance(v, SOpaque) and '__iter__' in v.attrs:
        return concrete_iter(it, it.call(v.attrs['__iter__'], []))
    if is_sym(v):
        return None
    if isinstance(v, dict):
        return list(v)
    if isinstance(v, (list, range, tuple, set, frozenset, str)):
        if isinstance(v, list):
            return _live(v)
        return v
    m = getattr(type(v), '__iter__', None)
    if isinstance(m, types.FunctionType):
        return concrete_iter(it, it.call(m, [v]))
    try:
        return list(v)
    except Exception as e:
        raise PyRaise(e)


def _live(l):
    i = 0
    while i < len(l):
        yield l[i]
        i += 1


def sym_iter(it, v):
    """-> (n as z3 Int, at(k))"""
    ctx = it.ctx
    v = it.resolve(v)
    if isinstance(v, SExt):
        r = v.sx(it, 'symiter')
        if r is not NotImplemented:
            return r
    if isinstance(v, SList):
        return v.length(), (lambda k: get_at(it, v, k))
    if isinstance(v, SRange):
        d = z3.simplify(v.hi - v.lo)
        n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        if v.step == -1:
            return n, (lambda k: SInt(z3.simplify(v.hi - 1 - k)))
        return n, (lambda k: SInt(z3.simplify(v.lo + k)))
    if isinstance(v, SEnumerate):
        n, at = sym_iter(it, v.it)
        st = to_int(v.start)
        return n, (lambda k: (SInt(z3.simplify(st + k)), at(k)))
    if isinstance(v, SZip):
        parts = [sym_iter(it, x) for x in v.its]
        n = parts[0][0]
        for m, _at in parts[1:]:
            n = n if ctx.entails(n <= m) else m if ctx.entails(m <= n) else z3.simplify(z3.If(n <= m, n, m))
        return n, (lambda k: tuple(at(k) for _n, at in parts))
    if isinstance(v, SReversed):
        n, at = sym_iter(it, v.it)
        return n, (lambda k: at(z3.simplify(n - 1 - k)))
    if isinstance(v, SSlice):
        return v.length(), (lambda k: SSlice(v.base, z3.simplify(v.lo + k), z3.simplify(v.lo + k + 1), v.fold))
    if isinstance(v, (list, tuple)):
        l = SList(chunks(v))
        return z3.IntVal(len(v)), (lambda k: get_at(it, l, k))
    raise Undecided('iteration over %r' % (v,))


def unpack(it, v, n, starred):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('unpacking a symbolic sequence')
    c = list(c)
    if not starred and len(c) != n:
        raise_py(ValueError('wrong number of values to unpack'))
    return c


def as_list(it, v):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('a symbolic sequence used as *args')
    return list(c)


class SSet(Sym):
    """A set of symbolic members: only len/pop/in under case splits."""
    pyclass = set

    def __init__(self, members):
        self.members = members


def sym_set(it, vals):
    if isinstance(vals, SList):
        c = concrete_iter(it, vals)
        if c is None:
            raise Undecided('set of a symbolic sequence')
        vals = list(c)
    s = SSet([])
    for v in vals:
        set_add(it, s, v)
    return s


def set_add(it, s, v):
    for m in s.members:
        if m is v or it.truth(it.compare('Eq', m, v)):
            return
    s.members.append(v)


# ------------------------------------------------------------------ comprehensions
def list_comp(it, e, fr):
    from .interp import Frame
    f2 = Frame(fr.globals, {}, fr, fr.func, fr.name + '.<comp>')
    out = []
    r = _comp(it, e, 0, f2, out)
    if r is not None:
        return it.ctx.alloc(r)
    return it.ctx.alloc(out)


def _comp(it, e, gi, fr, out):
    if gi == len(e.generators):
        out.append(it.ev(e.elt, fr))
        return None
    g = e.generators[gi]
    seq = it.resolve(it.ev(g.iter, fr))
    c = concrete_iter(it, seq)
    if c is None:
        return sym_comp(it, e, gi, fr, out, seq)
    for x in c:
        it.ctx.steps += 1
        it.assign(g.target, x, fr)
        if all(it.truth(it.ev(cnd, fr)) for cnd in g.ifs):
            r = _comp(it, e, gi + 1, fr, out)
            if r is not None:
                raise Undecided('nested comprehension over a symbolic sequence')
    return None


def sym_comp(it, e, gi, fr, out, seq):
    """[f(x) for x in s]: a symbolic list evaluated at the registered positions."""
    ctx = it.ctx
    g = e.generators[gi]
    n, at = sym_iter(it, seq)
    hook = getattr(it, 'comp_hook', None)
    if hook is not None:
        r = hook(it, e, fr, seq, n, at)
        if r is not None:
            return r
    if len(e.generators) != 1 or out:
        raise Undecided('nested comprehension over a symbolic sequence')
    if g.ifs:
        return sym_filter(it, e, g, fr, n, at)

    def ev_at(c, i):
        it.assign(g.target, at(i), fr)
        serial = ctx.serial
        log = []
        ctx.write_logs.append(log)
        try:
            v = it.ev(e.elt, fr)
        finally:
            ctx.write_logs.pop()
        it._check_frame(log, serial, None)
        return v
    # an exception in any iteration escapes: explore one arbitrary iteration for exceptions
    if ctx.choose(2, 'comp') == 0:
        k = ctx.int('kc')
        ctx.assume(z3.And(k >= 0, k < n))
        ev_at(ctx, k)
        raise PathDone()

    def mk(c, i):
        try:
            return ev_at(c, i)
        except PyRaise:
            raise PathDone()
    base = SBase('map', n, mk)
    base.mk_alias = False
    return SList([('seg', base, z3.IntVal(0), n)])


def sym_filter(it, e, g, fr, n, at):
    """[x for x in s if p(x)]: emptiness is decided exactly by a case split (some
    position satisfies p / none does, the latter evaluated at the registered
    positions); otherwise only membership is kept."""
    ctx = it.ctx
    if ctx.choose(2, 'filter') == 0:
        k = ctx.int('kf')
        ctx.assume(z3.And(k >= 0, k < n))
        it.assign(g.target, at(k), fr)
        if not all(it.truth(it.ev(cnd, fr)) for cnd in g.ifs):
            raise PathDone()
        v = it.ev(e.elt, fr)
        m = ctx.int('nf')
        ctx.assume(z3.And(m >= 1, m <= n))

        def some(c, i):
            # an element of the result is f(x) for some position whose x satisfies the condition
            if not isinstance(g.target, ast.Name):
                _undecided('element of a filtered symbolic list')
            old = fr.locals.get(g.target.id, it)
            k2 = c.int('kf')
            c.assume(z3.And(k2 >= 0, k2 < n))
            it.assign(g.target, at(k2), fr)
            if not all(it.truth(it.ev(cnd, fr)) for cnd in g.ifs):
                raise PathDone()
            r = it.ev(e.elt, fr)
            if old is not it:
                fr.locals[g.target.id] = old
            return r
        base = SBase('filtered', m, some)
        base.mk_alias = False
        l = SList([('seg', base, z3.IntVal(0), m)])
        l.witness = v
        return l
    for p in it.skolems:
        if ctx.branch(z3.And(p >= 0, p < n)):
            it.assign(g.target, at(p), fr)
            if all(it.truth(it.ev(cnd, fr)) for cnd in g.ifs):
                raise PathDone()
    return SList([])


def _undecided(msg):
    raise Undecided(msg)


# ------------------------------------------------------------------ attributes
def sx(it, obj, op, *args):
    r = obj.sx(it, op, *args)
    if r is NotImplemented:
        raise Undecided('%s%s of abstract %s' % (op, args[:1], type(obj).__name__))
    return r


def getattr_sym(it, obj, name):
    from .interp import BoundModel
    if isinstance(obj, SExt):
        r = obj.sx(it, 'attr', name)
        return BoundModel(obj, name) if r is NotImplemented else r
    if isinstance(obj, SOpaque):
        if name in obj.attrs:
            v = obj.attrs[name]
            if callable(v) and not isinstance(v, (type, types.FunctionType)) and type(v).__name__ == 'LazyAttr':
                v = v(it)
                obj.attrs[name] = v
            return v
        if name == '__class__':
            return obj.pyclass
        static = getattr(obj.pyclass, name, None)
        h = obj.attrs.get('__getattr__')
        if h is not None:
            return h(it, name)
        if isinstance(static, types.FunctionType):
            return functools.partial(static, obj)
        raise Undecided('attribute %s of opaque %s' % (name, obj.name))
    if isinstance(obj, (SNum, SInt, SStr, SSlice, SConcat, SList, SDict, SMatch, SSet, SBool)):
        if name == '__class__':
            return obj.pyclass
        k = obj.pyclass
        extra = getattr(obj, 'pyattrs', None)
        if extra and name in extra:
            return extra[name]
        if isinstance(obj, SMatch) or hasattr(k, name):
            return BoundModel(obj, name)
        raise_py(AttributeError("'%s' object has no attribute '%s'" % (k.__name__, name)))
    raise Undecided('attribute %s of %r' % (name, obj))


def setattr_sym(it, obj, name, v):
    if isinstance(obj, SExt):
        return sx(it, obj, 'setattr', name, v)
    if isinstance(obj, SOpaque):
        it.ctx.log_write(obj, name)
        if obj.attrs.get('__frozen__'):
            raise Undecided('write to attribute %s of opaque %s' % (name, obj.name))
        obj.attrs[name] = v
        return
    if isinstance(obj, (SNum, SInt, SStr, SSlice, SConcat, SList, SDict, SBool)):
        raise_py(AttributeError("'%s' object has no attribute '%s'" % (obj.pyclass.__name__, name)))
    raise Undecided('attribute store on %r' % (obj,))


def pytype(it, v):
    v = it.resolve(v)
    if isinstance(v, Sym):
        return v.pyclass
    return type(v)


# ------------------------------------------------------------------ methods of symbolic values
def call_method(it, obj, name, args, kwargs):
    ctx = it.ctx
    if isinstance(obj, SExt):
        return sx(it, obj, 'call', name, args, kwargs)
    if isinstance(obj, SList):
        if name == 'append':
            ctx.log_write(obj, 'append')
            for w in append_watch:
                w.append((obj, args[0]))
            obj.chunks.append(('el', args[0]))
            return None
        if name == 'extend':
            ctx.log_write(obj, 'extend')
            a = it.resolve(args[0])
            obj.chunks.extend(chunks(a) if _is_list(a) else [('el', x) for x in as_list(it, a)])
            return None
        if name == 'copy':
            return ctx.alloc(obj.copy())
        if name == 'insert':
            ctx.log_write(obj, 'insert')
            if args[0] == 0:
                obj.chunks.insert(0, ('el', args[1]))
                return None
            n = obj.length()
            i = z3.simplify(clamp(it, n, args[0]))
            obj.chunks = slist_slice(it, obj, z3.IntVal(0), i).chunks + [('el', args[1])] + slist_slice(it, obj, i, n).chunks
            return None
        if name == 'pop':
            ctx.log_write(obj, 'pop')
            n = obj.length()
            if not ctx.branch(n > 0):
                raise_py(IndexError('pop from empty list'))
            i = n - 1 if not args else _norm_index(it, n, args[0])
            v = get_at(it, obj, z3.simplify(i))
            pre = slist_slice(it, obj, z3.IntVal(0), z3.simplify(i))
            post = slist_slice(it, obj, z3.simplify(i + 1), n)
            obj.chunks = pre.chunks + post.chunks
            return v
        if name == 'reverse':
            ctx.log_write(obj, 'reverse')
            n = obj.length()
            src = obj.copy()
            base = SBase('rev', n, lambda c, i: get_at(it, src, z3.simplify(n - 1 - i)))
            base.mk_alias = False
            obj.chunks = [('seg', base, z3.IntVal(0), n)]
            return None
        if name == '__len__':
            return SInt(obj.length())
    if isinstance(obj, SDict):
        if name == 'copy':
            return ctx.alloc(obj.copy())
        if name == 'keys':
            return SDictKeys(obj)
        if name == 'get':
            p, v = dict_lookup(it, obj, args[0])
            return v if p else (args[1] if len(args) > 1 else None)
        if name == 'pop':
            p, v = dict_lookup(it, obj, args[0])
            if p:
                ctx.log_write(obj, 'item')
                obj.updates.append(('del', args[0], None))
                return v
            if len(args) > 1:
                return args[1]
            raise_py(KeyError('symbolic key'))
        if name == 'clear':
            ctx.log_write(obj, 'item')
            obj.updates.append(('del', None, None))
            return None
        if name == 'update':
            ctx.log_write(obj, 'item')
            src = it.resolve(args[0]) if args else {}
            if isinstance(src, dict):
                for k, v in src.items():
                    obj.updates.append(('set', k, v))
                for k, v in kwargs.items():
                    obj.updates.append(('set', k, v))
                return None
        if name == 'setdefault':
            p, v = dict_lookup(it, obj, args[0])
            if p:
                return v
            ctx.log_write(obj, 'item')
            obj.updates.append(('set', args[0], args[1] if len(args) > 1 else None))
            return args[1] if len(args) > 1 else None
    if isinstance(obj, SSet):
        if name == 'add':
            ctx.log_write(obj, 'item')
            set_add(it, obj, args[0])
            return None
        if name == 'pop':
            if not obj.members:
                raise_py(KeyError('pop from an empty set'))
            ctx.log_write(obj, 'item')
            return obj.members.pop()
        if name == 'copy':
            return SSet(list(obj.members))
        if name == 'union' and not kwargs and not deep_sym(obj.members) and not any(deep_sym(a) for a in args):
            return ctx.alloc(set(obj.members).union(*args))
    if isinstance(obj, (SSlice, SStr, SConcat)):
        return str_method(it, obj, name, args, kwargs)
    if isinstance(obj, SMatch):
        if name == 'group':
            g = args[0] if args else 0
            sp = obj.spans.get(g)
            if sp is None:
                raise Undecided('match group %s' % g)
            return SSlice(obj.subject.base, sp[0], sp[1], obj.subject.fold)
        if name in ('end', 'start'):
            g = args[0] if args else 0
            sp = obj.spans.get(g)
            if sp is None:
                raise Undecided('match group %s' % g)
            return SInt(z3.simplify((sp[1] if name == 'end' else sp[0]) - obj.subject.lo))
    if isinstance(obj, (SNum, SInt)):
        n = num(obj)
        if n.py == 'dec':
            if name == 'to_integral_exact' or name == 'to_integral_value' or name == 'to_integral':
                if n.isint:
                    return n
                for (k, kind), f in list(ctx.notes_tab('near').items()):
                    if k == n.t.get_id() and ctx.entails(n.t == f.t):
                        return SNum(f.t, 'dec', True, f.bound)
            if name == 'as_integer_ratio':
                if n.isint:
                    return (SNum(n.t, 'int', True, n.bound), 1)
                rat = getattr(n, 'ratio', None)
                if rat is not None:
                    return rat
            if name == 'is_zero':
                return _sb(n.t == 0)
            if name == 'is_signed' and ctx.entails(n.t != 0):
                return _sb(n.t < 0)
            if name == 'copy_negate':
                return SNum(z3.simplify(-n.t), 'dec', n.isint, n.bound)
            if name == 'copy_abs':
                return SNum(z3.If(n.t >= 0, n.t, -n.t), 'dec', n.isint, n.bound)
            if name == '__format__':
                fh = getattr(it, 'format_hook', None)
                return fh(it, n, args[0]) if fh is not None and isinstance(args[0], str) else opaque_str(it)
            if name == 'as_tuple' and getattr(it, 'tuple_hook', None):
                return it.tuple_hook(it, n)
            if name == 'quantize' and getattr(it, 'quantize_hook', None):
                return it.quantize_hook(it, n, *args, **kwargs)
            if name == 'compare':
                relate(it, n, num(args[0]))
                o = num(args[0])
                return SNum(z3.If(n.t < o.t, z3.RealVal(-1), z3.If(n.t == o.t, z3.RealVal(0), z3.RealVal(1))), 'dec', True, (1, 0))
            if name == 'is_finite':
                return True
            if name in ('__add__', '__sub__', '__mul__', '__truediv__'):
                return arith(it, {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div'}[name], n, num(args[0]))
            if name == '__round__':
                return b_round(it, n, *args)
        if n.py == 'int':
            if name == 'bit_length':
                return SNum(BITLEN(n.t), 'int', True, None)
            if name == 'as_integer_ratio':
                return (obj, 1)
            if name == 'is_integer':
                return True
    raise Undecided('method %s of %r' % (name, obj))


def str_method(it, obj, name, args, kwargs):
    ctx = it.ctx
    args = [it.resolve(a) for a in args]
    if name == 'join' and getattr(it, 'join_hook', None) is not None:
        return it.join_hook(it, obj, args[0])
    if args and isinstance(args[0], SExt):
        return sx(it, args[0], 'instr', name, obj, args[1:])
    if name in ('startswith', 'endswith'):
        if name == 'startswith' and isinstance(obj, SSlice) and isinstance(args[0], str) and len(args) == 1:
            s = args[0]
            if not s:
                return True
            if not ctx.branch(obj.length() >= len(s)):
                return False
            return text_at(it, obj, s)
        if isinstance(obj, SStr) and isinstance(args[0], str) and not getattr(obj, 'opaque', False):
            return _sb(z3.PrefixOf(z3.StringVal(args[0]), obj.t) if name == 'startswith' else z3.SuffixOf(z3.StringVal(args[0]), obj.t))
        if isinstance(obj, SConcat) and name == 'startswith' and isinstance(args[0], str) and isinstance(obj.parts[0], str) and len(obj.parts[0]) >= len(args[0]):
            return obj.parts[0].startswith(args[0])
        return SBool(ctx.bool(name))
    if name in ('lower', 'upper', 'casefold'):
        if isinstance(obj, SSlice):
            # a case-folded view: same offsets (length-preserving folding assumed)
            ctx.axioms_used.add('str.lower() keeps string length (false only for U+0130)')
            return SSlice(obj.base, obj.lo, obj.hi, (obj.fold or '') + name)
        f = getattr(obj, 'folded', None)
        s = opaque_str(it)
        return s
    if name == 'find' or name == 'index':
        if isinstance(obj, SSlice) and len(args) == 2 and isinstance(args[0], SSlice) and args[0].base == obj.base and args[0].fold == obj.fold and isinstance(args[1], (int, SInt)):
            st = to_int(args[1])
            if ctx.entails(z3.And(st >= 0, obj.lo + st == args[0].lo, args[0].hi <= obj.hi)):
                return args[1]          # it is right there
        if isinstance(obj, SSlice) and isinstance(args[0], str) and len(args) == 1:
            n = obj.length()
            r = ctx.int('find')
            if ctx.branch(ctx.bool('found')):
                ctx.assume(z3.And(r >= 0, r + len(args[0]) <= n))
                for lo, const, val in ctx.notes_tab('textat').get((obj.base, obj.fold), []):
                    if val is True and not const.startswith(args[0]) and not args[0].startswith(const) and ctx.entails(lo == obj.lo):
                        ctx.assume(r >= 1)      # the text starts with something else
                s2 = SSlice(obj.base, z3.simplify(obj.lo + r), z3.simplify(obj.lo + r + len(args[0])), obj.fold)
                ctx.notes_tab('textat').setdefault((obj.base, obj.fold), []).append((s2.lo, args[0], True))
                return SInt(r)
            if name == 'index':
                raise_py(ValueError('substring not found'))
            return -1
        r = ctx.int('find')
        ctx.assume(r >= -1)
        return SInt(r)
    if name == 'join':
        c = concrete_iter(it, args[0])
        if c is None:
            return opaque_str(it)
        parts = []
        for i, x in enumerate(c):
            if i:
                parts.append(obj)
            parts.append(x)
        return concat_str(it, parts)
    if name in ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isupper', 'islower'):
        if isinstance(obj, SSlice):
            table = ctx.notes_tab('strpred')
            key = (name, obj.base, obj.lo.get_id(), obj.hi.get_id())
            if key not in table:
                table[key] = ctx.bool(name)
            return SBool(table[key])
        return SBool(ctx.bool(name))
    if name in ('split', 'rsplit', 'splitlines', 'partition'):
        raise Undecided('%s of a symbolic string' % name)
    if name in ('strip', 'lstrip', 'rstrip', 'replace', 'zfill', 'format', 'title', 'ljust', 'rjust', '__format__', 'encode'):
        h = getattr(it, 'str_hook', None)
        if h is not None:
            r = h(it, obj, name, args)
            if r is not None:
                return r
        return opaque_str(it)
    if name == '__len__':
        return str_len(it, obj)
    if name == 'count':
        r = ctx.int('count')
        ctx.assume(r >= 0)
        return SInt(r)
    raise Undecided('string method %s' % name)


# ------------------------------------------------------------------ methods of concrete objects
def call_native_method(it, f, args, kwargs):
    """f: bound builtin method of a real object (list, dict, set, str, Pattern, ...)"""
    ctx = it.ctx
    obj, name = f.__self__, f.__name__
    args = [it.resolve(a) if isinstance(a, SAny) and name not in ('append', 'insert', 'add') else a for a in args]
    if isinstance(obj, list):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
            ctx.log_write(obj, name)
        if name == 'append':
            for w in append_watch:
                w.append((obj, args[0]))
            obj.append(args[0])
            return None
        if name == 'extend':
            a = it.resolve(args[0])
            c = concrete_iter(it, a)
            if c is None:
                raise Undecided('extending a concrete list with a symbolic sequence')
            obj.extend(list(c))
            return None
        if name == 'insert' and not is_sym(args[0]):
            obj.insert(args[0], args[1])
            return None
        if name == 'copy':
            return ctx.alloc(list(obj))
        if name in ('pop', 'clear', 'reverse') and not any(is_sym(a) for a in args):
            try:
                return f(*args)
            except Exception as e:
                raise PyRaise(e)
        if name in ('remove', 'index'):
            for i, x in enumerate(obj):
                if x is args[0] or it.truth(it.compare('Eq', x, args[0])):
                    if name == 'index':
                        return i
                    del obj[i]
                    return None
            raise_py(ValueError('list.%s(x): x not in list' % name))
        if name == 'sort':
            r = b_sorted(it, obj, **kwargs)
            obj[:] = r
            return None
        if name == 'count':
            n = 0
            for x in obj:
                if x is args[0] or it.truth(it.compare('Eq', x, args[0])):
                    n += 1
            return n
    if isinstance(obj, dict):
        if name in ('pop', 'clear', 'update', 'setdefault', 'popitem'):
            ctx.log_write(obj, 'item')
        if name == 'copy':
            return ctx.alloc(dict(obj))
        if any(isinstance(a, (SStr, SSlice, SConcat)) for a in args[:1]):
            k = dict_find(it, obj, args[0])
            if name == 'get':
                return obj[k] if k is not None else (args[1] if len(args) > 1 else None)
            raise Undecided('dict.%s with a symbolic key' % name)
        if name in ('get', 'pop', 'setdefault', 'keys', 'values', 'items', 'clear', 'popitem'):
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        if name == 'update':
            src = it.resolve(args[0]) if args else {}
            if isinstance(src, SDict):
                raise Undecided('dict.update from a symbolic dict')
            f(src, **kwargs)
            return None
    if isinstance(obj, (set, frozenset)):
        if name in ('add', 'remove', 'discard', 'pop', 'update', 'clear'):
            ctx.log_write(obj, 'item')
        if not any(deep_sym(a) for a in args):
            try:
                r = f(*args)
                if isinstance(r, set):
                    ctx.alloc(r)
                return r
            except Exception as e:
                raise PyRaise(e)
        h = getattr(it, 'set_add_hook', None)
        if name == 'add' and h is not None:
            return h(it, obj, args[0])
        if name == 'add':
            raise SymSetNeeded(obj, args[0])
    if isinstance(obj, str):
        if not any(deep_sym(a) for a in args) and not any(deep_sym(a) for a in kwargs.values()):
            if name == 'format':
                return str_format(it, obj, args, kwargs)
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyRaise(e)
        if name == 'join':
            return str_method(it, obj, 'join', args, kwargs)
        if name == 'format':
            return str_format(it, obj, args, kwargs)
        if name in ('startswith', 'endswith', 'find', 'replace', 'split', 'count', 'zfill', 'rstrip', 'lstrip', 'strip', 'index'):
            if args and isinstance(it.resolve(args[0]), SExt):
                return sx(it, it.resolve(args[0]), 'instr', name, obj, list(args[1:]))
            if name == 'find':
                h = getattr(it, 'const_str_find', None)
                if h is not None:
                    r = h(it, obj, args[0])
                    if r is not None:
                        return r
            return str_method(it, SStr(z3.StringVal(obj)), name, args, kwargs)
    if isinstance(obj, re.Pattern):
        return re_method(it, obj, name, args, kwargs)
    if isinstance(obj, (Decimal, int, float)) and any(is_sym(a) for a in args):
        return call_method(it, num(obj), name, args, kwargs)
    if isinstance(obj, type) and name == 'join' and obj is str:
        pass
    if any(deep_sym(a) for a in args) or any(deep_sym(a) for a in kwargs.values()):
        if isinstance(obj, (types.MappingProxyType,)):
            raise Undecided('mapping proxy')
        raise Undecided('method %s of %s with symbolic arguments' % (name, type(obj).__name__))
    try:
        r = f(*args, **kwargs)
    except Exception as e:
        raise PyRaise(e)
    return r


class SymSetNeeded(Undecided):
    def __init__(self, obj, val):
        super().__init__('symbolic member added to a concrete set')
        self.obj, self.val = obj, val


def str_format(it, fmt, args, kwargs):
    """'{0} ... {}'.format(...): pieces are kept when the spec is plain"""
    import string
    parts = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(fmt))
    except Exception as e:
        raise PyRaise(e)
    for lit, field, spec, conv in pieces:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            idx = auto
            auto += 1
        elif field.isdigit():
            idx = int(field)
        else:
            idx = field
        try:
            v = args[idx] if isinstance(idx, int) else kwargs[idx]
        except (IndexError, KeyError):
            if isinstance(idx, int):
                raise_py(IndexError('Replacement index out of range'))
            return opaque_str(it)
        v = it.resolve(v)
        if spec or conv:
            if not deep_sym(v):
                try:
                    parts.append(('{0%s%s}' % ('!' + conv if conv else '', ':' + spec if spec else '')).format(v))
                except Exception as e:
                    raise PyRaise(e)
            else:
                m = it.repo_dunder(v, '__format__')
                fh = getattr(it, 'format_hook', None)
                if m is not None and not conv:
                    parts.append(it.call(m, [v, spec]))
                elif fh is not None and not conv:
                    parts.append(fh(it, v, spec))
                else:
                    parts.append(opaque_str(it))
            continue
        m = it.repo_dunder(v, '__format__')
        if m is not None:
            parts.append(it.call(m, [v, '']))
            continue
        if isinstance(v, list) and deep_sym(v):
            parts.append(opaque_str(it))
            continue
        parts.append(to_str(it, v))
    return concat_str(it, parts)


# ------------------------------------------------------------------ regular expressions
def re_parse(pattern):
    import re._parser as sp
    return sp.parse(pattern.pattern, pattern.flags)


def re_method(it, pat, name, args, kwargs):
    ctx = it.ctx
    if not any(deep_sym(a) for a in args):
        try:
            return getattr(pat, name)(*args, **kwargs)
        except Exception as e:
            raise PyRaise(e)
    subj = it.resolve(args[0])
    h = getattr(it, 're_hook', None)
    if h is not None:
        r = h(it, pat, name, subj)
        if r is not NotImplemented:
            return r
    if isinstance(subj, SSlice) and name == 'match' and len(args) == 1:
        table = ctx.notes_tab('rematch')
        for p2, base, lo, hi, res in table.setdefault('list', []):
            if p2 is pat and base == subj.base and ctx.entails(z3.And(lo == subj.lo, hi == subj.hi)):
                return res
        if not ctx.branch(ctx.bool('match')):
            res = None
        else:
            tree = re_parse(pat)
            lo, hi = tree.getwidth()
            n = subj.length()
            m = ctx.int('mlen')
            ctx.assume(z3.And(m >= int(lo), m <= n))
            if hi < 10 ** 6:
                ctx.assume(m <= int(hi))
            spans = {0: (subj.lo, z3.simplify(subj.lo + m))}
            # groups that start at the match start / end at the match end
            pos = subj.lo
            fixed = True
            items = list(tree)
            for idx, (op, av) in enumerate(items):
                opn = str(op)
                if opn == 'SUBPATTERN' and fixed:
                    g, sub = av[0], av[3]
                    slo, shi = sub.getwidth()
                    rest_lo = sum(_width1(x)[0] for x in items[idx + 1:])
                    rest_hi = sum(_width1(x)[1] for x in items[idx + 1:])
                    gl = ctx.int('glen')
                    ctx.assume(z3.And(gl >= int(slo)))
                    if shi < 10 ** 6:
                        ctx.assume(gl <= int(shi))
                    end = z3.simplify(pos + gl)
                    ctx.assume(end <= spans[0][1] - int(rest_lo))
                    if rest_hi < 10 ** 6:
                        ctx.assume(end >= spans[0][1] - int(rest_hi))
                    if g is not None:
                        spans[g] = (pos, end)
                    pos = end
                else:
                    w = _width1((op, av))
                    if w[0] == w[1]:
                        if opn == 'LITERAL' and not (pat.flags & re.IGNORECASE):
                            ctx.notes_tab('textat').setdefault((subj.base, subj.fold), []).append((z3.simplify(pos), chr(av), True))
                        pos = z3.simplify(pos + int(w[0]))
                    else:
                        fixed = False
            res = SMatch(pat, subj, spans)
            ctx.axioms_used.add('re.match: the match starts at the subject start and lies inside it; group widths as computed by the pattern parser')
        table['list'].append((pat, subj.base, subj.lo, subj.hi, res))
        return res
    if name in ('match', 'fullmatch', 'search'):
        if ctx.branch(ctx.bool('match')):
            return SOpaque('match', object, {})
        return None
    raise Undecided('pattern method %s on a symbolic string' % name)


def _width1(item):
    import re._parser as sp
    s = sp.SubPattern(sp.State())
    s.data = [item]
    return s.getwidth()


# ------------------------------------------------------------------ library functions
def b_isinstance(it, v, cls):
    v = it.resolve(v)
    if isinstance(v, Sym):
        return issubclass(v.pyclass, cls)
    return isinstance(v, cls)


def b_issubclass(it, a, b):
    a = it.resolve(a)
    if isinstance(a, SExt):
        return sx(it, a, 'issubclass', b)
    return issubclass(a, b)


def b_type(it, v, *rest):
    if rest:
        raise Undecided('dynamic class creation')
    return pytype(it, v)


def b_len(it, v):
    v = it.resolve(v)
    if isinstance(v, SExt):
        return sx(it, v, 'len')
    if isinstance(v, SList):
        n = v.length()
        return n.as_long() if z3.is_int_value(n) else SInt(n)
    if _is_str(v):
        return str_len(it, v)
    if isinstance(v, SRange):
        n, _ = sym_iter(it, v)
        return SInt(n)
    if isinstance(v, SSet):
        return len(v.members)
    if isinstance(v, (SNum, SInt, SBool)):
        raise_py(TypeError("object of type '%s' has no len()" % v.pyclass.__name__))
    if isinstance(v, SOpaque) and '__len__' in v.attrs:
        return it.call(v.attrs['__len__'], [])
    if isinstance(v, Sym):
        raise Undecided('len of %r' % (v,))
    m = it.repo_dunder(v, '__len__')
    if m is not None:
        return it.call(m, [v])
    try:
        return len(v)
    except Exception as e:
        raise PyRaise(e)


def b_int(it, v=0, *rest):
    v = it.resolve(v)
    if rest:
        return it.native(int, [v] + list(rest), {})
    if isinstance(v, SExt):
        return sx(it, v, 'int')
    m = it.repo_dunder(v, '__int__') or it.repo_dunder(v, '__trunc__')
    if m is not None:
        return it.call(m, [v])
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SNum):
        if v.py == 'float':
            raise Undecided('int of a symbolic float')
        r = int_near(it, v, 'trunc')
        return SNum(r.t, 'int', True, r.bound)
    if _is_str(v) and is_sym(v):
        h = getattr(it, 'int_of_str', None)
        if h is not None:
            return h(it, v)
        r = it.ctx.int('parsed')
        if it.ctx.branch(it.ctx.bool('int_ok')):
            return SInt(r)
        raise_py(ValueError('invalid literal for int()'))
    if is_sym(v):
        raise_py(TypeError('int() argument'))
    try:
        return int(v)
    except Exception as e:
        raise PyRaise(e)


def b_float(it, v=0.0):
    v = it.resolve(v)
    m = it.repo_dunder(v, '__float__')
    if m is not None:
        return it.call(m, [v])
    if is_number(v) and is_sym(v):
        return SNum(it.ctx.real('float'), 'float', False, None)
    return it.native(float, [v], {})


def b_complex(it, v=0.0):
    raise Undecided('complex')


def b_bool(it, v=False):
    t = it.truth_val(v)
    return t if isinstance(t, bool) else SBool(t)


def b_str(it, v=''):
    return to_str(it, v)


def b_repr(it, v):
    if is_sym(v) or deep_sym(v):
        return opaque_str(it)
    m = it.repo_dunder(v, '__repr__')
    if m is not None:
        return it.call(m, [v])
    return it.native(repr, [v], {})


def b_abs(it, v):
    v = it.resolve(v)
    if isinstance(v, SExt):
        return sx(it, v, 'abs')
    m = it.repo_dunder(v, '__abs__')
    if m is not None:
        return it.call(m, [v])
    if isinstance(v, (SInt, SNum)):
        # (a sign that is certain keeps the terms small)
        if (isinstance(v, SInt) or v.py == 'int') and it.ctx.entails(v.t >= 0):
            return v
    if isinstance(v, SInt):
        return SInt(z3.simplify(z3.If(v.t >= 0, v.t, -v.t)))
    if isinstance(v, SNum):
        if v.py == 'dec' and not (v.isint and fits(v.bound)):
            raise Undecided('abs of a rounded value')
        return SNum(z3.simplify(z3.If(v.t >= 0, v.t, -v.t)), v.py, v.isint, v.bound)
    return it.native(abs, [v], {})


def _mround(name, dunder, kind):
    def h(it, v):
        v = it.resolve(v)
        m = it.repo_dunder(v, dunder)
        if m is not None:
            return it.call(m, [v])
        if isinstance(v, SInt):
            return v
        if isinstance(v, SNum):
            if v.py == 'float':
                raise Undecided('%s of a symbolic float' % name)
            r = int_near(it, v, kind)
            return SNum(r.t, 'int', True, r.bound)
        return it.native(getattr(math, name), [v], {})
    return h


def b_round(it, v, nd=None):
    v = it.resolve(v)
    m = it.repo_dunder(v, '__round__')
    if m is not None:
        return it.call(m, [v] if nd is None else [v, nd])
    if isinstance(v, (SNum,)):
        if v.py == 'int':
            return v
        if v.py == 'dec':
            if nd is None:
                r = int_near(it, v, 'round_even')
                return SNum(r.t, 'int', True, r.bound)
            if isinstance(nd, int) and nd == 0:
                if decimal.getcontext().rounding != decimal.ROUND_HALF_UP:
                    raise Undecided('context rounding is %s' % decimal.getcontext().rounding)
                r = int_near(it, v, 'round_up')
                if not fits(r.bound):
                    raise Undecided('quantize of an unbounded value')
                return SNum(r.t, 'dec', True, r.bound)
            h = getattr(it, 'round_hook', None)
            if h is not None:
                return h(it, v, nd)
        raise Undecided('round of a symbolic value to %r places' % (nd,))
    if isinstance(v, SInt):
        return v
    return it.native(round, [v] if nd is None else [v, nd], {})


def b_divmod(it, a, b):
    m = it.repo_dunder(a, '__divmod__')
    if m is not None:
        return it.call(m, [a, b])
    return (it.binop('FloorDiv', a, b), it.binop('Mod', a, b))


def b_pow(it, a, b, mod=None):
    m = it.repo_dunder(a, '__pow__')
    if m is not None:
        return it.call(m, [a, b] if mod is None else [a, b, mod])
    if mod is not None:
        if deep_sym(a) or deep_sym(b):
            raise Undecided('three-argument pow')
        return it.native(pow, [a, b, mod], {})
    return it.binop('Pow', a, b)


def b_gcd(it, a, b):
    ctx = it.ctx
    a, b = it.resolve(a), it.resolve(b)
    if not is_sym(a) and not is_sym(b):
        return it.native(math.gcd, [a, b], {})
    x, y = num(a), num(b)
    if x.py != 'int' or y.py != 'int':
        raise_py(TypeError('integers required'))
    for u, w in ((x, y), (y, x)):
        if z3.is_rational_value(u.t) and abs(u.t.as_fraction()) == 1:
            return 1
    table = ctx.notes_tab('gcd')
    key = (x.t.get_id(), y.t.get_id())
    if key in table:
        return table[key][0]
    g = GCD(x.t, y.t)
    n1, d1 = ctx.real('gn'), ctx.real('gd')
    ctx.assume(z3.And(z3.IsInt(g), g >= 0, z3.IsInt(n1), z3.IsInt(d1)))
    ctx.assume(x.t == g * n1)
    ctx.assume(y.t == g * d1)
    ctx.assume(z3.Implies(z3.Or(x.t != 0, y.t != 0), z3.And(g >= 1, GCD(n1, d1) == 1)))
    # signs
    ctx.assume(z3.And((n1 > 0) == z3.And(x.t > 0), (d1 > 0) == z3.And(y.t > 0))) if False else None
    ctx.axioms_used.add('math.gcd: g >= 1 divides both arguments, the cofactors are coprime')
    r = SNum(g, 'int', True, y.bound if y.bound else x.bound)
    set_cofactor(it, x.t, g, n1)
    set_cofactor(it, y.t, g, d1)
    table[key] = (r, x.t, y.t)
    return r


def b_lcm(it, a, b):
    ctx = it.ctx
    a, b = it.resolve(a), it.resolve(b)
    if not is_sym(a) and not is_sym(b):
        return it.native(math.lcm, [a, b], {})
    x, y = num(a), num(b)
    if x.py != 'int' or y.py != 'int':
        raise_py(TypeError('integers required'))
    table = ctx.notes_tab('lcm')
    key = (x.t.get_id(), y.t.get_id())
    if key in table:
        return table[key][0]
    l = LCM(x.t, y.t)
    ka, kb = ctx.real('la'), ctx.real('lb')
    ctx.assume(z3.And(z3.IsInt(l), l >= 0, z3.IsInt(ka), z3.IsInt(kb)))
    ctx.assume(l == x.t * ka)
    ctx.assume(l == y.t * kb)
    ctx.assume(z3.Implies(z3.And(x.t != 0, y.t != 0), l >= 1))
    ctx.assume(z3.Implies(z3.And(x.t > 0, y.t > 0), z3.And(ka >= 1, kb >= 1)))
    ctx.axioms_used.add('math.lcm: a positive common multiple of its non-zero arguments, at most their product')
    r = SNum(l, 'int', True, bmul(x.bound, y.bound))
    set_cofactor(it, l, x.t, ka)
    set_cofactor(it, l, y.t, kb)
    table[key] = (r, x.t, y.t)
    return r


def b_factorial(it, v):
    v = it.resolve(v)
    if is_sym(v):
        return SNum(FACT(num(v).t), 'int', True, None)
    return it.native(math.factorial, [v], {})


def m_log(it, *args):
    if any(deep_sym(a) for a in args):
        return SNum(it.ctx.real('log'), 'float', False, None)
    return it.native(math.log, list(args), {})


def b_decimal(it, v='0', *rest):
    v = it.resolve(v)
    if isinstance(v, (SInt, SNum, SBool)):
        n = num(v)
        if n.py == 'float':
            raise Undecided('Decimal of a symbolic float')
        if n.py == 'int':
            return SNum(n.t, 'dec', True, n.bound)
        return n
    if _is_str(v) and is_sym(v):
        h = getattr(it, 'decimal_of_str', None)
        if h is not None:
            return h(it, v)
        raise Undecided('Decimal of a symbolic string')
    return it.native(Decimal, [v] + list(rest), {})


def b_range(it, *args):
    args = [it.resolve(a) for a in args]
    if not any(is_sym(a) for a in args):
        return it.native(range, args, {})
    if any(_is_str(a) or a is None for a in args):
        raise_py(TypeError('range() integer argument expected'))
    step = 1
    if len(args) == 1:
        lo, hi = 0, args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) == 3:
            step = args[2]
    if step == 1:
        return SRange(z3.simplify(to_int(lo)), z3.simplify(to_int(hi)))
    if step == -1:
        # range(hi, lo, -1) == reversed(range(lo+1, hi+1))
        return SRange(z3.simplify(to_int(hi) + 1), z3.simplify(to_int(lo) + 1), -1)
    raise Undecided('range with step %r' % (step,))


def b_enumerate(it, v, start=0):
    v = it.resolve(v)
    if isinstance(v, Sym):
        return SEnumerate(v, start)
    c = concrete_iter(it, v)
    if is_sym(start):
        raise Undecided('enumerate start')
    return enumerate(c, start)


def b_reversed(it, v):
    v = it.resolve(v)
    if isinstance(v, SRange):
        return SRange(v.lo, v.hi, -v.step)
    if isinstance(v, Sym):
        return SReversed(v)
    return it.native(reversed, [v], {})


def b_list(it, v=()):
    v = it.resolve(v)
    if isinstance(v, SList):
        return it.ctx.alloc(v.copy())
    c = concrete_iter(it, v)
    if c is None:
        n, at = sym_iter(it, v)
        base = SBase('list', n, lambda ctx, i: at(i))
        base.mk_alias = False
        return it.ctx.alloc(SList([('seg', base, z3.IntVal(0), n)]))
    return it.ctx.alloc(list(c))


def b_tuple(it, v=()):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('tuple of a symbolic sequence')
    return tuple(c)


def b_set(it, v=()):
    v = it.resolve(v)
    if isinstance(v, SExt):
        r = v.sx(it, 'set')
        if r is not NotImplemented:
            return r
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('set of a symbolic sequence')
    c = list(c)
    if not c:
        # may receive symbolic members later
        return it.ctx.alloc(SSet([]))
    if any(deep_sym(x) for x in c):
        return sym_set(it, c)
    try:
        return it.ctx.alloc(set(c))
    except Exception as e:
        raise PyRaise(e)


def b_dict(it, v=(), **kw):
    v = it.resolve(v)
    if isinstance(v, SExt):
        return sx(it, v, 'call', 'copy', [], {})
    if isinstance(v, SDict):
        return it.ctx.alloc(v.copy())
    if v == () and not kw and getattr(it, 'dict_hook', None):
        r = it.dict_hook(it)
        if r is not None:
            return r
    if isinstance(v, dict):
        return it.ctx.alloc(dict(v, **kw))
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('dict of a symbolic sequence')
    out = {}
    for p in c:
        k, x = list(concrete_iter(it, p))
        if is_sym(k):
            raise Undecided('dict with a symbolic key')
        out[k] = x
    out.update(kw)
    return it.ctx.alloc(out)


def b_min(it, *args, **kw):
    return _minmax(it, args, kw, 'Lt')


def b_max(it, *args, **kw):
    return _minmax(it, args, kw, 'Gt')


def _minmax(it, args, kw, op):
    key = kw.get('key')
    if len(args) == 1:
        v = it.resolve(args[0])
        c = concrete_iter(it, v)
        if c is None:
            h = getattr(it, 'minmax_hook', None)
            if h is not None:
                return h(it, v, key, op)
            return sym_minmax(it, v, key, op, kw)
        c = list(c)
    else:
        c = list(args)
    if not c:
        if 'default' in kw:
            return kw['default']
        raise_py(ValueError('min()/max() arg is an empty sequence'))
    best = c[0]
    bk = it.call(key, [best]) if key else best
    for x in c[1:]:
        k = it.call(key, [x]) if key else x
        cond = it.compare(op, k, bk)
        if isinstance(k, (SInt, int)) and isinstance(bk, (SInt, int)) and key is None and isinstance(cond, SBool):
            best = bk = SInt(z3.simplify(z3.If(cond.t, to_int(k), to_int(bk))))
            continue
        if it.truth(cond):
            best, bk = x, k
    return best


def sym_minmax(it, v, key, op, kw):
    """min/max of a sequence of unknown length: some element that no other one beats"""
    ctx = it.ctx
    n, at = sym_iter(it, v)
    if not ctx.branch(n > 0):
        if 'default' in kw:
            return kw['default']
        raise_py(ValueError('min()/max() arg is an empty sequence'))
    ctx.axioms_used.add('min/max: return an element that no other element beats under the (strict weak) order of its comparison')
    m = ctx.int('best')
    ctx.assume(z3.And(m >= 0, m < n))
    best = at(m)
    bk = it.call(key, [best]) if key else best
    for p in it.skolems:
        if ctx.branch(z3.And(p >= 0, p < n)) and not ctx.entails(p == m):
            x = at(p)
            if x is best:
                continue
            k = it.call(key, [x]) if key else x
            if it.truth(it.compare(op, k, bk)):
                raise PathDone()
    return best


def sym_sorted(it, v, key, reverse):
    """sorted(): a permutation of the input, no element before a smaller one"""
    ctx = it.ctx
    n, at = sym_iter(it, v)
    if is_sym(reverse):
        raise Undecided('symbolic reverse flag')
    ctx.axioms_used.add('sorted: a permutation of its input in which no element precedes a strictly smaller one')
    perm = z3.Function(ctx.fresh_name('perm'), z3.IntSort(), z3.IntSort())
    seen = []

    def mk(c, i):
        j = perm(i)
        ctx.assume(z3.And(j >= 0, j < n))
        x = at(j)
        k = it.call(key, [x]) if key else x
        for i2, x2, k2 in seen:
            ctx.assume(z3.Implies(i != i2, j != perm(i2)))
            if ctx.branch(i < i2):
                lo, hi = k, k2
            elif ctx.branch(i2 < i):
                lo, hi = k2, k
            else:
                continue
            if reverse:
                lo, hi = hi, lo
            if it.truth(it.compare('Lt', hi, lo)):
                raise PathDone()
        seen.append((i, x, k))
        return x
    base = SBase('sorted', n, mk)
    base.mk_alias = False
    base.perm = perm
    return ctx.alloc(SList([('seg', base, z3.IntVal(0), n)]))


def b_sorted(it, v, key=None, reverse=False):
    v = it.resolve(v)
    c = concrete_iter(it, v)
    if c is None:
        h = getattr(it, 'sorted_hook', None)
        if h is not None:
            return h(it, v, key, reverse)
        return sym_sorted(it, v, key, reverse)
    c = list(c)
    if len(c) <= 1:
        return it.ctx.alloc(c)
    if not any(deep_sym(x) for x in c) and not any(hasattr(x, '__dict__') for x in c) and (key is None or not hasattr(key, 'interp')):
        try:
            return it.ctx.alloc(sorted(c, key=key, reverse=reverse))
        except Exception as e:
            raise PyRaise(e)
    # stable insertion sort through the interpreter's comparison
    keyed = [(it.call(key, [x]) if key else x, x) for x in c]
    out = []
    for k, x in keyed:
        i = len(out)
        while i > 0 and it.truth(it.compare('Lt', *((out[i - 1][0], k) if reverse else (k, out[i - 1][0])))):
            i -= 1
        out.insert(i, (k, x))
    return it.ctx.alloc([x for _, x in out])


def b_sum(it, v, start=0):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('sum of a symbolic sequence')
    t = start
    for x in c:
        t = it.binop('Add', t, x)
    return t


def b_all(it, v):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('all() of a symbolic sequence')
    for x in c:
        if not it.truth(x):
            return False
    return True


def b_any(it, v):
    c = concrete_iter(it, v)
    if c is None:
        v = it.resolve(v)
        raise Undecided('any() of a symbolic sequence')
    for x in c:
        if it.truth(x):
            return True
    return False


def b_zip(it, *vs):
    cs = [concrete_iter(it, v) for v in vs]
    if any(c is None for c in cs):
        return SZip(list(vs))
    return list(zip(*[list(c) for c in cs]))


def b_map(it, f, *vs):
    cs = [concrete_iter(it, v) for v in vs]
    if any(c is None for c in cs):
        raise Undecided('map over a symbolic sequence')
    return [it.call(f, list(xs)) for xs in zip(*[list(c) for c in cs])]


def b_filter(it, f, v):
    c = concrete_iter(it, v)
    if c is None:
        raise Undecided('filter over a symbolic sequence')
    return [x for x in c if it.truth(it.call(f, [x]) if f is not None else x)]


def b_next(it, v, *default):
    if isinstance(v, list):
        if v:
            return v[0]
        if default:
            return default[0]
        raise_py(StopIteration())
    return it.native(next, [v] + list(default), {})


def b_iter(it, v):
    c = concrete_iter(it, v)
    if c is None:
        return v
    return list(c)


def b_hasattr(it, v, name):
    v = it.resolve(v)
    if isinstance(v, SOpaque):
        h = v.attrs.get('__hasattr__')
        if h is not None:
            return it.call(h, [name])
        if name in v.attrs:
            return True
        if hasattr(v.pyclass, name):
            return True
        raise Undecided('hasattr(%s, %s)' % (v.name, name))
    if isinstance(v, SExt):
        r = v.sx(it, 'hasattr', name)
        if r is not NotImplemented:
            return r
    if isinstance(v, Sym):
        return hasattr(v.pyclass, name)
    try:
        it.getattr(v, name)
        return True
    except PyRaise as p:
        if isinstance(p.exc, AttributeError):
            return False
        raise


def b_getattr(it, v, name, *default):
    try:
        return it.getattr(v, name)
    except PyRaise as p:
        if default and isinstance(p.exc, AttributeError):
            return default[0]
        raise


def b_setattr(it, v, name, x):
    it.setattr(v, name, x)


def b_callable(it, v):
    return callable(v) if not is_sym(v) else False


def b_id(it, v):
    return id(v)


def b_hash(it, v):
    m = it.repo_dunder(v, '__hash__')
    if m is not None:
        return it.call(m, [v])
    return it.native(hash, [v], {})


def b_format(it, v, spec=''):
    v = it.resolve(v)
    m = it.repo_dunder(v, '__format__')
    if m is not None:
        return it.call(m, [v, spec])
    fh = getattr(it, 'format_hook', None)
    if fh is not None and isinstance(v, Sym) and isinstance(spec, str):
        return fh(it, v, spec)
    if deep_sym(v) or deep_sym(spec):
        return opaque_str(it)
    return it.native(format, [v, spec], {})


def b_print(it, *a, **k):
    return None


def c_copy(it, v):
    """copy.copy of a plain object"""
    v = it.resolve(v)
    if isinstance(v, SExt):
        return sx(it, v, 'call', 'copy', [], {})
    if isinstance(v, (SList, SDict)):
        return it.ctx.alloc(v.copy())
    if is_sym(v) or isinstance(v, (int, str, float, Decimal, type(None), tuple, types.FunctionType)):
        return v
    if isinstance(v, list):
        return it.ctx.alloc(list(v))
    if isinstance(v, dict):
        return it.ctx.alloc(dict(v))
    new = type(v).__new__(type(v))
    new.__dict__.update(v.__dict__)
    return it.ctx.alloc(new)


def t_perf(it):
    return 0.0


def f_partial(it, f, *a, **k):
    return functools.partial(f, *a, **k)


def str_join(it, sep, parts):
    return str_method(it, sep if is_sym(sep) else SStr(z3.StringVal(sep)), 'join', [parts], {}) if False else _join(it, sep, parts)


def _join(it, sep, parts):
    if getattr(it, 'join_hook', None) is not None:
        return it.join_hook(it, sep, parts)
    c = concrete_iter(it, parts)
    if c is None:
        return opaque_str(it)
    out = []
    for i, x in enumerate(c):
        if i and sep != '':
            out.append(sep)
        x = it.resolve(x)
        if not _is_str(x):
            raise_py(TypeError('sequence item %d: expected str instance' % i))
        out.append(x)
    return concat_str(it, out)


def re_search(it, pattern, string, *rest):
    if deep_sym(pattern) or deep_sym(string):
        return SOpaque('match', object, {}) if it.ctx.branch(it.ctx.bool('search')) else None
    return it.native(re.search, [pattern, string] + list(rest), {})


def re_compile(it, pattern, flags=0):
    if deep_sym(pattern):
        return SOpaque('regex', object, {'match': None})
    return it.native(re.compile, [pattern, flags], {})


def object_new(it, cls, *a):
    return it.ctx.alloc(object.__new__(cls))


TABLE = {
    isinstance: b_isinstance, issubclass: b_issubclass, type: b_type, len: b_len, int: b_int, float: b_float, bool: b_bool, str: b_str,
    repr: b_repr, abs: b_abs, round: b_round, divmod: b_divmod, pow: b_pow, range: b_range, enumerate: b_enumerate, reversed: b_reversed,
    list: b_list, tuple: b_tuple, set: b_set, dict: b_dict, min: b_min, max: b_max, sorted: b_sorted, sum: b_sum, all: b_all, any: b_any,
    zip: b_zip, map: b_map, filter: b_filter, next: b_next, iter: b_iter, hasattr: b_hasattr, getattr: b_getattr, setattr: b_setattr,
    callable: b_callable, id: b_id, hash: b_hash, format: b_format, print: b_print, complex: b_complex,
    math.floor: _mround('floor', '__floor__', 'floor'), math.ceil: _mround('ceil', '__ceil__', 'ceil'),
    math.trunc: _mround('trunc', '__trunc__', 'trunc'), math.gcd: b_gcd, math.lcm: b_lcm, math.factorial: b_factorial, math.log: m_log,
    math.log2: m_log, math.log10: m_log,
    Decimal: b_decimal, copymod.copy: c_copy, functools.partial: f_partial,
    re.search: re_search, re.compile: re_compile,
}
import time as _time
TABLE[_time.perf_counter] = t_perf
UNBOUND = {'join': str_join}


def lookup(f):
    try:
        m = TABLE.get(f)
    except TypeError:
        return None
    if m is not None:
        return m
    if isinstance(f, types.MethodDescriptorType):
        name, owner = f.__name__, f.__objclass__

        def h(it, obj, *args, **kw):
            obj = it.resolve(obj)
            if owner is str and name == 'join':
                return _join(it, obj, *args)
            if isinstance(obj, Sym):
                return call_method(it, obj, name, list(args), kw)
            return call_native_method(it, getattr(obj, name), list(args), kw)
        return h
    if isinstance(f, types.BuiltinFunctionType) and f.__name__ == 'join' and isinstance(getattr(f, '__self__', None), str):
        return lambda it, parts: _join(it, f.__self__, parts)
    if f is object.__new__ or getattr(f, '__name__', '') == '__new__' and isinstance(getattr(f, '__self__', None), type):
        cls0 = f.__self__ if isinstance(getattr(f, '__self__', None), type) else None

        def new(it, cls, *a):
            return it.ctx.alloc(object.__new__(cls)) if not issubclass(cls, BaseException) else cls.__new__(cls, *a)
        return new
    return None
