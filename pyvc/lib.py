"""Specification vocabulary shared by the contracts."""
from . import env  # noqa: F401
import z3

from .core import PathDone, PyRaise, Undecided
from .interp import Interp, Stub, IFunc, LoopSpec
from .values import *  # noqa: F401,F403
from . import models as M

B_NOTE = ('operands: integers |num|, den <= B with 10^4 * B^4 <= 10^precision '
          '(B = 10^24 at the default precision of 100 digits)')


def T(x):
    return M.num(x).t


def sym_dec(ctx, name, bound=(1, 1), lo=None):
    """an integral Decimal with |x| <= c * B^k"""
    t = ctx.real(name)
    ctx.assume(z3.IsInt(t))
    if lo is not None:
        ctx.assume(t >= lo)
    ctx.inputs[name] = t
    return SNum(t, 'dec', True, bound)


def mk_number(it, name, integer=False, cast=None, bound=(1, 1)):
    """a Number satisfying the class invariant: integral num, den >= 1, coprime"""
    from modularcalculator.objects.number import Number
    ctx = it.ctx
    n = Number.__new__(Number)
    n.num = sym_dec(ctx, name + '.num', bound)
    if integer:
        from decimal import Decimal
        n.den = SNum(z3.RealVal(1), 'dec', True, (1, 0))
    else:
        n.den = sym_dec(ctx, name + '.den', bound, lo=1)
        ctx.assume(M.GCD(n.num.t, n.den.t) == 1)
    n.number_cast = cast
    n._ghost = value_of(it, n)
    ctx.alloc(n)
    return n


def value_of(it, n):
    """ghost: the exact rational num/den (den != 0)"""
    num, den = M.num(it.resolve(n.num)), M.num(it.resolve(n.den))
    if z3.is_rational_value(den.t) and den.t.as_fraction() == 1:
        return num.t
    return M.quotient(it, num.t, den.t)


def is_number(v):
    from modularcalculator.objects.number import Number
    return isinstance(v, Number)


def prove_invariant(it, n, what):
    """class invariant of Number"""
    ctx = it.ctx
    if not is_number(n):
        ctx.fail(what + ':is-a-Number', 'result is %r' % (n,))
        raise PathDone()
    num, den = M.num(n.num), M.num(n.den)
    ctx.prove(what + ':num-den-integral-Decimals', num.isint and den.isint and num.py == 'dec' and den.py == 'dec')
    ctx.prove(what + ':den-positive', den.t >= 1)
    ctx.prove(what + ':coprime', coprime(it, num.t, den.t))


def coprime(it, a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    for x in (a, b):
        if z3.is_rational_value(x) and abs(x.as_fraction()) == 1:
            return z3.BoolVal(True)
    return z3.Or(M.GCD(a, b) == 1, M.GCD(z3.simplify(-a), b) == 1, b == 1)


def prove_value(it, n, expr, what, cast=NotImplemented):
    """n represents exactly the rational expr"""
    ctx = it.ctx
    num, den = M.num(n.num), M.num(n.den)
    ctx.prove(what + ':exact-value', num.t == expr * den.t)
    if cast is not NotImplemented:
        ctx.prove(what + ':keeps-representation', getattr(n, 'number_cast', None) is cast)


def run(it, f, *args, **kwargs):
    """-> ('ok', value) | ('raise', exception)"""
    try:
        return 'ok', it.call(f, list(args), kwargs)
    except PyRaise as p:
        return 'raise', p.exc


# ------------------------------------------------------------ the calculator and its variable table
def mk_vars(ctx, name='vars'):
    """an arbitrary variable table: name -> (value, unit)"""
    def mkval(c, key):
        n = c.fresh_name(name + '.entry')
        u = SOpaque(n + '.unit') if c.choose(2, 'unit?') == 0 else None
        return (SOpaque(n + '.value'), u)
    d = SDict(name, mkval)
    ctx.alloc(d)
    return d


def mk_calc(ctx, **attrs):
    """a calculator about which only the given attributes are known"""
    from modularcalculator.modularcalculator import ModularCalculator
    c = ModularCalculator.__new__(ModularCalculator)
    c.__dict__.update(attrs)
    ctx.alloc(c)
    return c


def sym_name(ctx, name):
    s = SStr(ctx.string(name))
    ctx.inputs[name] = s.t
    return s


def snapshot(d):
    """the content of a variable table, unaffected by later updates"""
    return SDict(d.name, d.mkval, list(d.updates), d.memo, d.empty)


def same_entry(it, post, pre, key):
    """post and pre agree on key (identical value and unit objects)"""
    p1, v1 = M.dict_lookup(it, post, key)
    p0, v0 = M.dict_lookup(it, pre, key)
    if p1 != p0:
        return False
    return not p1 or pair_is(v1, v0)


def pair_is(v, w):
    return v is w or (isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and all(a is b for a, b in zip(v, w)))


def prove_same_vars(it, post, pre, what):
    """every variable is the same: checked for one arbitrary name"""
    if not isinstance(post, SDict):
        it.ctx.fail(what, 'the variable table is now %r' % (post,))
        return
    it.ctx.prove(what, same_entry(it, post, pre, sym_name(it.ctx, 'any_name')))


# ------------------------------------------------------------ frame conditions over the whole repository
import ast as _ast
import os as _os
from .interp import REPO as _REPO

_READS = ('copy', 'get', 'keys', 'items', 'values', '__contains__', '__len__')


def attribute_writers(attr):
    """-> {qualified function name: [(line, how)]}: every function of the repository in which the object held in attribute
    ``attr`` may be changed or escape (assigned, item-assigned, deleted, mutated through a method, aliased)"""
    out, callers, names = {}, {}, {}
    root = _os.path.join(_REPO, 'modularcalculator')
    for d, _dirs, files in sorted(_os.walk(root)):
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = _os.path.join(d, f)
            tree = _ast.parse(open(path).read())
            rel = _os.path.relpath(path, root)[:-3].replace('/', '.')

            def visit(node, qual, cls):
                for ch in _ast.iter_child_nodes(node):
                    if isinstance(ch, (_ast.FunctionDef, _ast.ClassDef)):
                        q = (qual + '.' if qual else '') + ch.name
                        if isinstance(ch, _ast.FunctionDef):
                            scan(ch, rel + ':' + q)
                        else:
                            visit(ch, q, ch)

            def scan(fn, q):
                names.setdefault(fn.name, set()).add(q)
                parents = {}
                for n in _ast.walk(fn):
                    for c in _ast.iter_child_nodes(n):
                        parents[c] = n
                for n in _ast.walk(fn):
                    if isinstance(n, _ast.Name):
                        callers.setdefault(n.id, set()).add(q)
                    if isinstance(n, _ast.Attribute):
                        callers.setdefault(n.attr, set()).add(q)
                    if isinstance(n, _ast.Attribute) and n.attr == attr:
                        p = parents.get(n)
                        how = None
                        if isinstance(n.ctx, (_ast.Store, _ast.Del)):
                            how = 'assigned'
                        elif isinstance(p, _ast.Subscript) and p.value is n:
                            how = None if isinstance(p.ctx, _ast.Load) else 'item assigned or deleted'
                        elif isinstance(p, _ast.Attribute) and p.value is n:
                            how = None if p.attr in _READS else 'method ' + p.attr
                        elif isinstance(p, _ast.Compare):
                            how = None if n in p.comparators else 'compared'
                        else:
                            how = 'escapes'
                        if how:
                            out.setdefault(q, []).append((n.lineno, how))
            visit(tree, '', None)
    return out, callers, names


def prove_writers(ctx, attr, allowed, what):
    """assigns clause: attribute ``attr`` is changed only in the functions under contract (allowed) and in helpers that are
    called from nowhere else"""
    out, callers, names = attribute_writers(attr)
    ok = set(allowed)

    def fine(q, seen=()):
        if q in ok or q.split(':')[1] in ok:
            return True
        if q in seen:
            return True
        base = q.split('.')[-1].split(':')[-1]
        if base.startswith('__'):
            return False
        cs = [c for c in callers.get(base, ()) if c != q]
        return bool(cs) and all(fine(c, seen + (q,)) for c in cs)
    ctx.prove(what + ':known-attribute', bool(out))
    for q, sites in sorted(out.items()):
        ctx.prove('%s:%s' % (what, q), fine(q), 'changes .%s: %s' % (attr, sites))
