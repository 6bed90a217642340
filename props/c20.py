"""C20: string and array functions satisfy their sequence laws."""
import re
from fractions import Fraction
from pyvc.lib import *  # noqa: F401,F403
import functools
from pyvc.core import PathDone, PyRaise
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.numericalengine import NumericalEngine
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.exceptions import CalculatorException, ExecuteException
from modularcalculator.objects.number import Number

SEARCH_SECONDS = (30, 300)
ASSUMPTIONS = ['operands that are arrays apply row by row (C10); a row is an application to single operands, which is what is specified for the string functions',
               'the arguments an array function is given have passed validation (C15) and, for sort, are in one unit (C06, C08)',
               'the operations are taken as the running installation code registers them (the Computing preset)']
TRUSTED = ['the str methods of Python (lower, upper, strip, lstrip, rstrip, find, replace, split, join, repetition): uninterpreted functions of the text',
           'the text a number is written as (C13): one text per number', 'int() of a number: its integer part (C18)',
           'sorted: a permutation of its input in which no element precedes a strictly smaller one']

_CALC = ModularCalculator('Computing')
P = functools.partial
S_, I_ = z3.StringSort(), z3.IntSort()
_FN = {}


def fn(name, *sorts):
    key = (name, sorts)
    if key not in _FN:
        _FN[key] = z3.Function('str_' + name, *sorts)
    return _FN[key]


def zt(v):
    return v.t if isinstance(v, (Txt, SStr)) else z3.StringVal(v) if isinstance(v, str) else None


TEXTUAL = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'casefold', 'swapcase', 'title', 'capitalize', 'expandtabs', 'zfill', 'removeprefix', 'removesuffix')
WHERE = ('find', 'rfind', 'count')


class Txt(SExt):
    """a text; a slice of one remembers where it lies"""
    pyclass = str

    def __init__(self, t, of=None):
        self.t, self.of = t, of

    def __repr__(self):
        return 'Txt(%s)' % self.t

    def length(self):
        return z3.Length(self.t)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'str':
            return self
        if op == 'len':
            return SInt(self.length())
        if op == 'truth':
            return self.length() > 0
        if op == 'contains' and zt(a[0]) is not None:
            return SBool(fn('find', S_, S_, I_)(self.t, zt(a[0])) >= 0)
        if op == 'getitem' and isinstance(a[0], slice) and a[0].step in (None, 1):
            n = self.length()
            lo = bound(n, a[0].start) if a[0].start is not None else z3.IntVal(0)
            hi = bound(n, a[0].stop) if a[0].stop is not None else n
            hi = z3.If(hi < lo, lo, hi)
            base, off = self.of[:2] if self.of else (self.t, z3.IntVal(0))
            return Txt(z3.SubString(self.t, lo, hi - lo), (base, off + lo, off + hi))
        if op in ('compare', 'rcompare'):
            o, other = a
            z = zt(other)
            if z is None:
                if o in ('Eq', 'NotEq'):
                    return o == 'NotEq'
                M.raise_py(TypeError('texts are not compared with other things'))
            x, y = (self.t, z) if op == 'compare' else (z, self.t)
            return SBool({'Lt': lambda: x < y, 'LtE': lambda: z3.Or(x < y, x == y), 'Gt': lambda: y < x, 'GtE': lambda: z3.Or(y < x, x == y), 'Eq': lambda: x == y, 'NotEq': lambda: x != y}[o]())
        if op in ('binop', 'rbinop'):
            o, other = a
            if o == 'Add' and zt(other) is not None:
                return Txt(z3.Concat(self.t, zt(other)) if op == 'binop' else z3.Concat(zt(other), self.t))
            if o == 'Mult' and isinstance(other, (int, SInt)):
                return Txt(fn('repeat', S_, I_, S_)(self.t, M.to_int(other)))
            if o in ('Add', 'Mult', 'Sub', 'Div'):
                M.raise_py(TypeError('not for a text'))
        if op == 'call':
            return method(it, self.t, a[0], a[1])
        if op == 'instr':
            return method(it, zt(a[1]), a[0], [self] + list(a[2]))
        return NotImplemented


def bound(n, i):
    i = M.to_int(i)
    return z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))


def method(it, s, name, args):
    zs = [zt(a) if zt(a) is not None else M.to_int(a) if isinstance(a, (int, SInt)) and not isinstance(a, bool) else None for a in args]
    if name == 'join' and len(args) == 1:
        return joined(it, Txt(s), args[0])
    if any(z is None for z in zs):
        if name in TEXTUAL + WHERE + ('split',):
            M.raise_py(TypeError('not a text'))
        return NotImplemented
    sorts = [S_] + [z.sort() for z in zs]
    if name == 'strip' and len(zs) == 1:
        return Txt(fn('rstrip', S_, S_, S_)(fn('lstrip', S_, S_, S_)(s, zs[0]), zs[0]))
    if name in TEXTUAL:
        return Txt(fn(name, *sorts, S_)(s, *zs))
    if name in WHERE:
        return SInt(fn(name, *sorts, I_)(s, *zs))
    if name == 'split' and len(zs) == 1:
        if it.ctx.branch(z3.Length(zs[0]) == 0):
            M.raise_py(ValueError('empty separator'))
        n = fn('parts', S_, S_, I_)(s, zs[0])
        it.ctx.assume(n >= 1)
        part = fn('part', S_, S_, I_, S_)
        b = SBase('parts', n, lambda c, i: Txt(part(s, zs[0], i)))
        b.mk_alias = False
        return it.ctx.alloc(SList.of(b))
    return NotImplemented


def joined(it, delim, parts):
    r = Txt(it.ctx.string('joined'))
    r.joined = (delim, parts)
    return r


TEXTKINDS = ['string', 'number', 'boolean']


def operand(ctx, it, name, kinds=TEXTKINDS):
    """any operand that is neither an array nor a failure -> (operand, kind, the text it is written as)"""
    kind = kinds[ctx.choose(len(kinds), 'kind of ' + name)]
    t = ctx.string(name)
    ctx.inputs[name] = t
    if kind == 'string':
        v = Txt(t)
    elif kind == 'number':
        v = mk_number(it, name, cast=[None, {'form': name}][ctx.choose(2, 'form') if name == 'a' else 1])
        it.number_text[id(v)] = (v, Txt(t))
        whole = ctx.int('int(%s)' % name)
        it.whole[id(v)] = (v, SInt(whole))
    elif kind == 'boolean':
        b = ctx.bool(name + ' is true')
        v = SBool(b)
        ctx.assume(t == z3.If(b, z3.StringVal('True'), z3.StringVal('False')))
        it.truths.append((v, Txt(t)))
    unit = SOpaque('unit of ' + name) if kind == 'number' and ctx.choose(2, 'unit of ' + name) else None
    o = ctx.alloc(OperandResult(v, unit, SOpaque('ref of ' + name) if name == 'a' and ctx.choose(2, 'ref of ' + name) else None))
    return o, kind, t


def setup(ctx):
    it = Interp(ctx)
    it.number_text, it.whole, it.truths = {}, {}, []
    it.contracts[OperandResult.to_string] = lambda it_, a, kw: 'an operand'
    it.contracts[NumericalEngine.validate_number] = lambda it_, a, kw: is_number(a[1])
    it.contracts[NumericalEngine.number] = lambda it_, a, kw: a[1]

    def text(it_, a, kw):
        x = it.number_text.get(id(a[0]))
        ctx.prove('text-of-an-operand', x is not None)
        if x is None:
            raise PathDone()
        return x[1]
    it.contracts[Number.to_string] = text

    def whole(it_, a, kw):
        x = it.whole.get(id(a[0]))
        ctx.prove('integer-part-of-an-operand', x is not None)
        if x is None:
            raise PathDone()
        return x[1]
    it.contracts[Number.__int__] = whole

    def to_text(it_, v=''):
        for b, t in it.truths:
            if v is b:
                return t
        return M.to_str(it, v)
    it.overrides[str] = to_text
    it.join_hook = joined
    calc = mk_calc(ctx, validators=_CALC.validators, number_types={}, unit_normaliser=None)
    return it, calc


def what(r):
    return type(r).__name__ + (' ' + str(getattr(r, 'message', ''))[:80] if isinstance(r, Exception) else '')


def call(ctx, it, calc, op, ops):
    before = [(o.value, o.unit, o.ref) for o in ops]
    args = ctx.alloc(list(ops))
    st, r = run(it, op.call, calc, args, ctx.alloc({}))
    ctx.prove('operands-unchanged', all(o.value is b[0] and o.unit is b[1] and o.ref is b[2] for o, b in zip(ops, before)) and len(args) == len(ops) and all(x is y for x, y in zip(args, ops)))
    if st == 'raise':
        ctx.prove('calculator-error', isinstance(r, CalculatorException), type(r).__name__)
    else:
        ctx.prove('an-operand', isinstance(r, OperandResult), type(r).__name__)
    return st, r


def prove_text(ctx, v, want):
    z = zt(v)
    ctx.prove('a-text', z is not None, what(v))
    if z is not None:
        ctx.prove('text', z == want)


def prove_int(ctx, v, want):
    ctx.prove('a-number', is_number(v), what(v))
    if is_number(v):
        ctx.prove('value', z3.And(T(v.num) == z3.ToReal(want), T(v.den) == 1))


def prove_truth(ctx, v, want):
    t = v.t if isinstance(v, SBool) else z3.BoolVal(v) if isinstance(v, bool) else None
    ctx.prove('a-boolean', t is not None, what(v))
    if t is not None:
        ctx.prove('truth', t == want)


def lower(t):
    return fn('lower', S_, S_)(t)


def lt(a, b):
    return a < b


# name -> (operation, operands, what the result must be)
F2 = lambda n: (lambda a, b: fn(n, S_, S_, S_)(a, b))
LAWS = {
    'length': ('f', 1, prove_int, lambda a: z3.Length(a)),
    'lower': ('f', 1, prove_text, lower),
    'upper': ('f', 1, prove_text, lambda a: fn('upper', S_, S_)(a)),
    'lstrip': ('f', 2, prove_text, F2('lstrip')),
    'rstrip': ('f', 2, prove_text, F2('rstrip')),
    'strip': ('f', 2, prove_text, lambda a, b: F2('rstrip')(F2('lstrip')(a, b), b)),
    'find': ('f', 2, prove_int, lambda a, b: fn('find', S_, S_, I_)(a, b)),
    'replace': ('f', 3, prove_text, lambda a, b, c: fn('replace', S_, S_, S_, S_)(a, b, c)),
    '+$': ('o', 2, prove_text, lambda a, b: z3.Concat(a, b)),
}
for _s, _f in (('$', lambda t: t), ('~', lower)):
    LAWS['<' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: f(a) < f(b))
    LAWS['>' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: f(b) < f(a))
    LAWS['<=' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: z3.Or(f(a) < f(b), f(a) == f(b)))
    LAWS['>=' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: z3.Or(f(b) < f(a), f(a) == f(b)))
    LAWS['==' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: f(a) == f(b))
    LAWS['!=' + _s] = ('o', 2, prove_truth, lambda a, b, f=_f: f(a) != f(b))


def op_of(kind, name):
    return _CALC.funcs[name] if kind == 'f' else _CALC.ops_list[name]


def u_text(ctx, name):
    """an operation on the texts its operands are written as"""
    it, calc = setup(ctx)
    kind, arity, prove, law = LAWS[name]
    ops = [operand(ctx, it, 'abc'[i]) for i in range(arity)]
    st, r = call(ctx, it, calc, op_of(kind, name), [o[0] for o in ops])
    ctx.prove('no-error', st == 'ok', what(r))
    if st == 'ok':
        prove(ctx, r.value, law(*[o[2] for o in ops]))
        ctx.prove('no-unit', r.unit is None)
    ctx.cover('/'.join(o[1] for o in ops))


def u_repeat(ctx):
    it, calc = setup(ctx)
    a, b = operand(ctx, it, 'a'), operand(ctx, it, 'b')
    st, r = call(ctx, it, calc, op_of('o', '*$'), [a[0], b[0]])
    if b[1] != 'number':
        ctx.prove('count-must-be-a-number', st == 'raise')
        ctx.cover('error')
        return
    ctx.prove('no-error', st == 'ok')
    if st == 'ok':
        prove_text(ctx, r.value, fn('repeat', S_, I_, S_)(a[2], it.whole[id(b[0].value)][1].t))
    ctx.cover('repeated')


def u_substr(ctx, arity):
    """the characters from the start to the end position, both included; positions before the first count from the end"""
    it, calc = setup(ctx)
    a = operand(ctx, it, 'a')
    ps = [operand(ctx, it, nm) for nm in ('start', 'end')[:arity - 1]]
    st, r = call(ctx, it, calc, op_of('f', 'substr'), [a[0]] + [p[0] for p in ps])
    if any(p[1] != 'number' for p in ps):
        ctx.prove('positions-must-be-numbers', st == 'raise')
        ctx.cover('error')
        return
    ctx.prove('no-error', st == 'ok')
    if st != 'ok':
        return
    n = z3.Length(a[2])
    at = [it.whole[id(p[0].value)][1].t for p in ps]
    first = z3.If(at[0] < 0, at[0] + n, at[0])
    last = z3.If(at[1] < 0, at[1] + n, at[1]) if arity == 3 else n - 1
    first, last = z3.If(first < 0, z3.IntVal(0), first), z3.If(last > n - 1, n - 1, last)
    v = r.value
    ctx.prove('a-text', zt(v) is not None, what(v))
    if zt(v) is None:
        return
    none = first > last
    if isinstance(v, Txt) and v.of is not None and v.of[0].eq(a[2]):
        ctx.prove('nothing-when-the-end-is-before-the-start', z3.Implies(none, v.of[1] >= v.of[2]))
        ctx.prove('from-the-start', z3.Implies(z3.Not(none), v.of[1] == first))
        ctx.prove('to-the-end-included', z3.Implies(z3.Not(none), v.of[2] == last + 1))
    else:
        ctx.prove('the-characters-from-start-to-end', zt(v) == z3.If(none, z3.StringVal(''), z3.SubString(a[2], first, last - first + 1)))
    ctx.cover('characters')


# ------------------------------------------------------------ arrays
def mk_array(ctx, name, mkval=None):
    n = ctx.int('length of ' + name)
    ctx.inputs['length of ' + name] = n
    ctx.assume(n >= 0)

    def mk(c, i):
        e = OperandResult((mkval or (lambda i: SOpaque('value')))(i), SOpaque('unit'), SOpaque('ref'))
        return c.alloc(e)
    b = SBase(name, n, mk)
    b.mk_alias = False
    l = SList.of(b)
    ctx.alloc(l)
    return l, b, n


def direct(ctx, it, calc, name, *vals):
    """the code the installed function runs, on arguments that passed validation"""
    f = _CALC.funcs[name].ref
    chunks = [(v, list(v.chunks)) for v in vals if isinstance(v, SList)]
    args = [calc, ctx.alloc(list(vals)), ctx.alloc([None] * len(vals)), ctx.alloc([None] * len(vals)), ctx.alloc({})]
    serial, log = ctx.serial, []
    ctx.write_logs.append(log)
    try:
        st, r = run(it, f, *args)
    finally:
        ctx.write_logs.remove(log)
    for obj, part in log:
        b = ctx.born.get(id(obj))
        ctx.prove('writes-only-new-objects', b is not None and b[1] is obj and b[0] > serial, 'writes %s of a %s it was given' % (part, type(obj).__name__))
    ctx.prove('arrays-unchanged', all(len(l.chunks) == len(c) and all(x is y for x, y in zip(l.chunks, c)) for l, c in chunks))
    return st, r


def as_list(v):
    return v if isinstance(v, SList) else SList(M.chunks(v)) if isinstance(v, list) else None


def position(ctx, l, name='p'):
    p = ctx.int(name)
    ctx.assume(z3.And(p >= 0, p < l))
    return p


def the_list(ctx, v):
    l = as_list(v)
    ctx.prove('an-array', l is not None, what(v))
    if l is None:
        raise PathDone()
    return l


def u_concat(ctx):
    it, calc = setup(ctx)
    (a, ab, na), (b, bb, nb) = mk_array(ctx, 'a'), mk_array(ctx, 'b')
    st, r = direct(ctx, it, calc, 'concat', a, b)
    ctx.prove('no-error', st == 'ok')
    if st != 'ok':
        return
    l = the_list(ctx, r.value)
    ctx.prove('lengths-add', l.length() == na + nb)
    p = position(ctx, na + nb)
    got = M.get_at(it, l, p)
    if ctx.branch(p < na):
        ctx.prove('the-elements-of-the-first', got is ab.get(ctx, p))
        ctx.cover('first')
    else:
        ctx.prove('then-of-the-second', got is bb.get(ctx, p - na))
        ctx.cover('second')


def u_reverse(ctx):
    it, calc = setup(ctx)
    a, ab, n = mk_array(ctx, 'a')
    st, r = direct(ctx, it, calc, 'reverse', a)
    ctx.prove('no-error', st == 'ok')
    if st != 'ok':
        return
    l = the_list(ctx, r.value)
    ctx.prove('same-length', l.length() == n)
    p = position(ctx, n)
    ctx.prove('mirrored', M.get_at(it, l, p) is ab.get(ctx, z3.simplify(n - 1 - p)))
    ctx.cover('mirrored')


def u_count(ctx):
    it, calc = setup(ctx)
    a, ab, n = mk_array(ctx, 'a')
    st, r = direct(ctx, it, calc, 'count', a)
    ctx.prove('no-error', st == 'ok')
    if st == 'ok':
        prove_int(ctx, r.value, n)
    ctx.cover('counted')


def u_element(ctx):
    it, calc = setup(ctx)
    a, ab, n = mk_array(ctx, 'a')
    i = operand(ctx, it, 'i', ['number'])
    k = it.whole[id(i[0].value)][1].t
    st, r = direct(ctx, it, calc, 'element', a, i[0].value)
    inside = z3.And(k >= 1, k <= n)
    if st == 'raise':
        ctx.prove('error-only-outside', z3.Not(inside))
        ctx.cover('outside')
        return
    ctx.prove('outside-is-an-error', inside)
    e = ab.get(ctx, z3.simplify(k - 1))
    ctx.prove('the-element', r.value is e.value)
    ctx.prove('its-unit', r.unit is e.unit and r.unit_override)
    ctx.prove('its-ref', r.ref is e.ref and r.ref_override)
    ctx.cover('element')


def u_sort(ctx):
    it, calc = setup(ctx)
    vals = z3.Function(ctx.fresh_name('value'), I_, z3.RealSort())
    a, ab, n = mk_array(ctx, 'a', lambda i: SNum(vals(i), 'int', True, (1, 1)))
    st, r = direct(ctx, it, calc, 'sort', a)
    ctx.prove('no-error', st == 'ok')
    if st != 'ok':
        return
    l = the_list(ctx, r.value)
    ctx.prove('same-length', l.length() == n)
    p, q = position(ctx, n), position(ctx, n, 'q')
    ctx.assume(p < q)
    x, y = M.get_at(it, l, p), M.get_at(it, l, q)
    where = [next((i for i, e in ab.memo if e is o), None) for o in (x, y)]
    ctx.prove('elements-of-the-array', all(w is not None for w in where))
    if any(w is None for w in where):
        return
    ctx.prove('each-element-once', where[0] != where[1])
    ctx.prove('ascending', vals(where[0]) <= vals(where[1]))
    ctx.cover('sorted')


class Filter(LoopSpec):
    """after k rounds: the elements so far whose truth holds, in order.  rank(i) = truths before position i"""

    def __init__(self, ctx, ab, truth, rank):
        self.ctx, self.ab, self.truth, self.rank = ctx, ab, truth, rank

    def kept(self, k):
        ctx = self.ctx

        def mk(c, j):
            # the element of rank j: position src(j)
            s = c.int('src')
            c.assume(z3.And(s >= 0, s < k, self.truth(s), self.rank(s) == j))
            self.src.append((j, s))
            return self.ab.get(c, s)
        b = SBase('kept', self.rank(k), mk)
        b.mk_alias = False
        ctx.assume(z3.And(self.rank(k) >= 0, self.rank(k) <= k))
        l = SList.of(b)
        ctx.alloc(l)
        return l, b

    def init(self, it, fr):
        self.names = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        self.src = []
        self.ctx.prove('loop:collects-into-one-array', len(self.names) == 1)
        if len(self.names) != 1:
            raise PathDone()
        self.ctx.assume(self.rank(z3.IntVal(0)) == 0)

    def havoc(self, it, fr, k):
        self.mine, self.base = self.kept(k)
        fr.locals[self.names[0]] = self.mine
        self.k = k

    def step(self, it, fr, k):
        ctx = self.ctx
        l = fr.locals[self.names[0]]
        ctx.prove('loop:same-array', l is self.mine)
        ctx.assume(self.rank(k + 1) == self.rank(k) + z3.If(self.truth(k), 1, 0))
        ch = l.chunks
        if ctx.branch(self.truth(k)):
            ok = ch[0][0] == 'seg' and ch[0][1] is self.base and len(ch) == 2 and ch[1][0] == 'el'
            if not ok and len(ch) == 1 and ch[0][0] == 'el':
                ok = ctx.entails(self.rank(k) == 0)
            ctx.prove('loop:a-true-one-is-added', ok)
            if ok:
                ctx.prove('loop:the-element-at-this-position', ch[-1][1] is self.ab.get(ctx, k))
        else:
            ctx.prove('loop:a-false-one-is-left-out', len(ch) == 1 and ch[0][0] == 'seg' and ch[0][1] is self.base)

    def may_write(self, obj):
        return obj is self.mine


def u_filter(ctx):
    it, calc = setup(ctx)
    it.keep_loops = True
    truth = z3.Function(ctx.fresh_name('truth'), I_, z3.BoolSort())
    rank = z3.Function(ctx.fresh_name('rank'), I_, I_)
    a, ab, na = mk_array(ctx, 'a')
    b, bb, nb = mk_array(ctx, 'truths', lambda i: SBool(truth(i)))
    it.loop_specs.append(lambda it_, node, fr, seq: Filter(ctx, ab, truth, rank))
    st, r = direct(ctx, it, calc, 'filter', a, b)
    if st == 'raise':
        ctx.prove('error-only-beyond-the-array', z3.And(nb > na))
        ctx.cover('more truths than elements')
        return
    l = the_list(ctx, r.value)
    ctx.prove('as-many-as-are-true', l.length() == rank(nb))
    spec_src = ctx.int('kept position')
    ctx.assume(z3.And(spec_src >= 0, spec_src < l.length()))
    got = M.get_at(it, l, spec_src)
    at = [i for i, e in ab.memo if e is got]
    ctx.prove('an-element-of-the-array', len(at) == 1)
    if len(at) == 1:
        ctx.prove('whose-truth-holds', truth(at[0]))
        ctx.prove('in-order', rank(at[0]) == spec_src)
    ctx.cover('kept')


def u_split(ctx):
    it, calc = setup(ctx)
    a, b = operand(ctx, it, 'a'), operand(ctx, it, 'b')
    st, r = call_one(ctx, it, calc, 'split', a, b)
    if st == 'raise':
        ctx.prove('error-only-for-no-delimiter', z3.Length(b[2]) == 0)
        ctx.cover('error')
        return
    ctx.prove('no-delimiter-is-an-error', z3.Length(b[2]) > 0)
    l = the_list(ctx, r.value)
    ctx.prove('as-many-parts', l.length() == fn('parts', S_, S_, I_)(a[2], b[2]))
    p = position(ctx, l.length())
    e = M.get_at(it, l, p)
    ctx.prove('operands', isinstance(e, OperandResult))
    if isinstance(e, OperandResult):
        prove_text(ctx, e.value, fn('part', S_, S_, I_, S_)(a[2], b[2], p))
        ctx.prove('no-unit', e.unit is None)
    ctx.cover('parts')


def call_one(ctx, it, calc, name, *ops):
    return run(it, _CALC.funcs[name].ref, calc, ctx.alloc([o[0].value for o in ops]), ctx.alloc([None] * len(ops)), ctx.alloc([None] * len(ops)), ctx.alloc({}))


def u_join(ctx, arity):
    it, calc = setup(ctx)
    text = z3.Function(ctx.fresh_name('text'), I_, S_)
    kind = TEXTKINDS[ctx.choose(2, 'kind of the elements')]

    def value(i):
        if kind == 'string':
            return Txt(text(i))
        v = mk_number(it, 'element', cast=None)
        it.number_text[id(v)] = (v, Txt(text(i)))
        return v
    a, ab, n = mk_array(ctx, 'a', value)
    d = operand(ctx, it, 'delimiter') if arity == 2 else None
    st, r = direct(ctx, it, calc, 'join', a, *([d[0].value] if d else []))
    ctx.prove('no-error', st == 'ok', what(r))
    if st != 'ok':
        return
    j = getattr(r.value, 'joined', None)
    ctx.prove('a-joined-text', j is not None, what(r.value))
    if j is None:
        return
    ctx.prove('with-the-delimiter', (zt(j[0]) == d[2]) if d else zt(j[0]) == z3.StringVal(''))
    l = the_list(ctx, j[1])
    ctx.prove('as-many-texts', l.length() == n)
    p = position(ctx, n)
    prove_text(ctx, M.get_at(it, l, p), text(p))
    ctx.cover(kind)


# ------------------------------------------------------------ patterns
def regex(ctx, it):
    """re: uninterpreted functions of the pattern and the text"""
    n, occ, found = fn('occurrences', S_, S_, I_), fn('occurrence', S_, S_, I_, S_), fn('found', S_, S_, z3.BoolSort())

    def args(a):
        zs = [zt(x) for x in a]
        if any(z is None for z in zs):
            M.raise_py(TypeError('expected a text'))
        return zs

    def findall(it_, p, s, *rest):
        p, s = args([p, s])
        ctx.assume(n(p, s) >= 0)
        b = SBase('occurrences', n(p, s), lambda c, i: Txt(occ(p, s, i)))
        b.mk_alias = False
        return ctx.alloc(SList.of(b))

    def search(it_, p, s, *rest):
        p, s = args([p, s])
        return SOpaque('match', object, truth=True) if ctx.branch(found(p, s)) else None

    def split(it_, p, s, *rest):
        p, s = args([p, s])
        m = fn('regex parts', S_, S_, I_)(p, s)
        ctx.assume(m >= 1)
        b = SBase('parts', m, lambda c, i: Txt(fn('regex part', S_, S_, I_, S_)(p, s, i)))
        b.mk_alias = False
        return ctx.alloc(SList.of(b))

    def subn(it_, p, r, s, count=0, flags=0):
        p, r, s = args([p, r, s])
        return Txt(fn('regex sub', S_, S_, S_, I_, S_)(p, r, s, M.to_int(count))), SInt(ctx.int('replaced'))
    it.overrides.update({re.findall: findall, re.search: search, re.split: split, re.subn: subn, re.sub: lambda *a, **kw: subn(*a, **kw)[0]})
    return n, occ, found


def u_regex(ctx, name):
    it, calc = setup(ctx)
    n, occ, found = regex(ctx, it)
    a, b = operand(ctx, it, 'a'), operand(ctx, it, 'b')
    s, p = a[2], b[2]
    extra = []
    if name == 'regexsub':
        extra = [operand(ctx, it, 'c')]
        if ctx.choose(2, 'at most') == 1:
            extra.append(operand(ctx, it, 'i', ['number']))
    if name == 'regexget one':
        extra = [operand(ctx, it, 'i', ['number'])]
    one = name == 'regexget one'
    op = op_of('o', name) if name in ('=~', '!~') else op_of('f', name.split()[0])
    if name in ('regexget', 'regexsplit'):
        st, r = run(it, op.ref, calc, ctx.alloc([a[0].value, b[0].value]), ctx.alloc([None] * 2), ctx.alloc([None] * 2), ctx.alloc({}))
    else:
        st, r = call(ctx, it, calc, op, [a[0], b[0]] + [e[0] for e in extra])
    if one:
        k = it.whole[id(extra[0][0].value)][1].t
        inside = z3.And(k >= 1, k <= n(p, s))
        if st == 'raise':
            ctx.prove('error-only-outside', z3.Not(inside))
            ctx.cover('outside')
            return
        ctx.prove('outside-is-an-error', inside)
        prove_text(ctx, r.value, occ(p, s, k - 1))
        ctx.cover('occurrence')
        return
    ctx.prove('no-error', st == 'ok', what(r))
    if st != 'ok':
        return
    if name in ('=~', '!~'):
        prove_truth(ctx, r.value, found(p, s) if name == '=~' else z3.Not(found(p, s)))
    elif name == 'regexcount':
        prove_int(ctx, r.value, n(p, s))
    elif name == 'regexsub':
        prove_text(ctx, r.value, fn('regex sub', S_, S_, S_, I_, S_)(p, extra[0][2], s, it.whole[id(extra[1][0].value)][1].t if len(extra) > 1 else z3.IntVal(0)))
    else:
        l = the_list(ctx, r.value)
        part, m = (occ, n(p, s)) if name == 'regexget' else (fn('regex part', S_, S_, I_, S_), fn('regex parts', S_, S_, I_)(p, s))
        ctx.prove('as-many-texts', l.length() == m)
        if ctx.branch(m > 0):
            i = position(ctx, m)
            e = M.get_at(it, l, i)
            ctx.prove('operands', isinstance(e, OperandResult))
            if isinstance(e, OperandResult):
                prove_text(ctx, e.value, part(p, s, i))
    ctx.cover(name)


UNITS = [(n, P(u_text, name=n), {'max_paths': 6000, 'seconds': 100}) for n in LAWS]
UNITS += [('*$', u_repeat), ('substr to the end', P(u_substr, arity=2)), ('substr', P(u_substr, arity=3), {'max_paths': 4000, 'seconds': 100})]
UNITS += [('concat', u_concat), ('reverse', u_reverse), ('count', u_count), ('element', u_element), ('sort', u_sort), ('filter', u_filter), ('split', u_split)]
UNITS += [('join', P(u_join, arity=1)), ('join with a delimiter', P(u_join, arity=2))]
UNITS += [(n, P(u_regex, name=n), {'max_paths': 4000, 'seconds': 60}) for n in ('=~', '!~', 'regexget', 'regexget one', 'regexcount', 'regexsplit', 'regexsub')]


# ------------------------------------------------------------ search on the real calculator
from pyvc.concrete import calc as fresh, evaluate, shown, table  # noqa: E402

NUMS = {'5': (5, 1), '0': (0, 1), '1': (1, 1), '2': (2, 1), '3': (3, 1), '7': (7, 1), '-1': (-1, 1), '-2': (-2, 1), '-3': (-3, 1), '-9': (-9, 1), '12': (12, 1), '100': (100, 1), '2.5': (5, 2), '1.9': (19, 10), '-0.5': (-1, 2), '0xAB': (171, 1), '0b101': (5, 1),
        '50%': (1, 2), '0o17': (15, 1)}
BIG = {'100000000000000000000': (10**20, 1), '100000000000000000001': (10**20 + 1, 1), '99999999999999999999': (10**20 - 1, 1), '0.1': (1, 10), '0.10000000000000000000000001': (10**25 + 1, 10**26),
       '1.5': (3, 2), '1.5000000000000000000000001': (15 * 10**24 + 1, 10**25), '-3': (-3, 1), '-10': (-10, 1), '9': (9, 1), '10': (10, 1)}
METERS = {'5 meters': 5, '12 meters': 12, '-2 meters': -2, '3 meters': 3}
STRINGS = ['', 'a', 'b', 'ab', 'aba', 'abcabc', 'Hello', 'hello', 'HELLO', ' x ', 'xxAxx', 'a,b,,c', ',', ',,', 'b', '-', '5', '10', '9', '05', 'Z', 'z', 'aaaa', 'aa', 'the quick brown fox', '\u00e9\u00c9', '\u00df', 'ss', 'SS', '\u0130', 'x']
ERR = 'ERR'


class Skip(Exception):
    pass


class Wrong(Exception):
    pass


def v_str(t):
    return ('s', t)


def v_int(n):
    return ('n', Fraction(n), str(n), str(n))


def v_bool(b):
    return ('b', b)


def leaf(x):
    if x[0] == 's':
        return v_str(x[1])
    if x[0] == 'n':
        return ('n', Fraction(*(NUMS.get(x[1]) or BIG[x[1]])), x[1], x[1])
    if x[0] == 'm':
        return ('n', Fraction(METERS[x[1]]), x[1].split()[0], x[1])
    if x[0] == 'b':
        return v_bool(x[1] == 'true')
    return [leaf(y) for y in x[1]]


def quoted(t):
    return "'" + t + "'"


def src(x, names=None):
    if names is not None and id(x) in names:
        return names[id(x)]
    k = x[0]
    if k == 's':
        return quoted(x[1])
    if k in 'nmb':
        return x[1]
    if k == 'l':
        return '[' + ', '.join(src(y) for y in x[1]) + ']'
    if k == 'f':
        return '%s(%s)' % (x[1], ', '.join(src(y, names) for y in x[2]))
    return '(%s %s %s)' % tuple(y if isinstance(y, str) else '(%s)' % src(y, names) if y[0] == 'm' else src(y, names) for y in (x[2], x[1], x[3]))


def text(v):
    if isinstance(v, list):
        raise Skip()
    return v[1] if v[0] == 's' else v[2] if v[0] == 'n' else ('True' if v[1] else 'False')


def number(v):
    if isinstance(v, list):
        raise Skip()
    if v[0] == 'n':
        return v[1]
    if v[0] == 's':
        if re.fullmatch(r'-?[0-9]+', v[1]):
            return Fraction(int(v[1]))
        if not re.search('[0-9]', v[1]) and v[1] not in ('True', 'False', 'true', 'false'):
            raise Wrong()
    raise Skip()


def whole(v):
    n = number(v)
    return int(n) if n >= 0 else -int(-n)


def positions(t, s):
    return [i for i in range(len(t) - len(s) + 1) if all(t[i + j] == s[j] for j in range(len(s)))]


def cut(t, a, b=None):
    n = len(t)
    first = a if a >= 0 else n + a
    last = n - 1 if b is None else b if b >= 0 else n + b
    return ''.join(ch for i, ch in enumerate(t) if first <= i <= last)


def pieces(t, d):
    if not d:
        raise Wrong()
    out, cur, i = [], '', 0
    while i < len(t):
        if t[i:i + len(d)] == d:
            out.append(cur)
            cur, i = '', i + len(d)
        else:
            cur, i = cur + t[i], i + 1
    return out + [cur]


def swap(t, a, b):
    if a == '':
        return b + ''.join(ch + b for ch in t)
    out = ''
    for i, p in enumerate(pieces(t, a)):
        out += (b if i else '') + p
    return out


def trim(t, cs, left=True, right=True):
    while left and t and t[0] in cs:
        t = t[1:]
    while right and t and t[-1] in cs:
        t = t[:-1]
    return t


def cmp(op, a, b):
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]


T1 = {'length': lambda t: v_int(len(t)), 'lower': lambda t: v_str(t.lower()), 'upper': lambda t: v_str(t.upper())}
T2 = {'lstrip': lambda t, c: v_str(trim(t, c, True, False)), 'rstrip': lambda t, c: v_str(trim(t, c, False, True)), 'strip': lambda t, c: v_str(trim(t, c)), 'find': lambda t, s: v_int((positions(t, s) + [-1])[0]),
      '+$': lambda a, b: v_str(a + b), 'split': lambda t, d: [v_str(p) for p in pieces(t, d)]}
for _o in ('<', '>', '<=', '>=', '==', '!='):
    T2[_o + '$'] = lambda a, b, o=_o: v_bool(cmp(o, a, b))
    T2[_o + '~'] = lambda a, b, o=_o: v_bool(cmp(o, a.lower(), b.lower()))
PATTERNS = ['a', 'b+', '[a-z]', '[A-Z]+', 'x', '^a', 'c$', ',', '.', '[0-9]']
R2 = {'=~': lambda t, p: v_bool(re.search(p, t) is not None), '!~': lambda t, p: v_bool(re.search(p, t) is None), 'regexget': lambda t, p: [v_str(x) for x in re.findall(p, t)], 'regexcount': lambda t, p: v_int(len(re.findall(p, t))),
      'regexsplit': lambda t, p: [v_str(x) for x in re.split(p, t)]}


def rows(f, args, keep=()):
    n = {len(a) for i, a in enumerate(args) if isinstance(a, list) and i not in keep}
    if not n:
        return f(*args)
    if len(n) > 1:
        raise Wrong()
    out = []
    for i in range(n.pop()):
        try:
            out.append(rows(f, [a[i] if isinstance(a, list) and j not in keep else a for j, a in enumerate(args)], keep))
        except Wrong:
            raise Skip()
    return out


def need_list(a):
    if not isinstance(a, list):
        raise Wrong()
    return a


def unit_of(v):
    return v[3].split()[1] if v[0] == 'n' and ' ' in v[3] else None


def element(a, i):
    k = whole(i)
    if not 1 <= k <= len(need_list(a)):
        raise Wrong()
    return a[k - 1]


def apply(name, args, top):
    if name in T1:
        return rows(lambda a: T1[name](text(a)), args)
    if name in T2:
        return rows(lambda a, b: T2[name](text(a), text(b)), args)
    if name in R2:
        return rows(lambda a, b: R2[name](text(a), text(b)), args)
    if name == 'replace':
        return rows(lambda a, b, c: v_str(swap(text(a), text(b), text(c))), args)
    if name == 'substr':
        return rows(lambda a, *ps: v_str(cut(text(a), *[whole(p) for p in ps])), args)
    if name == '*$':
        return rows(lambda a, n: v_str(''.join(text(a) for _ in range(whole(n)))), args)
    if name == 'regexone':
        return rows(lambda t, p, i: element([v_str(x) for x in re.findall(text(p), text(t))], i), args)
    if name == 'join':
        return rows(lambda a, d: v_str(''.join((text(d) if i else '') + text(x) for i, x in enumerate(need_list(a)))), args + [v_str('')] * (2 - len(args)), keep=(0,))
    if name == 'concat':
        return need_list(args[0]) + need_list(args[1])
    if name == 'count':
        return v_int(len(need_list(args[0])))
    if name == 'reverse':
        a = need_list(args[0])
        return [a[len(a) - 1 - i] for i in range(len(a))]
    if name == 'element':
        return rows(element, args, keep=(0,))
    if name == 'filter':
        a, b = need_list(args[0]), need_list(args[1])
        if not all(not isinstance(x, list) and x[0] == 'b' for x in b):
            raise Wrong()
        if any(x[1] for x in b[len(a):]):
            raise Wrong()
        return [x for i, x in enumerate(a) if i < len(b) and b[i][1]]
    if name == 'sort':
        a = need_list(args[0])
        if any(isinstance(x, list) for x in a):
            raise Skip()
        if len({unit_of(x) for x in a}) > 1:
            raise Skip()
        ks = [number(x) for x in a]
        out = []
        for _k, x in sorted(zip(ks, range(len(a)))):
            out.append(a[x])
        if not top and len(set(ks)) < len(ks):
            raise Skip()
        return out
    raise KeyError(name)


def arrays_in(x):
    if x[0] in 'snmb':
        return False
    return x[0] == 'l' or x[1] in ('split', 'regexget', 'regexsplit') or any(arrays_in(y) for y in (x[2] if x[0] == 'f' else x[2:]))


def model(x, top=True):
    if x[0] in 'snmbl':
        return leaf(x)
    try:
        args = [model(y, False) for y in (x[2] if x[0] == 'f' else x[2:])]
    except Wrong:
        if arrays_in(x):
            raise Skip()        # a failing operand next to an array: one failure in each row (C10)
        raise
    return apply(x[1], args, top)


def want_of(v, c):
    if isinstance(v, list):
        return ('list', tuple(want_of(x, c) for x in v), None)
    if v[0] == 's':
        return ('str', v[1], None)
    if v[0] == 'b':
        return ('bool', str(v[1]), None)
    return lit(v[3])


_LIT = {}


def lit(t):
    if t not in _LIT:
        st, r = evaluate(t, c=fresh())
        _LIT[t] = shown(r.value, r.unit)
    return _LIT[t]


def leaves(x):
    if x[0] in 'snmbl':
        return [x]
    return [z for y in (x[2] if x[0] == 'f' else x[2:]) for z in leaves(y)]


def k_sequence(tree, stored):
    """an expression of string and array functions has the value of its sequence law; stored arguments stay as they were"""
    c = fresh()
    names = {}
    if stored:
        for i, x in enumerate(leaves(tree)):
            if x[0] == 'b':
                continue
            nm = 'v' + 'abcdefghijklmnopqrstuvwxyz'[i % 26] + 'q' * (i // 26)
            st, _r = evaluate('%s = %s' % (nm, src(x)), c=c) if x[0] != 'l' or x[1] else ('error', None)
            if st == 'ok':
                names[id(x)] = nm
    before = table(c)
    try:
        want = model(tree)
    except Skip:
        return None
    except Wrong:
        want = ERR
    s = src(tree, names).replace('regexone(', 'regexget(')
    st, r = evaluate(s, c=c)
    got = shown(r.value, r.unit, c) if st == 'ok' else ERR
    if got != ERR and got[0] == 'error':
        got = ERR
    after = table(c)
    w = ERR if want == ERR else want_of(want, c)
    where = ' where ' + ', '.join('%s = %s' % (names[id(x)], src(x)) for x in leaves(tree) if id(x) in names) if names else ''
    if got != w and tree[:2] == ['f', 'sort'] and w != ERR and got[0] == 'list':
        # equal elements in any order
        key = lambda e: (str(e[1]) if e[0] != 'number' else Fraction(e[1], e[2]).limit_denominator(10**9).__str__())
        same = sorted(map(str, got[1])) == sorted(map(str, w[1])) and [key(e) for e in got[1]] == [key(e) for e in w[1]]
        if same:
            got = w
    if got != w:
        return '%s%s is %s; expected %s' % (s, where, str(r)[:200] if st != 'ok' else got, w)
    if after != before:
        return 'evaluating %s%s changed a stored argument' % (s, where)
    return None


KINDS = {'sequence': k_sequence}


def g_text(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.25:
        y = rng.random()
        return ['s', rng.choice(STRINGS)] if y < 0.75 else ['n', rng.choice(sorted(NUMS))] if y < 0.9 else ['m', rng.choice(sorted(METERS))] if y < 0.95 else ['b', rng.choice(['true', 'false'])]
    if x < 0.3:
        return g_list(rng, d - 1)
    if x < 0.35:
        n, piece = rng.choice([30, 30, 60, 300]), rng.choice(['a', 'b', 'ab', 'a,', ',', 'x ', '\u00df'])
        return ['s', ''.join(rng.choice('abAB ,x') for _ in range(rng.randint(0, n)))] if rng.random() < 0.7 else ['s', piece * rng.randint(5, n)]
    k = rng.choice(['lower', 'upper', 'lstrip', 'rstrip', 'strip', 'replace', 'substr', 'substr', '+$', '*$', 'join', 'element', 'regexone'])
    if k in ('+$',):
        return ['o', k, g_text(rng, d - 1), g_text(rng, d - 1)]
    if k == '*$':
        return ['o', k, g_text(rng, d - 1), g_num(rng, 0)]
    if k == 'substr':
        return ['f', k, [g_text(rng, d - 1)] + [g_num(rng, d - 1) for _ in range(rng.randint(1, 2))]]
    if k == 'replace':
        return ['f', k, [g_text(rng, d - 1), g_text(rng, d - 2), g_text(rng, d - 2)]]
    if k in ('lstrip', 'rstrip', 'strip'):
        return ['f', k, [g_text(rng, d - 1), g_text(rng, d - 2)]]
    if k == 'join':
        return ['f', k, [g_list(rng, d - 1)] + [g_text(rng, d - 2)][:rng.randint(0, 1)]]
    if k == 'element':
        return ['f', k, [g_list(rng, d - 1), g_num(rng, d - 1, PLAIN)]]
    if k == 'regexone':
        return ['f', k, [g_text(rng, d - 1), ['s', rng.choice(PATTERNS)], g_num(rng, 0)]]
    return ['f', k, [g_text(rng, d - 1)]]


PLAIN = sorted(n for n in NUMS if not set(n) & set('xbo%'))


def g_num(rng, d, of=None):
    x = rng.random()
    if d <= 0 or x < 0.6:
        return ['n', rng.choice(of or sorted(NUMS))] if of or rng.random() < 0.85 else ['s', rng.choice(['5', '2', '-1', 'a'])]
    if x < 0.75:
        return ['f', 'length', [g_text(rng, d - 1)]]
    if x < 0.85:
        return ['f', 'count', [g_list(rng, d - 1)]]
    if x < 0.9:
        return ['f', 'regexcount', [g_text(rng, d - 1), ['s', rng.choice(PATTERNS)]]]
    return ['f', 'find', [g_text(rng, d - 1), g_text(rng, d - 2)]]


def g_bool(rng, d):
    if d <= 0 or rng.random() < 0.3:
        return ['b', rng.choice(['true', 'false'])]
    if rng.random() < 0.2:
        return ['o', rng.choice(['=~', '!~']), g_text(rng, d - 1), ['s', rng.choice(PATTERNS)]]
    return ['o', rng.choice(['<', '>', '<=', '>=', '==', '!=']) + rng.choice('$~'), g_text(rng, d - 1), g_text(rng, d - 1)]


def g_list(rng, d, kind=None):
    x = rng.random()
    if d <= 0 or x < 0.35:
        kind = kind or rng.choice(['s', 'n', 'm', 'mix', 'mix', 'nested'])
        n = rng.choice([1, 1, 2, 3, 3, 4, 5, 9, 40])
        if kind == 'big':
            return ['l', [['n', rng.choice(sorted(BIG))] for _ in range(n)]]
        if kind == 'nested':
            return ['l', [g_list(rng, 0, 'mix') for _ in range(rng.randint(1, 3))]]
        return ['l', [['s', rng.choice(STRINGS)] if k == 's' else ['n', rng.choice(sorted(NUMS))] if k == 'n' else ['m', rng.choice(sorted(METERS))] for k in [rng.choice('snm') if kind == 'mix' else kind for _ in range(n)]]]
    k = rng.choice(['concat', 'reverse', 'sort', 'filter', 'split', 'regexget', 'regexsplit', 'upper', 'substr'])
    if k == 'concat':
        return ['f', k, [g_list(rng, d - 1), g_list(rng, d - 1)]]
    if k == 'filter':
        a = g_list(rng, d - 1)
        n = len(a[1]) if a[0] == 'l' else rng.randint(1, 4)
        n += rng.choice([0, 0, 0, 1, -1])
        return ['f', k, [a, ['l', [['b', rng.choice(['true', 'false'])] for _ in range(max(1, n))]] if rng.random() < 0.8 else ['o', '<$', g_list(rng, 0), g_text(rng, 0)]]]
    if k == 'split':
        return ['f', k, [g_text(rng, d - 1), ['s', rng.choice([',', ',,', 'a', 'b', ' ', 'ab', '', 'x'])]]]
    if k in ('regexget', 'regexsplit'):
        return ['f', k, [g_text(rng, d - 1), ['s', rng.choice(PATTERNS)]]]
    if k == 'sort':
        return ['f', k, [g_list(rng, d - 1, rng.choice(['n', 'n', 'm', 'big']))]]
    if k == 'substr':
        return ['f', k, [g_list(rng, d - 1), g_num(rng, 0)]]
    return ['f', k, [g_list(rng, d - 1)]]


def search(S):
    rng = S.rng
    for t in STRINGS:
        for n in ('length', 'lower', 'upper'):
            S.run('sequence', ['f', n, [['s', t]]], False)
    for t in ('', 'a', 'abcabc', 'Hello'):
        for a in ('0', '1', '2', '-1', '-3', '-9', '7', '100', '1.9', '-0.5'):
            S.run('sequence', ['f', 'substr', [['s', t], ['n', a]]], False)
            for b in ('0', '1', '-1', '-2', '-9', '5', '100', '2.5'):
                S.run('sequence', ['f', 'substr', [['s', t], ['n', a], ['n', b]]], False)
    for a in ['5', '0xAB', '100', '2.5']:
        for b in ['5', '0', '0xAB', 'A', 'b']:
            y = ['n', b] if b in NUMS else ['s', b]
            for n in ('lstrip', 'rstrip', 'strip', 'find', 'split', '+$', '<$', '==~'):
                S.run('sequence', ['f', n, [['n', a], y]] if n[0].isalpha() else ['o', n, ['n', a], y], False)
    for d in ([], [['n', '5']], [['s', '-']], [['b', 'true']]):
        S.run('sequence', ['f', 'join', [['l', [['s', 'a'], ['n', '0xAB'], ['b', 'true'], ['m', '5 meters']]]] + d], False)
    for op in ('<', '>', '<=', '>=', '==', '!='):
        for s in '$~':
            for a in ('a', 'A', 'ab', '', 'Z', '\u00e9\u00c9', '10', '9', '\u00df', '_'):
                for b in ('a', 'A', 'b', '', 'z', '\u00e9\u00c9', '9', 'ss', 'Q'):
                    S.run('sequence', ['o', op + s, ['s', a], ['s', b]], False)
    for n in ('0', '-1', '1', '3', '7', '1.9', '100'):
        for st in (False, True):
            S.run('sequence', ['f', 'element', [['l', [['s', 'a'], ['m', '5 meters'], ['n', '0xAB']]], ['n', n]]], st)
            S.run('sequence', ['f', 'regexone', [['s', 'a1b2a3'], ['s', '[0-9]'], ['n', n]]], st)
    for n in (64, 99, 101, 130, 257, 1030):
        for p, q in (('a', 'b'), ('a,', ','), ('ab', 'x')):
            t = ['s', p * n]
            S.run('sequence', ['f', 'replace', [t, ['s', p[-1]], ['s', 'xy']]], False)
            S.run('sequence', ['f', 'split', [t, ['s', p[-1]]]], False)
            S.run('sequence', ['f', 'regexsplit', [t, ['s', p[-1]]]], False)
            S.run('sequence', ['f', 'regexget', [t, ['s', p[0]]]], False)
            S.run('sequence', ['f', 'lower', [t]], False)
            S.run('sequence', ['f', 'strip', [t, ['s', p]]], False)
            S.run('sequence', ['o', '*$', ['s', p], ['n', str(n)]], False) if str(n) in NUMS else None
            S.run('sequence', ['f', 'count', [['f', 'concat', [['f', 'split', [t, ['s', p[-1]]]], ['f', 'split', [t, ['s', p[0]]]]]]]], False)
    for a in sorted(BIG):
        for b in sorted(BIG):
            S.run('sequence', ['f', 'sort', [['l', [['n', a], ['n', b]]]]], False)
            S.run('sequence', ['f', 'sort', [['l', [['n', a], ['n', b], ['n', '9'], ['n', a]]]]], True)
    while S.time_left():
        d = rng.randint(1, 4)
        g = rng.choice([g_text, g_list, g_list, g_num, g_bool])
        S.run('sequence', g(rng, d), rng.random() < 0.4)
