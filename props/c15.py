"""C15: an operation only runs on arguments that satisfy its declared restrictions."""
from pyvc.lib import *  # noqa: F401,F403
from fractions import Fraction
import os
import re
from pyvc.lib import attribute_writers, _REPO
from pyvc.core import PathDone, PyRaise, Undecided
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.units import UnitPowerList
from modularcalculator.engine import Engine
from modularcalculator.numericalengine import NumericalEngine
from modularcalculator.features.arrays.arrays import ArraysFeature
from modularcalculator.features.units.units import UnitsFeature
from modularcalculator.features.state.assignment import AssignmentFeature, VariableItem
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import Operation, OperationResult
from modularcalculator.objects.exceptions import CalculatorException, ExecuteException

ASSUMPTIONS = ['a validator answers the same for the same type and value whenever it is asked (validators are pure)',
               'fromparam and toparam of a restriction are natural numbers or, for toparam, None; a restriction lists at least one type']
TRUSTED = ['regular expression matching of declared types (re, run natively on the types enumerated)']
OP = 'the-operation'


def names_op(e):
    """the message of an error begins with the operation's name or mentions it"""
    m = e.message
    if isinstance(m, str):
        return OP in m
    return any(isinstance(p, str) and OP in p for p in getattr(m, 'parts', []))


def mk_op(ctx, **attrs):
    op = Operation.__new__(Operation)
    op.name = OP
    op.value_restrictions, op.unit_restrictions = [], []
    op.minparams = op.maxparams = None
    op.units_relative, op.units_multi, op.units_normalise = (SBool(ctx.bool(x)) for x in ('relative', 'multi', 'normalise'))
    op.inputs_can_be_exceptions = SBool(ctx.bool('exceptions allowed'))
    op.auto_convert_numerical_inputs = SBool(ctx.bool('convert inputs'))
    op.auto_convert_numerical_result = SBool(ctx.bool('convert result'))
    op.__dict__.update(attrs)
    ctx.alloc(op)
    return op


def restrictions(ctx, name, what, lists, keyless=True):
    """an arbitrary list of restrictions; lists(ctx, name) makes the types or dimensions"""
    n = ctx.int('n_' + name)
    ctx.assume(n >= 0)

    def mk(c, i):
        nm = c.fresh_name(name)
        f = c.int(nm + '.from')
        c.assume(f >= 0)
        d = {'fromparam': SInt(f)}
        k = c.choose(3 if keyless else 2, 'toparam of ' + nm) + (not keyless)
        if k == 1:
            d['toparam'] = None
        elif k == 2:
            t = c.int(nm + '.to')
            c.assume(t >= 0)
            d['toparam'] = SInt(t)
        d[what] = lists(c, nm)
        c.alloc(d)
        return d
    b = SBase(name, n, mk)
    b.mk_alias = False
    return b


def covers(ctx, d, p):
    t = [d['fromparam'].t <= p]
    if d.get('toparam') is not None:
        t.append(p <= d['toparam'].t)
    return z3.And(t)


def opaque_list(ctx, name, cls=object):
    n = ctx.int('n_' + name)
    ctx.assume(n >= 0)
    b = SBase(name, n, lambda c, i: SOpaque(c.fresh_name(name), cls))
    b.mk_alias = False
    l = SList.of(b)
    ctx.alloc(l)
    return l, b


def limit(ctx, name):
    if ctx.choose(2, name + ' given') == 0:
        return None
    return SInt(ctx.int(name))


def u_validate(ctx):
    it = Interp(ctx)
    n = ctx.int('arguments')
    ctx.assume(n >= 0)
    vals, units, refs = [], [], []
    for l, nm in ((vals, 'value'), (units, 'unit'), (refs, 'ref')):
        b = SBase(nm, n, lambda c, i, nm=nm: SOpaque(nm))
        b.mk_alias = False
        l.append(b)
        l.append(SList.of(b))
        ctx.alloc(l[1])

    def types(c, nm):
        m = c.int('n_types')
        c.assume(m >= 1)
        b = SBase('the types', m, lambda c2, i: SOpaque('type', str))
        b.mk_alias = False
        l = SList.of(b)
        c.alloc(l)
        return l
    rb = restrictions(ctx, 'restriction', 'objtypes', types)
    ub = restrictions(ctx, 'unit restriction', 'dimensions', lambda c, nm: c.alloc(['dimension', SInt(c.int('power'))]))
    vr, ur = SList.of(rb), SList.of(ub)
    op = mk_op(ctx, value_restrictions=vr, unit_restrictions=ur, minparams=limit(ctx, 'minparams'), maxparams=limit(ctx, 'maxparams'))
    for x in (vr, ur):
        ctx.alloc(x)
    r, p, q = ctx.int('r'), ctx.int('p'), ctx.int('q')
    ctx.assume(z3.And(r >= 0, p >= 0, q >= 0))
    it.index_skolems += [([rb, ub], False, r), ([vals[0], units[0], refs[0]], True, p), (['the types'], False, q)]
    asked, measured = [], []

    def accepts(it_, args, kw):
        t, c, v, u, f = (list(args) + [kw.get(k) for k in ('obj_type', 'calculator', 'value', 'unit', 'ref')[len(args) - 1:]])[1:6]
        i = where(v, vals[0])
        ctx.prove('type-checked-on-one-argument', c is calc and i is not None and u is units[0].get(ctx, i) and f is refs[0].get(ctx, i))
        for t0, v0, ok in asked:
            if t0 is t and v0 is v:
                return ok
        ok = bool(ctx.choose(2, 'accepts'))
        asked.append((t, v, ok))
        return ok

    def where(o, b):
        for j, x in b.memo:
            if x is o:
                return j
        return None
    it.contracts[Operation.validate_input] = accepts

    class Dims(SExt):
        def sx(self, it_, o, *a):
            if o == 'call' and a[0] == 'check_unit_dimensions':
                u, d = a[1][:2]
                i = where(u, units[0])
                ctx.prove('dimensions-checked-on-one-argument', i is not None)
                for u0, d0, ok in measured:
                    if u0 is u and d0 is d:
                        return ok
                ok = bool(ctx.choose(2, 'dimensions'))
                measured.append((u, d, ok))
                return ok
            return NotImplemented
    calc = mk_calc(ctx, unit_normaliser=Dims())
    it.overrides[str.join] = lambda it_, sep, xs: 'the types'
    st, e = run(it, Operation.validate, op, calc, vals[1], units[1], refs[1])
    ctx.prove('arguments-unchanged', all(len(x[1].chunks) == 1 and x[1].chunks[0][1] is x[0] for x in (vals, units, refs)))
    few = op.minparams is not None and ctx.branch(n < op.minparams.t)
    many = op.maxparams is not None and ctx.branch(n > op.maxparams.t)
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(e, CalculatorException), repr(e))
        ctx.prove('raise:names-the-operation', isinstance(e, CalculatorException) and names_op(e), repr(e))
        if few or many:
            ctx.cover('count')
            return
        # some covered argument is of none of the types, or of other dimensions
        if measured and not measured[-1][2]:
            u, d, _ok = measured[-1]
            i = where(u, units[0])
            x = [y for _j, y in ub.memo if y['dimensions'] is d]
            ctx.prove('raise:other-dimensions-than-declared', bool(x) and ctx.entails(covers(ctx, x[0], i)))
            ctx.cover('dimensions')
            return
        ctx.prove('raise:for-an-argument', bool(rb.memo))
        if rb.memo:
            x = rb.memo[-1][1]
            tb = x['objtypes'].chunks[0][1]
            ctx.assume(q < tb.n)
            i = [j for j, o in vals[0].memo]
            ctx.prove('raise:of-a-covered-argument', any(ctx.entails(z3.And(j >= 0, j < n, covers(ctx, x, j))) for j in i))
            # whatever type of the restriction is looked at, it was refused
            t = tb.get(ctx, q)
            ctx.prove('raise:none-of-the-types', any(t0 is t and not ok for t0, v, ok in asked))
            ctx.cover('types')
        return
    ctx.prove('return:enough-arguments', not few)
    ctx.prove('return:not-too-many-arguments', not many)
    ctx.assume(p < n)
    if ctx.branch(r < rb.n):
        x = rb.get(ctx, r)
        if ctx.branch(covers(ctx, x, p)):
            v = vals[0].get(ctx, p)
            ts = [o for _j, o in x['objtypes'].chunks[0][1].memo]
            ctx.prove('return:every-covered-argument-is-of-a-declared-type', any(v0 is v and ok and any(t is t0 for t in ts) for t0, v0, ok in asked))
            ctx.cover('typed')
    if ctx.branch(r < ub.n):
        x = ub.get(ctx, r)
        if ctx.branch(covers(ctx, x, p)):
            u = units[0].get(ctx, p)
            ctx.prove('return:every-covered-argument-has-the-dimensions', any(u0 is u and d is x['dimensions'] and ok for u0, d, ok in measured))
            ctx.cover('measured')
    ctx.cover('return')



# ------------------------------------------------------------ one declared type
DECLARED = [None, 'number', 'array', 'other', 'array[number]', 'array[other]', 'other[number]']


def u_validate_input(ctx):
    it = Interp(ctx)
    t = DECLARED[ctx.choose(len(DECLARED), 'type')]
    asked = []

    def mk(name):
        def fn(it_, *a, **kw):
            ok = SBool(ctx.bool(name))
            asked.append((name, a, kw, ok))
            return ok
        return Stub(fn)
    validators = {'number': mk('number'), 'array': mk('array')}
    calc = mk_calc(ctx, validators=validators)
    v, u, f = SOpaque('value'), SOpaque('unit'), SOpaque('ref')
    st, r = run(it, Operation.validate_input, mk_op(ctx), t, calc, v, u, f)
    main, _, sub = (t or '').partition('[')
    sub = sub[:-1]
    for name, a, kw, _ok in asked:
        ctx.prove('validator-of-that-type-on-that-value', name == main and tuple(a[:4]) == (calc, v, u, f) and
                  (list(a[4:]) + list(kw.values()) == ([sub] if sub else []) or not sub and list(a[4:]) + list(kw.values()) == [None]))
    if t is None:
        ctx.prove('no-type:anything', st == 'ok' and r is True and not asked)
        ctx.cover('none')
    elif main not in validators:
        ctx.prove('unknown-type:nothing', st == 'raise' or r is False or r is None)
        ctx.cover('unknown')
    else:
        ctx.prove('known-type:returns', st == 'ok' and len(asked) == 1)
        if asked:
            got = it.truth(r)
            ctx.prove('known-type:what-the-validator-says', asked[0][3].t == got if isinstance(got, bool) else asked[0][3].t == got.t)
        ctx.cover('known')


LISTS = [['number'], ['array'], ['array[number]'], ['number', 'array'], ['array[number]', 'array[other]'], [None], ['variable'], ['other', 'variable', 'array']]


def parts(t):
    m = re.fullmatch(r'(.+)\[(.+)\]', t) if t is not None else None
    return m.groups() if m else (t, None)


def type_lists(c, nm, lists=LISTS):
    return c.alloc(list(lists[c.choose(len(lists), 'types of ' + nm)]))


def u_can(ctx, must, t=None):
    """input_can_be_type, input_must_be_type for an arbitrary declaration"""
    it = Interp(ctx)
    rb = restrictions(ctx, 'restriction', 'objtypes', (lambda c, nm: type_lists(c, nm, LISTS[:5])) if must else type_lists, not must)
    vr = SList.of(rb)
    ctx.alloc(vr)
    op = mk_op(ctx, value_restrictions=vr)
    i, r = ctx.int('i'), ctx.int('r')
    ctx.assume(z3.And(i >= 0, r >= 0))
    it.index_skolems.append(([rb], False, r))
    t = t or ['number', 'array', 'variable'][ctx.choose(3, 'type')]
    sub = [None, 'number'][ctx.choose(2, 'subtype')]

    def fits(types):
        ps = [parts(x) for x in types]
        if must:
            return len(ps) == 1 and ps[0][0] == t and (sub is None or ps[0][1] == sub)
        return t in [p[0] for p in ps] and (sub is None or sub in [p[1] for p in ps])
    if must:
        it.loop_specs.append(lambda it_, node, fr, seq: Found(ctx, rb, i, r, fits) if isinstance(seq, SList) and seq.chunks[0][1] is rb else None)
    args = [SInt(i), t] + ([sub] if sub else [])
    st, got = run(it, Operation.input_must_be_type if must else Operation.input_can_be_type, op, *args)
    ctx.prove('returns', st == 'ok', repr(got))
    if st != 'ok':
        return
    got = it.truth(got)
    if isinstance(got, SBool):
        got = ctx.branch(got.t)
    some = [(j, x) for j, x in rb.memo]

    def witness(ok):
        return any(ctx.entails(z3.And(j >= 0, j < rb.n, covers(ctx, x, i))) and ok(x['objtypes']) for j, x in some)
    if must and got:
        ctx.prove('yes:something-is-declared', witness(lambda ts: True))
        if ctx.branch(r < rb.n):
            x = rb.get(ctx, r)
            if ctx.branch(covers(ctx, x, i)):
                ctx.prove('yes:whatever-covers-the-parameter-is-that-type-alone', fits(x['objtypes']))
                ctx.cover('all')
        ctx.cover('yes')
    elif got:
        ctx.prove('yes:some-declaration-allows-it', witness(fits))
        ctx.cover('yes')
    else:
        if ctx.branch(r < rb.n):
            x = rb.get(ctx, r)
            if ctx.branch(covers(ctx, x, i)):
                if must:
                    ctx.prove('no:some-declaration-differs', witness(lambda ts: not fits(ts)))
                else:
                    ctx.prove('no:no-declaration-allows-it', not fits(x['objtypes']))
                ctx.cover('some')
        ctx.cover('no')


class Found(LoopSpec):
    """after k declarations: found <=> one of them covers the parameter; each one that does is of that type alone"""

    def __init__(self, ctx, rb, i, r, fits):
        self.ctx, self.rb, self.i, self.r, self.fits = ctx, rb, i, r, fits

    def init(self, it, fr):
        self.names = [n for n, v in fr.locals.items() if type(v) is bool]
        self.ctx.prove('loop:one-flag-false-at-first', len(self.names) == 1 and fr.locals[self.names[0]] is False)
        if len(self.names) != 1:
            raise PathDone()
        self.name = self.names[0]

    def covered(self, j):
        """the restriction at j covers the parameter (decided) and is of that type alone"""
        x = self.rb.get(self.ctx, j)
        return self.ctx.branch(covers(self.ctx, x, self.i)), x

    def havoc(self, it, fr, k):
        ctx = self.ctx
        found = bool(ctx.choose(2, 'found'))
        fr.locals[self.name] = found
        if found:
            w = ctx.int('w')
            ctx.assume(z3.And(w >= 0, w < k))
            c, x = self.covered(w)
            if not c or not self.fits(x['objtypes']):
                raise PathDone()
        if ctx.branch(self.r < k):
            c, x = self.covered(self.r)
            if c and not (found and self.fits(x['objtypes'])):
                raise PathDone()
        self.before = found

    def step(self, it, fr, k):
        ctx = self.ctx
        c, x = self.covered(k)
        after = fr.locals[self.name]
        ctx.prove('loop:flag', type(after) is bool and after == (self.before or c))
        ctx.prove('loop:of-that-type-alone', not c or self.fits(x['objtypes']))


# ------------------------------------------------------------ conversion of numbers
class Cells(SExt):
    """the argument values: an arbitrary list, known at the index p"""
    pyclass = list

    def __init__(self, ctx, n, p, memo, cell=None):
        self.ctx, self.n, self.p, self.memo, self.cell, self.rest = ctx, n, p, memo, cell, True

    def at(self, i):
        for j, o in self.memo:
            if j.eq(i) or self.ctx.entails(i == j):
                return o
        o = SOpaque('value')
        self.memo.append((z3.simplify(i), o))
        return o

    def sx(self, it, op, *a):
        ctx = self.ctx
        if op == 'len':
            return SInt(self.n)
        if op == 'getitem' and isinstance(a[0], (int, SInt)):
            i = M.to_int(a[0])
            ctx.prove('index-within-the-arguments', z3.And(i >= 0, i < self.n))
            if ctx.branch(i == self.p):
                return self.cell
            return self.at(i)
        if op == 'setitem' and isinstance(a[0], (int, SInt)):
            i = M.to_int(a[0])
            ctx.prove('written-within-the-arguments', z3.And(i >= 0, i < self.n))
            ctx.log_write(self, 'item')
            if ctx.branch(i == self.p):
                self.cell = a[1]
            return None
        if op == 'call' and a[0] == 'copy':
            c = Cells(ctx, self.n, self.p, self.memo, self.cell)
            c.source = self
            ctx.alloc(c)
            return c
        return NotImplemented


def u_convert(ctx):
    it = Interp(ctx)
    n, p, r = ctx.int('arguments'), ctx.int('p'), ctx.int('r')
    ctx.assume(z3.And(n >= 0, p >= 0, p < n, r >= 0))
    rb = restrictions(ctx, 'restriction', 'objtypes', type_lists)
    vr = SList.of(rb)
    ctx.alloc(vr)
    op = mk_op(ctx, value_restrictions=vr)
    memo = []
    given = Cells(ctx, n, p, memo)
    given.cell = SOpaque('value at p')
    memo.append((p, given.cell))
    value = given.cell
    ctx.alloc(given)
    valid, numbers = {}, []

    def is_valid(v):
        if any(m is v for _v, m in numbers):
            return True
        if id(v) not in valid:
            valid[id(v)] = (v, bool(ctx.choose(2, 'numeric')))
        return valid[id(v)][1]

    def number(it_, v, *a, **kw):
        if any(m is v for _v, m in numbers):
            return v
        ctx.prove('converts-an-argument', any(o is v for _j, o in memo))
        ctx.prove('converts-only-what-is-numeric', is_valid(v))
        m = Number.__new__(Number)
        m.number_cast = [None, SOpaque('its form')][ctx.choose(2, 'form')]
        numbers.append((v, m))
        ctx.alloc(m)
        return m
    calc = mk_calc(ctx, number=Stub(number), validate_number=Stub(lambda it_, v, *a, **kw: is_valid(v)))
    E = z3.Function('converted before', z3.IntSort(), z3.BoolSort())
    ctx.assume(z3.Not(E(0)))
    st8 = {}

    def result(fr):
        ls = {id(v): v for v in fr.locals.values() if isinstance(v, Cells) and v is not given}
        ctx.prove('loop:one-list', len(ls) <= 1)
        return list(ls.values())[0] if ls else given

    def ok_p(x, upto=None):
        """declared by x (its first positions, given upto) that it may be a number, and it is one"""
        if 'number' not in x['objtypes'] or not is_valid(value):
            return z3.BoolVal(False)
        c = covers(ctx, x, p)
        return c if upto is None else z3.And(c, p < x['fromparam'].t + upto)

    class Outer(LoopSpec):
        def init(self, it_, fr):
            l = result(fr)
            ctx.prove('outer:a-copy-at-first', l.cell is value and (l is given or l.source is given))
            carried = [nm for nm in stored_here(self.node) if nm in fr.locals]
            ctx.prove('outer:no-form-at-first', all(fr.locals[nm] is None for nm in carried))
            self.names = carried

        def state(self, fr, now):
            l = result(fr)
            if ctx.branch(now):
                m = Number.__new__(Number)
                m.number_cast = SOpaque('a form')
                ctx.alloc(m)
                numbers.append((value, m))
                l.cell = m
            else:
                l.cell = value
            self.forms = {}
            for nm in self.names:
                self.forms[nm] = fr.locals[nm] = [None, SOpaque('first form')][ctx.choose(2, nm)]

        def havoc(self, it_, fr, k):
            st8['k'] = k
            self.state(fr, E(k))

        def check(self, fr, want, what):
            l = result(fr)
            conv = any(m is l.cell for v, m in numbers if v is value)
            ctx.prove(what + ':converted-or-as-given', conv or l.cell is value)
            ctx.prove(what + ':converted-exactly-when-declared-a-number-and-numeric', want == conv)
            for nm in self.names:
                if self.forms[nm] is not None:
                    ctx.prove(what + ':the-first-form-is-kept', fr.locals[nm] is self.forms[nm])

        def step(self, it_, fr, k):
            self.check(fr, z3.Or(E(k), ok_p(rb.get(ctx, k))), 'outer')

        def exit(self, it_, fr, m):
            self.state(fr, E(m))
            st8['exit'] = True

        def may_write(self, obj):
            return isinstance(obj, Cells)

    class Inner(Outer):
        def init(self, it_, fr):
            self.x = rb.get(ctx, st8['k'])
            self.names = [nm for nm in stored_here(self.node) if nm in fr.locals and fr.locals[nm] is None or isinstance(fr.locals.get(nm), SOpaque) and fr.locals[nm].name == 'first form']
            self.forms = {nm: fr.locals[nm] for nm in self.names}
            self.check(fr, z3.Or(E(st8['k']), ok_p(self.x, 0)), 'inner-first')
            self.at0 = dict(self.forms)

        def now(self, j):
            return z3.Or(E(st8['k']), ok_p(self.x, j))

        def havoc(self, it_, fr, j):
            ctx.assume(z3.BoolVal(True))
            self.state(fr, self.now(j))
            self.known(fr)

        def known(self, fr):
            for nm in self.names:
                if self.at0[nm] is not None:
                    self.forms[nm] = fr.locals[nm] = self.at0[nm]

        def step(self, it_, fr, j):
            self.check(fr, self.now(j + 1), 'inner')

        def exit(self, it_, fr, m):
            self.state(fr, self.now(m))
            self.known(fr)

    def spec(it_, node, fr, seq):
        s = Outer() if isinstance(seq, SList) and seq.chunks and seq.chunks[0][0] == 'seg' and seq.chunks[0][1] is rb else Inner() if isinstance(seq, SRange) and 'k' in st8 else None
        if s is not None:
            s.node = node
        return s
    it.loop_specs.append(spec)
    st, got = run(it, Operation.convert_numbers, op, calc, given)
    ctx.prove('returns', st == 'ok' and isinstance(got, tuple) and len(got) == 2 and isinstance(got[0], Cells), repr(got))
    if st != 'ok' or not isinstance(got[0], Cells):
        return
    ctx.prove('a-list-of-its-own-or-the-one-given', got[0] is given or got[0].source is given)
    ctx.prove('same-length', got[0].n is n)
    conv = any(m is got[0].cell for v, m in numbers if v is value)
    ctx.prove('converted-or-as-given', conv or got[0].cell is value)
    ctx.prove('converted-exactly-when-declared-a-number-and-numeric', E(rb.n) == conv)
    ctx.cover('converted' if conv else 'not converted')


def stored_here(node):
    from pyvc.interp import stored_names
    return stored_names(node.body) - stored_names([node.target])



# ------------------------------------------------------------ the validators
def u_validate_array(ctx):
    it = Interp(ctx)
    n, p = ctx.int('n'), ctx.int('p')
    ctx.assume(z3.And(n >= 0, p >= 0))
    b = SBase('elements', n, lambda c, i: c.alloc(OperandResult(SOpaque('value'), SOpaque('unit'), SOpaque('ref'))))
    b.mk_alias = False
    kind = ctx.choose(2, 'kind')
    v = SList.of(b) if kind == 0 else SOpaque('no list')
    ctx.alloc(v)
    sub = [None, 'known', 'unknown'][ctx.choose(3, 'subtype')]
    it.index_skolems.append(([b], True, p))
    asked = {}

    def known(it_, c, value, unit, ref, *a):
        ctx.prove('asks-about-an-element', any(o.value is value and o.unit is unit and o.ref is ref for _j, o in b.memo) and c is calc)
        if id(value) not in asked:
            asked[id(value)] = bool(ctx.choose(2, 'element'))
        return asked[id(value)]
    calc = mk_calc(ctx, validators={'known': Stub(known)})
    st, r = run(it, ArraysFeature.validate_array, calc, v, None, None, sub)
    ctx.prove('returns', st == 'ok' and type(r) is bool, repr(r))
    if st != 'ok':
        return
    if kind == 1:
        ctx.prove('no-array:refused', r is False)
        ctx.cover('no array')
    elif sub is None:
        ctx.prove('array:accepted', r is True)
        ctx.cover('plain')
    elif r:
        if ctx.branch(p < n):
            ctx.prove('accepted:every-element', sub == 'known' and asked.get(id(b.get(ctx, p).value)) is True)
        ctx.cover('accepted')
    else:
        ctx.prove('refused:for-an-element', bool(b.memo) and (sub == 'unknown' or asked.get(id(b.memo[-1][1].value)) is False) and ctx.entails(z3.And(b.memo[-1][0] >= 0, b.memo[-1][0] < n)))
        ctx.cover('refused')


def u_validators(ctx):
    it = Interp(ctx)
    k = ctx.choose(4, 'validator')
    u = None if ctx.choose(2, 'unit') == 0 else SOpaque('unit')
    numeric = bool(ctx.choose(2, 'numeric'))
    v = [SOpaque('value'), ExecuteException('earlier', [], None), UnitPowerList.__new__(UnitPowerList)][ctx.choose(3, 'value')]
    f = [None, SOpaque('ref'), VariableItem.__new__(VariableItem)][ctx.choose(3, 'ref')]

    def number(it_, x, *a):
        ctx.prove('number-of-the-value', x is v)
        if not numeric:
            raise PyRaise(CalculatorException('no number'))
        return SOpaque('number')
    calc = mk_calc(ctx, number=Stub(number))
    fn, want = [(Engine.validate_exception, isinstance(v, Exception)), (UnitsFeature.validate_unit, isinstance(v, UnitPowerList)),
                (UnitsFeature.validate_number_with_unit, numeric and u is not None), (AssignmentFeature.validate_variable, isinstance(f, VariableItem))][k]
    st, r = run(it, fn, calc, v, u, f)
    ctx.prove('accepts-exactly-its-type', st == 'ok' and r is want, repr(r))
    st, r = run(it, NumericalEngine.validate_number, calc, v, u, f)
    ctx.prove('number:accepts-exactly-what-converts', st == 'ok' and r is numeric, repr(r))
    ctx.cover('validator')


# ------------------------------------------------------------ the call itself
ARGS = ['a number', 'another value', 'an error', 'an empty array', 'an array of two']


def u_call(ctx, arity, first=None):
    it = Interp(ctx)
    inputs, kinds, cells = [], [], {}
    for i in range(arity):
        k = first if i == 0 and first is not None else [0, 1, 2, 4, 3][ctx.choose(len(ARGS) - (arity > 2), 'argument %d' % i)]
        kinds.append(k)
        if k >= 3:
            v = [ctx.alloc(OperandResult(SOpaque('element'), SOpaque('element unit'), SOpaque('element ref'))) for _ in range(0 if k == 3 else 2)]
            ctx.alloc(v)
            for e in v:
                cells[id(e)] = (e, e.value, e.unit, e.ref)
        else:
            v = ExecuteException('earlier', [], None) if k == 2 else SOpaque('value %d' % i)
        inputs.append(ctx.alloc(OperandResult(v, SOpaque('unit %d' % i) if k < 3 else None, SOpaque('ref %d' % i))))
    given = [(o.value, o.unit, o.ref) for o in inputs]
    lists = [list(o.value) if type(o.value) is list else None for o in inputs]
    flags = ctx.alloc({'mine': SOpaque('flag')})
    before = dict(flags)
    log = []
    table = {}

    def answer(*key):
        if key not in table:
            table[key] = bool(ctx.choose(2, str(key)))
        return table[key]

    def form(name):
        m = Number.__new__(Number)
        m.number_cast = None
        ctx.alloc(m)
        numbers.append((name, m))
        return m
    numbers = []

    def can(it_, a, kw):
        t = a[2]
        if t in ('array', 'variable'):
            return kinds[a[1]] >= 3 if t == 'array' else False     # no broadcasting (C10): arrays only where they are declared
        return answer('can', a[1], t)

    def must(it_, a, kw):
        if len(a) < 4 and not kw:
            return False                # not one array for several arguments (C10)
        return answer('must', a[1], a[2], a[3] if len(a) > 3 else kw['sub_type'])
    it.contracts[Operation.input_can_be_type] = can
    it.contracts[Operation.input_must_be_type] = must

    def validate(it_, a, kw):
        a = list(a) + [kw.get(x) for x in ('calculator', 'values', 'units', 'refs')[len(a) - 1:]]
        ctx.prove('validate:once-and-first', not log)
        ctx.prove('validate:the-arguments', a[0] is op and a[1] is calc and all(len(a[2 + j]) == arity and all(x is g[j] for x, g in zip(a[2 + j], given)) for j in range(3)))
        bad = ctx.choose(3, 'acceptable')
        log.append(('validate', bad == 0))
        if bad == 1:
            raise PyRaise(CalculatorException(OP + ' refuses'))
        if bad == 2:
            raise PyRaise(KeyError('internal'))

    def convert(it_, a, kw):
        vs = a[2]
        ctx.prove('convert:after-validation', log == [('validate', True)] and len(vs) == arity and all(x is g[0] for x, g in zip(vs, given)))
        out = [form(('converted', i)) if kinds[i] == 0 else v for i, v in enumerate(vs)]
        vs[:] = [SOpaque('no longer defined') for _v in vs]      # it may work in place
        log.append(('convert', out))
        return (out, None)
    it.contracts[Operation.validate] = validate
    it.contracts[Operation.convert_numbers] = convert

    class Norm(SExt):
        def sx(self, it_, o, *a):
            if o == 'call' and a[0] == 'normalise_inputs':
                vs, us, multi, rel = a[1]
                ctx.prove('normalise:as-the-operation-asks', multi is op.units_multi and rel is op.units_relative)
                ctx.prove('normalise:after-validation', ('validate', True) in log)
                vs, us = list(vs), list(us)
                if ctx.choose(2, 'can be normalised') == 1:
                    log.append(('normalise', vs, us, None, None))
                    raise PyRaise(CalculatorException('units differ'))
                ov = [form(('normalised', v)) for v in vs]
                ou = [SOpaque('common unit') for _ in vs]
                log.append(('normalise', vs, us, ov, ou))
                return (ctx.alloc(list(ov)), ctx.alloc(list(ou)), SOpaque('result unit'))
            return NotImplemented

    def valid(it_, v, *a, **kw):
        for nm, m in numbers:
            if m is v:
                return True
        if isinstance(v, (list, Exception)):
            return False
        return answer('numeric', id(v))

    def number(it_, v, *a, **kw):
        m = form(('number', v))
        return m
    calc = mk_calc(ctx, unit_normaliser=Norm(), validate_number=Stub(valid), number=Stub(number))

    def ref(it_, c, vs, us, rs, fl):
        log.append(('ref', c, list(vs), list(us), list(rs), fl, [[(x, x.value, x.unit, x.ref) for x in v] if type(v) is list else None for v in vs]))
        k = ctx.choose(4, 'the operation')
        if k == 1:
            raise PyRaise(CalculatorException('broken'))
        if k == 2:
            raise PyRaise(ValueError('broken'))
        fl['left'] = 1
        if k == 3:          # it may return the elements of an array it was given, in a list of its own
            return ctx.alloc(OperationResult(ctx.alloc([x for v in vs if type(v) is list for x in v])))
        return ctx.alloc(OperationResult(SOpaque('result')))
    op = mk_op(ctx, ref=Stub(ref))
    it.contracts[OperandResult.to_string] = lambda it_, a, kw: 'text'
    norm, conv, exc = op.units_normalise, op.auto_convert_numerical_inputs, op.inputs_can_be_exceptions
    st, r = run(it, Operation.call, op, calc, inputs, flags)

    # frame: whatever happened, the arguments, their arrays, their elements and the flags are the caller's
    ctx.prove('arguments-unchanged', all((o.value, o.unit, o.ref) == g or all(x is y for x, y in zip((o.value, o.unit, o.ref), g)) for o, g in zip(inputs, given)))
    ctx.prove('arrays-unchanged', all(l is None or len(o.value) == len(l) and all(x is y for x, y in zip(o.value, l)) for o, l in zip(inputs, lists)))
    ctx.prove('elements-unchanged', all(e.value is v and e.unit is u and e.ref is f and not hasattr(e, 'original_value') for e, v, u, f in cells.values()))
    ctx.prove('flags-unchanged', flags == before)
    refs = [x for x in log if x[0] == 'ref']
    ctx.prove('entered-at-most-once', len(refs) <= 1)
    errors = [i for i, k in enumerate(kinds) if k == 2]
    if errors and not ctx.branch(exc.t):
        ctx.prove('error-argument:not-entered', not log)
        ctx.prove('error-argument:is-the-result', st == 'ok' and r is inputs[errors[0]])
        ctx.cover('error argument')
        return
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.prove('raise:names-the-operation', isinstance(r, CalculatorException) and names_op(r), repr(r))
    ctx.prove('validated-first', bool(log) and log[0][0] == 'validate')
    if not log[0][1]:
        ctx.prove('refused:not-entered', not refs)
        ctx.prove('refused:error', st == 'raise')
        ctx.cover('refused')
        return
    ns = [x for x in log if x[0] == 'normalise']
    if ns and ns[-1][3] is None:
        ctx.prove('units-differ:not-entered', not refs)
        ctx.prove('units-differ:error', st == 'raise')
        ctx.cover('units differ')
        return
    ctx.prove('accepted:entered', len(refs) == 1)
    if not refs:
        return
    _x, c, vs, us, rs, fl, inner = refs[0]
    ctx.prove('entered:with-all-arguments', c is calc and len(vs) == len(us) == len(rs) == arity and all(x is g[2] for x, g in zip(rs, given)))
    ctx.prove('entered:with-flags-of-its-own', fl is not flags and {x: y for x, y in fl.items() if x != 'left'} == before)
    cv = [x for x in log if x[0] == 'convert']
    converted = bool(cv)
    ctx.prove('entered:numbers-converted-exactly-where-asked', conv.t == converted)
    cur = cv[0][1] if cv else [g[0] for g in given]
    allnum = all(kinds[i] < 2 and table.get(('can', i, 'number')) is True and (any(m is cur[i] for _n, m in numbers) or table.get(('numeric', id(cur[i]))) is True) for i in range(arity))
    whole = [x for x in ns if len(x[1]) == arity and all(a is b for a, b in zip(x[1], cur)) and all(a is g[1] for a, g in zip(x[2], given))]
    if allnum:
        ctx.prove('numbers:brought-to-a-common-unit-exactly-where-asked', norm.t == (len(whole) == 1 and len(ns) == 1))
        wv, wu = (whole[0][3], whole[0][4]) if whole else (cur, [g[1] for g in given])
        ctx.prove('numbers:entered-with-them', all(a is b for a, b in zip(vs, wv)) and all(a is b for a, b in zip(us, wu)))
        ctx.cover('numbers')
    else:
        for i in range(arity):
            ctx.prove('entered:unit', us[i] is given[i][1])
            if kinds[i] < 3 or not table.get(('must', i, 'array', 'number')):
                ctx.prove('entered:value-as-it-was', vs[i] is cur[i])
                continue
            ctx.prove('array-of-numbers:a-copy', type(vs[i]) is list and vs[i] is not given[i][0] and len(inner[i]) == len(lists[i]))
            mine = [x for x in ns if len(x[1]) == len(lists[i]) and all(a is e.unit for a, e in zip(x[2], lists[i]))]
            ctx.prove('array-of-numbers:brought-to-a-common-unit-exactly-where-asked', norm.t == (len(mine) >= 1) if lists[i] else z3.BoolVal(True))
            for j, e in enumerate(lists[i]):
                got, value, unit, eref = inner[i][j]
                if mine:
                    src = mine[0][1][j]
                    ok = value is mine[0][3][j] and unit is mine[0][4][j]
                else:
                    src = value
                    ok = unit is e.unit
                ctx.prove('array-of-numbers:elements-converted', ok and any(m is src and nm[0] == 'number' and nm[1] is e.value for nm, m in numbers))
                ctx.prove('array-of-numbers:new-elements', got is not e and eref is e.ref)
                if st == 'ok' and type(r.value) is list:
                    ctx.prove('array-of-numbers:returned-elements-are-the-original-values', got.value is e.value and got.unit is e.unit)
                    ctx.cover('returned elements')
            ctx.cover('array of numbers')
    ctx.cover('entered')
    if st == 'raise':
        ctx.cover('failed')


def u_only(ctx):
    """frame: the code behind an operation is entered from Operation.call (and helpers of it) only"""
    import ast
    _w, callers, names = attribute_writers('ref')
    entering = []
    for d, _dirs, files in sorted(os.walk(os.path.join(_REPO, 'modularcalculator'))):
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), os.path.join(_REPO, 'modularcalculator'))[:-3].replace('/', '.')
                tree = ast.parse(open(os.path.join(d, f)).read())
                for cls in ast.walk(tree):
                    if isinstance(cls, (ast.ClassDef, ast.Module)):
                        for fn in cls.body:
                            if isinstance(fn, ast.FunctionDef) and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'ref' for n in ast.walk(fn)):
                                entering.append((rel + ':' + (cls.name + '.' if isinstance(cls, ast.ClassDef) else '') + fn.name, fn.name))
    ctx.prove('entered-somewhere', bool(entering))

    def fine(q, base, seen=()):
        if q == 'objects.operators:Operation.call' or q in seen:
            return True
        cs = [c for c in callers.get(base, ()) if c != q]
        return not base.startswith('__') and base != 'call' and bool(cs) and all(fine(c, c.split('.')[-1].split(':')[-1], seen + (q,)) for c in cs)
    for q, base in entering:
        ctx.prove('only-Operation.call-enters:' + q, fine(q, base))
    ctx.cover('frame')


UNITS = [('only Operation.call enters the code of an operation', u_only), ('Operation.validate', u_validate, {'max_paths': 6000, 'seconds': 120}), ('Operation.validate_input', u_validate_input), ('validate_array', u_validate_array), ('the other validators', u_validators),
         ('Operation.input_can_be_type', lambda ctx: u_can(ctx, False), {'max_paths': 4000, 'seconds': 100}),
         ('Operation.input_must_be_type, a number', lambda ctx: u_can(ctx, True, 'number'), {'max_paths': 9000, 'seconds': 100}),
         ('Operation.input_must_be_type, an array', lambda ctx: u_can(ctx, True, 'array'), {'max_paths': 9000, 'seconds': 100}),
         ('Operation.convert_numbers', u_convert, {'max_paths': 9000, 'seconds': 100}),
         ('Operation.call, no argument', lambda ctx: u_call(ctx, 0)), ('Operation.call, 1 argument', lambda ctx: u_call(ctx, 1), {'max_paths': 9000, 'seconds': 100})]
UNITS += [('Operation.call, 2 arguments, the first %s' % ARGS[k], lambda ctx, k=k: u_call(ctx, 2, k), {'max_paths': 9000, 'seconds': 100}) for k in range(len(ARGS))]
UNITS += [('Operation.call, 3 arguments, the first %s' % ARGS[k], lambda ctx, k=k: u_call(ctx, 3, k), {'max_paths': 30000, 'seconds': 150}) for k in range(3)]

# ---------------------------------------------------------------- concrete oracle
from pyvc.concrete import calc, shown, table, evaluate
from modularcalculator.modularcalculator import ModularCalculator
import re

SEARCH_SECONDS = (40, 300)

NUMBERS = [['n', '5', None], ['n', '-7/3', None], ['n', '2', 'meters'], ['n', '3', 'feet'], ['n', '0', 'celsius'], ['n', '4', 'fahrenheit'], ['n', '6', 'seconds'],
           ['t', '12', None], ['t', '0x1F', None], ['t', '0b101', None], ['t', '1E5', None], ['t', '12', 'feet']]
OTHERS = [['t', 'abc', None], ['t', '', None], ['t', '2020-01-02', None], ['b', 1, None], ['b', 0, None], ['e', 0, None], ['x', 0, None]]
TYPES = ['variable', 'number', 'string', 'boolean', 'array', 'array[number]', 'array[string]', 'array[boolean]', 'array[date]', 'date', 'exception', 'nosuchtype', None]


def make(v, c):
    if v[0] == 'v':
        o = make(v[1], c)
        o.ref = VariableItem('x', c)
        return o
    k, x, u = v
    unit = c.unit_normaliser.get_unit(u) if u else None
    if k == 'n':
        p, _, q = x.partition('/')
        val = Number(p) / Number(q) if q else Number(p)
    elif k == 't':
        val = x
    elif k == 'b':
        val = bool(x)
    elif k == 'e':
        val = ExecuteException('an earlier error', [], None)
    elif k == 'x':
        val = object()
    else:
        val = [make(y, c) for y in x]
    return OperandResult(val, unit, None)


def satisfies(t, o, c):
    """does a value have the declared type"""
    if t is None:
        return True
    m = re.fullmatch(r'([^\[\]]+)\[([^\[\]]+)\]', t)
    main, sub = m.groups() if m else (t, None)
    v = o.value
    if main == 'array':
        return type(v) is list and (sub is None or all(satisfies(sub, e, c) for e in v))
    if main == 'number':
        return isinstance(v, Number) or not isinstance(v, (list, Exception)) and not type(v) is object and numeric(v, c)
    if main == 'exception':
        return isinstance(v, Exception)
    if main not in c.validators:
        return False
    return bool(c.validators[main](c, o.value, o.unit, o.ref))


def numeric(v, c):
    try:
        return isinstance(c.number(v), Number)
    except Exception:
        return False


def applies(r, i):
    return r[0] <= i and (r[1] is None or i <= r[1])


def mentions(types, t):
    return any((x or '').split('[')[0] == t for x in types)


def expected(spec, args, c):
    """-> 'error' | 'given' | the arguments the code must receive"""
    n = len(args)
    rs = spec['restrictions']
    if not spec['exceptions'] and any(isinstance(a.value, Exception) for a in args):
        return 'given'
    if spec['min'] is not None and n < spec['min'] or spec['max'] is not None and n > spec['max']:
        return 'error'
    for r in rs:
        for i in range(n):
            if applies(r, i) and not any(satisfies(t, args[i], c) for t in r[2]):
                return 'error'
    for r in spec['units']:
        for i in range(n):
            if applies(r, i):
                if not same_dimensions(args[i].unit, r[2], c):
                    return 'error'
    return 'run'


DIM = {'meters': 'distance', 'feet': 'distance', 'celsius': 'temperature', 'fahrenheit': 'temperature', 'seconds': 'time'}


def same_dimensions(unit, dims, c):
    if unit is None:
        return False
    return unit == c.unit_normaliser.get_unit('meters') and dims == ['distance', 1] or unit == c.unit_normaliser.get_unit('feet') and dims == ['distance', 1] \
        or unit == c.unit_normaliser.get_unit('seconds') and dims == ['time', 1] \
        or (unit == c.unit_normaliser.get_unit('celsius') or unit == c.unit_normaliser.get_unit('fahrenheit')) and dims == ['temperature', 1]


def broadcasts(spec, args):
    """arrays in a position that does not take them, or several arguments for one array"""
    for i, a in enumerate(args):
        if type(a.value) is list and not any(applies(r, i) and (mentions(r[2], 'array') or a.ref is not None and mentions(r[2], 'variable')) for r in spec['restrictions']):
            return True
    own = [r for r in spec['restrictions'] if applies(r, 0)]
    return spec['max'] == 1 and len(args) > 1 and own and all(len(r[2]) == 1 and mentions(r[2], 'array') for r in own)


def k_custom(spec, argspec):
    c = calc()
    args = [make(a, c) for a in argspec]
    if broadcasts(spec, args):
        return None
    before = [shown(a.value, a.unit, c) for a in args]
    lists = [(a.value, list(a.value)) for a in args if type(a.value) is list]
    seen = []

    def ref(self, values, units, refs, flags):
        seen.append((self, list(values), list(units), list(refs), [[(e.value, e.unit) for e in v] if type(v) is list else None for v in values]))
        flags['left'] = 1
        for v in values:
            if type(v) is list and spec['spoil']:
                v.reverse()
                del v[:1]
        if spec['fails']:
            raise ValueError('broken')
        return OperationResult(Number(1))
    op = Operation('test', 'testop', '', [], ref, spec['min'], spec['max'])
    for f, t, types in spec['restrictions']:
        op.add_value_restriction(f, t, list(types))
    for f, t, dims in spec['units']:
        op.add_unit_restriction(f, t, list(dims))
    op.units_normalise, op.units_multi, op.units_relative = spec['normalise'], spec['multi'], spec['relative']
    op.inputs_can_be_exceptions = spec['exceptions']
    op.auto_convert_numerical_inputs = spec['convert']
    flags = {'mine': 1}
    try:
        r = op.call(c, args, flags)
        err = None
    except CalculatorException as e:
        err = e
    except Exception as e:
        return 'calling the operation fails internally: %s: %s' % (type(e).__name__, e)
    want = expected(spec, args, c)
    if flags != {'mine': 1}:
        return 'the flags of the caller were changed: %r' % (flags,)
    if want == 'given':
        if seen or err is not None or not isinstance(r.value, Exception):
            return 'an argument that is an error was not returned'
        return None
    if want == 'error':
        if seen:
            return 'the operation ran on %r' % (seen[0][1],)
        if err is None:
            return 'unacceptable arguments gave %r' % (r.value,)
        if 'testop' not in err.message:
            return 'the error does not name the operation: %s' % err.message
        return None
    rs = spec['restrictions']
    n = len(args)
    nums = [any(applies(r, i) and mentions(r[2], 'number') for r in rs) and numeric_arg(args[i], c) for i in range(n)]
    allnum = all(nums) if n else True
    arr = [type(a.value) is list and all(r[2] == ['array[number]'] for r in rs if applies(r, i)) and any(applies(r, i) for r in rs) for i, a in enumerate(args)]
    if spec['normalise']:
        # arguments that cannot be brought to a common unit
        group = [a.unit for a in args] if allnum else None
        groups = [group] if group is not None else [[e.unit for e in a.value] for a, x in zip(args, arr) if x]
        for g in groups:
            if spec['multi'] or not g or all(u is None for u in g):
                continue
            if any(not unit_like(u, g[0], c) for u in g[1:]):
                if seen:
                    return 'the operation ran on units %r' % (seen[0][2],)
                if err is None or 'testop' not in err.message:
                    return 'no error naming the operation: %r' % (err and err.message,)
                return None
    if not seen and spec['normalise'] and not spec['convert'] and err is not None and 'testop' in err.message:
        return None         # digits that are not to be converted cannot be brought to another unit
    if not seen and spec['normalise'] and spec['multi']:
        return None         # bringing products of units together is C09's matter
    if not seen:
        return 'acceptable arguments were refused: %s' % (err and err.message,)
    if spec['fails']:
        if err is None or 'testop' not in err.message:
            return 'a failing operation gave %r' % (err and err.message,)
    elif err is not None:
        return 'error %s' % err.message
    if len(seen) != 1:
        return 'the operation ran %d times' % len(seen)
    who, values, units, refs, inner = seen[0]
    if who is not c or len(values) != n or len(units) != n or len(refs) != n:
        return 'the operation got %d values, %d units, %d refs' % (len(values), len(units), len(refs))
    for i, a in enumerate(args):
        v, u = values[i], units[i]
        if arr[i] and not allnum or arr[i] and n == 0:
            if type(v) is not list or len(inner[i]) != len(lists_of(lists, a.value)):
                return 'argument %d: %r' % (i, v)
            orig = lists_of(lists, a.value)
            for (ev, eu), e in zip(inner[i], orig):
                m = number_ok(ev, eu, e, spec, c, orig[0].unit)
                if m:
                    return 'element of argument %d: %s' % (i, m)
        elif nums[i] and spec['convert']:
            if allnum:
                m = number_ok(v, u, a, spec, c, args[0].unit)
            else:
                m = None if isinstance(v, Number) and v == c.number(a.value) and u == a.unit else 'got %r' % (v,)
            if m:
                return 'argument %d: %s' % (i, m)
        elif type(v) is not list and shown(v, u, c) != before[i] and not (nums[i] and allnum):
            return 'argument %d: got %r for %r' % (i, shown(v, u, c), before[i])
    for l, was in lists:
        spoilt = spec['spoil'] and not any(l is a.value and x and not allnum for a, x in zip(args, arr))
        if not spoilt and l != was:
            return 'the array of the caller was changed'
    if not spec['spoil'] and [shown(a.value, a.unit, c) for a in args] != before:
        return 'an argument was changed: %r, before %r' % ([shown(a.value, a.unit, c) for a in args], before)
    return None


def lists_of(lists, l):
    for a, was in lists:
        if a is l:
            return was


def numeric_arg(a, c):
    return not isinstance(a.value, (list, Exception)) and type(a.value) is not object and numeric(a.value, c)


FACTOR = {'meters': (Fraction(1), Fraction(0)), 'feet': (Fraction(3048, 10000), Fraction(0)), 'seconds': (Fraction(1), Fraction(0)),
          'celsius': (Fraction(1), Fraction(27315, 100)), 'fahrenheit': (Fraction(5, 9), Fraction(45967, 100) * Fraction(5, 9))}


def name_of(u, c):
    for n in FACTOR:
        if u == c.unit_normaliser.get_unit(n):
            return n


def unit_like(u, first, c):
    return u is not None and first is not None and DIM[name_of(u, c)] == DIM[name_of(first, c)] or u is None and first is None


def frac(n):
    return Fraction(int(n.num), int(n.den))


def number_ok(v, u, a, spec, c, first):
    """a number in the common unit, worth what was given"""
    if not isinstance(v, Number):
        return 'not converted to a number: %r' % (v,) if spec['convert'] or type(a.value) is not str else None
    want = frac(c.number(a.value))
    if not spec['normalise'] or a.unit is None or spec['multi']:
        return None if spec['multi'] and spec['normalise'] or frac(v) == want and u == a.unit else 'got %r %r' % (v, u)
    if u != first:
        return 'in unit %s, not in %s' % (u, first)
    f, g = FACTOR[name_of(a.unit, c)], FACTOR[name_of(first, c)]
    exp = want * f[0] / g[0] if spec['relative'] else (want * f[0] + f[1] - g[1]) / g[0]
    return None if frac(v) == exp else 'got %s %s for %s %s' % (frac(v), u, want, a.unit)


# ------------------------------------------------ the operations of the calculator, watched on entry

WATCHED = {}


def watched():
    if 'c' in WATCHED:
        c = WATCHED['c']
        c.vars = {}
        return c
    c = WATCHED['c'] = ModularCalculator('Computing')
    WATCHED['bad'] = []
    for name, op in list(c.ops_list.items()) + list(c.funcs.items()):
        watch(c, name, op)
    return c


def watch(c, name, op):
    orig = op.ref

    def ref(self, values, units, refs, flags):
        m = entry(c, op, values, units, refs, flags)
        if m:
            WATCHED['bad'].append('%s entered with %s' % (name, m))
        try:
            return orig(self, values, units, refs, flags)
        finally:
            flags['c15 after'] = name
    op.ref = ref


def entry(c, op, values, units, refs, flags):
    n = len(values)
    if len(units) != n or len(refs) != n:
        return '%d values, %d units, %d refs' % (n, len(units), len(refs))
    if 'c15 after' in flags:
        return 'the flags another operation (%s) had changed' % flags['c15 after']
    if op.minparams is not None and n < op.minparams or op.maxparams is not None and n > op.maxparams:
        return '%d arguments' % n
    allnum = True
    for i in range(n):
        o = OperandResult(values[i], units[i], refs[i])
        isnum = False
        for r in op.value_restrictions:
            if applies([r['fromparam'], r.get('toparam')], i):
                if not any(satisfies(t, o, c) for t in r['objtypes']):
                    return 'argument %d %r, declared %r' % (i, values[i], r['objtypes'])
                if mentions(r['objtypes'], 'number'):
                    isnum = numeric_arg(o, c)
                    if op.auto_convert_numerical_inputs and isnum and not isinstance(values[i], Number):
                        return 'argument %d %r, not converted' % (i, values[i])
                if r['objtypes'] == ['array[number]'] and type(values[i]) is list:
                    if not all(isinstance(e.value, Number) for e in values[i]):
                        return 'argument %d with elements that are not converted' % i
                    if op.units_normalise and not op.units_multi and any(e.unit != values[i][0].unit for e in values[i]):
                        return 'argument %d with elements in units %r' % (i, [str(e.unit) for e in values[i]])
                    if any(values[i] is v[0] for v in c.vars.values()):
                        return 'the array of a variable itself'
        allnum = allnum and isnum
        if not op.inputs_can_be_exceptions and isinstance(values[i], Exception):
            return 'an error as argument %d' % i
    if allnum and op.units_normalise and not op.units_multi and any(u != units[0] for u in units):
        return 'units %r' % ([str(u) for u in units],)
    return None


def k_watched(exprs):
    c = watched()
    del WATCHED['bad'][:]
    for e in exprs:
        try:
            before = table(c)
            c.calculate(e)
        except CalculatorException:
            pass
        if WATCHED['bad']:
            return '%s: %s' % (e, WATCHED['bad'][0])
    return None


BASE = {'distance': {'distance': 1}, 'time': {'time': 1}, 'mass': {'mass': 1}, 'velocity': {'distance': 1, 'time': -1}, 'area': {'distance': 2}, 'volume': {'distance': 3},
        'acceleration': {'distance': 1, 'time': -2}, 'force': {'mass': 1, 'distance': 1, 'time': -2}, 'energy': {'mass': 1, 'distance': 2, 'time': -2}, 'frequency': {'time': -1}}
MEASURES = [('5', 'number', None), ('5 meters', 'number', {'distance': 1}), ('3 feet', 'number', {'distance': 1}), ('2 hours', 'number', {'time': 1}),
            ('(8 meters / 2 seconds)', 'number', {'distance': 1, 'time': -1}), ('((1 / 4 seconds) * 8 meters)', 'number', {'time': -1, 'distance': 1}),
            ('(3 meters * 2 meters)', 'number', {'distance': 2}), ('(2 acres)', 'number', {'distance': 2}), ('7 newtons', 'number', {'mass': 1, 'distance': 1, 'time': -2}),
            ('(4 / (2 seconds ^ 2) * 3 meters * 5 kilograms)', 'number', {'mass': 1, 'distance': 1, 'time': -2}), ('8 joules', 'number', {'mass': 1, 'distance': 2, 'time': -2}),
            ('9 hertz', 'number', {'time': -1}), ('(1 / 2 minutes)', 'number', {'time': -1}), ('2 liters', 'number', {'distance': 3}), ("'abc'", 'string', None), ('true', 'boolean', None)]


def k_external(declared, args):
    """an external function whose first line declares the types and dimensions of its inputs"""
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='c15')
    try:
        line = ' '.join(t + (':' + ','.join(n + ('^%d' % p if p != 1 or q else '') for n, p, q in dims) if dims else '') for t, dims in declared)
        with open(os.path.join(d, 'f'), 'w') as fh:
            fh.write('#INPUT %s\n7\n' % line)
        c = calc()
        st, r = evaluate("func = '%s'" % os.path.join(d, 'f'), c=c)
        texts = [MEASURES[a] for a in args]
        st, r = evaluate('@func(%s)' % ', '.join(t[0] for t in texts), c=c)
        ok = True
        for (t, dims), (text, typ, have) in zip(declared, texts):
            if t == 'string' and typ != 'string' or t == 'number' and typ == 'string':
                ok = False
            if dims:
                want = {}
                for n, p, _q in dims:
                    for b, e in BASE[n].items():
                        want[b] = want.get(b, 0) + e * p
                ok = ok and have == {b: e for b, e in want.items() if e}
        if ok != (st != 'error'):
            return 'an external function with inputs %s, given %s: %s' % (line, [t[0] for t in texts], r if st == 'error' else 'was run')
    finally:
        shutil.rmtree(d)
    return None


KINDS = {'custom': k_custom, 'watched': k_watched, 'external': k_external}
RULE = 'operations with random declarations called on random arguments; the calculator\'s own operations watched on entry while random calls are evaluated'


def rnd_spec(rng, n):
    rs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        f = rng.randint(0, max(n - 1, 0))
        t = rng.choice([None, f, f, f + 1])
        rs.append([f, t, rng.sample(TYPES, rng.choice([1, 1, 1, 2, 3])) if rng.random() < 0.6 else rng.choice([['number'], ['array[number]'], ['number', 'array'], ['string']])])
    mn = rng.choice([None, None, n, n, n - 1, n + 1, 0])
    mx = rng.choice([None, None, n, n, n + 1, n - 1, 1])
    units = [[rng.randint(0, max(n - 1, 0)), rng.choice([None, 0, 1]), rng.choice([['distance', 1], ['time', 1], ['temperature', 1]])]] if rng.random() < 0.15 else []
    return {'restrictions': rs, 'min': mn, 'max': mx, 'units': units, 'normalise': rng.random() < 0.7, 'multi': rng.random() < 0.2,
            'relative': rng.random() < 0.5, 'exceptions': rng.random() < 0.2, 'convert': rng.random() < 0.85, 'fails': rng.random() < 0.08,
            'spoil': rng.random() < 0.3}


def rnd_arg(rng, kind=None):
    k = kind or rng.choice(['num', 'num', 'num', 'other', 'array', 'len'])
    if k == 'num':
        return rng.choice(NUMBERS)
    if k == 'len':
        return rng.choice([x for x in NUMBERS if x[2] in ('meters', 'feet')])
    if k == 'other':
        return rng.choice(OTHERS)
    m = rng.choice(['num', 'len', 'other', None])
    if rng.random() < 0.1:
        return ['v', rnd_arg(rng, rng.choice(['num', 'other', 'array']))]
    if rng.random() < 0.03:
        x, y = rnd_arg(rng, 'num'), rnd_arg(rng, rng.choice(['num', 'other']))
        return ['l', [x] * rng.choice([33, 65, 130]) + [y], None]
    return ['l', [rnd_arg(rng, m or rng.choice(['num', 'other'])) for _ in range(rng.choice([0, 1, 2, 3]))], None]


TEXTS = ['5', '-7', '2.5', '0x1F', '0b101', '3 meters', '2 feet', '4 seconds', '10 celsius', "'abc'", "'12'", "''", 'true', 'false', '[1, 2, 3]', "['a', 'b']", "['1', '2']",
         '[1 meters, 2 feet]', '[1, true]', '[[1, 2], [3]]', "'2020-01-02'", '1 + true', 'x', 'y', 'meters', '@sin', '{PARAM1 + 1}', '1E3', '50%', "[1, 'x']", '[5, 1/0]']


def search(S):
    rng = S.rng
    c = watched()
    funcs = sorted(f for f in c.funcs if f not in ('now',))
    ops = sorted(o for o in c.ops_list if not o.isupper())
    for f in funcs:         # every function with every count of arguments
        for n in range(0, 5):
            if S.time_left():
                S.run('watched', ['x = [4, 3 feet]; y = 7', '%s(%s)' % (f, ', '.join(rng.choice(TEXTS) for _ in range(n)))])
    while S.time_left():
        for _ in range(2):
            n = rng.choice([1, 1, 2])
            declared, args = [], []
            for _i in range(n):
                a = rng.randrange(len(MEASURES))
                dims = None
                if rng.random() < 0.85 and MEASURES[a][1] == 'number':
                    if MEASURES[a][2] and rng.random() < 0.6:
                        dims = [[x, p, rng.random() < 0.3] for x, p in MEASURES[a][2].items()]
                        if rng.random() < 0.3:
                            k = rng.randrange(len(dims))
                            dims[k][1] += rng.choice([-1, 1])
                        dims = [x for x in dims if x[1]] or None
                        if dims:
                            rng.shuffle(dims)
                    else:
                        dims = [[rng.choice(sorted(BASE)), rng.choice([1, 1, -1, 2]), False] for _k in range(rng.choice([1, 1, 2]))]
                declared.append([rng.choice(['number', 'number', MEASURES[a][1]]) if dims is None else 'number', dims])
                args.append(a)
            S.run('external', declared, args)
        for _ in range(12):
            n = rng.choice([0, 1, 2, 2, 3, 4])
            S.run('custom', rnd_spec(rng, n), [rnd_arg(rng) for _ in range(n)])
        # arguments of one family, in arrays or not, sometimes many, with something else at the end
        fam = rng.choice([NUMBERS, [x for x in NUMBERS if x[2] in ('celsius', 'fahrenheit')], [x for x in NUMBERS if x[2] in ('meters', 'feet')], OTHERS[:5]])
        pick = lambda k: [rng.choice(fam) for _ in range(k)] + ([rng.choice(NUMBERS + OTHERS)] if rng.random() < 0.3 else [])
        t = rng.choice(['number', 'number', 'boolean', 'string', None])
        if rng.random() < 0.5:
            args = pick(rng.choice([1, 2, 3, 11, 33, 70, 130]))
            args = args if rng.random() < 0.5 else args[-4:] if args else args
            types = [t]
        else:
            args = [['l', pick(rng.choice([1, 2, 3, 11, 70, 130])), None] for _ in range(rng.choice([1, 1, 2]))]
            types = ['array' if t is None else 'array[%s]' % t]
        spec = rnd_spec(rng, len(args))
        spec['restrictions'] = [[0, None, types]]
        spec['min'] = None
        spec['multi'] = False
        spec['units'] = []
        if spec['max'] is not None and spec['max'] < len(args) or spec['max'] == 1:
            spec['max'] = None
        S.run('custom', spec, args)
        ex = []
        for _ in range(6):
            if rng.random() < 0.6:
                ex.append('%s(%s)' % (rng.choice(funcs), ', '.join(rng.choice(TEXTS) for _ in range(rng.randint(0, 4)))))
            else:
                a, b = rng.choice(TEXTS), rng.choice(TEXTS)
                ex.append('(%s) %s (%s)' % (a, rng.choice(ops), b) if rng.random() < 0.8 else '%s %s' % (rng.choice(ops), a))
        S.run('watched', ['x = [4, 3 feet]; y = 7'] + ex)
