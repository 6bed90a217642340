"""C17: a numeric result takes the form of its first numeric operand; nothing stored is changed."""
from pyvc.lib import *  # noqa: F401,F403
import functools
from pyvc.lib import attribute_writers
from pyvc.core import PathDone, PyRaise
from modularcalculator.objects.number import Number
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.operators import Operation, OperationResult
from modularcalculator.objects.units import UnitDefinition, UnitPower, UnitPowerList
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.engine import Engine
from modularcalculator.features.units.units import UnitsFeature
from modularcalculator.features.arrays.arrayfunctions import ArrayFunctionsFeature
from modularcalculator.features.numerical import basicarithmetic, bases, hexadecimalnumbers, binarynumbers, octalnumbers, decimalnumbers, percentagenumbers, expnumbers, arbitrarybasenumbers

ASSUMPTIONS = ['the code of an operation (ref) returns a new number or one of the objects it was given; the units cover every function that assigns number_cast, num, den or no_simplify, '
               'and the list functions; other operations are covered by the assigns scan and the concrete search only']
TRUSTED = ['Decimal integer arithmetic (exact within the context precision, see C01)']


def framed(ctx, it, own, f, *args, **kw):
    """run f; every object it writes was allocated by it, or is in own"""
    serial, log = ctx.serial, []
    ctx.write_logs.append(log)
    try:
        st, r = run(it, f, *args, **kw)
    finally:
        ctx.write_logs.remove(log)
    for obj, what in log:
        b = ctx.born.get(id(obj))
        new = b is not None and b[1] is obj and b[0] > serial
        ctx.prove('frame:writes-only-new-objects', new or any(obj is o for o in own), 'writes %s of an object it was given (%s)' % (what, type(obj).__name__))
    return st, r


def what(r):
    return type(r).__name__ + (' ' + str(getattr(r, 'message', ''))[:80] if isinstance(r, Exception) else '')


def keep(n):
    return n, n.num, n.den, n.number_cast


def kept(k):
    n, num, den, cast = k
    return n.num is num and n.den is den and n.number_cast is cast


# ------------------------------------------------------------ numbers
def u_number(ctx, name, nargs, integer=False):
    """a method of Number: the operands keep value and form, the result is another object in the form of the first"""
    it = Interp(ctx)
    if name == '__pow__':
        ctx.notes_tab('powbound')['bound'] = (1, 2)
    cast, other = {'marker': 1}, {'marker': 2}
    ns = [mk_number(it, 'a', cast=cast)] + [mk_number(it, 'b%d' % i, cast=other, integer=integer) for i in range(nargs)]
    for n in ns:
        ctx.alloc(n)
    ks = [keep(n) for n in ns]
    st, r = framed(ctx, it, (), getattr(Number, name), *ns)
    ctx.prove(name + ':operands-unchanged', all(kept(k) for k in ks))
    if st == 'raise':
        ctx.cover(name + ' raise')
        return
    ctx.prove(name + ':a-number', is_number(r))
    if is_number(r):
        ctx.prove(name + ':form-of-the-first-operand', r.number_cast is cast)
    ctx.cover(name)


FORMS = [('hexadecimal', hexadecimalnumbers.HexadecimalNumericalRepresentation), ('binary', binarynumbers.BinaryNumericalRepresentation), ('octal', octalnumbers.OctalNumericalRepresentation),
         ('decimal', decimalnumbers.DecimalNumericalRepresentation), ('percentage', percentagenumbers.PercentageNumericalRepresentation), ('exponent', expnumbers.ExpNumericalRepresentation)]


def u_form(ctx, cls):
    """convert_to: another number of the same value; the number given keeps its form"""
    it = Interp(ctx)
    n = mk_number(it, 'n', cast={'marker': 1})
    ctx.alloc(n)
    k = keep(n)
    calc = mk_calc(ctx)
    st, r = framed(ctx, it, (), cls.convert_to, calc, n)
    ctx.prove('returns', st == 'ok', what(r))
    ctx.prove('given-number-unchanged', kept(k))
    if st != 'ok':
        return
    ctx.prove('another-number', is_number(r) and r is not n)
    if is_number(r) and r is not n:
        ctx.prove('same-value', z3.And(T(r.num) == n.num.t, T(r.den) == n.den.t))
        ctx.prove('form-of-its-own', r.number_cast is not k[3])
    ctx.cover('converted')


def u_shown(ctx, which):
    """showing a number leaves it as it was"""
    it = Interp(ctx)
    cast = {'marker': 1}
    n = mk_number(it, 'n', cast=cast)
    ctx.alloc(n)
    k = keep(n)
    seen = []

    def text(it_, a, kw):
        seen.append(a[0])
        ctx.prove('shown-without-its-form', a[0].number_cast is None)
        return 'text'
    it.contracts[Number.to_string] = text
    calc = mk_calc(ctx)
    if which == 'percentage':
        args = (percentagenumbers.PercentageNumericalRepresentation.to_string, calc, n)
    elif which == 'decimal':
        args = (decimalnumbers.DecimalNumericalRepresentation.to_string, calc, n)
    else:
        args = (bases.BasesFeature.dec_to_base, calc, n, 10)
    st, r = framed(ctx, it, (), *args)
    ctx.prove('returns', st == 'ok', what(r))
    ctx.prove('given-number-unchanged', kept(k))
    ctx.cover('shown')


# ------------------------------------------------------------ the form of a result
def form_number(ctx, name, cast):
    m = Number.__new__(Number)
    m.number_cast, m.num, m.den = cast, SOpaque(name + '.num'), SOpaque(name + '.den')
    ctx.alloc(m)
    return m


LAYOUTS = [[(0, None)], [(0, 0), (1, 1), (2, 2)], [(0, 0), (1, None)], [(1, None)], [(0, 1)], [(0, 2), (0, None)]]


def u_first(ctx):
    """convert_numbers: up to three arguments; the form is that of the first numeric argument that has one"""
    it = Interp(ctx)
    layout = LAYOUTS[ctx.choose(len(LAYOUTS), 'declarations')]
    n = ctx.choose(4, 'arguments')
    op = Operation.__new__(Operation)
    op.value_restrictions = ctx.alloc([ctx.alloc({'fromparam': f, 'toparam': t, 'objtypes': ctx.alloc(['number'])}) for f, t in layout])
    ctx.alloc(op)
    values, forms = [SOpaque('value %d' % i) for i in range(n)], {}
    for i, v in enumerate(values):
        k = ctx.choose(3, 'argument %d' % i)
        forms[id(v)] = (False, None) if k == 0 else (True, None if k == 1 else {'form of': i})
    made = []

    def number(it_, v, *a, **kw):
        m = next((x for x in made if x is v), None)
        if m is None:
            m = form_number(ctx, 'converted', forms[id(v)][1])
            made.append(m)
        return m
    calc = mk_calc(ctx, number=Stub(number), validate_number=Stub(lambda it_, v, *a, **kw: any(v is m for m in made) or forms[id(v)][0]))
    given = ctx.alloc(list(values))
    st, r = framed(ctx, it, (), Operation.convert_numbers, op, calc, given)
    ctx.prove('returns', st == 'ok' and isinstance(r, tuple) and len(r) == 2, what(r))
    if st != 'ok':
        return
    ctx.prove('arguments-unchanged', len(given) == n and all(a is b for a, b in zip(given, values)))
    declared = [any(i >= f and (t is None or i <= t) for f, t in layout) for i in range(n)]
    want = next((forms[id(v)][1] for i, v in enumerate(values) if declared[i] and forms[id(v)][0] and forms[id(v)][1] is not None), None)
    ctx.prove('form-of-the-first-operand-that-has-one', r[1] is want)
    ctx.cover('converted')


def u_call(ctx, arity, arrays):
    """Operation.call: the result is shown in the first form; the numbers given keep theirs"""
    it = Interp(ctx)
    inputs, elements = [], []
    for i in range(arity):
        if arrays:
            es = []
            for j in range(ctx.choose(4, 'length %d' % i)):
                f = [None, {'form of': (i, j)}][ctx.choose(2, 'form %d %d' % (i, j))]
                m = form_number(ctx, 'element', f)
                es.append(ctx.alloc(OperandResult(m, None, None)))
                elements.append(m)
            v = ctx.alloc(es)
        else:
            v = form_number(ctx, 'operand', [None, {'form of': i}][ctx.choose(2, 'form %d' % i)])
            elements.append(v)
        inputs.append(ctx.alloc(OperandResult(v, None, None)))
    ks = [keep(m) for m in elements]
    cells = [(o, o.value, list(o.value) if type(o.value) is list else None, [e.value for e in o.value] if type(o.value) is list else None) for o in inputs]
    op = Operation.__new__(Operation)
    op.name = 'op'
    op.value_restrictions, op.unit_restrictions = [], []
    op.minparams = op.maxparams = None
    op.units_relative = op.units_multi = False
    op.units_normalise = bool(ctx.choose(2, 'units')) if arity < 2 else True
    op.inputs_can_be_exceptions = False
    op.auto_convert_numerical_inputs = bool(ctx.choose(2, 'convert inputs')) if not arrays else True
    op.auto_convert_numerical_result = bool(ctx.choose(2, 'convert result'))
    ctx.alloc(op)

    def is_array(a, kw):
        t = a[2] if len(a) > 2 else kw['obj_type']
        return t == ('array' if arrays else 'number')

    def must(it_, a, kw):
        sub = a[3] if len(a) > 3 else kw.get('sub_type')
        return arrays and is_array(a, kw) and sub in (None, 'number') if a[1] < arity and sub is not None else False
    it.contracts[Operation.input_can_be_type] = lambda it_, a, kw: is_array(a, kw)
    it.contracts[Operation.input_must_be_type] = must
    it.contracts[Operation.validate] = lambda it_, a, kw: None
    scalar = None if arrays else [None, {'form of': 'arguments'}][ctx.choose(2, 'the arguments have a form')]
    copies = []

    def convert(it_, a, kw):
        vs = a[2]
        out = ctx.alloc([v if type(v) is list else form_number(ctx, 'converted', v.number_cast) if ctx.choose(2, 'converted') else v for v in vs])
        copies.extend(v for v in out if type(v) is not list)
        return (out, scalar)
    it.contracts[Operation.convert_numbers] = convert

    def number(it_, v, *a, **kw):
        if ctx.choose(2, 'number makes another object') == 0 or arity > 1:
            return v            # a Number is returned as it is
        m = form_number(ctx, 'number', v.number_cast)
        copies.append(m)
        return m

    class Norm(SExt):
        def sx(self, it_, o, *a):
            if o == 'call' and a[0] == 'normalise_inputs':
                vs, us = a[1][:2]
                return (ctx.alloc(list(vs)), ctx.alloc(list(us)), SOpaque('result unit'))
            return NotImplemented
    calc = mk_calc(ctx, unit_normaliser=Norm(), validate_number=Stub(lambda it_, v, *a, **kw: is_number(v)), number=Stub(number))
    made = []

    def ref(it_, c, vs, us, rs, fl):
        k = ctx.choose(3, 'the operation returns')
        own = [x.value for v in vs if type(v) is list for x in v] + [v for v in vs if type(v) is not list]
        if k == 0:
            res = SOpaque('text')
        elif k == 1 and own:
            res = own[ctx.choose(len(own), 'which')]
        else:
            res = form_number(ctx, 'result', [None, {'form of': 'result'}][ctx.choose(2, 'form of the result')])
        made.append((res, getattr(res, 'number_cast', None), getattr(res, 'num', None), getattr(res, 'den', None)))
        return ctx.alloc(OperationResult(res))
    op.ref = Stub(ref)
    it.contracts[OperandResult.to_string] = lambda it_, a, kw: 'text'
    st, r = run(it, Operation.call, op, calc, inputs, ctx.alloc({}))
    ctx.prove('operands-keep-value-and-form', all(kept(k) for k in ks))
    ctx.prove('arrays-keep-their-elements', all(o.value is v and (l is None or len(v) == len(l) and all(a is b and a.value is x for a, b, x in zip(v, l, xs))) for o, v, l, xs in cells))
    ctx.prove('returns', st == 'ok' and len(made) == 1, what(r))
    if st != 'ok' or not made:
        return
    res, cast, num, den = made[0]
    if not is_number(res):
        ctx.prove('other-results-as-they-are', r.value is res)
        ctx.cover('other')
        return
    want = cast
    first = next((m.number_cast for m in elements if m.number_cast is not None), None) if arrays else scalar if op.auto_convert_numerical_inputs else None
    if op.auto_convert_numerical_result and first is not None:
        want = first
        ctx.cover('converted')
    ctx.prove('result-in-the-form-of-the-first-operand', is_number(r.value) and r.value.number_cast is want)
    ctx.prove('result-has-the-value-computed', is_number(r.value) and r.value.num is num and r.value.den is den)
    ctx.cover('number')


# ------------------------------------------------------------ answers
def u_finalize(ctx, array):
    """finalize: never writes to the answer, its list or its elements"""
    it = Interp(ctx)
    inner = []

    def mk(c, i):
        e = OperandResult(SOpaque('element'), SOpaque('element unit'), SOpaque('element ref'))
        c.alloc(e)
        return e
    if array:
        n = ctx.int('elements')
        ctx.assume(n >= 0)
        b = SBase('elements', n, mk)
        b.mk_alias = False
        v = SList.of(b)
        ctx.alloc(v)
        chunks = list(v.chunks)
    else:
        v = SOpaque('value')

    class Simple(SExt):
        simple = bool(ctx.choose(2, 'no_simplify'))

        def sx(self, it_, o, *a):
            if o == 'attr' and a[0] == 'no_simplify':
                return self.simple
            return NotImplemented
    unit = None if ctx.choose(2, 'unit') == 0 else Simple()
    ans = ctx.alloc(OperandResult(v, unit, SOpaque('ref')))
    before = dict(ans.__dict__)

    def again(it_, x, *a, **kw):
        ctx.prove('finalizes-elements', array and any(x is e for _j, e in b.memo))
        return ctx.alloc(OperandResult(SOpaque('finalized'), SOpaque('finalized unit'), x.ref))

    class Norm(SExt):
        def sx(self, it_, o, *a):
            if o == 'call' and a[0] == 'simplify_units':
                return (SOpaque('simplified'), SOpaque('simplified unit'))
            return NotImplemented
    norm = Norm() if ctx.choose(2, 'units') else None
    calc = mk_calc(ctx, unit_normaliser=norm, unit_simplification=bool(ctx.choose(2, 'simplify')), finalizers=ctx.alloc([]))
    calc.finalize = Stub(again)
    st, r = framed(ctx, it, (), Engine.finalize, calc, ans)
    ctx.prove('returns', st == 'ok', what(r))
    ctx.prove('answer-unchanged', ans.__dict__ == before)
    if array:
        ctx.prove('list-unchanged', len(v.chunks) == len(chunks) and all(x is y for x, y in zip(v.chunks, chunks)))
        for _j, e in b.memo:
            ctx.prove('elements-unchanged', isinstance(e.value, SOpaque) and e.value.name == 'element' and e.unit.name == 'element unit')
    if st == 'ok':
        ctx.prove('a-new-answer', isinstance(r, OperandResult) and r is not ans and r.ref is ans.ref)
        if array:
            ctx.prove('a-new-list', r.value is not v)
        ctx.cover('finalized')


class Unit(SExt):
    """a unit about which nothing is known; copies of it are new objects"""
    pyclass = UnitPowerList

    def sx(self, it, o, *a):
        ctx = it.ctx
        if o == 'call' and a[0] == 'copy':
            return ctx.alloc(Unit())
        if o == 'call' and a[0] == 'power':
            return ctx.alloc(Unit()) if ctx.choose(2, 'power is a unit') == 0 else None
        if o == 'attr' and a[0] == 'no_simplify':
            return SBool(ctx.bool('no_simplify'))
        if o in ('setattr', 'set'):
            ctx.log_write(self, a[0])
            return None
        return NotImplemented


def u_to(ctx):
    """to: the unit converted to, and the value and unit converted, stay as they were"""
    it = Interp(ctx)
    units = [ctx.alloc(Unit()) for _ in range(4)]
    k = ctx.choose(2, 'converted')
    v0 = [SOpaque('number'), units[3]][k]
    second = [units[1], None, SOpaque('number')][ctx.choose(3, 'to')]
    vals = ctx.alloc([v0, second])
    us = ctx.alloc([units[0], units[2]])

    class Norm(SExt):
        def sx(self, it_, o, *a):
            if o == 'call' and a[0] == 'unit_conversion':
                c = ctx.choose(3, 'conversion')
                if c == 0:
                    raise PyRaise(CalculatorException('cannot'))
                return (SOpaque('converted'), a[1][2] if c == 1 else units[1])
            return NotImplemented
    if second is not None and second is not units[1]:
        vals[1] = ctx.alloc(mk_number(it, 'factor', cast=None))
    calc = mk_calc(ctx, unit_normaliser=Norm())
    st, r = framed(ctx, it, (vals, us), UnitsFeature.op_unit_conversion, calc, vals, us, ctx.alloc([None, None]), ctx.alloc({}))
    ctx.cover(st)


def u_arith(ctx, name):
    """products, quotients and powers: the numbers and units of the operands are never changed"""
    it = Interp(ctx)
    units = [ctx.alloc(Unit()) for _ in range(4)]
    values = []
    for i in range(2):
        k = ctx.choose(2, 'value %d' % i)
        values.append(ctx.alloc(mk_number(it, 'v%d' % i, cast={'marker': i}) if k == 0 else units[2 + i]))
    if name == 'op_number_power' and not is_number(values[1]):
        raise PathDone()
    us = ctx.alloc([units[i] if ctx.choose(2, 'unit %d' % i) else None for i in range(2)])
    vals = ctx.alloc(list(values))
    ks = [keep(v) for v in values if is_number(v)]

    def result(it_, a, kw):
        if ctx.choose(2, 'defined'):
            raise PyRaise(CalculatorException('not defined'))
        return ctx.alloc(mk_number(it_, 'result', cast=a[0].number_cast))
    for m in ('__mul__', '__truediv__', '__pow__'):
        it.contracts[getattr(Number, m)] = result

    def new(it_, a, kw):
        ctx.prove('a-list-of-units-and-powers', len(a) == 1 and isinstance(a[0], list))
        return ctx.alloc(Unit()) if ctx.choose(2, 'a unit is left') == 0 else None
    it.contracts[UnitPowerList.new] = new
    cls = basicarithmetic.BasicArithmeticFeature
    calc = mk_calc(ctx)
    st, r = framed(ctx, it, (vals, us), getattr(cls, name), calc, vals, us, ctx.alloc([None, None]), ctx.alloc({}))
    ctx.prove('numbers-unchanged', all(kept(k) for k in ks))
    ctx.cover(st)


def u_powers(ctx, name):
    """a list of unit powers: its methods that make another list leave it as it was (arbitrary lists of up to 3 powers)"""
    it = Interp(ctx)
    lists = []
    for j in range(2):
        n = ctx.choose(4 if j == 0 else 3, 'length %d' % j)
        ps = []
        for i in range(n):
            u = ctx.alloc(UnitDefinition.__new__(UnitDefinition))
            p = UnitPower.__new__(UnitPower)
            p.unit, p.power = u, ctx.alloc(mk_number(it, 'p%d%d' % (j, i), cast=None))
            ps.append(ctx.alloc(p))
        l = UnitPowerList.__new__(UnitPowerList)
        l._objects = ctx.alloc(ps)
        ctx.alloc(l)
        lists.append(l)
    same = {}

    def eq(it_, a, kw):
        k = frozenset((id(a[0]), id(a[1])))
        if len(k) == 1:
            return True
        if k not in same:
            same[k] = bool(ctx.choose(2, 'same unit'))
        return same[k]
    it.contracts[UnitDefinition.__eq__] = eq
    it.contracts[Number.__mul__] = lambda it_, a, kw: ctx.alloc(mk_number(it_, 'product', cast=a[0].number_cast))
    before = [(l, list(l._objects), [(p, p.unit, p.power, keep(p.power)) for p in l._objects], dict(l.__dict__)) for l in lists]
    k = mk_number(it, 'k', cast=None)
    ctx.alloc(k)
    args = {'copy': (), 'power': (k,), 'multiply': (k,), 'remove_zeros': (), 'check_empty': (), 'merge': (lists[1],), 'deduplicate': (), '__add__': (lists[1],)}
    if name == 'new':
        st, r = framed(ctx, it, (), UnitPowerList.new, ctx.alloc([lists[0], Number(1), lists[1], Number(-1)]))
    else:
        st, r = framed(ctx, it, (), getattr(UnitPowerList, name), lists[0], *args[name])
    ctx.prove('returns', st == 'ok', what(r))
    for l, os_, ps, d in before:
        ctx.prove('list-unchanged', l.__dict__ == d and len(l._objects) == len(os_) and all(a is b for a, b in zip(l._objects, os_)))
        ctx.prove('powers-unchanged', all(p.unit is u and p.power is w and kept(kk) for p, u, w, kk in ps))
    if st == 'ok' and name not in ('check_empty', '__add__') and r is not None:
        ctx.prove('another-list', r is not lists[0] and r is not lists[1])
        ctx.prove('of-its-own-powers', not any(p is q[0] for p in r._objects for _l, _o, ps, _d in before for q in ps))
    ctx.cover('done')


# ------------------------------------------------------------ lists
def u_list(ctx, name):
    """a list function: the list given and its elements stay as they were"""
    it = Interp(ctx)
    lists = []
    for j in range(2):
        n = ctx.int('n%d' % j)
        ctx.assume(n >= 0)

        def mk(c, i, j=j):
            e = OperandResult(SBool(c.bool('truth')) if j else SOpaque('element'), SOpaque('unit'), SOpaque('ref'))
            c.alloc(e)
            return e
        b = SBase('list %d' % j, n, mk)
        b.mk_alias = False
        l = SList.of(b)
        ctx.alloc(l)
        lists.append(l)
    chunks = [list(l.chunks) for l in lists]
    vals = ctx.alloc(list(lists))
    if name == 'func_array_element':
        i = mk_number(it, 'i', integer=True)
        ctx.alloc(i)
        vals[1] = i
    if name in ('func_array_reverse', 'func_array_sort'):
        del vals[1]
    calc = mk_calc(ctx)

    class Collect(LoopSpec):
        """a loop that collects into lists of its own"""

        def fresh(self, fr):
            for nm, v in list(fr.locals.items()):
                if nm in self.names:
                    b = SBase('collected', ctx.int('collected'), lambda c, i: SOpaque('collected'))
                    b.mk_alias = False
                    fr.locals[nm] = SList.of(b)
                    ctx.alloc(fr.locals[nm])

        def init(self, it_, fr):
            self.names = [nm for nm, v in fr.locals.items() if type(v) is list and v == [] and not nm.startswith('__')]

        def havoc(self, it_, fr, k):
            self.fresh(fr)
            self.mine = [fr.locals[nm] for nm in self.names]

        def step(self, it_, fr, k):
            pass

        def exit(self, it_, fr, n):
            self.fresh(fr)

        def may_write(self, obj):
            return any(obj is m for m in self.mine)
    if name == 'func_array_filter':
        it.loop_specs.append(lambda it_, node, fr, seq: Collect())
    st, r = framed(ctx, it, (), getattr(ArrayFunctionsFeature, name), calc, vals, ctx.alloc([None] * len(vals)), ctx.alloc([None] * len(vals)), ctx.alloc({}))
    ctx.prove('lists-unchanged', all(len(l.chunks) == len(c) and all(x is y for x, y in zip(l.chunks, c)) for l, c in zip(lists, chunks)))
    if st == 'ok' and name != 'func_array_element':
        ctx.prove('not-the-list-given', isinstance(r, OperationResult) and not any(r.value is l for l in lists))
    ctx.cover(st)


# ------------------------------------------------------------ assigns scan
WRITES = {'number_cast': ['Number.__init__', 'Operation.call', 'PercentageNumericalRepresentation.to_string', 'BasesFeature.dec_to_base', 'DecimalNumericalRepresentation.parse',
                          'ArbitraryBaseNumericalRepresentation.parse'] + [c.__name__ + '.convert_to' for _n, c in FORMS],
          'num': ['Number.__init__'], 'den': ['Number.__init__'],
          'no_simplify': ['UnitPowerList.copy', 'UnitsFeature.op_unit_conversion', 'BasicArithmeticFeature.op_number_power', 'BasicArithmeticFeature.op_number_multiply', 'BasicArithmeticFeature.op_number_divide']}


MUTATORS = ['method ' + m for m in ('update', 'pop', 'clear', 'setdefault', 'popitem', '__setitem__', '__delitem__')]


def u_writers(ctx, attr):
    out, callers, names = attribute_writers(attr)
    ok = set(WRITES[attr])

    def fine(q, seen=()):
        if q.split(':')[1] in ok or q in seen:
            return True
        base = q.split('.')[-1].split(':')[-1]
        cs = [c for c in callers.get(base, ()) if c != q]
        return not base.startswith('__') and bool(cs) and all(fine(c, seen + (q,)) for c in cs)
    sites = {q: [s for s in ss if s[1] in ('assigned', 'item assigned or deleted') or s[1] in MUTATORS] for q, ss in out.items()}
    ctx.prove('written-somewhere', any(sites.values()))
    for q, ss in sorted(sites.items()):
        if ss:
            ctx.prove('%s written only under contract:%s' % (attr, q), fine(q), 'changes .%s: %s' % (attr, ss))
    ctx.cover('scanned')


P = functools.partial
UNITS = [('Number.%s' % m, P(u_number, name=m, nargs=k, integer=m in ('__pow__',))) for m, k in (('__add__', 1), ('__sub__', 1), ('__mul__', 1), ('__truediv__', 1), ('__mod__', 1), ('__floordiv__', 1), ('__pow__', 1), ('__neg__', 0),
                                                                                     ('__abs__', 0), ('__floor__', 0), ('__ceil__', 0), ('__trunc__', 0), ('copy', 0))]
UNITS += [('convert_to %s' % n, P(u_form, cls=c)) for n, c in FORMS]
UNITS += [('shown: %s' % n, P(u_shown, which=n)) for n in ('percentage', 'decimal', 'base 10')]
UNITS += [('Operation.convert_numbers, up to 3 arguments', u_first, {'max_paths': 4000, 'seconds': 60})]
UNITS += [('Operation.call, %d %s' % (k, 'arrays of up to 3' if arr else 'numbers'), P(u_call, arity=k, arrays=arr), {'max_paths': 9000, 'seconds': 100}) for k, arr in ((1, False), (2, False), (1, True))]
UNITS += [('Engine.finalize, %s' % ('an array' if a else 'a value'), P(u_finalize, array=a)) for a in (False, True)]
UNITS += [('UnitsFeature.op_unit_conversion', u_to)]
UNITS += [('BasicArithmeticFeature.%s' % n, P(u_arith, name=n)) for n in ('op_number_multiply', 'op_number_divide', 'op_number_power')]
UNITS += [('UnitPowerList.%s' % n, P(u_powers, name=n), {'max_paths': 6000, 'seconds': 60}) for n in ('copy', 'power', 'multiply', 'remove_zeros', 'check_empty', 'merge', 'deduplicate', 'new')]
UNITS += [('ArrayFunctionsFeature.%s' % n, P(u_list, name=n)) for n in ('func_array_element', 'func_array_filter', 'func_array_reverse', 'func_array_sort')]
UNITS += [('assigns clause of %s' % a, P(u_writers, attr=a)) for a in WRITES]

# ---------------------------------------------------------------- concrete oracle
from pyvc.concrete import calc, shown, table, evaluate
import re

SEARCH_SECONDS = (35, 300)

LITERALS = {None: ['5', '7.5', '2', '12', '0', '100', '0.25'], 'x': ['0x10', '0xA', '0x1.8', '0x3'], 'b': ['0b11', '0b1000', '0b1', '0b1.1'], 'o': ['0o17', '0o7', '0o2'],
            'z3': ['3z102', '3z2'], 'z5': ['5z41', '5z3'], 'E': ['1E3', '2.5E0', '6E1'], '%': ['10%', '50%', '200%']}
LEAVES = [(t, f) for f in LITERALS for t in LITERALS[f]]
GIVES = {'dec': None, 'hex': 'x', 'bin': 'b', 'oct': 'o', 'scientific': 'E'}
ROWS = ['abs', 'floor', 'ceil', 'exp', 'round', 'gcd', 'lcm', 'fact']
WHOLE = ['sum', 'max', 'min', 'mean', 'median', 'mode']


def form_of(text):
    """the base or notation a number's text is written in"""
    t = text.lstrip('-')
    for p, f in (('0x', 'x'), ('0b', 'b'), ('0o', 'o')):
        if t.startswith(p):
            return f
    m = re.match(r'(\d+)z', t)
    if m:
        return 'z' + m.group(1)
    if t.endswith('%'):
        return '%'
    return 'E' if 'E' in t else 'd'


def text_of(x):
    k = x[0]
    if k == 'n':
        return x[1]
    if k == 'u':
        return '(%s %s)' % (text_of(x[1]), x[2])
    if k == 'o':
        return '(%s %s %s)' % (text_of(x[2]), x[1], text_of(x[3]))
    if k == 'f':
        return '%s(%s)' % (x[1], ', '.join(text_of(y) for y in x[2]))
    if k == 'l':
        return '[%s]' % ', '.join(text_of(y) for y in x[1])
    if k == 'v':
        return 'stored%s' % 'abcdefgh'[x[1]]
    if k == 'e':
        return 'element(%s, %d)' % (text_of(x[1]), x[2] + 1)
    raise ValueError(k)


def first(fs):
    return next((f for f in fs if f is not None), None)


def rows(ms, fn):
    """fn applied to each row of operands; lists are walked together"""
    n = {len(m) for m in ms if isinstance(m, list)}
    if not n:
        return fn(ms)
    if len(n) > 1:
        raise ValueError('lengths')
    return [fn([m[i] if isinstance(m, list) else m for m in ms]) for i in range(n.pop())]


def model(x, stored):
    """the form expected: None for plain decimal numbers, or a list of those"""
    k = x[0]
    if k == 'n':
        return x[2]
    if k == 'u':
        return model(x[1], stored)
    if k == 'o':
        return rows([model(y, stored) for y in x[2:4]], first)
    if k == 'f':
        ms = [model(y, stored) for y in x[2]]
        if x[1] in GIVES:
            return rows(ms, lambda m: GIVES[x[1]])
        if x[1] in WHOLE:
            if len(ms) == 1:
                return first(ms[0]) if isinstance(ms[0], list) else ms[0]
            return rows(ms, first)
        return rows(ms, first)
    if k == 'l':
        return [model(y, stored) for y in x[1]]
    if k == 'v':
        return model(stored[x[1]], stored)
    if k == 'e':
        return model(x[1], stored)[x[2]]
    raise ValueError(k)


def compare(want, got, what):
    if isinstance(want, list):
        if got[0] != 'list' or len(got[1]) != len(want):
            return None
        for w, g in zip(want, got[1]):
            m = compare(w, g, what)
            if m:
                return m
        return None
    if got[0] == 'str' and re.fullmatch(r'-?(0[xbo].*|[0-9]*\.?[0-9]+(E-?[0-9]+)?%?)', got[1]):
        text = got[1]
    elif got[0] == 'number':
        text = got[3]
    else:
        return None
    if form_of(text) != (want or 'd'):
        return '%s is shown as %s; expected form %s' % (what, text, want or 'plain decimal')
    return None


def k_form(tree, stored, on):
    c = calc('Computing')
    c.unit_simplification_set(bool(on))
    for i, s in enumerate(stored):
        st, r = evaluate('%s = %s' % (text_of(['v', i]), text_of(s)), c=c)
        if st != 'ok':
            return None
    before = table(c)
    st, r = evaluate(text_of(tree), c=c)
    if st != 'ok' or r is None:
        return None if table(c) == before else 'evaluating %s changed a stored value' % text_of(tree)
    m = compare(model(tree, stored), shown(r.value, r.unit, c), '%s with %s' % (text_of(tree), [text_of(s) for s in stored]))
    if m:
        return m
    if table(c) != before:
        return 'evaluating %s changed a stored value: %s' % (text_of(tree), [(k, before[k], table(c).get(k)) for k in before if table(c).get(k) != before[k]][:1])
    return None


SETTINGS = [['a', '0x10'], ['b', '10%'], ['n', '7.5'], ['m', '3 meters'], ['k', '0x20 km'], ['s', "'0x1F'"], ['arr', '[0x10, 5, 0b11]'], ['ab', '[3, 4]'], ['mm', '[0x4 meters, 30 cm, 5%]'.replace(', 5%', ', 2 feet')],
            ['mix', "['x', 4, 0b1]"], ['u', '(newtons / kilogram)^1'], ['w', '(joules / meter)^1'], ['q', '[(6 newtons) / (3 kilograms), (0x8 joules) / (2 meters)]'],
            ['nn', '[[0x1, 2], [3 meters, 4]]'], ['flag', 'true'], ['t', '5 celsius'], ['ts', '[5 celsius, 0xA kelvin]'], ['f', '{PARAM1 + 1}'], ['g', '{element(PARAM1, 1) * 2}'], ['d', "'2020-01-02'"],
            ['p', '(12 newtons) / (0x4 kilograms)'], ['v', '10 km/h'.replace('/h', '/hour')], ['z', '3z102']]
NUMERIC = ['a', 'b', 'n', 'z', '5', '0b101', '3', '2.5E1', "'0x1F'", 's']
UNITY = ['m', 'k', '5 meters', '30 cm', '0x2 feet']
LISTS = ['arr', 'ab', '[1, 0x2]', '[a, n]', 'concat(arr, ab)', 'reverse(arr)', 'sort(arr)']
ULISTS = ['mm', 'q', '[m, k]', 'sort(mm)', 'reverse(mm)', '[p, p]']


def r_num(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.3:
        return rng.choice(NUMERIC)
    if x < 0.55:
        return '(%s %s %s)' % (r_num(rng, d - 1), rng.choice('+-*/'), r_num(rng, d - 1))
    if x < 0.75:
        return '%s(%s)' % (rng.choice(['sum', 'max', 'min', 'mean', 'median', 'mode', 'count', 'stdev']), r_list(rng, d - 1))
    if x < 0.85:
        return '%s(%s)' % (rng.choice(['abs', 'floor', 'ceil', 'round', 'dec', 'hex', 'bin', 'oct', 'scientific', '@f', 'exp']), r_num(rng, d - 1))
    if x < 0.93:
        return 'element(%s, %d)' % (r_list(rng, d - 1), rng.randint(1, 3))
    return rng.choice(['@g(%s)' % r_list(rng, d - 1), '(true then %s else %s)' % (r_num(rng, d - 1), r_num(rng, d - 1)), 'round(%s, 1)' % r_num(rng, d - 1), 'base(%s, 7)' % rng.choice(['a', 'n', '5']),
                       '(%s as hex)' % r_num(rng, d - 1), '(a xor 3)', '(a << 2)', '(not a)', '(%s as binary)' % r_num(rng, d - 1)])


def r_list(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.35:
        return rng.choice(LISTS)
    if x < 0.55:
        return '(%s %s %s)' % (r_list(rng, d - 1), rng.choice('+-*/'), r_num(rng, d - 1))
    if x < 0.7:
        return '%s(%s)' % (rng.choice(['sort', 'reverse', 'abs', 'hex', 'dec', 'round', 'floor']), r_list(rng, d - 1))
    if x < 0.85:
        return 'concat(%s, %s)' % (r_list(rng, d - 1), r_list(rng, d - 1))
    return rng.choice(['filter(%s, [true, false, true])' % r_list(rng, d - 1), 'element(nn, %d)' % rng.randint(1, 2), '[%s, %s]' % (r_num(rng, d - 1), r_num(rng, d - 1)), 'mix', 'nn', 'element(mix, 2)', 'ts'])


def r_unit(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.3:
        return rng.choice(UNITY)
    if x < 0.5:
        return '(%s %s %s)' % (r_unit(rng, d - 1), rng.choice('+-'), r_unit(rng, d - 1))
    if x < 0.65:
        return '(%s %s %s)' % (r_unit(rng, d - 1), rng.choice('*/'), r_num(rng, d - 1))
    if x < 0.8:
        return '%s(%s)' % (rng.choice(['sum', 'max', 'min', 'mean', 'median', 'stdev']), rng.choice(ULISTS))
    if x < 0.9:
        return '(%s to %s)' % (r_unit(rng, d - 1), rng.choice(['cm', 'feet', 'km', 'meters']))
    return 'element(%s, 1)' % rng.choice(ULISTS)


def r_other(rng, d):
    return rng.choice(['p', 'q', 'u', 'w', 't', 'ts', 'v', '6 u', '9 meters seconds^-2 to u', '5 joules meters^-1 to w', 'p to u', 'q to u', 'p + p', 'q + p', 'p * q', 'v to meters/second', 't to kelvin', 'ts to fahrenheit', 't + t',
                       'compact(p)', 'compact(k)', 'compact(mm)', 'sort(ts)', 'max(ts)', 'mm to cm', 'mm + m', 'concat(mm, q)', 'element(nn, 2)', 'filter(mm, [true, true, false])', 'count(mm, 3)', 'count(arr, 16)',
                       'format("x", a)'.replace('"', "'"), "replace(s, 'F', 'E')", 'lower(s)', 'upper(a)', 'join(arr, s)', 'd', 'flag and a > 3', 'a == 16', 'k > m', 'mm > m', 'regexget(s, a)', 'length(a)', "a + 'x'", "split(s, 'x')",
                       'q > p', 'u to u', 'p to w', 'v * 2', 'v / v', 'mm * mm', 'q / p', 'nn', 'mix', 'element(q, 1)', 'element(q, 1) to u', '[u, w]', 'sort(q)', 'max(q)', '2 * u', 'u * w', 'p^2', 'q^2', '-a', '-p', 'round(k, 1)', 'abs(mm)'])


def r_any(rng, d):
    x = rng.random()
    return (r_num if x < 0.3 else r_list if x < 0.5 else r_unit if x < 0.7 else r_other)(rng, d)


PROBES = ['%s', '3 %s', '%s + 0', 'element(%s, 1)', '%s to %s', '(%s)^1', '[%s]']


def twin(settings, on, fresh=[]):
    while len(fresh) < 2:
        fresh.append(calc('Computing', True))
    fresh.reverse()
    c = fresh[0]
    c.vars = {}
    c.update_engine_prec()
    c.number_set_rounding('ROUND_HALF_UP')
    for s in settings:
        c.unit_simplification_set(bool(on))
        evaluate('%s = %s' % tuple(s), c=c)
    return c


def result(text, c):
    st, r = evaluate(text, c=c)
    return ('error',) if st != 'ok' else shown(r.value, r.unit, c) if r is not None else None


def k_frame(settings, steps, on, later):
    """expressions evaluated on one of two calculators change nothing either will show later"""
    a, b = twin(settings, on), twin(settings, on)
    for s in steps:
        target, text = s
        before = table(a)
        result('%s = %s' % (target, text) if target else text, a)
        if target:
            result('%s = %s' % (target, text), b)
        after = table(a)
        for k in set(before) | set(after):
            if k != target and before.get(k) != after.get(k):
                return 'evaluating %s with %s changed %s: %s -> %s' % (s, settings, k, before.get(k), after.get(k))
    if table(a) != table(b):
        return 'after %s with %s the variables differ from those of a calculator that only saw the assignments' % (steps, settings)
    for name in list(table(a)):
        for mode in ([on, later] if on != later else [on]):
            for p in PROBES:
                ra, rb = [], []
                for c, r in ((a, ra), (b, rb)):
                    c.unit_simplification_set(bool(mode))
                    r.append(result(p.replace('%s', name), c))
                if ra != rb:
                    return 'after %s with %s: %s gives %s, on a calculator that only saw the assignments %s' % (steps, settings, p.replace('%s', name), ra[0], rb[0])
    return None


KINDS = {'form': k_form, 'frame': k_frame}


def r_tree(rng, d, stored, lists=True):
    """a random expression; lists only where lists is true"""
    x = rng.random()
    if d <= 0 or x < 0.25:
        if stored and rng.random() < 0.4:
            i = rng.randrange(len(stored))
            if stored[i][0] != 'l' or lists:
                return ['v', i]
        return ['n'] + list(rng.choice(LEAVES))
    if x < 0.5:
        return ['o', rng.choice('+-*/'), r_tree(rng, d - 1, stored, lists), r_tree(rng, d - 1, stored, lists)]
    if x < 0.62:
        fn = rng.choice(ROWS)
        return ['f', fn, [r_tree(rng, d - 1, stored, lists) for _ in range(rng.randint(1, 3) if fn in ('gcd', 'lcm') else 1)]]
    if x < 0.72:
        return ['f', rng.choice(sorted(GIVES)), [r_tree(rng, d - 1, stored, lists)]]
    if x < 0.86:
        fn = rng.choice(WHOLE)
        if rng.random() < 0.6:
            return ['f', fn, [r_list_tree(rng, d - 1, stored)]]
        return ['f', fn, [r_tree(rng, d - 1, stored, False) for _ in range(rng.randint(2, 3))]]
    if lists and x < 0.95:
        return r_list_tree(rng, d - 1, stored)
    l = r_list_tree(rng, 0, stored)
    return ['e', l, rng.randrange(len(l[1]))]


def r_list_tree(rng, d, stored):
    return ['l', [r_tree(rng, d - 1, stored, False) for _ in range(rng.randint(1, 3))]]


def search(S):
    rng = S.rng
    for op in '+-*/':
        for x in LEAVES[::3]:
            for y in LEAVES[1::4]:
                S.run('form', ['o', op, ['n'] + list(x), ['n'] + list(y)], [], 0)
    for fn in WHOLE:
        for xs in ((('5', None), ('0x10', 'x'), ('0b1', 'b')), (('0x10', 'x'), ('5', None), ('0b1', 'b')), (('5', None), ('6', None)), (('10%', '%'), ('0x10', 'x'))):
            S.run('form', ['f', fn, [['l', [['n', t, f] for t, f in xs]]]], [], 0)
            S.run('form', ['f', fn, [['n', t, f] for t, f in xs]], [], 0)
    n = 0
    while S.time_left():
        n += 1
        on = rng.randint(0, 1)
        if n % 2:
            stored = [r_list_tree(rng, 1, []) if rng.random() < 0.4 else r_tree(rng, 1, [], False) for _ in range(rng.randint(0, 3))]
            S.run('form', r_tree(rng, rng.randint(1, 4), stored), stored, on)
        else:
            names = rng.sample(range(len(SETTINGS)), rng.randint(6, 16))
            settings = [SETTINGS[i] for i in sorted(names)]
            steps = []
            for _ in range(rng.randint(1, 5)):
                target = rng.choice(['', '', '', 'c', 'e', rng.choice(settings)[0]])
                steps.append([target, r_any(rng, rng.randint(1, 3))])
            S.run('frame', settings, steps, on, rng.randint(0, 1))
