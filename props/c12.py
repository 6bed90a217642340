"""C12: operators apply in the order of the precedence table."""
import functools
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from modularcalculator import engine
from modularcalculator.engine import Engine
from modularcalculator.objects import items as items_mod
from modularcalculator.objects.items import OperandItem, OperandResult, OperatorItem
from modularcalculator.objects.operators import OperatorDefinition
from modularcalculator.objects.exceptions import CalculateException, CalculatingException, CalculatorException, ExecuteException
from modularcalculator.objects.units import UnitPowerList

ASSUMPTIONS = ['the operators of one level agree on their direction (add_op refuses anything else)',
               'reducing the tightest applicable operator first, leftmost (rightmost in a right-to-left level) first, is the same as bracketing by the table: '
               'a meta-level argument, checked on random expressions by the concrete oracle']

InLevel = z3.Function('InLevel', z3.IntSort(), z3.StringSort(), z3.BoolSort())
Rtl = z3.Function('Rtl', z3.IntSort(), z3.BoolSort())


class LevelSym(SExt):
    """some operator symbol of a level"""
    pyclass = str

    def __init__(self, level):
        self.level = level


class Level(SExt):
    """one precedence level of an arbitrary operator table"""
    pyclass = dict

    def __init__(self, idx):
        self.idx = idx

    def sx(self, it, op, *args):
        if op == 'contains':
            return SBool(InLevel(self.idx, M.zstr(args[0])))
        if op == 'iter':
            return [LevelSym(self)]
        return NotImplemented


class OpDef(SExt):
    def __init__(self, level):
        self.level = level

    def sx(self, it, op, *args):
        if op == 'attr' and args[0] == 'rtl':
            return SBool(Rtl(self.level.idx))
        return NotImplemented


class OpsList(SExt):
    pyclass = dict

    def sx(self, it, op, *args):
        if op == 'getitem' and isinstance(args[0], LevelSym):
            return OpDef(args[0].level)
        return NotImplemented


def element(ctx, i, errors=False):
    """one item of the flattened statement: operator, unit or value"""
    k = ctx.choose(3, 'kind')
    if k == 0:
        o = OperatorItem.__new__(OperatorItem)
        o.op = o.text = SStr(ctx.string('op'))
        o.truncated = False
    elif k == 1:
        o = OperandResult(UnitPowerList.__new__(UnitPowerList), None, None)
    else:
        o = OperandResult(ExecuteException('value', [], None) if errors else SOpaque('value'), None, None)
    o._INDEX = SInt(ctx.int('index'))
    ctx.alloc(o)
    return o


def is_op(o):
    return isinstance(o, OperatorItem)


def is_unit(o):
    return isinstance(o, OperandResult) and isinstance(o.value, UnitPowerList)


class State:
    """ghost state of one execute call"""

    def __init__(self, ctx, calc):
        self.ctx, self.calc = ctx, calc
        self.calls = []
        self.level = None
        self.pos = None
        self.done_inner = None
        self.done_all = False
        self.errors = False

    def rebind(self, fr):
        for nm in self.names:
            fr.locals[nm] = self.head

    def fresh(self, name):
        ctx = self.ctx
        n = ctx.int('len_' + name)
        ctx.assume(n >= 1)
        b = SBase(name, n, functools.partial(element, errors=self.errors))
        b.mk_alias = False
        self.base, self.n = b, n
        return ctx.alloc(SList.of(b))

    def item(self, t):
        """the item at position t, or None outside the list"""
        ctx = self.ctx
        if not ctx.branch(z3.And(t >= 0, t < self.n)):
            return None
        return self.base.get(ctx, t)

    def applies(self, t):
        """the contract: what the level does at position t -> (operator symbol, width) or None"""
        ctx, c, lv = self.ctx, self.calc, self.level
        cur, prev, nxt = self.item(t), self.item(z3.simplify(t - 1)), self.item(z3.simplify(t + 1))

        def has(sym):
            return sym is not None and ctx.branch(InLevel(lv.idx, z3.StringVal(sym)))
        if is_unit(cur) and prev is not None and not is_op(prev):
            if is_unit(prev):
                if has(c.unit_multiply_op):
                    return c.unit_multiply_op, 0        # two units side by side
            elif has(c.unit_assignment_op):
                return c.unit_assignment_op, 0          # a value and its unit
            return None
        if is_op(cur):
            op = cur.op.t
            between = is_unit(prev) if prev is not None else False
            between = between and nxt is not None and is_unit(nxt)
            if between and c.divide_op is not None and ctx.branch(op == z3.StringVal(c.divide_op)):
                if has(c.unit_divide_op):
                    return c.unit_divide_op, 1          # one unit divided by another
                return None
            for hidden in (c.unit_multiply_op, c.unit_divide_op, c.implicit_multiply_op):
                if hidden is not None and ctx.branch(op == z3.StringVal(hidden)):
                    return None
            if ctx.branch(InLevel(lv.idx, op)):
                return cur.op, 1
            return None
        if not is_unit(cur) and prev is not None and not is_op(prev):
            if has(c.implicit_multiply_op):
                return c.implicit_multiply_op, 0        # two values side by side
        return None


class OperandLoop(LoopSpec):
    """invariant: the first k items are replaced by their results"""

    def __init__(self, st, func, results):
        self.st, self.func, self.results = st, func, results

    def init(self, it, fr):
        self.names = [nm for nm, v in fr.locals.items() if v is self.st.oplist]

    def at(self, it, fr, k):
        v = self.st.oplist
        v.chunks = [('seg', self.results, z3.IntVal(0), k), ('seg', self.func, k, self.func.n)]
        for nm in self.names:
            fr.locals[nm] = v

    def havoc(self, it, fr, k):
        self.k = k
        self.at(it, fr, k)

    def exit(self, it, fr, n):
        self.at(it, fr, n)

    def step(self, it, fr, k):
        v = self.st.oplist
        if True:
            if True:
                it.ctx.prove('operands:each-evaluated-in-place', tidy(it, v) == [('seg', self.results, '0', str(z3.simplify(k + 1))), ('seg', self.func, str(z3.simplify(k + 1)), str(self.func.n))]
                             or same_split(it, v, self.results, self.func, z3.simplify(k + 1)))

    def may_write(self, obj):
        return isinstance(obj, (SList, OperandResult, OperatorItem))


def tidy(it, v):
    return [(c[0], c[1], str(c[2]), str(c[3])) for c in v.chunks if c[0] == 'seg']


def same_split(it, v, a, b, k):
    """v is a[0:k] followed by b[k:n]"""
    pos = z3.IntVal(0)
    for c in v.chunks:
        base = a if it.ctx.entails(pos < k) else b
        if c[0] == 'seg':
            if it.ctx.entails(c[2] == c[3]):
                continue
            if c[1] is not base or not it.ctx.entails(c[2] == pos):
                return False
            pos = c[3]
        else:
            if c[1] is not base.get(it.ctx, pos):
                return False
            pos = z3.simplify(pos + 1)
    return it.ctx.entails(pos == b.n)


class Outer(LoopSpec):
    """invariant: no operator of the levels before this one can be applied"""

    def __init__(self, st, levels):
        self.st, self.levels = st, levels

    def havoc(self, it, fr, k):
        self.st.level = self.levels.get(it.ctx, k)
        self.st.done_inner = None
        self.st.rebind(fr)

    def step(self, it, fr, k):
        it.ctx.prove('levels:next-level-only-when-this-one-has-nothing-to-apply', self.st.done_inner is self.st.level and not self.st.calls)

    def exit(self, it, fr, n):
        self.st.level = None
        self.st.done_all = True
        self.st.rebind(fr)

    def may_write(self, obj):
        return False


class Inner(LoopSpec):
    """invariant: nothing before this position (in the direction of the level) can be applied"""

    def __init__(self, st, at, n):
        self.st, self.at, self.n = st, at, n

    def init(self, it, fr):
        it.ctx.prove('scan:covers-every-item', self.n == self.st.n)

    def havoc(self, it, fr, k):
        st = self.st
        st.pos = M.to_int(self.at(k))
        st.rebind(fr)
        it.ctx.prove('scan:direction-of-the-level', st.pos == z3.If(Rtl(st.level.idx), st.n - 1 - k, k))

    def step(self, it, fr, k):
        st = self.st
        it.ctx.prove('scan:passed-over-only-what-does-not-apply', st.applies(st.pos) is None)
        it.ctx.prove('scan:passing-over-executes-nothing', not st.calls)

    def exit(self, it, fr, n):
        self.st.done_inner = self.st.level
        self.st.pos = None
        self.st.rebind(fr)

    def may_write(self, obj):
        return False


class Main:
    """the main loop: each iteration applies exactly the operator the table says, or ends"""

    def __init__(self, st):
        self.st = st

    def init(self, it, fr):
        st = self.st
        it.ctx.prove('operands:all-evaluated', is_exactly(it, st.oplist, st.results))
        st.names = [nm for nm, v in fr.locals.items() if v is st.oplist]

    def havoc(self, it, fr, k):
        self.st.head = self.st.fresh('state')
        self.st.rebind(fr)

    def step(self, it, fr, k):
        st, ctx = self.st, it.ctx
        ctx.prove('step:exactly-one-application', len(st.calls) == 1)
        sym, lst, i, width, res = st.calls[0]
        ctx.prove('step:at-the-scan-position', st.pos is not None and M.to_int(i) == st.pos)
        want = st.applies(st.pos)
        ctx.prove('step:operator-applies-here', want is not None)
        if want is not None:
            ctx.prove('step:right-operator', sym is want[0] or (isinstance(sym, str) and sym == want[0]) or
                      (is_sym(sym) and is_sym(want[0]) and ctx.entails(sym.t == want[0].t)))
            ctx.prove('step:width', width == want[1])
        ctx.prove('step:on-the-current-items', lst is st.head)
        ctx.prove('step:result-becomes-the-items', any(fr.locals.get(nm) is res for nm in st.names))

    def may_write(self, obj):
        return False


def is_exactly(it, l, base):
    pos = z3.IntVal(0)
    if not isinstance(l, SList):
        return False
    for c in l.chunks:
        if c[0] == 'seg':
            if it.ctx.entails(c[2] == c[3]):
                continue
            if c[1] is not base or not it.ctx.entails(c[2] == pos):
                return False
            pos = c[3]
        else:
            if c[1] is not base.get(it.ctx, pos):
                return False
            pos = z3.simplify(pos + 1)
    return it.ctx.entails(pos == base.n)


def u_execute(ctx, units, implicit, rtl):
    it = Interp(ctx)
    every = z3.Int('any_level')
    ctx.assume(z3.ForAll([every], Rtl(every) == rtl))
    nl = ctx.int('nlevels')
    ctx.assume(nl >= 0)
    levels = SBase('levels', nl, lambda c, i: Level(i))
    levels.mk_alias = False
    calc = mk_calc(ctx, ops=SList.of(levels), ops_list=OpsList(), divide_op='/', multiply_op='*',
                   implicit_multiply_op='IMPLICIT_MULTIPLY' if implicit else None,
                   unit_assignment_op='UNIT_ASSIGNMENT' if units else None, unit_multiply_op='UNIT_MULTIPLY' if units else None,
                   unit_divide_op='UNIT_DIVIDE' if units else None, unit_normaliser=None)
    st = State(ctx, calc)
    st.errors = rtl      # the values at hand may be errors: it makes no difference to the order
    nf = ctx.int('nfunctional')
    ctx.assume(nf >= 0)
    orig = SList.of(SBase('original', ctx.int('noriginal'), lambda c, i: SOpaque('item')))
    ctx.assume(orig.length() >= nf)
    func = SBase('functional', nf, lambda c, i: SOpaque('functional item'))
    func.mk_alias = False
    results = SBase('results', nf, lambda c, i: c.alloc(OperandResult(SOpaque('v'), None, None)))
    results.mk_alias = False
    st.results = results

    def functional(it_, args, kw):
        l = ctx.alloc(SList.of(func))
        l.is_items = True
        st.oplist = l
        return l
    it.contracts[items_mod.functional_items] = functional
    it.contracts[items_mod.copy_items] = lambda it_, args, kw: ctx.alloc(args[0].copy())
    opl = OperandLoop(st, func, results)

    def operand(it_, args, kw):
        ctx.prove('operands:the-item-in-its-place', args[1] is func.get(ctx, opl.k))
        return results.get(ctx, opl.k)
    it.contracts[Engine.execute_operand] = operand

    def operator(it_, args, kw):
        _self, sym, lst, i, width = args[:5]
        if ctx.choose(2, 'malformed') == 1:
            raise PyRaise(ExecuteException('Missing operands', [], None))
        res = SList.of(SBase('next', ctx.int('nnext'), element))
        st.calls.append((sym, lst, i, width, res))
        return res
    it.contracts[Engine.execute_operator] = operator
    it.contracts[OperandResult.to_string] = lambda it_, args, kw: SStr(ctx.string('text'))
    it.contracts[Engine.restore_non_functional_items] = lambda it_, args, kw: args[1]

    def loops(it_, node, fr, seq):
        if isinstance(seq, SEnumerate):
            return opl
        n, at = M.sym_iter(it_, seq)
        if isinstance(seq, SList):
            return Outer(st, levels)
        return Inner(st, at, n)
    it.loop_specs.append(loops)
    it.while_specs.append(lambda it_, node, fr: Main(st))
    r_st, r = run(it, Engine.execute, calc, orig, {})
    if r_st == 'raise':
        ctx.prove('only-calculator-errors', isinstance(r, CalculateException), repr(r))
        ctx.cover('error')
        return
    ctx.prove('ends-only-when-nothing-is-left-to-apply', st.done_all and not st.calls)
    ctx.prove('result-is-the-one-item-left', ctx.entails(st.n == 1) and r is st.base.get(ctx, z3.IntVal(0)) and isinstance(r, OperandResult))
    ctx.cover('end')


SHAPES = [([], [1]), ([1], []), ([1], [1]), ([1], [1, 'else', 1]), ([1], ['of', 1]), ([1, 1], []), ([], [1, 1])]


def u_operator(ctx, shape):
    """one application: exactly the declared operands are consumed and replaced by the result"""
    it = Interp(ctx)
    L, R = shape
    width = 1
    if (L, R) == ([1], [1]):
        width = ctx.choose(2, 'width')
    op = OperatorDefinition.__new__(OperatorDefinition)
    op.linputs, op.rinputs = list(L), list(R)
    calls = []
    res = OperandResult(SOpaque('result'), None, None)

    def call(it_, calc_, inputs, flags):
        calls.append(list(inputs))
        if ctx.choose(2, 'fails') == 1:
            raise PyRaise([CalculatorException('op'), ExecuteException('op', [], None)][ctx.choose(2, 'exc')])
        return res
    op.call = Stub(call, 'call')
    calc = mk_calc(ctx, ops_list={'op': op})
    n = ctx.int('n')
    i = ctx.int('i')
    ctx.assume(z3.And(i >= 0, i < n))

    def mk(c, j):
        k = c.choose(3, 'kind')
        if k == 0:
            o = OperandResult(SOpaque('value'), None, None)
        else:
            o = OperatorItem.__new__(OperatorItem)
            o.op = o.text = ['else', 'of'][k - 1]
            o.truncated = False
        o._INDEX = SInt(c.int('index'))
        return c.alloc(o)
    base = SBase('items', n, mk)
    base.mk_alias = False
    items = SList.of(base)
    orig = SList.of(SBase('original', ctx.int('noriginal'), lambda c, j: SOpaque('item')))
    if width == 1:
        this = OperatorItem('op')
        this._INDEX = SInt(ctx.int('opindex'))
        base.memo.append((i, this))
    st, r = run(it, Engine.execute_operator, calc, 'op', items, SInt(i), width, orig, {})
    lo, hi = z3.simplify(i - len(L)), z3.simplify(i + width + len(R))
    ctx.prove('at-most-one-call', len(calls) <= 1)
    slots = [(z3.simplify(lo + j), e) for j, e in enumerate(L)] + [(z3.simplify(i + width + j), e) for j, e in enumerate(R)]

    def fit(t, e):
        o = base.get(ctx, t)
        return isinstance(o, OperandResult) if e == 1 else (isinstance(o, OperatorItem) and o.op == e)
    if st == 'raise':
        ctx.prove('calculator-error', isinstance(r, ExecuteException), repr(r))
        ctx.prove('not-called', not calls)
        inside = ctx.branch(z3.And(lo >= 0, hi <= n))
        ctx.prove('fails-only-when-operands-are-missing-or-wrong', not inside or not all(fit(t, e) for t, e in slots))
        ctx.cover('error')
        return
    ctx.prove('operands-exist', z3.And(lo >= 0, hi <= n))
    ctx.prove('operands-fit', all(fit(t, e) for t, e in slots))
    want = [base.get(ctx, t) for t, e in slots if e == 1]
    ctx.prove('called-once-with-exactly-the-declared-operands-in-order', len(calls) == 1 and len(calls[0]) == len(want) and all(a is b for a, b in zip(calls[0], want)))
    # the rest of the list is untouched
    l = r if isinstance(r, SList) else SList([('el', x) for x in r])
    els = [c for c in l.chunks if c[0] == 'el']
    ctx.prove('one-result', len(els) == 1 and isinstance(els[0][1], OperandResult) and (els[0][1] is res or isinstance(els[0][1].value, ExecuteException)))
    before = [c for c in l.chunks[:l.chunks.index(els[0])]] if els else []
    after = [c for c in l.chunks[l.chunks.index(els[0]) + 1:]] if els else []
    ctx.prove('items-before-untouched', covers(it, before, base, z3.IntVal(0), lo))
    ctx.prove('items-after-untouched', covers(it, after, base, hi, n))
    ctx.cover('end')


def covers(it, chunks, base, lo, hi):
    pos = lo
    for c in chunks:
        if it.ctx.entails(c[2] == c[3]):
            continue
        if c[1] is not base or not it.ctx.entails(c[2] == pos):
            return False
        pos = c[3]
    return it.ctx.entails(pos == hi)


# The precedence table of the documentation, tightest first.
TABLE = ['^', 'not ~', '=~ !~', 'UNIT_MULTIPLY UNIT_DIVIDE', 'UNIT_ASSIGNMENT', 'IMPLICIT_MULTIPLY', '* / % *$ \\', '+ - +$ +% -%', '<< >>',
         '< > <= >= <$ >$ <=$ >=$ <~ >~ <=~ >=~', '== != ==$ !=$ ==~ !=~', '&', '| ^^', 'and or xor', 'then', 'to as', '= ++ -- += -= *= /= ^= %= \\= ||=']
TABLE = [set(s.split(' ')) for s in TABLE]
PREFIX = {'not', '~'}
POSTFIX = {'++', '--'}
RTL = {'not', '~'}


def u_table(ctx):
    from modularcalculator.modularcalculator import ModularCalculator
    for preset in ('Basic', 'Advanced', 'Computing'):
        if preset not in ModularCalculator().list_presets():
            continue
        c = ModularCalculator(preset)
        where = {s: k for k, lv in enumerate(c.ops) for s in lv}
        known = {s: k for k, lv in enumerate(TABLE) for s in lv}
        for a in where:
            ctx.prove('operator-in-the-table:' + a, a in known)
            for b in where:
                if a in known and b in known:
                    ctx.prove('precedence:%s:%s' % (a, b), (where[a] < where[b]) == (known[a] < known[b]) and (where[a] == where[b]) == (known[a] == known[b]))
            o = c.ops_list[a]
            ctx.prove('direction:' + a, bool(o.rtl) == (a in RTL))
            shape = ([], [1]) if a in PREFIX else ([1], []) if a in POSTFIX else ([1], [1, 'else', 1]) if a == 'then' else ([1], [1])
            ctx.prove('operands:' + a, (list(o.linputs), list(o.rinputs)) == shape)
    ctx.cover('end')


UNITS = [('execute%s%s, %s to %s' % (', units' if u else '', ', implicit multiplication' if m else '', *(('right', 'left') if r else ('left', 'right'))),
          functools.partial(u_execute, units=u, implicit=m, rtl=r), {'max_paths': 6000, 'seconds': 300})
         for u in (True, False) for m in (True, False) for r in (True, False)]
UNITS += [('execute_operator %s op %s' % sh, functools.partial(u_operator, shape=sh), {'max_paths': 4000}) for sh in SHAPES]
UNITS += [('installed table', u_table)]


# ------------------------------------------------------------ concrete oracle: an independent parser of token sequences
from pyvc import concrete as CC
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.items import LiteralItem, functional_items

SHAPE = {}
for _l in TABLE:
    for _s in _l:
        SHAPE[_s] = ([], [1]) if _s in PREFIX else ([1], []) if _s in POSTFIX else ([1], [1, 'else', 1]) if _s == 'then' else ([1], [1])
HIDDEN = ('UNIT_MULTIPLY', 'UNIT_DIVIDE', 'UNIT_ASSIGNMENT', 'IMPLICIT_MULTIPLY')


class Malformed(Exception):
    pass


def isop(x):
    return isinstance(x, str)


def joined(sym, args):
    return {'t': (sym,) + tuple(a['t'] for a in args), 'unit': sym in HIDDEN[:2] or (sym == '^' and args[0]['unit'])}


def fold(seq, level, rtl, shapes, present):
    """one pass over the sequence: the operators of one level"""
    if rtl:
        shapes = {k: (r[::-1], l[::-1]) for k, (l, r) in shapes.items()}
        seq = seq[::-1]
    out = []
    i = 0

    def apply(sym, left, right):
        # left operands come from what is already folded, right operands from what follows
        nonlocal i
        args = []
        if len(out) < len(left) or len(seq) - i < len(right):
            raise Malformed()
        ls = out[len(out) - len(left):] if left else []
        del out[len(out) - len(left):]
        rs = seq[i:i + len(right)]
        i += len(right)
        for want, got in list(zip(left, ls)) + list(zip(right, rs)):
            if want == 1:
                if isop(got):
                    raise Malformed()
                args.append(got)
            elif got != want:
                raise Malformed()
        out.append(joined(sym, args[::-1] if rtl else args))
    while i < len(seq):
        x = seq[i]
        i += 1
        prev = out[-1] if out else None
        if isop(x):
            nxt = seq[i] if i < len(seq) else None
            if x == '/' and present.get('UNIT_DIVIDE') and prev is not None and not isop(prev) and prev['unit'] and nxt is not None and not isop(nxt) and nxt['unit']:
                if 'UNIT_DIVIDE' in level:
                    apply('UNIT_DIVIDE', [1], [1])
                else:
                    out.append(x)
            elif x in level and x not in HIDDEN:
                apply(x, *shapes[x])
            else:
                out.append(x)
            continue
        if prev is not None and not isop(prev) and not rtl:
            h = None
            if x['unit']:
                h = 'UNIT_MULTIPLY' if prev['unit'] else 'UNIT_ASSIGNMENT'
            else:
                h = 'IMPLICIT_MULTIPLY'
            if h in level and present.get(h):
                i -= 1
                apply(h, [1], [1])
                continue
        out.append(x)
    return out[::-1] if rtl else out


def tree(tokens, levels, rtl, shapes, present):
    """tokens: operator symbols, leaves ('n', label) / ('u', label), or nested lists (bracketed) -> tree | Malformed"""
    seq = []
    for t in tokens:
        if isinstance(t, str):
            seq.append(t)
        elif t[0] == '(':
            try:
                seq.append({'t': ('()', tree(t[1], levels, rtl, shapes, present)['t']), 'unit': False})
            except Malformed:
                seq.append({'t': 'error', 'unit': False})       # an error is a value of its own
        else:
            seq.append({'t': t[1], 'unit': t[0] == 'u'})
    for level in levels:
        seq = fold(seq, level, any(s in rtl for s in level), shapes, present)
    for level in levels:
        seq = fold(seq, level, any(s in rtl for s in level), shapes, present)
    if len(seq) != 1 or isop(seq[0]):
        raise Malformed()
    return seq[0]


def strip(t):
    """the brackets carry no meaning beyond grouping"""
    if not isinstance(t, tuple):
        return t
    if t[0] == '()':
        return strip(t[1])
    return (t[0],) + tuple(strip(x) for x in t[1:])


class TraceUnit(UnitPowerList):
    pass


def label(inp):
    v = inp.value
    if hasattr(v, 'trace'):
        return v.trace
    if isinstance(v, UnitPowerList):
        return str(v)[:-2]
    if isinstance(v, CC.Number):
        return str(int(v.num))
    return 'error' if isinstance(v, Exception) else str(v)


class TraceValue:
    pass


def traced_op(op, sym, log):
    from copy import copy
    o = copy(op)

    def call(calculator, inputs, flags):
        unit = isinstance(inputs[0].value, UnitPowerList) and (sym in HIDDEN[:2] or sym == '^')
        v = TraceUnit() if unit else TraceValue()
        v.trace = (sym,) + tuple(label(i) for i in inputs)
        log.append(sym)
        return OperandResult(v, None, None)
    o.call = call
    return o


_TRACED = {}


def traced(preset):
    if preset not in _TRACED:
        c = CC.calc(preset, True)
        c.trace_log = []
        c.ops_list = {s: traced_op(o, s, c.trace_log) for s, o in c.ops_list.items()}
        c.ops = [{s: c.ops_list[s] for s in lv} for lv in c.ops]
        _TRACED[preset] = c
    c = _TRACED[preset]
    del c.trace_log[:]
    c.vars = {}
    return c


def text_of(tokens):
    out = []
    for t in tokens:
        if isinstance(t, str):
            out.append(t)
        elif t[0] == '(':
            out.append('(' + text_of(t[1]) + ')')
        else:
            out.append(t[1])
    return ' '.join(out)


def ops_in(tokens):
    out = set()
    for t in tokens:
        if isinstance(t, str):
            out.add('then' if t == 'else' else t)
        elif t[0] == '(':
            out |= ops_in(t[1])
    return out


def detuple(tokens):
    return [t if isinstance(t, str) else (t[0], detuple(t[1])) if t[0] == '(' else tuple(t) for t in tokens]


def count_ops(t):
    return 0 if not isinstance(t, tuple) else 1 + sum(count_ops(x) for x in t[1:])


def k_trace(preset, tokens):
    """which operator is applied to what, compared with the independent parser"""
    tokens = detuple(tokens)
    c = traced(preset)
    text = text_of(tokens)
    present = {s: s in c.ops_list for s in HIDDEN}
    if not ops_in(tokens) <= set(c.ops_list):
        return None
    if not present['UNIT_ASSIGNMENT'] and "('u'," in repr(tokens):
        return None
    try:
        want = strip(tree(tokens, TABLE, RTL, SHAPE, present)['t'])
    except Malformed:
        want = 'error'
    try:
        sts, _n, _f = c.parse(text, {})
    except (CalculateException, CalculatingException):
        return None
    if len(sts) != 1:
        return None
    if [len(str(x.text)) for x in functional_items(sts[0])] != [len(text_of([t])) for t in tokens]:
        return None     # the text was read as other tokens
    del c.trace_log[:]
    try:
        r = c.execute(sts[0], {})
        got = 'error' if isinstance(r.value, Exception) else label(r)
    except CalculateException:
        got = 'error'
    if got != want:
        return '%s is applied as %s, not %s' % (text, got, want)
    if "error" not in repr(got) and len(c.trace_log) != count_ops(want):
        return '%s applies %d operators, not %d: %s' % (text, len(c.trace_log), count_ops(want), c.trace_log)
    return None


def k_table(levels, tokens):
    """the same with an arbitrary operator table: levels = [[[symbol, linputs, rinputs, rtl]]]"""
    c = ModularCalculator()
    c.op_map = [{o[0] for o in lv} for lv in levels]
    shapes, rtl, log = {}, set(), []
    for lv in levels:
        for sym, li, ri, r in lv:
            op = OperatorDefinition('t', sym, 't', None, li, ri, None)
            shapes[sym] = (list(li), list(ri))
            if r:
                rtl.add(sym)
            c.add_op(traced_op(op, sym, log), {'rtl': bool(r)})
    c.setup()
    c.ops_list = dict(c.ops_list)
    try:
        want = strip(tree(detuple(tokens), [[o[0] for o in lv] for lv in levels], rtl, shapes, {})['t'])
    except Malformed:
        want = 'error'
    items = [OperatorItem(t) if isinstance(t, str) else LiteralItem(t[1], t[1]) for t in tokens]
    try:
        r = c.execute(items, {})
        got = label(r)
    except CalculateException:
        got = 'error'
    if got != want:
        return '%s with table %s is applied as %s, not %s' % (text_of(detuple(tokens)), levels, got, want)
    if got != 'error' and len(log) != count_ops(want):
        return '%s applies %d operators, not %d' % (tokens, len(log), count_ops(want))
    return None


def bracketed(t):
    if not isinstance(t, tuple):
        return t
    sym, a = t[0], [bracketed(x) for x in t[1:]]
    sub = ['(%s)' % x if isinstance(y, tuple) else x for x, y in zip(a, t[1:])]
    if sym == 'then':
        return '%s then %s else %s' % tuple(sub)
    if sym in PREFIX:
        return '%s %s' % (sym, sub[0])
    if sym in POSTFIX:
        return '%s%s' % (sub[0], sym)
    if sym == 'IMPLICIT_MULTIPLY':
        return '(%s) (%s)' % tuple(a)
    return '%s %s %s' % (sub[0], sym, sub[1])


def k_value(preset, tokens):
    """the value of the text and of its fully bracketed form"""
    tokens = detuple(tokens)
    text = text_of(tokens)
    present = {s: True for s in HIDDEN}
    try:
        t = strip(tree(tokens, TABLE, RTL, SHAPE, present)['t'])
    except Malformed:
        return None
    if "'error'" in repr(t):
        return None
    full = bracketed(t)

    def ev(e):
        c = CC.calc(preset)
        st, r = CC.evaluate(e, c=c)
        return ('error',) if st == 'error' else CC.shown(r.value, r.unit, c)
    a, b = ev(text), ev(full)
    if a != b:
        return '%s gives %s but %s gives %s' % (text, a, full, b)
    return None


KINDS = {'trace': k_trace, 'table': k_table, 'value': k_value}
SEARCH_SECONDS = (25, 200)

VISIBLE = [s for lv in TABLE for s in lv if s not in HIDDEN]
BINARY = sorted(s for s in VISIBLE if s not in PREFIX and s not in POSTFIX and s != 'then')


def gen_tokens(rng, n, depth=0, ops=None, units=True, leaf=None, numbers=True):
    count = [0]

    def leafs():
        if leaf is not None:
            return leaf(rng)
        count[0] += 1
        if depth < 2 and rng.random() < 0.12:
            return ('(', gen_tokens(rng, rng.randint(1, 3), depth + 1, ops, units))
        return ('n', str(rng.randint(1, 99)))
    ops = ops or BINARY

    def operand():
        out = []
        while rng.random() < 0.12:
            out.append(rng.choice(sorted(PREFIX)))
        out.append(leafs())
        if units and rng.random() < 0.3:
            out.append(('u', rng.choice(['kilometers', 'hours', 'kilograms', 'inches'])))
            while rng.random() < 0.5:
                k = rng.random()
                if k < 0.35:
                    out += ['^', ('n', str(rng.randint(1, 3)))]
                elif k < 0.7:
                    out += ['/', ('u', rng.choice(['kilometers', 'hours', 'kilograms']))]
                else:
                    out.append(('u', rng.choice(['kilometers', 'hours', 'kilograms'])))
        elif rng.random() < 0.06:
            out.append(('(', [leafs()]))
        return out
    seq = operand()
    for _ in range(n - 1):
        if rng.random() < 0.1:
            seq += ['then'] + operand() + ['else'] + operand()
        else:
            seq += [rng.choice(ops)] + operand()
    return seq


def search(S):
    import itertools
    rng = S.rng
    A, B, C = ('n', '5'), ('n', '3'), ('n', '2')
    presets = [p for p in ('Computing', 'Advanced', 'Basic') if p in ModularCalculator().list_presets()] or ['Computing']
    # every pair of operators, in the traced and in the real calculator
    pairs = list(itertools.product(BINARY, BINARY))
    rng.shuffle(pairs)
    for x, y in pairs:
        if not S.time_left():
            break
        S.run('trace', presets[0], [A, x, B, y, C])
    for x in BINARY:
        for seq in ([A, x, B, 'then', C, 'else', A], [A, 'then', B, x, C, 'else', A], [A, 'then', B, 'else', C, x, A], ['not', A, x, B], ['~', A, x, 'not', B], [A, x, 'not', '~', B],
                    [A, x, B, ('u', 'kilometers')], [A, ('u', 'kilometers'), x, B, ('u', 'kilometers')], [('u', 'kilometers'), x, ('u', 'hours')], [A, ('u', 'kilometers'), x, ('u', 'kilometers'), '^', C],
                    [A, ('(', [B]), x, C], [A, x, B, ('(', [C])], [x, A], [A, x], [A, x, x, B], [('(', [A, '+', B]), x, C], [A, x, B, '++'], ['x', x]):
            if S.time_left():
                S.run('trace', presets[0], seq)
    arith = ['+', '-', '*', '/', '%', '\\', '^', '<', '<=', '==', '!=', 'and', 'or', 'xor', '&', '|', '^^', '<<', '>>', '+', '*', '-', '/', '>', '>=']

    def small(r):
        return ('n', str(r.randint(0, 4)))
    syms = list('abcdefgh')
    while S.time_left():
        k = rng.random()
        if k < 0.4:
            t = gen_tokens(rng, rng.randint(1, 9), units=rng.random() < 0.7)
            if rng.random() < 0.1:
                t.insert(rng.randrange(len(t) + 1), rng.choice(BINARY + ['not', 'then', 'else']))
            elif rng.random() < 0.1:
                t.pop(rng.randrange(len(t)))
            elif rng.random() < 0.1:
                t.append(rng.choice(sorted(POSTFIX)))
            if t:
                S.run('trace', rng.choice(presets), t)
        elif k < 0.65:
            t = gen_tokens(rng, rng.randint(2, 7), ops=arith, units=False, leaf=small)
            S.run('value', 'Computing', t)
        else:
            levels = []
            pool = syms[:rng.randint(2, 8)]
            names = iter(pool)
            left = len(pool)
            while left:
                m = rng.randint(1, min(3, left))
                left -= m
                r = rng.random() < 0.4
                lv = []
                for _ in range(m):
                    kk = rng.random()
                    li, ri = ([1], [1]) if kk < 0.55 else ([], [1]) if kk < 0.7 else ([1], []) if kk < 0.8 else ([1], [1, 'Q', 1]) if kk < 0.9 else ([1, 1], [1]) if kk < 0.95 else ([], [1, 1])
                    lv.append([next(names), li, ri, r])
                levels.append(lv)
            t = []
            n = rng.randint(1, 8)
            flat = [o for lv in levels for o in lv]
            t = [('n', 'v0')]
            for j in range(1, n):
                o = rng.choice(flat)
                if o[1] == [] and o[2] == [1]:
                    if rng.random() < 0.7:
                        t.insert(len(t) - 1, o[0])
                        continue
                t.append(o[0])
                for e in o[2]:
                    t.append('Q' if e == 'Q' else ('n', 'v%d_%d' % (j, len(t))))
                if o[1] == [1, 1]:
                    t.insert(0, ('n', 'w%d' % j))
            S.run('table', levels, t)
