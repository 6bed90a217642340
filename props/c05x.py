"""C05, second half: where a statement that cannot be executed went wrong.

Every function an execution error passes through has a contract about the items the error carries:
  execute_operand / execute_operator   a count of functional items of the statement (the place of the error among them)
  restore_non_functional_items         turns the count into the items of the text before that place
  execute                              hands every error through restore_non_functional_items, with its own two copies of the items
  FunctionItem.value, FunctionPointerItem.value, ArrayItem.value, ArrayElement.value, InnerExpressionItem.value
                                       cut themselves down to the text before the place
"""
from pyvc.lib import *  # noqa: F401,F403
from pyvc import models as M
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc.interp import LoopSpec, stored_names
from pyvc.values import SBase, SExt, SList
from modularcalculator.engine import Engine
from modularcalculator.objects import exceptions as X, items as items_mod
from modularcalculator.objects.exceptions import CalculateException, CalculatorException, ExecuteException
from modularcalculator.objects.items import Item, OperandItem, OperandResult, OperatorItem
from modularcalculator.objects.operators import OperatorDefinition
from modularcalculator.objects.units import UnitPowerList
from modularcalculator.features.arrays.arrays import ArrayElement, ArrayItem
from modularcalculator.features.structure.functionpointers import FunctionPointerItem
from modularcalculator.features.structure.functions import FunctionItem, FunctionParamItem
from modularcalculator.features.structure.innerexpressions import InnerExpressionItem

I_ = z3.IntSort()


def chunks(l):
    return list(l.chunks) if isinstance(l, SList) else [('el', x) for x in l]


def is_prefix(ctx, l, base, hi):
    """the list is exactly base[0:hi]"""
    pos = z3.IntVal(0)
    for c in chunks(l):
        if c[0] == 'el':
            if c[1] is not base.get(ctx, pos):
                return False
            pos = z3.simplify(pos + 1)
        else:
            if ctx.entails(c[2] == c[3]):
                continue
            if c[1] is not base or not ctx.entails(c[2] == pos):
                return False
            pos = c[3]
    return ctx.entails(pos == hi)


def is_prefix_then(ctx, l, base, hi, rest):
    """the list is exactly base[0:hi] followed by the whole of the list rest"""
    tail = chunks(rest)
    ch = [c for c in chunks(l) if c[0] == 'el' or not ctx.entails(c[2] == c[3])]
    tail = [c for c in tail if c[0] == 'el' or not ctx.entails(c[2] == c[3])]
    if len(ch) < len(tail):
        return False
    for a, b in zip(ch[len(ch) - len(tail):], tail):
        if a[0] != b[0] or a[1] is not b[1] or a[0] == 'seg' and not ctx.entails(z3.And(a[2] == b[2], a[3] == b[3])):
            return False
    return is_prefix(ctx, SList(ch[:len(ch) - len(tail)]), base, hi)


def error(items, nxt=None, truncated=False, message='message'):
    e = ExecuteException.__new__(ExecuteException)
    e.message, e.items, e.next, e.truncated = message, items, nxt, truncated
    e.args = (message,)
    return e


# ------------------------------------------------------------ restore_non_functional_items
class Member(SExt):
    """item i of a statement; the copies of one item agree on whether it is functional"""
    pyclass = Item

    def __init__(self, name, i, w):
        self.name, self.i, self.w = name, i, w

    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'functional':
            self.w.count_at(it.ctx, self.i)
            return SBool(self.w.fn(self.i))
        return NotImplemented


class Walk(LoopSpec):
    """after k items: the count is the number of functional ones among them, the list is the part of them that lies before the error"""

    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        import ast
        lists = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        ints = [nm for nm, v in fr.locals.items() if nm in self.names and isinstance(v, (int, SInt)) and it.ctx.entails(M.to_int(v) == 0)]
        used = {x.slice.id for nd in self.body for x in ast.walk(nd) if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name)}
        self.pos = [nm for nm in ints if nm in used]
        self.cnt = [nm for nm in ints if nm not in used]
        ok = len(lists) == 1 and len(self.pos) == (0 if self.counted else 1) and len(self.cnt) == 1
        if not ok:
            raise Undecided('restore: the loop does not carry a position, a count and a list')
        self.lst = lists[0]

    def havoc(self, it, fr, k):
        ctx, w = it.ctx, self.w
        ctx.assume(z3.And(k <= w.n, w.cnt(k) >= 0, w.cnt(k) <= w.maxi + 1))
        if self.pos:
            fr.locals[self.pos[0]] = SInt(k)
        fr.locals[self.cnt[0]] = SInt(w.cnt(k))
        # where the list ends
        if not w.truncated:
            w.count_at(ctx, z3.simplify(k - 1))
            ctx.assume(z3.Implies(w.cnt(k) == w.maxi + 1, z3.And(k >= 1, w.fn(k - 1), w.cnt(k - 1) == w.maxi)))
            self.end = z3.simplify(z3.If(w.cnt(k) <= w.maxi, k, k - 1))
        elif ctx.branch(w.cnt(k) < w.maxi):
            self.end = k
        else:
            p = ctx.int('p')
            ctx.assume(z3.And(p >= 1, p <= k, w.fn(p - 1), w.cnt(p) == w.maxi, w.cnt(p - 1) == w.maxi - 1))
            self.end = p
        if ctx.branch(self.end == k):
            self.end = k
        self.open = ctx.branch(w.cnt(k) < w.maxi) if w.truncated else None
        self.mine = ctx.alloc(SList([('seg', w.restored, z3.IntVal(0), self.end)]))
        fr.locals[self.lst] = self.mine
        w.at = (k, self.end)

    def step(self, it, fr, k):
        ctx, w = it.ctx, self.w
        w.count_at(ctx, k)
        if self.pos:
            ctx.prove('restore:position-moves-to-the-next', M.to_int(fr.locals[self.pos[0]]) == k + 1)
        ctx.prove('restore:counts-the-functional-items', M.to_int(fr.locals[self.cnt[0]]) == w.cnt(k + 1))
        if not w.truncated:
            want = z3.simplify(z3.If(w.cnt(k + 1) <= w.maxi, k + 1, k))
        else:
            want = z3.simplify(k + 1) if self.open else self.end
        got = fr.locals[self.lst]
        ctx.prove('restore:keeps-exactly-what-lies-before-the-error', is_prefix(ctx, got, w.restored, want))

    def exit(self, it, fr, n):
        self.havoc(it, fr, n)

    def may_write(self, obj):
        return obj is self.mine


def u_restore(ctx):
    it = Interp(ctx)

    class W:
        pass
    w = W()
    w.fn, w.cnt = z3.Function('functional', I_, z3.BoolSort()), z3.Function('count', I_, I_)
    w.n, w.maxi = ctx.int('items'), ctx.int('items of the error')
    ctx.inputs.update({'items': w.n, 'items of the error': w.maxi})
    ctx.assume(z3.And(w.n >= 0, w.maxi >= 0, w.cnt(z3.IntVal(0)) == 0))
    w.truncated = ctx.choose(2, 'truncated') == 1
    if w.truncated:
        ctx.assume(w.maxi >= 1)

    def count_at(c, i):
        c.assume(z3.Implies(i >= 0, w.cnt(i + 1) == w.cnt(i) + z3.If(w.fn(i), 1, 0)))
    w.count_at = count_at
    orig = SBase('executed items', w.n, lambda c, i: Member('executed', i, w))
    very = SBase('untouched items', w.n, lambda c, i: Member('untouched', i, w))
    orig.mk_alias = very.mk_alias = False

    def restored(c, i):
        if w.truncated and not c.branch(w.cnt(i) < w.maxi - 1):
            return orig.get(c, i)
        return very.get(c, i)
    w.restored = SBase('items before the error', w.n, restored)
    w.restored.mk_alias = False
    e = error(SList.of(SBase('items of the error', w.maxi, lambda c, i: SOpaque('item'))), 'next', w.truncated)
    ctx.alloc(e)

    def spec(it_, node, fr):
        s = Walk(w)
        s.names, s.body, s.counted = stored_names(node.body), node.body + [node.test], False
        return s

    def walk(it_, node, fr, seq):
        s = Walk(w)
        s.names, s.body, s.counted = stored_names(node.body), node.body, True
        return s
    it.while_specs.append(spec)
    it.loop_specs.append(walk)
    st, r = run(it, Engine.restore_non_functional_items, mk_calc(ctx), e, SList.of(orig), SList.of(very))
    ctx.prove('restore:answers', st == 'ok', repr(r))
    if st != 'ok':
        return
    ctx.prove('restore:the-same-error', r is e and r.next == 'next' and r.message == 'message' and r.truncated == w.truncated)
    k, end = w.at
    q = z3.simplify(end)
    ctx.prove('restore:the-items-before-the-error', is_prefix(ctx, r.items, w.restored, q))
    if w.truncated:
        # up to and including the functional item the error is in
        ctx.prove('restore:up-to-the-item-of-the-error', z3.Or(z3.And(q == w.n, w.cnt(q) < w.maxi), z3.And(q >= 1, q <= w.n, w.fn(q - 1), w.cnt(q - 1) == w.maxi - 1)))
    else:
        ctx.prove('restore:up-to-the-item-of-the-error', z3.Or(z3.And(q == w.n, w.cnt(q) <= w.maxi), z3.And(q < w.n, w.fn(q), w.cnt(q) == w.maxi)))
    ctx.cover('end')


# ------------------------------------------------------------ execute_operand
def u_operand(ctx):
    it = Interp(ctx)
    i = ctx.int('i')
    ctx.assume(i >= 0)
    prev = SBase('items before', i, lambda c, j: SOpaque('item'))
    prev.mk_alias = False

    class Some(OperandItem):
        pass
    item = Some.__new__(Some)
    text = SOpaque('text of the item')
    item.text, item.truncated = text, False
    ctx.alloc(item)
    own = ctx.alloc([item])
    how = ctx.choose(3, 'how it ends')
    nxt = SOpaque('next')
    inner = ctx.alloc(error(own, nxt, True))
    outer = ctx.alloc(CalculatorException('trouble'))
    val = ctx.alloc(OperandResult(SOpaque('value'), None, item))

    def result(it_, args, kw):
        if how == 0:
            return val
        raise PyRaise(inner if how == 1 else outer)
    it.contracts[OperandItem.result] = result
    calc = mk_calc(ctx)
    st, r = run(it, Engine.execute_operand, calc, item, SList.of(prev), {})
    ctx.prove('operand:answers', st == 'ok', repr(r))
    if st != 'ok':
        return
    if how == 0:
        ctx.prove('operand:its-value', r is val)
    else:
        ctx.prove('operand:an-error-as-value', isinstance(r, OperandResult) and isinstance(r.value, ExecuteException), repr(r))
        if isinstance(r, OperandResult) and isinstance(r.value, ExecuteException):
            e = r.value
            if how == 1:
                ctx.prove('operand:items-before-and-the-item-itself', is_prefix_then(ctx, e.items, prev, i, [item]))
                ctx.prove('operand:the-place-inside-it', e.truncated is True and e.next is nxt)
            else:
                ctx.prove('operand:items-before', is_prefix(ctx, e.items, prev, i))
                ctx.prove('operand:the-item-is-next', e.truncated is False and (e.next is text or e.next is None))
    ctx.cover('end')


# ------------------------------------------------------------ execute_operator
def place(ctx, e, orig, marks, nf):
    """the error is at a functional item of the statement, named by what comes next"""
    if e.truncated is not False:
        return False
    if e.next is None:
        marks = marks + [(None, z3.IntVal(0))]
        return any(is_prefix(ctx, e.items, orig, x) for _t, x in marks)
    return any(t is not None and (t is e.next or isinstance(t, str) and t == e.next) and is_prefix(ctx, e.items, orig, x) for t, x in marks)


def u_operator(ctx, shape, hidden):
    """hidden: 0 the operator is written; 1 nothing is written between the operands; 2 another symbol is written (unit / unit)"""
    it = Interp(ctx)
    L, R = shape
    width = 0 if hidden == 1 else 1
    op = OperatorDefinition.__new__(OperatorDefinition)
    op.linputs, op.rinputs = list(L), list(R)
    sym = 'op' if not hidden else 'HIDDEN'
    res = ctx.alloc(OperandResult(SOpaque('result'), None, None))

    def call(it_, calc_, inputs, flags):
        k = ctx.choose(3, 'how the operation ends')
        if k:
            raise PyRaise([CalculatorException('op'), error([], 'elsewhere', True)][k - 1])
        return res
    op.call = Stub(call, 'call')
    calc = mk_calc(ctx, ops_list={sym: op})
    n, i, nf, no = ctx.int('n'), ctx.int('i'), ctx.int('nfunctional'), ctx.int('noriginal')
    ctx.assume(z3.And(i >= 0, i < n, nf >= 1, nf <= no))
    marks = []

    def mk(c, j):
        k = c.choose(3, 'kind')
        idx = c.int('index')
        c.assume(z3.And(idx >= 0, idx < nf))
        if k == 0:
            o = OperandResult([SOpaque('value')][0], None, None)
            marks.append((None, idx))
        else:
            o = OperatorItem(['else', 'of'][k - 1])
            marks.append((o.text, idx))
        o._INDEX = SInt(idx)
        return c.alloc(o)
    base = SBase('items', n, mk)
    base.mk_alias = False

    def operand(c, j):
        o = OperandResult(SOpaque('value'), None, None)
        idx = c.int('index')
        c.assume(z3.And(idx >= 0, idx < nf))
        marks.append((None, idx))
        o._INDEX = SInt(idx)
        base.memo.append((z3.simplify(j), c.alloc(o)))
    oi = ctx.int('index of the operator')
    ctx.assume(z3.And(oi >= 0, oi < nf))
    if hidden:
        # the engine only applies them with their operands there
        ctx.assume(z3.And(i >= 1, i + width < n))
        operand(ctx, i - 1)
        operand(ctx, i + width)
    if width:
        this = OperatorItem('op' if not hidden else '/')
        this._INDEX = SInt(oi)
        marks.append((this.text, oi))
        base.memo.append((i, ctx.alloc(this)))
    it.contracts[OperandResult.to_string] = lambda it_, a, k: SOpaque('a value as text')
    orig = SBase('original', no, lambda c, j: SOpaque('item'))
    orig.mk_alias = False
    st, r = run(it, Engine.execute_operator, calc, sym, SList.of(base), SInt(i), width, SList.of(orig), {})
    if st == 'raise':
        ctx.prove('operator:an-execution-error', isinstance(r, ExecuteException), repr(r))
        if isinstance(r, ExecuteException):
            ctx.prove('operator:error-at-an-item-of-the-statement', place(ctx, r, orig, marks, nf), 'next %r, items %r' % (r.next, r.items))
        ctx.cover('error')
        return
    l = chunks(r)
    els = [c[1] for c in l if c[0] == 'el']
    ctx.prove('operator:one-result', len(els) == 1 and isinstance(els[0], OperandResult))
    if len(els) == 1 and isinstance(els[0], OperandResult):
        o = els[0]
        ctx.prove('operator:result-keeps-its-place', z3.And(M.to_int(o._INDEX) >= 0, M.to_int(o._INDEX) < nf))
        if o is not res:
            ctx.prove('operator:error-as-value', isinstance(o.value, ExecuteException), repr(o.value))
            if isinstance(o.value, ExecuteException):
                ctx.prove('operator:error-at-an-item-of-the-statement', place(ctx, o.value, orig, marks, nf), 'next %r, items %r' % (o.value.next, o.value.items))
    ctx.cover('end')


SHAPES = [([], [1]), ([1], []), ([1], [1]), ([1], [1, 'else', 1]), ([1], ['of', 1]), ([1, 1], []), ([], [1, 1])]


# ------------------------------------------------------------ execute
class Free(LoopSpec):
    """a loop in which only the items at hand change"""

    def __init__(self, st):
        self.st = st

    def havoc(self, it, fr, k):
        self.st.rebind(fr)

    def exit(self, it, fr, n):
        self.st.rebind(fr)

    def step(self, it, fr, k):
        pass

    def may_write(self, obj):
        return False


class Operands(Free):
    """after k operands the first k items are their results, each with its number"""

    def init(self, it, fr):
        self.names = [nm for nm, v in fr.locals.items() if v is self.st.oplist]

    def at(self, fr, k):
        v = self.st.oplist
        v.chunks = [('seg', self.st.results, z3.IntVal(0), k), ('seg', self.st.func, k, self.st.func.n)]
        for nm in self.names:
            fr.locals[nm] = v

    def havoc(self, it, fr, k):
        self.st.k = k
        self.at(fr, k)

    def exit(self, it, fr, n):
        self.st.k = None
        self.at(fr, n)

    def step(self, it, fr, k):
        st, ctx = self.st, it.ctx
        r = st.got
        ctx.prove('execute:operand-evaluated', r is not None)
        if r is not None:
            ctx.prove('execute:operand-numbered', ctx.entails(M.to_int(getattr(r, '_INDEX', -1)) == k))

    def may_write(self, obj):
        return isinstance(obj, (SList, OperandResult, OperatorItem))


class Main(Free):
    def init(self, it, fr):
        self.st.names = [nm for nm, v in fr.locals.items() if v is self.st.oplist]

    def havoc(self, it, fr, k):
        self.st.head = self.st.fresh()
        self.st.rebind(fr)

    def step(self, it, fr, k):
        st = self.st
        # whatever list the loop goes on with came from execute_operator
        for nm in st.names:
            v = fr.locals.get(nm)
            it.ctx.prove('execute:goes-on-with-what-the-operator-left', v is st.head or v in st.made, repr(v))


def u_execute(ctx, units, implicit, errors):
    from props.c12 import Level, OpsList
    it = Interp(ctx)
    nl = ctx.int('nlevels')
    ctx.assume(nl >= 0)
    levels = SBase('levels', nl, lambda c, i: Level(i))
    levels.mk_alias = False
    calc = mk_calc(ctx, ops=SList.of(levels), ops_list=OpsList(), divide_op='/', multiply_op='*', implicit_multiply_op='IMPLICIT_MULTIPLY' if implicit else None,
                   unit_assignment_op='UNIT_ASSIGNMENT' if units else None, unit_multiply_op='UNIT_MULTIPLY' if units else None,
                   unit_divide_op='UNIT_DIVIDE' if units else None, unit_normaliser=None)

    class St:
        pass
    st = St()
    no, nf = ctx.int('noriginal'), ctx.int('nfunctional')
    ctx.inputs.update({'items': no, 'functional items': nf})
    ctx.assume(z3.And(nf >= 0, nf <= no))
    st.good, st.copies, st.made, st.func_of, st.got, st.k, st.names = [], {}, [], None, None, None, None
    given = SList.of(SBase('given', no, lambda c, i: SOpaque('item')))
    ctx.alloc(given)

    def copy_items(it_, args, kw):
        src = args[0]
        ctx.prove('execute:copies-the-statement', src is given or id(src) in st.copies)
        b = SBase('copy %d' % len(st.copies), no, lambda c, i: SOpaque('copied item'))
        b.mk_alias = False
        l = ctx.alloc(SList.of(b))
        st.copies[id(l)] = (l, b)
        return l
    it.contracts[items_mod.copy_items] = copy_items
    st.func = SBase('functional', nf, lambda c, i: SOpaque('functional item'))
    st.func.mk_alias = False

    def some_error(c):
        e = c.alloc(error([], None, False))
        st.good.append(e)
        return e

    def result(c, i):
        o = OperandResult(some_error(c) if c.choose(2, 'value') else SOpaque('v'), None, None)
        o._INDEX = SInt(i)
        return c.alloc(o)
    st.results = SBase('results', nf, result)
    st.results.mk_alias = False

    def functional(it_, args, kw):
        ctx.prove('execute:executes-a-copy', id(args[0]) in st.copies)
        st.func_of = args[0]
        st.oplist = ctx.alloc(SList.of(st.func))
        return st.oplist
    it.contracts[items_mod.functional_items] = functional

    def element(c, i):
        k = c.choose(3, 'kind')
        if k == 0:
            o = OperatorItem.__new__(OperatorItem)
            o.op = o.text = SStr(c.string('op'))
            o.truncated = False
        elif k == 1:
            o = OperandResult(UnitPowerList.__new__(UnitPowerList), None, None)
        else:
            o = OperandResult(some_error(c) if errors else SOpaque('value'), None, None)
        t = c.int('index')
        c.assume(z3.And(t >= 0, t < nf))
        o._INDEX = SInt(t)
        return c.alloc(o)

    def fresh():
        n = ctx.int('len')
        ctx.assume(n >= 1)
        b = SBase('state', n, element)
        b.mk_alias = False
        return ctx.alloc(SList.of(b))
    st.fresh = fresh

    def rebind(fr):
        for nm in st.names:
            fr.locals[nm] = st.head
    st.rebind = rebind

    def operand(it_, args, kw):
        _s, item, prev = args[:3]
        ctx.prove('execute:operand-is-an-item-of-the-copy', st.k is not None and item is st.func.get(ctx, st.k))
        c = st.copies.get(id(st.func_of))
        ctx.prove('execute:operand-gets-the-number-of-items-before-it', c is not None and st.k is not None and is_prefix(ctx, prev, c[1], st.k))
        st.got = OperandResult(SOpaque('value'), None, None) if ctx.choose(2, 'kind') else OperatorItem('op')
        return ctx.alloc(st.got)
    it.contracts[Engine.execute_operand] = operand

    def operator(it_, args, kw):
        ctx.prove('execute:operator-gets-the-executed-items', len(args) > 5 and args[5] is st.func_of)
        if ctx.choose(2, 'malformed') == 1:
            raise PyRaise(some_error(ctx))
        r = st.fresh()
        st.made.append(r)
        return r
    it.contracts[Engine.execute_operator] = operator
    it.contracts[OperandResult.to_string] = lambda it_, a, k: SStr(ctx.string('text'))
    back = []

    def restore(it_, args, kw):
        _s, e, o, v = args[:4]
        ctx.prove('execute:restores-with-the-executed-items', o is st.func_of)
        ctx.prove('execute:restores-from-an-untouched-copy', (v is given or id(v) in st.copies) and v is not st.func_of)
        if not any(e is g for g in st.good):
            c = st.copies.get(id(st.func_of))
            ok = isinstance(e, ExecuteException) and e.truncated is False and e.next is None and (c is None or any_prefix(ctx, e.items, c[1], nf))
            ctx.prove('execute:its-own-error-is-at-an-item', ok, 'next %r, items %r' % (getattr(e, 'next', None), getattr(e, 'items', None)))
        x = ctx.alloc(error([], None, False, 'restored'))
        back.append((e, x))
        return x
    it.contracts[Engine.restore_non_functional_items] = restore
    opl = Operands(st)

    def loops(it_, node, fr, seq):
        return opl if st.names is None else Free(st)
    it.loop_specs.append(loops)
    it.while_specs.append(lambda it_, node, fr: Main(st))
    r_st, r = run(it, Engine.execute, calc, given, {})
    if r_st == 'raise':
        ctx.prove('execute:every-error-is-restored', any(r is x for _e, x in back), repr(r))
        ctx.cover('error')
        return
    v = r.value if isinstance(r, OperandResult) else None
    ctx.prove('execute:an-error-as-value-is-restored', isinstance(r, OperandResult) and (not isinstance(v, CalculateException) or any(v is x for _e, x in back)), repr(v))
    ctx.cover('end')


def any_prefix(ctx, l, base, most):
    """base[0:x] for some 0 <= x <= most"""
    pos = z3.IntVal(0)
    for c in chunks(l):
        if c[0] == 'el' or c[1] is not base or not ctx.entails(c[2] == pos):
            return False
        pos = c[3]
    return ctx.entails(z3.And(pos >= 0, pos <= most))


# ------------------------------------------------------------ nested items
class Text(SExt):
    """the characters a..b-1 of the text of an item"""
    pyclass = str

    def __init__(self, whole, a, b):
        self.whole, self.a, self.b = whole, a, b

    def __repr__(self):
        return '%s[%s:%s]' % (self.whole, self.a, self.b)

    def sx(self, it, op, *a):
        ctx = it.ctx
        n = self.b - self.a
        if op == 'len':
            return SInt(z3.simplify(n))
        if op == 'str':
            return self
        if op == 'getitem' and isinstance(a[0], slice) and a[0].step in (None, 1):
            lo = z3.IntVal(0) if a[0].start is None else M.to_int(a[0].start)
            hi = n if a[0].stop is None else M.to_int(a[0].stop)
            if ctx.entails(z3.And(0 <= lo, lo <= hi, hi <= n)):
                return Text(self.whole, z3.simplify(self.a + lo), z3.simplify(self.a + hi))
        return NotImplemented


class Part(SExt):
    """the items of one argument"""
    pyclass = list

    def __init__(self, n):
        self.n = n

    def sx(self, it, op, *a):
        if op == 'len':
            return SInt(self.n)
        if op == 'truth':
            return self.n > 0
        return NotImplemented


class Plain_(Item):
    pass


class Nest:
    """an item of n inner items with the text they cover, and what its parts may do"""

    def __init__(self, ctx, cls):
        self.ctx = ctx
        self.it = Interp(ctx)
        self.n = ctx.int('inner items')
        self.off = z3.Function('offset', I_, I_)
        self.isparam = z3.Function('separator', I_, z3.BoolSort())
        self.total = ctx.int('length of the text')
        ctx.assume(z3.And(self.n >= 0, self.off(z3.IntVal(0)) == 0, self.total >= 0, self.off(self.n) == self.total))
        self.base = SBase('inner items', self.n, self.mk)
        self.base.mk_alias = False
        self.o = cls.__new__(cls)
        self.text = Text('text', z3.IntVal(0), self.total)
        self.o.text, self.o.truncated = self.text, False
        self.items = ctx.alloc(SList.of(self.base))
        self.o.items = self.items
        self.failed = None
        self.it.contracts[X.find_pos] = self.find_pos
        self.it.contracts[Engine.execute] = self.execute
        self.parts = {}
        ctx.alloc(self.o)

    def mk(self, c, j):
        cls = FunctionParamItem if c.branch(self.isparam(j)) else Plain_
        x = cls.__new__(cls)
        x.text, x.truncated = SOpaque('text of an item'), False
        return c.alloc(x)

    def fail(self, at, most, nxt=None):
        """an error inside the part whose items begin at item number at: its items cover m characters from there"""
        ctx = self.ctx
        m, q = ctx.int('characters before the error'), ctx.int('items of the error')
        ctx.assume(z3.And(m >= 0, m <= most, q >= 0, self.off(at) >= 0, self.off(at) + m <= self.total))
        b = SBase('items of the error', q, lambda c, i: SOpaque('item'))
        b.mk_alias = False
        e = error(SList.of(b), SOpaque('next') if ctx.choose(2, 'next') else None, ctx.choose(2, 'truncated') == 1)
        ctx.alloc(e.items)
        ctx.alloc(e)
        self.failed = (e, at, m, e.items, e.next)
        return e

    def execute(self, it_, args, kw):
        raise Undecided('execute of %r' % (args[1],))

    def outcome(self, at, part):
        """execute of a part of which the first item has number at"""
        ctx = self.ctx
        how = ctx.choose(4, 'how a part ends')
        if how == 0:
            return ctx.alloc(OperandResult(SOpaque('value'), None, None))
        if how == 3:
            raise PyRaise(CalculatorException('other trouble'))
        e = self.fail(at, self.off(z3.simplify(at + part.n)) - self.off(at))
        if how == 1:
            raise PyRaise(e)
        return ctx.alloc(OperandResult(e, None, None))

    def find_pos(self, it_, args, kw):
        ctx = self.ctx
        err, text, stms = args[:3]
        if self.failed is None:
            raise Undecided('looking for an error that did not happen')
        e, at, m, its, nxt = self.failed
        ctx.prove('nested:looks-for-the-error-in-the-whole-text', text is self.text)
        ok = isinstance(stms, list) and len(stms) == 1 and is_prefix_then(ctx, stms[0], self.base, at, its)
        ctx.prove('nested:items-before-the-error-then-its-own', ok, '%r at %s' % (stms, at))
        return SInt(z3.simplify(self.off(at) + m))

    def ended(self, st, r, value_ok=None):
        ctx, o = self.ctx, self.o
        if st == 'raise' and isinstance(r, ExecuteException):
            e = self.failed
            ctx.prove('nested:the-error-carries-this-item', isinstance(r.items, list) and len(r.items) == 1 and r.items[0] is o)
            ctx.prove('nested:the-error-is-inside-it', r.truncated is True)
            if e is not None and o.items is not self.items:
                _e, at, m, its, nxt = e
                if not isinstance(r.next, str) or r.next != '':
                    ctx.prove('nested:what-comes-next-is-kept', r.next is nxt)
                ctx.prove('nested:cut-to-the-items-before-the-error', is_prefix_then(ctx, o.items, self.base, at, its), repr(o.items))
                ctx.prove('nested:text-is-that-of-the-items', isinstance(o.text, Text) and ctx.entails(z3.And(o.text.a == 0, o.text.b == self.off(at) + m)), repr(o.text))
                ctx.prove('nested:marked-as-cut', o.truncated is True)
            elif o.items is self.items:
                ctx.prove('nested:whole-text-with-all-its-items', o.text is self.text and r.next in (None, '') and e is None)
            else:
                ctx.prove('nested:nothing-left-of-it', o.items == [] and o.text == '' and r.next in (None, ''), '%r %r' % (o.items, o.text))
            ctx.cover('error')
            return
        ctx.prove('nested:untouched', o.items is self.items and o.text is self.text and o.truncated is False)
        ctx.cover('other')


class ArgLoop(LoopSpec):
    """before argument k only separators lie between the counter and its first item"""

    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        self.lst = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        ints = [nm for nm, v in fr.locals.items() if nm in self.names and isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        if len(ints) != 1 or len(self.lst) != 1:
            raise Undecided('the arguments are not walked with one counter and one list')
        self.nm = ints[0]
        v = M.to_int(fr.locals[self.nm])
        it.ctx.prove('arguments:counter-starts-in-the-brackets', self.w.between(v, z3.IntVal(0)))

    def havoc(self, it, fr, k):
        ctx, w = it.ctx, self.w
        w.k = k
        w.layout(k)
        w.layout(z3.simplify(k - 1))
        t = ctx.int('counter')
        ctx.assume(w.between(t, k))
        fr.locals[self.nm] = SInt(t)
        b = SBase('results', k, lambda c, i: SOpaque('result'))
        b.mk_alias = False
        fr.locals[self.lst[0]] = ctx.alloc(SList.of(b))
        for nm in self.names:
            if type(fr.locals.get(nm)).__name__ == 'UnknownVal':
                fr.locals[nm] = SOpaque('of the argument before')

    def exit(self, it, fr, n):
        t = it.ctx.int('counter')
        fr.locals[self.nm] = SInt(t)
        fr.locals[self.lst[0]] = it.ctx.alloc(SList.of(SBase('results', n, lambda c, i: SOpaque('result'))))
        self.w.k = None

    def step(self, it, fr, k):
        w = self.w
        w.layout(z3.simplify(k + 1))
        t = M.to_int(fr.locals[self.nm])
        it.ctx.prove('arguments:counter-ends-after-the-separator', z3.Implies(k + 1 < w.nargs, w.between(t, z3.simplify(k + 1))))

    def may_write(self, obj):
        return isinstance(obj, (list, SList, OperandItem, Exception))


class Skip(LoopSpec):
    """stepping over separators: still only separators up to the argument"""

    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        self.nm = [nm for nm in self.names if isinstance(fr.locals.get(nm), (int, SInt))]
        if len(self.nm) != 1:
            raise Undecided('separators are not stepped over with one counter')
        it.ctx.prove('separators:counter-before-the-argument', self.w.between(M.to_int(fr.locals[self.nm[0]]), self.w.k))

    def havoc(self, it, fr, k):
        t = it.ctx.int('counter')
        it.ctx.assume(self.w.between(t, self.w.k))
        self.w.separators(t)
        fr.locals[self.nm[0]] = SInt(t)

    def step(self, it, fr, k):
        it.ctx.prove('separators:not-beyond-the-argument', self.w.between(M.to_int(fr.locals[self.nm[0]]), self.w.k))

    def may_write(self, obj):
        return False


class Call(Nest):
    """name ( argument , argument , ... ): empty arguments leave only their separators"""

    def __init__(self, ctx, cls):
        Nest.__init__(self, ctx, cls)
        self.nargs = ctx.int('arguments')
        ctx.inputs.update({'arguments': self.nargs, 'inner items': self.n})
        self.start, self.size = z3.Function('start', I_, I_), z3.Function('size', I_, I_)
        ctx.assume(self.nargs >= 0)
        b = SBase('arguments', self.nargs, lambda c, i: Part(self.size(i)))
        b.mk_alias = False
        self.args = b
        self.o.args = SList.of(b)
        self.o.name = 'f'
        self.k = None
        self.it.loop_specs.append(self.loop)
        self.it.while_specs.append(self.skip)
        self.layout(z3.IntVal(0))

    def layout(self, k):
        """argument k: at least one item, the first no separator; before it a separator (or the bracket), then only separators"""
        c, s, z = self.ctx, self.start, self.size
        c.assume(z3.Implies(z3.And(k >= 0, k < self.nargs), z3.And(s(k) >= 2, z(k) >= 1, s(k) + z(k) <= self.n, z3.Not(self.isparam(s(k))), self.off(s(k)) >= 0,
                                                                 self.off(s(k) + z(k)) >= self.off(s(k)), self.off(s(k) + z(k)) <= self.total,
                                                                 z3.Implies(k >= 1, s(k) >= s(k - 1) + z(k - 1) + 1))))

    def low(self, k):
        """the first place after the argument before k and its separator"""
        return z3.If(k == 0, z3.IntVal(2), self.start(k - 1) + self.size(k - 1) + 1)

    def between(self, t, k):
        return z3.And(t >= self.low(k), t <= self.start(k)) if not (z3.is_int_value(k) and k.as_long() == 0) else z3.Implies(self.nargs > 0, z3.And(t >= 2, t <= self.start(k)))

    def separators(self, t):
        """what lies between an argument and the next are separators"""
        self.ctx.assume(z3.Implies(z3.And(t >= self.low(self.k), t < self.start(self.k)), self.isparam(t)))

    def loop(self, it_, node, fr, seq):
        if self.ctx.entails(M.sym_iter(it_, seq)[0] == self.nargs):
            s = ArgLoop(self)
            s.names = stored_names(node.body)
            return s
        return None

    def skip(self, it_, node, fr):
        s = Skip(self)
        s.names = stored_names(node.body)
        return s

    def execute(self, it_, args, kw):
        part = args[1]
        self.ctx.prove('arguments:executed-one-by-one', self.k is not None and part is self.args.get(self.ctx, self.k))
        return self.outcome(self.start(self.k), part)


def u_function(ctx):
    w = Call(ctx, FunctionItem)
    res = ctx.alloc(OperandResult(SOpaque('result'), None, None))

    class F:
        inputs_can_be_exceptions = ctx.choose(2, 'takes failures') == 1

        def call(self, *a):
            pass
    f = F()

    def call(it_, calc_, inputs, flags):
        if ctx.choose(2, 'the function'):
            raise PyRaise(CalculatorException('the function'))
        return res
    f.call = Stub(call, 'call')
    w.o.calculator = mk_calc(ctx, funcs={'f': f})
    st, r = run(w.it, FunctionItem.value, w.o, {})
    w.ended(st, r)


def u_pointer(ctx):
    w = Call(ctx, FunctionPointerItem)
    res = ctx.alloc(OperandResult(SOpaque('result'), None, None))
    seen = []

    class Def:
        pass

    def call(it_, calc_, inputs, flags):
        how = ctx.choose(3, 'the function')
        if how:
            raise PyRaise([error([], 'elsewhere', False), CalculatorException('the function')][how - 1])
        return res

    class Handler:
        def should_handle(self, ref):
            pass

        def handle(self, calc, ref):
            pass
    h = Handler()
    h.should_handle = Stub(lambda it_, ref: ctx.choose(2, 'handled') == 1, 'should_handle')
    d = Def()
    d.call = Stub(call, 'call')
    h.handle = Stub(lambda it_, calc_, ref: d, 'handle')
    ref = SOpaque('function') if ctx.choose(2, 'array of functions') == 0 else [OperandResult(SOpaque('function'), None, None)]
    w.o.calculator = mk_calc(ctx, vars={'f': (ref, None)} if ctx.choose(2, 'the variable exists') else {}, function_pointer_handlers=[h])
    st, r = run(w.it, FunctionPointerItem.value, w.o, {})
    w.ended(st, r)


def u_inner(ctx):
    w = Nest(ctx, InnerExpressionItem)
    first = z3.IntVal(0)

    def execute(it_, args, kw):
        ctx.prove('inner:its-items', args[1] is w.items)
        return w.outcome(first, Part(w.n))
    w.it.contracts[Engine.execute] = execute
    w.o.calculator = mk_calc(ctx)
    st, r = run(w.it, InnerExpressionItem.value, w.o, {})
    w.ended(st, r)


# an array: [ element , element , ... ]
class Elements(LoopSpec):
    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        w = self.w
        self.lst = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        self.state = [(nm, v) for nm, v in fr.locals.items() if type(v) is dict and list(v) == ['items']]
        if len(self.state) != 1 or len(self.lst) != 1:
            raise Undecided('the elements are not walked with one state and one list')
        it.ctx.prove('elements:counter-starts-before-the-bracket', list(self.state[0][1].items()) == [('items', 0)])

    def havoc(self, it, fr, k):
        ctx, w = it.ctx, self.w
        w.k = k
        w.layout(k)
        self.d = self.state[0][1]
        self.d['items'] = SInt(z3.simplify(w.start(k) - 1))
        b = SBase('values', ctx.int('values'), lambda c, i: SOpaque('value'))
        ctx.assume(b.n >= 0)
        fr.locals[self.lst[0]] = ctx.alloc(SList.of(b))

    def exit(self, it, fr, n):
        fr.locals[self.lst[0]] = it.ctx.alloc(SList.of(SBase('values', n, lambda c, i: SOpaque('value'))))

    def step(self, it, fr, k):
        w = self.w
        w.layout(z3.simplify(k + 1))
        it.ctx.prove('elements:counter-ends-at-the-separator', z3.Implies(k + 1 < w.nel, M.to_int(self.d['items']) == w.start(k + 1) - 1))

    def may_write(self, obj):
        return isinstance(obj, (list, dict, SList, OperandItem, Exception))


def u_array(ctx):
    w = Nest(ctx, ArrayItem)
    w.nel = ctx.int('elements')
    w.start, w.size = z3.Function('start', I_, I_), z3.Function('size', I_, I_)
    ctx.assume(z3.And(w.nel >= 0, w.start(z3.IntVal(0)) == 1))
    ctx.inputs.update({'elements': w.nel})

    def layout(k):
        ctx.assume(z3.Implies(z3.And(k >= 0, k < w.nel), z3.And(w.start(k) >= 1, w.size(k) >= 1, w.start(k) + w.size(k) <= w.n, z3.Implies(k >= 1, w.start(k) == w.start(k - 1) + w.size(k - 1) + 1))))
    w.layout = layout
    b = SBase('elements', w.nel, lambda c, i: c.alloc(ArrayElement.__new__(ArrayElement)))
    b.mk_alias = False
    w.o.elements = SList.of(b)
    w.k = None

    def value(it_, args, kw):
        el, flags, calc, state = args[:4]
        ctx.prove('elements:evaluated-one-by-one', el is b.get(ctx, w.k))
        ctx.prove('elements:counter-is-at-its-first-item', M.to_int(state['items']) == w.start(w.k))
        how = ctx.choose(3, 'how an element ends')
        if how == 0:
            state['items'] = SInt(z3.simplify(w.start(w.k) + w.size(w.k)))
            return ctx.alloc([SOpaque('value')])
        if how == 2:
            raise PyRaise(CalculatorException('other trouble'))
        d = ctx.int('items of the element before the error')
        ctx.assume(z3.And(d >= 0, d <= w.size(w.k)))
        at = z3.simplify(w.start(w.k) + d)
        state['items'] = SInt(at)
        raise PyRaise(w.fail(at, w.total))
    w.it.contracts[ArrayElement.value] = value

    def loop(it_, node, fr, seq):
        s = Elements(w)
        s.names = stored_names(node.body)
        return s
    w.it.loop_specs.append(loop)
    w.o.calculator = mk_calc(ctx)
    st, r = run(w.it, ArrayItem.value, w.o, {})
    w.ended(st, r)


def u_element(ctx):
    """start .. end step step: an error is counted to the items before it, the end to all its items"""
    it = Interp(ctx)
    parts = [ctx.alloc(Part(ctx.int('items of the %s' % x))) for x in ('start', 'end', 'step')]
    for p in parts[:2]:
        ctx.assume(p.n >= 1)
    ctx.assume(parts[2].n >= 0)
    have = ctx.choose(3, 'parts') + 1
    el = ArrayElement.__new__(ArrayElement)
    el.element, el.end_element, el.step = parts[0], parts[1] if have > 1 else None, parts[2] if have > 2 else None
    at0 = ctx.int('counter')
    ctx.assume(at0 >= 1)
    state = ctx.alloc({'items': SInt(at0)})
    begin = [at0, z3.simplify(at0 + parts[0].n + 1), z3.simplify(at0 + parts[0].n + 1 + parts[1].n + 1)]
    done, failed = [], []

    def execute(it_, args, kw):
        part = args[1]
        j = next((x for x in range(3) if parts[x] is part), None)
        ctx.prove('element:executes-its-parts-in-order', j is not None and j == len(done))
        done.append(part)
        if j is not None:
            ctx.prove('element:counter-is-at-the-first-item-of-the-part', M.to_int(state['items']) == begin[j])
            ctx.prove('element:part-with-items', part.n >= 1)
        how = ctx.choose(4, 'how a part ends')
        if how == 0:
            return ctx.alloc(OperandResult(Num(), SOpaque('unit') if ctx.choose(2, 'unit') else None, None))
        if how == 3:
            raise PyRaise(CalculatorException('other trouble'))
        e = ctx.alloc(error([], SOpaque('next'), True))
        failed.append((e, j))
        if how == 1:
            raise PyRaise(e)
        return ctx.alloc(OperandResult(e, None, None))
    it.contracts[Engine.execute] = execute
    calc = mk_calc(ctx)
    calc.validate_number = Stub(lambda it_, v, *a: ctx.choose(2, 'a number') == 1, 'validate_number')
    it.contracts[ArrayElement.normalise] = lambda it_, a, k: ctx.alloc(OperandResult(Num(), None, None))

    class Grow(LoopSpec):
        def init(self, it_, fr):
            self.n = {nm for nm in self.names}

        def havoc(self, it_, fr, k):
            for nm in self.names:
                if nm in fr.locals:
                    fr.locals[nm] = Num()

        def step(self, it_, fr, k):
            pass

        def may_write(self, obj):
            return isinstance(obj, (list, SList))

    def spec(it_, node, fr):
        s = Grow()
        s.names = stored_names(node.body)
        return s
    it.while_specs.append(spec)
    st, r = run(it, ArrayElement.value, el, {}, calc, state)
    at = M.to_int(state['items'])
    last = z3.simplify(begin[have - 1] + parts[have - 1].n)
    if st == 'raise' and isinstance(r, ExecuteException):
        if failed:
            e, j = failed[0]
            ctx.prove('element:the-error-of-the-part', r is e and r.next is e.next)
            ctx.prove('element:counter-is-at-the-first-item-of-the-part', at == begin[j])
        else:
            # its own error: the items before the counter are all there is before it
            ctx.prove('element:own-error-has-no-items', chunks(r.items) == [] and r.next is None)
            ctx.prove('element:counter-within-its-items', z3.And(at >= at0, at <= last))
        ctx.cover('error')
        return
    if st == 'ok':
        ctx.prove('element:counter-after-all-its-items', at == last, '%s, not %s' % (at, last))
        ctx.cover('end')


class Num(SExt):
    """some number: only where the items lie matters here"""
    pyclass = object

    def sx(self, it, op, *a):
        if op in ('compare', 'rcompare'):
            return it.ctx.choose(2, 'compare') == 1
        if op in ('binop', 'rbinop', 'unop'):
            return self
        if op == 'call':
            return self
        return NotImplemented


UNITS = [('restore_non_functional_items', u_restore), ('execute_operand, place of an error', u_operand)]
UNITS += [('execute_operator %s op %s, place of an error' % sh, lambda c, s=sh: u_operator(c, s, 0), {'max_paths': 6000}) for sh in SHAPES]
UNITS += [('execute_operator, nothing written, place of an error', lambda c: u_operator(c, ([1], [1]), 1)), ('execute_operator, unit / unit, place of an error', lambda c: u_operator(c, ([1], [1]), 2))]
COMBOS = [(True, True, True), (True, False, False), (False, True, True), (False, True, False), (False, False, True), (False, False, False)]
UNITS += [('execute%s%s%s, place of an error' % (', units' if u else '', ', implicit multiplication' if m else '', ', values that are errors' if e else ''),
           lambda c, u=u, m=m, e=e: u_execute(c, u, m, e), {'max_paths': 6000, 'seconds': 200}) for u, m, e in COMBOS]
UNITS += [('FunctionItem.value, place of an error', u_function), ('FunctionPointerItem.value, place of an error', u_pointer), ('InnerExpressionItem.value, place of an error', u_inner),
          ('ArrayItem.value, place of an error', u_array), ('ArrayElement.value, place of an error', u_element)]
