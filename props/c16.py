"""C16: every failure is reported as a calculator error and the calculator stays usable."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc import concrete
import contextlib
import io
import os
import re
from pyvc.lib import attribute_writers, _REPO
from pyvc.core import PathDone, PyRaise, Undecided
from modularcalculator.engine import Engine
from modularcalculator.objects.items import OperandResult, OperandItem, OperatorItem
from modularcalculator.objects.operators import OperatorDefinition
from modularcalculator.objects.api import CalculatorResponse, CalculatorResult
from modularcalculator.objects.exceptions import CalculatorException, CalculatingException, ParsingException, ExecutionException, ParseException, ExecuteException


ASSUMPTIONS = ['an exception is an instance of Exception (interrupts and the end of memory or time are outside)',
               'callees of calculate may do anything their contract admits: return or raise any exception',
               'fake execution of the same item texts ends the same way (it looks at operators and their positions only)']


class Text(SExt):
    """some text"""
    pyclass = str

    def __init__(self, name):
        self.name = name

    def sx(self, it, op, *a):
        if op == 'call' and a[0] in ('startswith', 'endswith'):
            return SBool(it.ctx.bool(self.name + '.' + a[0]))
        if op in ('binop', 'rbinop'):
            return Text(self.name + '+')
        if op == 'str':
            return self
        if op == 'len':
            n = it.ctx.int(self.name + '.len')
            it.ctx.assume(n >= 0)
            return SInt(n)
        return NotImplemented


class Part(SExt):
    """a statement: a list of items about which nothing is known"""
    pyclass = list

    def __init__(self, ctx, i):
        self.i = i
        self.text = Text(ctx.fresh_name('text'))
        self.n = ctx.int(ctx.fresh_name('functional items'))
        ctx.assume(self.n >= 0)
        self.answer = None


CRASH = [lambda: KeyError('internal'), lambda: RecursionError('maximum recursion depth exceeded'), lambda: ValueError('bad')]


def nat(ctx, name):
    n = ctx.int(name)
    ctx.assume(n >= 0)
    return n


def calc_errors(ctx, what):
    """an error of the calculator's own, raised by a callee"""
    k = ctx.choose(3, what)
    m = Text(what + ' message')
    if k == 0:
        return ExecuteException(m, [], Text('next'), SBool(ctx.bool('truncated')))
    if k == 1:
        return ParseException(m, [], Text('next'), False)
    return CalculatorException(m)


def is_seg(x, base):
    return type(x) is SList and all(c[0] == 'seg' and c[1] is base for c in x.chunks)


def u_calculate(ctx, mode):
    it = Interp(ctx)
    n = ctx.int('number of statements')
    ctx.assume(n >= 0)
    stmts = SBase('statements', n, lambda c, i: Part(c, i))
    stmts.mk_alias = False
    slist = ctx.alloc(SList.of(stmts))
    origin = {}         # the error raised by a callee
    finals = []

    def boom(e, where, part=None):
        origin['e'], origin['where'], origin['part'] = e, where, part
        raise PyRaise(e)

    def parse(it_, *a, **kw):
        k = ctx.choose(4 if mode == 'parse' else 1, 'parse')
        if k == 1:
            boom(ParsingException(Text('parse message'), [[]], Text('next')), 'parse')
        if k == 2:
            boom(calc_errors(ctx, 'parse error'), 'parse')
        if k == 3:
            boom(CRASH[ctx.choose(len(CRASH), 'crash')](), 'parse')
        times = SBase('times', n, lambda c, i: 0.0)
        return (slist, SOpaque('length'), {'times': ctx.alloc(SList.of(times))})

    def execute(it_, part, *a, **kw):
        ctx.prove('execute:a-statement-with-items-to-execute', isinstance(part, Part) and ctx.entails(part.n > 0))
        k = ctx.choose(4, 'execute')
        if k == 0:
            part.answer = ctx.alloc(OperandResult(SOpaque('value'), SOpaque('unit'), None))
            return part.answer
        if k == 1:
            boom(calc_errors(ctx, 'execution error'), 'execute', part)
        if k == 2:
            boom(CRASH[ctx.choose(len(CRASH), 'crash')](), 'execute', part)
        e = calc_errors(ctx, 'error value') if ctx.choose(2, 'own') == 0 else CRASH[0]()
        origin['e'], origin['where'], origin['part'] = e, 'execute', part
        return ctx.alloc(OperandResult(e, None, None))

    def finalize(it_, answer, *a, **kw):
        ctx.prove('finalize:the-answer', isinstance(answer, OperandResult))
        k = ctx.choose(3, 'finalize')
        if k == 1:
            boom(calc_errors(ctx, 'final error'), 'finalize', None)
        if k == 2:
            boom(CRASH[0](), 'finalize', None)
        final = ctx.alloc(OperandResult(SOpaque('final value'), SOpaque('final unit'), None))
        finals.append((final, answer))
        return final

    from modularcalculator.objects import items as I

    def items_text(it_, a, kw):
        x = a[0]
        if isinstance(x, Part):
            if ctx.choose(2 if mode == 'texts' else 1, 'text of items') == 1:
                boom(CRASH[0](), 'text', x)
            return x.text
        raise Undecided('text of %r' % (x,))

    def functional_items(it_, a, kw):
        x = a[0]
        if not isinstance(x, Part):
            raise Undecided('functional items of %r' % (x,))
        return SList.of(SBase('functional', x.n, lambda c, i: SOpaque('item')))
    it.contracts[I.items_text] = items_text
    it.contracts[I.functional_items] = functional_items
    calc = mk_calc(ctx, parse=Stub(parse), execute=Stub(execute), finalize=Stub(finalize), vars=ctx.alloc({}))
    only = [None, True, False][ctx.choose(3, 'parse_only')] if mode == 'flags' else None
    state = [None, True, False][ctx.choose(3, 'include_state')] if mode == 'flags' else None
    flags = None if mode != 'flags' else ctx.alloc({k: v for k, v in (('parse_only', only), ('include_state', state)) if v is not None})

    def responses():
        return [o for _s, o in ctx.born.values() if type(o) is CalculatorResponse]

    class Statements(LoopSpec):
        def init(self, it_, fr):
            r = responses()
            ctx.prove('loop:no-results-at-first', len(r) == 1 and (r[0].results == [] if type(r[0].results) is list else False))
            if len(r) != 1:
                raise PathDone()
            self.r = r[0]

        def have(self, k):
            done = SBase('done', k, lambda c, i: SOpaque('an earlier result'))
            done.mk_alias = False
            self.done = done
            self.r.results = ctx.alloc(SList.of(done))

        def havoc(self, it_, fr, k):
            self.have(k)
            origin['k'], origin['done'] = k, self.done
            self.mark = self.r.results

        def step(self, it_, fr, k):
            l = self.r.results
            good = type(l) is SList and len(l.chunks) == 2 and l.chunks[0][0] == 'seg' and l.chunks[0][1] is self.done and l.chunks[1][0] == 'el'
            ctx.prove('loop:one-more-result', good, repr(l))
            if not good:
                raise PathDone()
            res, part = l.chunks[1][1], stmts.get(ctx, k)
            ctx.prove('loop:the-result-of-this-statement', isinstance(res, CalculatorResult) and res.items is part and res.expression is part.text)
            ran = ctx.branch(part.n > 0) and not only
            has = hasattr(res, 'value')
            ctx.prove('loop:a-value-exactly-when-executed', has == ran and (part.answer is not None) == ran)
            if has and ran:
                ctx.prove('loop:the-final-value-of-its-answer', len(finals) == 1 and finals[0][1] is part.answer and res.value is finals[0][0].value and res.unit is finals[0][0].unit)
            ctx.prove('loop:no-error-swallowed', 'e' not in origin)
            ctx.cover('statement done')

        def exit(self, it_, fr, m):
            self.have(m)
            origin['exit'] = True

        def may_write(self, obj):
            return obj is self.mark or obj is self.r

    def mine(it_, node, fr, seq):
        if isinstance(seq, SEnumerate):
            seq = it_.resolve(seq.it)
        if type(seq) is SList and len(seq.chunks) == 1 and seq.chunks[0][0] == 'seg' and seq.chunks[0][1] is stmts and seq.chunks[0][3].eq(n):
            return Statements()
    it.loop_specs.append(mine)
    expr = SStr(ctx.string('expr'))
    st, r = run(it, Engine.calculate, calc, expr, flags) if flags is not None else run(it, Engine.calculate, calc, expr)
    rs = responses()
    if st == 'ok':
        ctx.prove('returns:the-response', type(r) is CalculatorResponse and rs == [r])
        ctx.prove('returns:only-without-error', 'e' not in origin)
        if origin.get('exit'):
            l = r.results
            ctx.prove('returns:a-result-for-every-statement', type(l) is SList and ctx.entails(l.length() == n))
        ctx.cover('returned')
        return
    ctx.prove('raises:only-a-calculating-error', isinstance(r, CalculatingException), repr(type(r)))
    if not isinstance(r, CalculatingException):
        return
    e = origin.get('e')
    ctx.prove('raises:only-for-a-failure', e is not None)
    if e is None:
        return
    ctx.prove('raises:with-the-response', len(rs) == 1 and getattr(r, 'response', None) is rs[0])
    ok, has = run(it, CalculatingException.has_response, r)
    ctx.prove('raises:has_response', ok == 'ok' and has is True)
    ctx.prove('raises:with-a-message', r.message is e.message if isinstance(e, CalculatorException) and origin['where'] != 'parse' or isinstance(e, ParsingException)
              else isinstance(r.message, (str, SStr, Text, SConcat)), repr(r.message))
    if origin['where'] == 'parse':
        if isinstance(e, ParsingException):
            ctx.prove('parse:the-parser-error-itself', r is e)
        ctx.prove('parse:no-results', rs[0].results == [] if type(rs[0].results) is list else False)
        ctx.cover('parse failed')
        return
    k, l = origin['k'], rs[0].results
    ctx.prove('raises:results-of-the-statements-before', type(l) is SList and len(l.chunks) == 1 and l.chunks[0][1] is origin['done'])
    s = r.statements
    if origin['where'] == 'text':
        ctx.cover('text failed')
        return
    good = type(s) is SList and s.chunks and s.chunks[-1][0] == 'el' and all(c[0] == 'seg' and c[1] is stmts for c in s.chunks[:-1])
    ctx.prove('raises:statements-before-and-the-failing-one', good and ctx.entails(s.length() == k + 1), repr(s))
    if good and s.length() is not None:
        j = ctx.int('any statement before')
        ctx.assume(z3.And(j >= 0, j < k))
        ctx.prove('raises:each-statement-before', M.getitem(it, s, SInt(j)) is stmts.get(ctx, j))
        last = s.chunks[-1][1]
        if isinstance(e, ExecuteException):
            ctx.prove('raises:the-offending-items-and-text', last is e.items and r.next is e.next and r.truncated is e.truncated)
        else:
            ctx.prove('raises:nothing-of-the-failing-statement', last == [] if type(last) is list else False)
    ctx.prove('raises:kind', isinstance(r, ExecutionException))
    ctx.cover('execution failed')



# ------------------------------------------------------------ failures inside a statement
def u_operand(ctx):
    """an operand that fails becomes an error value that carries the text before it and itself"""
    it = Interp(ctx)
    prev = ctx.alloc(SList.of(SBase('previous', nat(ctx, 'nprevious'), lambda c, i: SOpaque('item'))))
    k = ctx.choose(6, 'item')
    inner = ctx.alloc([SOpaque('inner item')])
    es = [ExecuteException(Text('m'), inner, Text('next'), SBool(ctx.bool('truncated'))), ParseException(Text('m'), inner, Text('next')), CalculatorException(Text('m')), KeyError('internal')]
    good = ctx.alloc(OperandResult(SOpaque('v'), SOpaque('u'), None))
    x = OperandItem.__new__(OperandItem)
    x.text = Text('text')

    def result(it_, *a, **kw):
        if k < 4:
            raise PyRaise(es[k])
        return good
    x.result = Stub(result)
    if k == 5:
        x = ctx.alloc(OperatorItem('op'))
    st, r = run(it, Engine.execute_operand, mk_calc(ctx), x, prev, {})
    if k == 3:
        ctx.prove('other-failures-pass', st == 'raise' and r is es[3] or st == 'ok' and isinstance(r, OperandResult) and isinstance(r.value, ExecuteException))
        ctx.cover('other')
        return
    ctx.prove('returns', st == 'ok', repr(r))
    if st != 'ok':
        return
    if k >= 4:
        ctx.prove('result-of-the-item', r is (good if k == 4 else x))
        ctx.cover('result')
        return
    e = r.value if isinstance(r, OperandResult) else None
    ctx.prove('an-error-value-without-unit', isinstance(e, ExecuteException) and r.unit is None)
    if not isinstance(e, ExecuteException):
        return
    ctx.prove('the-message', e.message is es[k].message)
    l = e.items if type(e.items) is SList else SList([('el', y) for y in e.items])
    want = [inner[0]] if k == 0 else []
    ctx.prove('the-items-before-and-the-failing-part', ctx.entails(l.length() == prev.length() + len(want)) and all(c[0] == 'el' or c[1] is prev.chunks[0][1] for c in l.chunks)
              and [c[1] for c in l.chunks if c[0] == 'el'] == want and (not want or l.chunks[-1][0] == 'el'))
    ctx.prove('the-offending-text', e.next is (es[0].next if k == 0 else x.text) and (e.truncated is es[0].truncated if k == 0 else e.truncated is False))
    ctx.cover('failed')


def u_operation(ctx, width):
    """an operation that fails becomes an error value in the place of the operator"""
    it = Interp(ctx)
    m = Text('m')
    k = ctx.choose(4, 'failure')
    e = [ExecuteException(m, [SOpaque('other')], Text('other')), ParseException(m, [], None), CalculatorException(m), None][k]
    op = OperatorDefinition.__new__(OperatorDefinition)
    op.linputs, op.rinputs = [1], [1]
    res = ctx.alloc(OperandResult(SOpaque('result'), None, None))

    def call(it_, *a, **kw):
        if e is not None:
            raise PyRaise(e)
        return res
    op.call = Stub(call, 'call')
    calc = mk_calc(ctx, ops_list={'op': op})
    n, i = ctx.int('n'), ctx.int('i')
    ctx.assume(z3.And(i >= 1, i + width < n))
    index = ctx.int('index')

    def mk(c, j):
        o = OperandResult(SOpaque('value'), None, None)
        o._INDEX = SInt(c.int('index'))
        return c.alloc(o)
    base = SBase('items', n, mk)
    base.mk_alias = False
    this = OperatorItem('op') if width else mk(ctx, i)
    if width:
        this.text = Text('operator text')
    this._INDEX = SInt(index)
    ctx.alloc(this)
    base.memo.append((i, this))
    no = ctx.int('noriginal')
    ctx.assume(z3.And(index >= 0, index < no))
    orig = SList.of(SBase('original', no, lambda c, j: SOpaque('item')))
    st, r = run(it, Engine.execute_operator, calc, 'op', SList.of(base), SInt(i), width, orig, {})
    ctx.prove('returns', st == 'ok', repr(r))
    if st != 'ok':
        return
    els = [c[1] for c in r.chunks if c[0] == 'el'] if type(r) is SList else []
    ctx.prove('one-result', len(els) == 1 and isinstance(els[0], OperandResult))
    if len(els) != 1:
        return
    ctx.prove('in-the-place-of-the-operator', isinstance(els[0]._INDEX, SInt) and ctx.entails(els[0]._INDEX.t == index))
    if e is None:
        ctx.prove('the-result', els[0] is res)
        ctx.cover('worked')
        return
    x = els[0].value
    ctx.prove('an-error-value', isinstance(x, ExecuteException) and x.message is m)
    if isinstance(x, ExecuteException):
        ctx.prove('the-items-before', type(x.items) is SList and is_seg(x.items, orig.chunks[0][1]) and ctx.entails(x.items.length() == index) and all(ctx.entails(c[2] == 0) for c in x.items.chunks))
        ctx.prove('the-operator-is-the-offending-text', x.next is (this.text if width else None))
    ctx.cover('failed')


def u_terminator(ctx, na, nb):
    """what ended a statement before makes no difference: only whether these items can end one"""
    it = Interp(ctx)
    from modularcalculator.features.structure import terminator as TM

    def mk(name, n):
        out = []
        for j in range(n):
            x = OperandItem.__new__(OperandItem)
            x.text = SStr(ctx.string('%s%d' % (name, j)))
            ctx.assume(z3.Length(x.text.t) > 0)
            x.truncated = False
            out.append(ctx.alloc(x))
        return ctx.alloc(out)
    A, B = mk('a', na), mk('b', nb)
    same = z3.And([x.text.t == y.text.t for x, y in zip(A, B)]) if na == nb else z3.BoolVal(False)
    table = mk_vars(ctx)
    ends = {}

    def execute(it_, items, flags, *a):
        key = 'b' if list(items) == B and ends.get('now') == 'b' else 'a'
        ctx.prove('terminator:fake-execution-only', bool(flags.get('fake_execution')) and list(items) == (B if key == 'b' else A))
        calc.vars = ctx.alloc(SDict('changed', lambda c, k: None))
        if key == 'b' and 'a' in ends and ctx.branch(same):
            ends['b'] = ends['a']
        if key not in ends:
            ends[key] = ctx.choose(4, 'fake execution of ' + key)
        k = ends[key]
        if k == 1:
            raise PyRaise(ExecuteException('Missing right operands for operator +', [], None))
        if k == 2:
            raise PyRaise(ExecuteException('Missing left operands', [], None))
        if k == 3:
            raise PyRaise(KeyError('internal'))
        return OperandResult(None, None, None)
    calc = mk_calc(ctx, vars=table, last_failed_terminator=None, execute=Stub(execute), feature_options={'structure.terminator': {'Symbol': '\n'}})
    for now, items in (('a', A), ('b', B)):
        ends['now'] = now
        ignore = now == 'b' and ctx.choose(2, 'ignore') == 1
        st, r = run(it, TM.TerminatorFeature.parse_terminator, calc, '\nrest', 0, items, {'ignore_terminators': True} if ignore else {})
        ctx.prove('terminator:no-error', st == 'ok', repr(r))
        v = calc.vars
        ctx.prove('terminator:variables-as-before', isinstance(v, SDict) and v.name == table.name and not v.updates and v.memo is table.memo)
        if st != 'ok':
            return
        if ignore:
            ctx.prove('terminator:ignored', r == (None, None, None))
            ctx.cover('ignored')
            return
        if now not in ends:      # not executed: the same items were tried before
            ctx.prove('terminator:only-what-was-tried-is-not-tried-again', now == 'b' and ends.get('a') == 1 and ctx.entails(same))
            ends[now] = 1
        ended = isinstance(r, tuple) and r[0] is not None
        ctx.prove('terminator:ends-a-statement-exactly-when-it-can-end', ended == (ends[now] != 1))
        if ended:
            ctx.prove('terminator:the-end', len(r[0]) == 1 and r[0][0].text == '\n' and r[1] == 1 and bool(r[2].get('end_statement')))
        ctx.cover('ended' if ended else 'goes on')


CONFIG = ('__init__', 'install', 'setup', 'enable_units', 'import_feature', 'install_features', 'add_feature_to_be_installed', 'scan_feature_files')
STATE = {'vars': None, 'last_failed_terminator': ['TerminatorFeature.parse_terminator']}
MUTATE = ('append', 'insert', 'add', 'clear', 'update', 'pop', 'popitem', 'setdefault', 'extend', 'remove', 'discard', 'sort', 'reverse')


def is_config(q):
    base = q.split(':')[1].split('.')[-1]
    return q.startswith('modularcalculator:ModularCalculator.') or base in CONFIG or base.endswith('_set') or base.startswith('add_')


def u_state(ctx):
    """assigns clause of an evaluation: of the attributes of a calculator only the variable table (C06) and the remembered
    terminator (above) are changed, everything else only by the functions that configure it, which no evaluation calls"""
    c = concrete.calc('Computing', True)
    from props.c06 import WRITERS
    names, writers = {}, set()
    for a in sorted(vars(c)):
        out, callers, names = attribute_writers(a)
        allowed = {'vars': WRITERS, 'last_failed_terminator': ['TerminatorFeature.parse_terminator']}.get(a, [])
        for q, sites in sorted(out.items()):
            how = [h for _l, h in sites if h in ('assigned', 'item assigned or deleted') or h.startswith('method ') and h[7:] in MUTATE]
            if how:
                writers.add(q)
                ctx.prove('state:%s:%s' % (a, q), is_config(q) or q in allowed or q.split(':')[1] in allowed or helper(q, callers, allowed), str(how))
    for base, qs in sorted(names.items()):
        for q in qs:
            if q in writers and is_config(q) and base not in ('__init__', 'install', 'setup'):
                for caller in sorted(callers.get(base, ())):
                    ctx.prove('configured-from-outside-only:%s:%s' % (base, caller), is_config(caller) or caller.endswith('get_feature'))
    ctx.cover('end')


def helper(q, callers, allowed, seen=()):
    base = q.split('.')[-1].split(':')[-1]
    if q in seen:
        return True
    cs = [x for x in callers.get(base, ()) if x != q]
    return not base.startswith('__') and bool(cs) and all(is_config(x) or x.split(':')[1] in allowed or helper(x, callers, allowed, seen + (q,)) for x in cs)


UNITS = [('Engine.calculate:%s' % m, lambda ctx, m=m: u_calculate(ctx, m), {'max_paths': 3000, 'seconds': 100}) for m in ('parse', 'execute', 'flags', 'texts')]
UNITS += [('Engine.execute_operand failing', u_operand), ('Engine.execute_operator failing', lambda ctx: u_operation(ctx, 1)), ('Engine.execute_operator (invisible) failing', lambda ctx: u_operation(ctx, 0)),
          ('assigns clause of an evaluation', u_state)]
UNITS += [('parse_terminator after %d items, with %d' % (a, b), lambda ctx, a=a, b=b: u_terminator(ctx, a, b)) for a in range(3) for b in range(3)]
# ------------------------------------------------------------ the real code on texts
ATOMS = ["1", "2", "0.5", "100", "0x1F", "0b11", "0o7", "1e3", "50%", "'abc'", '"a b"', "''", "true", "false", "null", "[1, 2, 3]", "[1..4]", "['a', 'b']", "x", "y", "zz",
         "meters", "3 meters", "2 kg", "5 seconds", "hours", "pi", "'2020-01-01'", "x[0]", "[1..10 step 3]", "-3", "99999999999999999999"]
OPERATORS = ["+", "-", "*", "/", "^", "%", "\\", "and", "or", "xor", "not", "&", "|", "~", "<<", ">>", "=", "==", "!=", "<", ">", "<=", ">=", "+=", "||=", "then", "else", "to", "in", "=~",
             "!~", "&=", ".", "E", "=i", "-=", "sys", "::", "@", "AND", "Or", "Not", "XOR", "THEN", "Else", "TO"]
BRACKETS = ["(", ")", "[", "]", "{", "}", ",", "\n", " ", ";", ":", "..", "step", "#c", "'", '"', "$", "?", "\\", "@(", "\t", "é", "\u2028", "\x00", "$a", "${", "…"]
CALLS = ["sqrt(", "max(", "length(", "upper(", "join(", "log(", "sum(", "map(@sqrt, ", "if(", "filter(", "round(", "substr(", "find(", "gcd(", "scientific(", "hex(", "sort(", "factorial(",
         "op_unit_normalise(", "standardise(", "sin(", "date_add(", "nosuch(", "reverse(", "ln(", "mod(", "element(", "regexget(", "concat(", "floor(", "base("]
FAILS = ["1 / 0", "true AND 'a'", "1\n  NOT 5", "1 TO meters", "Sqrt('a')", "NOSUCH(1)", "0X1G", "sqrt('a')", "3 meters + 2 kg", "nosuch(1)", "zz + 1", "1 +", "[1, 2] + [1, 2, 3]", "(1 / 0)", "[1, 1 / 0]", "max([])", "'a' * 2", "x = 1 / 0", "log(0)", ")", "(", "'abc", "$$", "1 2 3 +",
         "element([1], 9)", "max(1, zz)", "1 ** 2", "round(1, 'a')", "true and", "b and", "(1 + (2 * (3 / 0)))", "1 meter + 1 second", "length(1, 2, 3)", "0b12", "5 to", "[1..", "factorial(-1)",
         "x = ", "sqrt(-1)", "{ 1 / 0 }(2)", "map(@nosuch, [1])", "map(@sqrt, ['a'])", "date_add('x', 1)", "999 ^ 999 ^ 999", "1 then 2", "acos(2)", "log(-1)", "regexget('a', '(')", "0 ^ 0", "1 << -1",
         "base(10, 99)", "0x + 1", "5 << 0.5", "max('a', 1)", "lcm(0, 0)", "not 5", "[1] [2]", "1 to meters", "'q' to hex"]


def failing(c, text, flags=None):
    """-> (message or None, exception or None, response or None)"""
    try:
        resp = c.calculate(text) if flags is None else c.calculate(text, flags)
    except CalculatingException as e:
        return None, e, getattr(e, 'response', None)
    except RecursionError:
        return 'RecursionError escaped', None, None
    except Exception as e:
        return '%s escaped calculate: %s' % (type(e).__name__, str(e)[:80]), None, None
    return None, None, resp


def results(resp, c):
    return [(r.expression, concrete.shown(r.value, r.unit, c) if r.has_result() else None) for r in resp.results]


def k_contain(text):
    c = concrete.calc('Computing')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        msg, err, resp = failing(c, text)
        if msg:
            return msg
        if err is None:
            if not isinstance(resp, CalculatorResponse):
                return 'calculate returned %r' % (resp,)
            return None
        if not isinstance(err.message, str) or not err.message:
            return 'the error carries the message %r' % (err.message,)
        if str(err.message) not in str(err):
            return 'the error does not show its message'
        if resp is None or not isinstance(resp, CalculatorResponse) or not err.has_response():
            return 'the error carries no response'
        st = err.statements
        if not isinstance(st, list) or not st or any(not isinstance(s, list) for s in st):
            return 'the error carries the statements %r' % (st,)
        if isinstance(err, ExecutionException) and len(st) != len(resp.results) + 1:
            return '%d results for %d completed statements' % (len(resp.results), len(st) - 1)
        for n, r in enumerate(resp.results):
            if r.expression != ''.join(i.text for i in st[n]):
                return 'completed statement %d is %r in the results and %r in the error' % (n, r.expression, ''.join(i.text for i in st[n]))
        done = ''.join(i.text for s in st[:-1] for i in s)
        if not text.startswith(done):
            return 'the completed statements are %r, which the text does not begin with' % done
        covered = done + ''.join(i.text for i in st[-1])
        try:
            p = err.find_pos(text)
        except Exception as e:
            return 'the place of the error is not found: %s' % str(e)[:100]
        if not 0 <= p <= len(text):
            return 'the place of the error is %d in a text of %d characters' % (p, len(text))
        if err.truncate(text) != text[:p]:
            return 'the text before the error is %r' % err.truncate(text)
        if not text.startswith(covered):
            return 'the error covers %r, which the text does not begin with' % covered
        if isinstance(err, ExecutionException) and p < len(done):
            return 'the error is placed before the failing statement'
    return None


def k_kept(parts, bad):
    """the statements before a failing one are completed and reported, the failing one is the offending text"""
    a, b = concrete.calc('Computing', True), concrete.calc('Computing')
    text = ''.join(p + '\n' for p in parts)
    msg, err, resp = failing(b, text)
    if msg:
        return msg
    if err is not None:
        return None
    want, tab = results(resp, b)[:len(parts)], concrete.table(b)
    msg, err, resp = failing(a, text + bad)
    if msg:
        return msg
    if err is None:
        return None
    if isinstance(err, ExecutionException):
        if results(resp, a)[:len(want)] != want or len(resp.results) < len(parts):
            return 'the error reports the completed results %s, not %s' % (results(resp, a), want)
        if err.find_pos(text + bad) < len(text) - 1:
            return 'the error is placed at %d, before the failing statement' % err.find_pos(text + bad)
        got = concrete.table(a)
        for k in tab:
            if got.get(k) != tab[k] and k not in bad:
                return 'variable %s is %s, not %s' % (k, got.get(k), tab[k])
    else:
        if resp.results:
            return 'a text that cannot be parsed has results'
        if a.vars:
            return 'a text that cannot be parsed assigned %s' % list(a.vars)
        if err.statements and not (text + bad).startswith(''.join(i.text for s in err.statements for i in s)):
            return 'the items of the error are not the beginning of the text'
        if err.find_pos(text + bad) < len(text) - 1:
            return 'the error is placed at %d, before the failing statement' % err.find_pos(text + bad)
    return None


def settings(c):
    return {k: repr(v) for k, v in c.__dict__.items() if isinstance(v, (int, str, bool, float, type(None), dict, list, tuple)) and k not in ('vars', 'last_failed_terminator')
            and not any(isinstance(x, object) and 'object at' in repr(x) for x in [v])}


SHARED = ["dv = {10 / PARAM1}", "arr = [1, 2, [3, 4]]", "len = 5 meters", "txt = 'hello'", "hx = 0xFF", "sq = 'sqrt'", "x = 1", "neg = {(0 - PARAM1) * 2}"]
SHARED_BAD = ["@dv(0)", "arr[9]", "arr + [1, 2]", "len + 2 kg", "txt * 2", "hx / 0", "@sq('a')", "@neg(txt)", "@dv([5, 0])", "arr[2] + 'q'", "len to kg", "x = @dv(0)", "@dv(2) + @dv(0)", "hx & len", "sum(txt)", "arr[txt]",
              "len ^ txt", "max(len, 5 kg)", "@dv", "@dv(1, 2", "@nosuch(arr)", "arr[0", "[hx, len] + [1 kg, 2 kg]", "x += @dv(0)", "filter(arr, [true])", "(len + 1 meter) + 1 kg", "hx + 0b2"]
SHARED_PROBES = ["@dv(4)", "arr", "arr[2]", "len", "len + 1 meter", "txt", "hx", "hx + 1", "@sq(16)", "@dv([5, 2])", "@neg(4)", "[hx, len]", "x"]


def k_usable(bads, probes, shared=()):
    """after failing texts the same calculator answers like one that was never given them"""
    a, b = concrete.calc('Computing', True), concrete.calc('Computing')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for t in ('1e2', '0x1F + 1.5', '2 meters'):
            a.calculate(t)          # what is prepared on first use
            b.calculate(t)
        for t in shared:
            m1, m2 = failing(a, t), failing(b, t)
            if m1[1] or m2[1] or m1[0] or m2[0]:
                return 'the statement %r fails: %s' % (t, m1[0] or m1[1] or m2[0] or m2[1])
        before = settings(a)
        for t in bads:
            msg, err, resp = failing(a, t)
            if msg:
                return msg
            if err is None:
                return None
            for r in resp.results if not isinstance(err, ParsingException) else []:
                m2, e2, r2 = failing(b, r.expression)
                if m2 or e2 is not None and functional(r.expression):
                    return None
        if settings(a) != before:
            now = settings(a)
            return 'failing texts changed %s' % ['%s: %s -> %s' % (k, before.get(k), now.get(k)) for k in sorted(set(before) | set(now)) if before.get(k) != now.get(k)]
        skip = [k for k in set(concrete.table(a)) | set(concrete.table(b)) if k not in [t.split(' ')[0] for t in shared if t != 'x = 1'] and any(k in t.split('\n')[-1] for t in bads)]
        ta, tb = concrete.table(a), concrete.table(b)
        for k in set(ta) | set(tb):
            if k not in skip and ta.get(k) != tb.get(k):
                return 'variable %s is %s, not %s' % (k, ta.get(k), tb.get(k))
        for k in skip:
            a.vars.pop(k, None)
            b.vars.pop(k, None)
        for t in probes:
            x, y = failing(a, t), failing(b, t)
            if x[0] or y[0]:
                return x[0] or y[0]
            if (x[1] is None) != (y[1] is None):
                return '%r %s, in a calculator without the failed texts %s' % (t, 'fails: ' + x[1].message if x[1] else 'works', 'it fails: ' + y[1].message if y[1] else 'it works')
            if x[1] is not None and (x[1].message, type(x[1]), x[1].find_pos(t)) != (y[1].message, type(y[1]), y[1].find_pos(t)):
                return '%r fails with %r, in a calculator without the failed texts with %r' % (t, x[1].message, y[1].message)
            if results(x[2], a) != results(y[2], b):
                return '%r gives %s, in a calculator without the failed texts %s' % (t, results(x[2], a), results(y[2], b))
    return None


def functional(s):
    return bool(s.strip())


def k_deep(pre, mid, post, n):
    c = concrete.calc('Computing')
    text = pre * n + mid + post * n
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        msg, err, resp = failing(c, text)
        if msg:
            return msg
        if err is not None and (not err.has_response() or not isinstance(err.message, str)):
            return 'the error carries no response or message'
        msg, err, resp = failing(c, '1 + 2')
        if msg or err is not None or concrete.to_py(resp.results[-1].value) != 3:
            return '1 + 2 afterwards: %s' % (msg or err or concrete.to_py(resp.results[-1].value))
    return None


KINDS = {'contain': k_contain, 'kept': k_kept, 'usable': k_usable, 'deep': k_deep}
DEEP = [('(', '1', ')'), ('[', '1', ']'), ('sqrt(', '1', ')'), ('(', '', ''), ('1+(', '2', ')'), ('{', '1', '}'), ("max(1,", '2', ')'), ('', '1', '1'), ('', "'a'", 'z'), ('not ', 'true', ''),
        ('1/', '0', ''), ('', 'x', 'x'), ('if(true,', '1', ',2)'), ('@', 'sqrt', '(4)'), ('-', '1', ''), ('', '1', '\n')]
SEARCH_SECONDS = (55, 900)
PROBES = ["7", "1 + 2", "x", "y", "x + 1", "band = 3", "band\n7", "xor = 1\nxor2 = 2", "y = 5\ny += 2\ny", "0x1F + 1", "b and\ntrue", "1 +\n2", "[1, 2]\n3", "x = 4\nx * 2\n1 / 0", "3 meters to cm", "2 kg",
          "1 +", "zz", "sum([1, 2])", "orange = 2\norange\n1", "sqrt(2)", "(1\n2)", "1 / 3", "0b11 & 1", "50%", "1e3 * 2", "not true", "f = 1\nf -\n1"]


def rand_text(rng):
    n = rng.randint(1, 9)
    parts = []
    for _ in range(n):
        k = rng.random()
        parts.append(rng.choice(ATOMS if k < .42 else OPERATORS if k < .72 else BRACKETS if k < .88 else CALLS))
    if rng.random() < .5:
        opened = []
        for p in parts:
            for ch in p:
                if ch in '([{':
                    opened.append({'(': ')', '[': ']', '{': '}'}[ch])
                elif opened and ch == opened[-1]:
                    opened.pop()
        parts += opened[::-1]
    return rng.choice(['', ' ']).join(parts)


def mutate(rng, t):
    for _ in range(rng.randint(1, 3)):
        i = rng.randint(0, len(t))
        k = rng.random()
        if k < .35:
            t = t[:i] + t[i + 1:]
        elif k < .7:
            t = t[:i] + rng.choice(BRACKETS + OPERATORS + ATOMS + list('0123456789.eExb-+')) + t[i:]
        else:
            j = min(len(t), i + rng.randint(0, 4))
            t = t[:i] + t[i:j][::-1] + t[j:]
    return t


def corpus():
    """the expressions of the repository's own tests, as material"""
    out = []
    root = os.path.join(_REPO, 'tests')
    for d, _ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.py'):
                for m in re.finditer(r"r?('|\")((?:(?!\1)[^\\\n]){2,70})\1", open(os.path.join(d, f)).read()):
                    out.append(m.group(2))
    return out


def search(S):
    rng = S.rng
    for p, m, q in DEEP:
        for n in (3, 400, 5000):
            if S.time_left() and (n < 5000 or p != '1/'):
                S.run('deep', p, m, q, n)
    good = ["x = 2", "y = 3 meters", "x", "1 + 1", "y * 2", "x = x + 1", "[1, 2, 3]", "x += 1", " ", "# hello", "band = 4", "s1 = 'abc'", "0x1F + 1", "x = 0x10"]
    for bad in FAILS:
        if S.time_left():
            S.run('contain', bad)
            S.run('kept', [rng.choice(good) for _ in range(rng.randint(0, 3))], bad)
            S.run('usable', [bad + rng.choice(['', '\n', '\n1'])], rng.sample(PROBES, 6))
    texts = corpus()
    t_end = S.deadline
    i = 0
    while S.time_left():
        i += 1
        k = rng.random()
        if rng.random() < .12:
            S.run('usable', [rng.choice(SHARED_BAD) if rng.random() < .8 else mutate(rng, rng.choice(SHARED_BAD)) for _ in range(rng.randint(1, 3))], rng.sample(SHARED_PROBES, 6), SHARED)
        elif k < .3:
            S.run('contain', rand_text(rng))
        elif k < .6:
            t = rng.choice(texts) if texts and rng.random() < .6 else rng.choice(FAILS + PROBES)
            S.run('contain', mutate(rng, t))
        elif k < .7:
            S.run('contain', '\n'.join(rng.choice(good + FAILS) for _ in range(rng.randint(1, 5))))
        elif k < .85:
            S.run('kept', [rng.choice(good) for _ in range(rng.randint(0, 4))], rng.choice(FAILS) if rng.random() < .5 else mutate(rng, rng.choice(FAILS)))
        else:
            S.run('usable', ['\n'.join([rng.choice(good) for _ in range(rng.randint(0, 2))] + [rng.choice(FAILS) if rng.random() < .5 else rand_text(rng)]) for _ in range(rng.randint(1, 3))], rng.sample(PROBES, 5))
