"""C10: operations broadcast element by element over arrays."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.operators import Operation
from modularcalculator.objects.exceptions import CalculatorException, ExecuteException

ASSUMPTIONS = ['which positions take arrays is read from the declared restrictions (input_can_be_type, input_must_be_type: checked by C15)',
               'a call of the operation on one row is replaced by the contract of Operation.call itself (induction on the nesting depth of the arrays)']
TRUSTED = ['the number of arguments is enumerated (1 to 3); the length of every array is arbitrary']

KIND = ['array', 'array of a variable', 'value', 'value of a variable']


def arguments(ctx, arity, first=None):
    """one arbitrary argument list"""
    out, bases = [], []
    for i in range(arity):
        k = first if first is not None and i == 0 else ctx.choose(4, 'kind %d' % i)
        name = 'input%d' % i
        b = None
        if k < 2:
            n = ctx.int('len_' + name)
            ctx.assume(n >= 0)
            b = SBase(name, n, lambda c, j, name=name: c.alloc(OperandResult(SOpaque(name + ' element'), SOpaque('unit'), None)))
            b.mk_alias = False
            v = SList.of(b)
            ctx.alloc(v)
        else:
            v = SOpaque(name + ' value')
        o = OperandResult(v, None if b is not None else SOpaque('unit'), SOpaque('ref') if k in (1, 3) else None)
        ctx.alloc(o)
        out.append(o)
        bases.append(b)
    return out, bases


class Declared:
    """ghost: what the operation declares about its parameters"""

    def __init__(self, ctx):
        self.ctx, self.can, self.must = ctx, {}, {}

    def ask(self, table, args, kw):
        key = (args[1], args[2], args[3] if len(args) > 3 else kw.get('sub_type'))
        if not isinstance(key[0], int):
            raise Undecided('parameter number %r' % (key[0],))
        if key not in table:
            table[key] = bool(self.ctx.choose(2, '%s?' % (key,)))
        return table[key]

    def install(self, it):
        it.contracts[Operation.input_can_be_type] = lambda it_, a, kw: self.ask(self.can, a, kw)
        it.contracts[Operation.input_must_be_type] = lambda it_, a, kw: self.ask(self.must, a, kw)


def same_length(ctx, ns):
    return ctx.branch(z3.And([ns[0] == m for m in ns[1:]])) if len(ns) > 1 else True


def u_call(ctx, arity, first=None):
    it = Interp(ctx)
    d = Declared(ctx)
    d.install(it)
    inputs, bases = arguments(ctx, arity, first)
    values = [o.value for o in inputs]
    chunks = [list(v.chunks) if b is not None else None for v, b in zip(values, bases)]
    op = Operation.__new__(Operation)
    op.name = 'op'
    op.maxparams = SInt(ctx.int('maxparams'))
    op.minparams = None
    op.inputs_can_be_exceptions = SBool(ctx.bool('accepts errors'))
    calc = mk_calc(ctx)
    flags = {}
    p = ctx.int('p')
    ctx.assume(p >= 0)
    it.skolems.append(p)
    calls = []
    state = {'started': False}

    def broadcast():
        return [i for i in range(arity) if bases[i] is not None and not d.ask(d.can, [op, i, 'array'], {})
                and not (inputs[i].ref is not None and d.ask(d.can, [op, i, 'variable'], {}))]

    def spread():
        return ctx.branch(op.maxparams.t == 1) and d.ask(d.must, [op, 0, 'array'], {}) and arity > 1

    def row_ok(row, pos, over):
        """the row holds the elements at this position and the other arguments as they are"""
        if type(row) is not list or len(row) != arity:
            return False
        for i in range(arity):
            want = bases[i].get(ctx, pos) if i in over else inputs[i]
            if row[i] is not want:
                return False
        return True

    def pos_of(row, over):
        for i in over:
            if i < len(row):
                for t, o in bases[i].memo:
                    if o is row[i]:
                        return t
        return None

    def recursive(it_, args, kw):
        if not state['started']:
            state['started'] = True
            return NotImplemented
        self_, calc_, row, flags_ = args[:4]
        ctx.prove('row:same-operation', self_ is op and calc_ is calc and flags_ is flags)
        over = broadcast()
        if over:
            ctx.prove('row:of-one-position', (t := pos_of(row, over)) is not None and row_ok(row, t, over))
        else:
            ctx.prove('row:only-when-declared', spread())
            over = [i for i in range(arity) if bases[i] is not None]
            ok = type(row) is list and len(row) == 1 and isinstance(row[0], OperandResult)
            ctx.prove('row:one-array-argument', ok)
            if not ok:
                raise PathDone()
            row = row[0].value
            if over:
                ctx.prove('row:of-one-position', (t := pos_of(row, over)) is not None and row_ok(row, t, over))
            else:
                ctx.prove('row:all-arguments', row_ok(row, None, []))
        k = ctx.choose(5, 'outcome')
        if k == 4:
            r = ctx.alloc(OperandResult(ExecuteException('an error as a value', [], None), None, None))
            calls.append((row, 'ok', r))
            return r
        if k >= 2:
            e = [CalculatorException('failed'), ExecuteException('failed', [], None)][k - 2]
            calls.append((row, 'raise', e))
            raise PyRaise(e)
        r = ctx.alloc(OperandResult(SOpaque('result') if k == 0 else SList.of(SBase('inner', ctx.int('ninner'), lambda c, i: SOpaque('x'))), SOpaque('u'), None))
        calls.append((row, 'ok', r))
        return r
    it.contracts[Operation.call] = recursive

    def validate(it_, args, kw):
        # the operation itself is run on the arguments as given
        ctx.prove('direct:no-array-for-a-single-value', not broadcast())
        ctx.prove('direct:not-several-arguments-for-one-array', not spread())
        vals = args[2]
        ctx.prove('direct:the-arguments', type(vals) is list and len(vals) == arity and all(a is b for a, b in zip(vals, values)))
        ctx.prove('direct:no-other-call', not calls)
        ctx.cover('direct')
        raise PathDone()
    it.contracts[Operation.validate] = validate
    st, r = run(it, Operation.call, op, calc, inputs, flags)
    for o, v, ch, b in zip(inputs, values, chunks, bases):
        ctx.prove('arguments-unchanged', o.value is v and (b is None or v.chunks == ch))
    over = broadcast()
    strict = bool(over)
    if not over:
        ctx.prove('ends-without-running-the-operation-only-by-broadcasting', spread())
        over = [i for i in range(arity) if bases[i] is not None]
    if over and not same_length(ctx, [bases[i].n for i in over]):
        ctx.prove('different-lengths:error', st == 'raise' and isinstance(r, CalculatorException))
        ctx.prove('different-lengths:nothing-executed', not calls)
        ctx.cover('lengths')
        return
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.prove('raise:only-in-the-one-array-case', not strict)
        if calls:
            ctx.prove('raise:because-the-call-failed-or-returned-an-array', calls[-1][1] == 'raise' and calls[-1][2] is r or bool(over) and isinstance(calls[-1][2].value, SList))
        ctx.cover('raise')
        return
    if not over:
        ctx.prove('one-array:result-of-the-call', len(calls) == 1 and r is calls[0][2])
        ctx.cover('one-array')
        return
    n = bases[over[0]].n
    ctx.prove('array:a-new-array', isinstance(r, OperandResult) and type(r.value) in (SList, list) and all(r.value is not v for v in values))
    out = r.value if isinstance(r.value, SList) else SList([('el', v) for v in r.value])
    ctx.prove('array:length', out.length() == n)
    ctx.prove('array:no-unit-of-its-own', r.unit is None)
    ctx.assume(p < n)
    e = M.get_at(it, out, p)
    mine = [c for c in calls if row_ok(c[0], p, over)]
    ctx.prove('array:one-call-per-position', len(mine) == 1)
    if len(mine) == 1:
        if mine[0][1] == 'ok':
            ctx.prove('array:element-is-the-result', e is mine[0][2])
            ctx.cover('element')
        else:
            ctx.prove('array:failure-becomes-an-error-in-place', strict and isinstance(e, OperandResult) and e.value is mine[0][2] and e.unit is None)
            ctx.cover('element error')


def unit(n, first=None):
    return lambda ctx: u_call(ctx, n, first)


UNITS = [('Operation.call with 1 argument', unit(1)), ('Operation.call with 2 arguments', unit(2), {'max_paths': 3000, 'seconds': 100})]
UNITS += [('Operation.call with 3 arguments, the first %s' % KIND[k], unit(3, k), {'max_paths': 9000, 'seconds': 110}) for k in range(4)]


# ---------------------------------------------------------------- concrete oracle
# The result for arrays is rebuilt from the results of the same calculator for single values.
from pyvc.concrete import evaluate, calc, shown, table

SEARCH_SECONDS = (30, 240)
ERR = 'ERR'


def build(a, k=None):
    """text of an argument: a string, a list of arguments, or {'text', 'elems'}"""
    if isinstance(a, dict):
        return '(%s)' % a['text']
    if a == []:
        return '(filter([1], [false]))'     # there is no literal for the empty array
    if isinstance(a, list):
        return '[%s]' % ', '.join(build(x) for x in a)
    return a if a.isalpha() or a[0] in '"\'' else '(%s)' % a


def elems(a):
    return a['elems'] if isinstance(a, dict) else a if isinstance(a, list) else None


def single(name, args, c):
    """the operation applied to plain values"""
    if ERR in args:
        return ('error',)
    st, r = evaluate(op_text(name, [build(a) for a in args]), c=c)
    if st == 'error':
        return ('error',)
    return shown(r.value, r.unit, c)


def op_text(name, texts):
    kind, n = name
    if kind == 'f':
        return '%s(%s)' % (n, ', '.join(texts))
    if n == 'then':
        return '%s then %s else %s' % tuple(texts)
    if len(texts) == 1:
        return '%s %s' % (n, texts[0])
    return '%s %s %s' % (texts[0], n, texts[1])


class Mismatch(Exception):
    pass


def types(name, c, i):
    op = c.funcs[name[1]] if name[0] == 'f' else c.ops_list[name[1]]
    out = []
    for r in op.value_restrictions:
        if r['fromparam'] <= i and (r['toparam'] is None or i <= r['toparam']):
            out += [str(t).split('[')[0] for t in r['objtypes']]
    return out


def expected(name, args, c, top=True):
    over = [i for i, a in enumerate(args) if elems(a) is not None and 'array' not in types(name, c, i)]
    if not over:
        return single(name, args, c)
    if len({len(elems(args[i])) for i in over}) > 1:
        return ('error',)
    out = []
    for k in range(len(elems(args[over[0]]))):
        out.append(expected(name, [elems(a)[k] if i in over else a for i, a in enumerate(args)], c, False))
    return ('list', tuple(out), None)


def spread(name, args, c):
    """several arguments for one array"""
    over = [a for a in args if isinstance(a, list)]
    if len({len(a) for a in over}) > 1:
        return ('error',)
    if not over:
        return single(name, [list(args)], c)
    out = []
    for k in range(len(over[0])):
        r = single(name, [[a[k] if isinstance(a, list) else a for a in args]], c)
        if r == ('error',) or r[0] == 'list':
            return ('error',)
        out.append(r)
    return ('list', tuple(out), None)


def k_apply(name, args, stored):
    """stored: positions of the arguments held in variables"""
    name = tuple(name)
    c = calc()
    want = spread(name, args, c) if name[0] == 'f' and c.funcs[name[1]].maxparams == 1 and len(args) > 1 and types(name, c, 0) == ['array'] else expected(name, args, c)
    c = calc()
    texts = [build(a) for a in args]
    for i in stored:
        st, r = evaluate('var%s = %s' % ('abcd'[i], texts[i]), c=c)
        if st == 'error':
            return None
        texts[i] = 'var%s' % 'abcd'[i]
    before = table(c)
    ids = [[id(e) for e in c.vars['var%s' % 'abcd'[i]][0]] if isinstance(c.vars['var%s' % 'abcd'[i]][0], list) else None for i in stored]
    e = op_text(name, texts)
    st, r = evaluate(e, c=c)
    got = ('error',) if st == 'error' else shown(r.value, r.unit, c)
    if got != want:
        return '%s with %s: %s, but value by value %s' % (e, {k: v for k, v in before.items()} if stored else '', got, want)
    if table(c) != before:
        return '%s changes its arguments: %s became %s' % (e, before, table(c))
    for i, w in zip(stored, ids):
        v = c.vars['var%s' % 'abcd'[i]][0]
        if w is not None and [id(x) for x in v] != w:
            return '%s replaces elements of its argument' % e
    return None


KINDS = {'apply': k_apply}

VALUES = {
    'number': ['0', '1', '2', '3', '-4', '7', '2.5', '1/3', '0x1F', '0b101', '12', '100', '5 meters', '300 centimeters', '2 hours', '30 minutes', '1E3', '25%', '0o17', '6', '9', '1.25', '-0.5'],
    'string': ["'abc'", "''", "'b'", "'Hello'", "'a,b,c'", "'xyzzy'", "'B'", "','", "'12'"],
    'boolean': ['true', 'false', '1 < 2', '3 == 4'],
    'date': ["'2020-01-31'", "'1999-12-31 23:59:59'", "'2024-02-29'"],
    'unit': ['meters', 'feet', 'hours', 'kilometers'],
    'numericalrepresentation': ['hex', 'bin', 'oct', 'decimal'],
    'number with unit': ['5 meters', '300 centimeters', '2 hours', '1500 meters'],
    'exception': ['true', 'false'],
    None: ['1', "'abc'", 'true', '5 meters'],
}
ERRORS = [{'text': '60 / [1, 0, 4]', 'elems': ['60', ERR, '15']}, {'text': '60 / [0, 2]', 'elems': [ERR, '30']}, {'text': '7 % [0]', 'elems': [ERR]},
          {'text': '(1 / [2, 4, 0]) + 1', 'elems': ['1.5', '1.25', ERR]}]
SKIP = {'now', 'reset', 'delete', 'dateadd', 'format', 'compact'}


def value(rng, ts):
    if rng.random() < 0.12:
        ts = [rng.choice(['number', 'string', 'boolean'])]
    t = rng.choice(ts or [None])
    v = VALUES.get(t) or VALUES[None]
    if t == 'number' and rng.random() < 0.75:
        v = v[:12]
    return rng.choice(v)


def argument(rng, ts, n, depth, errors):
    if 'array' in ts:
        m = rng.randint(0, 4)
        t = rng.choice(['number', 'number', 'string', 'boolean'])
        return [value(rng, [t]) for _ in range(m)]
    if n is None or rng.random() < 0.25:
        return value(rng, ts)
    if errors and n == 3 and rng.random() < 0.3:
        return ERRORS[rng.choice([0, 3])]
    if rng.random() < 0.08:
        n = max(0, n + rng.choice([-1, 1]))
    out = []
    for _ in range(n):
        if depth and rng.random() < 0.25:
            out.append(argument(rng, ts, rng.randint(0, 3), depth - 1, errors))
        else:
            out.append(value(rng, ts))
    return out


def search(S):
    rng = S.rng
    c = calc()
    names = [('f', n) for n in sorted(c.funcs) if not n.startswith('sp_') and n not in SKIP] + [('f', 'sp_beta')] * ('sp_beta' in c.funcs)
    names += [('o', n) for lv in c.ops for n in lv if not c.ops_list[n].hidden and 'variable' not in sum([[str(t) for t in r['objtypes']] for r in c.ops_list[n].value_restrictions], [])]
    names = [n for n in names if n[1] not in ('UNIT_MULTIPLY', 'UNIT_DIVIDE', 'UNIT_ASSIGNMENT', 'IMPLICIT_MULTIPLY')]
    info = {}
    for n in names:
        op = c.funcs[n[1]] if n[0] == 'f' else c.ops_list[n[1]]
        lo = op.minparams or 0
        hi = op.maxparams if op.maxparams is not None else lo + 2
        info[n] = (lo, hi, op.inputs_can_be_exceptions, [types(n, c, i) for i in range(max(hi, 4))])
    A, B = ['1', '2', '3'], ['4', '0', '6']
    for n in names:
        lo, hi, exc, ts = info[n]
        for a in range(lo, hi + 1):
            if not a:
                continue
            base = [[value(rng, ts[i]) for _ in range(3)] if 'array' not in ts[i] else ['1', '2'] for i in range(a)]
            for over in range(1, 2 ** a):
                if S.time_left():
                    S.run('apply', n, [base[i] if 'array' in ts[i] or over >> i & 1 else base[i][0] for i in range(a)], [i for i in range(a) if rng.random() < 0.5])
    while S.time_left():
        n = rng.choice(names)
        lo, hi, exc, ts = info[n]
        if hi == 0:
            continue
        if hi == 1 and ts[0] == ['array']:
            a = rng.randint(1, 4)
            m = rng.randint(0, 4)
            args = [[value(rng, ['number']) for _ in range(m if rng.random() < 0.93 else m + 1)] if rng.random() < (0.0 if a == 1 else 0.4) else value(rng, ['number']) for _ in range(a)]
            if a == 1:
                args = [argument(rng, ts[0], None, 0, False)]
            S.run('apply', n, args, [i for i in range(a) if rng.random() < 0.3])
            continue
        a = rng.randint(lo, hi)
        if n[0] == 'f' and rng.random() < 0.03:
            a = rng.randint(1, 4)
        a = max(a, 1)
        m = rng.choice([0, 1, 2, 3, 3, 3, 4, 5, 9, 17, None])
        args = [argument(rng, ts[i], m, rng.choice([0, 0, 1, 2]), not exc) for i in range(a)]
        S.run('apply', n, args, [i for i in range(a) if rng.random() < 0.35])
