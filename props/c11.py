"""C11: ranges contain exactly the stepped values between their ends."""
import functools
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc import rat
from pyvc.rat import Rat, term
from modularcalculator.engine import Engine
from modularcalculator.numericalengine import NumericalEngine
from modularcalculator.features.arrays import arrays
from modularcalculator.features.arrays.arrays import ArrayElement, ArrayItem
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.exceptions import CalculatorException, ExecuteException
from modularcalculator.services.unitnormaliser import UnitNormaliser

ASSUMPTIONS = [rat.ASSUMPTION, 'unit_conversion converts exactly or raises a calculator error (decided by C08)']


class Fill(LoopSpec):
    """invariant after k rounds: the list holds a, a+s, ..., a+(k-1)s; every Number carried by the loop has moved k steps"""

    def __init__(self, ghost):
        self.g = ghost

    def init(self, it, fr):
        self.nums, self.lists, self.ints = {}, {}, {}
        for nm, v in fr.locals.items():
            if term(v) is not None and not isinstance(v, (bool, int)):
                self.nums[nm] = v
            elif isinstance(v, (int, SInt)) and not isinstance(v, bool):
                self.ints[nm] = M.to_int(v)
            elif type(v) is list and not v or isinstance(v, SList) and not v.chunks:
                self.lists[nm] = v

    def at(self, k):
        return self.g['a'] + z3.ToReal(k) * self.g['s']

    def havoc(self, it, fr, k):
        g = self.g
        for nm in self.carried:
            if nm in self.nums:
                fr.locals[nm] = Rat(term(self.nums[nm]) + z3.ToReal(k) * g['s'])
            elif nm in self.ints:
                fr.locals[nm] = SInt(z3.simplify(self.ints[nm] + k))
        base = SBase('range', k, lambda c, i: c.alloc(OperandResult(Rat(self.at(i)), g['unit'], None)))
        base.mk_alias = False
        self.base = base
        self.heads = {}
        for nm, v in self.lists.items():
            l = it.ctx.alloc(SList.of(base))
            self.heads[nm] = l
            fr.locals[nm] = l

    def step(self, it, fr, k):
        ctx, g = it.ctx, self.g
        grown = [nm for nm, l in self.heads.items() if len(fr.locals[nm].chunks) == 2]
        ctx.prove('loop:one-list-grows', len(grown) == 1)
        if len(grown) != 1:
            return
        ch = fr.locals[grown[0]].chunks
        ok = ch[0][0] == 'seg' and ch[0][1] is self.base and ch[1][0] == 'el' and isinstance(ch[1][1], OperandResult)
        ctx.prove('loop:one-element-appended', ok)
        if not ok:
            return
        e = ch[1][1]
        t = term(e.value)
        ctx.prove('loop:element-is-a-number', t is not None)
        if t is None:
            return
        ctx.prove('loop:element-is-start-plus-k-steps', t == self.at(k))
        ctx.prove('loop:element-in-the-unit-of-the-start', e.unit is g['unit'])
        ctx.prove('loop:element-does-not-pass-the-end', within(g, t))
        ctx.prove('loop:ends (each round uses up one step of the way, which is not zero)', z3.And(g['s'] != 0, within(g, self.at(k))))
        for nm in self.carried:
            if nm in self.nums:
                ctx.prove('loop:%s-advances-one-step' % nm, (t2 := term(fr.locals[nm])) is not None and ctx.entails(t2 == term(self.nums[nm]) + z3.ToReal(k + 1) * g['s']))
            elif nm in self.ints:
                ctx.prove('loop:%s-counts' % nm, M.to_int(fr.locals[nm]) == self.ints[nm] + k + 1)

    def may_write(self, obj):
        return isinstance(obj, SList)


def within(g, t):
    return z3.If(g['s'] > 0, t <= g['b'], t >= g['b'])


def u_range(ctx, has_step):
    it = Interp(ctx)
    rat.install(it)
    parts = ['start', 'end'] + (['step'] if has_step else [])
    items = {p: SList.of(SBase(p + ' items', ctx.int('len_' + p), lambda c, i: SOpaque('item'))) for p in parts}
    for p in parts:
        ctx.assume(items[p].length() >= (1 if p == 'step' else 0))
    units = [SOpaque('unit %d' % i) for i in range(3)]
    res, numbers, outcome = {}, {}, {}
    order = []

    def execute(it_, args, kw):
        p = [q for q in parts if items[q] is args[1]]
        ctx.prove('executes-its-own-expressions', len(p) == 1 and p[0] not in order)
        if len(p) != 1:
            raise PathDone()
        p = p[0]
        order.append(p)
        k = ctx.choose(5, p)
        if k == 0:
            outcome[p] = e = ExecuteException(p, [], None)
            raise PyRaise(e)
        if k == 1:
            outcome[p] = e = ExecuteException(p, [], None)
            r = OperandResult(e, None, None)
        elif k == 2:
            outcome[p] = 'not a number'
            r = OperandResult(SOpaque('other value'), None, None)
        else:
            x = rat.rat(ctx, p)
            v = x if k == 3 else SOpaque('numeric text')
            numbers[id(v)] = (v, x)
            u = [None, units[0], units[['start', 'end', 'step'].index(p)]][ctx.choose(3 if p != 'start' else 2, 'unit ' + p)]
            r = OperandResult(v, u, None)
            res[p] = (x, u)
        ctx.alloc(r)
        r._before = (r.value, r.unit)
        made.append(r)
        return r
    made = []
    it.contracts[Engine.execute] = execute

    def number(it_, args, kw):
        v = args[1]
        if term(v) is not None:
            return v
        if id(v) in numbers:
            return numbers[id(v)][1]
        raise PyRaise(CalculatorException("Can't cast to number"))
    it.contracts[NumericalEngine.number] = number
    conv = {}

    def unit_conversion(it_, args, kw):
        _self, v, f, t, rel = args[:5]
        if f is t:
            return (v, f)
        if f is None or t is None:
            raise PyRaise(CalculatorException('unit is not set'))
        ctx.prove('converts-into-the-unit-of-the-start', t is units[0])
        key = (f.name, bool(rel))
        if key not in conv:
            conv[key] = None if ctx.choose(2, 'convertible %s %s' % key) == 1 else rat.rat(ctx, 'converted %s' % f.name)
            src[key] = v
        if conv[key] is None:
            raise PyRaise(CalculatorException('different dimensions'))
        return (conv[key], t)
    src = {}
    it.contracts[UnitNormaliser.unit_conversion] = unit_conversion
    it.contracts[UnitNormaliser.normalise_inputs] = lambda it_, a, kw: (_ for _ in ()).throw(Undecided('normalise_inputs in a range'))
    norm = UnitNormaliser.__new__(UnitNormaliser)
    calc = mk_calc(ctx, unit_normaliser=norm)
    el = ArrayElement.__new__(ArrayElement)
    # nothing after the step symbol is the same as no step
    el.element, el.end_element, el.step = items['start'], items['end'], items['step'] if has_step else ctx.alloc([]) if ctx.choose(2, 'empty step') else None
    g = {}

    def setup():
        """the range the inputs describe, once they are known"""
        if not all(p in res for p in parts):
            return None
        us = [res[p][1] for p in parts]
        if any(u is not None for u in us) and any(u is None for u in us):
            return None
        g['unit'] = us[0]
        g['a'] = res['start'][0].t

        def put(p, rel):
            x, u = res[p]
            if u is us[0]:
                return x.t
            c = conv.get((u.name, rel))
            return c.t if c is not None else None
        g['b'] = put('end', False)
        if g['b'] is None:
            return None
        g['s'] = put('step', True) if has_step else z3.If(g['b'] < g['a'], z3.RealVal(-1), z3.RealVal(1))
        return None if g['s'] is None else g

    def whiles(it_, node, fr):
        if setup() is None:
            raise Undecided('loop before the range is known')
        from pyvc.interp import stored_names
        f = Fill(g)
        f.carried = stored_names(node.body)
        return f
    it.while_specs.append(whiles)
    state = {'items': SInt(ctx.int('items'))}
    st, r = run(it, ArrayElement.value, el, {}, calc, state)
    for o in made:
        ctx.prove('given-values-unchanged', o.value is o._before[0] and o.unit is o._before[1])
    for key, v in src.items():
        which = 'step' if key[0] == 'unit 2' else 'end'
        ctx.prove('converts-the-given-number', isinstance(v, Rat) and which in res and v is res[which][0])
    if st == 'raise':
        ctx.prove('raise:execution-error', isinstance(r, ExecuteException), repr(r))
        bad = [p for p in order if p in outcome]
        if bad and isinstance(outcome[bad[0]], Exception):
            ctx.prove('raise:the-error-of-the-part', r is outcome[bad[0]])
        elif not bad:
            w = setup()
            if w is not None:
                ctx.prove('raise:only-when-the-step-leads-away', (w['b'] - w['a']) * w['s'] < 0)
        ctx.cover('raise')
        return
    ctx.prove('value:every-part-evaluated', sorted(order) == sorted(parts))
    ctx.prove('value:no-part-failed', not outcome)
    w = setup()
    ctx.prove('value:consistent-units', w is not None)
    if w is None:
        return
    if has_step:
        ctx.prove('value:step-does-not-lead-away', z3.Not((w['b'] - w['a']) * w['s'] < 0))
    ok = isinstance(r, SList) and len(r.chunks) == 1 and r.chunks[0][0] == 'seg' and str(z3.simplify(r.chunks[0][2])) == '0'
    if type(r) is list and not r:
        n = z3.IntVal(0)
    elif not ok:
        ctx.fail('value:the-filled-list', repr(r))
        return
    else:
        n = r.length()
        p = ctx.int('p')
        ctx.assume(z3.And(p >= 0, p < n))
        e = M.get_at(it, r, p)
        ctx.prove('value:element-p-is-start-plus-p-steps', term(e.value) is not None and e.unit is w['unit'] and ctx.entails(term(e.value) == w['a'] + z3.ToReal(p) * w['s']))
    ctx.prove('value:up-to-the-last-that-does-not-pass-the-end', z3.Or(w['s'] == 0, z3.Not(within(w, w['a'] + z3.ToReal(n) * w['s']))))
    ctx.cover('range')


def u_single(ctx):
    """an element without an end is the value of its expression"""
    it = Interp(ctx)
    items = SList.of(SBase('items', ctx.int('n'), lambda c, i: SOpaque('item')))
    k = ctx.choose(3, 'outcome')
    e = ExecuteException('x', [], None)
    o = OperandResult(e if k == 1 else SOpaque('value'), SOpaque('unit'), None)

    def execute(it_, args, kw):
        ctx.prove('executes-its-expression', args[1] is items)
        if k == 2:
            raise PyRaise(e)
        return o
    it.contracts[Engine.execute] = execute
    el = ArrayElement.__new__(ArrayElement)
    el.element, el.end_element, el.step = items, None, None
    st, r = run(it, ArrayElement.value, el, {}, mk_calc(ctx), {'items': SInt(ctx.int('i'))})
    if k == 0:
        ctx.prove('one-element', st == 'ok' and type(r) is list and len(r) == 1 and r[0] is o)
    else:
        ctx.prove('error', st == 'raise' and r is e)
    ctx.cover('end')


class Concat(LoopSpec):
    """invariant: the array is the concatenation of the values of the first k elements (a prefix of unknown length)"""

    def __init__(self, st):
        self.st = st

    def init(self, it, fr):
        self.names = [nm for nm, v in fr.locals.items() if type(v) is list and not v or isinstance(v, SList) and not v.chunks]
        it.ctx.prove('array:starts-empty', len(self.names) >= 1)

    def havoc(self, it, fr, k):
        m = it.ctx.int('done')
        it.ctx.assume(m >= 0)
        self.prefix = SBase('prefix', m, lambda c, i: SOpaque('element'))
        self.st['k'], self.st['cur'], self.st['prefix'] = k, None, self.prefix
        for nm in self.names:
            fr.locals[nm] = it.ctx.alloc(SList.of(self.prefix))

    def step(self, it, fr, k):
        cur = self.st['cur']
        it.ctx.prove('array:element-evaluated', cur is not None)
        good = [nm for nm in self.names if isinstance(fr.locals[nm], SList) and [c[1] for c in fr.locals[nm].chunks] == [self.prefix, cur]
                and it.ctx.entails(z3.And([z3.And(c[2] == 0, c[3] == c[1].n) for c in fr.locals[nm].chunks]))]
        it.ctx.prove('array:values-appended-in-order', len(good) >= 1)

    def may_write(self, obj):
        return isinstance(obj, (SList, dict, ArrayItem, ExecuteException))


def u_array(ctx):
    it = Interp(ctx)
    st = {'cur': None}
    n = ctx.int('n')
    ctx.assume(n >= 0)
    els = SBase('elements', n, lambda c, i: ArrayElement.__new__(ArrayElement))
    els.mk_alias = False

    def value(it_, args, kw):
        ctx.prove('array:elements-in-turn', args[0] is els.get(ctx, st['k']) and st['cur'] is None)
        if ctx.choose(2, 'fails') == 1:
            raise PyRaise(ExecuteException('x', [], None))
        b = SBase('values', ctx.int('m'), lambda c, i: SOpaque('element'))
        ctx.assume(b.n >= 0)
        st['cur'] = b
        return SList.of(b)
    it.contracts[ArrayElement.value] = value
    it.contracts[ExecuteException.truncate] = lambda it_, args, kw: SStr(ctx.string('truncated'))
    it.loop_specs.append(lambda it_, node, fr, seq: Concat(st))
    a = ArrayItem.__new__(ArrayItem)
    ctx.alloc(a)
    a.elements = SList.of(els)
    a.items = SList.of(SBase('items', ctx.int('nitems'), lambda c, i: SOpaque('item')))
    a.text, a.truncated, a.calculator = SStr(ctx.string('text')), False, mk_calc(ctx)
    rst, r = run(it, ArrayItem.value, a, {})
    if rst == 'raise':
        ctx.prove('raise:execution-error', isinstance(r, ExecuteException), repr(r))
        ctx.cover('raise')
        return
    ctx.prove('array:every-element', isinstance(r, SList) and [c[1] for c in r.chunks] == [st['prefix']] and ctx.entails(st['k'] == n))
    ctx.cover('array')


UNITS = [('ArrayElement.value, range', lambda ctx: u_range(ctx, False)), ('ArrayElement.value, range with step', lambda ctx: u_range(ctx, True), {'max_paths': 6000, 'seconds': 100}),
         ('ArrayElement.value, single', u_single), ('ArrayItem.value', u_array)]


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction as F
from pyvc.concrete import evaluate, to_py, calc, shown
from modularcalculator.objects.number import Number

SEARCH_SECONDS = (20, 200)
# unit -> (dimension, factor, offset) into the base unit, written down here
UNIT = {'meters': ('l', F(1), F(0)), 'centimeters': ('l', F(1, 100), F(0)), 'kilometers': ('l', F(1000), F(0)), 'inches': ('l', F(254, 10000), F(0)), 'feet': ('l', F(3048, 10000), F(0)),
        'hours': ('t', F(3600), F(0)), 'minutes': ('t', F(60), F(0)), 'seconds': ('t', F(1), F(0)), 'days': ('t', F(86400), F(0)),
        'celsius': ('k', F(1), F(27315, 100)), 'fahrenheit': ('k', F(5, 9), F(45967, 180)), 'kelvin': ('k', F(1), F(0)),
        'meters^2': ('a', F(1), F(0)), 'feet^2': ('a', F(3048, 10000) ** 2, F(0)), 'meters/second': ('v', F(1), F(0)), 'kilometers/hour': ('v', F(1000, 3600), F(0))}


def literal(x, form):
    x = F(x)
    s, n, d = ('-' if x < 0 else ''), abs(x.numerator), x.denominator
    if form == 'hex' and d == 1 and x >= 0:
        return '0x%X' % n
    if form == 'bin' and d == 1 and x >= 0:
        return '0b%s' % bin(n)[2:]
    if form == 'text' and d == 1 and x >= 0:
        return "'%d'" % n
    if d == 1:
        return s + str(n)
    if form == 'dec':
        k = 0
        while k < 30 and d * F(10) ** 0 and (x * 10 ** k).denominator != 1:
            k += 1
        if (x * 10 ** k).denominator == 1:
            digits = str(abs(int(x * 10 ** k))).rjust(k + 1, '0')
            return s + digits[:-k] + '.' + digits[-k:]
    return '(%s%d/%d)' % (s, n, d)


def part(p):
    x, form, unit = p
    t = literal(x, form)
    return t if unit is None else '%s %s' % (t, unit)


def stepped(start, end, step):
    """the exact values, or 'error'"""
    given = [p for p in (start, end, step) if p is not None]
    us = [p[2] for p in given]
    if any(us) and not all(us):
        return 'error'
    if any(us) and len({UNIT[u][0] for u in us}) > 1:
        return 'error'

    def put(p, relative):
        x = F(p[0])
        if p[2] is None or p[2] == us[0]:
            return x
        _, f, o = UNIT[p[2]]
        _, f0, o0 = UNIT[us[0]]
        return x * f / f0 if relative else (x * f + o - o0) / f0
    a, b = put(start, False), put(end, False)
    s = put(step, True) if step is not None else F(-1 if b < a else 1)
    if (b - a) * s < 0:
        return 'error'
    n = (b - a) / s
    return [a + k * s for k in range(n.numerator // n.denominator + 1)]


def k_range(elements, how):
    """array literal of plain values and ranges"""
    texts, want = [], []
    for el in elements:
        if len(el) == 1:
            texts.append(part(el[0]))
            if want != 'error':
                want.append((F(el[0][0]), el[0][2]))
            continue
        start, end, step = el
        texts.append(part(start) + ['..', ' .. '][how & 1] + part(end) + (' step ' + part(step) if step is not None else ' step' if how & 8 else ''))
        vals = stepped(start, end, step)
        if vals == 'error':
            want = 'error'
        elif want != 'error':
            want += [(v, start[2]) for v in vals]
    e = '[' + ', '.join(texts) + ']'
    c = calc()
    if how & 2:
        st, r = evaluate('vary = %s' % e, c=c)
        if st != 'error':
            st, r = evaluate('vary', c=c)
    else:
        st, r = evaluate(e, c=c)
    if st == 'error':
        return None if want == 'error' else '%s: error %s, should be %d values' % (e, r, len(want))
    if want == 'error':
        return '%s: should be an error, is %s' % (e, to_py(r.value))
    if not isinstance(r.value, list):
        return '%s is no array' % e
    if not want:
        return None
    got = []
    for x in r.value:
        if not isinstance(x.value, Number):
            # a plain element may be text
            got.append((F(str(x.value)), x.unit))
        else:
            got.append((to_py(x.value), x.unit))
    if [g[0] for g in got] != [w[0] for w in want]:
        return '%s: %s, should be %s' % (e, [str(g[0]) for g in got][:12], [str(w[0]) for w in want][:12])
    for (v, u), (w, name) in zip(got, want):
        if (u is None) != (name is None):
            return '%s: unit %s of %s, should be %s' % (e, u, v, name)
        if u is not None:
            st, t = evaluate('1 %s' % name, c=calc())
            if u != t.unit:
                return '%s: unit %s of %s, should be %s' % (e, u, v, name)
    return None


def k_stored(start, end, step):
    """ends and step held in variables: they stay as they are"""
    c = calc()
    parts = [p for p in (start, end, step) if p is not None]
    for nm, p in zip(('vara', 'varb', 'varc'), parts):
        st, r = evaluate('%s = %s' % (nm, part(p)), c=c)
        if st == 'error':
            return None
    before = {k: shown(v[0], v[1], c) for k, v in c.vars.items()}
    want = stepped(start, end, step)
    e = '[vara..varb%s]' % (' step varc' if step is not None else '')
    st, r = evaluate(e, c=c)
    if (st == 'error') != (want == 'error'):
        return '%s with %s: %s' % (e, [part(p) for p in parts], r if st == 'error' else 'no error')
    if {k: shown(v[0], v[1], c) for k, v in c.vars.items()} != before:
        return '%s changes its variables' % e
    if st != 'error' and want and [to_py(x.value) for x in r.value] != want:
        return '%s with %s: %s, should be %s' % (e, [part(p) for p in parts], [str(to_py(x.value)) for x in r.value][:12], [str(w) for w in want][:12])
    return None


KINDS = {'range': k_range, 'stored': k_stored}


def rnd(rng):
    m = rng.randrange(7)
    if m < 2:
        return F(rng.randint(-6, 12))
    if m == 2:
        return F(rng.randint(-40, 40), rng.choice([2, 4, 5, 10, 3, 7]))
    if m == 3:
        return F(rng.randint(-10 ** 6, 10 ** 6), 10 ** rng.randint(0, 8))
    if m == 4:
        return F(rng.choice([10 ** 12, 10 ** 20, 255, 256, 2 ** 32, 10 ** 22]) + rng.randint(-3, 3))
    if m == 5:
        return F(rng.randint(-9, 9), rng.randint(1, 60))
    return F(rng.randint(0, 300))


def gen(rng, units=None):
    a = rnd(rng)
    form = rng.choice(['dec', 'dec', 'frac', 'hex', 'bin', 'text' if rng.random() < 0.2 else 'dec'])
    us = [None] * 3
    if rng.random() < 0.35:
        d = rng.choice(sorted({u[0] for u in UNIT.values()}))
        pool = [n for n, u in sorted(UNIT.items()) if u[0] == d]
        us = [rng.choice(pool) for _ in range(3)]
        if rng.random() < 0.15:
            us[rng.randrange(3)] = rng.choice([None] + sorted(UNIT))
    s = None
    if rng.random() < 0.6:
        s = F(rng.randint(1, 7), rng.choice([1, 1, 2, 3, 10, 7, 100, 10 ** 9, 3 * 10 ** 15])) * rng.choice([1, 1, 1, 1000, 10 ** 10]) * rng.choice([1, -1])
    k = rng.choice([0, 1, 2, 3, 5, 9, 25])
    b = a + k * (s if s is not None else rng.choice([1, -1]))
    m = rng.random()
    if m < 0.35:
        b += rng.choice([1, -1]) * F(1, rng.choice([2, 3, 10, 10 ** 6, 10 ** 20, 10 ** 25])) * abs(s if s is not None else 1)
    if m > 0.93 and s is not None:
        s = -s
    if us[0] is not None and us[1] is not None and UNIT[us[0]][0] == UNIT[us[1]][0] and us[0] != us[1]:
        _, f0, o0 = UNIT[us[0]]
        _, f1, o1 = UNIT[us[1]]
        b = (b * f0 + o0 - o1) / f1
        if s is not None and us[2] is not None and UNIT[us[2]][0] == UNIT[us[0]][0]:
            s = s * f0 / UNIT[us[2]][1]
    forms = [form, rng.choice(['dec', 'frac', 'hex']), rng.choice(['dec', 'frac'])]
    if us[0] is not None:
        forms = [f if f != 'text' else 'dec' for f in forms]
    out = [[str(a), forms[0], us[0]], [str(b), forms[1], us[1]], [str(s), forms[2], us[2]] if s is not None else None]
    if any(F(p[0]).denominator > 10 ** 60 or abs(F(p[0]).numerator) > 10 ** 60 for p in out if p):
        return None
    w = stepped(*out)
    if w != 'error' and len(w) > 400:
        return None
    return out


def search(S):
    rng = S.rng
    N = [None, None]
    for a in range(-2, 4):
        for b in range(-2, 4):
            for s in (None, '1', '-1', '2', '-2', '1/2', '-3/2'):
                if S.time_left():
                    S.run('range', [[[str(a), 'dec', None], [str(b), 'dec', None], [s, 'dec', None] if s else None]], 8 if s is None else 0)
    for a in ('0', '1', '3/2'):
        for b in ('0', '50', '2', '-1'):
            for u in (('meters', 'centimeters'), ('celsius', 'fahrenheit'), ('hours', 'minutes'), ('centimeters', 'meters')):
                for s in (None, '9', '-9', '1/2'):
                    g = [[a, 'dec', u[0]], [b, 'dec', u[1]], [s, 'dec', u[1]] if s else None]
                    if S.time_left() and (stepped(*g) == 'error' or len(stepped(*g)) < 300):
                        S.run('range', [g], 0)
    for n in (1100, 1500, 2600, 5000):       # long ranges
        k = rng.choice([1, 1, 3, 1000])
        a = rng.randint(-500, 500)
        S.run('range', [[[str(a), 'dec', None], [str(a + n), 'dec', None], None]], 0)
        S.run('range', [[[str(a), 'dec', None], [str(F(a * k - n, k)), 'frac', None], [str(F(-1, k)), 'frac', None]]], 0)
    while S.time_left():
        m = rng.random()
        g = gen(rng)
        if g is None:
            continue
        if m < 0.65:
            S.run('range', [g], rng.randrange(4) + 8 * (rng.random() < .2))
        elif m < 0.85:
            S.run('stored', *g)
        else:
            els = []
            for _ in range(rng.randint(1, 4)):
                h = gen(rng)
                if h is None or rng.random() < 0.5:
                    els.append([[str(rnd(rng)), 'dec', rng.choice([None, 'meters'])]])
                else:
                    els.append(h)
            S.run('range', els, rng.randrange(4) + 8 * (rng.random() < .2))
