"""C09: normalising and simplifying units never changes the quantity."""
import ast
import functools
from fractions import Fraction as F
from pyvc.lib import *  # noqa: F401,F403
from pyvc import concrete as CC, quantity as Q, rat as R
from pyvc.interp import stored_names
from modularcalculator.objects.number import Number

# ------------------------------------------------------------ contracts: the quantity is value * scale(units), its dimensions are D(units)
from modularcalculator.objects.units import UnitDefinition, UnitPower, UnitPowerList, UnitPowerDimensions, AbstractPowerList
from modularcalculator.services.unitnormaliser import UnitNormaliser
from modularcalculator.features.numerical.basicarithmetic import BasicArithmeticFeature as BA
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.objects.items import OperandResult

NOTE = ('D is the exponent of one arbitrary base dimension; a list of units is the pair (scale, D), changed by adding unit^p '
        'by the factor scale(unit)^p and p * D(unit) (decided for the real lists by C08)')


class U(SExt):
    """a unit: its dimension's exponent of the base dimension"""
    pyclass = UnitDefinition

    def __init__(self, ctx, d, dimension=None, name='unit'):
        self.d, self.name = d, name
        self.dimension = dimension
        self.scale = ctx.real(name + '.scale')
        ctx.assume(self.scale > 0)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'attr':
            if a[0] == 'dimension':
                return self.dimension if self.dimension is not None else SOpaque('dimension')
            if a[0] == 'unitscale':
                return LogRat(self.scale)
            if a[0] in ('systems', 'relevant_to_systems'):
                return anylist(ctx, a[0])
            if a[0] == 'use_for_condense':
                return SBool(ctx.bool('use'))
            if a[0] == 'nameprefix':
                return None if ctx.choose(2, 'prefix') == 0 else SStr(ctx.string('prefix'))
            return NotImplemented
        if op == 'call' and a[0] in ('convert', 'convertfrom', 'convertto'):
            v = LogRat(ctx.real('converted'))
            return v
        if op in ('compare', 'rcompare') and a[0] in ('Eq', 'NotEq', 'Is', 'IsNot'):
            if a[1] is self:
                return a[0] in ('Eq', 'Is')
            if isinstance(a[1], U):
                if self.dimension is not None and a[1].dimension is not None and self.dimension != a[1].dimension:
                    return a[0] in ('NotEq', 'IsNot')
                e = SAME(ctx, self, a[1])
                return SBool(e if a[0] in ('Eq', 'Is') else z3.Not(e))
            return a[0] in ('NotEq', 'IsNot')
        return NotImplemented


def SAME(ctx, a, b):
    e = ctx.bool('same_unit')
    ctx.assume(z3.Implies(e, z3.And(a.scale == b.scale, a.d == b.d)))
    return e


class ML(U):
    """a compound unit such as meters/second: a list of units, not a definition"""
    pyclass = UnitPowerList

    def sx(self, it, op, *a):
        if op == 'attr' and a[0] in ('unitscale', 'systems', 'relevant_to_systems', 'use_for_condense', 'nameprefix', 'dimension'):
            M.raise_py(AttributeError(a[0]))
        if op == 'call' and a[0] == 'list':
            return anylist(it.ctx, 'subunits')
        return super().sx(it, op, *a)


class LogRat(R.Rat):
    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'log':
            return R.Rat(it.ctx.real('log'))
        return super().sx(it, op, *a)


def anylist(ctx, name):
    n = ctx.int(name + '.len')
    ctx.assume(n >= 0)
    b = SBase(name, n, lambda c, i: SOpaque('element of ' + name, attrs={'__getattr__': lambda it, nm: SOpaque(nm)}))
    b.mk_alias = False
    return ctx.alloc(SList.of(b))


class UP(SExt):
    """unit ^ power, as an element of some list"""
    pyclass = UnitPower

    def __init__(self, unit, power):
        self.unit, self.power = unit, power

    def sx(self, it, op, *a):
        if op == 'attr' and a[0] in ('unit', 'power'):
            return getattr(self, a[0])
        return NotImplemented


class DL(SExt):
    """the dimensions of a unit, seen through the base dimension"""
    pyclass = object

    def __init__(self, d):
        self.d = d

    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'multiply':
            return DL(self.d * R.term(a[1][0]))
        return NotImplemented


class GL(SExt):
    """a list of units with ghost scale S and dimensions D"""
    pyclass = UnitPowerList

    def __init__(self, ctx, name, S=None, D=None, items=None, frozen=False):
        self.name = name
        self.S = ctx.real(name + '.S') if S is None else S
        self.D = ctx.real(name + '.D') if D is None else D
        ctx.assume(self.S > 0)
        self.items, self.frozen = items, frozen
        self.writes = 0
        self.modes = []
        self.cache = None

    def fresh(self, ctx):
        self.S, self.D = ctx.real(self.name + '.S'), ctx.real(self.name + '.D')
        ctx.assume(self.S > 0)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'call':
            name, args, kw = a[0], list(a[1]), a[2]
            if name in ('addandconvert', 'removeandconvert'):
                value, unit, power = args[:3]
                self.modes.append(kw.get('relative', args[3] if len(args) > 3 else None))
                p = R.term(power)
                v = R.rat(ctx, 'value')
                f = ctx.real('factor')
                ctx.assume(f > 0, v.t * f == R.term(value))
                ctx.prove('the-operand-itself-is-not-changed', not self.frozen)
                self.S = self.S * f
                self.D = self.D + (p if name == 'addandconvert' else -p) * unit.d
                self.writes += 1
                return v
            if name == 'check_empty':
                if ctx.choose(2, 'empty') == 1:
                    ctx.assume(self.S == 1, self.D == 0)
                    return None
                return self
            if name == 'copy':
                c = GL(ctx, self.name + '.copy', self.S, self.D, self.items)
                c.cache = self.cache
                c.copy_of = self
                return c
            if name == 'list':
                if self.items is not None:
                    return list(self.items)
                if self.cache is None or self.cache[0] is not self.S:
                    n = ctx.int('units.len')
                    ctx.assume(n >= 0)
                    b = SBase('units', n, lambda c, i: UP(U(c, c.real('d')), R.rat(c, 'power')))
                    self.cache = (self.S, ctx.alloc(SList.of(b)))
                return self.cache[1]
            if name == 'find':
                return UP(args[0], R.rat(ctx, 'power found'))
        if op == 'attr' and a[0] == 'no_simplify':
            return SBool(ctx.bool('no_simplify'))
        if op == 'setattr' and a[0] == 'no_simplify':
            return None
        return NotImplemented


class Found(SExt):
    """a list of unit^power whose dimensions add up to the goal; P(k): those of the first k"""
    pyclass = list

    def __init__(self, ctx, goal, it):
        self.goal = goal
        self.n = ctx.int('found.len')
        ctx.assume(self.n >= 1)
        self.P = z3.Function(ctx.fresh_name('P'), z3.IntSort(), z3.RealSort())
        ctx.assume(self.P(z3.IntVal(0)) == 0, self.P(self.n) == goal)

        def mk(c, i):
            u = U(c, c.real('d'))
            p = R.rat(c, 'p')
            c.assume(p.t != 0, self.P(i + 1) == self.P(i) + p.t * u.d)
            return UP(u, p)
        self.base = SBase('found', self.n, mk)
        self.base.mk_alias = False

    def sx(self, it, op, *a):
        if op == 'symiter':
            return self.n, (lambda k: self.base.get(it.ctx, k))
        if op == 'len':
            return SInt(self.n)
        if op == 'truth':
            return z3.BoolVal(True)
        if op == 'getitem' and isinstance(a[0], int):
            return self.base.get(it.ctx, z3.IntVal(a[0]))
        return NotImplemented


class Founds(SExt):
    """any number of such lists, for one goal"""
    pyclass = list

    def __init__(self, ctx, goal, it):
        self.goal = goal
        self.n = ctx.int('founds.len')
        ctx.assume(self.n >= 0)
        self.base = SBase('founds', self.n, lambda c, i: Found(c, goal, it))
        self.base.mk_alias = False

    def sx(self, it, op, *a):
        if op == 'symiter':
            return self.n, (lambda k: self.base.get(it.ctx, k))
        if op == 'len':
            return SInt(self.n)
        if op == 'truth':
            return self.n > 0
        if op == 'getitem' and isinstance(a[0], int):
            it.ctx.assume(self.n > a[0])
            return self.base.get(it.ctx, z3.IntVal(a[0]))
        return NotImplemented


class ByDim(SExt):
    """dimensions -> unit, each unit having these dimensions"""
    pyclass = dict

    def __init__(self, ctx):
        self.n = ctx.int('bydim.len')
        ctx.assume(self.n >= 0)

        def mk(c, i):
            d = c.real('dimension')
            return (DL(d), U(c, d))
        self.base = SBase('bydim', self.n, mk)
        self.base.mk_alias = False

    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'items':
            return Items(self)
        if op == 'call' and a[0] in ('values', 'keys'):
            return Opaques()
        return NotImplemented


class Items(SExt):
    pyclass = list

    def __init__(self, d):
        self.d = d

    def sx(self, it, op, *a):
        if op == 'symiter':
            return self.d.n, (lambda k: self.d.base.get(it.ctx, k))
        return NotImplemented


class Opaques(SExt):
    pyclass = list

    def sx(self, it, op, *a):
        if op == 'contains':
            return SBool(it.ctx.bool('in'))
        return NotImplemented


class SubUnits(SExt):
    """what get_subunit_list gives: only ever passed on"""
    pyclass = list

    def __init__(self, ctx):
        self.n = ctx.int('subunits.len')
        ctx.assume(self.n >= 0)

    def sx(self, it, op, *a):
        if op == 'symiter':
            return self.n, (lambda k: UP(U(it.ctx, it.ctx.real('d')), R.rat(it.ctx, 'p')))
        return NotImplemented


def mk_world(ctx):
    """contracts of the helpers of the normaliser"""
    it = Interp(ctx)
    R.install(it)

    def find(it_, args, kw):
        goals = args[1]
        return [Founds(ctx, g.d, it) for g in goals]
    it.contracts[UnitNormaliser.find_units_matching_dimensions] = find
    it.contracts[UnitNormaliser.get_subunit_list] = lambda it_, args, kw: SubUnits(ctx)
    it.contracts[UnitNormaliser.get_units_by_dimension] = lambda it_, args, kw: ByDim(ctx)
    it.contracts[UnitNormaliser.get_closeness] = lambda it_, args, kw: R.rat(ctx, 'closeness')

    def comp(it_, e, fr, seq, n, at):
        if isinstance(seq, (SubUnits, Found)) or len(e.generators) > 1 or isinstance(seq, SList):
            return anylist(ctx, 'comprehension')
        return None
    it.comp_hook = comp
    return it


class Conserve(LoopSpec):
    """invariant of every loop: value * scale is what it was, and so are the dimensions - up to the c * P(k) of a loop over a found list.

    Only the names that hold the current value are tracked; other numbers assigned in the loop are arbitrary."""

    def __init__(self, w, node, seq, wh=False):
        self.w, self.node, self.seq, self.wh = w, node, seq, wh

    def writes(self):
        for x in ast.walk(ast.Module(body=self.node.body, type_ignores=[])):
            if isinstance(x, ast.Attribute) and x.attr in ('addandconvert', 'removeandconvert'):
                return True
        return False

    def init(self, it, fr):
        w, ctx = self.w, it.ctx
        stored = stored_names(self.node.body)
        gl = w['list']
        self.v0 = None
        for nm in fr.locals:
            if nm in w['names'] and isinstance(fr.locals[nm], R.Rat):
                self.v0 = fr.locals[nm]
        self.changes = self.writes()
        self.kept = {nm: v for nm, v in fr.locals.items() if nm in stored and nm in w['names']}
        self.entry = {nm: v for nm, v in fr.locals.items() if nm in stored and nm not in w['names']}
        self.kinds = {}
        tgt = self.node.target.id if isinstance(self.node, ast.For) and isinstance(self.node.target, ast.Name) else None
        for x in ast.walk(ast.Module(body=self.node.body, type_ignores=[])):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name) and x.value.id == tgt:
                self.kinds[x.targets[0].id] = 'unit'
        if gl is not None:
            self.S0, self.D0 = gl.S, gl.D

    def head(self, it, fr, k):
        w, ctx = self.w, it.ctx
        gl = w['list']
        breaks = not self.wh and any(isinstance(x, ast.Break) for x in ast.walk(ast.Module(body=self.node.body, type_ignores=[])))
        if self.changes and not breaks:
            gl.fresh(ctx)
            v = R.rat(ctx, 'value at loop head')
            ctx.assume(v.t * gl.S == self.v0.t * self.S0)
            ctx.assume(gl.D == self.D0 + self.c(k))
            for nm in self.kept:
                fr.locals[nm] = v
        else:
            for nm, o in self.kept.items():
                fr.locals[nm] = o
        for nm, o in self.entry.items():
            if isinstance(o, Founds):
                fr.locals[nm] = Founds(ctx, o.goal, it)
            elif isinstance(o, R.Rat):
                fr.locals[nm] = R.rat(ctx, nm)
            elif isinstance(o, bool):
                fr.locals[nm] = SBool(ctx.bool(nm))
            elif o is None and self.kinds.get(nm) == 'unit':
                fr.locals[nm] = None if ctx.choose(2, nm) == 0 else w['candidate'](self.seq)
            elif o is None:
                fr.locals[nm] = None if ctx.choose(2, nm) == 0 else R.rat(ctx, nm)
        self.v = next((fr.locals[nm] for nm in self.kept), self.v0)
        self.Sh, self.Dh = (gl.S, gl.D) if gl is not None else (None, None)
        self.fr_head = dict(fr.locals)

    def c(self, k):
        f = self.w['coef'].get(id(self.node))
        if isinstance(self.seq, Found) and f is not None:
            return f(self.fr) * self.seq.P(k)
        return z3.RealVal(0)

    def havoc(self, it, fr, k):
        self.fr = fr
        if isinstance(self.seq, Found):
            self.rec = True
        self.head(it, fr, k)

    def step(self, it, fr, k):
        w, ctx = self.w, it.ctx
        gl = w['list']
        for nm in self.kept:
            v = fr.locals.get(nm)
            if not isinstance(v, R.Rat):
                ctx.fail('value-is-a-number', repr(v))
                return
            ctx.prove('quantity-preserved-by-an-iteration', v.t * gl.S == self.v.t * self.Sh if v is not self.v or self.Sh is not gl.S else True)
        if not self.kept and gl is not None:
            ctx.prove('units-unchanged-with-the-value', gl.S is self.Sh)
        if gl is not None:
            delta = gl.D - self.Dh
            if isinstance(self.seq, Found) and self.changes:
                e = self.seq.base.get(ctx, k)
                d = e.power.t * e.unit.d
                f = w['coef'].get(id(self.node))
                cands = [f] if f is not None else [(lambda fr_, s=s: z3.RealVal(s)) for s in (1, -1)] + [
                    (lambda fr_, nm=nm, s=s: s * fr_.locals[nm].t) for nm, o in list(fr.locals.items()) if isinstance(o, R.Rat) and nm not in self.kept for s in (1, -1)] + [
                    (lambda fr_, nm=nm, s=s: s * z3.If(R.term(fr_.locals[nm]) >= 0, R.term(fr_.locals[nm]), -R.term(fr_.locals[nm]))) for nm, o in list(fr.locals.items()) if isinstance(o, Number) for s in (1, -1)]
                for g in cands:
                    if ctx.entails(delta == g(fr) * d):
                        w['coef'][id(self.node)] = g
                        break
                else:
                    ctx.fail('dimensions-change-in-proportion-to-the-unit', 'an iteration changes the dimensions by %s' % z3.simplify(delta))
                    return
            else:
                ctx.prove('dimensions-preserved-by-an-iteration', delta == 0)

    def exit(self, it, fr, n):
        self.fr = fr
        self.head(it, fr, n)

    def may_write(self, obj):
        return False


def conserving(ctx, it, gl, names, coef, candidate=None):
    w = {'list': gl, 'names': names, 'coef': coef, 'candidate': candidate}
    it.loop_specs.append(lambda it_, node, fr, seq: Conserve(w, node, seq))
    it.while_specs.append(lambda it_, node, fr: Conserve(w, node, None, True))
    return w


def u_normalise(ctx, fn, coef):
    """normalise_from_left / _right: the second quantity is rewritten, the first is untouched"""
    it = mk_world(ctx)
    u1, u2 = GL(ctx, 'unit1', frozen=True), GL(ctx, 'unit2')
    v1, v2 = R.rat(ctx, 'value1'), R.rat(ctx, 'value2')
    S0, D0 = u2.S, u2.D
    import inspect
    names = [list(inspect.signature(fn).parameters)[3]]
    conserving(ctx, it, u2, names, coef)
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    rel = True
    st, r = run(it, fn, norm, v1, u1, v2, u2, rel)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    a, ua, b, ub = r
    ctx.prove('first-value-untouched', a is v1)
    ctx.prove('first-unit-untouched', (ua is u1 or ua is None) and u1.writes == 0)
    ctx.prove('second-quantity-the-same', b.t * u2.S == v2.t * S0)
    ctx.prove('second-dimensions-the-same', u2.D == D0)
    ctx.prove('second-unit-is-the-list', ub is u2 or ub is None)
    ctx.prove('relative-mode', all(m is True for m in u2.modes))
    ctx.cover('end')


def u_dedupe(ctx):
    """dedupe, lists of up to three units (bounded in length, not in values)"""
    it = mk_world(ctx)
    n = 2 + ctx.choose(2, 'n')
    dims = ['a', 'b'] if n == 2 else ['a', 'b', 'c']
    names = [dims[0]] + [dims[ctx.choose(min(i + 1, len(dims)), 'dim%d' % i)] for i in range(1, n)]
    dv = {d: ctx.real('d_' + d) for d in dims}
    gl = GL(ctx, 'unit')
    gl.items = [UP(U(ctx, dv[names[i]], names[i]), R.rat(ctx, 'p%d' % i)) for i in range(n)]
    v = R.rat(ctx, 'value')
    S0, D0 = gl.S, gl.D
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    st, r = run(it, UnitNormaliser.dedupe, norm, v, gl)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('same-quantity', r[0].t * r[1].S == v.t * S0)
    ctx.prove('same-dimensions', r[1].D == D0)
    ctx.prove('relative-mode', all(m is True for m in gl.modes))
    ctx.cover('end')


class UnitsOf(SExt):
    """the units of one dimension; with compound units after extend"""
    pyclass = list

    def __init__(self, ctx, d, multi=False):
        self.d, self.multi = d, multi
        self.n = ctx.int('unitsof.len')
        ctx.assume(self.n >= 0)

    def make(self, ctx):
        return ML(ctx, self.d) if self.multi and ctx.choose(2, 'compound') == 1 else U(ctx, self.d)

    def sx(self, it, op, *a):
        if op == 'symiter':
            return self.n, (lambda k: self.make(it.ctx))
        if op == 'call' and a[0] == 'copy':
            c = UnitsOf(it.ctx, self.d, self.multi)
            c.mine = True
            return c
        if op == 'call' and a[0] == 'extend':
            it.ctx.prove('the-table-of-units-is-not-changed', getattr(self, 'mine', False))
            it.ctx.prove('compound-units-of-the-same-dimension', isinstance(a[1][0], UnitsOf) and a[1][0].d is self.d)
            self.multi = True
            return None
        return NotImplemented


def u_simplify(ctx, coef, multi):
    """simplify_units: the quantity and its dimensions stay; the unit given is not changed"""
    it = mk_world(ctx)
    gl = GL(ctx, 'unit', frozen=True)
    v = R.rat(ctx, 'value')
    dv = {'a': ctx.real('d_a')}
    norm = UnitNormaliser.__new__(UnitNormaliser)
    norm.units = {d: UnitsOf(ctx, dv[d]) for d in dv}
    norm.multiunits = {'a': UnitsOf(ctx, dv['a'], True)} if multi else {}
    norm.simplify_allow_prefixed_units = SBool(ctx.bool('allow_prefixed'))
    ctx.alloc(norm)
    it.contracts[UnitNormaliser.normalised_dimension] = lambda it_, args, kw: DL(dv[args[1]])
    cur = {}

    def mn(it_, *a, **k):
        return R.rat(ctx, 'multpower')
    it.overrides[min] = mn
    it.overrides[set] = lambda it_, *a: Opaques()
    w = conserving(ctx, it, None, ['value'], coef, lambda seq: seq.make(ctx))
    deduped = []

    def dd(it_, args, kw):
        _n, value, unit = args
        w['final'] = (value, unit)
        nv = R.rat(ctx, 'deduped')
        S1, D1 = unit.S, unit.D
        if not unit.frozen:
            unit.fresh(ctx)
            ctx.assume(nv.t * unit.S == value.t * S1, unit.D == D1)
            deduped.append(unit)
            return nv, unit
        # dedupe changes the list only when it has several units
        deduped.append(unit)
        return value, unit
    it.contracts[UnitNormaliser.dedupe] = dd
    orig = gl.sx

    def sx(it_, op, *a):
        r = orig(it_, op, *a)
        if op == 'call' and a[0] == 'copy':
            w['list'] = r
        return r
    gl.sx = sx
    S0, D0 = gl.S, gl.D
    st, r = run(it, UnitNormaliser.simplify_units, norm, v, gl)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    l = deduped[0] if deduped else gl
    ctx.prove('same-quantity', r[0].t * l.S == v.t * S0)
    ctx.prove('same-dimensions', l.D == D0)
    ctx.prove('unit-given-is-not-changed', gl.writes == 0 and gl.S is S0)
    ctx.prove('relative-mode', all(m is True for m in l.modes))
    ctx.prove('result-unit', r[1] is l or r[1] is None)
    ctx.cover('end')


# ------------------------------------------------------------ the operations on lists, normalise_inputs, the operators
def u_addconvert(ctx, remove):
    """addandconvert / removeandconvert: one conversion by unit^power and the same power added to the list"""
    it = mk_world(ctx)
    l = UnitPowerList.__new__(UnitPowerList)
    ctx.alloc(l)
    x, p = R.rat(ctx, 'x'), R.rat(ctx, 'p')
    u = U(ctx, ctx.real('d'))
    conv, add = [], []
    y = R.rat(ctx, 'y')

    def usx(it_, op, *a):
        if op == 'call' and a[0] == 'convert':
            conv.append(list(a[1]) + list(a[2].values()))
            return y
        return NotImplemented
    u.sx = usx
    it.contracts[UnitPowerList.addall] = lambda it_, args, kw: add.append(args)
    rel = ctx.choose(2, 'relative') == 0
    st, r = run(it, UnitPowerList.removeandconvert if remove else UnitPowerList.addandconvert, l, x, u, p, rel)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    s = -1 if remove else 1
    ctx.prove('one-conversion', len(conv) == 1 and conv[0][0] is x)
    ctx.prove('by-the-power', R.term(conv[0][1]) == s * p.t)
    ctx.prove('mode-passed-on', conv[0][2] is rel)
    ctx.prove('list-changed-once', len(add) == 1 and add[0][0] is l and add[0][1] is u)
    ctx.prove('by-the-same-power', R.term(add[0][2]) == s * p.t)
    ctx.prove('result-is-the-converted-value', r is y)
    ctx.cover('end')


class EachAdded(LoopSpec):
    def __init__(self, n):
        self.n = n

    def havoc(self, it, fr, k):
        self.n.clear()

    def step(self, it, fr, k):
        it.ctx.prove('every-unit-added-exactly-once', len(self.n) == 1)

    def exit(self, it, fr, n):
        self.all = True


def u_addall(ctx):
    """addall: every unit of the list is added with its power times the power"""
    it = mk_world(ctx)
    n = ctx.int('n')
    ctx.assume(n >= 0)
    b = SBase('units', n, lambda c, i: UP(U(c, c.real('d')), R.rat(c, 'power')))
    src = ctx.alloc(SList.of(b))

    class Src(SExt):
        pyclass = UnitPowerList

        def sx(self, it_, op, *a):
            return src if op == 'call' and a[0] == 'list' else NotImplemented
    l = UnitPowerList.__new__(UnitPowerList)
    ctx.alloc(l)
    p = R.rat(ctx, 'p')
    adds = []

    def add(it_, args, kw):
        adds.append(args)
        e = [o for _i, o in b.memo if o.unit is args[1]]
        ctx.prove('a-unit-of-the-list', len(e) == 1 and args[0] is l)
        ctx.prove('its-power-times-the-power', R.term(args[2]) == e[0].power.t * p.t)
    it.contracts[UnitPowerList.add] = add
    it.contracts[AbstractPowerList.add] = add
    sp = EachAdded(adds)
    it.loop_specs.append(lambda it_, node, fr, seq: sp)
    st, r = run(it, UnitPowerList.addall, l, Src(), p)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('through-the-whole-list', getattr(sp, 'all', False))
    ctx.cover('end')


def u_bydim(ctx):
    """get_units_by_dimension: every unit of the list under its own dimensions (lists of up to three units)"""
    it = Interp(ctx)
    n = ctx.choose(4, 'n')
    items = [UP(U(ctx, ctx.real('d%d' % i), 'abc'[ctx.choose(min(i + 1, 3), 'dim')]), R.rat(ctx, 'p%d' % i)) for i in range(n)]

    class Src(SExt):
        pyclass = UnitPowerList

        def sx(self, it_, op, *a):
            return list(items) if op == 'call' and a[0] == 'list' else NotImplemented
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    it.contracts[UnitNormaliser.normalised_dimension] = lambda it_, args, kw: 'dimensions of ' + args[1]
    st, r = run(it, UnitNormaliser.get_units_by_dimension, norm, Src())
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('unit-under-its-own-dimensions', all(u in [i.unit for i in items] and k == 'dimensions of ' + u.dimension for k, u in r.items()))
    ctx.prove('every-dimension', {k for k in r} == {'dimensions of ' + i.unit.dimension for i in items})
    st, r = run(it, UnitNormaliser.get_subunit_list, norm, Src()) if False else ('ok', None)
    ctx.cover('end')


class Counter_(LoopSpec):
    """find_units_matching_dimensions: the search loop; each counter stays within the powers of its unit"""

    def __init__(self, units, goals):
        self.units, self.goals = units, goals

    def loop(self, node):
        import ast
        self.indexed = {x.value.id for nd in node.body for x in ast.walk(nd) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
        self.names = stored_names(node.body)
        return self

    def init(self, it, fr):
        self.was = dict(fr.locals)
        for nm, v in fr.locals.items():
            v = it.resolve(v)
            if isinstance(v, list) and len(v) == len(self.units) and v and all(isinstance(x, (R.Rat, Number)) for x in v) and nm in self.indexed:
                self.counter = v
            if isinstance(v, list) and len(v) == len(self.goals) and all(isinstance(x, list) and not x for x in v):
                self.found = v
        self.within(it, 'initially')

    def within(self, it, what):
        for c, u in zip(self.counter, self.units):
            t, p = R.term(c), u.power.t
            it.ctx.prove('counter-within-the-power-' + what, z3.Or(z3.And(p >= 0, t >= 0, t <= p), z3.And(p < 0, t >= p, t <= 0)))

    def havoc(self, it, fr, k):
        ctx = it.ctx
        for i, u in enumerate(self.units):
            c = R.rat(ctx, 'counter%d' % i)
            ctx.assume(z3.Or(z3.And(u.power.t >= 0, c.t >= 0, c.t <= u.power.t), z3.And(u.power.t < 0, c.t >= u.power.t, c.t <= 0)))
            self.counter[i] = c
        for f in self.found:
            del f[:]
        self.at = [R.term(c) for c in self.counter]
        self.stop = [nm for nm in self.names if fr.locals.get(nm) is False or self.was.get(nm) is False]
        for nm in self.stop:
            fr.locals[nm] = SBool(ctx.bool(nm))

    def step(self, it, fr, k):
        if not any(fr.locals.get(nm) is True for nm in self.stop):
            self.within(it, 'next')
        self.check(it)

    def check(self, it):
        ctx = it.ctx
        for goal, f in zip(self.goals, self.found):
            for l in f:
                tot = {}
                for e in it.M.as_list(it, l):
                    u = [x for x in self.units if x.unit is e.unit]
                    ctx.prove('a-unit-of-the-list', len(u) == 1)
                    ctx.prove('power-is-not-zero', R.term(e.power) != 0)
                    for d, x in u[0].dims.items():
                        tot[d] = tot.get(d, 0) + R.term(e.power) * x.t
                    ctx.prove('not-more-than-is-there', z3.Or(z3.And(R.term(e.power) > 0, R.term(e.power) <= u[0].power.t), z3.And(R.term(e.power) < 0, R.term(e.power) >= u[0].power.t)))
                for d in set(tot) | set(goal):
                    ctx.prove('dimensions-add-up-to-the-goal', tot.get(d, z3.RealVal(0)) == (goal[d].t if d in goal else 0))

    def may_write(self, obj):
        return True


def u_find(ctx):
    """find_units_matching_dimensions: whatever it finds adds up to the goal (lists of up to two units over two dimensions; any powers)"""
    it = mk_world(ctx)
    del it.contracts[UnitNormaliser.find_units_matching_dimensions]
    it.comp_hook = None
    from modularcalculator.objects.units import DimensionPower, DimensionPowerList
    n = 1 + ctx.choose(2, 'n')

    def dl(dims):
        l = DimensionPowerList.__new__(DimensionPowerList)
        l._objects = []
        ctx.alloc(l)
        for d, x in dims.items():
            o = DimensionPower.__new__(DimensionPower)
            o.dimension, o.power = d, x
            ctx.alloc(o)
            l._objects.append(o)
        ctx.alloc(l._objects)
        return l
    units = []
    for i in range(n):
        u = UnitPowerDimensions.__new__(UnitPowerDimensions)
        u.unit = UnitDefinition.__new__(UnitDefinition)
        ctx.alloc(u.unit)
        u.power = R.rat(ctx, 'power%d' % i)
        ctx.assume(u.power.t != 0)
        u.dims = {d: R.rat(ctx, 'dim%d%s' % (i, d)) for d in [['a'], ['b'], ['a', 'b']][ctx.choose(3, 'dims')]}
        u.dimensions = dl(u.dims)
        units.append(ctx.alloc(u))
    goal = {d: R.rat(ctx, 'goal' + d) for d in [['a'], ['a', 'b'], ['c']][ctx.choose(3, 'goal')]}
    for x in goal.values():
        ctx.assume(x.t != 0)
    sp = Counter_(units, [goal])
    it.while_specs.append(lambda it_, node, fr: sp.loop(node))
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    st, r = run(it, UnitNormaliser.find_units_matching_dimensions, norm, ctx.alloc([dl(goal)]), ctx.alloc(list(units)))
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('one-answer-per-goal', len(r) == 1)
    ctx.cover('end')


class ConvertInto(LoopSpec):
    """every further value is converted to the first unit, once, at its own place"""

    def __init__(self, w):
        self.w = w

    def havoc(self, it, fr, k):
        self.w['calls'].clear()
        self.w['k'] = k

    def step(self, it, fr, k):
        it.ctx.prove('one-conversion-per-value', len(self.w['calls']) == 1)

    def exit(self, it, fr, n):
        self.w['n'] = n

    def may_write(self, obj):
        return True


def u_inputs_multi(ctx):
    """normalise_inputs for multiplication and division (two operands): each quantity keeps value and dimensions; operands' own units untouched"""
    it = mk_world(ctx)
    a = None if ctx.choose(2, 'unit0') == 0 else GL(ctx, 'unit0', frozen=True)
    b = None if ctx.choose(2, 'unit1') == 0 else GL(ctx, 'unit1', frozen=True)
    v = [R.rat(ctx, 'v0'), R.rat(ctx, 'v1')]

    def norm_(it_, args, kw):
        _s, x, ux, y, uy, rel = args
        ctx.prove('relative', rel is True)
        ctx.prove('works-on-copies', ux is not a and ux is not b and uy is not a and uy is not b)
        y2 = R.rat(ctx, 'v')
        u2 = GL(ctx, 'u', None, uy.D)
        ctx.assume(y2.t * u2.S == R.term(y) * uy.S)
        out = []
        for u in (ux, u2):
            if ctx.choose(2, 'empty') == 1:
                ctx.assume(u.S == 1, u.D == 0)
                u = None
            out.append(u)
        return x, out[0], y2, out[1]
    it.contracts[UnitNormaliser.normalise_from_left] = norm_
    it.contracts[UnitNormaliser.normalise_from_right] = norm_
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    values, units = ctx.alloc(list(v)), ctx.alloc([a, b])
    st, r = run(it, UnitNormaliser.normalise_inputs, norm, values, units, True, True)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    vals, us, ru = r
    ctx.prove('no-result-unit-yet', ru is None)
    one = lambda u: u.S if u is not None else z3.RealVal(1)
    dd = lambda u: u.D if u is not None else z3.RealVal(0)
    for i, u in enumerate((a, b)):
        ctx.prove('same-quantity', R.term(vals[i]) * one(us[i]) == v[i].t * one(u))
        ctx.prove('same-dimensions', dd(us[i]) == dd(u))
        ctx.prove('no-unit-invented', not (u is None and us[i] is not None))
    ctx.cover('end')


def u_inputs_same(ctx):
    """normalise_inputs for the other operations: any number of values, each converted exactly to the first operand's unit"""
    it = mk_world(ctx)
    n = ctx.int('n')
    ctx.assume(n >= 1)
    vb = SBase('values', n, lambda c, i: R.rat(c, 'v'))
    nounit = ctx.choose(2, 'units') == 1
    ub = SBase('units', n, (lambda c, i: None) if nounit else (lambda c, i: GL(c, 'u', frozen=True)))
    vb.mk_alias = ub.mk_alias = False
    values, units = ctx.alloc(SList.of(vb)), ctx.alloc(SList.of(ub))
    first = None if nounit else ub.get(ctx, z3.IntVal(0))
    w = {'calls': [], 'n': None}

    def conv(it_, args, kw):
        _s, num, f, t, rel = args
        k = w['k'] + 1
        w['calls'].append(1)
        ctx.prove('its-own-value', num is vb.get(ctx, k))
        ctx.prove('from-its-own-unit', f is ub.get(ctx, k))
        ctx.prove('to-the-first-unit', t is first)
        ctx.prove('mode-passed-on', rel is rel0)
        return R.rat(ctx, 'converted'), t
    rel0 = ctx.choose(2, 'relative') == 0
    it.contracts[UnitNormaliser.unit_conversion] = conv
    it.loop_specs.append(lambda it_, node, fr, seq: ConvertInto(w))
    it.comp_hook = lambda it_, e, fr, seq, m, at: ctx.alloc(SList.of(SBase('units', z3.IntVal(0) if nounit else n, lambda c, i: ub.get(c, i)))) if len(e.generators) == 1 else None
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    st, r = run(it, UnitNormaliser.normalise_inputs, norm, values, units, False, rel0)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('result-in-the-first-unit', r[2] is first)
    ctx.prove('all-values-converted', nounit or ctx.entails(n == 1) or (w['n'] is not None and ctx.entails(w['n'] == n - 1)))
    ctx.cover('end')


def u_operator(ctx, fn, sign):
    """multiplication and division: value and unit of the result are the product of the operands'"""
    it = mk_world(ctx)
    us = [None if ctx.choose(2, 'unit%d' % i) == 0 else GL(ctx, 'unit%d' % i, frozen=True) for i in range(2)]
    v = [R.rat(ctx, 'v0'), R.rat(ctx, 'v1')]
    bare = [u is not None and ctx.choose(2, 'bare%d' % i) == 1 for i, u in enumerate(us)]
    vals = ctx.alloc([us[i] if bare[i] else v[i] for i in range(2)])
    units = ctx.alloc([None if bare[i] else us[i] for i in range(2)])

    def new(it_, args, kw):
        parts = args[0]
        g = GL(ctx, 'new', ctx.real('S'), ctx.real('D'))
        S, D = z3.RealVal(1), z3.RealVal(0)
        for i in range(0, len(parts), 2):
            p = R.term(parts[i + 1])
            D = D + p * parts[i].D
            S = S * R.power(it_, parts[i].S, p)
        ctx.assume(g.S == S, g.D == D)
        if ctx.choose(2, 'empty') == 1:
            ctx.assume(g.S == 1, g.D == 0)
            return None if not (bare[0] and bare[1]) else g
        return g
    it.contracts[UnitPowerList.new] = new

    def sx(g):
        orig = g.sx

        def f(it_, op, *a):
            if op == 'call' and a[0] == 'power':
                p = R.term(a[1][0])
                n = GL(ctx, 'pow')
                ctx.assume(n.S == R.power(it_, g.S, p), n.D == p * g.D)
                return n
            if op == 'setattr':
                ctx.fail('operand-unit-not-changed', 'sets %s' % a[0])
                return None
            return orig(it_, op, *a)
        g.sx = f
    for u in us:
        if u is not None:
            sx(u)
    GL_set = GL.sx
    st, r = run(it, fn, SOpaque('self'), vals, units, ctx.alloc([None, None]), {})
    one = lambda u: u.S if u is not None else z3.RealVal(1)
    dd = lambda u: u.D if u is not None else z3.RealVal(0)
    num = lambda i: z3.RealVal(1) if bare[i] else v[i].t
    if st == 'raise':
        ctx.prove('only-division-by-zero', isinstance(r, ZeroDivisionError) and sign < 0 and ctx.entails(num(1) == 0), repr(r))
        return
    if bare[0] and bare[1]:
        ru, rv = r.value, z3.RealVal(1)
    else:
        ctx.prove('result-unit-overrides', us[0] is None and us[1] is None or r.unit_override is True)
        ru, rv = (r.unit if r.unit_override else None), R.term(r.value)
    if sign > 0:
        ctx.prove('product', rv * one(ru) == num(0) * one(us[0]) * num(1) * one(us[1]))
    else:
        ctx.prove('quotient', rv * one(ru) * num(1) * one(us[1]) == num(0) * one(us[0]))
    ctx.prove('dimensions', dd(ru) == dd(us[0]) + sign * dd(us[1]))
    ctx.cover('end')


def u_finalize(ctx):
    """finalize: a scalar answer is simplified by simplify_units or left alone; nothing else touches value and unit"""
    from modularcalculator.modularcalculator import ModularCalculator
    it = mk_world(ctx)
    calls = []
    nv, nu = SOpaque('value2'), SOpaque('unit2')

    def simp(it_, args, kw):
        calls.append(args)
        return nv, nu
    it.contracts[UnitNormaliser.simplify_units] = simp
    calc = mk_calc(ctx)
    norm = UnitNormaliser.__new__(UnitNormaliser)
    ctx.alloc(norm)
    calc.unit_normaliser = norm if ctx.choose(2, 'norm') == 0 else None
    calc.unit_simplification = ctx.choose(2, 'simp') == 0
    calc.finalizers = ctx.alloc([])
    unit = None if ctx.choose(2, 'unit') == 0 else GL(ctx, 'unit', frozen=True)
    ns = ctx.choose(2, 'no_simplify') == 0
    if unit is not None:
        unit.sx = lambda it_, op, *a: ns if op == 'attr' and a[0] == 'no_simplify' else NotImplemented
    val = SOpaque('value')
    ans = ctx.alloc(OperandResult(val, unit, None))
    st, r = run(it, ModularCalculator.finalize, calc, ans)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    if calc.unit_normaliser is not None and calc.unit_simplification and unit is not None and not ns:
        ctx.prove('simplified', len(calls) == 1 and calls[0][1] is val and calls[0][2] is unit and r.value is nv and r.unit is nu)
    else:
        ctx.prove('left-alone', not calls and r.value is val and r.unit is unit)
    ctx.cover('end')


def u_flags(ctx):
    """only binary operators ask for the normalisation of multiplication (its contract is for two operands)"""
    c = CC.calc('Computing')
    seen = 0
    for n, op in [x for prec in c.ops for x in prec.items()]:
        if getattr(op, 'units_multi', False):
            seen += 1
            ctx.prove('binary:' + n, op.ref in (BA.op_number_multiply, BA.op_number_divide) and op.units_relative is True)
        if op.ref in (BA.op_number_multiply, BA.op_number_divide) and op.units_normalise:
            ctx.prove('normalised-as-a-product:' + n, op.units_multi is True and op.units_relative is True)
    for n, f in c.funcs.items():
        ctx.prove('no-function:' + n, not getattr(f, 'units_multi', False))
    ctx.prove('some', seen >= 2)
    ctx.cover('end')


_L, _R, _S, _T = {}, {}, {}, {}
UNITS = [('addandconvert', functools.partial(u_addconvert, remove=False)), ('removeandconvert', functools.partial(u_addconvert, remove=True)), ('addall', u_addall),
         ('get_units_by_dimension', u_bydim), ('find_units_matching_dimensions', u_find), ('normalise_inputs: products', u_inputs_multi), ('normalise_inputs: one unit', u_inputs_same),
         ('multiplication', functools.partial(u_operator, fn=BA.op_number_multiply, sign=1)), ('division', functools.partial(u_operator, fn=BA.op_number_divide, sign=-1)),
         ('finalize', u_finalize), ('operator table', u_flags),
         ('normalise_from_left', functools.partial(u_normalise, fn=UnitNormaliser.normalise_from_left, coef=_L)),
         ('normalise_from_right', functools.partial(u_normalise, fn=UnitNormaliser.normalise_from_right, coef=_R)),
         ('dedupe', u_dedupe),
         ('simplify_units', functools.partial(u_simplify, coef=_S, multi=False)),
         ('simplify_units with compound units', functools.partial(u_simplify, coef=_T, multi=True), {'max_paths': 5000, 'seconds': 200})]


# ------------------------------------------------------------ concrete oracle
class Skip(Exception):
    pass


class Err(Exception):
    pass


LIMIT = 10 ** 60


def guard(x, units=()):
    if max(abs(x.numerator), x.denominator) * Q.size(units) > LIMIT:
        raise Skip()
    return x


def addd(a, b, k=1):
    out = dict(a)
    for d, e in b.items():
        out[d] = out.get(d, 0) + k * e
    return {d: e for d, e in out.items() if e}


CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def oracle(t):
    """-> (si value, dims, bare) ; bare: certainly written without unit"""
    k = t[0]
    if k == 'q':
        units = [tuple(u) for u in t[3]]
        x = F(t[1], t[2])
        guard(x, units)
        return x * Q.scale(units), Q.dims(units), not Q.merge(units)
    a = oracle(t[1])
    if k == '^':
        n = t[2]
        if a[0] == 0 and n <= 0:
            raise Skip()
        if a[0] != 0:
            guard(F(max(abs(a[0].numerator), a[0].denominator)) ** abs(n))
        return a[0] ** n, {d: e * n for d, e in a[1].items() if e * n}, a[2] or n == 0
    if k == 'abs':
        return abs(a[0]), a[1], a[2]
    if k == 'compact':
        if a[2]:
            raise Err()
        if not a[1]:
            raise Skip()
        return a
    b = oracle(t[2])
    if k == '*':
        r = a[0] * b[0], addd(a[1], b[1]), a[2] and b[2]
    elif k == '/':
        if b[0] == 0:
            raise Err()
        r = a[0] / b[0], addd(a[1], b[1], -1), a[2] and b[2]
    else:
        if a[1] != b[1]:
            raise Err()
        if a[2] != b[2] or (not a[1] and not (a[2] and b[2])):
            raise Skip()                # a bare number and a quantity whose unit cancels
        if k == '+':
            r = a[0] + b[0], a[1], a[2]
        elif k == '-':
            r = a[0] - b[0], a[1], a[2]
        elif k == '%':
            if b[0] == 0:
                raise Err()
            m = abs(a[0]) % abs(b[0])
            r = (m if a[0] >= 0 else -m), a[1], a[2]
        elif k in CMP:
            return CMP[k](a[0], b[0]), {}, True
        elif k == 'max':
            r = max(a[0], b[0]), a[1], a[2]
        elif k == 'min':
            r = min(a[0], b[0]), a[1], a[2]
        elif k == 'sum':
            r = a[0] + b[0], a[1], a[2]
        else:
            raise Skip()
    guard(r[0])
    return r


def text(t):
    if t[0] == 'q':
        return '(' + Q.text(F(t[1], t[2]), [tuple(u) for u in t[3]]) + ')'
    if t[0] == '^':
        return '(%s ^ %d)' % (text(t[1]), t[2])
    if t[0] in ('abs', 'compact'):
        return '%s(%s)' % (t[0], text(t[1]))
    if t[0] in ('max', 'min', 'sum'):
        return '%s(%s, %s)' % (t[0], text(t[1]), text(t[2]))
    return '(%s %s %s)' % (text(t[1]), t[0], text(t[2]))


def sizes(t):
    """a bound on the size of the intermediate numbers, whatever units the calculator chooses to write them in"""
    if t[0] == 'q':
        return max(abs(t[1]), t[2]) * Q.size([tuple(u) for u in t[3]]) ** 2
    if t[0] == '^':
        return sizes(t[1]) ** abs(t[2])
    r = 1
    for x in t[1:]:
        r *= sizes(x)
    return r


def agree(e, c, want, approx=False):
    st, r = CC.evaluate(e, c=c)
    if want == 'error':
        return None if st == 'error' else '%s gives %s, not an error' % (e, CC.shown(r.value, r.unit, c))
    si, dm, _bare = want
    if st == 'error':
        return '%s is an error: %s' % (e, r)
    if isinstance(si, bool):
        return None if r.value is si else '%s gives %s, not %s' % (e, CC.shown(r.value, r.unit, c), si)
    if not isinstance(r.value, Number):
        return '%s gives %r' % (e, r.value)
    units = Q.read_unit(r.unit)
    got = Q.read(r.value) * Q.scale(units)
    if isinstance(got, float):          # simplified to a fractional power: irrational
        ok = abs(got - float(si)) <= 1e-12 * abs(float(si))
    elif approx:
        ok = abs(got - si) <= F(1, 10 ** 25) * max(1, abs(si))
    elif max(abs(got.numerator), got.denominator) > 10 ** 60:
        # simplified through a fractional power of a unit, which rounds at the precision of the arithmetic
        ok = abs(got - si) <= F(1, 10 ** 50) * abs(si)
        approx = True
    else:
        ok = got == si
    if not ok or Q.dims(units) != dm:
        return '%s gives %s, which is %s %s, not %s %s' % (e, CC.shown(r.value, r.unit, c), got, Q.dims(units), si, dm)
    if not approx and max(abs(r.value.num), r.value.den) < 10 ** 60 and CC.canonical(r.value):
        return '%s: %s' % (e, CC.canonical(r.value))
    return None


def k_expr(t, simplify):
    """the quantity of a whole expression; operands in variables stay as they are"""
    try:
        want = oracle(t)
    except Err:
        want = 'error'
    except Skip:
        return None
    if sizes(t) > 10 ** 75:
        return None
    c = CC.calc('Computing')
    c.unit_simplification_set(simplify)
    try:
        m = agree(text(t), c, want)
        if m:
            return m
        # the same through variables
        if t[0] in ('q', '^', 'abs', 'compact'):
            return None
        c.vars = {}
        for n, x in (('varx', t[1]), ('vary', t[2])):
            if CC.evaluate('%s = %s' % (n, text(x)), c=c)[0] == 'error':
                return None
        before = CC.table(c)
        e = ('%s(varx, vary)' if t[0].isalpha() else 'varx %s vary') % t[0]
        m = agree(e, c, want)
        if m:
            return '%s with varx = %s, vary = %s' % (m, text(t[1]), text(t[2]))
        if CC.table(c) != before:
            return '%s changed its operands: %s -> %s' % (e, before, CC.table(c))
    finally:
        c.unit_simplification_set(True)
    return None


def k_list(fn, op, items):
    """sum, max, min, mean of any number of quantities"""
    c = CC.calc('Computing')
    qs = [oracle(['q'] + x) for x in items]
    if any(q[1] != qs[0][1] or q[2] != qs[0][2] for q in qs):
        want = 'error'
        if any(q[1] == {} for q in qs):
            return None
    else:
        v = [q[0] for q in qs]
        want = ({'sum': sum(v), 'max': max(v), 'min': min(v), 'mean': sum(v) / len(v)}[fn], qs[0][1], qs[0][2])
    arr = ', '.join(text(['q'] + x) for x in items)
    for e in ('%s(%s)' % (fn, arr), '%s([%s])' % (fn, arr))[len(items) == 1:]:
        m = agree(e, c, want, fn == 'mean')
        if m:
            return m
    return None


def k_format(p, q, unit, system):
    """format() writes the same quantity in a list of units"""
    c = CC.calc('Computing')
    x = F(p, q)
    e = 'format(%s%s)' % (Q.text(x, [(unit, 1)]), ', ' + system if system else '')
    st, r = CC.evaluate(e, c=c)
    if st == 'error':
        return None
    total = F(0)
    for part in r.value.split(', '):
        if not part:
            continue
        n, u = part.split(' ', 1)
        u = NAMES.get(u)
        if u is None:
            return None
        total += F(n) * Q.UNITS[u][1]
        if Q.UNITS[u][0] != Q.UNITS[unit][0]:
            return '%s gives %s' % (e, r.value)
    si = x * Q.UNITS[unit][1]
    if abs(total - si) > F(1, 10 ** 26) * max(1, Q.UNITS[unit][1], *[Q.UNITS[n][1] for n in Q.BY_DIM[Q.UNITS[unit][0]]]):
        return '%s gives %s, which is %s, not %s' % (e, r.value, float(total), float(si))
    return None


NAMES = {t: n for n, i in Q.INFO.items() for t in i['names']}
ASSUMPTIONS = [R.ASSUMPTION, NOTE, 'get_closeness, get_subunit_list and set/min over unit lists are arbitrary (any result is accepted)',
               'termination of the rewriting loops is not proved (partial correctness)', 'a rewriting through a fractional power of a unit rounds at the precision of the arithmetic']
KINDS = {'expr': k_expr, 'list': k_list, 'format': k_format}
SEARCH_SECONDS = (35, 250)
SMALL = ['meters', 'kilometers', 'inches', 'feet', 'seconds', 'hours', 'grams', 'kilograms', 'newtons', 'joules', 'watts', 'kelvin', 'liters', 'hertz', 'volts', 'amperes', 'ohms',
         'coulombs', 'bytes', 'acres', 'knots', 'pascals', 'pounds', 'farads', 'kilowatts', 'millimeters', 'Celsius', 'Fahrenheit', 'minutes', 'gees', 'US pints', 'UK pints', 'kilobytes', 'radians', 'teslas', 'knots', 'nautical miles']
SMALL = [n for n in SMALL if n in Q.UNITS]


def rq(rng, units=None):
    k = rng.random()
    p, q = (rng.randint(-20, 20), 1) if k < 0.6 else (rng.randint(-2000, 2000), rng.randint(1, 40)) if k < 0.9 else (0, 1)
    if units is None:
        units = []
        for n in {rng.choice(SMALL if rng.random() < 0.85 else Q.EXACT) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))}:
            units.append([n, rng.choice([1, 1, 1, -1, -1, 2, -2, 3])])
        if units and rng.random() < 0.12:
            # another unit of the same dimension against the first
            o = rng.choice([x for x in Q.BY_DIM[Q.UNITS[units[0][0]][0]]])
            if o not in [u[0] for u in units]:
                units.append([o, -units[0][1]])
        units.sort()
        rng.shuffle(units)
    return ['q', p, q, units]


def like(rng, units):
    """units of the same dimension"""
    out = []
    for n, p in units:
        d = Q.UNITS[n][0]
        if rng.random() < 0.3 and Q.DIMS[d] != {d: 1}:
            for b, e in Q.DIMS[d].items():
                out.append([rng.choice([x for x in Q.BY_DIM[b] if x in SMALL] or Q.BY_DIM[b]), e * p])
        else:
            out.append([rng.choice([x for x in Q.BY_DIM[d] if x in SMALL] or Q.BY_DIM[d]) if rng.random() < 0.8 else rng.choice(Q.BY_DIM[d]), p])
    return [[n, p] for n, p in Q.merge([tuple(u) for u in out]).items()]


def lone_offset(units):
    return any(n in Q.OFFSET for n, _p in units)


def gen(rng, depth):
    if depth == 0 or rng.random() < 0.25:
        return rq(rng)
    k = rng.random()
    if k < 0.12:
        return ['^', gen(rng, depth - 1), rng.choice([-2, -1, 0, 1, 2, 2, 3])]
    if k < 0.18:
        return [rng.choice(['abs', 'compact']), gen(rng, depth - 1)]
    if k < 0.75:
        return [rng.choice('*/'), gen(rng, depth - 1), gen(rng, depth - 1)]
    a = gen(rng, depth - 1)
    return [rng.choice(['+', '-']), a, gen(rng, depth - 1)]


def search(S):
    rng = S.rng
    n = 0
    for op in ('*', '/'):
        for a in SMALL:
            if not S.time_left():
                return
            b = rng.choice(SMALL)
            S.run('expr', [op, rq(rng, [[a, 1]]), rq(rng, [[b, rng.choice([1, -1, 2])]])], True)
            S.run('expr', [op, rq(rng, [[a, 1]]), rq(rng, like(rng, [[a, 1]]))], rng.random() < 0.8)
    for e in ([['*', ['q', 0, 1, [['newtons', 1], ['watts', -1]]], ['q', 1, 1, [['nautical miles', -1]]]], ['*', ['q', 5, 1, [['meters', 1]]], ['q', 3, 1, [['centimeters', 1], ['meters', -1]]]],
               ['/', ['q', 5, 1, [['meters', 2]]], ['q', 3, 1, [['inches', 1], ['meters', -1]]]]]):
        S.run('expr', e, True)
    while S.time_left():
        n += 1
        k = rng.random()
        simp = rng.random() < 0.85
        if k < 0.25:
            a = rq(rng)
            b = rq(rng, like(rng, a[3]) if rng.random() < 0.85 else None)
            ops = ['+', '-', '+', '-', '<', '<=', '==', '!=', '>', '>=', '%', 'max', 'min', 'sum']
            if lone_offset(a[3]) or lone_offset(b[3]):
                ops = ['+', '-']
            if rng.random() < 0.2:
                # exactly equal quantities, or one just apart
                x = F(a[1], a[2]) * Q.scale([tuple(u) for u in a[3]]) / Q.scale([tuple(u) for u in b[3]])
                if rng.random() < 0.5:
                    x += F(1, 10 ** rng.randint(1, 12))
                b = ['q', x.numerator, x.denominator, b[3]]
            S.run('expr', [rng.choice(ops), a, b], simp)
        elif k < 0.34:
            a = rq(rng)
            if lone_offset(a[3]):
                continue
            items = [a[1:]]
            for _ in range(rng.randint(0, 4)):
                items.append(rq(rng, like(rng, a[3]))[1:])
            if any(lone_offset(i[2]) for i in items):
                continue
            try:
                s = 1
                for i in items:
                    s *= sizes(['q'] + i)
                if s < LIMIT:
                    S.run('list', rng.choice(['sum', 'max', 'min', 'mean']), 0, items)
            except Skip:
                pass
        elif k < 0.38:
            u = rng.choice([x for x in SMALL if Q.UNITS[x][0] != Q.UNITS['kelvin'][0]])
            S.run('format', abs(rq(rng)[1]) or 7, rng.choice([1, 1, 3, 7]), u, rng.choice(['', '', 'si', 'us', 'uk', 'gregorian']))
        elif k < 0.7:
            a = rq(rng)
            b = rq(rng)
            if rng.random() < 0.4:
                b[3] = like(rng, a[3])
            S.run('expr', [rng.choice('*/'), a, b], simp)
        else:
            S.run('expr', gen(rng, 2 if rng.random() < 0.8 else 3), simp)
