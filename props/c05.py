"""C05: nothing of the text is lost or invented by parsing, and an error's position is where its items end."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc import concrete
from props import c05x
import ast
import contextlib
import io
import re
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc.interp import UnknownVal
from modularcalculator.engine import Engine
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects import items as I
from modularcalculator.objects import exceptions as X
from modularcalculator.objects.items import Item, RecursiveOperandItem, items_text
from modularcalculator.objects.exceptions import CalculatorException, CalculateException, CalculatingException, ParseException, ParsingException, ExecutionException
from modularcalculator.objects.number import Number
from modularcalculator.features.structure.functions import FunctionsFeature
from modularcalculator.features.structure.functionpointers import FunctionPointersFeature
from modularcalculator.features.structure.innerexpressions import InnerExpressionsFeature, InnerExpressionEndItem
from modularcalculator.features.structure.inlinefunctions import InlineFunctionsFeature, InlineFunctionEndItem
from modularcalculator.features.structure.terminator import TerminatorFeature
from modularcalculator.features.structure.operators import OperatorsFeature
from modularcalculator.features.strings.strings import StringsFeature
from modularcalculator.features.nonfunctional.space import SpaceFeature
from modularcalculator.features.nonfunctional.comments import CommentsFeature
from modularcalculator.features.numerical import percentagenumbers, numericalrepresentation, decimalnumbers, hexadecimalnumbers, octalnumbers, arbitrarybasenumbers, binarynumbers, expnumbers
from modularcalculator.features.units.units import UnitsFeature
from modularcalculator.features.units.systems import UnitSystemsFeature
from modularcalculator.features.boolean.booleans import BooleansFeature
from modularcalculator.features.arrays.arrays import ArraysFeature
from modularcalculator.features.state.assignment import AssignmentFeature
from modularcalculator.features.state.constants import ConstantsFeature

ASSUMPTIONS = ['the symbols of the structural features are the ones the running installation code sets (their default options)',
               'execution: the parsers lay the items of a nested item out as start, argument, separator, argument ... (arrays: element, separator), the texts of items follow one another (the parse units), and every item is functional or not for good',
               'execution: an item class outside this repository that evaluates other items carries their errors on as the classes here do']
TRUSTED = ['the pattern parser of the standard library, for the widths and places of the groups of a pattern',
           'str.lower keeps the length of the text (false only for U+0130)']

_CALC = ModularCalculator('Computing')
OPT = {k: dict(v) if isinstance(v, dict) else v for k, v in _CALC.feature_options.items()}
SYM = OPT['arrays.arrays']
E = 'expression'


# ------------------------------------------------------------ ghost texts
def pieces_of(v):
    if isinstance(v, Items):
        return list(v.pieces)
    if isinstance(v, Stmts):
        return list(v.first.pieces) + list(v.mid) + (list(v.last.pieces) if v.last is not v.first else [])
    if isinstance(v, SConcat):
        return list(v.parts)
    if isinstance(v, Op):
        return [v.slice if v.slice is not None else v]
    if isinstance(v, Item):
        return pieces_of(v.text)
    if type(v) is list:
        return [p for x in v for p in pieces_of(x)]
    return [v]


def starts_with(ctx, at, s):
    """is it known that the expression has the constant s at position at?"""
    for lo, const, val in ctx.notes_tab('textat').get((E, None), []):
        if val is True and const.startswith(s) and ctx.entails(lo == at):
            return True
    return False


def spans(ctx, v, lo):
    """the text of v lies in the expression from lo on, without gaps -> where it ends, or None"""
    cur = lo
    for p in pieces_of(v):
        if isinstance(p, str):
            while p:            # a constant may be known in several parts
                for n in range(len(p), 0, -1):
                    if starts_with(ctx, cur, p[:n]):
                        break
                else:
                    return None
                cur, p = z3.simplify(cur + n), p[n:]
        elif isinstance(p, SSlice) and p.base == E and p.fold is None:
            if not ctx.entails(z3.Or(p.lo == cur, p.lo == p.hi)):
                return None
            cur = z3.simplify(cur + p.hi - p.lo)
        else:
            return None
    return cur


def covers(ctx, v, lo, hi):
    c = spans(ctx, v, lo)
    return c is not None and ctx.entails(c == hi)


def piece_len(v):
    t = z3.IntVal(0)
    for p in pieces_of(v):
        t = t + (len(p) if isinstance(p, str) else p.hi - p.lo if isinstance(p, SSlice) else p.n)
    return z3.simplify(t)


class Op(SExt):
    """a constant symbol or name of some table, about which nothing is known but that it is not empty"""
    pyclass = str

    def __init__(self, ctx, name):
        self.n = ctx.int(name + '.length')
        ctx.assume(self.n >= 1)
        self.prefix, self.slice, self.name = None, None, ctx.fresh_name(name)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'instr' and a[0] == 'startswith' and not a[2]:
            subj = a[1]
            if not isinstance(subj, SSlice) or subj.fold is not None:
                raise Undecided('prefix test of %r' % (subj,))
            if not ctx.branch(z3.And(ctx.bool(self.name + ' is a prefix'), subj.length() >= self.n)):
                return False
            self.slice = SSlice(subj.base, subj.lo, z3.simplify(subj.lo + self.n))
            return True
        if op == 'len':
            return SInt(self.n)
        if op == 'call' and a[0].startswith('is'):
            return SBool(ctx.bool(self.name + '.' + a[0]))
        if op == 'call' and a[0] in ('lower', 'upper'):
            return Op(ctx, self.name + '.' + a[0])
        if op in ('str', 'format'):
            return self
        if op in ('binop', 'rbinop') and a[0] == 'Add':
            return SomeText()
        if op == 'compare':
            return SBool(ctx.bool(self.name + '.compare'))
        return NotImplemented


class SomeText(SExt):
    """a text with a name in it"""
    pyclass = str

    def sx(self, it, op, *a):
        if op in ('binop', 'rbinop') and a[0] == 'Add' or op in ('str', 'format'):
            return self
        return NotImplemented


class Table(SExt):
    """a table of the calculator: any names, any content"""
    pyclass = dict

    def __init__(self, name, length=None):
        self.name = name

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'contains':
            return SBool(ctx.bool('in ' + self.name))
        if op == 'getitem':
            return SOpaque(ctx.fresh_name(self.name + ' entry'))
        if op == 'call' and a[0] in ('keys', 'copy'):
            return self
        if op in ('compare', 'rcompare'):
            return SBool(ctx.bool(self.name + '.compare'))
        if op == 'call' and a[0] == 'get':
            return SOpaque(ctx.fresh_name(self.name + ' entry'))
        if op == 'symiter':
            n = ctx.int(self.name + '.size')
            ctx.assume(n >= 0)
            return n, lambda k: Op(ctx, self.name + ' name')
        if op == 'len':
            n = ctx.int(self.name + '.size')
            ctx.assume(n >= 0)
            return SInt(n)
        return NotImplemented


class Prefixes(SExt):
    """some of the names of a table: those for which a condition held"""
    pyclass = list

    def __init__(self, mk):
        self.mk = mk

    def sx(self, it, op, *a):
        if op == 'symiter':
            n = it.ctx.int('names')
            it.ctx.assume(n >= 0)
            return n, lambda k: self.mk(it.ctx)
        return NotImplemented


class Items(SExt):
    """a list of n items, with their text: no item is empty"""
    pyclass = list

    def __init__(self, ctx, pieces, n=None):
        self.pieces = list(pieces)
        if n is None:
            n = ctx.int(ctx.fresh_name('items'))
            ctx.assume(n >= 0)
            ctx.assume((n == 0) == (piece_len(self) == 0))
        self.n = n

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'len':
            return SInt(z3.simplify(self.n))
        if op == 'truth':
            return SBool(self.n > 0)
        if op == 'binop' and a[0] == 'Add':
            return Items(ctx, self.pieces + pieces_of(a[1]), self.n + count(ctx, a[1]))
        if op == 'rbinop' and a[0] == 'Add':
            return Items(ctx, pieces_of(a[1]) + self.pieces, self.n + count(ctx, a[1]))
        if op == 'call':
            name, args = a[0], a[1]
            if name == 'copy':
                return Items(ctx, self.pieces, self.n)
            if name == 'extend':
                o = it.resolve(args[0])
                self.n = z3.simplify(self.n + count(ctx, o))
                self.pieces = self.pieces + pieces_of(o)
                return None
            if name == 'append':
                self.n = self.n + 1
                self.pieces = self.pieces + pieces_of(args[0])
                return None
            if name == 'insert' and args[0] == 0:
                self.n = self.n + 1
                self.pieces = pieces_of(args[1]) + self.pieces
                return None
        return NotImplemented


def count(ctx, v):
    if isinstance(v, Items):
        return v.n
    if isinstance(v, list):
        return z3.IntVal(len(v))
    raise Undecided('number of items of %r' % (v,))


class Stmts(SExt):
    """at least one statement; the first and the last are at hand, the others are known by their text"""
    pyclass = list

    def __init__(self, ctx, lo, hi, single, end=()):
        self.single = single
        if single:
            self.first = self.last = Items(ctx, [SSlice(E, lo, hi)] + list(end))
            self.mid = []
            self.count = z3.IntVal(1)
        else:
            a, b = ctx.int('end of the first'), ctx.int('start of the last')
            ctx.assume(z3.And(lo <= a, a <= b, b <= hi))
            self.first = Items(ctx, [SSlice(E, lo, a)])
            self.mid = [SSlice(E, a, b)]
            self.last = Items(ctx, [SSlice(E, b, hi)] + list(end))
            self.count = ctx.int('statements')
            ctx.assume(self.count >= 2)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'len':
            return SInt(z3.simplify(self.count))
        if op == 'getitem':
            i = a[0]
            if isinstance(i, int) and i == 0:
                return self.first
            if isinstance(i, int) and i == -1 or self.single and isinstance(i, SInt) and ctx.entails(i.t == 0):
                return self.last
            if isinstance(i, (int, SInt)) and ctx.entails(M.to_int(i) == self.count - 1):
                return self.last
        if op == 'call' and a[0] == 'append':
            x = it.resolve(a[1][0])
            if type(x) is list:
                x = Items(ctx, pieces_of(x), z3.IntVal(len(x)))
            if not self.single:
                self.mid = self.mid + self.last.pieces
            self.single, self.last, self.count = False, x, z3.simplify(self.count + 1)
            return None
        if op == 'symiter':
            return self.count, lambda k: SomeStatement(ctx)
        return NotImplemented


class SomeStatement(SExt):
    pyclass = list

    def __init__(self, ctx):
        pass


class Flags(SExt):
    """any flags the caller may have given"""
    pyclass = dict

    def __init__(self, ctx, known=None, name='flag'):
        self.known, self.name = dict(known or {}), name

    def has(self, ctx, key):
        if key not in self.known:
            self.known[key] = bool(ctx.branch(ctx.bool('%s %s' % (self.name, key))))
        return self.known[key]

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'contains':
            return self.has(ctx, a[0])
        if op == 'getitem':
            if not self.has(ctx, a[0]):
                raise PyRaise(KeyError(a[0]))
            return True
        if op == 'setitem':
            self.known[a[0]] = a[1] is True
            return None
        if op == 'call' and a[0] == 'keys':
            return self
        if op == 'call' and a[0] == 'copy':
            c = Flags(ctx, self.known, self.name)
            c.parent = self
            return c
        if op == 'call' and a[0] == 'get':
            return self.has(ctx, a[1][0]) or (a[1][1] if len(a[1]) > 1 else None)
        return NotImplemented


def flag(ctx, flags, key):
    if isinstance(flags, Flags):
        return flags.has(ctx, key)
    return bool(flags.get(key))


# what may end a nested parse: (flags returned, when, the symbol at the end, the item the parser gives for it)
ENDS = [({'end': True}, lambda f: f('func'), lambda: ',', None),
        ({'end': True, 'end_func': True}, lambda f: f('func') and not f('inner_expr'), lambda: ')', None),
        ({'end': True, 'end_inner_expr': True}, lambda f: f('inner_expr'), lambda: ')', InnerExpressionEndItem),
        ({'end': True, 'end_inline_function': True}, lambda f: f('inline_function'), lambda: '}', InlineFunctionEndItem),
        ({'end': True, 'array_range': True}, lambda f: f('array'), lambda: SYM['Range'], None),
        ({'end': True, 'array_step': True}, lambda f: f('array'), lambda: SYM['Step'], None),
        ({'end': True, 'array_param': True}, lambda f: f('array'), lambda: SYM['Param'], None),
        ({'end': True, 'end_array': True}, lambda f: f('array'), lambda: SYM['Close'], None)]


def note_text(ctx, at, s):
    ctx.notes_tab('textat').setdefault((E, None), []).append((z3.simplify(at), s, True))


def possible_end(ctx, flags):
    """choose how a nested parse ends: (entry of ENDS) or None for the end of the text"""
    k = ctx.choose(len(ENDS) + 1, 'end of the nested parse')
    if k == len(ENDS):
        return None
    if not ENDS[k][1](lambda key: flag(ctx, flags, key)):
        raise PathDone()
    return ENDS[k]


def setup(ctx, **attrs):
    it = Interp(ctx)
    L = ctx.int('length of the expression')
    ctx.assume(L >= 1)
    i = ctx.int('position')
    ctx.assume(z3.And(i >= 0, i < L))
    it.L, it.i = L, i
    base = dict(feature_options=OPT, vars=Table('vars'), funcs=Table('funcs'), constants=Table('constants'), number_types=Table('number types'), last_failed_terminator=SOpaque('last failed'),
                unit_normaliser=SOpaque('normaliser', object, {'systems': Table('systems'), 'unitnames': Table('unit names'), 'unitsymbols': Table('unit symbols'), 'unitnamesmaxlength': SInt(ctx.int('longest unit name')),
                                                              'get_unit': Stub(lambda it_, *a, **kw: SOpaque('unit'))}),
                unit_symbols_enabled=SBool(ctx.bool('unit symbols')), ops_symbols=Table('operators'))
    base.update(attrs)
    calc = mk_calc(ctx, **base)
    it.contracts[I.previous_functional_item] = lambda it_, a, kw: None if ctx.choose(2, 'previous item') == 0 else SOpaque('previous', I.OperandItem, {'isop': Stub(lambda it__, *x, **y: SBool(ctx.bool('isop')))})
    it.contracts[I.functional_items] = lambda it_, a, kw: Table('functional items')
    it.contracts[X.find_pos] = lambda it_, a, kw: find_pos(it_, ctx, a, kw)

    def nested(it_, a, kw):
        return nested_parse(it_, ctx, a, kw)
    it.contracts[Engine.parse] = nested
    it.loop_specs.append(lambda it_, node, fr, seq: Plain() if isinstance(seq, (Stmts, Table, Prefixes, SRange)) else None)

    def comp(it_, e, fr, seq, n, at):
        if isinstance(seq, Stmts):
            # [x for s in statements for x in s]
            g = e.generators
            if len(g) == 2 and not g[0].ifs and not g[1].ifs and isinstance(g[1].iter, ast.Name) and isinstance(g[0].target, ast.Name) and g[1].iter.id == g[0].target.id and isinstance(e.elt, ast.Name) and isinstance(g[1].target, ast.Name) and e.elt.id == g[1].target.id:
                r = Items(ctx, pieces_of(seq))
                return r
            raise Undecided('comprehension over statements')
        if isinstance(seq, Table) and seq.name == 'functional items':
            return Table('functional texts')
        if isinstance(seq, Table) and len(e.generators) == 1 and isinstance(e.elt, ast.Name):
            g = e.generators[0]

            def mk(c):
                x = Op(c, seq.name + ' name')
                it_.assign(g.target, x, fr)
                for cnd in g.ifs:
                    if not it_.truth(it_.ev(cnd, fr)):
                        raise PathDone()
                return it_.ev(e.elt, fr)
            return Prefixes(mk)
        return None
    it.comp_hook = comp
    it.sorted_hook = lambda it_, v, key, reverse: v if isinstance(v, Prefixes) else Undecided_('sorting of %r' % (v,))
    return it, calc


def Undecided_(m):
    raise Undecided(m)


class Plain(LoopSpec):
    """a loop that carries nothing from one iteration to the next"""


def find_pos(it, ctx, a, kw):
    """contract (proved by find_pos:...): if the items are exactly a beginning of the text and next is what follows, the
    position is where they end, and nothing is printed"""
    err, text, stms = a
    if not isinstance(text, SSlice) or text.base != E or text.fold is not None:
        raise Undecided('position in %r' % (text,))
    end = spans(ctx, stms, text.lo)
    ctx.prove('find_pos:called-with-items-that-begin-the-text', end is not None, repr(pieces_of(stms)))
    if end is None:
        raise PathDone()
    nxt = err.next
    ctx.prove('find_pos:called-with-what-follows', is_rest(ctx, nxt, end, text.hi), repr(nxt))
    return SInt(z3.simplify(end - text.lo))


def is_rest(ctx, nxt, at, hi):
    """nxt is the expression from at on"""
    return isinstance(nxt, SSlice) and nxt.base == E and nxt.fold is None and ctx.entails(z3.And(nxt.lo == at, nxt.hi == hi))


def nested_parse(it, ctx, a, kw):
    """contract of Engine.parse (proved by parse:...)"""
    expr, flags = a[1], a[2]
    ok = isinstance(expr, SSlice) and expr.base == E and expr.fold is None and ctx.entails(expr.hi == it.L)
    ctx.prove('parse:called-with-the-rest-of-the-text', ok, repr(expr))
    if not ok:
        raise PathDone()
    it.parses = getattr(it, 'parses', 0) + 1
    one = flag(ctx, flags, 'ignore_terminators')
    k = ctx.choose(2, 'nested parse')
    single = one or ctx.choose(2, 'statements') == 0
    n = ctx.int('parsed length')
    ctx.assume(z3.And(n >= 0, expr.lo + n <= expr.hi))
    end = z3.simplify(expr.lo + n)
    if k == 1:
        e = ctx.alloc(ParsingException.__new__(ParsingException))
        e.message, e.statements, e.next, e.truncated = 'cannot parse', Stmts(ctx, expr.lo, end, single), SSlice(E, end, expr.hi), False
        raise PyRaise(e)
    how = possible_end(ctx, flags)
    times = SOpaque('times')
    if how is None:
        ctx.assume(end == expr.hi)
        return (Stmts(ctx, expr.lo, end, single), SInt(n), ctx.alloc({'times': times}))
    rf, _when, sym, item = how
    s = sym()
    ctx.assume(end + len(s) <= expr.hi)
    note_text(ctx, end, s)
    return (Stmts(ctx, expr.lo, end, single, [s] if item else []), SInt(n), ctx.alloc(dict(rf, times=times)))


# ------------------------------------------------------------ the contract of a parser
def well_formed(ctx, what, item):
    """an item returned by a parser: not empty, and if it has items, their text is its text"""
    ok = isinstance(item, Item)
    ctx.prove(what + ':an-item', ok, repr(item))
    if not ok:
        raise PathDone()
    ctx.prove(what + ':no-item-is-empty', piece_len(item) >= 1)


def check_parser(ctx, it, calc, name, f, flags, can_fail=False):
    L, i = it.L, it.i
    st, r = run(it, f, calc, SSlice(E, z3.IntVal(0), L), SInt(i), Items(ctx, [SSlice(E, z3.IntVal(0), i)]), flags)
    if st == 'raise':
        if isinstance(r, ParseException):
            end = spans(ctx, r.items, i)
            ctx.prove(name + ':error-items-begin-the-rest', end is not None, repr(pieces_of(r.items)))
            if end is None:
                return
            for x in r.items:
                if isinstance(x, RecursiveOperandItem):
                    ctx.prove(name + ':error-item-is-its-items', covers(ctx, x.items, i, end), repr(pieces_of(x.items)))
            ctx.prove(name + ':error-next-is-what-follows', is_rest(ctx, r.next, end, L), repr(r.next))
            ctx.cover('error')
        else:
            ctx.cover('other exception')
        return
    ok = isinstance(r, tuple) and len(r) == 3
    ctx.prove(name + ':returns-items-length-flags', ok, repr(r))
    if not ok:
        return
    items, length, rf = r
    if isinstance(rf, dict) and 'end' in rf:
        entries = [x for x in ENDS if {k: v for k, v in rf.items()} == x[0] and (items is None) == (x[3] is None)]
        ctx.prove(name + ':an-agreed-end', bool(entries), repr(rf))
        if not entries:
            return
        _rf, when, sym, item = entries[0]
        ctx.prove(name + ':ends-only-what-it-belongs-to', when(lambda key: flag(ctx, flags0(flags), key)), repr(rf))
        ctx.prove(name + ':at-its-symbol', starts_with(ctx, i, sym()))
        ctx.prove(name + ':consumes-nothing', length is None or ctx.entails(M.to_int(length) == 0))
        if item is not None:
            ctx.prove(name + ':its-item', len(items) == 1 and isinstance(items[0], item) and items[0].text == sym())
        ctx.cover('end')
        return
    if items is None:
        ctx.prove(name + ':nothing-found', length is None or ctx.entails(M.to_int(length) == 0))
        ctx.prove(name + ':nothing-found-no-flags', not rf)
        ctx.cover('nothing')
        return
    ctx.prove(name + ':only-known-flags', rf is None or set(rf) <= {'end_statement'}, repr(rf))
    if rf and 'end_statement' in rf:
        ctx.prove(name + ':statements-end-only-where-they-may', not flag(ctx, flags0(flags), 'ignore_terminators'))
    ok = type(items) is list and len(items) >= 1 and length is not None
    ctx.prove(name + ':items-found', ok, repr(items))
    if not ok:
        return
    for x in items:
        well_formed(ctx, name, x)
    n = M.to_int(length)
    ctx.prove(name + ':consumes-something', n >= 1)
    ctx.prove(name + ':inside-the-text', i + n <= L)
    ctx.prove(name + ':items-are-the-text-consumed', covers(ctx, items, i, z3.simplify(i + n)), repr((pieces_of(items), i, n)))
    for x in items:
        if isinstance(x, RecursiveOperandItem):
            ctx.prove(name + ':an-item-is-its-items', covers(ctx, x.items, i, z3.simplify(i + n)), repr(pieces_of(x.items)))
    ctx.cover('found')


def flags0(flags):
    return getattr(flags, 'parent', flags)


def opaque_parse(ctx, may_raise=()):
    def h(it, a, kw):
        k = ctx.choose(2 + len(may_raise), 'value of the text')
        if k == 0:
            return ctx.alloc(SOpaque('parsed value'))
        if k == 1:
            return None
        raise PyRaise(may_raise[k - 2])
    return h


NUMBERS = [(percentagenumbers.PercentageNumberFeature.parse_percentagenumber, percentagenumbers.PercentageNumericalRepresentation.parse),
           (hexadecimalnumbers.HexadecimalNumbersFeature.parse_hex, hexadecimalnumbers.HexadecimalNumericalRepresentation.parse),
           (octalnumbers.OctalNumbersFeature.parse_oct, octalnumbers.OctalNumericalRepresentation.parse),
           (binarynumbers.BinaryNumbersFeature.parse_bin, binarynumbers.BinaryNumericalRepresentation.parse),
           (arbitrarybasenumbers.ArbitraryBaseFeature.parse_arbbase, arbitrarybasenumbers.ArbitraryBaseNumericalRepresentation.parse),
           (expnumbers.ExpNumbersFeature.parse_numberexp, expnumbers.ExpNumericalRepresentation.parse)]

LEAVES = [SpaceFeature.parse_space, CommentsFeature.parse_comment, TerminatorFeature.parse_terminator, OperatorsFeature.parse_operator, StringsFeature.parse_string,
          numericalrepresentation.NumericalRepresentationFeature.parse_numericalrepresentation, decimalnumbers.DecimalNumbersFeature.parse_number,
          UnitsFeature.parse_units, UnitSystemsFeature.parse_unitsystems, BooleansFeature.parse_boolean, AssignmentFeature.parse_var, ConstantsFeature.parse_constant,
          FunctionsFeature.parse_function_param, FunctionsFeature.parse_end_function, InnerExpressionsFeature.parse_close_inner_expr, InlineFunctionsFeature.parse_inline_function_end,
          ArraysFeature.parse_array_range, ArraysFeature.parse_array_step, ArraysFeature.parse_array_param, ArraysFeature.parse_array_end] + [f for f, _g in NUMBERS]
NESTED = [FunctionsFeature.parse_function, FunctionPointersFeature.parse_function_pointer, InnerExpressionsFeature.parse_inner_expr, InlineFunctionsFeature.parse_inline_function, ArraysFeature.parse_array]


def u_leaf(ctx, f):
    it, calc = setup(ctx)
    for g, p in NUMBERS:
        it.contracts[p] = opaque_parse(ctx, [ArithmeticError('overflow')] if 'exp' in g.__name__ else [])
    from modularcalculator.numericalengine import NumericalEngine
    it.contracts[NumericalEngine.number] = lambda it_, a, kw: SOpaque('number')
    it.contracts[Number.__init__] = lambda it_, a, kw: None
    it.contracts[UnitsFeature.unit_char] = lambda it_, a, kw: SBool(ctx.bool('unit character'))
    from modularcalculator.objects.units import UnitPowerList
    it.contracts[UnitPowerList.newfromunit] = lambda it_, a, kw: SOpaque('units')

    def execute(it_, a, kw):
        k = ctx.choose(4, 'fake execution')
        if k == 1:
            e = ctx.alloc(X.ExecuteException.__new__(X.ExecuteException))
            e.message = 'Missing right operands for operator +'
            raise PyRaise(e)
        if k == 2:
            e = ctx.alloc(X.ExecuteException.__new__(X.ExecuteException))
            e.message = 'something else'
            raise PyRaise(e)
        if k == 3:
            raise PyRaise(KeyError('x'))
        return SOpaque('result')
    it.contracts[Engine.execute] = execute
    it.while_specs.append(lambda it_, node, fr: Scan(it_, fr) if fr.name.endswith('parse_string') else None)
    it.overrides[re.compile] = lambda it_, p, *fl: re.compile(p, *fl) if isinstance(p, str) else SOpaque('pattern', object, {'match': Stub(lambda it__, *a, **kw: None if ctx.choose(2, 'match') == 0 else True)})
    check_parser(ctx, it, calc, f.__name__, f, Flags(ctx))


class Scan(LoopSpec):
    """the scan of a quoted text: the position is inside it"""

    def __init__(self, it, fr):
        self.it = it

    def ints(self, fr):
        return [nm for nm, v in fr.locals.items() if nm in self.names]

    def init(self, it, fr):
        # counters: the plain integers; their common lower bound is their initial value
        self.names = {nm: v for nm, v in fr.locals.items() if type(v) is int}
        self.texts = [nm for nm, v in fr.locals.items() if v == '' and type(v) is str]
        self.bools = [nm for nm, v in fr.locals.items() if type(v) is bool]
        self.next = [v for v in fr.locals.values() if isinstance(v, SSlice)][-1:]

    def havoc(self, it, fr, k):
        self.k = {}
        for nm, v in self.names.items():
            t = it.ctx.int(nm)
            it.ctx.assume(z3.And(t >= v, *[t < s.length() for s in self.next]))
            fr.locals[nm] = SInt(t)
        for nm in self.texts:
            fr.locals[nm] = SStr(it.ctx.string(nm))
        for nm in self.bools:
            fr.locals[nm] = SBool(it.ctx.bool(nm))

    def step(self, it, fr, k):
        for nm, v in self.names.items():
            t = M.to_int(fr.locals[nm])
            it.ctx.prove('scan:inside-the-text', z3.And(t >= v, *[t < s.length() for s in self.next]))


class Args(LoopSpec):
    """a loop over nested parses: the items gathered are the text before the position"""

    def __init__(self):
        pass

    def texts(self, it, fr):
        return [v for v in fr.locals.values() if isinstance(v, SSlice) and v.base == E and v.fold is None and it.ctx.entails(z3.And(v.lo == it.i, v.hi == it.L))]

    def init(self, it, fr):
        ctx = it.ctx
        self.lo = it.i
        self.acc = [nm for nm, v in fr.locals.items() if type(v) is list and v and all(isinstance(x, Item) for x in v)]
        self.pos = [nm for nm, v in fr.locals.items() if nm in self.stored and isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        self.flags = [nm for nm, v in fr.locals.items() if type(v) is dict and not v]
        self.bags = [nm for nm, v in fr.locals.items() if type(v) is list and not v]
        ok = len(self.acc) == 1 and len(self.pos) == 1 and len(self.flags) == 1
        if not ok:
            raise Undecided('loop over nested parses: accumulator %s, position %s, flags %s' % (self.acc, self.pos, self.flags))
        self.check(it, fr, 'init')

    def check(self, it, fr, when):
        ctx = it.ctx
        i = M.to_int(fr.locals[self.pos[0]])
        rf = fr.locals[self.flags[0]]
        acc = fr.locals[self.acc[0]]
        over = ctx.entails(self.lo + i > it.L)
        if over:
            # past the end: only when no nested parse was ended
            ctx.prove('loop:%s:past-the-end-only-without-an-end' % when, not any(k in rf for k in ('end', 'end_func', 'end_array')))
            return
        ctx.prove('loop:%s:position-inside-the-text' % when, self.lo + i <= it.L)
        ctx.prove('loop:%s:items-are-the-text-so-far' % when, covers(ctx, acc, self.lo, z3.simplify(self.lo + i)), repr((pieces_of(acc), i)))
        ctx.prove('loop:%s:some-item' % when, count(ctx, acc) >= 1)
        if 'end_array' in rf:
            ctx.prove('loop:%s:array-ends-at-its-symbol' % when, starts_with(ctx, z3.simplify(self.lo + i), SYM['Close']))

    def havoc(self, it, fr, k):
        ctx = it.ctx
        i = ctx.int('position in the call')
        ctx.assume(i >= 1)
        for nm in self.bags:
            fr.locals[nm] = Bag()
        w = ctx.choose(4, 'state of the loop')
        if w == 3:
            ctx.assume(self.lo + i > it.L)
            fr.locals[self.acc[0]] = Items(ctx, [SOpaqueText(ctx)])
            rf = {}
        else:
            ctx.assume(self.lo + i <= it.L)
            fr.locals[self.acc[0]] = Items(ctx, [SSlice(E, self.lo, z3.simplify(self.lo + i))])
            rf = [{}, {'end': True, 'end_func': True}, {'end': True, 'end_array': True}][w]
            if w == 2:
                ctx.assume(self.lo + i + len(SYM['Close']) <= it.L)
                note_text(ctx, self.lo + i, SYM['Close'])
        fr.locals[self.flags[0]] = ctx.alloc(dict(rf))
        fr.locals[self.pos[0]] = SInt(i)

    def step(self, it, fr, k):
        self.check(it, fr, 'step')


class Bag(SExt):
    """a list the contract says nothing about"""
    pyclass = list

    def sx(self, it, op, *a):
        if op == 'call' and a[0] in ('append', 'extend'):
            return None
        if op == 'len':
            n = it.ctx.int('bag')
            it.ctx.assume(n >= 0)
            return SInt(n)
        if op == 'binop':
            return Bag()
        return NotImplemented


class SOpaqueText(SExt):
    pyclass = str

    def __init__(self, ctx):
        self.n = ctx.int('unknown text')
        ctx.assume(self.n >= 0)


def u_nested(ctx, f):
    it, calc = setup(ctx)

    def spec(it_, node, fr):
        from pyvc.interp import stored_names
        s = Args()
        s.stored = stored_names(node.body)
        return s if any(isinstance(v, list) and v and isinstance(v[0], Item) for v in fr.locals.values()) else None
    it.while_specs.append(spec)
    check_parser(ctx, it, calc, f.__name__, f, Flags(ctx))




# ------------------------------------------------------------ the loop over the text
class Parser(SExt):
    """any parser of the list, by its contract"""
    pyclass = dict

    def __init__(self, w):
        self.w = w

    def sx(self, it, op, *a):
        if op == 'getitem' and a[0] == 'ref':
            return Stub(self.call)
        return NotImplemented

    def call(self, it, *a, **kw):
        ctx, w = it.ctx, self.w
        _calc, expr, i, items, flags = a
        L = it.L
        i = M.to_int(i)
        ctx.prove('parse:parser-called-on-the-text', isinstance(expr, SSlice) and expr.base == E and ctx.entails(z3.And(expr.lo == 0, expr.hi == L)))
        ctx.prove('parse:parser-called-inside-the-text', z3.And(i >= 0, i < L))
        ctx.prove('parse:parser-gets-its-own-flags', flags is not w.flags and getattr(flags, 'parent', None) is w.flags)
        ctx.prove('parse:parser-gets-the-current-statement', isinstance(items, Items) and items is w.current())
        k = ctx.choose(7, 'outcome of a parser')
        if k == 0:
            return (None, None, None)
        if k == 1:
            n = ctx.int('length')
            ctx.assume(z3.And(n >= 1, i + n <= L))
            rf = None
            if not flag(ctx, w.flags, 'ignore_terminators') and ctx.choose(2, 'terminator') == 1:
                rf = ctx.alloc({'end_statement': True})
            return (found(ctx, i, i + n), SInt(n), rf)
        if k in (2, 3):
            e = ctx.alloc(ParseException.__new__(ParseException))
            n = ctx.int('length of the error items')
            ctx.assume(z3.And(n >= 0, i + n <= L))
            e.message, e.items, e.next, e.truncated = 'cannot parse', Items(ctx, [SSlice(E, i, z3.simplify(i + n))]), SSlice(E, z3.simplify(i + n), L), k == 3
            w.error = e
            raise PyRaise(e)
        if k == 4:
            raise PyRaise(KeyError('internal'))
        how = possible_end(ctx, w.flags)
        if how is None:
            raise PathDone()
        rf, _when, sym, item = how
        s = sym()
        ctx.assume(i + len(s) <= L)
        note_text(ctx, i, s)
        w.how = how
        return ([ctx.alloc(item())] if item else None, None, ctx.alloc(dict(rf)))


def found(ctx, lo, hi):
    x = Items(ctx, [SSlice(E, z3.simplify(lo), z3.simplify(hi))])
    return x


class Walk(LoopSpec):
    """Engine.parse: the items of the statements are the text before the position; every statement has its time"""

    def __init__(self, w, stored):
        self.w, self.stored = w, stored

    def may_write(self, obj):
        return isinstance(obj, (Times, Stmts, Items))

    def init(self, it, fr):
        ctx = it.ctx
        lists = [(nm, v) for nm, v in fr.locals.items() if type(v) is list]
        self.stms = [nm for nm, v in lists if len(v) == 1 and v[0] == []]
        self.times = [nm for nm, v in lists if v == []]
        self.pos = [nm for nm, v in fr.locals.items() if nm in self.stored and type(v) is int]
        self.clock = [nm for nm, v in fr.locals.items() if nm in self.stored and nm not in self.stms + self.times + self.pos]
        if len(self.stms) != 1 or len(self.times) != 1 or not self.pos or any(fr.locals[nm] != 0 for nm in self.pos):
            raise Undecided('the loop of parse: statements %s, times %s, positions %s' % (self.stms, self.times, self.pos))

    def havoc(self, it, fr, k):
        ctx, w = it.ctx, self.w
        i = ctx.int('i')
        ctx.assume(z3.And(i >= 0, i <= it.L))
        single = flag(ctx, w.flags, 'ignore_terminators') or ctx.choose(2, 'statements so far') == 0
        w.stms = Stmts(ctx, z3.IntVal(0), i, single)
        for nm in self.stms:
            fr.locals[nm] = w.stms
        for nm in self.pos:
            fr.locals[nm] = SInt(i)
        for nm in self.clock:
            fr.locals[nm] = Clock()
        w.times = Times(ctx, w.stms.count - 1)
        for nm in self.times:
            fr.locals[nm] = w.times
        w.i = i

    def step(self, it, fr, k):
        ctx, w = it.ctx, self.w
        i = M.to_int(fr.locals[self.pos[0]])
        for nm in self.pos[1:]:
            ctx.prove('parse:step:one-position', M.to_int(fr.locals[nm]) == i)
        ctx.prove('parse:step:moves-on', i >= w.i + 1)
        ctx.prove('parse:step:inside-the-text', i <= it.L)
        s = fr.locals[self.stms[0]]
        ctx.prove('parse:step:items-are-the-text-so-far', covers(ctx, s, z3.IntVal(0), i), repr(pieces_of(s)))
        if flag(ctx, w.flags, 'ignore_terminators'):
            ctx.prove('parse:step:one-statement', s.single)
        ctx.prove('parse:step:a-time-for-each-finished-statement', fr.locals[self.times[0]].n >= s.count - 1)


class Try(LoopSpec):
    """the loop over the parsers: as long as none has found anything, nothing has changed"""

    def __init__(self, w):
        self.w = w

    def may_write(self, obj):
        return obj is self.w.times

    def init(self, it, fr):
        self.locals = dict(fr.locals)
        self.n = self.w.stms.count
        self.lastn = self.w.stms.last.n

    def havoc(self, it, fr, k):
        # every carried variable is what it was before the loop, if it is used by an iteration
        for nm, v in self.locals.items():
            if isinstance(fr.locals.get(nm), type(v)):
                continue
            if isinstance(v, SInt):
                fr.locals[nm] = v
            elif isinstance(v, Clock):
                fr.locals[nm] = Clock()

    def step(self, it, fr, k):
        ctx, w = it.ctx, self.w
        for nm, v in self.locals.items():
            if isinstance(v, SInt):
                ctx.prove('parse:parsers:position-unchanged', M.to_int(fr.locals[nm]) == v.t)
        ctx.prove('parse:parsers:times-kept', w.times.n >= w.stms.count - 1)
        ctx.prove('parse:parsers:statements-unchanged', ctx.entails(w.stms.count == self.n) and ctx.entails(w.stms.last.n == self.lastn) and covers(ctx, w.stms, z3.IntVal(0), w.i))


class Times(SExt):
    """a list of times, of which only the number is known"""
    pyclass = list

    def __init__(self, ctx, least):
        self.n = ctx.int('times')
        ctx.assume(self.n >= least)

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'len':
            return SInt(z3.simplify(self.n))
        if op == 'call' and a[0] == 'append':
            self.n = self.n + 1
            return None
        if op == 'setitem':
            k = M.to_int(a[0])
            if not ctx.branch(z3.And(k >= 0, k < self.n)):
                raise PyRaise(IndexError('list assignment index out of range'))
            return None
        return NotImplemented


class Clock(SExt):
    """a time"""
    pyclass = float

    def sx(self, it, op, *a):
        if op in ('binop', 'rbinop'):
            return Clock()
        return NotImplemented


class World:
    def __init__(self):
        self.error = self.how = None

    def current(self):
        return self.stms.last


def u_parse(ctx):
    from pyvc.interp import stored_names
    it, calc = setup(ctx)
    del it.contracts[Engine.parse]
    w = World()
    w.flags = Flags(ctx)
    n = ctx.int('parsers')
    ctx.assume(n >= 0)
    base = SBase('parsers', n, lambda c, k: Parser(w))
    base.mk_alias = False
    calc.parsers = ctx.alloc(SList.of(base))
    it.while_specs.append(lambda it_, node, fr: Walk(w, stored_names(node.body)))
    it.loop_specs.insert(0, lambda it_, node, fr, seq: Try(w) if isinstance(seq, SList) and len(seq.chunks) == 1 and seq.chunks[0][1] is base else None)
    import time
    it.overrides[time.perf_counter] = lambda it_: Clock()
    L = it.L
    M_sub = it.M
    st, r = run(it, Engine.parse, calc, SSlice(E, z3.IntVal(0), L), w.flags)
    if st == 'raise':
        if not isinstance(r, ParsingException):
            ctx.prove('parse:other-exceptions-are-a-parser-s', isinstance(r, KeyError), repr(r))
            ctx.cover('a parser crashed')
            return
        ctx.prove('parse:error-has-statements', isinstance(r.statements, Stmts), repr(r.statements))
        end = spans(ctx, r.statements, z3.IntVal(0))
        ctx.prove('parse:error-items-begin-the-text', end is not None, repr(pieces_of(r.statements)))
        if end is not None:
            ctx.prove('parse:error-next-is-what-follows', is_rest(ctx, r.next, end, L), repr(r.next))
        if flag(ctx, w.flags, 'ignore_terminators'):
            ctx.prove('parse:error-one-statement', r.statements.single)
        ctx.cover('error')
        return
    ok = isinstance(r, tuple) and len(r) == 3 and isinstance(r[0], (Stmts, list)) and isinstance(r[2], dict)
    ctx.prove('parse:returns-statements-length-flags', ok, repr(r))
    if not ok:
        return
    s, n, rf = r
    n = M.to_int(n)
    ctx.prove('parse:length-inside-the-text', z3.And(n >= 0, n <= L))
    if flag(ctx, w.flags, 'ignore_terminators'):
        ctx.prove('parse:one-statement', s.single)
    times = rf.get('times')
    ctx.prove('parse:a-time-for-each-statement', isinstance(times, Times) and ctx.entails(times.n >= s.count))
    if 'end' in rf:
        ctx.prove('parse:ended-by-a-parser', w.how is not None and {k: v for k, v in rf.items() if k != 'times'} == w.how[0], repr(rf))
        if w.how is not None:
            sym, item = w.how[2](), w.how[3]
            end = z3.simplify(n + (len(sym) if item else 0))
            ctx.prove('parse:ended:items-are-the-text', covers(ctx, s, z3.IntVal(0), end), repr((pieces_of(s), n)))
            ctx.prove('parse:ended:at-the-symbol', starts_with(ctx, n, sym))
        ctx.cover('ended')
        return
    ctx.prove('parse:only-times', set(rf) == {'times'}, repr(rf))
    ctx.prove('parse:all-of-the-text', n == L)
    ctx.prove('parse:items-are-the-text', covers(ctx, s, z3.IntVal(0), L), repr(pieces_of(s)))
    ctx.cover('all of the text')


class Place(LoopSpec):
    """find_pos: the position is where the items seen so far end"""

    def __init__(self, w, outer):
        self.w, self.outer = w, outer

    def init(self, it, fr):
        w = self.w
        self.start = w.pos
        # the position is the only number carried
        self.nm = [nm for nm in self.stored if isinstance(fr.locals.get(nm), (int, SInt))]
        ok = len([nm for nm in self.nm if it.ctx.entails(M.to_int(fr.locals[nm]) == w.pos)]) >= 1
        it.ctx.prove('find_pos:loop:starts-at-the-position', ok)
        if not ok:
            raise PathDone()
        self.nm = [nm for nm in self.nm if it.ctx.entails(M.to_int(fr.locals[nm]) == w.pos)][0]

    def havoc(self, it, fr, k):
        ctx, w = it.ctx, self.w
        t = ctx.int('pos')
        ctx.assume(z3.And(t >= self.start, t <= w.k))
        self.set(ctx, fr, t)
        w.pos = t

    def set(self, ctx, fr, t):
        fr.locals[self.nm] = SInt(t)
        for nm in self.stored:
            if isinstance(fr.locals.get(nm), UnknownVal):
                fr.locals[nm] = None if ctx.choose(2, 'earlier item') == 0 else SOpaque('earlier item', Item, {'truncated': SBool(ctx.bool('truncated')), 'text': SomeText()})

    def exit(self, it, fr, n):
        self.havoc(it, fr, n)
        if self.outer:
            it.ctx.assume(self.w.pos == self.w.k)

    def step(self, it, fr, k):
        ctx, w = it.ctx, self.w
        ctx.prove('find_pos:loop:position-is-where-the-items-end', M.to_int(fr.locals[self.nm]) == w.pos)


def u_find_pos(ctx):
    from pyvc.interp import stored_names
    it, calc = setup(ctx)
    del it.contracts[X.find_pos]
    w = World()
    L = it.L
    lo = ctx.int('start of the text')
    ctx.assume(z3.And(lo >= 0, lo <= L))
    w.k = ctx.int('where the items end')
    ctx.assume(z3.And(w.k >= 0, lo + w.k <= L))
    w.pos = z3.IntVal(0)

    def mk_item(c, j):
        m = c.int('length of an item')
        c.assume(z3.And(m >= 0, w.pos + m <= w.k))
        x = SOpaque('item', Item, {'text': SSlice(E, z3.simplify(lo + w.pos), z3.simplify(lo + w.pos + m)), 'truncated': SBool(c.bool('truncated'))})
        w.pos = z3.simplify(w.pos + m)
        return x

    class Row(SExt):
        pyclass = list

        def sx(self, it_, op, *a):
            if op == 'symiter':
                n = ctx.int('items of a statement')
                ctx.assume(n >= 0)
                return n, lambda j: mk_item(ctx, j)
            return NotImplemented

    class Rows(SExt):
        pyclass = list

        def sx(self, it_, op, *a):
            if op == 'symiter':
                n = ctx.int('statements')
                ctx.assume(n >= 0)
                return n, lambda j: Row()
            return NotImplemented

    def spec(it_, node, fr, seq):
        if isinstance(seq, (Row, Rows)):
            s = Place(w, isinstance(seq, Rows))
            s.stored = stored_names(node.body) | stored_names([node.target])
            return s
        return None
    it.loop_specs.insert(0, spec)

    def say(it_, *a, **kw):
        ctx.prove('find_pos:prints-nothing', False)
        return None
    it.overrides[print] = say
    err = ctx.alloc(ParsingException.__new__(ParsingException))
    err.message, err.next, err.truncated = 'message', None if ctx.choose(2, 'next') == 0 else SSlice(E, z3.simplify(lo + w.k), L), False
    st, r = run(it, X.find_pos, err, SSlice(E, lo, L), Rows())
    ctx.prove('find_pos:answers', st == 'ok', repr(r))
    if st == 'ok':
        ctx.prove('find_pos:where-the-items-end', M.to_int(r) == w.k)
        ctx.cover('answer')


def u_registered(ctx):
    """every parser an installation can have is under contract"""
    known = set(LEAVES + NESTED)
    n = 0
    calcs = [ModularCalculator(p) for p in ModularCalculator().preset_list]
    for name in sorted(calcs[0].feature_list):
        c = ModularCalculator()
        try:
            c.install_features([name])
        except CalculatorException:
            pass
        calcs.append(c)
    for c in calcs:
        for p in c.parsers:
            n += 1
            ctx.prove('registered:%s:under-contract' % p['name'], p['ref'] in known, repr(p))
    ctx.prove('registered:a-calculator', n >= 1)
    ctx.cover('parsers')


UNITS = [(f.__name__, (lambda ctx, f=f: u_leaf(ctx, f)), {'max_paths': 20000}) for f in LEAVES]
UNITS += [(f.__name__, (lambda ctx, f=f: u_nested(ctx, f)), {'max_paths': 20000}) for f in NESTED]
UNITS += [('Engine.parse', u_parse, {'max_paths': 20000}), ('find_pos', u_find_pos, {'max_paths': 20000}), ('registered parsers', u_registered)]
UNITS += c05x.UNITS


# ------------------------------------------------------------ bounded search on the running code
def nested_trouble(items, parsed=True):
    for x in items:
        if parsed and x.text == '':
            return 'an empty %s' % type(x).__name__
        if hasattr(x, 'items'):
            t = items_text(x.items)
            if t != x.text:
                return '%s is %r but its items are %r' % (type(x).__name__, x.text, t)
            m = nested_trouble(x.items, parsed)
            if m:
                return m


def k_parse(text, preset='Computing'):
    c = concrete.calc(preset)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            r = c.calculate(text, {'parse_only': True})
            stms, err = [x.items for x in r.results], None
        except ParsingException as e:
            stms, err = e.statements, e
            try:
                pos = e.find_pos(text)
            except Exception as x:
                return 'the position of the error is not found: %s' % str(x)[:150]
        except Exception as e:
            return 'parsing raises %r' % e
    if out.getvalue():
        return 'parsing prints %r' % out.getvalue()[:150]
    t = ''.join(items_text(s) for s in stms)
    if err is None:
        if t != text:
            return 'the items are %r' % t
        if [x.expression for x in r.results] != [items_text(s) for s in stms]:
            return 'the statements are %r' % [x.expression for x in r.results]
    elif t != text[:pos]:
        return 'the error (%s) is at %d but its items are %r' % (err.message[:80], pos, t)
    return nested_trouble([i for s in stms for i in s])


SETUP = ["a = 5", "b = 2.5 meters", "abc = 'xyz'", "f = {PARAM1 + 1}", "g = {1 / (PARAM1 - 1)}", "h = {lcm(PARAM1, PARAM2)}"]


def k_execute(text, preset='Computing'):
    c = concrete.calc(preset)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for s in SETUP:
            try:
                c.calculate(s)
            except CalculatorException:
                pass
        out.truncate(0)
        out.seek(0)
        try:
            c.calculate(text)
            return None
        except ExecutionException as e:
            stms, err = e.statements, e
            try:
                pos = e.find_pos(text)
            except Exception as x:
                return 'the position of the error (%s) is not found: %s' % (e.message[:80], str(x)[:150])
        except ParsingException:
            return None
        except Exception as e:
            return 'raises %r' % e
    if out.getvalue():
        return 'looking for the error (%s) prints %r' % (err.message[:80], out.getvalue()[:150])
    t = ''.join(items_text(s) for s in stms)
    if t != text[:pos]:
        return 'the error (%s) is at %d but its items are %r' % (err.message[:80], pos, t)
    m = nested_trouble([i for s in stms for i in s], False)
    if m:
        return 'in the items of the error (%s): %s' % (err.message[:80], m)


KINDS = {'parse': k_parse, 'execute': k_execute}

TOK = ['1', '2.5', '0x1F', '0b11', '5z3', '1E5', '10%', 'a', 'b', 'PARAM1', 'abc', '+', '-', '*', '/', '^', '(', ')', '[', ']', '{', '}', ',', '..', ' step ', '"', '\'', '\'x\'', '"y z"', ' ', '  ', '\t', '\n', '#',
       '# note', '=', '+=', '==', '<', 'and ', 'or ', 'not ', 'true', 'false', 'then ', 'else ', 'meters', 'metres/second', 'km', 'to ', 'length(', 'sum(', 'round(', 'now()', 'lcm(', '@', '@f(', '@g(1', '@h(', 'pi', '&', '~', '<<', '!', ';',
       ':', '.', '$', 'é', '\\', '\\\'', '-5', 'metric ', 'as ', 'hex', 'İ', '\r', '\x0b', '\u00a0', '\u2028', '²', '٣', '0o17', '1e', '1e-', '0x', '%', 'E', '_', 'a1', 'Z', 'ſ']
GOOD = ["length('abc')", "sum([1,2,3])", "(1 + 2) * 3", "f = {PARAM1 + 1}\n@f(2)", "[1..5 step 2]", "a = 5 meters to feet # note", "true then 1 else 2", "round(1.5, 1)", "'it\\'s'", '"x\\"y"', "lcm(4, (6 + [1,2]))", "[[1,2],[3]]",
        "0x1F as hex", "{1\n2}", "@a(1,)", "5 m^2 / s", "'a' + \"b\"", "1\n\n\n2", "# only", "[ 1 , 2 , 3 ]", "( ( 1 ) )", "sum( [1] )", "@f( 2 )", "[1 .. 3]", "5%", "-5", "2 ^ -1", "x = y = 3", "1.5E-3 km", "{ @f( PARAM1 ) }"]
BAD = ["lcm(1, 1/0)", "[1, 2, nosuch]", "(1 + (2 * (3 / 0)))", "@g(1)", "@nosuch(1)", "5 meters + 3 seconds", "1 2", "nosuch + 1", "not 5", "element([1], 5)", "sum([1/0, 2])", "[1..'x']", "[5 .. 1 step 1]", "{1/0}", "@f('x' * 2)",
       "round(,, 1/0)", "1 + (2, 3)", "a = b = nosuch", "true then 1/0 else 2", "sum(1)", "lcm(1,,nosuch)", "@f(,nosuch)", "1\n2\n3 / 0\n4", "1 / 0 # why", "( 1 / 0 )", "[ 1 / 0 ]", "f( 1 / 0 , 2 )", "  1 +  nosuch", "lcm( 1 , (1 / 0) )",
       "[1..5 step, 1/0]", "[1..2 step,1..2 step , nosuch]", "[5..1 step, 2, 'x' * 2]", "true then 1 to 5 else 2", "true then 1 (2) else 3", "true then 1", "1 then", "true then true (true or false) [4]"]
# installations by hand: without multiplication by juxtaposition nothing joins two neighbours
BARE = ['structure.operators', 'boolean.booleans', 'structure.innerexpressions', 'numerical.decimalnumbers', 'nonfunctional.space', 'arrays.arrays', 'strings.strings']
BARE_BAD = ["true then true (true or false) [4]", "true then false (not false) (false or true)", "true then 1 [2] 3", "true true", "1 'x' true", "true then 'a' 'b' 'c'", "(true then true [1] 2)", "[1, true then true (true) 2 ]", "[ 1 .. 3 step, true (true) ]",
            "not (true [1])", "true (true) then 1 else 2", "1 [ 1 , 2 true ]"]
PRESETS = ['Computing', 'Computing', 'Computing', 'Scientific', 'Advanced', 'Basic']


def rand_call(rng, d=0):
    """a long call or array in which a later element fails"""
    n = rng.randint(1, 7)
    bad = rng.randrange(n)
    parts = []
    for i in range(n):
        x = rng.choice(['1/0', 'nosuch', ' nosuch + 1 ', '( 1 / 0 )', '1 2', 'lcm( 1, 1 / 0)', rand_call(rng, d + 1) if d < 3 else '1/0']) if i == bad else rng.choice(['1', ' 2 ', '3 + 4', 'a', '[1, 2]', '( 5 )', 'lcm(2 , 3)', '1 .. 3', ' 1 .. 5 step 2 ', ''])
        if i != bad and x.count('..') and d % 2:
            x = '7'
        parts.append(x)
    o, c = rng.choice([('[', ']'), ('lcm(', ')'), ('@h( ', ' )'), ('[ ', ' ]'), ('sum(', ')')])
    return o + rng.choice([',', ', ', ' , ']).join(parts) + c


def rand_text(rng):
    x = rng.random()
    if x < .15:
        return rng.choice(['', '1 + ', '2\n', ' ']) + rand_call(rng) + rng.choice(['', ' + 1', ' # c'])
    if x < 0.45:
        return ''.join(rng.choice(TOK) for _ in range(rng.randint(1, 10)))
    pool = GOOD if x < .65 else BAD
    s = rng.choice([' ', '\n', ' + ', ', ']).join(rng.choice(pool + GOOD[:4]) for _ in range(rng.randint(1, 3)))
    for _ in range(rng.randint(0, 3)):
        i, y = rng.randint(0, len(s)), rng.random()
        s = s[:i] + s[i + 1:] if y < 0.4 else s[:i] + rng.choice(TOK) + s[i:] if y < 0.8 else s[:i]
        if rng.random() < .15:
            s = rng.choice(['(%s)', '[%s]', '{%s}', 'lcm(%s)', 'lcm(1, %s)', '[1, %s]', '@f(%s)', '@f( ,%s', '[1 .. %s]', '[%s .. 3 step 2]', '[1 .. 3 step %s]']) % s
    return s


def search(S):
    rng = S.rng
    for t in GOOD + BAD + TOK:
        for p in ('Computing', 'Advanced', 'Basic'):
            S.run('parse', t, p)
            S.run('execute', t, p)
    for t in BARE_BAD:
        for w in ('%s', ' %s', '(%s)', '[1, %s]', 'true and (%s)', '1\n%s'):
            S.run('execute', w % t, BARE)
    for t in BAD:
        for w in ('(%s)', '[%s]', 'lcm(%s)', 'lcm(1,%s)', 'lcm( 1 , 2 ,%s , 3)', '[1, %s]', '@f(%s)', '1 + %s', '1\n%s', '[1 .. %s]', '( 1 + ( %s', '((%s))', ' %s ', '[[ %s ]]', 'lcm(2, [%s])'):
            if S.time_left():
                S.run('execute', w % t)
                S.run('parse', w % t)
    while S.time_left():
        t = rand_text(rng)
        k = rng.random()
        if k < .55:
            S.run('parse', t, rng.choice(PRESETS))
        elif k < .95:
            S.run('execute', t, rng.choice(PRESETS[:4]))
        else:
            S.run('execute', ' '.join(rng.choice(['true', 'false', '(true)', '[1]', '2', "'x'", 'then', 'else', 'and', 'or', 'not', '[ 1 , 2 ]', '(', ')', '[1..3 step,', ']', ',', ' ']) for _ in range(rng.randint(2, 8))), BARE)
