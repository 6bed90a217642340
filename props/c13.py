"""C13: number bases and notations."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc import rat
from pyvc.rat import Rat, term, Pow
from pyvc.text import Txt, Seg, Rep, Code
from modularcalculator.objects.number import Number
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.features.numerical import bases, binarynumbers, octalnumbers, hexadecimalnumbers, arbitrarybasenumbers, expnumbers, percentagenumbers, decimalnumbers
from modularcalculator.features.numerical.bases import BasesFeature
from modularcalculator.features.numerical.numericalrepresentation import NumericalRepresentationFeature

ASSUMPTIONS = [rat.ASSUMPTION, 'powers of the base obey b^0 = 1, b^1 = b, b^(k+1) = b * b^k, b^k > 0',
               'a text that matches a number pattern has the shape the pattern describes (sign, prefix, digits, at most one dot between digits)']
TRUSTED = ['re.fullmatch, str.find / startswith / zfill / slices as specified by Python', 'decimal formatting with E presentation (dec_to_exp): bounded check only']


def dv(c):
    """the value of a digit character: 0-9, A-Z or a-z"""
    return z3.If(z3.And(c >= 48, c <= 57), c - 48, z3.If(z3.And(c >= 65, c <= 90), c - 55, z3.If(z3.And(c >= 97, c <= 122), c - 87, z3.IntVal(99))))


def digit_text(ctx, name='digits', alnum=True):
    """digits with at most one dot between digits"""
    C = z3.Function(name + '.chr', z3.IntSort(), z3.IntSort())
    n, dot = ctx.int(name + '.n'), ctx.int(name + '.dot')
    ctx.assume(z3.And(n >= 1, z3.Or(dot == -1, z3.And(dot >= 1, dot <= n - 2))))
    ctx.inputs[name + '.n'] = n
    ctx.inputs[name + '.dot'] = dot
    g = Seg(name, C, z3.IntVal(0), n, {'.': dot})
    g.dot = dot

    def at(i):
        """regex facts about position i"""
        i = z3.simplify(i)
        ctx.assume((C(i) == 46) == (i == dot))
        c = C(i)
        ctx.assume(z3.Implies(z3.And(i != dot, i >= 0, i < n), z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))))
    g.at = at
    at(z3.IntVal(0))
    return g


class SumDigits(LoopSpec):
    """invariant after k characters: the number is the weighted sum of the first k digits and the next weight is known"""

    def __init__(self, g, b):
        self.g, self.b = g, b
        self.S = z3.Function('S', z3.IntSort(), z3.RealSort())

    def place(self, i):
        d = self.g.dot
        return z3.If(d == -1, self.g.n - 1 - i, z3.If(i < d, d - 1 - i, d - i))

    def upto(self, k):
        return self.S(z3.simplify(k))

    def facts(self, it, k):
        """S(0) = 0, S(k+1) = S(k) + digit(k) * b^place(k)"""
        c = self.g.C(k)
        w = Pow(self.b, z3.ToReal(self.place(k)))
        it.ctx.assume(self.S(z3.IntVal(0)) == 0)
        it.ctx.assume(self.S(k + 1) == self.S(k) + z3.If(k == self.g.dot, z3.RealVal(0), z3.ToReal(dv(c)) * w))

    def init(self, it, fr):
        self.nums = {nm for nm, v in fr.locals.items() if isinstance(v, (Rat, Number))}
        self.ints = {nm: M.to_int(v) for nm, v in fr.locals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}
        it.ctx.assume(self.S(z3.IntVal(0)) == 0)
        for nm in self.carried:
            if nm in self.nums:
                it.ctx.prove('loop:sum-starts-at-zero', term(fr.locals[nm]) == 0)
            elif nm in self.ints:
                it.ctx.prove('loop:first-weight', self.ints[nm] == self.place(z3.IntVal(0)))

    def head(self, k):
        d = self.g.dot
        return z3.If(z3.Or(d == -1, k <= d), self.place(z3.IntVal(0)) - k, self.place(z3.IntVal(0)) - k + 1)

    def havoc(self, it, fr, k):
        self.g.at(k)
        self.facts(it, k)
        for nm in self.carried:
            if nm in self.nums:
                fr.locals[nm] = Rat(self.S(k))
            elif nm in self.ints:
                fr.locals[nm] = SInt(z3.simplify(self.head(k)))
        self.k = k

    def step(self, it, fr, k):
        ctx = it.ctx
        ctx.prove('loop:only-legal-digits-accepted', z3.Or(k == self.g.dot, z3.And(dv(self.g.C(k)) >= 0, z3.ToReal(dv(self.g.C(k))) < self.b)))
        for nm in self.carried:
            if nm in self.nums:
                t = term(fr.locals[nm])
                ctx.prove('loop:digit-added-with-its-weight', t is not None and t == self.S(k + 1))
            elif nm in self.ints:
                ctx.prove('loop:next-weight', M.to_int(fr.locals[nm]) == self.head(k + 1))

    def exit(self, it, fr, n):
        for nm in self.carried:
            if nm in self.nums:
                fr.locals[nm] = Rat(self.S(z3.simplify(n)))
        self.done = True

    def may_write(self, obj):
        return False


def sym_base(ctx, it):
    b = ctx.int('base')
    ctx.assume(z3.And(b >= 2, b <= 36))
    ctx.inputs['base'] = b
    return b


def powers(ctx, it, b, *ks):
    """laws of powers of the base at the given exponents"""
    br = z3.ToReal(b)
    for k in ks:
        k = z3.simplify(z3.ToReal(k) if k.sort() == z3.IntSort() else k)
        p, p1 = Pow(br, k), Pow(br, z3.simplify(k + 1))
        ctx.assume(z3.And(p > 0, p1 == br * p, p1 > 0))
        ctx.assume(z3.Implies(k == 0, z3.And(p == 1, p1 == br)))
        ctx.assume(z3.Implies(k == -1, z3.And(p1 == 1)))


def u_base_to_dec(ctx):
    it = Interp(ctx)
    rat.install(it)
    legal_base = ctx.choose(2, 'base in 2..36') == 0
    if legal_base:
        b = sym_base(ctx, it)
    else:
        b = ctx.int('base')
        ctx.assume(z3.Or(b < 2, b > 36))
    g = digit_text(ctx)
    neg = ctx.choose(2, 'sign') == 1
    s = Txt(['-', g] if neg else [g])
    br = z3.ToReal(b)
    spec = SumDigits(g, br)
    powers(ctx, it, b, z3.IntVal(0))
    spec.facts(it, z3.IntVal(0))

    def loops(it_, node, fr, seq):
        from pyvc.interp import stored_names
        spec.carried = stored_names(node.body)
        return spec
    it.loop_specs.append(loops)
    calc = mk_calc(ctx)
    st, r = run(it, BasesFeature.base_to_dec, calc, s, SInt(b))
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(r, CalculatorException), repr(r))
        if legal_base:
            k = getattr(spec, 'k', z3.IntVal(0))
            c = g.C(k)
            ctx.prove('raise:only-for-an-illegal-digit', z3.And(k != g.dot, z3.ToReal(dv(c)) >= br))
        ctx.cover('illegal')
        return
    ctx.prove('base-outside-2-36-refused', legal_base)
    t = term(r)
    ctx.prove('result-is-a-number', t is not None)
    if t is None:
        return
    want = spec.upto(g.n)
    if not hasattr(spec, 'done'):       # returned without the loop
        ctx.assume(z3.Implies(g.n == 1, want == spec.S(z3.IntVal(1))))
    ctx.prove('positional-value', t == (-want if neg else want))
    ctx.prove('plain-number', rat.cast_of(r) is None)
    ctx.cover('value')


# ---------------------------------------------------------------- writing in a base
class Out(SExt):
    """the text written so far: digits at places p0, p0-1, ...; V is their weighted sum"""
    pyclass = str

    def __init__(self, w, **kw):
        self.w = w
        self.__dict__.update(kw)

    def but(self, **kw):
        d = dict(self.__dict__)
        w = d.pop('w')
        d.update(kw)
        return Out(w, **d)

    # fields: n digits written, V their value, dot (z3 Bool: a dot was written), I value before the dot, stripped (bool), bare (bool: trailing dot removed), neg
    def sx(self, it, op, *a):
        ctx, w = it.ctx, self.w
        if op == 'binop' and a[0] == 'Add':
            o = a[1]
            if o == '.':
                ctx.prove('write:dot-after-the-units-digit', z3.And(self.n == w.p0 + 1, z3.Not(self.dot)))
                return self.but(dot=z3.BoolVal(True), I=self.V)
            if isinstance(o, str) and len(o) == 1:
                o = Code(z3.IntVal(ord(o)))
            if isinstance(o, Code):
                p = z3.simplify(w.p0 - self.n)
                ctx.prove('write:fraction-digits-follow-the-dot', z3.Or(p >= 0, self.dot))
                ctx.prove('write:a-digit-of-the-base', z3.And(dv(o.t) >= 0, dv(o.t) < w.b))
                ctx.prove('write:upper-case-digits', z3.Or(o.t <= 57, o.t >= 65))
                ctx.prove('write:no-leading-zero', z3.Or(self.n > 0, w.p0 == 0, dv(o.t) > 0))
                W = Pow(z3.ToReal(w.b), z3.simplify(z3.ToReal(p)))
                return self.but(n=z3.simplify(self.n + 1), V=self.V + z3.ToReal(dv(o.t)) * W)
        if op == 'rbinop' and a[0] == 'Add' and a[1] == '-':
            ctx.prove('write:one-sign', not self.neg)
            return self.but(neg=True)
        if op == 'call':
            name, args = a[0], a[1]
            if name == 'find' and args == ['.']:
                r = ctx.int('dotpos')
                d = self.has_dot()
                ctx.assume(z3.If(d, r >= 1, r == -1))
                return SInt(r)
            if name == 'rstrip' and args == ['0']:
                ctx.prove('write:zeros-stripped-only-from-a-fraction', self.has_dot())
                return self.but(stripped=True)
            if name == 'rstrip' and args == ['.']:
                if not self.stripped:
                    ctx.prove('write:dot-removed-only-without-fraction', z3.Implies(self.dot, self.n > w.p0 + 1))
                    return self
                return self.but(bare=True)
            if name == 'endswith' and args == ['.']:
                if self.stripped and not self.bare:
                    return SBool(z3.And(self.dot, self.V == self.I))
        if op == 'contains' and a[0] == '.':
            return SBool(self.has_dot())
        if op == 'getitem' and isinstance(a[0], slice) and a[0].start in (None, 0) and a[0].stop == -1 and self.stripped and not self.bare:
            ctx.prove('write:only-a-dot-is-cut-off', z3.And(self.dot, self.V == self.I))
            return self.but(bare=True)
        if op in ('compare', 'rcompare') and a[0] in ('Eq', 'NotEq') and a[1] == '0' and not self.neg:
            # no leading zeros, so the text is '0' iff it has one zero digit and no dot
            z = z3.And(z3.Not(self.has_dot()), w.p0 == 0, self.I_val() == 0)
            return SBool(z if a[0] == 'Eq' else z3.Not(z))
        if op == 'truth':
            return self.n > 0
        return NotImplemented

    def I_val(self):
        return z3.If(self.dot, self.I, self.V)

    def has_dot(self):
        return z3.And(self.dot, self.V != self.I) if self.bare else self.dot


class World:
    pass


class Magnitude(LoopSpec):
    """b^k <= |val| (or k = 0), and b^k grows past every number"""

    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        self.rats = {nm for nm, v in fr.locals.items() if isinstance(v, Rat)}
        self.ints = {nm: M.to_int(v) for nm, v in fr.locals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool) and nm in self.carried}
        it.ctx.prove('places:start-at-0', len(self.ints) == 1 and z3.And(*[t == 0 for t in self.ints.values()]))

    def inv(self, k):
        p = Pow(z3.ToReal(self.w.b), z3.ToReal(k))
        return z3.And(z3.Or(k == 0, p <= self.w.a), p >= z3.ToReal(k) + 1)

    def havoc(self, it, fr, k):
        powers(it.ctx, it, self.w.b, k)
        it.ctx.assume(self.inv(k))
        for nm in self.ints:
            fr.locals[nm] = SInt(k)

    def step(self, it, fr, k):
        it.ctx.prove('places:highest-place-still-fits', self.inv(z3.simplify(k + 1)))
        it.ctx.prove('places:search-ends (b^k > k)', z3.ToReal(k) + 1 <= self.w.a)
        for nm in self.ints:
            it.ctx.prove('places:counts', M.to_int(fr.locals[nm]) == k + 1)

    def after(self, it, fr, k):
        self.w.p0 = k
        it.ctx.prove('places:highest-place-found', Pow(z3.ToReal(self.w.b), z3.ToReal(k) + 1) > self.w.a)

    def may_write(self, obj):
        return False


class Digits(LoopSpec):
    """rest + value written = |val|;  0 <= rest < b^(place + 1)"""

    def __init__(self, w):
        self.w = w

    def init(self, it, fr):
        w, ctx = self.w, it.ctx
        if not hasattr(w, 'p0'):
            raise Undecided('digits before the highest place is known')
        loc = {nm: v for nm, v in fr.locals.items() if nm in self.carried}
        self.rest = [nm for nm, v in loc.items() if isinstance(v, Rat)]
        self.text = [nm for nm, v in loc.items() if v == '']
        ints = [nm for nm, v in loc.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
        # (a name that is not bound before the loop does not carry anything)
        self.place = [nm for nm in ints if ctx.entails(M.to_int(loc[nm]) == w.p0) and isinstance(loc[nm], SInt)]
        self.count = [nm for nm in ints if nm not in self.place]
        if len(self.rest) != 1 or len(self.text) != 1 or len(self.place) != 1 or len(self.count) > 1:
            raise Undecided('shape of the digit loop')
        ctx.prove('digits:rest-starts-as-the-number', term(loc[self.rest[0]]) == w.a)
        for nm in self.count:
            ctx.prove('digits:no-fraction-digits-yet', M.to_int(loc[nm]) == 0)

    def inv(self, q, r, V, I, dot):
        w = self.w
        return z3.And(r >= 0, r < Pow(z3.ToReal(w.b), z3.simplify(z3.ToReal(q) + 1)), r + V == w.a, V >= I, I >= 0, V >= 0, dot == (q < -1), z3.Implies(q >= -1, I == 0), z3.Implies(q == w.p0, V == 0),
                      z3.Implies(z3.And(w.p0 > 0, q < w.p0), V > 0), z3.Implies(z3.And(w.p0 > 0, dot), I > 0))

    def havoc(self, it, fr, k):
        w, ctx = self.w, it.ctx
        q = z3.simplify(w.p0 - k)
        powers(ctx, it, w.b, q, z3.simplify(q + 1))
        r, V, I, dot = ctx.real('rest'), ctx.real('V'), ctx.real('I'), ctx.bool('dot')
        ctx.assume(self.inv(q, r, V, I, dot))
        places = z3.If(q < -1, -1 - q, z3.IntVal(0))
        ctx.assume(places <= w.prec)
        w.first = w.p0
        self.old = dict(q=q, r=r, places=places)
        fr.locals[self.rest[0]] = Rat(r)
        fr.locals[self.place[0]] = SInt(q)
        for nm in self.count:
            fr.locals[nm] = SInt(z3.simplify(places))
        fr.locals[self.text[0]] = w.out = Out(w, n=k, V=V, dot=dot, I=I, stripped=False, bare=False, neg=False)
        w.q, w.rest = q, r

    def step(self, it, fr, k):
        ctx, w = it.ctx, self.w
        o = fr.locals[self.text[0]]
        q1 = z3.simplify(self.old['q'] - 1)
        r1 = term(fr.locals[self.rest[0]])
        ctx.prove('digits:one-digit-written', isinstance(o, Out) and not o.stripped and not o.neg and z3.simplify(o.n == k + 1))
        if not isinstance(o, Out) or r1 is None:
            return
        ctx.prove('digits:next-place', M.to_int(fr.locals[self.place[0]]) == q1)
        ctx.prove('digits:rest-plus-written-is-the-number', r1 + o.V == w.a)
        ctx.prove('digits:rest-below-the-last-place', z3.And(r1 >= 0, r1 < Pow(z3.ToReal(w.b), z3.simplify(z3.ToReal(q1) + 1))))
        ctx.prove('digits:written-part', z3.And(o.V >= o.I, o.I >= 0, o.dot == (q1 < -1), z3.Implies(q1 >= -1, o.I == 0)))
        ctx.prove('digits:first-digit-is-not-zero', z3.And(z3.Implies(w.p0 > 0, o.V > 0), z3.Implies(z3.And(w.p0 > 0, o.dot), o.I > 0)))
        for nm in self.count:
            ctx.prove('digits:counts-fraction-digits', M.to_int(fr.locals[nm]) == z3.If(q1 < -1, -1 - q1, z3.IntVal(0)))
        ctx.prove('digits:ends (places go down, at most precision fraction digits)', z3.Implies(q1 < -1, -1 - q1 <= w.prec))

    def may_write(self, obj):
        return False


def u_dec_to_base(ctx):
    it = Interp(ctx)
    rat.install(it)
    legal_base = ctx.choose(2, 'base in 2..36') == 0
    b = ctx.int('base')
    ctx.inputs['base'] = b
    ctx.assume(z3.And(b >= 2, b <= 36) if legal_base else z3.Or(b < 2, b > 36))
    cast = {'to_string': None}
    x = rat.rat(ctx, 'x')
    x.cast = cast
    w = World()
    w.b, w.x = b, x.t
    w.a = z3.If(x.t >= 0, x.t, -x.t)
    w.prec = ctx.int('number_prec')
    ctx.assume(w.prec >= 1)
    powers(ctx, it, b, z3.IntVal(0))

    def ipow(base, k, t):
        ctx.assume(t == Pow(base, k))
    it.ipow_hook = ipow

    def index(it_, s, i):
        t = M.to_int(i)
        ctx.prove('write:digit-exists', z3.And(t >= 0, t < len(s)))
        c = ctx.int('chr')
        for j, ch in enumerate(s):
            ctx.assume(z3.Implies(t == j, c == ord(ch)))
        return Code(c)
    it.const_str_index = index
    seen = []

    def whiles(it_, node, fr):
        from pyvc.interp import stored_names
        s = Digits(w) if seen else Magnitude(w)
        seen.append(s)
        s.carried = stored_names(node.body)
        return s
    it.while_specs.append(whiles)
    plain = SOpaque('decimal text')

    def to_string(it_, args, kw):
        v = args[0]
        ctx.prove('base-10:the-number-itself', term(v) is not None and term(v) == x.t)
        ctx.prove('base-10:without-its-own-representation (which may be the one being written)', rat.cast_of(v) is None)
        return plain
    it.rat_to_string = to_string
    calc = mk_calc(ctx, number_prec=SInt(w.prec))
    st, r = run(it, BasesFeature.dec_to_base, calc, x, SInt(b))
    if st == 'raise':
        ctx.prove('raise:only-for-a-bad-base', not legal_base and isinstance(r, CalculatorException), repr(r))
        ctx.cover('bad base')
        return
    ctx.prove('base-outside-2-36-refused', legal_base)
    ctx.prove('operand-unchanged', x.cast is cast)
    if r is plain:
        ctx.prove('decimal-text-only-for-base-10', b == 10)
        ctx.cover('base 10')
        return
    if r == '0':
        ctx.prove('zero', x.t == 0)
        ctx.cover('zero')
        return
    ctx.prove('digits-written', isinstance(r, Out))
    if not isinstance(r, Out):
        return
    W = Pow(z3.ToReal(b), z3.simplify(z3.ToReal(w.q) + 1))
    ctx.prove('result:value-truncated-towards-zero', z3.And(r.V <= w.a, w.a < r.V + W))
    ctx.prove('result:exact-unless-all-fraction-digits-are-used', z3.Or(r.V == w.a, z3.And(r.dot, w.q == -1 - w.prec)))
    ctx.prove('result:all-integer-digits', r.n >= w.p0 + 1)
    ctx.prove('result:no-trailing-zeros-or-dot', z3.Implies(r.dot, z3.BoolVal(r.stripped and r.bare)))
    ctx.prove('result:sign', z3.BoolVal(r.neg) == z3.And(x.t < 0, z3.Or(r.has_dot(), r.I_val() != 0)))
    ctx.cover('digits')


# ---------------------------------------------------------------- prefixes, widths
def u_remove_prefix(ctx):
    it = Interp(ctx)
    kind = ctx.choose(3, 'prefix')
    g = digit_text(ctx)
    neg = ctx.choose(2, 'sign') == 1
    if kind == 0:
        pre = prefix = ['0b', '0o', '0x'][ctx.choose(3, 'which')]
        if ctx.choose(2, 'upper-case') == 1:
            pre = pre.upper()
        parts = [pre]
    elif kind == 1:         # an arbitrary base, possibly with leading zeros
        C = z3.Function('base.chr', z3.IntSort(), z3.IntSort())
        n = ctx.int('base.n')
        ctx.assume(n >= 1)
        seg = Seg('base', C, z3.IntVal(0), n, {'.': z3.IntVal(-1), '-': z3.IntVal(-1)})
        parts = [seg, ['z', 'Z'][ctx.choose(2, 'upper-case')]]
        prefix = Txt([seg, 'z'])
        ctx.assume(C(0) != 45)
    else:                   # no prefix
        prefix, parts = '0b', []
        ctx.assume(z3.And(g.C(0) == 49))
    calc = mk_calc(ctx)
    st, r = run(it, BasesFeature.number_remove_prefix, calc, Txt((['-'] if neg else []) + parts + [g]), prefix)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('text', isinstance(r, Txt))
    if not isinstance(r, Txt):
        return
    want = Txt((['-'] if neg else []) + [g])
    ctx.prove('leaves-sign-and-digits', same_text(ctx, r, want), repr(r))
    ctx.cover('removed')


def same_text(ctx, a, b, fold=True):
    """same pieces (letters may differ in case)"""
    if not isinstance(a, Txt):
        a = Txt([a])
    pa = [p for p in a.pieces if isinstance(p, str) or not ctx.entails(p.n == 0)]
    pb = [p for p in b.pieces if isinstance(p, str) or not ctx.entails(p.n == 0)]
    if len(pa) != len(pb):
        return False
    for p, q in zip(pa, pb):
        if isinstance(p, str) or isinstance(q, str):
            if p != q:
                return False
        elif isinstance(p, Rep) or isinstance(q, Rep):
            if not (isinstance(p, Rep) and isinstance(q, Rep) and p.c == q.c and ctx.entails(p.n == q.n)):
                return False
        elif not (p.name == q.name and ctx.entails(z3.And(p.lo == q.lo, p.n == q.n)) and (fold or p.fold == q.fold)):
            return False
    return True


def u_add_prefix(ctx):
    it = Interp(ctx)
    g = digit_text(ctx)
    ctx.assume(g.C(0) != 45)
    neg = ctx.choose(2, 'sign') == 1
    st, r = run(it, BasesFeature.number_add_prefix, mk_calc(ctx), Txt((['-'] if neg else []) + [g]), '0b')
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('sign-prefix-digits', same_text(ctx, r, Txt((['-'] if neg else []) + ['0b', g]), False), repr(r))
    ctx.cover('added')


def u_width(ctx):
    """force_number_width writes zeros between the sign and the digits only; get_number_width counts the digits before the dot"""
    it = Interp(ctx)
    g = digit_text(ctx)
    ctx.assume(g.C(0) != 45)
    neg = ctx.choose(2, 'sign') == 1
    sign = ['-'] if neg else []
    calc = mk_calc(ctx)
    ni = z3.If(g.dot == -1, g.n, g.dot)
    if ctx.choose(2, 'which') == 0:
        wd = ctx.int('width')
        st, r = run(it, BasesFeature.force_number_width, calc, Txt(sign + [g]), SInt(wd))
        if st == 'raise':
            ctx.fail('no-exception', repr(r))
            return
        pad = Rep('0', z3.simplify(z3.If(wd > ni, wd - ni, z3.IntVal(0))))
        if ctx.branch(g.dot == -1):
            want = Txt(sign + [pad, g])
        else:
            want = Txt(sign + [pad, g.cut(z3.IntVal(0), g.dot), g.cut(g.dot, g.n - g.dot)])
        ctx.prove('zeros-between-sign-and-digits', same_text(ctx, r, want, False), '%r / %r' % (r, want))
    else:
        st, r = run(it, BasesFeature.get_number_width, calc, Txt(sign + ['0b', g]), '0b')
        if st == 'raise':
            ctx.fail('no-exception', repr(r))
            return
        ctx.prove('digits-before-the-dot', M.to_int(r) == ni)
    ctx.cover('width')


# ---------------------------------------------------------------- the representations
FORMS = {
    'binary': (binarynumbers.BinaryNumericalRepresentation, '0b', 2),
    'octal': (octalnumbers.OctalNumericalRepresentation, '0o', 8),
    'hexadecimal': (hexadecimalnumbers.HexadecimalNumericalRepresentation, '0x', 16),
}


class Match(SExt):
    def __init__(self, subj):
        self.subj = subj

    def sx(self, it, op, *a):
        if op == 'truth':
            return z3.BoolVal(True)
        if op == 'compare' and a[1] is None:
            return a[0] == 'NotEq'
        if op == 'call' and a[0] == 'group':
            return self.subj
        return NotImplemented


def shape(it, yes):
    def hook(it_, pat, name, subj):
        if name in ('fullmatch', 'match'):
            if not yes:
                return None
            return Match(subj)
        return NotImplemented
    it.re_hook = hook


def u_parse(form):
    cls, prefix, base = FORMS[form] if form in FORMS else (arbitrarybasenumbers.ArbitraryBaseNumericalRepresentation, None, None)

    def u(ctx):
        it = Interp(ctx)
        rat.install(it)
        g = digit_text(ctx)
        neg = ctx.choose(2, 'sign') == 1
        sign = ['-'] if neg else []
        if prefix:
            pre = [prefix, prefix.upper()][ctx.choose(2, 'case')]
            s = Txt(sign + [pre, g])
            bt = z3.IntVal(base)
        else:
            C = z3.Function('base.chr', z3.IntSort(), z3.IntSort())
            n = ctx.int('base.n')
            ctx.assume(n >= 1)
            ctx.assume(z3.And(C(0) >= 48, C(0) <= 57))
            bt = ctx.int('base')
            seg = Seg('base', C, z3.IntVal(0), n, {'.': z3.IntVal(-1), '-': z3.IntVal(-1), 'z': z3.IntVal(-1)}, ghost=bt)
            g.marks['z'] = ctx.int('z position')
            s = Txt(sign + [seg, ['z', 'Z'][ctx.choose(2, 'case')], g])
        ok = ctx.choose(2, 'is such a number') == 0
        shape(it, ok)
        val = rat.rat(ctx, 'value')
        seen = []

        def to_dec(it_, args, kw):
            ctx.prove('reads-sign-and-digits', isinstance(args[1], Txt) and same_text(ctx, args[1], Txt(sign + [g])), repr(args[1]))
            ctx.prove('reads-in-its-base', M.to_int(args[2]) == bt)
            seen.append(1)
            if not prefix and ctx.choose(2, 'refused') == 1:
                seen.append('refused')
                raise PyRaise(CalculatorException('Illegal digit'))
            return ctx.alloc(Rat(val.t))
        it.contracts[BasesFeature.base_to_dec] = to_dec
        st, r = run(it, cls.parse, mk_calc(ctx), s)
        if st == 'raise':
            ctx.fail('no-exception', repr(r))
            return
        if not ok or 'refused' in seen:
            ctx.prove('other-text-is-not-a-number-of-this-form', r is None)
            ctx.cover('not such a number')
            return
        t = term(r)
        ctx.prove('a-number', t is not None)
        if t is None:
            return
        ctx.prove('keeps-the-value-read', t == val.t and bool(seen))
        check_cast(ctx, it, cls, r, None if prefix else bt, base)
        ctx.cover('parsed')
    return u


def check_cast(ctx, it, cls, r, argbase, base):
    c = rat.cast_of(r)
    ctx.prove('prints-in-its-form', isinstance(c, dict) and c.get('to_string') is cls.to_string)
    if not isinstance(c, dict):
        return
    if argbase is not None:
        ar = c.get('args')
        ctx.prove('prints-in-its-base', isinstance(ar, list) and len(ar) == 1 and M.to_int(ar[0]) == argbase)
        ctx.prove('rounds-in-its-base', 'base' in c and M.to_int(c['base']) == argbase)
    elif base is not None:
        ctx.prove('rounds-in-its-base', c.get('base') == base)
        ctx.prove('no-extra-arguments', 'args' not in c)


def u_text(form):
    cls, prefix, base = FORMS[form] if form in FORMS else (arbitrarybasenumbers.ArbitraryBaseNumericalRepresentation, None, None)

    def u(ctx):
        it = Interp(ctx)
        rat.install(it)
        g = digit_text(ctx)
        ctx.assume(g.C(0) != 45)
        neg = ctx.choose(2, 'sign') == 1
        sign = ['-'] if neg else []
        x = rat.rat(ctx, 'x')
        b = base if base else [2, 7, 10, 36][ctx.choose(4, 'base')]

        def written(it_, args, kw):
            ctx.prove('writes-the-number', term(args[1]) is not None and term(args[1]) == x.t)
            ctx.prove('writes-in-its-base', args[2] == b)
            return Txt(sign + [g])
        it.contracts[BasesFeature.dec_to_base] = written
        if form == 'binary' and ctx.choose(2, 'width') == 1:
            x.width = SInt(ctx.int('width'))
            def force(it_, args, kw):
                ctx.prove('width-applied-to-the-digits', args[2] is x.width and same_text(ctx, args[1], Txt(sign + [g]), False))
                return args[1]
            it.contracts[BasesFeature.force_number_width] = force
        st, r = run(it, cls.to_string, mk_calc(ctx), x, *([] if base else [b]))
        if st == 'raise':
            ctx.fail('no-exception', repr(r))
            return
        ctx.prove('sign-prefix-digits', same_text(ctx, r, Txt(sign + [prefix or '%dz' % b, g]), False), repr(r))
        ctx.cover('written')
    return u


def classes():
    from pyvc.concrete import calc
    return dict(calc().number_types)


def u_convert(ctx):
    """changing the representation keeps the value and leaves the operand alone"""
    it = Interp(ctx)
    rat.install(it)
    types = classes()
    name = sorted(types)[ctx.choose(len(types), 'representation')]
    cls = types[name]
    if not hasattr(cls, 'convert_to'):
        ctx.cover('no conversion')
        return
    old = {'to_string': None}
    x = rat.rat(ctx, 'x')
    x.cast = old
    calc = mk_calc(ctx, number_types=types)
    how = ctx.choose(3, 'how')
    unit = [None, SOpaque('unit')][ctx.choose(2, 'unit')]
    fn = {'binary': binarynumbers.BinaryNumbersFeature.func_bin, 'octal': octalnumbers.OctalNumbersFeature.func_oct, 'hexadecimal': hexadecimalnumbers.HexadecimalNumbersFeature.func_hex}.get(name)
    if how == 0:
        st, r = run(it, cls.convert_to, calc, x)
    elif how == 1:
        st, r = run(it, NumericalRepresentationFeature.op_as, calc, [x, name], [unit, None], [None, None], {})
    elif fn is None:
        ctx.cover('no function')
        return
    else:
        st, r = run(it, fn, calc, [x], [unit], [None], {})
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    if how == 1:
        ctx.prove('keeps-unit', (r.unit is unit) if unit is not None else getattr(r, 'unit', None) is None)
    if how:
        r = r.value
    t = term(r)
    ctx.prove('a-number', t is not None)
    if t is None:
        return
    ctx.prove('keeps-the-value', t == x.t)
    ctx.prove('operand-unchanged', x.cast is old and r is not x)
    c = rat.cast_of(r)
    if name == 'decimal':
        ctx.prove('shown-in-decimal', c is None)
    else:
        ctx.prove('shown-in-the-new-form', isinstance(c, dict) and c.get('to_string') is cls.to_string and c.get('base', 10) == {'binary': 2, 'octal': 8, 'hexadecimal': 16}.get(name, 10))
        if name == 'percentage':
            ctx.prove('two-more-places', c.get('places_offset') == 2)
    ctx.cover('converted')


def u_percentage(ctx):
    """n% is n/100, and its text is 100 times the number with a % sign"""
    it = Interp(ctx)
    rat.install(it)
    cls = percentagenumbers.PercentageNumericalRepresentation
    x = rat.rat(ctx, 'x')
    calc = mk_calc(ctx)
    if ctx.choose(2, 'direction') == 0:
        g = digit_text(ctx)
        g.marks['%'] = z3.IntVal(-1)
        sign = ['-'] if ctx.choose(2, 'sign') == 1 else []
        ok = ctx.choose(2, 'is such a number') == 0
        shape(it, ok)

        def number(it_, args, kw):
            if len(args) == 1 and isinstance(args[0], Txt):
                ctx.prove('reads-the-number-before-the-sign', same_text(ctx, args[0], Txt(sign + [g])), repr(args[0]))
                return Rat(x.t)
            return rat.construct(it_, args, kw)
        it.contracts[Number] = number
        st, r = run(it, cls.parse, calc, Txt(sign + [g, '%']))
        if st == 'raise':
            ctx.fail('no-exception', repr(r))
            return
        if not ok:
            ctx.prove('other-text-is-no-percentage', r is None)
            ctx.cover('other')
            return
        ctx.prove('a-hundredth', term(r) is not None and term(r) * 100 == x.t)
        check_cast(ctx, it, cls, r, None, None)
        ctx.cover('parsed')
        return
    x.cast = c = {'to_string': cls.to_string}
    txt = Txt([digit_text(ctx)])

    def to_string(it_, args, kw):
        ctx.prove('writes-a-hundred-times-the-number', term(args[0]) == x.t * 100)
        ctx.prove('writes-a-plain-decimal', rat.cast_of(args[0]) is None)
        return txt
    it.rat_to_string = to_string
    st, r = run(it, cls.to_string, calc, x)
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    ctx.prove('digits-then-percent-sign', same_text(ctx, r, Txt(txt.pieces + ['%']), False), repr(r))
    ctx.prove('operand-unchanged', x.cast is c)
    ctx.cover('written')


def u_exp_parse(ctx):
    """mEe is m * 10^e"""
    it = Interp(ctx)
    rat.install(it)
    cls = expnumbers.ExpNumericalRepresentation
    sym = 'E'
    g = digit_text(ctx)
    e = digit_text(ctx, 'exponent')
    ctx.assume(e.dot == -1)
    g.marks['e'] = g.marks['E'] = e.marks['E'] = e.marks['e'] = z3.IntVal(-1)
    sign = ['-'] if ctx.choose(2, 'sign') == 1 else []
    esign = ['-'] if ctx.choose(2, 'exponent sign') == 1 else []
    ok = ctx.choose(2, 'is such a number') == 0
    shape(it, ok)
    m, ex = rat.rat(ctx, 'mantissa'), rat.rat(ctx, 'exponent')
    ctx.assume(z3.IsInt(ex.t))

    def number(it_, args, kw):
        if len(args) == 1 and isinstance(args[0], Txt):
            if same_text(ctx, args[0], Txt(sign + [g])):
                return Rat(m.t)
            ctx.prove('reads-mantissa-and-exponent', same_text(ctx, args[0], Txt(esign + [e])), repr(args[0]))
            return Rat(ex.t)
        return rat.construct(it_, args, kw)
    it.contracts[Number] = number
    calc = mk_calc(ctx, feature_options={'numerical.expnumbers': {'Symbol': sym}})
    it.contracts[expnumbers.ExpNumbersFeature.compile_regex] = lambda it_, a, k: __import__('re').compile('x')
    st, r = run(it, cls.parse, calc, Txt(sign + [g, ['e', 'E'][ctx.choose(2, 'case')]] + esign + [e]))
    if st == 'raise':
        ctx.fail('no-exception', repr(r))
        return
    if not ok:
        ctx.prove('other-text-is-no-such-number', r is None)
        ctx.cover('other')
        return
    p = Pow(z3.RealVal(10), ex.t)
    ctx.prove('mantissa-times-power-of-ten', term(r) is not None and term(r) == m.t * p)
    check_cast(ctx, it, cls, r, None, None)
    ctx.cover('parsed')


UNITS = [('base_to_dec', u_base_to_dec), ('dec_to_base', u_dec_to_base), ('number_remove_prefix', u_remove_prefix), ('number_add_prefix', u_add_prefix),
         ('widths', u_width), ('convert_to / as / bin, oct, hex', u_convert), ('percentage', u_percentage), ('scientific.parse', u_exp_parse)]
for _f in ('binary', 'octal', 'hexadecimal', 'arbitrary base'):
    UNITS.append((_f + '.parse', u_parse(_f)))
    UNITS.append((_f + '.to_string', u_text(_f)))


# ---------------------------------------------------------------- concrete oracle
from fractions import Fraction
import re as _re
from pyvc.concrete import evaluate, to_py, calc as _calc, canonical

DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
PRE = {2: '0b', 8: '0o', 16: '0x'}
PLACES = 30


def positional(text, base):
    """the value of [-]digits[.digits] by the definition of positional notation"""
    neg = text.startswith('-')
    body = text[1:] if neg else text
    whole, _, frac = body.partition('.')
    v = Fraction(0)
    for d in whole:
        v = v * base + DIG.index(d.upper())
    w = Fraction(1)
    for d in frac:
        w /= base
        v += w * DIG.index(d.upper())
    return -v if neg else v


def k_read(neg, pre, digits, base, extra):
    """a literal is the sum of its digits weighted by powers of the base"""
    text = ('-' if neg else '') + pre + digits
    x = positional(('-' if neg else '') + digits, base)
    for e, w in ((text, x), ("'%s' + 0" % text, x), ('%s + %d' % (text, extra), x + extra), ('%d + %s' % (extra, text) if not neg else text, x + extra if not neg else x)):
        st, r = evaluate(e)
        if st == 'error':
            return '%s: error %s' % (e, r)
        if to_py(r.value) != w:
            return '%s: expected %s, got %s' % (e, w, to_py(r.value))
        m = canonical(r.value)
        if m:
            return '%s: %s' % (e, m)
    return None


def k_reject(text):
    st, r = evaluate(text)
    if st == 'error':
        return None
    return '%s: accepted as %s' % (text, to_py(r.value))


def k_write(form, frac, base):
    """the text of a number in a form denotes the number (truncated to 30 fraction digits in a base) and reads back"""
    x = Fraction(frac)
    num = '(%d / %d)' % (x.numerator, x.denominator)
    how = {'bin': 'bin%s', 'oct': 'oct%s', 'hex': 'hex%s', 'as': '%s as ' + {2: 'binary', 8: 'octal', 16: 'hexadecimal'}.get(base, 'decimal')}.get(form)
    e = how % num if how else 'base(%s, %d)' % (num, base)
    st, r = evaluate(e)
    if st == 'error':
        return '%s: error %s' % (e, r)
    text = r.value if isinstance(r.value, str) else r.value.to_string(_calc())
    if not isinstance(r.value, str) and to_py(r.value) != x:
        return '%s: the value became %s' % (e, to_py(r.value))
    pre = '%dz' % base if form == 'base' else PRE[base]
    m = _re.fullmatch(r'(-?)' + pre + r'((0|[1-9A-Z][0-9A-Z]*)(\.([0-9A-Z]*[1-9A-Z]))?)', text)
    if not m:
        return '%s: malformed text %s' % (e, text)
    got = positional(m.group(1) + m.group(2), base)
    want = truncated(x, base, PLACES)
    if form == 'base' and base == 10:
        want = None if abs(got - x) <= Fraction(1, 2 * 10 ** PLACES) else x
        if want is None:
            want = got
    if got != want:
        return '%s: text %s denotes %s, not %s' % (e, text, got, want)
    if m.group(1) and got == 0:
        return '%s: negative zero %s' % (e, text)
    if (abs(got) + 1) * base ** (2 * len(text.partition('.')[2]) + 1) >= 10 ** 98:
        return None             # beyond the number size
    st, r = evaluate(text)
    if st == 'error' or to_py(r.value) != got:
        return '%s: text %s reads back as %s' % (e, text, r if st == 'error' else to_py(r.value))
    t2 = r.value.to_string(_calc())
    if t2 != text:
        return '%s: text %s is shown as %s' % (e, text, t2)
    return None


def truncated(x, base, places):
    s = base ** places
    n = abs(x) * s
    n = Fraction(n.numerator // n.denominator, s)
    return n if x >= 0 else -n


def k_exp(m, e, upper):
    """mEe is exactly m * 10^e, and is written back so that it reads as the same number"""
    text = '%s%s%d' % (m, 'E' if upper else 'e', e)
    x = Fraction(m) * Fraction(10) ** e
    st, r = evaluate(text)
    if st == 'error':
        return '%s: error %s' % (text, r)
    if to_py(r.value) != x:
        return '%s: expected %s, got %s' % (text, x, to_py(r.value))
    out = r.value.to_string(_calc())
    mm = _re.fullmatch(r'(-?)((\d)(\.\d*[1-9])?)E(-?\d+)', out)
    if not mm:
        return '%s is written %s' % (text, out)
    y = Fraction(mm.group(1) + mm.group(2)) * Fraction(10) ** int(mm.group(5))
    if x != 0 and mm.group(3) == '0':
        return '%s is written %s' % (text, out)
    if len(m.replace('-', '').replace('.', '').strip('0')) <= PLACES + 1:
        if y != x:
            return '%s is written %s' % (text, out)
    elif abs(y - x) > abs(x) / 10 ** PLACES:
        return '%s is written %s' % (text, out)
    st, r2 = evaluate(out)
    if st == 'error' or to_py(r2.value) != y:
        return '%s: %s reads back as %s' % (text, out, r2 if st == 'error' else to_py(r2.value))
    return None


def k_forms(frac, names):
    """converting between representations never changes the value; the last one is the one shown"""
    x = Fraction(frac)
    e = '(%d / %d)' % (x.numerator, x.denominator)
    for n in names:
        e = '(%s as %s)' % (e, n)
    st, r = evaluate(e)
    if st == 'error':
        return '%s: error %s' % (e, r)
    if to_py(r.value) != x:
        return '%s: expected %s, got %s' % (e, x, to_py(r.value))
    t = r.value.to_string(_calc())
    n = names[-1]
    if n == 'percentage':
        if not t.endswith('%') or abs(Fraction(t[:-1]) - 100 * x) > Fraction(1, 2 * 10 ** PLACES):
            return '%s: shown as %s' % (e, t)
    elif n == 'decimal':
        if not _re.fullmatch(r'-?\d+(\.\d+)?', t) or abs(Fraction(t) - x) > Fraction(1, 2 * 10 ** PLACES):
            return '%s: shown as %s' % (e, t)
    elif n == 'scientific':
        if not _re.fullmatch(r'-?\d(\.\d+)?E-?\d+', t) or abs(Fraction(t) - x) > abs(x) / 10 ** PLACES:
            return '%s: shown as %s' % (e, t)
    else:
        if not _re.match('-?' + {'binary': '0b', 'octal': '0o', 'hexadecimal': '0x'}[n], t):
            return '%s: shown as %s' % (e, t)
    return None


def k_percent(m, neg):
    text = ('-' if neg else '') + m + '%'
    x = Fraction(text[:-1]) / 100
    st, r = evaluate(text)
    if st == 'error':
        return '%s: error %s' % (text, r)
    if to_py(r.value) != x:
        return '%s: expected %s, got %s' % (text, x, to_py(r.value))
    t = r.value.to_string(_calc())
    if not t.endswith('%') or Fraction(t[:-1]) != x * 100:
        return '%s: shown as %s' % (text, t)
    return None


def k_width(neg, digits):
    """a binary literal keeps its width"""
    text = ('-' if neg else '') + '0b' + digits
    st, r = evaluate(text)
    if st == 'error':
        return '%s: error %s' % (text, r)
    t = r.value.to_string(_calc())
    whole, _, frac = digits.partition('.')
    frac = frac.rstrip('0')
    want = ('-' if neg and positional(digits, 2) else '') + '0b' + whole + ('.' + frac if frac else '')
    return None if t == want else '%s is shown as %s' % (text, t)


KINDS = {'read': k_read, 'reject': k_reject, 'write': k_write, 'exp': k_exp, 'forms': k_forms, 'percent': k_percent, 'width': k_width}


def search(S):
    R = S.rng

    def digits(base, n, f):
        s = ''.join(R.choice(DIG[:base]) for _ in range(n))
        if f:
            s += '.' + ''.join(R.choice(DIG[:base]) for _ in range(f))
        return ''.join(R.choice([c.lower(), c]) for c in s)

    def prefix(base):
        if base in PRE and R.random() < 0.7:
            p = PRE[base]
        else:
            p = R.choice(['', '', '0', '00']) + '%dz' % base
        return R.choice([p, p.upper()])
    for base in range(2, 37):
        top = DIG[base - 1]
        for d in ('0', '1', '00', '0.0', '10', '100', top, top * 3, '1' + top, top + '.' + top, '0.1', '0.0' + top, '1.' + '0' * 5 + '1', '000' + top, ('%dZ' % base if base == 36 else '1') + '1', '10.01'):
            if all(c == '.' or DIG.index(c) < base for c in d):
                for neg in (False, True):
                    S.run('read', neg, '%dz' % base, d, base, 3)
                    if base in PRE:
                        S.run('read', neg, PRE[base], d, base, 3)
        if base < 36:
            for bad in (DIG[base], '1' + DIG[base], DIG[base] + '1', '1.' + DIG[base], DIG[base].lower()):
                if base != 10 or bad != 'A.':
                    S.run('reject', '%dz%s' % (base, bad))
        for x in ('0', '1', '-1', str(base), str(base - 1), str(-base), str(base ** 2), str(base ** 2 - 1), str(base ** 5), str(-base ** 7 + 1), '1/%d' % base, '-1/%d' % base, '%d/%d' % (base - 1, base), '1/%d' % base ** 30,
                  '-1/%d' % base ** 31, '1/3', '-2/7', '%d/%d' % (base ** 31 - 1, base ** 30), '5/%d' % base ** 3, str(10 ** 20), '%d/%d' % (7 * base ** 31 + 1, base ** 31)):
            S.run('write', 'base', x, base)
            if base in PRE:
                S.run('write', {2: 'bin', 8: 'oct', 16: 'hex'}[base], x, base)
                S.run('write', 'as', x, base)
    for bad in ('0z0', '1z0', '1z1', '37z1', '37z0', '100z5', '0b2', '0o8', '0xG', '12z12z', '36z', '10z1A', '1z', '0z', '2z12'):
        if bad not in ('36z', '1z', '0z'):
            S.run('reject', bad)
    for m in ('0', '1', '-1', '1.5', '10', '-20.50', '0.001', '123456789.987654321', '9' * 31, '0.' + '3' * 40, '100', '9.99'):
        for e in (0, 1, -1, 5, -5, 20, -20, 30, -31, 60):
            S.run('exp', m, e, True)
    for m in ('0', '1', '0.5', '100', '12.5', '33.333', '007', '0.001'):
        for neg in (False, True):
            S.run('percent', m, neg)
    for d in ('0', '1', '0001', '1000', '0.1', '0001.0100', '00', '10.10', '0' * 20 + '101', '0' * 33 + '1', '0' * 60 + '10', '0' * 31 + '11.01'):
        for neg in (False, True):
            S.run('width', neg, d)
    names = ['binary', 'octal', 'hexadecimal', 'decimal', 'scientific', 'percentage']
    for x in ('0', '5', '-5', '1/3', '-255/16', '1000000'):
        for a in names:
            S.run('forms', x, [a])
            for b in names:
                S.run('forms', x, [a, b])
    while S.time_left():
        base = R.choice([2, 8, 16, R.randrange(2, 37), R.randrange(2, 37)])
        c = R.random()
        if c < 0.35:
            n, f = R.randrange(1, 12), R.choice([0, 0, R.randrange(1, 10)])
            S.run('read', R.random() < 0.4, prefix(base), digits(base, n, f), base, R.randrange(0, 100))
        elif c < 0.7:
            d = R.choice([1, base ** R.randrange(0, 12), R.randrange(1, 10 ** 6)])
            x = Fraction(R.randrange(-10 ** R.randrange(1, 15), 10 ** R.randrange(1, 15)), d)
            S.run('write', 'base' if base not in PRE or R.random() < 0.4 else R.choice(['as', {2: 'bin', 8: 'oct', 16: 'hex'}[base]]), str(x), base)
        elif c < 0.8:
            m = str(R.randrange(10 ** R.randrange(1, 15)))
            if R.random() < 0.6:
                m += '.' + str(R.randrange(10 ** R.randrange(1, 12)))
            S.run('exp', R.choice(['', '-']) + m, R.randrange(-25, 25), R.random() < 0.5)
        elif c < 0.9:
            S.run('forms', str(Fraction(R.randrange(-10 ** 8, 10 ** 8), R.randrange(1, 1000))), [R.choice(names) for _ in range(R.randrange(1, 5))])
        elif c < 0.95:
            S.run('percent', '%d.%d' % (R.randrange(1000), R.randrange(10 ** 6)), R.random() < 0.5)
        else:
            S.run('width', R.random() < 0.5, ''.join(R.choice('01') for _ in range(R.randrange(1, 12))) + R.choice(['', '.' + ''.join(R.choice('01') for _ in range(5))]))
