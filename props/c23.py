"""C23: highlighting covers the text of the items exactly once."""
import contextlib
import io

from pyvc.lib import *  # noqa: F401,F403
from pyvc import models as M, concrete
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc.interp import LoopSpec
from pyvc.values import SBase, SExt, SList
from modularcalculator.objects.exceptions import CalculatorException, ExecutionException, ParsingException
from modularcalculator.objects.items import Item, OperandItem, RecursiveOperandItem, items_text
from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter

SEARCH_SECONDS = (20, 200)
ASSUMPTIONS = ['the text of the items is the text (C05), and no item is empty (C05)', 'a recursive call is replaced by the contract of highlight itself (induction on the nesting of the items)']
TRUSTED = ['str.find of a text that occurs at the place where the search begins is that place']

I_ = z3.IntSort()


class Piece(SExt):
    """the characters a..b-1 of one text"""
    pyclass = str

    def __init__(self, whole, a, b):
        self.whole, self.a, self.b = whole, a, b

    def __repr__(self):
        return '%s[%s:%s]' % (self.whole, self.a, self.b)

    def sx(self, it, op, *a):
        ctx = it.ctx
        n = self.b - self.a
        if op == 'len':
            return SInt(z3.simplify(n))
        if op == 'truth':
            return n > 0
        if op == 'str':
            return self
        if op == 'call' and a[0] in ('find', 'index', 'startswith'):
            x = a[1][0]
            at = M.to_int(a[1][1]) if len(a[1]) > 1 else z3.IntVal(0)
            if isinstance(x, Piece) and x.whole == self.whole and ctx.entails(z3.And(x.a == self.a + at, x.b <= self.b)):
                return True if a[0] == 'startswith' else SInt(z3.simplify(at))
            raise Undecided('searching %r in %r from %s' % (x, self, at))
        if op == 'getitem' and isinstance(a[0], slice) and a[0].step in (None, 1):
            lo = z3.IntVal(0) if a[0].start is None else M.to_int(a[0].start)
            hi = n if a[0].stop is None else M.to_int(a[0].stop)
            if ctx.entails(z3.And(0 <= lo, lo <= hi, hi <= n)):
                return Piece(self.whole, z3.simplify(self.a + lo), z3.simplify(self.a + hi))
        if op in ('compare', 'rcompare') and a[0] in ('Eq', 'NotEq') and isinstance(a[1], Piece) and a[1].whole == self.whole:
            if ctx.entails(z3.And(self.a == a[1].a, self.b == a[1].b)):
                return a[0] == 'Eq'
            if ctx.entails(n != a[1].b - a[1].a):
                return a[0] == 'NotEq'
        return NotImplemented


class Leaf(OperandItem):
    pass


class Nested(RecursiveOperandItem):
    pass


def mk_items(ctx, whole, pos, n, kinds):
    """items whose texts lie one after the other in a text"""
    def mk(c, i):
        ctx.assume(z3.And(pos(i) >= 0, pos(i) < pos(i + 1), pos(i + 1) <= pos(n)))
        cls = Nested if ctx.branch(kinds(i)) else Leaf
        e = cls.__new__(cls)
        e.text = Piece(whole, pos(i), pos(i + 1))
        e.truncated = SBool(ctx.bool('truncated'))
        if cls is Nested:
            e.items = SOpaque('inner items')
        return c.alloc(e)
    b = SBase('items', n, mk)
    b.mk_alias = False
    l = SList.of(b)
    ctx.alloc(l)
    return l, b


class Walk(LoopSpec):
    """after k items the pieces so far cover exactly the text of these items"""

    def __init__(self, ctx, whole, pos, base):
        self.ctx, self.whole, self.pos, self.base = ctx, whole, pos, base

    def init(self, it, fr):
        self.lists = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        self.counts = [nm for nm, v in fr.locals.items() if type(v) is int and v == 0 or isinstance(v, SInt) and self.ctx.entails(v.t == 0)]
        self.ctx.prove('loop:collects-into-one-list', len(self.lists) == 1)
        if len(self.lists) != 1:
            raise PathDone()

    def havoc(self, it, fr, k):
        ctx = self.ctx
        n = ctx.int('pieces so far')
        ctx.assume(n >= 0)
        self.sofar = SBase('pieces so far', n, lambda c, i: SOpaque('piece'))
        self.mine = ctx.alloc(SList.of(self.sofar))
        fr.locals[self.lists[0]] = self.mine
        ctx.assume(z3.And(self.pos(z3.IntVal(0)) == 0, self.pos(k) >= 0))
        for nm in self.counts:
            if nm in self.carried:
                fr.locals[nm] = SInt(self.pos(k))
        for nm in self.carried:
            if nm == 'prev_item' or fr.locals.get(nm, 0) is None:
                pass
        self.others(it, fr, k)

    def others(self, it, fr, k):
        """any other name the loop sets: the item of the round before, or what it was"""
        for nm in self.carried:
            if nm not in self.counts and nm not in self.lists and nm in fr.locals and fr.locals[nm] is None:
                if not self.ctx.entails(k == 0) and self.ctx.branch(k >= 1):
                    fr.locals[nm] = self.base.get(self.ctx, z3.simplify(k - 1))

    def step(self, it, fr, k):
        ctx = self.ctx
        l = fr.locals[self.lists[0]]
        ch = list(M.chunks(l)) if not isinstance(l, SList) else l.chunks
        i = next((j for j, c in enumerate(ch) if c[0] == 'seg' and c[1] is self.sofar), None)
        empty = i is None and ctx.entails(self.sofar.n == 0) if hasattr(self.sofar, 'n') else i is None
        ctx.prove('loop:what-was-covered-stays', i == 0 or i is None and empty)
        new = ch[(i + 1 if i is not None else 0):]
        end = self.cover(ctx, new, self.pos(k))
        e = self.base.get(ctx, k)
        if isinstance(e, Nested):
            ctx.prove('loop:a-nested-item-gives-its-inner-pieces', bool(new) and all(c[0] == 'seg' and getattr(c[1], 'of', None) is e.items for c in new))
        else:
            ctx.prove('loop:a-leaf-is-one-piece-with-its-category', len(new) == 1 and new[0][0] == 'el' and id(e) in it.cats and isinstance(new[0][1], tuple) and new[0][1][0] is it.cats[id(e)][1])
        ctx.prove('loop:covers-exactly-this-item', end is not None and ctx.entails(end == self.pos(k + 1)))
        for nm in self.counts:
            if nm in self.carried:
                ctx.prove('loop:%s-is-where-the-next-begins' % nm, M.to_int(fr.locals[nm]) == self.pos(k + 1))

    def cover(self, ctx, chunks, at):
        """the end of the text these pieces cover, beginning at at; None if they do not follow one another"""
        for c in chunks:
            if c[0] == 'el':
                x = c[1]
                p = x[1] if isinstance(x, tuple) and len(x) == 2 else None
                if not isinstance(p, Piece) or p.whole != self.whole:
                    return None
                a, b = p.a, p.b
            else:
                r = getattr(c[1], 'covers', None)
                if r is None:
                    return None
                a, b = r.a, r.b
            if not ctx.entails(a == at):
                return None
            at = b
        return at

    def may_write(self, obj):
        return obj is self.mine


def setup(ctx):
    it = Interp(ctx)
    whole = 'text'
    pos = z3.Function(ctx.fresh_name('pos'), I_, I_)
    kinds = z3.Function(ctx.fresh_name('nested'), I_, z3.BoolSort())
    n = ctx.int('items')
    ctx.inputs['items'] = n
    ctx.assume(z3.And(n >= 0, pos(z3.IntVal(0)) == 0, pos(n) >= 0, z3.Implies(n > 0, pos(n) > 0)))
    items, base = mk_items(ctx, whole, pos, n, kinds)
    it.contracts[Leaf.category] = lambda it_, a, k: category(a[0])
    it.contracts[Item.category] = lambda it_, a, k: category(a[0])
    it.contracts[OperandItem.category] = lambda it_, a, k: category(a[0])
    it.contracts[RecursiveOperandItem.category] = lambda it_, a, k: category(a[0])
    it.overrides[print] = lambda it_, *a, **kw: ctx.prove('prints-nothing', False)
    cats = {}

    def category(o):
        return cats.setdefault(id(o), (o, SOpaque('category')))[1]
    it.cats = cats
    return it, whole, pos, n, items, base


def recursive(it, ctx, result_of, check):
    def highlight(it_, args, kw):
        vals = list(args) + [None] * 3
        text, its = kw.get('text', vals[1]), kw.get('items', vals[2])
        check(text, its)
        m = ctx.int('inner pieces')
        ctx.assume(m >= 0)
        b = SBase('inner pieces', m, lambda c, i: SOpaque('piece'))
        b.covers, b.of = text, its
        return ctx.alloc(SList.of(b))
    return highlight


def u_highlight(ctx):
    it, whole, pos, n, items, base = setup(ctx)
    text = Piece(whole, z3.IntVal(0), pos(n))
    top = []

    def check(t, its):
        # the items of a nested item and its text
        owner = [e for _i, e in base.memo if getattr(e, 'items', None) is its]
        ctx.prove('inner-items-with-their-own-text', len(owner) == 1 and isinstance(t, Piece) and ctx.entails(z3.And(t.a == owner[0].text.a, t.b == owner[0].text.b)))
    rec = recursive(it, ctx, None, check)

    def entry(it_, args, kw):
        if not top:
            top.append(1)
            return NotImplemented
        return rec(it_, args, kw)
    it.contracts[SyntaxHighlighter.highlight] = entry

    def specs(it_, node, fr, seq):
        from pyvc.interp import stored_names
        s = Walk(ctx, whole, pos, base)
        s.carried = stored_names(node.body)
        return s
    it.loop_specs.append(specs)
    h = SyntaxHighlighter()
    ctx.alloc(h)
    st, r = run(it, SyntaxHighlighter.highlight, h, text, items)
    ctx.prove('no-error', st == 'ok', repr(r))
    if st != 'ok':
        return
    # at the end: what the loop collected (which covers pos(n) characters), and nothing else
    ch = r.chunks if isinstance(r, SList) else M.chunks(r)
    extra = [c for c in ch if not (c[0] == 'seg' and c[1].name == 'pieces so far')]
    ctx.prove('covers-exactly-the-text', not extra or False, '%d pieces more' % len(extra))
    ctx.cover('end')


class Collect(LoopSpec):
    """after k statements the list holds the pieces of each of them"""

    def __init__(self, ctx, pieces):
        self.ctx, self.pieces = ctx, pieces

    def init(self, it, fr):
        self.lists = [nm for nm, v in fr.locals.items() if type(v) is list and v == []]
        self.ctx.prove('loop:collects-into-one-list', len(self.lists) == 1)
        if len(self.lists) != 1:
            raise PathDone()

    def havoc(self, it, fr, k):
        self.sofar = SBase('collected', k, lambda c, i: Of(i))
        self.mine = self.ctx.alloc(SList.of(self.sofar))
        fr.locals[self.lists[0]] = self.mine

    def step(self, it, fr, k):
        ctx = self.ctx
        l = fr.locals[self.lists[0]]
        ch = l.chunks if isinstance(l, SList) else M.chunks(l)
        ch = [c for c in ch if not (c[0] == 'seg' and c[1] is self.sofar)] if ch and (ch[0][0] == 'seg' and ch[0][1] is self.sofar or ctx.entails(k == 0)) else None
        ctx.prove('loop:adds-the-pieces-of-this-statement', ch is not None and len(ch) == 1 and ch[0][0] == 'el' and ch[0][1] is not None and ch[0][1] is self.pieces(k))

    def may_write(self, obj):
        return obj is self.mine


class Of:
    """the pieces of statement i"""

    def __init__(self, i):
        self.i = i


def u_statements(ctx):
    """each statement is highlighted with its own text, in order"""
    it = Interp(ctx)
    n = ctx.int('statements')
    ctx.inputs['statements'] = n
    ctx.assume(n >= 0)
    b = SBase('statements', n, lambda c, i: c.alloc(SOpaque('items')))
    b.mk_alias = False
    stms = ctx.alloc(SList.of(b))
    texts, done = {}, {}
    it.contracts[items_text] = lambda it_, a, k: texts.setdefault(id(a[0]), (a[0], SOpaque('text')))[1]

    def highlight(it_, args, kw):
        t, its = args[1], args[2]
        ctx.prove('with-its-own-text', id(its) in texts and texts[id(its)][1] is t)
        return done.setdefault(id(its), (its, SOpaque('pieces')))[1]
    it.contracts[SyntaxHighlighter.highlight] = highlight
    it.loop_specs.append(lambda it_, node, fr, seq: Collect(ctx, lambda i: done.get(id(b.get(ctx, i)), (None, None))[1]))
    h = SyntaxHighlighter()
    st, r = run(it, SyntaxHighlighter.highlight_statements, h, stms)
    ctx.prove('no-error', st == 'ok', repr(r))
    if st == 'ok':
        l = r if isinstance(r, SList) else SList(M.chunks(r))
        ctx.prove('one-per-statement', l.length() == n)
        p = ctx.int('p')
        ctx.assume(z3.And(p >= 0, p < n))
        got = M.get_at(it, l, p)
        e = b.get(ctx, p)
        ctx.prove('the-pieces-of-that-statement', got.i == p if isinstance(got, Of) else id(e) in done and done[id(e)][1] is got, repr(got))
    ctx.cover('end')


UNITS = [('highlight', u_highlight), ('highlight_statements', u_statements)]


# ---------------------------------------------------------------- concrete oracle
def flatten(items):
    """the leaves of the items and the text of each"""
    out = []
    for x in items:
        if hasattr(x, 'items') and isinstance(x, RecursiveOperandItem):
            out += flatten(x.items)
        else:
            out.append((x.category(), x.text))
    return out


def k_highlight(text, preset='Computing'):
    """the pieces of a parsed text (also of what was parsed before an error) are its leaves, one by one"""
    c = concrete.calc(preset)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            stms = [x.items for x in c.calculate(text, {'parse_only': True}).results]
            upto = text
        except ParsingException as e:
            stms = e.statements
            try:
                upto = text[:e.find_pos(text)]
            except Exception:
                return None
        except Exception:
            return None
        try:
            got = SyntaxHighlighter().highlight_statements(stms)
        except Exception as e:
            return 'highlighting fails: %r' % e
    if out.getvalue():
        return 'highlighting prints %r' % out.getvalue()[:200]
    if len(got) != len(stms):
        return '%d statements are highlighted as %d' % (len(stms), len(got))
    if ''.join(t for s in got for _c, t in s) != upto:
        return 'the pieces are %r' % [t for s in got for _c, t in s][:30]
    for s, g in zip(stms, got):
        if [tuple(x) for x in g] != flatten(s):
            return 'the pieces are %r; the items are %r' % (g[:20], flatten(s)[:20])
    return None


def k_failed(text, preset='Computing'):
    """what a statement that failed left of its items is highlighted up to the place of the error"""
    from props.c05 import SETUP
    c = concrete.calc(preset)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for x in SETUP:
            try:
                c.calculate(x)
            except CalculatorException:
                pass
        out.truncate(0)
        out.seek(0)
        try:
            c.calculate(text)
            return None
        except ExecutionException as e:
            stms = e.statements
        except Exception:
            return None
        try:
            got = SyntaxHighlighter().highlight_statements(stms)
        except Exception as e:
            return 'highlighting what is left of %r fails: %r' % (text, e)
    if out.getvalue():
        return 'highlighting what is left of %r prints %r' % (text, out.getvalue()[:200])
    if len(got) != len(stms) or not text.startswith(''.join(t for s in got for _c, t in s)):
        return 'the pieces of what is left of %r are %r' % (text, got)
    for s, g in zip(stms, got):
        if [tuple(x) for x in g] != [x for x in flatten(s) if x[1]]:
            return 'the pieces of what is left of %r are %r; the items are %r' % (text, g[:20], flatten(s)[:20])
    return None


KINDS = {'highlight': k_highlight, 'failed': k_failed}


def search(S):
    from props import c05
    rng = S.rng
    for t in c05.GOOD + c05.BAD + c05.TOK:
        for p in ('Computing', 'Advanced'):
            S.run('highlight', t, p)
    for t in c05.GOOD:
        for w in ('(%s)', '[%s]', 'lcm(%s)', '( %s )', '%s\n%s', '[1, %s]', 'f = {%s}', '((%s) + (%s))'):
            S.run('highlight', w.replace('%s', t))
    for t in c05.GOOD + c05.BAD:
        for w in ('%s', 'lcm(%s, 1)', '( %s )', '[1, %s, 2]', '1\n%s', '(1 + (%s))', 'f(1, [%s])', '%s + 1'):
            S.run('failed', w.replace('%s', t))
    while S.time_left():
        S.run('highlight', c05.rand_text(rng), rng.choice(c05.PRESETS))
        S.run('failed', c05.rand_text(rng), rng.choice(c05.PRESETS))
