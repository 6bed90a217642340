"""C14: installing features is complete, ordered and repeatable."""
from pyvc.lib import *  # noqa: F401,F403
from pyvc.core import PathDone, PyRaise, Undecided
from pyvc.interp import UnknownVal
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.features.feature import Feature, MetaFeature
from modularcalculator.features.layout import op_map
from modularcalculator.objects.exceptions import CalculatorException

ASSUMPTIONS = ['the graph of dependencies, after-declarations and subfeatures is acyclic (checked for the actual features on every run; rank is its witness)',
               'an ordinary feature\'s own install code does not install features (checked syntactically for the actual features on every run)',
               'a recursive call of install_features or add_feature_to_be_installed is replaced by its contract (induction on the rank)']
TRUSTED = ['import of the feature modules (scan_feature_files, import_feature)']


def mk_modular(ctx):
    c = ModularCalculator.__new__(ModularCalculator)
    return ctx.alloc(c)


class World:
    """arbitrary features (integers) with arbitrary declared lists; facts are instantiated at the ids that occur"""

    def __init__(self, ctx):
        self.ctx = ctx
        I, B = z3.IntSort(), z3.BoolSort()
        self.known = z3.Function('known', I, B)
        self.meta = z3.Function('meta', I, B)
        self.rank = z3.Function('rank', I, I)
        self.count = {k: z3.Function('n_' + k, I, I) for k in ('deps', 'after', 'subs', 'names', 'kept')}
        self.el = {k: z3.Function(k, I, I, I) for k in self.count}
        self.points, self.facts = [], []
        self.edges, self.edgefacts = [], []
        self.edgefact(lambda k, n, j, d: self.rank(d) < self.rank(n) if k in ('deps', 'after', 'subs') else True)

    def point(self, t):
        if not any(p.eq(t) for p in self.points):
            self.points.append(t)
            for f in self.facts:
                self.ctx.assume(f(t))
        return t

    def fact(self, f):
        self.facts.append(f)
        for p in self.points:
            self.ctx.assume(f(p))

    def edge(self, kind, n, j):
        j = z3.simplify(j)
        d = self.el[kind](n, j)
        if not any(k == kind and n.eq(n2) and j.eq(j2) for k, n2, j2, _ in self.edges):
            self.point(n)
            self.point(d)
            e = (kind, n, j, d)
            self.edges.append(e)
            for f in self.edgefacts:
                self.assume_edge(f, e)
        return d

    def assume_edge(self, f, e):
        r = f(*e)
        if r is not True:
            self.ctx.assume(z3.Implies(z3.And(e[2] >= 0, e[2] < self.count[e[0]](e[1])), r))

    def edgefact(self, f):
        self.edgefacts.append(f)
        for e in self.edges:
            self.assume_edge(f, e)

    def list(self, kind, n):
        c = self.count[kind](n)
        self.ctx.assume(c >= 0)
        b = SBase(kind, c, lambda ctx, j: Fid(self, self.edge(kind, n, j)))
        b.mk_alias = False
        b.owner = (kind, n)
        return self.ctx.alloc(SList.of(b))

    def member(self, kind, n, name):
        """an arbitrary position of a declared list and the id there"""
        j = self.ctx.int('j_' + name)
        d = self.edge(kind, n, j)
        return j, d, z3.And(j >= 0, j < self.count[kind](n))


class Fid(SExt):
    """a feature id"""
    pyclass = str

    def __init__(self, w, t):
        self.w, self.t = w, t

    def sx(self, it, op, *a):
        if op == 'compare' and isinstance(a[1], Fid) and a[0] in ('Eq', 'NotEq'):
            e = self.t == a[1].t
            return SBool(e if a[0] == 'Eq' else z3.Not(e))
        if op == 'hasattr':
            return False
        if op in ('binop', 'rbinop') and a[0] == 'Add':
            return SStr(it.ctx.string('text'))
        return NotImplemented


class Ids(SExt):
    """a set of feature ids"""
    pyclass = set

    def __init__(self, w, name, has=None):
        self.w, self.name = w, name
        if has is None:
            f = z3.Function(w.ctx.fresh_name(name), z3.IntSort(), z3.BoolSort())
            has = lambda t: f(t)
        self.has = has
        self.closed = True
        self.on_add = None

    def fresh(self):
        f = z3.Function(self.w.ctx.fresh_name(self.name), z3.IntSort(), z3.BoolSort())
        self.has = lambda t: f(t)
        self.w.ctx.log_write(self, 'content')

    def sx(self, it, op, *a):
        if op == 'contains':
            if not isinstance(a[0], Fid):
                raise Undecided('membership of %r' % (a[0],))
            return SBool(self.has(self.w.point(a[0].t)))
        if op == 'set' or op == 'call' and a[0] == 'copy':
            c = Ids(self.w, self.name, self.has)
            c.closed = self.closed
            return it.ctx.alloc(c)
        if op == 'call' and a[0] == 'add':
            x = self.w.point(a[1][0].t)
            old = self.has
            self.has = lambda t: z3.Or(t == x, old(t))
            it.ctx.log_write(self, 'add')
            if self.on_add:
                self.on_add(x)
            return None
        return NotImplemented


class Table(SExt):
    """the dictionary of all features"""
    pyclass = dict

    def __init__(self, s):
        self.s = s

    def sx(self, it, op, *a):
        if op == 'contains':
            return SBool(self.s.w.known(self.s.w.point(a[0].t)))
        if op == 'getitem' or op == 'call' and a[0] == 'get':
            x = a[0] if op == 'getitem' else a[1][0]
            t = self.s.w.point(x.t)
            if not it.ctx.branch(self.s.w.known(t)):
                if op == 'call':
                    return a[1][1] if len(a[1]) > 1 else None
                raise PyRaise(KeyError('feature'))
            return Feat(self.s, t)
        return NotImplemented


class Feat(SExt):
    """a feature class"""
    pyclass = type

    def __init__(self, s, t):
        self.s, self.t = s, t

    def sx(self, it, op, *a):
        w = self.s.w
        if op == 'issubclass':
            if a[0] is MetaFeature:
                return SBool(w.meta(self.t))
            return a[0] in (Feature, object)
        if op == 'call' and a[0] in ('dependencies', 'after') and not a[1]:
            return w.list({'dependencies': 'deps'}.get(a[0], a[0]), self.t)
        if op == 'call' and a[0] == 'subfeatures' and not a[1]:
            it.ctx.prove('subfeatures:only-of-a-meta-feature', w.meta(self.t))
            return w.list('subs', self.t)
        if op == 'call' and a[0] == 'install':
            return self.s.install(it, self.t, a[1])
        return NotImplemented


def closed(w, has):
    """the set contains what its members need (dependencies; subfeatures of meta features)"""
    return lambda k, n, j, d: z3.Implies(has(n), has(d)) if k == 'deps' else z3.Implies(z3.And(has(n), w.meta(n)), has(d)) if k == 'subs' else True


class State:
    def __init__(self, ctx):
        self.ctx = ctx
        self.w = w = World(ctx)
        self.T, self.I = ctx.alloc(Ids(w, 'T')), ctx.alloc(Ids(w, 'I'))
        self.T0, self.I0 = self.T.has, self.I.has
        w.fact(lambda x: z3.Implies(self.T0(x), w.known(x)))
        w.edgefact(closed(w, self.T0))
        self.calc = mk_modular(ctx)
        self.calc.features_to_install = self.T
        self.calc.installed_features = self.I
        self.calc.feature_list = Table(self)
        self.pending = None
        self.dirty = False
        self.root = z3.IntVal(-1)
        self.R = ctx.int('R')
        w.edgefact(lambda k, n, j, d: w.rank(d) <= self.R if k in ('names', 'kept') else True)
        self.I.on_add = self.added
        self.failed = None
        self.x = w.point(ctx.int('x'))

    # -------- the calls of install_features
    def install(self, it, t, args):
        ctx, w = self.ctx, self.w
        ctx.prove('install:the-calculator', len(args) == 1 and args[0] is self.calc)
        ctx.prove('install:not-installed-before', z3.Not(self.I.has(t)))
        ctx.prove('install:one-at-a-time', self.pending is None)
        j, d, inr = w.member('deps', t, 'dep')
        ctx.prove('install:after-all-its-dependencies', z3.Implies(inr, self.I.has(d)))
        j, d, inr = w.member('after', t, 'aft')
        ctx.prove('install:after-what-it-must-follow', z3.Implies(z3.And(inr, self.calc.features_to_install.has(d)), self.I.has(d)))
        ctx.prove('install:asked-for', self.calc.features_to_install.has(t))
        self.dirty = True
        if ctx.branch(w.meta(t)):
            # a meta feature installs its subfeatures (unit below), all of smaller rank
            self.grow(t, strict=True)
        if ctx.choose(2, 'install fails') == 1:
            self.failed = ValueError('a feature cannot be installed')
            raise PyRaise(self.failed)
        self.pending = t
        return None

    def added(self, x):
        ok = self.pending is not None
        self.ctx.prove('installed:recorded-after-installing', ok)
        if ok:
            self.ctx.prove('installed:the-one-installed', x == self.pending)
        self.pending = None

    def grow(self, t, strict):
        """I' contains I; what is new has a rank below (or at) that of t"""
        w = self.w
        old = self.I.has
        self.I.fresh()
        new = self.I.has
        w.fact(lambda x: z3.Implies(old(x), new(x)))
        b = (lambda x: w.rank(x) < w.rank(t)) if strict else (lambda x: w.rank(x) <= w.rank(t))
        w.fact(lambda x: z3.Implies(z3.And(new(x), z3.Not(old(x))), b(x)))

    def recursive(self, current):
        state = {'first': True}

        def call(it, args, kw):
            if state['first']:
                state['first'] = False
                return NotImplemented
            ctx, w = self.ctx, self.w
            ctx.prove('recursion:the-calculator', args[0] is self.calc)
            arg = args[1]
            ctx.prove('recursion:one-id', isinstance(arg, Fid))
            t = w.point(arg.t)
            ctx.prove('recursion:asked-for', self.calc.features_to_install.has(t))
            ctx.prove('recursion:nothing-unfinished', self.pending is None)
            cur = current()
            ctx.prove('recursion:of-smaller-rank', z3.BoolVal(False) if cur is None else w.rank(t) < w.rank(cur))
            self.grow(t, strict=False)
            if ctx.choose(2, 'recursion fails') == 1:
                self.failed = ValueError('a feature cannot be installed')
                raise PyRaise(self.failed)
            has = self.I.has
            ctx.assume(has(t))
            self.dirty = False
            return None
        return call

    def queue(self, it, args, kw):
        """contract of add_feature_to_be_installed on a closed set"""
        ctx, w = self.ctx, self.w
        T = self.calc.features_to_install
        ctx.prove('queue:on-a-closed-set', isinstance(T, Ids) and T.closed and args[0] is self.calc)
        t = w.point(args[1].t)
        old = T.has
        if ctx.branch(old(t)):
            return None
        T.fresh()
        new = T.has
        w.fact(lambda x: z3.Implies(old(x), new(x)))
        if ctx.choose(2, 'queue fails') == 1:
            T.closed = False
            self.failed = CalculatorException('Feature not found')
            raise PyRaise(self.failed)
        w.fact(lambda x: z3.Implies(new(x), w.known(x)))
        w.edgefact(closed(w, new))
        ctx.assume(new(t))
        return None


class Over(LoopSpec):
    """a loop over the names, the dependencies or the after-declarations of a feature"""

    def __init__(self, s, kind, n, goal):
        self.s, self.kind, self.n, self.goal = s, kind, n, goal

    def init(self, it, fr):
        s = self.s
        self.T, self.I = s.calc.features_to_install.has, s.I.has
        self.pending = s.pending
        self.x = s.w.point(s.ctx.int('x'))
        self.p, self.d, self.inr = s.w.member(self.kind, self.n, 'p')

    def bound(self, x):
        w = self.s.w
        return w.rank(x) <= self.s.R if self.goal in ('queued', 'done') else w.rank(x) < w.rank(self.n)

    def want(self, d):
        s = self.s
        if self.goal == 'queued':
            return s.calc.features_to_install.has(d)
        if self.goal == 'after':
            return z3.Implies(self.T(d), s.I.has(d))
        return s.I.has(d)

    def havoc(self, it, fr, k):
        s, w = self.s, self.s.w
        s.pending = None
        s.dirty = s.ctx.bool('dirty')
        T = s.calc.features_to_install
        if self.goal == 'queued':
            old = self.T
            T.fresh()
            new = T.has
            w.fact(lambda x: z3.Implies(old(x), new(x)))
            w.fact(lambda x: z3.Implies(new(x), w.known(x)))
            w.edgefact(closed(w, new))
            want = new
        else:
            old = self.I
            s.I.fresh()
            new = s.I.has
            w.fact(lambda x: z3.Implies(old(x), new(x)))
            w.fact(lambda x: z3.Implies(z3.And(new(x), z3.Not(old(x))), self.bound(x)))
            T0 = self.T
            want = (lambda d: z3.Implies(T0(d), new(d))) if self.goal == 'after' else new
        w.edgefact(lambda kind, n, j, d: z3.Implies(z3.And(n == self.n, j < k), want(d)) if kind == self.kind else True)
        self.at_head = (T.has, s.I.has)

    def step(self, it, fr, k):
        s, ctx = self.s, self.s.ctx
        T, x, d = s.calc.features_to_install, self.x, self.d
        # s.w.point(x): both sets after the iteration at an arbitrary id and at an arbitrary position up to k
        t0, i0 = self.at_head
        if self.goal == 'queued':
            ctx.prove('names:nothing-installed-yet', s.I.has is i0)
            ctx.prove('names:queue-only-grows', z3.Implies(t0(x), T.has(x)))
            ctx.prove('names:queue-is-closed', T.closed)
        else:
            ctx.prove('%s:queue-unchanged' % self.kind, T.has is t0)
            ctx.prove('%s:installed-only-grow' % self.kind, z3.Implies(i0(x), s.I.has(x)))
            ctx.prove('%s:only-what-is-needed' % self.kind, z3.Implies(z3.And(s.I.has(x), z3.Not(self.I(x))), self.bound(x)))
            ctx.prove('%s:nothing-unfinished' % self.kind, s.pending is None)
        ctx.prove('%s:%s' % (self.kind, self.goal), z3.Implies(z3.And(self.inr, self.p <= k), self.want(d)))

    def may_write(self, obj):
        return obj in (self.s.T, self.s.I, self.s.calc.features_to_install)


class Filter(LoopSpec):
    """the loop that drops unknown names"""

    def __init__(self, s):
        self.s = s

    def init(self, it, fr):
        out = [n for n, v in fr.locals.items() if type(v) in (list, SList) and n != 'names']
        self.s.ctx.prove('filter:one-new-list', len(out) == 1 and fr.locals[out[0]] == [])
        if len(out) != 1:
            raise PathDone()
        self.out = out[0]

    def havoc(self, it, fr, k):
        ctx = self.s.ctx
        c = ctx.int('kept so far')
        ctx.assume(c >= 0, c <= k)
        b = SBase('kept so far', c, lambda c_, i: UnknownVal('a kept name'))
        fr.locals[self.out] = ctx.alloc(SList.of(b))
        self.head, self.chunks = fr.locals[self.out], len(fr.locals[self.out].chunks)

    def step(self, it, fr, k):
        s, ctx = self.s, self.s.ctx
        l = fr.locals[self.out]
        ctx.prove('filter:the-list', l is self.head)
        new = l.chunks[self.chunks:]
        name = s.w.el['names'](s.root, z3.simplify(k))
        keep = s.w.known(name)
        ok = len(new) <= 1 and all(c[0] == 'el' and isinstance(c[1], Fid) for c in new)
        ctx.prove('filter:at-most-one', ok)
        if ok:
            ctx.prove('filter:exactly-the-known-names', z3.And(keep, new[0][1].t == name) if new else z3.Not(keep))

    def exit(self, it, fr, n):
        s, w, ctx = self.s, self.s.w, self.s.ctx
        fr.locals[self.out] = w.list('kept', s.root)
        w.edgefact(lambda kind, o, j, d: w.known(d) if kind == 'kept' else True)
        # every known name is kept somewhere
        pos = z3.Function('kept at', z3.IntSort(), z3.IntSort())

        def kept(kind, o, j, d):
            if kind != 'names':
                return True
            w.edge('kept', s.root, pos(j))
            return z3.Implies(w.known(d), z3.And(pos(j) >= 0, pos(j) < w.count['kept'](s.root), w.el['kept'](s.root, pos(j)) == d))
        w.edgefact(kept)

    def may_write(self, obj):
        return obj is self.head



def u_install(ctx, single, skip):
    it = Interp(ctx)
    s = State(ctx)
    w, calc = s.w, s.calc
    loops = []
    current = [None]

    def spec(it_, node, fr, seq):
        seq = it_.resolve(seq)
        if not isinstance(seq, SList) or not seq.chunks or not hasattr(seq.chunks[0][1], 'owner'):
            return None
        kind, n = seq.chunks[0][1].owner
        if kind in ('names', 'kept'):
            loops.append(kind)
            if skip and kind == 'names':
                return Filter(s)
            queued = len([k for k in loops if k == kind]) == 1
            return Named(s, kind, n, 'queued') if queued else Named(s, kind, n, 'done', current)
        return Over(s, kind, n, 'after' if kind == 'after' else 'installed')
    it.loop_specs.append(spec)
    it.contracts[ModularCalculator.install_features] = s.recursive(lambda: current[0])
    it.contracts[ModularCalculator.add_feature_to_be_installed] = s.queue

    def setup(it_, args, kw):
        s.dirty = False
        return None
    from modularcalculator.engine import Engine
    it.contracts[Engine.setup] = setup
    for c in ModularCalculator.__mro__:
        if 'setup' in c.__dict__:
            it.contracts[c.__dict__['setup']] = setup
    if single:
        name = w.point(ctx.int('name'))
        ctx.assume(w.rank(name) <= s.R)
        names = Fid(w, name)
        current[0] = name
        goal, inr = name, z3.BoolVal(True)
    else:
        names = w.list('names', s.root)
        p, goal, inr = w.member('names', s.root, 'goal')
        chunks = list(names.chunks)
    debug = bool(ctx.choose(2, 'debug'))
    kw = {'debug': debug} if ctx.choose(2, 'keyword') else {}
    if skip:
        kw['skipMissing'] = True
    st, r = run(it, ModularCalculator.install_features, calc, names, **kw)
    x = s.x
    if not single:
        ctx.prove('request-unchanged', names.chunks == chunks)
    ctx.prove('installed-only-grow', z3.Implies(s.I0(x), s.I.has(x)))
    ctx.prove('installed:same-set', calc.installed_features is s.I)
    if st == 'raise':
        ctx.prove('raise:because-a-call-failed', r is s.failed, repr(r))
        if isinstance(r, CalculatorException):
            T = calc.features_to_install
            ctx.prove('raise:queue-as-before', isinstance(T, Ids) and z3_same(ctx, T.has(x), s.T0(x)))
            ctx.prove('raise:nothing-installed', s.I.has is s.I0)
            ctx.cover('unknown feature')
        else:
            ctx.cover('a feature fails')
        return
    want = z3.Implies(inr, s.I.has(goal)) if not skip else z3.Implies(z3.And(inr, w.known(goal)), s.I.has(goal))
    ctx.prove('every-requested-feature-is-installed', want)
    ctx.prove('installs-only-what-is-needed', z3.Implies(z3.And(s.I.has(x), z3.Not(s.I0(x))), w.rank(x) <= s.R))
    ctx.prove('set-up-afterwards', s.dirty is False)
    ctx.prove('queue-closed', calc.features_to_install.closed)
    ctx.prove('queue-only-grows', z3.Implies(s.T0(x), calc.features_to_install.has(x)))
    ctx.cover('installed')


def z3_same(ctx, a, b):
    return ctx.entails(a == b)


class Named(Over):
    """over the requested names: the feature being installed is the loop's own"""

    def __init__(self, s, kind, n, goal, current=None):
        super().__init__(s, kind, n, goal)
        self.current = current

    def havoc(self, it, fr, k):
        super().havoc(it, fr, k)
        if self.current is not None:
            self.current[0] = self.s.w.el[self.kind](self.n, z3.simplify(k))


def u_queue(ctx):
    """add_feature_to_be_installed: the queue stays closed, and what is added is known"""
    it = Interp(ctx)
    s = State(ctx)
    w, calc, T = s.w, s.calc, s.T
    name = w.point(ctx.int('name'))
    state = {'first': True}
    x = s.x
    kx = ['deps', 'subs'][ctx.choose(2, 'need')]
    j, dx, inr = w.member(kx, x, 'need')
    need = z3.And(inr, w.meta(x)) if kx == 'subs' else inr
    # other features may be in the queue already whose needs are still to come
    T.fresh()
    T0 = T.has
    w.fact(lambda y: z3.Implies(T0(y), w.known(y)))

    def news(new, old):
        """what is in new and not in old is known, and what it needs is in new"""
        w.fact(lambda y: z3.Implies(old(y), new(y)))
        w.fact(lambda y: z3.Implies(new(y), w.known(y)))
        w.edgefact(lambda k, n, jj, d: z3.Implies(z3.And(new(n), z3.Not(old(n)), z3.BoolVal(True) if k == 'deps' else w.meta(n)), new(d))
                   if k in ('deps', 'subs') else True)

    def rec(it_, args, kw):
        if state['first']:
            state['first'] = False
            return NotImplemented
        t = w.point(args[1].t)
        ctx.prove('recursion:the-calculator', args[0] is calc and calc.features_to_install is T)
        ctx.prove('recursion:of-smaller-rank', w.rank(t) < w.rank(name))
        old = T.has
        if ctx.branch(old(t)):
            return None
        T.fresh()
        if ctx.choose(2, 'fails') == 1:
            s.failed = CalculatorException('Feature not found')
            raise PyRaise(s.failed)
        news(T.has, old)
        ctx.assume(T.has(t))
        return None
    it.contracts[ModularCalculator.add_feature_to_be_installed] = rec

    class Needs(LoopSpec):
        def __init__(self, kind, n):
            self.kind, self.n = kind, n

        def init(self, it_, fr):
            self.old = T.has
            self.y = w.point(ctx.int('y'))
            self.p, self.d, self.inr = w.member(self.kind, self.n, 'p')

        def havoc(self, it_, fr, k):
            T.fresh()
            new = T.has
            news(new, self.old)
            w.edgefact(lambda kind, n, jj, d: z3.Implies(z3.And(n == self.n, jj < k), new(d)) if kind == self.kind else True)

        def step(self, it_, fr, k):
            has = T.has
            ctx.prove('%s:only-grows' % self.kind, z3.Implies(self.old(x), has(x)))
            ctx.prove('%s:known' % self.kind, z3.Implies(has(x), w.known(x)))
            ctx.prove('%s:new-ones-closed' % self.kind, z3.Implies(z3.And(has(x), z3.Not(self.old(x)), need), has(dx)))
            ctx.prove('%s:queued' % self.kind, z3.Implies(z3.And(self.inr, self.p <= k), has(self.d)))

        def may_write(self, obj):
            return obj is T

    def spec(it_, node, fr, seq):
        if isinstance(seq, SList) and seq.chunks and hasattr(seq.chunks[0][1], 'owner'):
            return Needs(*seq.chunks[0][1].owner)
        return None
    it.loop_specs.append(spec)
    st, r = run(it, ModularCalculator.add_feature_to_be_installed, calc, Fid(w, name))
    has = T.has
    ctx.prove('same-queue', calc.features_to_install is T)
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.prove('raise:unknown-feature', r is s.failed or ctx.entails(z3.Not(w.known(name))))
        ctx.cover('unknown feature')
        return
    ctx.prove('queued', has(name))
    ctx.prove('known', z3.Implies(has(x), w.known(x)))
    ctx.prove('only-grows', z3.Implies(T0(x), has(x)))
    ctx.prove('new-ones-closed', z3.Implies(z3.And(has(x), z3.Not(T0(x)), need), has(dx)))
    if ctx.entails(T0(name)):
        ctx.prove('already-queued:unchanged', has is T0)
        ctx.cover('already queued')
    else:
        ctx.cover('queued')


def u_meta(ctx):
    """MetaFeature.install asks for exactly its subfeatures"""
    it = Interp(ctx)
    calc = mk_modular(ctx)
    subs = SOpaque('subfeatures')

    class M_(MetaFeature):
        pass
    M_.subfeatures = staticmethod(lambda: None)
    it.overrides[M_.subfeatures] = lambda it_, *a: subs
    calls = []

    def inst(it_, args, kw):
        calls.append((args, kw))
        return None
    it.contracts[ModularCalculator.install_features] = inst
    st, r = run(it, MetaFeature.install.__func__, M_, calc)
    ctx.prove('no-error', st == 'ok', repr(r))
    ctx.prove('one-request', len(calls) == 1)
    if len(calls) == 1:
        ctx.prove('of-its-subfeatures', calls[0][0][0] is calc and calls[0][0][1] is subs and not calls[0][1].get('skipMissing'))
    ctx.cover('meta')


# ---------------------------------------------------------------- operators are kept in the order of the layout

class Sym_(SExt):
    """an operator symbol of a level of precedence"""
    pyclass = str

    def __init__(self, level, t):
        self.level, self.t = level, t

    def sx(self, it, op, *a):
        if op == 'inset':
            # an arbitrary symbol of a level is in a set made of whole levels iff its level is one of them
            ls = [i for i, p in enumerate(op_map) if p & set(a[0])]
            if set(a[0]) != set().union(*[op_map[i] for i in ls]):
                raise Undecided('a set of symbols that is not made of whole levels')
            return SBool(z3.Or([self.level == i for i in ls])) if ls else False
        return NotImplemented


class Level(SExt):
    """one level of the list of operators: a nonempty dictionary"""
    pyclass = dict

    def __init__(self, ctx, i, lv):
        self.lv, self.written = lv, []
        self.n = ctx.int('symbols')
        self.rtl = ctx.bool('rtl')          # the operators of a level share their direction
        ctx.assume(self.n >= 1)
        self.base = SBase('symbols', self.n, lambda c, j: (Sym_(lv, c.int('symbol')), SOpaque('op', attrs={'rtl': SBool(self.rtl)})))
        self.base.mk_alias = False

    def sx(self, it, op, *a):
        if op == 'call' and a[0] == 'items':
            return SList.of(self.base)
        if op == 'setitem':
            self.written.append(a)
            it.ctx.log_write(self, 'setitem')
            return None
        return NotImplemented


def u_add_op(ctx):
    it = Interp(ctx)
    calc = mk_modular(ctx)
    calc.op_map = op_map
    lv = ctx.choose(len(op_map), 'level')
    sym = sorted(op_map[lv])[0]
    n = ctx.int('n')
    ctx.assume(n >= 0)
    L = z3.Function('L', z3.IntSort(), z3.IntSort())
    levels = SBase('ops', n, lambda c, i: c.alloc(Level(c, i, L(i))))
    levels.mk_alias = False
    ops = ctx.alloc(SList.of(levels))
    calc.ops = ops

    def ordered(i):
        ctx.assume(z3.And(L(i) >= 0, L(i) < len(op_map)))
        ctx.assume(z3.Implies(z3.And(i > 0, i < n), L(i - 1) < L(i)))

    class Outer(LoopSpec):
        def havoc(self, it_, fr, k):
            ordered(k)
            ctx.assume(z3.Implies(k > 0, L(k - 1) < lv))
            self.k = k
            where.append(k)

        def step(self, it_, fr, k):
            ctx.prove('levels:passed-only-when-lower', L(k) < lv)

        def may_write(self, obj):
            return obj is ops or isinstance(obj, Level)

    class Inner(LoopSpec):
        def __init__(self, level):
            self.level = level

        def havoc(self, it_, fr, k):
            ctx.assume(z3.Implies(k > 0, self.level.lv < lv))

        def step(self, it_, fr, k):
            ctx.prove('symbols:passed-only-when-lower', self.level.lv < lv)

        def may_write(self, obj):
            return obj is ops or isinstance(obj, Level)

    where = []

    def spec(it_, node, fr, seq):
        s = it_.resolve(seq)
        inner = s.it if hasattr(s, 'it') else s
        if inner is ops:
            return Outer()
        if isinstance(inner, SList) and inner.chunks and inner.chunks[0][1].name == 'symbols':
            for t, o in levels.memo:
                if o.base is inner.chunks[0][1]:
                    return Inner(o)
        return None
    it.loop_specs.append(spec)
    op = SOpaque('operator', attrs={'symbol': sym, 'rtl': SBool(ctx.bool('rtl'))})
    st, r = run(it, ModularCalculator.add_op, calc, op)
    written = [(t, o) for t, o in levels.memo if o.written]
    base = [('seg', levels, z3.IntVal(0), n)]
    if st == 'raise':
        ctx.prove('raise:calculator-error', isinstance(r, CalculatorException), repr(r))
        ctx.prove('raise:nothing-changed', not written and calc.ops is ops and same_chunks(ctx, ops, base))
        ctx.cover('direction differs')
        return
    ctx.prove('same-list', calc.ops is ops)
    new = [c for c in ops.chunks if c[0] == 'el' and type(c[1]) is dict]
    if written:
        ctx.prove('into-one-level', len(written) == 1 and not new and same_chunks(ctx, ops, base))
        t, o = written[0]
        ctx.prove('into-its-own-level', o.lv == lv)
        ctx.prove('one-direction-per-level', o.rtl == op.attrs['rtl'].t)
        ctx.prove('as-its-symbol', len(o.written) == 1 and o.written[0][0] == sym and o.written[0][1] is op)
        ctx.cover('own level')
        return
    ctx.prove('one-new-level', len(new) == 1 and new[0][1] == {sym: op})
    i = [j for j, c in enumerate(ops.chunks) if c is new[0]][0]
    before, after = ops.chunks[:i], ops.chunks[i + 1:]

    def span(ch):
        """a stretch of the previous list -> (lo, hi)"""
        lo = hi = None
        for c in ch:
            a, b = (c[2], c[3]) if c[0] == 'seg' else [(t, t + 1) for t, o in levels.memo if o is c[1]][0]
            if lo is None:
                lo = a
            else:
                ctx.prove('levels:kept', hi == a)
            hi = b
        return lo, hi
    a, b = span(before), span(after)
    cut = a[1] if a[1] is not None else z3.IntVal(0)
    ctx.prove('levels:from-the-first', a[0] == 0 if a[0] is not None else True)
    ctx.prove('levels:none-left-out', z3.And(b[0] == cut, b[1] == n) if b[0] is not None else cut == n)
    ordered(cut)
    ordered(cut - 1)
    if not where:
        # the loop ran to its end: its invariant for the last level
        ctx.assume(z3.Implies(n > 0, L(n - 1) < lv))
    ctx.prove('new-level:above-the-lower', z3.Implies(cut > 0, L(cut - 1) < lv))
    ctx.prove('new-level:below-the-higher', z3.Implies(cut < n, L(cut) > lv))
    ctx.cover('new level')


def same_chunks(ctx, l, want):
    return len(l.chunks) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(l.chunks, want))


UNITS = [('install_features with one id', lambda ctx: u_install(ctx, True, False)),
         ('install_features with a list', lambda ctx: u_install(ctx, False, False), {'seconds': 200}),
         ('install_features with a list, leaving out what is missing', lambda ctx: u_install(ctx, False, True), {'seconds': 200}),
         ('add_feature_to_be_installed', u_queue),
         ('MetaFeature.install', u_meta),
         ('add_op', u_add_op)]


# ---------------------------------------------------------------- concrete oracle
from pyvc.concrete import shown
from modularcalculator.features.layout import parser_map

SEARCH_SECONDS = (45, 300)

CORPUS = [
    '1+2', '5 \\ 2', '5 % 3', '2^3', '-5', 'not true', 'true and false', '1 == 1 then 2 else 3', 'if(true,1,2)', "'a' +$ 'b'", "'a' ==$ 'b'",
    "'abc' =~ '(a)'", '[1,2,3]', '[1..5]', '[1,2][1]', 'sum([1,2])', 'mean(1,2)', 'x = 5', 'x', 'x = 5; x += 2; x', 'x++', '++x', 'x ||= 3', 'reset(@x)',
    'delete(@x)', '@x(1)', '@sin(3)', 'sin(30)', '30 degrees to radians', '5 meters', '5 m', '5 km', '5 kilometers to feet', '5 meters * 3 meters',
    '5 meters + 3', '10 kg * 5 m/s', 'pi', 'c', '0b101 & 0x11', '5 | 3', '~5', '1 << 2', '5 as hexadecimal', 'hex(20)', 'base(5,3)', '1E5', '50%',
    '12z5', '12.5.decimal', 'round(1.5)', 'floor(1.2)', 'log(5)', 'factorial(5)', 'gcd(4,6)', 'bin(5)', "upper('a')", "split('a,b',',')",
    "join(['a'],',')", "regexsplit('a','b')", "date('2020-01-01')", "'2020-01-01' +$ 'a'", "'2020-01-01' - '2019-01-01'", "'2020-01-01' + 5 days",
    '{PARAM1 + 1}', 'f = {PARAM1 * 2}; @f(3)', '(1+2)*3', '# hi', '1 # hi', '   ', '1;2\n3', 'simplify(5 N m)', 'compact(5000 m)', "system('SI')",
    '5 meters to system', 'erf(1)', '5 dec', 'decimal(5)', "length('a')", 'x = [1,2]; x', "'a", '(1', '[1,', 'f(', '1 +', '+', '5 5', '1/0', 'true',
    'false xor true', "concat('a','b')", '5 +$ 3', 'sort([3,1])', 'map([1],@sin)', 'filter([1,2],[true,false])', '5 to meters', 'meters', 'm',
    '1 meters/second to miles/hour', '20 celsius to fahrenheit', '1 day + 2 hours', '5 kilobytes', '1 as percentage', "'5' + '6'", "'x' + 1",
    "number('5')", 'string(5)', 'iff', '1 <~ 2', "'a' <$ 'b'", '5 MB', '5 ys', 'factors(12)', 'lcm(3,4)', '5 *$ 3', 'constant(5)', 'avogadro',
    'lightspeed', 'e', 'planck', '5 e', 'x=', '=5', 'x=y', '5=x', '1 then 2', 'then', 'else', 'to', 'as', '5 to', 'to meters', '5 as', '\\', '%', '~',
    '^^', '5 N m', '5 J/s', '5 kg m/s^2', '1 W * 3 s', '5 Pa * 2 m^2', '3 C * 2 V', '10 ft * 2 lb / s^2', '5 km/h', '3 m * 2 ft', '1 lm/m^2', '5 kWh',
    '3 Gy', '5 Sv', '8 bits * 3', '60 rpm', '5 Hz * 2 s', 'simplify(5 m kg/s^2)', '5 m/s * 5 s', '1 hour/minute', '5 mmol/s', '5 rad * 2 sr',
]


def closure(graph, names, have=()):
    """everything the names need -> set, or None when something needed does not exist"""
    out, todo = set(have), list(names)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        if n not in graph:
            return None
        out.add(n)
        todo += graph[n]['deps'] + (graph[n]['subs'] or [])
    return out


def synthetic(graph, log):
    """feature classes for a graph {id: {deps, after, subs}}"""
    out = {}
    for n, g in graph.items():
        ns = {'id': staticmethod(lambda n=n: n), 'dependencies': staticmethod(lambda g=g: list(g['deps']))}
        if g['after']:
            ns['after'] = staticmethod(lambda g=g: list(g['after']))
        if g['subs'] is None:
            ns['install'] = classmethod(lambda cls, c, n=n: log.append(n))
            out[n] = type(str(n), (Feature,), ns)
        else:
            ns['subfeatures'] = staticmethod(lambda g=g: list(g['subs']))

            def install(cls, c, n=n):
                log.append(n)
                MetaFeature.install.__func__(cls, c)
            ns['install'] = classmethod(install)
            out[n] = type(str(n), (MetaFeature,), ns)
    return out


def checked(graph, log, requests, c):
    queued = set()
    installed = set()
    for names, skip in requests:
        n0 = len(log)
        want = [n for n in names if n in graph] if skip else names
        req = closure(graph, want, queued)
        try:
            c.install_features(list(names), skipMissing=True) if skip else c.install_features(names[0] if len(names) == 1 else list(names))
            bad = None
        except CalculatorException as e:
            bad = e
        if req is None:
            if bad is None:
                return 'request %r of an unknown feature was accepted' % (names,)
            if len(log) != n0 or c.installed_features != installed:
                return 'request %r failed but installed %r' % (names, log[n0:])
            continue
        if bad is not None:
            return 'request %r refused: %s' % (names, bad)
        queued = req
        for i, n in enumerate(log[n0:]):
            before = installed | set(log[n0:n0 + i])
            if n in before:
                return 'request %r: %s installed twice' % (names, n)
            for d in graph[n]['deps']:
                # a meta feature calls its subfeatures' installation from its own
                if d not in before:
                    return 'request %r: %s installed before its dependency %s' % (names, n, d)
            for a in graph[n]['after']:
                if a in queued and a not in before:
                    return 'request %r: %s installed before %s, which it must follow' % (names, n, a)
        installed = installed | set(log[n0:])
        if set(log) != queued or c.installed_features != queued:
            return 'request %r: installed %r, wanted %r' % (names, sorted(map(str, c.installed_features ^ queued)), sorted(map(str, set(log) ^ queued)))
    return None


def k_graph(graph, requests):
    log = []
    c = ModularCalculator()
    c.feature_list = synthetic(graph, log)
    return checked(graph, log, requests, c)


def real_graph():
    fl = ModularCalculator().feature_list
    return {n: {'deps': list(f.dependencies()), 'after': list(f.after()), 'subs': list(f.subfeatures()) if issubclass(f, MetaFeature) else None}
            for n, f in fl.items()}


def layout_order(c):
    names = [p['name'] for p in c.parsers]
    if names != [p for p in parser_map if p in names]:
        return 'parsers out of order: %r' % (names,)
    levels = []
    for p in c.ops:
        ls = {i for i, m in enumerate(op_map) for s in p if s in m}
        if len(ls) != 1:
            return 'operators %r share a level' % (list(p),)
        levels.append(ls.pop())
    if levels != sorted(set(levels)):
        return 'operator levels out of order: %r' % ([list(p) for p in c.ops],)
    if c.ops_list != {s: o for p in c.ops for s, o in p.items()}:
        return 'the table of operators is not that of the installed ones'
    for s in c.ops_list:
        if s not in c.ops_symbols:
            return 'the symbol %s is not recognised' % s
    return None


def k_real(requests):
    log = []
    c = ModularCalculator()
    for n, f in list(c.feature_list.items()):
        class Wrapped(f):
            @classmethod
            def install(cls, calculator, f=f, n=n):
                log.append(n)
                return f.install(calculator)
        c.feature_list[n] = Wrapped
    m = checked(real_graph(), log, requests, c)
    return m or (layout_order(c) if log else None)


def late(graph, requests):
    """does a later request bring a feature that an already installed one had to follow?"""
    have = set()
    for names, skip in requests:
        new = closure(graph, [n for n in names if n in graph] if skip else names, have)
        if new is None:
            continue
        if any(a in new - have for n in have for a in graph[n]['after']):
            return True
        have = new
    return False


def k_later(a, b):
    """two requests, the second of something the first would have had to follow"""
    c = ModularCalculator()
    try:
        c.install_features(a)
        c.install_features(b)
    except CalculatorException:
        return None
    except Exception as e:
        return 'installing %s and later %s fails internally: %s: %s' % (a, b, type(e).__name__, e)
    return None


def k_order(names, other, exprs):
    cs = []
    for ns in (names, other):
        c = ModularCalculator()
        for req in ns:
            c.install_features(list(req))
        cs.append(c)
    c, d = cs
    for what, x, y in (('features', c.installed_features, d.installed_features), ('parsers', [p['name'] for p in c.parsers], [p['name'] for p in d.parsers]),
                       ('operators', [sorted(p) for p in c.ops], [sorted(p) for p in d.ops]), ('functions', set(c.funcs) if hasattr(c, 'funcs') else None, set(d.funcs) if hasattr(d, 'funcs') else None),
                       ('constants', set(getattr(c, 'constants', ())), set(getattr(d, 'constants', ())))):
        if x != y:
            return '%s depend on the order of the request' % what
    for e in exprs:
        got = []
        for q in cs:
            try:
                got.append([shown(r.value, r.unit, q) if hasattr(r, 'value') else None for r in q.calculate(e).results])
            except CalculatorException:
                got.append('error')
        if got[0] != got[1]:
            return '%s gives %r or %r depending on the order of the request' % (e, got[0], got[1])
    return None


_SUBSETS = {}


def k_subset(names, exprs):
    key = tuple(names)
    if key not in _SUBSETS:
        if len(_SUBSETS) > 40:
            _SUBSETS.clear()
        c = _SUBSETS[key] = ModularCalculator()
        c.install_features(list(names))
    c = _SUBSETS[key]
    for e in exprs:
        try:
            c.calculate(e)
        except CalculatorException as x:
            if not str(getattr(x, 'message', x)):
                return '%r: an error without a message' % e
        except RecursionError:
            raise
        except Exception as x:
            return '%r fails internally: %s: %s' % (e, type(x).__name__, x)
    return None


def k_actual(_):
    """the actual features: every declared id exists, the graph is acyclic, only meta features install features"""
    import ast
    import os
    import modularcalculator
    g = real_graph()
    state = {}

    def visit(n, path):
        if n in path:
            return 'cycle %r' % (path[path.index(n):] + [n],)
        if n in state:
            return None
        if n not in g:
            return 'no feature %s (declared by %s)' % (n, path[-1:])
        for m in g[n]['deps'] + (g[n]['subs'] or []) + g[n]['after']:
            r = visit(m, path + [n])
            if r:
                return r
        state[n] = 1
    for n in g:
        r = visit(n, [])
        if r:
            return r
    top = os.path.dirname(modularcalculator.__file__)
    for base, _, files in os.walk(os.path.join(top, 'features')):
        for f in files:
            if f.endswith('.py') and os.path.join(base, f) != os.path.join(top, 'features', 'feature.py'):
                for node in ast.walk(ast.parse(open(os.path.join(base, f)).read())):
                    if isinstance(node, ast.Attribute) and node.attr in ('install_features', 'load_preset', 'installed_features', 'features_to_install', 'setup'):
                        return '%s uses %s' % (f, node.attr)
    for n, g_ in g.items():
        c = ModularCalculator()
        if g_['subs'] is not None and c.feature_list[n].install.__func__ is not MetaFeature.install.__func__:
            return 'the meta feature %s has its own install' % n
        break
    c = ModularCalculator()
    for p in c.list_presets():
        d = ModularCalculator(p)
        if d.installed_features != closure(g, c.preset_list[p]):
            return 'preset %s: installed %r' % (p, sorted(d.installed_features ^ closure(g, c.preset_list[p])))
        m = layout_order(d)
        if m:
            return 'preset %s: %s' % (p, m)
    return None


KINDS = {'graph': k_graph, 'real': k_real, 'order': k_order, 'subset': k_subset, 'later': k_later, 'actual': k_actual}
RULE = 'random acyclic feature graphs with requests; random subsets of the actual features in random orders; a corpus of expressions over them'


def rnd_graph(rng):
    n = rng.randint(1, 9)
    ids = ['f%d' % i for i in range(n)]
    order = ids[:]
    rng.shuffle(order)
    g = {}
    dens = rng.choice([0.1, 0.25, 0.5])
    for i, x in enumerate(order):
        low = order[:i]
        pick = lambda p: [y for y in rng.sample(low, len(low)) if rng.random() < p]
        g[x] = {'deps': pick(dens), 'after': pick(dens), 'subs': pick(0.5) if rng.random() < 0.25 else None}
        if rng.random() < 0.04:
            g[x]['deps'].insert(rng.randint(0, len(g[x]['deps'])), 'missing')
        if rng.random() < 0.1:
            g[x]['after'].insert(0, 'missing')
    return {k: g[k] for k in rng.sample(ids, n)}


def rnd_requests(rng, ids, k, unknown=0.1):
    out = []
    for _ in range(k):
        names = rng.sample(ids, rng.randint(1, min(len(ids), rng.choice([2, 4, 12]))))
        if rng.random() < 0.2:
            names.append(rng.choice(names))
        if rng.random() < unknown:
            names.insert(rng.randint(0, len(names)), 'nosuch')
        out.append([names, rng.random() < 0.2])
    return out


def search(S):
    rng = S.rng
    S.run('actual', 0)
    ids = sorted(ModularCalculator().feature_list)
    for n in ids:
        S.run('real', [[[n], False]])
    graph = real_graph()
    need = {b: closure(graph, [b]) for b in ids}
    for a in ids:
        for b in ids:
            if any(x in need[b] - need[a] for n in need[a] for x in graph[n]['after']):
                S.run('later', a, b)
    dependents = {a: [b for b in ids if a in need[b]] for a in ids}
    some = rng.sample(ids, len(ids))
    for n in some[:40]:         # one feature alone; all features but one and those that need it
        S.run('subset', [n], rng.sample(CORPUS, 60))
        S.run('subset', [x for x in ids if x not in dependents[n] and need[x].isdisjoint(dependents[n])], rng.sample(CORPUS, 60))
    k = 0
    while S.time_left():
        k += 1
        for _ in range(6):
            g = rnd_graph(rng)
            S.run('graph', g, rnd_requests(rng, sorted(g), rng.randint(1, 4)))
        if k % 2 == 0:
            reqs = rnd_requests(rng, ids, rng.randint(1, 4))
            S.run('real', reqs if not late(graph, reqs) else reqs[:1])
        if k % 3 == 0:
            sub = rng.sample(ids, rng.choice([3, 8, 20, 40, 83]))
            other = rng.sample(sub, len(sub))
            cut = rng.randint(0, len(other))
            split = [r for r in (other[:cut], other[cut:]) if r]
            S.run('order', [sub], [other] if late(graph, [(r, False) for r in split]) else split, rng.sample(CORPUS, 12))
        S.run('subset', rng.sample(ids, rng.choice([0, 1, 1, 2, 3, 5, 10, 20])), rng.sample(CORPUS, 25))
