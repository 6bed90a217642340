"""Symbolic values.  Everything else in the interpreter is a real Python object."""
import decimal
import z3


class Sym:
    pyclass = object


def _frac(x):
    return z3.RealVal(str(x))


class SBool(Sym):
    pyclass = bool

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t

    def __bool__(self):
        raise RuntimeError('native truth test of a symbolic bool')


class SInt(Sym):
    """A mathematical integer (z3 Int): lengths, indices, loop counters."""
    pyclass = int

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.IntVal(t)

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SNum(Sym):
    """An exact real number known to be a Decimal ('dec') or an int ('int').

    isint -- known integral (closure of integral operations)
    bound -- (c, k): |value| <= c * B**k, B the operand-size bound of the unit; None = unknown
    rnd   -- None, or (q, nb, db): the value is RND(q), the context-rounded quotient, with bounds
             of the integer numerator/denominator of q
    """

    def __init__(self, t, py='dec', isint=False, bound=None, rnd=None, nonneg=False):
        self.t, self.py, self.isint, self.bound, self.rnd = t, py, isint, bound, rnd

    @property
    def pyclass(self):
        return {'dec': decimal.Decimal, 'int': int, 'float': float}[self.py]

    def __repr__(self):
        return 'SNum<%s>(%s)' % (self.py, self.t)


class SStr(Sym):
    pyclass = str

    def __init__(self, t, view=None):
        self.t = t
        self.view = view or {}

    def __repr__(self):
        return 'SStr(%s)' % self.t


class SAny(Sym):
    """A value of unknown type.  ``options`` maps a tag to a factory; the tag is
    chosen (path split) the first time its type matters."""

    def __init__(self, name, options):
        self.name, self.options = name, options
        self.value = None
        self.resolved = False

    def resolve(self, ctx):
        if not self.resolved:
            tags = list(self.options)
            k = ctx.choose(len(tags), 'type(%s)' % self.name)
            self.value = self.options[tags[k]](ctx)
            self.resolved = True
        return self.value

    def __repr__(self):
        return 'SAny(%s)' % self.name


class SOpaque(Sym):
    """An object of a known class about which nothing else is known.  Attribute
    access is refused unless given in ``attrs``."""

    def __init__(self, name, pyclass=object, attrs=None, term=None, truth=None):
        self.name = name
        self._pyclass = pyclass
        self.attrs = attrs if attrs is not None else {}
        self.term = term
        self.truth = truth

    @property
    def pyclass(self):
        return self._pyclass

    def __repr__(self):
        return 'SOpaque(%s:%s)' % (self.name, self._pyclass.__name__)


class SBase:
    """The initial content of a symbolic sequence: length n and an element factory."""

    def __init__(self, name, n, mk):
        self.name, self.n, self.mk = name, n, mk
        self.memo = []      # (index term, object)

    def get(self, ctx, i):
        i = z3.simplify(i)
        for j, o in self.memo:
            if j.eq(i):
                return o
        for j, o in self.memo:
            if ctx.entails(j == i):
                return o
        if self.mk_alias:
            for j, o in self.memo:
                if ctx.branch(j == i):
                    return o
        o = self.mk(ctx, i)
        self.memo.append((i, o))
        return o

    mk_alias = True


class SList(Sym):
    """A Python list of symbolic length: chunks ('seg', base, lo, hi) | ('el', value)."""
    pyclass = list

    def __init__(self, chunks=None):
        self.chunks = list(chunks or [])

    @staticmethod
    def of(base):
        return SList([('seg', base, z3.IntVal(0), base.n)])

    def length(self):
        total = z3.IntVal(0)
        n = 0
        for c in self.chunks:
            if c[0] == 'el':
                n += 1
            else:
                total = total + (c[3] - c[2])
        return z3.simplify(total + n)

    def copy(self):
        return SList(self.chunks)

    def __repr__(self):
        return 'SList(%s)' % ', '.join('el' if c[0] == 'el' else '%s[%s:%s]' % (c[1].name, c[2], c[3]) for c in self.chunks)


class SRange(Sym):
    pyclass = range

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SEnumerate(Sym):
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class SZip(Sym):
    def __init__(self, its):
        self.its = its


class SReversed(Sym):
    def __init__(self, it):
        self.it = it


class SDict(Sym):
    """A dict with symbolic string keys: an unknown initial content plus an
    ordered list of updates.  Lookup of a key walks the updates newest first,
    branching on key equality; the initial content is a memo of unknown entries."""
    pyclass = dict

    def __init__(self, name, mkval, updates=None, memo=None, empty=False):
        self.name, self.mkval = name, mkval
        self.updates = updates if updates is not None else []   # ('set', key, value) | ('del', key)
        self.memo = memo if memo is not None else []            # (key term, present Bool, value)
        self.empty = empty

    def copy(self):
        return SDict(self.name, self.mkval, list(self.updates), self.memo, self.empty)

    def __repr__(self):
        return 'SDict(%s,%d)' % (self.name, len(self.updates))


def is_sym(v):
    return isinstance(v, Sym)


class SSlice(Sym):
    """A substring base[lo:hi] of a symbolic text; offsets are z3 Ints with
    0 <= lo <= hi <= len(base) maintained by construction.  ``fold`` marks
    a case-folded view of the text."""
    pyclass = str

    def __init__(self, base, lo, hi, fold=None):
        self.base, self.lo, self.hi, self.fold = base, lo, hi, fold

    def length(self):
        return z3.simplify(self.hi - self.lo)

    def __repr__(self):
        return 'SSlice(%s[%s:%s])' % (self.base, self.lo, self.hi)


class SConcat(Sym):
    """Concatenation of concrete strings and symbolic pieces."""
    pyclass = str

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'SConcat(%r)' % (self.parts,)


class SMatch(Sym):
    """A successful match of a compiled pattern at the start of a SSlice."""

    def __init__(self, pattern, subject, spans):
        self.pattern, self.subject, self.spans = pattern, subject, spans


class SExt(Sym):
    """Extension point for unit-specific abstract values: ``sx(it, op, *args)``
    gives the meaning of one operation, or NotImplemented."""

    def sx(self, it, op, *args):
        return NotImplemented
