"""Texts as sequences of pieces: constant strings, and segments of arbitrary characters."""
import z3

from .core import Undecided
from .values import SExt, SInt, SBool, is_sym
from . import models as M


class Seg:
    """n characters C(lo), ..., C(lo+n-1) of an arbitrary character sequence.  marks: character -> absolute index of its only
    occurrence in the whole sequence (or -1)"""

    def __init__(self, name, C, lo, n, marks, fold='', ghost=None):
        self.name, self.C, self.lo, self.n, self.marks, self.fold, self.ghost = name, C, z3.simplify(lo), z3.simplify(n), marks, fold, ghost

    def cut(self, a, n, fold=None):
        return Seg(self.name, self.C, self.lo + a, n, self.marks, self.fold if fold is None else fold, self.ghost)

    def char(self, i):
        t = self.C(z3.simplify(self.lo + i))
        if self.fold == 'upper':
            t = z3.If(z3.And(t >= 97, t <= 122), t - 32, t)
        elif self.fold == 'lower':
            t = z3.If(z3.And(t >= 65, t <= 90), t + 32, t)
        return t

    def same(self, o):
        return isinstance(o, Seg) and self.name == o.name

    def __repr__(self):
        return '%s[%s+%s]%s' % (self.name, self.lo, self.n, self.fold)


class Rep:
    """n times one character"""

    def __init__(self, c, n):
        self.c, self.n = c, z3.simplify(n)

    def __repr__(self):
        return '%s*(%s)' % (self.c, self.n)


def code_of(s):
    return z3.IntVal(ord(s))


class Code(SExt):
    """one character, by its code"""
    pyclass = str

    def __init__(self, t):
        self.t = z3.simplify(t)

    def __repr__(self):
        return 'chr(%s)' % self.t

    def sx(self, it, op, *a):
        if op in ('compare', 'rcompare') and a[0] in ('Eq', 'NotEq'):
            o = a[1]
            if isinstance(o, str):
                r = self.t == ord(o) if len(o) == 1 else z3.BoolVal(False)
            elif isinstance(o, Code):
                r = self.t == o.t
            else:
                raise Undecided('character compared with %r' % (o,))
            return SBool(z3.simplify(r if a[0] == 'Eq' else z3.Not(r)))
        if op == 'call' and a[0] == 'upper':
            return Code(z3.If(z3.And(self.t >= 97, self.t <= 122), self.t - 32, self.t))
        if op == 'call' and a[0] == 'lower':
            return Code(z3.If(z3.And(self.t >= 65, self.t <= 90), self.t + 32, self.t))
        if op == 'call' and a[0] == 'isdigit':      # of an ASCII character
            return SBool(z3.And(self.t >= 48, self.t <= 57))
        if op == 'truth':
            return z3.BoolVal(True)
        if op == 'len':
            return 1
        if op in ('binop', 'rbinop') and a[0] == 'Add' and isinstance(a[1], str):
            return M.opaque_str(it)
        if op == 'int':
            if it.ctx.branch(z3.And(self.t >= 48, self.t <= 57)):
                return SInt(z3.simplify(self.t - 48))
            M.raise_py(ValueError('invalid literal for int()'))
        if op == 'instr':
            name, s, rest = a
            if isinstance(s, str) and not rest:
                if name in ('find', 'index'):
                    r = z3.IntVal(-1)
                    for i in reversed(range(len(s))):
                        r = z3.If(self.t == ord(s[i]), z3.IntVal(i), r)
                    if name == 'index' and not it.ctx.branch(z3.Or(*[self.t == ord(c) for c in s])):
                        M.raise_py(ValueError('substring not found'))
                    return SInt(r)
                if name == '__contains__':
                    return SBool(z3.Or(*[self.t == ord(c) for c in s]))
        return NotImplemented


class Txt(SExt):
    pyclass = str

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if p == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = out

    def __repr__(self):
        return 'Txt(%r)' % (self.pieces,)

    @staticmethod
    def plen(p):
        return z3.IntVal(len(p)) if isinstance(p, str) else p.n

    def length(self):
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [self.plen(p) for p in self.pieces]))

    def split(self, it, t):
        """-> (before, after) at offset t"""
        ctx = it.ctx
        t = z3.simplify(t)
        pos = z3.IntVal(0)
        for i, p in enumerate(self.pieces):
            if ctx.entails(t == pos):
                return Txt(self.pieces[:i]), Txt(self.pieces[i:])
            n = self.plen(p)
            if isinstance(p, str):
                for k in range(1, len(p)):
                    if ctx.entails(t == pos + k):
                        return Txt(self.pieces[:i] + [p[:k]]), Txt([p[k:]] + self.pieces[i + 1:])
            elif ctx.entails(z3.And(t > pos, t < pos + n)):
                k = z3.simplify(t - pos)
                if isinstance(p, Rep):
                    a, b = Rep(p.c, k), Rep(p.c, n - k)
                else:
                    a, b = p.cut(z3.IntVal(0), k), p.cut(k, n - k)
                return Txt(self.pieces[:i] + [a]), Txt([b] + self.pieces[i + 1:])
            pos = z3.simplify(pos + n)
        if ctx.entails(t >= pos):
            return self, Txt([])
        raise Undecided('cut of %r at %s' % (self, t))

    def first(self, it):
        for p in self.pieces:
            if isinstance(p, str):
                return p[0]
            if it.ctx.branch(p.n > 0):
                return p.c if isinstance(p, Rep) else Code(p.char(z3.IntVal(0)))
        return None

    def find(self, it, s):
        """offset of the first occurrence of s as a term, by the marks"""
        if not isinstance(s, str):
            if isinstance(s, Txt) and len(s.pieces) == 1 and isinstance(s.pieces[0], str):
                s = s.pieces[0]
            elif isinstance(s, Txt):
                marks = s
                pos = z3.IntVal(0)
                for p in self.pieces:
                    if isinstance(p, Seg) and len(marks.pieces) == 1 and marks.pieces[0].same(p):
                        return pos
                    pos = pos + self.plen(p)
                raise Undecided('find %r' % (s,))
        pos = z3.IntVal(0)
        alts = []
        end = z3.IntVal(-1)
        for p in self.pieces:
            if isinstance(p, str):
                i = p.find(s)
                if i >= 0:
                    end = pos + i
                    break
                if len(s) > 1 and any(p.endswith(s[:j]) for j in range(1, len(s))):
                    raise Undecided('find %r across pieces' % s)
            elif isinstance(p, Rep):
                if s == p.c:
                    raise Undecided('find in repeated characters')
            else:
                key = s if not p.fold else getattr(s, p.fold)()
                if s not in p.marks and key not in p.marks:
                    raise Undecided('find %r in %r' % (s, p))
                m = p.marks.get(s, p.marks.get(key))
                alts.append((z3.And(m >= p.lo, m < p.lo + p.n), pos + m - p.lo))
            pos = pos + self.plen(p)
        r = end
        for c, t in reversed(alts):
            r = z3.If(c, t, r)
        return z3.simplify(r)

    def starts(self, it, s):
        s = s if isinstance(s, Txt) else Txt([s])
        mine = list(self.pieces)
        for q in s.pieces:
            if isinstance(q, str):
                while q:
                    if not mine:
                        return False
                    p = mine[0]
                    if isinstance(p, str):
                        k = min(len(p), len(q))
                        if p[:k] != q[:k]:
                            return False
                        mine[0], q = p[k:], q[k:]
                        if not mine[0]:
                            mine.pop(0)
                    elif isinstance(p, Seg):
                        if not it.ctx.branch(p.n > 0):
                            mine.pop(0)
                            continue
                        if not it.ctx.branch(p.char(z3.IntVal(0)) == ord(q[0])):
                            return False
                        q = q[1:]
                        mine[0] = p.cut(z3.IntVal(1), p.n - 1)
                    else:
                        raise Undecided('startswith %r' % (s,))
            else:
                p = mine.pop(0) if mine else None
                if not (isinstance(p, Seg) and isinstance(q, Seg) and p.name == q.name and it.ctx.entails(z3.And(p.lo == q.lo, p.n == q.n))):
                    raise Undecided('startswith %r' % (s,))
        return True

    def sx(self, it, op, *a):
        ctx = it.ctx
        if op == 'len':
            t = self.length()
            return t.as_long() if z3.is_int_value(t) else SInt(t)
        if op == 'truth':
            return self.length() > 0
        if op == 'getitem':
            i = a[0]
            if isinstance(i, slice):
                if i.step not in (None, 1):
                    raise Undecided('stepped slice')
                r, n = self, self.length()

                def at(x):
                    t = M.to_int(x)
                    if ctx.branch(t < 0):
                        t = t + n
                    return z3.simplify(t)
                if i.stop is not None:
                    r = r.split(it, at(i.stop))[0]
                if i.start is not None:
                    r = r.split(it, at(i.start))[1]
                return r
            t = M.to_int(i)
            if z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 0:
                c = self.first(it)
                if c is None:
                    M.raise_py(IndexError('string index out of range'))
                return c
            if ctx.branch(t < 0):
                t = z3.simplify(t + self.length())
            if not ctx.branch(z3.And(t >= 0, t < self.length())):
                M.raise_py(IndexError('string index out of range'))
            return self.split(it, t)[1].first(it)
        if op in ('compare', 'rcompare') and a[0] in ('Eq', 'NotEq'):
            o = a[1]
            o = o if isinstance(o, Txt) else Txt([o])
            if all(isinstance(p, str) for p in o.pieces):
                s = ''.join(o.pieces)
                r = bool(ctx.branch(self.length() == len(s))) and self.starts(it, s)
                return r if a[0] == 'Eq' else not r
            raise Undecided('texts compared')
        if op == 'binop' and a[0] == 'Add' and (isinstance(a[1], (str, Txt))):
            return Txt(self.pieces + (a[1].pieces if isinstance(a[1], Txt) else [a[1]]))
        if op == 'rbinop' and a[0] == 'Add' and isinstance(a[1], str):
            return Txt([a[1]] + self.pieces)
        if op == 'call':
            name, args = a[0], a[1]
            if name in ('lower', 'upper'):
                return Txt([getattr(p, name)() if isinstance(p, str) else p.cut(z3.IntVal(0), p.n, name) if isinstance(p, Seg) else Rep(getattr(p.c, name)(), p.n) for p in self.pieces])
            if name in ('find', 'index') and len(args) == 1:
                t = self.find(it, args[0])
                if name == 'index' and not ctx.branch(t >= 0):
                    M.raise_py(ValueError('substring not found'))
                return t.as_long() if z3.is_int_value(t) else SInt(t)
            if name == 'startswith':
                x = self
                if len(args) > 1:
                    st = it.resolve(args[1])
                    x = self.split(it, M.to_int(st))[1]
                return x.starts(it, args[0])
            if name == 'zfill' and len(args) == 1:
                w = M.to_int(args[0])
                if self.pieces and isinstance(self.pieces[0], str) and self.pieces[0][0] in '+-':
                    raise Undecided('zfill of a signed text')
                n = self.length()
                return Txt([Rep('0', z3.If(w > n, w - n, z3.IntVal(0)))] + self.pieces)
            if name == 'lstrip' and len(args) == 1 and isinstance(args[0], str):
                mine = list(self.pieces)
                while mine:
                    p = mine[0]
                    if isinstance(p, str):
                        mine[0] = p.lstrip(args[0])
                        if mine[0]:
                            break
                        mine.pop(0)
                    elif isinstance(p, Seg) and not ctx.branch(z3.And(p.n > 0, z3.Or(*[p.char(z3.IntVal(0)) == ord(c) for c in args[0]]))):
                        break
                    else:
                        raise Undecided('lstrip')
                return Txt(mine)
            if name == 'partition' and len(args) == 1 and isinstance(args[0], str):
                t = self.find(it, args[0])
                if ctx.branch(t < 0):
                    return (self, '', '')
                b, rest = self.split(it, t)
                return (b, args[0], rest.split(it, z3.IntVal(len(args[0])))[1])
            if name == 'split' and len(args) == 2 and isinstance(args[0], str) and args[1] == 1:
                t = self.find(it, args[0])
                if ctx.branch(t < 0):
                    return [self]
                b, rest = self.split(it, t)
                return [b, rest.split(it, z3.IntVal(len(args[0])))[1]]
        if op == 'instr':
            name, s, rest = a
            if isinstance(s, str) and name in ('startswith',):
                if all(isinstance(p, str) for p in self.pieces):
                    return s.startswith(''.join(self.pieces), *rest)
        if op == 'contains' and isinstance(a[0], str):
            return SBool(self.find(it, a[0]) >= 0)
        if op == 'int':
            if len(self.pieces) == 1 and isinstance(self.pieces[0], Seg) and self.pieces[0].ghost is not None:
                return SInt(self.pieces[0].ghost)
        if op == 'symiter':
            if len(self.pieces) == 1 and isinstance(self.pieces[0], Seg):
                p = self.pieces[0]
                return p.n, (lambda k: Code(p.char(k)))
        return NotImplemented
