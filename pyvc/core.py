"""Path exploration, obligations and solver back ends of the verifier.

A *unit* is a Python callable ``unit(ctx)`` that builds symbolic inputs
satisfying a function's precondition, interprets the function's real source
(pyvc.interp) and states its postconditions with ``ctx.prove``.  The unit is
executed once per path: every symbolic branch consults ``ctx.branch``, which
replays a recorded decision prefix and queues the unexplored alternative.
"""
import os
import subprocess
import tempfile
import time

import z3


class PathDone(BaseException):
    """The current path ends here (infeasible, or a cut loop iteration)."""


class Undecided(BaseException):
    """The verifier cannot decide this unit (unsupported construct, limit)."""


class PyRaise(BaseException):
    """A Python exception propagating through interpreted code."""

    def __init__(self, exc):
        self.exc = exc


FEAS_MS = 400
PROVE_MS = 6000


class Stats:
    def __init__(self):
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}

    def add(self, backend, t):
        self.solver_time += t
        self.queries += 1
        self.backends[backend] = self.backends.get(backend, 0) + 1


STATS = Stats()
CROSS_CHECK = False          # thorough tier: re-discharge with cvc5


def _cvc5_cli(asserts, ms):
    s = z3.Solver()
    s.add(*asserts)
    text = s.to_smt2()
    logic = '(set-logic ALL)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(logic + text)
        name = fh.name
    try:
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % ms, name],
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(name)
    return out if out in ('sat', 'unsat') else 'unknown'


def has_quant_or_str(asserts):
    seen = set()
    todo = list(asserts)
    quant = seq = uf = ints = False
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            quant = True
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if e.sort().kind() == z3.Z3_SEQ_SORT:
                seq = True
            if e.sort().kind() == z3.Z3_INT_SORT:
                ints = True
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                uf = True
            todo.extend(e.children())
    return quant, seq, uf, ints


def solve(asserts, ms=PROVE_MS):
    """-> (status 'unsat'|'sat'|'unknown', model or None, backend, seconds)"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(min(ms, 2500)))
    s.add(*asserts)
    r = s.check()
    backend = 'z3'
    model = None
    if r == z3.sat:
        model = s.model()
    if r == z3.unknown:
        quant, seq, uf, ints = has_quant_or_str(asserts)
        if not quant and not seq and not uf and not ints:
            s2 = z3.Tactic('qfnra-nlsat').solver()
            s2.set('timeout', int(ms))
            s2.add(*asserts)
            r = s2.check()
            backend = 'z3-nlsat'
            if r == z3.sat:
                model = s2.model()
    if r == z3.unknown:
        out = _cvc5_cli(asserts, int(ms))
        backend = 'cvc5'
        if out == 'unsat':
            r = z3.unsat
        elif out == 'sat':
            r = z3.sat
    if r == z3.unknown and ms > 2500:
        s = z3.Solver()
        s.set('timeout', int(ms))
        s.set('random_seed', 7)
        s.add(*asserts)
        r = s.check()
        backend = 'z3'
        if r == z3.sat:
            model = s.model()
    dt = time.time() - t0
    STATS.add(backend, dt)
    return str(r), model, backend, dt


class Obligation:
    __slots__ = ('unit', 'name', 'status', 'backend', 'time', 'model', 'detail', 'formula', 'path')

    def __init__(self, unit, name, status, backend='', time=0.0, model=None, detail='', formula='', path=None):
        self.unit, self.name, self.status = unit, name, status
        self.backend, self.time, self.model, self.detail, self.formula = backend, time, model, detail, formula
        self.path = path


class Ctx:
    def __init__(self, unit, decisions, deadline):
        self.unit = unit
        self.dec = list(decisions)
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_MS)
        self.obls = []
        self.alts = []          # alternative decision prefixes to explore
        self.counter = {}
        self.deadline = deadline
        self.trace = []
        self.notes = {}
        self.covers = []
        self.axioms_used = set()
        self.inputs = {}        # name -> z3 term, for counterexamples
        self.writes = None      # active write logs (list of lists)
        self.write_logs = []
        self.born = {}          # id(obj) -> (serial, obj)
        self.serial = 0
        self.rnds = []
        self.pairs = set()
        self.cof = {}
        self.steps = 0
        self.tabs = {}
        self.interps = []

    def notes_tab(self, name):
        return self.tabs.setdefault(name, {})

    # -- names
    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def real(self, base):
        return z3.Real(self.fresh_name(base))

    def int(self, base):
        return z3.Int(self.fresh_name(base))

    def bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def string(self, base):
        return z3.String(self.fresh_name(base))

    # -- allocation / frame bookkeeping
    def alloc(self, obj):
        self.serial += 1
        self.born[id(obj)] = (self.serial, obj)
        return obj

    def log_write(self, obj, what):
        for log in self.write_logs:
            log.append((obj, what))

    # -- assumptions
    def assume(self, c, *more):
        for m in more:
            self.assume(m)
        c = z3.simplify(c) if z3.is_expr(c) else z3.BoolVal(bool(c))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathDone()
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *cs):
        if time.time() > self.deadline:
            raise Undecided('time limit for this unit')
        t0 = time.time()
        r = self.solver.check(*cs)
        STATS.solver_time += time.time() - t0
        STATS.queries += 1
        return r

    def entails(self, c):
        """Is c certain on this path?  (False also when unknown.)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    # -- decisions
    def _next(self, n, prefer=0):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = prefer
            for k in range(n):
                if k != prefer:
                    self.alts.append(self.dec[:self.pos] + [k])
            self.dec.append(d)
        self.pos += 1
        return d

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
            val = (d == 0)
            self._add(c if val else z3.Not(c))
            return val
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if not t and not f:
            raise PathDone()
        if t and f:
            d = self._next(2)
            val = (d == 0)
            self._add(c if val else z3.Not(c))
            return val
        # forced: record so replay does not query again
        self.dec.append(0 if t else 1)
        self.pos += 1
        self._add(c if t else z3.Not(c))
        return t

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def choose(self, n, label=''):
        if n == 1:
            return 0
        d = self._next(n)
        self.trace.append('%s=%d' % (label, d))
        return d

    # -- obligations
    def prove(self, name, c, detail=''):
        if isinstance(c, bool):
            if c:
                self.obls.append(Obligation(self.unit, name, 'proved', 'evaluation'))
                return True
            c = z3.BoolVal(False)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.obls.append(Obligation(self.unit, name, 'proved', 'simplifier'))
            return True
        if time.time() > self.deadline:
            raise Undecided('time limit for this unit')
        r, model, backend, dt = solve(self.pc + [z3.Not(c)])
        st = {'unsat': 'proved', 'sat': 'refuted'}.get(r, 'unknown')
        if st == 'proved' and CROSS_CHECK and backend.startswith('z3'):
            out = _cvc5_cli(self.pc + [z3.Not(c)], 3000)
            if out == 'unsat':
                backend += '+cvc5'
            elif out == 'sat':
                st = 'unknown'
                detail += ' (z3 and cvc5 disagree)'
        vals = None
        if model is not None:
            vals = {}
            for k, t in self.inputs.items():
                try:
                    vals[k] = str(model.eval(t, model_completion=True))
                except Exception:
                    pass
        self.obls.append(Obligation(self.unit, name, st, backend, dt, vals, detail,
                                    '' if st == 'proved' else str(c)[:2000], list(self.trace)))
        return st == 'proved'

    def fail(self, name, detail):
        """An obligation that this path violates outright, if the path is feasible."""
        return self.prove(name, z3.BoolVal(False), detail)

    def cover(self, name):
        self.covers.append(name)


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.paths = 0
        self.covers = {}
        self.undecided = []
        self.wall = 0.0
        self.functions = set()
        self.contracts = set()
        self.axioms = set()
        self.notes = {}


def run_unit(name, fn, max_paths=600, seconds=60):
    res = UnitResult(name)
    t0 = time.time()
    work = [[]]
    deadline = t0 + seconds
    while work:
        if res.paths >= max_paths:
            res.undecided.append('more than %d paths' % max_paths)
            break
        if time.time() > deadline:
            res.undecided.append('unit time limit %ds' % seconds)
            break
        prefix = work.pop()
        ctx = Ctx(name, prefix, deadline)
        ended = False
        try:
            fn(ctx)
            ended = True
        except PathDone:
            pass
        except Undecided as e:
            res.undecided.append(str(e))
        except PyRaise as e:
            # an exception left the unit body: unit authors must catch expected ones
            ctx.obls.append(Obligation(name, 'no-unexpected-exception',
                                       'refuted' if ctx.solver.check() != z3.unsat else 'proved',
                                       detail='%s: %s' % (type(e.exc).__name__, e.exc), path=list(ctx.trace)))
        except RecursionError:
            res.undecided.append('recursion limit')
        except z3.Z3Exception as e:
            res.undecided.append('z3: %s' % e)
        except Exception as e:                  # an engine limitation, never a verdict
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])
            res.undecided.append('engine: %s: %s @ %s' % (type(e).__name__, e, where))
        res.paths += 1
        res.obls.extend(ctx.obls)
        res.axioms |= ctx.axioms_used
        for it in ctx.interps:
            res.functions |= it.used
            res.contracts |= it.under_contract
        for k, v in ctx.notes.items():
            res.notes[k] = v
        if ended:
            for c in ctx.covers:
                if res.covers.get(c) != 'sat':
                    ctx.solver.set('timeout', 3000)
                    r = str(ctx.solver.check())
                    res.covers[c] = r
        else:
            for c in ctx.covers:
                res.covers.setdefault(c, 'cut')
        work.extend(ctx.alts)
        if len(res.undecided) > 5:
            break
    res.wall = time.time() - t0
    return res
