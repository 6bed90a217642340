"""Running the real code on concrete inputs: replay, conformance and the
labelled bounded searches."""
from . import env  # noqa: F401
import random
import signal
import sys
import time
from fractions import Fraction

from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.number import Number
from modularcalculator.objects.exceptions import CalculatorException, CalculateException

_CALCS = {}


def calc(preset='Computing', fresh=False):
    if fresh:
        return ModularCalculator(preset) if isinstance(preset, str) else _features(preset)
    key = preset if isinstance(preset, str) else tuple(preset)
    if key not in _CALCS:
        _CALCS[key] = calc(preset, True)
    c = _CALCS[key]
    c.vars = {}
    c.update_engine_prec()
    c.number_set_rounding('ROUND_HALF_UP')
    return c


def _features(ids):
    c = ModularCalculator()
    c.install_features(list(ids))
    return c


def to_py(v, unit=None):
    """result value -> plain Python: Fraction, str, bool, list, ('error',)"""
    if isinstance(v, Number):
        return Fraction(int(v.num), int(v.den))
    if isinstance(v, Exception):
        return ('error',)
    if isinstance(v, list):
        return [to_py(x.value) for x in v]
    return v


def evaluate(expr, preset='Computing', c=None):
    """-> ('ok', last result) | ('error', exc) ; escaping exceptions propagate"""
    c = c or calc(preset)
    try:
        resp = c.calculate(expr)
    except CalculatorException as e:
        return 'error', e
    return 'ok', (resp.results[-1] if resp.results else None)


def value(expr, preset='Computing', c=None):
    st, r = evaluate(expr, preset, c)
    if st == 'error':
        return ('error',)
    return to_py(r.value) if r is not None else None


def canonical(n):
    """class invariant of Number on a concrete object -> message or None"""
    import math
    from decimal import Decimal
    if not isinstance(n.num, Decimal) or not isinstance(n.den, Decimal):
        return 'num/den are %s/%s' % (type(n.num).__name__, type(n.den).__name__)
    if n.num != int(n.num) or n.den != int(n.den):
        return 'num/den not integral: %s/%s' % (n.num, n.den)
    if n.den < 1:
        return 'denominator %s' % n.den
    if math.gcd(int(n.num), int(n.den)) != 1:
        return 'not in lowest terms: %s/%s' % (n.num, n.den)
    return None


class CaseTimeout(BaseException):
    pass


class time_limit:
    """ends a concrete case that does not finish"""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def ring(*a):
            raise CaseTimeout()
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


class Search:
    """Drives kinds of concrete checks; every case is (kind, args), args JSON-able."""

    def __init__(self, prop, kinds, seed, tier, seconds, known=()):
        self.prop, self.kinds, self.tier = prop, kinds, tier
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.t0 = time.time()
        self.deadline = self.t0 + seconds
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = known
        self.known_hit = {}
        self.per_kind = {}
        self.timeouts = []
        self.case_seconds = 20
        self.hang_fails = False

    def time_left(self):
        return time.time() < self.deadline and len(self.violations) < 3

    def run(self, kind, *args, nontrivial=True):
        self.evaluations += 1
        self.per_kind[kind] = self.per_kind.get(kind, 0) + 1
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(1100)         # the code under test runs with about the default limit, not the verifier's
        try:
            with time_limit(self.case_seconds):
                msg = self.kinds[kind](*args)
        except RecursionError:
            msg = None
        except CaseTimeout:
            self.timeouts.append(repr((kind, args))[:200])
            msg = 'did not finish in %d s' % self.case_seconds if self.hang_fails else None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            where = ' <- '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-3:][::-1])
            msg = 'exception %s: %s @ %s' % (type(e).__name__, e, where)
        finally:
            sys.setrecursionlimit(limit)
        if nontrivial:
            key = repr((kind, args))
            if len(self.distinct) < 500000:
                self.distinct.add(hash(key))
            if len(self.samples) < 6 and self.evaluations % 37 == 1:
                self.samples.append(key[:200])
        if msg is not None:
            for k in self.known:
                if k['kind'] == kind and k['args'] == list(args):
                    self.known_hit[k['id']] = msg
                    return
            self.violations.append({'kind': kind, 'args': list(args), 'message': msg})


# ------------------------------------------------------------ observing state
def shown(v, unit=None, c=None):
    """a value with its representation and unit, as comparable plain data"""
    c = c or calc()
    u = str(unit) if unit is not None else None
    if isinstance(v, Number):
        try:
            t = v.to_string(c)
        except Exception as e:
            t = 'TOSTRING-FAILED %s' % e
        return ('number', int(v.num), int(v.den), t, u)
    if isinstance(v, list):
        return ('list', tuple(shown(x.value, x.unit, c) if hasattr(x, 'value') else repr(x) for x in v), u)
    if isinstance(v, Exception):
        return ('error',)
    return (type(v).__name__, str(v), u)


def table(c):
    return {k: shown(v[0], v[1], c) for k, v in c.vars.items()}
