"""Independent arithmetic of physical quantities over exact rationals.

The scale and dimension of every unit come from data/units.json (written down once and reviewed), not from the code."""
import json
import os
from fractions import Fraction as F

from .concrete import Number, evaluate

_D = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'units.json')))
UNITS = {n: (u['dimension'], F(u['scale'])) for n, u in _D['units'].items()}
INFO = _D['units']
UNITS['Fahrenheit'] = ('temperature', F(5, 9))
DIMS = _D['dimensions']
AMBIGUOUS = _D['ambiguous']
OFFSET = ('Celsius', 'Fahrenheit')
BASE = sorted({d for v in DIMS.values() for d in v})
EXACT = sorted(n for n in UNITS if n != 'degrees')
BY_DIM = {}
for _n in EXACT:
    BY_DIM.setdefault(UNITS[_n][0], []).append(_n)
COMMON = [n for n in EXACT if not INFO[n]['prefix'] or INFO[n]['prefix'] in ('kilo', 'milli', 'mega', 'kibi', 'centi')]


class Unknown(Exception):
    """a unit the table does not list"""


def dims(units):
    out = {}
    for n, p in units:
        for d, e in DIMS[UNITS[n][0]].items():
            out[d] = out.get(d, 0) + e * p
    return {d: e for d, e in out.items() if e}


def scale(units):
    s = F(1)
    for n, p in units:
        s *= UNITS[n][1] ** p
    return s


def size(units):
    s = 1
    for n, p in units:
        x = UNITS[n][1]
        s *= max(x.numerator, x.denominator) ** abs(p)
    return s


def merge(units):
    out = {}
    for n, p in units:
        out[n] = out.get(n, 0) + p
    return {n: p for n, p in out.items() if p}


def unit_text(units):
    return ' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in units)


def num_text(x):
    return '(%d / %d)' % (x.numerator, x.denominator) if x.denominator != 1 else ('(%d)' % x.numerator if x < 0 else str(x.numerator))


def text(x, units):
    return num_text(x) + (' ' + unit_text(units) if units else '')


def read_unit(u):
    """a UnitPowerList of the calculator -> [(name, power)]"""
    if u is None:
        return []
    out = []
    for o in u.list():
        n = o.unit.names()[0]
        if n not in UNITS:
            raise Unknown(n)
        p = F(int(o.power.num), int(o.power.den))
        out.append((n, int(p) if p.denominator == 1 else p))
    return out


def read(v):
    return F(int(v.num), int(v.den))


TO_K = {'kelvin': lambda x: x, 'Celsius': lambda x: x + F('273.15'), 'Fahrenheit': lambda x: (x + F('459.67')) * F(5, 9)}
FROM_K = {'kelvin': lambda x: x, 'Celsius': lambda x: x - F('273.15'), 'Fahrenheit': lambda x: x * F(9, 5) - F('459.67')}


def lone(units):
    m = merge(units)
    return next(iter(m)) if len(m) == 1 and list(m.values()) == [1] else None


def convert(x, a, b):
    """-> Fraction | 'error' | None (not specified)"""
    if not a or not b:
        return 'error'
    if dims(a) != dims(b):
        return 'error'
    la, lb = lone(a), lone(b)
    oa, ob = la in OFFSET, lb in OFFSET
    if oa or ob:
        if la is None or lb is None:
            return None
        k = TO_K[la](x) if la in TO_K else x * UNITS[la][1]
        return FROM_K[lb](k) if lb in FROM_K else k / UNITS[lb][1]
    return x * scale(a) / scale(b)
