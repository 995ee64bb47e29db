"""Contracts of the sixteen-odd primitive operations, once per concrete digit type."""
from .spec import SPECS, Spec
from .state import Cfg
from .models import Mode
from . import contracts

RADIX = {'u8': 100, 'u16': 10 ** 4, 'u32': 10 ** 9, 'u64': 10 ** 19}
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}


def config(kind, w):
    def f():
        Mode.kind = kind
        Cfg.bval = 2 ** WIDTH[w] if kind == 'bin' else RADIX[w]
        Cfg.minb = Cfg.bval
        Cfg.binary = False
    return f


def shifts(f, w):
    """one analysis for each shift count"""
    def g(c, x, s, y):
        c.pin(s, 1, w - 1)
        f(c, x, s, y)
    return g


TYPES = [('Binary', w) for w in WIDTH] + [('Decimal', w) for w in WIDTH]
for _k, _w in TYPES:
    for _p in [p for p in SPECS if p.startswith(contracts.D) and SPECS[p].trait and not p.endswith('::from_bit')]:
        _s = Spec('<digit::%sDigit<%s> as digit::Digit>::%s' % (_k, _w, _p[len(contracts.D):]), shifts(SPECS[_p].f, WIDTH[_w]) if _p.endswith(('shl_carry_assign', 'shr_carry_assign')) else SPECS[_p].f,
                  cfg=config('bin' if _k == 'Binary' else 'dec', _w))
        _s.impl_of = _p
        SPECS[_s.path] = _s

# the provided bodies of the trait itself
DEFAULTS = {}
for _n in ('from_bit', 'double_carry_assign'):
    _s = Spec(contracts.D + _n + '#provided', SPECS[contracts.D + _n].f)
    _s.impl_of = contracts.D + _n
    SPECS[_s.path] = _s
    DEFAULTS[_s.path] = contracts.D + _n
