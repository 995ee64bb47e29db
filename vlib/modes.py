"""What the crate's type parameters stand for while a function is analysed."""
from . import state, poly
from .poly import P, fresh
from .state import Cfg
from .models import Mode


def enter(sp, prog):
    """sp.path decides: T is a digit, or the native storage of a binary or decimal digit"""
    Cfg.bval = None
    Cfg.minb = 100
    Cfg.binary = False
    Mode.Z = None
    Mode.S = None
    Mode.kind = 'digit'
    if 'digit::BinaryDigit<T>' in sp.path:
        Mode.kind = 'bin'
        Cfg.binary = True
    elif 'digit::DecimalDigit<T>' in sp.path:
        Mode.kind = 'dec'
    if callable(sp.cfg):
        sp.cfg()
