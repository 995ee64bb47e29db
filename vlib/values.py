"""Abstract values: Poly (every machine integer, bool, digit) or V(tag, meta, parts)."""
from .poly import Poly, P, const


class V:
    __slots__ = ('tag', 'meta', 'parts')

    def __init__(self, tag, meta=(), parts=()):
        self.tag, self.meta, self.parts = tag, meta, tuple(parts)

    def __eq__(self, o):
        return isinstance(o, V) and self.tag == o.tag and self.meta == o.meta and self.parts == o.parts

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.tag, self.meta, self.parts))

    def __repr__(self):
        return '%s%s%s' % (self.tag, list(self.meta) if self.meta else '', list(self.parts) if self.parts else '')


UNIT = V('agg', ('tuple',), ())


def tup(*xs):
    return V('agg', ('tuple',), xs)


def adt(path, variant, *xs):
    return V('agg', ('adt', path, variant), xs)


OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'
CFLOW = 'core::ops::control_flow::ControlFlow'
UBIG = 'ubig::UBig'
ERROR = 'result::Error'


def none():
    return adt(OPTION, 0)


def some(x):
    return adt(OPTION, 1, x)


def ok(x):
    return adt(RESULT, 0, x)


def err(x):
    return adt(RESULT, 1, x)


def ordering(s):
    """s in -1, 0, 1"""
    return adt(ORDERING, s + 1)


def slc(obj, lo, ln):
    return V('slice', (obj,), (P(lo), P(ln)))


def vec(obj):
    return V('vec', (obj,), ())


def darr(obj):
    """a fixed-size array of digits"""
    return V('darr', (obj,), ())


def ubig(obj):
    return adt(UBIG, 0, vec(obj))


def ptr(key, proj=()):
    return V('ptr', (key, tuple(proj)), ())


def elem(obj, pos):
    return V('elem', (obj,), (P(pos),))


def opaque(why):
    return V('opaque', (why,), ())


def vmap(f, v):
    """apply f to every Poly leaf"""
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, V):
        if not v.parts:
            return v
        return V(v.tag, v.meta, tuple(vmap(f, x) for x in v.parts))
    return v


def leaves(v, path=()):
    if isinstance(v, Poly):
        yield path, v
    elif isinstance(v, V):
        for i, x in enumerate(v.parts):
            for r in leaves(x, path + (i,)):
                yield r


def same_shape(a, b):
    if isinstance(a, Poly):
        return isinstance(b, Poly)
    if not isinstance(a, V) or not isinstance(b, V):
        return a is b
    return a.tag == b.tag and a.meta == b.meta and len(a.parts) == len(b.parts) and \
        all(same_shape(x, y) for x, y in zip(a.parts, b.parts))


def vget(v, path):
    for i in path:
        v = v.parts[i]
    return v


def vset(v, path, x):
    if not path:
        return x
    i = path[0]
    ps = list(v.parts)
    ps[i] = vset(ps[i], path[1:], x)
    return V(v.tag, v.meta, ps)
