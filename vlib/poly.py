"""Polynomials with rational coefficients over interned atoms, with symbolic powers b^(linear expr).

A monomial is (atoms, exps): atoms = sorted tuple of (atom id, power>0); exps = sorted tuple of
(base name, lin) where lin = (sorted tuple of (atom id, int coef), int const).  Family atoms, such as
the prefix value F[v](p) of an array version v at position p, carry polynomial arguments.
"""
from fractions import Fraction

ATOMS = []          # id -> Atom
_INTERN = {}


class Atom:
    __slots__ = ('id', 'name', 'kind', 'args', 'fam', 'deps', 'info')

    def __init__(self, i, name, kind, fam, args, info):
        self.id, self.name, self.kind, self.fam, self.args, self.info = i, name, kind, fam, args, info
        d = set()
        for a in args:
            if isinstance(a, Poly):
                d |= a.deps()
        self.deps = frozenset(d)

    def __repr__(self):
        if self.fam is None:
            return self.name
        return '%s(%s)' % (self.name, ','.join(str(a) for a in self.args))


_counter = {}


def fresh(name, kind='int', info=None):
    n = _counter.get(name, 0)
    _counter[name] = n + 1
    i = len(ATOMS)
    a = Atom(i, name if n == 0 else '%s#%d' % (name, n), kind, None, (), info)
    ATOMS.append(a)
    return a


def reset():
    ATOMS.clear()
    _INTERN.clear()
    _counter.clear()


SIMPL = {}          # family kind (famkey[0]) -> function(famkey, name, args, kind, info) -> Poly or None


def famP(famkey, name, args, kind='int', info=None):
    args = tuple(args)
    f = SIMPL.get(famkey[0])
    if f is not None:
        r = f(famkey, name, args, kind, info)
        if r is not None:
            return r
    return P(fam(famkey, name, args, kind, info))


def fam(famkey, name, args, kind='int', info=None):
    """Interned family atom; args are Polys or hashables."""
    key = (famkey, tuple(a.key() if isinstance(a, Poly) else a for a in args))
    a = _INTERN.get(key)
    if a is None:
        i = len(ATOMS)
        a = Atom(i, name, kind, famkey, tuple(args), info)
        ATOMS.append(a)
        _INTERN[key] = a
    return a


def _num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


ONE = ((), ())


def lin_add(l1, l2):
    d = dict(l1)
    for m, c in l2:
        s = d.get(m, 0) + c
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return tuple(sorted(d.items()))


def mono_mul(m1, m2):
    if m1 == ONE:
        return m2
    if m2 == ONE:
        return m1
    a1, e1 = m1
    a2, e2 = m2
    if not a1:
        at = a2
    elif not a2:
        at = a1
    else:
        d = dict(a1)
        for a, p in a2:
            if a in d:
                if ATOMS[a].kind != 'bool':
                    d[a] += p
            else:
                d[a] = p
        at = tuple(sorted(d.items()))
    if not e1:
        ex = e2
    elif not e2:
        ex = e1
    else:
        d = dict(e1)
        for b, l in e2:
            if b in d:
                s = lin_add(d[b], l)
                if s:
                    d[b] = s
                else:
                    del d[b]
            else:
                d[b] = l
        ex = tuple(sorted(d.items()))
    return (at, ex)


class Poly:
    __slots__ = ('t', '_key', '_deps')

    def __init__(self, t=None):
        self.t = t if t is not None else {}
        self._key = None
        self._deps = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=lambda kv: (kv[0], ))) if len(self.t) > 1 else tuple(self.t.items())
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def deps(self):
        if self._deps is None:
            d = set()
            for at, ex in self.t:
                for a, _ in at:
                    d.add(a)
                    d |= ATOMS[a].deps
                for _, l in ex:
                    for (la, _e), _c in l:
                        for a, _ in la:
                            d.add(a)
                            d |= ATOMS[a].deps
            self._deps = frozenset(d)
        return self._deps

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            s = r.get(m)
            if s is None:
                r[m] = c
            else:
                s = _num(s + c)
                if s:
                    r[m] = s
                else:
                    del r[m]
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return Poly()
            if o == 1:
                return self
            return Poly({m: _num(c * o) for m, c in self.t.items()})
        if len(o.t) == 1:
            (m2, c2), = o.t.items()
            if m2 == ONE:
                return self * c2
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                s = r.get(m, 0) + c1 * c2
                if s:
                    r[m] = _num(s)
                else:
                    r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__

    def div(self, c):
        return self * Fraction(1, 1) * (Fraction(1) / c) if c != 1 else self

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def cval(self):
        return self.t.get(ONE, 0)

    def is_zero(self):
        return not self.t

    def as_atom(self):
        """atom id if this is exactly one atom with coefficient 1"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m[0]) == 1 and not m[1] and m[0][0][1] == 1:
                return m[0][0][0]
        return None

    def lin(self):
        """as an exponent: sorted term tuple; None if it has powers or non-integer coefficients"""
        for (at, ex), c in self.t.items():
            if ex or not isinstance(c, int):
                return None
        return tuple(sorted(self.t.items()))

    def degree_in(self, a):
        return max((p for (at, _) in self.t for x, p in at if x == a), default=0)

    def coef_of(self, a):
        """(coefficient polynomial of atom a to power 1, rest) for degree <= 1 in direct occurrences"""
        c, r = {}, {}
        for (at, ex), v in self.t.items():
            for i, (x, p) in enumerate(at):
                if x == a:
                    if p != 1:
                        return None
                    c[(at[:i] + at[i + 1:], ex)] = v
                    break
            else:
                r[(at, ex)] = v
        return Poly(c), Poly(r)

    def content_int(self):
        """True if all coefficients are integers"""
        return all(isinstance(c, int) for c in self.t.values())

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (at, ex), c in sorted(self.t.items(), key=lambda x: str(x[0])):
            fs = []
            for a, p in at:
                fs.append(repr(ATOMS[a]) + ('' if p == 1 else '^%d' % p))
            for b, l in ex:
                fs.append('%s^(%s)' % (b, linstr(l)))
            if not fs:
                fs = [str(c)]
            elif c == -1:
                fs[0] = '-' + fs[0]
            elif c != 1:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return ' + '.join(out).replace('+ -', '- ')


def linstr(l):
    return repr(Poly(dict(l)))


def const(c):
    c = _num(c)
    return Poly({ONE: c}) if c else Poly()


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({(((x.id, 1),), ()): 1})
    if isinstance(x, bool):
        return const(int(x))
    return const(x)


ZERO = Poly()
PONE = const(1)


def lin2poly(l):
    return Poly(dict(l))


class NonLinear(Exception):
    pass


def power(base, e):
    """base ** e, where base is a name ('b', '2') and e an integer polynomial"""
    e = P(e)
    if not e.t:
        return PONE
    l = e.lin()
    if l is None:
        raise NonLinear('exponent %r' % e)
    if base == '2':
        k = e.cval()
        if k:
            f = _num(Fraction(2) ** k)
            rest = e - k
            if not rest.t:
                return const(f)
            return Poly({((), (('2', rest.lin()),)): f})
    return Poly({((), ((base, l),)): 1})


def bpow(e):
    return power('b', e)


B = bpow(1)


class Subst:
    """An acyclic map atom id -> Poly, applied exhaustively; immutable (extend() makes a child)."""
    __slots__ = ('m', 'cache')

    def __init__(self, m=None):
        self.m = m or {}
        self.cache = {}

    def extend(self, a, p):
        m = dict(self.m)
        m[a] = p
        return Subst(m)

    def atom(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        if a in self.m:
            r = self.m[a] if self.once else self(self.m[a])
        else:
            at = ATOMS[a]
            r = None
            if at.fam is not None and at.deps and self._touch(at.deps):
                args = tuple(self(x) if isinstance(x, Poly) else x for x in at.args)
                if args != at.args:
                    q = famP(at.fam, at.name, args, at.kind, at.info)
                    na = q.as_atom()
                    if self.once:
                        r = q
                    else:
                        r = (self.atom(na) if na != a else q) if na is not None else self(q)
            if r is None:
                r = P(at)
        self.cache[a] = r
        return r

    once = False

    def _touch(self, deps):
        for d in deps:
            if d in self.m:
                return True
        return False

    def __call__(self, p):
        if not self.m:
            return p
        hit = False
        for d in p.deps():
            if d in self.m:
                hit = True
                break
        if not hit:
            return p
        r = {}
        acc = Poly()
        for (at, ex), c in p.t.items():
            need = False
            for a, _ in at:
                if a in self.m or self._touch(ATOMS[a].deps):
                    need = True
                    break
            if not need:
                for _, l in ex:
                    for (la, _e), _c in l:
                        for a, _ in la:
                            if a in self.m or self._touch(ATOMS[a].deps):
                                need = True
                                break
            if not need:
                s = r.get((at, ex), 0) + c
                if s:
                    r[(at, ex)] = s
                else:
                    r.pop((at, ex), None)
                continue
            q = const(c)
            for a, pw in at:
                f = self.atom(a)
                for _ in range(pw):
                    q = q * f
            for bname, l in ex:
                q = q * power(bname, self(lin2poly(l)))
            acc = acc + q
        return Poly(r) + acc


class Subst1(Subst):
    """simultaneous, non-recursive substitution"""
    __slots__ = ()
    once = True
