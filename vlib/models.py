"""Models of the library functions and primitive operations the crate uses."""
from fractions import Fraction
from . import poly, state
from .poly import ATOMS, ONE, P, Poly, ZERO, PONE, const, fresh, famP, power, NonLinear
from .state import NeedSplit, NeedSplitBool, Undecided, Infeasible, Cfg, B, bp, piece, new_ver, Rope, bool_atom
from .values import *

R_RANGE = 'core::ops::range::Range'
R_FROM = 'core::ops::range::RangeFrom'
R_TO = 'core::ops::range::RangeTo'
R_FULL = 'core::ops::range::RangeFull'
R_INCL = 'core::ops::range::RangeInclusive'
R_TOINCL = 'core::ops::range::RangeToInclusive'

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}


class Panic_:
    pass


def panic(why):
    from .interp import Panic
    return Panic(why)


class Mode:
    """what the abstract type parameters stand for"""
    Z = None            # size_of::<T>() atom for the storage type
    kind = 'digit'      # 'digit': T is a digit; 'bin'/'dec': T is the storage of BinaryDigit<T>/DecimalDigit<T>


# ------------------------------------------------------------------ integers
def width(t):
    w = BITS.get(t['s'])
    if w is None:
        raise Undecided('width of %s' % t['s'])
    return w


def quot(st, n, d):
    """floor(n / d), d a positive constant"""
    n = st.n(n)
    if n.is_const():
        return const(int(Fraction(n.cval()) // d))
    # exact part
    ex, rest = {}, {}
    for m, c in n.t.items():
        if isinstance(c, int) and c % d == 0:
            ex[m] = c // d
        else:
            rest[m] = c
    rest = Poly(rest)
    exact = Poly(ex)
    if rest.is_const():
        c = rest.cval()
        if isinstance(c, int):
            return exact + (c // d)
    if isinstance(d, int) and d % 2 == 0 and all(isinstance(c, int) and c % 2 == 0 for m, c in rest.t.items() if m != ONE):
        # floor((2x + c) / 2d) = floor((x + floor(c / 2)) / d)
        return exact + quot(st, Poly({m: c // 2 for m, c in rest.t.items()}), d // 2)
    if not all(isinstance(c, int) for c in rest.t.values()):
        rest, exact = n, ZERO
    if not rest.is_const():
        def facts(A):
            x = P(A)
            return [A.args[0] - x * d, x * d + (d - 1) - A.args[0]]
        lo_ok = st.entails(rest)
        if not lo_ok:
            rest, exact = n, ZERO
        # small: is the quotient a constant?
        if lo_ok and st.entails(const(d - 1) - rest):
            return exact
        return exact + famP(('quot', d), 'q%d' % d, (rest,), 'nat', {'facts': facts})
    return exact


def quot2(st, n, e):
    """floor(n / 2^e) for a symbolic exponent e >= 0"""
    n, e = st.n(n), st.n(e)
    if e.is_const():
        return quot(st, n, 2 ** int(e.cval()))
    # exact multiple?
    inv = power('2', -e)
    m = st.n(n * inv)

    def integral(p):
        for (at, ex), c in p.t.items():
            if not isinstance(c, int):
                return False
            for bn, l in ex:
                if not st.entails(poly.lin2poly(l)):
                    return False
        return True
    exact, rest = {}, {}
    for (mm, c) in m.t.items():
        if integral(Poly({mm: c})):
            exact[mm] = c
        else:
            rest[mm] = c
    exact, rest = Poly(exact), Poly(rest)
    if not rest.t:
        return exact
    r = st.n(rest * power('2', e))
    if st.entails(r) and st.entails(power('2', e) - 1 - r):
        return exact

    def facts(A):
        x = P(A)
        n_, e_ = A.args
        return [n_ - x * power('2', e_), x * power('2', e_) + power('2', e_) - 1 - n_]
    return exact + famP(('quot2',), 'qs', (r, e), 'nat', {'facts': facts})


def divide(I, st, a, b):
    """(quotient, remainder) of non-negative integers; b a non-zero polynomial"""
    a, b = st.n(a), st.n(b)
    if b.is_const():
        d = b.cval()
        q = quot(st, a, d)
        return q, st.n(a - q * d)
    if Cfg.bval is None and len(b.t) == 1:
        (m, c), = b.t.items()
        if c == 1 and not m[0] and len(m[1]) == 1 and m[1][0][0] == '2':
            q = quot2(st, a, poly.lin2poly(m[1][0][1]))
            return q, st.n(a - q * b)
    if st.entails(a) and st.entails(b - 1 - a):
        return ZERO, a

    if Cfg.binary and len(b.t) == 1 and a.t:
        # a number of bits, divided by the width 8W of a digit (b = 2^8W)
        (m, c), = b.t.items()
        if not m[1] and len(m[0]) == 1 and m[0][0][1] == 1 and ATOMS[m[0][0][0]].kind == 'W' and c > 0 and c % 8 == 0:
            w = m[0][0][0]
            if len(a.t) == 1:
                (ma, ca), = a.t.items()
                if ca == 1 and not ma[1] and len(ma[0]) == 1 and ma[0][0][1] == 1 and ATOMS[ma[0][0][0]].kind == 'nat' and not ATOMS[ma[0][0][0]].deps \
                        and ma[0][0][0] not in st.sub.m:
                    q, r = P(fresh('words', 'nat')), P(fresh('bits', 'nat'))
                    st.solve(ma[0][0][0], q * b + r)
                    st.add(b - 1 - r)
                    if c == 8:
                        st.add(B() - 2 * power('2', r))
                    st.add(power('2', r) - 1)
                    st.add(power('2', r) * bp(q) - bp(q))
                    return q, r
            q = ZERO
            for (at, ex), k in a.t.items():
                if any(x == w for x, _ in at) and k % c == 0:
                    q = q + Poly({(tuple((x, e - (x == w)) for x, e in at if e > (x == w)), ex): k // c})
            r = st.n(a - q * b)
            if st.entails(r) and st.entails(b - 1 - r):
                return st.n(q), r

    def facts(A):
        x = P(A)
        n_, d_ = A.args
        return [n_ - x * d_, x * d_ + d_ - 1 - n_]
    q = famP(('divq',), 'dq', (a, b), 'nat', {'facts': facts})
    return q, st.n(a - q * b)


def int_cast(I, st, v, ft, t):
    if ft['k'] == 'bool' or t['s'] in ('usize',) or t['k'] == 'param':
        return v
    if ft['k'] == 'adt':
        return v
    w = width(t)
    if t['k'] == 'int' or ft['k'] == 'int':
        if v.is_const():
            return v
        raise Undecided('signed cast')
    fw = width(ft)
    if fw <= w:
        return v
    return wrap(st, v, w)


def wrap(st, v, w):
    """v mod 2^w"""
    v = st.n(v)
    if v.is_const():
        return const(v.cval() % (1 << w))
    M = 1 << w
    if st.entails(v) and st.entails(const(M - 1) - v):
        return v
    red = Poly({m: c % M if isinstance(c, int) else c for m, c in v.t.items()})
    red = Poly({m: c for m, c in red.t.items() if c})
    if red != v and red.t and st.entails(const(M - 1) - red):
        return red
    if not red.t:
        return ZERO
    if st.entails(v):
        q = quot(st, v, M)
        return st.n(v - q * M)
    # negative values: shift up
    if st.entails(v + M):
        q = quot(st, v + M, M)
        return st.n(v + M - q * M)
    raise Undecided('wrapping of %r' % v)


def bitand(st, a, b, w):
    if b.is_const():
        c = int(b.cval())
        if c == 0:
            return ZERO
        if (c & (c + 1)) == 0:
            k = c.bit_length()
            return wrap(st, a, k)
        # contiguous high mask 2^i*(2^j-1)
        i = (c & -c).bit_length() - 1
        h = c >> i
        if (h & (h + 1)) == 0:
            lowpart = wrap(st, a, i)
            x = wrap(st, a, i + h.bit_length())
            return st.n(x - lowpart)
    if a.is_const():
        return bitand(st, b, a, w)
    # 2^e - 1 masks
    m = st.n(b + 1)
    if len(m.t) == 1:
        (mm, c), = m.t.items()
        if c > 0 and not mm[0] and len(mm[1]) == 1 and mm[1][0][0] == '2':
            e = poly.lin2poly(mm[1][0][1]) + (Fraction(c).numerator.bit_length() - Fraction(c).denominator.bit_length())
            q = quot2(st, a, e)
            return st.n(a - q * power('2', e))
    raise Undecided('bit and')


def multiple_of_2(p, k):
    return all(isinstance(c, int) and c % (1 << k) == 0 for c in p.t.values())


def bitor(st, a, b):
    a, b = st.n(a), st.n(b)
    if not a.t:
        return b
    if not b.t:
        return a
    if a.is_const() and b.is_const():
        return const(int(a.cval()) | int(b.cval()))
    for x, y in ((a, b), (b, a)):
        # largest k with 2^k | x
        k = 200
        for c in x.t.values():
            if not isinstance(c, int):
                k = 0
                break
            k = min(k, (c & -c).bit_length() - 1)
        if k and st.entails(y) and st.entails(const((1 << k) - 1) - y):
            return st.n(x + y)
        # symbolic power of two common to every monomial
        for (at, ex) in x.t:
            for bn, l in ex:
                if bn != '2':
                    continue
                e = poly.lin2poly(l)
                inv = st.n(x * power('2', -e))
                if all(isinstance(c, int) and all(st.entails(poly.lin2poly(l2)) for _, l2 in mm[1]) for mm, c in inv.t.items()):
                    if st.entails(y) and st.entails(power('2', e) - 1 - y):
                        return st.n(x + y)
    # the sum of two halves of a mask: 2^e | (2^e - 1)
    s = st.n(a - b)
    if s == PONE and len(a.t) == 1:
        return st.n(a + b)
    if st.n(b - a) == PONE and len(b.t) == 1:
        return st.n(a + b)
    raise Undecided('bit or of %r and %r' % (a, b))


def is_unbounded(t):
    """usize arithmetic on lengths: no overflow (sizes are bounded by the address space)"""
    return t['s'] == 'usize'


def binop(I, st, op, a, b, t):
    if isinstance(a, V) or isinstance(b, V):
        if op in ('Eq', 'Ne') and isinstance(a, V) and isinstance(b, V):
            if a.tag == 'agg' and b.tag == 'agg' and a.meta[0] == 'adt' and not a.parts and not b.parts:
                r = int(a.meta == b.meta)
                return const(r if op == 'Eq' else 1 - r)
        raise Undecided('operator on %r' % (a,))
    a, b = st.n(a), st.n(b)
    if op in ('Lt', 'Le', 'Gt', 'Ge'):
        if op == 'Lt':
            return st.n(st.cond_ge(b - a - 1))
        if op == 'Le':
            return st.n(st.cond_ge(b - a))
        if op == 'Gt':
            return st.n(st.cond_ge(a - b - 1))
        return st.n(st.cond_ge(a - b))
    if op in ('Eq', 'Ne'):
        if t['k'] == 'bool':
            c = PONE - a - b + a * b * 2
            c = st.n(c)
        else:
            c = st.n(st.cond_eq(a - b))
        return c if op == 'Eq' else st.n(PONE - c)
    if t['k'] == 'bool':
        if op in ('BitAnd', 'BitOr') and not a.is_const() and not b.is_const():
            c = I.truth(st, a)
            return (st.n(b) if c else ZERO) if op == 'BitAnd' else (PONE if c else st.n(b))
        if op == 'BitAnd':
            return st.n(a * b)
        if op == 'BitOr':
            return st.n(a + b - a * b)
        if op == 'BitXor':
            return st.n(a + b - a * b * 2)
        raise Undecided('bool ' + op)
    base = op.replace('WithOverflow', '').replace('Unchecked', '')
    wo = op.endswith('WithOverflow')
    if base in ('Add', 'Sub', 'Mul'):
        r = st.n(a + b if base == 'Add' else a - b if base == 'Sub' else a * b)
        if t['k'] == 'int' and not r.is_const():
            raise Undecided('signed arithmetic')
        if wo:
            if base in ('Add', 'Mul') and (is_unbounded(t) or t['k'] == 'param'):
                return tup(r, ZERO)
            if base == 'Sub':
                c = st.n(st.cond_ge(-r - 1))
                return tup(r if not c.is_const() or not c.cval() else r, c)
            M = 1 << width(t)
            c = st.n(st.cond_ge(r - M))
            return tup(r, c)
        if is_unbounded(t) and base != 'Sub':
            return r
        if base == 'Sub':
            if st.entails(r):
                return r
        elif t['k'] != 'param' and st.entails(const((1 << width(t)) - 1) - r):
            return r
        raise Undecided('unchecked ' + base)
    if base in ('Div', 'Rem'):
        q, r = divide(I, st, a, b)
        return q if base == 'Div' else r
    if base == 'Shl':
        # checked by a preceding assertion: b < width
        if b.is_const():
            r = a * (1 << int(b.cval()))
        else:
            r = a * power('2', b)
        r = st.n(r)
        if is_unbounded(t):
            return r
        w = width(t)
        return wrap_sym(st, r, a, b, w)
    if base == 'Shr':
        return st.n(quot2(st, a, b))
    if base == 'BitAnd':
        return st.n(bitand(st, a, b, None))
    if base == 'BitOr':
        return bitor(st, a, b)
    raise Undecided('operator ' + op)


def wrap_sym(st, r, a, b, w):
    if b.is_const() or r.is_const():
        return wrap(st, r, w)
    M = 1 << w
    if st.entails(const(M - 1) - r):
        return r
    # (a << b) mod 2^w = a*2^b - 2^w * floor(a / 2^(w-b))
    q = quot2(st, a, const(w) - b)
    return st.n(r - q * M)


# ------------------------------------------------------------------ constants of the type parameters
def assoc_const(I, fr, st, c, t):
    p = c['uneval']
    r = c.get('ures') or p
    if p in ('digit::Digit::MAX',) and Cfg.bval is None:
        return B() - 1
    if p == 'digit::DigitStorage::DECIMAL_RADIX' and 'bits' not in c:
        if Mode.kind == 'dec':
            return B()
        if Mode.kind == 'bin':
            return P(RADIX())
        raise Undecided('radix')
    if 'bits' in c or 'bytes' in c:
        return None
    f = I.prog.defs.get(r)
    if f is not None and f.get('body'):
        from .interp import Frame
        fr2 = Frame(f)
        outs, _, _ = I.run(fr2, 0, st.clone())
        if len(outs) == 1 and outs[0].kind == 'ret':
            return outs[0].st.env.get((fr2.id, 0))
    return None


_radix = {}


def RADIX():
    a = _radix.get('a')
    if a is None or len(ATOMS) <= a.id or ATOMS[a.id] is not a:
        a = fresh('R10', 'pos')
        _radix['a'] = a
    return a


def size_of(I, st, fj):
    t = I.prog.types[fj['args'][0]]
    if t['s'] in BITS:
        return const(BITS[t['s']] // 8)
    if t['k'] == 'param':
        return P(Zatom())
    if t['k'] == 'adt' and t['path'] in ('digit::BinaryDigit', 'digit::DecimalDigit'):
        it = I.prog.types[t['args'][0]]
        if it['s'] in BITS:
            return const(BITS[it['s']] // 8)
        return P(Zatom())
    raise Undecided('size_of')


def Zatom():
    if Mode.Z is None or len(ATOMS) <= Mode.Z.id or ATOMS[Mode.Z.id] is not Mode.Z:
        Mode.Z = fresh('Z', 'W')
    return Mode.Z


# ------------------------------------------------------------------ helpers
def deref(I, st, v):
    """value behind a reference"""
    if isinstance(v, V):
        if v.tag == 'ptr':
            return I.load(st, ('env', v.meta[0], v.meta[1]))
        if v.tag == 'elem':
            return I.load(st, ('elem', v.meta[0], v.parts[0]))
        if v.tag == 'box':
            return v.parts[0]
    return v


def assign(I, st, p, x):
    if isinstance(p, V) and p.tag == 'ptr':
        I.store(st, ('env', p.meta[0], p.meta[1]), x)
    elif isinstance(p, V) and p.tag == 'elem':
        I.store(st, ('elem', p.meta[0], p.parts[0]), x)
    else:
        raise Undecided('store through %r' % (p,))


def as_slice(I, st, v):
    v = deref(I, st, v) if isinstance(v, V) and v.tag in ('ptr', 'box') else v
    if isinstance(v, V) and v.tag == 'ptr':
        return as_slice(I, st, v)
    if isinstance(v, V) and v.tag == 'slice':
        return v
    if isinstance(v, V) and v.tag in ('vec', 'darr'):
        return slc(v.meta[0], 0, st.n(st.heap[v.meta[0]].length()))
    if isinstance(v, V) and v.tag == 'arr':
        return I.arr_slice(st, None, v)
    raise Undecided('slice expected, got %r' % (v,))


def vec_of(I, st, v):
    while isinstance(v, V) and v.tag in ('ptr', 'box'):
        v = deref(I, st, v)
    if isinstance(v, V) and v.tag == 'vec':
        return v.meta[0]
    raise Undecided('vector expected, got %r' % (v,))


def vlen(st, obj):
    return st.n(st.heap[obj].length())


def rng(I, st, r, ln):
    """(lo, hi) of a range value"""
    if isinstance(r, V) and r.tag == 'agg' and r.meta[0] == 'adt':
        p = r.meta[1]
        if p == R_RANGE:
            return r.parts[0], r.parts[1]
        if p == R_FROM:
            return r.parts[0], ln
        if p == R_TO:
            return ZERO, r.parts[0]
        if p == R_FULL:
            return ZERO, ln
        if p == R_TOINCL:
            return ZERO, r.parts[0] + 1
        if p == R_INCL:
            return r.parts[0], r.parts[1] + 1
    raise Undecided('range %r' % (r,))


def index_range(I, st, s, r):
    """sub-slice, or None when it is out of bounds"""
    ln = s.parts[1]
    lo, hi = rng(I, st, r, ln)
    lo, hi = st.n(lo), st.n(hi)
    if not st.decide_le(lo, hi):
        return None
    if not st.decide_le(hi, ln):
        return None
    return slc(s.meta[0], st.n(s.parts[0] + lo), st.n(hi - lo))


# ------------------------------------------------------------------ iterators
def it(kind, meta, *parts):
    return V('it', (kind,) + tuple(meta), parts)


def into_iter(I, st, v):
    if isinstance(v, V) and v.tag == 'it':
        return v
    if isinstance(v, V) and v.tag == 'agg' and v.meta[:2] == ('adt', R_RANGE):
        return it('range', (), st.n(v.parts[0]), st.n(v.parts[1]))
    if isinstance(v, V) and v.tag == 'agg' and v.meta[:2] == ('adt', R_INCL):
        return it('range', (), st.n(v.parts[0]), st.n(v.parts[1] + 1))
    if isinstance(v, V) and v.tag in ('vec', 'darr'):
        return it('copied', (), it('slice', (v.meta[0],), ZERO, vlen(st, v.meta[0])))
    s = as_slice(I, st, v)
    return it('slice', (s.meta[0],), s.parts[0], st.n(s.parts[0] + s.parts[1]))


def it_len(st, x):
    k = x.meta[0]
    if k in ('slice', 'range'):
        return st.n(x.parts[1] - x.parts[0])
    if k in ('rev', 'copied', 'enum', 'map'):
        return it_len(st, x.parts[0])
    if k == 'zip':
        a, b = it_len(st, x.parts[0]), it_len(st, x.parts[1])
        if a is None:
            return b
        if b is None:
            return a
        return a if st.decide_le(a, b) else b
    if k == 'repeat':
        return None
    if k == 'chunks':
        return None
    raise Undecided('length of iterator ' + k)


def it_limit(st, x, n):
    """first n items of x (n <= length)"""
    k = x.meta[0]
    n = st.n(n)
    if k in ('slice', 'range'):
        return V('it', x.meta, (x.parts[0], st.n(x.parts[0] + n)))
    if k == 'copied' or k == 'enum' or k == 'map':
        return V('it', x.meta, (it_limit(st, x.parts[0], n),) + x.parts[1:])
    if k == 'rev':
        y = x.parts[0]
        m = it_len(st, y)
        return V('it', x.meta, (it_skip(st, y, m - n),))
    if k == 'zip':
        return V('it', x.meta, tuple(it_limit(st, y, n) for y in x.parts))
    if k == 'repeat':
        return V('it', ('repeatn',), (x.parts[0], n))
    raise Undecided('take on iterator ' + k)


def it_skip(st, x, n):
    """x without its first n items (n <= length)"""
    k = x.meta[0]
    n = st.n(n)
    if not n.t:
        return x
    if k in ('slice', 'range'):
        return V('it', x.meta, (st.n(x.parts[0] + n), x.parts[1]))
    if k == 'copied' or k == 'map':
        return V('it', x.meta, (it_skip(st, x.parts[0], n),) + x.parts[1:])
    if k == 'enum':
        return V('it', x.meta, (it_skip(st, x.parts[0], n), st.n(x.parts[1] + n)))
    if k == 'rev':
        y = x.parts[0]
        m = it_len(st, y)
        return V('it', x.meta, (it_limit(st, y, m - n),))
    if k == 'zip':
        return V('it', x.meta, tuple(it_skip(st, y, n) for y in x.parts))
    raise Undecided('skip on iterator ' + k)


def it_next(I, st, x):
    """(state, new iterator, item or None) list"""
    k = x.meta[0]
    if k == 'slice':
        lo, hi = x.parts
        if st.decide_le(hi, lo):
            return [(st, x, None)]
        return [(st, V('it', x.meta, (st.n(lo + 1), hi)), elem(x.meta[1], st.n(lo)))]
    if k == 'range':
        lo, hi = x.parts
        if st.decide_le(hi, lo):
            return [(st, x, None)]
        return [(st, V('it', x.meta, (st.n(lo + 1), hi)), st.n(lo))]
    if k == 'rev':
        return it_next_back(I, st, x)
    if k == 'copied':
        out = []
        for s, y, v in it_next(I, st, x.parts[0]):
            out.append((s, V('it', x.meta, (y,)), None if v is None else deref(I, s, v)))
        return out
    if k == 'enum':
        out = []
        for s, y, v in it_next(I, st, x.parts[0]):
            if v is None:
                out.append((s, V('it', x.meta, (y, x.parts[1])), None))
            else:
                out.append((s, V('it', x.meta, (y, s.n(x.parts[1] + 1))), tup(s.n(x.parts[1]), v)))
        return out
    if k == 'zip':
        out = []
        for s, y, v in it_next(I, st, x.parts[0]):
            if v is None:
                out.append((s, V('it', x.meta, (y, x.parts[1])), None))
                continue
            for s2, z, w in it_next(I, s, x.parts[1]):
                out.append((s2, V('it', x.meta, (y, z)), None if w is None else tup(v, w)))
        return out
    if k == 'map':
        out = []
        for s, y, v in it_next(I, st, x.parts[0]):
            if v is None:
                out.append((s, V('it', x.meta, (y, x.parts[1])), None))
                continue
            for s2, w in I.call_closure(s, x.parts[1], [v]):
                from .interp import Panic
                if isinstance(w, Panic):
                    raise Undecided('panic in an iterator closure')
                out.append((s2, V('it', x.meta, (y, x.parts[1])), w))
        return out
    if k == 'chunksmut':
        # exact chunks of constant or symbolic size from the front
        lo, hi, c = x.parts
        if not st.decide_le(st.n(lo + c), hi):
            return [(st, x, None)]
        return [(st, V('it', x.meta, (st.n(lo + c), hi, c)), slc(x.meta[1], lo, c))]
    raise Undecided('next on iterator ' + k)


def it_next_back(I, st, x):
    inner = x.parts[0]
    k = inner.meta[0]

    def wrapi(y):
        return V('it', x.meta, (y,))
    if k in ('slice', 'range'):
        lo, hi = inner.parts
        if st.decide_le(hi, lo):
            return [(st, x, None)]
        pos = st.n(hi - 1)
        return [(st, wrapi(V('it', inner.meta, (lo, pos))), elem(inner.meta[1], pos) if k == 'slice' else pos)]
    if k in ('copied',):
        out = []
        for s, y, v in it_next_back(I, st, V('it', ('rev',), (inner.parts[0],))):
            out.append((s, wrapi(V('it', inner.meta, (y.parts[0],))), None if v is None else deref(I, s, v)))
        return out
    if k == 'rev':
        out = []
        for s, y, v in it_next(I, st, inner.parts[0]):
            out.append((s, wrapi(V('it', inner.meta, (y,))), v))
        return out
    if k == 'enum':
        m = it_len(st, inner.parts[0])
        out = []
        for s, y, v in it_next_back(I, st, V('it', ('rev',), (inner.parts[0],))):
            out.append((s, wrapi(V('it', inner.meta, (y.parts[0], inner.parts[1]))), None if v is None else tup(s.n(inner.parts[1] + m - 1), v)))
        return out
    if k == 'zip':
        a, b = inner.parts
        n = it_len(st, inner)
        a, b = it_limit(st, a, n), it_limit(st, b, n)
        out = []
        for s, y, v in it_next_back(I, st, V('it', ('rev',), (a,))):
            if v is None:
                out.append((s, wrapi(V('it', inner.meta, (y.parts[0], b))), None))
                continue
            for s2, z, w in it_next_back(I, s, V('it', ('rev',), (b,))):
                if w is None:
                    raise Undecided('zip lengths')
                out.append((s2, wrapi(V('it', inner.meta, (y.parts[0], z.parts[0]))), tup(v, w)))
        return out
    if k == 'chunksmut':
        lo, hi, c = inner.parts
        # exact chunks: only when the total is known to be a multiple
        n = st.n(hi - lo)
        q, r = divide_exact(st, n, c)
        if r:
            if st.decide_le(hi, lo):
                return [(st, x, None)]
            return [(st, wrapi(V('it', inner.meta, (lo, st.n(hi - c), c))), slc(inner.meta[1], st.n(hi - c), c))]
    raise Undecided('next_back on iterator ' + k)


def divide_exact(st, n, c):
    return None, True


# ------------------------------------------------------------------ calls
def override(path, fj):
    return False


def call(I, st, fj, args, fr):
    path = fj.get('res') or fj['path']
    h = TABLE.get(path) or TABLE.get(fj['path'])
    if h is None:
        return None
    I.libused.add(path)
    return h(I, st, fj, args)


# library functions analysed with the bodies written out in driver/prelude.rs
IT = 'core::iter::traits::iterator::Iterator::'
OPT, RES, ORD = 'core::option::Option::<T>::', 'core::result::Result::<T, E>::', 'core::cmp::Ordering::'
PRELUDE = {IT + 'all': 'all', IT + 'any': 'any', IT + 'position': 'position', IT + 'rposition': 'rposition'}
PRELUDE.update((OPT + x, 'option_' + x) for x in ('map_or', 'map_or_else', 'unwrap_or_else', 'is_some_and', 'is_none_or', 'is_some', 'is_none'))
PRELUDE.update((RES + x, 'result_' + x) for x in ('is_ok', 'is_err', 'map_or', 'unwrap_or_else'))
PRELUDE.update((ORD + x, 'ord_' + x) for x in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'))


def prelude(prog, path, fj):
    n = PRELUDE.get(path) or PRELUDE.get(fj['path'])
    return n and prog.defs.get('__vprelude::' + n)


TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def ret(st, v):
    return [(st, v)]


@model('core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len')
def _len(I, st, fj, a):
    return ret(st, st.n(as_slice(I, st, a[0]).parts[1]))


@model('core::slice::<impl [T]>::is_empty', 'alloc::vec::Vec::<T, A>::is_empty')
def _is_empty(I, st, fj, a):
    return ret(st, st.n(st.cond_eq(as_slice(I, st, a[0]).parts[1])))


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::iter::traits::collect::IntoIterator::into_iter')
def _iter(I, st, fj, a):
    return ret(st, into_iter(I, st, a[0]))


@model('core::iter::traits::iterator::Iterator::rev')
def _rev(I, st, fj, a):
    return ret(st, it('rev', (), into_iter(I, st, a[0])))


@model('core::iter::traits::iterator::Iterator::zip')
def _zip(I, st, fj, a):
    return ret(st, it('zip', (), a[0], into_iter(I, st, a[1])))


@model('core::iter::traits::iterator::Iterator::enumerate')
def _enum(I, st, fj, a):
    return ret(st, it('enum', (), a[0], ZERO))


@model('core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned')
def _copied(I, st, fj, a):
    return ret(st, it('copied', (), a[0]))


@model('core::iter::traits::iterator::Iterator::map')
def _map(I, st, fj, a):
    return ret(st, it('map', (), a[0], a[1]))


@model('core::iter::traits::iterator::Iterator::skip')
def _skip(I, st, fj, a):
    n = it_len(st, a[0])
    k = a[1]
    if st.decide_le(k, n):
        return ret(st, it_skip(st, a[0], k))
    return ret(st, it_skip(st, a[0], n))


@model('core::iter::traits::iterator::Iterator::take')
def _take(I, st, fj, a):
    x = a[0]
    if x.meta[0] == 'repeat':
        return ret(st, it_limit(st, x, a[1]))
    n = it_len(st, x)
    if st.decide_le(a[1], n):
        return ret(st, it_limit(st, x, a[1]))
    return ret(st, x)


@model('core::iter::sources::repeat::repeat')
def _repeat(I, st, fj, a):
    return ret(st, it('repeat', (), a[0]))


@model('core::iter::traits::iterator::Iterator::next')
def _next(I, st, fj, a):
    p = a[0]
    x = into_iter(I, st, deref(I, st, p))
    out = []
    for s, y, v in it_next(I, st, x):
        assign(I, s, p, y)
        out.append((s, none() if v is None else some(v)))
    return out


@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def _callf(I, st, fj, a):
    return I.call_closure(st, a[0], list(a[1].parts))


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _next_back(I, st, fj, a):
    p = a[0]
    x = into_iter(I, st, deref(I, st, p))
    out = []
    for s, y, v in it_next_back(I, st, V('it', ('rev',), (x,))):
        assign(I, s, p, y.parts[0])
        out.append((s, none() if v is None else some(v)))
    return out


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _itlen(I, st, fj, a):
    p = a[0]
    while isinstance(p, V) and p.tag in ('ptr', 'box'):
        p = deref(I, st, p)
    return ret(st, it_len(st, into_iter(I, st, p)))


@model('core::iter::traits::iterator::Iterator::fold')
def _fold(I, st, fj, a):
    from . import loops
    return loops.fold(I, st, a[0], a[1], a[2])


@model('core::iter::traits::iterator::Iterator::cmp')
def _itcmp(I, st, fj, a):
    x, y = a[0], into_iter(I, st, a[1])

    def strip(z):
        while z.meta[0] == 'copied':
            z = z.parts[0]
        return z
    x, y = strip(x), strip(y)
    if x.meta[0] == 'rev' and y.meta[0] == 'rev':
        p, q = strip(x.parts[0]), strip(y.parts[0])
        if p.meta[0] == 'slice' and q.meta[0] == 'slice':
            n, m = it_len(st, p), it_len(st, q)
            if st.eq0(n - m):
                d = st.n(st.val(p.meta[1], p.parts[0], n) - st.val(q.meta[1], q.parts[0], m))
                return order3(st, d)
    raise Undecided('lexicographic comparison')


def order3(st, d):
    """Ordering of d against 0"""
    if st.eq0(d):
        return ret(st, ordering(0))
    if st.entails(d - 1):
        return ret(st, ordering(1))
    if st.entails(-d - 1):
        return ret(st, ordering(-1))
    c = st.cond_ge(d)
    if not c.is_const():
        raise NeedSplitBool(st.n(c).as_atom())
    e = st.n(st.cond_eq(d))
    if not e.is_const():
        raise NeedSplitBool(e.as_atom())
    return ret(st, ordering(0 if e.cval() else 1 if st.n(c).cval() else -1))


@model('core::cmp::impls::<impl core::cmp::Ord for usize>::cmp', 'core::cmp::Ord::cmp', 'core::cmp::PartialOrd::partial_cmp')
def _cmp(I, st, fj, a):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if isinstance(x, Poly) and isinstance(y, Poly):
        r = order3(st, st.n(x - y))
        if fj['path'].endswith('partial_cmp'):
            r = [(s, some(v)) for s, v in r]
        return r
    raise Undecided('cmp of %r' % (x,))


@model('core::cmp::Ordering::then_with')
def _then_with(I, st, fj, a):
    o = a[0]
    if o.meta[2] == 1:
        return I.call_closure(st, a[1], [])
    return ret(st, o)


@model('core::cmp::Ordering::reverse')
def _oreverse(I, st, fj, a):
    return ret(st, adt(ORDERING, 2 - a[0].meta[2]))


@model('core::cmp::Ordering::then')
def _othen(I, st, fj, a):
    return ret(st, a[1] if a[0].meta[2] == 1 else a[0])


@model('<core::cmp::Ordering as core::cmp::PartialEq>::eq')
def _oeq(I, st, fj, a):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    return ret(st, const(int(x.meta[2] == y.meta[2])))


for _nm, _f in (('is_lt', lambda v: v == 0), ('is_le', lambda v: v <= 1), ('is_gt', lambda v: v == 2), ('is_ge', lambda v: v >= 1), ('is_eq', lambda v: v == 1), ('is_ne', lambda v: v != 1)):
    def _mk(f):
        def h(I, st, fj, a):
            return ret(st, const(int(f(a[0].meta[2]))))
        return h
    TABLE['core::cmp::Ordering::' + _nm] = _mk(_f)


@model('core::cmp::impls::<impl core::cmp::Ord for usize>::max', 'core::cmp::impls::<impl core::cmp::Ord for usize>::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min', 'core::cmp::max', 'core::cmp::min')
def _maxmin(I, st, fj, a):
    x, y = I.num(a[0]), I.num(a[1])
    le = st.decide_le(x, y)
    mx = fj['path'].endswith('max')
    return ret(st, st.n((y if le else x) if mx else (x if le else y)))


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _eq(I, st, fj, a):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if isinstance(x, Poly) and isinstance(y, Poly):
        c = st.n(st.cond_eq(x - y))
        return ret(st, c if fj['path'].endswith('eq') else st.n(PONE - c))
    if isinstance(x, V) and isinstance(y, V) and x.tag == y.tag == 'agg' and x.meta[:2] == y.meta[:2] == ('adt', ORDERING):
        return ret(st, const(int((x.meta[2] == y.meta[2]) == fj['path'].endswith('eq'))))
    raise Undecided('equality of %r' % (x,))


@model('alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>::eq')
def _veceq(I, st, fj, a):
    x, y = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    d = st.n(x.parts[1] - y.parts[1])
    if not st.eq0(d):
        if st.ne0(d):
            return ret(st, ZERO)
        c = st.cond_eq(d)
        raise NeedSplitBool(st.n(c).as_atom())
    v = st.n(st.val(x.meta[0], x.parts[0], x.parts[1]) - st.val(y.meta[0], y.parts[0], y.parts[1]))
    return ret(st, st.n(st.cond_eq(v)))


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge',
       'core::array::<impl core::cmp::PartialOrd for [T; N]>::gt', 'core::array::<impl core::cmp::PartialOrd for [T; N]>::lt',
       'core::array::<impl core::cmp::PartialOrd for [T; N]>::ge', 'core::array::<impl core::cmp::PartialOrd for [T; N]>::le')
def _ord(I, st, fj, a):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    if isinstance(x, V) and x.tag in ('arr',) or isinstance(x, V) and x.tag == 'agg' and x.meta[0] == 'tuple':
        # lexicographic order of digit tuples = order of the numbers they denote (most significant first)
        if not (isinstance(y, V) and len(y.parts) == len(x.parts)):
            raise Undecided('comparison')
        xs = ys = ZERO
        for u, v in zip(x.parts, y.parts):
            if not isinstance(u, Poly) or not isinstance(v, Poly):
                raise Undecided('comparison')
            for z in (u, v):
                if not (st.entails(z) and st.entails(B() - 1 - z)):
                    raise Undecided('comparison of unbounded items %r' % (z,))
            xs = xs * B() + u
            ys = ys * B() + v
        x, y = st.n(xs), st.n(ys)
    if isinstance(x, Poly) and isinstance(y, Poly):
        op = fj['path'].rsplit('::', 1)[1]
        d = {'lt': y - x - 1, 'le': y - x, 'gt': x - y - 1, 'ge': x - y}[op]
        return ret(st, st.n(st.cond_ge(d)))
    raise Undecided('comparison of %r' % (x,))


# ---- indexing
@model('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut',
       '<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut')
def _index(I, st, fj, a):
    s = as_slice(I, st, a[0])
    ix = a[1]
    if isinstance(ix, Poly):
        if not st.decide_le(ix + 1, s.parts[1]):
            return ret(st, panic('index out of bounds'))
        return ret(st, elem(s.meta[0], st.n(s.parts[0] + ix)))
    r = index_range(I, st, s, ix)
    if r is None:
        return ret(st, panic('slice range out of bounds'))
    return ret(st, r)


@model('core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::get')
def _get(I, st, fj, a):
    s = as_slice(I, st, a[0])
    ix = a[1]
    if isinstance(ix, Poly):
        if not st.decide_le(ix + 1, s.parts[1]):
            return ret(st, none())
        return ret(st, some(elem(s.meta[0], st.n(s.parts[0] + ix))))
    r = index_range(I, st, s, ix)
    return ret(st, none() if r is None else some(r))


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _split_at(I, st, fj, a):
    s = as_slice(I, st, a[0])
    m = st.n(a[1])
    if not st.decide_le(m, s.parts[1]):
        return ret(st, panic('split_at out of bounds'))
    return ret(st, tup(slc(s.meta[0], s.parts[0], m), slc(s.meta[0], st.n(s.parts[0] + m), st.n(s.parts[1] - m))))


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _last(I, st, fj, a):
    s = as_slice(I, st, a[0])
    if not st.decide_le(1, s.parts[1]):
        return ret(st, none())
    return ret(st, some(elem(s.meta[0], st.n(s.parts[0] + s.parts[1] - 1))))


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _first(I, st, fj, a):
    s = as_slice(I, st, a[0])
    if not st.decide_le(1, s.parts[1]):
        return ret(st, none())
    return ret(st, some(elem(s.meta[0], s.parts[0])))


@model('core::slice::<impl [T]>::fill')
def _fill(I, st, fj, a):
    s = as_slice(I, st, a[0])
    x = st.n(I.num(a[1]))
    I.log(st, s.meta[0], s.parts[0], s.parts[1])
    if not x.t:
        st.put(s.meta[0], s.parts[0], s.parts[1], [piece(state.ZEROV, 0, s.parts[1])])
    elif x == B() - 1:
        st.put(s.meta[0], s.parts[0], s.parts[1], [piece(state.MAXV, 0, s.parts[1])])
    else:
        raise Undecided('fill with a non-zero digit')
    return ret(st, UNIT)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _copy_from(I, st, fj, a):
    s, t = as_slice(I, st, a[0]), as_slice(I, st, a[1])
    d = st.n(s.parts[1] - t.parts[1])
    if not st.eq0(d):
        if st.ne0(d):
            return ret(st, panic('copy_from_slice: lengths differ'))
        raise NeedSplitBool(st.n(st.cond_eq(d)).as_atom())
    pcs = list(st.get(t.meta[0], t.parts[0], t.parts[1]))
    I.log(st, s.meta[0], s.parts[0], s.parts[1])
    st.put(s.meta[0], s.parts[0], s.parts[1], pcs)
    return ret(st, UNIT)


@model('core::slice::<impl [T]>::chunks_exact_mut', 'core::slice::<impl [T]>::chunks_exact')
def _chunks(I, st, fj, a):
    s = as_slice(I, st, a[0])
    return ret(st, it('chunksmut', (s.meta[0],), s.parts[0], st.n(s.parts[0] + s.parts[1]), st.n(a[1])))


@model('alloc::slice::<impl [T]>::to_vec')
def _to_vec(I, st, fj, a):
    s = as_slice(I, st, a[0])
    obj = I.new_obj(st, st.get(s.meta[0], s.parts[0], s.parts[1]))
    return ret(st, vec(obj))


# ---- vectors
@model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref', '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
       'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice')
def _vderef(I, st, fj, a):
    return ret(st, as_slice(I, st, a[0]))


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', '<alloc::vec::Vec<T> as core::default::Default>::default')
def _vnew(I, st, fj, a):
    return ret(st, vec(I.new_obj(st, [])))


@model('alloc::vec::from_elem')
def _from_elem(I, st, fj, a):
    x, n = a[0], st.n(a[1])
    if not isinstance(x, Poly):
        raise Undecided('vec! of non-numbers')
    x = st.n(x)
    if not x.t:
        return ret(st, vec(I.new_obj(st, [piece(state.ZEROV, 0, n)])))
    raise Undecided('vec! of a non-zero digit')


@model('alloc::boxed::Box::<T>::new_uninit')
def _box_uninit(I, st, fj, a):
    from .interp import Frame
    Frame._n[0] += 1
    key = ('boxed', Frame._n[0])
    st.env[key] = V('agg', ('uninit',), (opaque('uninit'), V('agg', ('uninit',), (opaque('uninit'),))))
    return ret(st, V('agg', ('adt', 'alloc::boxed::Box', 0), (ptr(key),)))


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _box_into_vec(I, st, fj, a):
    b = a[0].parts[0]
    v = I.load(st, ('env', b.meta[0], (1, 0)))
    s = I.arr_slice(st, None, v)
    if s.tag != 'slice':
        raise Undecided('vec! of non-numbers')
    return ret(st, vec(s.meta[0]))


@model('alloc::vec::Vec::<T, A>::push')
def _push(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    x = a[1]
    if not isinstance(x, Poly):
        raise Undecided('vector of non-numbers')
    n = vlen(st, obj)
    st.heap[obj] = Rope(st.heap[obj].pieces + [piece(state.ZEROV, 0, 1)])
    I.write_digit(st, obj, n, x)
    return ret(st, UNIT)


@model('alloc::vec::Vec::<T, A>::pop')
def _pop(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    n = vlen(st, obj)
    if not st.decide_le(1, n):
        return ret(st, none())
    x = st.digit(obj, n - 1)
    truncate(I, st, obj, n - 1)
    return ret(st, some(x))


def truncate(I, st, obj, n):
    n = st.n(n)
    i = st.split_at(obj, n)
    I.log(st, obj, n, st.n(vlen(st, obj) - n))
    st.heap[obj] = Rope(st.heap[obj].pieces[:i])


@model('alloc::vec::Vec::<T, A>::truncate')
def _truncate(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    n = st.n(a[1])
    if st.decide_le(n, vlen(st, obj)):
        truncate(I, st, obj, n)
    return ret(st, UNIT)


@model('alloc::vec::Vec::<T, A>::clear')
def _clear(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    I.log(st, obj, ZERO, vlen(st, obj))
    st.heap[obj] = Rope([])
    return ret(st, UNIT)


@model('alloc::vec::Vec::<T, A>::resize')
def _resize(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    n = vlen(st, obj)
    m = st.n(a[1])
    if st.decide_le(m, n):
        truncate(I, st, obj, m)
        return ret(st, UNIT)
    x = st.n(I.num(a[2]))
    if x.t:
        raise Undecided('resize with a non-zero digit')
    st.heap[obj] = Rope(st.heap[obj].pieces + [piece(state.ZEROV, 0, st.n(m - n))])
    st.norm_rope(obj)
    I.log(st, obj, n, st.n(m - n))
    return ret(st, UNIT)


def append(I, st, obj, pcs):
    n = vlen(st, obj)
    st.heap[obj] = Rope(st.heap[obj].pieces + list(pcs))
    st.norm_rope(obj)
    I.log(st, obj, n, st.n(vlen(st, obj) - n))


@model('alloc::vec::Vec::<T, A>::extend_from_slice')
def _extend_slice(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    s = as_slice(I, st, a[1])
    append(I, st, obj, st.get(s.meta[0], s.parts[0], s.parts[1]))
    return ret(st, UNIT)


def seq_pieces(I, st, x):
    """pieces of an iterator over digits taken in order"""
    if x.tag == 'vec':
        return list(st.heap[x.meta[0]].pieces)
    if x.tag == 'it':
        if x.meta[0] == 'repeatn':
            if st.n(x.parts[0]).t:
                raise Undecided('repeat of a non-zero digit')
            return [piece(state.ZEROV, 0, x.parts[1])]
        if x.meta[0] == 'copied' or x.meta[0] == 'slice':
            y = x.parts[0] if x.meta[0] == 'copied' else x
            if y.meta[0] == 'slice':
                return list(st.get(y.meta[1], y.parts[0], st.n(y.parts[1] - y.parts[0])))
    if x.tag in ('slice', 'ptr'):
        s = as_slice(I, st, x)
        return list(st.get(s.meta[0], s.parts[0], s.parts[1]))
    raise Undecided('sequence %r' % (x,))


@model('<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend', "<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend")
def _extend(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    append(I, st, obj, seq_pieces(I, st, a[1]))
    return ret(st, UNIT)


@model('alloc::vec::Vec::<T, A>::append')
def _vappend(I, st, fj, a):
    obj, o2 = vec_of(I, st, a[0]), vec_of(I, st, a[1])
    append(I, st, obj, st.heap[o2].pieces)
    st.heap[o2] = Rope([])
    return ret(st, UNIT)


@model('alloc::vec::Vec::<T, A>::drain')
def _drain(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    n = vlen(st, obj)
    lo, hi = rng(I, st, a[1], n)
    lo, hi = st.n(lo), st.n(hi)
    if not st.decide_le(lo, hi) or not st.decide_le(hi, n):
        return ret(st, panic('drain range out of bounds'))
    i = st.split_at(obj, lo)
    j = st.split_at(obj, hi)
    p = st.heap[obj].pieces
    tmp = I.new_obj(st, p[i:j])
    st.heap[obj] = Rope(p[:i] + p[j:])
    st.norm_rope(obj)
    I.log(st, obj, ZERO, n)
    return ret(st, it('copied', (), it('slice', (tmp,), ZERO, st.n(hi - lo))))


@model('alloc::vec::Vec::<T, A>::splice')
def _splice(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    n = vlen(st, obj)
    lo, hi = rng(I, st, a[1], n)
    lo, hi = st.n(lo), st.n(hi)
    if not st.decide_le(lo, hi) or not st.decide_le(hi, n):
        return ret(st, panic('splice range out of bounds'))
    ins = seq_pieces(I, st, a[2])
    i = st.split_at(obj, lo)
    j = st.split_at(obj, hi)
    p = st.heap[obj].pieces
    st.heap[obj] = Rope(p[:i] + ins + p[j:])
    st.norm_rope(obj)
    I.log(st, obj, ZERO, vlen(st, obj))
    return ret(st, opaque('splice'))


@model('<alloc::vec::Vec<T, A> as core::clone::Clone>::clone')
def _vclone(I, st, fj, a):
    obj = vec_of(I, st, a[0])
    return ret(st, vec(I.new_obj(st, st.heap[obj].pieces)))


@model('core::clone::Clone::clone')
def _clone(I, st, fj, a):
    v = deref(I, st, a[0])
    if isinstance(v, V) and v.tag == 'vec':
        return _vclone(I, st, fj, a)
    if isinstance(v, V) and v.tag == 'agg' and v.meta[:2] == ('adt', UBIG):
        obj = v.parts[0].meta[0]
        return ret(st, ubig(I.new_obj(st, st.heap[obj].pieces)))
    if isinstance(v, Poly):
        return ret(st, v)
    raise Undecided('clone of %r' % (v,))


@model('core::mem::replace')
def _replace(I, st, fj, a):
    old = deref(I, st, a[0])
    assign(I, st, a[0], a[1])
    return ret(st, old)


@model('core::mem::take')
def _mtake(I, st, fj, a):
    old = deref(I, st, a[0])
    if isinstance(old, V) and old.tag == 'vec':
        assign(I, st, a[0], vec(I.new_obj(st, [])))
        return ret(st, old)
    raise Undecided('mem::take')


@model('core::mem::swap')
def _swap(I, st, fj, a):
    x, y = deref(I, st, a[0]), deref(I, st, a[1])
    assign(I, st, a[0], y)
    assign(I, st, a[1], x)
    return ret(st, UNIT)


@model('core::mem::drop')
def _drop(I, st, fj, a):
    return ret(st, UNIT)


@model('core::mem::size_of')
def _size_of(I, st, fj, a):
    return ret(st, size_of(I, st, fj))


# ---- Option / Result
@model('core::option::Option::<T>::unwrap', 'core::option::Option::<T>::expect')
def _ounwrap(I, st, fj, a):
    v = a[0]
    if isinstance(v, V) and v.tag == 'agg' and v.meta[1] == OPTION:
        return ret(st, v.parts[0] if v.meta[2] == 1 else panic('unwrap of None'))
    raise Undecided('unwrap')


@model('core::result::Result::<T, E>::unwrap', 'core::result::Result::<T, E>::expect')
def _runwrap(I, st, fj, a):
    v = a[0]
    if isinstance(v, V) and v.tag == 'agg' and v.meta[1] == RESULT:
        return ret(st, v.parts[0] if v.meta[2] == 0 else panic('unwrap of Err'))
    raise Undecided('unwrap')


@model('core::option::Option::<T>::unwrap_or')
def _ounwrap_or(I, st, fj, a):
    v = a[0]
    return ret(st, v.parts[0] if v.meta[2] == 1 else a[1])


for _p, _path, _good in (('core::option::Option::<T>::', OPTION, 1), ('core::result::Result::<T, E>::', RESULT, 0)):
    def _mk2(good):
        def isgood(I, st, fj, a):
            return ret(st, const(int(deref(I, st, a[0]).meta[2] == good)))

        def isbad(I, st, fj, a):
            return ret(st, const(int(deref(I, st, a[0]).meta[2] != good)))
        return isgood, isbad
    g_, b_ = _mk2(_good)
    TABLE[_p + ('is_some' if _good else 'is_ok')] = g_
    TABLE[_p + ('is_none' if _good else 'is_err')] = b_


@model('core::result::Result::<T, E>::map_err')
def _map_err(I, st, fj, a):
    v = a[0]
    if v.meta[2] == 0:
        return ret(st, v)
    out = []
    from .interp import Panic
    for s, w in I.call_closure(st, a[1], [v.parts[0]]):
        out.append((s, w if isinstance(w, Panic) else err(w)))
    return out


@model('core::result::Result::<T, E>::map', 'core::option::Option::<T>::map')
def _rmap(I, st, fj, a):
    v = a[0]
    good = 0 if v.meta[1] == RESULT else 1
    if v.meta[2] != good:
        return ret(st, v)
    from .interp import Panic
    out = []
    for s, w in I.call_closure(st, a[1], [v.parts[0]]):
        out.append((s, w if isinstance(w, Panic) else adt(v.meta[1], good, w)))
    return out


@model('core::result::Result::<T, E>::and_then', 'core::option::Option::<T>::and_then')
def _rand_then(I, st, fj, a):
    v = a[0]
    good = 0 if v.meta[1] == RESULT else 1
    if v.meta[2] != good:
        return ret(st, v)
    return I.call_closure(st, a[1], [v.parts[0]])


@model('core::result::Result::<T, E>::ok')
def _rok(I, st, fj, a):
    v = a[0]
    return ret(st, some(v.parts[0]) if v.meta[2] == 0 else none())


@model('core::option::Option::<T>::ok_or')
def _ook_or(I, st, fj, a):
    v = a[0]
    return ret(st, ok(v.parts[0]) if v.meta[2] == 1 else err(a[1]))


@model('core::result::Result::<T, E>::unwrap_or')
def _runwrap_or(I, st, fj, a):
    v = a[0]
    return ret(st, v.parts[0] if v.meta[2] == 0 else a[1])


@model('<core::result::Result<T, E> as core::ops::try_trait::Try>::branch', '<core::option::Option<T> as core::ops::try_trait::Try>::branch')
def _branch(I, st, fj, a):
    v = a[0]
    if not (isinstance(v, V) and v.tag == 'agg'):
        raise Undecided('branch on %r' % (v,))
    good = 0 if v.meta[1] == RESULT else 1
    if v.meta[2] == good:
        return ret(st, adt(CFLOW, 0, v.parts[0]))
    return ret(st, adt(CFLOW, 1, v))


@model('<core::result::Result<T, F> as core::ops::try_trait::FromResidual<core::result::Result<!, E>>>::from_residual',
       '<core::option::Option<T> as core::ops::try_trait::FromResidual<core::option::Option<!>>>::from_residual')
def _from_residual(I, st, fj, a):
    return ret(st, a[0])


@model('core::bool::<impl bool>::then')
def _bthen(I, st, fj, a):
    b = I.truth(st, I.num(a[0]))
    if not b:
        return ret(st, none())
    from .interp import Panic
    return [(s, w if isinstance(w, Panic) else some(w)) for s, w in I.call_closure(st, a[1], [])]


@model('core::bool::<impl bool>::then_some')
def _bthen_some(I, st, fj, a):
    return ret(st, some(a[1]) if I.truth(st, I.num(a[0])) else none())


# ---- panics
@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::panicking::begin_panic', 'core::panicking::panic_display', 'std::rt::begin_panic')
def _panic(I, st, fj, a):
    why = 'explicit panic'
    for x in a:
        if isinstance(x, V) and x.tag == 'str':
            why = 'panic: ' + x.meta[0]
    return ret(st, panic(why))


@model('core::fmt::Arguments::<\'a>::from_str', 'core::fmt::Arguments::<\'a>::new')
def _fmtargs(I, st, fj, a):
    for x in a:
        if isinstance(x, V) and x.tag == 'str':
            return ret(st, x)
    return ret(st, opaque('format'))


@model('core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug')
def _fmtarg(I, st, fj, a):
    return ret(st, opaque('format'))


# ---- numbers
@model('num_traits::identities::Zero::zero')
def _zero(I, st, fj, a):
    return ret(st, ZERO)


@model('num_traits::identities::One::one')
def _one(I, st, fj, a):
    return ret(st, PONE)


@model('num_traits::identities::Zero::is_zero')
def _is_zero(I, st, fj, a):
    v = deref(I, st, a[0])
    return ret(st, st.n(st.cond_eq(I.num(v))))


@model('num_traits::identities::One::is_one')
def _is_one(I, st, fj, a):
    v = deref(I, st, a[0])
    return ret(st, st.n(st.cond_eq(I.num(v) - 1)))


def num_width(path):
    for w in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
        if '<impl %s>' % w in path:
            return BITS[w]
    raise Undecided(path)


def _ovadd(I, st, fj, a):
    w = num_width(fj['path'])
    r = st.n(I.num(a[0]) + I.num(a[1]))
    M = 1 << w
    c = st.n(st.cond_ge(r - M))
    return ret(st, tup(st.n(r - c * M), c))


def _ovsub(I, st, fj, a):
    w = num_width(fj['path'])
    r = st.n(I.num(a[0]) - I.num(a[1]))
    c = st.n(st.cond_ge(-r - 1))
    return ret(st, tup(st.n(r + c * (1 << w)), c))


def _wadd(I, st, fj, a):
    r = _ovadd(I, st, fj, a)
    return ret(st, r[0][1].parts[0])


def _wsub(I, st, fj, a):
    r = _ovsub(I, st, fj, a)
    return ret(st, r[0][1].parts[0])


def _chk(f):
    def h(I, st, fj, a):
        v = f(I, st, fj, a)[0][1]
        if I.truth(st, v.parts[1]):
            return ret(st, none())
        return ret(st, some(st.n(v.parts[0])))
    return h


def _lz(I, st, fj, a):
    """leading_zeros: the s with x*2^s < 2^w <= x*2^(s+1) (w for 0)"""
    w = num_width(fj['path'])
    x = st.n(I.num(a[0]))
    if x.is_const():
        return ret(st, const(w - int(x.cval()).bit_length()))
    if w == 64 and 'usize' in fj['path']:
        raise Undecided('leading_zeros of usize')
    # partition by magnitude
    for k in range(w - 1, -1, -1):
        # is x >= 2^k ?
        if st.decide_le(const(1 << k), x):
            return ret(st, const(w - 1 - k))
    return ret(st, const(w))


def _umax(I, st, fj, a):
    return ret(st, const((1 << num_width(fj['path'])) - 1))


for _w in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
    _b = 'core::num::<impl %s>::' % _w
    TABLE[_b + 'overflowing_add'] = _ovadd
    TABLE[_b + 'overflowing_sub'] = _ovsub
    TABLE[_b + 'wrapping_add'] = _wadd
    TABLE[_b + 'wrapping_sub'] = _wsub
    TABLE[_b + 'checked_add'] = _chk(_ovadd)
    TABLE[_b + 'checked_sub'] = _chk(_ovsub)
    TABLE[_b + 'leading_zeros'] = _lz
    TABLE[_b + 'max_value'] = _umax


def _ssub(I, st, fj, a):
    x, y = I.num(a[0]), I.num(a[1])
    if st.decide_le(y, x):
        return ret(st, st.n(x - y))
    return ret(st, ZERO)


TABLE['core::num::<impl usize>::saturating_sub'] = _ssub


def _divceil(I, st, fj, a):
    d = st.n(I.num(a[1]))
    if not d.is_const():
        raise Undecided('div_ceil')
    return ret(st, quot(st, st.n(I.num(a[0]) + d - 1), d.cval()))


TABLE['core::num::<impl usize>::div_ceil'] = _divceil


# ---- arithmetic on an abstract storage or digit type
@model('core::ops::arith::Add::add')
def _tadd(I, st, fj, a):
    return ret(st, st.n(I.num(a[0]) + I.num(a[1])))


@model('core::ops::arith::Sub::sub')
def _tsub(I, st, fj, a):
    return ret(st, st.n(I.num(a[0]) - I.num(a[1])))


@model('core::ops::arith::Mul::mul')
def _tmul(I, st, fj, a):
    return ret(st, st.n(I.num(a[0]) * I.num(a[1])))


@model('core::ops::arith::Div::div')
def _tdiv(I, st, fj, a):
    x, y = I.num(a[0]), I.num(a[1])
    if st.decide_le(y, 0):
        return ret(st, panic('division by zero'))
    return ret(st, divide(I, st, x, y)[0])


@model('core::ops::arith::Rem::rem')
def _trem(I, st, fj, a):
    x, y = I.num(a[0]), I.num(a[1])
    if st.decide_le(y, 0):
        return ret(st, panic('division by zero'))
    return ret(st, divide(I, st, x, y)[1])


# ---- Iterator closures over boolean facts
@model('core::iter::traits::iterator::Iterator::for_each')
def _for_each(I, st, fj, a):
    from . import loops
    clo = a[1]
    return loops.fold(I, st, a[0], UNIT, clo, unit=True)
