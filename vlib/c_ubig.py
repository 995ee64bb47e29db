"""Contracts of the UBig methods and operators: what users call."""
from .poly import P, Poly, ZERO, PONE, const, power
from .state import B, bp, Cfg, Undecided
from .values import *
from .spec import spec, SPECS
from .models import Zatom

U = 'ubig::UBig::<T>::'
OPS = 'ubig::ops::<impl core::ops::'
DIVZERO = err(adt(ERROR, 2))
UNDERFLOW = err(adt(ERROR, 1))


def value(c, x):
    """the number an operand stands for: a digit, a native integer or a big number"""
    if isinstance(x, Poly):
        return c.n(x)
    return c.num(x)[0]


# every operator exists as  A op= B,  A op B,  &A op B ... with B a digit, a native integer or a number
def operator(trait, asg, name, rule, cls='arith', rhs_num=True):
    """rule(c, v, w) -> the value of the result (after declaring the documented panics)"""
    selfs = ['ubig::UBig<T>', 'ubig::UBig<digit::BinaryDigit<T>>', 'ubig::UBig<digit::DecimalDigit<T>>']
    asgs = ['%s%s::%s<T> for %s>::%s' % (OPS, cls, asg, s, name + '_assign') for s in selfs]
    vals = ['%s%s::%s<T> for %s%s>::%s' % (OPS, cls, trait, r, s, name) for s in selfs for r in ('', '&')]
    asgs += ['%s%s::%s for ubig::UBig<T>>::%s' % (OPS, cls, asg, name + '_assign'),
             '%s%s::%s<&ubig::UBig<T>> for ubig::UBig<T>>::%s' % (OPS, cls, asg, name + '_assign')]
    vals += ['%s%s::%s for ubig::UBig<T>>::%s' % (OPS, cls, trait, name),
             '%s%s::%s<&ubig::UBig<T>> for ubig::UBig<T>>::%s' % (OPS, cls, trait, name),
             '%s%s::%s<ubig::UBig<T>> for &ubig::UBig<T>>::%s' % (OPS, cls, trait, name),
             '%s%s::%s<&ubig::UBig<T>> for &ubig::UBig<T>>::%s' % (OPS, cls, trait, name)]

    def a(c, x, y):
        c.set_num(x, rule(c, value(c, x), value(c, y), lambda: c.after(x)))

    def v(c, x, y):
        c.ret_num(rule(c, value(c, x), value(c, y), c.resnum))
    for p in asgs:
        spec(p)(a)
    for p in vals:
        spec(p)(v)


def r_add(c, v, w, q):
    return v + w


def r_sub(c, v, w, q):
    c.panics_if(w - v - 1, 'underflow')
    return v - w


def r_mul(c, v, w, q):
    return v * w


def r_div(c, v, w, q):
    c.panics_if(-w, 'division by zero')
    q = q()
    r = c.rest('nat', v - q * w)
    c.know(w - 1 - r)
    return q


def r_rem(c, v, w, q):
    c.panics_if(-w, 'division by zero')
    r = q()
    c.multiple(v - r, w, 'nat')
    c.know(w - 1 - r)
    return r


operator('Add', 'AddAssign', 'add', r_add)
operator('Sub', 'SubAssign', 'sub', r_sub)
operator('Mul', 'MulAssign', 'mul', r_mul)


operator('Div', 'DivAssign', 'div', r_div)
operator('Rem', 'RemAssign', 'rem', r_rem)


@spec(U + 'new')
def _(c, d):
    c.ret_num(c.vecval(d))


@spec(U + 'drop_leading_zeros')
def _(c, x):
    c.set_num(x, value(c, x))


@spec('<ubig::UBig<T> as core::cmp::Ord>::cmp', '<ubig::UBig<T> as core::cmp::PartialOrd>::partial_cmp')
def _(c, x, y):
    v, w = value(c, x), value(c, y)
    wrap = some if c.spec.path.endswith('partial_cmp') else (lambda z: z)
    if c.cond(w - v - 1):
        c.ret(wrap(ordering(-1)))
    elif c.cond(v - w - 1):
        c.ret(wrap(ordering(1)))
    else:
        c.ret(wrap(ordering(0)))


@spec(U + 'add_assign_big_at_offset')
def _(c, x, y, o):
    v, w = value(c, x), value(c, y)
    n, m = c.num(x)[1], c.num(y)[1]
    c.set_num(x, v + w * bp(o), canonical=bool(c.is0(o)))
    c.ret(x)


@spec(U + 'mul_add_assign_digit')
def _(c, x, f, g):
    c.set_num(x, value(c, x) * f + g)


@spec(U + 'mul_pair_add_assign_digit')
def _(c, x, f, g, h):
    c.set_num(x, value(c, x) * (f + g * B()) + h)


@spec(U + 'mul_big')
def _(c, x, y):
    c.ret_num(value(c, x) * value(c, y))


@spec(U + 'square')
def _(c, x):
    v = value(c, x)
    c.ret_num(v * v)


# ------------------------------------------------------------------ division
@spec(U + 'div_assign_digit')
def _(c, x, f):
    v = value(c, x)
    if c.zero_divisor(f):
        c.ret(DIVZERO)
        return
    q = c.after(x)
    r, = c.peek_ret(ok, ['digit'])
    c.know_eq(v - q * f - r)
    c.know(f - 1 - r)
    c.set_num(x, q)


@spec(U + 'div_assign_digit_pair')
def _(c, x, f, g):
    v, w = value(c, x), f + g * B()
    if c.zero_divisor(w):
        c.ret(DIVZERO)
        return
    q = c.after(x)
    l, h = c.peek_ret(lambda l, h: ok(tup(l, h)), ['digit', 'digit'])
    c.know_eq(v - q * w - l - h * B())
    c.know(w - 1 - l - h * B())
    c.set_num(x, q)


@spec(U + 'rem_digit')
def _(c, x, f):
    v = value(c, x)
    if c.zero_divisor(f):
        c.ret(DIVZERO)
        return
    r, = c.peek_ret(ok, ['digit'])
    c.multiple(v - r, f, 'nat')
    c.know(f - 1 - r)


@spec(U + 'div_assign_big')
def _(c, x, y):
    v, w = value(c, x), value(c, y)
    if c.zero_divisor(w):
        c.ret(DIVZERO)
        return
    q, r = c.after(x), c.resnum(ok)
    c.know_eq(v - q * w - r)
    c.know(w - 1 - r)
    c.set_num(x, q)
    c.ret_num(r, ok)


@spec(U + 'rem_assign_big')
def _(c, x, y):
    v, w = value(c, x), value(c, y)
    if c.zero_divisor(w):
        c.ret(DIVZERO)
        return
    r = c.after(x)
    c.multiple(v - r, w, 'nat')
    c.know(w - 1 - r)
    c.set_num(x, r)
    c.ret(ok(UNIT))


# ------------------------------------------------------------------ constants, native integers, powers
@spec('<ubig::UBig<T> as num_traits::identities::Zero>::zero')
def _(c):
    c.ret_num(ZERO)


@spec('<ubig::UBig<T> as num_traits::identities::One>::one')
def _(c):
    c.ret_num(PONE)


@spec('<ubig::UBig<T> as num_traits::identities::Zero>::is_zero')
def _(c, x):
    c.ret_cond(-value(c, x))


@spec('<ubig::UBig<digit::BinaryDigit<T>> as core::convert::From<T>>::from',
      '<ubig::UBig<digit::DecimalDigit<T>> as core::convert::From<T>>::from')
def _(c, x):
    c.ret_num(c.n(x))


@spec(OPS[:-len('core::ops::')] + 'num_traits::pow::Pow<usize> for ubig::UBig<T>>::pow',
      OPS[:-len('core::ops::')] + 'num_traits::pow::Pow<usize> for &ubig::UBig<T>>::pow')
def _(c, x, e):
    v = value(c, x)
    k = c.n(e)
    if not k.is_const() and v.is_const() and v.cval() == 2:
        c.ret_num(power('2', k))
        return
    if not k.is_const():
        raise Undecided('power of unknown exponent')
    r = PONE
    for _ in range(int(k.cval())):
        r = r * v
    c.ret_num(r)


for _p in ('', '&'):
    SPECS[OPS[:-len('core::ops::')] + 'num_traits::pow::Pow<usize> for %subig::UBig<T>>::pow' % _p].lengths = [
        'lengths -,%d peel=40' % k for k in list(range(21)) + [31, 32, 33, 64, 100, 127, 255, 256, 257, 1000, 65537]]


# ------------------------------------------------------------------ shifts
def axiom(c, n):
    """2^(8W - 4) < 10^k for every decimal storage type (see HEX below)"""
    if c.setup and 'DecimalDigit' in c.spec.path:
        if c.pre_case(8 * P(Zatom()) - 4 - n):
            c.st.add(B() - 1 - power('2', n))
            c.st.add(power('2', n) - 1)


for _w, _r in ((1, 100), (2, 10 ** 4), (4, 10 ** 9), (8, 10 ** 19)):
    assert 2 ** (8 * _w - 4) < _r


def shl_assign(c, x, n):
    n = c.n(n)
    axiom(c, n)
    c.set_num(x, value(c, x) * power('2', n))


def shl_value(c, x, n):
    c.ret_num(value(c, x) * power('2', c.n(n)))


def shr_of(c, v, q, n):
    r = c.rest('nat', v - q * power('2', c.n(n)))
    c.know(power('2', c.n(n)) - 1 - r)
    return q


def shr_assign(c, x, n):
    n = c.n(n)
    axiom(c, n)
    c.set_num(x, shr_of(c, value(c, x), c.after(x), n))


def shr_value(c, x, n):
    c.ret_num(shr_of(c, value(c, x), c.resnum(), n))


BIT = OPS + 'bit::'
TR = 'core::ops::bit::'
spec(TR + 'ShlAssign::shl_assign', trait=True)(shl_assign)
spec(TR + 'ShrAssign::shr_assign', trait=True)(shr_assign)
for _t in ('digit::BinaryDigit<T>', 'digit::DecimalDigit<T>'):
    for _n, _f in (('shl', shl_assign), ('shr', shr_assign)):
        _N = _n.title() + 'Assign'
        _p = BIT + '%s<usize> for ubig::UBig<%s>>::%s_assign' % (_N, _t, _n)
        spec(_p)(_f)
        SPECS[_p].impl_of = TR + '%s::%s_assign' % (_N, _n)
for _t in ('', '&'):
    spec(BIT + 'Shl<usize> for %subig::UBig<T>>::shl' % _t)(shl_value)
    spec(BIT + 'Shr<usize> for %subig::UBig<T>>::shr' % _t)(shr_value)
SPECS[BIT + 'ShrAssign<usize> for ubig::UBig<digit::DecimalDigit<T>>>::shr_assign'].lengths = ['given invariant', 'lengths -,- peel=1']
