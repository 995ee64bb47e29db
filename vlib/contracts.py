"""The contracts."""
from .poly import PONE as ONE, P, Poly, ZERO, PONE, const, power
from .state import B, bp, Cfg
from .values import *
from .spec import spec, SPECS

D = 'digit::Digit::'
ID = dict(trait=True)
NOSPACE, UNDERFLOW = err(adt(ERROR, 3)), err(adt(ERROR, 1))


# ------------------------------------------------------------------ single digits
@spec(D + 'inc', **ID)
def _(c, x):
    v = c.get(x)
    o = c.ret_cond(v + 1 - B())
    c.set(x, v + 1 - B() * o, 'digit')


@spec(D + 'dec', **ID)
def _(c, x):
    v = c.get(x)
    o = c.ret_cond(-v)
    c.set(x, v - 1 + B() * o, 'digit')


@spec(D + 'add_carry_assign', **ID)
def _(c, x, y, g):
    v = c.get(x)
    o = c.ret_cond(v + y + g - B())
    c.set(x, v + y + g - B() * o, 'digit')


@spec(D + 'sub_carry_assign', **ID)
def _(c, x, y, g):
    v = c.get(x)
    o = c.ret_cond(y + g - v - 1)
    c.set(x, v - y - g + B() * o, 'digit')


# ------------------------------------------------------------------ addition
@spec('ubig::add::inc_assign')
def _(c, s):
    n = c.len(s)
    v = c.val(s)
    o = c.ret_cond(v + 1 - bp(n))
    c.write(s, v + 1 - bp(n) * o)


@spec('ubig::add::add_assign_digit')
def _(c, s, d):
    n = c.len(s)
    v = c.val(s)
    if c.cond(v + d - bp(n)):
        if c.is0(n):
            c.ret(some(d))
        else:
            c.ret(some(PONE))
            c.write(s, v + d - bp(n))
    else:
        c.ret(none())
        c.write(s, v + d)


@spec('ubig::add::add_assign_big')
def _(c, s, t):
    n, m = c.len(s), c.len(t)
    c.panics_if(m - n - 1)
    v = c.val(s) + c.val(t)
    o = c.ret_cond(v - bp(n))
    c.write(s, v - bp(n) * o)


@spec('ubig::add::add_big_into')
def _(c, s, t, r):
    n, m, l = c.len(s), c.len(t), c.len(r)
    mx = n if c.cond(n - m) else m
    if c.cond(mx - l - 1):
        c.ret(NOSPACE)
        return
    v = c.val(s) + c.val(t)
    if c.cond(v - bp(mx)):
        if c.cond(mx - l):
            c.havoc(r)
            c.ret(NOSPACE)
        else:
            c.write(r, v, ZERO, mx + 1)
            c.ret(ok(mx + 1))
    else:
        c.write(r, v, ZERO, mx)
        c.ret(ok(mx))


# ------------------------------------------------------------------ support
@spec('ubig::support::drop_leading_zeros')
def _(c, s, ln):
    c.pre(c.len(s) - ln)
    c.ret_count(lambda m: m, s, c.val(s, ZERO, ln), ln, keep=True)


# ------------------------------------------------------------------ subtraction
@spec('ubig::sub::dec_assign')
def _(c, s):
    n, v = c.len(s), c.val(s)
    if c.is0(n):
        c.ret(UNDERFLOW)
    elif c.is0(v):
        c.ret(UNDERFLOW)
        c.write(s, bp(n) - 1)
    else:
        i = c.ret_pick(ok, [n, n - 1])
        c.write(s, v - 1)
        if i:
            c.know(bp(n - 1) - v)
        else:
            c.canon_if(v, n, v - 1, n)


@spec('ubig::sub::sub_assign_digit')
def _(c, s, d):
    n, v = c.len(s), c.val(s)
    if c.cond(d - v - 1):
        c.ret(UNDERFLOW)
        c.havoc(s)
    else:
        c.ret_count(ok, s, v - d, n, given=v)


@spec('ubig::sub::sub_assign_big')
def _(c, s, t):
    n, m = c.len(s), c.len(t)
    if c.cond(m - n - 1):
        c.ret(UNDERFLOW)
        return
    v, w = c.val(s), c.val(t)
    if c.cond(w - v - 1):
        c.ret(UNDERFLOW)
        c.write(s, v - w + bp(n))       # division relies on the wrapped difference
    else:
        c.ret_count(ok, s, v - w, n)


@spec('ubig::sub::sub_big_into')
def _(c, s, t, r):
    n, m, l = c.len(s), c.len(t), c.len(r)
    if c.cond(n - l - 1):
        c.ret(NOSPACE)
        return
    if c.cond(m - n - 1):
        c.ret(UNDERFLOW)
        return
    v, w = c.val(s), c.val(t)
    if c.cond(w - v - 1):
        c.ret(UNDERFLOW)
        c.havoc(r, ZERO, n)
    else:
        c.ret_count(ok, r, v - w, n)


@spec('ubig::rsub::rsub_assign_big')
def _(c, s, t):
    n, m = c.len(s), c.len(t)
    c.panics_if(m - n - 1)
    c.panics_if(n - m - 1)
    v, w = c.val(t), c.val(s)
    if c.cond(w - v - 1):
        c.ret(UNDERFLOW)
        c.havoc(s)
    else:
        c.ret_count(ok, s, v - w, n)


@spec('ubig::sub::sub_assign_big_abs_sign')
def _(c, s, ln, t):
    n, m = c.len(s), c.len(t)
    A, Bv = c.val(s, ZERO, ln), c.val(t)
    c.pre(n - ln)
    c.pre(n - m)
    c.pre_canon(A, ln)
    c.pre_canon(Bv, m)
    c.pre_zero_above(s, ln, m)
    if c.cond(Bv - A - 1):
        c.ret_count(lambda k: tup(PONE, k), s, Bv - A, m)
    else:
        c.ret_count(lambda k: tup(ZERO, k), s, A - Bv, ln)


@spec('ubig::sub::sub_big_into_abs_sign')
def _(c, s, t, r):
    n, m, l = c.len(s), c.len(t), c.len(r)
    A, Bv = c.val(s), c.val(t)
    c.pre_canon(A, n)
    c.pre_canon(Bv, m)
    c.pre(l - n)
    c.pre(l - m)
    if c.cond(Bv - A - 1):
        c.ret_count(lambda k: tup(PONE, k), r, Bv - A, m)
    else:
        c.ret_count(lambda k: tup(ZERO, k), r, A - Bv, n)


# ------------------------------------------------------------------ comparison
@spec('ubig::cmp::cmp')
def _(c, s, t):
    n, m = c.len(s), c.len(t)
    if c.cond(m - n - 1):
        c.ret(ordering(-1))
    elif c.cond(n - m - 1):
        c.ret(ordering(1))
    else:
        v, w = c.val(s), c.val(t)
        if c.cond(w - v - 1):
            c.ret(ordering(-1))
        elif c.cond(v - w - 1):
            c.ret(ordering(1))
        else:
            c.ret(ordering(0))


@spec('ubig::cmp::lt')
def _(c, s, t):
    n, m = c.len(s), c.len(t)
    if c.both_canon(c.val(s), n, c.val(t), m):
        c.ret_cond(c.val(t) - c.val(s) - 1)
        c.given_cond(c.val(t) - c.val(s) - 1, m - n, n - m)
    elif c.cond(m - n - 1):
        c.ret(PONE)
    elif c.cond(n - m - 1):
        c.ret(ZERO)
    else:
        c.ret_cond(c.val(t) - c.val(s) - 1)


# ------------------------------------------------------------------ shifts
@spec(D + 'shl_carry_assign', **ID)
def _(c, x, s, y):
    v = c.get(x)
    c.pre(s - 1, 'shift')
    c.pre(B() - 1 - power('2', s), 'shift')
    c.pre(power('2', s) - 1 - y, 'carry')
    h = c.result(lambda h: h, ['digit'])
    c.know(power('2', s) - 1 - h)
    c.set(x, v * power('2', s) + y - B() * h, 'digit')


@spec(D + 'shr_carry_assign', **ID)
def _(c, x, s, y):
    v = c.get(x)
    c.pre(s - 1, 'shift')
    c.pre(B() - 1 - power('2', s), 'shift')
    c.pre(power('2', s) - 1 - y, 'carry')
    q = c.newget(x, 'digit')
    r = c.result(lambda h: h, ['digit'])
    c.know_eq(v + B() * y - q * power('2', s) - r)
    c.know(power('2', s) - 1 - r)
    c.set(x, q, 'digit')


@spec('ubig::shl::shl_carry_assign_within_digit')
def _(c, s, k, y):
    n, v = c.len(s), c.val(s)
    c.pre(B() - 1 - power('2', k), 'shift')
    c.pre(power('2', k) - 1 - y, 'carry')
    h = c.result(lambda h: h, ['digit'])
    c.know(power('2', k) - 1 - h)
    c.write(s, v * power('2', k) + y - bp(n) * h)


@spec('ubig::shr::shr_carry_assign_within_digit')
def _(c, s, k, y):
    n, v = c.len(s), c.val(s)
    c.pre(B() - 1 - power('2', k), 'shift')
    c.pre(power('2', k) - 1 - y, 'carry')
    q = c.newval(s)
    h = c.peek(lambda m, h: tup(m, h), ['nat', 'digit'])[1]
    c.know_eq(v + bp(n) * y - q * power('2', k) - h)
    c.know(power('2', k) - 1 - h)
    c.ret_count(lambda m: tup(m, h), s, q, n)


# ------------------------------------------------------------------ multiplication by digits
@spec(D + 'double_carry_assign', **ID)
def _(c, x, g):
    v = c.get(x)
    o = c.ret_cond(2 * v + g - B())
    c.set(x, 2 * v + g - B() * o, 'digit')


@spec(D + 'mul_carry_assign', **ID)
def _(c, x, f, y):
    v = c.get(x)
    h = c.result(lambda h: h, ['digit'])
    c.set(x, v * f + y - B() * h, 'digit')


@spec(D + 'add_prod_carry_assign', **ID)
def _(c, x, f, g, y):
    v = c.get(x)
    h = c.result(lambda h: h, ['digit'])
    c.set(x, v + f * g + y - B() * h, 'digit')


@spec(D + 'sub_prod_carry_assign', **ID)
def _(c, x, f, g, y):
    v = c.get(x)
    h = c.result(lambda h: h, ['digit'])
    c.set(x, v - f * g - y + B() * h, 'digit')


@spec(D + 'div_carry_assign', **ID)
def _(c, x, f, y):
    v = c.get(x)
    c.pre(f - 1 - y, 'carry below the divisor')
    q = c.newget(x, 'digit')
    r = c.result(lambda h: h, ['digit'])
    c.know_eq(v + B() * y - q * f - r)
    c.know(f - 1 - r)
    c.set(x, q, 'digit')


@spec(D + 'rem_carry', **ID)
def _(c, x, f, y):
    v = c.get(x)
    c.pre(f - 1 - y, 'carry below the divisor')
    r = c.result(lambda h: h, ['digit'])
    c.multiple(v + B() * y - r, f, 'digit')
    c.know(f - 1 - r)


@spec(D + 'div3_carry_assign', **ID)
def _(c, x, y):
    v = c.get(x)
    c.pre(2 - y, 'carry below 3')
    q = c.newget(x, 'digit')
    r = c.result(lambda h: h, [(0, 2)])
    c.know_eq(v + B() * y - q * 3 - r)
    c.set(x, q, 'digit')


@spec(D + 'max_shift', **ID)
def _(c, x):
    v = c.get(x)
    c.pre(v - 1, 'digit not zero')
    s = c.result(lambda s: s, ['shift'])
    c.know(B() - 1 - v * power('2', s))
    c.know(2 * v * power('2', s) - B())
    c.know(B() - 1 - power('2', s))


@spec(D + 'from_bit', **ID)
def _(c, g):
    c.ret(g)


@spec('ubig::mul::double_carry_assign')
def _(c, s, g):
    n, v = c.len(s), c.val(s)
    o = c.ret_cond(2 * v + g - bp(n))
    c.write(s, 2 * v + g - bp(n) * o)


@spec('ubig::mul::mul_add_assign_digit')
def _(c, s, f, y):
    n, v = c.len(s), c.val(s)
    h = c.result(lambda h: h, ['digit'])
    c.write(s, v * f + y - bp(n) * h)


@spec('ubig::mul::mul_digit_into')
def _(c, s, f, t):
    n, v = c.len(s), c.val(s)
    c.panics_if(n - c.len(t))
    c.write(t, v * f, ZERO, n + 1)


@spec('ubig::mul::mul_pair_add_assign_digit')
def _(c, s, f, g, y):
    n, v = c.len(s), c.val(s)
    l, h = c.result(lambda l, h: tup(l, h), ['digit', 'digit'])
    c.write(s, v * (f + g * B()) + y - bp(n) * l - bp(n + 1) * h)


# ------------------------------------------------------------------ division by digits
DIVZERO = err(adt(ERROR, 2))


@spec('ubig::div::div_assign_digit')
def _(c, s, f):
    n, v = c.len(s), c.val(s)
    if c.zero_divisor(f):
        c.ret(DIVZERO)
        return
    q = c.newval(s)
    r = c.peek(lambda m, r: ok(tup(m, r)), ['nat', 'digit'])[1]
    c.know_eq(v - q * f - r)
    c.know(f - 1 - r)
    c.ret_count(lambda m: ok(tup(m, r)), s, q, n)


@spec('ubig::div::rem_digit')
def _(c, s, f):
    n, v = c.len(s), c.val(s)
    if c.zero_divisor(f):
        c.ret(DIVZERO)
        return
    r = c.result(lambda r: ok(r), ['digit'])
    c.multiple(v - r, f, 'nat')
    c.know(f - 1 - r)


@spec('ubig::div::div3_carry_assign')
def _(c, s, y):
    n, v = c.len(s), c.val(s)
    c.pre(2 - y, 'carry below 3')
    q = c.newval(s)
    r = c.peek(lambda m, r: tup(m, r), ['nat', (0, 2)])[1]
    c.know_eq(v + bp(n) * y - q * 3 - r)
    c.ret_count(lambda m: tup(m, r), s, q, n)


@spec('ubig::div::normalize_assign')
def _(c, s):
    n, v = c.len(s), c.val(s)
    c.pre(n - 1)
    c.pre_canon(v, n)
    k = c.result(lambda k: k, ['shift'])
    c.know(bp(n) - 1 - v * power('2', k))
    c.know(2 * v * power('2', k) - bp(n))
    c.know(B() - 1 - power('2', k))
    c.write(s, v * power('2', k))


@spec('ubig::div::estimate_quot')
def _(c, h, l, d):
    c.pre(d - 1)
    c.pre(d - h)
    q = c.result(lambda q: q, ['digit'])
    if c.cond(d - h - 1):
        r = c.rest('digit', h * B() + l - q * d)
        c.know(d - 1 - r)
    else:
        c.ret(B() - 1)


@spec('ubig::div::div_assign_digit_pair')
def _(c, s, f, g):
    n, v = c.len(s), c.val(s)
    w = f + g * B()
    if c.zero_divisor(w):
        c.ret(DIVZERO)
        return
    q = c.newval(s)
    m, l, h = c.peek_ret(lambda m, l, h: ok(tup(m, l, h)), ['nat', 'digit', 'digit'])
    c.know_eq(v - q * w - l - h * B())
    c.know(w - 1 - l - h * B())
    c.count(s, m, q, n)


# the loop (two digits per step) is not proved; the short numbers are
SPECS['ubig::div::div_assign_digit_pair'].lengths = ['lengths 0 peel=1', 'lengths 1 peel=1']


def div_contract(c, s, t, u, need=None):
    """num = s, den = t, quot = u"""
    n, m, l = c.len(s), c.len(t), c.len(u)
    v, w = c.val(s), c.val(t)
    c.pre_canon(v, n)
    c.pre_canon(w, m)
    c.pre_zero(u)
    mm = lambda a, b: ok(tup(a, b))
    if c.pre_case(m - 1):
        if c.pre_case(v - w):
            if need:
                need(n, m)
            if c.pre_case(l - (n - m + 1)):
                pass
            else:
                c.pre(bz_cutoff() - 1 - m, 'one digit less is only allowed for long division')
                c.pre(l - (n - m), 'space for the quotient')
                c.pre(w - 1 - c.val(s, n - m, m), 'space for the quotient')
        else:
            c.ret(mm(ZERO, n))
            return
    else:
        c.tag = ' [zero divisor]'
        c.ret(DIVZERO)
        return
    div_effect(c, s, t, u, mm)


def div_effect(c, s, t, u, mm):
    n, m, l = c.len(s), c.len(t), c.len(u)
    v, w = c.val(s), c.val(t)
    a, b = c.peek_ret(mm, ['nat', 'nat'])
    q = c.newval(u)
    r = c.peek_num(s, ZERO, b)
    c.know_eq(v - q * w - r)
    c.know(w - 1 - r)
    c.count(u, a, q, l)
    # in the digits above the remainder, only those of a numerator handled by long division are zero
    c.count(s, b, r, n, 'zero' if c.cond(bz_cutoff() - 1 - m) else 'any')


def bz_cutoff():
    from . import verify
    return P(verify.PROG.const('ubig::div::BZ_CUTOFF'))


@spec('ubig::div::div_big')
def _(c, s, t, u):
    div_contract(c, s, t, u)


@spec('ubig::div::div_big_with_work')
def _(c, s, t, u, work):
    def need(n, m):
        if c.pre_case(m - 3):
            if c.pre_case(bz_cutoff() - 1 - m):
                c.pre(c.len(work) - m - 1, 'work space')
            else:
                c.pre(c.len(work) - c.fn('div_bz_work', m), 'work space')
    div_contract(c, s, t, u, need)
    if c.cond(c.len(t) - 3):
        c.havoc(work)


@spec('ubig::div::bz::calc_div_bz_work_size')
def _(c, n):
    c.define(c.fn('div_bz_work', n))


@spec('ubig::div::long::div_big_long')
def _(c, s, t, u, work):
    n, m, l = c.len(s), c.len(t), c.len(u)
    v, w = c.val(s), c.val(t)
    c.pre(m - 3, 'denominator of at least three digits')
    c.pre_canon(v, n)
    c.pre_canon(w, m)
    c.pre_zero(u)
    c.pre(v - w, 'numerator not less than the denominator')
    c.pre(c.len(work) - m - 1, 'work space')
    if c.pre_case(l - (n - m + 1)):
        pass
    else:
        c.pre(l - (n - m), 'space for the quotient')
        c.pre(w - 1 - c.val(s, n - m, m), 'space for the quotient')
    a, b = c.peek_ret(tup, ['nat', 'nat'])
    q = c.newval(u)
    r = c.peek_num(s, ZERO, b)
    c.know_eq(v - q * w - r)
    c.know(w - 1 - r)
    c.count(u, a, q, l)
    c.count(s, b, r, n)
    c.havoc(work)


@spec('ubig::div::long::div_big_long_scaled')
def _(c, s, h, t, u, work):
    n, m, l = c.len(s), c.len(t), c.len(u)
    v, w = c.val(s) + bp(n) * h, c.val(t)
    top = c.val(t, m - 1, ONE)
    c.pre(m - 3, 'denominator of at least three digits')
    c.pre(n - m, 'numerator not shorter than the denominator')
    c.pre_even(2 * top - B(), m - 1, 'scaled denominator')
    c.pre_zero(u)
    c.pre(top - 1 - h, 'leading digit below that of the denominator')
    c.pre(c.len(work) - m - 1, 'work space')
    if c.pre_case(l - (n - m + 1)):
        pass
    else:
        c.pre(l - (n - m), 'space for the quotient')
        c.pre(w - 1 - c.val(s, n - m, m) - bp(m) * h, 'space for the quotient')
    a, b = c.peek_ret(tup, ['nat', 'nat'])
    q = c.newval(u)
    r = c.peek_num(s, ZERO, b)
    c.know_eq(v - q * w - r)
    c.know(w - 1 - r)
    c.count(u, a, q, l)
    c.count(s, b, r, n)
    c.havoc(work)


@spec('ubig::div::bz::div_big_bz')
def _(c, s, t, u, work):
    n, m, l = c.len(s), c.len(t), c.len(u)
    v, w = c.val(s), c.val(t)
    c.pre(m - 3, 'denominator of at least three digits')
    c.pre_canon(v, n)
    c.pre_canon(w, m)
    c.pre_zero(u)
    c.pre(v - w, 'numerator not less than the denominator')
    c.pre(c.len(work) - c.fn('div_bz_work', m), 'work space')
    c.pre(l - (n - m + 1), 'space for the quotient')
    a, b = c.peek_ret(tup, ['nat', 'nat'])
    q = c.newval(u)
    r = c.peek_num(s, ZERO, b)
    c.know_eq(v - q * w - r)
    c.know(w - 1 - r)
    c.count(u, a, q, l)
    c.count(s, b, r, n, 'any')
    c.havoc(work)


SPECS['ubig::div::long::div_big_long_scaled'].lengths = ['given invariant']
