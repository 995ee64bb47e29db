"""Which functions decide which property."""
from .spec import SPECS


def forms(*traits):
    def sel(p):
        return any(('arith::%s<' % t in p or 'arith::%s for' % t in p or 'bit::%s<' % t in p) for t in traits)
    return sel


def paths(*ps):
    return lambda p: p in ps


def by_digit(op):
    return lambda p: 'arith::%s<T> for' % op in p or 'arith::%sAssign<T> for' % op in p


def by_num(op):
    return lambda p: forms(op, op + 'Assign')(p) and not by_digit(op)(p)


U = 'ubig::UBig::<T>::'

def ops(*traits):
    return forms(*(x for t in traits for x in (t, t + 'Assign')))


def either(*fs):
    return lambda p: any(f(p) for f in fs)


FALLIBLE = paths(U + 'div_assign_digit', U + 'div_assign_digit_pair', U + 'rem_digit', U + 'div_assign_big', U + 'rem_assign_big')
CONST = lambda p: 'num_traits::identities' in p and '<ubig::' in p
POWER = lambda p: 'num_traits::pow::Pow<usize> for' in p
NEW = lambda p: p == U + 'new' or 'convert::From<T>>::from' in p and '<ubig::' in p
ARITH = ops('Add', 'Sub', 'Mul', 'Div', 'Rem')


# which failed obligations count against a property: (function, rule, message, is a root) -> bool
def any_rule(p, rule, msg, root):
    return True


def rules(*words):
    return lambda p, rule, msg, root: any(w in rule for w in words)


def only_roots(p, rule, msg, root):
    return root


# property -> (selector of root contracts, lints, filter of failed obligations)
PROPS = {
    'C01': (either(ARITH, FALLIBLE, CONST, POWER, NEW), (), rules('canonical form', 'digit count')),
    'C02': (lambda p: getattr(SPECS[p], 'impl_of', '').startswith('digit::'), (), any_rule),
    'C04': (ops('Add'), (), any_rule),
    'C05': (ops('Sub'), (), any_rule),
    'C06': (by_digit('Mul'), (), any_rule),
    'C07': (by_num('Mul'), (), any_rule),
    'C08': (paths(U + 'square'), (), any_rule),
    'C09': (either(by_digit('Div'), by_digit('Rem'), paths(U + 'div_assign_digit', U + 'rem_digit')), (), any_rule),
    'C10': (either(by_num('Div'), by_num('Rem'), paths(U + 'div_assign_big', U + 'rem_assign_big')), (), any_rule),
    'C12': (lambda p: '::cmp::Ord>' in p or '::cmp::PartialOrd>' in p, (), any_rule),
    'C13': (either(ops('Div', 'Rem'), FALLIBLE), (), rules('[zero divisor]')),
    'C14': (FALLIBLE, (), rules('[zero divisor]')),
    'C15': (ARITH, (), only_roots),
    'C19': (ARITH, (), rules('unexpected panic')),
    'C11': (lambda p: 'ops::bit::Sh' in p, (), any_rule),
    'C24': (either(CONST, POWER), (), any_rule),
    'C25': (NEW, (), any_rule),
    'C20': (None, ('effects',), any_rule),
}


def roots(prop):
    sel = PROPS[prop][0]
    from .verify import MOVED
    return [p for p in SPECS if sel and sel(MOVED.get(p, p)) and not SPECS[p].trait]


TECHNIQUE = {'C20': 'effect lint over MIR (unsafe, statics, forbidden callees, address casts, interior-mutable types)'}
LEVELS = {}
NOTES = {'C20': 'Complete over the crate: every body, item, call and cast is inspected; trusts core/alloc/num-traits functions outside the forbidden list to be pure.'}
NA = {
    'C16': 'from_str walks UTF-8 text with str::chars, byte slices at character boundaries and from_str_radix of core; the value of a text is not a polynomial of its bytes and core\'s parser is outside the analysed crate, so there is no static argument in reach that every accepted string has its value. Panics on odd text were found by reading and repaired (known_findings.txt); the single-digit and mul_add steps it is made of are proved under C02 and C06.',
    'C17': 'to_string and the hexadecimal formatter build text with write! and width specifiers; the relation between a value and the text core::fmt writes for it is outside any domain used here, and a lint for the width specifier would check how it is written and not what it does.',
    'C18': 'The conversion chooses between Horner steps and a divide-and-conquer over a run-time table of powers of ten; the loop over the table relates a vector of numbers to exponents (element i is 10^(k*2^i)), which needs an invariant over vectors of numbers the memory domain (vectors of digits) cannot state. The arithmetic it is made of is proved under C04, C06, C07, C10.',
}

# what is decided, per property (for DESIGN.md)
DESIGN = {
    'C11': 'Roots: `Shl`, `ShlAssign`, `Shr`, `ShrAssign` for binary and decimal numbers, owned and borrowed. For every number and every shift count `n`: left gives `v * 2^n`; right gives `q` with `0 <= v - q*2^n < 2^n`; both canonical. For binary digits `b = 2^(8W)` for a symbolic width `W`, and `n = 8W*words + bits`. The step-wise decimal right shift is proved with a given, checked loop invariant (`invariants.py`). `2^(8W-4) < 10^k` is checked for the four storage widths. Cost ~10 s.',
    'C24': 'Roots: `Zero::zero`, `Zero::is_zero`, `One::one`, `Pow<usize>` for `UBig` and `&UBig`. The constants and the zero test are proved. `pow` has no loop summary (a power with a symbolic exponent is not a polynomial); it is analysed exactly, for every number, at the exponents 0..20 and 31, 32, 33, 64, 100, 127, 255, 256, 257, 1000, 65537: at a fixed exponent the result must be the same monomial of the (symbolic) value. Cost ~8 s, `square` and `mul_assign` enter by contract and are proved in the closure.',
    'C25': 'Roots: `UBig::new`, `From<T>` for binary and decimal numbers. For every digit vector of any length the result denotes the same value and is canonical; for every native integer `0 <= n < S` (`b < S <= b^2` for decimal) the result is one or two digits below the base with value `n`. Cost ~3 s.',
    'C01': 'Roots: every `Add Sub Mul Div Rem` form with its assigning form, the fallible division functions, `new`, `zero`, `one`, `From`, `pow`. Counts only failed obligations about canonical form and digit counts (`n` digits and value below `b^n`, top digit nonzero, `m = 0` for zero). Cost ~15 s.',
    'C02': 'Roots: the 8 implementations of `Digit` (`u8`–`u64`, binary and decimal), 14 operations each, plus the two provided bodies of the trait. Integer semantics of the concrete widths (wrapping shifts, casts, masks, `leading_zeros`; overflow assertions are panics); base is the concrete number; floors (`/`, `%`, `>>`, masks) become integer unknowns with their two bounds, products are bounded by range products, entailment is exact LP with integer rounding. Shifts are analysed once per shift count. `div_rem_base` (the reciprocal multiplication) is inlined and proved for the reachable range. Cost ~6 s.',
    'C07': 'Roots: all forms of `Mul`/`MulAssign` with a number operand. Dispatchers (`mul_big_into`, `mul_big_into_with_work`) and long multiplication are proved for all lengths: value, count, panic freedom, and independence of scratch contents (scratch is arbitrary in the proof). Karatsuba products (not squares) are analysed exactly, for all digits, at five pairs of lengths that cover the even and odd splits and the wrapped middle term; Toom-3 products enter through their contract; see the evidence (`undecided`). Cost ~20 s, 150 s when Karatsuba has changed.',
    'C08': 'Root: `UBig::square`, with `square_into`, `square_long_into` and, proved for every length including the recursion, `square_karatsuba_into` (the recursive call by its contract). Toom-3 squaring enters through its contract. Cost ~70 s.',
    'C09': 'Roots: all `Div<T>`, `Rem<T>` forms, binary and decimal, `div_assign_digit`, `rem_digit`. `q*d + r = value`, `0 <= r < d`, canonical quotient. Cost ~6 s.',
    'C10': 'Roots: all `Div`, `Rem` forms with a number operand, `div_assign_big`, `rem_assign_big`. The dispatch, normalisation and two-digit paths are proved; the schoolbook division (`div_big_long`, and `div_big_long_scaled` with its estimated quotient digits) is proved for all lengths with a given, checked loop invariant. The Burnikel-Ziegler recursion and the loop of `div_assign_digit_pair` enter through their contracts (see `undecided` in the evidence). Cost ~150 s.',
    'C13': 'Roots: all division and remainder forms and the fallible functions. Obligation: under `divisor = 0` every return is the documented error and every operator path panics; a returning path is a violation. Cost ~6 s.',
    'C14': 'Roots: the fallible functions. Obligation: on the paths that return the division-by-zero error the digit vector is the initial one, piece by piece. Cost ~4 s.',
    'C15': 'Roots: all forms of all five operators. The forms share one contract text per operator (`operator(...)`), so agreement is agreement with the same term; operands taken by reference must be unchanged piece by piece. Only failures in the forms themselves count here. Cost ~15 s.',
    'C19': 'Roots: all forms of all five operators. Counts only paths that end in a panic (index, slice, `unwrap`, assertion, overflow, `debug_assert!`) other than the documented one. Cost ~15 s.',
    'C04': 'Roots: all 15 `Add`/`AddAssign` forms. Value, canonical form, untouched borrowed operand, no panic. Cost ~5 s.',
    'C05': 'Roots: all `Sub`/`SubAssign` forms. Value, canonical form, panic exactly when the difference is negative. Cost ~5 s (30 s when something fails).',
    'C06': 'Roots: all `Mul<T>`/`MulAssign<T>` forms, binary and decimal, including native factors of two decimal digits. Cost ~7 s.',
    'C12': 'Roots: `Ord::cmp`, `PartialOrd::partial_cmp` against the value order of canonical numbers. `Eq` is derived on the digit vector and is numeric equality by canonical form. Cost ~3 s.',
    'C20': 'Lint over the whole crate: no unsafe block or function, no static/thread-local, no interior-mutable field type, no callee from the clock/env/fs/process/thread/random/address families, no pointer-to-integer cast. Structural and complete; cost ~2 s.',
}
