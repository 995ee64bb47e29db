#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
INP = ['inputs']
T_SAMPLE = 'The unit tests sample a few dozen fixed operand values, mostly of one to four digits; '


def p(id, title, statement, text, why, files, mech, over=INP, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}


L = []
L.append(p('C01', 'Numbers are always in canonical form',
  'Every number that an operation returns, or leaves in the variable it modifies, has no leading zero digits, and zero has no digits at all. '
  'Digit counts and comparisons therefore depend on the numeric value only, never on how a number was computed.',
  'all operations, all operand values of any length, all digit types',
  T_SAMPLE + 'cancellation that produces a particular number of leading zeros only happens for special operand pairs.',
  ['src/ubig.rs', 'src/ubig/ops.rs', 'src/ubig/support.rs', 'src/ubig/sub.rs', 'src/ubig/div.rs'],
  [('leading zeros are dropped after each operation that can shrink a number', 'ubig::support::drop_leading_zeros and the digit counts returned by the slice operations')],
  state=[('digits', 'base-b digits, least significant first', 'ubig::UBig')]))
L.append(p('C02', 'Single-digit arithmetic is exact',
  'For every digit type and every combination of operand digits and carry, the primitive digit operations (increment, decrement, add, subtract, double, multiply-add, multiply-subtract, divide, remainder, shift) produce a digit below the base and a carry or borrow that together represent the exact result. '
  'No intermediate machine computation overflows or wraps.',
  'all digit values and carries, for 8, 16, 32 and 64-bit binary and decimal digits',
  'The value space of one call has up to 2^192 points; tests cover a handful per operation and mostly 8-bit types.',
  ['src/digit.rs'],
  [('each operation is done in a machine type wide enough for the exact result', 'impl_digit_binary!, impl_digit_decimal!, impl Digit for BinaryDigit<u64>, DecimalDigit<u64>')]))
L.append(p('C04', 'Addition is exact',
  'Adding a single digit, a native integer or another number yields exactly the mathematical sum, in every operator form and operand order. '
  'Carries propagate through any number of digits, and the result grows by as many digits as needed.',
  'all pairs of numbers of any length, all digits and native integers, all digit bases',
  T_SAMPLE + 'carry chains of arbitrary length and every combination of operand lengths are out of reach.',
  ['src/ubig/add.rs', 'src/ubig/ops.rs', 'src/ubig.rs'],
  [('carry propagation', 'ubig::add'), ('operators', 'ubig::ops Add/AddAssign impls')]))
L.append(p('C05', 'Subtraction is exact and never wraps',
  'Subtracting a single digit, a native integer or another number yields exactly the mathematical difference whenever it is not negative, in every operator form and operand order. '
  'When the subtrahend is larger, the operation panics instead of returning a wrapped or truncated number.',
  'all pairs of numbers of any length, all digits and native integers, all digit bases',
  T_SAMPLE + 'borrow chains of arbitrary length and every combination of operand lengths are out of reach.',
  ['src/ubig/sub.rs', 'src/ubig/rsub.rs', 'src/ubig/ops.rs'],
  [('borrow propagation and underflow detection', 'ubig::sub, ubig::rsub'), ('operators', 'ubig::ops Sub/SubAssign impls')]))
L.append(p('C06', 'Multiplication by a single digit or native integer is exact',
  'Multiplying a number by one digit, or by a native integer of the digit storage type, yields exactly the mathematical product in every operator form, for binary and decimal numbers. '
  'In particular a native factor that does not fit a single decimal digit is handled without losing any part of it.',
  'all numbers of any length, all factors',
  T_SAMPLE + 'the two-digit carry of the digit-pair multiplication overflows only for factors and digits near the top of their range.',
  ['src/ubig/mul.rs', 'src/ubig.rs', 'src/ubig/ops.rs'],
  [('multiplication with carry by one or two digits', 'ubig::mul::mul_add_assign_digit, ubig::mul::mul_pair_add_assign_digit')]))
L.append(p('C07', 'Multiplication of numbers is exact',
  'The product of two numbers is exactly the mathematical product for all operand lengths, whichever multiplication algorithm their sizes select. '
  'The result does not depend on the previous contents of any scratch or result buffer, nor on the order of the operands.',
  'all pairs of numbers of any length, all digit bases',
  'The tests check single sizes of each algorithm with a few operands; intermediate carries, borrows and splits at other sizes are never exercised.',
  ['src/ubig/mul.rs', 'src/ubig/mul/long.rs', 'src/ubig/mul/karatsuba.rs', 'src/ubig/mul/toom3.rs'],
  [('algorithm selection by size', 'ubig::mul::mul_big_into_with_work'), ('schoolbook, Karatsuba and Toom-3 multiplication', 'ubig::mul::{long,karatsuba,toom3}')]))
L.append(p('C08', 'Squaring is exact',
  'Squaring a number yields exactly the mathematical square for all lengths, whichever squaring algorithm its size selects. '
  'The result does not depend on the previous contents of any scratch or result buffer.',
  'all numbers of any length, all digit bases',
  'The tests check single sizes of each algorithm with a few operands; intermediate carries, borrows and splits at other sizes are never exercised.',
  ['src/ubig/mul.rs', 'src/ubig/mul/long.rs', 'src/ubig/mul/karatsuba.rs', 'src/ubig/mul/toom3.rs'],
  [('algorithm selection by size', 'ubig::mul::square_into_with_work'), ('schoolbook, Karatsuba and Toom-3 squaring', 'ubig::mul::{long,karatsuba,toom3}')]))
L.append(p('C09', 'Division by a single digit or native integer is exact',
  'Dividing a number by one digit, or by a native integer of the digit storage type, gives the quotient rounded down, and the remainder operators give the matching remainder: quotient times divisor plus remainder equals the dividend, with the remainder below the divisor. '
  'This holds in every operator form, for binary and decimal numbers.',
  'all numbers of any length, all non-zero divisors',
  T_SAMPLE + 'native divisors that span two decimal digits have millions of values.',
  ['src/ubig/div.rs', 'src/ubig.rs', 'src/ubig/ops.rs'],
  [('division with remainder carried from digit to digit', 'ubig::div::div_assign_digit, ubig::div::rem_digit, ubig::div::div_assign_digit_pair')]))
L.append(p('C10', 'Division of numbers is exact',
  'Dividing one number by another gives quotient and remainder such that quotient times divisor plus remainder equals the dividend and the remainder is below the divisor, whichever division algorithm the operand sizes select. '
  'The quotient-only, remainder-only and combined forms agree.',
  'all pairs of numbers of any length with non-zero divisor, all digit bases',
  'Quotient digit corrections are needed for a fraction of about 2/base of the operands, so tests with 32-bit digits practically never reach them; block sizes of the recursive division are sampled at single points.',
  ['src/ubig/div.rs', 'src/ubig/div/long.rs', 'src/ubig/div/bz.rs', 'src/ubig.rs', 'src/ubig/ops.rs'],
  [('quotient digit estimate and correction', 'ubig::div::long::div_big_long_scaled'), ('recursive division', 'ubig::div::bz')]))
L.append(p('C11', 'Shifts multiply and divide by powers of two',
  'Shifting a number left by any count multiplies it by that power of two; shifting it right divides by that power of two, rounding down, for binary and for decimal numbers. '
  'Shifting past the end of a number gives zero.',
  'all numbers of any length, all shift counts',
  T_SAMPLE + 'each combination of whole-digit and within-digit shift and of shift count beyond the length is a separate case.',
  ['src/ubig/shl.rs', 'src/ubig/shr.rs', 'src/ubig/ops.rs'],
  [('whole-digit move and within-digit shift with carry', 'ubig::shl, ubig::shr, ShlAssign/ShrAssign impls')]))
L.append(p('C12', 'Comparison is numeric order',
  'Comparing two numbers gives less, equal or greater exactly according to their numeric values. '
  'The order is total, and partial and total comparison agree.',
  'all pairs of numbers of any length, all digit bases',
  T_SAMPLE + 'the deciding digit can be at any position of numbers of any length.',
  ['src/ubig/cmp.rs', 'src/ubig.rs'],
  [('length first, then digits from the most significant end', 'ubig::cmp')]))
L.append(p('C13', 'A zero divisor is always reported',
  'Every division and remainder operation whose divisor is zero panics, or returns the division-by-zero error in its fallible form, for every dividend including zero. '
  'It never returns a quotient or remainder, loops, or fails in another way.',
  'all dividends, all operator forms and operand types',
  'The operator forms are dozens of separate implementations; tests try a zero divisor on a few of them with one dividend.',
  ['src/ubig/div.rs', 'src/ubig.rs', 'src/ubig/ops.rs'],
  [('zero test before dividing', 'ubig::div, UBig division methods')]))
L.append(p('C14', 'A failed fallible operation leaves its operand unchanged',
  'When a fallible operation on a number reports division by zero, the number it would have modified still has its original value.',
  'all dividends, all fallible division operations',
  'Tests look at the returned error, not at the operand afterwards.',
  ['src/ubig.rs', 'src/ubig/div.rs'],
  [('the check precedes any modification', 'UBig::div_assign_big, UBig::rem_assign_big')]))
L.append(p('C15', 'All forms of an operator agree',
  'For each arithmetic operator, the assigning form, the by-value form and the by-reference forms on either side compute the same value, and a native integer operand acts like the number it denotes. '
  'Operands passed by reference are never modified.',
  'all operands; every implementation of every operator',
  'There are 15 implementations per operator; tests exercise most of them once.',
  ['src/ubig/ops.rs'],
  [('each form delegates to one algorithm', 'ubig::ops')]))
L.append(p('C16', 'Parsing yields the denoted value or an error',
  'Parsing a string yields exactly the number its hexadecimal or decimal digits denote, and yields an error when the string contains anything else. '
  'No accepted string is misread, whatever its length.',
  'all strings', 'Tests parse a handful of strings.',
  ['src/ubig.rs'], [('digit groups are parsed and validated from the end', 'FromStr impls')]))
L.append(p('C17', 'Formatting denotes the value',
  'Formatting a number writes exactly the digits of its value: every digit after the first is padded to its full width, and no leading zeros precede the first. '
  'Parsing the result gives back the same number.',
  'all numbers of any length', 'Tests format a handful of numbers; missing padding shows only for digits with leading zeros.',
  ['src/ubig.rs'], [('zero-padded digits', 'fmt impls')]))
L.append(p('C18', 'Conversion from binary to decimal preserves the value',
  'Converting a binary number to decimal digits gives a number with the same value, for every length of the number.',
  'all binary numbers of any length', 'Tests convert a few numbers of one or two sizes; the conversion splits recursively by size.',
  ['src/ubig.rs'], [('divide and conquer by powers of the binary base', 'UBig::to_decimal, UBig::build_decimal')]))
L.append(p('C19', 'Operations panic only for a documented reason',
  'An arithmetic operation panics only when its mathematical result does not exist: a negative difference or a zero divisor. '
  'It never panics because of an index out of range, a slice length mismatch, a machine integer overflow or a failed internal assertion.',
  'all operands of any length, all operators',
  'An index or overflow failure needs one particular operand length or digit pattern.',
  ['src/ubig.rs', 'src/ubig/ops.rs', 'src/ubig/add.rs', 'src/ubig/sub.rs', 'src/ubig/mul.rs', 'src/ubig/div.rs'],
  [('buffer sizes are computed from the operand lengths', 'ubig::{add,sub,mul,div}')]))
L.append(p('C20', 'Operations are pure functions of their operands',
  'The result of an operation depends on the values of its operands only: the library keeps no global, thread-local or interior-mutable state, reads no clock, environment, file or address, and contains no unsafe code. '
  'Numbers can therefore be shared and sent between threads freely, and repeating an operation repeats its result.',
  'all operations in any order, from any thread',
  'No finite set of runs shows that no hidden state exists.',
  ['src/lib.rs', 'src/digit.rs', 'src/ubig.rs', 'src/ubig/ops.rs'],
  [('only owned vectors and borrowed slices are used', 'whole crate')], over=['schedules', 'histories', 'inputs']))
L.append(p('C24', 'Powers and the constants zero and one are exact',
  'Raising a number to a power yields exactly the repeated product, with the zeroth power equal to one; the constants zero and one have those values and the zero test recognises exactly zero.',
  'all numbers and exponents', 'Tests sample a few exponents.',
  ['src/ubig.rs', 'src/ubig/ops.rs'], [('repeated squaring', 'Pow impls'), ('constants', 'Zero, One impls')]))
L.append(p('C25', 'Numbers built from digits or native integers have their value',
  'Converting a native integer to a number, or building a number from a vector of digits, yields exactly the value denoted, including native integers that do not fit a single decimal digit and vectors with leading zeros.',
  'all native integers, all digit vectors', 'Tests sample a few values.',
  ['src/ubig.rs', 'src/digit.rs'], [('conversion', 'From impls, UBig::new')]))

with open(OUT, 'w') as f:
    for x in L:
        f.write(json.dumps(x) + '\n')
