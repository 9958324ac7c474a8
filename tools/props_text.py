#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json
import os
CPP = 'src/BigInteger.cpp'
H = 'include/public/bigintegercpp/BigInteger.h'
CALC = 'src/BigIntegerCalculator/'
P = []


def p(id, title, st, text, why, files, mech, over=('inputs',), observe=(), state=()):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


STATE = [('sign and magnitude words', 'small values live in one machine integer, all others in a sign and a canonical little-endian word array', H)]

p('C01', 'Addition, subtraction, negation, increment and decrement are exact',
  'For all integers a and b, a + b, a - b, -a, +a, ++a and --a return exactly the mathematical integer, whatever the signs and sizes of the operands, '
  'in the operator, compound-assignment and static-function forms alike. No carry or borrow is ever lost.',
  'every pair of integers (sign, number of words and word values), every spelling of the operation',
  'the tests add a few literals and random operands; long carry chains, sign changes and the small/large switch at 2^31 are single points in 2^(64n) pairs',
  [CPP, CALC + 'AddSub.cpp'],
  [('operator dispatch on small and large representations', CPP + ': operator+=, operator-=, add, subtract'),
   ('carry and borrow propagation', CALC + 'AddSub.cpp')], observe=['operator+', 'operator-', '++', '--', 'BigInteger::add', 'BigInteger::subtract'], state=STATE)
p('C02', 'Multiplication is exact',
  'For all integers a and b, a * b is exactly their mathematical product, and a * a their square, for operands of any size, including sizes at which the implementation splits operands recursively.',
  'every pair of integers', 'the tests multiply random operands of limited length, which reach wrong carries in the recursive splitting only with negligible probability',
  [CPP, CALC + 'SquMul.cpp'],
  [('schoolbook and recursive multiplication and squaring', CALC + 'SquMul.cpp'), ('small operand shortcuts and sign', CPP + ': operator*=')],
  observe=['operator*', 'BigInteger::multiply'])
p('C03', 'Division truncates toward zero and the remainder completes it',
  'For every a and every non-zero b, a / b and a % b (and div_rem, divide and remainder) satisfy a = (a/b)*b + a%b with |a%b| < |b| and a%b zero or of the sign of a. All the entry points agree with each other.',
  'every dividend and every non-zero divisor', 'quotient-digit estimation goes wrong only for operand pairs of probability about 2^-32 per word; random tests do not meet them',
  [CPP, CALC + 'DivRem.cpp'],
  [('quotient digit estimation, correction and add-back', CALC + 'DivRem.cpp: divide'), ('sign rules and small-divisor paths', CPP + ': operator/=, operator%=, div_rem')],
  observe=['operator/', 'operator%', 'BigInteger::div_rem', 'BigInteger::divide', 'BigInteger::remainder'])
p('C04', 'A zero divisor or modulus is always reported by an exception',
  'Division, remainder, div_rem and mod_pow with a zero divisor or modulus throw DivideByZero for every value of the other operands. They never return a value, crash or loop.',
  'every dividend (and base and exponent) with a zero divisor', 'tests use a few dividends; each size class takes a different path before the divisor is looked at',
  [CPP, 'include/exceptions.h'],
  [('zero checks', CPP + ': operator/=, operator%=, div_rem, mod_pow')], observe=['DivideByZero'])
p('C05', "Bitwise operators act on infinite two's complement",
  "For all integers, a & b, a | b, a ^ b and ~a equal the bitwise operation on the infinitely sign-extended two's complement representations, interpreted again as an integer.",
  'every pair of integers', 'the tests compare random operands; sign extension at the word boundary and negative values with zero low words are rare',
  [CPP, 'include/NumericsHelpers.h'],
  [("conversion to two's complement words and sign extension", CPP + ': to_uint32_array, operator&=, operator|=, operator^='),
   ("back-conversion of two's complement words", CPP + ': constructor from words')], observe=['operator&', 'operator|', 'operator^', 'operator~'])
p('C06', 'Shifts multiply and floor-divide by powers of two',
  'For every a and every int k, a << k equals a * 2^k for k >= 0 and floor(a / 2^-k) otherwise, and a >> k is the same with k negated. Right shifts of negative values round toward minus infinity.',
  'every value and every shift count', 'the tests shift random values by random counts and their reference has the rounding built in the same way; negative values whose words become zero are special',
  [CPP],
  [('word and bit shifting', CPP + ': operator<<=, operator>>=, get_parts_for_bit_manipulation')], observe=['operator<<', 'operator>>'])
p('C07', 'Comparison is the order of the integers; equality and hash agree with it',
  'For all integers, and for every built-in integer type accepted on the right-hand side, compare_to, ==, !=, <, <=, >, >= , max and min are those of the mathematical values. Equal values have equal hash codes.',
  'every pair of values, however each was produced', 'the tests compare a handful of values; agreement across representations and types is a statement about all pairs',
  [CPP, H],
  [('word-wise comparison', CPP + ': compare_to, equals, get_diff_length'), ('hash', CPP + ': get_hash_code'), ('relational operators', H)],
  observe=['compare_to', 'relational operators', 'get_hash_code', 'max', 'min'])
p('C08', "Byte export is the minimal two's complement encoding",
  "to_byte_array yields the shortest two's complement (or, for non-negative values on request, unsigned) encoding of the value, in the requested byte order, and get_byte_count is its length. Unsigned export, or the unsigned count, of a negative value throws instead of returning one. Constructing a value from its exported bytes gives it back.",
  'every value, both signednesses, both byte orders', 'the sign byte decisions depend on the top bits of the top word; tests hit a few of them',
  [CPP],
  [('byte extraction and sign byte', CPP + ': to_byte_array, get_byte_count')], observe=['to_byte_array', 'get_byte_count'])
p('C09', "Construction from bytes reads any encoding, minimal or not",
  "For every byte sequence (of any length, with any redundant sign or zero bytes) and each choice of signedness and byte order, construction yields exactly the integer that the bytes encode, zero for the empty sequence.",
  'every byte sequence', 'redundant sign bytes, zero low bytes of negative values and lengths that are not a multiple of the word size combine in ways random tests rarely produce',
  [CPP],
  [('byte packing, sign detection and negation of words', CPP + ': constructor from byte_array')], observe=['BigInteger(byte_array, is_unsigned, is_big_endian)'])
p('C10', 'to_string is the canonical decimal numeral',
  'to_string returns the decimal numeral of the value: a minus sign exactly for negative values, no leading zeros, only digits, and parsing that text gives back the identical value.',
  'every value', 'digits are produced in groups of nine and the buffer is sized by the digit count; wrong zero padding of inner groups or a missing slot appears only for special values',
  [CPP], [('base 10^9 conversion and buffer layout', CPP + ': to_string')], observe=['to_string'])
p('C11', 'parse reads an optional sign and the leading digits of any text',
  'For every text, parse returns the integer denoted by an optional leading + or - and the following run of decimal digits (up to the first other character), zero when there are none; try_parse stores the same value and reports success.',
  'every byte string', 'tests parse well-formed numerals only; the run of digits, the sign and their absence are a property of every byte string',
  [CPP], [('digit accumulation', CPP + ': parse, try_parse')], observe=['parse', 'try_parse'])
p('C12', 'Machine-integer construction and casts are exact or throw',
  'Constructing from any int, unsigned, long or unsigned long gives that value, and casting to such a type returns the value when it is representable and throws overflow_error when it is not; no cast ever returns a truncated value.',
  'every value of each machine type and every big integer', 'the boundary values of four types times the representation boundaries; tests try some',
  [CPP, H], [('constructors', CPP), ('cast operators', CPP)], observe=['constructors', 'explicit operator int/unsigned/long/unsigned long'])
p('C13', 'Floating-point conversions truncate, in both directions',
  'Constructing from any finite double gives the double truncated toward zero, infinities and NaN throw overflow_error; casting a value to double gives the value truncated toward zero to the nearest representable double (exact when representable), and infinity of the right sign when it is too large; the cast to float is that double rounded to float.',
  'every double (all 2^64 patterns) and every big integer', 'exponent and mantissa handling branches on bit patterns that a handful of test literals never reach',
  [CPP, 'include/NumericsHelpers.h'],
  [('decomposition of doubles', CPP + ': constructor from double; NumericsHelpers::get_double_parts'), ('recomposition', CPP + ': operator double; NumericsHelpers::get_double_from_parts')],
  observe=['BigInteger(double)', 'explicit operator double/float'])
p('C14', 'pow is exact exponentiation',
  'For every value a and exponent e >= 0, pow(a, e) is exactly a^e with pow(a, 0) = 1 (also for a = 0), and a negative exponent throws out_of_range.',
  'every base and every exponent', 'the tests raise small bases to small exponents; the result-size prediction and the square-and-multiply order are special for large ones',
  [CPP, CALC + 'PowMod.cpp'], [('square and multiply with preallocated buffers', CALC + 'PowMod.cpp: pow, pow_core, pow_bound')], observe=['pow'])
p('C15', 'mod_pow is modular exponentiation with the sign of the base power',
  'For every base a, exponent e >= 0 and modulus m != 0, mod_pow(a, e, m) is the remainder (sign of the dividend, magnitude below |m|) of a^e divided by m, for moduli of every size; a negative exponent throws out_of_range.',
  'every base, exponent and modulus', 'the reduction strategy changes with the size of the modulus and fails, if it does, only for special quotient estimates; tests use small moduli',
  [CPP, CALC + 'PowMod.cpp', CALC + 'FastReducer.cpp', CALC + 'BitsBuffer.cpp'],
  [('modular exponentiation', CALC + 'PowMod.cpp'), ('reciprocal-based reduction', CALC + 'FastReducer.cpp'), ('reduction by division', CALC + 'BitsBuffer.cpp')], observe=['mod_pow'])
p('C16', 'greatest_common_divisor terminates with the greatest common divisor',
  'For all integers a and b, greatest_common_divisor(a, b) terminates and returns the non-negative greatest common divisor, with gcd(a, 0) = |a| and gcd(0, 0) = 0.',
  'every pair of integers', 'the multi-word steps use estimates taken from leading words; wrong cofactors show only on special pairs',
  [CPP, CALC + 'GcdInv.cpp', CALC + 'BitsBuffer.cpp'],
  [('simulated steps on leading words', CALC + 'GcdInv.cpp')], observe=['greatest_common_divisor'])
p('C17', 'Sign, absolute value, parity, power-of-two and bit length are exact',
  'For every value, sign, abs, is_zero, is_one, is_even, is_power_of_two and get_bit_length describe the mathematical value: the bit length is that of the shortest two\'s complement representation without its sign bit, and only positive powers of two are powers of two.',
  'every value', 'single-word boundaries and values whose lower words are all zero decide; tests try a few',
  [CPP], [('predicates', CPP + ': is_power_of_two, is_even, is_one, is_zero, get_bit_length, abs')], observe=['sign', 'abs', 'is_*', 'get_bit_length'])
p('C18', 'Equal values are always the same, whatever computed them',
  'The result of every operation is in the one canonical form of its value: it compares equal to, hashes like and exposes the same sign and words as that value constructed directly, so no sequence of operations can produce two distinguishable copies of one integer.',
  'every result of every operation, including every chain of operations', 'a denormalised result (a spare zero word, a small value in words) prints correctly and fails only when compared with the other form',
  [CPP, H],
  [('normalising constructors', CPP + ': constructors from words'), ('per-operator result construction', CPP)], over=('inputs', 'histories'),
  observe=['==', 'get_hash_code', 'get_bits', 'sign of every result'], state=STATE)
p('C19', 'Memory-safe, free of undefined behaviour and crashes on every input',
  'For all arguments of all public operations, execution stays within allocated memory, releases what it allocates exactly once, never divides by zero in hardware, overflows a signed integer, trips an internal assertion or fails to terminate.',
  'every input of every operation', 'the tests run without sanitizers, and the out-of-bounds accesses of such code lie in rarely taken branches and exact buffer sizes',
  [CPP, CALC + 'FastReducer.cpp', CALC + 'GcdInv.cpp', CALC + 'DivRem.cpp', CALC + 'SquMul.cpp', CALC + 'PowMod.cpp', CALC + 'BitsBuffer.cpp', 'include/NumericsHelpers.h'],
  [('buffer sizing', CALC), ('raw digit buffer of the decimal conversion', CPP + ': to_string')], observe=['sanitizers', 'process exit'])
p('C20', 'Operations do not disturb their operands, and aliasing does not matter',
  'Binary operators, static functions and conversions leave their operands unchanged; the compound forms, given the same object on both sides or the remainder stored over an operand, give the result computed from the original values. An operation that throws leaves its operands as they were, and copies are independent of their source.',
  'every operand pair, every aliasing pattern, every throwing call', 'tests use distinct objects and never look at operands again',
  [CPP, H], [('operators taking copies', CPP), ('in-place calculator entry points', CALC)], over=('inputs', 'histories'), observe=['values of the operands after the call'])
p('C21', 'Logarithms of every positive value, and NaN otherwise',
  'For every positive value, however large, log, log with a base and log10 return the logarithm to within the rounding error of double arithmetic (a finite number, also where the value exceeds the range of double), log(1) = 0 and log(0) = -infinity; for negative values, for base 1 and for a negative or NaN base the result is NaN, and so it is for the bases 0 and infinity except that the logarithm of 1 is 0.',
  'every value and base', 'the value is split into leading bits and an exponent; the tests check some random values against a tolerance',
  [CPP], [('leading bits and binary exponent', CPP + ': log')], observe=['log', 'log10'])
p('C22', 'The Python bindings convert and compute like Python integers',
  'Through the Python module, converting a Python int to a BigInteger and back is the identity, the operators, comparisons, shifts, pow, divmod, log, byte and string exports and predicates give the result of the C++ library on the converted values for BigInteger and int operands on either side (a BigInteger when the left operand is one, a Python int when the left operand is an int), operands keep their value, equal BigIntegers have equal hashes, and invalid arguments (zero divisor, negative exponent, a count or exponent beyond int, unsigned export of a negative value) raise Python exceptions.',
  'every Python int and operand combination', 'the binding tests use a few values of one or two words',
  ['bindings/python/python-bindings.cpp'], [('int conversion', 'bindings/python/python-bindings.cpp: to_biginteger, to_py_int'), ('operator table', 'bindings/python/python-bindings.cpp: PYBIND11_MODULE')],
  observe=['pybiginteger.BigInteger'])
p('C23', "Word-array export and construction preserve the value",
  "to_uint32_array returns two's complement little-endian words from which the value can be recovered, and constructing from a sign and magnitude words, with any number of leading zero words, gives exactly that value in canonical form; words turned back into a number by the bitwise operators give back the value.",
  'every value and every word array', 'sign words and leading zeros at the array end are boundary cases of every length',
  [CPP], [('word export', CPP + ': to_uint32_array'), ('word constructors', CPP)], observe=['to_uint32_array', 'constructors from word arrays'])
p('C24', 'Results depend only on the operands, not on what was computed before',
  'Every operation gives the result (or the exception) that its operands determine, whatever operations the process performed before: after the same operation with longer, shorter or other operands of the same length, and after operations that ended with an exception. No buffer, cache or static of an earlier call shows through.',
  'every operand and every earlier operation', 'scratch buffers that survive a call only matter when two particular calls follow each other; the tests compute each expected value on its own',
  [CPP, CALC + 'SquMul.cpp', CALC + 'FastReducer.cpp', CALC + 'BitsBuffer.cpp', CALC + 'GcdInv.cpp'], [('scratch buffers', CALC + 'SquMul.cpp: multiply, square'), ('static constants', CPP + ': s_bnMinInt and others')],
  over=('inputs', 'histories'), observe=['results of calls made after other calls'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d) + '\n')
    print(len(P))
