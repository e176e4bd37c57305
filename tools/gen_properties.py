#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json,os
A="include/AesiMultiprecision/Aeu.h"; S="include/AesiMultiprecision/Aesi.h"
P=[]
def p(id,title,statement,text,why,files,mech,observe,over=("inputs",),state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
BL=[("Aeu::blocks","little-endian base-2^32 digits; the value is the sum of blocks[i]*2^(32 i)",A)]
SG=[("Aesi::sign / Aesi::base","sign (-1, 0, 1) and magnitude; zero is canonical: sign is Zero exactly when base is 0",S)]
DOM="every supported precision above 64 bits"
p("C01","Unsigned addition, subtraction, negation, ++/-- are exact modulo 2^precision",
 "For every precision and all operands, unsigned addition (with another number or any built-in unsigned integer), subtraction, unary minus, and pre/post increment and decrement yield exactly the mathematical result reduced modulo 2^precision. The right operand is never modified, and a number may be its own operand (a += a, a -= a).",
 DOM+"; all values of both operands; all built-in unsigned widths (8 to 64 bits); distinct and aliased operands",
 "The carry chain matters only for particular block patterns (runs of all-ones blocks, a carry out of block i for each i, 64-bit addends on a nonzero low block); tests use random values at a few precisions, where such runs have probability about 2^-32 per block.",
 [A],[("addLine carry propagation",A+": addLine"),("two's complement",A+": makeComplement"),("increment/decrement ripple",A+": operator++ / operator--"),("builtin addend ripple",A+": operator+=(Aeu&, Unsigned)")],["results of + - += -= ++ -- unary -"],state=BL)
p("C02","Unsigned multiplication is exact modulo 2^precision",
 "For every precision and all operands, the product of two unsigned numbers, or of a number and a built-in unsigned integer, is exactly the mathematical product reduced modulo 2^precision. This includes squaring in place (a *= a), operands of any lengths, and products that overflow the precision.",
 DOM+"; all operand values and lengths; all built-in unsigned widths and types; aliased operands",
 "Correctness of schoolbook multiplication depends on carries between partial products and on truncation at the top block; random tests sample a vanishing fraction, and rarely operands with extreme blocks or lengths that make the product overflow.",
 [A],[("schoolbook product with truncation",A+": operator*=(Aeu&, const Aeu&)"),("builtin factor",A+": operator*=(Aeu&, Unsigned)")],["results of * and *="],state=BL)
p("C03","Unsigned division and modulo satisfy the Euclidean identity",
 "For every precision, every dividend n and every nonzero divisor d, the quotient q and remainder r produced by division, modulo and the combined divide operation satisfy n = q*d + r with 0 <= r < d. Dividend and divisor are not modified, and n /= n or n %= n behave like the two-operand forms.",
 DOM+"; all dividends; all nonzero divisors; operator and two-output forms",
 "Bit-serial long division goes wrong only for specific relations between operand lengths and top bits (for instance a divisor with its top bit set, where the partial remainder needs an extra bit); sampled tests use dividends far larger than divisors.",
 [A],[("bit-serial long division",A+": divide"),("operators",A+": operator/ operator% operator/= operator%=")],["quotient, remainder, results of / % /= %="],state=BL)
p("C04","Bitwise operators act bit by bit at every position",
 "For every precision, ~, ^, & and | and their assigning forms produce in every bit position the corresponding boolean function of the operands' bits at that position. Only the left operand of an assigning form changes, and an operand may be combined with itself.",
 DOM+"; all operand values; aliased operands",
 "Every block of every precision must be covered; tests sample random values at a few precisions.",
 [A],[("block-wise loops",A+": operator~ ^= &= |=")],["results of ~ ^ & | ^= &= |="],state=BL)
p("C05","Shifts multiply or divide by the power of two for every shift amount",
 "For every precision and every shift amount s smaller than the precision, left shift yields the value times 2^s modulo 2^precision and right shift yields the value divided by 2^s rounded down. A shift amount of at least the precision leaves the value unchanged, for every built-in unsigned type of the amount.",
 DOM+"; all values; all shift amounts including multiples of 32, 0, precision-1 and amounts at or beyond the precision; all unsigned amount types",
 "The code splits into whole-block and partial-block parts whose boundary cases (remainder 0, quotient 0, top block) each need a particular amount; tests use a few random amounts per precision.",
 [A],[("left shift",A+": operator<<=(Aeu&, Unsigned)"),("right shift",A+": operator>>=(Aeu&, Unsigned)")],["results of << >> <<= >>="],state=BL)
p("C06","Unsigned comparison is the numeric order, across precisions and built-ins",
 "For every pair of unsigned numbers, of equal or different precision, and for every number and built-in unsigned integer, compareTo, ==, !=, <, <=, >, >= agree with the comparison of the mathematical values. All of these operators are mutually consistent and modify nothing.",
 DOM+" on both sides; all values; built-in operands of every unsigned width",
 "Two numbers that differ in one block only, or a longer number whose extra blocks decide, are almost never produced by independent random operands.",
 [A],[("compareTo overloads",A+": compareTo"),("operator== / operator<=>",A+": operator== operator<=>")],["compareTo, ==, <=> and derived operators"],state=BL)
p("C07","Bit, byte and block accessors read and write exactly one field",
 "For every number and every index, getBit/getByte/getBlock return the corresponding field of the value, and setBit/setByte/setBlock change exactly that field and nothing else. An index outside the number reads as zero and writes nothing, and no access touches memory outside the number.",
 DOM+"; all values; all indices of the index type, including the first index past the end and huge ones",
 "The frame condition (no other bit changes) and the out-of-range behaviour must hold for every index, including the exact boundary; tests only use in-range random indices.",
 [A,S],[("field accessors",A+": setBit getBit setByte getByte setBlock getBlock")],["values before and after the accessors"],state=BL)
p("C08","Size and parity observers report the value's true size",
 "For every unsigned number, bitCount, byteCount and filledBlocksNumber return the minimal number of bits, bytes and 32-bit blocks that hold the value (0 for zero), isZero holds exactly for 0, and isOdd/isEven report the lowest bit. getBitness and totalBlocksNumber report the precision.",
 DOM+"; all values, including 0, values with a single set bit at every position, and values with zero low blocks",
 "Each position of the leading bit in each block is a separate case; random values nearly always have the leading bit in the top block.",
 [A],[("scans from the top block",A+": bitCount byteCount filledBlocksNumber isZero isOdd isEven")],["return values of the observers"],state=BL)
p("C09","gcd, lcm and Bezout coefficients satisfy their defining identities",
 "For all unsigned a and b that are not both zero, gcd(a, b) divides both and every common divisor divides it; the four-argument form returns the same gcd and coefficients with a*x + b*y congruent to it modulo 2^precision. lcm(a, b) equals a*b/gcd(a, b) whenever that fits the precision.",
 DOM+"; all pairs, including a zero operand, equal operands and either order",
 "The statement quantifies over all divisors of all pairs and over Euclid runs of any length; tests compare a few random pairs.",
 [A],[("Euclid's algorithm",A+": gcd (two overloads) lcm")],["gcd, lcm, bezoutX, bezoutY"],state=BL)
p("C10","Modular exponentiation equals base^power mod modulo",
 "For every base, power and modulo >= 1 with modulo*modulo not exceeding 2^precision, powm returns base^power reduced modulo modulo; this includes power 0, base 0 and 1, modulo 1, base larger than the modulo, and powers of a different precision than the base.",
 DOM+"; all bases and powers; all moduli from 1 up to 2^(precision/2)",
 "Square-and-multiply must be right for every exponent bit pattern and at the degenerate corners (modulo 1, power 0, base 0), which random tests never hit.",
 [A],[("square and multiply",A+": powm (same precision and template overload)")],["result of powm"],state=BL)
p("C11","squareRoot is the integer square root; power2 is the power of two",
 "For every unsigned number n, squareRoot returns the largest r with r*r <= n (with power2's result and n = 0 included), and power2(e) returns 2^e for e below the precision and 0 otherwise. For signed numbers, squareRoot of a positive number has the positive root and that of zero or a negative number is zero.",
 DOM+"; all n; all exponents e",
 "Newton iteration must converge to the floor for every n, in particular at perfect squares and their neighbours and at the maximum value where intermediate sums could overflow; tests square random values.",
 [A,S],[("Newton iteration",A+": squareRoot"),("power2",A+": power2")],["results of squareRoot and power2"],state=BL)
p("C12","Text construction yields the value the digits denote",
 "Constructing a number from any character or wide-character sequence gives exactly the value denoted by the digits after an optional 0b/0o/0x prefix (case-insensitive, base 10 by default), reduced modulo 2^precision; whatever precedes the first ASCII letter or digit is ignored, and characters after the prefix that are not digits of the base are skipped. For signed numbers the sign is negative exactly when the text has an odd number of dashes and the magnitude is nonzero.",
 "all precisions above 64 bits; all strings of any length over the whole character range, narrow and wide, in the C locale",
 "Strings are unbounded and mixed; tests parse well-formed random decimal and hexadecimal strings only.",
 [A,S],[("prefix and digit scan",A+": Aeu(const Char*, size)"),("sign scan",S+": traverseDashes")],["constructed value"],state=BL+SG)
p("C13","Text output into a buffer is canonical, terminated and stays in bounds",
 "getString with a buffer large enough for the text writes the optional base prefix and the canonical digits (no leading zeros) of the value in base 2, 8, 10 or 16, narrow or wide, with a leading dash exactly for negative numbers. For every buffer size it never writes outside the buffer.",
 "all precisions above 64 bits; all values; all buffer sizes including 0, 1 and sizes that cut the text; all four bases, both cases, with and without the prefix",
 "Leading zeros inside blocks, digit counts at powers of the base, and buffers smaller than the text are unsampled corners.",
 [A,S],[("digit extraction and reversal, block-wise hexadecimal",A+": getString"),("sign and zero handling",S+": getString")],["buffer contents, bytes around the buffer"],state=BL+SG)
p("C14","Stream insertion prints the exact value in the stream's base",
 "Inserting a number into a narrow or wide stream writes the canonical digits of its value in the stream's base (dec, oct or hex), preceded by 0o/0x when showbase is set for a nonzero number in oct/hex and by a dash exactly for negative numbers.",
 "all precisions above 64 bits; all values; dec, oct and hex; showbase on and off; narrow and wide streams",
 "Zero-padding of interior hexadecimal blocks and buffer capacity for the longest decimal/octal text depend on specific values and precisions.",
 [A,S],[("operator<<",A+": operator<<(ostream)"),("sign",S+": operator<<(ostream)")],["characters written to the stream"],state=BL+SG)
p("C15","Binary write followed by binary read restores the number",
 "Writing a number to a binary stream and reading it back with the same block order restores the same value for every number; reading stops cleanly at the end of a short stream, leaving the unread part of the number zero.",
 "all precisions above 64 bits; all values; both block orders; streams of any length",
 "Both orders at every precision and every truncation point would have to be enumerated; tests round-trip random values.",
 [A],[("block streaming",A+": readBinary writeBinary")],["value read back, bytes written"],state=BL)
p("C16","Conversions of unsigned numbers preserve the value or its low bits",
 "Constructing or assigning an unsigned number from any built-in unsigned integer gives that value; integralCast to a built-in integral type gives the value modulo 2^width; precisionCast gives the value modulo 2^(new precision), exactly preserving it when widening. swap exchanges two numbers completely.",
 "all source and target precisions above 64 bits; all values; all built-in integral types",
 "All width pairs and all values must agree, including values with high blocks set while narrowing.",
 [A],[("integral constructor",A+": Aeu(Integral)"),("casts",A+": integralCast precisionCast"),("swap",A+": swap")],["converted values"],state=BL)
p("C17","Signed addition and subtraction are exact",
 "For all signed operands whose exact result's magnitude is below 2^precision, +, -, +=, -=, unary minus, ++ and -- give the exact mathematical integer result with the correct sign, including a += a and a -= a. The right operand is never modified.",
 DOM+"; all sign combinations and magnitudes; aliased operands",
 "The result depends on nine sign combinations times the magnitude order; tests cannot cover every magnitude pair, notably equal magnitudes of opposite sign.",
 [S,A],[("sign-magnitude case analysis",S+": operator+= operator-= ++ --"),("inverse",S+": inverse")],["value and sign of results"],state=SG)
p("C18","Signed multiplication is exact",
 "For all signed operands whose exact product's magnitude is below 2^precision, * and *= with another number or any built-in integer (including the minimum value of each signed type) give the exact product with the correct sign; a product of zero is zero.",
 DOM+"; all sign combinations; all built-in integral types and all their values; aliased operands",
 "Sign rules interact with zero operands and with the most negative built-in values, which random tests do not reach.",
 [S,A],[("signed product",S+": operator*=(Aesi&, Integral) operator*=(Aesi&, const Aesi&)")],["value and sign of results"],state=SG)
p("C19","Signed division truncates toward zero; remainder has the dividend's sign",
 "For every signed dividend n and nonzero divisor d (number or built-in integer), / yields n/d truncated toward zero, % yields n - d*(n/d), and the two-output divide yields both; a zero quotient or remainder is the canonical zero.",
 DOM+"; all sign combinations; all built-in divisors including the minimum value of each signed type",
 "Four sign combinations times exact/inexact times zero results; tests exercise a few random operands, and built-in minimum values never.",
 [S,A],[("signed quotient and remainder",S+": operator/= operator%= divide")],["value and sign of results"],state=SG)
p("C20","Signed comparison is the integer order, across precisions and built-ins",
 "For every pair of signed numbers of equal or different precision, and for every number and built-in integer of any type, compareTo, ==, !=, <, <=, >, >= agree with the order of the mathematical integers.",
 DOM+" on both sides; all values; all built-in integral types including their extreme values",
 "Differently sized operands whose high part matters and extreme built-in values are unsampled.",
 [S,A],[("signed compareTo",S+": compareTo operator== operator<=>")],["compareTo, ==, <=> and derived operators"],state=SG)
p("C21","Signed results are canonical and observers agree with the value",
 "Every signed number obtained from constructors and arithmetic has exactly one representation per value: a result equal to zero reports isZero, is neither positive nor negative, and reads as zero through isOdd, isEven, bitCount, byteCount, getBit, getByte, getBlock and unsignedCast; a nonzero result reports exactly one of isPositive/isNegative and a nonzero magnitude.",
 DOM+"; all histories of constructors and arithmetic operations on signed numbers",
 "It is an invariant over every operation sequence; tests check single operations and rarely look at the magnitude of a zero.",
 [S],[("sign/base representation invariant",S+": every mutating operation")],["isZero isPositive isNegative isOdd bitCount getBlock unsignedCast"],over=("inputs","histories"),state=SG)
p("C22","Signed conversions preserve the integer value",
 "Constructing a signed number from any built-in integer (including the minimum of each type) gives that integer; integralCast to a signed type that can represent the value returns it; precisionCast preserves the sign and the magnitude modulo 2^(new precision) and yields canonical zero when nothing remains; unsignedCast returns the magnitude; constructing from an unsigned number gives the same value; swap exchanges two numbers completely.",
 "all precisions above 64 bits; all values; all built-in integral types",
 "Minimum values of signed types and narrowing casts whose kept part is zero are unsampled.",
 [S,A],[("integral and unsigned constructors",S+": Aesi(Integral) Aesi(const Aeu&)"),("casts",S+": integralCast precisionCast unsignedCast swap")],["converted value and sign"],state=SG)
p("C23","Arithmetic, comparison and accessors are free of undefined behaviour",
 "No arithmetic, bitwise, shift, comparison, accessor, observer, conversion or number-theory operation, signed or unsigned, reads or writes outside its operands, shifts by an out-of-range amount, overflows a signed integer, divides a built-in by zero, fails an internal assertion or runs forever, for any operand values in its documented domain.",
 DOM+"; all operand values and indices",
 "Sanitizer runs only see the executed inputs; an access one past the top block or a loop that fails to terminate needs specific lengths and values.",
 [A,S],[("index arithmetic of all block loops",A),("built-in negation and casts",S)],["sanitizer reports, assertion failures, hangs"],state=BL+SG)
p("C24","The unchecked configuration computes the same results for valid indices",
 "With argument checking disabled by the library's documented switch, every bit, byte and block accessor called with an in-range index behaves exactly as in the default configuration, and so do all operations built on them.",
 "the two build configurations; "+DOM+"; all values and in-range indices",
 "The test suite builds the default configuration only.",
 [A],[("AESI_UNSAFE guards",A+": setBit getBit setByte getByte setBlock getBlock")],["results under both configurations"],over=("configurations","inputs"),state=BL)
p("C25","Importing a GMP integer preserves its value",
 "With GMP integration enabled, constructing an unsigned or signed number from any GMP integer gives that integer's magnitude modulo 2^precision (and its sign for signed numbers, canonical zero included), without reading or writing outside any buffer.",
 "all GMP integers of any size and sign; all precisions above 64 bits",
 "GMP integers are unbounded; tests use values that fit the precision.",
 [A,S],[("mpz_export import",A+": Aeu(const mpz_class&)"),("sign",S+": Aesi(const mpz_class&)")],["constructed value"],state=BL+SG)
p("C26","Device-side set and exchange of a shared number behave as one step per number",
 "On a GPU, setting or exchanging a shared number leaves it holding exactly one of the competing values, for every interleaving of the threads.",
 "all thread interleavings on a CUDA device",
 "No test runs on a device, and interleavings cannot be enumerated by unit tests.",
 [A,S],[("CUDA atomics",A+": tryAtomicSet tryAtomicExchange")],["device memory"],over=("schedules",),state=BL)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
