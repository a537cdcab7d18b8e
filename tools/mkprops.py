#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
I = "spffl/intmath/"; PO = "spffl/polynomials/"; F = "spffl/factorization/"

p("C01", "Integer gcd, extended gcd and lcm are exact",
  "For all ints except the most negative one, the gcd of two integers is a common divisor that every common divisor divides (its sign is unspecified), and the extended gcd returns a divisor d equal to it up to sign together with m and n such that m*a + n*b = d. The lcm of two nonzero integers whose lcm is representable is a common multiple that divides every common multiple, and it is zero when an argument is zero. The computation always terminates and performs no undefined arithmetic.",
  ["inputs"], "all pairs of C++ int inputs for which the mathematical result and the documented preconditions are representable",
  "test_gcd.cpp samples a few dozen pairs; the statement ranges over 2^64 pairs, including zeros, signs and near-overflow Bezout coefficients.",
  [I+"int_gcd.cpp", I+"int_gcd.h"], [("Euclid loop", I+"int_gcd.cpp:int_gcd"), ("Blankinship loop", I+"int_gcd.cpp:int_ext_gcd"), ("lcm by gcd", I+"int_gcd.cpp:int_lcm")],
  observe=["return values", "output parameters of the extended gcd"])
p("C02", "Integer power, integer square root and totient are exact",
  "For every base and non-negative exponent whose exact power is representable, integer exponentiation returns exactly that power. The integer square root of every n >= 0 is the unique r with r*r <= n < (r+1)*(r+1), and the ceiling variant is the least r with r*r >= n. The totient of every n >= 2 is the number of residues in 1..n-1 coprime to n.",
  ["inputs"], "all int inputs in the representable range",
  "Tests sample small values; the bisection and squaring loops must be right at every magnitude, in particular near the top of the int range where intermediate products wrap.",
  [I+"int_power.cpp", I+"int_sqrt.cpp", I+"int_totient.cpp"], [("repeated squaring", I+"int_power.cpp"), ("bisection", I+"int_sqrt.cpp"), ("coprime count", I+"int_totient.cpp")])
p("C03", "Primality tests agree with the definition of a prime",
  "The trial-division primality test answers yes exactly when the absolute value is a prime, for every int except the most negative one, and the table-driven primality test agrees with it on that whole range. The n-th prime lookup returns the n-th prime in increasing order and rejects out-of-range indices. Neither test performs undefined arithmetic or reads outside its table.",
  ["inputs"], "all int inputs",
  "Tests look at small numbers; the table test's last table entries and squares near 2^32 are only exercised by rare large inputs.",
  [I+"is_prime.cpp", I+"primes_16.cpp"], [("trial division", I+"is_prime.cpp"), ("prime table", I+"primes_16.cpp")])
p("C04", "Bit position, logarithm and bit-count helpers match their definitions",
  "The most- and least-significant-bit finders return the exact position of the highest/lowest set bit of every nonzero word of their width; the floor/ceiling base-2 and base-10 logarithms of every positive input equal their mathematical definition; and counting one-bits over any byte string returns the exact number of ones.",
  ["inputs"], "all words of 16, 32 and 64 bits; all byte strings",
  "2^64 inputs; tests sample powers of two and neighbours.",
  [I+"log2.cpp", I+"log10.cpp", "spffl/bits/count_bits.cpp"], [("lookup tables and halving", I+"log2.cpp"), ("byte table", "spffl/bits/count_bits.cpp")])
p("C05", "Modular integers implement Z/m exactly",
  "For every modulus m in the supported range and all residues, sums, differences, negations, products, powers and comparisons of modular integers equal the corresponding operation on integers reduced into 0..m-1, and every result is stored as its canonical residue with the operands' modulus. For moduli of at least 2, reciprocal and division return the unique inverse/quotient when the divisor is a unit modulo m and report failure otherwise; negative powers are powers of the inverse. Arithmetic and ordering of operands with different moduli are rejected; equality finds them unequal.",
  ["inputs"], "all moduli in the supported range, all residues, all exponents",
  "No unit test touches the class; regression scripts use a handful of tiny primes, so products that need more than 31 bits, composite moduli and cached state across different moduli are never seen.",
  [I+"intmod_t.cpp", I+"intmod_t.h"], [("canonical reduction in the constructor and operators", I+"intmod_t.cpp"), ("inverse by exponentiation to totient-1 with a cached totient", I+"intmod_t.cpp:recip")],
  state=[("residue, modulus", "canonical residue in 0..modulus-1 and its modulus", I+"intmod_t.h"), ("totient cache", "totient of the last modulus inverted", I+"intmod_t.cpp:recip")])
p("C06", "Rational numbers are exact and always in lowest terms",
  "Whenever the exact values involved and the cross products that form them are representable, sums, differences, products, quotients, negations, reciprocals and integer powers of rationals equal the exact rational result, and comparisons agree with the order of the rationals. Every rational produced has a positive denominator coprime to its numerator, with zero stored as 0/1. Division by zero and zero denominators are rejected.",
  ["inputs"], "all numerators and denominators whose intermediate products are representable",
  "No unit tests exist for rationals.",
  [I+"intrat_t.cpp", I+"intrat_t.h"], [("simplify to lowest terms", I+"intrat_t.cpp:simplify")],
  state=[("numer, denom", "lowest-terms fraction, denom > 0", I+"intrat_t.h")])
p("C07", "Arithmetic on binary polynomials is that of F2[x]",
  "For binary polynomials of every degree that fits in memory, addition/subtraction, multiplication, powers, derivative, evaluation, degree, bit access and bit update return exactly the F2[x] result, and the square root succeeds exactly on perfect squares and returns the root. Comparison operators form the total order of the coefficient strings read as binary numbers, and incrementing steps to the next polynomial in that order. No operation reads or writes outside the polynomial's storage.",
  ["inputs"], "all binary polynomials of any degree, including zero and degrees around every multiple of the word size",
  "Unit tests cover a few polynomials of at most a few words; carries between 64-bit words and untrimmed representations arise only for particular degree combinations.",
  [PO+"f2_poly_t.cpp", PO+"f2_poly_t.h"], [("word-wise shift and xor", PO+"f2_poly_t.cpp"), ("trim of leading zero words", PO+"f2_poly_t.cpp:trim_parts")],
  state=[("parts", "coefficient words, least significant first, never empty", PO+"f2_poly_t.h")])
p("C08", "Division and gcd of binary polynomials satisfy their defining identities",
  "For all binary polynomials a and nonzero b, the quotient q and remainder r satisfy a = q*b + r with r zero or of lower degree than b; division by zero is rejected. The gcd divides both arguments and every common divisor divides it, and the extended gcd returns that same divisor d together with polynomials m and n with m*a + n*b = d.",
  ["inputs"], "all pairs of binary polynomials",
  "Tests check a handful of pairs; the shift-and-subtract loop depends on exact alignment across word boundaries.",
  [PO+"f2_poly_t.cpp"], [("shift-subtract division", PO+"f2_poly_t.cpp:quot_and_rem"), ("Euclid / Blankinship loops", PO+"f2_poly_t.cpp:gcd,ext_gcd")])
p("C09", "Residue classes of binary polynomials form the quotient ring F2[x]/m",
  "For every modulus m of positive degree, sums, differences, products and non-negative powers of residues equal the F2[x] result reduced modulo m, and each result keeps the modulus and a residue of degree below m's. Reciprocal, division and negative powers return the true inverse-based result when the divisor is coprime to m and report failure otherwise; zero to the power zero and the most negative exponent are rejected. Arithmetic on operands with different moduli is rejected.",
  ["inputs"], "all moduli of positive degree, all residues and all int exponents",
  "Regression scripts use one or two moduli of degree at most 3.",
  [PO+"f2_polymod_t.cpp", PO+"f2_polymod_t.h"], [("reduction after every product", PO+"f2_polymod_t.cpp"), ("inverse by extended gcd", PO+"f2_polymod_t.cpp:recip")],
  state=[("residue, modulus", "residue reduced modulo modulus", PO+"f2_polymod_t.h")])
p("C10", "Arithmetic on polynomials over Z/p is that of Fp[x]",
  "For all moduli of at least 2 and polynomials of up to 2^29 coefficients over Z/p, addition, subtraction, negation, scalar and polynomial multiplication, non-negative powers (zero to the power zero is rejected), derivative, evaluation, degree and coefficient access/update equal the exact Fp[x] result, and every result has a nonzero leading coefficient unless it is the zero polynomial. Equality holds exactly when all coefficients agree. No operation reads or writes outside the polynomial's storage.",
  ["inputs"], "all primes (moduli) in range and all polynomials over them",
  "There is no unit test for the class; regression scripts use p = 2, 3, 5, 7 and degrees below ten.",
  [PO+"fp_poly_t.cpp", PO+"fp_poly_t.h"], [("coefficient loops", PO+"fp_poly_t.cpp"), ("leading-zero removal", PO+"fp_poly_t.cpp:recompute_degree")],
  state=[("coeffs, degree", "owned array of degree+1 coefficients sharing one modulus", PO+"fp_poly_t.h")])
p("C11", "Division and gcd of polynomials over Fp satisfy their defining identities",
  "For all polynomials a and all b with invertible leading coefficient, the quotient and remainder satisfy a = q*b + r with r zero or of lower degree than b; division by zero is rejected. Over a prime p, the gcd divides both arguments and is an Fp[x]-combination of them, and the extended gcd returns such a combination exactly.",
  ["inputs"], "all pairs of polynomials over Z/p",
  "Regression scripts use small fixed lists.",
  [PO+"fp_poly_t.cpp"], [("synthetic long division", PO+"fp_poly_t.cpp:quot_and_rem"), ("Euclid / Blankinship loops", PO+"fp_poly_t.cpp")])
p("C12", "Residue classes over Fp[x] form the quotient ring Fp[x]/m",
  "For every prime p and modulus polynomial m of positive degree, sums, differences, products and powers of residues equal the Fp[x] result reduced modulo m, with the modulus preserved and the residue reduced. Reciprocal, division and negative powers are exact when the divisor is coprime to m and fail otherwise; zero to the power zero, the most negative exponent and mixed moduli are rejected.",
  ["inputs"], "all primes, moduli and residues",
  "Regression scripts use two moduli of degree 2 and 3.",
  [PO+"fp_polymod_t.cpp"], [("reduction after every product", PO+"fp_polymod_t.cpp"), ("inverse by extended gcd", PO+"fp_polymod_t.cpp:recip")])
p("C13", "Polynomials over binary extension fields obey F(2^n)[x] arithmetic",
  "For every irreducible modulus and all polynomials with coefficients in the extension field, addition, multiplication, division with remainder, gcd, derivative, evaluation, powers, square roots and the quotient ring built on them equal the exact algebraic result, with leading coefficients nonzero and moduli preserved.",
  ["inputs"], "all extension fields and all polynomials over them",
  "Regression scripts use one field of 8 or 16 elements.",
  [PO+"f2n_poly_t.cpp", PO+"f2n_polymod_t.cpp"], [("coefficient loops", PO+"f2n_poly_t.cpp")])
p("C14", "Polynomials over odd extension fields obey F(p^n)[x] arithmetic",
  "For every prime p, irreducible modulus and all polynomials with coefficients in the extension field, addition, multiplication, division with remainder, gcd, derivative, evaluation, powers, p-th roots and the quotient ring built on them equal the exact algebraic result, with leading coefficients nonzero and moduli preserved.",
  ["inputs"], "all extension fields and all polynomials over them",
  "No test covers these classes beyond text output of small cases.",
  [PO+"fpn_poly_t.cpp", PO+"fpn_polymod_t.cpp"], [("coefficient loops", PO+"fpn_poly_t.cpp")])
p("C15", "Rational functions are exact and kept in lowest terms",
  "Sums, differences, products, quotients and powers of rational functions over F2, F(2^n) and Fp equal the exact element of the field of rational functions. Every result has coprime numerator and denominator with nonzero denominator, equal functions compare equal however they were computed, and division by zero is rejected.",
  ["inputs"], "all pairs of rational functions", "No tests exercise the classes.",
  ["spffl/rationals/f2_polyrat_t.cpp", "spffl/rationals/fp_polyrat_t.cpp", "spffl/rationals/f2n_polyrat_t.cpp"], [("simplify", "spffl/rationals/*_polyrat_t.cpp:simplify")])
p("C16", "Packed bit vectors behave as vectors over F2 of every length",
  "For bit vectors of every length, element access, update, toggle, xor-accumulate, sum, difference, scalar and dot product, comparison, zero test, leader search, copy, filling with a bit and assignment act exactly as on the abstract sequence of bits, independent of padding bits beyond the length. Out-of-range positions and mismatched lengths are rejected, and no operation touches memory outside the vector.",
  ["inputs", "histories"], "all lengths, contents and sequences of operations",
  "Unit tests use short vectors that fit one or two words, so last-word masking and reassignment between different lengths are hardly exercised.",
  ["spffl/bits/bit_vector_t.cpp", "spffl/bits/bit_vector_t.h", "spffl/bits/bit_t.h", "spffl/bits/bit_t.cpp"], [("word/bit index split", "spffl/bits/bit_vector_t.cpp"), ("per-word loops", "spffl/bits/bit_vector_t.cpp")],
  state=[("words, num_words, num_bits", "owned array of ceil(num_bits/64) words, bit i at word i/64, MSB first", "spffl/bits/bit_vector_t.h")])
p("C17", "Bit-matrix linear algebra over F2 is exact",
  "For bit matrices of every shape, products, sums, transpose and powers equal the F2 matrix operations; row echelon forms span the original row space; rank, determinant, kernel basis and inverse satisfy their defining identities, and singular or non-square inputs are rejected where an inverse or determinant is required.",
  ["inputs"], "all bit matrices of all shapes",
  "Unit tests multiply a few small matrices and check no algebraic identities.",
  ["spffl/bits/bit_matrix_t.cpp", "spffl/bits/bit_matrix_t.h"], [("row reduction", "spffl/bits/bit_matrix_t.cpp:row_reduce_below")])
p("C18", "Dense vectors implement element-wise vector algebra",
  "For vectors of every length over any supported element type, sums, differences, scalar products, dot products, component-wise products, comparison, copy and assignment act exactly element by element. Index and length mismatches are rejected, assignment leaves two independent equal vectors whatever their previous lengths, and no operation touches memory outside the vector.",
  ["inputs", "histories"], "all lengths, element values and assignment sequences",
  "No unit test instantiates the container.",
  ["spffl/containers/tvector.h"], [("owned element array", "spffl/containers/tvector.h")],
  state=[("elements, num_elements", "owned array and its length", "spffl/containers/tvector.h")])
p("C19", "Dense-matrix linear algebra over a field is exact",
  "For matrices over any supported field, products, transposes and powers are exact; row reduction preserves the row space; determinant, inverse, rank, kernel basis and linear solves satisfy their defining identities, and singular, non-square or mismatched inputs are rejected.",
  ["inputs"], "all matrices of all shapes over all supported fields",
  "Two fixed matrices per field are checked by regression scripts.",
  ["spffl/containers/tmatrix.h"], [("Gaussian elimination", "spffl/containers/tmatrix.h")])
p("C20", "Factorization of polynomials multiplies back and yields irreducibles",
  "For every nonzero polynomial over F2, Fp and F(2^n), the product of the returned factors raised to their multiplicities is the input, every non-unit factor is irreducible, and the irreducibility test answers yes exactly on irreducible polynomials.",
  ["inputs"], "all polynomials over the supported fields",
  "Regression scripts factor a fixed list.",
  [F+"f2_poly_factor.cpp", F+"fp_poly_factor.cpp", F+"f2n_poly_factor.cpp"], [("square-free decomposition and Berlekamp null space", F+"*_poly_factor.cpp")])
p("C21", "Factor lists keep sorted distinct factors with exact multiplicities",
  "Whatever the sequence of insertions and merges, a factor list holds each factor once, in increasing order, with the sum of the multiplicities inserted; copies and assignments, also to itself, are independent equal lists; the product it reports is the product of its factors with their multiplicities; and the list of divisors generated from it contains every divisor of the product exactly once. Integer factorization of every int above INT_MIN returns primes whose product, with the sign as unit, is the input.",
  ["inputs", "histories"], "all insertion sequences and all integers",
  "Only end-to-end output for small integers is compared.",
  ["spffl/containers/tfacinfo.h", F+"int_factor.cpp"], [("insert with merge and resize", "spffl/containers/tfacinfo.h"), ("mixed-radix divisor walk", "spffl/containers/tfacinfo.h:get_kth_divisor")])
p("C22", "The pseudo-DES mixer is a bijection and its stream is deterministic",
  "The 64-bit mixing function is the four-round pseudo-DES of Numerical Recipes: it maps distinct pairs of words to distinct pairs, so no two counter states collide, and its value depends only on its inputs. Each draw returns the hash of the 64-bit counter state and advances that counter by one, so the stream of values is a function of the seed and the number of draws.",
  ["inputs", "histories"], "all 2^64 input pairs; all seeds and draw counts",
  "No test touches the generator.",
  ["spffl/bitrand/psdes.cpp", "spffl/random/int_random.cpp"], [("Feistel rounds", "spffl/bitrand/psdes.cpp")])
p("C23", "Random elements always lie in the requested ring and size",
  "For every state of the generator, random polynomials over F2, Fp and F(2^n) have exactly the requested degree and coefficients in the requested ring, and random residues, of integers or of polynomials, are reduced and carry exactly the requested modulus. A negative degree, an integer modulus below 2 and a polynomial modulus of degree below 1 are rejected.",
  ["inputs", "histories"], "all values of every word drawn, and all size parameters", "No test touches the generators.",
  ["spffl/random/*.cpp"], [("leading coefficient never zero", "spffl/random/fp_poly_random.cpp"), ("degree and modulus checks", "spffl/random/f2_polymod_random.cpp")])
p("C24", "Orders, primitive elements and discrete logarithms satisfy their definitions",
  "The order of a unit is the least positive k with u^k = 1, a reported generator generates the whole unit group, a polynomial's period is the least k for which it divides x^k - 1, and a reported discrete logarithm reproduces the target power.",
  ["inputs"], "all units in all supported rings", "Only a short period listing is regression-tested.",
  ["spffl/units/*.cpp"], [("divisor walk over the group order", "spffl/units/*.cpp"), ("baby-step giant-step", "spffl/units/*.cpp")])
p("C25", "Ring element enumerations list every element exactly once",
  "Listing the elements, the nonzero elements or the units of a finite ring produces each of them exactly once, in every ring size.",
  ["inputs"], "all supported finite rings", "Not tested.", ["spffl/list/list_elements.cpp"], [("counting loops", "spffl/list/list_elements.cpp")])
p("C26", "Tokenizing and line scanning split text exactly",
  "For every text line and delimiter set, tokenizing returns the maximal runs of non-delimiter characters in order, never more than the requested maximum, never writes outside the line, and chomping removes exactly one trailing line ending.",
  ["inputs"], "all byte strings", "A handful of strings are tested.",
  ["spffl/base/tokenize.cpp", "spffl/base/line_scan.cpp"], [("state machine", "spffl/base/tokenize.cpp")])
p("C27", "Printed values parse back to the same value",
  "Every integer residue, polynomial, rational, vector or matrix written by the library parses back to an equal value, and malformed text is reported as a failure without changing unrelated state.",
  ["inputs"], "all values", "Only a few constructor strings are tested.",
  [PO+"*.cpp", I+"*.cpp", "spffl/base/*.h"], [("stream operators", PO+"*.cpp")])
p("C28", "Minimal and characteristic polynomials annihilate their element",
  "The characteristic polynomial of a matrix is its determinant polynomial and annihilates the matrix; companion matrices have the given characteristic polynomial; the minimal polynomial of a residue is the least-degree monic polynomial annihilating it.",
  ["inputs"], "all matrices and residues over supported fields", "Not tested.", ["spffl/linalg/*.cpp"], [("linear algebra over polynomials", "spffl/linalg/*.cpp")])
p("C29", "Rational polynomials and cyclotomic polynomials are exact",
  "Polynomial arithmetic with rational coefficients is exact while coefficients are representable, and the product of the cyclotomic polynomials over the divisors of n is x^n - 1.",
  ["inputs"], "all representable rational polynomials and all small n", "Not tested.", [PO+"q_poly_t.cpp", "spffl/q_cyclotomic/cyclo_poly.cpp"], [("coefficient loops", PO+"q_poly_t.cpp")])
p("C30", "The stack container is a lossless last-in first-out store",
  "For every sequence of pushes and pops, the stack returns elements in last-in first-out order, loses none when it grows, and a pop of an empty stack reports failure and changes nothing. Copies and assignments are independent of their source.",
  ["histories"], "all operation sequences", "Not tested.", ["spffl/containers/tstack.h"], [("growing array", "spffl/containers/tstack.h")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
