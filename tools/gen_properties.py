#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Polynomial and term arithmetic is exact ring arithmetic",
 "Every +, -, unary - and * between polynomials and terms (owned or borrowed, in any mixture, and the in-place +=, -=, *= forms) yields exactly the sum, difference, negation or product in the ring of polynomials with integer coefficients in x, y, q (exponents may be negative) and at most one subscripted unknown per monomial. In-place and value-returning forms agree, the operands of value-returning forms are unchanged, a product that would put two unknowns into one monomial is refused by panicking, and this holds however long the history of operations that produced the operands.",
 ["inputs", "histories"], "all polynomials/terms (any exponents, any size of coefficient), all sequences of arithmetic operations on shared values, including an operand combined with itself",
 "Tests multiply and add about a dozen fixed polynomials, never with cancellation inside a product, never over long histories, and never with the in-place forms after cancellation.",
 ["src/polynomial.rs", "src/term.rs"],
 [("operator impls for Polynomial/Term", "src/polynomial.rs:25-190"), ("operator impls for Term", "src/term.rs:36-90")],
 [("terms", "map monomial -> coefficient", "src/polynomial.rs Polynomial")], ["return value of each operator", "Polynomial.terms"])
prop("C02", "Polynomials stay in canonical form, so == and is_zero are mathematical",
 "Whatever sequence of library operations produced a polynomial from canonical ones, it stores no zero coefficient. Hence two polynomials compare equal exactly when they denote the same element, is_zero is true exactly for the zero polynomial, and the presence tests for x, y and q and the leading term see only monomials that really occur.",
 ["histories", "inputs"], "all histories of arithmetic, division, reduction, evaluation, substitution, truncation and differentiation operations",
 "A left-over zero coefficient is invisible to the tests' comparison by printed text; none of them compares by == after a cancelling product.",
 ["src/polynomial.rs", "src/term.rs"],
 [("removal of zero coefficients in +,+=,-=,*", "src/polynomial.rs:25-125"), ("to_pol drops zero terms", "src/term.rs Term::to_pol"), ("modular_assign/Rem drop zeros", "src/polynomial.rs")],
 [("terms", "must hold no zero value", "src/polynomial.rs Polynomial")], ["Polynomial.terms", "==", "is_zero"])
prop("C03", "Powers equal repeated multiplication",
 "For every exponent n >= 0, raising an integer, a term or a polynomial to the n-th power (machine-integer or big-integer exponent, square, cube) equals the n-fold product, with the 0-th power equal to 1. The modular power of a polynomial equals the ordinary power with coefficients reduced to the range [0,p). A negative exponent of a polynomial, or a power above the first of something with an unknown, is refused by panicking.",
 ["inputs"], "all bases, all exponents n >= 0 (including 0, 1, powers of two and exponents with any bit pattern), all moduli p >= 2",
 "Tests use exponents 0, 2, 3 and 24 on a few bases; the square-and-multiply loop depends on the bit pattern of n.",
 ["src/bigint.rs", "src/term.rs", "src/polynomial.rs"],
 [("Power impls (square and multiply)", "src/bigint.rs:28-72"), ("Power impls for Polynomial, power_modulo", "src/polynomial.rs"), ("Power for Term", "src/term.rs")], (), ["power", "square", "cube", "power_modulo"])
prop("C04", "Reducing coefficients modulo p is canonical and faithful",
 "Reducing a polynomial or a term modulo p > 0 (value-returning or in place) replaces every coefficient by its unique representative in [0,p), drops the terms whose coefficient is divisible by p, and changes no monomial. Reduction is idempotent and commutes with addition, subtraction and multiplication up to another reduction. The modulus 0 is refused by panicking.",
 ["inputs"], "all polynomials with positive, negative and large coefficients, all moduli p > 0",
 "Tests reduce three polynomials with small positive coefficients.",
 ["src/polynomial.rs", "src/term.rs"],
 [("Rem impls, modular_assign", "src/polynomial.rs"), ("modulo, modular_assign", "src/term.rs")], (), ["%", "modular_assign", "modulo"])
prop("C05", "Division by a single term inverts multiplication by it",
 "Dividing a polynomial or term by a non-zero term (or one-term polynomial) without unknown subtracts the exponents and takes the floor of each coefficient quotient; in particular (f*t)/t = f. Dividing by the zero polynomial, or by one with two or more terms, or dividing anything non-zero by a term with an unknown, is refused by panicking rather than answered wrongly.",
 ["inputs"], "all dividends, all non-zero one-term divisors with coefficient of either sign and exponents of either sign",
 "One test divides one two-term polynomial.",
 ["src/polynomial.rs", "src/term.rs"], [("/ and /= impls", "src/polynomial.rs"), ("/ for Term", "src/term.rs")], (), ["/", "/="])
prop("C06", "Polynomial remainder over F_p terminates and is the Euclidean remainder",
 "For a prime p and a divisor g in x alone that is non-zero modulo p, the remainder of f modulo g always terminates and returns the unique polynomial with coefficients in [0,p), of x-degree below that of g (zero when g is constant), that differs from f by a multiple of g modulo p; other variables in f act as constants. A divisor that vanishes modulo p, or that contains y or q, is refused by panicking.",
 ["inputs"], "all primes p, all f (also with y), all g with any leading coefficient, including constants, unreduced and negative coefficients, deg f < deg g",
 "One test computes one remainder modulo 19; a constant divisor is never tried.",
 ["src/polynomial.rs"], [("polynomial_modular long division", "src/polynomial.rs polynomial_modular")], (), ["polynomial_modular"])
prop("C07", "Polynomial gcd over F_p is the monic greatest common divisor",
 "For a prime p and polynomials in x not both zero modulo p, the gcd terminates and is the unique monic common divisor that every common divisor divides, whatever the order of the arguments; coprime arguments give 1 and the coprimality test is true exactly for them. The monic form of a polynomial is its unit multiple with leading coefficient 1.",
 ["inputs"], "all primes p, all pairs of univariate polynomials: coprime, equal, one dividing the other, repeated factors, constants, one of them zero, unreduced coefficients",
 "gcd is only exercised through two fixed Elkies examples whose gcd has degree 2; the coprimality test is never checked.",
 ["src/polynomial.rs"], [("gcd, is_gcd_one, to_monic", "src/polynomial.rs")], (), ["gcd", "is_gcd_one", "to_monic"])
prop("C08", "Reduction by the curve equation preserves values on the curve",
 "Reducing a polynomial by y^2 = x^3 + a x + b (over the integers, or modulo p) returns the unique polynomial of y-degree at most 1 congruent to it modulo that relation; the modular form has coefficients in [0,p). Hence it takes the same value at every point of the curve, and zero results mean identities on the curve.",
 ["inputs"], "all polynomials with y-exponents >= 0 (q and unknowns allowed), all integers a, b, all primes p",
 "Two reductions are tested, one of them only for being 0.",
 ["src/polynomial.rs"], [("reduction, reduction_modular", "src/polynomial.rs")], (), ["reduction", "reduction_modular"])
prop("C09", "Evaluation and substitution are ring homomorphisms",
 "Evaluating at integers x and/or y, substituting a polynomial for x or y, and the maps x,y -> x^n,y^n, y -> y^n, q -> q^n give exactly the polynomial (or integer) obtained by substituting in every term and collecting, for non-negative exponents of the substituted variables. They therefore respect sums and products and leave all other variables and coefficients untouched; a single term or monomial behaves like the polynomial it forms. Converting a constant polynomial to an integer gives that integer; a polynomial with x, y or q is refused by panicking.",
 ["inputs"], "all polynomials, all integer arguments (0, negative, large), all substituted polynomials, all n (including 0, and negative n for q)",
 "Seven fixed substitutions are tested; evaluation at 0, at negative numbers, and power maps with colliding images are not.",
 ["src/polynomial.rs", "src/term.rs"],
 [("eval_x, eval_y, eval_xy, eval_x_polynomial, eval_y_polynomial, to_frob, to_y_power, to_q_power, to_scalar", "src/polynomial.rs, src/term.rs")], (), ["return values"])
prop("C10", "Formal derivatives obey linearity and the product rule",
 "The derivative with respect to x (or y) of every polynomial or term with non-negative exponents in that variable multiplies each coefficient by the exponent and lowers the exponent by one, treating all other variables as constants; terms free of the variable vanish. It is linear and satisfies the product rule. A negative exponent of the variable is refused by panicking.",
 ["inputs"], "all polynomials and terms with non-negative exponents in the variable",
 "One polynomial is differentiated by the tests.", ["src/polynomial.rs", "src/term.rs"], [("derivative_x, derivative_y", "src/polynomial.rs, src/term.rs")], (), ["derivative_x", "derivative_y"])
prop("C11", "q-series truncation and coefficient extraction keep exactly the right terms",
 "Truncating at order n removes exactly the terms whose q-exponent exceeds n and leaves all others unchanged, whatever unknowns they carry. The truncated n-th power of a series without negative exponents or unknowns equals the truncation of the full power; extracting the coefficient of q^k or of one unknown returns exactly that coefficient (0 when absent). Truncation, truncated powers and coefficient extraction refuse, by panicking, series with x or y (and, for the coefficient of an unknown, q).",
 ["inputs"], "all polynomials in q and unknowns, all orders including negative ones and those hit exactly by a term, all exponents n >= 0",
 "One truncated power of 1+q is tested; boundaries of the truncation and unknowns at the boundary are not.",
 ["src/polynomial.rs"], [("omit_high_order_q (ordered split), power_omit_high_order_q, to_q_power_coef, to_variable_coef", "src/polynomial.rs")], (), ["return values"])
prop("C12", "Monomial order is a total lexicographic order; leading term and degree follow it",
 "Monomials are totally ordered by x-exponent, then y, then q, then the unknown (none first, then by its two indices), terms compare by monomial, and equality agrees with the order; unknowns marked empty are equal whatever indices they hold. The leading term of a non-zero polynomial is its greatest monomial with its coefficient, the leading term of 0 is 0, the x-degree is the leading x-exponent, and polynomials list their terms in this order. The degree of a polynomial with y or q is refused by panicking.",
 ["inputs"], "all pairs and triples of monomials with exponents of either sign and arbitrary unknowns; all polynomials",
 "The order is only visible to tests through the printed order of a few polynomials.",
 ["src/term.rs", "src/subscripted_variable.rs", "src/polynomial.rs"], [("Ord/PartialOrd/Eq for Monomial, Term, SubscriptedVariable", "src/term.rs, src/subscripted_variable.rs"), ("highest_term_x, degree_x, has_x/has_y/has_q", "src/polynomial.rs")], (), ["cmp", "==", "highest_term_x", "degree_x", "has_x"])
prop("C13", "Printed form is the faithful, unambiguous normal form",
 "The printed text of a term or polynomial lists the terms in descending monomial order with explicit signs, omits coefficient 1 and exponent 1, prints 0 for zero, and writes unknowns as c_i_j, so distinct canonical polynomials print differently and the text determines the value. Points print as (x, y) or O, point lists are comma separated, and a curve prints its modulus, right-hand side, number of points and j-invariant.",
 ["inputs"], "all canonical polynomials and terms (coefficients 1, -1, other signs, large; exponents 1, negative; with and without unknown), all points, point lists and curves",
 "Tests pin the text of a few dozen values; combinations such as coefficient -1 with an unknown and a negative exponent never occur.",
 ["src/term.rs", "src/polynomial.rs", "src/subscripted_variable.rs", "src/elliptic_curve.rs"], [("Display impls", "src/term.rs, src/polynomial.rs, src/subscripted_variable.rs, src/elliptic_curve.rs")], (), ["to_string"])
prop("C14", "Modular exponentiation and inversion of integers are correct",
 "For every integer base, exponent n >= 0 and modulus p >= 1, the modular power is the representative in [0,p) of base^n. For every prime p and integer v not divisible by p, the modular inverse is the unique w in [0,p) with v*w = 1 modulo p. An inverse modulo 1, 0 or a negative number is refused by panicking.",
 ["inputs"], "all integers of any size and sign, all exponents, all moduli/primes including 2 and 256-bit primes",
 "Tests use moduli 5 and 19 and seven arguments.", ["src/bigint.rs"], [("PowerModulo, Inverse impls", "src/bigint.rs")], (), ["power_modulo", "inverse"])
prop("C15", "Extended Euclid returns a gcd with Bezout coefficients",
 "For all integers a, b the extended Euclidean algorithm returns (g, x, y) with a*x + b*y = g, where g divides both a and b and |g| is their greatest common divisor; g is non-negative when a and b are.",
 ["inputs"], "all pairs of integers: zero, equal, negative, one dividing the other, hundreds of digits",
 "Tests try (8,11) and (11,8).", ["src/bigint.rs"], [("extended_gcd recursion", "src/bigint.rs extended_gcd")], (), ["extended_gcd"])
prop("C16", "Chinese remaindering satisfies every congruence it was given",
 "For every list of congruences with pairwise coprime positive moduli, in any order, the result's modulus is the product of the moduli and its residue is congruent to each given residue modulo its modulus. Adding congruences one at a time gives the same class as giving them all at once.",
 ["inputs", "histories"], "all lists of pairwise coprime moduli (length 0, 1, many; modulus 1; any residues incl. negative or unreduced), all orders of the list",
 "One list of three congruences is tested.", ["src/bigint.rs"], [("chinese_remainder fold", "src/bigint.rs chinese_remainder")], (), ["chinese_remainder"])
prop("C17", "A constructed curve lists each rational point exactly once",
 "Constructing the curve y^2 = x^3 + a x + b over F_p for a prime p >= 3 yields a list containing every affine solution (x,y) with 0 <= x,y < p exactly once and the point at infinity exactly once; the cardinality is the length of that list, also when enumeration is requested again. The membership test accepts exactly the points satisfying the equation modulo p (for any integer coordinates) and the point at infinity. Constructing a curve with a modulus that is not prime is refused by panicking.",
 ["inputs", "histories"], "all primes p >= 3 small enough to enumerate, all integers a, b (also negative or >= p), all integer coordinates",
 "The full list is compared for one curve over F_5; other tests only print.", ["src/elliptic_curve.rs"], [("create_points, points, cardinality, is_on_curve", "src/elliptic_curve.rs")], [("points", "enumerated rational points", "src/elliptic_curve.rs EllipticCurve")], ["points", "cardinality", "is_on_curve"])
prop("C18", "Point addition and negation form an abelian group",
 "On every non-singular curve over F_p, p >= 3 prime, point addition is total on curve points, closed, commutative and associative, the point at infinity is neutral on either side, and adding the negation of a point gives infinity; the sum is the chord-and-tangent sum. The result does not depend on which integer representatives of the coordinates are supplied, and points off the curve are refused by panicking.",
 ["inputs", "histories"], "all non-singular curves, all pairs/triples of points including doubling, inverse pairs, 2-torsion, infinity on either side, coordinates outside [0,p)",
 "Tests add points only along multiples of one point; infinity as right operand and 2-torsion combinations are not checked.", ["src/elliptic_curve.rs"], [("plus, negate, canonicalize", "src/elliptic_curve.rs")], (), ["plus", "negate"])
prop("C19", "Scalar multiplication, point order and torsion agree with the group law",
 "For every integer n (zero, negative, larger than the group order) n*P is the n-fold sum of P (of -P for negative n), so (m+n)P = mP + nP and m(nP) = (mn)P. The order of P is the least n >= 1 with nP = infinity and divides the number of points; the n-division points are exactly the listed points with nP = infinity.",
 ["inputs"], "all non-singular curves, all points incl. infinity and 2-torsion, all integers n of any sign and size",
 "Orders are checked on one curve of odd order; division points on two curves; negative n and even-order points never.", ["src/elliptic_curve.rs"], [("multiply_scalar, point_order, division_points", "src/elliptic_curve.rs")], (), ["multiply_scalar", "point_order", "division_points"])
prop("C20", "The isogeny codomain is the Velu quotient and keeps the point count",
 "For a non-singular curve over F_p, p >= 5 prime, and n >= 1 the curve returned for the quotient by the rational n-torsion points is the codomain given by Velu's formulas, with coefficients congruent to them modulo p. It is therefore non-singular and has the same number of rational points as the original curve.",
 ["inputs"], "all non-singular curves over small F_p, all n: odd, even, composite, 1, and n with trivial or full rational torsion",
 "The only test that calls it prints the result and asserts nothing.", ["src/elliptic_curve.rs"], [("isogeny (Velu)", "src/elliptic_curve.rs isogeny")], (), ["isogeny"])
prop("C21", "The j-invariant of a curve is the canonical residue and an isomorphism invariant",
 "For every non-singular curve over F_p, p >= 5 prime of any size, the j-invariant is the residue in [0,p) of 1728*4a^3/(4a^3+27b^2). It is unchanged by replacing (a,b) by (u^4 a, u^6 b) for u non-zero modulo p, and by changing representatives of a, b.",
 ["inputs"], "all primes p >= 5 (small and 256-bit), all non-singular a, b incl. 0, negative and unreduced",
 "Tests look at one printed value.", ["src/elliptic_curve.rs"], [("EllipticCurve::j_invariant", "src/elliptic_curve.rs")], (), ["j_invariant"])
prop("C22", "secp256k1: standard parameters and scalar multiplication over the 256-bit field",
 "The secp256k1 object carries the standard field prime, coefficients and base point, and the base point has the standard prime order n. For all integers k, m of up to several hundred bits, k*G lies on the curve, depends only on k modulo n, and satisfies kG + mG = (k+m)G, matching the chord-and-tangent group law over that field.",
 ["inputs"], "all scalars k (0, 1, n-1, n, n+1, 2^256-1, negative, random), all pairs",
 "Tests check 1G, 2G and 3G.", ["src/secp256k1.rs", "src/elliptic_curve.rs", "src/bigint.rs"], [("Secp256k1::new", "src/secp256k1.rs"), ("plus, multiply_scalar", "src/elliptic_curve.rs")], (), ["multiply_scalar", "plus", "is_on_curve"])
prop("C23", "Division polynomials describe multiplication by n",
 "For all integers a, b and n, psi_n (n >= 0), phi_n and omega_n (n >= 1) are polynomials of y-degree at most 1 with integer coefficients satisfying the standard recurrences, with psi_n of leading coefficient n (for odd n; n*y for even n). Hence at every point P of the curve over F_p, psi_n(P) = 0 exactly when nP is infinity, and otherwise nP = (phi_n/psi_n^2, omega_n/psi_n^3). Indices below these (psi_n for n < 0, phi_n and omega_n for n < 1) are refused by panicking.",
 ["inputs"], "all a, b (incl. 0, negative), all n, all primes p >= 5 and all points of the curve",
 "All tests use a = b = 1 and n <= 5.", ["src/division_polynomial.rs"], [("psi, phi, omega recursions", "src/division_polynomial.rs")], (), ["psi", "phi", "omega"])
prop("C24", "Schoof's residues equal the trace of Frobenius modulo each l",
 "For every non-singular curve over F_q, q >= 5 prime, the point-counting routine terminates and returns for l = 2, and for each of l = 3, 5 below q, in this order, the pair (l, t mod l) with residue in [0,l), where t = q + 1 - #E(F_q). Combining them by Chinese remaindering gives t modulo the product of the l's.",
 ["inputs"], "all non-singular curves over F_q, all primes q >= 5",
 "Its two tests are ignored and do not finish, so nothing in the suite observes this routine.", ["src/schoof.rs", "src/division_polynomial.rs", "src/polynomial.rs"], [("schoof", "src/schoof.rs")], (), ["schoof"])
prop("C25", "Modular-form q-expansions are correct to every requested order",
 "The divisor sum of n >= 1 with exponent k >= 0 is the sum of k-th powers of the positive divisors of n, and it is 0 for n < 1 or k < 0. To every requested order, the Eisenstein series E4, the product (1-q^n)^24, its inverse, and the j-function expansions contain exactly the mathematical coefficients up to that order and no higher terms; expansions of different order agree on their common part, and j times q times the product equals E4^3.",
 ["inputs"], "all n, k and all orders",
 "Tests stop at order 6 (divisor sums at n = 13).", ["src/divisor.rs", "src/eisenstein.rs", "src/delta.rs", "src/j_invariant.rs"], [("sigma_divisor", "src/divisor.rs"), ("eisenstein4", "src/eisenstein.rs"), ("delta1, delta1_inverse", "src/delta.rs"), ("j_invariant1, j_invariant", "src/j_invariant.rs")], (), ["return values"])
prop("C26", "The modular polynomial annihilates (j(q), j(q^l)) and is symmetric",
 "For every prime l, the computed modular polynomial is symmetric in x and y, has the form x^(l+1) + y^(l+1) - x^l y^l + lower terms with integer coefficients, vanishes identically when j(q) and j(q^l) are substituted, and is congruent to (x^l - y)(x - y^l) modulo l. The intermediate polynomial with unknown coefficients, its q-expansion and its list of coefficient equations (one per power of q from -(l^2+l) to 0) are the ones obtained by that substitution. A number l that is not prime is refused by panicking.",
 ["inputs"], "all primes l (checked for those computable in the budget) and all coefficients",
 "Tests compare l = 2, 3 (and, ignored by default, 5) with stored text and nothing with the defining identity.", ["src/modular_polynomial.rs", "src/simultaneous_equation.rs", "src/j_invariant.rs"], [("subscripted_variable_modular_polynomial*, modular_polynomial", "src/modular_polynomial.rs")], (), ["return values"])
prop("C27", "The linear solver returns the integer solution of the system",
 "For every system of linear equations with integer coefficients, given as an augmented matrix with at least as many rows as unknowns, that is consistent, has full column rank and an integer solution, the solver returns a matrix whose i-th row ends in the i-th component of that solution. This holds whatever the order of the equations, zero or negative pivots, and redundant equations; the input is not changed. A system whose columns of unknowns are linearly dependent is refused by panicking.",
 ["inputs"], "all consistent full-rank integer systems with integer solution, square or overdetermined, any row order, any coefficient size",
 "It is only exercised through the modular polynomials of 2, 3 and 5, whose first pivot is 1.", ["src/simultaneous_equation.rs"], [("solve (fraction-free elimination, back substitution)", "src/simultaneous_equation.rs")], (), ["solve"])
prop("C28", "Unknown <-> index conversion is a bijection",
 "For every prime p there are (p+1)(p+2)/2 unknowns c_i_j with 0 <= i <= j <= p; conversion from index to unknown and back are mutually inverse on exactly the indices 0..count-1, enumerating first the pairs i < j lexicographically and then the diagonal. The empty unknown has no index; every other index or unknown is refused by panicking, as is a non-prime p.",
 ["inputs"], "all primes p, all indices (also far beyond count), all index pairs incl. i > j and negative",
 "One test lists p = 3 and converts one unknown back.", ["src/subscripted_variable.rs"], [("SubscriptedVariableConverter", "src/subscripted_variable.rs")], (), ["count", "index_from_variable", "variable_from_index"])
prop("C29", "SEA classification equals the roots of the modular polynomial over F_p",
 "For a non-singular curve over F_p and a prime l different from p, the routine terminates and returns the monic polynomial whose roots are exactly the distinct x in F_p with Phi_l(x, j(E)) = 0, its degree, and the Elkies flag set exactly when that degree is positive. The listed isogenous j-invariants are the smallest such roots in increasing order, two of them or all if there are fewer.",
 ["inputs"], "all non-singular curves over small F_p (p >= 5), l = 2, 3, 5: Atkin and Elkies primes, repeated roots, all l+1 roots",
 "Two Elkies examples are tested; no Atkin prime (degree 0) is.", ["src/schoof_elkies_atkins.rs", "src/modular_polynomial.rs", "src/polynomial.rs"], [("sea", "src/schoof_elkies_atkins.rs")], (), ["SEAResult fields"])
prop("C30", "Term building is last-writer-wins per field",
 "A term builder starts as the constant 1 and each setter (coefficient from machine or big integer, exponents of x, y and q, unknown) replaces exactly its own field, so a built term has, per field, the last value set. Building does not disturb the builder, which can be modified and built again; negative unknown indices are refused by panicking, and conversion of the term to a polynomial yields 0 exactly when the coefficient is 0.",
 ["histories", "inputs"], "all sequences of setter and build calls on one builder, all values",
 "Tests always use a fresh builder and set each field at most once.", ["src/term_builder.rs", "src/term.rs"], [("TermBuilder setters, build", "src/term_builder.rs"), ("to_pol", "src/term.rs")], [("coef_, xpow_, ypow_, qpow_, variable_", "pending term", "src/term_builder.rs TermBuilder")], ["build", "to_pol"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
