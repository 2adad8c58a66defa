#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ALL = ["src/bigint.rs", "src/term.rs", "src/polynomial.rs", "src/division_polynomial.rs", "src/elliptic_curve.rs",
       "src/modular_polynomial.rs", "src/j_invariant.rs", "src/delta.rs", "src/eisenstein.rs", "src/divisor.rs",
       "src/schoof.rs", "src/schoof_elkies_atkins.rs", "src/simultaneous_equation.rs", "src/subscripted_variable.rs", "src/secp256k1.rs"]
NOSTATE = [("no process-wide, thread-local or interior-mutable state anywhere in the crate", "src/*.rs")]

prop("C01", "Concurrent callers get the answers they would get alone",
 "Any number of threads may be inside any public operations of the library at the same time, sharing curves, points and polynomials by reference. Under every interleaving, each call returns (or refuses by panicking) exactly as the same call with the same arguments does when it is the only call ever made in the process.",
 ["schedules", "inputs"], "every interleaving of every set of concurrent calls by 2 or more threads on private or shared operands",
 "Every test is single-threaded in its own process; no test runs two calls at once.",
 ALL, NOSTATE + [("operands are taken by shared reference and never written", "src/polynomial.rs, src/elliptic_curve.rs")],
 ["return value, refusal, and text of each public call", "deadlock of all callers"])
prop("C02", "Earlier calls never change later answers",
 "However many calls a process has made before, with whatever arguments, the next call returns (or refuses) exactly as it would have as the very first call of a fresh process. Making a call again gives the same answer again, also when the calls in between had nearly the same arguments.",
 ["histories", "inputs"], "every finite history of public calls, short or thousands of calls long, in one thread or spread over threads that come and go",
 "Each test makes a handful of calls in a fresh process, so state carried from call to call (a cache, a counter, a scratch buffer) is never exercised.",
 ALL, NOSTATE, ["return value of each call in a long history"])
prop("C03", "A stalled caller never holds up another; every call ends",
 "A call never waits for another caller: when some threads are suspended forever at any point inside library calls, every call of the remaining threads still ends with its usual answer within a bounded amount of its own work (only the printing of text to standard output, by the calls that do so, may be shared). Every call on valid arguments ends by itself.",
 ["schedules", "fault_sequences", "inputs"], "every set of suspended threads and every suspension point inside a call",
 "No test suspends a thread inside a call or bounds the work of a call; the tests that did not end were left out of the suite.",
 ALL, [("no locks, waits or spin loops in the crate", "src/*.rs"), ("Euclid's loop and division loop reach a smaller remainder each round", "src/polynomial.rs gcd, polynomial_modular")],
 ["number of executed basic blocks per call", "blocked threads in the simulator"])
prop("C04", "A refused or aborted call leaves no trace",
 "When a call panics (a precondition is violated, or memory runs out at any allocation inside it and the panic is caught), every value it was given by shared reference is unchanged, and every other call, concurrent or later, in that thread or any other, returns (or refuses) exactly as if the failed call had never been made.",
 ["crash_points", "fault_sequences", "histories", "schedules"], "every refusal and every allocation at which memory can run out, in every history and interleaving of calls",
 "No test catches a panic and goes on; no test makes an allocation fail.",
 ALL, NOSTATE + [("preconditions are asserted on entry, operands are borrowed shared", "assert!/panic! sites in src/*.rs")],
 ["answers of calls after a caught panic", "operands shared with the failed call"])
prop("C05", "In-place polynomial updates: exact histories, all-or-nothing",
 "After any sequence of polynomial sums, differences, products, exact quotients by one term, in-place updates (+=, -=, *=, /=, reduction of the coefficients, truncation in q) and refused updates, made by any threads taking turns on shared polynomials, each polynomial holds exactly the terms that the accepted operations give in exact arithmetic, with no term of zero coefficient. A refused update leaves its polynomial exactly as it was, one interrupted because memory ran out leaves a product or quotient update either undone or done, and copies taken earlier never change.",
 ["histories", "schedules", "crash_points", "inputs"], "every history of operations on a set of polynomials, every order in which threads take turns, every refused or interrupted update in it",
 "The tests check single updates on a few polynomials and never a refused one; none reaches a product in which terms cancel.",
 ["src/polynomial.rs", "src/term.rs"],
 [("a term whose coefficient becomes zero is removed", "src/polynomial.rs impl_op_ex +, +=, -="), ("compute first, then replace the receiver", "src/polynomial.rs impl_op_ex *=, /="), ("preconditions asserted before the first write", "src/polynomial.rs omit_high_order_q, modular_assign")],
 ["Polynomial::terms after each operation", "==, is_zero, Display"], None, [("terms", "monomial to nonzero coefficient", "src/polynomial.rs Polynomial")])
prop("C06", "A curve's point list is complete however often it is (re)built",
 "After any history of building and rebuilding a curve's list of rational points, including rebuilding a list that is already filled, was edited by the caller, or was left by a rebuild interrupted because memory ran out, a finished build leaves every rational point of the curve and the point at infinity in the list exactly once, and the cardinality equals their number. Copies of a curve keep their own list.",
 ["histories", "crash_points", "schedules"], "every history of new, new_raw, clone, build, interrupted build and edits, with builds interrupted at every allocation, by threads taking turns",
 "The tests build each list once, from scratch, and never again.",
 ["src/elliptic_curve.rs"], [("enumeration of x and the first y, with -P appended", "src/elliptic_curve.rs create_points"), ("new builds the list, new_raw leaves it empty", "src/elliptic_curve.rs new, new_raw")],
 ["EllipticCurve::points, points(), cardinality(), division_points()"], None, [("points", "rational points and infinity", "src/elliptic_curve.rs EllipticCurve")])
prop("C07", "Point sums do not depend on the order contributions arrive in",
 "When several threads add contributions (points of one nonsingular curve over a prime field of characteristic above 3, their negatives, and integer multiples of them with any sign) to shared running sums that start at infinity, and merge the running sums in any grouping, the final total is the group sum of all contributions, whatever the order of arrival and grouping, also when the running sum passes through infinity or a point meets itself or its negative.",
 ["schedules", "histories", "inputs"], "every order and grouping in which contributions reach the running sums",
 "The tests add points in one fixed order and never add infinity on the right or take a negative multiple.",
 ["src/elliptic_curve.rs", "src/secp256k1.rs", "src/bigint.rs"], [("case split: infinity, distinct x, doubling, inverse points", "src/elliptic_curve.rs plus"), ("double-and-add", "src/elliptic_curve.rs multiply_scalar"), ("negation", "src/elliptic_curve.rs negate")],
 ["the running sums, modulo p"])
prop("C08", "Residues may be merged in any order and grouping",
 "When residues of one integer modulo pairwise coprime moduli arrive in any order from any threads and are merged by Chinese remaindering in any grouping, results of earlier merges being merged again, the final modulus is the product of all moduli and the final residue is congruent to the integer modulo each of them.",
 ["schedules", "histories", "inputs"], "every arrival order and every grouping of the residues",
 "One test merges three residues once, in one order.",
 ["src/bigint.rs"], [("iterated two-modulus merge with the extended Euclidean algorithm", "src/bigint.rs chinese_remainder, extended_gcd")],
 ["ModResult after each merge"])
prop("C09", "Rendering into a failing sink reports the failure and never garbles",
 "When a term, polynomial, variable, point, point list or curve is rendered into a sink that accepts only part of the text, in pieces of any size, and fails at any point, the rendering returns the sink's error instead of panicking or succeeding, stops writing, and what the sink accepted is a prefix of the full text. A sink that does not fail receives exactly the full text, and rendering again after a failure, or while other threads render, gives the full text.",
 ["fault_sequences", "crash_points", "schedules", "inputs"], "every sink, every piece size and every write at which it fails, for every value",
 "The tests render into strings, which never fail.",
 ["src/term.rs", "src/polynomial.rs", "src/elliptic_curve.rs", "src/subscripted_variable.rs"], [("write! with ? and returned results", "fmt::Display impls")],
 ["fmt::Result, the text accepted by the sink, writes after the failure"])
prop("C10", "Answers do not depend on the health of standard output",
 "Whatever happens to the process's standard output while calls run (it is full, broken, closed, non-blocking, interrupted, or takes only part of each write, at any write), every call, including Chinese remaindering and point counting, which report progress there, returns (or refuses) exactly as it does with a healthy standard output.",
 ["fault_sequences", "schedules", "histories"], "every sequence of results of the write calls on standard output, at every write, under every interleaving",
 "Tests run with a captured or healthy standard output.",
 ["src/bigint.rs", "src/schoof.rs", "src/elliptic_curve.rs"], [("progress lines are written to standard output", "src/bigint.rs chinese_remainder, src/schoof.rs schoof")],
 ["return value of each call under failing write calls"])
prop("C11", "Values and texts are reproducible in any process environment",
 "The value returned by a call, the order of the terms and points in it, and its text are the same in every process, thread and repetition: they do not depend on the entropy the system supplies, on clock readings or jumps, on the number of processors, on memory layout, on environment variables or on which thread makes the call.",
 ["configurations", "schedules", "inputs"], "every environment (entropy, clock, processor count, memory layout, environment variables, calling thread)",
 "Tests run on one machine configuration and compare one rendering; a randomised order would show only for values with several terms, in some processes.",
 ALL, [("terms are kept in a sorted map, points in enumeration order", "src/polynomial.rs Polynomial, src/elliptic_curve.rs create_points")],
 ["iteration order of terms and points, Display"])
prop("C12", "Calls retain no memory",
 "Once a batch of calls has ended and their results are dropped, nothing of it stays behind: repeating the same batch any number of times, by any threads, including refused calls, failed renderings and threads that exit, does not make the memory in use grow without bound.",
 ["histories", "schedules", "fault_sequences"], "every batch of calls, repeated any number of times",
 "Tests end after a few calls and do not look at memory.",
 ALL, NOSTATE, ["bytes allocated inside library calls and not yet freed"])
prop("C13", "A term builder can be reused, shared in turns, and survives refusals",
 "After any sequence of settings, builds, copies and refused settings on a term builder, by any threads taking turns, each built term has exactly the latest accepted setting of each part (coefficient, x, y and q exponents, variable) and the initial value of the parts never set. Building changes neither the builder nor terms built earlier, and a refused setting changes nothing.",
 ["histories", "schedules", "fault_sequences"], "every history of settings, builds, copies and refused settings",
 "The tests use each builder once, in one chain, and never refuse a setting.",
 ["src/term_builder.rs", "src/term.rs"], [("plain fields, build copies them", "src/term_builder.rs")], ["Term fields after build"])

NA = [
("N01", "The rational points form an abelian group under addition", "For every nonsingular curve over a prime field of characteristic above 3 and all its points, addition is the chord-and-tangent law: closed, commutative, associative, with infinity as neutral element and negation as inverse, and scalar multiplication is repeated addition for every integer.", ["src/elliptic_curve.rs"], "plus, negate, multiply_scalar", "Tests check a few sums on secp256k1 and orders on two small curves."),
("N02", "Polynomial arithmetic is the exact commutative ring", "Sums, differences, products, powers, derivatives, substitutions and Euclidean division modulo a prime give, for every polynomial, the results of exact arithmetic in Z[x,y,q] or GF(p)[x].", ["src/polynomial.rs", "src/term.rs"], "operators, power, derivative_x, gcd, polynomial_modular, eval_*", "Tests check a few examples."),
("N03", "Modular inverses, powers, Bezout pairs and remainders are exact", "For all integers and every prime modulus, the modular power and inverse, the Bezout coefficients and the Chinese remainder satisfy their defining equations.", ["src/bigint.rs"], "power, power_modulo, inverse, extended_gcd, chinese_remainder", "Tests check a handful of values."),
("N04", "Division polynomials describe multiplication by n", "For every curve, every n and every point P that n does not kill, the x and y coordinates of nP are phi_n/psi_n^2 and omega_n/psi_n^3 at P, and psi_n vanishes exactly at the points killed by n.", ["src/division_polynomial.rs"], "psi, phi, omega", "Tests compare expansions for one curve and n up to 5."),
("N05", "Point counting agrees with enumeration", "For every curve over a prime field, each residue reported by the point-counting algorithm is the trace of Frobenius modulo that small prime.", ["src/schoof.rs"], "schoof", "Its tests never end and are left out."),
("N06", "Elkies classification agrees with the modular polynomial", "For every curve and small prime l, l is reported as an Elkies prime exactly when the modular polynomial at the curve's j-invariant has a root in the field, and the reported j-invariants are such roots.", ["src/schoof_elkies_atkins.rs"], "sea", "Two examples."),
("N07", "Modular polynomials and q-expansions have the classical coefficients", "For every prime p and truncation order, the Eisenstein series, discriminant, j-expansion and modular polynomial have the classical integer coefficients; the modular polynomial is symmetric and satisfies Kronecker's congruence.", ["src/modular_polynomial.rs", "src/j_invariant.rs", "src/delta.rs", "src/eisenstein.rs", "src/divisor.rs"], "modular_polynomial, j_invariant, delta1, eisenstein4, sigma_divisor", "A few orders, p up to 5."),
("N08", "Linear systems are solved exactly", "For every system with a unique integer solution the solver returns that solution.", ["src/simultaneous_equation.rs"], "solve", "Only reached through two modular polynomials."),
("N09", "Isogenies preserve the number of points", "The curve returned for a rational subgroup is isogenous to the original one and so has the same cardinality.", ["src/elliptic_curve.rs"], "isogeny, division_points", "The tests only print."),
("N10", "secp256k1 parameters and multiples match the standard", "The predefined curve has the standard parameters and the multiples of its generator are the standard ones for every scalar.", ["src/secp256k1.rs"], "Secp256k1::new", "Three multiples."),
("N11", "Variable numbering is a bijection", "For every prime, numbering the coefficient variables and looking a variable up by number are inverse to each other on the whole range.", ["src/subscripted_variable.rs"], "index_from_variable, variable_from_index", "One prime, one variable."),
]
for id, t, s, f, m, why in NA:
    prop(id, t, s, ["inputs"], "every input", why, f, [(m, f[0])], ["return value"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for p in P: fh.write(json.dumps(p) + "\n")
