#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Field arithmetic agrees with integers modulo the field prime",
 "For both prime fields, every arithmetic operation and every integer or wide-byte-string conversion returns exactly the residue of the corresponding integer computation modulo that field's prime. Equal residues always compare equal and unequal ones never do, in-place variants agree with the by-value ones, and only zero has no inverse; a batch inversion inverts every non-zero entry, leaves zeros alone and returns the product of the inverses.",
 ["inputs", "histories"], "all operand values (including 0, p-1, limb-boundary patterns of both the integer and the internal form), all 256-bit raw and 512-bit wide integers, all exponents, all vectors, and all sequences of operations where each result feeds the next",
 "The only existing tests use a handful of fixed small values through other modules; carry and reduction errors need particular limb patterns out of 2^512 operand pairs.",
 ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs", "src/util.rs"],
 [("Montgomery limbs and final conditional subtraction", "src/fields/fp.rs montgomery_reduce, mul, square, add, sub, neg; src/fields/fq.rs same"),
  ("adc/sbb/mac carry helpers", "src/util.rs"), ("pow, pow_vartime, batch_invert", "src/fields/mod.rs")],
 ["canonical byte encoding of results", "==, ct_eq, is_zero"])
prop("C02", "Field encodings are canonical and square roots are exact",
 "A 32-byte string decodes to a field element exactly when its little-endian integer is below the field prime, encoding and decoding are mutually inverse, and the low-128-bit extraction equals that integer modulo 2^128. A square root is returned exactly when the element is a square (zero included), and squaring it gives the element back.",
 ["inputs"], "all 32-byte strings, including those in the narrow bands around the prime and multiples of it; all field elements, including those whose multiplicative order has any particular power of two",
 "No existing test exercises non-canonical encodings or square roots other than through a few fixed curve points; the root finder has 32 data-dependent rounds selected by 2-adic order.",
 ["src/fields/fp.rs", "src/fields/fq.rs"],
 [("borrow check against the modulus", "from_bytes"), ("Tonelli-Shanks rounds", "sqrt"), ("Montgomery reduction before encoding", "to_bytes, get_lower_128")],
 ["from_bytes, to_bytes, sqrt, get_lower_128"])
prop("C03", "Curve points form a group in every internal representation",
 "On both curves, addition, subtraction, negation, doubling and their in-place forms compute the affine group law for every pair of points, including equal, opposite and identity operands, whatever sequence of operations produced the operands. Two values compare equal exactly when they denote the same point, a default-constructed point is the identity, and the identity and on-curve tests and the affine and projective coordinates report the denoted point.",
 ["inputs", "histories"], "all points and all histories of group operations (which determine the projective representation), with special relations P=Q, P=-Q, P=O, endomorphism images",
 "Existing tests check a few fixed multiples of one generator; they never compare the identity with a non-identity point or use representations reached by long histories.",
 ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs"],
 [("complete addition and doubling formulas", "Add, double"), ("cross-multiplied equality with identity cases", "ct_eq")],
 ["get_xy, get_xyz, ==, is_zero, is_on_curve"])
prop("C04", "Scalar multiplication is the group action and respects the endomorphism",
 "Multiplying a point by a scalar gives the sum of that many copies of the point for every scalar and every point, so it is additive and multiplicative in the scalar, the group order annihilates every point, and the identity is fixed. Multiplying by the curve's cube-root-of-unity scalar equals scaling the x-coordinate by the base-field cube root of unity.",
 ["inputs"], "all scalars (0, 1, order-1, single-bit and all-ones patterns, byte-boundary patterns) and all points in all representations",
 "Existing tests multiply one generator by three scalars and check the endomorphism on the generator alone.",
 ["src/curves/ec0.rs", "src/curves/ec1.rs"],
 [("MSB-first double-and-add over encoded bytes", "Mul<&Fp> for &Ec0, Mul<&Fq> for &Ec1"), ("BETA_SCALAR/BETA_BASE", "Curve impls")],
 ["result point compared with an independent affine reference"])
prop("C05", "Point encodings are canonical, exact and injective",
 "Encoding then decoding returns the same point, and a 32-byte string decodes exactly when it is the encoding of some curve point, which is then unique; in particular non-reduced coordinates, off-curve coordinates and a sign-flagged identity are refused. Coordinate pairs are accepted exactly when they lie on the curve or are the reserved identity pair (0,0), and affine coordinates exist exactly for non-identity points.",
 ["inputs"], "all 32-byte strings (valid encodings, bit flips of them, coordinate plus modulus, random), all coordinate pairs, all points in all representations",
 "Existing tests decode two strings per curve.",
 ["src/curves/ec0.rs", "src/curves/ec1.rs"],
 [("sign bit plus canonical x", "from_bytes, to_bytes"), ("on-curve check", "from_xy, get_xy")],
 ["from_bytes, to_bytes, from_xy, get_xy"])
prop("C06", "Multi-scalar multiplication equals the naive sum at any size and CPU count",
 "The multi-scalar multiplication of equally long scalar and point lists equals the sum of the individual products for every length including zero and for every number of available processors. Zero scalars, repeated, opposite and identity points, and points in any internal representation are included.",
 ["inputs", "configurations"], "all list lengths across every chunk-size and window-size threshold, all scalar patterns, all processor-affinity sizes including non-powers of two",
 "No unit test calls it directly; proofs tests reach it only at powers of two on the machine's own CPU count.",
 ["src/util.rs"], [("chunking per CPU, window selection, bucket summation", "multiexp")], ["util::multiexp"])
prop("C07", "Polynomial multiplication is exact convolution at any size and CPU count",
 "The product of two non-empty coefficient vectors over either field is their exact convolution, of length len(a)+len(b)-1, for every pair of lengths and every number of available processors.",
 ["inputs", "configurations"], "all length pairs (1xN, equal, around powers of two), all coefficient patterns, all processor-affinity sizes",
 "One test multiplies two 1000-term vectors on the machine's own CPU count.",
 ["src/util.rs", "src/fields/fp.rs", "src/fields/fq.rs"],
 [("serial and parallel FFT, domain sizing", "multiply_polynomials, best_fft, serial_fft, parallel_fft"), ("2^S-th root of unity", "Field::ALPHA")],
 ["util::multiply_polynomials"])
prop("C08", "Inner-product folding shortcuts equal explicit halving",
 "For every list of non-zero challenges, repeatedly halving a vector by low*challenge^-1 + high*challenge gives the same final value as the closed-form helpers: for the powers of any point x, for the coefficients applied to each generator, and for a generator list folded in place at any processor count.",
 ["inputs", "configurations"], "all challenge lists of length 1 to 10, all evaluation points, all generator lists, all processor-affinity sizes",
 "One test checks one challenge list of length four for the powers vector; the generator helpers are untested in isolation.",
 ["src/util.rs"], [("compute_b, compute_g_coeffs_for_inner_product, compute_g_for_inner_product, parallel_generator_collapse, compute_inner_product", "src/util.rs")],
 ["util helpers' return values"])
prop("C09", "Endomorphism challenges mean the same scalar inside and outside circuits",
 "The scalar derived from a challenge depends only on its low 128 bits and follows the documented digit expansion (start at 3; per bit pair double, add or subtract one, optionally multiply by the cube root of unity). The in-circuit multiplication by the 128 challenge bits yields exactly that scalar times the point, the in-circuit inverse multiplication yields the point that maps back to the input, and both hold for the identity.",
 ["inputs"], "all 128-bit challenges, any higher bits, all points including the identity, on both curves",
 "The one existing test of the in-circuit version is known to fail (it asserts the wrong result) and nothing tests the native derivation.",
 ["src/util.rs", "src/gadgets/ecc.rs"],
 [("digit expansion", "util::get_challenge_scalar"), ("conditional_neg, double_and_add_incomplete, conditional_endo chain", "gadgets/ecc.rs multiply_endo, multiply_inv_endo")],
 ["returned scalar; gadget output coordinates and constraint satisfaction"])
prop("C10", "The Rescue sponge computes the specified function for every call history",
 "For both fields and any interleaving of absorbing and squeezing, each squeezed element equals the one computed by an independent implementation of the documented permutation and sponge (rate 12, ten double rounds, padding with ones, squeezing from the front of the rate). Cloned sponges continue identically and never influence each other.",
 ["histories", "inputs"], "all histories of absorb, squeeze and clone, crossing block boundaries in both modes, with all field values",
 "Existing tests compare the sponge with itself and never with a specification, over three fixed histories.",
 ["src/rescue.rs"], [("round keys, MDS, S-boxes", "rescue_f"), ("mode switching and padding", "Rescue::absorb, Rescue::squeeze")],
 ["squeezed elements"])
prop("C11", "The Rescue circuit reproduces the native sponge for every history",
 "For both fields and any interleaving of absorbing and squeezing, on constants, allocated values and linear combinations, the circuit's squeezed values equal the native sponge's, its constraints are satisfied by the honest assignment, and no other assignment of its internal variables yields different squeezed values for the same absorbed values.",
 ["histories", "inputs"], "all absorb/squeeze histories, all operand kinds and values, and all alternative assignments a malicious prover could substitute",
 "The existing test runs one fixed history with one set of values and only the honest assignment.",
 ["src/gadgets/rescue.rs", "src/gadgets/num.rs"],
 [("S-box and inverse S-box gates, deferred linear layers", "gadgets/rescue.rs rescue_f, RescueGadget"), ("alpha and inverse-alpha gates", "Num::rescue_alpha, rescue_invalpha")],
 ["gadget value and constraints through a recording constraint system"])
prop("C12", "Every absorbed element influences the sponge output",
 "Two absorb histories that differ in an absorbed element, with the same squeezes afterwards, produce different squeezed elements, whichever position of a block the differing element occupies.",
 ["inputs", "histories"], "all pairs of histories of equal length differing in at least one element, at every position within and across blocks",
 "The existing tests never compare outputs of different inputs.",
 ["src/rescue.rs"], [("rate-12 absorption into the permutation", "Rescue::absorb, rescue_f")], ["squeezed elements"])
prop("C13", "Boolean gadgets compute and enforce their truth tables",
 "For every combination of constant, allocated, negated and derived operands, each boolean gadget (and, and-not, nor, xor, not, choose, majority, equality, conversion to a linear combination or number) has the value of its truth table, is satisfiable by the honest assignment and admits no assignment with another output for the same inputs. A bit that is not 0 or 1 is never accepted.",
 ["inputs", "programs"], "all operand kinds and values, all compositions of gadgets, and all alternative assignments of internal variables",
 "Existing tests enumerate honest truth tables for some operand kinds but never a dishonest assignment, and never compositions.",
 ["src/gadgets/boolean.rs"], [("single-gate encodings and constant folding", "AllocatedBit::*, Boolean::*, unpack_fe, field/u64 into bits helpers")],
 ["get_value, lc and constraints through a recording constraint system"])
prop("C14", "Machine-integer gadgets equal machine arithmetic and are binding",
 "The 32-bit and 64-bit gadgets compute exactly the machine-integer result (wrapping sums, rotations, shifts, xor, choose, majority, multiply-accumulate with full-width result, bit and byte conversions) for every mix of constant and allocated operands. Their honest assignment satisfies the constraints, and no assignment yields a different result for the same operand bits.",
 ["inputs", "programs"], "all operand values (0, all-ones, carries across every bit), all constant/allocated mixes, operand counts up to ten, and all alternative assignments of internal variables",
 "Existing tests use fixed random seeds with honest assignments only and do not mix constants with allocated operands in carries.",
 ["src/gadgets/uint32.rs", "src/gadgets/uint64.rs"],
 [("sum decomposition into result and carry bits", "UInt32::addmany"), ("multiply-accumulate decomposition", "UInt64::mulacc2"), ("bit shuffles", "rotr, shr, into_bits, from_bits")],
 ["value, bits and constraints through a recording constraint system"], "uint32 module is private: re-exported under cfg(halo_verif)")
prop("C15", "The SHA-256 circuit equals SHA-256 for every message",
 "For every byte-aligned message and every mix of constant, allocated and negated message bits, the circuit's digest bits equal the SHA-256 digest of the message, the honest assignment satisfies all constraints, and the constraints do not depend on the message contents.",
 ["inputs", "configurations"], "all message lengths across the padding boundaries (55, 56, 63, 64, 119, 120 bytes), contents and constness patterns",
 "The existing test covers lengths up to 31 and 32 to 63 with all bits allocated except one blank-hash case.",
 ["src/gadgets/sha256.rs", "src/gadgets/uint32.rs", "src/gadgets/boolean.rs"],
 [("padding and block iteration, compression rounds", "sha256, sha256_compression_function")], ["digest bits and constraint satisfaction"])
prop("C16", "Number gadgets compute field arithmetic and are binding",
 "Numbers and linear combinations built from constants, allocated values, sums, differences, scalings and negations always carry the value of the corresponding field expression, and every operation that allocates (multiplication, squaring, inversion, square root, S-boxes, evaluation, exposing as an input) forces its result to the field value for the given operands, where either root counts as a square root. The honest assignment satisfies the constraints whenever the operation is defined.",
 ["programs", "inputs"], "all expression programs over constants and allocated values with all field values including 0, 1, -1, and all alternative assignments of internal variables",
 "Existing tests run three fixed expressions with honest assignments.",
 ["src/gadgets/num.rs"], [("AllocatedNum, Num, Combination operations", "src/gadgets/num.rs")],
 ["value, lc and constraints through a recording constraint system"])
prop("C17", "Bit decomposition of a number in a circuit is the canonical one",
 "Decomposing an allocated number into bits yields the bits of its canonical integer for every value, and no assignment satisfying the constraints yields any other bit string for the same number.",
 ["inputs"], "all field values on both fields, and all alternative assignments, in particular the bits of value plus multiples of the prime that still fit in 256 bits",
 "No existing test decomposes a number other than through the full recursive circuit with honest assignments.",
 ["src/gadgets/boolean.rs"], [("256 boolean-constrained bits summing to the number", "unpack_fe")], ["bits and constraints through a recording constraint system"])
prop("C18", "Point gadgets compute the correct curve point, edge cases included",
 "For both curves, each in-circuit point operation (witnessing, negation and endomorphism on condition, complete and incomplete addition, conditional addition, doubling, double-and-add, scalar and inverse scalar multiplication) returns coordinates and an identity flag denoting the group-law result on its documented domain, and its honest assignment satisfies the constraints.",
 ["inputs", "programs"], "all points including the identity, equal, opposite and endomorphism-related operands, constant and witnessed operands, all scalars and conditions, and compositions of operations",
 "Existing tests use the generator, its double and the identity with one scalar.",
 ["src/gadgets/ecc.rs"], [("affine formulas with selection constraints", "CurvePoint::*")],
 ["get_xy values and constraints through a recording constraint system", "chained operations for the identity flag"])
prop("C19", "Point gadgets admit no other result than the correct curve point",
 "For fixed operand coordinates, flags and condition or scalar bits on the documented domain, no assignment of an operation's internal variables satisfies the constraints with a result denoting a different point. A witnessed point is always either on the curve or the identity represented as (0,0).",
 ["inputs", "programs"], "all operand values and edge cases of each operation, and all alternative assignments a malicious prover could substitute",
 "Existing tests only ever use the honest prover's assignment.",
 ["src/gadgets/ecc.rs"], [("every multiplication gate and linear constraint of each operation", "CurvePoint::*")],
 ["adversarial assignment search over the recorded constraints"])
prop("C20", "Prover and verifier derive identical circuit polynomials",
 "For every circuit, the prover's bivariate circuit polynomial specialised at y and evaluated at x, the version specialised at x and evaluated at y, and the verifier's direct evaluation all equal the value defined by the circuit's gates and linear constraints, and the input polynomial places each public input at the power of its constraint.",
 ["programs", "inputs"], "all circuits (any mix of allocations, inputs, gates and constraints with zero, unit, negative-unit and full coefficients), all evaluation points",
 "The one proof test uses a single tiny circuit.",
 ["src/proofs.rs", "src/synthesis.rs", "src/circuits.rs"],
 [("SxEval/SyEval/SxyEval and k(Y) backends", "Params and Proof creation/verification in src/proofs.rs"), ("gate and constraint numbering", "src/synthesis.rs Basic")],
 ["proof acceptance; polynomial evaluations exposed by a guarded hook"], "backends are private to proof creation: guarded accessor")
prop("C21", "The development satisfaction check is exact",
 "The satisfaction check accepts a circuit and public inputs exactly when every multiplication gate and every linear constraint holds for the assignment and the inputs match in number and value, and otherwise reports an error that names a violated constraint kind. Its verdict agrees with what a proof for that circuit and inputs would give.",
 ["programs", "inputs"], "all circuits with satisfied or singly or multiply violated gates, constraints and inputs, at every position, all coefficient kinds",
 "Existing tests rely on it but only ever with satisfied circuits.",
 ["src/dev.rs", "src/synthesis.rs", "src/circuits.rs"], [("gate and constraint evaluation", "is_satisfied"), ("LinearCombination::evaluate", "src/circuits.rs")],
 ["return value of the check"])
prop("C22", "Circuit shape never depends on witness values",
 "Synthesising any composition of gadgets yields the same sequence of allocations, gates and linear constraints whatever the witness values are, and also when no witness is known at all, so prover and verifier agree on the circuit. The determinism check and the constraint counter report exactly that shape.",
 ["programs", "inputs"], "all gadget compositions, pairs of different witnesses (including edge cases: identities, zeros, equal operands), and the absent witness",
 "Existing tests never synthesise the same gadget with two witnesses.",
 ["src/gadgets/ecc.rs", "src/gadgets/num.rs", "src/gadgets/boolean.rs", "src/gadgets/rescue.rs", "src/gadgets/uint64.rs", "src/dev.rs"],
 [("value closures separate from constraint emission", "all gadgets"), ("event recording", "dev.rs determinism_check, constraint_count")],
 ["recorded event sequence; determinism_check and constraint_count results"])
prop("C23", "Polynomial commitment openings are complete and binding to the claim",
 "A commitment is linear in the coefficients, and an opening produced for any set of committed polynomials and points is accepted for the true evaluations. Changing any claimed evaluation, point, commitment or any component of the opening makes it rejected or makes the deferred checks fail.",
 ["inputs", "configurations"], "all polynomials up to the parameter size, all point and polynomial counts used by the proof system, all single-component alterations, all processor counts",
 "The one proof test produces one honest opening.",
 ["src/proofs.rs"], [("inner-product rounds and final check", "MultiPolynomialOpening, PolynomialOpening"), ("generators", "Params::new, Params::commit")],
 ["opening verification result together with its deferred leftovers"], "opening construction is private: guarded constructor")
prop("C24", "Every true statement has an accepted proof, whatever was proved before",
 "For every satisfiable circuit that fits the parameters and every witness satisfying it, creating a proof against any valid prior leftovers succeeds, and verifying it with the same public inputs is accepted and leaves leftovers and deferred computations that also verify. The result is the same on any number of processors.",
 ["programs", "histories", "configurations"], "all circuits and witnesses up to the size limit (including exactly full), all chains of proofs feeding leftovers forward, both curve orders, all parameter sizes tried, all processor counts",
 "The one proof test proves one circuit twice at one size.",
 ["src/proofs.rs", "src/synthesis.rs", "src/util.rs"], [("proof creation and verification", "Proof::new, Proof::verify"), ("leftovers and deferred", "Leftovers, Deferred")],
 ["verify results, Leftovers::verify, Deferred::verify"])
prop("C25", "Altered proofs, inputs or leftovers never verify",
 "Starting from an accepted proof, replacing any single component of the proof, any public input, the circuit, the prior leftovers or the deferred data by a different value makes verification fail: either the verifier rejects or the leftovers or deferred computations it produces do not verify.",
 ["inputs", "fault_sequences"], "every component position and round of the proof, every kind of alteration (random, negated, zero, swapped with another component or another proof, off by one), all circuits",
 "The one proof test never alters anything.",
 ["src/proofs.rs"], [("transcript binding and final equations", "Proof::verify"), ("inner-product verification", "MultiPolynomialOpening verification"), ("exact checks", "Leftovers::verify, Deferred::verify")],
 ["combined verdict of verify, Leftovers::verify and Deferred::verify"])
prop("C26", "A false statement never yields an accepted proof",
 "If the assignment the prover supplies violates any gate, any linear constraint or any public input, then running the prover's algorithm on it never produces a proof that verifies for those public inputs.",
 ["programs", "inputs"], "all circuits, every single violated gate, constraint or input position, and combinations of violations",
 "The one proof test only proves a true statement.",
 ["src/proofs.rs", "src/synthesis.rs"], [("constraint polynomial identity at random point", "Proof::new, Proof::verify"), ("public input polynomial k(Y)", "verification backend")],
 ["combined verdict of verify, Leftovers::verify and Deferred::verify"])
prop("C27", "Deferred and leftover checks accept exactly consistent data",
 "Leftovers verify exactly when their generator commitment is the fold of the parameters' generators by their challenges, and deferred data verifies exactly when its claimed evaluations match its own challenges and the circuit polynomial fold values. The dummy values used to start a chain always verify.",
 ["inputs", "configurations"], "all challenge lists, all single-field alterations, all parameter sizes and both curves, the empty history",
 "Existing tests check leftovers only as produced by one honest proof.",
 ["src/proofs.rs"], [("recomputation of the folded generator", "Leftovers::verify"), ("recomputation of deferred equations", "Deferred::verify, Deferred::compute"), ("dummies", "Leftovers::dummy, Deferred::dummy")],
 ["verify return values"])
prop("C28", "Public-input serialisation of recursion state is lossless and injective",
 "The byte encoding of leftovers and deferred data has the fixed length implied by the parameters, lists every component in order in its canonical form with challenges as 128-bit strings, and two states that differ in any component have different encodings.",
 ["inputs"], "all component values including the identity and zero, every single-component change, all parameter sizes",
 "No existing test looks at these encodings.",
 ["src/proofs.rs", "src/recursion.rs"], [("byte layout", "Leftovers::to_bytes, Deferred::to_bytes"), ("in-circuit counterpart", "src/recursion.rs public input handling")],
 ["to_bytes output"])
prop("C29", "The recursive verification circuit accepts every honest step",
 "For the base case and for every honestly produced previous proof, the recursive circuit with the true payload, leftovers and deferred data as public inputs is satisfied, on both curve orders, for every application circuit and payload that obey the application's rule.",
 ["programs", "histories", "inputs"], "all parameter sizes tried, payload contents and lengths, prior histories, proofs of stand-in circuits with the recursive public-input layout",
 "No test in the suite runs the recursive circuit; only an example that needs parameters of size 2^22.",
 ["src/recursion.rs", "src/dev.rs", "src/gadgets/ecc.rs", "src/gadgets/rescue.rs"],
 [("in-circuit transcript, opening and deferral logic", "VerificationCircuit::synthesize and helpers")],
 ["recursive_is_satisfied verdict; recorded constraints"], "RecursiveProof and VerificationCircuit have private fields: guarded constructor")
prop("C30", "The recursive verification circuit refuses every altered step",
 "If any component of the previous proof, the previous or new payload, the leftovers or the deferred data given to the recursive circuit is altered, the circuit is not satisfied, except where the alteration is left to the deferred data or leftovers and these then fail their own check. In the base case the application sees exactly its declared base payload.",
 ["inputs", "fault_sequences"], "every component position of proof and public state, all alteration kinds, base and non-base cases, both curve orders",
 "No existing test runs the recursive circuit on altered data.",
 ["src/recursion.rs", "src/dev.rs"], [("in-circuit verification equations and public-input equality", "VerificationCircuit::synthesize")],
 ["circuit verdict compared with the native verifier's"], "as for C29")
prop("C31", "Rejected synthesis surfaces as an error, never as a wrong result",
 "When the value of any variable is missing or an operation is undefined for its operands, creating a proof and checking satisfaction report an error value, and never success or a proof that verifies; counting constraints and the verifier's evaluations work without any witness. Verifying with the wrong number of public inputs never accepts.",
 ["programs", "fault_sequences"], "every position at which a value function of a circuit can fail, every error kind, wrong input counts",
 "No existing test injects an error into synthesis.",
 ["src/synthesis.rs", "src/dev.rs", "src/proofs.rs", "src/circuits.rs"], [("error propagation from value closures", "Synthesizer alloc, multiply, alloc_input")],
 ["returned Result values"])
prop("C33", "Every verifier challenge depends on everything sent before it",
 "Each challenge the verifier derives (y_cur, x, y_new and every round challenge) is a 128-bit value with its top bit set that changes whenever the public inputs, the commitment to them, the prior challenges or any commitment, claimed evaluation or round message the prover sent earlier is replaced by an unrelated value. Prover and verifier derive the same challenges.",
 ["inputs"], "every message of a proof, every round, random message values whether or not they form a valid proof",
 "Tests only run honest proofs, which pass just as well when a message is left out of the transcript on both sides.",
 ["src/proofs.rs"], [("transcript order", "Proof::new, Proof::verify, MultiPolynomialOpening::new_proof, verify_proof"), ("challenge derivation", "append_point, append_scalar, get_challenge")],
 ["challenges in the returned leftovers and deferred data"])
prop("C32", "The Bitcoin example's circuit is satisfied exactly by valid header steps",
 "With honestly computed witnesses, the example's header circuit is satisfied for every pair of consecutive payloads in which the height grows by one, the new header carries the double SHA-256 of the old one, its compact target is positive with an exponent of 4 to 31, and the chain work grows by floor(2^256 / (target + 1)). It is not satisfied when any one of these is broken.",
 ["inputs", "histories"], "all heights, chain works, headers, exponents and mantissas of the compact form, the declared base payload included, and every single broken rule",
 "The example has no tests and is never run by the suite; its ten built-in headers all share one target whose bytes read the same in either bit order.",
 ["examples/bitcoin.rs", "src/gadgets/sha256.rs", "src/gadgets/uint64.rs", "src/gadgets/boolean.rs"],
 [("header linking, compact target, 256-bit multiplication", "examples/bitcoin.rs BitcoinHeaderCircuit::synthesize, CompactBits::unpack")],
 ["satisfaction of every gate and constraint of the synthesised circuit"])
prop("C34", "Chains of recursive proofs verify, and altered ones never do",
 "Recursive proofs created one after the other on alternating curves, each from the one before, verify after every step whatever the payloads: each carries the new payload, the leftovers and the deferred data the verifier of the previous proof derives. A chain does not verify if its payload, any component of its proof, either of its leftovers or its deferred data is altered, if the deferred data or leftovers it carries are themselves invalid, or if its own relation or leftovers do not hold.",
 ["histories", "fault_sequences"], "chain lengths, both starting curves, all payloads, every component position, bad data carried by good proofs, dishonest provers",
 "The one recursive test only synthesises the circuit; no recursive proof is ever created or verified.",
 ["src/recursion.rs", "src/proofs.rs"], [("creation and verification of recursive proofs", "RecursiveProof::create_proof, verify_inner, verify")],
 ["verdict of RecursiveProof::verify", "parts of the created proof compared with what Proof::verify derives"], "the size of the real circuit (2^22 generators) is avoided by a hook that ends it after its public inputs")
prop("C35", "Fresh parameters hold valid unrelated generators at any CPU count",
 "Parameters created for any size and on any number of processors contain exactly 2^k generators, each a valid curve point other than the identity, no two of them equal, opposite or related by a small relation, and none a small multiple of the base point; no bit of their encodings is constant. The coordinates listed beside each generator, which the recursive circuit uses, are that generator's.",
 ["inputs"], "sizes 2^4 to 2^10, processor counts 1 to 128 whether or not they divide the size, both curves",
 "Tests create parameters for a few sizes on the machine's own processor count and look at none of the generators.",
 ["src/proofs.rs"], [("parameter generation split among threads", "Params::new")],
 ["the public fields of the parameters"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
