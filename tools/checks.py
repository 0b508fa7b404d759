NOT_APPLICABLE = {}
G = "Sampled, not exhaustive: holds for every generated case of a fixed, seed-determined workload; "
c("C01", "fields", "property-based testing: structured random operands and operation programs against a schoolbook big-integer model, with shrinking", G + "limb-edge classes are generated directly because uniform sampling cannot reach them.")
c("C02", "fields", "property-based testing: structured byte strings and field elements against a big-integer model; Euler-criterion oracle for squares", G + "square roots cover every 2-adic order.")
c("C03", "curves", "stateful property-based testing: random programs of group operations over a register file of points, in mixed projective representations, against an affine big-integer model", G + "representations are reached by random histories and by direct rescaling.")
c("C04", "curves", "property-based testing: structured scalars and points in mixed representations against an independent affine double-and-add model", G + "scalars include order +-k, single-bit, all-ones and byte-boundary patterns.")
c("C05", "curves", "property-based testing: valid encodings, mutations of them, non-reduced coordinates and random byte strings against a big-integer decoder", G + "acceptance and value are decided independently for every string.")
c("C06", "algebra", "property-based testing: random scalar/point lists at lengths around every threshold, under simulated processor counts, against a naive sum in the exponent", G + "processor counts are simulated through a replacement of the num_cpus crate.")
c("C07", "algebra", "property-based testing: random coefficient vectors and length pairs, under simulated processor counts, against schoolbook convolution or evaluation at random points", G + "large products are compared by evaluation at random points.")
c("C08", "algebra", "property-based testing: random challenge lists and vectors against explicit halving", G + "lengths 1 to 10 rounds.")
c("C10", "rescue", "stateful property-based testing: random histories of absorb, squeeze and clone against an independent sponge model", G + "the model recomputes round keys and exponents itself.")
c("C12", "rescue", "metamorphic property-based testing: pairs of absorb histories differing in some elements must squeeze different elements", G + "every slot of a block and several blocks are covered; two findings are recorded.")
c("C09", "ecc", "property-based testing: structured challenge bits against the documented digit expansion over big integers, in-circuit multiplication against the affine model, plus a randomised search for other satisfying assignments", G + "the adversarial part searches for forged assignments by perturbing and propagating.")
c("C18", "ecc", "property-based testing: every point gadget on related operands (equal, opposite, endomorphism image, identity) in every operand form against the affine big-integer group law, honest assignment checked by a recording constraint system", G + "operands are drawn inside each operation's documented domain.")
c("C19", "ecc", "property-based testing with an adversarial generator: operands fixed, other satisfying assignments are searched for by perturbing undetermined variables and propagating the constraints, any with another result is a failure", G + "the search is incomplete: it finds forgeries reachable by changing a few variables.")
c("C11", "gadgets", "property-based testing of random absorb/squeeze histories against the native sponge and an independent model, with an adversarial search for other satisfying assignments", G + "the search for forgeries is incomplete.")
c("C13", "gadgets", "property-based testing: every boolean gadget on every operand kind and aliasing against its truth table, with an adversarial search for other satisfying assignments", G + "operand kinds and values are covered many times over.")
c("C14", "gadgets", "property-based testing: random programs of machine-integer gadgets against machine arithmetic, with an adversarial search for other satisfying assignments", G + "edge patterns (all ones, single bits, carries) are generated directly.")
c("C15", "gadgets", "differential property-based testing against an independent SHA-256 model over message lengths around the padding boundaries and mixed bit kinds", G + "messages up to 130 bytes.")
c("C16", "gadgets", "property-based testing: random programs of number and combination operations against field expressions, with an adversarial search for other satisfying assignments", G + "the search for forgeries is incomplete.")
c("C17", "gadgets", "property-based testing: decomposition of structured field elements against big integers; every congruent 256-bit integer and random forgeries are tried as other assignments", G + "all integers congruent to the value that fit are tried explicitly.")
c("C20", "synth", "property-based testing: random circuits (nested namespaces, inputs, combinations with repeated and zero coefficients) at several sizes against s(X, Y) and k(Y) recomputed from the program text", G + "circuits up to about 40 gates, exactly-full sizes included.")
c("C21", "synth", "property-based testing: random satisfied and perturbed circuits against a direct evaluation of every gate and constraint; a smaller part compares with real proofs", G + "perturbations touch one value, coefficient or input.")
c("C22", "synth", "metamorphic property-based testing: random gadget compositions synthesised with several witnesses and without one must give the same shape; the determinism check and counter are compared with the recorded shape", G + "compositions of up to a dozen gadget calls.")
c("C31", "synth", "fault-injecting property-based testing: random circuits and gadget compositions with a value function made to fail at a random position with a random error, undefined operands, wrong input counts", G + "every value-function position of the generated circuits can be hit.")
c("C23", "proofs", "property-based testing: random polynomial sets and points; openings by the prover under test and by an independent prover that lies in one chosen place while staying consistent elsewhere; commitments against naive sums", G + "binding is tested against the listed lies and alterations, not proved.")
c("C24", "proofs", "stateful property-based testing: chains of one to three proofs of random satisfied circuits (exactly full ones included) from random valid leftovers, under simulated processor counts; an independent prover's proofs must be accepted too", G + "circuits of up to 15 gates.")
c("C25", "proofs", "mutation-based property testing: every component of accepted proofs, inputs, circuits and leftovers is altered; provers that lie in one place consistently; mixtures of valid proofs", G + "alterations are sampled, all component kinds are covered.")
c("C26", "proofs", "property-based testing with an adversarial prover: false statements proved by an independent implementation of the prover that adapts one claim, commitment or polynomial so that only one check can catch it", G + "thirteen cheating strategies; not a proof of soundness.")
c("C27", "proofs", "property-based testing: synthetic consistent leftovers and deferred data, single and compensated alterations, against recomputed verdicts", G + "sizes k = 2 to 7 (10 in thorough).")
c("C28", "proofs", "property-based testing: random states against an independent encoder, plus pairs differing in one component", G + "k = 1 to 24.")
c("C33", "proofs", "metamorphic property-based testing: one message of a random (not necessarily valid) proof is replaced and the challenges before and after are compared", G + "every message kind, round and claim is covered.")
c("C29", "recursion", "property-based testing: random honest base cases and honest steps after natively accepted proofs, the recursive circuit synthesised and every constraint and public input evaluated", G + "previous steps are proofs of a stand-in circuit with the recursive public-input layout at k = 4..6 and k = 15, since the real recursive circuit needs k = 22.")
c("C30", "recursion", "mutation-based property testing with an adversarial prover: altered or dishonestly made steps and bit flips of public and previously public data, each followed by a randomised search for another satisfying assignment with the same public data", G + "the assignment search repairs constraints locally; one finding is recorded.")
c("C34", "chain", "stateful property-based testing with fault injection: chains of recursive proofs created by the interface, verified after every step against a model of what each step carries, then altered; steps carrying bad data; steps by an adversarial prover", G + "the verification circuit is cut short after its public inputs (hook), so that proofs fit into k = 15; C29 and C30 cover the rest of it.")
c("C35", "algebra", "property-based testing: parameters made for random sizes and processor counts, every generator checked against independent curve arithmetic and for small relations and constant bits", G + "parameters larger than 2^10 are not made.")
c("C32", "bitcoin", "property-based testing: random consecutive header payloads, valid or broken in one place, against an independent SHA-256 and 256-bit division, every constraint evaluated", G + "the example leaves some range checks as TODOs, so a malicious prover is out of scope.")
