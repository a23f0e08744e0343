#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


# ---------------------------------------------------------------- KZG
prop("K01", "A reference string holds the powers of one fresh secret",
     "A reference string made for size n holds exactly n+3 points in G1, which are the generator times 1, s, s^2, ... for one secret s, "
     "and its two G2 points are the generator and the generator times the same s. "
     "Made from a given secret it uses exactly that secret; made without one, the secret is fresh and non-degenerate each time.",
     ["inputs", "configurations"], "every size, every secret including 0, 1, -1 and roots of unity, every pair of generated strings",
     "The tests use two fixed secrets and one or two sizes and never look at the points of the string.",
     ["kzg/src/srs.rs"], [("new_from_secret", "kzg/src/srs.rs"), ("new", "kzg/src/srs.rs")],
     ["g1_points()", "g2()", "g2s()"])
prop("K02", "Commitments are evaluation at the secret and are linear",
     "Committing to a polynomial gives the generator times the polynomial's value at the secret, whichever commit entry point is used. "
     "Sums, differences, negations, scalar multiples and challenge-weighted aggregates of commitments are the commitments of the same combinations of the polynomials. "
     "A polynomial with more coefficients than the reference string has powers is refused, never truncated.",
     ["inputs", "configurations"], "every polynomial (zero, constant, sparse, trailing zeros, full degree, over-long), every secret and string size, every expression over commitments",
     "Tests commit to a handful of fixed polynomials of degree at most 4 and combine two of them once.",
     ["kzg/src/scheme.rs", "kzg/src/commitment.rs"],
     [("commit / commit_vector / commit_para / evaluate_in_s", "kzg/src/scheme.rs"), ("operators and aggregate_commitments", "kzg/src/scheme.rs")],
     ["commit", "commit_vector", "commit_para", "Add/Sub/Neg/Mul", "aggregate_commitments"])
prop("K03", "Honest openings report the value and always verify",
     "Opening a polynomial that fits the reference string at any point returns the polynomial's value there and an opening that verifies against its commitment at that point. "
     "Both opening entry points agree, and the sum of two openings at one point opens the sum of the two commitments at that point.",
     ["inputs", "configurations"], "every polynomial up to the maximal degree including zero and constants, every point including 0, roots of the polynomial and the secret itself",
     "Tests open degree-4 polynomials at a few small points and never add openings or open constants.",
     ["kzg/src/scheme.rs", "kzg/src/opening.rs"],
     [("open / open_vector quotient", "kzg/src/scheme.rs"), ("KzgOpening addition", "kzg/src/opening.rs")],
     ["open", "open_vector", "verify", "KzgOpening +"])
prop("K04", "Single verification accepts exactly the valid openings",
     "For any commitment, opening and point, verification returns true exactly when the opening's witness times (secret - point) equals the commitment minus the claimed value times the generator. "
     "In particular no wrong value, wrong point, wrong commitment or wrong witness is accepted, including identity points and zero values.",
     ["inputs"], "every commitment, witness, claimed value and point, honest or adversarial",
     "Tests only verify honest openings; no rejection is tested at all in the commitment scheme.",
     ["kzg/src/scheme.rs"], [("verify pairing equation", "kzg/src/scheme.rs")], ["verify"])
prop("K05", "Batch verification accepts exactly when every opening is valid",
     "Batch verification of a list returns true when each opening in it would verify alone and false when any would not, also when the errors of several entries cancel each other, at every position and for every list length including empty and single. "
     "Lists of different lengths are refused.",
     ["inputs", "histories"], "every list of commitments, points and openings, and every subset and pattern of invalid ones",
     "One test verifies five honest openings; none has an invalid entry or cancelling errors.",
     ["kzg/src/scheme.rs"], [("batch_verify random weights", "kzg/src/scheme.rs")], ["batch_verify"])

# ---------------------------------------------------------------- PLONK
prop("P01", "Every satisfied circuit proves and verifies",
     "For every circuit whose assignment satisfies all gates, public inputs and copy constraints, compiling succeeds, proving with a reference string of the compiled size succeeds, and the proof verifies. "
     "This holds for every circuit size, mix of gates, wiring and assignment values.",
     ["inputs", "programs", "configurations"], "every satisfiable circuit built with the public circuit API, every sufficiently large reference string",
     "Tests prove three or four fixed circuits of at most nine gates, all with zero public inputs.",
     ["plonk/src/circuit.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs", "plonk/src/slice_polynomial.rs"],
     [("compile", "plonk/src/circuit.rs"), ("generate_proof", "plonk/src/prover.rs"), ("verify", "plonk/src/verifier.rs")],
     ["generate_proof", "verify"])
prop("P02", "No accepted proof for an assignment that violates a constraint",
     "When the assignment of a circuit violates some gate, public input or copy constraint, the prover gives no proof that the verifier accepts for that circuit.",
     ["inputs", "programs"], "every circuit and every assignment violating one or more constraints, however subtly and wherever",
     "Two tests try one wrong value each in a fixed circuit.",
     ["plonk/src/prover.rs", "plonk/src/verifier.rs", "plonk/src/circuit.rs"],
     [("divisibility of the quotient", "plonk/src/prover.rs"), ("permutation argument", "plonk/src/prover.rs"), ("pairing check", "plonk/src/verifier.rs")],
     ["generate_proof", "verify"])
prop("P03", "The verifier accepts exactly the proofs that satisfy the PLONK equation",
     "For any circuit, reference string and proof, with the challenges derived from the proof's own transcript, the verifier accepts exactly when the PLONK verification equation holds and the proof's multipoint challenge is the derived one. "
     "Changing any single commitment, evaluation, challenge or degree of a valid proof makes it rejected.",
     ["inputs"], "every proof: honest, trapdoor-simulated with arbitrary commitments and evaluations, mutated or spliced",
     "Tests verify honest proofs and swap proofs of two fixed circuits once.",
     ["plonk/src/verifier.rs"], [("pairing equation and r0/D/F/E terms", "plonk/src/verifier.rs"), ("challenge comparison", "plonk/src/verifier.rs")],
     ["verify"])
prop("P04", "A proof counts only for its own circuit, public inputs and setup",
     "A proof made for one circuit is rejected for every circuit that differs from it in some gate selector, constant, public input or copy constraint, or in size, and under every reference string of another secret. "
     "Verification does not depend on the witness held in the verifier's copy of the circuit, and public inputs cannot be chosen after the proof was made.",
     ["inputs", "programs", "configurations"], "every pair of circuits, every difference between them, every pair of reference strings, and adaptive choices of public inputs",
     "One test swaps the proofs of two equations differing in a constant.",
     ["plonk/src/verifier.rs", "plonk/src/challenge.rs"], [("commitments of selectors and permutations", "plonk/src/verifier.rs"), ("public input polynomial and transcript", "plonk/src/verifier.rs")],
     ["verify"])
prop("P05", "Wire and permutation polynomials are freshly blinded in every proof",
     "Each proof hides its wire and permutation polynomials behind independent, fresh, random multiples of the vanishing polynomial, of degree one for each wire and two for the permutation, as many as the proof opens; so two proofs of the same statement share no commitment or evaluation of them and an evaluation in a proof is not the unblinded one. "
     "Blinding never changes the values of those polynomials on the evaluation domain.",
     ["inputs", "histories"], "every circuit, every pair of proofs of the same or of different statements",
     "No test looks at the randomness of proofs at all.",
     ["plonk/src/prover.rs"], [("blinding scalars b1..b9", "plonk/src/prover.rs")], ["fields of the proof"])
prop("P06", "PLONK challenges bind every message and follow the chosen digest",
     "Prover and verifier derive the same challenges from the same messages with whichever digest the caller selects, and every challenge depends on the public inputs and on every message sent before it. "
     "A proof made with one digest is not accepted with another.",
     ["inputs", "configurations"], "every proof, every digest, every position and kind of message",
     "Tests only use SHA-256 and test the challenge generator on two fixed points.",
     ["plonk/src/challenge.rs", "plonk/src/prover.rs", "plonk/src/verifier.rs"],
     [("ChallengeGenerator feed/generate", "plonk/src/challenge.rs"), ("verify_challenges", "plonk/src/verifier.rs")],
     ["verify with instrumented digests"])
prop("P07", "Compiling a circuit preserves its gates, wiring, values and public inputs",
     "The compiled polynomials take, on the evaluation domain, exactly the selectors, constants, public inputs, wire values and copy permutation of the gates in order, padding gates constrain nothing, and the size is the next power of two. "
     "The witness-free circuit builder compiles the same gates, including explicit dummy gates at any place, to the same selectors, permutation and size.",
     ["inputs", "programs"], "every gate list and wiring, of every length",
     "One test compares two values of a four-gate circuit; compilation results are not inspected.",
     ["plonk/src/circuit.rs", "plonk/src/gate.rs", "plonk/src/compiled_circuit.rs", "plonk/src/common_preprocessed_input/cpi_circuit.rs"],
     [("compile / cal_permutation / pad_circuit", "plonk/src/circuit.rs"), ("CPICircuit::compile", "plonk/src/common_preprocessed_input/cpi_circuit.rs")],
     ["gate_constraints()", "copy_constraints()", "size"])
prop("P08", "A parsed equation's circuit means that equation",
     "The circuit parsed from an equation computes left side minus right side: its constraints force every wire from the variables, the same variable or constant is one value everywhere, and the final wire is that difference. "
     "With witnesses that satisfy the equation the circuit proves and verifies; with witnesses that do not, no accepted proof comes out.",
     ["inputs", "programs"], "every equation of the accepted grammar (sums of products of variables, signed constants and powers) and every witness",
     "Four fixed equations are parsed; none has repeated constants with different spellings, negative variables or powers of numbers.",
     ["plonk/src/parser.rs", "plonk/src/circuit.rs"],
     [("prepare_gen_circuit / gen_circuit", "plonk/src/parser.rs"), ("position map", "plonk/src/parser.rs")],
     ["Parser::parse", "compile", "generate_proof", "verify"])
prop("P09", "Spelling of an equation does not matter, and malformed ones are refused",
     "Spaces, letter case and writing a power as x^k or as a repeated product do not change the circuit an equation parses to. "
     "Text outside the grammar (missing or several equals signs, unknown variables, empty factors, bad exponents) is refused when it is parsed with witnesses, never silently given another meaning.",
     ["inputs"], "every equation with every respelling of it, and every mutated text",
     "One equation with spaces and one bad exponent are tested.",
     ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs"],
     [("parse_string", "plonk/src/parser.rs"), ("normalize", "plonk/src/common_preprocessed_input/cpi_parser.rs")],
     ["Parser::parse", "compute_common_preprocessed_input"])
prop("P10", "Preprocessed input matches the prover's circuit for the same equation",
     "The preprocessed input computed from an equation without witnesses has the same size, coset constants, selector and permutation commitments and public-input polynomial as the circuit the prover parses from that equation with any witnesses.",
     ["inputs", "programs"], "every equation of the grammar, every witness, every sufficiently large reference string",
     "One fixed equation is compared.",
     ["plonk/src/common_preprocessed_input/cpi_parser.rs", "plonk/src/common_preprocessed_input/cpi_circuit.rs", "plonk/src/parser.rs"],
     [("compute_common_preprocessed_input", "plonk/src/common_preprocessed_input/cpi_parser.rs")],
     ["CommonPreprocessedInput fields"])
prop("P11", "Parsing depends on nothing but the equation and its witnesses",
     "Parsing is a function of the equation and of the values last given to the variables in it. "
     "Other witnesses, the order and repetition of adding them, earlier parses with the same parser (also refused ones and other equations), and the thread do not change the circuit; the same holds for the preprocessed input.",
     ["histories", "inputs"], "every sequence of adding witnesses, parsing, being refused and preprocessing",
     "Every test uses a new parser for one equation.",
     ["plonk/src/parser.rs", "plonk/src/common_preprocessed_input/cpi_parser.rs"],
     [("add_witness / parse", "plonk/src/parser.rs"), ("compute_common_preprocessed_input", "plonk/src/common_preprocessed_input/cpi_parser.rs")],
     ["Parser::parse", "compute_common_preprocessed_input"])

# ---------------------------------------------------------------- FRI
prop("F01", "Every honest FRI proof verifies",
     "For every polynomial, including zero and constants, every blowup factor from 1 and every number of queries, the proof that the prover makes verifies, with every digest and prime field offered. "
     "Proving is deterministic.",
     ["inputs", "configurations"], "every polynomial, blowup factor, number of queries, digest and field",
     "Three tests use polynomials with 4 or 6 coefficients, blowup 2 and two queries.",
     ["fri/src/prover.rs", "fri/src/verifier.rs", "fri/src/fri_layer.rs"],
     [("generate_proof", "fri/src/prover.rs"), ("verify", "fri/src/verifier.rs")], ["generate_proof", "verify"])
prop("F02", "An honest FRI proof reveals the committed polynomial and its true foldings",
     "The proof's domain is the smallest power of two at least coefficients times blowup, with one layer per halving, and the layers are the evaluations over the coset of the polynomial and of its successive foldings by the transcript's challenges, ending in the constant. "
     "It reveals, at as many transcript-chosen positions as there are queries, the layer values at the position and its mirror with their authentication.",
     ["inputs", "configurations"], "every polynomial, blowup factor and number of queries",
     "Tests look at one folding and at two coset values.",
     ["fri/src/prover.rs", "fri/src/fri_layer.rs", "fri/src/fiat_shamir/transcript.rs"],
     [("fold_polynomial / folding_phase / query_phase", "fri/src/prover.rs"), ("FriLayer::from_poly", "fri/src/fri_layer.rs")],
     ["fields of the proof"])
prop("F03", "The FRI verifier rejects every inconsistent proof",
     "A proof is rejected when any revealed value, authentication path, position, layer root, constant, challenge-dependent value, domain or list length is not the one that an honest execution on the committed layers would show: values not authenticated by the proof's own roots, foldings that do not match, missing, reordered, duplicated or extra decommitments or layers.",
     ["inputs", "fault_sequences"], "every single or combined change of an honest proof, including changes that keep the folding relation and splices of other valid proofs",
     "One test changes the constant.",
     ["fri/src/verifier.rs", "fri/src/merkle_tree.rs"],
     [("verify_query", "fri/src/verifier.rs"), ("verify_merkle_proof", "fri/src/merkle_tree.rs"), ("check_shape", "fri/src/verifier.rs")],
     ["verify"])
prop("F04", "Merkle trees authenticate each leaf at its own position",
     "A tree of any number of leaves, padded with zeros to a power of two, gives for every position a path that verifies and carries that leaf and the tree's root. "
     "A path with another leaf, position, sibling, length or root does not verify, and trees of different leaves have different roots.",
     ["inputs"], "every leaf list of every length, every position, every change of a path",
     "One path of one four-leaf tree is verified.",
     ["fri/src/merkle_tree.rs", "fri/src/hasher.rs"],
     [("MerkleTree::new / generate_proof", "fri/src/merkle_tree.rs"), ("verify_merkle_proof", "fri/src/merkle_tree.rs")],
     ["MerkleTree", "verify_merkle_proof"],
     hook="--cfg zkp_verif exposes the private Merkle module")
prop("F05", "Transcript challenges are a function of all absorbed messages",
     "In every transcript (FRI, folding), challenges are determined by the initial value and the whole ordered sequence of absorbed messages, any difference in one message, its order or count changes every later challenge, and the same history always gives the same challenges. "
     "Challenges of one squeeze differ from each other, a shorter squeeze is a prefix of a longer one, and squeezing again without absorbing is refused.",
     ["histories", "inputs"], "every sequence of absorb and squeeze operations, every message",
     "Tests run one or two fixed sequences.",
     ["fri/src/fiat_shamir/transcript.rs", "nova/src/transcript.rs"],
     [("digest / generate_*", "fri/src/fiat_shamir/transcript.rs"), ("feed / feed_scalar_num / generate_challenges", "nova/src/transcript.rs")],
     ["Transcript"], state=[("data", "running digest of the history", "transcript"), ("generated", "squeezed since the last absorb", "transcript")])
prop("F06", "The Goldilocks field is arithmetic modulo 2^64 - 2^32 + 1",
     "Field arithmetic, inversion and conversion agree with integer arithmetic modulo 2^64 - 2^32 + 1, the declared generator generates the whole multiplicative group, and the evaluation domains of every power-of-two size up to 2^32 have roots of unity of exactly that order.",
     ["inputs", "configurations"], "every pair of field elements, every domain size",
     "No test checks the field.",
     ["fri/src/fields/goldilocks.rs"], [("FqConfig modulus and generator", "fri/src/fields/goldilocks.rs")], ["Fq"])

# ---------------------------------------------------------------- Nova
prop("N01", "R1CS satisfaction accepts exactly the satisfied committed instances",
     "The satisfaction check accepts an instance and witness exactly when the relaxed equation Az*Bz = u*Cz + E holds in every constraint, the lengths match the structure, and the instance's commitments are those of the witness and error vector. "
     "The linear algebra it rests on agrees with the definitions for every shape.",
     ["inputs", "programs"], "every R1CS of every shape, every instance and witness, satisfied or violated in a single constraint, entry or commitment",
     "One fixed 4x6 system with an honest witness is checked.",
     ["nova/src/r1cs/mod.rs", "nova/src/utils.rs"], [("is_r1cs_satisfied", "nova/src/r1cs/mod.rs"), ("matrix and vector helpers", "nova/src/utils.rs")],
     ["is_r1cs_satisfied", "utils"])
prop("N02", "Folding satisfied instances gives a satisfied instance",
     "Folding two satisfied relaxed instance-witness pairs of one structure gives a satisfied pair, again and again through any tree or chain of foldings, with fresh, relaxed or trivial pairs. "
     "The verifier's folded instance equals the prover's, and the folded values are the stated linear combinations.",
     ["histories", "inputs", "programs"], "every structure (any numbers of constraints, variables and public values), every sequence of foldings",
     "One fold of two fixed witnesses is tested.",
     ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs"],
     [("compute_t / fold_witness / fold_instance", "nova/src/nifs/mod.rs")], ["NIFS::prover", "NIFS::verifier", "is_r1cs_satisfied"])
prop("N03", "Folding cannot make an unsatisfied pair look satisfied",
     "If either of two pairs violates the structure, or its instance does not commit to its witness, the folded pair is not satisfied, and stays unsatisfied however many satisfied pairs are folded in afterwards.",
     ["histories", "inputs", "programs"], "every violation in either operand at any step of a folding history",
     "No test folds an unsatisfied pair.",
     ["nova/src/nifs/mod.rs", "nova/src/nifs/nifs_prover.rs", "nova/src/r1cs/mod.rs"],
     [("cross term", "nova/src/nifs/mod.rs"), ("challenge r", "nova/src/nifs/nifs_prover.rs")], ["NIFS::prover", "is_r1cs_satisfied"])
prop("N04", "Folding proofs verify when honest and only then",
     "An honest folding proof verifies against the two instances, the folded instance and the cross-term commitment; it is rejected when any of them, the challenge, the opening point, an opened value or an opening witness is changed, or when the openings of the two vectors are exchanged.",
     ["inputs", "histories"], "every honest folding and every change of any part of statement or proof",
     "One honest proof is verified.",
     ["nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs"],
     [("verify / verify_challenge / verify_opening", "nova/src/nifs/nifs_verifier.rs")], ["NIFS::prove", "NIFS::verify"])
prop("N05", "Honest incremental computation is accepted at every step with the right state",
     "Running the step function any number of times and proving each step, every step runs and verifies, the state after k steps is the step function applied k times to the initial state, and each step's public hash is the one of its step number, initial state, current state and running instance.",
     ["histories", "programs", "inputs"], "every step function, structure, witness sequence and number of steps",
     "One function and one four-step history is run, with one structure.",
     ["nova/src/ivc/mod.rs", "nova/src/ivc/ivc_prover.rs", "nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs"],
     [("AugmentedCircuit::run / next_step", "nova/src/circuit.rs"), ("IVC::prove / IVC::verify", "nova/src/ivc")],
     ["run", "next_step", "prove", "verify"], state=[("i, z_i, h_i", "step counter, state and public hash", "nova/src/circuit.rs")])
prop("N06", "Incremental verification and steps reject every false claim",
     "The verifier rejects a step's proof for another step number, initial or current state, running instance or folding, a replayed or earlier proof, a fresh instance with a non-zero error commitment, a scalar other than one or a wrong public hash, and missing parts. "
     "The step circuit refuses such a fresh instance, another running instance, counter or state than its hash stands for, and missing parts, and then does not advance.",
     ["histories", "inputs", "fault_sequences"], "every history, every step, every change of the claim or of any field of the proof, and every replay",
     "Five tests change one thing each in a one- or two-step history.",
     ["nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs"],
     [("verify steps 2 to 5", "nova/src/ivc/ivc_verifier.rs"), ("run checks", "nova/src/circuit.rs")], ["IVC::verify", "AugmentedCircuit::run"])
prop("N07", "Folding challenge and step hash bind everything they stand for",
     "The folding challenge changes when any commitment, scalar or public value of either instance or the cross-term commitment changes, and prover, verifier and step circuit derive the same one. "
     "The step hash changes when the step number, initial state, current state or any field of the running instance changes.",
     ["inputs", "configurations"], "every pair of instances and every single change in one of them, every digest",
     "No test compares challenges or hashes of different inputs.",
     ["nova/src/nifs/nifs_prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/circuit.rs", "nova/src/transcript.rs"],
     [("challenge derivation", "nova/src/nifs/nifs_prover.rs"), ("hash_io", "nova/src/circuit.rs")], ["NIFS::prover", "NIFS::verify", "hash_io"])
prop("N08", "The trivial pair satisfies every structure and is neutral in folding",
     "The trivial instance-witness pair has zero vectors, zero scalar and commitments to zero, satisfies every structure of its size, and folding it with a satisfied pair gives a satisfied pair.",
     ["programs", "configurations"], "every structure and size",
     "The trivial pair is only used as a starting value; it is never checked.",
     ["nova/src/r1cs/mod.rs"], [("create_trivial_pair", "nova/src/r1cs/mod.rs")], ["create_trivial_pair", "is_r1cs_satisfied"])

prop("N09", "A fresh instance stands for exactly its witness and public values",
     "A witness made from values has those values and a zero error vector of the asked length. The instance committed from it and public values has scalar one, those public values, and the commitments of its witness and error vectors, so the pair passes the satisfaction check exactly when the values satisfy every constraint of the plain R1CS and fit its lengths.",
     ["programs", "inputs"], "every structure, witness and public values",
     "Tests commit to a few witnesses of one structure.",
     ["nova/src/r1cs/mod.rs"], [("FWitness::new, commit", "nova/src/r1cs/mod.rs")], ["FWitness::new", "FWitness::commit", "is_r1cs_satisfied"])

# ---------------------------------------------------------------- robustness
prop("S01", "Verdicts and proofs do not depend on what was done before",
     "Every verifier (KZG single and batch, PLONK, FRI, folding) gives the same right verdict on the same question however often it is asked, whatever was proved or verified before or meanwhile in other threads, and on shared setups, circuits and schemes. "
     "Commitments, openings, FRI proofs and folding proofs of the same inputs are the same each time, and each new PLONK proof verifies.",
     ["histories", "schedules", "inputs"], "every interleaving of right and wrong questions and of proving, in one or several threads",
     "Tests ask each question once, in one order, on objects made for it.",
     ["kzg/src/scheme.rs", "plonk/src/verifier.rs", "plonk/src/prover.rs", "fri/src/verifier.rs", "fri/src/prover.rs", "nova/src/nifs/nifs_verifier.rs", "nova/src/nifs/nifs_prover.rs"],
     [("verify / batch_verify", "kzg/src/scheme.rs"), ("verify", "plonk/src/verifier.rs"), ("verify", "fri/src/verifier.rs"), ("verify", "nova/src/nifs/nifs_verifier.rs")],
     ["verdicts", "proofs"])
prop("V01", "The FRI verifier answers every proof without crashing",
     "Whatever the proof it is given contains - any list lengths, sizes, counts, positions and values - the FRI verifier returns acceptance or an error, and does not crash, hang or use memory out of proportion to the proof.",
     ["inputs", "fault_sequences"], "every proof value that can be constructed",
     "Tests verify well-formed proofs only.",
     ["fri/src/verifier.rs"], [("check_shape", "fri/src/verifier.rs")], ["verify"])
prop("V02", "The PLONK verifier answers every proof without crashing",
     "Whatever commitments, evaluations, challenge and degree the proof it is given contains, including identity points, zeros and extreme degrees, the PLONK verifier returns acceptance or an error and does not crash.",
     ["inputs", "fault_sequences"], "every proof value for every compiled circuit",
     "Tests verify well-formed proofs only.",
     ["plonk/src/verifier.rs"], [("verify", "plonk/src/verifier.rs")], ["verify"])
prop("V03", "The folding and incremental verifiers answer every proof without crashing",
     "Whatever instances, commitments, public values, missing parts and openings they are given, the folding verifier, the incremental verifier, the step circuit and the satisfaction check return acceptance or an error and do not crash.",
     ["inputs", "fault_sequences"], "every proof, instance and witness value, including empty and over-long vectors within the reference string",
     "Tests verify well-formed proofs only.",
     ["nova/src/nifs/nifs_verifier.rs", "nova/src/ivc/ivc_verifier.rs", "nova/src/circuit.rs", "nova/src/r1cs/mod.rs"],
     [("verify", "nova/src/nifs/nifs_verifier.rs"), ("IVC::verify", "nova/src/ivc/ivc_verifier.rs"), ("run", "nova/src/circuit.rs")],
     ["NIFS::verify", "IVC::verify", "AugmentedCircuit::run", "is_r1cs_satisfied"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
