#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the file stays in step with the claims)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
            "observe_at": observe, "hook_needed": False}})

p("C01", "Base-field arithmetic is exact and canonical for every operand",
  "Addition, doubling, subtraction, negation, multiplication, squaring, exponentiation and inversion in the 64-bit prime field return the mathematically exact residue for every pair of elements, always in canonical reduced form. Converting an integer to an element and back is the identity on canonical integers, and non-canonical integers are rejected, never silently wrapped. Every non-zero element has an inverse.",
  ["inputs"], "all pairs of 64-bit representations below the modulus, including values next to 0, 2^32, 2^63 and the modulus, and all exponents",
  "the unit tests and proptests sample a few hundred operands; a wrong carry or borrow correction shows for about one pair in 2^32",
  ["fields/src/field_gl.rs"], [("add_assign / sub_assign / negate / double / mul_assign / square", "fields/src/field_gl.rs Field for Fr"), ("mont_reduce, add_nocarry, reduce", "fields/src/field_gl.rs"), ("from_repr / into_repr / exp / inverse", "fields/src/field_gl.rs")],
  "return values of the public field operations")
p("C02", "Cubic-extension arithmetic is the field GF(p)[x]/(x^3-x-1)",
  "Every operation of the degree-three extension (sum, difference, product, negation, square, inverse, division, exponentiation, batch inversion, scalar and mixed base/extension operands, and their in-place forms) equals the operation in GF(p)[x]/(x^3-x-1). A base-field element behaves exactly like the extension element with zero higher coefficients, whichever side it appears on; equality, ordering and zero tests agree with the canonical value.",
  ["inputs"], "all coefficient triples and all combinations of base and extension operands", "tests use a handful of literal elements, mostly of one dimension",
  ["starky/src/f3g.rs", "starky/src/traits.rs"], [("Add/Sub/Mul/Neg/Div impls", "starky/src/f3g.rs"), ("inv, square, exp, batch_inverse, mul_scalar", "starky/src/f3g.rs")], "results of operators on extension elements")
p("C03", "Quintic-extension arithmetic is the field GF(p)[x]/(x^5-3)",
  "Every operation of the degree-five extension (sum, difference, product, negation, square, inverse, division, mixed base/extension operands, in-place forms) equals the operation in GF(p)[x]/(x^5-3). A base-field element behaves exactly like the extension element with zero higher coefficients; equality, ordering and zero tests agree with the canonical value.",
  ["inputs"], "all coefficient quintuples and operand dimension combinations", "tests use a handful of literal elements", ["starky/src/f5g.rs"],
  [("Add/Sub/Mul/Neg/Div impls", "starky/src/f5g.rs"), ("inv, square, frobenius maps", "starky/src/f5g.rs")], "results of operators on extension elements")
p("C04", "Poseidon over the 64-bit field is the specified permutation",
  "The fast permutation used for hashing equals, for every 12-element state, the plain Poseidon permutation (4 full, 22 partial, 4 full rounds, x^7 S-box, fixed MDS matrix and round constants), and the digest is made of the first outputs of that permutation applied to the input block followed by the capacity. No input element or capacity element is ignored.",
  ["inputs"], "all input blocks and capacities", "three known-answer vectors cover only single states; an error confined to one lane or round constant used for rare inputs is only caught if a vector reaches it",
  ["starky/src/poseidon_opt.rs", "starky/src/poseidon_constants_opt.rs"], [("Poseidon::hash / hash_inner", "starky/src/poseidon_opt.rs"), ("C, M, P, S tables", "starky/src/poseidon_constants_opt.rs")], "digest returned for a block and capacity")
p("C05", "The optimised Poseidon over BN254/BLS12-381 equals the plain one for every width",
  "For each curve scalar field and every supported input width, the optimised permutation returns the same result as the plain round-by-round Poseidon permutation with the published round numbers, for every input and initial state. Unsupported widths are rejected with an error rather than hashed.",
  ["inputs", "configurations"], "all supported widths (1..16 inputs), all field inputs, all initial states and output counts", "tests compare a few fixed inputs for three or four widths",
  ["starky/src/poseidon_bn128.rs", "starky/src/poseidon_bn128_opt.rs", "starky/src/poseidon_bls12381.rs", "starky/src/poseidon_bls12381_opt.rs"],
  [("Poseidon::hash / hash_ex", "starky/src/poseidon_bn128_opt.rs, starky/src/poseidon_bls12381_opt.rs"), ("constants tables", "starky/src/poseidon_*_constants*.rs")], "hash outputs")
p("C06", "The leaf hash covers every element in order",
  "The row/leaf hash over the curve fields packs every element of the input, in order, into the hashed blocks, distinct rows of equal length are never packed into the same blocks, and rows longer than one block are chained through the previous block's digest. Hashing one flat row and hashing the same row given in pieces agree.",
  ["inputs"], "all row lengths and contents", "tests hash rows of a few fixed lengths", ["starky/src/linearhash_bn128.rs", "starky/src/linearhash_bls12381.rs"],
  [("hash_element_matrix / hash_element_array / inner_hash_block", "starky/src/linearhash_bn128.rs, starky/src/linearhash_bls12381.rs")], "digest of a row")
p("C07", "A Merkle opening is accepted only for the committed leaf at its index",
  "For every tree a commitment scheme builds, the opening of each leaf verifies against the root, and verification recomputes the root from the supplied leaf values, the claimed index and every sibling supplied, so that an opening whose leaf, index or path was altered does not verify, nor one with an index outside the tree or the wrong number of siblings. The root depends on every leaf of the tree.",
  ["inputs"], "all tree heights and widths, indexes, leaf values and altered openings", "tests only check that honest openings verify, never that altered ones fail",
  ["starky/src/merklehash.rs", "starky/src/merklehash_bn128.rs", "starky/src/merklehash_bls12381.rs"],
  [("merkle_gen_merkle_proof / merkle_calculate_root_from_proof / verify_group_proof", "starky/src/merklehash*.rs"), ("merkelize, do_merklize_level", "starky/src/merklehash*.rs")], "verify_group_proof result, root")
p("C08", "Every transcript challenge binds everything absorbed before it",
  "Each challenge, challenge bit and query index drawn from a Fiat-Shamir transcript is a function of every element absorbed before the draw, in order, and of the draws before it; absorbing anything discards output that was computed before and not yet drawn. Extension challenges take all of their coefficients from fresh output. Query indexes have exactly the requested number of bits and the requested count.",
  ["histories", "inputs"], "all interleavings of absorb and draw calls of any length", "tests run a few fixed put/get scripts with expected values",
  ["starky/src/transcript.rs", "starky/src/transcript_bn128.rs", "starky/src/transcript_bls12381.rs"],
  [("put / add_1 / update_state / get_field / get_fields1 / get_permutations", "starky/src/transcript*.rs")], "challenges returned by the transcript",
  [("pending, out, out3, state", "absorb buffer, unread outputs, sponge state", "starky/src/transcript*.rs")])
p("C09", "Serial and parallel transforms compute the same discrete Fourier transform",
  "For every power-of-two size, column count and worker split, the forward transform evaluates the coefficient vector on the subgroup of that size in natural order, the inverse transform undoes it, and low-degree extension evaluates the interpolant of the input on the shifted larger subgroup. The multi-column block-parallel implementation agrees with the serial one.",
  ["inputs", "configurations"], "all sizes, column counts, thread counts and coefficient vectors", "tests compare a few random vectors at two or three sizes on this machine's core count",
  ["starky/src/fft.rs", "starky/src/fft_p.rs", "starky/src/fft_worker.rs", "starky/src/polutils.rs"],
  [("FFT::fft / ifft", "starky/src/fft.rs"), ("fft / ifft / interpolate, bit_reverse, transpose", "starky/src/fft_p.rs"), ("fft_block, interpolate_prepare_block", "starky/src/fft_worker.rs")], "transformed buffers")
p("C10", "Field constants describe the groups they are used for",
  "The generator constants, roots of unity, coset shift, inverse two and identity-column multipliers are consistent: each root has exactly its stated order and squares to the next, the shift lies outside every evaluation subgroup, and the copy-constraint multipliers give pairwise disjoint cosets.",
  ["configurations"], "all subgroup sizes 2^0..2^32 and numbers of connected columns", "tests use only the sizes of the sample circuits",
  ["starky/src/constant.rs", "starky/src/helper.rs", "fields/src/field_gl.rs"], [("MG roots, SHIFT, get_ks", "starky/src/constant.rs, starky/src/helper.rs"), ("ROOT_OF_UNITY, GENERATOR, S, R, R2, INV", "fields/src/field_gl.rs")], "values used by transforms and constraint generation")
p("C11", "Prover and verifier run the same Fiat-Shamir schedule",
  "The verifier derives every challenge from the same sequence of absorbed values and draws as the prover: public inputs, then each stage's commitment before the challenges of the next stage, then the evaluations, then the folding rounds. No challenge is drawn before the commitment it must bind has been absorbed.",
  ["programs", "inputs"], "all circuits and configurations", "end-to-end tests (not even buildable offline) only run sample circuits and would not notice a dropped absorption made on both sides",
  ["starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/fri.rs"], [("stark_gen", "starky/src/stark_gen.rs"), ("stark_verify", "starky/src/stark_verify.rs"), ("FRI::prove / verify", "starky/src/fri.rs")], "challenge derivation calls")
p("C12", "Proof acceptance requires every check",
  "The verifier returns acceptance only on paths where the constraint identity at the out-of-domain point, the openings of every committed tree for every query, and the low-degree test with all folding layers and the final polynomial were each checked and their failure rejects. A proof whose openings, paths or layers have another shape than the configuration demands is rejected. A proof that fails its self-check is never written out as valid.",
  ["inputs"], "all proofs", "tests verify honest proofs only", ["starky/src/stark_verify.rs", "starky/src/fri.rs", "starky/src/prove.rs"],
  [("stark_verify", "starky/src/stark_verify.rs"), ("FRI::verify", "starky/src/fri.rs"), ("prove self-check", "starky/src/prove.rs")], "returned verdict")
p("C13", "Every declared constraint enters the composed constraint polynomial",
  "Every polynomial identity, lookup, permutation and connection argument declared by the circuit contributes its own term, separated by a fresh power of the composition challenge, to the polynomial whose divisibility is proved; the verifier's identity is generated from the same composition. The quotient has room for the degree of that polynomial, or the circuit is refused; intermediate columns, argument columns and calculated public values hold what their constraints demand.",
  ["programs"], "all circuits", "sample circuits use few arguments and honest witnesses never reveal a missing constraint", ["starky/src/starkinfo.rs", "starky/src/starkinfo_cp_prover.rs", "starky/src/starkinfo_cp_ver.rs", "starky/src/starkinfo_Z.rs"],
  [("generate_constraint_polynomial", "starky/src/starkinfo_cp_prover.rs"), ("generate_step3 / permutation, lookup, connection builders", "starky/src/starkinfo_Z.rs")], "generated program")
p("C14", "Algebraic expressions keep their operands, order and degree",
  "Building an expression node records exactly the given operands in the given order with the operation asked for; evaluating signed decimal constants of a circuit description yields the residue of the written integer, negative values included.",
  ["inputs", "programs"], "all expressions and all integer literals", "tests parse sample circuits whose literals are small", ["starky/src/expressionops.rs", "starky/src/types.rs", "starky/src/helper.rs"],
  [("ExpressionOps constructors", "starky/src/expressionops.rs"), ("log2_any, pretty numbers", "starky/src/helper.rs")], "expression structure and parsed values")
p("C15", "Digest encodings are lossless",
  "Converting a curve-field scalar to a four-limb digest and back, plain or Montgomery, preserves the value for every scalar and keeps limb order; serialising a digest or an extension element and reading it back yields the same value and kind.",
  ["inputs"], "all scalars, digests and extension elements", "round-trip tests use three literals", ["starky/src/digest.rs", "starky/src/serializer.rs"],
  [("ElementDigest conversions", "starky/src/digest.rs"), ("Serialize/Deserialize", "starky/src/serializer.rs")], "converted and serialised values")
p("C16", "Joining two proof inputs keeps both, under distinct names",
  "Joining two recursive-proof input files yields one document in which every entry of the first file appears under its first-slot name and every entry of the second under its second-slot name, with values unchanged and nothing dropped or overwritten.",
  ["inputs"], "all pairs of proof documents", "one sample pair", ["starky/src/zkin_join.rs"], [("join_zkin", "starky/src/zkin_join.rs")], "joined document")
p("C17", "Malformed constraint-system files are rejected, valid ones read faithfully",
  "Reading a binary constraint-system file returns each header field, constraint term and wire mapping exactly as stored, whatever order the sections come in; a wrong magic number, version, field size, or a modulus other than that of the requested field is an error.",
  ["inputs"], "all byte strings", "tests read a few well-formed files", ["algebraic-gpu/src/r1cs_file.rs", "algebraic/src/r1cs_file.rs"], [("R1CSFile::from_reader, read_header, read_constraints, read_map", "algebraic-gpu/src/r1cs_file.rs, algebraic/src/r1cs_file.rs")], "parsed structure or error")
p("C18", "Witness files are read completely or refused",
  "Reading a witness file returns exactly the number of elements announced in its header, each in its stored position with its stored value; a truncated file, a non-canonical element, a wrong magic number, version, section count, section size, or a modulus other than that of the requested field is an error.",
  ["inputs"], "all byte strings", "tests read well-formed files only", ["algebraic-gpu/src/reader.rs", "algebraic/src/reader.rs"], [("load_witness_from_bin_reader", "algebraic-gpu/src/reader.rs, algebraic/src/reader.rs")], "witness vector or error")
p("C19", "Circuit synthesis enforces every constraint over the declared wires",
  "Synthesising a circuit from its constraint system allocates the public wires first and in order, then every remaining wire, and enforces each rank-one constraint with its own A, B and C sides; the public inputs reported are the values of exactly the public wires, in order.",
  ["programs", "inputs"], "all constraint systems and witnesses", "tests synthesise a few toy circuits with satisfying witnesses", ["algebraic-gpu/src/circom_circuit.rs", "algebraic/src/circom_circuit.rs"], [("CircomCircuit::synthesize / get_public_inputs", "algebraic-gpu/src/circom_circuit.rs, algebraic/src/circom_circuit.rs")], "constraints emitted")
p("C20", "Witness-calculator number encodings are exact",
  "Converting between big integers and the calculator's fixed-width word arrays preserves the value and word order in both directions, signal names are hashed with 64-bit FNV-1a, and the binary witness written carries the header and every element in little-endian order, ready to be read back unchanged.",
  ["inputs"], "all integers of the field size, all signal names", "three end-to-end samples", ["algebraic-gpu/src/witness/witness_calculator.rs", "algebraic/src/witness/witness_calculator.rs"],
  [("to_array32 / from_array32 / fnv / save_witness_to_bin_file", "algebraic-gpu/src/witness/witness_calculator.rs, algebraic/src/witness/witness_calculator.rs")], "words, hashes and bytes produced")
p("C21", "The compressor's writer and reader agree on one layout",
  "The execution file written at setup is read back at proving time with the same header, the same addition records and the same column-major signal map, so that every committed cell receives the wire the setup assigned to it and unassigned cells are zero. Column and word files written are read back with every value at its place, and truncated ones are refused.",
  ["programs", "inputs"], "all circuits", "the end-to-end test is not buildable offline and uses one circuit", ["recursion/src/compressor12/compressor12_setup.rs", "recursion/src/compressor12/compressor12_exec.rs", "recursion/src/io_utils.rs"],
  [("write_exec_file", "recursion/src/compressor12/compressor12_setup.rs"), ("read_exec_file / exec", "recursion/src/compressor12/compressor12_exec.rs"), ("read_vec_from_file / write_vec_to_file", "recursion/src/io_utils.rs")], "file contents and committed columns")
p("C22", "The rendered compressor circuit constrains what its gates mean",
  "The generated arithmetisation contains, for every row kind, the full set of constraints: every S-box output through the complete mixing matrix, the universal gate over each wire triple, the extension multiply-add, the folding and evaluation gates, every public wire, and one copy-constraint over all twelve wire columns.",
  ["configurations"], "all sizes and numbers of publics", "tests only check that the text compiles", ["recursion/src/compressor12/compressor12_pil.rs", "recursion/src/compressor12/plonk_setup.rs"], [("render", "recursion/src/compressor12/compressor12_pil.rs"), ("plonk_setup_fixed_pols", "recursion/src/compressor12/plonk_setup.rs")], "generated text")
p("C23", "Rank-one constraints become equivalent gate constraints",
  "Translating a rank-one constraint A*B=C into gates preserves its solution set, whichever of A, B and C is constant, a single wire or a longer combination, and every public wire is exposed exactly once.",
  ["programs"], "all constraint systems", "no test covers constant sides", ["recursion/src/r1cs2plonk.rs", "recursion/src/compressor12/plonk_setup.rs"], [("r1cs2plonk process / reduce / join", "recursion/src/r1cs2plonk.rs")], "gates produced")
p("C24", "Verification data crosses the SNARK bridge intact and validated",
  "Proofs, verifying keys and public inputs exchanged as JSON are encoded and decoded with each point under its own key and each coordinate in its own place, so that encoding followed by decoding is the identity; points that are off the curve or outside the prime-order subgroup, and truncated binary data, are rejected with an error before use.",
  ["inputs"], "all proofs, keys and input strings", "one proof file is round-tripped", ["recursion-gnark/ffi/src/json_util.rs", "recursion-gnark/ffi/src/traits.rs", "recursion-gnark/ffi/src/verifier.rs", "recursion-gnark/ffi/src/proof.rs"],
  [("serialize/deserialize helpers", "recursion-gnark/ffi/src/traits.rs"), ("json structs", "recursion-gnark/ffi/src/json_util.rs")], "JSON documents and decoded points")
p("C25", "Groth16 commands use one curve throughout and verify what they were given",
  "For each supported curve, setup, proof generation, verification and verifier export decode and encode every artefact with that curve's types and refuse any other curve name; a failed pairing check is reported as an error, not as success.",
  ["configurations", "inputs"], "all curve names, files", "tests cover one run per curve", ["groth16/src/api.rs", "groth16/src/json_utils.rs"], [("groth16_setup / groth16_prove / groth16_verify / generate_verifier", "groth16/src/api.rs")], "files written, verdict")
p("C26", "The exported Solidity verifier embeds exactly the verifying key",
  "Every placeholder of the verifier contract template is replaced by the verifying-key point of that name with coordinates in the order the contract's precompile calls expect, including one entry per public input.",
  ["inputs"], "all verifying keys", "no test deploys the contract", ["groth16/src/api.rs", "groth16/src/template.rs"], [("generate_verifier", "groth16/src/api.rs"), ("template", "groth16/src/template.rs")], "contract text")
p("C27", "Errors are never swallowed",
  "Every failure reported by a lower layer (I/O, parsing, serialisation, cryptographic checks) reaches the caller as an error or stops the program: no failure value is discarded and processing continued as if it had succeeded; verdicts of checks are acted upon, buffered output is flushed, and an abort demanded by a callee stops the computation.",
  ["fault_sequences", "inputs"], "every call that can fail, in every component", "tests exercise the success paths", ["starky/src", "fields/src", "algebraic/src", "algebraic-gpu/src", "groth16/src", "recursion/src", "recursion-gnark/ffi", "zkvm/src", "zkit/src", "dsl_compile/src"],
  [("all call sites whose callee returns a Result", "workspace")], "returned errors")
p("C28", "Outputs are deterministic functions of inputs",
  "Generated circuits, keys-independent setup data, commitments, proofs' Fiat-Shamir inputs and serialised artefacts never depend on hash-map iteration order, time, addresses, or unseeded randomness, outside the places documented to be randomised.",
  ["schedules", "inputs"], "all runs, thread schedules and hash seeds", "a single run cannot reveal order dependence", ["starky/src", "recursion/src", "algebraic-gpu/src", "fields/src"], [("all iterations over unordered containers and all entropy sources", "workspace")], "artefacts produced")
p("C29", "Shared caches cannot deadlock or be corrupted by concurrent use",
  "Functions that use process-wide shared state acquire each lock at most once along any call path and in one global order, never call back into themselves while holding it, never panic inside a critical section whose poisoning others would trip over, and never write shared memory outside a lock or disjoint partition.",
  ["schedules"], "all thread interleavings", "tests run a single schedule", ["starky/src/fft_p.rs", "starky/src/constant.rs", "starky/src/stark_gen.rs"], [("bit-reversal cache lock", "starky/src/fft_p.rs"), ("parallel writers", "starky/src/stark_gen.rs, starky/src/polsarray.rs")], "progress and results under concurrency")
p("C30", "Each command-line option reaches the parameter it names",
  "Every subcommand passes each of its options to the library parameter with that meaning, in every subcommand, and an error returned by the library makes the process fail.",
  ["configurations"], "all subcommands and options", "no test runs the binary", ["zkit/src/main.rs"], [("main dispatch", "zkit/src/main.rs")], "library calls and exit status")
p("C31", "Untrusted proofs and files never crash the process",
  "Decoding a proof, key, witness or constraint file supplied from outside, and verifying it, ends in a result or an error for every byte string; it does not panic, loop forever or allocate unboundedly.",
  ["inputs"], "all byte strings", "tests feed valid files", ["algebraic-gpu/src", "starky/src/serializer.rs", "starky/src/polsarray.rs", "recursion-gnark/ffi/src"], [("decoders", "algebraic-gpu/src/reader.rs, algebraic-gpu/src/r1cs_file.rs, recursion-gnark/ffi/src/traits.rs")], "process status")
p("C32", "Vectorised arithmetic equals scalar arithmetic",
  "The AVX2 and AVX-512 field operations, Poseidon permutations and their constant tables compute lane by lane exactly what the scalar code computes, for every lane value including those next to the modulus and to 2^63. Row hashes and Merkle trees built with them have the digests of the scalar build.",
  ["inputs", "configurations"], "all lane values, all instruction-set configurations", "compiled only with special flags; tests sample random lanes", ["fields/src/arch", "starky/src/arch", "starky/src/poseidon_constants_avx2.rs", "starky/src/poseidon_constants_avx512.rs", "starky/src/linearhash.rs", "starky/src/merklehash.rs"],
  [("packed field operations", "fields/src/arch/x86_64"), ("packed permutation", "starky/src/arch/x86_64")], "lane results")
p("C33", "The batched opening polynomial binds every committed column and every opened value",
  "The polynomial tested for low degree contains every committed column, quotient pieces included, with a power of the batching challenges of its own, and for every opened value the quotient (column - value) / (X - point) at the value's own point, again separately. Prover and verifier compute the same polynomial, from the position at which each column is committed; positions do not overlap.",
  ["inputs"], "all circuits", "tests do not compile this code; an opened value left out lets a prover claim anything for it while honest proofs still verify", ["starky/src/starkinfo_fri_prover.rs", "starky/src/starkinfo_fri_ver.rs", "starky/src/starkinfo_map.rs"],
  [("generate_fri_polynomial", "starky/src/starkinfo_fri_prover.rs"), ("generate_fri_verifier", "starky/src/starkinfo_fri_ver.rs"), ("map, fix_prover_code", "starky/src/starkinfo_map.rs")], "step52ns and verifier_query_code of the program")
p("C34", "Honest proofs are accepted and proofs for violated traces are not",
  "For every circuit the prover supports (arithmetic identities, public inputs, next-row references, intermediate columns, lookups, permutations, copy constraints and their combinations) a proof made from a trace that satisfies the constraints passes verification, whatever the cells and challenges; a proof made from a trace with a cell that violates them is not accepted (except with negligible probability over the challenges).",
  ["programs", "inputs", "configurations"], "all circuits, traces and work splits", "the tests that are built never run the prover or the verifier; end-to-end examples try two or three honest traces",
  ["starky/src/stark_setup.rs", "starky/src/stark_gen.rs", "starky/src/stark_verify.rs", "starky/src/interpreter.rs", "starky/src/fri.rs", "starky/src/polsarray.rs", "starky/src/fft_p.rs"],
  [("StarkSetup::new", "starky/src/stark_setup.rs"), ("StarkProof::stark_gen, calculate_h1h2, calculate_Z, extend_and_merkelize", "starky/src/stark_gen.rs"), ("compile_code", "starky/src/interpreter.rs"), ("stark_verify", "starky/src/stark_verify.rs")], "result of stark_verify on the proof")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
