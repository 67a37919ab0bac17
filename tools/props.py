HOOKS = ["1c6f416", "9235914", "36eb8f5", "3b9cdd9", "bacf4be", "1731c88", "3ae6e63"]
p("P01", "Evaluation domains and FFTs convert exactly between representations",
  "For every size, thread count and input vector, the FFT returns exactly the discrete Fourier transform, and an evaluation domain converts between Lagrange, coefficient and extended-coset representations without changing the polynomial, for every constraint degree. Division by the vanishing polynomial, rotations (by any signed amount) and Lagrange-basis evaluations agree with their mathematical definitions.",
  ["inputs", "configurations"], "every vector of field elements (and of group elements for the FFT), every rotation, every domain size / constraint degree / number of worker threads within the bounds",
  "Tests compare two implementations on a few random vectors; chunking depends on thread count, size and degree, and a wrong twiddle or coset factor can cancel in a round trip.",
  ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly/domain.rs", "halo2_proofs/src/poly.rs"],
  [("butterfly arithmetic and recursion", "arithmetic.rs best_fft"), ("coset distribution, vanishing inverse table", "poly/domain.rs EvaluationDomain::new, distribute_powers_zeta, divide_by_vanishing_poly"), ("rotation", "poly/domain.rs rotate_omega, rotate_extended; poly.rs rotate")])
p("P03", "Polynomial helper routines compute their mathematical definitions",
  "Polynomial evaluation, inner product, division by a linear factor, interpolation through distinct points, polynomial addition, scaling, indexing and iteration, and the helper that splits a slice over threads, return exactly what their definitions say for every input and every number of worker threads.",
  ["inputs", "configurations"], "every vector of coefficients, point and scalar up to the stated lengths; pools of 1 to 8 threads",
  "Tests use a handful of random vectors at one size and thread count; chunk boundaries and degenerate lengths are not reached.",
  ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly.rs"],
  [("chunked evaluation", "arithmetic.rs eval_polynomial"), ("synthetic division", "arithmetic.rs kate_division"), ("interpolation", "arithmetic.rs lagrange_interpolate"), ("chunk starts", "arithmetic.rs parallelize"), ("operators", "poly.rs")])
p("P04", "Deferred fractions behave exactly like the field elements they stand for",
  "A value kept as zero, as a plain element or as a fraction (including one with a zero denominator, which means zero) gives the same results under addition, subtraction, multiplication, negation, doubling, squaring, inversion, equality and evaluation as the field element it denotes, with inversion of zero giving zero. Evaluating whole columns of such values with shared inversions gives exactly the same elements as evaluating each on its own.",
  ["inputs"], "every pair of representations with every field contents, including zero numerators and denominators; every column batch within the bounds",
  "The existing property test samples random values and rarely meets zero denominators inside batches or in both operands at once.",
  ["halo2_proofs/src/plonk/assigned.rs", "halo2_proofs/src/poly.rs"],
  [("operator case analysis", "plonk/assigned.rs"), ("batch inversion", "poly.rs batch_invert_assigned")], hook="verif::batch_invert_assigned")
p("P05", "Polynomial expressions evaluate to the same function in every basis and chunking",
  "A polynomial expression (sums, products, scalings, rotations, linear terms, constants, distributed powers) evaluated over the coefficient, Lagrange or extended domain equals the pointwise mathematical result, for every expression, every rotation and every number of worker threads, and is never rejected.",
  ["inputs", "programs", "configurations"], "every value of the polynomials, scalars and bases; expressions of every node kind and of composed shapes; domain sizes and thread counts within the bounds",
  "The unit test covers one short expression per basis; chunk-length and thread-count dependent paths are not run (one panicked before being repaired).",
  ["halo2_proofs/src/poly/evaluator.rs"], [("chunk-wise recursive evaluation", "poly/evaluator.rs Evaluator::evaluate")], hook="verif::VAst, verif::evaluate_*")
p("P24", "Unknown values propagate and known values are preserved",
  "An optional witness value is unknown exactly when some value it was computed from is unknown, and is otherwise the exact result of the operation, for mapping, zipping, arithmetic, assertions, transposition and collecting. Unknown values never cause assertions or error checks to fail.",
  ["inputs", "configurations"], "every combination of known/unknown operands with every field contents",
  "Key generation uses only unknown values and proving only known ones, so mixed combinations are never run by tests.",
  ["halo2_proofs/src/circuit/value.rs"], [("value combinators and operators", "circuit/value.rs")])

p("P06", "Parameters commit to exactly the Pedersen vector commitment, also once re-read",
  "For every size and number of worker threads, the public parameters commit to a polynomial as the sum of its coefficients times the published generators plus the blind times W, and a Lagrange-basis commitment equals the commitment to the interpolated polynomial. Writing and re-reading parameters changes nothing, and truncated or invalid encodings are refused.",
  ["inputs", "configurations"], "every coefficient vector and blind; sizes and thread counts within the bounds; every truncation and invalid element of an encoding",
  "Tests compare two library paths on one polynomial; a wrong generator basis or a lossy round trip is only seen by other parties.",
  ["halo2_proofs/src/poly/commitment.rs", "halo2_proofs/src/arithmetic.rs"],
  [("Lagrange generators by inverse group FFT", "poly/commitment.rs Params::new"), ("commit", "poly/commitment.rs commit, commit_lagrange"), ("encoding", "poly/commitment.rs read, write")], hook="verif::set_naive_multiexp")
p("P07", "The polynomial opening argument accepts exactly the claimed evaluation",
  "An honestly created opening of a commitment at a point verifies for every polynomial, blind, point and challenge; and the verifier's final equation is exactly the protocol's, so a different claimed value leaves exactly the discrepancy (v - v') times the first generator. A truncated opening is an error.",
  ["inputs", "configurations"], "every polynomial, blind, point, value, proof element and challenge at sizes within the bounds",
  "A test opens one random polynomial; soundness of the final equation concerns every proof, including dishonest ones.",
  ["halo2_proofs/src/poly/commitment/prover.rs", "halo2_proofs/src/poly/commitment/verifier.rs"],
  [("halving rounds", "poly/commitment/prover.rs create_proof"), ("final check", "poly/commitment/verifier.rs verify_proof, Guard::use_challenges"), ("b and s vectors", "poly/commitment/verifier.rs compute_b, compute_s")], hook="verif::set_naive_multiexp")
p("P08", "Deferred multi-scalar bookkeeping and accumulators keep the exact group equation",
  "Whatever sequence of additions, scalings and merges is applied to a deferred multi-scalar multiplication, it evaluates to the identity exactly when the mathematical combination does. A verifier guard gives the same equation whether the challenges are expanded, or the derived generator is computed and supplied, and the accumulator records that generator and those challenges.",
  ["inputs", "histories"], "every sequence of operations up to the stated length, every scalar, repeated, negated, doubled and identity points; every guard within the sizes",
  "Batching and recursion combine terms in orders and with repetitions the tests never form, and random scalars hide wrong signs or lost terms.",
  ["halo2_proofs/src/poly/commitment/msm.rs", "halo2_proofs/src/poly/commitment/verifier.rs"],
  [("term merging by x-coordinate", "poly/commitment/msm.rs append_term, add_msm"), ("scaling", "poly/commitment/msm.rs scale"), ("generator folding", "poly/commitment/verifier.rs use_g, compute_g")])
p("P09", "Multi-point openings are complete and check exactly the claimed evaluations",
  "For every pattern of commitments and query points, an honest multi-point opening verifies, and the verifier's final equation is exactly the protocol's combination of all claimed evaluations with the commitments they belong to. Asking for one commitment at one point with two different values is refused, and truncated openings are errors.",
  ["inputs", "configurations"], "every polynomial, blind, point, evaluation, proof element and challenge, for the enumerated query patterns and point orders",
  "Tests run one pattern of three queries; grouping by point sets depends on order, repetition and number of points.",
  ["halo2_proofs/src/poly/multiopen.rs", "halo2_proofs/src/poly/multiopen/prover.rs", "halo2_proofs/src/poly/multiopen/verifier.rs"],
  [("grouping queries into point sets", "poly/multiopen.rs construct_intermediate_sets"), ("prover combination", "poly/multiopen/prover.rs create_proof"), ("verifier combination", "poly/multiopen/verifier.rs verify_proof")])

p("P10", "The PLONK verifier accepts exactly the protocol's equation",
  "For a verifying key, instance and proof, the verifier reads exactly the protocol's messages and its final equation is exactly the protocol's: every gate, permutation and lookup relation of every circuit instance weighted by its own power of y, divided by the vanishing polynomial, opened together with every claimed evaluation at its own rotation point.",
  ["inputs", "programs"], "every proof (points and scalars), instance, challenge; the enumerated circuit shapes with one and two proofs",
  "Soundness concerns dishonest proofs; a dropped or mis-weighted relation still accepts every honest proof that tests produce.",
  ["halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/permutation/verifier.rs", "halo2_proofs/src/plonk/lookup/verifier.rs", "halo2_proofs/src/plonk/vanishing/verifier.rs", "halo2_proofs/src/poly/multiopen/verifier.rs"],
  [("expressions and queries", "plonk/verifier.rs verify_proof"), ("permutation identities", "plonk/permutation/verifier.rs Evaluated::expressions"), ("lookup identities", "plonk/lookup/verifier.rs Evaluated::expressions"), ("quotient", "plonk/vanishing/verifier.rs")], hook="verif::cs_view, verif::vk_cs")
p("P11", "An honest proof of a satisfied circuit always verifies",
  "For every satisfying witness and instance, every randomness and every challenge, the prover's messages satisfy the verifier's equation: committed columns hold the witness, permuted lookup columns and grand products satisfy their row relations, the quotient pieces recombine to the constraints divided by the vanishing polynomial, and all evaluations are those of the committed polynomials.",
  ["inputs", "programs"], "every witness and randomness, theta, beta, gamma, y (all symbolic together) and each later challenge; the enumerated circuit shapes, with one and two proofs",
  "Tests prove a couple of circuits with one witness; completeness for rare values, shapes, chunkings and several proofs is not exercised.",
  ["halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/permutation/prover.rs", "halo2_proofs/src/plonk/lookup/prover.rs", "halo2_proofs/src/plonk/vanishing/prover.rs", "halo2_proofs/src/poly/multiopen/prover.rs", "halo2_proofs/src/poly/evaluator.rs"],
  [("witness columns and expressions", "plonk/prover.rs create_proof"), ("permutation grand products", "plonk/permutation/prover.rs"), ("lookup grand products", "plonk/lookup/prover.rs"), ("quotient", "plonk/vanishing/prover.rs")], hook="verif::cs_view, verif::pk_view, verif::set_naive_multiexp")
p("P13", "Prover and verifier bind everything to the transcript in protocol order",
  "Prover and verifier absorb the same values in the same order and squeeze challenges at the same places. The verifying key and every instance commitment of every circuit are absorbed before any message, each challenge comes after all the messages it must depend on, and keys for different circuits have different digests.",
  ["inputs", "programs"], "every witness and challenge; the enumerated circuit shapes with one and two proofs; pairs of neighbouring circuits",
  "Leaving something out of the transcript on both sides keeps every honest proof valid; only forgeries notice.",
  ["halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk.rs", "halo2_proofs/src/poly/multiopen", "halo2_proofs/src/poly/commitment"],
  [("transcript order", "plonk/prover.rs, plonk/verifier.rs"), ("key digest", "plonk.rs VerifyingKey::from_parts, hash_into")],
  note="Collision resistance of the hash is assumed.")
p("P14", "Batch verification accepts exactly when every proof in the batch is valid",
  "A batch is accepted if all its proofs verify individually and refused if any is invalid or malformed, whatever the scheduling of worker threads; the batched equation is a combination of the individual equations with independently random multipliers, so invalid proofs cannot cancel.",
  ["inputs", "schedules", "configurations"], "batches up to the stated size with every pattern of valid and invalid members, random multipliers symbolic, pools of 1 to 4 threads",
  "A missing or shared random multiplier accepts cancelling invalid proofs, which no honest test constructs, and merging depends on scheduling.",
  ["halo2_proofs/src/plonk/verifier/batch.rs", "halo2_proofs/src/multicore.rs", "halo2_proofs/src/poly/commitment/msm.rs"],
  [("random linear combination", "plonk/verifier/batch.rs BatchVerifier::finalize"), ("fold and reduce", "multicore.rs TryFoldAndReduce")])
p("P16", "Keys encode exactly the circuit: fixed contents, copy constraints and row limits",
  "Key generation produces fixed columns with exactly the assigned values (fractions evaluated), a permutation whose cycles are exactly the classes of cells connected by copy constraints, and Lagrange selectors for the first, last and blinding rows; all commitments and cosets belong to those columns. Assignments, selectors or copies in unusable rows, and copies of columns without equality, are refused.",
  ["inputs", "programs"], "every fixed value; enumerated circuit shapes and generated copy-constraint histories over up to 6 columns",
  "Copying cycles merge in many orders; a wrong merge only shows as a missing equality that dishonest provers use.",
  ["halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/plonk/permutation/keygen.rs"],
  [("cycle merging", "plonk/permutation/keygen.rs Assembly::copy"), ("key material", "plonk/keygen.rs keygen_vk, keygen_pk")], hook="verif::pk_view, verif::cs_view")
p("P17", "Combining selectors preserves every gate on every row",
  "After selectors are combined into fixed columns, every gate and lookup evaluates on every row to the original constraint up to a non-zero constant when its selector is on, and to zero exactly where it is off; the maximum degree does not grow and unrelated constraints are unchanged.",
  ["inputs", "programs"], "every value of the queried cells; generated constraint systems with up to 9 selectors and every kind of activation pattern",
  "Combination depends on overlaps and degrees; a gate enabled on the wrong row or scaled to zero only helps a dishonest prover.",
  ["halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/plonk/circuit.rs"],
  [("grouping and substitution", "plonk/circuit/compress_selectors.rs process"), ("rewriting of gates", "plonk/circuit.rs compress_selectors")], hook="verif::compress_selectors, verif::gates, verif::lookups")
p("P20", "The lookup permutation succeeds exactly when every input is in the table",
  "For input and table columns, permuting fails exactly when some usable input is missing from the table. Otherwise the results are permutations of the usable rows in which every input equals its table entry or the previous input, whatever the unusable rows hold.",
  ["inputs"], "every field contents for generated patterns of repetitions, absent values and unusable-row contents",
  "Repeated table rows, absent values and values only in unusable rows are corner cases tests do not combine.",
  ["halo2_proofs/src/plonk/lookup/prover.rs"], [("permute_expression_pair", "plonk/lookup/prover.rs")], hook="verif::verif_permute_expression_pair")
p("P21", "Every committed column and polynomial is blinded with fresh randomness",
  "Every committed witness, permuted lookup column and grand product holds an independent fresh random value in every unusable row and has its own random blind; the random polynomial hiding the quotient is fresh in every coefficient, every quotient piece has its own blind, and there are more random rows than points at which a column is opened.",
  ["inputs", "programs"], "every value of the prover's randomness; the enumerated circuit shapes with one and two proofs",
  "A proof without blinding verifies as well as one with it.",
  ["halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/permutation/prover.rs", "halo2_proofs/src/plonk/lookup/prover.rs", "halo2_proofs/src/plonk/vanishing/prover.rs"],
  [("blinding rows", "plonk/prover.rs create_proof"), ("product blinding", "plonk/permutation/prover.rs, plonk/lookup/prover.rs"), ("random polynomial", "plonk/vanishing/prover.rs")],
  note="Structural part of zero knowledge; simulation itself is a cryptographic argument outside reach.")
p("P22", "Malformed proofs and instances are refused with an error, never a panic",
  "A proof cut short anywhere, with any element altered, or with any non-canonical or invalid encoding is refused; so are instances with the wrong number of columns or circuits, with too many rows or any other value, and witness assignments outside the usable rows. No such input panics.",
  ["inputs", "fault points"], "every truncation point, every altered element, every instance row and column count, for the enumerated circuit shapes",
  "Tests verify honest proofs; refusals are hardly exercised.",
  ["halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/transcript.rs"],
  [("instance checks", "plonk/verifier.rs, plonk/prover.rs"), ("element decoding", "transcript.rs Blake2bRead")])
p("P23", "Constraint systems record exactly the declared expressions, degrees and queries",
  "An expression built from queries, constants and operators evaluates to its mathematical value with every query naming the entry it claims; the recorded query lists, permutation columns, degree, blinding factors and minimum rows are exactly those that follow from the declared gates, lookups and equalities.",
  ["inputs", "programs"], "every value of the queried cells; generated constraint systems",
  "Wrong degree or blinding counts silently shrink the quotient or leak; they depend on combinations of declarations.",
  ["halo2_proofs/src/plonk/circuit.rs"],
  [("degree and blinding factors", "plonk/circuit.rs ConstraintSystem::degree, blinding_factors, minimum_rows"), ("expressions", "plonk/circuit.rs Expression::evaluate, degree")], hook="verif::cs_view, verif::gates, verif::lookups, verif::selector_index")
p("P12", "The transcript hash binds every absorbed item, alike on both sides",
  "Writing, reading or only absorbing an item feeds the hash the same way, and prover and verifier derive the same challenges from the same history. Two different histories of points, scalars and squeezed challenges never feed the hash the same bytes, each challenge is the reduction of a full 64-byte digest, and identity points and non-canonical or short encodings are refused.",
  ["inputs", "histories"], "every pair of histories up to the stated length, over every byte content of the absorbed points and scalars",
  "A transcript that drops a coordinate or a domain separator keeps every honest proof valid; only forgeries notice.",
  ["halo2_proofs/src/transcript.rs"],
  [("absorption and prefixes", "transcript.rs Blake2bWrite, Blake2bRead common_point, common_scalar, squeeze_challenge"), ("challenge derivation", "transcript.rs Challenge255")],
  note="BLAKE2b itself is assumed collision resistant; the check shows the map from histories to its input is injective.")
p("P02", "Multiexponentiation returns exactly the sum of scalar multiples",
  "For every list of scalars and points of equal length, both multiexponentiation routines return exactly the sum of each scalar times its point, whatever the bit patterns of the scalars, repeated or opposite or identity points, the window width chosen for the length, and the number of threads.",
  ["inputs", "schedules", "configurations"], "every scalar (window extraction: every byte pattern, window and width); every group element as a symbolic combination of generators; bucket collisions over generated scalar patterns; lengths and pools as stated",
  "Window extraction, bucket reuse and chunk joining depend on scalar bits and length; tests compare a few random sums.",
  ["halo2_proofs/src/arithmetic.rs"],
  [("window extraction", "arithmetic.rs multiexp_serial get_at"), ("buckets and chunk joining", "arithmetic.rs multiexp_serial, best_multiexp, small_multiexp")],
  tech="Kani (CBMC bit-precise) over the real window extraction; symbolic execution of the real bucket routine over a symbolic group with z3",
  hook="arithmetic::verif_window (cfg kani), verif::set_naive_multiexp")
p("P15", "The mock prover accepts exactly the circuits whose constraints all hold",
  "MockProver::verify succeeds exactly when every gate vanishes on every row, every lookup input of a usable row is in the usable table rows, copied cells are equal and no cell an enabled gate relies on is missing; otherwise it lists a failure for each violated row. Circuits too large, wrong instance counts and out-of-range rows are refused.",
  ["inputs", "programs"], "every cell value; generated constraint systems and assignments with gates, rotations, lookups, copies, instance values and missing cells",
  "A mock prover that skips a row or treats blinding rows wrongly keeps every test green while a circuit bug ships.",
  ["halo2_proofs/src/dev.rs", "halo2_proofs/src/dev/failure.rs"],
  [("verification", "dev.rs MockProver::verify, verify_at_rows"), ("assignment", "dev.rs MockProver::run, Assignment impl")])
p("P18", "Floor planners place every region intact, disjoint and with the same meaning",
  "Both floor planners put each region's cells at one start row plus their offsets with exactly the given values, in call order. No two regions overlap in any column or selector, every constant gets a cell of its own outside the regions tied to its advice cell, all copies join the named cells, and the layout is deterministic: first fit as documented.",
  ["inputs", "programs"], "every cell value; every pair of cells that regions of the planned shapes could hold; generated region programs of up to 7 regions over 11 columns and 0 to 3 constants columns",
  "Overlaps and mistaken copies depend on how region shapes interlock; a wrong layout silently changes the circuit.",
  ["halo2_proofs/src/circuit/floor_planner", "halo2_proofs/src/circuit.rs", "halo2_proofs/src/circuit/layouter.rs"],
  [("single-pass planner", "circuit/floor_planner/single_pass.rs"), ("two-pass planner", "circuit/floor_planner/v1.rs, v1/strategy.rs"), ("region shapes", "circuit/layouter.rs RegionShape"), ("region and cell API", "circuit.rs")],
  hook="verif::column_index, verif::selector_index",
  note="Cell values are symbolic and disjointness is decided by z3 over all cells of the planned shapes; the region shapes themselves are generated, because the planner's tree and hash maps are out of reach of the symbolic executors available (Kani ran out of memory).")
p("P19", "Lookup tables hold exactly the assigned entries, padded and checked",
  "After a table is assigned, its fixed columns hold the assigned values in their rows and row 0's value in every later usable row, so lookups accept exactly the assigned entries. Tables with gaps, columns of different lengths, no row 0, row 0 assigned twice, a column used by an earlier table, or too many rows are refused.",
  ["inputs", "programs"], "every table value; generated sequences of up to 3 tables, well formed and malformed, under both planners, key generation and the mock prover",
  "An unpadded or short column adds an entry to the table that only a dishonest prover would use.",
  ["halo2_proofs/src/circuit/table_layouter.rs", "halo2_proofs/src/circuit/floor_planner", "halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/dev.rs"],
  [("table assignment", "circuit/table_layouter.rs SimpleTableLayouter, compute_table_lengths"), ("padding", "plonk/keygen.rs fill_from_row, dev.rs fill_from_row")], hook="verif::pk_view")
GTECH = "constraints extracted from the real gadget (configure and synthesis executed), decided by algebraic constraint solving over the field with z3 for carries and digit sums; a forged witness is replayed in the real MockProver"
GNOTE = "Soundness ranges over everything the prover may put in advice cells; inputs given through the instance column are generic and special values where the statement does not say every input."
p("P25", "Range checks accept exactly the numbers that fit, and their running sums",
  "The lookup range checks (strict, non-strict, short; plain and tagged 4/5-bit) and the running-sum decomposition accept the honest assignment for every value in range, return exactly the running sums z_i = x >> (K i), and refuse whatever a prover witnesses for a value of 2^bits or more.",
  ["inputs"], "every prover witness; bounds of checked values over all field elements (integer encoding); given values generic and extreme; words 1 to 25, short widths 0 to 10, windows of 1, 2 and 3 bits",
  "A missing lookup or copy still accepts every honest witness, so tests stay green while a prover can pass any number.",
  ["halo2_gadgets/src/utilities/lookup_range_check.rs", "halo2_gadgets/src/utilities/decompose_running_sum.rs", "halo2_gadgets/src/utilities.rs"],
  [("lookup range checks", "utilities/lookup_range_check.rs copy_check, witness_check, copy_short_check, witness_short_check, short_range_check"), ("running sums", "utilities/decompose_running_sum.rs decompose, copy_decompose, witness_decompose")],
  tech=GTECH, note=GNOTE)
p("P26", "Conditional swap and mux return the selected values and nothing else",
  "For all inputs mux returns its first input if the choice is 0, its second if it is 1, and no choice other than 0 and 1 is accepted; the variants on points do so for both coordinates. The pair swap returns its input cell and the other value in one of the two orders, whatever the prover witnesses.",
  ["inputs"], "mux: all values of the inputs (symbolic completeness, uniqueness by elimination); swap and refusals: every prover witness over generic and special inputs",
  "A dropped boolean or copy constraint is invisible to honest provers and to tests.",
  ["halo2_gadgets/src/utilities/cond_swap.rs"],
  [("swap and mux", "utilities/cond_swap.rs CondSwapChip::{configure, swap, mux, mux_on_points, mux_on_non_identity_points}")],
  tech=GTECH, note=GNOTE)
p("P27", "The Poseidon gadget accepts exactly the Poseidon sponge of its inputs",
  "For all inputs, the permutation, the sponge (any mix of cells and constants, several blocks in and out) and the constant-length hash accept the honest assignment, whose outputs are those of an independent Poseidon with constants from an independent Grain generator, and the constraints leave no other outputs.",
  ["inputs", "configurations"], "all field elements as inputs (sweeping with z3 for completeness, elimination for uniqueness); widths 2 to 5 and P128Pow5T3, messages of 1 to 7 words, 1 to 3 blocks",
  "A round whose selector is off, or an uncopied word, is accepted by every test with an honest prover.",
  ["halo2_gadgets/src/poseidon.rs", "halo2_gadgets/src/poseidon/pow5.rs"],
  [("rounds and sponge steps", "poseidon/pow5.rs Pow5Chip, Pow5State"), ("sponge and hash", "poseidon.rs Sponge, Hash")],
  tech="symbolic execution of the real synthesis and gates; term sweeping with z3 over polynomial identities for completeness, linear elimination over the extracted gate polynomials for uniqueness", note=GNOTE)
p("P28", "Poseidon outside a circuit computes the specified sponge for every input",
  "For every message of each length, over both Pasta fields and every width, the constant-length Poseidon hash and the permutation equal an independent implementation of the specification; round constants and matrix are those of the Grain generator, and the stored inverse is the inverse of the matrix.",
  ["inputs", "configurations"], "all field elements as inputs; message lengths 1 to 6 and 9; P128Pow5T3 and specifications of width 2 to 5, over both fields",
  "Padding, capacity and block boundaries depend on the length; test vectors cover two-word messages only.",
  ["halo2_poseidon/src"],
  [("sponge", "halo2_poseidon/src/lib.rs Sponge, Hash, poseidon_sponge, permute, ConstantLength"), ("constants", "halo2_poseidon/src/grain.rs, mds.rs, fp.rs, fq.rs")],
  tech="symbolic execution of the real code on symbolic field elements; z3 over polynomial identities between swept terms")

p("P29", "Point witnessing, curve addition and equality accept only the true points",
  "A witnessed point is on the curve or (0, 0) for the identity, and never the identity where that is excluded. Complete addition returns the sum for every pair, doubling, opposite and identity points included, incomplete addition the sum of distinct points; equality holds only of equal points. No witness yields another result.",
  ["inputs"], "every prover witness; given points generic, equal, opposite, doubled and identity, points off the curve; constants, witnessed points, mixed types",
  "A dropped case constraint in complete addition is invisible to an honest prover, and the cases cooperate.",
  ["halo2_gadgets/src/ecc.rs", "halo2_gadgets/src/ecc/chip.rs", "halo2_gadgets/src/ecc/chip/add.rs", "halo2_gadgets/src/ecc/chip/add_incomplete.rs", "halo2_gadgets/src/ecc/chip/witness_point.rs"],
  [("witnessed points", "ecc/chip/witness_point.rs"), ("addition", "ecc/chip/add.rs, ecc/chip/add_incomplete.rs"), ("point API", "ecc.rs Point, NonIdentityPoint")],
  tech=GTECH, note=GNOTE)
p("P30", "Variable-base multiplication returns exactly the scalar multiple of the base",
  "For every base field element s and non-identity point B, the gadget returns [s]B, s read as its canonical integer below p, zero and values near the field's and the scalar field's ends included, and its constraints accept no other point for those inputs, whatever the prover witnesses.",
  ["inputs"], "every prover witness; given scalars generic, 0, 1, -1, 2^130 and around the ends of the scalar field; generic base; both lookup configurations",
  "Incomplete addition, canonicity and overflow checks only matter for rare scalars and dishonest provers.",
  ["halo2_gadgets/src/ecc/chip/mul.rs", "halo2_gadgets/src/ecc/chip/mul/incomplete.rs", "halo2_gadgets/src/ecc/chip/mul/complete.rs", "halo2_gadgets/src/ecc/chip/mul/overflow.rs"],
  [("double-and-add", "ecc/chip/mul.rs, mul/incomplete.rs, mul/complete.rs"), ("canonicity", "ecc/chip/mul/overflow.rs overflow_check")],
  tech=GTECH, note=GNOTE + " Known finding: the base in the rows of incomplete addition is not tied to the input (its repair changes pinned verifying keys); apart from those two cells the property is decided.")
p("P31", "Fixed-base multiplication and point signs return exactly the right multiple",
  "Multiplication of a fixed base by a base field element, a 64-bit magnitude with sign or a full-width scalar returns exactly that multiple (full width: of the witnessed windows), a sign times a point that point or its negative; magnitudes of 2^64 or more and signs other than 1 and -1 are refused, whatever the prover witnesses.",
  ["inputs"], "every prover witness; given scalars generic, 0, 1, -1, largest, smallest; both lookup configurations; magnitudes and signs just outside the range; windows of full-width scalars given",
  "Canonicity, the short last window and the sign only matter for edge values and dishonest provers.",
  ["halo2_gadgets/src/ecc/chip/mul_fixed.rs", "halo2_gadgets/src/ecc/chip/mul_fixed/base_field_elem.rs", "halo2_gadgets/src/ecc/chip/mul_fixed/short.rs", "halo2_gadgets/src/ecc/chip/mul_fixed/full_width.rs", "halo2_gadgets/src/ecc/chip/constants.rs"],
  [("window tables and running sum", "ecc/chip/mul_fixed.rs, ecc/chip/constants.rs"), ("base field elements", "ecc/chip/mul_fixed/base_field_elem.rs"), ("short signed scalars and signs", "ecc/chip/mul_fixed/short.rs"), ("full width", "ecc/chip/mul_fixed/full_width.rs")],
  tech=GTECH, note=GNOTE)
p("P32", "Sinsemilla hashes and commitments are those of the message and nothing else",
  "Hashing a message of field-element pieces returns exactly the Sinsemilla hash of the concatenated ten-bit words from the domain's (or a given private) initial point, with each piece's running sums; a commitment returns that hash plus the randomness's multiple of the domain's base; pieces with more bits than declared are refused, whatever the prover witnesses.",
  ["inputs"], "every prover witness; given pieces all zero, all one, generic; messages of one to three pieces of one to 25 words; both lookup configurations, private initial points allowed or not; windows of the randomness given",
  "Only a dishonest prover violates the constraints that tie words, table rows, slopes and piece boundaries together.",
  ["halo2_gadgets/src/sinsemilla.rs", "halo2_gadgets/src/sinsemilla/chip.rs", "halo2_gadgets/src/sinsemilla/chip/hash_to_point.rs", "halo2_gadgets/src/sinsemilla/chip/generator_table.rs", "halo2_gadgets/src/sinsemilla/message.rs"],
  [("word lookup, secant and slope constraints", "sinsemilla/chip.rs configure, chip/generator_table.rs"), ("initial point, pieces and final point", "sinsemilla/chip/hash_to_point.rs"), ("domains and commitments", "sinsemilla.rs HashDomain, CommitDomain")],
  tech=GTECH, note=GNOTE)
p("P33", "Merkle layers and paths return exactly the root of leaf, siblings and position",
  "A Merkle layer returns the Sinsemilla hash of its ten-bit level and the 255-bit encodings of the left and the right node, and of nothing else (an encoding may exceed the modulus, where one fits in 255 bits); a path's root follows from leaf, siblings and position bits, each layer hashed at its own level with node and sibling swapped as its bit says, whatever the prover witnesses.",
  ["inputs"], "every prover witness; given nodes whose 255-bit encoding is unique for uniqueness, generic and extreme nodes for honest acceptance; levels 0, 5, 7, 31, 1023; paths of two layers on one chip or two, all positions, siblings and position bits and the inner node's encoding given",
  "Swapping, level separation and the decomposition across pieces are only violated by a dishonest prover.",
  ["halo2_gadgets/src/sinsemilla/merkle.rs", "halo2_gadgets/src/sinsemilla/merkle/chip.rs"],
  [("decomposition of level, left and right", "sinsemilla/merkle/chip.rs configure, hash_layer"), ("paths", "sinsemilla/merkle.rs MerklePath::calculate_root")],
  tech=GTECH, note=GNOTE)
