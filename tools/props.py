#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (id, title, statement, over, qtext, why, files, mech[(name, where)], observe, technique, note)

def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                  files=files.split(), mech=mech, observe=observe, technique=technique, note=note))

S = "crypto/stark/src/"
p("C01", "Honest STARK proofs are always accepted (completeness)",
  "For every well-formed constraint system, every trace table that satisfies it, and every combination of blowup, proof-of-work difficulty, query count and FRI layout the API accepts, proving succeeds and verification of the returned proof against the same constraints succeeds. Claim polynomials, negative and wrapping row offsets, powers, inverses, periodic polynomials and many columns are all covered.",
  "inputs configurations programs", "all constraint systems x satisfying traces x proof parameters",
  "The tests prove two recurrence families with at most 3 columns and a handful of parameter choices; most expression shapes, offsets, periodic columns and layouts are never proven.",
  S+"prover.rs "+S+"verifier.rs "+S+"algebraic_dag.rs "+S+"constraints.rs "+S+"trace_table.rs "+S+"polynomial.rs",
  [("prove pipeline", S+"prover.rs prove"), ("verify", S+"verifier.rs verify"), ("expression DAG evaluation", S+"algebraic_dag.rs")],
  ["result of prove", "result of verify"],
  "runtime monitor on prove/verify over generated satisfiable constraint systems, with an independent reference verifier as second oracle",
  "Holds on every generated constraint system, trace and parameter set of the run; the generator builds satisfiable systems by construction and an independent evaluator confirms it.")
p("C02", "Dishonest STARK proofs are rejected at every protocol step (soundness)",
  "Verification rejects every proof in which some protocol step was not followed: a trace violating any one constraint, wrong out-of-domain values, a wrong constraint commitment, values that do not match a commitment, a wrong FRI folding or last layer, too high degree, insufficient proof of work, wrong query positions, or a proof for another claim, seed, or parameter set. Every check of the protocol is individually necessary, so it must reject even when all the others are satisfied.",
  "inputs fault_sequences configurations", "all proofs produced by a prover deviating at any step, all single mutations of valid proofs",
  "The tests never feed the verifier a single invalid proof, so a removed verification step is invisible to them.",
  S+"verifier.rs "+S+"channel.rs "+S+"proof_of_work.rs "+S+"constraints.rs crypto/merkle-tree/src/proof.rs",
  [("Merkle, FRI, PoW, OODS checks", S+"verifier.rs verify"), ("transcript replay", S+"channel.rs")],
  ["result of verify"],
  "malicious reference prover with fault injection per protocol step; verdict of verify compared online with an independent reference verifier",
  "Each protocol step is attacked with the later steps carried out consistently, so that only the attacked check can reject; random and exhaustive byte mutations are judged too. Cryptographic hardness is assumed, not checked.")
p("C03", "Verifier is total on hostile proof bytes",
  "For every byte string whatsoever offered as a proof, and any well-formed constraint system, verification returns an error or success without panicking, aborting, hanging or reading out of bounds. Truncated, extended, empty and non-canonical proofs are rejected.",
  "inputs fault_sequences", "all byte strings as proofs, all truncation points",
  "Tests only verify proofs produced by the prover.",
  S+"verifier.rs "+S+"channel.rs "+S+"proof_of_work.rs crypto/merkle-tree/src",
  [("proof replay", S+"channel.rs VerifierChannel"), ("error returns", S+"verifier.rs")],
  ["result of verify", "panics"],
  "crash/panic/overflow monitor on verify over hostile byte strings (all truncation points, mutations, random), verdict oracle",
  "No panic or wrong acceptance for any byte string of the run, in a build with overflow and debug assertions and in the release build.")
p("C04", "Proof bytes follow the documented transcript and wire format",
  "The prover's output for given constraints, trace and parameters is exactly the byte string the documented protocol prescribes: public coin derivation, order of messages, bit-reversed evaluation order, Montgomery big-endian elements, masked-Keccak Merkle trees, FRI folding, minimal proof-of-work nonce and sorted queries. The verifier accepts exactly those proofs, so proofs stay interchangeable with other implementations such as the Ethereum verifier.",
  "inputs configurations", "all constraint systems, traces and parameters",
  "Three fixed proofs are pinned by digests; an encoding error that only shows for other layouts, degrees or queries goes unnoticed, since prover and verifier share the code.",
  S+"prover.rs "+S+"verifier.rs "+S+"channel.rs "+S+"proof_of_work.rs crypto/hash/src crypto/merkle-tree/src",
  [("public coin", S+"channel.rs PublicCoin"), ("message order", S+"prover.rs prove"), ("replay", S+"verifier.rs")],
  ["Proof::as_bytes", "result of verify"],
  "differential monitor: byte-for-byte comparison with an independently written prover; reference-made proofs offered to verify",
  "Byte equality with an independent implementation (own Keccak, bignum, Merkle, FRI) on all generated cases.")
p("C05", "Proofs are deterministic across threads and schedules",
  "Proving the same constraints and trace gives the same bytes regardless of the number of worker threads, the schedule, concurrent proofs in other threads, or earlier calls in the process. Merkle commitments, transforms and other parallel computations give the same result as sequential execution.",
  "schedules configurations histories", "all thread counts and interleavings",
  "Tests run one schedule with the default pool and never compare results between pools.",
  S+"prover.rs "+S+"proof_of_work.rs crypto/merkle-tree/src/tree.rs algebra/primefield/src/fft",
  [("rayon parallel sections", S+"prover.rs get_constraint_polynomials"), ("fetch_min on the nonce", S+"proof_of_work.rs solve"), ("parallel Merkle layers", "crypto/merkle-tree/src/tree.rs")],
  ["Proof::as_bytes", "Merkle roots", "FFT outputs"],
  "schedule-diversity monitor: same workload on pools of 1..16 threads with noise threads and nested parallelism, outputs compared online",
  "Identical results over all pool sizes, repeated runs and injected noise of the run.")
p("C06", "Proof of work is honest: smallest valid nonce, exact difficulty",
  "The proof-of-work nonce in a proof is the smallest 64-bit nonce whose challenge hash has at least the configured number of leading zero bits, for every difficulty and every number of threads. The verifier accepts a nonce if and only if it meets the configured difficulty for the transcript so far.",
  "inputs schedules configurations", "all transcripts, difficulties, thread counts",
  "One challenge with difficulty 8 is tested on one schedule; the racy minimum search and boundary difficulties are not.",
  S+"proof_of_work.rs "+S+"prover.rs "+S+"verifier.rs",
  [("parallel search", S+"proof_of_work.rs solve"), ("difficulty check", S+"proof_of_work.rs verify")],
  ["nonce in the proof", "result of verify"],
  "monitor extracting the nonce from recorded proofs over thread counts, exhaustive minimality oracle, and forged-nonce injection",
  "Minimality confirmed exhaustively below each found nonce with an independent Keccak; forged nonces of exactly one bit less difficulty offered to the verifier.")
p("C07", "Constraint checker agrees with mathematical satisfaction",
  "Checking a trace table against constraints succeeds if and only if every constraint expression is a regular value at every row where it is evaluated, and a reported failure names the first violating row and constraint. The single-row single-constraint check gives the same answer as the full check does for that row and constraint.",
  "inputs programs", "all constraint systems, traces, corrupted cells",
  "Two fixed traces of one recurrence are checked, one corrupted cell each.",
  S+"constraint_check.rs "+S+"rational_expression.rs "+S+"traits.rs",
  [("row evaluation", S+"constraint_check.rs"), ("singularity tracking", S+"rational_expression.rs check")],
  ["check_constraints result", "Provable::check_specified result"],
  "monitor comparing reported (row, constraint) with an independent polynomial-division oracle over corrupted traces",
  "Every report compared with a direct evaluation of numerator and zerofier roots on all rows.")
p("C08", "Constraint expressions keep their algebraic meaning",
  "Evaluating an expression gives the value of the rational function it denotes, building operators, mapping, claim substitution and combination preserve that meaning, and degree reporting is an upper bound on the true degrees that the prover can rely on. Extrinsic equality never rejects equal expressions and distinguishes different ones. Constraint systems are constructed for power-of-two trace lengths only.",
  "inputs programs", "all expressions, evaluation points and traces",
  "Only two equality tests exist; degree, substitution and combination have no direct tests.",
  S+"rational_expression.rs "+S+"rational_equality.rs "+S+"constraints.rs "+S+"polynomial.rs "+S+"trace_table.rs",
  [("evaluate/degree/map", S+"rational_expression.rs"), ("combine", S+"constraints.rs combine"), ("dense polynomials", S+"polynomial.rs")],
  ["evaluate", "degree", "combine", "equals", "DensePolynomial::evaluate"],
  "differential monitor of expression evaluation against an independent interpreter; degree bound checked against interpolated degrees",
  "Every generated expression compared with an independent interpreter on random and special points.")
p("C09", "Component composition preserves constraints and traces",
  "Folding, horizontal and vertical composition (also nested) lay the element traces out at distinct, documented cells, and the composed constraints hold on a trace if and only if the element constraints hold on the corresponding element trace. Composed components prove and verify like any other.",
  "programs inputs", "all compositions of components, sizes, witnesses",
  "Tests compose one level with one element and only check that honest traces pass; that composed constraints still reject corrupted cells is never checked.",
  S+"component/fold.rs "+S+"component/horizontal.rs "+S+"component/vertical.rs "+S+"component/mapped.rs "+S+"component/mod.rs",
  [("index mapping", S+"component/fold.rs"), ("expression remapping", S+"component/*.rs constraints")],
  ["trace_table", "constraints", "check", "prove", "verify"],
  "monitor: recorded write log of composed traces checked for exactly-once placement, per-cell corruption must be reported at the mapped row",
  "Every cell of the composed traces of the run is traced to its element cell; corruption of single cells compared with the element oracle.")
p("C10", "FFT, inverse FFT and low-degree extension are exact",
  "For every power-of-two size supported by the field the transform equals the evaluation of the polynomial on the subgroup in the documented order, the inverse transform inverts it, permutation is the bit reversal, and shifted and low-degree-extension variants evaluate on the stated coset. Results do not depend on which internal algorithm is chosen for the size.",
  "inputs configurations schedules", "all sizes, inputs, cosets",
  "Tests use a few fixed small vectors and proptests below the size where the recursive, transposing and parallel algorithms switch.",
  "algebra/primefield/src/fft/mod.rs algebra/primefield/src/fft algebra/primefield/src/geometric_series.rs "+S+"polynomial.rs",
  [("iterative/recursive/transpose FFT", "algebra/primefield/src/fft"), ("twiddle precomputation", "algebra/primefield/src/fft")],
  ["fft/ifft outputs", "permute", "low_degree_extension"],
  "differential monitor against Horner evaluation and algebraic invariants, sizes spanning every algorithm switch",
  "Small sizes compared exhaustively with the definition, large sizes at sampled positions plus round trip.")
p("C11", "Prime field arithmetic is exact",
  "Addition, subtraction, negation, multiplication, squaring, inversion, division, powers and square roots of field elements equal integer arithmetic modulo the prime, for every operand including zero, one, minus one and values near word boundaries, and results are always in canonical form. The same holds for every modulus the generic field is instantiated with, and division by zero is reported rather than answered.",
  "inputs configurations", "all operands, all supported moduli",
  "Property tests check ring axioms on uniformly random operands, where carry and reduction corner cases have probability near 2^-64 and a consistent but wrong result satisfies the axioms.",
  "algebra/primefield/src/prime_field.rs algebra/primefield/src/ops.rs algebra/primefield/src/proth_field.rs algebra/u256/src/algorithms/montgomery algebra/u256/src/arch",
  [("Montgomery arithmetic", "algebra/u256/src"), ("field wrapper", "algebra/primefield/src/prime_field.rs")],
  ["results of all operators"],
  "differential monitor against independent bignum arithmetic on carry-boundary biased operands, plus overflow/debug-assertion instrumentation",
  "Exact comparison with schoolbook big integers on biased operands.")
p("C12", "Field utilities: roots of unity, series, batch inversion, conversions",
  "Roots of unity have exactly the requested order whenever it divides the group order and are absent otherwise, geometric series and their iterator adaptors produce exactly the stated sequence, batch inversion equals element-wise inversion and refuses zeros, and conversions between integers and field elements are the exact signed or unsigned embedding with correct refusal when out of range.",
  "inputs", "all orders, lengths, positions, integers",
  "Tests cover few orders, lengths and non-extreme integers.",
  "algebra/primefield/src/geometric_series.rs algebra/primefield/src/invert_batch.rs algebra/primefield/src/prime_field.rs algebra/primefield/src/convert.rs",
  [("root of unity", "algebra/primefield/src"), ("geometric series", "algebra/primefield/src/geometric_series.rs"), ("batch inversion", "algebra/primefield/src/invert_batch.rs")],
  ["function results"],
  "differential monitor against an independent reference, boundary-biased inputs",
  "Exact comparison with independent bignum reference.")
p("C13", "U256 ring, bit and comparison operations are exact",
  "Addition, subtraction, multiplication, negation (modulo 2^256 or with carry/overflow reporting), shifts, bit operations, comparison, bit length, trailing zeros and full-width products of U256 equal the mathematical result for all operands, shift counts and operator variants.",
  "inputs", "all operand pairs and shift amounts",
  "Random proptest operands almost never hit carry chains across all limbs, zero limbs or boundary shifts; operator variants are tested once.",
  "algebra/u256/src/u256.rs algebra/u256/src/additive.rs algebra/u256/src/multiplicative.rs algebra/u256/src/binary.rs algebra/u256/src/u256_traits.rs algebra/u256/src/arch",
  [("limb arithmetic", "algebra/u256/src")], ["operator results"],
  "differential monitor against independent bignum on limb-boundary biased operands", "Exact comparison on biased operands.")
p("C14", "U256 division, modular arithmetic and gcd are exact",
  "Quotient and remainder satisfy a = qb + r with r < b for every dividend (256 or 512 bit) and non-zero divisor, division by zero is reported as absent, modular multiplication, modular inverse, gcd and extended gcd return the exact value and cofactors.",
  "inputs", "all operands, including those forcing quotient-digit corrections",
  "The rare quotient correction branches of long division occur with probability about 2^-64 per random operand.",
  "algebra/u256/src/division.rs algebra/u256/src/functions.rs algebra/u256/src/algorithms algebra/u256/src/u256.rs",
  [("Knuth division", "algebra/u256/src"), ("gcd", "algebra/u256/src")], ["results"],
  "differential monitor against independent bignum on operands constructed to force correction branches", "Exact comparison on constructed operands.")
p("C15", "Text and binary codecs round-trip and reject malformed input",
  "Hexadecimal, decimal, byte, serde (JSON and binary), parity-codec and debug/display encodings of U256, field elements, hashes, points, signatures and similar values decode back to the same value, and malformed, over-long or out-of-range encodings yield an error instead of a panic or a silently different value.",
  "inputs", "all values, all byte/character strings as input",
  "Tests decode only a few well-formed strings.",
  "algebra/u256/src/encoding.rs algebra/u256/src/conversion.rs algebra/primefield/src/serde.rs algebra/primefield/src/parity_codec.rs algebra/elliptic-curve/src crypto/hash/src crypto/elliptic-curve-crypto/src utils/macros-lib/src",
  [("serde impls", "algebra/u256/src"), ("range check", "algebra/primefield/src")], ["decoded values", "errors"],
  "round-trip and hostile-input monitor with independent encoders", "Round trip and rejection judged by independent codec on hostile strings.")
p("C16", "Compile-time literals equal run-time parsing",
  "The literal macros for hex bytes, U256 and field elements produce at compile time exactly the value that the text denotes, and reject text that denotes no value of the type.",
  "inputs", "all literal texts", "A few literals are tested.",
  "utils/macros-lib/src utils/macros-decl/src utils/macros-impl/src", [("proc-macro expansion", "utils/macros-lib/src")], ["expanded tokens", "compiled constants"],
  "monitor running the macro expansion on generated texts and interpreting the tokens, plus compiled literal corpus", "Expansion output interpreted independently for each generated text.")
p("C17", "Elliptic-curve group law",
  "Point addition, doubling, negation, subtraction and conversions between affine and Jacobian coordinates implement the group of the curve for all points including the point at infinity, equal points and opposite points, in every operator variant; results always lie on the curve.",
  "inputs", "all pairs of points and representations (projective scalings)", "Random points never hit the equal/opposite/infinity branches.",
  "algebra/elliptic-curve/src/curve.rs algebra/elliptic-curve/src/jacobian.rs algebra/elliptic-curve/src",
  [("addition formulas", "algebra/elliptic-curve/src")], ["coordinates"],
  "differential monitor against an independent affine curve implementation, special-relation points", "Exact comparison with independent affine arithmetic.")
p("C18", "Scalar multiplication equals repeated addition",
  "Scalar multiplication in every form (generic, windowed, wNAF, fixed base, double base) equals the group-theoretic multiple for every scalar including 0, 1, order-1 and order boundary values and every point including infinity; multiples by the group order vanish.",
  "inputs", "all scalars and points", "Random scalars never produce the digit patterns and coincidences on which the formulas branch.",
  "algebra/elliptic-curve/src/wnaf.rs algebra/elliptic-curve/src", [("wNAF recoding and tables", "algebra/elliptic-curve/src")], ["resulting points"],
  "differential monitor against independent double-and-add, structured scalars", "Exact comparison on structured scalars and points.")
p("C19", "ECDSA: sign/verify round trip and rejection of forgeries",
  "Every signature produced verifies under the matching public key and message, and verification accepts exactly the signatures satisfying the textbook ECDSA equation: altered messages, keys, components, out-of-range or zero components and invalid keys are rejected without panicking. Signing is deterministic for equal inputs.",
  "inputs", "all keys, messages, signatures", "Few fixed vectors and honest round trips only.",
  "crypto/elliptic-curve-crypto/src", [("sign/verify", "crypto/elliptic-curve-crypto/src")], ["verify verdicts", "signatures"],
  "verdict monitor against an independent textbook verifier over honest, mutated and adversarial signatures", "Verdict equality with independent ECDSA verifier.")
p("C20", "Merkle multi-openings always verify (completeness)",
  "For every tree size, leaf type and index set (unsorted, duplicated, adjacent, full, single, empty), the commitment equals the documented hash tree, opening produces exactly the sibling hashes that are needed in the documented order, and the opening verifies against the commitment. Sparse or partial tree storage gives the same results as full storage.",
  "inputs configurations", "all sizes, index multisets, leaf types, storage modes", "Two fixed index sets are tested.",
  "crypto/merkle-tree/src/tree.rs crypto/merkle-tree/src/proof.rs crypto/merkle-tree/src/index.rs crypto/merkle-tree/src/commitment.rs crypto/merkle-tree/src",
  [("tree construction and opening", "crypto/merkle-tree/src")], ["roots", "proof hashes", "verify result"],
  "differential monitor against an independent Merkle multiproof implementation", "Exact comparison of root, opening hashes and verdict.")
p("C21", "Merkle proofs bind leaves to the commitment",
  "Verification of a Merkle opening fails whenever any leaf, index, hash, count, order or the root differs from a consistent opening, and malformed openings are reported as errors rather than panics. Two conflicting values for one index are never both accepted.",
  "inputs fault_sequences", "all alterations of openings", "Tests never verify an altered opening.",
  "crypto/merkle-tree/src/proof.rs crypto/merkle-tree/src/commitment.rs crypto/merkle-tree/src", [("proof verification", "crypto/merkle-tree/src/proof.rs")], ["verify verdict"],
  "fault-injection monitor on openings with independent verdict oracle", "Verdict compared with independent verifier for each injected fault.")
p("C22", "Hashing is the documented masked Keccak",
  "Hashes of field elements, big integers, sequences and byte strings equal the documented Keccak-256 construction with the 160-bit mask, for all lengths and incremental chunkings, and streaming in pieces equals hashing at once.",
  "inputs", "all inputs and chunkings", "Fixed vectors only.",
  "crypto/hash/src", [("MaskedKeccak", "crypto/hash/src")], ["digests"],
  "differential monitor against an independent Keccak", "Exact comparison across block boundaries and chunkings.")
p("C23", "Memory-mapped vector behaves like a vector and never leaks or double drops",
  "A memory-mapped vector behaves like an ordinary vector with fixed capacity for every sequence of operations: same contents, every element dropped exactly once, no access to uninitialised or freed memory, no growth beyond capacity, and file-backed storage released.",
  "histories inputs fault_sequences", "all operation sequences, element types, sizes, panics in element code", "Few direct tests with Copy-like elements.",
  "utils/mmap-vec/src", [("raw slot management", "utils/mmap-vec/src/lib.rs")], ["contents", "drop log", "file descriptors and mappings"],
  "model-based history monitor with drop-accounting elements (the same histories also run under the sanitizer builds of C25)", "Operation histories checked online against a model; exactly-once drops; mappings and descriptors counted.")
p("C24", "Logging allocator accounts exactly and stays transparent",
  "The logging allocator passes every allocation request through with the correct size, alignment and contents and its counters equal the true numbers of allocations and bytes currently live and their peak, for every concurrent history; it logs each large allocation once with the right size, and never deadlocks or recurses when it logs.",
  "histories schedules", "all allocation histories and thread interleavings", "No test observes counters under concurrency.",
  "utils/logging-allocator/src", [("atomic counters", "utils/logging-allocator/src")], ["counters", "returned memory"],
  "conservation monitor over recorded concurrent allocation histories", "Counters compared with an event log at quiescent points.")
p("C25", "No data race, memory error or undefined behaviour in the library",
  "Proving, verifying, hashing, Merkle commitment, transforms, big-integer and curve arithmetic and memory-mapped vectors run without data races, out-of-bounds or uninitialised accesses, integer-overflow panics or other undefined behaviour for every input and schedule.",
  "schedules inputs", "all schedules and inputs", "Tests run without sanitizers on one schedule.",
  "utils/mmap-vec/src algebra/primefield/src/fft algebra/u256/src "+S+"prover.rs "+S+"proof_of_work.rs crypto/merkle-tree/src utils/logging-allocator/src",
  [("unsafe code and parallel sections", "utils/mmap-vec, algebra/primefield/src/fft")], ["sanitizer reports", "panics"],
  "ThreadSanitizer and AddressSanitizer builds (std rebuilt) of the stress workload, plus overflow-checked build",
  "Sanitizers silent over the stress workload of the run.")
p("C26", "Reported proof size bound and security level are true",
  "The maximum proof size reported for constraints is never smaller than the size of any proof made under them, and the reported security level equals the documented conservative formula: log2(blowup) times half the number of queries (rounded down) plus the proof-of-work bits. Both are defined for every well-formed parameter choice.",
  "configurations inputs", "all parameters and proofs", "One parameter set is tested for size; security level not at all.",
  S+"constraints.rs", [("size estimate", S+"constraints.rs max_proof_size"), ("security estimate", S+"constraints.rs security_bits")], ["reported numbers", "actual proof length"],
  "monitor comparing reported bounds with observed proof sizes and the documented formula", "Compared on every generated proof and on the worst case size over query patterns computed from the wire format.")
p("C27", "Solidity proof export is faithful",
  "The JSON export of a proof contains every message of the proof exactly once, in order, under the right name, and is well-formed JSON for every proof the prover can produce. Concatenating the exported values restores the proof bytes.",
  "inputs configurations", "all proofs and parameters", "The only test checks that export does not fail for one proof.",
  S+"solidity_seralizer.rs", [("export", S+"solidity_seralizer.rs proof_serialize")], ["exported text"],
  "monitor parsing the export and reconstructing the proof bytes", "Byte-exact reconstruction for each generated proof.")
p("C28", "Generated Solidity evaluates the same constraint polynomial",
  "The generated constraint-evaluation and periodic-column contract code, executed with EVM arithmetic on the documented input layout, returns the same combined constraint value at the out-of-domain point as the Rust verifier computes, for every supported constraint system; the generated trace layout and wrapper parameters agree with the constraints.",
  "programs inputs", "all supported constraint systems and out-of-domain points", "No test runs the generator.",
  S+"solidity_verifier.rs crypto/stark/assets", [("code generator", S+"solidity_verifier.rs generate"), ("templates", "crypto/stark/assets")], ["generated files"],
  "monitor executing the generated assembly in an independent mini EVM-assembly interpreter and comparing with the Rust combined constraint", "Value equality at random points for each generated system.")

NA = [("C29", "Solidity contracts accept exactly what the Rust verifier accepts",
       "The hand-written Ethereum contracts accept a proof if and only if the Rust verifier accepts it.",
       "inputs", "all proofs", "Needs a Solidity tool chain.", "crypto/stark-verifier-ethereum/contracts",
       [("contracts", "crypto/stark-verifier-ethereum/contracts")],
       "No Solidity compiler or EVM is installed and none can be fetched, so the contracts cannot be executed under any monitor here; their input format is covered from the Rust side by C04, C27 and C28.")]

def done():
    d = os.path.join(ROOT, "harness/src/checks")
    txt = "".join(open(os.path.join(d, f)).read() for f in os.listdir(d))
    import re
    return {x["id"] for x in P if re.search(r'id:\s+"' + x["id"] + '"', txt)}

def main():
    have = done()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                             observe_at=x["observe"], hook_needed=None))) + "\n")
        for id, title, st, over, qt, why, files, mech, _ in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=over.split(), text=qt),
                why_tests_cant=why, anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="none", enable="no hooks are needed: the harness crate uses the public API of /repo's crates", source_commits=[]),
        checks=[dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} --tier quick", thorough_cmd=f"./check.sh {x['id']} --tier thorough",
                     evidence_file=f"evidence/{x['id']}.json", technique=x["technique"], level="exploration", level_note=x["note"]) for x in P if x["id"] in have],
        not_applicable=[dict(property=id, reason=r) for id, _, _, _, _, _, _, _, r in NA] +
                       [dict(property=x["id"], reason="check not built yet") for x in P if x["id"] not in have],
        notes="See DESIGN.md. Replays: ./check.sh ID --only 'section#index' with the same VERIF_SEED.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        for fn in x["files"]:
            if not os.path.exists("/repo/" + fn): print("missing anchor", x["id"], fn)
    print(sorted(have))
main()
