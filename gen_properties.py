#!/usr/bin/env python3
"""Writes properties.jsonl (the list is maintained here)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = [observe]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NET = "mpc-net/src/"
CORE = "mpc-core/src/"

p("N01", "Every transport delivers each peer's messages intact, once and in order",
  "For every network implementation (in-process, TCP, TLS, QUIC, session TCP), number of parties, number of parallel networks and interleaving of sends and receives, the k-th receive from a peer returns exactly the bytes of that peer's k-th send to the receiver on the same network. Messages of any size up to the configured limit (including empty ones) arrive unmodified, and traffic between one pair of parties, or on one of several parallel networks, never shows up on another.",
  ["schedules", "inputs", "configurations", "histories"],
  "for all party counts, transports, message sizes and contents, and all interleavings of concurrent sends and receives (within the queue capacity)",
  "the tests exchange a handful of fixed short messages in lock step; reordering, cross-talk between pairs or networks, or loss at frame/chunk boundaries needs particular sizes and interleavings",
  [NET+f for f in ("lib.rs","local.rs","blocking.rs","tcp.rs","tls.rs","quic.rs","tcp_session.rs","tcp_session_blocking.rs")],
  ["LocalNetwork send/recv", "BlockingChannels writer/reader threads and FrameReader", "AsyncChannels length-delimited streams"],
  "return value of recv at every party")
p("N02", "Transport faults surface as errors, never as wrong, partial or endless results",
  "Whatever a peer does to a stream (fragmenting frames arbitrarily, announcing frames above the configured maximum, closing in the middle of a frame, staying silent), a receive returns either a complete message exactly as framed by the peer or an error, and it returns an error within the configured timeout when nothing more can arrive. Frames received completely before a disconnect are still delivered, frames larger than the limit are refused on both the sending and the receiving side, addressing an unknown party is an error, and once a peer is gone sending to it and flushing report that instead of waiting.",
  ["fault_sequences", "inputs", "schedules"],
  "for all fragmentations of the byte stream, cut points, announced lengths, silence periods and party ids",
  "needs a hostile or failing peer that speaks raw bytes; cut points and fragmentations are unbounded",
  [NET+f for f in ("blocking.rs","local.rs","tcp.rs","tcp_session.rs","tcp_session_blocking.rs")],
  ["FrameReader length prefix parsing", "max_frame_length checks", "receive timeouts", "reader/writer thread shutdown"],
  "recv/send results against a raw-socket peer")
p("N03", "Connections join exactly the session, network index and parties that asked",
  "With any number of sessions, parallel networks and parties establishing connections concurrently and in any order, every established channel joins the two parties that named each other for the same session or network index, and data sent on it is received under the sender's party id. A connection carrying an unknown session, a wrong party id or an incomplete handshake never becomes part of, or prevents, another session. Over TLS and QUIC, a party asked to connect under a name for which it cannot show a configured certificate is never joined.",
  ["schedules", "configurations", "fault_sequences"],
  "for all numbers of sessions, orders of initiation on the two sides, and interleaved bogus connections",
  "tests create one or two sessions in a fixed order; mismatches depend on who connects first and on concurrent handshakes",
  [NET+f for f in ("tcp.rs","tls.rs","quic.rs","tcp_session.rs","tcp_session_blocking.rs")],
  ["handshake (network index / session id, party id)", "session waiter map", "connect order by party id"],
  "messages tagged with (session, from, to) observed at each party")
p("N04", "Traffic statistics count exactly the payload bytes exchanged with each peer",
  "At any point of any history of successful sends and receives, the connection statistics of a network report, for every other party, exactly the number of payload bytes sent to and received from that party on this network, and nothing for a party that was not contacted. The difference of two snapshots is the traffic that happened between them.",
  ["histories", "configurations"],
  "for all message histories, party counts and snapshot positions",
  "tests look at one total after one exchange; mixing up peers, directions or snapshots needs asymmetric histories",
  [NET+"lib.rs", NET+"local.rs", NET+"blocking.rs", NET+"tcp_session.rs"],
  ["ConnectionStats get/iter/get_diff_to", "per-peer atomic counters"],
  "get_connection_stats after arbitrary histories")
p("N05", "Network configurations survive text round trips and reject malformed text",
  "Every address accepted by the parser is printed back to text that parses to the same host and port, and the same holds for its serialised form; text that is not host:port with one colon and a decimal port from 0 to 65535 is rejected with an error rather than misread. A configuration file is read to exactly the parties, ids, addresses, limits and timeouts it spells out.",
  ["inputs", "configurations"],
  "for all host strings and ports, and all generated configuration files",
  "the text domain is unbounded (IPv6-like hosts, missing or excessive ports, zero padding); tests use a couple of literals",
  [NET+"config.rs"],
  ["Address FromStr/Display/serde", "NetworkConfigFile conversion and builder"],
  "parse results")

p("S01", "Any t+1 Shamir shares reconstruct the shared value; all lie on one polynomial",
  "For every field or group, number of parties n and degree t < n, sharing a value and combining the shares of any t+1 (or more) distinct parties gives back exactly that value, for single elements, vectors and curve points. All n shares lie on one polynomial of degree at most t, and combining fewer shares than required is reported as an error or does not yield a result.",
  ["inputs", "configurations"],
  "for all values, (n,t) and subsets of parties",
  "the tests combine one subset for a few (n,t); lagrange/evaluation errors may only show for particular subsets or degrees",
  [CORE+"protocols/shamir.rs", CORE+"protocols/shamir/arithmetic/types.rs", CORE+"protocols/shamir/pointshare/types.rs"],
  ["share_field_element(s)/share_curve_point", "combine_field_element(s)/combine_curve_point", "lagrange coefficients"],
  "shares and reconstructed values")
p("S02", "Up to t shares carry no information about the secret",
  "For Shamir sharing with degree t, the joint distribution of any t shares is the same for every secret; for replicated 3-party sharing (fields, rings, bit strings, points) the data held by any single party is distributed independently of the secret. Every sharing uses fresh uniform randomness, so repeated sharings of one value are independent.",
  ["inputs", "configurations"],
  "for all secrets and all sets of up to t parties (one party for replicated sharing)",
  "a leak leaves every functional test green; it is a statement about distributions, not about single outputs",
  [CORE+"protocols/shamir.rs", CORE+"protocols/rep3.rs", CORE+"protocols/rep3_ring.rs", "co-circom/co-circom-types/src/lib.rs"],
  ["share_* functions and the polynomial coefficient sampling"],
  "distribution of the shares of coalitions over tiny fields and rings")
p("S03", "Shamir MPC computes what the cleartext computation computes",
  "For every number of parties n and threshold t with 2t < n, every sequence of secret-shared operations (linear operations with shares and constants, multiplications, vector products, inner products, inversions, divisions, masks, openings) opened at the end gives the result of the same sequence on cleartext values, at every party. Every intermediate share is a degree-t sharing of the cleartext intermediate value; inverting zero is an error.",
  ["inputs", "histories", "configurations"],
  "for all operation sequences, operand values (including 0, 1, -1), batch lengths and (n,t)",
  "operation sequences and (n,t) are unbounded; king handling, batching and triple consumption errors only show in particular combinations",
  [CORE+"protocols/shamir/arithmetic.rs", CORE+"protocols/shamir/network.rs", CORE+"protocols/shamir/arithmetic/ops.rs", CORE+"protocols/shamir/poly.rs"],
  ["degree_reduce(_many)", "mul/inv/div/open and their vector forms", "eval_poly"],
  "opened values at each party and degree checks on the shares")
p("S04", "Shamir preprocessing yields consistent, fresh, never reused double sharings",
  "For every n, t with 2t < n and every requested amount, each correlated random pair handed to the parties consists of a degree-t and a degree-2t sharing of one and the same uniformly random value unknown to any t parties, and no pair is handed out twice, also not across forked states. Requesting more pairs than were prepared and parameters with 2t >= n are refused instead of producing unusable randomness.",
  ["configurations", "histories"],
  "for all (n,t), amounts, interleavings of consumption, refills and forks",
  "pair consistency is invisible when a test only opens one product; reuse or off-by-one in buffers needs particular amounts",
  [CORE+"protocols/shamir.rs", CORE+"protocols/shamir/rngs.rs"],
  ["ShamirPreprocessing", "buffer_triples / get_pair / fork", "DN07 Vandermonde extraction"],
  "pairs of all parties, interpolated")
p("S05", "Shared curve-point arithmetic equals cleartext group arithmetic",
  "For Shamir-shared and replicated curve points on every supported curve, any combination of additions, subtractions, multiplications by shared or public scalars, multi-scalar multiplications and openings yields the same group element as on cleartext points and scalars, at every party. This includes the point at infinity, zero scalars and empty or length-one inputs.",
  ["inputs", "histories", "configurations"],
  "for all points, scalars, lengths, (n,t) and operation sequences",
  "edge points and scalars and operand-order mistakes (share minus point versus point minus share) are not covered by sampled unit tests",
  [CORE+"protocols/shamir/pointshare.rs", CORE+"protocols/shamir/pointshare/ops.rs", CORE+"protocols/rep3/pointshare.rs", CORE+"protocols/rep3/pointshare/ops.rs"],
  ["scalar_mul", "open_point(_many)", "msm_public_points", "point share operators"],
  "opened points")
p("S06", "Messages of an MPC party look random to their receivers",
  "In the interactive multiplication and resharing steps of the Shamir and replicated protocols, every message a party sends to another party that is not the agreed opening of a result is masked by fresh randomness unknown to the receiver, so its distribution does not depend on the secret inputs. Running the same computation twice never sends the same masked message.",
  ["inputs", "histories"],
  "for all inputs and operation sequences",
  "functional tests cannot see a dropped mask: results stay correct while secrets leak",
  [CORE+"protocols/shamir/network.rs", CORE+"protocols/shamir/arithmetic.rs", CORE+"protocols/rep3/arithmetic.rs", CORE+"protocols/rep3/rngs.rs", CORE+"protocols/rep3_ring/arithmetic.rs"],
  ["degree reduction masks", "masking_field_element / zero shares"],
  "bytes recorded by a network wrapper")

p("C01", "Fixed-width integers compute modulo 2^width for every width",
  "For every supported width, all arithmetic, shift, bit and comparison operations of the fixed-width integers equal the operation on mathematical integers reduced modulo 2^width: shifting by at least the width gives zero, masks and truncations keep exactly the low bits, and conversions to and from machine integers, limbs, bytes and big integers agree. Text, serde and canonical byte encodings round-trip and have the documented size.",
  ["inputs"],
  "for all values, widths, shift amounts and bit positions, with carries and borrows across limb boundaries",
  "limb-boundary carries, shift amounts at or above the width and non-multiple-of-64 masks are measure-zero for random tests",
  [CORE+"uint/mod.rs", CORE+"uint/ruint_wrapper.rs"],
  ["UintBackend implementation over ruint"],
  "operation results against a big-integer model")
p("C02", "Ring elements and bits compute modulo 2^k",
  "For every ring type (single bits, 8- to 128-bit and wide integers) the operators compute modulo 2^k exactly as mathematical integers do; for single bits addition is XOR and multiplication is AND. Casts between rings keep exactly the low bits, bit extraction and bit-list conversions agree with the binary representation, and encodings round-trip with the documented size and reject invalid bits.",
  ["inputs"],
  "for all values, shift amounts, bit positions and ring pairs",
  "wrap-around, shifts at the ring width, sign-like boundaries and bit order are corner cases of huge domains",
  [CORE+"protocols/rep3_ring/ring/"+f for f in ("bit.rs","int_ring.rs","ring_impl.rs")],
  ["IntRing2k", "RingElement operators", "Bit"],
  "operation results against an integer model")
p("C03", "Field elements and integers convert without loss",
  "For every supported field, converting a field element to its integer representation and back is the identity, the integer is the canonical representative below the modulus, and reducing an arbitrary integer into the field gives its residue. The integer type is wide enough for the modulus, whose integer value equals the field's modulus.",
  ["inputs", "configurations"],
  "for all field elements and all integers of the backing width in every field",
  "values at or above the modulus and fields whose width equals the limb width are where conversions go wrong; random values rarely hit them",
  [CORE+"uint/field_uint.rs", CORE+"uint/ruint_wrapper.rs"],
  ["FieldUint to_uint / from_uint_reduced / from_uint_unchecked / modulus_uint"],
  "converted values against a big-integer model")
p("C04", "Boolean circuit files keep their meaning when read, checked, written, evaluated",
  "Every well-formed Bristol Fashion circuit is accepted and evaluates, on every input, to the value of its gates; writing a circuit and reading it back preserves its function. Circuits that use undefined wires, define a wire twice, or disagree with their declared gate and wire counts are refused with an error instead of crashing or being evaluated.",
  ["inputs", "programs"],
  "for all circuits (gate mixes, wire orders, constants) and inputs, and for all malformed files",
  "the tests parse two fixed circuits; grammar corner cases and malformed counts are unbounded",
  [CORE+"protocols/rep3/yao/bristol_fashion/bristol.rs", CORE+"protocols/rep3/yao/bristol_fashion/mod.rs"],
  ["parser", "verifier/leveling", "evaluator", "writer"],
  "evaluation results against a reference interpreter",
  hook="re-export of the crate-private circuit type under --cfg co_snarks_verif")
p("C05", "Poseidon2 over shares equals plain Poseidon2, which equals its specification",
  "For every supported state size and every input, the plain permutation follows the Poseidon2 definition given its constants, and the permutation of secret-shared states (Shamir and replicated; single, with precomputation, batched) opens to the plain permutation of the cleartext states at every party. Consuming precomputed material in batches of any size gives the same results as one state at a time.",
  ["inputs", "configurations"],
  "for all states, state sizes, batch sizes, (n,t) and call variants",
  "tests hash a few fixed vectors; batching offsets and precomputation indices fail only for some sizes",
  [CORE+"gadgets/poseidon2/"+f for f in ("poseidon2_permutation.rs","shamir.rs","rep3.rs")],
  ["permutation", "external/internal linear layers", "precomputation and packed variants"],
  "opened states")
p("C06", "Merkle trees bind every leaf and give verifying paths for all sizes",
  "For every arity, tree height and set of leaves, the root equals the recursive hash of the leaves, in both hashing modes, for plain, Shamir and replicated computation. The path produced for any leaf verifies against the root, and changing the leaf, its position, the root or any sibling makes verification fail.",
  ["inputs", "configurations"],
  "for all leaf vectors, arities, hash modes and leaf positions",
  "index arithmetic at other arities/levels and path tampering are not covered by a few fixed trees",
  [CORE+"gadgets/merkle_tree/plain.rs", CORE+"gadgets/merkle_tree/shamir.rs", CORE+"gadgets/merkle_tree/rep3.rs"],
  ["merkle_tree_sponge / merkle_tree_compression", "with_witness", "verify_merkle_path"],
  "roots and verification results")
p("C07", "Shares and witnesses survive encoding and decoding unchanged",
  "Every share, shared point, shared integer, shared witness and shared input encoded by its serialiser and decoded again is identical, for all fields, curves and lengths, in the binary formats exchanged between parties and stored in files. Truncated encodings are rejected with an error, and so are encodings of numbers not below the field's modulus and, where validation is asked for, of points off the curve or outside its prime-order group.",
  ["inputs"],
  "for all share types, values and lengths, all truncation points, and invalid values",
  "tests encode a few values; length prefixes, compressed points and nested vectors have unbounded shapes",
  [CORE+"serde_compat.rs", CORE+"protocols/shamir/arithmetic/types.rs", CORE+"protocols/rep3/arithmetic/types.rs", CORE+"protocols/rep3/binary/types.rs", "co-circom/co-circom-types/src/lib.rs"],
  ["ark_se/ark_de serde adapters", "derived CanonicalSerialize"],
  "decoded values")
p("C08", "Plain lookup tables behave like arrays",
  "A public-data lookup table read at any index returns the value last written there or the initial value, any sequence of reads and writes behaves like an array of the same length, and an index that does not fit is an error rather than another element.",
  ["histories", "inputs"],
  "for all read/write histories and index values including ones that do not fit machine words",
  "index conversion from field elements wraps only for unusual values",
  [CORE+"lut.rs"],
  ["PlainLookupTableProvider", "PlainCurveLookupTableProvider"],
  "read results against an array model")

p("T01", "Sharing a witness keeps its public part and its private values exactly",
  "Sharing a witness among the parties and recombining the parties' private parts gives the original witness for replicated and Shamir sharing, every party receives the identical public part in the original order (including the leading constant), and the inputs used for verification are exactly the public inputs. Splitting a batched witness gives, for each batch position, the values of that position.",
  ["inputs", "configurations"],
  "for all witness lengths, numbers of public inputs, batch sizes, (n,t)",
  "off-by-one at the public/private boundary depends on the number of public inputs and constraints",
  ["co-circom/co-circom-types/src/lib.rs"],
  ["SharedWitness share_rep3/share_shamir", "public_inputs_for_verify", "BatchedWitness::unbatch", "compressed replicated witnesses"],
  "shared witnesses of all parties")
p("T02", "Splitting and merging named inputs loses and changes nothing",
  "Splitting a JSON input among three parties and recombining the shares gives the original values for every name, with nested arrays flattened in order, booleans, decimal, hexadecimal and negative numbers read as the corresponding field element, and public inputs left in the clear. Merging inputs of different providers keeps every value, and a name provided twice is an error.",
  ["inputs"],
  "for all nested input shapes, value notations and assignments of names to providers",
  "the shape and notation space is unbounded; tests use flat examples",
  ["co-circom/co-circom-types/src/lib.rs"],
  ["split_input", "merge_input_shares", "Rep3InputType"],
  "combined inputs")

G = "co-circom/co-groth16/src/"
p("G01", "Groth16: every satisfying witness yields a verifying proof, plain and in MPC",
  "For every satisfiable constraint system, proving key, and satisfying witness, the plain prover and the collaborative provers (replicated 3-party and Shamir for every n, t with 2t < n, and replicated inputs proved over Shamir), with either constraint-to-polynomial reduction, produce a proof accepted by this library's verifier and by an independent verifier. All parties of a collaborative run output the same proof.",
  ["inputs", "programs", "configurations"],
  "for all constraint systems (sizes around powers of two, empty linear combinations, any number of public inputs), witnesses, curves, (n,t)",
  "tests prove two fixed circuits; domain sizing, public-input rows and sparse matrices vary over unbounded circuits",
  [G+f for f in ("groth16.rs","groth16/reduction.rs","mpc.rs","mpc/plain.rs","mpc/shamir.rs","mpc/rep3.rs","lib.rs")],
  ["witness map (circom and libsnark reductions)", "proof assembly with shared r, s", "distributed MSM"],
  "proofs of all parties")
p("G02", "Groth16: the verifier accepts nothing but matching statements",
  "A proof for one statement is rejected for any other public inputs, with any proof element changed or swapped, under another verification key, or with the wrong number of public inputs; a witness violating a constraint never leads to an accepted proof. Rejection is reported as an error value, not a crash.",
  ["inputs", "fault_sequences"],
  "for all statements, single-element mutations of proof, inputs and witness",
  "soundness is about all wrong inputs; tests try at most one",
  [G+"groth16.rs", G+"lib.rs", G+"verifier.rs", G+"groth16/reduction.rs"],
  ["verify"],
  "verification result")
p("G03", "Groth16: proofs are freshly randomised and mismatched witnesses are refused",
  "Proving the same statement twice gives different proof elements each time, with the blinding unknown to any allowed coalition. A witness whose public or private length does not fit the proving key and constraint system is refused with an error by every prover.",
  ["inputs", "histories"],
  "for all circuits and repeated proofs, and all length mismatches",
  "determinism (missing blinding) and silent truncation of witnesses leave every verification test green",
  [G+"groth16.rs", G+"mpc/plain.rs", G+"mpc/shamir.rs"],
  ["rand r, s", "witness length checks"],
  "proof elements and prover results")
K = "co-circom/co-plonk/src/"
p("K01", "PLONK: every satisfying witness yields a verifying proof, plain and in MPC",
  "For every PLONK circuit with at least one public input, its key and a satisfying witness, the plain prover and the collaborative provers (replicated 3-party; Shamir for every n, t with 2t < n) produce a proof that the verifier accepts, and all parties output the same proof. The challenges are derived so that an independent computation of the protocol from the proof and key accepts it too.",
  ["inputs", "programs", "configurations"],
  "for all circuits (gate selectors, copy constraints, linear additions, domain sizes, numbers of public inputs), witnesses, (n,t)",
  "tests prove two fixed circuits; blinding, permutation and quotient splitting depend on the circuit's shape",
  [K+f for f in ("lib.rs","plonk.rs","round1.rs","round2.rs","round3.rs","round4.rs","round5.rs","types.rs","mpc/plain.rs","mpc/shamir.rs","mpc/rep3.rs")],
  ["rounds 1 to 5", "Keccak transcript"],
  "proofs of all parties")
p("K02", "PLONK: the verifier accepts nothing but matching statements",
  "A PLONK proof is rejected for any other public inputs, with any commitment or evaluation changed or swapped, under another key, or with the wrong number of public inputs; a witness violating a gate or a copy constraint never leads to an accepted proof. Rejection is reported as a result, not a crash.",
  ["inputs", "fault_sequences"],
  "for all statements and single-element mutations of proof, inputs, key and witness",
  "soundness is about all wrong inputs; a term dropped from the linearisation or the transcript goes unnoticed by accepting tests",
  [K+"plonk.rs", K+"types.rs", K+"round3.rs"],
  ["verify", "Fiat-Shamir transcript"],
  "verification result")
p("K03", "PLONK: proofs are freshly randomised and malformed input is an error",
  "Proving the same statement twice gives different commitments each time. Keys or witnesses that do not fit together (too short witness, domain too large, wrong number of public inputs for verification) are reported as errors and never as an accepted proof.",
  ["inputs", "histories"],
  "for all circuits, repeated proofs and mismatched inputs",
  "missing blinding keeps verification green",
  [K+"round1.rs", K+"plonk.rs", K+"types.rs"],
  ["blinding factors", "Domains::new", "witness lookup"],
  "commitments and results")

R = CORE+"protocols/rep3/"
p("R01", "Replicated shares are consistent and recombine to the shared value",
  "For every field, ring, bit width and curve point, sharing a value among three parties gives shares where each party's second component equals the previous party's first, and recombining gives the value; promoting public values to shares gives valid shares of them at every party. Linear operators on shares equal the operators on the values.",
  ["inputs"],
  "for all values, vectors and operator combinations",
  "replication consistency is not visible in an additive recombination, and constants are added by only one party",
  [CORE+"protocols/rep3.rs", R+"arithmetic/ops.rs", R+"arithmetic/types.rs", R+"binary/ops.rs", R+"binary/types.rs", R+"id.rs"],
  ["share_*/combine_*", "promote_from_trivial", "share operators"],
  "shares of all parties")
p("R02", "Replicated field arithmetic computes what the cleartext computation computes",
  "For every sequence of replicated-sharing operations over a prime field (linear operations, multiplications, vector and inner products, inversions, square roots, equality and comparison tests, selections, powers, openings), the opened result equals the cleartext result at every party, and all intermediate shares stay consistent between parties.",
  ["inputs", "histories"],
  "for all operation sequences and operand values including 0, 1, p-1, (p-1)/2 and neighbours",
  "comparison and equality protocols have rare edge values; share consistency is never checked by opening",
  [R+"arithmetic.rs", R+"detail.rs", R+"network.rs"],
  ["mul/reshare", "inv/sqrt", "lt/le/gt/ge/eq/is_zero", "cmux"],
  "opened values and share consistency")
p("R03", "Replicated bit-string operations equal integer bit operations",
  "For every field and bit width, XOR, AND, OR, shifts, selections, zero tests and openings on bit-shared integers equal the same operations on the integers, with public and shared operands, and their vector forms equal element-wise application.",
  ["inputs", "histories"],
  "for all values, shift amounts and operation sequences",
  "shift amounts and masks beyond the modulus size are corner cases",
  [R+"binary.rs", R+"binary/ops.rs"],
  ["and/or/xor/shift/cmux/is_zero/open"],
  "opened values")
p("R04", "Converting between sharing types preserves the shared value",
  "Converting a replicated field or ring sharing between arithmetic, binary and garbled (Yao) form, in both directions and with every available conversion method, singly and in batches, gives a sharing of the same value; single-bit injection and bit decomposition agree with the binary representation.",
  ["inputs", "configurations"],
  "for all values (0, 1, p-1, values near the modulus), ring widths, methods and batch sizes",
  "carry and modular wrap-around happen only when random shares overflow in specific ways; batch variants have their own indexing",
  [R+"conversion.rs", R+"yao.rs", R+"detail.rs", CORE+"protocols/rep3_ring/conversion.rs", CORE+"protocols/rep3_ring/yao.rs", CORE+"protocols/rep3_ring/detail.rs"],
  ["a2b/b2a/a2y/y2a/b2y/y2b", "bit_inject", "garbled adders"],
  "opened values")
p("R05", "Garbled-circuit gadgets compute their integer functions",
  "For every input, the garbled-circuit building blocks and the protocols made of them (field addition, integer division by shared, public and power-of-two divisors, remainder slicing, bit decomposition, rotation and XOR slices, ring truncations) give the same result as the corresponding integer function, and the streaming and buffered garblers agree.",
  ["inputs", "configurations"],
  "for all operands incl. zero divisors' neighbours, modulus boundaries, slice sizes and bit lengths",
  "gate-level mistakes in a rarely taken carry or a table edge show up only for specific operand patterns",
  [R+"yao.rs", R+"yao/circuits.rs", R+"yao/garbler.rs", R+"yao/evaluator.rs", R+"yao/streaming_garbler.rs", R+"yao/streaming_evaluator.rs", CORE+"protocols/rep3_ring/yao.rs"],
  ["GarbledCircuits gadgets", "half-gate garbling and evaluation"],
  "opened values")
p("R06", "Replicated correlated randomness stays in step and sums to zero",
  "For every history of draws and forks on the three parties' states, zero-sharings of all kinds sum (or XOR, or multiply) to the neutral element, pairwise and shared randomness agrees between the parties that share it, sampled shares are consistent, and permutations and vectors derived from common seeds agree. Different draws and different forks give independent values.",
  ["histories"],
  "for all histories of draws, batch sizes and forks",
  "desynchronisation appears only after particular mixed histories and breaks privacy rather than results",
  [R+"rngs.rs", CORE+"protocols/rep3.rs"],
  ["Rep3CorrelatedRng", "Rep3Rand", "Rep3RandBitComp", "Rep3State::fork"],
  "values drawn by all parties")
p("Q01", "Replicated ring arithmetic and comparisons equal machine integers",
  "For every ring width, every sequence of replicated ring operations (wrapping addition, subtraction, multiplication, inner products, shifts, comparisons, equality, bit operations, casts between widths, opening) gives the result of the same operations on machine integers of that width, at every party.",
  ["inputs", "histories"],
  "for all operation sequences, ring widths and boundary operands",
  "wrap-around, unsigned comparison at the top bit and casts are edge cases of every width",
  [CORE+"protocols/rep3_ring/"+f for f in ("arithmetic.rs","binary.rs","casts.rs","detail.rs")],
  ["ring arithmetic", "comparisons", "casts"],
  "opened values")
p("Q02", "Oblivious sorting and lookups equal their plain counterparts",
  "For every list, key width and secret index, the oblivious sort returns the stable sorted permutation of its inputs and applies it consistently to attached payloads, and secret-indexed lookups read and write exactly the addressed element of a public or shared table of any length (field, ring or curve elements).",
  ["inputs", "configurations", "histories"],
  "for all lists (duplicates, lengths, key sizes), table lengths (not only powers of two) and indices",
  "stability, duplicates, odd lengths and padding are corner cases of an unbounded domain",
  [CORE+"protocols/rep3_ring/gadgets/sort.rs", CORE+"protocols/rep3_ring/lut_field.rs", CORE+"protocols/rep3_ring/lut_curve.rs", CORE+"protocols/rep3_ring/gadgets/lut_field.rs", CORE+"lut.rs"],
  ["radix sort", "one-hot LUT protocols"],
  "opened outputs against array models")
p("B01", "Translating replicated shares to Shamir shares keeps the values",
  "For every vector of replicated shares of field elements or points, translating it to three-party Shamir shares gives degree-1 shares of the same values at every party, for single and batched translation, and the translated shares can be used in further Shamir computation.",
  ["inputs", "configurations"],
  "for all vectors and lengths",
  "the translation is used once per proof with one length",
  [CORE+"protocols/bridges.rs", CORE+"protocols/bridges/rep3_to_shamir.rs"],
  ["RepToShamirNetwork / translate_primefield_repshare(_vec)"],
  "combined Shamir shares")
p("V01", "MPC witness extension computes the plain witness",
  "For every program of the circuit virtual machine and every input, running it with secret-shared inputs (any subset of inputs public) gives a shared witness that recombines to the witness of the plain run: arithmetic, integer division and modulo, comparisons, boolean and bit operations, shifts, conditionals on shared values, loops, arrays and function calls all agree with the circuit language's semantics on the cleartext. A failing assertion in the plain run is also a failure in MPC.",
  ["programs", "inputs"],
  "for all programs, inputs and public/shared splits",
  "tests run fixed circuits (and not at all offline); mixed public/shared operand dispatch multiplies with every operator",
  ["co-circom/circom-mpc-vm/src/"+f for f in ("mpc_vm.rs","mpc/plain.rs","mpc/rep3.rs","mpc/shamir.rs","mpc/batched_plain.rs","mpc/batched_rep3.rs","op_codes.rs")],
  ["VmCircomWitnessExtension implementations", "bytecode interpreter"],
  "witness")

if __name__ == "__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for x in P:
            if len(x["title"]) > 80: print(x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
