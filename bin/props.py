import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
S="packages/Spartan-secq/src/"; Q="packages/secq256k1/src/"; CR="packages/circuit_reader/src/"; CI="packages/circuits/"; L="packages/lib/src/"
p("C01","Proof-system scalars compute exactly in the prime field",
 "Every arithmetic operation of the proof system's scalar type (addition, subtraction, negation, doubling, multiplication, squaring, powers, inversion, batch inversion, sums, products, selection, comparison) returns exactly the value arithmetic modulo the secp256k1 base-field prime prescribes, in every calling form and for every chain of operations. Inversion is defined exactly for nonzero elements, and batch inversion inverts every listed element and returns the inverse of their product.",
 ["inputs","programs"],"all pairs of 256-bit operands and all finite sequences of operations on them, including operands whose internal representation sits on a carry or reduction boundary",
 "The unit tests use a handful of constants and a loop around the largest element; carry and final-subtraction faults show only on operands with particular limb patterns.",
 [S+"scalar/scalar.rs",S+"scalar/mod.rs"],[("Montgomery reduction and conditional subtraction",S+"scalar/scalar.rs"),("addition-chain inversion",S+"scalar/scalar.rs")],["public operators and methods of the scalar type"])
p("C02","Scalar encodings are canonical and wide reductions are exact",
 "Decoding 32 bytes as a scalar succeeds exactly when they are the little-endian form of a number below the field prime, and then encoding gives the same bytes back; equal scalars have equal encodings, text forms and serialised forms. Reducing a 64-byte string, raw limbs, a machine integer or 512 random bits yields exactly that number modulo the prime.",
 ["inputs"],"all 32-byte and 64-byte strings, all raw limb vectors and 64-bit integers",
 "Tests decode a few values just above and below the prime; a comparison that errs in one limb accepts a second encoding of some scalars (malleable proofs) without failing them.",
 [S+"scalar/scalar.rs",S+"scalar/mod.rs"],[("strict decoding by trial subtraction",S+"scalar/scalar.rs"),("wide reduction with R^2 and R^3",S+"scalar/scalar.rs")],["encode/decode/serialise functions of the scalar type"])
p("C03","Curve field elements compute exactly, including square roots and codecs",
 "The two field types of the curve crate and its exported scalar type compute exactly modulo their primes in every operation; a square root returned squares back to its argument, exists exactly for squares, and the ratio form reports exactly whether a nonzero ratio is a square. Little- and big-endian conversions and the serialised forms round-trip, decode only canonical encodings where decoding is checked, reduce wide strings exactly, and parse decimal strings as the number they denote.",
 ["inputs","programs"],"all field elements of both primes, all byte strings and decimal strings",
 "Tests sample few values; the square-root and ratio branches depend on the residue class of the argument, and the tests only take roots of squares.",
 [Q+"field/field_secp.rs",Q+"field/field_secq.rs",Q+"field/mod.rs",Q+"scalar.rs"],[("Montgomery arithmetic",Q+"field/mod.rs"),("square root by exponentiation",Q+"field/field_secp.rs"),("square-root ratio for the map to the curve",Q+"field/field_secq.rs")],["public methods of the field types"])
p("C04","Curve points form the secq256k1 group and have one compressed form each",
 "Addition, subtraction, negation, doubling, scalar multiplication, sums and multi-scalar multiplication of curve points follow the group law of y^2 = x^3 + 7 over the secp256k1 scalar field, for all points including the identity, equal and opposite points, and all scalars. Compressing and decompressing a point gives the point back; decompression accepts only encodings of points on the curve and every point has exactly one accepted compressed form; equality of points is equality of the points they denote, whatever their coordinates.",
 ["inputs","programs"],"all pairs of points in all representations, all scalars, all 33-byte strings",
 "Tests check a few multiples of the generator; exceptional cases (identity, doubling, opposite points, non-normalised coordinates, scalars 0, 1, n-1) are each one branch.",
 [Q+"affine.rs",Q+"lib.rs",Q+"scalar.rs",S+"group.rs"],[("complete addition from the curve backend",Q+"affine.rs"),("SEC1 compression",Q+"affine.rs"),("multi-scalar multiplication",S+"group.rs")],["point operators, compress/decompress, multi-scalar multiplication"])
p("C05","Hash-to-curve and commitment generators are valid and deterministic",
 "Mapping uniform bytes to the curve always returns a point of the curve, equal to the sum of the two points that the simplified SWU map and the 3-isogeny assign to the two halves of the input. Commitment generators are a function of the label and the count alone, a longer family extends a shorter one, splitting or rescaling keeps the generators, and a commitment to values under a blinding is exactly the sum of the generators weighted by the values plus the blinding generator weighted by the blinding.",
 ["inputs","configurations"],"all 128-byte strings including exceptional field elements, all labels, sizes, value vectors and blindings",
 "No test evaluates the map against an independent computation; exceptional branches (zero denominators, non-square first candidate, sign choice) are not reached on purpose.",
 [Q+"hashtocurve.rs",Q+"affine.rs",S+"commitments.rs"],[("simplified SWU and isogeny",Q+"hashtocurve.rs"),("SHAKE256 generator derivation",S+"commitments.rs")],["from-uniform-bytes constructor, generator constructor, commit"])
p("C06","Poseidon is the same function in the circuit, in Rust and by specification",
 "The two-input Poseidon hash of the Rust crate, the one reachable through the WebAssembly interface and the one the circuit template computes are the same function of their inputs: width 3, four full, fifty-six partial and four full rounds with fifth-power S-boxes, the published constants and domain tag 3, output the second state element. The circuit's constraints determine its output uniquely.",
 ["inputs"],"all pairs of field elements",
 "Each side has one or two fixed digests; nothing compares the implementations on other inputs or shows that the circuit's constraints force the output.",
 ["packages/poseidon/src/lib.rs","packages/poseidon/src/k256_consts.rs","packages/poseidon/src/poseidon_k256.rs",CI+"poseidon/poseidon.circom",CI+"poseidon/poseidon_constants.circom","packages/spartan_wasm/src/wasm.rs"],[("sponge permutation",'packages/poseidon/src/lib.rs'),("permutation circuit",CI+"poseidon/poseidon.circom")],["hash functions, circuit output"])
p("C07","R1CS files are read exactly, and files that are not valid are refused",
 "Reading a constraint file whose sections are well formed yields exactly the header, the constraints (with every wire index and coefficient) and the wire map the file contains, whatever the order of its sections and whatever unknown sections are present. A file with a wrong magic number, version, field size, header or map size, a nonzero label for wire 0, or truncated contents is never read as a circuit.",
 ["inputs","configurations"],"all circuits over the field, all section orders and extra sections, all truncations and single-field corruptions",
 "No test reads a file at all; section order and corrupt inputs are never exercised.",
 [CR+"circom_reader.rs"],[("section table and per-section readers",CR+"circom_reader.rs")],["reader functions of the circuit reader"])
p("C08","Witness files are read exactly, and malformed ones never yield a proof",
 "Reading a witness file yields exactly its field elements in order, and a file with a wrong magic, version, section layout, size or truncated contents is never accepted as a witness. The Poseidon entry point maps the 64 little-endian input bytes to the little-endian digest and refuses other lengths and non-canonical elements.",
 ["inputs"],"all witness contents over the field and all corruptions of one field or truncations of a file",
 "One fixed witness is read in one test; nothing corrupts it.",
 ["packages/spartan_wasm/src/wasm.rs"],[("witness reader","packages/spartan_wasm/src/wasm.rs")],["exported functions of the WebAssembly crate"])
p("C09","Converting a circuit binds its constant and public wires",
 "The proof-system instance produced from a circuit file is satisfied by a witness and public inputs exactly when the circuit is: each constraint is carried over with its coefficients, the constant wire is the constant one, and the wires declared public are the public inputs the verifier supplies, so that changing a public input is never compensated by the prover's private assignment.",
 ["inputs","programs"],"all circuits, all assignments, all numbers of public inputs",
 "The only test proves one fixed circuit with matching inputs; it never asks that other public inputs be rejected.",
 [CR+"lib.rs",CR+"bin/gen_spartan_inst.rs","packages/spartan_wasm/src/wasm.rs"],[("column assignment of wires",CR+"lib.rs"),("public-input parsing","packages/spartan_wasm/src/wasm.rs")],["circuit conversion, prove and verify entry points"])
p("C10","Constraint systems are built faithfully and satisfiability is decided exactly",
 "Building a constraint system accepts exactly entries whose row and column exist and whose value is a canonical scalar, keeps every entry (padding to powers of two adds no constraint and moves the constant and input columns consistently), and refuses the others with an error. The satisfiability test answers yes exactly for assignments that satisfy every constraint, and refuses assignments of the wrong size. A system made up together with an assignment is satisfied by it.",
 ["inputs","programs"],"all sparse matrices, all sizes of constraints, variables and inputs, all assignments",
 "Tests build one small system; sizes that are or are not powers of two, with few variables and many inputs, each take a different padding path.",
 [S+"lib.rs",S+"r1csinstance.rs"],[("padding and entry checks",S+"lib.rs"),("matrix-vector products",S+"r1csinstance.rs")],["instance and assignment constructors, satisfiability test"])
p("C11","Polynomial representations evaluate to the multilinear and univariate truth",
 "Evaluation tables, dense multilinear polynomials, the equality and identity polynomials and compressed univariate round polynomials evaluate at every point to the value their definition gives; fixing variables at the top or bottom, splitting, merging, extending, bounding and computing factored evaluation tables commute with evaluation, and compressing and decompressing a univariate polynomial with the right hint gives it back. Sparse matrix polynomials evaluate as the multilinear extension of the matrix.",
 ["inputs","programs"],"all polynomials of every size used, all evaluation points",
 "Tests evaluate small fixed polynomials; an index or ordering slip in one helper shows only for particular sizes or asymmetric points.",
 [S+"dense_mlpoly.rs",S+"unipoly.rs",S+"sparse_mlpoly.rs",S+"math.rs",S+"r1csinstance.rs"],[("variable binding and evaluation tables",S+"dense_mlpoly.rs"),("interpolation",S+"unipoly.rs")],["crate-internal polynomial types (through the guarded hook)"],"guarded re-export of crate-internal modules")
p("C12","The sum-check protocol proves sums and only sums",
 "For every product-combination of multilinear polynomials, an honestly produced sum-check transcript (plain or with committed round polynomials) is accepted and ends in the evaluation of the combination at the verifier's random point. A transcript for a wrong claimed sum, or one with any round message altered, is rejected or ends in an evaluation claim that does not hold, except for the negligible set of challenges the soundness error allows.",
 ["inputs","fault_sequences"],"all polynomials and claims, all alterations of one or more round messages, all challenges",
 "Tests cover the honest path through the whole proof only; dropping the consistency check of a round keeps them passing.",
 [S+"sumcheck.rs",S+"unipoly.rs",S+"nizk/mod.rs"],[("round consistency check",S+"sumcheck.rs"),("committed round checks",S+"sumcheck.rs")],["sum-check prove and verify (through the guarded hook)"],"guarded re-export of crate-internal modules")
p("C13","Proofs of knowledge, equality, product and inner product are complete and sound",
 "Each of the building-block proofs (knowledge of an opening, equality of committed values, product of committed values, inner product in linear and logarithmic form) is accepted when made honestly for a true statement, and rejected when the statement is false or any element of the proof, the commitments or the (nonzero) public vector is altered or added. Two proofs of one statement with different challenges would reveal the witness.",
 ["inputs","fault_sequences"],"all witnesses, vector lengths and generators, all single alterations of statement or proof",
 "Tests run each proof honestly once; none alters a proof element or statement.",
 [S+"nizk/mod.rs",S+"nizk/bullet.rs"],[("verification equations",S+"nizk/mod.rs"),("logarithmic folding",S+"nizk/bullet.rs")],["prove/verify of each building block (through the guarded hook)"],"guarded re-export of crate-internal modules")
p("C14","Fiat-Shamir challenges depend on everything exchanged before them",
 "Prover and verifier derive the same challenges from the same exchange, and every challenge is a function of the circuit, the public inputs and every prover message sent before it, each encoded unambiguously: changing any of them changes every later challenge. Challenges are the full 64-byte transcript output reduced to a scalar.",
 ["histories"],"all exchanges of all proof kinds and sizes, all single changes to an earlier message",
 "Honest tests pass when both sides forget the same message; only a comparison of what is absorbed with what is sent shows the omission.",
 [S+"transcript.rs",S+"random.rs",S+"r1csproof.rs",S+"lib.rs",S+"r1csinstance.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs"],[("transcript appends before each challenge",S+"r1csproof.rs")],["sequence of transcript operations (recorded by the transcript implementation)"])
p("C15","Honest membership-style proofs always verify",
 "For every constraint system of every size and every satisfying assignment and public input, the proof the prover returns is accepted by the verifier with the same system and inputs, through the library and through the WebAssembly entry points, and survives serialisation. Assignments shorter than the padded size are padded with zeros and proven alike.",
 ["inputs","configurations"],"all sizes of constraints, variables and inputs (powers of two or not, smallest to large), all satisfying assignments",
 "One or two fixed sizes are tested; odd shapes (one constraint, no inputs, more inputs than variables) take other paths.",
 [S+"lib.rs",S+"r1csproof.rs","packages/spartan_wasm/src/wasm.rs"],[("prover and verifier of the satisfiability proof",S+"r1csproof.rs")],["prove and verify"])
p("C16","A proof is accepted only for the very circuit, inputs and statement it proves",
 "Verification never accepts a proof for another constraint system, other public inputs, an unsatisfied system, or a proof in which the value of any element was altered, removed, duplicated or added; malformed or truncated proofs and inputs are refused (by an error or an abort) and never accepted.",
 ["inputs","fault_sequences"],"all single and multiple alterations of honest proofs, all other instances and inputs, and assignments violating at least one constraint",
 "Tests only check that honest proofs verify; removing a verification equation keeps every test green.",
 [S+"lib.rs",S+"r1csproof.rs",S+"sumcheck.rs",S+"nizk/mod.rs",S+"nizk/bullet.rs",S+"dense_mlpoly.rs","packages/spartan_wasm/src/wasm.rs"],[("chain of verification equations",S+"r1csproof.rs")],["verify"])
p("C17","Succinct proofs with committed circuits are complete and reject tampering",
 "A proof made with a circuit commitment verifies against the commitment of that circuit, for every satisfiable system of every supported size, and no altered proof, other commitment or other public input is accepted. The commitment is a function of the circuit, and its evaluation proof accepts only the true evaluations of the circuit's matrices.",
 ["inputs","configurations","fault_sequences"],"all sizes, all satisfying assignments, all alterations of proof, commitment and inputs",
 "One size is tested honestly; memory-checking equations and product-tree checks have no negative test.",
 [S+"lib.rs",S+"sparse_mlpoly.rs",S+"product_tree.rs",S+"r1csinstance.rs",S+"dense_mlpoly.rs"],[("offline memory checking",S+"sparse_mlpoly.rs"),("grand-product arguments",S+"product_tree.rs")],["circuit encoding, prove and verify of the succinct proof"])
p("C18","Prover randomness is fresh, secret and never reused across proofs",
 "Every proof draws its blinding values from newly seeded randomness: two proofs of the same statement and witness share no commitment or response element, and within one proof every blinding is drawn under its own position and differs from every other. No proof element equals an unblinded function of the witness.",
 ["histories","inputs"],"all pairs of runs of the prover on the same or different inputs, all blindings within a run",
 "Tests never compare two proofs; a constant or repeated blinding still verifies.",
 [S+"random.rs",S+"r1csproof.rs",S+"nizk/mod.rs",S+"sumcheck.rs",S+"dense_mlpoly.rs"],[("randomness tape seeded by the operating system",S+"random.rs")],["elements of produced proofs"])
p("C19","Point addition and doubling circuits compute the group law and nothing else",
 "For points of the curve, with (0,0) standing for infinity, the complete-addition circuit has a witness for every pair and its constraints force the output to be the group sum; the incomplete-addition circuit does so for all pairs with different abscissas and doubling for every finite point. No assignment of the internal signals satisfies the constraints with another output.",
 ["inputs"],"all pairs of points including infinity, equal and opposite points; all assignments of internal signals",
 "Tests compute witnesses for a few pairs and never ask whether another output also satisfies the constraints.",
 [CI+"eff_ecdsa_membership/secp256k1/add.circom",CI+"eff_ecdsa_membership/secp256k1/double.circom"],[("slope constraints and case selection",CI+"eff_ecdsa_membership/secp256k1/add.circom")],["circuit inputs and outputs"])
p("C20","The scalar-multiplication circuit computes the multiple and nothing else",
 "For every finite point and every scalar below the group order, the scalar-multiplication circuit has a witness, its output is that multiple of the point, and its constraints determine the bits of the shifted scalar and the output from the inputs. The scalar decomposition yields the bits of the scalar plus the fixed offset modulo the group order.",
 ["inputs"],"all scalars (in particular around 0, the order, and the 128-bit halves) and all finite points; all assignments of internal signals",
 "Tests use a few scalars and only compute witnesses; the split of the scalar into halves is never challenged.",
 [CI+"eff_ecdsa_membership/secp256k1/mul.circom"],[("scalar offset and quotient selection",CI+"eff_ecdsa_membership/secp256k1/mul.circom"),("double-and-add chain",CI+"eff_ecdsa_membership/secp256k1/mul.circom")],["circuit inputs and outputs"])
p("C21","The signature circuit recovers exactly the signer's public key",
 "For every ECDSA key, message and signature, with T and U computed from the signature, the signature circuit outputs the public key that made the signature, s*T + U, and outputs another key when T, U or s belong to another signature; its constraints determine the output from the inputs.",
 ["inputs"],"all keys, messages and signatures (both parities of R, small and large r and s)",
 "One signature is tested.",
 [CI+"eff_ecdsa_membership/eff_ecdsa.circom"],[("s*T + U",CI+"eff_ecdsa_membership/eff_ecdsa.circom")],["circuit inputs and outputs"])
p("C22","Membership circuits accept exactly leaves of the tree under the given root",
 "The Merkle circuit computes the root obtained by hashing the leaf with its siblings in the order the path bits give, for every depth, and admits only 0 and 1 as path bits. The membership circuits are satisfiable exactly when the recovered public key (or its address) hashes up to the public root.",
 ["inputs","configurations"],"all depths, leaves, siblings and path bits, all assignments",
 "Tests prove one member; non-members, wrong roots, wrong order and non-binary path bits are not tried.",
 [CI+"eff_ecdsa_membership/tree.circom",CI+"eff_ecdsa_membership/pubkey_membership.circom",CI+"eff_ecdsa_membership/addr_membership.circom",CI+"instances/pubkey_membership.circom",CI+"instances/addr_membership.circom"],[("path hashing and root equality",CI+"eff_ecdsa_membership/tree.circom")],["circuit satisfiability"])
p("C23","The address circuit computes Ethereum addresses, uniquely",
 "For every public key the address circuit outputs the last 20 bytes of the Keccak-256 digest of the 64-byte key, and the digest template computes Keccak-256 for every message length it supports. The bit decompositions and gates determine the address from the key.",
 ["inputs"],"all public keys, all messages of the supported lengths, every round and lane of the permutation",
 "Two keys are tested; a wrong rotation or lane index would show, but a missing booleanity or an aliasing decomposition would not.",
 [CI+"eff_ecdsa_membership/eff_ecdsa_to_addr.circom",CI+"eff_ecdsa_membership/to_address/zk-identity/eth.circom",CI+"eff_ecdsa_membership/to_address/vocdoni-keccak/keccak.circom",CI+"eff_ecdsa_membership/to_address/vocdoni-keccak/permutations.circom",CI+"eff_ecdsa_membership/to_address/vocdoni-keccak/utils.circom"],[("Keccak-f rounds over bits",CI+"eff_ecdsa_membership/to_address/vocdoni-keccak/permutations.circom")],["circuit inputs and outputs"])
p("C24","Public values of a signature are computed and checked exactly",
 "From r, v (27 or 28) and the message hash (which counts modulo the group order) of any Ethereum signature the library computes T = R/r and U = -(hash/r)G, so that s*T + U is the signing key. The check of public values accepts exactly those T and U, and rejects any other coordinate, message hash, r or parity.",
 ["inputs"],"all keys, messages and signatures, all single changes of a public value",
 "One signature is tested positively.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("T and U computation and comparison",L+"helpers/publicInputs.ts")],["exported compute and verify functions"])
p("C25","Public inputs serialise without loss and with fixed layout",
 "Serialising public inputs and reading them back returns the same values, for every value that fits its field; the layout is r, v, root, Tx, Ty, Ux, Uy as fixed-width big-endian fields followed by the message hash, and the part passed to the proof system is the five circuit fields in that order. Conversions between integers and bytes in either order round-trip with leading zeros kept, and leave their argument as it was.",
 ["inputs"],"all field values including short ones with leading zero bytes, all v, all message hashes",
 "Tests use one value set; leading zeros and odd-length numbers appear only by chance.",
 [L+"helpers/publicInputs.ts",L+"helpers/utils.ts"],[("fixed-width big-endian fields",L+"helpers/publicInputs.ts")],["serialise/deserialise functions"])
p("C26","The library's Merkle tree and hash agree with the circuit",
 "The library's tree returns, after any sequence of insertions and deletions, the root of the zero-padded binary tree of its leaves under the Poseidon hash, and proofs that lead from a leaf to that root in the order the circuit hashes; the public-key hash is the hash of its two coordinates. Proof checking accepts exactly valid proofs.",
 ["histories","inputs"],"all sequences of insertions and deletions, all depths and positions",
 "Tests insert a few leaves and compare with nothing independent.",
 [L+"helpers/tree.ts",L+"helpers/poseidon.ts",L+"helpers/utils.ts"],[("delegation with the Poseidon hash",L+"helpers/tree.ts"),("byte order at the hash boundary",L+"helpers/poseidon.ts")],["tree and hash classes"])
p("C27","The verifier answers true only when proof and public values are both valid",
 "The library's verifier returns true exactly when the proof verifies against the circuit with the five circuit inputs taken from the supplied public input and those inputs are the ones the signature values prescribe; a failing or throwing proof check yields false, other refusals may be errors. The prover passes the witness generator and the proof system the values derived from the signature, message and Merkle proof, and returns the public input it proved.",
 ["inputs","fault_sequences"],"all combinations of valid, invalid and throwing proof checks with matching and non-matching public inputs, local and remote circuits, any order of calls",
 "Tests verify honest proofs only.",
 [L+"core/verifier.ts",L+"core/prover.ts",L+"helpers/utils.ts"],[("conjunction of the two checks",L+"core/verifier.ts"),("assembly of witness input",L+"core/prover.ts")],["prove and verify of the library classes"])
p("C28","End to end, exactly the members of the set can prove membership",
 "From signature to verdict, through tree, witness, circuit conversion, prover and verifier, a signer whose key is in the tree obtains a proof that is accepted, and no proof is accepted whose public inputs name another root, message, signature point or circuit, or whose signer is not in the tree.",
 ["inputs","histories","configurations"],"all keys, messages, trees and positions, all substitutions of one public value, both by recomputation and by reuse of a valid proof",
 "The end-to-end tests need downloads and prove one member; they never try to reuse a proof for other public inputs.",
 [L+"core/prover.ts",L+"core/verifier.ts",CR+"lib.rs","packages/spartan_wasm/src/wasm.rs",CI+"eff_ecdsa_membership/pubkey_membership.circom",S+"lib.rs"],[("the whole pipeline",L+"core/prover.ts")],["verdict of the verifier"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
