#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification explored exhaustively with TLC over small instances; traces recorded from the real code validated against the same specification by TLC"
TC = "TLA+ specification explored with TLC: every satisfying assignment of small likenesses of the circuits (MC_Circuit), derived from their source text; assignments that satisfy the full-size circuits judged by the same functions (TraceCircuit)"
MC = "model_checking"
CHECKS = {
 "C01": (MC, T + " (ScalarMachine)", "every program over tiny primes; recorded programs over the real 256-bit prime on boundary operands"),
 "C02": (MC, T + " (ScalarMachine codecs)", "as C01, for every decoding and reduction function"),
 "C03": (MC, T + " (FieldMachine)", "three field types, both primes"),
 "C04": (MC, T + " (Curve)", "all register contents over small curves of prime order; recorded programs on the real curve"),
 "C05": (MC, T + " (MapToCurve, Keccak)", "the map over every element of small fields; recorded maps and generator families on the real curve, generators re-derived from SHAKE256"),
 "C07": (MC, T + " (R1csFile)", "every section order, truncation and damaged field of small files; recorded reads of generated and damaged files"),
 "C08": (MC, T + " (Wtns, Poseidon)", "as C07 for witness files; byte interface of the hash; proofs from damaged witness files"),
 "C09": (MC, T + " (R1CS)", "all circuits and assignments over F_3 within small sizes; recorded conversions, satisfiability answers and proofs over the real field"),
 "C10": (MC, T + " (R1CS)", "as C09 for systems given by their matrices"),
 "C11": (MC, T + " (Poly)", "every table over tiny primes; recorded operation sequences over the real field"),
 "C12": (MC, T + " (Sumcheck, ZkSumcheck)", "every sum, transcript and challenge over tiny primes; recorded honest and altered runs of the plain and the committed protocol over the real field and group"),
 "C13": (MC, T + " (Sigma)", "completeness and special soundness over small modules; recorded honest, altered and constructed runs over the real group"),
 "C15": (MC, T + " (R1csProof, Sumcheck, Sigma, ZkSumcheck)", "honest provers and verifiers of many systems, sizes and assignments, every step of both transcripts replayed on the specification"),
 "C16": (MC, T + " (R1csProof, Transcript)", "every element of a proof, input and statement altered, removed, duplicated or added; verdicts decided by the specified verifier"),
 "C06": (MC, T + " (Poseidon, Circuit): the hash circuit's own and further satisfying assignments judged by the specification", "the permutation over every state of a small prime, round by round; recorded hashes of crate, byte interface and circuit over the real prime"),
 "C19": (MC, TC, "all assignments of the circuits over F_43 (quick) and F_241 (thorough) for every pair of points; choices the full-size constraints leave, followed to the end"),
 "C20": (MC, TC, "all assignments of the circuits over F_241 and F_1009, all scalars; full-size scalars around the order, the halves and their carries"),
 "C21": (MC, TC, "all assignments over F_241 for sampled scalars and points; signatures and exceptional sums at full size"),
 "C22": (MC, TC, "all assignments of small trees, path bits and roots with stand-ins for the hashes; members, non-members, wrong roots and bits at full size"),
 "C23": (MC, TC, "all assignments of the address circuit over F_241 with a stand-in for the digest; full-size digests and addresses against Keccak-256 as specified"),
 "C24": (MC, T + " (Lib)", "every r, v and message over a curve of 31 points; recorded public values, right and one step off, over the real curve"),
 "C25": (MC, T + " (Lib)", "every value of small fields; recorded serialisations and conversions, short values and leading zeros among them"),
 "C26": (MC, T + " (Merkle, Poseidon)", "every history of insertions and deletions of small trees with a free hash; recorded histories of trees of depth 1 to 20 (32 thorough), proofs of them and proofs one step off"),
 "C27": (MC, T + " (Member, Lib)", "signatures, proofs, forgeries and verdicts in any order with a symbolic proof system; recorded provers and verifiers with every outcome of file, network, witness generator and proof check, alone and concurrently"),
 "C28": (MC, T + " (Member, TraceE2E)", "as C27; trees, proofs and verdicts of the library over the repository's own circuits, file reader and proof system: members, outsiders, cheating generators, chosen points, reused and altered proofs"),
 "C14": (MC, T + " (Transcript)", "all histories of small transcripts; sequences of typed items one step apart, digests of systems one step apart, and every protocol's log against what its challenges have to bind"),
 "C17": (MC, T + " (Snark)", "the memory argument over every address, read and challenge of small memories; commitments recomputed, evaluation proofs and succinct proofs, honest, altered and for other circuits"),
 "C18": (MC, T + " (Hide)", "the specified positions of every blinding of a proof, replayed on recorded provers; repeated proofs share no element"),
}
NA = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
    hooks = [c.split()[0] for c in commits if "Guarded access" in c]
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "hooks": {"guard": "spartan_verif", "enable": "RUSTFLAGS=--cfg spartan_verif (bin/vt.py sets it when it builds harness/full)", "source_commits": hooks[::-1]},
         "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                     "technique": CHECKS[p][1], "level": CHECKS[p][0], "level_note": CHECKS[p][2]} for p in props if p in CHECKS],
         "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: its specification is being written")} for p in props if p not in CHECKS]}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
