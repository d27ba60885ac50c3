#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded search over message loss/duplication/reordering/partitions, crashes with torn or lost writes and restarts of a simulated key-generation cluster, joint key compared with an executable reference model, bounded-liveness check", ),
 "C02": ("seeded search over network, crash and disk faults of the whole simulated deployment (holders, board, encryptors, destinations); delivered plaintext compared with the reference model; bounded liveness after faults stop", ),
 "C03": ("seeded search over share-collection faults (omitted, duplicated, misrouted, stale, half-mixed, wrong-destination shares) of a simulated board; destination and outsiders must recover no chunk, and the complete set must open", ),
 "C04": ("seeded search over arrival orders, groupings and repetitions of ciphertexts at a simulated, crashing aggregator; sums compared with integer arithmetic", ),
 "C05": ("seeded runs of honest encryptors against every verifier, with dealer and joint keys, transport through short/interrupted I/O, stuck randomness and simulated thread-pool schedules; ciphertext compared with the reference encryption", ),
 "C06": ("seeded search over byzantine encryptors and a tampering, replaying, mixing network; every verdict compared with an executable pairing-equation specification; forged out-of-range chunks with a malicious prover", ),
 "C07": ("seeded search over batches with faulty members at any position, cancelling errors, repetitions, orders, histories and thread-pool schedules; verdict compared with individual verification and the specification", ),
 "C08": ("seeded runs of every decryption entry point with honest and with mixed-up keys, tables, headers and sessions; results compared with each other and the reference model", ),
 "C09": ("simulated storage and transport devices with short, interrupted, torn, failed and full transfers and corrupted or forged records; objects read back compared with those written", ),
 "C10": ("seeded search over malformed peer input (missing, extra, foreign, empty and oversized parts) fed to every operation that reports errors, with panic capture, stall watchdog and completeness checks", ),
 "C11": ("seeded simulated work-stealing schedules, worker counts and session interleavings; results compared with the sequential run of each session alone", ),
 "C12": ("seeded search over faulty contributions (lost, duplicated, stale, equivocated, altered, cross-session) in both key-generation rounds; acceptance of honest encryptions compared with the key-relation specification", ),
 "C13": ("seeded runs of a faulty deployment (killed, lost and repeated calls, restarts) whose whole transcript, with the secrets of all parties but one, is attacked by an observer through linear and pairing tests; freshness of every randomised output", ),
 "C14": ("seeded runs of splitter and joiner nodes with interleaved sessions in several fields and on several threads, every chunk a packet on a network that loses, duplicates, reorders and damages; every split and join compared with integer arithmetic", ),
 "C15": ("seeded runs of committer, verifier, aggregator and destination nodes over shared generators under simulated thread-pool schedules, transport, interleaved sessions, foreign keys and wrong openings; every commitment compared with the plain commitment", ),
 "C16": ("seeded histories of nodes that derive generators from labels before and after restarts, on fresh threads, under simulated thread-pool schedules and over transport; agreement with the first derivation, group membership, and relation tests between adversarially close labels", ),
 "C17": ("seeded lives of secret key objects on nodes that restart, copy, store, replace, drop on other threads and crash by unwinding; the simulator's allocator looks at every watched block when it is given back", ),
 "C18": ("seeded sessions of a set-up node and honest, faulty and adversarial provers over range statements in several fields, with public and private values, on several threads; satisfaction compared with integer arithmetic, statements with each other, and an adversary that repairs violated constraints", ),
 "C19": ("seeded elections of a simulated deployment (voters, some malicious, a verifying board, trustees, a tallier) over application statements, with message loss, duplication, delay, partitions, crashes, torn and lost writes; verdicts compared with the content of each ballot, tally with integer arithmetic, bounded liveness", ),
 "C20": ("seeded runs of a deployment whose members use two builds of the library (with and without threads); every call, on honest, altered and misfit material and under seeded pool schedules, is made on both with the same bytes and randomness, outcomes compared to the byte and with the reference model", ),
}
NA = {}
checks = []
for k, (t,) in C.items():
    checks.append({
        "property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
        "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration",
        "level_note": "seeded random exploration, no bound is exhausted; library code, ark-* and rayon iterators run for real, most runs on a 61-bit stand-in pairing curve and a stated share on BLS12-381; thread pool, network, clocks, disks and OS randomness are simulated"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
