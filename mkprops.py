#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
K, EN, SG, SU, U, SD, CM, CI = ('src/keygen.rs', 'src/encryption.rs', 'src/saver_groth16.rs', 'src/setup.rs', 'src/utils.rs', 'src/serde_utils.rs', 'src/commitment.rs', 'src/circuit.rs')

prop('C01', 'All parties of a distributed key generation end with the same correct key',
 "For any number of parties, once every party's first- and second-round contributions have been received exactly once, every party derives the same encryption key, whatever order contributions arrived in and however messages were lost, resent, duplicated or parties crashed and restarted from their durable secrets. That key is exactly the key defined by the sum of the parties' secrets over the public parameters, passes its own validation, and supports exactly the number of chunks of the chosen chunk size.",
 ['schedules', 'crash_points', 'fault_sequences', 'histories', 'configurations'],
 'every number of parties, every arrival order of partial keys and P1 shares at every party, every crash/restart point, message loss/duplication/partition sequence, chunk size, and several concurrent sessions',
 'keygen_dist runs 3 fixed parties in one order on 4-bit chunks, combines once, and compares lengths and a few relations; no other party count, order, restart or second session is ever executed.',
 [K], [('per-party secrets and partial key', K + ': FkeygenPartial'), ('homomorphic sum of partial keys, gamma added once', K + ': combineEKs'), ('second round', K + ': genP1share, combineP1share, keygenFinal')],
 ['EncryptionKey returned by keygenFinal at every party', 'SecretKeyST of every party'],
 [('s,t', 'a party\'s additive secret shares', K + ': SecretKeyST'), ('X,Y,Z,P_1,P_2', 'public key components', K + ': EncryptionKey')])
prop('C02', 'Collective re-encryption delivers exactly the message, and always completes',
 "A message encrypted under the joint key and key-switched with one share from every party is decrypted by the chosen destination to exactly the original chunks, whichever order and grouping the shares are combined in and whether shares were regenerated after crashes. Once faults stop, every requested result is delivered within a bounded time.",
 ['schedules', 'crash_points', 'fault_sequences', 'histories', 'inputs'],
 'every message, number of parties, share order and combination tree, destination, concurrent job/session, crash and retransmission history',
 'the tests combine 3 shares in one order for one random message and one destination with no restart, loss or concurrency.',
 [EN, K], [('share generation', EN + ': re_encrypt_share'), ('share combination', EN + ': combine_re_encrypt_share'), ('key switch', EN + ': combine_ct_with_w'), ('destination decryption', EN + ': decrypt_to_chunks_after_re_encryption'), ('destination key', K + ': Fkeygen_dest')],
 ['plaintext chunks at the destination', 'share values w, g_r'])
prop('C03', 'Every party\'s share is needed exactly once and only for its own ciphertext',
 "If the share of any party is missing, counted twice, or stems from another ciphertext, another key-generation session, a half-mixed retry or another destination, no chunk of the message is recovered by the destination (or by anyone else) from the switched ciphertext. Only the complete, matching set of shares opens it, and only for the destination it was made for.",
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'every subset/multiset of shares, every message, every cross-session/cross-ciphertext/cross-destination mix-up produced by loss, duplication, delay or restart, and each chunk separately',
 'no test combines an incomplete or wrong set of shares; a share that is ignored, or a mask that cancels, passes all of them.',
 [EN, K], [('additive masking of every share', EN + ': re_encrypt_share'), ('combination', EN + ': combine_re_encrypt_share, combine_ct_with_w'), ('destination decryption', EN + ': decrypt_to_chunks_after_re_encryption')],
 ['result of decrypt_to_chunks_after_re_encryption on each chunk alone and on all chunks'])
prop('C04', 'Homomorphic aggregation adds messages chunk by chunk, in any order and grouping',
 "Adding any collection of ciphertexts under one key, in any order, grouping or repetition pattern, yields a ciphertext whose commitment verifies and whose decryption (by the single authority or collectively by a destination) is the chunkwise sum of the messages. When a sum does not fit the stated chunk size, decryption reports failure instead of returning a wrong value.",
 ['schedules', 'histories', 'inputs', 'crash_points', 'fault_sequences'],
 'every multiset of ciphertexts, every order and association of additions, every message including all-zero and maximal chunks, aggregators crashing in between',
 'the tests add two ciphertexts once; sums reaching or exceeding the range, many summands, other orders and repeated summands are never run.',
 [EN], [('component-wise addition', EN + ': add_cts'), ('commitment over the sum', EN + ': verify_ciphertext_commitment'), ('bounded search', EN + ': decrypt_to_chunks*, solve_discrete_log*')],
 ['decrypted sums', 'commitment verdict on the aggregate'])
prop('C05', 'Honest ciphertexts and proofs are always accepted, by every verifier',
 "A ciphertext produced by encryption, with its proof, is accepted by commitment verification, by proof verification, by the combined verification and by batch verification, under a dealer-generated or a jointly generated key, with prepared or unprepared keys and generators, and after any transport or storage. Its content is exactly the encryption of the given message under the returned randomness.",
 ['inputs', 'configurations', 'histories', 'schedules'],
 'every message (zero, maximal, random), chunk size, key origin, key form, encryption entry point, transport, retry and thread schedule',
 'one random message at one chunk size per test, with one verification form each.',
 [EN, SG, K, CI], [('encryption', EN + ': encrypt, encrypt_with_proof, encrypt_given_snark_vk, encrypt_decomposed_message'), ('verification', EN + ': verify_ciphertext_commitment, verify_commitment_and_proof'), ('proof', SG + ': create_proof, verify_proof, calculate_d'), ('circuit', CI + ': BitsizeCheckCircuit')],
 ['verdicts of all verification functions', 'ciphertext contents against the returned randomness'])
prop('C06', 'Tampered, mixed-up or ill-formed ciphertexts and proofs are rejected',
 "Commitment verification accepts exactly the ciphertexts that satisfy the commitment pairing equation for the full key, and proof verification accepts exactly the proofs that satisfy the Groth16 equation for that ciphertext; anything altered, reordered, truncated, extended, replayed with another ciphertext, key or SRS, or proven for another statement is refused by the combined verification. A malicious encryptor cannot get a ciphertext accepted in which any chunk exceeds the chunk size.",
 ['inputs', 'histories', 'fault_sequences'],
 'every position and kind of alteration in transit (single and compensating changes, swaps, replays, splices between ciphertexts/sessions), every malicious chunk value and position',
 'no test ever feeds a verifier something it must refuse.',
 [EN, SG, CI], [('commitment check', EN + ': verify_ciphertext_commitment'), ('proof check', SG + ': verify_proof, calculate_d, verify_qap_proof'), ('range circuit', CI + ': BitsizeCheckCircuit')],
 ['verdicts of verify_commitment, verify_proof, verify_commitment_and_proof'])
prop('C07', 'Batch verification gives the verdict individual verification would give',
 "For any list of ciphertexts, of any length, batch verification with unpredictable weights succeeds exactly when each ciphertext verifies individually, wherever the bad ones sit, and even when errors are crafted to cancel each other. It never accepts or refuses because of list order, length, repetition or what was verified before.",
 ['inputs', 'histories', 'schedules'],
 'every list length, position and combination of invalid members, error pattern (including errors that cancel without weights), weights, order of arrival',
 'no test runs batch verification.',
 [EN], [('weighted batch equation', EN + ': verify_commitments_in_batch, get_g1_for_ciphertext_commitments_in_batch_pairing_checks')],
 ['verdict of verify_commitments_in_batch against the conjunction of single verdicts'])
prop('C08', 'The key authority decrypts every honest ciphertext, identically on every path',
 "Every decryption entry point (with or without precomputed tables, with generators or the verification key, prepared or unprepared decryption key) returns the encrypted message and the same commitment to the randomness, which equals the authority's secret times the ciphertext header. With a wrong key, tables or header of another session it reports failure and never returns a different plausible message, and chunks outside the range are reported as failure.",
 ['inputs', 'histories', 'configurations', 'schedules'],
 'every message, chunk size, key form, decryption path, table size, and mix-up of keys/tables/ciphertexts between interleaved sessions',
 'the tests decrypt one random message per path with matching keys.',
 [EN, K, U], [('decryption', EN + ': decrypt*, decrypt_to_chunks*'), ('tables', K + ': pairing_powers'), ('composition', U + ': decompose, compose'), ('dealer key generation', K + ': keygen')],
 ['message and nu returned by every decryption function'])
prop('C09', 'Every protocol object survives transport and storage, or is refused',
 "Every protocol object read back from any supported encoding equals what was written, also when records are written back to back and read through devices that deliver short or interrupted transfers; a torn, truncated or failed transfer yields an error, never a different object. Corrupted bytes never crash the reader, and nothing that is not a valid member of the groups is ever accepted.",
 ['fault_sequences', 'crash_points', 'inputs'],
 'every object type and size, encoding, cut point, read/write segmentation, injected I/O error, bit flip, and invalid group element',
 'the tests round-trip a few objects through memory buffers with no short transfer, torn record, device error, corruption or invalid point.',
 [SD, K, EN, SU, CM, U, SG], [('canonical derives', K + ', ' + EN + ', ' + SU + ': CanonicalSerialize/CanonicalDeserialize'), ('serde bridge', SD + ': AsCanonical')],
 ['decoded objects and decoder errors'])
prop('C10', 'Malformed peer input is refused with an error; nothing crashes or is dropped',
 "No operation that reports errors crashes, hangs or silently drops part of its input when a peer or operator supplies vectors, keys, shares, tables or sizes that do not fit together: it returns an error. Whatever it does accept is processed completely.",
 ['inputs', 'fault_sequences', 'histories'],
 'every operation, every combination of shortened, extended, empty or mismatching inputs (as left behind by truncated messages, mixed-up sessions or hostile peers), every chunk size value',
 'the tests only pass well-formed inputs.',
 [EN, K, U, SU], [('size checks', EN + ': verify_ciphertext_commitment, decrypt_to_chunks*, re_encrypt_share, add_cts, ...'), ('key validation', K + ': validate, supported_chunks_count')],
 ['Result of each call'])
prop('C11', 'Results do not depend on thread schedule, worker count or interleaved sessions',
 "With the same inputs and randomness, every operation returns the same result under every work-stealing schedule and worker count, and when calls of several sessions are interleaved in any order. No operation's result depends on calls made earlier for other sessions.",
 ['schedules', 'histories', 'configurations'],
 'every task order and split a work-stealing pool may choose, every thread count, every interleaving of calls from several sessions, every operation',
 'tests run on one machine with one pool and one session; the schedule is whatever the OS gives.',
 [K, EN, SG, SU, U], [('parallel iterators behind the `parallel` feature', K + ', ' + EN + ': cfg_iter!, cfg_into_iter!'), ('statelessness of all operations', 'src/lib.rs')],
 ['serialised results of every operation'])
prop('C12', 'A key generation that went wrong is detected before anything is trusted',
 "If parties combine inconsistent contributions (lost, duplicated, stale, equivocated, altered or mixed between sessions, in either round), the resulting key never passes for a good one: honest encryptions under it fail commitment or proof verification exactly when the key violates the key relations. A key that does satisfy the relations always works.",
 ['histories', 'fault_sequences', 'crash_points', 'schedules'],
 'every wrong multiset of partial keys and P1 shares resulting from loss, duplication, lying disks (amnesia after an acknowledged write), equivocation and session mix-ups, every message',
 'no test combines an inconsistent set of contributions.',
 [K, EN, SG], [('second-round consistency', K + ': genP1share, combineP1share'), ('commitment equation', EN + ': verify_ciphertext_commitment'), ('gamma/delta consistency', SG + ': create_proof, verify_proof')],
 ['verdicts on honest encryptions against the key relations'])
prop('C13', 'Observers and incomplete coalitions learn nothing; randomness is never reused',
 "Watching all public messages, even together with the secrets of all parties but one, does not let one test or compute a message chunk, a secret share, or the link between two encryptions. Every encryption, share, key and proof uses fresh randomness, also after retries and restarts.",
 ['histories', 'schedules', 'crash_points', 'inputs'],
 'every transcript (messages, retries, restarts, aggregation, repeated key switching to the same or different destinations) and coalition of all but one party, against a fixed battery of linear distinguishers',
 'no test looks at what a transcript reveals; deterministic or reused randomness passes all tests.',
 [EN, K, SG], [('ElGamal randomness', EN + ': encrypt_decomposed_message'), ('share masking', EN + ': re_encrypt_share'), ('key generation randomness', K + ': FkeygenPartial, Fkeygen_dest, keygen'), ('proof randomisation', SG + ': create_proof')],
 ['public transcript: partial keys, P1 shares, ciphertexts, shares, switched ciphertexts, proofs'])
prop('C14', 'Splitting a message into chunks and recomposing it is a bijection',
 "For every supported chunk size, decomposing any field element gives its binary digits in order, every chunk inside its range, and recomposing all the chunks returns the element; different elements give different chunks. That holds on every node, in every field, on every thread and after any history of other splits. Unsupported chunk sizes and chunks out of range are refused.",
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every field element, field and chunk size, split on one node, carried chunk by chunk over a lossy network and recomposed on another, with any interleaving of other sessions', 'sampled random elements of one field, one call after the other; no edge value, no second field, no damaged or missing chunk',
 [U], [('decompose/compose', U)], ['decompose, compose, chunks_count'])
prop('C15', 'A chunked commitment equals the plain commitment to the whole message',
 "The commitment built from the chunks of a message under the derived chunk generators equals the Pedersen commitment to the message itself with the same blinding. Different messages give different commitments.",
 ['schedules', 'histories', 'inputs'], 'every message, blinding and chunk size, whoever computes it, after any history and under any pool schedule', 'one message and one key per chunk size; no opening by a second party, no foreign key, no aggregation',
 [CM], [('chunk generators', CM + ': commitment_key')], ['ChunkedCommitment::new'])
prop('C16', 'Generators derived from a public label are reproducible and label-separated',
 "The same label always yields the same generators, on every node and in every release, different labels yield unrelated ones, and all of them lie in the prime-order groups. No randomness enters.",
 ['schedules', 'histories', 'inputs'], 'every label and digest, on every node, after any history, restart and pool schedule', 'three short labels derived once each on one thread',
 [SU, U], [('try-and-increment hashing', U)], ['EncryptionGens::new, ChunkedCommitmentGens::new'])
prop('C17', 'Secret keys are erased from memory when they are dropped',
 "When a secret key object of an authority, of a destination or of a share holder is dropped, replaced, moved out of its container or unwound by a crash, on whatever thread, every secret scalar it held is overwritten before its memory is given back. Until then its content never changes, and copies and stored forms of it stay intact. (Temporaries of computations and stored forms are not covered.)",
 ['histories', 'crash_points', 'inputs', 'schedules'], 'every kind of secret key, every way its life ends, any number of secrets in it, any history of other keys', 'a test that reads a value back cannot see what is left in memory after the object is gone; no test looks at memory',
 [K], [('erasing on drop', K + ': SecretKey, SecretKeyST')], ['memory blocks of secret keys as they are given back to the allocator'],
 [('SecretKey', 'secret scalar of an authority or destination', K), ('SecretKeyST', 'secret scalars of a share holder', K)])
prop('C18', 'Range statements hold exactly for values in range and are the same on every node',
 "For every chunk size, number of values and field, with the values public or private, the range-check circuit is satisfied by every list of values within the size and by no other, whatever a prover assigns to the other variables. It is the same statement at set-up and for every prover, message, thread and history, and the values are its first variables, in order.",
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every chunk size, field, number of values and values, honest, faulty and adversarial assignments, any interleaving of sessions', 'one honest proof per chunk size with public values; no value out of range, no private values, no adversary',
 [CI], [('range check', CI + ': BitsizeCheckCircuit::generate_constraints')], ['constraint system: matrices, assignment, satisfaction'])
prop('C19', "Under an application's own statement, exactly the valid ballots are counted",
 "With any statement about the chunks that an application proves instead of the range check (one-hot, approval, budget; with or without private variables such as a credential), the library serves the whole deployment: every honest ballot is accepted, a ballot that does not satisfy the statement, or was altered, mixed from others or made for another key, is not, and the destination reads exactly the total of the accepted ballots, whatever is lost, repeated, delayed or crashes, once faults stop.",
 ['inputs', 'histories', 'schedules', 'crash_points', 'fault_sequences'], 'every statement, number of voters and trustees, honest and malicious ballots, delivery order, loss, repetition, crash and restart', 'one circuit (range check), no malicious party, no network, no accepted set',
 [SG, EN, K], [('proofs of any statement', SG + ': generate_srs, create_proof, verify_proof, calculate_d'), ('combined verification and addition', EN + ': verify_commitment_and_proof, add_cts, re_encrypt_share, combine_ct_with_w')], ['verdict on every ballot, content of accepted ballots, tally read by the destination'])
prop('C20', 'Builds with and without threads are interchangeable in one deployment',
 "The library built without the `parallel` feature (for targets without threads) gives, for every public operation, the same result as the parallel build from the same inputs and the same randomness, to the byte in every encoding, and accepts and refuses the same inputs. A deployment may therefore mix both: whatever a member on one build makes, members on the other verify, combine, switch and open.",
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every operation, on honest, altered and misfit material, in every state of a deployment, every assignment of members to builds, every pool schedule', 'the tests are built with default features only: the code behind `not(feature = "parallel")` is never run',
 ['src/macros.rs', EN, K, U], [('serial variants', 'src/macros.rs: join'), ('iterators that depend on the feature', EN + ': encrypt_decomposed_message, get_g1_for_ciphertext_commitments_in_batch_pairing_checks; ' + K + ': From<EncryptionKey>, From<DecryptionKey>, FkeygenPartial, keygen; ' + U + ': WindowTable')], ['bytes and verdicts of every public operation in two builds'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
