#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'c-impl/PQCrypto-SIDH/src/'
def m(name, where): return {'name': name, 'where': where}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='exploration', hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, level=level))

prop('P01', 'Honest proofs are always accepted, by every build and an independent verifier',
 'For every parameter size and every supersingular starting curve, in whatever Montgomery model it is given, the prover terminates with a proof that the verifier of the same size accepts. The optimised and the portable build, the threaded and the sequential build and an independently written verifier all accept it, and they all accept honest proofs built by an independent prover.',
 ['inputs', 'configurations', 'schedules'], 'all valid starting curves (special j-invariants, subfield curves, all six Montgomery models, curves reached by earlier proofs) x 4 sizes x builds x number of workers',
 'c-impl/test.c makes one proof per size from one starting curve and verifies it with the same build in the same process; it never crosses builds, other start curves or another implementation.',
 [S + 'poik.c', 'c-impl/prove.c', 'c-impl/verify.c'], [m('Generate/Prove', S + 'poik.c'), m('Verify', S + 'poik.c'), m('canonical_model', S + 'poik.c')], 'public proof API and the programs',
 'differential runtime monitoring of real prove/verify runs against an independent reference verifier and prover', 'Finite sample of start curves, seeds and builds; trusts ref/ref.cpp (independent arithmetic and isogeny formulas).')
prop('P02', 'Only cyclic isogeny chains of exact degree on the stated curves are accepted',
 'If the verifier accepts a proof, then in every repetition the revealed chain starts at the curve it is claimed to start from, each step has a kernel of exactly the full prime-power order on the canonical model of the curve reached so far, and no step undoes (part of) an earlier one. A proof with a single repetition violating any of this is rejected, even when all commitments and the challenge were computed to match it.',
 ['inputs'], 'all forged chains: wrong order (too small, too large, other prime, twist, infinity), wrong model, backtracking or dual steps at any position, unrelated or reordered chains, in any repetition and response kind',
 'The test suite corrupts a few fixed bytes of a proof, which already breaks the hash; it never presents a proof whose hashes are consistent with an illegal chain.',
 [S + 'poik.c', S + 'ec_isogeny.c'], [m('Isogeny_A/Isogeny_B order checks', S + 'poik.c'), m('Unpack_Chain_A/Unpack_Chain_B backtracking', S + 'poik.c'), m('Unpack_Response', S + 'poik.c')], 'verdict of the verifier; hash inputs seen at the hash function seam',
 'adaptive forging workload against the real verifier with hash-input monitoring, judged by an independent chain checker', 'Attacks enumerated by class and position, sampled kernels; adaptive forger learns the verifier\'s computed j-invariants through the linked hash function.')
prop('P03', 'Nothing in an accepted proof can be altered: hashes and challenge bind it all',
 'The verifier accepts only if every response is of the kind demanded by the challenge that the hash of both curves and of all commitments of all repetitions yields, and every revealed value opens its commitment. Changing any curve, hash, hiding string, response kind, kernel direction or the order of repetitions of a valid proof makes it rejected, and so does any challenge or commitment derivation other than the documented one.',
 ['inputs'], 'every field and byte position of valid proofs, substitutions between proofs and repetitions, transcripts missing any input, alternative sampling of the challenge',
 'Tests flip a handful of bytes; they cannot show that each commitment, each curve and each byte takes part in the transcript, nor that challenge sampling is the specified unbiased one.',
 [S + 'poik.c', S + 'sha3/fips202.c'], [m('Challenge / sample_ternary', S + 'poik.c'), m('hash_hiding', S + 'poik.c'), m('Verify comparison of tags', S + 'poik.c')], 'verdict of the verifier',
 'mutation workload over valid proofs and forged alternative transcripts against the real verifier; independent transcript oracle', 'Byte positions sampled in quick, denser in thorough; hash collisions assumed not to occur.')
prop('P04', 'Exactly the supersingular curves are admitted, by prover and verifier',
 'The prover and the verifier accept a Montgomery coefficient as starting, end or middle curve if and only if it defines a supersingular curve with (p+1)^2 points over the quadratic field; ordinary, singular, wrong-order (twist-type) curves are refused every time. The decision is always reached and does not depend on the random choices made while checking.',
 ['inputs', 'histories'], 'all coefficients: random, neighbours of valid ones, singular, subfield, conjugates, all models of valid curves; repeated decisions',
 'Tests only use the one curve they start from; probabilistic curve checks can be wrong rarely or on special j-invariants only.',
 [S + 'poik.c'], [m('Check_Curve / proves_order', S + 'poik.c'), m('unpack_curve', S + 'poik.c')], 'return value of generation, exit code of prove, verdict of verify',
 'differential monitoring of the real curve decision against an independent point-count oracle', 'Sampled coefficients; reference decides by exact group structure.')
prop('P05', 'The proved statement is the requested one and proofs chain end to start',
 'A proof starts at the canonical model of the curve that was asked for (the j=1728 curve for an initial proof) and ends at the end of a fresh secret walk which is a cyclic isogeny of the full prescribed degree. After a successful verification the program prints exactly the two curves of the proof, and a proof made from a printed end curve starts at precisely that curve.',
 ['inputs', 'histories'], 'all start curves and models, chains of prove/verify steps',
 'Tests never look at which curve a proof starts from, at the secret walk, or at the printed output being used as the next input.',
 [S + 'poik.c', 'c-impl/prove.c', 'c-impl/verify.c'], [m('Generate / Random_Isogeny_Chain_A', S + 'poik.c'), m('pack_curve', S + 'poik.c'), m('output of verify', 'c-impl/verify.c')], 'secret returned by generation, proof text, program output',
 'runtime monitor of generated secrets and of prove/verify pipelines against the reference isogeny evaluator', 'Sampled start curves; secret walk recomputed step by step by the reference.')
prop('P06', 'Proofs reveal only fresh, properly masked values',
 'Everything a proof reveals is fresh: hiding strings, random walks and masks never repeat between repetitions, sides or proofs, use their full length and take all directions. The secret walk pushed through the random one is revealed only on canonical models and only after multiplication by an independent full-size random mask for each step, and unopened commitments cannot be opened with revealed or guessable values.',
 ['inputs', 'histories'], 'all repetitions, steps and proofs; random walks of all lengths',
 'A prover that leaks or reuses randomness still produces valid proofs, so every verify-based test passes.',
 [S + 'poik.c'], [m('Instance', S + 'poik.c'), m('Pack_Chain_A masking', S + 'poik.c'), m('Random_Isogeny_Chain_B', S + 'poik.c')], 'proof text; secret of the same run; several proofs under a controlled entropy source',
 'offline checkers over recorded proofs: freshness, entropy and mask recovery by discrete logarithms in smooth groups', 'Statistical thresholds have error below 2^-40; mask recovery uses a deterministic entropy stand-in for the real source.')
prop('P07', 'Proof text round-trips exactly and malformed or truncated text is refused',
 'Writing a proof as text and reading it back gives the same proof for all contents, and whatever amount of white space separates the tokens. Text that is cut anywhere, lacks or adds digits, contains a character that does not belong, an unknown response kind or fewer repetitions is refused by the reader and makes the verification program fail without printing a curve.',
 ['inputs'], 'all proof contents (including extreme byte values), every truncation point, every kind of local damage at every kind of position, arbitrary delivery of the stream in pieces',
 'The tests never read text at all except through one proof written by the same process.',
 [S + 'poik.c', 'c-impl/verify.c'], [m('Parse / Parse_Fp2', S + 'poik.c'), m('Dump / Dump_Fp2', S + 'poik.c')], 'return value of reading, re-written text, exit code',
 'grammar-based generation with an independent reader/writer as oracle, on the real reader, writer and program', 'Positions sampled by token class plus all element-level positions.')
prop('P08', 'Hostile proofs cannot corrupt memory, crash or hang the verifier',
 'Whatever bytes are presented as a proof or a curve, reading and verifying them ends with a verdict: no out-of-bounds access, no use of uninitialised data, no undefined behaviour, no abort and no endless loop. The same holds for generating and proving from any curve text.',
 ['inputs'], 'all input texts: malformed, well-formed with non-reduced, singular, small-order, twist or random field elements in every field',
 'Tests use honest data in an uninstrumented build.',
 [S + 'poik.c', 'c-impl/verify.c', 'c-impl/prove.c'], [m('Parse, Unpack_Response, Check_Curve', S + 'poik.c'), m('all_models / solve_quadratic', S + 'poik.c')], 'sanitizer reports, process exit, time to verdict',
 'address, undefined-behaviour and memory sanitizers on the real verifier, prover and programs under hostile workloads', 'Assembly routines are not instrumented; MemorySanitizer runs on the portable build.')
prop('P09', 'Verdicts and proofs do not depend on threads or scheduling; no data races',
 'For every number of workers and every schedule the verifier gives the same verdict on the same text, processes every repetition, and leaves the proof unchanged, and the prover emits a valid proof. Neither worker threads nor several application threads using the library at once have data races.',
 ['schedules', 'histories', 'configurations'], 'worker counts from 1 to more than the number of repetitions, injected delays, broken repetitions at any position, stale state of earlier runs, concurrent callers',
 'Tests run once with one worker count and look only at honest proofs and one corrupted one.',
 [S + 'poik.c', S + 'random/random.c'], [m('run_threads and workers', S + 'poik.c'), m('randombytes', S + 'random/random.c')], 'verdicts, hash-input log (exactly-once), race detector',
 'race detector plus schedule perturbation with an exactly-once log checker', 'Schedules are sampled through worker counts and injected delays.')
prop('P10', 'Failures are reported: no success status with missing or unfounded output',
 'If output cannot be written completely, input cannot be read, memory or a thread is not available or the entropy source reports failure, the programs end with an error status, the verifier prints no curve, and no proof is made from unavailable randomness. A success status means that the complete correct output was delivered.',
 ['fault_sequences', 'inputs'], 'write failures at every byte offset, closed, full and broken outputs, read errors, failure of the n-th entropy, allocation or thread request',
 'Tests inject no faults.',
 ['c-impl/prove.c', 'c-impl/verify.c', S + 'poik.c'], [m('main', 'c-impl/prove.c'), m('main', 'c-impl/verify.c'), m('Dump', S + 'poik.c'), m('randombytes_strict', S + 'poik.c')], 'exit status, bytes delivered',
 'fault injection (file size limits, link-time wrappers, failing streams) with an output-completeness oracle', 'Offsets exhaustive for the verifier\'s output at one size, sampled for proofs.', level='fault_enumeration')
prop('P11', 'Random bytes are fresh, complete and never shared, whatever the system calls do',
 'A successful request for random bytes fills exactly the requested buffer with bytes newly obtained from the system source, each used once, even when the source delivers in pieces, is interrupted or fails for a while. Concurrent callers never receive the same bytes, nothing outside the buffer is written, and descriptors are not leaked.',
 ['fault_sequences', 'schedules', 'inputs'], 'request sizes, short reads, interruptions, failing opens, end-of-file, permanent failure, threads and forks',
 'Tests never see a short or interrupted read.',
 [S + 'random/random.c'], [m('randombytes', S + 'random/random.c')], 'return value, buffer with guard zones, bytes delivered by the (scripted) system',
 'scripted system calls below the real function with an exactly-once provenance checker; sanitizers and race detector', 'If the implementation reads its entropy through other calls than open/read/getrandom/getentropy, provenance is not monitored (noted in the evidence).')
prop('P12', 'SIDH key exchange computes the isogeny-defined keys and secrets on every build',
 'For all secret keys, including extreme ones, both parties\' public keys and shared secrets are exactly those defined by the isogenies their keys generate, so that both sides agree; optimised and portable builds give identical bytes. Secret keys are drawn uniformly from the full prescribed range, and inputs are not modified.',
 ['inputs', 'configurations'], 'all secret keys of both parties, all sizes and builds (assembly with and without MULX/ADX, portable)',
 'Tests check agreement on random keys only: a matching error on both sides, edge keys and cross-build differences go unseen.',
 [S + 'sidh.c', S + 'ec_isogeny.c', S + 'fpx.c'], [m('EphemeralKeyGeneration_A/B', S + 'sidh.c'), m('EphemeralSecretAgreement_A/B', S + 'sidh.c'), m('random_mod_order_A/B', S + 'sidh.c')], 'public API',
 'differential monitoring against an independent reference implementation over edge and random keys, all builds', 'Finite sample of keys; reference uses a different isogeny strategy and field arithmetic.')
prop('P13', 'SIKE encapsulation and decapsulation agree and follow the specification',
 'Decapsulating an honestly produced ciphertext always returns the encapsulated shared secret, and keys, ciphertexts and shared secrets are the ones the SIKE construction prescribes for the random bytes drawn: the ephemeral key is derived from message and public key, the shared secret from message and ciphertext. A failure of the entropy source is reported instead of producing keys or ciphertexts.',
 ['inputs', 'configurations', 'fault_sequences'], 'all random tapes, sizes, builds; entropy failure at every request',
 'Known-answer and self-consistency tests fix one tape or compare the implementation with itself.',
 [S + 'sike.c', S + 'sidh.c'], [m('crypto_kem_keypair/enc/dec', S + 'sike.c')], 'public API under a controlled entropy source',
 'differential monitoring against an independent SIKE model under scripted entropy', 'Sampled tapes; model uses Python hashlib SHAKE and the reference isogeny code.')
prop('P14', 'SIKE rejects every other ciphertext implicitly and unpredictably',
 'For every ciphertext that is not the honest encapsulation of some message under the key, decapsulation still succeeds and returns the pseudorandom value derived from the secret rejection string and the whole received ciphertext, never a value derived from the recovered message. Different manipulated ciphertexts give different values; the same one always gives the same.',
 ['inputs'], 'bit flips at every byte of every component, mixtures of ciphertexts, non-reduced encodings, invalid and degenerate points, random strings, ciphertexts for other keys',
 'Tests corrupt one byte at random positions and only compare shared secrets.',
 [S + 'sike.c', S + 'sidh.c', S + 'fpx.c'], [m('crypto_kem_dec', S + 'sike.c'), m('ct_compare / ct_cmov', S + 'fpx.c'), m('public key validation', S + 'sidh.c')], 'shared secret returned by decapsulation',
 'monitor comparing every decapsulation with the rejection value computed independently', 'Byte positions exhaustive at the smallest size, sampled elsewhere.')
prop('P15', 'Compressed SIDH and SIKE agree and decapsulate correctly for all keys',
 'With compressed keys both parties always derive the same shared secret and decapsulation of an honest ciphertext always returns the encapsulated secret, for every secret key and also when the deterministic basis search of compression needs many attempts. The shared secret is the one the uncompressed exchange defines for the same curves.',
 ['inputs', 'configurations'], 'all secret keys, including those whose basis search leaves the precomputed table; all sizes and builds',
 'Rare compression branches (probability 2^-17 and less) are never reached by the random keys of the tests.',
 [S + 'compression/sidh_compressed.c', S + 'compression/sike_compressed.c', S + 'compression/torsion_basis.c', S + 'compression/dlog.c', S + 'compression/pairing.c'], [m('PKBDecompression', S + 'compression/sidh_compressed.c'), m('BuildEntangledXonly', S + 'compression/torsion_basis.c'), m('solve_dlog', S + 'compression/dlog.c')], 'public API of the compressed variants',
 'differential monitoring against the reference over random, edge and searched rare-branch keys', 'Rare keys come from a committed search result; other keys sampled.')
prop('P16', 'Compressed decapsulation and agreement are safe on hostile bytes',
 'Whatever bytes arrive as compressed public key or ciphertext, the compressed routines end without memory errors or endless loops. Decapsulation of a manipulated compressed ciphertext returns the implicit-rejection value derived from the secret rejection string and the received ciphertext.',
 ['inputs'], 'random strings, bit flips in every component, extreme values of the selector and table-index bytes and of the scalars',
 'Tests feed only honest compressed keys.',
 [S + 'compression/sidh_compressed.c', S + 'compression/sike_compressed.c', S + 'compression/torsion_basis.c'], [m('PKBDecompression_extended', S + 'compression/sidh_compressed.c'), m('crypto_kem_dec (compressed)', S + 'compression/sike_compressed.c')], 'sanitizer reports, time, shared secret',
 'address/undefined sanitizers and a rejection monitor under hostile workloads', 'Assembly routines are not instrumented.')
prop('P17', 'Field arithmetic is exact on all inputs in every build',
 'Every exported field operation (addition, subtraction, negation, halving, multiplication, squaring, reduction, inversion, conversion, comparison and square roots built on them) returns the mathematically correct residue within its stated range for all operands in its stated range, including the extreme ones. The assembly variants and the portable code agree.',
 ['inputs', 'configurations'], 'all operands in range: carries at every limb boundary, values next to 0, p, 2p and powers of two; 4 sizes x 4 builds',
 'The arithmetic tests use random operands and check algebraic identities of the code against itself; carry bugs of probability 2^-64 are out of reach.',
 [S + 'fpx.c', S + 'P434/AMD64/fp_x64.c', S + 'P434/AMD64/fp_x64_asm.S', S + 'P434/generic/fp_generic.c'], [m('fpadd/fpsub/fpmul_mont/fpinv_mont ...', S + 'fpx.c'), m('rdc_mont, mp_mul', S + 'P434/AMD64/fp_x64_asm.S')], 'results of the exported functions',
 'differential monitoring of every field operation against big-integer arithmetic over boundary-directed operands', 'Operands directed at limb boundaries and sampled; not a proof.')
prop('P18', 'Hashing is SHAKE for every input and output length',
 'The hash used for commitments, challenges and key derivation equals the standardised extendable-output function for all input lengths, output lengths and alignments, whether absorbed and squeezed at once or block by block. Nothing outside the output buffer is written.',
 ['inputs'], 'all input lengths across several rate boundaries x output lengths x alignments; incremental squeezing',
 'Known-answer tests hash fixed lengths only.',
 [S + 'sha3/fips202.c'], [m('shake128/shake256, absorb, squeezeblocks', S + 'sha3/fips202.c')], 'output bytes',
 'differential monitoring against an independent implementation (hashlib) with sanitizers and guard zones', 'Lengths enumerated up to several blocks, contents sampled.')
prop('P19', 'Secret keys do not influence branches or memory addresses of SIDH and SIKE',
 'Key generation, key agreement, encapsulation and decapsulation of the uncompressed schemes never branch on or index memory with data derived from secret keys, messages or the rejection string, in every build. This holds along the accepting and the rejecting path of decapsulation alike.',
 ['inputs', 'configurations'], 'all secret inputs; builds with assembly and portable code; valid and manipulated ciphertexts',
 'Functional tests cannot observe timing; a leaking shortcut gives the same results.',
 [S + 'sidh.c', S + 'sike.c', S + 'ec_isogeny.c', S + 'fpx.c'], [m('LADDER3PT / swap_points', S + 'ec_isogeny.c'), m('ct_compare / ct_cmov', S + 'fpx.c')], 'dependence of control flow and addresses on poisoned secrets',
 'dynamic taint tracking (memcheck on poisoned secrets) of real runs', 'Tracks the executed paths of a given build; what becomes public by construction is declassified explicitly.')
prop('P20', 'SIDH and SIKE never touch memory outside their buffers or modify inputs',
 'The uncompressed key exchange and KEM routines read and write only within the documented sizes of their arguments, leave inputs unchanged, use no uninitialised data and have no undefined behaviour for arbitrary public keys, ciphertexts and secret keys. They always terminate and can be used by several threads at once.',
 ['inputs', 'schedules'], 'arbitrary and hostile public keys, ciphertexts and secret keys in exactly sized buffers; concurrent callers',
 'Tests pass honest data in roomy stack buffers without instrumentation.',
 [S + 'sidh.c', S + 'sike.c', S + 'fpx.c'], [m('fp2_encode/fp2_decode', S + 'fpx.c'), m('crypto_kem_*', S + 'sike.c')], 'sanitizer reports, guard zones, input comparison',
 'address, undefined-behaviour, memory and race sanitizers with exactly sized buffers under hostile workloads', 'Assembly routines are not instrumented.')
prop('P21', 'The Sage verifier reaches the verdict of the C verifier for every size',
 'On proofs of all four sizes, laid out as the provers write them, verify.sage gives the verdict of the C verifier: every valid proof, whichever prover made it and wherever it starts, is accepted and both its curves are printed in order. Altered or shortened proofs, proofs of another size, illegal isogeny chains with consistent hashes and other transcript or commitment derivations are refused with a failing exit status and nothing printed.',
 ['inputs', 'configurations'], 'valid proofs of the C prover and of an independent prover, all response kinds and challenge streams, tampered and forged proofs of every class, wrong or missing size arguments',
 'No test of the repository ever runs the Sage verifier.',
 ['sage-impl/verify.sage'], [m('unpack_chain', 'sage-impl/verify.sage'), m('challenge, hash_hiding', 'sage-impl/verify.sage'), m('Proof.read, Proof.verify', 'sage-impl/verify.sage')], 'exit status and standard output of verify.sage',
 'execution of the real verify.sage on a stand-in for Sage under valid, tampered and adaptively forged proofs, compared with the C verifier and an independent one', 'Sage itself is not installed: sage/minisage.py supplies the part of its interface the file uses; what the stand-in lacks is noted, not judged. Mostly 4-repetition parameter tables (overridden at run time), full size for valid proofs.')
prop('P22', 'Every parameter set delivers the security level it stands for',
 'Proofs emitted and accepted for p434, p503, p610 and p751 give at least 128, 128, 192 and 256 bits: as many ternary repetitions as a soundness error of 2/3 each needs, commitments of twice the level, hiding strings twice as long as these, and walks long enough for the mixing bounds of the parameter script. Complete proofs of any weaker shape are refused, and the script itself prints the values in use.',
 ['inputs', 'configurations'], 'what the built provers emit, self-consistent proofs with fewer repetitions, shorter hashes, hiding strings or walks, all sizes',
 'A weaker parameter set proves and verifies just as well, so all tests pass.',
 [S + 'poik.h', S + 'poik.c', 'scripts/statistical_parameters.py'], [m('POIK_REPS, POIK_WIDTH, POIK_HEIGHT, HASH_BYTES, HIDE_BYTES', S + 'poik.h'), m('Parse', S + 'poik.c')], 'text of emitted proofs, verdict of the verifier, output of the script',
 'measurement of emitted proofs and weaker self-consistent proofs against the real verifier, oracle recomputes the security bounds', 'Checks the published bounds, not the hardness assumptions.')

NA = []
extra = os.path.join(V, 'tools', 'extra.py')
if os.path.exists(extra): exec(open(extra).read())
have = [p for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in have:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': [p['observe']]}}) + '\n')
        assert len(p['title']) <= 80, p['id']
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/tools/setup.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 /verif/check.py ' + p['id'], 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'], 'technique': 'runtime monitoring: ' + p['technique'], 'level': p['level'], 'level_note': p['note']} for p in have],
           'not_applicable': NA,
           'notes': 'No hooks in /repo: all seams are public interfaces or link-time wrappers. /repo commits are fixes only. verify.sage is executed on a stand-in for the part of Sage it uses (sage/minisage.py); the notebook and the graph script in scripts/ are research aids without guarantees.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
