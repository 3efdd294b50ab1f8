"""Texts per property: technique, rule (how cases are made, what makes one non-trivial), level note."""

M = {}


def m(id, technique, rule, note):
    M[id] = (technique, rule, note)


m("C01", "runtime monitoring: online functional oracle (independent FIPS 202 model) over generated call streams",
  "Messages of every length 0..5 rates, random and structured, cut into random Write and Read sizes that are biased to the rate and word boundaries, at every buffer offset 0..8; 64 KiB..2 MiB messages; random Keccak states through the permutation. Builds: assembly, noasm, noasm+appengine. A case counts as distinct by (algorithm, length class, split pattern hash).",
  "Every observed output byte equals an independent big-state model written from FIPS 202 and cross-checked against the NIST vectors and Python's hashlib. Sampled, not exhaustive; message lengths to a few MiB.")
m("C02", "runtime monitoring: sequential-specification monitor over recorded call histories of interleaved objects",
  "Random histories of Write, Sum, Read, Reset, Clone, BlockSize and Size over up to 6 live objects (SHA-3, SHAKE, cSHAKE), destinations with spare capacity and canaries, inputs mutated after the call. A case is distinct by the sequence of (operation, object kind, size class).",
  "Each result is compared with the abstract object (bytes written since Reset, position in the output). Sampled histories of up to some 60 calls.")
m("C03", "runtime monitoring: online functional oracle (independent SP 800-185 model)",
  "N and S of length 0..700, lengths steered so that the prefix ends on, just before and just after a rate block, and lengths that need 2..4 length bytes (to 2 MiB), with Clone, Reset and split reads. Distinct by (algorithm, |N|, |S|, message length, residue of the prefix).",
  "Outputs equal an independent model. Sampled.")
m("C04", "runtime monitoring: online functional oracle (independent SM3) and hash.Hash contract monitor over histories",
  "Every message length 0..5 blocks, random messages in random chunks, histories of Write, Sum, Reset over several objects, io.Copy with its count check, and one 512 MiB+ message whose bit length crosses 32 bits. Distinct by (lengths, chunk pattern).",
  "Outputs equal an independent model. The recorded finding (Sum with a non-empty argument absorbs it) is identified by its key and does not hide other failures.")
m("C05", "runtime monitoring: online functional oracle (independent FIPS 197) with fenced buffers, both implementations side by side",
  "Random and structured keys of 16/24/32 bytes and blocks, re-keyed objects, encrypt and decrypt in place and between buffers at every offset, all key lengths 0..64, short and overlapping buffers, and the hardware and portable paths through the generator; the arm64 code in an interpreter of its machine code. Distinct by (implementation, key length, key/block class).",
  "Outputs equal a model cross-checked against crypto/aes and the FIPS vectors.")
m("C06", "runtime monitoring: sequential-specification monitor (independent CTR_DRBG) over recorded call histories",
  "Random histories of Init, Reseed, Read, ReadWithAdditionalData over several generators with all request, entropy and additional-input lengths; counters steered to carry across bytes; every request length 0..1100. Distinct by the sequence of (call, length class).",
  "Every output byte equals an independent SP 800-90A model.")
m("C07", "runtime monitoring: differential monitor across builds and CPU feature sets (offline comparison of recorded transcripts), with instruction removal by trapping",
  "The same seeded operations of all packages run in the assembly build with features forced off in the detector, in the assembly build under a processor that faults on the instructions that are missing (CPUID faulting, patched instructions), in noasm, noasm/386 and appengine builds; transcripts are compared entry by entry. CPUID detection is checked against synthetic CPUID leaves and on every core. Distinct by transcript key.",
  "All transcripts agree entry by entry; where CPUID faulting is not available the feature sets are forced through the detector only, and that is reported in the notes.")
m("C08", "runtime monitoring: online functional oracle (independent big-integer isogeny model) over generated scalars",
  "Scalars: zero, one, top of the range, single bits, alternating patterns, boundaries of the key space, random; peers honest and with encodings shifted by the prime. Every implementation path. Distinct by (parameters, variant, scalar).",
  "Public keys and shared secrets equal an independent big.Int model that evaluates the isogenies one step at a time (no strategy, no Montgomery form) and was checked against the SIKE test vectors.")
m("C09", "runtime monitoring: online functional oracle (independent SIKE model) and history monitor over reused KEM objects",
  "Random key pairs and messages; encapsulations with the random source under control compared with the model; histories of Encapsulate, Decapsulate, Reset over one object with oversized outputs. Distinct by (parameters, package, message and key).",
  "Ciphertexts and secrets equal the model; decapsulation agrees for every observed pair.")
m("C10", "runtime monitoring: implicit-rejection oracle over altered, swapped and forged ciphertexts",
  "Each byte position of the ciphertext altered (bit flips, 00, ff, plus the prime), truncated-and-padded parts, swapped parts, ciphertexts to other keys, ciphertexts built without re-encryption consistency, S of special form. Distinct by (parameters, package, alteration).",
  "The result equals H(S || ct) of the model, or the encapsulated secret for ciphertexts that the model accepts.")
m("C11", "runtime monitoring: sequential-specification monitor over histories of key objects, fenced buffers",
  "Random histories of Generate, Import (all lengths around the right ones), Export, Reset and use over several key objects; buffers changed after the call; imported keys used for derivation. Distinct by the sequence of operations.",
  "Every exported byte equals the abstract key; re-imported keys act identically.")
m("C12", "runtime monitoring with fault injection: recording random source, scripted short reads and failures at every read",
  "Key generation and encapsulation with a source that records every request, returns chosen bytes, short reads, errors with and without data at the k-th read for every k. Distinct by (parameters, variant, fault script).",
  "Keys equal the documented function of the consumed bytes; each injected failure surfaced as an error.")
m("C13", "runtime monitoring: refusal oracle over misused calls with canary-filled outputs",
  "All pairs of variants and parameter sets, all operations, buffers of all lengths around the right ones, unallocated objects, keys filled before the call. Distinct by (operation, parameters, variants, lengths).",
  "Each misuse was refused and left canaries, keys and objects unchanged; each valid call was accepted.")
m("C14", "runtime monitoring: online functional oracle (independent big-integer class-group action) and metamorphic monitors",
  "Private keys of special and random form over the base curve and over curves reached by random walks; random sources that are constant, sparse, or random; commutativity, inverses and twists. Every implementation path. Distinct by (key, curve, source).",
  "Results equal a big.Int model of the action that uses different formulas (Velu with affine points).")
m("C15", "runtime monitoring: acceptance oracle by independent supersingularity test over generated encodings",
  "Supersingular curves by random walk, their twists, ordinary and singular curves, non-reduced and boundary encodings, random encodings; many random sources per encoding. Distinct by encoding.",
  "The answer equals the model's (order test with independent points). Random walks reach an unstructured sample of the class.")
m("C16", "runtime monitoring with fault injection: recording random source, sampling oracle, codec history monitor with fenced buffers",
  "Key generation from scripted sources (all byte values including the rejected ones), failures and short reads at every read; histories of Import and Export of all lengths. Distinct by script.",
  "Keys equal the rejection-sampling function of the consumed bytes.")
m("C17", "runtime monitoring: online functional oracle (independent multi-recipient model) and history monitor over reused objects",
  "0..6 recipients, honest and altered parts, wrong keys, swapped recipients, objects reused after other operations, decapsulation with an object that encapsulated something else. Distinct by (parameters, recipients, alteration).",
  "Ciphertexts and secrets equal the model of the documented construction.")
m("C18", "runtime monitoring: online decryption oracle over histories of one object, invalid-key adversary",
  "Plaintexts of all lengths, 1..4 recipients, interleaved Encrypt/Decrypt over one object, keys that are invalid (ordinary, singular, twists out of range). Distinct by (history, recipients).",
  "Every decryption equals the plaintext and each ciphertext equals the documented function of the plaintext and ephemeral key.")
m("C19", "runtime monitoring: online exact-arithmetic oracle (big.Int) on hooked primitives, all implementation paths",
  "Operands: edges of the range, near multiples of the prime, carry patterns (all-ones limbs, single bits), random, over all aliasing patterns the callers use; each CPU feature set, noasm on amd64 and on 386, and the arm64 assembly in an interpreter; secret and codec edges through the API. Distinct by (primitive, path, operand class pair).",
  "Every observed result is congruent to the exact one and inside its documented range.")
m("C20", "runtime monitoring: online exact-arithmetic oracle (big.Int) on hooked primitives, all implementation paths",
  "As C19, for the CSIDH-512 field, comparisons, residue tests, swaps and x-only formulas, and whole actions. Distinct by (primitive, path, operand class pair).",
  "Every observed result equals the exact one.")
m("C21", "race detector, sealed read-only keys and sequential-equivalence monitor over stressed parallel executions",
  "Programs of 2..16 goroutines over distinct objects and shared keys, random delays and yields, first use in a fresh process; race builds (assembly and noasm) and plain builds. Distinct by completion order.",
  "No race report and every result equal to the sequential one; the race detector does not see inside assembly, which the sealed pages and result comparison cover in part.")
m("C22", "memory monitors: guard pages, sealed inputs, canaries, checkptr instrumentation",
  "Every operation and assembly primitive with inputs and outputs placed directly before and after unmapped pages at every alignment, inputs on read-only pages, spare capacity filled with canaries; default, noasm and checkptr builds; the arm64 assembly in an interpreter that knows the bounds of each argument. Distinct by (operation, placement, length).",
  "An access outside the buffers faults or changes a canary; reads between buffer and page boundary on the far side can go unseen in one placement but not in both.")
m("C23", "statement-execution monitor (coverage counters) and in-process instruction tracing by single-stepping, compared across secrets",
  "Pairs of secrets (zero, one, top, patterns, random) with fixed public inputs, ciphertexts accepted and rejected: statement counters of the instrumented build of the library and recorded instruction sequences of every arithmetic primitive and of the whole operations have to be equal, for the arm64 primitives also the addresses of the memory accesses. Distinct by (operation, secret).",
  "Control flow only: secret-dependent addresses and instruction timing are not observed. Assembly is covered by the instruction traces.")
m("C24", "runtime monitoring: crash, CPU-time, determinism and implicit-rejection monitors over hostile wire data",
  "Public keys and ciphertexts of the right length: coordinates zero, one, minus one, the prime, the top of the range, negated; equal, exchanged, real or missing points, keys of the other torsion group, keys that were not validated; CSIDH encodings of every class of C15. Every implementation path. Distinct by (operation, parameters, data).",
  "No panic, no operation above the CPU limit, equal results when repeated and for canonical encodings of the same elements; ciphertexts give H(S || ct); other recipients are not affected.")
m("C25", "runtime monitoring: memory of the objects (walked by reflection) scanned for superseded secrets",
  "Histories of hash, KEM, multi-recipient KEM, key and generator objects; after Reset, Import, Generate resp. after every request the plain memory reachable from the object is searched for 8-byte pieces of the secrets, in three byte orders; for hash objects no non-trivial word of the former state may remain. Distinct by history.",
  "None of the superseded secrets was found. Copies on the stack or in freed memory are outside the scope.")
