#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the lines stay uniform)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "hash/sha3/"
prop("C01", "SHA-3 and SHAKE compute the FIPS 202 functions",
 "For every message, however it is split into writes (including empty and unaligned ones), SHA3-224/256/384/512 return exactly the FIPS 202 digest and SHAKE128/256 return exactly the FIPS 202 output stream for every output length and every way of splitting the reads. The one-shot SHAKE functions agree with the streaming objects.",
 ["inputs", "histories"], "all messages, all splits of the message into Write calls, all buffer alignments, all output lengths and splits into Read calls, for the 6 algorithms",
 "The tests check a few fixed vectors and one sequential pattern; the sponge buffer logic depends on how chunk boundaries meet the rate (two XOR paths, direct-from-input fast path), which vectors do not cover.",
 [S+"sha3.go", S+"shake.go", S+"keccakf.go", S+"keccakf_amd64.s", S+"xor_generic.go", S+"xor_unaligned.go"],
 [("sponge absorb/pad/squeeze", S+"sha3.go Write, padAndPermute, Read"), ("Keccak-f[1600]", S+"keccakf_amd64.s, keccakf.go"), ("state/byte conversion", S+"xor_*.go")],
 ["New224..New512, NewShake128/256, ShakeSum128/256 return values", "Write/Read/Sum results"], [("sponge state", "1600-bit state, buffered bytes, direction", S+"sha3.go state")])
prop("C02", "Sponge objects obey the hash.Hash and XOF contracts over any history",
 "In every sequence of Write, Sum, Read, Reset and Clone calls over any number of SHA-3, SHAKE and cSHAKE objects, each object behaves as if it alone held the bytes written since its last Reset: Sum appends the digest and leaves the running hash usable, successive Reads continue one stream, Write after Read is refused with an error and no effect, Reset returns to the initial function, and a Clone evolves independently of its original. No object keeps or changes memory that belongs to its caller or to another object.",
 ["histories"], "all finite call sequences over interleaved objects, with arbitrary data and destination capacities",
 "The tests exercise each call once in a fixed order; state carried between calls (direction flag, buffered bytes, aliasing after Clone) only shows up in longer interleaved histories.",
 [S+"sha3.go", S+"shake.go"], [("direction flag and buffer slice", S+"sha3.go state"), ("clone re-slices the buffer", S+"sha3.go clone"), ("Reset re-absorbs the cSHAKE prefix", S+"shake.go Reset")],
 ["return values of Write/Sum/Read", "destination buffers and their surroundings"], [("sponge direction", "absorbing or squeezing", S+"sha3.go state")])
prop("C03", "cSHAKE is SP 800-185 cSHAKE for every function name and customization",
 "For every function name N, customization string S and message, cSHAKE128/256 output equals SP 800-185 cSHAKE, including when the encoded prefix exactly fills rate blocks and when N or S need multi-byte length encodings; with both empty it equals SHAKE. Different (N,S) pairs give different functions, and Reset and Clone keep the prefix.",
 ["inputs", "histories"], "all N, S (all lengths including block-aligned prefixes and lengths that need 2-4 length bytes), all messages and output lengths",
 "Tests have four SP 800-185 samples with short strings; the padding of an already aligned prefix and wide length encodings are never reached.",
 [S+"shake.go"], [("bytepad/leftEncode prefix", S+"shake.go bytepad, leftEncode, newCShake")], ["NewCShake128/256 output stream"])
prop("C04", "SM3 computes GB/T 32905 for every message and write pattern",
 "For every message and every way of splitting it into writes, SM3 returns the GB/T 32905-2016 digest; Sum leaves the running hash usable and appends to its argument, Write reports the number of bytes given to it, and Reset restarts the hash. Message length counting stays right for messages of many gigabits.",
 ["inputs", "histories"], "all messages, splits and call histories",
 "Tests use a few standard vectors written in one or two calls; partial-block buffering and the write count are only visible for particular chunk boundaries.",
 ["hash/sm3/sm3.go", "hash/sm3/compress.go"], [("block buffering", "hash/sm3/sm3.go Write"), ("padding", "hash/sm3/sm3.go Sum"), ("compression", "hash/sm3/compress.go")], ["Write/Sum/Reset results"])
A = "drbg/internal/aes/"
prop("C05", "Both AES implementations are FIPS 197 AES for every key size",
 "For every 16, 24 and 32 byte key and every block, the portable and the hardware AES (amd64 and arm64) produce the FIPS 197 ciphertext, decryption inverts encryption, and re-keying an object leaves nothing of the previous key; the source block is unchanged and exactly 16 bytes of the destination are written. Keys of any other length are refused with an error by both implementations, and short or partially overlapping buffers are refused.",
 ["inputs", "histories"], "all keys of all lengths, all blocks, all re-keying sequences, exact overlap and disjoint buffers",
 "Tests check FIPS appendix vectors; only the AES-256 path is reached through the DRBG, and nobody compares the two implementations on random keys or tries other key lengths.",
 [A+"cipher.go", A+"cipher_asm.go", A+"generic.go", A+"asm_amd64.s", A+"const.go"], [("key expansion", A+"generic.go expandKeyGo, asm_amd64.s"), ("rounds", A+"generic.go, asm_amd64.s"), ("overlap checks", A+"tools.go")],
 ["SetKey/Encrypt/Decrypt on AES and AESAsm"], None, "overlay package re-exporting the internal package")
prop("C06", "CTR_DRBG follows SP 800-90A (AES-256, no df) over any call history",
 "Every byte returned by the generator over any history of Init, Reseed, Read and ReadWithAdditionalData, with any request lengths (not only multiples of 16) and any entropy, personalization and additional input lengths, equals the SP 800-90A CTR_DRBG output for that history; Read always fills the whole buffer. Init with at least the entropy of the security strength always starts a fresh instance, Init with less is refused and changes nothing, and independent generators never influence each other.",
 ["histories", "inputs"], "all call histories, request lengths, input lengths and internal counter values including carry propagation",
 "CAVP vectors use 64-byte requests with one fixed call sequence; partial blocks, long histories, re-initialisation and counter carries are not sampled.",
 ["drbg/ctr_drbg.go"], [("counter increment", "drbg/ctr_drbg.go inc"), ("state update", "drbg/ctr_drbg.go update"), ("generate", "drbg/ctr_drbg.go ReadWithAdditionalData")],
 ["Init/Reseed/Read/ReadWithAdditionalData results"], [("V, Key", "SP 800-90A working state", "drbg/ctr_drbg.go CtrDrbg")])
prop("C07", "Results do not depend on the implementation path or CPU features",
 "The same inputs give bit-identical results in the assembly build for every combination of detected CPU features (AES, BMI2, ADX) and in the portable build, and the portable build compiles for the whole module. The CPU features that the library reports are the ones the processor has, on every core.",
 ["configurations", "inputs"], "all operations of all packages; builds default and noasm, 64 and 32 bit; all feature sets the code distinguishes",
 "The baseline tests run one build on one CPU; portable builds are tested for three packages only and never compared with the assembly output.",
 ["utils/cpuid_amd64.go", "utils/cpuid_amd64.s", "dh/sidh/internal/p434/arith_generic.go", "dh/sidh/internal/p503/arith_generic.go", "dh/sidh/internal/p751/arith_generic.go", "dh/csidh/fp511_generic.go", "dh/csidh/fp511_amd64.go", "drbg/ctr_drbg.go", "hash/sha3/keccakf.go", "hash/sha3/xor.go"],
 [("feature flags select code", "utils/cpuid_amd64.go, dh/csidh/fp511.go, dh/sidh/internal/*/params.go, drbg NewCtrDrbg"), ("build tags select files", "*_generic.go, *_amd64.go")],
 ["outputs of every public operation under each configuration", "utils.X86 flags"])
D = "dh/sidh/"
I = [D+"internal/p%s/%s" % (n, f) for n in ("434", "503", "751") for f in ("core.go", "curve.go", "fp2.go", "params.go")]
prop("C08", "SIDH public keys and shared secrets are those of the specification",
 "For each parameter set and every private scalar in the key space, the generated public key is the one defined by the SIKE specification, and the shared secret derived from any honest peer key (and from any other torsion basis of a supersingular curve for which the specified formulas are defined, like that of the starting curve) is the specified j-invariant encoding; both sides of an exchange derive the same secret. Peer key encodings outside the reduced range give the same secret as the reduced ones.",
 ["inputs"], "all private scalars (including extreme bit patterns) of both torsion groups for p434, p503, p751",
 "Tests run a handful of known answers and random round trips; a wrong isogeny strategy, ladder or field corner case that affects both sides alike or only rare scalars passes a round trip.",
 I+[D+"sidh.go"], [("3-point ladder and isogeny tree", D+"internal/*/core.go"), ("isogeny formulas", D+"internal/*/curve.go"), ("domain parameters", D+"internal/*/params.go")],
 ["PublicKey.Export after GeneratePublicKey", "DeriveSecret output"])
prop("C09", "SIKE encapsulation and decapsulation implement the SIKE KEM",
 "For every key pair and random message, encapsulation yields the ciphertext and secret of the SIKE specification, and decapsulating that ciphertext with the matching key pair returns the same secret; this holds for the sidh and mkem packages alike, for all three parameter sets. KEM objects can be reused any number of times, in any order of operations, with and without Reset and with output buffers larger than needed, without changing any result.",
 ["inputs", "histories"], "all key pairs, messages and sequences of Encapsulate/Decapsulate/Reset on shared KEM objects, all buffer lengths at least the required ones",
 "The KATs replay fixed keys through fresh objects with exact buffers; state kept in the KEM object and buffer length effects are not exercised.",
 [D+"sike.go", "kem/mkem/sike.go"], [("Fujisaki-Okamoto transform", D+"sike.go Encapsulate, Decapsulate"), ("shared scratch buffers", D+"sike.go KEM")], ["Encapsulate/Decapsulate outputs"],
 [("KEM.msg, KEM.secretBytes, KEM.shake", "scratch state reused between calls", D+"sike.go KEM")])
prop("C10", "Modified or mismatched SIKE ciphertexts are rejected implicitly",
 "Decapsulating any ciphertext of the right length that is not an honest encapsulation to the key pair returns no error and exactly the pseudo-random value H(S || ciphertext) for the secret value S of the private key; honest ciphertexts return the encapsulated secret. The outcome never depends on where the ciphertext was altered.",
 ["inputs"], "all single and multiple bit/byte modifications at every position, random ciphertexts, wrong keys, wrong public keys",
 "The tests flip one fixed location per parameter set and only check that secrets differ.",
 [D+"sike.go", "kem/mkem/sike.go", D+"common/utils.go"], [("re-encryption check and constant-time select", D+"sike.go Decapsulate, common/utils.go Cpick")], ["Decapsulate output"])
prop("C11", "SIDH and SIKE key encodings round-trip and Import replaces the key",
 "For every key, exporting and importing yields a key that exports to the same bytes and acts identically, the encoding has the advertised size and is the little-endian specification encoding, and only inputs of exactly the advertised size are accepted. Importing into an object that already holds a key fully replaces it and later changes to the input buffer have no effect.",
 ["inputs", "histories"], "all valid encodings, all lengths, all sequences of imports into used objects",
 "Tests import once into fresh objects only.",
 [D+"sidh.go", D+"common/utils.go"], [("Import/Export", D+"sidh.go"), ("BytesToFp2/Fp2ToBytes", D+"common/utils.go")], ["Export bytes", "operations with the imported key"])
prop("C12", "SIDH/SIKE key generation honours its key space and reports RNG failure",
 "Generated private keys lie in the documented key space with the documented top bit, every other bit is taken from the random source and takes both values, and generation consumes the source in the documented order. Whenever the random source fails, key generation and encapsulation report an error and short reads are completed, never silently using missing randomness.",
 ["inputs", "fault_sequences"], "all random streams, all fault positions, short-read patterns and errors returned with data; 3 parameter sets x 3 key kinds, both APIs",
 "Tests use a healthy RNG only and check keys of two parameter sets.",
 [D+"sidh.go", D+"sike.go", "kem/mkem/sike.go"], [("masking of the top byte", D+"sidh.go Generate"), ("io.ReadFull error propagation", D+"sidh.go Generate, sike.go Encapsulate")], ["private key bytes, returned errors, bytes consumed"])
prop("C13", "Misuse of the SIDH/SIKE API is refused before any output is produced",
 "Using keys of the wrong variant or parameter set, unallocated KEM objects, undersized buffers or wrong-length ciphertexts and encodings is always refused (panic or error as documented), and a refused call leaves output buffers and existing keys unchanged.",
 ["inputs", "programs"], "all combinations of parameter set, key variant, operation and buffer length",
 "Tests try a few combinations for one parameter set and do not look at the outputs.",
 [D+"sidh.go", D+"sike.go", "kem/mkem/sike.go"], [("argument checks", D+"sidh.go GeneratePublicKey, DeriveSecret; sike.go Encapsulate, Decapsulate")], ["panic/error", "output buffers"])
C = "dh/csidh/"
prop("C14", "The CSIDH group action is well defined, commutative and randomness-independent",
 "For every private key and every supersingular starting curve, public keys and shared secrets equal the CSIDH-512 class group action on that curve: they are the same for every random source, both parties derive the same secret, and the action of the negated key gives the quadratic twist / inverse action.",
 ["inputs", "fault_sequences"], "all private keys in [-5,5]^74 including extreme and sparse ones, all starting curves, all random sources including ones that produce low-order points",
 "Tests use one fixed set of vectors with a normal RNG; low-order kernels and repeated attempts are hit only with tiny probability.",
 [C+"csidh.go", C+"curve.go", C+"consts.go"], [("groupAction loop", C+"csidh.go groupAction"), ("isogeny evaluation", C+"curve.go xIso")], ["GeneratePublicKey/DeriveSecret output"])
prop("C15", "CSIDH validation accepts exactly the supersingular Montgomery curves",
 "Validate returns true exactly for encodings that are reduced and define a smooth supersingular Montgomery curve; every ordinary or singular curve, and every non-reduced encoding, is refused, and deriving a secret with a refused key reports failure and leaves the output untouched. The answer never depends on the random source.",
 ["inputs", "fault_sequences"], "all 64-byte encodings (including values around 0, p, 2^511 and the singular ones), all random sources including those that force small-order points",
 "Tests contain a few dozen vectors with ordinary random points.",
 [C+"csidh.go"], [("order certificate by divide and conquer", C+"csidh.go cofactorMul, Validate")], ["Validate and DeriveSecret results"])
prop("C16", "CSIDH keys are sampled in range, encoded faithfully and RNG failures surface",
 "Generated private keys are 74 exponents in [-5,5] taken by unbiased rejection sampling from the random source and any failure of the source is reported; public keys are reduced field elements. Export and Import round-trip for every key, Import accepts exactly the encoded size, Export never touches memory outside the encoding, and importing into a used object replaces its content.",
 ["inputs", "fault_sequences", "histories"], "all random streams and failures, all keys, all buffer lengths, all import histories",
 "Tests use one RNG and import into fresh objects.",
 [C+"csidh.go"], [("rejection sampling", C+"csidh.go GeneratePrivateKey"), ("Import/Export", C+"csidh.go")], ["exported keys", "errors"])
prop("C17", "The multi-recipient SIKE KEM gives every recipient the same secret",
 "For every set of recipients, every recipient recovers the encapsulated secret from its own ciphertext and the shared part, the ciphertexts and secret are those of the documented construction, and any altered ciphertext, altered shared part or wrong key gives the implicit-rejection secret. Decapsulation depends only on its inputs and the ciphertext, not on what the same object encapsulated before.",
 ["inputs", "histories"], "all recipient counts and keys, all three parameter sets, all alterations, all object histories",
 "Tests decapsulate on the encapsulating object only with unmodified ciphertexts.",
 ["kem/mkem/sike.go"], [("mKEM transform with domain separation", "kem/mkem/sike.go MultiKEM")], ["Encapsulate/Decapsulate outputs and ciphertexts"],
 [("MultiKEM.msg, ct0, cts", "kept between calls", "kem/mkem/sike.go MultiKEM")], "ciphertexts are read by reflection")
prop("C18", "CSIDH public key encryption decrypts to the plaintext for every recipient",
 "For every plaintext and recipient key, decrypting a PKE ciphertext or any recipient's part of a multi-recipient ciphertext returns the plaintext and the ciphertext has the documented form, whatever operations the same object performed before. Encrypting to an invalid public key never yields a ciphertext whose plaintext can be computed without a secret key.",
 ["inputs", "histories"], "all plaintexts, recipient sets and operation histories on shared objects, valid and invalid public keys",
 "Tests encrypt once per fresh object to valid keys.",
 ["kem/mkem/csidh.go"], [("hash of shared curve as one-time pad", "kem/mkem/csidh.go Enc, Dec, Encrypt")], ["ciphertext fields, decrypted plaintext"])
F = [D+"internal/p%s/%s" % (n, f) for n in ("434", "503", "751") for f in ("arith_amd64.s", "arith_generic.go", "fp2.go")]
prop("C19", "SIDH field arithmetic is exact for every operand in its domain",
 "Every field and extension-field operation of each SIDH prime returns the mathematically correct residue within its documented range for every operand in its documented range, in every implementation (amd64 assembly for each CPU feature set, arm64 assembly, and portable), also when operands and result share storage as the callers do.",
 ["inputs", "configurations"], "all operands in [0,2p) resp. double-width products below pR, including all carry-chain extremes",
 "Tests compare random operands; carry bugs need operands near limb and modulus boundaries, and are hit with probability around 2^-64 by random sampling.",
 F, [("Montgomery multiplication, add/sub with correction", D+"internal/*/arith_*"), ("Karatsuba Fp2", D+"internal/*/fp2.go")], ["results of the arithmetic primitives"], None, "in-package overlay exporting the primitives")
prop("C20", "CSIDH field arithmetic is exact for every operand in its domain",
 "Every CSIDH-512 field operation, comparison, quadratic-residue test, conditional swap and x-only curve formula returns the mathematically correct reduced result for every operand in its domain, in the assembly and portable implementations alike.",
 ["inputs", "configurations"], "all operands in [0,p), all multipliers, including carry-chain extremes",
 "Tests sample random operands and small tables.",
 [C+"fp511.go", C+"fp511_amd64.go", C+"fp511_amd64.s", C+"fp511_generic.go", C+"curve.go"], [("Montgomery multiplication", C+"fp511_amd64.s mulBmiAsm, fp511.go mulGeneric"), ("curve formulas", C+"curve.go")], ["results of the arithmetic primitives"], None, "in-package overlay exporting the primitives")
prop("C21", "Operations on distinct objects and shared read-only keys are safe in parallel",
 "Concurrent use of distinct objects, including first use at program start and keys that are only read by several goroutines (validation, export, secret derivation, encapsulation to a shared public key, decapsulation with a shared private key), is free of data races and returns what sequential execution returns.",
 ["schedules"], "all interleavings of operations on distinct objects that share only read-only keys and parameters",
 "No test runs anything concurrently.",
 [D+"sidh.go", D+"sike.go", C+"csidh.go", "kem/mkem/sike.go", "kem/mkem/csidh.go", S+"sha3.go", "drbg/ctr_drbg.go", D+"common/params.go"], [("no package-level mutable state", "all packages"), ("scratch space is local or per object", D+"sike.go KEM, csidh.go")], ["race detector reports", "results compared with sequential execution"])
prop("C22", "No operation touches memory outside its buffers or changes its inputs",
 "Every operation reads only its input buffers and writes only the advertised number of bytes of its outputs, whatever their position and alignment in memory, including directly against unmapped memory; inputs, keys passed for reading and spare capacity are unchanged, and no pointer conversion breaks the memory-safety rules of the language.",
 ["inputs", "configurations"], "all operations of the public API and all assembly routines, all buffer lengths, alignments and page positions",
 "Go bounds checks do not cover the assembly and unsafe casts, and tests use roomy heap buffers where an overrun is invisible.",
 [S+"xor_unaligned.go", S+"keccakf_amd64.s", A+"asm_amd64.s", C+"fp511_amd64.s", D+"internal/p434/arith_amd64.s", D+"internal/p503/arith_amd64.s", D+"internal/p751/arith_amd64.s", D+"sidh.go", "drbg/ctr_drbg.go"], [("fixed-size loads/stores in assembly", "*_amd64.s"), ("unsafe casts", S+"xor_unaligned.go")], ["faults on guard pages, canaries, checkptr reports"])
prop("C23", "SIDH/SIKE secret-key operations execute the same code for every secret",
 "For each parameter set, key generation from a private scalar, shared-secret derivation and decapsulation execute the same statements the same number of times, and the same machine instructions in the same order, for every value of the private scalar, of the rejection value S, and of the decrypted message, whether the ciphertext is accepted or implicitly rejected.",
 ["inputs"], "all private keys of one kind with fixed public inputs, valid and invalid ciphertexts of the right length",
 "Functional tests cannot see control flow.",
 [D+"sike.go", D+"common/utils.go"]+[D+"internal/p%s/%s" % (n, f) for n in ("434", "503", "751") for f in ("curve.go", "fp2.go", "core.go", "arith_generic.go")], [("constant-time swap and select", D+"internal/*/fp2.go cswap, common/utils.go Cpick"), ("fixed strategies", D+"internal/*/core.go")], ["per-statement execution counters of a coverage build", "addresses of executed instructions, by single-stepping"])
prop("C24", "Hostile keys and ciphertexts never crash, stall or confuse an operation",
 "For every byte string of the right length, importing it as a public key, deriving a secret with it, encapsulating or encrypting to it, and decapsulating or decrypting it ends without a panic and within a bounded time, and the outcome depends only on the values involved: the same call gives the same result again, encodings of the same field elements give the same result, an ill-formed ciphertext gives the implicit-rejection secret, and in a multi-recipient encapsulation a hostile recipient does not change what the others get.",
 ["inputs", "configurations"], "all public keys and ciphertexts of the right length (degenerate, non-reduced, permuted, of the wrong torsion group, singular and non-supersingular curves), all private keys, all implementation paths",
 "Tests only process keys and ciphertexts that honest parties generate; the degenerate values for which inversions, ladders, isogenies and the sampling of points hit zero are not reached by random sampling.",
 [D+"sidh.go", D+"sike.go", "kem/mkem/sike.go", "kem/mkem/csidh.go", C+"csidh.go", C+"curve.go", C+"fp511.go"]+[D+"internal/p%s/%s" % (n, f) for n in ("434", "503", "751") for f in ("core.go", "curve.go", "fp2.go")],
 [("decoding without validation", D+"sidh.go PublicKey.Import"), ("inversion of zero, points at infinity", D+"internal/*/curve.go, fp2.go"), ("validation before the group action", C+"csidh.go Validate, DeriveSecret")],
 ["results, panics and CPU time of DeriveSecret, Encapsulate, Decapsulate, Encrypt, Enc, Dec"])
prop("C25", "Superseded secrets do not stay in the memory of the objects",
 "After Reset, a hash object holds nothing of what it has absorbed or given, and a KEM object (including the buffers it used until then) holds neither message, ephemeral scalar, shared j-invariant nor shared secret; after a key is imported or generated, the key object holds nothing of the one before; after every request a CTR_DRBG object holds neither its previous key and V nor the output, so that whoever reads its memory later cannot recompute output given before.",
 ["histories"], "all call histories of SHA-3, SHAKE and cSHAKE objects, SIKE and multi-recipient KEM objects, SIDH/SIKE private keys and CTR_DRBG objects",
 "Functional tests see outputs only; what remains in unexported fields does not change them.",
 [S+"sha3.go", S+"shake.go", D+"sike.go", D+"sidh.go", "kem/mkem/sike.go", "drbg/ctr_drbg.go"],
 [("zeroing of the state", S+"sha3.go Reset"), ("KEM.Reset", D+"sike.go, kem/mkem/sike.go"), ("update after every request", "drbg/ctr_drbg.go update")],
 ["memory reachable from the object, by reflection"], [("working state", "sponge, message and scalar buffers, key schedule", S+"sha3.go, "+D+"sike.go, drbg/internal/aes")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
