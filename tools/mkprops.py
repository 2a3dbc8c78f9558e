#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it is easy to edit). Usage: mkprops.py > properties.jsonl"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

KEMF = ["src/kem.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/noise.c", "src/util.c",
        "src/frodo640.c", "src/frodo976.c", "src/frodo1344.c"]
NOKAT = "The KAT files are absent, so no existing test compares any output with the specification: a change that stays self-consistent passes."

p("C01", "Honest encapsulations always decapsulate to the same shared secret",
  "For every key pair produced by key generation and every encapsulation against its public key, decapsulation with the matching secret key returns success and exactly the shared secret the encapsulator obtained. This holds whatever the randomness used and whichever builds of the same scheme (optimisation level, AES provider) the two sides run.",
  ["inputs", "configurations"], "all key-generation seeds, all encapsulation messages, all pairs of builds of one scheme",
  "test_KEM samples 100 uniformly random keys per build and always encapsulates and decapsulates with the same build; rare noise values, structured messages and cross-build exchanges are never exercised.",
  KEMF, [("re-encryption and decode", "src/kem.c crypto_kem_dec"), ("matrix arithmetic mod q", "src/frodo_macrify.c"), ("encode/decode", "frodo_key_encode/frodo_key_decode")],
  ["return values and ss of crypto_kem_enc_* / crypto_kem_dec_*"])

p("C02", "Key generation computes the specified key pair from its randomness",
  "For each of the six schemes and every build, the public key and the secret key are, byte for byte, the ones the FrodoKEM specification defines for the random bytes consumed (s, seedSE and z in that order): seedA and the packed matrix B in the public key, and s, the public key, S transposed in little-endian and the public-key hash in the secret key.",
  ["inputs", "configurations"], "all random-byte strings, all six schemes, all builds", NOKAT,
  KEMF + ["src/sha3/fips202.c", "src/aes/aes.c"], [("key generation", "src/kem.c crypto_kem_keypair"), ("noise sampling", "src/noise.c"), ("A*S+E", "frodo_mul_add_as_plus_e")],
  ["pk and sk written by crypto_kem_keypair_*"])

p("C03", "Encapsulation computes the specified ciphertext for any public key",
  "For every byte string of public-key length (honestly generated or not) and every message drawn from the random source, encapsulation returns success and exactly the ciphertext and shared secret the FrodoKEM specification defines for that public key and message. This holds for all six schemes and every build.",
  ["inputs", "configurations"], "all public-key byte strings, all messages, all six schemes, all builds",
  NOKAT + " test_KEM only encapsulates to honest keys.",
  KEMF, [("encapsulation", "src/kem.c crypto_kem_enc"), ("S'A+E'", "frodo_mul_add_sa_plus_e"), ("S'B+E''", "frodo_mul_add_sb_plus_e")],
  ["ct and ss written by crypto_kem_enc_*"])

p("C04", "Decapsulation computes the specified secret for any key and ciphertext",
  "For every byte string of secret-key length and every byte string of ciphertext length, decapsulation returns success and exactly the shared secret the specification defines: SHAKE(ct || k') when re-encrypting the decoded message reproduces the ciphertext, and SHAKE(ct || s) otherwise. This holds for all six schemes and every build.",
  ["inputs", "configurations"], "all secret-key and ciphertext byte strings (including keys that key generation would never produce), all six schemes, all builds",
  NOKAT + " Decoding thresholds, extreme S entries and inconsistent keys are never reached with honest keys.",
  KEMF, [("decapsulation", "src/kem.c crypto_kem_dec"), ("B'S", "frodo_mul_bs"), ("decode", "frodo_key_decode")],
  ["ss written by crypto_kem_dec_*"])

p("C05", "Every altered ciphertext is implicitly rejected",
  "Given an honest key pair and an honest ciphertext, decapsulating any other altered ciphertext, however small or structured the alteration and wherever it lies, returns success and the pseudorandom key SHAKE(ct' || s) determined by the altered ciphertext and the secret s. It never returns the original secret, an error code, or a key derived from the decoded message.",
  ["inputs", "configurations"], "all honest keys and ciphertexts, all alterations (single bits anywhere, equal or cancelling differences, mixtures of two ciphertexts), all builds",
  "test_KEM alters one 16-bit digit per iteration by XOR with its own index, so most bit positions, the c2 tail and multi-position or cancelling differences are essentially never tried.",
  ["src/kem.c", "src/util.c"], [("constant-time comparison", "src/util.c ct_verify"), ("selection", "src/util.c ct_select"), ("comparison of both halves", "src/kem.c crypto_kem_dec")],
  ["ss and return value of crypto_kem_dec_*"])

p("C06", "All builds of a scheme are byte-for-byte interchangeable",
  "For the same inputs and the same random bytes, the reference, portable-optimised and AVX2/AES-NI builds, with either AES provider, any compiler and any compiler optimisation level, produce identical keys, ciphertexts, shared secrets and return values.",
  ["inputs", "configurations"], "all inputs, all pairs of builds (OPT_LEVEL x USE_OPENSSL x compiler x -O level x ARCH) of one scheme",
  "Each build is tested only against itself.",
  ["src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/aes/aes.c", "src/aes/aes_c.c", "src/aes/aes_ni.c", "src/sha3/fips202.c", "src/sha3/fips202x4.c", "src/config.h"],
  [("implementation selection", "src/config.h, src/frodo640.c"), ("AVX2 path", "src/frodo_macrify.c")], ["outputs of the three API functions in every build"])

p("C07", "The Python reference and the C library implement the same KEM",
  "For the same random bytes the Python reference produces the same key pairs, ciphertexts and shared secrets as the C library, and each side decapsulates the other's ciphertexts, valid or altered, to the same secret. The Python building blocks (encode, decode, pack, unpack, sample, matrix generation) equal the specification on every in-range input, including decoding exactly at rounding ties.",
  ["inputs", "configurations"], "all random bytes, keys and ciphertexts; all matrices and byte strings accepted by the Python building blocks",
  "nist_kat.py runs one hard-coded input per variant and checks only that Python agrees with itself.",
  ["python3/frodokem.py", "src/kem.c"], [("line-by-line specification", "python3/frodokem.py")], ["return values of FrodoKEM methods and of the C API"])

p("C08", "Control flow and memory access never depend on secrets",
  "With public inputs (public key, ciphertext) fixed, the sequence of branches and of memory addresses accessed by key generation, encapsulation and decapsulation is the same for all values of the secrets: the seeds s and seedSE, the message, the matrix S, and whether a ciphertext is valid.",
  ["inputs", "configurations"], "all pairs of secret values with equal public inputs, all builds",
  "The valgrind job runs one random key per build and passes over code guarded by public conditions it never meets; the standalone C AES builds are not covered at all.",
  ["src/kem.c", "src/util.c", "src/noise.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c"], [("constant-time verify/select", "src/util.c"), ("branch-free sampling", "src/noise.c")],
  ["trace of basic blocks and load/store addresses; use of secret-tainted values in branches and addresses"])

p("C09", "Secret intermediates are wiped before an operation returns",
  "When key generation, encapsulation or decapsulation returns, no copy of the secret values it handled (s, seedSE, the message, the derived key k, the matrices S, E, S', E', E'' and the unmasked products) remains in the stack memory the call used, in static memory of the library, or in heap memory it released.",
  ["inputs", "configurations"], "all inputs and random bytes, valid and invalid ciphertexts, all builds",
  "No existing test looks at memory after a call returns.",
  ["src/kem.c", "src/util.c", "src/sha3/fips202.c"], [("Cleanup blocks", "src/kem.c"), ("volatile clearing", "src/util.c clear_bytes")], ["contents of the call's stack region, of heap memory it took and of the library's static memory after return"])

p("C10", "API calls touch only their own buffers and have no undefined behaviour",
  "For any input contents and any buffer alignment and placement, key generation, encapsulation and decapsulation read only the documented number of input bytes, write exactly the documented number of output bytes, leave const inputs unchanged, and execute no undefined behaviour.",
  ["inputs", "configurations"], "all byte contents of pk, sk and ct; all alignments of every buffer; all builds",
  "The sanitizer jobs run only honest keys held in naturally aligned stack arrays.",
  ["src/kem.c", "src/util.c", "src/frodo_macrify.c", "src/api_frodo640.h", "src/api_frodo976.h", "src/api_frodo1344.h"], [("size constants", "src/api_frodo*.h"), ("pack/unpack bounds", "src/util.c")],
  ["guard pages, canaries, address/undefined sanitizers"])

p("C11", "randombytes delivers exactly the system entropy whatever I/O does",
  "On Unix, for any request size, random-byte requests are filled completely with successive bytes of the system random device and report success, whatever combination of failed opens, interrupted or failed reads and short reads occurs; no byte is skipped, repeated or left unwritten, nothing outside the requested range is written, and no device byte is ever delivered twice, also when several threads or forked processes make requests.",
  ["fault_sequences", "histories", "inputs"], "all sequences of open/read outcomes, all histories of requests, all request sizes (including beyond 2 GiB)",
  "The device never fails or returns short reads under test.",
  ["src/random/random.c"], [("retry loops", "src/random/random.c randombytes")], ["buffer contents and return value of randombytes"], [dict(name="lock", meaning="cached device descriptor", where="src/random/random.c")])

p("C12", "A failing random source is reported and never yields a key",
  "If the random source reports failure at any request, key generation and encapsulation return a non-zero code instead of success, a later call with a working source behaves normally, and decapsulation never consults the random source.",
  ["fault_sequences", "histories"], "all sequences of random-source outcomes across histories of operations, all builds",
  "The linked random source never fails in any test.",
  ["src/kem.c", "src/random/random.h"], [("return value of randombytes", "src/kem.c crypto_kem_keypair, crypto_kem_enc")], ["return values of the API functions"])

p("C13", "Concurrent operations on separate buffers do not interfere",
  "Any number of threads may run key generation, encapsulation and decapsulation at the same time on their own output buffers (sharing input keys read-only); every call returns exactly what it would return if run alone.",
  ["schedules", "histories", "configurations"], "all interleavings of any operations in any number of threads, all builds",
  "All tests are single-threaded.",
  ["src/kem.c", "src/aes/aes_c.c", "src/frodo_macrify.c", "src/sha3/fips202.c", "src/sha3/fips202x4.c"], [("no mutable shared state", "all of src except random.c")], ["outputs per thread; data-race detection"],
  [dict(name="state", meaning="working block of the portable AES", where="src/aes/aes_c.c")])

p("C14", "Each call depends only on its arguments and fresh random bytes",
  "Over any history of operations in one process (any keys, any order, repeated or alternating keys, reused buffers, any prior memory contents), every call returns what the same call would return in a fresh process given the same random bytes; random bytes are consumed afresh by every key generation and encapsulation and never reused.",
  ["histories", "inputs", "configurations"], "all histories of keypair/enc/dec calls, all builds",
  "Tests run a fixed keypair-enc-dec-dec loop with fresh random keys.",
  KEMF, [("no state carried between calls", "src/kem.c, src/frodo_macrify.c, src/sha3, src/aes")], ["outputs after arbitrary histories"])

p("C15", "SHAKE128 and SHAKE256 match FIPS 202 for every length",
  "For every input and every input and output length, the one-shot and the absorb/squeeze forms of SHAKE128 and SHAKE256 return exactly the FIPS 202 output and write no byte beyond the requested length.",
  ["inputs"], "all byte strings, all input lengths (including multiples of the rate and one less), all output lengths",
  "The KEM uses a dozen fixed length pairs, none near a padding boundary, and no test compares with FIPS 202.",
  ["src/sha3/fips202.c"], [("padding", "keccak_absorb"), ("permutation", "KeccakF1600_StatePermute")], ["shake128, shake256, shake*_absorb, shake*_squeezeblocks"])

p("C16", "Four-way SHAKE128 equals four independent SHAKE128 computations",
  "For every four inputs of equal length and every input and output length, the vectorised four-way SHAKE128 returns in each lane exactly SHAKE128 of that lane's input, regardless of the other lanes, and writes no byte beyond the requested length.",
  ["inputs"], "all quadruples of byte strings, all input and output lengths",
  "Only 18-byte inputs and one output length per scheme are used, and only consistency between encapsulation and decapsulation is observed.",
  ["src/sha3/fips202x4.c", "src/sha3/keccak4x/KeccakP-1600-times4-SIMD256.c"], [("4-way absorb/squeeze", "src/sha3/fips202x4.c"), ("AVX2 permutation", "KeccakP1600times4_PermuteAll_24rounds")], ["shake128_4x, shake128_absorb4x, shake128_squeezeblocks4x"])

p("C17", "Standalone AES matches FIPS 197 for every key and data",
  "For every key and every sequence of whole blocks, in place or not, at any data alignment, the bundled AES-128 and AES-256 (portable and AES-NI) produce the FIPS 197 ECB ciphertext, write nothing else, and leave no key material in a schedule that has been freed.",
  ["inputs", "configurations"], "all keys, all plaintexts and lengths that are multiples of 16, both implementations",
  "AES-256 is never run by the tests and a consistently wrong AES-128 goes unnoticed without KATs.",
  ["src/aes/aes.c", "src/aes/aes_c.c", "src/aes/aes_ni.c"], [("key schedules and rounds", "src/aes/aes_c.c, src/aes/aes_ni.c")], ["AES128_*/AES256_* functions"])

p("C18", "Matrix packing is bit-exact and lossless for every width and length",
  "Packing writes the low D bits of each value, most significant bit first, consecutively, zero-filling or truncating at the output length; unpacking reads the same format; and unpacking a packed vector restores every value modulo 2^D. This holds for every vector, every width from 1 to 16 bits and every length, and no byte outside the buffers is touched.",
  ["inputs"], "all vectors of 16-bit values, all widths, all input and output lengths; keys and ciphertexts as special cases",
  "Only two widths and three lengths are used, and only self-consistency is observed.",
  ["src/util.c"], [("frodo_pack, frodo_unpack", "src/util.c")], ["frodo_pack, frodo_unpack; pk and ct bytes"])

p("C19", "Message decoding tolerates exactly the specified noise",
  "For every message and every error matrix, decoding encode(message) + error yields the message if every error entry lies in [-q/2^(B+1), q/2^(B+1)), and otherwise the specified rounding of each entry; encoding places B message bits in the top bits of each entry in the specified order. Consequently decapsulation recovers the message exactly up to that noise bound.",
  ["inputs"], "all messages, all error matrices modulo q, all three parameter sets",
  "Honest noise never comes near the bound, so a wrong threshold or rounding direction is invisible to round-trip tests.",
  ["src/frodo_macrify.c", "src/frodo_macrify_reference.c"], [("frodo_key_encode, frodo_key_decode", "src/frodo_macrify.c")], ["decapsulation outcome for keys crafted to produce a chosen noise; frodo_key_encode/decode"])

p("C20", "Noise samples follow exactly the specified error distribution",
  "For each parameter set, every 16-bit random value is mapped to the specified error value (table inversion of the upper 15 bits, sign from the lowest bit), so over all 65536 values the counts equal the specification's distribution, and each sample depends only on its own 16 bits. Secret keys contain exactly these samples of the expanded seed.",
  ["inputs", "configurations"], "all 16-bit values, all positions and vector lengths, three parameter sets, all builds",
  "A skewed or truncated distribution still round-trips.",
  ["src/noise.c", "src/frodo640.c", "src/frodo976.c", "src/frodo1344.c"], [("inversion sampling", "src/noise.c frodo_sample_n"), ("CDF tables", "src/frodo640.c, src/frodo976.c, src/frodo1344.c")], ["frodo_sample_n; S in the secret key"])

p("C21", "Matrix products are exact modulo q for every operand and every seed",
  "For every seed of the public matrix A and all operand matrices of 16-bit entries, A*S+E, S'*A+E', S'*B+E'' and B'*S are computed exactly modulo q with the A the specification derives from the seed, and the same A is used on both sides. No intermediate overflow, truncation or operand order changes any entry.",
  ["inputs", "configurations"], "all seeds, all operand matrices (not only small noise), all builds",
  "Only pseudorandom small-noise operands occur, and consistently wrong products on both sides go unnoticed.",
  ["src/frodo_macrify.c", "src/frodo_macrify_reference.c"], [("generate-and-multiply", "frodo_mul_add_as_plus_e, frodo_mul_add_sa_plus_e"), ("small products", "frodo_mul_bs, frodo_mul_add_sb_plus_e")], ["pk, ct and ss for crafted keys; the internal matrix functions"])

p("C22", "Portable builds honour the byte-order configuration everywhere",
  "The portable builds (reference and portable-optimised) apply the little-endian wire order consistently: built for any supported byte-order configuration, key generation, encapsulation and decapsulation convert every 16-bit word exchanged with the hash, the cipher or the key formats, so every portable build, on a little-endian or a big-endian machine, produces exactly the specified keys, ciphertexts and secrets and machines of either order interoperate.",
  ["configurations", "inputs"], "all inputs; byte-order configurations little-endian, big-endian and unspecified (run-time conversion); both portable implementations, both matrix generators",
  "Every test runs on a little-endian host, where the conversions are no-ops.",
  ["src/config.h", "src/kem.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c"], [("LE_TO_UINT16, UINT16_TO_LE", "src/config.h and their uses")], ["outputs of builds compiled with the byte order configured as big-endian or unknown"])

p("C23", "The Python reference rejects malformed use instead of computing garbage",
  "Constructing the Python KEM with any name other than the six supported variants fails with an exception, and encapsulation or decapsulation given a public key, ciphertext or secret key of any wrong length fails with an exception; correct lengths are always accepted and return values always have the documented lengths.",
  ["inputs"], "all variant names, all wrong lengths of pk, sk and ct",
  "nist_kat.py only uses valid variants and lengths.",
  ["python3/frodokem.py"], [("assertions on lengths and variant", "python3/frodokem.py")], ["exceptions raised by FrodoKEM"])

p("C24", "Operations leave no memory, descriptor or thread behind",
  "Any number of key generations, encapsulations and decapsulations can be run in one process, in any order, with honest, malformed or altered inputs and also when the random source fails: whatever memory, file descriptors or other resources a call takes, it gives back before returning, so the resources in use stay bounded over any history.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all histories of operations of any length, all builds (also those that allocate cipher contexts), failing random source included",
  "A leak of a few hundred bytes per call is invisible to tests that run a few hundred calls and to leak checks of builds without allocations.",
  ["src/kem.c", "src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/aes/aes.c"], [("cipher contexts are freed", "src/frodo_macrify.c, src/frodo_macrify_reference.c")], ["heap in use, descriptors and threads of the process"])

p("C25", "A failing allocation or AES provider never goes unnoticed",
  "In every build, if an allocation the library depends on is refused or a call into the AES provider fails (creating the cipher context, setting its key, or encrypting any batch of rows of A), at any point of key generation, encapsulation or decapsulation, the operation never returns success with a wrong key, ciphertext or secret: it stops the process in a controlled way (abort), reports failure, or still returns the specified result, and does not crash or hang; a later call with the provider working again is correct.",
  ["fault_sequences", "inputs", "configurations"], "every allocation and provider call of every operation, failing once or persistently, all AES builds",
  "The provider never fails in a test; an unchecked return value silently turns A into garbage or stale memory, and both parties' outputs stay plausible.",
  ["src/frodo_macrify.c", "src/frodo_macrify_reference.c", "src/aes/aes.c"], [("every EVP call is checked", "src/frodo_macrify.c:38-62,140-172, src/frodo_macrify_reference.c:35-40,93-98"), ("handleErrors aborts", "src/aes/aes.c")], ["outcome of the process, return value and outputs"])
p("C26", "The Python KAT listing reproduces the NIST test vector run",
  "For each of the six variants the known-answer listing drives the KEM with exactly the bytes the NIST AES-256 CTR_DRBG of the C KAT programs yields for the first vector, in the order key generation then encapsulation, prints the public key, secret key, ciphertext and shared secret that the KEM returned, completely and in upper-case hexadecimal, and fails with an exception when the decapsulated secret differs. Its generator serves each byte once and refuses any request of another length or beyond the two of a run.",
  ["inputs", "histories"], "all six variants, all values a KEM can return, all request histories",
  "The test suite only runs the listing and looks at nothing it prints.",
  ["python3/nist_kat.py"], [("documented equality with the C output", "README.md:166"), ("hard-coded generator output", "python3/nist_kat.py")], ["printed listing", "bytes requested and returned"])

for x in P:
    print(json.dumps(x))
