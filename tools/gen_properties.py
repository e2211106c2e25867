#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


API = ["crypto_kem_keypair / crypto_kem_enc / crypto_kem_dec arguments and results",
       "the random source handed in through the RNGState trait"]

prop("C01", "Both parties always derive the same shared key",
     "For every key pair generated and every encapsulation to its public key, decapsulating the ciphertext with the "
     "matching secret key gives exactly the shared key the sender obtained. The scheme promises perfect correctness, so "
     "no choice of randomness on either side (other than the degenerate all-zero polynomial) may ever lead to "
     "disagreement.",
     ["inputs", "histories", "configurations"],
     "All random bytes consumed by key generation and encapsulation, including extreme ones that maximise or tie "
     "coefficients; all four parameter sets; several encapsulations per key.",
     "The tests agree on one key pair per parameter set, drawn from one fixed generator state; a failure that needs a "
     "particular coefficient pattern (large sums near q/2, ties in the sort, rare carries) is never driven.",
     ["src/kem.rs", "src/owcpa.rs", "src/poly_mod.rs", "src/poly_rq_mul.rs", "src/poly_lift.rs"],
     [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"),
      ("owcpa_dec", "src/owcpa.rs"), ("poly_rq_to_s3", "src/poly_mod.rs")],
     [("c*f mod q", "must stay inside (-q/2, q/2) as an integer vector for decryption to be exact", "src/owcpa.rs owcpa_dec")],
     API)

prop("C02", "Key generation is exactly the specified function of its random bytes",
     "The public and secret key bytes produced by key generation equal those the NTRU round-3 specification prescribes "
     "for the random bytes drawn, for every random byte string for which the scheme is defined. That covers the order "
     "and use of the random bytes, the sampling maps, both inversions and every encoding.",
     ["inputs", "configurations"],
     "All random byte strings for which the sampled polynomials are non-zero; all four parameter sets.",
     "Unit tests compare one key pair per parameter set; any deviation needing a specific coefficient position, a zero "
     "leading coefficient in an inversion step, a tie in the sort or an encoding tail is invisible to them.",
     ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_s3_inv.rs",
      "src/poly_r2_inv.rs", "src/poly.rs", "src/poly_rq_mul.rs", "src/pack3.rs", "src/packq.rs"],
     [("owcpa_keypair", "src/owcpa.rs"), ("sample_fg", "src/sample.rs"), ("poly_s3_inv", "src/poly_s3_inv.rs"),
      ("poly_r2_inv_to_rq_inv", "src/poly.rs")],
     [("secret key layout", "f, 1/f mod 3, 1/h mod q, 32-byte rejection key", "src/kem.rs, src/owcpa.rs")],
     API)

prop("C03", "Encapsulation is exactly the specified function of key and randomness",
     "For any byte string of public-key length and any random bytes, encapsulation outputs exactly the ciphertext and "
     "shared key the NTRU round-3 specification prescribes. Unused bits of the public key have no influence.",
     ["inputs", "configurations"],
     "All public-key-length byte strings (honest, boundary, non-canonical, arbitrary) and all random byte strings; all "
     "four parameter sets.",
     "The encapsulation unit test uses the all-zero public key and one generator state, so the product with the public "
     "key and nearly all decoding are not compared with anything.",
     ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/packq.rs", "src/pack3.rs", "src/poly_lift.rs", "src/poly_rq_mul.rs"],
     [("crypto_kem_enc", "src/kem.rs"), ("owcpa_enc", "src/owcpa.rs"), ("sample_rm", "src/sample.rs"),
      ("poly_lift", "src/poly_lift.rs")],
     [], API)

prop("C04", "Decapsulation is exactly the specified function of ciphertext and key",
     "For any byte string of ciphertext length and any byte string of secret-key length, decapsulation outputs exactly "
     "the shared key the NTRU round-3 specification prescribes, whether the ciphertext is accepted or rejected.",
     ["inputs", "configurations"],
     "All (ciphertext, secret key) byte strings, including keys crafted so that every intermediate value is reachable; "
     "all four parameter sets.",
     "The unit test decapsulates a single fixed pair per parameter set; boundary values of the intermediate polynomials "
     "are not reachable from honest keys and never compared.",
     ["src/kem.rs", "src/owcpa.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/pack3.rs", "src/packq.rs", "src/cmov.rs"],
     [("crypto_kem_dec", "src/kem.rs"), ("owcpa_dec", "src/owcpa.rs"), ("cmov", "src/cmov.rs")],
     [("rejection flag", "any failed validity check selects the rejection key", "src/owcpa.rs owcpa_dec")],
     API)

prop("C05", "Only genuine ciphertexts are accepted; all others get the rejection key",
     "Decapsulation yields the hash of the recovered message pair only if the received bytes are exactly the canonical "
     "encryption of an admissible pair under that key. Every other byte string, however close to a genuine ciphertext, "
     "yields instead the hash of the secret rejection key followed by the received ciphertext.",
     ["inputs", "fault_sequences", "configurations"],
     "All byte strings of ciphertext length against any key pair: bit flips, padding bits, shifted coefficients, "
     "ciphertexts of other keys, inadmissible message weights or blinding values, each violating as little as possible.",
     "No test feeds an invalid ciphertext at all; a validity check that is dropped, shortened by one coefficient or "
     "masked by another would pass every test while breaking chosen-ciphertext security.",
     ["src/owcpa.rs", "src/kem.rs", "src/cmov.rs"],
     [("owcpa_check_ciphertext", "src/owcpa.rs"), ("owcpa_check_r", "src/owcpa.rs"), ("owcpa_check_m", "src/owcpa.rs"),
      ("cmov", "src/cmov.rs")],
     [("rejection flag", "OR of the padding, message and blinding checks", "src/owcpa.rs owcpa_dec")],
     API)

prop("C06", "Generated key pairs satisfy the algebraic relations of the scheme",
     "In every generated key pair the secret polynomial times its stored inverse is 1 modulo 3, the public polynomial "
     "times its stored inverse is 1 modulo q, and the public polynomial times the secret one is three times an "
     "admissible short polynomial (also times x-1 in the HRSS variant). The public polynomial vanishes at 1.",
     ["inputs", "configurations"],
     "All random byte strings for which the sampled polynomials are non-zero; all four parameter sets.",
     "The relations are never evaluated by a test; one fixed key per variant says nothing about other inputs of the two "
     "inversion algorithms and of the Newton lifting.",
     ["src/owcpa.rs", "src/poly.rs", "src/poly_r2_inv.rs", "src/poly_s3_inv.rs"],
     [("owcpa_keypair", "src/owcpa.rs"), ("poly_r2_inv", "src/poly_r2_inv.rs"), ("poly_s3_inv", "src/poly_s3_inv.rs"),
      ("poly_r2_inv_to_rq_inv", "src/poly.rs")],
     [("f, f^-1 mod 3, h^-1 mod q, h", "the four polynomials stored in the keys", "secret and public key bytes")],
     API)

prop("C07", "Secret polynomials are sampled in the right space by the specified maps",
     "Every secret, blinding and message polynomial has coefficients in {-1,0,1}; in the HPS variants generator and "
     "message polynomials have exactly q/16-1 coefficients of each sign, and in the HRSS variant key polynomials have "
     "non-negative self-correlation. Each polynomial is exactly the specified function of the bytes drawn for it, for "
     "every byte pattern.",
     ["inputs", "configurations"],
     "All random byte strings, including ties and sorted runs of sort keys, every byte value at every position, and "
     "self-correlations around zero and at both extremes; all four parameter sets.",
     "Tests see one sampled polynomial of each kind; ties, boundary byte values and the sign decision at correlation "
     "zero do not occur there.",
     ["src/sample.rs", "src/sample_iid.rs", "src/crypto_sort_int32.rs", "src/poly_mod.rs"],
     [("sample_fixed_type", "src/sample.rs"), ("sample_iid_plus", "src/sample.rs"), ("sample_iid", "src/sample_iid.rs"),
      ("crypto_sort_int32", "src/crypto_sort_int32.rs")],
     [("sort keys", "30 random bits per coefficient plus a 2-bit tag that the sort permutes", "src/sample.rs")],
     API + ["polynomials recovered from the produced keys and ciphertexts"])

prop("C08", "The bundled generator is AES-256 CTR_DRBG for every seed and history",
     "The bundled random generator produces, for every seed, every starting state and every sequence of requests of any "
     "lengths (including empty ones, reseeds and copies), exactly the output and the next state of the AES-256 counter "
     "mode generator used for the NIST known-answer tests. The 128-bit counter wraps around and the request count is "
     "kept as specified.",
     ["histories", "inputs"],
     "All 48-byte seeds, all states reachable or constructible, all request-length sequences with interleaved reseeds "
     "and clones; unoptimised, overflow-checked and release builds.",
     "The tests check a few outputs from one seed and the zero state; counter carries, wrap-around, lengths that are "
     "not multiples of the block size and reseeding after use are not exercised.",
     ["src/rng.rs"],
     [("randombytes", "src/rng.rs"), ("randombytes_init", "src/rng.rs"), ("aes256_ctr_update", "src/rng.rs")],
     [("key, v, reseed_counter", "generator state, publicly visible", "src/rng.rs AesState")],
     ["output bytes and the public state fields after every request"])

prop("C09", "Randomness is consumed exactly and failures of the source surface",
     "Key generation makes exactly two requests to the random source (sampling bytes, then 32 bytes), encapsulation "
     "exactly one and decapsulation none, of the lengths the parameter set prescribes; a source that succeeds never "
     "leads to an error. If any request fails, the operation stops and returns that very error, and a failed "
     "encapsulation leaves its output buffers untouched.",
     ["fault_sequences", "inputs", "configurations"],
     "A failure injected at every request of every operation (with untouched, partly or fully written request "
     "buffers), in all four parameter sets, over arbitrary keys; healthy sources of any content, including one that "
     "returns constant bytes.",
     "The tests only use the bundled generator, which never fails; error paths and request accounting are never run.",
     ["src/kem.rs", "src/rng.rs"],
     [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("RNGState", "src/rng.rs")],
     [], API)

prop("C10", "Results depend only on the arguments, not on history, buffers or threads",
     "Each operation's outputs are a function of its input values and the random bytes drawn: neither earlier calls, the "
     "previous content of output buffers, nor concurrently running calls in other threads change them. Inputs passed by "
     "shared reference are left unchanged.",
     ["histories", "schedules", "inputs"],
     "All interleavings of calls on one or several threads with equal, similar and unrelated arguments, and all previous "
     "contents of the output buffers; all four parameter sets.",
     "Every test runs each operation once on zero-filled buffers; state carried between calls, caches keyed on part of "
     "the input and races need histories and schedules.",
     ["src/kem.rs", "src/owcpa.rs", "src/packq.rs", "src/pack3.rs", "src/rng.rs"],
     [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"),
      ("poly_sq_tobytes", "src/packq.rs")],
     [("output buffers", "caller memory that must be fully overwritten", "public API")],
     API + ["ThreadSanitizer reports of a multi-threaded workload"])

prop("C11", "No input makes any operation panic, overflow, fail or hang",
     "With a working random source, key generation, encapsulation, decapsulation and the generator complete successfully "
     "for every possible input bytes and generator state. This holds in optimised builds and in builds with overflow "
     "checks and debug assertions alike.",
     ["inputs", "configurations", "histories"],
     "All byte strings for every key, ciphertext, random stream and generator state, in debug, overflow-checked and "
     "release builds, and all four parameter sets.",
     "Tests run a handful of inputs; arithmetic overflow, an index one past the end or a failed assertion on a rare "
     "value appears only with the right input and build profile.",
     ["src/kem.rs", "src/owcpa.rs", "src/poly.rs", "src/poly_mod.rs", "src/poly_lift.rs", "src/rng.rs", "src/sample.rs"],
     [("poly_r2_inv_to_rq_inv", "src/poly.rs"), ("poly_mod_3_phi_n", "src/poly_mod.rs"), ("poly_lift", "src/poly_lift.rs"),
      ("randombytes", "src/rng.rs")],
     [("16-bit coefficients", "intermediate sums must be wrapped or proven small", "src/poly*.rs")],
     API + ["panics and error results"])

prop("C12", "No memory error or use of undefined values on any input",
     "No operation reads or writes outside the objects it owns or was given, uses memory that was never written, or "
     "otherwise executes undefined behaviour, for any input bytes. In particular no output byte is left derived from "
     "uninitialised memory.",
     ["inputs", "configurations"],
     "All input bytes of all operations in all four parameter sets, observed under address checking, definedness "
     "tracking and an undefined-behaviour interpreter.",
     "Tests compare results; an out-of-bounds read past a tail, or an uninitialised temporary, usually returns the right "
     "result in the test environment.",
     ["src/packq.rs", "src/pack3.rs", "src/poly_rq_mul.rs", "src/crypto_sort_int32.rs", "src/sample.rs", "src/kem.rs"],
     [("poly_sq_frombytes", "src/packq.rs"), ("poly_s3_frombytes", "src/pack3.rs"), ("crypto_sort_int32", "src/crypto_sort_int32.rs"),
      ("poly_rq_mul", "src/poly_rq_mul.rs")],
     [], ["sanitizer, valgrind and interpreter reports while the public API runs"])

prop("C13", "Control flow and memory access do not depend on secrets",
     "As written, none of the operations branches on, or uses as a memory address or index, any value derived from the "
     "random bytes, the secret key, the generator state or the accept/reject decision. Only sizes, public keys, received "
     "ciphertexts and finished public outputs may influence which instructions run and which addresses are touched.",
     ["inputs", "configurations"],
     "All secrets, accepted and rejected ciphertexts, and all operations in all four parameter sets; judged on the "
     "program as written (unoptimised code).",
     "A test compares results, and a secret-dependent branch or table lookup computes the right result.",
     ["src/owcpa.rs", "src/cmov.rs", "src/crypto_sort_int32.rs", "src/poly_mod.rs", "src/poly_r2_inv.rs", "src/poly_s3_inv.rs",
      "src/sample.rs", "src/pack3.rs", "src/rng.rs"],
     [("cmov", "src/cmov.rs"), ("int32_minmax", "src/crypto_sort_int32.rs"), ("mod3", "src/poly_mod.rs"),
      ("both_negative_mask", "src/poly_r2_inv.rs")],
     [], ["definedness-taint reports with all secret bytes marked undefined"])

prop("C14", "Outputs are identical across platforms, word sizes and build settings",
     "The same inputs and random bytes produce the same bytes on little- and big-endian machines, with 32- and 64-bit "
     "words, at every optimisation level, with or without debug assertions and with hardware or software AES.",
     ["configurations", "inputs"],
     "All supported build profiles and CPU feature sets natively, and foreign targets under an interpreter; all inputs; "
     "all four parameter sets.",
     "Tests run only on the build machine in one profile.",
     ["src/rng.rs", "src/sample.rs", "src/packq.rs", "src/crypto_sort_int32.rs", "src/poly.rs", "src/kem.rs"],
     [("randombytes", "src/rng.rs"), ("sample_fixed_type", "src/sample.rs"), ("poly_sq_tobytes", "src/packq.rs"),
      ("poly_z3_to_zq", "src/poly.rs")],
     [], ["transcripts of the public API per build and target"])

prop("C15", "The selected variant has its own sizes and name; conflicts refuse to build",
     "Each of the four selectable parameter sets builds and exposes its own name and exactly the key, ciphertext and "
     "shared-key lengths of the specification; selecting none gives ntruhps2048509, identical to selecting it "
     "explicitly. Selecting two or more of them at once is refused at build time.",
     ["configurations"],
     "All 16 subsets of the four selectable features.",
     "The test command builds only single selections; it neither compares the exposed lengths with the specification nor "
     "tries conflicting ones.",
     ["build.rs", "Cargo.toml", "src/api.rs", "src/params.rs"],
     [("main", "build.rs"), ("CRYPTO_ALGNAME", "src/api.rs"), ("NTRU_N", "src/params.rs")],
     [], ["exit status of cargo build per feature subset", "public constants and behaviour of each build"])

prop("C16", "The known-answer tool writes the reference files and detects any mismatch",
     "Generating request and response files with the known-answer program yields byte for byte the 100-record files the "
     "specification's generator prescribes for the selected parameter set. Verifying a response file succeeds exactly "
     "when seed, public key, secret key, ciphertext and shared secret of every record match, and otherwise the program "
     "exits with failure.",
     ["inputs", "configurations"],
     "All four parameter sets; all single-digit corruptions of any field of any record, truncations and missing "
     "records, and response files made from other seeds.",
     "No test runs the program; the claim that the reference test cases pass rests on it.",
     ["examples/katkem.rs", "src/rng.rs", "src/kem.rs"],
     [("create_request_file", "examples/katkem.rs"), ("create_response_file", "examples/katkem.rs"), ("verify", "examples/katkem.rs")],
     [("Testcase", "one record of a request or response file", "examples/katkem.rs")],
     ["files written and exit status of the program"])

prop("C17", "Every emitted key and ciphertext uses the canonical encoding",
     "In every public key, ciphertext and secret key produced, unused bits are zero, every packed ternary byte encodes "
     "only digits in range, and decoding followed by encoding gives back the same bytes. This holds whatever bytes were "
     "in the output buffer before and whatever public key was used.",
     ["inputs", "histories", "configurations"],
     "All random byte strings, arbitrary public keys, all previous contents of output buffers; all four parameter sets.",
     "Tests use zero-filled buffers and one output per parameter set, so leftover bits and unreduced coefficients at "
     "other positions do not show.",
     ["src/packq.rs", "src/pack3.rs", "src/owcpa.rs", "src/kem.rs"],
     [("poly_sq_tobytes", "src/packq.rs"), ("poly_s3_tobytes", "src/pack3.rs"), ("poly_rq_sum_zero_tobytes", "src/packq.rs")],
     [("unused bits", "bits above (n-1)*log2(q) in the last byte", "public key, ciphertext, third field of the secret key")],
     API)

prop("C18", "Different secrets or ciphertexts never share a derived key",
     "Two encapsulations that sample different message or blinding polynomials yield different shared keys, and to one "
     "public key different ciphertexts. A rejection key depends on every bit of the ciphertext and of the secret "
     "rejection key and on nothing else, so rejected ciphertexts never share a key with each other or with an accepted one.",
     ["inputs", "histories"],
     "All pairs of calls in a history, in particular pairs differing in one random byte, one ciphertext bit or one key "
     "byte; all four parameter sets.",
     "It is a relation between runs; tests look at single runs with fixed answers.",
     ["src/kem.rs", "src/pack3.rs", "src/owcpa.rs"],
     [("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"), ("sha3_256", "src/kem.rs"), ("poly_s3_tobytes", "src/pack3.rs")],
     [("hash input", "packed blinding and message polynomials, or rejection key and ciphertext", "src/kem.rs")],
     API)

prop("C19", "Operations only compute: no I/O, no clock, no lost memory, bounded stack",
     "Key generation, encapsulation, decapsulation and the bundled generator take everything from their arguments: they "
     "print nothing, touch no file, clock or environment variable, start no thread and draw no randomness of their own. "
     "Memory taken during a call is given back, so any number of calls leaves memory use unchanged. Every call runs "
     "within 256 KiB of stack, whatever its input.",
     ["inputs", "histories", "configurations"],
     "Sequences of calls with genuine, damaged and arbitrary keys, ciphertexts, random bytes and generator states; all "
     "four parameter sets, with and without optimisation.",
     "Tests compare outputs; output on a rejected input, a leak per call or a table on the stack changes none of them.",
     ["src/kem.rs", "src/owcpa.rs", "src/sample.rs", "src/rng.rs", "src/poly_r2_inv.rs", "src/poly_rq_mul.rs"],
     [("crypto_kem_keypair", "src/kem.rs"), ("crypto_kem_enc", "src/kem.rs"), ("crypto_kem_dec", "src/kem.rs"), ("randombytes", "src/rng.rs")],
     [("process resources", "system calls, heap bytes live after a call, deepest stack address written", "seen from outside, no code of the repository")],
     ["system calls of a confined thread", "global allocator", "painted stack"])

prop("C20", "No division, remainder or square root is taken of secret values",
     "As written, no operation divides, takes a remainder or extracts a root with an operand derived from the random "
     "bytes, the secret key, the generator state or the accept/reject decision: on common processors such instructions "
     "take a time that depends on their operands. Constant powers of two, loop counters, lengths and public values may "
     "be divided.",
     ["inputs", "configurations"],
     "All random bytes, secret keys, ciphertexts and generator states; all four parameter sets; operands compared "
     "between several secrets for the same public input.",
     "A reduction by a remainder gives the same numbers as one by shifts and masks; only the time differs.",
     ["src/poly_mod.rs", "src/poly_s3_inv.rs", "src/pack3.rs", "src/sample_iid.rs", "src/poly_lift.rs", "src/kem.rs"],
     [("mod3", "src/poly_mod.rs"), ("poly_s3_frombytes", "src/pack3.rs"), ("poly_lift", "src/poly_lift.rs"), ("poly_s3_inv", "src/poly_s3_inv.rs")],
     [("operands of divisions", "dividend and divisor of every division executed during a call", "seen by breakpoints, no code of the repository")],
     ["breakpoints on the division instructions of the unoptimised program"])

prop("C21", "Generators are plain values: fresh, copied, compared and printed faithfully",
     "A fresh generator, however created, is in the all-zero state. Two generators compare equal, and print alike, exactly "
     "when key, counter block and request count all agree. A copy equals its original, continues exactly like it, and "
     "using one never changes the other.",
     ["inputs", "histories"],
     "All pairs of generator states, in particular pairs differing in one bit, in exchanged bytes or by differences that "
     "cancel; all request and reseed sequences on copies; with and without optimisation.",
     "Tests compare no generators; a comparison that overlooks part of the state or a copy that shares it passes them.",
     ["src/rng.rs"],
     [("AesState", "src/rng.rs"), ("new", "src/rng.rs"), ("fmt", "src/rng.rs")],
     [("key, v, reseed_counter", "generator state, publicly visible", "src/rng.rs AesState")],
     ["public type and its standard traits"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
