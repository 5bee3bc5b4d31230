"""Which programs make up the check of each property."""


def both(src, variant, **k):
    return [dict(src=src, n=n, variant=variant, **k) for n in (512, 1024)]


def one(src, variant, **k):
    return [dict(src=src, variant=variant, **k)]


CHECKS = {
    "C01": dict(
        programs=both("c01_sign.cpp", "opt") + both("c01_sign.cpp", "gcc", tiers=("thorough",)) +
        both("c01_sign.cpp", "san", tiers=("thorough",)),
        rule="Generated keys (corpus keys under automorphisms, powers of x, exchange of halves, multiples added; freshly "
             "generated keys), messages and random streams, one-shot and precomputed signing, output next to inaccessible "
             "pages; every signature judged by an exact model and by the library's verification. Streams are random, with "
             "forced stretches, or scripted so that the signer's first candidate is a lattice point of chosen norm and "
             "shape (around the norm bound, encodings that do not fit, coefficients above 1023, norms just above 2^31 and "
             "2^32). Messages up to 2 MiB, and longer than 4 GiB through a sponge that counts its input. Non-trivial: every case judged."),
    "C02": dict(
        programs=both("c02_verify.cpp", "opt") + both("c02_verify.cpp", "gcc") +
        both("c02_verify.cpp", "san", tiers=("thorough",)),
        rule="Generated (h, message, signature): vectors (s1, s2) of a chosen exact squared norm (at, one above, just "
             "below, far above the bound, multiples of 2^31 and 2^32, coefficients +-6144) with h solved so that "
             "they are what verification recomputes; arbitrary and zero s2 under random and genuine keys; damaged "
             "encodings; genuine signatures and neighbours; messages up to 2 MiB, and longer than 4 GiB (counted). Verdict compared with an exact integer model. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: "
             "a complete instance was built (not discarded)."),
    "C03": dict(
        programs=both("c03_binding.cpp", "opt") + both("c03_binding.cpp", "gcc", tiers=("thorough",)) +
        both("c03_binding.cpp", "san", tiers=("thorough",)),
        exhaustive="every_bit (every bit of a genuine public key, message and signature), headers (all 256 values)",
        rule="Histories of up to 15 edits (22 kinds: message, salt, s2, header, encoding and public key changes, parts of "
             "other genuine signatures) and undos of a genuine triple; the model accepts exactly the genuine triples; "
             "single bits, header values, artefacts of the other parameter set, changes anywhere in messages of up to 2 MiB, messages longer than 4 GiB (counted). Non-trivial: at least one state judged."),
    "C04": dict(
        programs=both("c04_keygen.cpp", "opt") + both("c04_keygen.cpp", "gcc", tiers=("thorough",)) +
        both("c04_keygen.cpp", "san", tiers=("thorough",)),
        rule="Random streams that make key generation draw chosen pairs (coefficients out of range, f not invertible, either "
             "part of the Gram-Schmidt norm too large or just above the limit, resultants not coprime, F out of range) and "
             "then a good or random one; natural streams and streams with forced stretches. The bytes are decoded by a "
             "model and the NTRU equation, f h = g, ranges, invertibility and norm checked exactly; tests of draws compared "
             "with a long-double / exact model. Non-trivial: every case judged."),
    "C05": dict(
        programs=one("c05_ntru.cpp", "opt") + one("c05_ntru.cpp", "gcc", tiers=("thorough",)) +
        one("c05_ntru.cpp", "san", tiers=("thorough",)),
        rule="Generated short (f, g) of every power-of-two size 2..1024 (Gaussian of several widths, uniform, few terms, "
             "common factors, chosen parities; tiny values at tiny sizes; degree 1: pairs of integers, small ones and big): f G - g F = q in exact integers, gcd of the "
             "resultants, Babai-reducedness; building blocks on integers of up to 6000 bits. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case not "
             "discarded (f and g nearly vanishing together at a root are).",),
    "C06": dict(
        programs=both("c06_pubkey.cpp", "opt") + both("c06_pubkey.cpp", "gcc", tiers=("thorough",)) +
        both("c06_pubkey.cpp", "san", tiers=("thorough",)),
        exhaustive="every_value (all 16384 14-bit values, at generated positions), headers (all 256)",
        rule="Generated polynomials (uniform, edge values, sparse) and byte strings (encodings with flipped bits, "
             "overwritten stretches, arbitrary bytes, all headers, all 14-bit values) in buffers against inaccessible "
             "pages, compared with a bit-by-bit model. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case judged."),
    "C07": dict(
        programs=both("c07_seckey.cpp", "opt") + both("c07_seckey.cpp", "gcc", tiers=("thorough",)) +
        both("c07_seckey.cpp", "san", tiers=("thorough",)),
        exhaustive="every_value (every f/g value at every position), headers (all 256)",
        rule="Generated (f, g, F) in the format's ranges (uniform, edges, sparse, genuine keys) and byte strings "
             "(flipped bits, all headers, arbitrary bytes), compared with a bit-by-bit model. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case judged."),
    "C08": dict(
        programs=both("c08_compress.cpp", "opt") + both("c08_compress.cpp", "gcc", tiers=("thorough",)) +
        both("c08_compress.cpp", "san", tiers=("thorough",)),
        exhaustive="every_magnitude (all coefficient magnitudes up to the square root of the bound)",
        rule="Generated polynomials within the norm bound (Gaussian of many widths, large coefficients, multiples of "
             "128, encodings of exactly the available length and a few bits around it), compared with a bit-by-bit "
             "encoder and read back. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case judged (not discarded)."),
    "C09": dict(
        programs=both("c09_unique.cpp", "opt") + both("c09_unique.cpp", "gcc", tiers=("thorough",)) +
        both("c09_unique.cpp", "san", tiers=("thorough",)) +
        one("fuzz_sig.cpp", "fuzz", runs=(160000, 8000000), max_len=1300, seeds="harness/fuzz/sig"),
        rule="Signature strings built from the grammar with one deciding feature (negative zero, long unary runs, too few "
             "coefficients, trailing bits, coefficient cut by the end), bit flips, shifts, arbitrary bytes, and a "
             "coverage-guided campaign, compared with the specification's decoder; read from two places with different "
             "surroundings. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every generated case; for the fuzzer, inputs whose first 8 coefficients decode."),
    "C10": dict(
        programs=both("c10_memory.cpp", "san") + both("c10_memory.cpp", "opt", tiers=("thorough",)) +
        one("fuzz_api.cpp", "fuzz", runs=(120000, 6000000), max_len=3000, seeds="harness/fuzz/api"),
        rule="Everything runs under AddressSanitizer and UndefinedBehaviorSanitizer, on buffers of exactly the documented "
             "sizes next to inaccessible pages. Generated keys, signatures, messages (random, constant, sparse, damaged "
             "encodings, valid encodings of extreme coefficients), random streams with forced stretches and scripted "
             "candidates for signing and key generation, and a coverage-guided campaign over all byte-consuming entry "
             "points. Non-trivial: every generated case; for the fuzzer, inputs of at least 16 bytes."),
    "C11": dict(
        programs=one("c11_samplerz.cpp", "opt") + one("c11_samplerz.cpp", "gcc") +
        one("c11_samplerz.cpp", "san", tiers=("thorough",)) + one("c11_samplerz.cpp", "gccnative", tiers=("thorough",)),
        rule="Generated centres (uniform, at and near integers and half-integers, up to 1e6), deviations in [sigma_min, "
             "1.8205] and random bytes crafted to hit table boundaries and to follow the acceptance threshold for 0-6 "
             "bytes; value and byte count compared with a long-double model (cases whose outcome depends on the last "
             "bits of the threshold are discarded); runs of up to 340 rounds with the highest coin; chi-square of 200k samples per (mu, sigma'); the 2849 "
             "published vectors; approx_exp bit by bit against integers. Non-trivial: every case "
             "judged."),
    "C12": dict(
        programs=both("c12_distribution.cpp", "opt") + both("c12_distribution.cpp", "gcc", tiers=("thorough",)),
        rule="Hundreds (thorough: thousands) of signatures per generated key, over different messages, one message, or one "
             "message and salt (with a common or a private stream of randomness), each decoded to (s1, s2) and measured along every Gram-Schmidt direction of the secret basis, "
             "every basis row, every coordinate and random directions: means, mean squares, fourth moments, shape, all pairs "
             "of directions, consecutive signatures; salts: uniform bits and bytes, no repetition. Alarm beyond 7 (pairs: "
             "8.5) standard errors. For a known random stream, the signature is byte for byte the first acceptable candidate of the specification, also after several rejected ones (widened leaves, chosen long candidates). Non-trivial: every key studied."),
    "C13": dict(
        programs=one("c13_field.cpp", "opt") + one("c13_field.cpp", "gcc") +
        one("c13_field.cpp", "san", tiers=("thorough",)),
        exhaustive="pairs (12289^2 operand pairs), unary, construct (all 65536 arguments)",
        rule="All operand pairs, all unary operands and all constructor arguments are enumerated; exponents and "
             "random elements are generated. Non-trivial: every pair row; constructor arguments of at least q; "
             "exponentiations with base and exponent above 1."),
    "C14": dict(
        programs=both("c14_ntt.cpp", "opt") + both("c14_ntt.cpp", "gcc", tiers=("thorough",)) +
        both("c14_ntt.cpp", "san", tiers=("thorough",)),
        rule="Generated polynomials over Z_q (uniform, edge values, sparse, constants; invertible divisors) through the "
             "transforms and the pointwise operations, against direct evaluation at the roots (found from the transform of "
             "x) and exact ring arithmetic. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Pointwise division element by element, zero divisors included. Non-trivial: every case judged."),
    "C15": dict(
        programs=one("c15_fft.cpp", "opt") + one("c15_fft.cpp", "gcc") +
        one("c15_fft.cpp", "san", tiers=("thorough",)),
        rule="Generated real and complex vectors of every size 2..1024 (Gaussian, integer, few entries, wide range, "
             "concentrated transforms, all equal), against a long-double transform whose roots come from sin/cos, with an "
             "error bound of 60 units * (log2 n + 1) relative to the norm; "
             "unit vectors, so that every root is seen on its own (3.5 units * (log2 n + 1)). A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case judged."),
    "C16": dict(
        programs=both("c16_expand.cpp", "opt") + both("c16_expand.cpp", "gcc", tiers=("thorough",)) +
        both("c16_expand.cpp", "san", tiers=("thorough",)),
        rule="Keys derived from the corpus (automorphisms, powers of x, exchanged halves, multiples of (f, g) added, also until G leaves a byte): "
             "recomputed G exactly, basis, Gram matrix, every tree node and leaf against a long-double model (to "
             "1e-9); one-shot against precomputed signatures byte for byte; trees of random Gram matrices of every "
             "size 2..256. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: every case judged (badly conditioned Gram matrices are discarded)."),
    "C17": dict(
        programs=both("c17_ffsampling.cpp", "opt") + both("c17_ffsampling.cpp", "gcc", tiers=("thorough",)) +
        both("c17_ffsampling.cpp", "san", tiers=("thorough",)),
        rule="Generated trees (random inner nodes, leaves over and at both ends of [sigma_min, 1.8205]) and targets of "
             "every size 2..1024, and genuine keys with hashed messages, under random bytes with forced stretches: "
             "integer results and byte counts compared with the specification's recursive sampler in long double. "
             "Non-trivial: every case judged (cases decided by rounding errors below 1e-8 are discarded)."),
    "C18": dict(
        programs=one("c18_hash.cpp", "opt") + one("c18_hash.cpp", "gcc", tiers=("thorough",)) +
        one("c18_hash.cpp", "san", tiers=("thorough",)),
        exhaustive="every_length (all message lengths 0..1199 with a 40-byte salt)",
        rule="Generated salts (40 bytes and other lengths) and messages (lengths around the sponge's block borders, up to "
             "2 MiB; beyond 4 GiB through a sponge that counts), both degrees, against a byte-by-byte model; chosen XOF output with up to 99 % skipped values, "
             "bursts of them and edge values at any position. Non-trivial: every case judged."),
    "C19": dict(
        programs=one("c19_independence.cpp", "opt") + one("c19_independence.cpp", "tsan", defs=("PBT_THREADS_ONLY",)) +
        one("c19_independence.cpp", "gcc", tiers=("thorough",)),
        rule="Generated histories of calls (verify, both signing forms, decoding, encoding, hashing, expansion, key "
             "generation; both parameter sets; several keys, malformed ones and slightly changed inputs among them, and messages; recurring randomness) with random prior contents of "
             "output buffers and stack: every result equals that of the same call alone in a process of its own, and the "
             "model's verdict; inputs unchanged. The same calls spread over 2-6 threads, with and without ThreadSanitizer. "
             "Non-trivial: every case judged."),
    "C20": dict(
        programs=one("c20_random.cpp", "opt") + one("c20_random.cpp", "san", tiers=("thorough",)),
        rule="std::random_device is replaced by a generator of the case: every bit of every entropy word drawn is flipped "
             "and the stream compared; words changed, swapped and rotated; 25000 instances in a row compared for "
             "collisions; reads in generated chunk sizes (streams up to megabytes, "
             "and with made-up sponge output beyond 2^32 bytes) compared with one read, and no repetition; salts of signatures. Non-trivial: every "
             "case judged.",
        assumptions=["std::random_device is the system's entropy source and its words are independent and uniform"]),
    "C21": dict(
        programs=one("c21_u72.cpp", "opt") + one("c21_u72.cpp", "gcc") + one("c21_u72.cpp", "san", tiers=("thorough",)),
        exhaustive="boundary_pairs",
        rule="Generated 72-bit operands (random, powers of two +-2, word-boundary patterns, few bytes set, nearby and "
             "complementary pairs) plus all pairs of 419 boundary values, against unsigned __int128. Non-trivial: a carry "
             "or borrow between the two words, or equal high words; for byte conversion, a non-zero high byte."),
    "C22": dict(
        programs=one("c22_karatsuba.cpp", "opt") + one("c22_karatsuba.cpp", "san", tiers=("thorough",)),
        rule="Generated integer polynomials of every power-of-two length 1..1024 (dense, sparse, extreme, one-signed, "
             "0/1; coefficients up to 4000 bits), against schoolbook / Kronecker-substitution products. A share of the generated polynomials carries structure: constant, periodic, half or alternate places empty, equal or opposite halves, palindromes, empty ends. Non-trivial: "
             "both operands non-zero."),
    "C23": dict(
        programs=one("c23_hex.cpp", "opt") + one("c23_hex.cpp", "san"),
        exhaustive="every_byte",
        rule="Generated byte strings (length 0..6000), mixed-case hex, and generated keys and signatures placed against "
             "inaccessible pages. Non-trivial: at least one byte; a complete encode/decode with guard pages."),
    "C24": dict(
        programs=both("c24_keypoly.cpp", "opt") + both("c24_keypoly.cpp", "gcc", tiers=("thorough",)) +
        both("c24_keypoly.cpp", "san", tiers=("thorough",)),
        rule="Polynomials drawn by key generation under random bytes, forced stretches and chosen samples, against a "
             "long-double model of the sampler (values and bytes read); chi-square and correlation tests on 80000-160000 "
             "coefficients per case; whole key generations replayed by the model from the same stream: the key is the first draw "
             "that passes every test, and every draw passed over fails one - for random streams, and for chosen draws: some to be "
             "discarded, then one that just passes (a coefficient or F at the end of its range, a Gram-Schmidt norm just within "
             "the limit, even f(1) or g(1)). Non-trivial: every case judged."),
}

# quick runs of these checks are mostly build: do more cases
for cid, k in dict(C03=2, C06=5, C07=5, C08=5, C09=5, C14=3, C16=3, C17=2, C18=3, C21=5, C22=5, C23=4).items():
    for p in CHECKS[cid]["programs"]:
        p["scale"] = k
