#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Every honestly produced signature verifies",
  "For every keypair produced by key generation, every message of any length (including empty) and whatever bytes the random generator delivers (as long as they do not stay degenerate for ever), signing returns success and produces a signature of the documented length that verification accepts under the matching public key. This holds both for the one-shot signing call on an encoded secret key and for repeated signing with a precomputed basis and tree. Candidates that are too long (squared norm above the bound) or do not fit the signature length are never emitted: signing draws again.",
  ["inputs", "histories", "configurations"],
  "all keypairs, all messages (0..many KiB), all PRNG streams (including streams with adversarial stretches that force oversized candidates), N in {512,1024}, one-shot and precomputed-key signing",
  "The only end-to-end test needs the sha3 submodule and is not built here; it samples two keys, one random message per length and benign randomness, so retry paths and rare coefficient sizes are never reached.",
  ["include/falcon.hpp", "include/signing.hpp", "include/verification.hpp", "include/ffsampling.hpp", "include/encoding.hpp", "include/decoding.hpp"],
  [("norm check and retry loop", "include/signing.hpp sign()"), ("compression failure retry", "include/encoding.hpp compress_sig()"), ("one-shot wrapper", "include/falcon.hpp sign()")],
  ["falcon::sign return value and signature bytes", "falcon::verify result"])

p("C02", "Verification accepts exactly the signatures the specification accepts",
  "For any public key polynomial, message and signature bytes, verification returns true if and only if the signature is a well-formed encoding of a polynomial s2 and, with c the hash of salt and message and s1 = c - s2*h mod q centred around zero, the squared norm of (s1, s2) computed exactly over the integers is at most the bound of the parameter set (34034726 for N=512, 70265242 for N=1024). Nothing with a larger norm is ever accepted, however large it is, and nothing at or below the bound is rejected.",
  ["inputs", "configurations"],
  "all (public key, message, signature) triples, including ones built to sit exactly on the norm bound, one above it, and with norms beyond any machine integer width in use",
  "Existing tests only verify honest signatures; no test presents a forged, oversized or boundary signature, so acceptance of garbage cannot show.",
  ["include/verification.hpp", "include/falcon.hpp", "include/decoding.hpp", "include/ntt.hpp", "include/hashing.hpp"],
  [("s1 recomputation, centring and norm accumulation", "include/verification.hpp verify()"), ("bound constants", "include/falcon.hpp verify()")],
  ["return value of falcon::verify and verification::verify"])

p("C03", "A signature is bound to its key, message and exact bytes",
  "Starting from a genuine (public key, message, signature), any history of changes - another message, another key, another salt, flipped, inserted, removed or swapped message bytes, modified signature or public key bytes - leads to rejection, and undoing the changes leads to acceptance again. (The scheme itself defines as valid a changed public key h for which (c - s2*h, s2) is still short for the signed message and salt, such as h times x^i with s2 times x^-i; such changes are excepted.) A Falcon512 artefact is never accepted where a Falcon1024 one is expected through its header byte, and vice versa.",
  ["inputs", "histories"],
  "all genuine triples and all sequences of edits of message, key and signature bytes",
  "No existing test tampers with anything.",
  ["include/verification.hpp", "include/falcon.hpp", "include/hashing.hpp", "include/decoding.hpp"],
  [("hash over salt and message", "include/hashing.hpp hash_to_point()"), ("header checks", "include/decoding.hpp decode_sig(), decode_pkey()"), ("unique signature encoding", "include/decoding.hpp decompress_sig()")],
  ["return value of falcon::verify"])

p("C04", "Generated keypairs are always valid and loadable",
  "For every random stream, key generation ends with a keypair whose encoded secret key decodes to polynomials f, g, F for which an integer G with f*G - g*F = q modulo x^N+1 exists, whose public key decodes to h with f*h = g modulo q, and whose f, g, F lie in the ranges the secret key format can represent. f is invertible modulo q and the Gram-Schmidt norm of (f, g) is within 1.17*sqrt(q); draws that violate any of this are discarded and redrawn.",
  ["inputs", "fault_sequences", "configurations"],
  "all random streams (natural and steered so that out-of-range coefficients, non-invertible f or a large Gram-Schmidt norm are drawn), N in {512,1024}",
  "The existing keygen test needs the missing sha3 submodule and generates one key per parameter set, while the interesting draws occur about once in a thousand keys or less.",
  ["include/keygen.hpp", "include/ntru_gen.hpp", "include/falcon.hpp", "include/encoding.hpp"],
  [("rejection loop", "include/ntru_gen.hpp ntru_gen()"), ("public key division", "include/keygen.hpp compute_public_key()"), ("invertibility and Gram-Schmidt tests", "include/ntru_gen.hpp is_poly_invertible(), gram_schmidt_norm()")],
  ["bytes written by falcon::keygen", "polynomials returned by ntru_gen"])

p("C05", "The NTRU equation solver is exact or reports failure",
  "For every pair of short integer polynomials f, g of any power-of-two degree up to 1024 (not nearly vanishing together at a root of x^N+1, as the Gram-Schmidt bound of key generation ensures), the solver either reports that there is no solution or returns F, G with f*G - g*F = 12289 modulo x^N+1 exactly over the integers. For degrees of two and more it reports failure only when the resultants of f and g with x^N+1 are not coprime (at degree 1, where the resultants are the coefficients themselves, this is asked for non-negative ones only), and the returned F, G are reduced: no larger than the Babai-reduced size for f, g. Its building blocks (field norm, lifting, Galois conjugate, extended gcd) are exact for integers of any size.",
  ["inputs"],
  "all small f, g at degrees 1..1024, all big-integer operands for the building blocks",
  "The only solver test needs the missing submodule, samples one f, g per parameter set and checks the equation in floating point.",
  ["include/ntru_gen.hpp", "include/karatsuba.hpp"],
  [("recursive tower solver", "include/ntru_gen.hpp ntru_solve()"), ("Babai reduction", "include/ntru_gen.hpp reduce()"), ("field norm, lift, conjugate, xgcd", "include/ntru_gen.hpp")],
  ["return value of ntru_gen::ntru_solve, reduce, field_norm, lift, galois_conjugate, xgcd"])

p("C06", "Public key encoding is a bijection and decoding is strict",
  "Encoding any polynomial with coefficients in [0, 12289) yields exactly 897 (N=512) or 1793 (N=1024) bytes in the fixed 14-bit layout (least significant bit first) with header 0x09 or 0x0A and decodes back to the same polynomial. Decoding succeeds only for byte strings that are such an encoding: a wrong header or any 14-bit coefficient of 12289 or more is refused, and every accepted string re-encodes to itself.",
  ["inputs", "configurations"],
  "all polynomials over Z_q and all byte strings of public key length",
  "The existing test round-trips one random valid key per parameter set (and needs the missing submodule); invalid encodings are never tried.",
  ["include/encoding.hpp", "include/decoding.hpp", "include/utils.hpp"],
  [("14-bit packing", "include/encoding.hpp encode_pkey()"), ("unpacking and header check", "include/decoding.hpp decode_pkey()")],
  ["bytes and return value of encode_pkey/decode_pkey"])

p("C07", "Secret key encoding is lossless and header-checked",
  "Encoding any f, g, F whose coefficients lie in the format's ranges (f, g in [-31,31] for N=512 and [-15,15] for N=1024, F in [-127,127]) yields exactly 1281 or 2305 bytes in the fixed-width two's-complement layout with header 0x59 or 0x5A, and decoding returns the same three polynomials. Decoding a string with any other header fails, and any string it accepts re-encodes to the same bytes.",
  ["inputs", "configurations"],
  "all coefficient triples in range and all byte strings of secret key length",
  "The existing test round-trips one generated key per parameter set, whose coefficients are concentrated near zero, and needs the missing submodule.",
  ["include/encoding.hpp", "include/decoding.hpp", "include/utils.hpp"],
  [("6/5/8-bit packing", "include/encoding.hpp encode_skey()"), ("unpacking and sign extension", "include/decoding.hpp decode_skey()")],
  ["bytes and return value of encode_skey/decode_skey"])

p("C08", "Signature compression is lossless and honest about fitting",
  "For every polynomial within the signature norm bound, compression succeeds if and only if its Golomb-Rice encoding (sign, 7 low bits, unary high part) fits in the 625 or 1239 bytes available, writes exactly that encoding followed by zero padding, leaves the first 41 bytes of the signature untouched, and decompression then returns exactly the same polynomial - including coefficients of large magnitude and encodings that fill the space to the last bit. When it does not fit, failure is reported.",
  ["inputs", "configurations"],
  "all integer polynomials s2 with squared norm up to the bound, for both parameter sets, in particular coefficients up to 5833/8382 and encodings at the exact length limit",
  "The existing test compresses one honest signature per parameter set (needs the missing submodule); coefficients above 1023 and exact-fit encodings have negligible probability there.",
  ["include/encoding.hpp", "include/decoding.hpp"],
  [("bit writer", "include/encoding.hpp compress_sig()"), ("bit reader", "include/decoding.hpp decompress_sig()")],
  ["bytes and return value of compress_sig, output of decompress_sig"])

p("C09", "Each signature polynomial has exactly one accepted encoding",
  "For every byte string of signature length, decompression agrees with the specification: it accepts the string exactly when it is the unique encoding of some polynomial (no negative zero, no truncated coefficient, all trailing bits zero) and then yields that polynomial, which compresses back to the same bytes; otherwise it refuses. The result depends only on the bytes of the signature itself.",
  ["inputs", "configurations"],
  "all byte strings of length 666/1280, including near-misses of valid encodings (negative zero, early end, stray trailing bits, long unary runs)",
  "The existing test tries one uniformly random string, which practically always fails to decode, so the accepting and near-accepting cases are never seen.",
  ["include/decoding.hpp"],
  [("bit reader, unique zero, trailing-zero check", "include/decoding.hpp decompress_sig(), decode_sig()")],
  ["return value and output of decompress_sig/decode_sig"])

p("C10", "No input bytes make the library misbehave in memory",
  "Whatever bytes are passed as public key, signature, message or (for decoding) secret key, every call reads and writes only inside the documented buffer sizes, executes no undefined behaviour (overflow, bad shift, out-of-range conversion, out-of-bounds access), terminates, and returns a boolean verdict. The same holds for key generation and signing with valid keys under any random stream.",
  ["inputs", "fault_sequences"],
  "all byte strings of the documented lengths for each entry point; all random streams for keygen and sign; buffers placed against inaccessible memory",
  "Existing tests run without sanitizers on honest inputs only, in over-allocated heap blocks where an over-read is silent.",
  ["include/decoding.hpp", "include/encoding.hpp", "include/verification.hpp", "include/falcon.hpp", "include/samplerz.hpp", "include/signing.hpp"],
  [("bit extraction near the buffer end", "include/decoding.hpp extract_8_contiguous_bits()"), ("fixed-size scratch buffer", "include/encoding.hpp compress_sig()"), ("norm accumulation", "include/verification.hpp verify()")],
  ["AddressSanitizer/UndefinedBehaviorSanitizer reports, process exit"])

p("C11", "The integer sampler follows the specified Gaussian",
  "For every centre mu and every deviation sigma' in [sigma_min, 1.8205], the integer sampler returns, for given random bytes, exactly the value (and consumes exactly the bytes) that the specification's SamplerZ returns, so that its output follows the discrete Gaussian centred at mu with deviation sigma'. The base sampler reproduces the tabulated half-Gaussian exactly and the Bernoulli step accepts with probability ccs*exp(-x) to within the specification's accuracy for every x >= 0.",
  ["inputs", "fault_sequences"],
  "all centres (integers, half-integers, negative, large), all admissible deviations, all random byte strings, including 72-bit values on and next to table boundaries and x next to multiples of ln 2",
  "The existing known-answer tests (not built here) cover the given-bytes variant on fixed vectors only; the variant used for signing has no test and the distribution is never examined.",
  ["include/samplerz.hpp", "include/u72.hpp"],
  [("table comparison", "include/samplerz.hpp base_sampler()"), ("exponential approximation", "include/samplerz.hpp approx_exp(), ber_exp()"), ("rejection loop", "include/samplerz.hpp samplerz()")],
  ["return values and bytes consumed of samplerz, ber_exp, base_sampler, approx_exp"])

p("C12", "Signatures leak nothing through their distribution",
  "Over many signatures, the signature vectors (s1, s2) behave as a spherical Gaussian of deviation sigma (165.74 for N=512, 168.39 for N=1024) in every direction, in particular along every direction of the secret basis, and this holds for every key and message. Each signature is the first acceptable one of independently drawn candidates, whatever was rejected before. The salts are uniformly distributed and never repeat, and signing the same message twice gives different signatures.",
  ["histories", "inputs"],
  "all keys, all long histories of signatures made with one key, projections of the signatures on all secret basis rows and Gram-Schmidt directions",
  "No existing test looks at more than the validity of single signatures; a sampler replaced by deterministic rounding would still pass and reveal the key.",
  ["include/signing.hpp", "include/ffsampling.hpp", "include/falcon_tree.hpp", "include/falcon.hpp", "include/samplerz.hpp"],
  [("fast Fourier sampling over a normalised tree", "include/ffsampling.hpp ff_sampling()"), ("tree normalisation with sigma", "include/falcon_tree.hpp normalize_tree(), include/falcon.hpp compute_falcon_tree()"), ("fresh salt per signature", "include/signing.hpp sign()")],
  ["decoded (s1, s2) and salts of produced signatures"])

p("C13", "Arithmetic modulo 12289 is exact for every operand",
  "Addition, subtraction, negation, multiplication, division, inversion, exponentiation and comparison of field elements give the canonical result in [0, 12289) for every pair of elements (division by and inversion of zero give zero), construction reduces any 16-bit value, the compound forms agree with the plain ones, and random elements are canonical and cover the whole field.",
  ["inputs"],
  "all 12289^2 operand pairs, all 65536 constructor arguments, all 64-bit exponents",
  "The existing test draws 1024 random pairs out of 151 million, so an error confined to a few operands (zero, q-1, a Barrett corner) is missed.",
  ["include/ff.hpp"],
  [("Barrett reduction", "include/ff.hpp operator*, operator*="), ("extended gcd", "include/ff.hpp xgcd(), inv()"), ("square and multiply", "include/ff.hpp operator^")],
  ["values of ff_t results"])

p("C14", "The NTT is an exact ring isomorphism",
  "For both degrees and every polynomial over Z_q, the transform yields the evaluations at the N distinct roots of x^N+1, the inverse transform undoes it in either order, pointwise addition, negation, multiplication and division in the transformed domain equal addition, negation, multiplication modulo x^N+1 and division by invertible polynomials, pointwise division is element-wise with zero where the divisor is zero, and all outputs are canonical.",
  ["inputs", "configurations"],
  "all polynomials over Z_q of degree below 512 and 1024, including sparse, constant, maximal and non-invertible ones",
  "The existing test checks (a*b)/b = a on random dense polynomials, which any self-inverse linear map with pointwise products satisfies; it never compares with an actual polynomial product.",
  ["include/ntt.hpp", "include/polynomial.hpp", "include/ff.hpp"],
  [("butterflies and root tables", "include/ntt.hpp ntt(), intt()"), ("pointwise operations", "include/polynomial.hpp")],
  ["output arrays of ntt, intt and polynomial::{mul,div,add_to,neg}"])

p("C15", "The FFT is accurate at every size",
  "For every size 2..1024 and every real or complex coefficient vector, the transform equals the evaluations at the N roots of x^N+1 to within double-precision rounding, the inverse undoes it, splitting and merging correspond to taking even and odd coefficients, adjoint corresponds to the Hermitian adjoint, and pointwise operations correspond to ring operations, all with an error of a few units in the last place relative to the size of the data.",
  ["inputs", "configurations"],
  "all sizes 2^1..2^10 and all coefficient vectors, with magnitudes from 1 to beyond 2^50",
  "The existing tests round results of small-integer data to integers, which hides errors up to 0.5, test whole multiplications only at two sizes, and never compare with a reference transform.",
  ["include/fft.hpp", "include/polynomial.hpp"],
  [("butterflies and precomputed roots of unity", "include/fft.hpp fft(), ifft(), POWERS_OF_zeta"), ("split/merge/adjoint", "include/fft.hpp split_fft(), merge_fft(), adj_poly()"), ("pointwise operations", "include/polynomial.hpp")],
  ["output arrays of the transforms"])

p("C16", "A loaded secret key expands to the same basis and tree",
  "For every valid secret key, the recomputed G is exactly the integer solution of f*G - g*F = q, the basis matrix is the transform of [[g,-f],[G,-F]], its Gram matrix is B*B^adj, and the Falcon tree is the normalised LDL* tree of that Gram matrix: every internal node and every leaf sigma/sqrt(D) matches the specification to floating-point accuracy and every leaf lies in [sigma_min, 1.8205]. One-shot signing and signing with the precomputed expansion give the same signature for the same randomness.",
  ["inputs", "configurations"],
  "all keys produced by key generation, all self-adjoint positive Gram matrices at sizes 2..1024 for the decomposition",
  "The existing tests use the tree only indirectly through whether one signature verifies; a wrong tree still yields signatures that verify or merely fail more often.",
  ["include/falcon.hpp", "include/keygen.hpp", "include/falcon_tree.hpp"],
  [("G recomputation", "include/falcon.hpp recompute_G()"), ("basis, Gram matrix", "include/falcon.hpp compute_matrix_B(), include/keygen.hpp compute_gram_matrix()"), ("LDL tree", "include/falcon_tree.hpp ldl(), ffldl(), normalize_tree()")],
  ["arrays G, B, T; signature bytes"])

p("C17", "Fast Fourier sampling returns close integer vectors",
  "For every target and every valid tree, fast Fourier sampling returns polynomials with integer coefficients whose distance to the target, measured through the basis, follows the tree: it equals what the specification's recursive sampler returns for the same per-leaf integer samples. Applied to a hashed message, (t - z)*B is an integer vector (s1, s2) with s1 + s2*h = c modulo q.",
  ["inputs", "fault_sequences"],
  "all targets (arbitrary real polynomials), all keys, all random streams, sizes 2..1024",
  "The existing test (not built here) checks one random target with one key; it checks only membership in the lattice, not the recursion or the leaf order.",
  ["include/ffsampling.hpp", "include/falcon_tree.hpp", "include/fft.hpp", "include/samplerz.hpp"],
  [("recursion over the tree", "include/ffsampling.hpp ff_sampling()")],
  ["arrays z0, z1"])

p("C18", "Message hashing matches the specification",
  "For every salt, every message of any length and both degrees, the hashed polynomial equals the specification's HashToPoint: SHAKE256 of salt followed by message, consecutive big-endian 16-bit values, those of 61445 or more skipped, the rest reduced modulo 12289. All coefficients are canonical and the result depends on every salt and message byte and on nothing else.",
  ["inputs", "configurations"],
  "all salts and messages (lengths 0 to many sponge blocks), outputs with any number and position of rejected values, including across sponge block boundaries",
  "No existing test checks hashing against anything; sign and verify share the same code, so any consistent error cancels out.",
  ["include/hashing.hpp"],
  [("absorb order, rejection sampling", "include/hashing.hpp hash_to_point()")],
  ["output polynomial"])

p("C19", "Calls are independent: no hidden state, no side effects",
  "The result of every call depends only on its arguments and on the randomness drawn: any interleaving of key generation, signing, verification and decoding for several keys and both parameter sets, in one thread or in many at once, gives the same results as each call made alone. Inputs are never modified, and output buffers are completely determined regardless of what they held before.",
  ["histories", "schedules", "inputs"],
  "all sequences and concurrent schedules of API calls over several keys (well-formed or not), messages and both parameter sets, with arbitrary prior buffer contents",
  "Existing tests run one call after another in one thread, on one key and fresh zeroed buffers.",
  ["include/falcon.hpp", "include/signing.hpp", "include/verification.hpp", "include/encoding.hpp", "include/decoding.hpp", "include/keygen.hpp"],
  [("stack-only working memory, constant tables", "all headers"), ("explicit PRNG argument", "include/prng.hpp")],
  ["return values, output buffers, ThreadSanitizer reports"])

p("C20", "Randomness is fresh, full-width and a plain byte stream",
  "Each generator instance is seeded with 256 bits that all come from system entropy, so instances created from different entropy produce unrelated streams and independently generated keys and salts do not collide. Reading a stream in any sequence of chunk sizes yields the same bytes as reading it at once, and each read fills exactly the requested bytes.",
  ["inputs", "histories", "fault_sequences"],
  "all values delivered by the system entropy source, all histories of read sizes, large populations of generator instances",
  "No existing test examines the generator; a collapsed seed space or a repeated block is invisible to functional tests.",
  ["include/prng.hpp"],
  [("seeding from std::random_device", "include/prng.hpp prng_t()"), ("stream reads", "include/prng.hpp read()")],
  ["seed bytes hashed by the generator, bytes returned by read"])

p("C21", "72-bit integers behave as integers modulo 2^72",
  "For all 72-bit values, addition, subtraction and negation are exact modulo 2^72, comparisons agree with the mathematical order, and conversion from and to big- and little-endian bytes are mutually inverse and place every byte as the byte order says.",
  ["inputs"],
  "all pairs of 72-bit values, in particular those whose sums and differences carry between the two words and values on word boundaries",
  "There is no test of this type; the sampler vectors exercise only a handful of comparisons.",
  ["include/u72.hpp"],
  [("two-limb arithmetic", "include/u72.hpp")],
  ["values of u72_t results"])

p("C22", "Big-integer polynomial multiplication is exact",
  "For every power-of-two length and all coefficients, however large and of either sign, the Karatsuba product equals the schoolbook product over the integers, and the reduced product equals it modulo x^N+1.",
  ["inputs"],
  "all lengths 1..1024 and all integer coefficient vectors up to thousands of bits, including zero, sparse and sign-mixed ones",
  "No test calls the multiplication directly; in key generation an error would only show as a failed or retried solve.",
  ["include/karatsuba.hpp"],
  [("Karatsuba recursion and reduction", "include/karatsuba.hpp karatsuba(), karamul()")],
  ["returned coefficient arrays"])

p("C23", "Hex helpers and length functions are consistent",
  "Converting bytes to hexadecimal gives two lowercase digits per byte in order, converting back returns the original bytes for upper- and lower-case digits alike, and the compile-time length functions state exactly the number of bytes the encoders write and the decoders read (897/1793, 1281/2305, 666/1280).",
  ["inputs", "configurations"],
  "all byte strings of any length, both parameter sets",
  "The helpers are used by tests and examples only to print or load fixed data and are never checked themselves.",
  ["include/common.hpp", "include/utils.hpp"],
  [("hex conversion", "include/common.hpp to_hex(), to_byte_array()"), ("length functions", "include/utils.hpp")],
  ["returned strings, bytes and lengths; extent of bytes touched"])

p("C24", "Key polynomials follow the specified Gaussian and the first good draw is kept",
  "For every random stream, key generation draws f and g with each coefficient the sum of 4096/N consecutive SamplerZ(0, 1.43300980528773) outputs, so that coefficients are independent and follow the discrete Gaussian of deviation 1.17 sqrt(q/2N), and it returns the first drawn pair (f, g) that passes all tests of the specification and fits the secret key format: no acceptable pair is passed over and no coefficient is altered after it was drawn.",
  ["inputs", "configurations"],
  "all random streams (including stretches that drive the sampler to its extremes), N in {512,1024}",
  "Key generation is not covered by the tests built here, and any valid keypair would satisfy an end-to-end test: a narrower, biased or correlated key distribution stays invisible.",
  ["include/ntru_gen.hpp", "include/samplerz.hpp", "include/keygen.hpp"],
  [("drawing of polynomials", "include/ntru_gen.hpp gen_poly()"), ("rejection loop", "include/ntru_gen.hpp ntru_gen()")],
  ["f and g decoded from falcon::keygen's secret key; output of ntru_gen::gen_poly for given bytes; bytes read"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
