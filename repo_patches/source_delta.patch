From f6bf7f3ea5357a5d9a8d2de57f28072d494cd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 01/10] fix: accumulate squared norm in 64 bits during
 signature verification

The 32 -bit accumulator overflowed for (s1, s2) far above the bound, so that
garbage signatures ( e.g. s2 = 0 ) were accepted with noticeable probability.
---
 include/verification.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..943a721 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,13 +67,16 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  // 64 -bit accumulator, because squared norm of an arbitrary (s1, s2) doesn't
+  // fit in 32 -bits
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * static_cast<int64_t>(s2[i]);
   }
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += normalized_s1[i] * normalized_s1[i];
+    const auto t = static_cast<int64_t>(normalized_s1[i]);
+    sqrd_norm += t * t;
   }
 
   return sqrd_norm <= β2;
-- 
2.43.0


From 989602f6aa075d1edd56974c582b63f521043fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/10] fix: keep s1 coefficient 6144 in [-6144, 6144] while
 verifying

Coefficient (q-1)/2 was centred to -6145, overstating the squared norm.
---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 943a721..6aea004 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From 7f254fb9c867487f55f5a2646beb5634036876bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 03/10] fix: decompress signature coefficients whose magnitude
 is 1024 or more

Unary coded high bits were dropped and the bit position was advanced past the
terminating 1, when there were 8 or more of them.
---
 include/decoding.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..28a0ac8 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -310,13 +310,14 @@ decompress_sig(const uint8_t* const __restrict sig,
             const auto t = extract_8_contiguous_bits(sig, bit_idx);
             v = std::countl_zero(t);
           }
-          k += v;
-          bit_idx += ebits;
+          k += std::min(v, ebits);
+          bit_idx += std::min(v, ebits);
 
           if (v < ebits) {
             break;
           }
         }
+        coeff += (1 << 7) * k;
       }
     }
 
-- 
2.43.0


From 6d584baf7bbb462fce5bd14a2b453666b04f8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 04/10] fix: don't read past the end of signature while
 decompressing it

---
 include/decoding.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 28a0ac8..aed045b 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -273,6 +273,11 @@ decompress_sig(const uint8_t* const __restrict sig,
 {
   constexpr size_t slen = 8 * sbytelen; // signature bit length
 
+  // 8 contiguous bits are extracted by touching two consecutive bytes and that
+  // can begin at bit index slen + 7, hence two bytes of zero padding
+  uint8_t padded[sbytelen + 2]{};
+  std::memcpy(padded, sig, sbytelen);
+
   size_t bit_idx = 8 +  // header byte
                    320; // salt bytes
   size_t coeff_idx = 0;
@@ -284,7 +289,7 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extracts sign bit and low ( least significant ) 7 bits of coefficient
     {
-      const uint8_t res = extract_8_contiguous_bits(sig, bit_idx);
+      const uint8_t res = extract_8_contiguous_bits(padded, bit_idx);
 
       sign_bit = res >> 7; // sign bit
       coeff = res & 0x7f;  // low 7 bits of coefficient
@@ -293,7 +298,7 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
+      size_t k = std::countl_zero(extract_8_contiguous_bits(padded, bit_idx));
       if (k < 8) [[likely]] {
         coeff += (1 << 7) * k;
         bit_idx += k;
@@ -304,10 +309,10 @@ decompress_sig(const uint8_t* const __restrict sig,
 
           size_t v = 0;
           if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+            const auto t = extract_rem_contiguous_bits_in_byte(padded, bit_idx);
             v = std::countl_zero(t);
           } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
+            const auto t = extract_8_contiguous_bits(padded, bit_idx);
             v = std::countl_zero(t);
           }
           k += std::min(v, ebits);
@@ -345,10 +350,10 @@ decompress_sig(const uint8_t* const __restrict sig,
 
       size_t v = 0;
       if (ebits == 8) [[likely]] {
-        const auto t = extract_8_contiguous_bits(sig, bit_idx);
+        const auto t = extract_8_contiguous_bits(padded, bit_idx);
         v = std::countl_zero(t);
       } else {
-        const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+        const auto t = extract_rem_contiguous_bits_in_byte(padded, bit_idx);
         v = std::countl_zero(t);
       }
 
-- 
2.43.0


From d8e0220b1adaac7397146786f5e615e828d1d89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 05/10] fix: accept compressed signatures which use up all
 available bits

Algorithms 17 and 18 only refuse what needs more than slen -bits.
---
 include/decoding.hpp | 2 +-
 include/encoding.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index aed045b..be1cdcc 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -343,7 +343,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= (bit_idx > slen) | (coeff_idx < N);
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From dbebcdc2e1c7af44088fd7f40b2375e3bee98e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 06/10] fix: refuse public keys with coefficients >= q

---
 include/decoding.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index be1cdcc..d634eed 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -13,8 +13,9 @@ namespace decoding {
 // https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon public key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and each of 14 -bit wide coefficients should be <
+// q, otherwise decoding will fail, returning false. In case of successful
+// decoding, truth value is returned.
 template<const size_t N>
 static inline bool
 decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
@@ -44,7 +45,14 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
-  return true;
+  const bool valid = std::all_of(h, h + N, [](const auto& e) {
+    return e.v < ff::Q;
+  });
+  if (!valid) [[unlikely]] {
+    std::fill_n(h, N, 0);
+  }
+
+  return valid;
 }
 
 // Decodes a byte encoded Falcon{512, 1024} secret key into three polynomials f,
-- 
2.43.0


From dc3d949218b953b7edeb754fb9f46581d8ce1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 07/10] fix: redraw key polynomials which don't fit in encoded
 secret key

Coefficients of f, g or F outside of the range of the secret key format were
silently truncated by encode_skey, producing keys that can't sign.
---
 include/ntru_gen.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..0b75251 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -504,6 +504,19 @@ ntru_solve(const std::array<mpz_class, N>& f, const std::array<mpz_class, N>& g)
   }
 }
 
+// Checks whether each of N coefficients of a polynomial ∈ [-max, max]
+template<const size_t N>
+static inline bool
+is_within(const int32_t* const poly, const int32_t max)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -max) & (poly[i] <= max);
+  }
+
+  return flg;
+}
+
 // Given a modulus q ( = 12289 ), this routine generates four polynomials f, g,
 // F, G ∈ Z[x]/(x^N + 1), solving NTRU equation ( see eq 3.15 of Falcon
 // specification ). This routine is an implementation of algorithm 5 of Falcon
@@ -517,10 +530,19 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // maximum absolute value of coefficients, which encoded secret key can hold,
+  // see section 3.11.5 of Falcon specification
+  constexpr int32_t fg_max = (N == 512) ? 31 : 15;
+  constexpr int32_t F_max = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    if (!is_within<N>(f, fg_max) || !is_within<N>(g, fg_max)) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -547,6 +569,9 @@ ntru_gen(int32_t* const __restrict f,
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
     }
+    if (!is_within<N>(F, F_max)) {
+      continue;
+    }
     break;
   }
 }
-- 
2.43.0


From 34c1576b29805fe0fb27b16ede25d053ca6b4039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 08/10] fix: don't convert negative double to unsigned integer
 in ber_exp

Rounding ( e.g. with fused multiply-add ) can make x or x - s * ln(2) slightly
negative.
---
 include/samplerz.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..0f84038 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -249,8 +249,9 @@ approx_exp(const double x, const double ccs)
 static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
-  const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  // x, r >= 0, but rounding can make them slightly negative
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -286,8 +287,9 @@ ber_exp(const double x,
         const uint8_t* const rbytes,
         const size_t rblen)
 {
-  const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  // x, r >= 0, but rounding can make them slightly negative
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0


From 62a9f1b91b864df9b90cbc46fa60afc1efdbec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 09/10] fix: seed PRNG with 256 bits of system randomness

All 32 seed bytes were expanded from a single 32 -bit word, leaving only 2^32
possible keys and salt sequences.
---
 include/prng.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..e20db1d 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "shake256.hpp"
+#include <cstring>
 #include <random>
 
 // Pseudo Random Number Generator
@@ -7,8 +8,7 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +23,11 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
-    for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+    for (size_t i = 0; i < sizeof(seed); i += sizeof(uint32_t)) {
+      const uint32_t word = rd();
+      std::memcpy(seed + i, &word, sizeof(word));
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From 544c92d30f80e49d2bf924277b73e784a5f075c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 10/10] fix: end the NTRU reduction when a multiple of one half
 remains

---
 include/ntru_gen.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index 0b75251..be640e7 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -420,7 +420,11 @@ reduce(const std::array<mpz_class, N>& f,
 
     signed long k_rounded[N];
     for (size_t i = 0; i < N; i++) {
-      k_rounded[i] = static_cast<signed long>(std::round(k[i].real()));
+      // A multiple of one half rounds to +1 and, once subtracted, to -1, so it
+      // has to be left alone, otherwise the loop would never end.
+      const double k_i = k[i].real();
+      const double r = std::abs(k_i) > 0.5 + 1e-6 ? std::round(k_i) : 0.;
+      k_rounded[i] = static_cast<signed long>(r);
     }
 
     bool atleast_one_nonzero = false;
-- 
2.43.0

