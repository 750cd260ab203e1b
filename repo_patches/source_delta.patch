From 0115761d4d121280f1f0e8c04c4f1eff4b04ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 1/4] fix: give FFT0 an engine for length 1

FFT0::setup left obj null for N == 1, so every transform of a ComplexFFT of
length 1, and of a RealFFT or DCT of length 2, dereferenced a null pointer.
The radix-4 engine accepts log_N == 0 as the identity.
---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..148a7f5 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -67,7 +67,7 @@ namespace OTFFT_NAMESPACE
             // see upstream otfft_gen_setup.h
             switch (log_N)
             {
-            case  0: break;
+            case  0: obj = FFT1::instance(); obj->setup2(log_N); break;
             case  1: obj = FFT2::instance(); obj->setup2(log_N); break;
             case  2: obj = FFT1::instance(); obj->setup2(log_N); break;
             case  3: obj = FFT4::instance(); obj->setup2(log_N); break;
-- 
2.43.0


From 277795ba12edb5c55ab3ae83e3e253b4511eba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 2/4] fix: compute i*j in 64 bits in the any-radix butterflies

For a prime factor k > 46341 the product i*j overflowed int, so the twiddle
index became wrong or negative (out-of-bounds read of W) and the transform
returned wrong data.
---
 src/otfft_mixedradix.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..38c0744 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -10,6 +10,7 @@
 #define otfft_mixedradix_h
 
 #include "otfft_misc.h"
+#include <stdint.h>
 
 namespace OTFFT_NAMESPACE {
 
@@ -512,7 +513,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +533,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*((int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1070,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1090,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*((int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1650,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1675,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2234,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2259,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From 98965f00b3dc29b58f1b140acb5cbef794d664fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 3/4] fix: execute XGETBV only when the OS has enabled it
 (CPUID OSXSAVE)

---
 src/otfft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..3762045 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,8 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV is an undefined opcode unless the OS has set CR4.OSXSAVE
+                const auto cpu_info_xcr = (cpu_info_1[2] & 0x08000000) != 0 ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From 1c0c710e2999d84c6b761d7333b1656a6779ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 4/4] fix: complex_t *= and /= by one of its own components

The factor was taken by reference, so z *= z.Re and z /= z.Re scaled the
imaginary part by the already updated real part.
---
 inc/otfft_complex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..388f0a9 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -97,14 +97,14 @@ struct complex_t
         return *this;
     }
 
-    complex_t& operator*=(const double& x) NOEXCEPT
+    complex_t& operator*=(const double x) NOEXCEPT
     {
         Re *= x;
         Im *= x;
         return *this;
     }
 
-    complex_t& operator/=(const double& x) NOEXCEPT
+    complex_t& operator/=(const double x) NOEXCEPT
     {
         Re /= x;
         Im /= x;
-- 
2.43.0

