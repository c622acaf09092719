From 7618f5085f6cce2d9eba63d6b53d53954c8fadec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 01/15] fix: KeccakSum: pass the security level to
 KangarooTwelve_Initialize()

KangarooTwelve_Initialize() takes a security level since KT256 was added, and the
utility did not compile any more.
---
 util/KeccakSum/KeccakSum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index f921259..440d6c8 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -67,7 +67,7 @@ int hashInitialize(Instance *instance, const Specifications *specs)
             return 0;
     }
     else if (specs->algorithm == algorithm_K12) {
-        if (KangarooTwelve_Initialize(&instance->k12, specs->hashbitlen/8)) {
+        if (KangarooTwelve_Initialize(&instance->k12, 128, specs->hashbitlen/8)) {
             printf("Incorrect KangarooTwelve parameters.\n");
             return -1;
         }
-- 
2.43.0


From bf5c1e2f8b8c19cc44e9dc8c2c86d735e41255b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 02/15] fix: reference Keccak-p[1600]: never expose incomplete
 round constants while initializing

KeccakP1600_StaticInitialize() runs at the start of every session and used to
clear each shared round constant before recomputing it, so that a session being
initialized in one thread corrupted the permutations running in the others.
---
 .../KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c   | 7 +++++--
 lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
index da12dfb..fdf5937 100644
--- a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
+++ b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
@@ -105,7 +105,7 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
-    uint32_t low, high;
+    uint32_t low, high, even, odd;
 
     for(i=0; i<maxNrRounds; i++) {
         low = high = 0;
@@ -118,7 +118,10 @@ void KeccakP1600_InitializeRoundConstants(void)
                     high ^= (uint32_t)1 << (bitPosition-32);
             }
         }
-        toBitInterleaving(low, high, &(KeccakRoundConstants[i][0]), &(KeccakRoundConstants[i][1]));
+        toBitInterleaving(low, high, &even, &odd);
+        /* Another thread may be permuting: never expose an incomplete constant. */
+        KeccakRoundConstants[i][0] = even;
+        KeccakRoundConstants[i][1] = odd;
     }
 }
 
diff --git a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
index 9cca99f..4c60162 100644
--- a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
+++ b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
@@ -66,14 +66,17 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
+    tKeccakLane roundConstant;
 
     for(i=0; i<maxNrRounds; i++) {
-        KeccakRoundConstants[i] = 0;
+        roundConstant = 0;
         for(j=0; j<7; j++) {
             bitPosition = (1<<j)-1; /* 2^j-1 */
             if (LFSR86540(&LFSRstate))
-                KeccakRoundConstants[i] ^= (tKeccakLane)1<<bitPosition;
+                roundConstant ^= (tKeccakLane)1<<bitPosition;
         }
+        /* Another thread may be permuting: never expose an incomplete constant. */
+        KeccakRoundConstants[i] = roundConstant;
     }
 }
 
-- 
2.43.0


From 200c80eaacc9c45425d1eedef6006c60262ed550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 03/15] fix: ParallelHash: no size_t overflow when comparing
 the input with several blocks

With a block size of 2^61 bytes or more, Parallellism * blockLen wrapped to a
small number (0 with AVX-512) and ParallelHash*_Update() processed blocks that
are not there.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..ac1cd4e 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -237,7 +237,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -263,7 +263,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From 224cf2d1e877312688134862d4d5297e6e438297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 04/15] fix: TupleHash: refuse a tuple with a partial-byte
 element before absorbing any of it

TupleHash*_Update() returned an error on such an element after having absorbed
the elements before it, so the refused call changed the final result.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index ac1cd4e..8da5b60 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -507,10 +507,13 @@ int TupleHash_Initialize(TupleHash_Instance *thi, BitLength outputBitLen,
 int TupleHash_Update(TupleHash_Instance *thi, const TupleElement *tuple, size_t numberOfElements)
 {
     unsigned char encbuf[sizeof(BitLength)+1];
+    size_t i;
 
-    while (numberOfElements-- != 0) {
-        if ((tuple->inputBitLen & 7) != 0) /* Only full bytes are supported */
+    /* Refuse before absorbing anything */
+    for (i = 0; i < numberOfElements; i++)
+        if ((tuple[i].inputBitLen & 7) != 0) /* Only full bytes are supported */
             return 1;
+    while (numberOfElements-- != 0) {
         if (cSHAKE_Update(&thi->csi, encbuf, left_encode(encbuf, tuple->inputBitLen)*8) != 0)
             return 1;
         if (cSHAKE_Update(&thi->csi, tuple->input, tuple->inputBitLen) != 0)
-- 
2.43.0


From c7f830abbd246c13bf740b1b5799bdcb5062f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 05/15] fix: Duplexing: take the queued input into account when
 checking delimitedSigmaEnd

After DuplexingFeedPartialInput() and the like, a delimitedSigmaEnd that no
longer fits the rate was accepted, so that input bits collided with the padding
or landed in the inner part of the state.
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..66d692c 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From c7007ab798ad3577c52a0397192d4446041bdf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 06/15] fix: DuplexingGetFurtherOutput: do not touch output[-1]
 when no output is requested

With a rate that is not a multiple of 8 and all its output already taken, an
empty request masked the byte before the caller's buffer.
---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 66d692c..9732642 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From 642e59218789a6f6836568dabbcac32a5a2d8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 07/15] fix: SANE and SANSE: a refused initialization leaves
 the session as it was

---
 lib/high/Kravatte/KravatteModes.c | 6 ++++--
 lib/high/Xoofff/XoofffModes.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..f59baf7 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -129,9 +129,9 @@ static void memxor(BitSequence *target, const BitSequence *source1, const BitSeq
 int Kravatte_SANE_Initialize(Kravatte_SANE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    kp->e = 0;
     if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
         return 1;
+    kp->e = 0;
     if (Kra(&kp->kravatte, Nonce, NonceBitLen, KRAVATTE_FLAG_INIT | KRAVATTE_FLAG_LAST_PART) != 0)
         return 1;
     return Vatte(&kp->kravatte, tag, Kravatte_SANE_TagLength * 8, KRAVATTE_FLAG_NONE);
@@ -229,8 +229,10 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
 
 int Kravatte_SANSE_Initialize(Kravatte_SANSE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
+        return 1;
     kp->e = 0;
-    return Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen);
+    return 0;
 }
 
 static int Kravatte_SANSE_AddToHistory(Kravatte_SANSE_Instance *kp, const BitSequence *data, BitLength dataBitLen, unsigned char appendix, unsigned int appendixLen)
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..0b8ece6 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -256,9 +256,9 @@ int XoofffWBCAE_Decipher(Xoofff_Instance *xp, const BitSequence *ciphertext, Bit
 int XoofffSANE_Initialize(XoofffSANE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    xp->e = 0;
     if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
         return 1;
+    xp->e = 0;
     if (Xoofff_Compress(&xp->xoofff, Nonce, NonceBitLen, Xoofff_FlagInit | Xoofff_FlagLastPart) != 0)
         return 1;
     return Xoofff_Expand(&xp->xoofff, tag, XoofffSANE_TagLength * 8, Xoofff_FlagNone);
@@ -388,8 +388,10 @@ static int XoofffSANSE_AddToHistory(XoofffSANSE_Instance *xp, const BitSequence
 
 int XoofffSANSE_Initialize(XoofffSANSE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
+        return 1;
     xp->e = 0;
-    return Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen);
+    return 0;
 }
 
 int XoofffSANSE_Wrap(XoofffSANSE_Instance *xp, const BitSequence *plaintext, BitSequence *ciphertext, BitLength dataBitLen, 
-- 
2.43.0


From 43f06835dd8c10cbc3578efcf2f25d956266989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 08/15] fix: KeccakSum: SHA-3 and SHAKE options take effect
 after KangarooTwelve or ParallelHash

---
 util/KeccakSum/KeccakSum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 440d6c8..ccc31ba 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -269,6 +269,7 @@ int process(int argc, char* argv[])
             }
         }
         else if (strcmp("--shake128", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1344;
             specs.capacity = 256;
             specs.hashbitlen = 264;
@@ -276,6 +277,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--shake256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 528;
@@ -283,6 +285,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--sha3-224", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1152;
             specs.capacity = 448;
             specs.hashbitlen = 224;
@@ -290,6 +293,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
@@ -297,6 +301,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-384", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 832;
             specs.capacity = 768;
             specs.hashbitlen = 384;
@@ -304,6 +309,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-512", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 576;
             specs.capacity = 1024;
             specs.hashbitlen = 512;
@@ -314,6 +320,7 @@ int process(int argc, char* argv[])
             specs.delimitedSuffix = 0x01;
         }
         else if (strcmp("--ethereum", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
-- 
2.43.0


From d70dbdd51711358500dd4de8588531550f22570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 09/15] fix: KeccakSum: do not print a digest after a read
 error

---
 util/KeccakSum/KeccakSum.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index ccc31ba..0e642bc 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -157,6 +157,12 @@ int processFile(const char *fileName, const Specifications *specs, int base64)
         if (read > 0)
             hashUpdate(&instance, specs, buffer, read);
     } while(read>0);
+    if (ferror(fp)) {
+        printf("File '%s' could not be read.\n", fileName);
+        if (fp != stdin)
+            fclose(fp);
+        return -1;
+    }
     if (fp != stdin) {
         fclose(fp);
     }
-- 
2.43.0


From d06881bf1460986f9e18da91c18781098b946a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 10/15] fix: KeccakSum: report the failure to process a string
 in the exit status

---
 util/KeccakSum/KeccakSum.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 0e642bc..9bf6114 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -374,7 +374,9 @@ int process(int argc, char* argv[])
                 return -1;
             }
             i++;
-            processString(argv[i], &specs, base64);
+            r = processString(argv[i], &specs, base64);
+            if (r)
+                return r;
         }
         else if (strcmp("--help", argv[i]) == 0 || strcmp("-h", argv[i]) == 0) {
             printHelp();
-- 
2.43.0


From 600b24447e50bae05e085993d22b891e28c0caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 11/15] fix: KeccakSum: report the failure to write the output
 in the exit status

---
 util/KeccakSum/KeccakSum.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 9bf6114..f12851a 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -405,5 +405,9 @@ int process(int argc, char* argv[])
 
 int main(int argc, char* argv[])
 {
-    return process(argc, argv);
+    int r = process(argc, argv);
+
+    if ((fflush(stdout) != 0) || ferror(stdout))
+        return -1;
+    return r;
 }
-- 
2.43.0


From 61c67fe65c558bd48bba8537e55ea6443cb81b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 12/15] fix: Xoodyak in-place decryption with SIMD128 and
 AVX512

Xoodyak_DecryptFullBlocks wrote the last 8 bytes of an output block and then
read the same bytes of the input, so that decrypting in place gave a wrong
state, unlike with the other implementations.
---
 .../AVX512/Xoodyak-full-block-SIMD512.c       | 24 +++++++++----
 .../Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c  | 36 ++++++++++++-------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
index c5275d8..14b9e4e 100644
--- a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
+++ b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
@@ -294,6 +294,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
     size_t  initialLength = IOLen;
     V128    o0;
     V128    one = _mm_set_epi32(0, 1, 0, 0); 
+#if defined(__i386__) || defined(_M_IX86)
+    uint32_t i0, i1;
+#else
+    uint64_t i0;
+#endif
     DeclareVars;
 
     State2Vars(state);
@@ -310,15 +315,22 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc3);
         Round(_rc2);
         Round(_rc1);
+        /* the input is read before the output is written, as they may be the same buffer */
+#if defined(__i386__) || defined(_M_IX86)
+        i0 = *((uint32_t*)(I+16));
+        i1 = *((uint32_t*)(I+20));
+#else
+        i0 = *((uint64_t*)(I+16));
+#endif
         o0 = XOR(a0, LOAD128u(I[0]));
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = i0 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i1 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i0, 0);
+        a1 = _mm_insert_epi32(a1, i1, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i0 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i0, 0);
 #endif
         STORE128u(O[0], o0);
         a0 = XOR(a0, o0); 
diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..fdb64d4 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -317,6 +317,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
     size_t  initialLength = IOLen;
     V128    o0;
     V128    one = _mm_set_epi32(0, 1, 0, 0); 
+#if defined(__i386__) || defined(_M_IX86)
+    uint32_t i0, i1;
+#else
+    uint64_t i0;
+#endif
     DeclareVars;
 
     State2Vars(state);
@@ -333,33 +338,40 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc3);
         Round(_rc2);
         Round(_rc1);
+        /* the input is read before the output is written, as they may be the same buffer */
+#if defined(__i386__) || defined(_M_IX86)
+        i0 = *((uint32_t*)(I+16));
+        i1 = *((uint32_t*)(I+20));
+#else
+        i0 = *((uint64_t*)(I+16));
+#endif
         o0 = XOR128(a0, LOAD128u(I[0]));
 #if defined(__SSE41__) || defined(__SSE4_1__)
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = i0 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i1 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i0, 0);
+        a1 = _mm_insert_epi32(a1, i1, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i0 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i0, 0);
 #endif
 #else
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_cvtsi128_si32(a1);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
+        *((uint32_t*)(O+16)) = i0 ^ _mm_cvtsi128_si32(a1);
+        *((uint32_t*)(O+20)) = i1 ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
             _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
             _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
-            *((uint32_t*)(I+20)),
-            *((uint32_t*)(I+16)));
+            i1,
+            i0);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_cvtsi128_si64(a1);
+        *((uint64_t*)(O+16)) = i0 ^ _mm_cvtsi128_si64(a1);
         a1 = _mm_set_epi64x(
             // preserve high words
              _mm_cvtsi128_si64(_mm_srli_si128(a1,8)),
-            *((uint64_t*)(I+16)));
+            i0);
 #endif
 #endif
         STORE128u(O[0], o0);
-- 
2.43.0


From 241783cbfaa4c724319f9ca2b0a8da55e3d54306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 13/15] fix: K1600x8-AVX512-u4 compiles: declare the loop
 counter used in the leaf processing

---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..950869d 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1208,6 +1208,9 @@ size_t KeccakP1600times8_12rounds_FastLoop_Absorb(KeccakP1600times8_SIMD512_stat
 void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling == 4)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1238,6 +1241,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling == 4)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 08a58184f82ba812f8f2a3d0394a35d3f729e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 14/15] fix: Xoofff on Xoodoox4-AVX512 or Xoodoox8-AVX512
 alone: accumulator may not be 64-byte aligned

---
 lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c | 8 ++++----
 lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
index d51fbbc..a6e1715 100644
--- a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
+++ b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
@@ -40,7 +40,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -51,7 +51,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1092,8 +1092,8 @@ size_t Xooffftimes4_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x256), _mm256_castsi128_si256(x20), 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
diff --git a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
index d2eaa93..b9a20fc 100644
--- a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
+++ b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
@@ -41,7 +41,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -52,7 +52,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1110,8 +1110,8 @@ size_t Xooffftimes8_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x00), x20, 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
-- 
2.43.0


From 4485810f9957d131941a5f8a63763380d20d7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 15/15] fix: Kravatte and Xoofff modes: compare tags in a time
 that does not depend on where they differ

---
 lib/high/Kravatte/KravatteModes.c | 24 +++++++++++++++++-------
 lib/high/Xoofff/XoofffModes.c     | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index f59baf7..5823fc7 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -49,6 +49,17 @@ static void DUMP( const unsigned char * pText, const unsigned char * pData, unsi
 #define DUMP(pText, pData, size )
 #endif
 
+/* Returns 0 if and only if both strings are equal, in a time that does not depend on where they differ */
+static int differ(const BitSequence *a, const BitSequence *b, size_t byteLen)
+{
+    BitSequence difference = 0;
+    size_t      i;
+
+    for (i = 0; i < byteLen; ++i)
+        difference |= a[i] ^ b[i];
+    return difference;
+}
+
 static void memxoris(BitSequence *target, const BitSequence *source, BitLength bitLen)
 {
     size_t  byteLen = bitLen / 8;
@@ -218,7 +229,7 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
         return 1;
     kp->e ^= 1;
      /* Wipe plaintext on tag difference */
-    if ( memcmp( tagPrime, tag, Kravatte_SANE_TagLength) != 0) {
+    if ( differ( tagPrime, tag, Kravatte_SANE_TagLength) != 0) {
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
     }
@@ -348,7 +359,7 @@ int Kravatte_SANSE_Unwrap(Kravatte_SANSE_Instance *kp, const BitSequence *cipher
     kp->e ^= 1;
 
     /* if T' != T then */
-    if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
+    if ( differ( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
@@ -537,16 +548,15 @@ int Kravatte_WBCAE_Decipher(Kravatte_Instance *kv, const BitSequence *ciphertext
                         const BitSequence *AD, BitLength ADBitLen)
 {
     unsigned int nbitsInLastByte = dataBitLen & 7;
+    int result = 0;
 
     if ( Kravatte_WBC_Decipher(kv, ciphertext, plaintext, dataBitLen + Kravatte_WBCAE_t, AD, ADBitLen) != 0)
         return 1;
     if (nbitsInLastByte != 0) { /* check first bits of checkValue sitting in last byte of plaintext */
-        if ((plaintext[dataBitLen/8] & ~((1 << nbitsInLastByte) - 1)) != 0) {
-            memset( plaintext, 0, (dataBitLen + Kravatte_WBCAE_t + 7) / 8 );
-            return 1;
-        }
+        result = plaintext[dataBitLen/8] & ~((1 << nbitsInLastByte) - 1);
     }
-    if (memcmp(plaintext + (dataBitLen+7)/8, Kravatte_WBCAE_Zero, Kravatte_WBCAE_t/8) != 0) {
+    result |= differ(plaintext + (dataBitLen+7)/8, Kravatte_WBCAE_Zero, Kravatte_WBCAE_t/8);
+    if (result != 0) {
         memset( plaintext, 0, (dataBitLen + Kravatte_WBCAE_t + 7) / 8 );
         return 1;
     }
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index 0b8ece6..c34c3c7 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -49,6 +49,17 @@ static void DUMP( const unsigned char * pText, const unsigned char * pData, unsi
 #define DUMP(pText, pData, size )
 #endif
 
+/* Returns 0 if and only if both strings are equal, in a time that does not depend on where they differ */
+static int differ(const BitSequence *a, const BitSequence *b, size_t byteLen)
+{
+    BitSequence difference = 0;
+    size_t      i;
+
+    for (i = 0; i < byteLen; ++i)
+        difference |= a[i] ^ b[i];
+    return difference;
+}
+
 /* ------------------------------------------------------------------------- */
 
 static BitLength XoofffWBC_Split(BitLength n)
@@ -229,16 +240,15 @@ int XoofffWBCAE_Decipher(Xoofff_Instance *xp, const BitSequence *ciphertext, Bit
                         const BitSequence *AD, BitLength ADBitLen)
 {
     unsigned int nbitsInLastByte = dataBitLen & 7;
+    int result = 0;
 
     if ( XoofffWBC_Decipher(xp, ciphertext, plaintext, dataBitLen + XoofffWBCAE_t, AD, ADBitLen) != 0)
         return 1;
     if (nbitsInLastByte != 0) { /* check first bits of checkValue sitting in last byte of plaintext */
-        if ((plaintext[dataBitLen/8] & ~((1 << nbitsInLastByte) - 1)) != 0) {
-            memset( plaintext, 0, (dataBitLen + XoofffWBCAE_t + 7) / 8 );
-            return 1;
-        }
+        result = plaintext[dataBitLen/8] & ~((1 << nbitsInLastByte) - 1);
     }
-    if (memcmp(plaintext + (dataBitLen+7)/8, XoofffWBCAE_Zero, XoofffWBCAE_t/8) != 0) {
+    result |= differ(plaintext + (dataBitLen+7)/8, XoofffWBCAE_Zero, XoofffWBCAE_t/8);
+    if (result != 0) {
         memset( plaintext, 0, (dataBitLen + XoofffWBCAE_t + 7) / 8 );
         return 1;
     }
@@ -344,7 +354,7 @@ int XoofffSANE_Unwrap(XoofffSANE_Instance *xp, const BitSequence *ciphertext, Bi
         return 1;
     xp->e ^= 1;
      /* Wipe plaintext on tag difference */
-    if ( memcmp( tagPrime, tag, XoofffSANE_TagLength) != 0) {
+    if ( differ( tagPrime, tag, XoofffSANE_TagLength) != 0) {
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
     }
@@ -475,7 +485,7 @@ int XoofffSANSE_Unwrap(XoofffSANSE_Instance *xp, const BitSequence *ciphertext,
     xp->e ^= 1;
 
     /* if T' != T then */
-    if ( memcmp( tagPrime, tag, sizeof(tagPrime)) != 0) {
+    if ( differ( tagPrime, tag, sizeof(tagPrime)) != 0) {
         /* wipe P, return error! */
         memset(plaintext, 0, (dataBitLen + 7) / 8);
         return 1;
-- 
2.43.0

