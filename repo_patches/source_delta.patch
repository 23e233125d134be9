From 380910aef8cdd05a8c76b58366cc2f37da131bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:46 +0000
Subject: [PATCH 01/12] fix: reject response tags that only match modulo 256

Unpack_Response() switched on the tag after narrowing it to int8_t, so a
proof structure carrying e.g. tag 257 was accepted as if it said 1.
---
 c-impl/PQCrypto-SIDH/src/poik.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..f2e8bfb 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1202,7 +1202,9 @@ static bool Unpack_Response(struct proof const *prf, struct response const *r, i
     curve_proj E2, E3;
     packed_fp2 j2, j3;
 
-    switch (*which = r->tag) {
+    *which = r->tag;    // NB: narrower than r->tag, which comes from the proof
+
+    switch (r->tag) {
 
     case RESP_LEFT:
         if (!Unpack_Chain_B(&prf->E0, &r->left.chain, &E2))
-- 
2.43.0


From e14c1b0ceaddc570372a45f41576eeb26214056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 02/12] fix: open the random device without a data race between
 threads

---
 c-impl/PQCrypto-SIDH/src/random/random.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index b8c7e02..630eb4b 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -12,7 +12,8 @@
 #elif defined(__NIX__)
     #include <unistd.h>
     #include <fcntl.h>
-    static int lock = -1;
+    #include <stdatomic.h>
+    static atomic_int lock = -1;
 #endif
 
 #define passed 0 
@@ -29,19 +30,25 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
 
 #elif defined(__NIX__)
     int r, n = (int)nbytes, count = 0;
+    int fd = atomic_load(&lock);
     
-    if (lock == -1) {
+    if (fd == -1) {
+        int none = -1;
         do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
+            fd = open("/dev/urandom", O_RDONLY);
+            if (fd == -1) {
                 sleep(1);
             }
-        } while (lock == -1);
+        } while (fd == -1);
+        if (!atomic_compare_exchange_strong(&lock, &none, fd)) {    // another thread was faster
+            close(fd);
+            fd = none;
+        }
     }
 
     while (n > 0) {
         do {
-            r = read(lock, random_array+count, n);
+            r = read(fd, random_array+count, n);
             if (r == -1) {
                 sleep(1);
             }
-- 
2.43.0


From 83de2fa99dd7b3f4bf5f2217ea440be07d21a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:14 +0000
Subject: [PATCH 03/12] fix: do not cache the number of workers in an
 unsynchronised static

---
 c-impl/PQCrypto-SIDH/src/poik.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index f2e8bfb..3b08b9b 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1314,9 +1314,7 @@ struct thread_state
 
 static void run_threads(void *(*fun)(void *), struct thread_state *state)
 {
-    static size_t count = 0;
-    if (!count)
-        count = num_threads();
+    size_t const count = num_threads();
 
     pthread_t threads[count];
 
-- 
2.43.0


From ee9dd4398b33b4895fef80c8764a6a9b5b54ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:26 +0000
Subject: [PATCH 04/12] fix: report output that could not be written completely

---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0


From e75fb331799bcad4f003f7d1420bd860fef4c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:26 +0000
Subject: [PATCH 05/12] fix: Dump() overlooks write errors on response tags

---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 3b08b9b..0a29e8c 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1549,7 +1549,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (0 > fprintf(file, "%d\n", r->tag))
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From 44a19bd292d5592e5f461d02cdb428ac28b046ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:13 +0000
Subject: [PATCH 06/12] fix: do not mask responses with uninitialised data when
 entropy is unavailable

---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 0a29e8c..1127a98 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -954,7 +954,8 @@ static void Pack_Chain_A(chain_A const *in, packed_chain_A *out)
         digit_t scalar[NWORDS_ORDER];
         {
             unsigned char buf[SIDH_SECRETKEYBYTES_A];
-            random_mod_order_A(buf);
+            if (random_mod_order_A(buf))
+                fail("random_mod_order_A() failed -- could not get entropy");
             buf[0] |= 1;    // make it odd
             decode_to_digits(buf, scalar, SECRETKEY_A_BYTES, NWORDS_ORDER);
         }
-- 
2.43.0


From 31eff2bca6648b3b699c9cb124387d5ee645a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 07/12] fix: cmp_f2elm returns 1 instead of -1 for different
 elements

The right shift acts on an unsigned digit, so different elements gave 1.
ct_cmov() expects -1: with 1 it replaced only the lowest bit of each byte
of the recovered message by the rejection string, so compressed SIKE
derived the shared secret of an invalid ciphertext from the message.
---
 c-impl/PQCrypto-SIDH/src/fpx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index a668fea..ed4fab9 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1063,7 +1063,7 @@ int8_t cmp_f2elm(const f2elm_t x, const f2elm_t y)
     for (int i = NWORDS_FIELD-1; i >= 0; i--)
         r |= (a[0][i] ^ b[0][i]) | (a[1][i] ^ b[1][i]);
 
-    return (int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
+    return (int8_t)(0 - (((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1)));
 }
 
 
-- 
2.43.0


From bffd7faba4978b442e8dd03809ff60a2de6ce708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:09 +0000
Subject: [PATCH 08/12] fix: compressed SIKE accepts ciphertexts with A = 0

For A = 0 the decompressed kernel is (0:0), which satisfies the projective
comparison in validate_ciphertext() for every recomputed point: such a
ciphertext was accepted under any key and gave a shared secret that
everybody can compute. Refuse (0:0).
---
 c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
index 858381a..db5f007 100644
--- a/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
+++ b/c-impl/PQCrypto-SIDH/src/compression/sidh_compressed.c
@@ -765,7 +765,7 @@ int EphemeralSecretAgreement_A(const unsigned char* PrivateKeyA, const unsigned
 int8_t validate_ciphertext(const unsigned char* ephemeralsk_, const unsigned char* CompressedPKB, const unsigned char* xKA, const unsigned char* tphiBKA_t)
 { // If ct validation passes returns 0, otherwise returns -1.
     point_proj_t phis[3] = {0}, R, S, pts[MAX_INT_POINTS_BOB];
-    f2elm_t XPB, XQB, XRB, coeff[3], A24plus = {0}, A24minus = {0}, A = {0}, comp1 = {0}, comp2 = {0}, one = {0};
+    f2elm_t XPB, XQB, XRB, coeff[3], A24plus = {0}, A24minus = {0}, A = {0}, comp1 = {0}, comp2 = {0}, one = {0}, zero = {0};
     digit_t temp[NWORDS_ORDER] = {0}, sk[NWORDS_ORDER] = {0};
     unsigned int i, row, m, index = 0, pts_index[MAX_INT_POINTS_BOB], npts = 0, ii = 0;
                     
@@ -824,5 +824,6 @@ int8_t validate_ciphertext(const unsigned char* ephemeralsk_, const unsigned cha
         
     fp2mul_mont(R->X, S->Z, comp1);
     fp2mul_mont(R->Z, S->X, comp2);             
-    return (cmp_f2elm(comp1, comp2));
+    // (0:0) is not a point (it results from A = 0) and would satisfy the equation for any R, so it is refused
+    return (int8_t)(cmp_f2elm(comp1, comp2) | ~(cmp_f2elm(S->X, zero) | cmp_f2elm(S->Z, zero)));
 }
-- 
2.43.0


From 89ffe71f3d032345f4c62735244f130681d0c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:12 +0000
Subject: [PATCH 09/12] fix: sqrt_Fp2 returned 0 for non-squares of the prime
 field

When u = a + 0*i with a not a square in GF(p), the root of a^2 + b^2 that is
computed is -a, so that (a + t1)/2 vanishes and the function returned 0.
Use the other root of the norm in that case.
---
 c-impl/PQCrypto-SIDH/src/fpx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index ed4fab9..86241de 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1012,6 +1012,10 @@ void sqrt_Fp2(const f2elm_t u, f2elm_t y)
     }  
     fpadd(a, t1, t0);                    // t0 = a+t1      
     fpdiv2(t0, t0);                      // t0 = t0/2 
+    fpcorrection(t0);
+    if (is_felm_zero(t0)) {              // u is a non-square of Fp (b = 0 and t1 = -a): use the other root of a^2+b^2
+        fpcopy(a, t0);
+    }
     fpcopy(t0, t2);
     fpinv_chain_mont(t2);                // t2 = t0^((p-3)/4)      
     fpmul_mont(t0, t2, t1);              // t1 = t2*t0             
-- 
2.43.0


From 0ed7526a49e4339d729c424adf01e7f35e639bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:34 +0000
Subject: [PATCH 10/12] fix: SIKE decapsulation read uninitialised data for
 ciphertexts failing validation

When EphemeralSecretAgreement_B_extended() rejects the ciphertext, ct_cmov()
combines the rejection string with bytes of temp that were never written.
---
 c-impl/PQCrypto-SIDH/src/sike.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/sike.c b/c-impl/PQCrypto-SIDH/src/sike.c
index 28d8851..7a3b148 100644
--- a/c-impl/PQCrypto-SIDH/src/sike.c
+++ b/c-impl/PQCrypto-SIDH/src/sike.c
@@ -89,7 +89,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     unsigned char jinvariant_[FP2_ENCODED_BYTES];
     unsigned char h_[MSG_BYTES];
     unsigned char c0_[CRYPTO_PUBLICKEYBYTES];
-    unsigned char temp[CRYPTO_CIPHERTEXTBYTES+MSG_BYTES];
+    unsigned char temp[CRYPTO_CIPHERTEXTBYTES+MSG_BYTES] = {0};
     int8_t selector = -1;
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(sk, MSG_BYTES + SECRETKEY_B_BYTES);
-- 
2.43.0


From 1846ec2a1eb50034ddfd240824d6ad04e924406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:43 +0000
Subject: [PATCH 11/12] fix: verify.sage: use the hash length of the parameter
 set

hash_hiding() always produced 32 bytes, but the commitments of p610 and p751
have 48 and 64 bytes, so every valid proof of these sizes was refused.
---
 sage-impl/verify.sage | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sage-impl/verify.sage b/sage-impl/verify.sage
index dcdd7f2..e84b529 100755
--- a/sage-impl/verify.sage
+++ b/sage-impl/verify.sage
@@ -29,12 +29,12 @@ def pack(el):
     plen = (p.bit_length() + 7) // 8
     return b''.join(int(v).to_bytes(plen,'little') for v in el)
 
-def hash_hiding(r, v):
+def hash_hiding(r, v, hash_bytes):
     h = SHAKE256.new()
     h.update(b'\x02')       # RO_COMMIT
     h.update(r)
     h.update(pack(v))
-    return h.read(int(32))  #XXX 32 is HASH_BYTES from poik.h
+    return h.read(int(hash_bytes))
 
 def curve(A):
     E = EllipticCurve([0,A,0,1,0])
@@ -99,6 +99,7 @@ class Parameters(NamedTuple):
     reps: int
     w: int
     h: int
+    hash_bytes: int     # HASH_BYTES from poik.h
 
     @property
     @cached_method
@@ -126,9 +127,9 @@ class LeftResponse(NamedTuple):
     def read(param):
         return LeftResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
 
-    def unpack(self, E0, _, __, B):
+    def unpack(self, E0, _, __, B, hash_bytes):
         j2 = unpack_chain(E0, self.chain, B).j_invariant()
-        h2 = hash_hiding(self.r2, j2)
+        h2 = hash_hiding(self.r2, j2, hash_bytes)
         return h2, self.h3
 
 class BottomResponse(NamedTuple):
@@ -141,11 +142,11 @@ class BottomResponse(NamedTuple):
     def read(param):
         return BottomResponse(read_bytes(), read_bytes(), param.read_element(), [param.read_element() for _ in range(param.w)])
 
-    def unpack(self, _, __, A, ___):
+    def unpack(self, _, __, A, ___, hash_bytes):
         j2 = curve(self.E2).j_invariant()
         j3 = unpack_chain(self.E2, self.chain, A).j_invariant()
-        h2 = hash_hiding(self.r2, j2)
-        h3 = hash_hiding(self.r3, j3)
+        h2 = hash_hiding(self.r2, j2, hash_bytes)
+        h3 = hash_hiding(self.r3, j3, hash_bytes)
         return h2, h3
 
 class RightResponse(NamedTuple):
@@ -157,9 +158,9 @@ class RightResponse(NamedTuple):
     def read(param):
         return RightResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
 
-    def unpack(self, _, E1, __, B):
+    def unpack(self, _, E1, __, B, hash_bytes):
         j3 = unpack_chain(E1, self.chain, B).j_invariant()
-        h3 = hash_hiding(self.r3, j3)
+        h3 = hash_hiding(self.r3, j3, hash_bytes)
         return self.h2, h3
 
 ################################################################
@@ -198,7 +199,7 @@ class Proof(NamedTuple):
         @parallel(os.cpu_count())
         def work(idx):
             try:
-                return proof.responses[idx].unpack(proof.E0, proof.E1, 2^proof.param.a, 3^proof.param.b)
+                return proof.responses[idx].unpack(proof.E0, proof.E1, 2^proof.param.a, 3^proof.param.b, proof.param.hash_bytes)
             except Invalid:
                 return None
 
@@ -219,10 +220,10 @@ class Proof(NamedTuple):
 
 #TODO should store these things in the proof file?
 params = {
-        'p434': Parameters(216, 137, 219, 4, 7),
-        'p503': Parameters(250, 159, 219, 4, 7),
-        'p610': Parameters(305, 192, 329, 4, 7),
-        'p751': Parameters(372, 239, 438, 4, 7),
+        'p434': Parameters(216, 137, 219, 4, 7, 32),
+        'p503': Parameters(250, 159, 219, 4, 7, 32),
+        'p610': Parameters(305, 192, 329, 4, 7, 48),
+        'p751': Parameters(372, 239, 438, 4, 7, 64),
     }
 
 ################################################################
-- 
2.43.0


From e72eceae9d4cf8845909f79d6551933b35e637a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:43 +0000
Subject: [PATCH 12/12] fix: verify.sage: check the lengths of hashes and
 hiding strings

Strings of any length were accepted, so bytes could be moved between
neighbouring hashes (or the split of a hiding string changed) without
changing the transcript: a modified proof was still accepted, and the
verdict differed from the one of the C verifier.
---
 sage-impl/verify.sage | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sage-impl/verify.sage b/sage-impl/verify.sage
index e84b529..402935e 100755
--- a/sage-impl/verify.sage
+++ b/sage-impl/verify.sage
@@ -16,9 +16,9 @@ def read_int():
         raise Invalid
     return int(s)
 
-def read_bytes():
+def read_bytes(n):
     s = input()
-    if not re.match('^([0-9a-f]{2})+$', s, re.IGNORECASE):
+    if len(s) != 2*n or not re.match('^([0-9a-f]{2})+$', s, re.IGNORECASE):
         raise Invalid
     return bytes.fromhex(s)
 
@@ -100,6 +100,7 @@ class Parameters(NamedTuple):
     w: int
     h: int
     hash_bytes: int     # HASH_BYTES from poik.h
+    hide_bytes: int     # HIDE_BYTES from poik.h
 
     @property
     @cached_method
@@ -125,7 +126,7 @@ class LeftResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return LeftResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
+        return LeftResponse(read_bytes(param.hide_bytes), read_bytes(param.hash_bytes), [param.read_element() for _ in range(param.h)])
 
     def unpack(self, E0, _, __, B, hash_bytes):
         j2 = unpack_chain(E0, self.chain, B).j_invariant()
@@ -140,7 +141,7 @@ class BottomResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return BottomResponse(read_bytes(), read_bytes(), param.read_element(), [param.read_element() for _ in range(param.w)])
+        return BottomResponse(read_bytes(param.hide_bytes), read_bytes(param.hide_bytes), param.read_element(), [param.read_element() for _ in range(param.w)])
 
     def unpack(self, _, __, A, ___, hash_bytes):
         j2 = curve(self.E2).j_invariant()
@@ -156,7 +157,7 @@ class RightResponse(NamedTuple):
 
     @staticmethod
     def read(param):
-        return RightResponse(read_bytes(), read_bytes(), [param.read_element() for _ in range(param.h)])
+        return RightResponse(read_bytes(param.hash_bytes), read_bytes(param.hide_bytes), [param.read_element() for _ in range(param.h)])
 
     def unpack(self, _, E1, __, B, hash_bytes):
         j3 = unpack_chain(E1, self.chain, B).j_invariant()
@@ -220,10 +221,10 @@ class Proof(NamedTuple):
 
 #TODO should store these things in the proof file?
 params = {
-        'p434': Parameters(216, 137, 219, 4, 7, 32),
-        'p503': Parameters(250, 159, 219, 4, 7, 32),
-        'p610': Parameters(305, 192, 329, 4, 7, 48),
-        'p751': Parameters(372, 239, 438, 4, 7, 64),
+        'p434': Parameters(216, 137, 219, 4, 7, 32, 64),
+        'p503': Parameters(250, 159, 219, 4, 7, 32, 64),
+        'p610': Parameters(305, 192, 329, 4, 7, 48, 96),
+        'p751': Parameters(372, 239, 438, 4, 7, 64, 128),
     }
 
 ################################################################
-- 
2.43.0

