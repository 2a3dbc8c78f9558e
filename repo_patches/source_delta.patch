From 4a336a358f32f812810eda09fcf11112d873c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:29 +0000
Subject: [PATCH 1/9] fix: portable AES: pass the state as a parameter so that
 concurrent calls do not interfere

---
 src/aes/aes_c.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/aes/aes_c.c b/src/aes/aes_c.c
index 5eea00c..6a66738 100644
--- a/src/aes/aes_c.c
+++ b/src/aes/aes_c.c
@@ -19,7 +19,6 @@
 /*****************************************************************************/
 // state - array holding the intermediate results during decryption.
 typedef uint8_t state_t[4][4];
-static state_t* state;
 
 // The lookup-tables are marked const so they can be placed in read-only storage instead of RAM
 // The numbers below can be computed dynamically trading ROM for RAM -
@@ -202,7 +201,7 @@ void aes256_load_schedule_c(const uint8_t* Key, uint8_t* RoundKey)
 
 // This function adds the round key to state.
 // The round key is added to the state by an XOR function.
-static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
+static void AddRoundKey(state_t* state, const uint8_t* RoundKey, uint8_t round)
 {
   uint8_t i,j;
   for (i=0;i<4;++i)
@@ -217,7 +216,7 @@ static void AddRoundKey(const uint8_t* RoundKey, uint8_t round)
 
 // The SubBytes Function Substitutes the values in the
 // state matrix with values in an S-box.
-static void SubBytes(void)
+static void SubBytes(state_t* state)
 {
   uint8_t i, j;
   for (i = 0; i < 4; ++i)
@@ -233,7 +232,7 @@ static void SubBytes(void)
 // The ShiftRows() function shifts the rows in the state to the left.
 // Each row is shifted with different offset.
 // Offset = Row number. So the first row is not shifted.
-static void ShiftRows(void)
+static void ShiftRows(state_t* state)
 {
   uint8_t temp;
 
@@ -269,7 +268,7 @@ static uint8_t xtime(uint8_t x)
 
 
 // MixColumns function mixes the columns of the state matrix
-static void MixColumns(void)
+static void MixColumns(state_t* state)
 {
   uint8_t i;
   uint8_t Tmp,Tm,t;
@@ -286,39 +285,38 @@ static void MixColumns(void)
 
 
 // Cipher is the main function that encrypts the PlainText.
-static void Cipher(const uint8_t* RoundKey, uint32_t Nr)
+static void Cipher(state_t* state, const uint8_t* RoundKey, uint32_t Nr)
 {
   uint8_t round = 0;
 
   // Add the First round key to the state before starting the rounds.
-  AddRoundKey(RoundKey, 0);
+  AddRoundKey(state, RoundKey, 0);
 
   // There will be Nr rounds.
   // The first Nr-1 rounds are identical.
   // These Nr-1 rounds are executed in the loop below.
   for (round = 1; round < Nr; ++round)
   {
-    SubBytes();
-    ShiftRows();
-    MixColumns();
-    AddRoundKey(RoundKey, round);
+    SubBytes(state);
+    ShiftRows(state);
+    MixColumns(state);
+    AddRoundKey(state, RoundKey, round);
   }
 
   // The last round is given below.
   // The MixColumns function is not here in the last round.
-  SubBytes();
-  ShiftRows();
-  AddRoundKey(RoundKey, Nr);
+  SubBytes(state);
+  ShiftRows(state);
+  AddRoundKey(state, RoundKey, Nr);
 }
 
 
 void aes128_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output)
 {
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 10);
+  Cipher((state_t*)output, schedule, 10);
 }
 
 
@@ -326,8 +324,7 @@ void aes256_enc_c(const uint8_t* input, const uint8_t* schedule, uint8_t* output
 {
   // Copy input to output, and work in-memory on output
   memcpy(output, input, 16);
-  state = (state_t*)output;
 
   // The next function call encrypts the PlainText with the Key using AES algorithm.
-  Cipher(schedule, 14);
+  Cipher((state_t*)output, schedule, 14);
 }
-- 
2.43.0


From d67f4b62638b298a0dfe08e22dcd7190cb5d95fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:29 +0000
Subject: [PATCH 2/9] fix: report a failure of the random source from key
 generation and encapsulation

---
 src/kem.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index 5e5c429..bbf95f2 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -32,7 +32,9 @@ int crypto_kem_keypair(unsigned char* pk, unsigned char* sk)
     uint8_t shake_input_seedSE[1 + CRYPTO_BYTES];           // contains secret data
 
     // Generate the secret value s, the seed for S and E, and the seed for the seed for A. Add seed_A to the public key
-    randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
+    if (randombytes(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A) != 0) {
+        return 1;
+    }
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(randomness, CRYPTO_BYTES + CRYPTO_BYTES + BYTES_SEED_A);
 #endif
@@ -101,7 +103,9 @@ int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk
 
     // pkh <- G_1(pk), generate random mu, compute (seedSE || k) = G_2(pkh || mu)
     shake(pkh, BYTES_PKHASH, pk, CRYPTO_PUBLICKEYBYTES);
-    randombytes(mu, BYTES_MU);
+    if (randombytes(mu, BYTES_MU) != 0) {
+        return 1;
+    }
 #ifdef DO_VALGRIND_CHECK
     VALGRIND_MAKE_MEM_UNDEFINED(mu, BYTES_MU);
 #endif
-- 
2.43.0


From 46e14e61a8c6848dd2f973618648c379be788f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:29 +0000
Subject: [PATCH 3/9] fix: do not read the secret key through a misaligned
 pointer in decapsulation

---
 src/kem.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kem.c b/src/kem.c
index bbf95f2..a242a49 100644
--- a/src/kem.c
+++ b/src/kem.c
@@ -169,7 +169,7 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     const uint8_t *ct_c2 = &ct[(PARAMS_LOGQ*PARAMS_N*PARAMS_NBAR)/8];
     const uint8_t *sk_s = &sk[0];
     const uint8_t *sk_pk = &sk[CRYPTO_BYTES];
-    const uint16_t *sk_S = (uint16_t *) &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
+    const uint8_t *sk_S = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES];
     uint16_t S[PARAMS_N * PARAMS_NBAR];                      // contains secret data
     const uint8_t *sk_pkh = &sk[CRYPTO_BYTES + CRYPTO_PUBLICKEYBYTES + 2*PARAMS_N*PARAMS_NBAR];
     const uint8_t *pk_seedA = &sk_pk[0];
@@ -189,8 +189,9 @@ int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned ch
     VALGRIND_MAKE_MEM_UNDEFINED(sk, CRYPTO_SECRETKEYBYTES);
 #endif
 
+    memcpy(S, sk_S, 2*PARAMS_N*PARAMS_NBAR);                 // sk may have any alignment
     for (size_t i = 0; i < PARAMS_N * PARAMS_NBAR; i++) {
-        S[i] = LE_TO_UINT16(sk_S[i]);
+        S[i] = LE_TO_UINT16(S[i]);
     }
 
     // Compute W = C - Bp*S (mod q), and decode the randomness mu
-- 
2.43.0


From 118ffc54dd0ad031af8f8f94d042c42fb9b3c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:29 +0000
Subject: [PATCH 4/9] fix: fill random byte requests larger than INT_MAX

---
 src/random/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 7cea45c..e8f4e32 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -34,7 +34,8 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     }
 
 #elif defined(NIX)
-    int r, n = (int)nbytes, count = 0;
+    ssize_t r;
+    unsigned long long n = nbytes, count = 0;
     
     if (lock == -1) {
         do {
-- 
2.43.0


From 7273f34d312b79d2ef7fd79a3de1391c5e7dfa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:14 +0000
Subject: [PATCH 5/9] fix: convert the byte order of A in the portable S'*A+E'

The portable-optimised frodo_mul_add_sa_plus_e used the bytes from AES/SHAKE
as native words, so on a big-endian machine encapsulation and decapsulation
disagreed with key generation and with the specification.
---
 src/frodo_macrify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 75190b3..16a1527 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -230,6 +230,9 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 #endif
 
 #if !defined(USE_AVX2)
+        for (q = 0; q < 8 * PARAMS_N; q++) {
+            A[q] = LE_TO_UINT16(A[q]);
+        }
         for (j = 0; j < PARAMS_NBAR; j++) {
             uint16_t sum = 0;
             int16_t sp[8];
-- 
2.43.0


From 7cabf88f5aba66a4cab00912a9f6bb1f567e07b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:32 +0000
Subject: [PATCH 6/9] fix: python reference: round half up in decode

The specification's dc() rounds halves up, and the C library does; Python's
round() rounds them to even, so the two disagreed when the noise was exactly
-q/2^(B+1).
---
 python3/frodokem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 873e622..580725f 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -321,7 +321,8 @@ class FrodoKEM(object):
             # 2. for j = 0; j < nbar; j += 1
             for j in range(self.nbar):
                 # 3. tmp = dc(K[i][j]) = round(K[i][j] * 2^B / q) mod 2^B
-                tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)
+                # (rounding half up; Python's round() would round half to even)
+                tmp = (K[i][j] * (2 ** self.B) + self.q // 2) // self.q % (2 ** self.B)
                 # 4. tmp' = sum_{l=0}^{B-1} tmp_l * 2^l
                 tmpbits = [0 for l in range(self.B)]
                 for l in range(self.B):
-- 
2.43.0


From add424d7afff447bb8e7737c11ae74d4be3df9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:32 +0000
Subject: [PATCH 7/9] fix: python reference: reject unknown variants

The assertion on a non-empty string always held.
---
 python3/frodokem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python3/frodokem.py b/python3/frodokem.py
index 580725f..a874511 100644
--- a/python3/frodokem.py
+++ b/python3/frodokem.py
@@ -42,7 +42,7 @@ class FrodoKEM(object):
             self.setParamsFrodo1344()
             self.gen = self.genSHAKE128
         else:
-            assert "Unknown variant"
+            assert False, "Unknown variant"
         warnings.warn("WARNING: This Python3 implementation of FrodoKEM is not designed to be fast or secure, and may leak secret information via timing or other side channels; it should not be used in production environments.")
 
     def setParamsFrodo640(self):
-- 
2.43.0


From 63f81143a9d46811a0ae645fe1ca4b32b05f2552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:27 +0000
Subject: [PATCH 8/9] fix: align the AES round keys that AES-NI code accesses
 as vectors

aes_ni.c reads and writes the key schedule through __m128i pointers, but the
callers declared it as a plain byte array. Compilers that do not raise the
alignment of such arrays (gcc -Os) made key generation crash.
---
 src/frodo_macrify.c           | 4 ++--
 src/frodo_macrify_reference.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 16a1527..754f5b7 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -32,7 +32,7 @@ int frodo_mul_add_as_plus_e(uint16_t *out, const uint16_t *s, const uint16_t *e,
 #if defined(USE_AES128_FOR_A)
     int16_t a_row_temp[4*PARAMS_N] = {0};                       // Take four lines of A at once       
 #if !defined(USE_OPENSSL)
-    uint8_t aes_key_schedule[16*11];
+    ALIGN_HEADER(16) uint8_t aes_key_schedule[16*11] ALIGN_FOOTER(16);
     AES128_load_schedule(seed_A, aes_key_schedule);   
 #else
     EVP_CIPHER_CTX *aes_key_schedule;    
@@ -134,7 +134,7 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
 
 #if defined(USE_AES128_FOR_A)
 #if !defined(USE_OPENSSL)
-    uint8_t aes_key_schedule[16*11];
+    ALIGN_HEADER(16) uint8_t aes_key_schedule[16*11] ALIGN_FOOTER(16);
     AES128_load_schedule(seed_A, aes_key_schedule);
 #else
     EVP_CIPHER_CTX *aes_key_schedule;
diff --git a/src/frodo_macrify_reference.c b/src/frodo_macrify_reference.c
index af59a16..0c354ff 100755
--- a/src/frodo_macrify_reference.c
+++ b/src/frodo_macrify_reference.c
@@ -28,7 +28,7 @@ int frodo_mul_add_as_plus_e(uint16_t *out, const uint16_t *s, const uint16_t *e,
     }
     
 #if !defined(USE_OPENSSL)
-    uint8_t aes_key_schedule[16*11];
+    ALIGN_HEADER(16) uint8_t aes_key_schedule[16*11] ALIGN_FOOTER(16);
     AES128_load_schedule(seed_A, aes_key_schedule);  
     AES128_ECB_enc_sch((uint8_t*)A, A_len, aes_key_schedule, (uint8_t*)A);
 #else
@@ -86,7 +86,7 @@ int frodo_mul_add_sa_plus_e(uint16_t *out, const uint16_t *s, uint16_t *e, const
     }
     
 #if !defined(USE_OPENSSL)
-    uint8_t aes_key_schedule[16*11];
+    ALIGN_HEADER(16) uint8_t aes_key_schedule[16*11] ALIGN_FOOTER(16);
     AES128_load_schedule(seed_A, aes_key_schedule);  
     AES128_ECB_enc_sch((uint8_t*)A, A_len, aes_key_schedule, (uint8_t*)A);
 #else
-- 
2.43.0


From 55efcefb2b06c035c140a234373e832051f6662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 9/9] fix: copy E as 16-bit values in the generate-and-multiply
 routine

The copy went through uint32_t pointers, but the arrays are only aligned for
uint16_t: undefined behaviour, visible when a compiler places S and E at an
address that is not a multiple of four.
---
 src/frodo_macrify.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frodo_macrify.c b/src/frodo_macrify.c
index 754f5b7..196dc05 100755
--- a/src/frodo_macrify.c
+++ b/src/frodo_macrify.c
@@ -25,8 +25,8 @@ int frodo_mul_add_as_plus_e(uint16_t *out, const uint16_t *s, const uint16_t *e,
     int i, j, k;
     ALIGN_HEADER(32) int16_t a_row[4*PARAMS_N] ALIGN_FOOTER(32) = {0};
 
-    for (i = 0; i < (PARAMS_N*PARAMS_NBAR); i += 2) {    
-        *((uint32_t*)&out[i]) = *((uint32_t*)&e[i]);
+    for (i = 0; i < (PARAMS_N*PARAMS_NBAR); i++) {    
+        out[i] = e[i];
     }    
     
 #if defined(USE_AES128_FOR_A)
-- 
2.43.0

