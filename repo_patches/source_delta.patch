From 5efebf0755e83c1800ba53379efa88af50c69b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 1/6] fix: reject ciphertexts shorter than the tag instead of
 reading out of bounds

---
 crypto_aead/isapa128av20/avx_512/crypto_aead.c          | 6 ++++++
 crypto_aead/isapa128av20/bi_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c | 6 ++++++
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c        | 6 ++++++
 crypto_aead/isapa128av20/bi_8/crypto_aead.c             | 6 ++++++
 crypto_aead/isapa128av20/opt_32/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c       | 6 ++++++
 crypto_aead/isapa128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapa128av20/opt_8/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapa128v20/opt_32/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapa128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapa128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapk128av20/avx512/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c    | 6 ++++++
 crypto_aead/isapk128av20/opt_64/crypto_aead.c           | 6 ++++++
 crypto_aead/isapk128av20/ref/crypto_aead.c              | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c     | 6 ++++++
 crypto_aead/isapk128v20/opt_64/crypto_aead.c            | 6 ++++++
 crypto_aead/isapk128v20/ref/crypto_aead.c               | 6 ++++++
 crypto_aead/isapxv20/ref/crypto_aead.c                  | 6 ++++++
 24 files changed, 144 insertions(+)

diff --git a/crypto_aead/isapa128av20/avx_512/crypto_aead.c b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
index 58f7641..72ecaa4 100644
--- a/crypto_aead/isapa128av20/avx_512/crypto_aead.c
+++ b/crypto_aead/isapa128av20/avx_512/crypto_aead.c
@@ -31,6 +31,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32/crypto_aead.c b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
index 4a9bd29..f399f42 100644
--- a/crypto_aead/isapa128av20/bi_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index e0d533c..c1692ce 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index e0d533c..c1692ce 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/bi_8/crypto_aead.c b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
index 4a9bd29..f399f42 100644
--- a/crypto_aead/isapa128av20/bi_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32/crypto_aead.c b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128av20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index e0d533c..c1692ce 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -37,6 +37,12 @@ int crypto_aead_decrypt(
 {
 	(void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen - ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_64/crypto_aead.c b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/opt_8/crypto_aead.c b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
index 4a9bd29..f399f42 100644
--- a/crypto_aead/isapa128av20/opt_8/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_8/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128av20/ref/crypto_aead.c b/crypto_aead/isapa128av20/ref/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32/crypto_aead.c b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128v20/opt_32/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/opt_64/crypto_aead.c b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapa128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapa128v20/ref/crypto_aead.c b/crypto_aead/isapa128v20/ref/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapa128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapa128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/avx512/crypto_aead.c b/crypto_aead/isapk128av20/avx512/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128av20/avx512/crypto_aead.c
+++ b/crypto_aead/isapk128av20/avx512/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/opt_64/crypto_aead.c b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128av20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128av20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128av20/ref/crypto_aead.c b/crypto_aead/isapk128av20/ref/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128av20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128av20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_32_armv7m/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/opt_64/crypto_aead.c b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128v20/opt_64/crypto_aead.c
+++ b/crypto_aead/isapk128v20/opt_64/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapk128v20/ref/crypto_aead.c b/crypto_aead/isapk128v20/ref/crypto_aead.c
index 2287e4d..d60add2 100644
--- a/crypto_aead/isapk128v20/ref/crypto_aead.c
+++ b/crypto_aead/isapk128v20/ref/crypto_aead.c
@@ -36,6 +36,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
diff --git a/crypto_aead/isapxv20/ref/crypto_aead.c b/crypto_aead/isapxv20/ref/crypto_aead.c
index 100427c..2e2107f 100644
--- a/crypto_aead/isapxv20/ref/crypto_aead.c
+++ b/crypto_aead/isapxv20/ref/crypto_aead.c
@@ -35,6 +35,12 @@ int crypto_aead_decrypt(
 ){
     (void)nsec;
 
+	// A ciphertext shorter than a tag cannot be authentic
+	if (clen < ISAP_TAG_SZ)
+	{
+		return -1;
+	}
+
 	// Plaintext length is clen - tag length
 	*mlen = clen-ISAP_TAG_SZ;
 
-- 
2.43.0


From 12ae021788efcf598baa67299e9237b0dc057d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 2/6] fix: keep the tag comparison state of the STP variants
 out of global variables

---
 .../isapa128av20/bi_32_armv6m_stp/crypto_aead.c      |  8 +++++---
 crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c     | 12 +++++-------
 crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h     |  5 +++--
 crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c     |  8 +++++---
 crypto_aead/isapa128av20/bi_32_stp/isap.c            | 12 +++++-------
 crypto_aead/isapa128av20/bi_32_stp/isap.h            |  5 +++--
 crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c    |  8 +++++---
 crypto_aead/isapa128av20/opt_32_stp/isap.c           | 12 +++++-------
 crypto_aead/isapa128av20/opt_32_stp/isap.h           |  5 +++--
 9 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
index c1692ce..4fe0fe1 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s0, s1;
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, &s0, &s1);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s0, s1; // needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, &s0, &s1);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s0, s1);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index 2fa2aed..d819970 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s0, uint64_t *s1)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +130,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    *s0 = s->x[0];
+    *s1 = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +152,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    uint64_t s0, uint64_t s1)
 {
     state_t state;
     state_t *s = &state;
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
index ae37dcd..1d6dca4 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s0, uint64_t *s1);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	uint64_t s0, uint64_t s1);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
index c1692ce..4fe0fe1 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s0, s1;
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, &s0, &s1);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s0, s1; // needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, &s0, &s1);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s0, s1);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index 2fa2aed..d819970 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s0, uint64_t *s1)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +130,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    *s0 = s->x[0];
+    *s1 = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +152,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    uint64_t s0, uint64_t s1)
 {
     state_t state;
     state_t *s = &state;
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.h b/crypto_aead/isapa128av20/bi_32_stp/isap.h
index ae37dcd..1d6dca4 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s0, uint64_t *s1);
 
 int pvp(
 	const unsigned char *T,
-	const unsigned char *T_star);
+	const unsigned char *T_star,
+	uint64_t s0, uint64_t s1);
 
 void isap_enc(
 	const uint8_t *k,
diff --git a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
index c1692ce..4fe0fe1 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/crypto_aead.c
@@ -23,7 +23,8 @@ int crypto_aead_encrypt(
 
 	// Generate tag
 	unsigned char *tag = c + mlen;
-	isap_mac(k, npub, ad, adlen, c, mlen, tag);
+	uint64_t s0, s1;
+	isap_mac(k, npub, ad, adlen, c, mlen, tag, &s0, &s1);
 	return 0;
 }
 
@@ -48,7 +49,8 @@ int crypto_aead_decrypt(
 
 	// Generate tag
 	unsigned char T[16];
-	isap_mac(k, npub, ad, adlen, c, *mlen, T);
+	uint64_t s0, s1; // needed for LR tag comparison
+	isap_mac(k, npub, ad, adlen, c, *mlen, T, &s0, &s1);
 
 	// Compare tag
 	unsigned char T_star[16];
@@ -56,7 +58,7 @@ int crypto_aead_decrypt(
     {
         T_star[i] = *(c + *mlen + i);
     }
-	int eq_cnt = pvp(T, T_star);
+	int eq_cnt = pvp(T, T_star, s0, s1);
 
 	// Perform decryption if tag is correct
 	if (eq_cnt == ISAP_TAG_SZ)
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index 2fa2aed..d819970 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,9 +5,6 @@
 #include "asconp.h"
 #include "config.h"
 
-// Needed for LR tag comparison
-uint64_t s0, s1;
-
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
@@ -110,7 +107,7 @@ void isap_mac(
     const uint8_t *npub,
     const uint8_t *ad, uint64_t adlen,
     const uint8_t *c, uint64_t clen,
-    uint8_t *tag)
+    uint8_t *tag, uint64_t *s0, uint64_t *s1)
 {
     state_t state;
     state_t *s = &state;
@@ -133,8 +130,8 @@ void isap_mac(
     ABSORB_LANES(s, c, clen);
 
     // Needed for LR tag comparison
-    s0 = s->x[0];
-    s1 = s->x[1];
+    *s0 = s->x[0];
+    *s1 = s->x[1];
 
     // Derive KA*
     s->l[0] = WORDTOU64(s->l[0]);
@@ -155,7 +152,8 @@ void isap_mac(
 /******************************************************************************/
 
 int pvp(
-    const uint8_t *T, const uint8_t *T_star)
+    const uint8_t *T, const uint8_t *T_star,
+    uint64_t s0, uint64_t s1)
 {
     state_t state;
     state_t *s = &state;
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.h b/crypto_aead/isapa128av20/opt_32_stp/isap.h
index 55464cb..eb93230 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.h
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.h
@@ -33,11 +33,12 @@ void isap_mac(
 	const uint8_t *npub,
 	const uint8_t *ad, const uint64_t adlen,
 	const uint8_t *c, const uint64_t clen,
-	uint8_t *tag);
+	uint8_t *tag, uint64_t *s0, uint64_t *s1);
 
 int pvp(
 	const uint8_t *T,
-	const uint8_t *T_star);
+	const uint8_t *T_star,
+	uint64_t s0, uint64_t s1);
 
 void isap_enc(
 	const uint8_t *k,
-- 
2.43.0


From d6423f25606d9d53b96ddb14abb38b636e1f5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 3/6] fix: do not read past the end of associated data and
 ciphertext in ISAP-K opt_64

---
 crypto_aead/isapk128av20/opt_64/isap.c | 4 ++--
 crypto_aead/isapk128v20/opt_64/isap.c  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_64/isap.c b/crypto_aead/isapk128av20/opt_64/isap.c
index 8011b82..792def3 100644
--- a/crypto_aead/isapk128av20/opt_64/isap.c
+++ b/crypto_aead/isapk128av20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
diff --git a/crypto_aead/isapk128v20/opt_64/isap.c b/crypto_aead/isapk128v20/opt_64/isap.c
index 60ad9c2..cb9decc 100644
--- a/crypto_aead/isapk128v20/opt_64/isap.c
+++ b/crypto_aead/isapk128v20/opt_64/isap.c
@@ -60,14 +60,14 @@ union State {
         if(rem_bytes>ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             idx += ISAP_rH_SZ; \
             rem_bytes -= ISAP_rH_SZ; \
             PermuteRoundsHX; \
         } else if(rem_bytes==ISAP_rH_SZ){ \
             S.l64[0] ^= *((UINT64 *)(src+idx+0)); \
             S.l64[1] ^= *((UINT64 *)(src+idx+8)); \
-            S.l16[8] ^= *((UINT64 *)(src+idx+16)); \
+            S.l16[8] ^= *((UINT16 *)(src+idx+16)); \
             PermuteRoundsHX; \
             S.X.Aba ^= 0x80ULL; \
             PermuteRoundsHX; \
-- 
2.43.0


From 9067eac5d7513924055cd3dc18a2d3a84f503c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 4/6] fix: put the state words of the ARMv7-M round function
 back in order

---
 crypto_aead/isapa128av20/bi_32_armv7m/asconp.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
index 87ab8e8..d4f9c75 100644
--- a/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
+++ b/crypto_aead/isapa128av20/bi_32_armv7m/asconp.h
@@ -159,6 +159,15 @@ forceinline void ROUND(state_t *s, uint64_t C)
           [tmp1] "=r"(tmp1), [tmp2] "=r"(tmp2)
         : [C_e] "i"((uint32_t)C), [C_o] "i"((uint32_t)(C >> 32))
         :);
+
+    // The code above leaves x0..x4 in the places of x2, x3, x4, x0, x1
+    lane_t x3 = s->l[0];
+    lane_t x4 = s->l[1];
+    s->l[0] = s->l[2];
+    s->l[1] = s->l[3];
+    s->l[2] = s->l[4];
+    s->l[3] = x3;
+    s->l[4] = x4;
 }
 
 /* ---------------------------------------------------------------- */
-- 
2.43.0


From d9ae8bcb5c5bb89454d2bcf9a934b9807f8704ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 5/6] fix: do not assume 8-byte alignment of the caller's
 buffers

Keys, nonces, associated data, messages and outputs are byte pointers, but
they were accessed through casts to 64-bit types. On ARM the compiler turns
these into LDRD, LDM and STRD, which fault on addresses that are not word
aligned.
---
 crypto_aead/isapa128av20/bi_32/isap.c         | 33 +++++++++------
 .../isapa128av20/bi_32_armv6m_stp/isap.c      | 41 +++++++++++--------
 crypto_aead/isapa128av20/bi_32_stp/isap.c     | 41 +++++++++++--------
 crypto_aead/isapa128av20/bi_8/isap.c          | 33 +++++++++------
 crypto_aead/isapa128av20/opt_32/isap.c        | 33 +++++++++------
 crypto_aead/isapa128av20/opt_32_stp/isap.c    | 41 +++++++++++--------
 crypto_aead/isapa128av20/opt_32_tiny/isap.c   | 33 +++++++++------
 crypto_aead/isapa128av20/opt_64/isap.c        | 33 +++++++++------
 crypto_aead/isapa128av20/opt_8/isap.c         | 33 +++++++++------
 crypto_aead/isapa128av20/opt_8_tiny/isap.c    | 33 +++++++++------
 crypto_aead/isapa128v20/opt_32/isap.c         | 40 ++++++++++++------
 crypto_aead/isapa128v20/opt_32_armv67m/isap.c | 40 ++++++++++++------
 12 files changed, 276 insertions(+), 158 deletions(-)

diff --git a/crypto_aead/isapa128av20/bi_32/isap.c b/crypto_aead/isapa128av20/bi_32/isap.c
index d4009e0..67ba213 100644
--- a/crypto_aead/isapa128av20/bi_32/isap.c
+++ b/crypto_aead/isapa128av20/bi_32/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
index d819970..716f51b 100644
--- a/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_armv6m_stp/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -159,8 +167,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(LOAD(T + 0));
+    s->l[1] = U64TOWORD(LOAD(T + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -170,8 +178,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(LOAD(T_star + 0));
+    s->l[1] = U64TOWORD(LOAD(T_star + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -206,15 +214,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -247,7 +256,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -261,7 +270,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_32_stp/isap.c b/crypto_aead/isapa128av20/bi_32_stp/isap.c
index d819970..716f51b 100644
--- a/crypto_aead/isapa128av20/bi_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/bi_32_stp/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -159,8 +167,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(LOAD(T + 0));
+    s->l[1] = U64TOWORD(LOAD(T + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -170,8 +178,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(LOAD(T_star + 0));
+    s->l[1] = U64TOWORD(LOAD(T_star + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -206,15 +214,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -247,7 +256,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -261,7 +270,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/bi_8/isap.c b/crypto_aead/isapa128av20/bi_8/isap.c
index d4009e0..67ba213 100644
--- a/crypto_aead/isapa128av20/bi_8/isap.c
+++ b/crypto_aead/isapa128av20/bi_8/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32/isap.c b/crypto_aead/isapa128av20/opt_32/isap.c
index d4009e0..67ba213 100644
--- a/crypto_aead/isapa128av20/opt_32/isap.c
+++ b/crypto_aead/isapa128av20/opt_32/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32_stp/isap.c b/crypto_aead/isapa128av20/opt_32_stp/isap.c
index d819970..716f51b 100644
--- a/crypto_aead/isapa128av20/opt_32_stp/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_stp/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -159,8 +167,8 @@ int pvp(
     state_t *s = &state;
 
     // Calculate U
-    s->l[0] = U64TOWORD(*(lane_t *)(T + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T + 8));
+    s->l[0] = U64TOWORD(LOAD(T + 0));
+    s->l[1] = U64TOWORD(LOAD(T + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -170,8 +178,8 @@ int pvp(
     u1 = s->x[1];
 
     // Calculate U'
-    s->l[0] = U64TOWORD(*(lane_t *)(T_star + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(T_star + 8));
+    s->l[0] = U64TOWORD(LOAD(T_star + 0));
+    s->l[1] = U64TOWORD(LOAD(T_star + 8));
     s->x[2] = s0;
     s->x[3] = s1;
     s->x[4] = 0;
@@ -206,15 +214,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -247,7 +256,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -261,7 +270,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_32_tiny/isap.c b/crypto_aead/isapa128av20/opt_32_tiny/isap.c
index 18bcc4a..da64692 100644
--- a/crypto_aead/isapa128av20/opt_32_tiny/isap.c
+++ b/crypto_aead/isapa128av20/opt_32_tiny/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_64/isap.c b/crypto_aead/isapa128av20/opt_64/isap.c
index d4009e0..67ba213 100644
--- a/crypto_aead/isapa128av20/opt_64/isap.c
+++ b/crypto_aead/isapa128av20/opt_64/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_8/isap.c b/crypto_aead/isapa128av20/opt_8/isap.c
index d4009e0..67ba213 100644
--- a/crypto_aead/isapa128av20/opt_8/isap.c
+++ b/crypto_aead/isapa128av20/opt_8/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 forceinline void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128av20/opt_8_tiny/isap.c b/crypto_aead/isapa128av20/opt_8_tiny/isap.c
index 18bcc4a..da64692 100644
--- a/crypto_aead/isapa128av20/opt_8_tiny/isap.c
+++ b/crypto_aead/isapa128av20/opt_8_tiny/isap.c
@@ -5,12 +5,20 @@
 #include "asconp.h"
 #include "config.h"
 
+// Caller memory may have any alignment: load lanes bytewise
+forceinline lane_t LOAD(const uint8_t *src)
+{
+    lane_t t;
+    memcpy(t.b, src, 8);
+    return t;
+}
+
 void ABSORB_LANES(state_t *s, const uint8_t *src, uint64_t len)
 {
     while (len >= 8)
     {
         // Absorb full lanes
-        lane_t t0 = U64TOWORD(*(lane_t *)(src + 0));
+        lane_t t0 = U64TOWORD(LOAD(src + 0));
         s->x[0] ^= t0.x;
         len -= ISAP_rH / 8;
         src += ISAP_rH / 8;
@@ -55,9 +63,9 @@ void isap_rk(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(k + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(k + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(iv + 0));
+    s->l[0] = U64TOWORD(LOAD(k + 0));
+    s->l[1] = U64TOWORD(LOAD(k + 8));
+    s->l[2] = U64TOWORD(LOAD(iv + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sK;
@@ -113,9 +121,9 @@ void isap_mac(
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[1] = U64TOWORD(*(lane_t *)(npub + 8));
-    s->l[2] = U64TOWORD(*(lane_t *)(ISAP_IV_A + 0));
+    s->l[0] = U64TOWORD(LOAD(npub + 0));
+    s->l[1] = U64TOWORD(LOAD(npub + 8));
+    s->l[2] = U64TOWORD(LOAD(ISAP_IV_A + 0));
     s->x[3] = 0;
     s->x[4] = 0;
     P_sH;
@@ -158,15 +166,16 @@ void isap_enc(
 
     // Init state
     isap_rk(k, ISAP_IV_KE, npub, s, ISAP_STATE_SZ - CRYPTO_NPUBBYTES);
-    s->l[3] = U64TOWORD(*(lane_t *)(npub + 0));
-    s->l[4] = U64TOWORD(*(lane_t *)(npub + 8));
+    s->l[3] = U64TOWORD(LOAD(npub + 0));
+    s->l[4] = U64TOWORD(LOAD(npub + 8));
 
     while (mlen >= ISAP_rH / 8)
     {
         // Encrypt full lanes
         P_sE;
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)c = *(uint64_t *)m ^ t0.x;
+        t0.x ^= LOAD(m).x;
+        memcpy(c, t0.b, 8);
         mlen -= ISAP_rH / 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
@@ -199,7 +208,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     state_t *s = &state;
 
     // Initialize
-    s->l[0] = U64TOWORD(*(lane_t *)(ASCON_HASH_IV + 0));
+    s->l[0] = U64TOWORD(LOAD(ASCON_HASH_IV + 0));
     s->x[1] = 0;
     s->x[2] = 0;
     s->x[3] = 0;
@@ -213,7 +222,7 @@ int crypto_hash(uint8_t *out, const uint8_t *in, unsigned long long inlen)
     {
         // Squeeze full lanes
         lane_t t0 = WORDTOU64(s->l[0]);
-        *(uint64_t *)(out + 8 * i) = t0.x;
+        memcpy(out + 8 * i, t0.b, 8);
         if (i < 3)
         {
             P_sH;
diff --git a/crypto_aead/isapa128v20/opt_32/isap.c b/crypto_aead/isapa128v20/opt_32/isap.c
index f8dc6f5..f1e9e87 100644
--- a/crypto_aead/isapa128v20/opt_32/isap.c
+++ b/crypto_aead/isapa128v20/opt_32/isap.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "api.h"
 #include "isap.h"
 #include "asconp.h"
@@ -11,6 +12,19 @@ const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_
 #define P_sH PX(12,&x0,&x1,&x2,&x3,&x4)
 #define P_sK PX(12,&x0,&x1,&x2,&x3,&x4)
 
+// Caller memory may have any alignment: load and store words bytewise
+static inline u64 LOAD64(const u8 *src)
+{
+    u64 x;
+    memcpy(&x, src, 8);
+    return x;
+}
+
+static inline void STORE64(u8 *dst, u64 x)
+{
+    memcpy(dst, &x, 8);
+}
+
 /******************************************************************************/
 /*                                 ISAP_RK                                    */
 /******************************************************************************/
@@ -26,9 +40,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(k + 0)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(k + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(iv + 0)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -75,9 +89,9 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(npub + 0)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(npub + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(ISAP_IV_A)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -87,7 +101,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(ad)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -126,7 +140,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(c)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH;
@@ -175,9 +189,9 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    STORE64(tag + 0, U64BIG(tmp0));
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    STORE64(tag + 8, U64BIG(tmp0));
 }
 
 /******************************************************************************/
@@ -205,15 +219,15 @@ void isap_enc(
     x1.e = *(u32 *)(ke + 12);
     x2.o = *(u32 *)(ke + 16);
     x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    to_bit_interleaving(&x3, U64BIG(LOAD64(npub)));
+    to_bit_interleaving(&x4, U64BIG(LOAD64(npub + 8)));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        STORE64(c, LOAD64(m) ^ U64BIG(tmp0));
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
diff --git a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
index 6cd7749..cf65d03 100644
--- a/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
+++ b/crypto_aead/isapa128v20/opt_32_armv67m/isap.c
@@ -1,3 +1,4 @@
+#include <string.h>
 #include "api.h"
 #include "isap.h"
 #include "asconp.h"
@@ -14,6 +15,19 @@ const u8 ISAP_IV_KE[] = {0x03, ISAP_K, ISAP_rH, ISAP_rB, ISAP_sH, ISAP_sB, ISAP_
 #define P_sK P_LOOP(12)
 #define P_sK_UROL P_12()
 
+// Caller memory may have any alignment: load and store words bytewise
+static inline u64 LOAD64(const u8 *src)
+{
+    u64 x;
+    memcpy(&x, src, 8);
+    return x;
+}
+
+static inline void STORE64(u8 *dst, u64 x)
+{
+    memcpy(dst, &x, 8);
+}
+
 /******************************************************************************/
 /*                                 ISAP_RK                                    */
 /******************************************************************************/
@@ -29,9 +43,9 @@ void isap_rk(
     u32_2 x0, x1, x2, x3, x4;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)(k + 0)));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(k + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(iv + 0)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(k + 0)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(k + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(iv + 0)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -106,9 +120,9 @@ void isap_mac(
     u64 tmp0;
 
     // Initialize
-    to_bit_interleaving(&x0, U64BIG(*(u64 *)npub + 0));
-    to_bit_interleaving(&x1, U64BIG(*(u64 *)(npub + 8)));
-    to_bit_interleaving(&x2, U64BIG(*(u64 *)(ISAP_IV_A)));
+    to_bit_interleaving(&x0, U64BIG(LOAD64(npub + 0)));
+    to_bit_interleaving(&x1, U64BIG(LOAD64(npub + 8)));
+    to_bit_interleaving(&x2, U64BIG(LOAD64(ISAP_IV_A)));
     x3.o = 0;
     x3.e = 0;
     x4.o = 0;
@@ -118,7 +132,7 @@ void isap_mac(
     // Absorb full lanes of AD
     while (adlen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)ad));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(ad)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         adlen -= ISAP_rH / 8;
@@ -157,7 +171,7 @@ void isap_mac(
     // Absorb full lanes of C
     while (clen >= 8)
     {
-        to_bit_interleaving(&t0, U64BIG(*(u64 *)c));
+        to_bit_interleaving(&t0, U64BIG(LOAD64(c)));
         x0.e ^= t0.e;
         x0.o ^= t0.o;
         P_sH_UROL;
@@ -206,9 +220,9 @@ void isap_mac(
     x1.e = ka_star32[3];
     P_sH;
     from_bit_interleaving(&tmp0, x0);
-    *(u64 *)(tag + 0) = U64BIG(tmp0);
+    STORE64(tag + 0, U64BIG(tmp0));
     from_bit_interleaving(&tmp0, x1);
-    *(u64 *)(tag + 8) = U64BIG(tmp0);
+    STORE64(tag + 8, U64BIG(tmp0));
 }
 
 /******************************************************************************/
@@ -236,15 +250,15 @@ void isap_enc(
     x1.e = *(u32 *)(ke + 12);
     x2.o = *(u32 *)(ke + 16);
     x2.e = *(u32 *)(ke + 20);
-    to_bit_interleaving(&x3, U64BIG(*(u64 *)npub));
-    to_bit_interleaving(&x4, U64BIG(*(u64 *)(npub + 8)));
+    to_bit_interleaving(&x3, U64BIG(LOAD64(npub)));
+    to_bit_interleaving(&x4, U64BIG(LOAD64(npub + 8)));
 
     // Squeeze full lanes
     while (mlen >= 8)
     {
         P_sE_UROL;
         from_bit_interleaving(&tmp0, x0);
-        *(u64 *)c = *(u64 *)m ^ U64BIG(tmp0);
+        STORE64(c, LOAD64(m) ^ U64BIG(tmp0));
         mlen -= 8;
         m += ISAP_rH / 8;
         c += ISAP_rH / 8;
-- 
2.43.0


From 44f901472829308390f111efbf1fd3f8e773fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:51 +0000
Subject: [PATCH 6/6] fix: accept unaligned buffers in the ARMv6-M
 implementations of ISAP-K

---
 crypto_aead/isapk128av20/opt_32_armv6m/isap.c | 68 ++++++++++---------
 crypto_aead/isapk128v20/opt_32_armv6m/isap.c  | 68 ++++++++++---------
 2 files changed, 74 insertions(+), 62 deletions(-)

diff --git a/crypto_aead/isapk128av20/opt_32_armv6m/isap.c b/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
index 5d62474..345efb4 100644
--- a/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
+++ b/crypto_aead/isapk128av20/opt_32_armv6m/isap.c
@@ -7,6 +7,16 @@ const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,IS
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 
+// The caller's buffers may have any alignment, and ARMv6-M faults on unaligned halfwords
+static inline uint16_t load16(const unsigned char *p){
+	return (uint16_t)(p[0] | p[1] << 8);
+}
+
+static inline void store16(unsigned char *p, const uint16_t v){
+	p[0] = (unsigned char)v;
+	p[1] = (unsigned char)(v >> 8);
+}
+
 /****************************************/
 /*               IsapRk                 */
 /****************************************/
@@ -56,8 +66,6 @@ void isap_mac(
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
 	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -68,15 +76,15 @@ void isap_mac(
 	unsigned long idx16 = 0;
 	unsigned long rem_bytes = adlen;
 	while(rem_bytes>=18){
-			state16[0] ^= ad16[idx16+0];
-			state16[1] ^= ad16[idx16+1];
-			state16[2] ^= ad16[idx16+2];
-			state16[3] ^= ad16[idx16+3];
-			state16[4] ^= ad16[idx16+4];
-			state16[5] ^= ad16[idx16+5];
-			state16[6] ^= ad16[idx16+6];
-			state16[7] ^= ad16[idx16+7];
-			state16[8] ^= ad16[idx16+8];
+			state16[0] ^= load16(ad+2*(idx16+0));
+			state16[1] ^= load16(ad+2*(idx16+1));
+			state16[2] ^= load16(ad+2*(idx16+2));
+			state16[3] ^= load16(ad+2*(idx16+3));
+			state16[4] ^= load16(ad+2*(idx16+4));
+			state16[5] ^= load16(ad+2*(idx16+5));
+			state16[6] ^= load16(ad+2*(idx16+6));
+			state16[7] ^= load16(ad+2*(idx16+7));
+			state16[8] ^= load16(ad+2*(idx16+8));
 			rem_bytes -= 18;
 			idx16 += 9;
 			KeccakP400_Permute_Nrounds(state,ISAP_sH);
@@ -95,15 +103,15 @@ void isap_mac(
 	idx16 = 0;
 	rem_bytes = clen;
 	while(rem_bytes>=18){
-			state16[0] ^= c16[idx16+0];
-			state16[1] ^= c16[idx16+1];
-			state16[2] ^= c16[idx16+2];
-			state16[3] ^= c16[idx16+3];
-			state16[4] ^= c16[idx16+4];
-			state16[5] ^= c16[idx16+5];
-			state16[6] ^= c16[idx16+6];
-			state16[7] ^= c16[idx16+7];
-			state16[8] ^= c16[idx16+8];
+			state16[0] ^= load16(c+2*(idx16+0));
+			state16[1] ^= load16(c+2*(idx16+1));
+			state16[2] ^= load16(c+2*(idx16+2));
+			state16[3] ^= load16(c+2*(idx16+3));
+			state16[4] ^= load16(c+2*(idx16+4));
+			state16[5] ^= load16(c+2*(idx16+5));
+			state16[6] ^= load16(c+2*(idx16+6));
+			state16[7] ^= load16(c+2*(idx16+7));
+			state16[8] ^= load16(c+2*(idx16+8));
 			rem_bytes -= 18;
 			idx16 += 9;
 			KeccakP400_Permute_Nrounds(state,ISAP_sH);
@@ -139,8 +147,6 @@ void isap_enc(
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
 	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
@@ -152,15 +158,15 @@ void isap_enc(
 	// Squeeze Keystream
 	while(rem_bytes>=18){
 			KeccakP400_Permute_Nrounds(state,ISAP_sE);
-			c16[idx16+0] = m16[idx16+0] ^ state16[0];
-			c16[idx16+1] = m16[idx16+1] ^ state16[1];
-			c16[idx16+2] = m16[idx16+2] ^ state16[2];
-			c16[idx16+3] = m16[idx16+3] ^ state16[3];
-			c16[idx16+4] = m16[idx16+4] ^ state16[4];
-			c16[idx16+5] = m16[idx16+5] ^ state16[5];
-			c16[idx16+6] = m16[idx16+6] ^ state16[6];
-			c16[idx16+7] = m16[idx16+7] ^ state16[7];
-			c16[idx16+8] = m16[idx16+8] ^ state16[8];
+			store16(c+2*(idx16+0), load16(m+2*(idx16+0)) ^ state16[0]);
+			store16(c+2*(idx16+1), load16(m+2*(idx16+1)) ^ state16[1]);
+			store16(c+2*(idx16+2), load16(m+2*(idx16+2)) ^ state16[2]);
+			store16(c+2*(idx16+3), load16(m+2*(idx16+3)) ^ state16[3]);
+			store16(c+2*(idx16+4), load16(m+2*(idx16+4)) ^ state16[4]);
+			store16(c+2*(idx16+5), load16(m+2*(idx16+5)) ^ state16[5]);
+			store16(c+2*(idx16+6), load16(m+2*(idx16+6)) ^ state16[6]);
+			store16(c+2*(idx16+7), load16(m+2*(idx16+7)) ^ state16[7]);
+			store16(c+2*(idx16+8), load16(m+2*(idx16+8)) ^ state16[8]);
 			rem_bytes -= 18;
 			idx16 += 9;
 	}
diff --git a/crypto_aead/isapk128v20/opt_32_armv6m/isap.c b/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
index 5d62474..345efb4 100644
--- a/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
+++ b/crypto_aead/isapk128v20/opt_32_armv6m/isap.c
@@ -7,6 +7,16 @@ const unsigned char ISAP_IV1[] = {0x01,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,IS
 const unsigned char ISAP_IV2[] = {0x02,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 const unsigned char ISAP_IV3[] = {0x03,ISAP_K,ISAP_rH,ISAP_rB,ISAP_sH,ISAP_sB,ISAP_sE,ISAP_sK};
 
+// The caller's buffers may have any alignment, and ARMv6-M faults on unaligned halfwords
+static inline uint16_t load16(const unsigned char *p){
+	return (uint16_t)(p[0] | p[1] << 8);
+}
+
+static inline void store16(unsigned char *p, const uint16_t v){
+	p[0] = (unsigned char)v;
+	p[1] = (unsigned char)(v >> 8);
+}
+
 /****************************************/
 /*               IsapRk                 */
 /****************************************/
@@ -56,8 +66,6 @@ void isap_mac(
 	// Init State
 	unsigned char state[ISAP_STATE_SZ] __attribute__ ((aligned(4)));
 	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *ad16 = (uint16_t *)ad;
-	uint16_t *c16 = (uint16_t *)c;
 
 	KeccakP400_Initialize(state);
 	KeccakP400_AddBytes(state,npub,0,CRYPTO_NPUBBYTES);
@@ -68,15 +76,15 @@ void isap_mac(
 	unsigned long idx16 = 0;
 	unsigned long rem_bytes = adlen;
 	while(rem_bytes>=18){
-			state16[0] ^= ad16[idx16+0];
-			state16[1] ^= ad16[idx16+1];
-			state16[2] ^= ad16[idx16+2];
-			state16[3] ^= ad16[idx16+3];
-			state16[4] ^= ad16[idx16+4];
-			state16[5] ^= ad16[idx16+5];
-			state16[6] ^= ad16[idx16+6];
-			state16[7] ^= ad16[idx16+7];
-			state16[8] ^= ad16[idx16+8];
+			state16[0] ^= load16(ad+2*(idx16+0));
+			state16[1] ^= load16(ad+2*(idx16+1));
+			state16[2] ^= load16(ad+2*(idx16+2));
+			state16[3] ^= load16(ad+2*(idx16+3));
+			state16[4] ^= load16(ad+2*(idx16+4));
+			state16[5] ^= load16(ad+2*(idx16+5));
+			state16[6] ^= load16(ad+2*(idx16+6));
+			state16[7] ^= load16(ad+2*(idx16+7));
+			state16[8] ^= load16(ad+2*(idx16+8));
 			rem_bytes -= 18;
 			idx16 += 9;
 			KeccakP400_Permute_Nrounds(state,ISAP_sH);
@@ -95,15 +103,15 @@ void isap_mac(
 	idx16 = 0;
 	rem_bytes = clen;
 	while(rem_bytes>=18){
-			state16[0] ^= c16[idx16+0];
-			state16[1] ^= c16[idx16+1];
-			state16[2] ^= c16[idx16+2];
-			state16[3] ^= c16[idx16+3];
-			state16[4] ^= c16[idx16+4];
-			state16[5] ^= c16[idx16+5];
-			state16[6] ^= c16[idx16+6];
-			state16[7] ^= c16[idx16+7];
-			state16[8] ^= c16[idx16+8];
+			state16[0] ^= load16(c+2*(idx16+0));
+			state16[1] ^= load16(c+2*(idx16+1));
+			state16[2] ^= load16(c+2*(idx16+2));
+			state16[3] ^= load16(c+2*(idx16+3));
+			state16[4] ^= load16(c+2*(idx16+4));
+			state16[5] ^= load16(c+2*(idx16+5));
+			state16[6] ^= load16(c+2*(idx16+6));
+			state16[7] ^= load16(c+2*(idx16+7));
+			state16[8] ^= load16(c+2*(idx16+8));
 			rem_bytes -= 18;
 			idx16 += 9;
 			KeccakP400_Permute_Nrounds(state,ISAP_sH);
@@ -139,8 +147,6 @@ void isap_enc(
 ){
 	uint8_t state[ISAP_STATE_SZ] __attribute__((aligned(4)));
 	uint16_t *state16 = (uint16_t *)state;
-	uint16_t *c16 = (uint16_t *)c;
-	uint16_t *m16 = (uint16_t *)m;
 
 	isap_rk(k,ISAP_IV3,npub,CRYPTO_NPUBBYTES,(unsigned char *)state,ISAP_STATE_SZ-CRYPTO_NPUBBYTES);
 	KeccakP400_OverwriteBytes(state,npub,ISAP_STATE_SZ-CRYPTO_NPUBBYTES,CRYPTO_NPUBBYTES);
@@ -152,15 +158,15 @@ void isap_enc(
 	// Squeeze Keystream
 	while(rem_bytes>=18){
 			KeccakP400_Permute_Nrounds(state,ISAP_sE);
-			c16[idx16+0] = m16[idx16+0] ^ state16[0];
-			c16[idx16+1] = m16[idx16+1] ^ state16[1];
-			c16[idx16+2] = m16[idx16+2] ^ state16[2];
-			c16[idx16+3] = m16[idx16+3] ^ state16[3];
-			c16[idx16+4] = m16[idx16+4] ^ state16[4];
-			c16[idx16+5] = m16[idx16+5] ^ state16[5];
-			c16[idx16+6] = m16[idx16+6] ^ state16[6];
-			c16[idx16+7] = m16[idx16+7] ^ state16[7];
-			c16[idx16+8] = m16[idx16+8] ^ state16[8];
+			store16(c+2*(idx16+0), load16(m+2*(idx16+0)) ^ state16[0]);
+			store16(c+2*(idx16+1), load16(m+2*(idx16+1)) ^ state16[1]);
+			store16(c+2*(idx16+2), load16(m+2*(idx16+2)) ^ state16[2]);
+			store16(c+2*(idx16+3), load16(m+2*(idx16+3)) ^ state16[3]);
+			store16(c+2*(idx16+4), load16(m+2*(idx16+4)) ^ state16[4]);
+			store16(c+2*(idx16+5), load16(m+2*(idx16+5)) ^ state16[5]);
+			store16(c+2*(idx16+6), load16(m+2*(idx16+6)) ^ state16[6]);
+			store16(c+2*(idx16+7), load16(m+2*(idx16+7)) ^ state16[7]);
+			store16(c+2*(idx16+8), load16(m+2*(idx16+8)) ^ state16[8]);
 			rem_bytes -= 18;
 			idx16 += 9;
 	}
-- 
2.43.0

