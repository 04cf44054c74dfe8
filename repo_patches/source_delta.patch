From 0de1636214c92c4aca659373a82910b49ba1c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:04 +0000
Subject: [PATCH 1/2] fix: reject null arguments in the hybrid seed expander

---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 90d9c77..e61374f 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -138,6 +138,10 @@ Message is variable length, between 1 to 64 bytes
   * @param[out] expanded seed of length 160 bytes.
   */
 int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned char* seed, unsigned char* expandedSeed) {
+	if (seed == NULL || expandedSeed == NULL) {
+		return -1;
+	}
+
 	uint8_t seedTemp[64] = { 0 };
 	uint8_t expandedSeedTemp[128] = { 0 };
 
-- 
2.43.0


From 838858a2233f91966f4386978c27467b71963198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:05 +0000
Subject: [PATCH 2/2] fix: report a failed detached signature from SPHINCS+
 crypto_sign

---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..4fcea22 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0

