From 280f536934a4883d91fcfebc4df1d5ec263d7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/87] fix: GOST 28147-89 and Magma contexts start every
 message from a clean state

Re-initialising a context kept the byte position in the current block, the
position in the key-meshing section, the counter half of the CTR register and
the meshed key of the previous message.
---
 gost_crypt.c | 51 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 516e598..dd27277 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -412,6 +412,31 @@ static int gost_cipher_set_param(struct ossl_gost_cipher_ctx *c, int nid)
     return 1;
 }
 
+/*
+ * Start a new message: nothing of the previous one (position in a block,
+ * position in a section, meshed key) may influence it.
+ */
+static void gost_cipher_start(EVP_CIPHER_CTX *ctx,
+                              struct ossl_gost_cipher_ctx *c,
+                              const unsigned char *key,
+                              const unsigned char *iv)
+{
+    if (key) {
+        gost_key(&(c->cctx), key);
+        magma_master_key(&(c->cctx), key);
+    } else {
+        gost_key(&(c->cctx), (const byte *)c->cctx.master_key);
+    }
+    if (iv) {
+        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
+               EVP_CIPHER_CTX_iv_length(ctx));
+    }
+    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
+           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    c->count = 0;
+}
+
 /* Initializes EVP_CIPHER_CTX by paramset NID */
 static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
@@ -424,14 +449,7 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
             return 0;
         EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
-    if (key)
-        gost_key(&(c->cctx), key);
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    gost_cipher_start(ctx, c, key, iv);
     return 1;
 }
 
@@ -443,15 +461,7 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
     gost_init(&(c->cctx), block);
     c->key_meshing = 1;
-    c->count = 0;
-    if (key)
-        gost_key(&(c->cctx), key);
-    if (iv) {
-        memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
-               EVP_CIPHER_CTX_iv_length(ctx));
-    }
-    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
-           EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    gost_cipher_start(ctx, c, key, iv);
     return 1;
 }
 
@@ -504,13 +514,20 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (key) {
         magma_key(&(c->cctx), key);
         magma_master_key(&(c->cctx), key);
+    } else {
+        /* ACPKM may have replaced the key while processing the previous message */
+        magma_key(&(c->cctx), (const byte *)c->cctx.master_key);
     }
     if (iv) {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
+    /* The counter part of the register starts from zero in every message */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, EVP_MAX_IV_LENGTH);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
+    c->count = 0;
 
     if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
      || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-- 
2.43.0


From 825628ed8820ec553499000f15d0ab6278df6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 02/87] fix: Kuznyechik contexts start every message from a
 clean state

Re-initialising a context kept the byte position in the current block (OFB,
CFB), the counter half of the CTR register and the ACPKM-derived key of the
previous message.
---
 gost_grasshopper_cipher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ef06e2d..b20a43f 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -250,6 +250,9 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
     if (key != NULL) {
         gost_grasshopper_cipher_key(c, key);
         gost_grasshopper_master_key(c, key);
+    } else {
+        /* ACPKM may have replaced the key while processing the previous message */
+        gost_grasshopper_cipher_key(c, c->master_key.k.b);
     }
 
     if (iv != NULL) {
@@ -257,8 +260,11 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
                EVP_CIPHER_CTX_iv_length(ctx));
     }
 
+    /* The counter part of the register starts from zero in every message */
+    memset(EVP_CIPHER_CTX_iv_noconst(ctx), 0, EVP_MAX_IV_LENGTH);
     memcpy(EVP_CIPHER_CTX_iv_noconst(ctx),
            EVP_CIPHER_CTX_original_iv(ctx), EVP_CIPHER_CTX_iv_length(ctx));
+    EVP_CIPHER_CTX_set_num(ctx, 0);
 
     grasshopper_zero128(&c->buffer);
 
-- 
2.43.0


From 6151f4ee7d199fdfdd350ecbb76e5eddaaad3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 03/87] fix: MGM derives Z_1 when the nonce is set, so messages
 without AAD can be opened

---
 gost_gost2015.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index 8989ab1..da2f25b 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -231,6 +231,8 @@ int gost_mgm128_setiv(mgm128_context *ctx, const unsigned char *iv,
     ctx->sum.u[1] = 0;
 
     memcpy(ctx->nonce.c, iv, ctx->blocklen);
+    ctx->nonce.c[0] |= 0x80;
+    (*ctx->block) (ctx->nonce.c, ctx->Zi.c, ctx->key);  // Z_1 = E_K(1 || nonce)
     ctx->nonce.c[0] &= 0x7f;    /* IV - random vector, but 1st bit should be 0 */
     return 1;
 }
@@ -252,11 +254,6 @@ int gost_mgm128_aad(mgm128_context *ctx, const unsigned char *aad,
         return -2;
     }
 
-    if (alen == 0) {
-        ctx->nonce.c[0] |= 0x80;
-        (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-    }
-
     alen += len;
     if (alen > ((ossl_uintmax_t)(1) << (bl * 4 - 3)) ||      // < 2^(n/2)  (len stores in bytes)
         (sizeof(len) == 8 && alen < len)) {
@@ -317,11 +314,6 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
-        if (alen == 0) {
-            ctx->nonce.c[0] |= 0x80;
-            (*block) (ctx->nonce.c, ctx->Zi.c, key);    // Z_1 = E_K(1 || nonce)
-        }
-        ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);    // Y_1 = E_K(0 || nonce)
     }
 
@@ -385,7 +377,6 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
     int bl = ctx->blocklen;
 
     if (mlen == 0) {
-        ctx->nonce.c[0] &= 0x7f;
         (*block) (ctx->nonce.c, ctx->Yi.c, key);  // Y_1 = E_K(0 || nonce)
     }
 
-- 
2.43.0


From 13cf695c8e65ea337b50d25bf70ea46dfdf3c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 04/87] fix: an empty MGM data call no longer pads the
 associated data

---
 gost_gost2015.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index da2f25b..2de1a6c 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -330,8 +330,8 @@ int gost_mgm128_encrypt(mgm128_context *ctx, const unsigned char *in,
 
     mres = ctx->mres;
 
-    if (ctx->ares) {
-        /* First call to encrypt finalizes AAD */
+    if (ctx->ares && len) {
+        /* First data finalizes AAD */
         memset(ctx->ACi.c + ctx->ares, 0, bl - ctx->ares);
         (*block) (ctx->Zi.c, ctx->Hi.c, key);                   // H_i = E_K(Z_i)
         mul_gf(ctx->mul.u, ctx->Hi.u, ctx->ACi.u);              // H_i (x) A_i
@@ -392,8 +392,8 @@ int gost_mgm128_decrypt(mgm128_context *ctx, const unsigned char *in,
 
     mres = ctx->mres;
 
-    if (ctx->ares) {
-        /* First call to encrypt finalizes AAD */
+    if (ctx->ares && len) {
+        /* First data finalizes AAD */
         memset(ctx->ACi.c + ctx->ares, 0, bl - ctx->ares);
         (*block) (ctx->Zi.c, ctx->Hi.c, key);                   // H_i = E_K(Z_i)
         mul_gf(ctx->mul.u, ctx->Hi.u, ctx->ACi.u);              // H_i (x) A_i
-- 
2.43.0


From 12db352dbdbf42d567cdbfa6df288b31d988925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 05/87] fix: MGM re-keyed without a new nonce keeps the nonce
 last given, not a stale one

---
 gost_crypt.c              | 7 ++++---
 gost_grasshopper_cipher.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index dd27277..5751f6c 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -654,17 +654,18 @@ static int gost_magma_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
+            if (iv != mctx->iv)
+                memcpy(mctx->iv, iv, mctx->ivlen);
             mctx->iv_set = 1;
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV, and keep it for a key set later */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
+        memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index b20a43f..fc16ae1 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -498,17 +498,18 @@ gost_grasshopper_cipher_init_mgm(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         if (iv) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
+            if (iv != mctx->iv)
+                memcpy(mctx->iv, iv, mctx->ivlen);
             mctx->iv_set = 1;
         }
         mctx->key_set = 1;
     } else {
-        /* If key set use IV, otherwise copy */
+        /* If key set use IV, and keep it for a key set later */
         if (mctx->key_set) {
             if (gost_mgm128_setiv(&mctx->mgm, iv, mctx->ivlen) != 1)
                 return 0;
         }
-        else
-            memcpy(mctx->iv, iv, mctx->ivlen);
+        memcpy(mctx->iv, iv, mctx->ivlen);
         mctx->iv_set = 1;
     }
     return 1;
-- 
2.43.0


From a2b07cdb9adc19d4eeac4c265a35b132d143e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 06/87] fix: a copied MGM context uses its own key schedule and
 nonce, not the source's

---
 gost_crypt.c              | 14 +++++++++++++-
 gost_grasshopper_cipher.c | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 5751f6c..7931585 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -258,7 +258,8 @@ GOST_cipher magma_ecb_cipher = {
     .iv_len = 8,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY |
+        EVP_CIPH_FLAG_AEAD_CIPHER,
     .init = gost_magma_cipher_init_mgm,
     .do_cipher = gost_magma_cipher_do_mgm,
     .ctrl = gost_magma_mgm_ctrl,
@@ -1162,6 +1163,17 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copied state must not refer to the source context's key and IV */
+        if (out_cctx->mgm.key)
+            out_cctx->mgm.key = &out_cctx->ks;
+        out_cctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index fc16ae1..6cd9ef8 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -132,7 +132,8 @@ GOST_cipher grasshopper_mgm_cipher = {
     .iv_len = 16,
     .flags = EVP_CIPH_NO_PADDING |
         EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER |
-        EVP_CIPH_CTRL_INIT | EVP_CIPH_FLAG_AEAD_CIPHER,
+        EVP_CIPH_CTRL_INIT | EVP_CIPH_CUSTOM_COPY |
+        EVP_CIPH_FLAG_AEAD_CIPHER,
     .cleanup = gost_grasshopper_mgm_cleanup,
     .ctrl = gost_grasshopper_mgm_ctrl,
     .init = gost_grasshopper_cipher_init_mgm,
@@ -1092,6 +1093,17 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         memcpy(ptr, buf, arg);
         return 1;
 
+    case EVP_CTRL_COPY: {
+        EVP_CIPHER_CTX *out = ptr;
+        gost_mgm_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
+
+        /* The copied state must not refer to the source context's key and IV */
+        if (out_cctx->mgm.key)
+            out_cctx->mgm.key = &out_cctx->ks;
+        out_cctx->iv = EVP_CIPHER_CTX_iv_noconst(out);
+        return 1;
+    }
+
     default:
         return -1;
     }
-- 
2.43.0


From d34ad174f3fdedfb26c4791e857a3d33554c8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 07/87] fix: MGM refuses nonce lengths it would not honour

---
 gost_crypt.c              | 10 ++--------
 gost_grasshopper_cipher.c | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7931585..22642f8 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1131,14 +1131,8 @@ static int gost_magma_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *ptr)
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* MGM is defined for a nonce of exactly one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 6cd9ef8..70848f0 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1061,14 +1061,8 @@ static int gost_grasshopper_mgm_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void
         return 1;
 
     case EVP_CTRL_AEAD_SET_IVLEN:
-        if (arg <= 0)
-            return 0;
-        if ((arg > EVP_MAX_IV_LENGTH) && (arg > mctx->ivlen)) {
-            // TODO: Allocate memory for IV or set error
-            return 0;
-        }
-        mctx->ivlen = arg;
-        return 1;
+        /* MGM is defined for a nonce of exactly one block */
+        return arg == mctx->ivlen;
 
     case EVP_CTRL_AEAD_SET_TAG:
         buf = EVP_CIPHER_CTX_buf_noconst(c);
-- 
2.43.0


From bcffe18ac700c86eeb862f21f5987e87f063724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 08/87] fix: GOST 28147-89 MAC of a one-block message does not
 depend on how it is fed

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 22642f8..0eea9da 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1561,7 +1561,8 @@ static int gost_imit_update(EVP_MD_CTX *ctx, const void *data, size_t count)
         for (i = c->bytes_left; i < 8 && bytes > 0; bytes--, i++, p++) {
             c->partial_block[i] = *p;
         }
-        if (i == 8) {
+        /* The last block, even a whole one, waits for more data or for final */
+        if (bytes > 0) {
             mac_block_mesh(c, c->partial_block);
         } else {
             c->bytes_left = i;
-- 
2.43.0


From 12aa66eeffc3e7e192fc2131a5a15635167c7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 09/87] fix: kuznyechik-mac picks its cipher by NID, not by
 names libcrypto may not know

EVP_MD_is_a() compares namemap numbers, and both are 0 when the engine was
loaded after the namemap was filled: every digest then 'is' magma-mac.
---
 gost_omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 648cd8f..589024c 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -168,9 +168,9 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             int ret = 0;
 
             if (c->cipher_name == NULL) {
-                if (EVP_MD_is_a(md, SN_magma_mac))
+                if (EVP_MD_type(md) == NID_magma_mac)
                     c->cipher_name = SN_magma_cbc;
-                else if (EVP_MD_is_a(md, SN_grasshopper_mac))
+                else if (EVP_MD_type(md) == NID_grasshopper_mac)
                     c->cipher_name = SN_grasshopper_cbc;
             }
             if ((cipher =
-- 
2.43.0


From 887806331dbc36903ad69daf5e1a6ea7b6ea23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 10/87] fix: a MAC size set on a context that was finalised and
 not re-keyed is refused, not a crash

---
 gost_omac.c       | 4 ++++
 gost_omac_acpkm.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index 589024c..114ca74 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -214,6 +214,10 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_magma_cbc:
                 if (arg < 1 || arg > 8) {
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 8a3c841..3744699 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -488,6 +488,10 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_MD_CTRL_XOF_LEN:   /* Supported in OpenSSL */
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+            if (c->cipher_name == NULL) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             switch (OBJ_txt2nid(c->cipher_name)) {
             case NID_grasshopper_cbc:
                 if (arg < 1 || arg > 16) {
-- 
2.43.0


From ffddb11d5b48f24d63e36f6cafa27e0cf5b90df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 11/87] fix: OMAC-ACPKM section sizes need a key and a valid T

Setting one before the key dereferenced NULL; a T the cipher refused was
reported as set.
---
 gost_omac_acpkm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 3744699..3a09094 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -464,15 +464,19 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
     case EVP_CTRL_KEY_MESH:
         {
             OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
-            if (!arg || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
+            if (arg <= 0 || (arg % EVP_MD_block_size(EVP_MD_CTX_md(ctx))))
                 return -1;
+            if (!c->key_set) {
+                GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_MAC_KEY_NOT_SET);
+                return 0;
+            }
             c->cmac_ctx->section_size = arg;
             if (ptr && *(int *)ptr) {
                 /* Set parameter T */
                 if (EVP_CIPHER_get0_provider(EVP_CIPHER_CTX_cipher(c->cmac_ctx->actx))
                     == NULL) {
-                    if (!EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
-                                             *(int *)ptr, NULL))
+                    if (EVP_CIPHER_CTX_ctrl(c->cmac_ctx->actx, EVP_CTRL_KEY_MESH,
+                                            *(int *)ptr, NULL) <= 0)
                         return 0;
                 } else {
                     size_t cipher_key_mesh = (size_t)*(int *)ptr;
-- 
2.43.0


From ab2cc0433503eb464c728d9306e3e132dcc500fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 12/87] fix: kuznyechik-mac sizes 9..16 can be set with the
 size control string

---
 gost_pmeth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 44bfc75..2bf344a 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -917,7 +917,7 @@ static int pkey_gost_magma_mac_ctrl_str(EVP_PKEY_CTX *ctx,
 static int pkey_gost_grasshopper_mac_ctrl_str(EVP_PKEY_CTX *ctx,
                                   const char *type, const char *value)
 {
-    return pkey_gost_omac_ctrl_str(ctx, type, value, 8);
+    return pkey_gost_omac_ctrl_str(ctx, type, value, 16);
 }
 
 static int pkey_gost_mac_keygen_base(EVP_PKEY_CTX *ctx,
-- 
2.43.0


From 8f2105289975edab315fb489bbe8a58683c8e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 13/87] fix: the section size implied by ASN.1 cipher
 parameters survives setting the key

CMS decryption sets the parameters first and the key afterwards, which put
the default section size back: content longer than one default section
(4096 or 1024 bytes) was decrypted wrongly.
---
 gost_crypt.c              | 10 +++++-----
 gost_grasshopper_cipher.c | 12 ++++++++----
 gost_grasshopper_cipher.h |  2 ++
 gost_lcl.h                |  2 ++
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 0eea9da..c5c6887 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -532,7 +532,9 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 
     if (EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm
      || EVP_CIPHER_CTX_nid(ctx) == NID_magma_ctr_acpkm_omac) {
-       c->key_meshing = 1024;
+       if (iv != NULL)
+           c->asn1_key_meshing = 0;
+       c->key_meshing = c->asn1_key_meshing ? c->asn1_key_meshing : 1024;
     } else {
        c->key_meshing = 0;
     }
@@ -1484,7 +1486,7 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 static int magma_set_asn1_parameters (EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-	c->key_meshing = 8192;
+	c->key_meshing = c->asn1_key_meshing = 8192;
 
 	return gost2015_set_asn1_params(params, EVP_CIPHER_CTX_original_iv(ctx), 4,
 		c->kdf_seed);
@@ -1495,15 +1497,13 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
-	c->key_meshing = 8192;
-
 	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
 	memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, sizeof(iv));
 	/* Key meshing 8 kb*/
-	c->key_meshing = 8192;
+	c->key_meshing = c->asn1_key_meshing = 8192;
 
 	return 1;
 }
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 70848f0..d5d6327 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -338,7 +338,9 @@ gost_grasshopper_cipher_init_ctracpkm(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKM;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    if (iv != NULL)
+        c->asn1_section_size = 0;
+    c->section_size = c->asn1_section_size ? c->asn1_section_size : 4096;
 
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
@@ -354,7 +356,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
     /* NB: setting type makes EVP do_cipher callback useless */
     c->c.type = GRASSHOPPER_CIPHER_CTRACPKMOMAC;
     EVP_CIPHER_CTX_set_num(ctx, 0);
-    c->section_size = 4096;
+    if (iv != NULL)
+        c->asn1_section_size = 0;
+    c->section_size = c->asn1_section_size ? c->asn1_section_size : 4096;
 
     if (key) {
         unsigned char cipher_key[32];
@@ -994,7 +998,7 @@ static int gost_grasshopper_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *
         gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
         /* CMS implies 256kb section_size */
-        ctr->section_size = 256*1024;
+        ctr->section_size = ctr->asn1_section_size = 256*1024;
 
         return gost2015_set_asn1_params(params,
                EVP_CIPHER_CTX_original_iv(ctx), 8, ctr->kdf_seed);
@@ -1019,7 +1023,7 @@ gost_grasshopper_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, iv_len);
 
         /* CMS implies 256kb section_size */
-        ctr->section_size = 256*1024;
+        ctr->section_size = ctr->asn1_section_size = 256*1024;
         return 1;
     }
     return 0;
diff --git a/gost_grasshopper_cipher.h b/gost_grasshopper_cipher.h
index a3a6470..032df31 100644
--- a/gost_grasshopper_cipher.h
+++ b/gost_grasshopper_cipher.h
@@ -36,6 +36,8 @@ typedef struct {
     unsigned char kdf_seed[8];
 		unsigned char tag[16];
 		EVP_MD_CTX *omac_ctx;
+    unsigned int asn1_section_size; /* section size implied by ASN.1
+                                       parameters, valid until a new IV is set */
 } gost_grasshopper_cipher_ctx_ctr;
 
 static void gost_grasshopper_cipher_key(gost_grasshopper_cipher_ctx* c, const uint8_t* k);
diff --git a/gost_lcl.h b/gost_lcl.h
index ffa8c76..45c7cb2 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -215,6 +215,8 @@ struct ossl_gost_cipher_ctx {
     unsigned char tag[8];
     gost_ctx cctx;
     EVP_MD_CTX *omac_ctx;
+    int asn1_key_meshing;       /* section size implied by ASN.1 parameters,
+                                 * valid until a new IV is set */
 };
 /* Structure to map parameter NID to S-block */
 struct gost_cipher_info {
-- 
2.43.0


From 0d9dc51aee09ca404417f2bcf08f7c46967b3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 14/87] fix: Magma refuses malformed ASN.1 cipher parameters

The helper reports failure with 0, which was taken for success.
---
 gost_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c5c6887..83a5220 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1497,7 +1497,7 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
-	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) < 0)
+	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
-- 
2.43.0


From 90f4bf15b21109b41b8f8acf00753005c125c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 15/87] fix: CTR-ACPKM-OMAC contexts without a key can be
 copied and refuse data

Both dereferenced the MAC context that is only made with the key.
---
 gost_crypt.c              | 6 ++++++
 gost_grasshopper_cipher.c | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 83a5220..cae9376 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -898,6 +898,9 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
+	if (c->omac_ctx == NULL) /* No key yet */
+		return -1;
+
 	if (in == NULL && inl == 0) /* Final call */
 		return gost2015_final_call(ctx, c->omac_ctx, MAGMA_MAC_MAX_SIZE, c->tag, magma_cipher_do_ctr);
 
@@ -1376,6 +1379,9 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
       struct ossl_gost_cipher_ctx *in_cctx  = EVP_CIPHER_CTX_get_cipher_data(ctx);
       struct ossl_gost_cipher_ctx *out_cctx = EVP_CIPHER_CTX_get_cipher_data(out);
 
+			if (in_cctx->omac_ctx == NULL) /* No key yet */
+				return 1;
+
 			if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index d5d6327..6492c18 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -738,6 +738,10 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
 {
     int result;
     gost_grasshopper_cipher_ctx_ctr *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+    if (c->omac_ctx == NULL) /* No key yet */
+        return -1;
+
     /* As in and out can be the same pointer, process unencrypted here */
     if (EVP_CIPHER_CTX_encrypting(ctx))
         EVP_DigestSignUpdate(c->omac_ctx, in, inl);
@@ -1223,6 +1227,9 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
         if (in_cctx->c.type != GRASSHOPPER_CIPHER_CTRACPKMOMAC)
             return -1;
 
+        if (in_cctx->omac_ctx == NULL) /* No key yet */
+            return 1;
+
         if (in_cctx->omac_ctx == out_cctx->omac_ctx) {
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
-- 
2.43.0


From 0461e2bddd1002766e1801d1a35700885da105ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 16/87] fix: CTR-ACPKM-OMAC starts the MAC of every message
 afresh

---
 gost_crypt.c              |  7 ++++++-
 gost_gost2015.c           | 16 ++++++++++++++++
 gost_gost2015.h           |  2 ++
 gost_grasshopper_cipher.c |  4 ++++
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index cae9376..7ffdfd6 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -546,9 +546,11 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
 static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                       const unsigned char *iv, int enc)
 {
-	if (key) {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+	if (key) {
 		unsigned char cipher_key[32];
+		EVP_MD_CTX_free(c->omac_ctx);
 		c->omac_ctx = EVP_MD_CTX_new();
 
 		if (c->omac_ctx == NULL) {
@@ -566,6 +568,9 @@ static int magma_cipher_init_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, const unsigned
 		return magma_cipher_init(ctx, cipher_key, iv, enc);
 	}
 
+	if (c->omac_ctx != NULL && !gost2015_acpkm_omac_restart(c->omac_ctx))
+		return 0;
+
 	return magma_cipher_init(ctx, key, iv, enc);
 }
 
diff --git a/gost_gost2015.c b/gost_gost2015.c
index 2de1a6c..aac7647 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -193,6 +193,22 @@ end:
     return ret;
 }
 
+/* Starts the MAC of a new message under the key the context already has */
+int gost2015_acpkm_omac_restart(EVP_MD_CTX *omac_ctx)
+{
+    EVP_PKEY *mac_key = EVP_PKEY_CTX_get0_pkey(EVP_MD_CTX_pkey_ctx(omac_ctx));
+    int ret;
+
+    if (mac_key == NULL || !EVP_PKEY_up_ref(mac_key))
+        return 0;
+
+    ret = EVP_DigestSignInit(omac_ctx, NULL, EVP_MD_CTX_md(omac_ctx), NULL,
+                             mac_key) > 0;
+    EVP_PKEY_free(mac_key);
+
+    return ret;
+}
+
 int init_zero_kdf_seed(unsigned char *kdf_seed)
 {
     int is_zero_kdfseed = 1, i;
diff --git a/gost_gost2015.h b/gost_gost2015.h
index 37b94d0..6f93841 100644
--- a/gost_gost2015.h
+++ b/gost_gost2015.h
@@ -79,6 +79,8 @@ int gost2015_process_unprotected_attributes(STACK_OF(X509_ATTRIBUTE) *attrs,
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
                              EVP_MD_CTX *omac_ctx,
                              unsigned char *outkey, unsigned char *kdf_seed);
+
+int gost2015_acpkm_omac_restart(EVP_MD_CTX *omac_ctx);
 int init_zero_kdf_seed(unsigned char *kdf_seed);
 
 
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 6492c18..ff9942c 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -362,6 +362,7 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
 
     if (key) {
         unsigned char cipher_key[32];
+        EVP_MD_CTX_free(c->omac_ctx);
         c->omac_ctx = EVP_MD_CTX_new();
 
         if (c->omac_ctx == NULL) {
@@ -379,6 +380,9 @@ gost_grasshopper_cipher_init_ctracpkm_omac(EVP_CIPHER_CTX
         return gost_grasshopper_cipher_init(ctx, cipher_key, iv, enc);
     }
 
+    if (c->omac_ctx != NULL && !gost2015_acpkm_omac_restart(c->omac_ctx))
+        return 0;
+
     return gost_grasshopper_cipher_init(ctx, key, iv, enc);
 }
 
-- 
2.43.0


From 5b0b5de8202d560d28d49b05ed762c043f362abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 17/87] fix: KExp15 and KImp15 refuse lengths they do not
 support

---
 gost_keyexpimp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 481d5b5..5e945e7 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -59,6 +59,11 @@ int gost_kexp15(const unsigned char *shared_key, const int shared_len,
         goto err;
     }
 
+    if (ivlen > sizeof(iv_full)) {
+        GOSTerr(GOST_F_GOST_KEXP15, ERR_R_INTERNAL_ERROR);
+        goto err;
+    }
+
     /* we expect IV of half length */
     memset(iv_full, 0, 16);
     memcpy(iv_full, iv, ivlen);
@@ -136,7 +141,7 @@ int gost_kimp15(const unsigned char *expkey, const size_t expkeylen,
         goto err;
     }
 
-    if (expkeylen > sizeof(out)) {
+    if (expkeylen != shared_len + mac_len) {
         GOSTerr(GOST_F_GOST_KIMP15, ERR_R_INTERNAL_ERROR);
         goto err;
     }
@@ -220,6 +225,7 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
 
     if ((keyout_len == 0) || (keyout_len % 32 != 0)) {
         GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
         return 0;
     }
     iters = keyout_len / 32;
-- 
2.43.0


From 1f32a9edb226b980b725985467116c5bbb883346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 18/87] fix: kexp15 unwrapping reports failures and outputs the
 key once

---
 gost_keyexpimp.c | 78 ++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 5e945e7..63ad570 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -354,30 +354,30 @@ static int magma_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= MAGMA_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > MAGMA_WRAPPED_KEY_LEN)
-			return -1;
-
-		if (cctx->wrap_count + inl <= MAGMA_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (in == NULL) /* Final call, the key was output as soon as it was complete */
+		return cctx->wrap_count == (MAGMA_WRAPPED_KEY_LEN) ? 0 : -1;
 
-	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
+	if (enc)
+		return -1;
+
+	if (inl == 0)
 		return 0;
 
-	if (enc) {
-#if 0
-		return gost_kexp15(cctx->key, 32, NID_magma_ctr, in, NID_magma_mac,
-			cctx->key, /* FIXME mac_key, */ cctx->iv, 4, out, &outl);
-#endif
+	if (inl > (MAGMA_WRAPPED_KEY_LEN) - cctx->wrap_count)
 		return -1;
-	} else {
-		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
-		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0 ? GOSTKEYLEN : 0;
-	}
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
+
+	if (cctx->wrap_count < MAGMA_WRAPPED_KEY_LEN)
+		return 0;
+
+	if (gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_magma_ctr,
+		cctx->key+GOSTKEYLEN, NID_magma_mac, cctx->key, cctx->iv, 4, out) > 0)
+		return GOSTKEYLEN;
+
+	cctx->wrap_count = 0;
+	return -1;
 }
 
 static int kuznyechik_wrap_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
@@ -407,30 +407,30 @@ static int kuznyechik_wrap_do(EVP_CIPHER_CTX *ctx, unsigned char *out,
 	if (out == NULL)
 		return GOSTKEYLEN;
 
-	if (inl <= KUZNYECHIK_WRAPPED_KEY_LEN) {
-		if (cctx->wrap_count + inl > KUZNYECHIK_WRAPPED_KEY_LEN)
-			return -1;
+	if (in == NULL) /* Final call, the key was output as soon as it was complete */
+		return cctx->wrap_count == (KUZNYECHIK_WRAPPED_KEY_LEN) ? 0 : -1;
 
-		if (cctx->wrap_count + inl <= KUZNYECHIK_WRAPPED_KEY_LEN)
-		{
-			memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
-			cctx->wrap_count += inl;
-		}
-	}
+	if (enc)
+		return -1;
 
-	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
+	if (inl == 0)
 		return 0;
 
-	if (enc) {
-#if 0
-		return gost_kexp15(cctx->key, 32, NID_magma_ctr, in, NID_magma_mac,
-			cctx->key, /* FIXME mac_key, */ cctx->iv, 4, out, &outl);
-#endif
+	if (inl > (KUZNYECHIK_WRAPPED_KEY_LEN) - cctx->wrap_count)
 		return -1;
-	} else {
-		return gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
-		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0 ? GOSTKEYLEN : 0;
-	}
+
+	memcpy(cctx->wrapped+cctx->wrap_count, in, inl);
+	cctx->wrap_count += inl;
+
+	if (cctx->wrap_count < KUZNYECHIK_WRAPPED_KEY_LEN)
+		return 0;
+
+	if (gost_kimp15(cctx->wrapped, cctx->wrap_count, NID_kuznyechik_ctr,
+		cctx->key+GOSTKEYLEN, NID_kuznyechik_mac, cctx->key, cctx->iv, 8, out) > 0)
+		return GOSTKEYLEN;
+
+	cctx->wrap_count = 0;
+	return -1;
 }
 
 static int wrap_ctrl (EVP_CIPHER_CTX *ctx, int type, int arg, void *ptr)
-- 
2.43.0


From e2de305cd0188409adc9e4ef55fa4993a4eea306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 19/87] fix: kexp15 wrap ciphers take an IV given without a key

---
 gost_keyexpimp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 63ad570..71c8a5a 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -310,7 +310,7 @@ int gost_tlstree(int cipher_nid, const unsigned char *in, unsigned char *out,
     return 1;
 }
 
-#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
+#define GOST_WRAP_FLAGS  EVP_CIPH_CTRL_INIT | EVP_CIPH_ALWAYS_CALL_INIT | EVP_CIPH_WRAP_MODE | EVP_CIPH_CUSTOM_IV | EVP_CIPH_FLAG_CUSTOM_CIPHER | EVP_CIPH_FLAG_DEFAULT_ASN1
 
 #define MAGMA_MAC_WRAP_LEN 8
 #define KUZNYECHIK_MAC_WRAP_LEN 16
-- 
2.43.0


From 92ce809198dca1734bec71aedb5946d7c4b2ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 20/87] fix: KEG with a zero UKM uses 1, not 2^120, as the VKO
 multiplier

---
 gost_ec_keyx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 8839c4a..7b68e3f 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -139,7 +139,7 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
 
     memset(real_ukm, 0, 16);
     if (memcmp(ukm_source, real_ukm, 16) == 0)
-        real_ukm[15] = 1;
+        real_ukm[0] = 1;        /* VKO takes the UKM as a little-endian number */
     else {
         memcpy(real_ukm, ukm_source, 16);
         BUF_reverse(real_ukm, NULL, 16);
-- 
2.43.0


From 0987124881bc0610711285ae7ed55e74e68000ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 21/87] fix: key agreement without a peer or private key fails
 instead of crashing

---
 gost_ec_keyx.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 7b68e3f..f1a61fc 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -39,6 +39,15 @@ int VKO_compute_key(unsigned char *shared_key,
     int buf_len, half_len;
     int ret = 0;
 
+    if (pub_key == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_NO_PEER_KEY);
+        return 0;
+    }
+    if (priv_key == NULL || EC_KEY_get0_private_key(priv_key) == NULL) {
+        GOSTerr(GOST_F_VKO_COMPUTE_KEY, GOST_R_KEY_IS_NOT_INITIALIZED);
+        return 0;
+    }
+
     if ((ctx = BN_CTX_secure_new()) == NULL) {
         GOSTerr(GOST_F_VKO_COMPUTE_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
@@ -178,6 +187,14 @@ static int gost_keg(const unsigned char *ukm_source, int pkey_nid,
     }
 }
 
+/* Public key of the other side, NULL if there is none */
+static const EC_POINT *peer_point(const EVP_PKEY *peer_key)
+{
+    const EC_KEY *ec = peer_key ? EVP_PKEY_get0((EVP_PKEY *)peer_key) : NULL;
+
+    return ec ? EC_KEY_get0_public_key(ec) : NULL;
+}
+
 /*
  * EVP_PKEY_METHOD callback derive.
  * Implements VKO R 34.10-2001/2012 algorithms
@@ -210,7 +227,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             return 1;
         }
         *keylen = VKO_compute_key(key,
-                                  EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                                  peer_point(peer_key),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
                                   data->shared_ukm, data->shared_ukm_size,
                                   data->vko_dgst_nid);
@@ -239,7 +256,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
 
             *keylen =
                 VKO_compute_key(key,
-                                EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                                peer_point(peer_key),
                                 (EC_KEY *)EVP_PKEY_get0(my_key),
                                 data->shared_ukm, 8, dgst_nid);
             return (*keylen) ? 1 : 0;
@@ -253,7 +270,7 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
             }
 
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
-                               EC_KEY_get0_public_key(EVP_PKEY_get0(peer_key)),
+                               peer_point(peer_key),
                                (EC_KEY *)EVP_PKEY_get0(my_key), key);
             return (*keylen) ? 1 : 0;
         }
-- 
2.43.0


From 60d79f4da8fed7cd98928c4e280b2b716d1c08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 22/87] fix: key transport with fields of wrong length is
 refused, not an abort

---
 gost_ec_keyx.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index f1a61fc..5f9984f 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -641,11 +641,15 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     }
 
     gost_init(&ctx, param->sblock);
-    OPENSSL_assert(gkt->key_agreement_info->eph_iv->length == 8);
+    if (gkt->key_agreement_info->eph_iv->length != 8
+        || gkt->key_info->encrypted_key->length != 32
+        || gkt->key_info->imit->length != 4) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT,
+                GOST_R_ERROR_PARSING_KEY_TRANSPORT_INFO);
+        goto err;
+    }
     memcpy(wrappedKey, gkt->key_agreement_info->eph_iv->data, 8);
-    OPENSSL_assert(gkt->key_info->encrypted_key->length == 32);
     memcpy(wrappedKey + 8, gkt->key_info->encrypted_key->data, 32);
-    OPENSSL_assert(gkt->key_info->imit->length == 4);
     memcpy(wrappedKey + 40, gkt->key_info->imit->data, 4);
 
     EVP_PKEY_get_default_digest_nid(priv, &dgst_nid);
-- 
2.43.0


From e202b58d3788e16313b74923ccad6d567a3fa075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 23/87] fix: key transport into a too small buffer does not
 free the ephemeral key twice

---
 gost_ec_keyx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 5f9984f..a76f957 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -382,8 +382,10 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
     ASN1_OBJECT_free(gkt->key_agreement_info->cipher);
     gkt->key_agreement_info->cipher = OBJ_nid2obj(param->nid);
-    if (key_is_ephemeral)
+    if (key_is_ephemeral) {
         EVP_PKEY_free(sec_key);
+        sec_key = NULL;
+    }
     if (!key_is_ephemeral) {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
-- 
2.43.0


From ca0a8ab24a89ccd883d5ea58cdaf18ea81f60e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 24/87] fix: key transport takes only 32-byte session keys

---
 gost_ec_keyx.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index a76f957..d1d7e2c 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -311,6 +311,12 @@ static int pkey_GOST_ECcp_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *sec_key = EVP_PKEY_CTX_get0_peerkey(pctx);
     int res_len = 0;
 
+    /* The session key of this transport is always 256 bits long */
+    if (out && key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
+
     if (data->shared_ukm_size) {
         memcpy(ukm, data->shared_ukm, 8);
     } else {
@@ -447,6 +453,11 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     int key_is_ephemeral = 0;
     int res_len = 0;
 
+    if (out && key_len != 32) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
+
     switch (data->cipher_nid) {
     case NID_magma_ctr:
         mac_nid = NID_magma_mac;
-- 
2.43.0


From 961b95cbb51e2d4638d5de0c40a54c1a1a5ccf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 25/87] fix: the 2018 key transport uses each message's own
 32-byte UKM

---
 gost_ec_keyx.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index d1d7e2c..9b4c69c 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -443,7 +443,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     EVP_PKEY *pubk = EVP_PKEY_CTX_get0_pkey(pctx);
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(pctx);
     int pkey_nid = EVP_PKEY_base_id(pubk);
-    unsigned char expkeys[64];
+    unsigned char expkeys[64], ukm[32];
     EVP_PKEY *sec_key = NULL;
     int ret = 0;
     int mac_nid = NID_undef;
@@ -500,15 +500,17 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
       key_is_ephemeral = 1;
     }
 
-    if (data->shared_ukm_size == 0) {
-        if (RAND_bytes(data->shared_ukm, 32) <= 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
-            goto err;
-        }
-        data->shared_ukm_size = 32;
+    if (data->shared_ukm_size == sizeof(ukm)) {
+        memcpy(ukm, data->shared_ukm, sizeof(ukm));
+    } else if (data->shared_ukm_size != 0) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
+    } else if (RAND_bytes(ukm, sizeof(ukm)) <= 0) {
+        GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_INTERNAL_ERROR);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(pubk)),
                  EVP_PKEY_get0(sec_key), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT,
@@ -517,7 +519,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
     }
 
     if (gost_kexp15(key, key_len, data->cipher_nid, expkeys + 32,
-                    mac_nid, expkeys + 0, data->shared_ukm + 24, iv_len,
+                    mac_nid, expkeys + 0, ukm + 24, iv_len,
                     exp_buf, &exp_len) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, GOST_R_CANNOT_PACK_EPHEMERAL_KEY);
         goto err;
@@ -535,7 +537,7 @@ static int pkey_gost2018_encrypt(EVP_PKEY_CTX *pctx, unsigned char *out,
         goto err;
     }
 
-    if (!ASN1_OCTET_STRING_set(pst->ukm, data->shared_ukm, data->shared_ukm_size)) {
+    if (!ASN1_OCTET_STRING_set(pst->ukm, ukm, sizeof(ukm))) {
         GOSTerr(GOST_F_PKEY_GOST2018_ENCRYPT, ERR_R_MALLOC_FAILURE);
         goto err;
     }
@@ -705,6 +707,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
     PSKeyTransport_gost *pst = NULL;
     int ret = 0;
     unsigned char expkeys[64];
+    const unsigned char *ukm;
     EVP_PKEY *eph_key = NULL;
     int pkey_nid;
     int mac_nid = NID_undef;
@@ -759,15 +762,18 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        goto err;
     }
 
-    if (data->shared_ukm_size == 0 && pst->ukm != NULL) {
-        if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
-        ASN1_STRING_length(pst->ukm), (void *)ASN1_STRING_get0_data(pst->ukm)) < 0) {
-            GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
-            goto err;
-        }
+    /* The UKM set by the caller, else that of this very message */
+    if (data->shared_ukm_size == 32) {
+        ukm = data->shared_ukm;
+    } else if (data->shared_ukm_size == 0 && pst->ukm != NULL
+               && ASN1_STRING_length(pst->ukm) == 32) {
+        ukm = ASN1_STRING_get0_data(pst->ukm);
+    } else {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_UKM_NOT_SET);
+        goto err;
     }
 
-    if (gost_keg(data->shared_ukm, pkey_nid,
+    if (gost_keg(ukm, pkey_nid,
                  EC_KEY_get0_public_key(EVP_PKEY_get0(eph_key)),
                  EVP_PKEY_get0(priv), expkeys) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT,
@@ -777,7 +783,7 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
 
     if (gost_kimp15(ASN1_STRING_get0_data(pst->psexp),
                     ASN1_STRING_length(pst->psexp), data->cipher_nid,
-                    expkeys + 32, mac_nid, expkeys + 0, data->shared_ukm + 24,
+                    expkeys + 32, mac_nid, expkeys + 0, ukm + 24,
                     iv_len, key) <= 0) {
         GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_CANNOT_UNPACK_EPHEMERAL_KEY);
         goto err;
-- 
2.43.0


From e7e71bcf70d937feaa34fa5741778802ecc4d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 26/87] fix: the 2018 key transport refuses an ephemeral key of
 another kind or curve

---
 gost_ec_keyx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 9b4c69c..0cd5182 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -762,6 +762,12 @@ static int pkey_gost2018_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
        goto err;
     }
 
+    if (EVP_PKEY_base_id(eph_key) != pkey_nid
+        || EVP_PKEY_parameters_eq(priv, eph_key) != 1) {
+        GOSTerr(GOST_F_PKEY_GOST2018_DECRYPT, GOST_R_INCOMPATIBLE_PEER_KEY);
+        goto err;
+    }
+
     /* The UKM set by the caller, else that of this very message */
     if (data->shared_ukm_size == 32) {
         ukm = data->shared_ukm;
-- 
2.43.0


From d6b153322a6c002a7e3f03730f5bbcc30be19c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 27/87] fix: signing or verifying a digest of unsupported
 length fails instead of aborting

---
 gost_ec_sign.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index a825dba..d628ecf 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -194,7 +194,10 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     EC_POINT *C = NULL;
     BN_CTX *ctx;
 
-    OPENSSL_assert(dgst != NULL && eckey != NULL);
+    if (dgst == NULL || eckey == NULL || (dlen != 32 && dlen != 64)) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_DIGEST_TYPE);
+        return NULL;
+    }
 
     if (!(ctx = BN_CTX_secure_new())) {
         GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_MALLOC_FAILURE);
@@ -202,7 +205,6 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
     }
 
     BN_CTX_start(ctx);
-    OPENSSL_assert(dlen == 32 || dlen == 64);
     md = BN_lebin2bn(dgst, dlen, NULL);
     newsig = ECDSA_SIG_new();
     if (!newsig || !md) {
@@ -335,7 +337,11 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
     const EC_POINT *pub_key = NULL;
     int ok = 0;
 
-    OPENSSL_assert(dgst != NULL && sig != NULL && group != NULL);
+    if (dgst == NULL || sig == NULL || group == NULL
+        || (dgst_len != 32 && dgst_len != 64)) {
+        GOSTerr(GOST_F_GOST_EC_VERIFY, GOST_R_INVALID_DIGEST_TYPE);
+        return 0;
+    }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_MALLOC_FAILURE);
@@ -371,7 +377,6 @@ int gost_ec_verify(const unsigned char *dgst, int dgst_len,
         goto err;
     }
 
-    OPENSSL_assert(dgst_len == 32 || dgst_len == 64);
     md = BN_lebin2bn(dgst, dgst_len, NULL);
     if (!md || !BN_mod(e, md, order, ctx)) {
         GOSTerr(GOST_F_GOST_EC_VERIFY, ERR_R_INTERNAL_ERROR);
-- 
2.43.0


From 28ca23f87e26a57397a061b7d0282c3c6571ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 28/87] fix: a zero signature nonce is drawn again, as the
 standard requires

---
 gost_ec_sign.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index d628ecf..f0882af 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -250,10 +250,13 @@ ECDSA_SIG *gost_ec_sign(const unsigned char *dgst, int dlen, EC_KEY *eckey)
 
     do {
         do {
-            if (!BN_rand_range(k, order)) {
-                GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_RNG_ERROR);
-                goto err;
+            do {
+                if (!BN_rand_range(k, order)) {
+                    GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_RNG_ERROR);
+                    goto err;
+                }
             }
+            while (BN_is_zero(k));
             if (!gost_ec_point_mul(group, C, k, NULL, NULL, ctx)) {
                 GOSTerr(GOST_F_GOST_EC_SIGN, ERR_R_EC_LIB);
                 goto err;
-- 
2.43.0


From f3e970746d21510ac00a6c0522d61ad5b5fcfc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 29/87] fix: only signatures of exactly the key's signature
 length verify

---
 gost_pmeth.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 2bf344a..cc7efc7 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -539,7 +539,13 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
 {
     int ok = 0;
     EVP_PKEY *pub_key = EVP_PKEY_CTX_get0_pkey(ctx);
-    ECDSA_SIG *s = (sig) ? unpack_cp_signature(sig, siglen) : NULL;
+    ECDSA_SIG *s;
+
+    if (!sig || !pub_key
+        || siglen != (EVP_PKEY_base_id(pub_key) == NID_id_GostR3410_2012_512
+                      ? 128 : 64))
+        return 0;
+    s = unpack_cp_signature(sig, siglen);
     if (!s)
         return 0;
 #ifdef DEBUG_SIGN
@@ -549,8 +555,7 @@ static int pkey_gost_ec_cp_verify(EVP_PKEY_CTX *ctx, const unsigned char *sig,
     BN_print_fp(stderr, ECDSA_SIG_get0_s(s));
     fprintf(stderr, "\n");
 #endif
-    if (pub_key)
-        ok = gost_ec_verify(tbs, tbs_len, s, EVP_PKEY_get0(pub_key));
+    ok = gost_ec_verify(tbs, tbs_len, s, EVP_PKEY_get0(pub_key));
     ECDSA_SIG_free(s);
     return ok;
 }
-- 
2.43.0


From b23625c499e7708f1b0cd7acc82b14d91b2a3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 30/87] fix: key generation that fails is reported as failed

---
 gost_pmeth.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index cc7efc7..4f233dd 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -447,8 +447,7 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2001_paramgen(ctx, pkey))
         return 0;
     ec = EVP_PKEY_get0(pkey);
-    gost_ec_keygen(ec);
-    return 1;
+    return gost_ec_keygen(ec);
 }
 
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
@@ -457,8 +456,7 @@ static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     if (!pkey_gost2012_paramgen(ctx, pkey))
         return 0;
 
-    gost_ec_keygen(EVP_PKEY_get0(pkey));
-    return 1;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
 /* ----------- sign callbacks --------------------------------------*/
-- 
2.43.0


From b098009eaf53c7f63252dad3ce62cc0cbd51d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 31/87] fix: a signature context refuses a missing digest
 instead of aborting

---
 gost_pmeth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 4f233dd..47d5547 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -100,7 +100,10 @@ static int pkey_gost_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             EVP_PKEY *key = EVP_PKEY_CTX_get0_pkey(ctx);
             int pkey_nid = (key == NULL) ? NID_undef : EVP_PKEY_base_id(key);
 
-            OPENSSL_assert(p2 != NULL);
+            if (p2 == NULL) {
+                GOSTerr(GOST_F_PKEY_GOST_CTRL, GOST_R_INVALID_DIGEST_TYPE);
+                return 0;
+            }
 
             switch (EVP_MD_type((const EVP_MD *)p2)) {
             case NID_id_GostR3411_94:
-- 
2.43.0


From d3be8fea8093b3bd72dff03a73f9079c128611b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 32/87] fix: GOST R 34.10-2001 keys are not generated on
 512-bit curves

---
 gost_pmeth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 47d5547..0671384 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -385,6 +385,7 @@ static int pkey_gost2001_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 
     ec = EC_KEY_new();
     if (!fill_GOST_EC_params(ec, data->sign_param_nid)
+        || EC_GROUP_get_degree(EC_KEY_get0_group(ec)) != 256
         || !EVP_PKEY_assign(pkey, NID_id_GostR3410_2001, ec)) {
         EC_KEY_free(ec);
         return 0;
-- 
2.43.0


From 74b65ed046ce392d69b5cd31535426262a07b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:40 +0000
Subject: [PATCH 33/87] fix: derivation into a too small buffer is refused, not
 an overflow

---
 gost_ec_keyx.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 0cd5182..7f7904d 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -222,10 +222,16 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
 
     /* VKO */
     if (data->vko_dgst_nid) {
+        size_t size = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
+
         if (!key) {
-            *keylen = data->vko_dgst_nid == NID_id_GostR3411_2012_256? 32 : 64;
+            *keylen = size;
             return 1;
         }
+        if (*keylen < size) {
+            GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+            return 0;
+        }
         *keylen = VKO_compute_key(key,
                                   peer_point(peer_key),
                                   (EC_KEY *)EVP_PKEY_get0(my_key),
@@ -250,6 +256,10 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 *keylen = 32;
                 return 1;
             }
+            if (*keylen < 32) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
             EVP_PKEY_get_default_digest_nid(my_key, &dgst_nid);
             if (dgst_nid == NID_id_GostR3411_2012_512)
                 dgst_nid = NID_id_GostR3411_2012_256;
@@ -269,6 +279,11 @@ int pkey_gost_ec_derive(EVP_PKEY_CTX *ctx, unsigned char *key, size_t *keylen)
                 return 1;
             }
 
+            if (*keylen < 64) {
+                GOSTerr(GOST_F_PKEY_GOST_EC_DERIVE, GOST_R_INVALID_BUFFER_SIZE);
+                return 0;
+            }
+
             *keylen = gost_keg(data->shared_ukm, EVP_PKEY_id(my_key),
                                peer_point(peer_key),
                                (EC_KEY *)EVP_PKEY_get0(my_key), key);
-- 
2.43.0


From f9783fb8b649154e9067a9418432fa0f34b9dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 34/87] fix: signing into a too small buffer is refused, not an
 overflow

---
 gost_pmeth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 0671384..12a0e1f 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -510,6 +510,10 @@ static int pkey_gost_ec_cp_sign(EVP_PKEY_CTX *ctx, unsigned char *sig,
         *siglen = order;
         return 1;
     }
+    if (*siglen < (size_t)order) {
+        GOSTerr(GOST_F_GOST_EC_SIGN, GOST_R_INVALID_BUFFER_SIZE);
+        return 0;
+    }
     unpacked_sig = gost_ec_sign(tbs, tbs_len, EVP_PKEY_get0(pkey));
     if (!unpacked_sig) {
         return 0;
-- 
2.43.0


From 1fcf91ecee679eb18576df6adb544865ccb83741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 35/87] fix: a key transport message with an undecodable
 ephemeral key is refused

---
 gost_ec_keyx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gost_ec_keyx.c b/gost_ec_keyx.c
index 7f7904d..0febd86 100644
--- a/gost_ec_keyx.c
+++ b/gost_ec_keyx.c
@@ -651,6 +651,9 @@ static int pkey_GOST_ECcp_decrypt(EVP_PKEY_CTX *pctx, unsigned char *key,
                     GOST_R_INCOMPATIBLE_PEER_KEY);
             goto err;
         }
+    } else if (gkt->key_agreement_info->ephem_key) {
+        GOSTerr(GOST_F_PKEY_GOST_ECCP_DECRYPT, GOST_R_INCOMPATIBLE_PEER_KEY);
+        goto err;
     } else {
         /* Set control "public key from client certificate used" */
         if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_PEER_KEY, 3, NULL)
-- 
2.43.0


From 8230a62acc30a3e7813730e069ae2baad756c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 36/87] fix: private keys of wrong or zero length are refused
 when decoded

---
 gost_ameth.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 8e02a15..92b690d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -610,6 +610,11 @@ static int priv_decode_gost(EVP_PKEY *pk,
         return 0;
     }
 
+    if (priv_len <= 0) {
+        GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+        return 0;
+    }
+
     if (priv_len % expected_key_len == 0) {
         /* Key is not wrapped but masked */
         pk_num = unmask_priv_key(pk, pkey_buf, expected_key_len,
@@ -617,7 +622,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
     } else if (V_ASN1_OCTET_STRING == *p) {
         /* New format - Little endian octet string */
         ASN1_OCTET_STRING *s = d2i_ASN1_OCTET_STRING(NULL, &p, priv_len);
-        if (!s || ((s->length != 32) && (s->length != 64))) {
+        if (!s || s->length != expected_key_len) {
             ASN1_STRING_free(s);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
@@ -641,7 +646,7 @@ static int priv_decode_gost(EVP_PKEY *pk,
         }
 
         priv_len = mgk->masked_priv_key->length;
-        if (priv_len % expected_key_len) {
+        if (priv_len <= 0 || priv_len % expected_key_len) {
             MASKED_GOST_KEY_free(mgk);
             GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
             return 0;
-- 
2.43.0


From 18666f8386dd957cd25c791ffeb0491da286befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 37/87] fix: private keys outside 1..q-1 are refused when
 decoded

---
 gost_ameth.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 92b690d..2473d0c 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -192,10 +192,19 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
     case NID_id_GostR3410_2001DH:
         {
             EC_KEY *ec = EVP_PKEY_get0(pkey);
+            const EC_GROUP *group;
             if (!ec) {
                 ec = EC_KEY_new();
                 EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
             }
+            group = EC_KEY_get0_group(ec);
+            /* A private key is a number d with 0 < d < q */
+            if (BN_is_zero(priv) || BN_is_negative(priv)
+                || (group != NULL
+                    && BN_cmp(priv, EC_GROUP_get0_order(group)) >= 0)) {
+                GOSTerr(GOST_F_PRIV_DECODE_GOST, EVP_R_DECODE_ERROR);
+                return 0;
+            }
             if (!EC_KEY_set_private_key(ec, priv))
                 return 0;
             if (!EVP_PKEY_missing_parameters(pkey))
-- 
2.43.0


From c278c6af9e45e50fc15ad9d8b3df07f2a7230525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 38/87] fix: keys whose parameter set is of the other key size
 are refused when decoded

---
 gost_ameth.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 2473d0c..1404178 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -137,7 +137,15 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
                 break;
             }
         }
-        return fill_GOST_EC_params(key_ptr, param_nid);
+        if (!fill_GOST_EC_params(key_ptr, param_nid))
+            return 0;
+        /* 512-bit curves are for GOST R 34.10-2012 512-bit keys only */
+        if ((EC_GROUP_get_degree(EC_KEY_get0_group(key_ptr)) > 256)
+            != (pkey_nid == NID_id_GostR3410_2012_512)) {
+            GOSTerr(GOST_F_DECODE_GOST_ALGOR_PARAMS, GOST_R_INVALID_PARAMSET);
+            return 0;
+        }
+        return 1;
     }
 
     return 0;
-- 
2.43.0


From dfa44130270d5c64ee7a760e21698e5fd9ee2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 39/87] fix: public keys of wrong length are refused when
 decoded

---
 gost_ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 1404178..1721c46 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -949,6 +949,10 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
         goto ret;
     }
+    if (octet->length != 2 * (pkey_bits_gost(pk) / 8)) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     databuf = OPENSSL_malloc(octet->length);
     if (!databuf) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_MALLOC_FAILURE);
-- 
2.43.0


From 2400bf618ca3f8de159b3dde3fc574a4befe9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 40/87] fix: public key coordinates outside 0..p-1 are refused
 when decoded

---
 gost_ameth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_ameth.c b/gost_ameth.c
index 1721c46..3b9dfab 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -968,6 +968,11 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_BN_LIB);
         goto ret;
     }
+    if (BN_cmp(X, EC_GROUP_get0_field(group)) >= 0
+        || BN_cmp(Y, EC_GROUP_get0_field(group)) >= 0) {
+        GOSTerr(GOST_F_PUB_DECODE_GOST_EC, EVP_R_DECODE_ERROR);
+        goto ret;
+    }
     pub_key = EC_POINT_new(group);
     if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
-- 
2.43.0


From 93d27e2f14f9b0c98d77cf7eaaa0c3931b36d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 41/87] fix: encoding a key that lacks the part asked for fails
 instead of crashing

---
 gost_ameth.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 3b9dfab..0e5ae06 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -65,6 +65,10 @@ static ASN1_STRING *encode_gost_algor_params(const EVP_PKEY *key)
         GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, ERR_R_MALLOC_FAILURE);
         goto err;
     }
+    if (!key_ptr || !EC_KEY_get0_group(key_ptr)) {
+        GOSTerr(GOST_F_ENCODE_GOST_ALGOR_PARAMS, GOST_R_KEY_PARAMETERS_MISSING);
+        goto err;
+    }
     switch (EVP_PKEY_base_id(key)) {
     case NID_id_GostR3410_2012_256:
         pkey_param_nid = EC_GROUP_get_curve_name(EC_KEY_get0_group(key_ptr));
@@ -703,7 +707,8 @@ static int priv_encode_gost(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         return 0;
     }
 
-    if (!store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
+    if (!gost_get0_priv_key(pk)
+        || !store_bignum(gost_get0_priv_key(pk), buf, key_len)) {
         OPENSSL_secure_free(buf);
         return 0;
     }
@@ -1008,6 +1013,8 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     algobj = OBJ_nid2obj(EVP_PKEY_base_id(pk));
 
     params = encode_gost_algor_params(pk);
+    if (!params)
+        return 0;
     pval = params;
 
     order = BN_new();
@@ -1070,8 +1077,10 @@ static int pub_encode_gost_ec(X509_PUBKEY *pub, const EVP_PKEY *pk)
     if (databuf)
         OPENSSL_free(databuf);
 
-    if (ret < 0)
+    if (ret < 0) {
+        ASN1_STRING_free(params);
         return 0;
+    }
     return X509_PUBKEY_set0_param(pub, algobj, ptype, pval, buf, ret);
 }
 
@@ -1163,9 +1172,12 @@ static int mac_ctrl_grasshopper(EVP_PKEY *pkey, int op, long arg1, void *arg2)
 
 static int gost2001_param_encode(const EVP_PKEY *pkey, unsigned char **pder)
 {
-    int nid =
-        EC_GROUP_get_curve_name(EC_KEY_get0_group
-                                (EVP_PKEY_get0((EVP_PKEY *)pkey)));
+    int nid;
+
+    if (param_missing_gost_ec(pkey))
+        return 0;
+    nid = EC_GROUP_get_curve_name(EC_KEY_get0_group
+                                  (EVP_PKEY_get0((EVP_PKEY *)pkey)));
     return i2d_ASN1_OBJECT(OBJ_nid2obj(nid), pder);
 }
 
-- 
2.43.0


From 974fa457d7be687c560873e291b58a3cd2f5b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 42/87] fix: decoded key parameters keep the key type they were
 decoded for

---
 gost_ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index 0e5ae06..b07b633 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -1192,7 +1192,7 @@ static int gost2001_param_decode(EVP_PKEY *pkey, const unsigned char **pder,
     nid = OBJ_obj2nid(obj);
     ASN1_OBJECT_free(obj);
 
-    return gost_decode_nid_params(pkey, NID_id_GostR3410_2001, nid);
+    return gost_decode_nid_params(pkey, EVP_PKEY_base_id(pkey), nid);
 }
 
 /* ----------------------------------------------------------------------*/
-- 
2.43.0


From 25704d46fa7e2faf77fcdcf50585bb7ac750c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 43/87] fix: generated GOST R 34.10-2001 DH keys and parameters
 are of the DH type

---
 gost_pmeth.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 12a0e1f..fbe7d41 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -373,7 +373,8 @@ static int pkey_gost_paramgen_init(EVP_PKEY_CTX *ctx)
     return 1;
 }
 
-static int pkey_gost2001_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+static int pkey_gost2001_paramgen_nid(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey,
+                                      int pkey_nid)
 {
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
     EC_KEY *ec = NULL;
@@ -386,13 +387,23 @@ static int pkey_gost2001_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     ec = EC_KEY_new();
     if (!fill_GOST_EC_params(ec, data->sign_param_nid)
         || EC_GROUP_get_degree(EC_KEY_get0_group(ec)) != 256
-        || !EVP_PKEY_assign(pkey, NID_id_GostR3410_2001, ec)) {
+        || !EVP_PKEY_assign(pkey, pkey_nid, ec)) {
         EC_KEY_free(ec);
         return 0;
     }
     return 1;
 }
 
+static int pkey_gost2001_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    return pkey_gost2001_paramgen_nid(ctx, pkey, NID_id_GostR3410_2001);
+}
+
+static int pkey_gost2001dh_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    return pkey_gost2001_paramgen_nid(ctx, pkey, NID_id_GostR3410_2001DH);
+}
+
 static int pkey_gost2012_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 {
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
@@ -454,6 +465,14 @@ static int pkey_gost2001cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     return gost_ec_keygen(ec);
 }
 
+/* Generates GOST_R3410 2001 DH key */
+static int pkey_gost2001dh_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    if (!pkey_gost2001dh_paramgen(ctx, pkey))
+        return 0;
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
+}
+
 /* Generates GOST_R3410 2012 key and assigns it using specified type */
 static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 {
@@ -1068,7 +1087,9 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
-        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost2001cp_keygen);
+        EVP_PKEY_meth_set_keygen(*pmeth, NULL, id == NID_id_GostR3410_2001 ?
+                                 pkey_gost2001cp_keygen :
+                                 pkey_gost2001dh_keygen);
 
         EVP_PKEY_meth_set_encrypt(*pmeth,
                                   pkey_gost_encrypt_init,
@@ -1077,7 +1098,9 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_derive(*pmeth,
                                  pkey_gost_derive_init, pkey_gost_ec_derive);
         EVP_PKEY_meth_set_paramgen(*pmeth, pkey_gost_paramgen_init,
-                                   pkey_gost2001_paramgen);
+                                   id == NID_id_GostR3410_2001 ?
+                                   pkey_gost2001_paramgen :
+                                   pkey_gost2001dh_paramgen);
     EVP_PKEY_meth_set_check(*pmeth, pkey_gost_check);
     EVP_PKEY_meth_set_public_check(*pmeth, pkey_gost_check);
         break;
-- 
2.43.0


From 29a70ac5304540bba16a583fed5c46f3bb21d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 44/87] fix: undecodable GOST 28147-89 cipher parameters are
 refused instead of dereferencing NULL

---
 gost_crypt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 7ffdfd6..b165531 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1464,6 +1464,11 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 
     gcp = d2i_GOST_CIPHER_PARAMS(NULL, (const unsigned char **)&p,
                                  params->value.sequence->length);
+    if (gcp == NULL) {
+        GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS,
+                GOST_R_INVALID_CIPHER_PARAMS);
+        return -1;
+    }
 
     len = gcp->iv->length;
     if (len != EVP_CIPHER_CTX_iv_length(ctx)) {
-- 
2.43.0


From b32abd8e19b37872c8ba908a781f85874777b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 45/87] fix: gost89-cnt knows its S-box when its parameters are
 asked for

---
 gost_crypt.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index b165531..03b8a85 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -457,11 +457,11 @@ static int gost_cipher_init_param(EVP_CIPHER_CTX *ctx,
 static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
                                 const unsigned char *key,
                                 const unsigned char *iv,
-                                gost_subst_block * block)
+                                int paramNID)
 {
     struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
-    gost_init(&(c->cctx), block);
-    c->key_meshing = 1;
+    if (!gost_cipher_set_param(c, paramNID))
+        return 0;
     gost_cipher_start(ctx, c, key, iv);
     return 1;
 }
@@ -469,14 +469,15 @@ static int gost_cipher_init_cnt(EVP_CIPHER_CTX *ctx,
 static int gost_cipher_init_cpa(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                                 const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_CryptoProParamSetA);
+    return gost_cipher_init_cnt(ctx, key, iv,
+                                NID_id_Gost28147_89_CryptoPro_A_ParamSet);
 }
 
 static int gost_cipher_init_cp_12(EVP_CIPHER_CTX *ctx,
                                   const unsigned char *key,
                                   const unsigned char *iv, int enc)
 {
-    return gost_cipher_init_cnt(ctx, key, iv, &Gost28147_TC26ParamSetZ);
+    return gost_cipher_init_cnt(ctx, key, iv, NID_id_tc26_gost_28147_param_Z);
 }
 
 /* Initializes EVP_CIPHER_CTX with default values */
-- 
2.43.0


From 0fb9aa82905bc2371e9a38aceb2e25e45312f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 46/87] fix: cipher parameters naming another S-box are refused
 by ciphers whose S-box is fixed

---
 gost_crypt.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index 03b8a85..2edaf41 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1486,9 +1486,23 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
         return -1;
     }
 
-    if (!gost_cipher_set_param(c, nid)) {
-        GOST_CIPHER_PARAMS_free(gcp);
-        return -1;
+    switch (EVP_CIPHER_CTX_nid(ctx)) {
+    case NID_gost89_cnt:
+    case NID_gost89_cnt_12:
+    case NID_magma_cbc:
+        /* The S-box belongs to the cipher, it cannot be changed */
+        if (nid != c->paramNID) {
+            GOST_CIPHER_PARAMS_free(gcp);
+            GOSTerr(GOST_F_GOST89_GET_ASN1_PARAMETERS,
+                    GOST_R_INVALID_CIPHER_PARAM_OID);
+            return -1;
+        }
+        break;
+    default:
+        if (!gost_cipher_set_param(c, nid)) {
+            GOST_CIPHER_PARAMS_free(gcp);
+            return -1;
+        }
     }
     /*XXX missing non-const accessor */
     memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), gcp->iv->data,
-- 
2.43.0


From 7089d241a7d79b775f1d6fbaad97500c733164ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 47/87] fix: the IV of GOST 28147-89 cipher parameters is used
 also when the key is already set

---
 gost_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 2edaf41..36e8580 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1507,6 +1507,8 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
     /*XXX missing non-const accessor */
     memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), gcp->iv->data,
            EVP_CIPHER_CTX_iv_length(ctx));
+    memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), gcp->iv->data,
+           EVP_CIPHER_CTX_iv_length(ctx));
 
     GOST_CIPHER_PARAMS_free(gcp);
 
-- 
2.43.0


From 8d49017699104df428916adde01c82eb5fad201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 48/87] fix: ASN.1 parameters are refused by Magma modes that
 have none

---
 gost_crypt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_crypt.c b/gost_crypt.c
index 36e8580..c89bccd 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1519,6 +1519,11 @@ static int gost89_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 static int magma_set_asn1_parameters (EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 {
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
+
+	/* Other modes have neither these parameters nor this context */
+	if (EVP_CIPHER_CTX_mode(ctx) != EVP_CIPH_CTR_MODE)
+		return 0;
+
 	c->key_meshing = c->asn1_key_meshing = 8192;
 
 	return gost2015_set_asn1_params(params, EVP_CIPHER_CTX_original_iv(ctx), 4,
@@ -1530,6 +1535,9 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
   struct ossl_gost_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 	unsigned char iv[16];
 
+	if (EVP_CIPHER_CTX_mode(ctx) != EVP_CIPH_CTR_MODE)
+		return -1;
+
 	if (gost2015_get_asn1_params(params, MAGMA_UKM_LEN, iv, 4, c->kdf_seed) <= 0)
 	    return -1;
 
-- 
2.43.0


From 260a4c997094264783672bf98d53195ef274f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:36 +0000
Subject: [PATCH 49/87] fix: handing out or receiving parameters does not turn
 on key meshing in magma-ctr

---
 gost_crypt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index c89bccd..d2c8fc5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1524,7 +1524,9 @@ static int magma_set_asn1_parameters (EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 	if (EVP_CIPHER_CTX_mode(ctx) != EVP_CIPH_CTR_MODE)
 		return 0;
 
-	c->key_meshing = c->asn1_key_meshing = 8192;
+	/* Key meshing 8 kb*/
+	if (EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr)
+		c->key_meshing = c->asn1_key_meshing = 8192;
 
 	return gost2015_set_asn1_params(params, EVP_CIPHER_CTX_original_iv(ctx), 4,
 		c->kdf_seed);
@@ -1544,7 +1546,8 @@ static int magma_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *params)
 	memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, sizeof(iv));
 	memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, sizeof(iv));
 	/* Key meshing 8 kb*/
-	c->key_meshing = c->asn1_key_meshing = 8192;
+	if (EVP_CIPHER_CTX_nid(ctx) != NID_magma_ctr)
+		c->key_meshing = c->asn1_key_meshing = 8192;
 
 	return 1;
 }
-- 
2.43.0


From 4bd7e45205ffa16fbb1060f9d1bf568c63926692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 50/87] fix: a numeric parameter set of the other key size no
 longer changes the type of the generated key

---
 gost_pmeth.c | 75 +++++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index fbe7d41..e60fea8 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -404,54 +404,48 @@ static int pkey_gost2001dh_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     return pkey_gost2001_paramgen_nid(ctx, pkey, NID_id_GostR3410_2001DH);
 }
 
-static int pkey_gost2012_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+static int pkey_gost2012_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey,
+                                  int pkey_nid, int bits)
 {
     struct gost_pmeth_data *data = EVP_PKEY_CTX_get_data(ctx);
     EC_KEY *ec;
-    int result = 0;
+    int is_512 = 0;
 
     if (!data || data->sign_param_nid == NID_undef) {
         GOSTerr(GOST_F_PKEY_GOST2012_PARAMGEN, GOST_R_NO_PARAMETERS_SET);
         return 0;
     }
 
-    ec = EC_KEY_new();
-    if (!fill_GOST_EC_params(ec, data->sign_param_nid)) {
-        EC_KEY_free(ec);
-        return 0;
-    }
-
     switch (data->sign_param_nid) {
     case NID_id_tc26_gost_3410_2012_512_paramSetA:
     case NID_id_tc26_gost_3410_2012_512_paramSetB:
     case NID_id_tc26_gost_3410_2012_512_paramSetC:
     case NID_id_tc26_gost_3410_2012_512_paramSetTest:
-        result =
-            (EVP_PKEY_assign(pkey, NID_id_GostR3410_2012_512, ec)) ? 1 : 0;
-        break;
-
-    case NID_id_GostR3410_2001_CryptoPro_A_ParamSet:
-    case NID_id_GostR3410_2001_CryptoPro_B_ParamSet:
-    case NID_id_GostR3410_2001_CryptoPro_C_ParamSet:
-    case NID_id_GostR3410_2001_CryptoPro_XchA_ParamSet:
-    case NID_id_GostR3410_2001_CryptoPro_XchB_ParamSet:
-    case NID_id_GostR3410_2001_TestParamSet:
-    case NID_id_tc26_gost_3410_2012_256_paramSetA:
-    case NID_id_tc26_gost_3410_2012_256_paramSetB:
-    case NID_id_tc26_gost_3410_2012_256_paramSetC:
-    case NID_id_tc26_gost_3410_2012_256_paramSetD:
-        result =
-            (EVP_PKEY_assign(pkey, NID_id_GostR3410_2012_256, ec)) ? 1 : 0;
-        break;
-    default:
-        result = 0;
+        is_512 = 1;
         break;
     }
+    if (is_512 != (bits == 512)) {
+        GOSTerr(GOST_F_PKEY_GOST2012_PARAMGEN, GOST_R_INVALID_PARAMSET);
+        return 0;
+    }
 
-    if (result == 0)
+    ec = EC_KEY_new();
+    if (!fill_GOST_EC_params(ec, data->sign_param_nid)
+        || !EVP_PKEY_assign(pkey, pkey_nid, ec)) {
         EC_KEY_free(ec);
+        return 0;
+    }
+    return 1;
+}
+
+static int pkey_gost2012_256_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    return pkey_gost2012_paramgen(ctx, pkey, NID_id_GostR3410_2012_256, 256);
+}
 
-    return result;
+static int pkey_gost2012_512_paramgen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    return pkey_gost2012_paramgen(ctx, pkey, NID_id_GostR3410_2012_512, 512);
 }
 
 /* ----------- keygen callbacks --------------------------------------*/
@@ -473,10 +467,19 @@ static int pkey_gost2001dh_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
     return gost_ec_keygen(EVP_PKEY_get0(pkey));
 }
 
-/* Generates GOST_R3410 2012 key and assigns it using specified type */
-static int pkey_gost2012cp_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+/* Generates GOST_R3410 2012 256-bit key */
+static int pkey_gost2012_256_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
+{
+    if (!pkey_gost2012_256_paramgen(ctx, pkey))
+        return 0;
+
+    return gost_ec_keygen(EVP_PKEY_get0(pkey));
+}
+
+/* Generates GOST_R3410 2012 512-bit key */
+static int pkey_gost2012_512_keygen(EVP_PKEY_CTX *ctx, EVP_PKEY *pkey)
 {
-    if (!pkey_gost2012_paramgen(ctx, pkey))
+    if (!pkey_gost2012_512_paramgen(ctx, pkey))
         return 0;
 
     return gost_ec_keygen(EVP_PKEY_get0(pkey));
@@ -1110,7 +1113,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
-        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost2012cp_keygen);
+        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost2012_256_keygen);
 
         EVP_PKEY_meth_set_encrypt(*pmeth,
                                   pkey_gost_encrypt_init,
@@ -1120,7 +1123,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
                                  pkey_gost_derive_init, pkey_gost_ec_derive);
         EVP_PKEY_meth_set_paramgen(*pmeth,
                                    pkey_gost_paramgen_init,
-                                   pkey_gost2012_paramgen);
+                                   pkey_gost2012_256_paramgen);
     EVP_PKEY_meth_set_check(*pmeth, pkey_gost_check);
     EVP_PKEY_meth_set_public_check(*pmeth, pkey_gost_check);
         break;
@@ -1130,7 +1133,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
         EVP_PKEY_meth_set_sign(*pmeth, NULL, pkey_gost_ec_cp_sign);
         EVP_PKEY_meth_set_verify(*pmeth, NULL, pkey_gost_ec_cp_verify);
 
-        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost2012cp_keygen);
+        EVP_PKEY_meth_set_keygen(*pmeth, NULL, pkey_gost2012_512_keygen);
 
         EVP_PKEY_meth_set_encrypt(*pmeth,
                                   pkey_gost_encrypt_init,
@@ -1140,7 +1143,7 @@ int register_pmeth_gost(int id, EVP_PKEY_METHOD **pmeth, int flags)
                                  pkey_gost_derive_init, pkey_gost_ec_derive);
         EVP_PKEY_meth_set_paramgen(*pmeth,
                                    pkey_gost_paramgen_init,
-                                   pkey_gost2012_paramgen);
+                                   pkey_gost2012_512_paramgen);
     EVP_PKEY_meth_set_check(*pmeth, pkey_gost_check);
     EVP_PKEY_meth_set_public_check(*pmeth, pkey_gost_check);
         break;
-- 
2.43.0


From a95c373697c5e273f22f9eef90156a77eee38e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 51/87] fix: TC26 256-bit parameter sets B, C and D can be
 named by OID

---
 gost_pmeth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index e60fea8..82333bc 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -305,7 +305,11 @@ static int pkey_gost_ec_ctrl_str_256(EVP_PKEY_CTX *ctx,
                 if (p->nid == param_nid)
                     break;
             }
-            if (p->nid == NID_undef) {
+            /* These are other names of sets in the table */
+            if (p->nid == NID_undef
+                && param_nid != NID_id_tc26_gost_3410_2012_256_paramSetB
+                && param_nid != NID_id_tc26_gost_3410_2012_256_paramSetC
+                && param_nid != NID_id_tc26_gost_3410_2012_256_paramSetD) {
                 GOSTerr(GOST_F_PKEY_GOST_EC_CTRL_STR_256,
                         GOST_R_INVALID_PARAMSET);
                 return 0;
-- 
2.43.0


From 14df5acf64772a46cbf2ae1bbeda11dfa99f5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 52/87] fix: an unloaded engine's ciphers and digests can no
 longer be found by name

---
 gost_eng.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gost_eng.c b/gost_eng.c
index 7ca5523..b5d385b 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -299,9 +299,37 @@ static int gost_engine_finish(ENGINE* e) {
 
 static void free_NIDs();
 
+# ifndef BUILDING_GOST_PROVIDER
+/* Take back what EVP_add_cipher() and EVP_add_digest() did */
+static void remove_evp_name(const char *name, int type, const void *meth) {
+    if (name != NULL && meth != NULL
+        && (const void *)OBJ_NAME_get(name, type) == meth)
+        OBJ_NAME_remove(name, type);
+}
+
+static void remove_evp_names(void) {
+    int i;
+
+    for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
+        GOST_cipher *c = gost_cipher_array[i];
+        remove_evp_name(OBJ_nid2sn(c->nid), OBJ_NAME_TYPE_CIPHER_METH, c->cipher);
+        remove_evp_name(OBJ_nid2ln(c->nid), OBJ_NAME_TYPE_CIPHER_METH, c->cipher);
+    }
+    for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
+        GOST_digest *d = gost_digest_array[i];
+        remove_evp_name(OBJ_nid2sn(d->nid), OBJ_NAME_TYPE_MD_METH, d->digest);
+        remove_evp_name(OBJ_nid2ln(d->nid), OBJ_NAME_TYPE_MD_METH, d->digest);
+    }
+}
+# endif
+
 static int gost_engine_destroy(ENGINE* e) {
     int i;
 
+# ifndef BUILDING_GOST_PROVIDER
+    /* The methods are about to be freed: nobody may find them by name */
+    remove_evp_names();
+# endif
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++)
         GOST_deinit_digest(gost_digest_array[i]);
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++)
-- 
2.43.0


From f8de6b509bd3870d4cc70d3f433e57085c149b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 53/87] fix: threads using a parameter set for the first time
 or under two names get each other's group

fill_GOST_EC_params renamed the group shared by the whole process when a
set was asked for by another of its names (id-GostR3410-2001-CryptoPro-A
and id-tc26-gost-3410-2012-256-paramSetB), so that a key another thread
was making could get the wrong one, and two first uses at once made the
group twice. The cached group is now made under a lock and never changed
afterwards.
---
 gost_ctl.c     | 30 +++++++++++++++++
 gost_ec_sign.c | 88 ++++++++++++++++++++++++++++++++------------------
 gost_eng.c     |  5 +++
 gost_lcl.h     |  6 ++++
 4 files changed, 97 insertions(+), 32 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 60280b1..8ae6349 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -15,9 +15,39 @@
 #include "gost_lcl.h"
 
 static char *gost_params[GOST_PARAM_MAX + 1] = { NULL };
+/*
+ * Protects what is computed at its first use and shared by all threads from
+ * then on.  It exists while the engine is loaded; whoever uses the core without
+ * the engine has to do without threads.
+ */
+static CRYPTO_RWLOCK *gost_lock = NULL;
 static const char *gost_envnames[] =
     { "CRYPT_PARAMS", "GOST_PBE_HMAC", "GOST_PK_FORMAT" };
 
+int gost_lock_new(void)
+{
+    if (gost_lock == NULL)
+        gost_lock = CRYPTO_THREAD_lock_new();
+    return gost_lock != NULL;
+}
+
+void gost_lock_free(void)
+{
+    CRYPTO_THREAD_lock_free(gost_lock);
+    gost_lock = NULL;
+}
+
+int gost_lock_take(void)
+{
+    return gost_lock == NULL || CRYPTO_THREAD_write_lock(gost_lock);
+}
+
+void gost_lock_release(void)
+{
+    if (gost_lock != NULL)
+        CRYPTO_THREAD_unlock(gost_lock);
+}
+
 void gost_param_free()
 {
     int i;
diff --git a/gost_ec_sign.c b/gost_ec_sign.c
index f0882af..29210a6 100644
--- a/gost_ec_sign.c
+++ b/gost_ec_sign.c
@@ -80,40 +80,19 @@ void free_cached_groups()
 }
 
 /*
- * Fills EC_KEY structure hidden in the app_data field of DSA structure
- * with parameter information, extracted from parameter array in
- * params.c file.
- *
- * Also fils DSA->q field with copy of EC_GROUP order field to make
- * DSA_size function work
+ * Creates the group of a parameter set, named as in the table
  */
-int fill_GOST_EC_params(EC_KEY *eckey, int nid)
+static EC_GROUP *new_group(const R3410_ec_params *params)
 {
-    R3410_ec_params *params = gost_nid2params(nid);
-    EC_GROUP *grp = NULL;
+    EC_GROUP *grp = NULL, *ret = NULL;
     EC_POINT *P = NULL;
     BIGNUM *p = NULL, *q = NULL, *a = NULL, *b = NULL, *x = NULL, *y =
         NULL, *cofactor = NULL;
     BN_CTX *ctx = NULL;
-    int ok = 0;
-
-    if (!eckey || !params) {
-        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, GOST_R_UNSUPPORTED_PARAMETER_SET);
-        return 0;
-    }
-
-    if (params->group) {
-        EC_GROUP_set_curve_name(params->group, nid);
-        if (!EC_KEY_set_group(eckey, params->group)) {
-            GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
-            goto end;
-        }
-        return 1;
-    }
 
     if (!(ctx = BN_CTX_new())) {
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_MALLOC_FAILURE);
-        return 0;
+        return NULL;
     }
 
     BN_CTX_start(ctx);
@@ -161,17 +140,62 @@ int fill_GOST_EC_params(EC_KEY *eckey, int nid)
         GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
         goto end;
     }
-    EC_GROUP_set_curve_name(grp, nid);
-    params->group = grp;
-    if (!EC_KEY_set_group(eckey, grp)) {
-        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
-        goto end;
-    }
-    ok = 1;
+    EC_GROUP_set_curve_name(grp, params->nid);
+    ret = grp;
+    grp = NULL;
  end:
+    EC_GROUP_free(grp);
     EC_POINT_free(P);
     BN_CTX_end(ctx);
     BN_CTX_free(ctx);
+    return ret;
+}
+
+/*
+ * Fills EC_KEY structure hidden in the app_data field of DSA structure
+ * with parameter information, extracted from parameter array in
+ * params.c file.
+ *
+ * Also fils DSA->q field with copy of EC_GROUP order field to make
+ * DSA_size function work
+ *
+ * The cached group is shared by all threads: once it is in the table it is not
+ * changed any more, and a parameter set of another name gets a copy.
+ */
+int fill_GOST_EC_params(EC_KEY *eckey, int nid)
+{
+    R3410_ec_params *params = gost_nid2params(nid);
+    EC_GROUP *grp = NULL, *copy = NULL;
+    int ok = 0;
+
+    if (!eckey || !params) {
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, GOST_R_UNSUPPORTED_PARAMETER_SET);
+        return 0;
+    }
+
+    if (!gost_lock_take()) {
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
+        return 0;
+    }
+    if (params->group == NULL)
+        params->group = new_group(params);
+    grp = params->group;
+    gost_lock_release();
+    if (grp == NULL)
+        return 0;
+
+    if (nid != params->nid) {
+        grp = copy = EC_GROUP_dup(grp);
+        if (grp == NULL) {
+            GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_MALLOC_FAILURE);
+            return 0;
+        }
+        EC_GROUP_set_curve_name(grp, nid);
+    }
+    ok = EC_KEY_set_group(eckey, grp);
+    if (!ok)
+        GOSTerr(GOST_F_FILL_GOST_EC_PARAMS, ERR_R_INTERNAL_ERROR);
+    EC_GROUP_free(copy);
     return ok;
 }
 
diff --git a/gost_eng.c b/gost_eng.c
index b5d385b..203aab0 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -345,6 +345,7 @@ static int gost_engine_destroy(ENGINE* e) {
 
     free_cached_groups();
     free_NIDs();
+    gost_lock_free();
 
 # ifndef BUILDING_GOST_PROVIDER
     ERR_unload_GOST_strings();
@@ -403,6 +404,10 @@ int populate_gost_engine(ENGINE* e) {
         fprintf(stderr, "ENGINE_set_name failed\n");
         goto end;
     }
+    if (!gost_lock_new()) {
+        fprintf(stderr, "lock creation failed\n");
+        goto end;
+    }
     if (!create_NIDs()) {
         fprintf(stderr, "NID creation failed\n");
         goto end;
diff --git a/gost_lcl.h b/gost_lcl.h
index 45c7cb2..f8af2a1 100644
--- a/gost_lcl.h
+++ b/gost_lcl.h
@@ -52,6 +52,12 @@ const char *get_gost_engine_param(int param);
 int gost_set_default_param(int param, const char *value);
 void gost_param_free(void);
 
+/* The lock over the values computed at first use */
+int gost_lock_new(void);
+void gost_lock_free(void);
+int gost_lock_take(void);
+void gost_lock_release(void);
+
 /* method registration */
 
 /* Provider implementation data */
-- 
2.43.0


From 78e7a1b6fb5328cc47ea42f45e585ced09e888fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 54/87] fix: two threads looking up a setting for the first
 time could use freed memory

Each found the setting unset, and the second one freed the string the
first had stored and returned.
---
 gost_ctl.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/gost_ctl.c b/gost_ctl.c
index 8ae6349..70eac31 100644
--- a/gost_ctl.c
+++ b/gost_ctl.c
@@ -73,18 +73,19 @@ int gost_control_func(ENGINE *e, int cmd, long i, void *p, void (*f) (void))
 const char *get_gost_engine_param(int param)
 {
     char *tmp;
+    const char *ret;
     if (param < 0 || param >= GOST_PARAM_MAX)
         return NULL;
-    if (gost_params[param] != NULL) {
-        return gost_params[param];
-    }
-    tmp = getenv(gost_envnames[param]);
-    if (tmp) {
-        OPENSSL_free(gost_params[param]);
-        gost_params[param] = BUF_strdup(tmp);
-        return gost_params[param];
+    if (!gost_lock_take())
+        return NULL;
+    if (gost_params[param] == NULL) {
+        tmp = getenv(gost_envnames[param]);
+        if (tmp)
+            gost_params[param] = BUF_strdup(tmp);
     }
-    return NULL;
+    ret = gost_params[param];
+    gost_lock_release();
+    return ret;
 }
 
 int gost_set_default_param(int param, const char *value)
@@ -100,8 +101,11 @@ int gost_set_default_param(int param, const char *value)
     if (!tmp) {
         tmp = value;
     }
+    if (!gost_lock_take())
+        return 0;
     OPENSSL_free(gost_params[param]);
     gost_params[param] = BUF_strdup(tmp);
+    gost_lock_release();
 
     return 1;
 }
-- 
2.43.0


From f269744809409af5ab7ea87557b936128537b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:06 +0000
Subject: [PATCH 55/87] fix: gostsum -c stops at the first line it cannot use
 and succeeds

The files listed after such a line were not checked and the exit status
was 0. A line that ends after the hash value crashed the program and one
without a file name made it read before the buffer. Such lines are counted
as files that cannot be processed now.
---
 gostsum.c | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/gostsum.c b/gostsum.c
index b61215c..e1ad3db 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -27,6 +27,8 @@ typedef SSIZE_T ssize_t;
 #include <string.h>
 #include "gosthash.h"
 #define BUF_SIZE 262144
+/* a hash value, a space, a file name and the end of the line */
+#define LINE_SIZE (64 + 1 + PATH_MAX + 2)
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode);
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum);
 int get_line(FILE *f, char *hash, char *filename);
@@ -85,8 +87,8 @@ int main(int argc, char **argv)
     }
     init_gost_hash_ctx(&ctx, b);
     if (check_file) {
-        char inhash[65], calcsum[65], filename[PATH_MAX];
-        int failcount = 0, count = 0;
+        char inhash[65], calcsum[65], filename[LINE_SIZE];
+        int failcount = 0, count = 0, res;
         errors = 0;
         if (check_file == stdin && optind < argc) {
             check_file = fopen(argv[optind], "r");
@@ -95,8 +97,12 @@ int main(int argc, char **argv)
                 exit(2);
             }
         }
-        while (get_line(check_file, inhash, filename)) {
+        while ((res = get_line(check_file, inhash, filename)) != 0) {
             count++;
+            if (res < 0) {
+                errors++;
+                continue;
+            }
             if (!hash_file(&ctx, filename, calcsum, open_mode)) {
                 errors++;
                 continue;
@@ -189,25 +195,37 @@ int hash_stream(gost_hash_ctx * ctx, int fd, char *sum)
     return 1;
 }
 
+/*
+ * Reads the next line of the list: 1 if it has a hash value and a file name,
+ * -1 if it cannot be used, 0 if there is none. Empty lines are skipped.
+ */
 int get_line(FILE *f, char *hash, char *filename)
 {
-    int i;
-    if (fread(hash, 1, 64, f) < 64)
-        return 0;
-    hash[64] = 0;
-    for (i = 0; i < 64; i++) {
-        if (hash[i] < '0' || (hash[i] > '9' && hash[i] < 'A')
-            || (hash[i] > 'F' && hash[i] < 'a') || hash[i] > 'f') {
-            fprintf(stderr, "Not a hash value '%s'\n", hash);
+    char line[LINE_SIZE];
+    int i, len;
+
+    do {
+        if (!fgets(line, sizeof(line), f))
             return 0;
+        len = strlen(line);
+        while (len > 0 && (line[len - 1] == '\n' || line[len - 1] == '\r'))
+            line[--len] = 0;
+    } while (len == 0);
+
+    for (i = 0; i < 64; i++) {
+        if (line[i] < '0' || (line[i] > '9' && line[i] < 'A')
+            || (line[i] > 'F' && line[i] < 'a') || line[i] > 'f') {
+            line[64] = 0;
+            fprintf(stderr, "Not a hash value '%s'\n", line);
+            return -1;
         }
+        hash[i] = line[i];
     }
-    if (fgetc(f) != ' ') {
+    hash[64] = 0;
+    if (line[64] != ' ' || line[65] == 0) {
         fprintf(stderr, "Malformed input line\n");
-        return 0;
+        return -1;
     }
-    i = strlen(fgets(filename, PATH_MAX, f));
-    while (filename[--i] == '\n' || filename[i] == '\r')
-        filename[i] = 0;
+    memcpy(filename, line + 65, len - 65 + 1);
     return 1;
 }
-- 
2.43.0


From 69d105173abe754a274bbb4371b17767e9553896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 56/87] fix: gostsum and gost12sum -c fail on digests in upper
 case

The list may have them, but they were compared as text with the lower
case ones calculated.
---
 gost12sum.c | 3 ++-
 gostsum.c   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index e644a61..9627489 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -284,7 +284,8 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
             *size = 0;
             memset(hash, 0, MAX_HASH_TXT_BYTES + 1);
         } else {
-            memcpy(hash, ptr, *size);
+            for (i = 0; i < *size; i++)
+                hash[i] = ptr[i] >= 'A' && ptr[i] <= 'F' ? ptr[i] - 'A' + 'a' : ptr[i];
             hash[*size] = 0;
         }
         memmove(filename, spacepos + 1, strlen(spacepos));
diff --git a/gostsum.c b/gostsum.c
index e1ad3db..aa9e9dc 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -219,7 +219,7 @@ int get_line(FILE *f, char *hash, char *filename)
             fprintf(stderr, "Not a hash value '%s'\n", line);
             return -1;
         }
-        hash[i] = line[i];
+        hash[i] = line[i] >= 'A' && line[i] <= 'F' ? line[i] - 'A' + 'a' : line[i];
     }
     hash[64] = 0;
     if (line[64] != ' ' || line[65] == 0) {
-- 
2.43.0


From 697fdd21900ab77b4c9cbe4d096510a7cb1d69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 57/87] fix: gost12sum splits lines with long file names and
 reads before empty ones

The line of a file whose name is near PATH_MAX did not fit into the buffer
with its hash value, so that -c took it for two lines and skipped both.
Removing the end of an empty line looked before the start of the buffer.
---
 gost12sum.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index 9627489..be662b3 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -29,6 +29,8 @@ typedef SSIZE_T ssize_t;
 #include "gosthash2012.h"
 #define BUF_SIZE 262144
 #define MAX_HASH_TXT_BYTES 128
+/* a hash value, a space, a file name and the end of the line */
+#define LINE_SIZE (MAX_HASH_TXT_BYTES + 1 + PATH_MAX + 2)
 #define gost_hash_ctx gost2012_hash_ctx
 
 typedef unsigned char byte;
@@ -118,7 +120,7 @@ int main(int argc, char **argv)
 
     if (check_file) {
         char inhash[MAX_HASH_TXT_BYTES + 1], calcsum[MAX_HASH_TXT_BYTES + 1],
-            filename[PATH_MAX];
+            filename[LINE_SIZE];
         int failcount = 0, count = 0;
         int expected_hash_size = 0;
         if (check_file == stdin && optind < argc) {
@@ -175,14 +177,15 @@ int main(int argc, char **argv)
         exit((failcount || errors) ? 1 : 0);
     } else if (filenames_from_stdin) {
         char sum[MAX_HASH_TXT_BYTES + 1];
-        char filename[PATH_MAX + 1], *end;
+        char filename[LINE_SIZE];
+        size_t len;
         while (!feof(stdin)) {
-            if (!fgets(filename, PATH_MAX, stdin))
+            if (!fgets(filename, sizeof(filename), stdin))
                 break;
-            for (end = filename; *end; end++) ;
-            end--;
-            for (; *end == '\n' || *end == '\r'; end--)
-                *end = 0;
+            len = strlen(filename);
+            while (len > 0
+                   && (filename[len - 1] == '\n' || filename[len - 1] == '\r'))
+                filename[--len] = 0;
             if (!hash_file(&ctx, filename, sum, open_mode, hashsize)) {
                 errors++;
             } else {
@@ -254,15 +257,15 @@ int get_line(FILE *f, char *hash, char *filename, int verbose, int *size)
     char *spacepos = NULL;
 
     while (!feof(f)) {
-        if (!fgets(filename, PATH_MAX, f))
+        if (!fgets(filename, LINE_SIZE, f))
             return 0;
         ptr = filename;
         while (*ptr == ' ')
             ptr++;
 
         len = strlen(ptr);
-        while (ptr[--len] == '\n' || ptr[len] == '\r')
-            ptr[len] = 0;
+        while (len > 0 && (ptr[len - 1] == '\n' || ptr[len - 1] == '\r'))
+            ptr[--len] = 0;
 
         if (len == 0)
             goto nextline;
-- 
2.43.0


From 38cadca6434c0850a9411409d8bad4ab45d880dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 58/87] fix: gostsum and gost12sum -c succeed if the list
 cannot be read or lists nothing

As with md5sum, a directory, a read error, or a file without a single
usable line is no successful check.
---
 gost12sum.c | 5 +++++
 gostsum.c   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gost12sum.c b/gost12sum.c
index be662b3..0583cb7 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -163,6 +163,11 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file) || count == 0) {
+            fprintf(stderr, "%s: no hash values to check could be read\n",
+                    argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
diff --git a/gostsum.c b/gostsum.c
index aa9e9dc..00c81b7 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -122,6 +122,11 @@ int main(int argc, char **argv)
                 failcount++;
             }
         }
+        if (ferror(check_file) || count == 0) {
+            fprintf(stderr, "%s: no hash values to check could be read\n",
+                    argv[0]);
+            exit(1);
+        }
         if (errors) {
             fprintf(stderr,
                     "%s: WARNING %d of %d file(s) cannot be processed\n",
-- 
2.43.0


From 19f34e41798b66cd4ad67da260c8943bd4d7952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:07 +0000
Subject: [PATCH 59/87] fix: gostsum and gost12sum succeed if the digests
 cannot be written

---
 gost12sum.c | 15 ++++++++++++++-
 gostsum.c   | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/gost12sum.c b/gost12sum.c
index 0583cb7..ed65f14 100644
--- a/gost12sum.c
+++ b/gost12sum.c
@@ -39,6 +39,7 @@ int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode,
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum, int hashsize);
 int get_line(FILE *f, char *hash, char *filename, int verbose, int *size);
 
+int close_stdout(void);
 void help()
 {
     fprintf(stderr, "Calculates GOST R 34.11-2012 hash function\n\n");
@@ -205,7 +206,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(close_stdout());
     } else {
         for (i = optind; i < argc; i++) {
             char sum[MAX_HASH_TXT_BYTES + 1];
@@ -216,9 +217,21 @@ int main(int argc, char **argv)
             }
         }
     }
+    if (close_stdout())
+        errors++;
     exit(errors ? 1 : 0);
 }
 
+/* Has everything been written? */
+int close_stdout(void)
+{
+    if (ferror(stdout) || fclose(stdout)) {
+        perror("stdout");
+        return 1;
+    }
+    return 0;
+}
+
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode,
               int hashsize)
 {
diff --git a/gostsum.c b/gostsum.c
index 00c81b7..86f87fd 100644
--- a/gostsum.c
+++ b/gostsum.c
@@ -32,6 +32,7 @@ typedef SSIZE_T ssize_t;
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode);
 int hash_stream(gost_hash_ctx * ctx, int fd, char *sum);
 int get_line(FILE *f, char *hash, char *filename);
+int close_stdout(void);
 void help()
 {
     fprintf(stderr, "gostsum [-bvt] [-c [file]]| [files]\n"
@@ -152,7 +153,7 @@ int main(int argc, char **argv)
             exit(1);
         }
         printf("%s -\n", sum);
-        exit(0);
+        exit(close_stdout());
     }
     for (i = optind; i < argc; i++) {
         char sum[65];
@@ -162,9 +163,21 @@ int main(int argc, char **argv)
             printf("%s %s\n", sum, argv[i]);
         }
     }
+    if (close_stdout())
+        errors++;
     exit(errors ? 1 : 0);
 }
 
+/* Has everything been written? */
+int close_stdout(void)
+{
+    if (ferror(stdout) || fclose(stdout)) {
+        perror("stdout");
+        return 1;
+    }
+    return 0;
+}
+
 int hash_file(gost_hash_ctx * ctx, char *filename, char *sum, int mode)
 {
     int fd;
-- 
2.43.0


From 8d5b4d0e8aa207ca82eb70b6aefa4ecb05afaf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:14 +0000
Subject: [PATCH 60/87] fix: provided ciphers return bytes of a pointer as
 their alg_id_param

---
 gost_prov_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index ce9665e..04f75ca 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -127,7 +127,7 @@ static int cipher_get_ctx_params(void *vgctx, OSSL_PARAM params[])
         ret = (algidparam = ASN1_TYPE_new()) != NULL
             && EVP_CIPHER_param_to_asn1(gctx->cctx, algidparam) > 0
             && (derlen = i2d_ASN1_TYPE(algidparam, &der)) >= 0
-            && OSSL_PARAM_set_octet_string(p, &der, (size_t)derlen);
+            && OSSL_PARAM_set_octet_string(p, der, (size_t)derlen);
 
         OPENSSL_free(der);
         ASN1_TYPE_free(algidparam);
-- 
2.43.0


From d844ea69a470727b80e13ed28d2a6bd90e9851a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:33 +0000
Subject: [PATCH 61/87] fix: provided ciphers do not offer their
 AlgorithmIdentifier parameters to libcrypto

---
 gost_prov_cipher.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 04f75ca..2056ef8 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -23,6 +23,8 @@ static OSSL_FUNC_cipher_dupctx_fn cipher_dupctx;
 static OSSL_FUNC_cipher_freectx_fn cipher_freectx;
 static OSSL_FUNC_cipher_get_ctx_params_fn cipher_get_ctx_params;
 static OSSL_FUNC_cipher_set_ctx_params_fn cipher_set_ctx_params;
+static OSSL_FUNC_cipher_gettable_ctx_params_fn cipher_gettable_ctx_params;
+static OSSL_FUNC_cipher_settable_ctx_params_fn cipher_settable_ctx_params;
 static OSSL_FUNC_cipher_encrypt_init_fn cipher_encrypt_init;
 static OSSL_FUNC_cipher_decrypt_init_fn cipher_decrypt_init;
 static OSSL_FUNC_cipher_update_fn cipher_update;
@@ -207,6 +209,39 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
     return 1;
 }
 
+static const OSSL_PARAM *cipher_gettable_ctx_params(void *vgctx, void *provctx)
+{
+    /*
+     * Libcrypto only asks ciphers that list "alg_id_param" here for their
+     * AlgorithmIdentifier parameters; for others, it handles those itself.
+     */
+    static const OSSL_PARAM params[] = {
+        OSSL_PARAM_size_t("blocksize", NULL),
+        OSSL_PARAM_size_t("ivlen", NULL),
+        OSSL_PARAM_size_t("keylen", NULL),
+        OSSL_PARAM_octet_string("alg_id_param", NULL, 0),
+        OSSL_PARAM_octet_string("updated-iv", NULL, 0),
+        OSSL_PARAM_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, NULL, 0),
+        OSSL_PARAM_END
+    };
+
+    return params;
+}
+
+static const OSSL_PARAM *cipher_settable_ctx_params(void *vgctx, void *provctx)
+{
+    static const OSSL_PARAM params[] = {
+        OSSL_PARAM_octet_string("alg_id_param", NULL, 0),
+        OSSL_PARAM_uint("padding", NULL),
+        OSSL_PARAM_size_t("key-mesh", NULL),
+        OSSL_PARAM_size_t(OSSL_CIPHER_PARAM_IVLEN, NULL),
+        OSSL_PARAM_octet_string(OSSL_CIPHER_PARAM_AEAD_TAG, NULL, 0),
+        OSSL_PARAM_END
+    };
+
+    return params;
+}
+
 static int cipher_encrypt_init(void *vgctx,
                                const unsigned char *key, size_t keylen,
                                const unsigned char *iv, size_t ivlen,
@@ -304,6 +339,10 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_CIPHER_FREECTX, (fptr_t)cipher_freectx },           \
         { OSSL_FUNC_CIPHER_GET_CTX_PARAMS, (fptr_t)cipher_get_ctx_params }, \
         { OSSL_FUNC_CIPHER_SET_CTX_PARAMS, (fptr_t)cipher_set_ctx_params }, \
+        { OSSL_FUNC_CIPHER_GETTABLE_CTX_PARAMS,                         \
+          (fptr_t)cipher_gettable_ctx_params },                         \
+        { OSSL_FUNC_CIPHER_SETTABLE_CTX_PARAMS,                         \
+          (fptr_t)cipher_settable_ctx_params },                         \
         { OSSL_FUNC_CIPHER_ENCRYPT_INIT, (fptr_t)cipher_encrypt_init }, \
         { OSSL_FUNC_CIPHER_DECRYPT_INIT, (fptr_t)cipher_decrypt_init }, \
         { OSSL_FUNC_CIPHER_UPDATE, (fptr_t)cipher_update },             \
-- 
2.43.0


From 5cc0afab9788a06ac561353ae887a84833a48fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 62/87] fix: provided ciphers refuse parameters given when they
 are first initialised

---
 gost_prov_cipher.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 2056ef8..85c20fd 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -249,13 +249,13 @@ static int cipher_encrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 1);
+                             key, iv, 1) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_decrypt_init(void *vgctx,
@@ -265,12 +265,12 @@ static int cipher_decrypt_init(void *vgctx,
 {
     GOST_CTX *gctx = vgctx;
 
-    if (!cipher_set_ctx_params(vgctx, params)
-        || keylen > EVP_CIPHER_key_length(gctx->cipher)
+    if (keylen > EVP_CIPHER_key_length(gctx->cipher)
         || ivlen > EVP_CIPHER_iv_length(gctx->cipher))
         return 0;
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
-                             key, iv, 0) > 0;
+                             key, iv, 0) > 0
+        && cipher_set_ctx_params(vgctx, params);
 }
 
 static int cipher_update(void *vgctx,
-- 
2.43.0


From 9268d8f96bd10210b26b2062417dc0ad27910d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 63/87] fix: dispatch tables of provided digests and MACs have
 no end

---
 gost_prov_digest.c | 1 +
 gost_prov_mac.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index 79eb5a3..bd2228b 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -160,6 +160,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_DIGEST_INIT, (fptr_t)digest_init },                 \
         { OSSL_FUNC_DIGEST_UPDATE, (fptr_t)digest_update },             \
         { OSSL_FUNC_DIGEST_FINAL, (fptr_t)digest_final },               \
+        { 0, NULL },                                                    \
     }
 
 MAKE_FUNCTIONS(GostR3411_94_digest);
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index ab04a9c..b66d0d3 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -320,6 +320,7 @@ typedef void (*fptr_t)(void);
         { OSSL_FUNC_MAC_SETTABLE_CTX_PARAMS,                            \
           (fptr_t)mac_settable_ctx_params },                            \
         { OSSL_FUNC_MAC_SET_CTX_PARAMS, (fptr_t)mac_set_ctx_params },   \
+        { 0, NULL },                                                    \
     }
 
 /*
-- 
2.43.0


From e24786ac23fc370612378fc42f9f0f8a000b2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 64/87] fix: a copy of a provided MAC context forgets the MAC
 size

---
 gost_prov_mac.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index b66d0d3..e072d70 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -103,8 +103,14 @@ static void *mac_dupctx(void *vsrc)
     GOST_CTX *dst =
         mac_newctx(src->provctx, src->descriptor);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL) {
+        dst->mac_size = src->mac_size;
+        dst->xof_mode = src->xof_mode;
+        if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+            mac_freectx(dst);
+            dst = NULL;
+        }
+    }
     return dst;
 }
 
-- 
2.43.0


From 1a84dfbb2baa79132afb2580894b43ae9021f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 65/87] fix: provided MACs take a key of no bytes for an
 internal structure

---
 gost_prov_mac.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index e072d70..7a1cbfe 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -10,6 +10,7 @@
 
 #include <openssl/core.h>
 #include <openssl/core_dispatch.h>
+#include <limits.h>
 #include "gost_prov.h"
 #include "gost_lcl.h"
 
@@ -114,15 +115,22 @@ static void *mac_dupctx(void *vsrc)
     return dst;
 }
 
+static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
+{
+    /* Without a length, the control takes a struct gost_mac_key instead */
+    if (keylen == 0 || keylen > INT_MAX)
+        return 0;
+    return EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                           (int)keylen, (void *)key);
+}
+
 static int mac_init(void *mctx, const unsigned char *key,
                     size_t keylen, const OSSL_PARAM params[])
 {
     GOST_CTX *gctx = mctx;
 
     return mac_set_ctx_params(gctx, params)
-        && (key == NULL
-            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                               (int)keylen, (void *)key) > 0);
+        && (key == NULL || mac_set_key(gctx, key, keylen) > 0);
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
@@ -245,8 +253,7 @@ static int mac_set_ctx_params(void *mctx, const OSSL_PARAM params[])
         if (!OSSL_PARAM_get_octet_string_ptr(p, (const void **)&key, &keylen))
             return 0;
 
-        ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                              (int)keylen, (void *)key);
+        ret = mac_set_key(gctx, key, keylen);
         if (ret <= 0 && ret != -2)
             return 0;
     }
-- 
2.43.0


From 456dc98306044cbf4654d384039ac64ddb26c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 66/87] fix: provided MACs refuse or lose parameters that are
 given together with the key

---
 gost_prov_mac.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 7a1cbfe..3f85ff0 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -129,8 +129,9 @@ static int mac_init(void *mctx, const unsigned char *key,
 {
     GOST_CTX *gctx = mctx;
 
-    return mac_set_ctx_params(gctx, params)
-        && (key == NULL || mac_set_key(gctx, key, keylen) > 0);
+    /* Some parameters can only be set once there is a key */
+    return (key == NULL || mac_set_key(gctx, key, keylen) > 0)
+        && mac_set_ctx_params(gctx, params);
 }
 
 static int mac_update(void *mctx, const unsigned char *in, size_t inl)
-- 
2.43.0


From ba3f2af7f05c863925d34159a78c43793cadce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 67/87] fix: provided MACs return more bytes than they have if
 they are asked for an impossible size

---
 gost_prov_mac.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 3f85ff0..39ecb28 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -157,9 +157,10 @@ static int mac_final(void *mctx, unsigned char *out, size_t *outl,
     tmpoutl = *outl;
 
     if (out != NULL) {
-        /* We ignore the error for GOST MDs that don't support setting
-           the size */
-        EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN, gctx->mac_size, NULL);
+        if (gctx->mac_size > INT_MAX
+            || EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_XOF_LEN,
+                               (int)gctx->mac_size, NULL) <= 0)
+            return 0;
         ret = EVP_DigestFinal_ex(gctx->dctx, out, &tmpoutl);
     }
     if (outl != NULL)
-- 
2.43.0


From 01c5c62353d01bd3f50d7be5c19c5ccc7ab50dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:49 +0000
Subject: [PATCH 68/87] fix: provided MACs cannot start again with the same key

---
 gost_prov_mac.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 39ecb28..da7a430 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -11,6 +11,7 @@
 #include <openssl/core.h>
 #include <openssl/core_dispatch.h>
 #include <limits.h>
+#include <string.h>
 #include "gost_prov.h"
 #include "gost_lcl.h"
 
@@ -48,6 +49,10 @@ struct gost_prov_mac_ctx_st {
     /* XOF mode, where applicable */
     int xof_mode;
 
+    /* The key, for starting again with the same one */
+    unsigned char key[32];
+    size_t keylen;
+
     /*
      * Since existing functionality is mainly designed as EVP_MDs for
      * ENGINEs, the functions in this file are accomodated and are simply
@@ -73,7 +78,7 @@ static void mac_freectx(void *vgctx)
      * GOST_prov_deinit_digests() (defined at the bottom of this file).
      */
     EVP_MD_CTX_free(gctx->dctx);
-    OPENSSL_free(gctx);
+    OPENSSL_clear_free(gctx, sizeof(*gctx));
 }
 
 static GOST_CTX *mac_newctx(void *provctx, const GOST_DESC *descriptor)
@@ -107,6 +112,8 @@ static void *mac_dupctx(void *vsrc)
     if (dst != NULL) {
         dst->mac_size = src->mac_size;
         dst->xof_mode = src->xof_mode;
+        memcpy(dst->key, src->key, src->keylen);
+        dst->keylen = src->keylen;
         if (EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
             mac_freectx(dst);
             dst = NULL;
@@ -117,11 +124,18 @@ static void *mac_dupctx(void *vsrc)
 
 static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
 {
+    int ret;
+
     /* Without a length, the control takes a struct gost_mac_key instead */
-    if (keylen == 0 || keylen > INT_MAX)
+    if (keylen == 0 || keylen > sizeof(gctx->key))
         return 0;
-    return EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
-                           (int)keylen, (void *)key);
+    ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
+                          (int)keylen, (void *)key);
+    if (ret > 0) {
+        memmove(gctx->key, key, keylen);
+        gctx->keylen = keylen;
+    }
+    return ret;
 }
 
 static int mac_init(void *mctx, const unsigned char *key,
@@ -129,6 +143,11 @@ static int mac_init(void *mctx, const unsigned char *key,
 {
     GOST_CTX *gctx = mctx;
 
+    /* Without a key, start again with the one of the last time */
+    if (key == NULL && gctx->keylen != 0) {
+        key = gctx->key;
+        keylen = gctx->keylen;
+    }
     /* Some parameters can only be set once there is a key */
     return (key == NULL || mac_set_key(gctx, key, keylen) > 0)
         && mac_set_ctx_params(gctx, params);
-- 
2.43.0


From 0a56468fea711f9d234d97a534f33a3894ce7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 69/87] fix: unloading the provider from one library context
 breaks it in the others

---
 gost_prov.c | 72 +++++++++++++++++++++++++++++++++++++++++++++--------
 gost_prov.h |  3 +++
 2 files changed, 65 insertions(+), 10 deletions(-)

diff --git a/gost_prov.c b/gost_prov.c
index eab5918..6aadc25 100644
--- a/gost_prov.c
+++ b/gost_prov.c
@@ -42,17 +42,75 @@ void ERR_GOST_error(int function, int reason, char *file, int line)
  *
  *****/
 
+/*
+ * All the instances of this provider, which may be loaded in several library
+ * contexts.  They share the methods and the "internal" GOST engine, which
+ * live until the last instance goes.
+ */
+static PROV_CTX *instances;
+static CRYPTO_RWLOCK *instances_lock;
+static CRYPTO_ONCE instances_once = CRYPTO_ONCE_STATIC_INIT;
+
+static void instances_init(void)
+{
+    instances_lock = CRYPTO_THREAD_lock_new();
+}
+
+extern int populate_gost_engine(ENGINE *e);
+static int provider_ctx_link(PROV_CTX *ctx)
+{
+    int ret = 1;
+
+    if (!CRYPTO_THREAD_run_once(&instances_once, instances_init)
+        || !CRYPTO_THREAD_write_lock(instances_lock))
+        return 0;
+    if (instances != NULL) {
+        ctx->e = instances->e;
+    } else if ((ctx->e = ENGINE_new()) == NULL
+               || !populate_gost_engine(ctx->e)) {
+        ENGINE_free(ctx->e);
+        ret = 0;
+    }
+    if (ret) {
+        ctx->next = instances;
+        instances = ctx;
+        /* Ugly hack */
+        err_handle = ctx->proverr_handle;
+    }
+    CRYPTO_THREAD_unlock(instances_lock);
+    return ret;
+}
+
+static void provider_ctx_unlink(PROV_CTX *ctx)
+{
+    PROV_CTX **p = &instances;
+
+    if (!CRYPTO_THREAD_write_lock(instances_lock))
+        return;
+    while (*p != ctx)
+        p = &(*p)->next;
+    *p = ctx->next;
+    if (instances == NULL) {
+        GOST_prov_deinit_ciphers();
+        GOST_prov_deinit_digests();
+        GOST_prov_deinit_mac_digests();
+        ENGINE_free(ctx->e);
+        err_handle = NULL;
+    } else {
+        err_handle = instances->proverr_handle;
+    }
+    CRYPTO_THREAD_unlock(instances_lock);
+}
+
 static void provider_ctx_free(PROV_CTX *ctx)
 {
     if (ctx != NULL) {
-        ENGINE_free(ctx->e);
         proverr_free_handle(ctx->proverr_handle);
         OSSL_LIB_CTX_free(ctx->libctx);
     }
     OPENSSL_free(ctx);
 }
 
-extern int populate_gost_engine(ENGINE *e);
 static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
                                   const OSSL_DISPATCH *in)
 {
@@ -61,12 +119,8 @@ static PROV_CTX *provider_ctx_new(const OSSL_CORE_HANDLE *core,
     if ((ctx = OPENSSL_zalloc(sizeof(*ctx))) != NULL
         && (ctx->proverr_handle = proverr_new_handle(core, in)) != NULL
         && (ctx->libctx = OSSL_LIB_CTX_new()) != NULL
-        && (ctx->e = ENGINE_new()) != NULL
-        && populate_gost_engine(ctx->e)) {
+        && provider_ctx_link(ctx)) {
         ctx->core_handle = core;
-
-        /* Ugly hack */
-        err_handle = ctx->proverr_handle;
     } else {
         provider_ctx_free(ctx);
         ctx = NULL;
@@ -123,9 +177,7 @@ static const OSSL_ITEM *gost_get_reason_strings(void *provctx)
 /* The function that tears down this provider */
 static void gost_teardown(void *vprovctx)
 {
-    GOST_prov_deinit_ciphers();
-    GOST_prov_deinit_digests();
-    GOST_prov_deinit_mac_digests();
+    provider_ctx_unlink(vprovctx);
     provider_ctx_free(vprovctx);
 }
 
diff --git a/gost_prov.h b/gost_prov.h
index c7f6e66..5fb54a9 100644
--- a/gost_prov.h
+++ b/gost_prov.h
@@ -23,5 +23,8 @@ struct provider_ctx_st {
      * to do this.
      */
     ENGINE *e;
+
+    /* The next of all the instances of this provider */
+    struct provider_ctx_st *next;
 };
 typedef struct provider_ctx_st PROV_CTX;
-- 
2.43.0


From 3031f37cd82db6211063cc3bbe67e5a49fc20031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:27 +0000
Subject: [PATCH 70/87] fix: provided OMACs do not work outside of the default
 library context

---
 gost_omac.c       | 19 ++++++++++++++-----
 gost_omac_acpkm.c |  4 +---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 114ca74..c094447 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -134,6 +134,18 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
     return 1;
 }
 
+/* The cipher, where it is not known to libcrypto by its name */
+static EVP_CIPHER *omac_cipher(const char *cipher_name)
+{
+    switch (OBJ_txt2nid(cipher_name)) {
+    case NID_magma_cbc:
+        return GOST_init_cipher(&magma_cbc_cipher);
+    case NID_grasshopper_cbc:
+        return GOST_init_cipher(&grasshopper_cbc_cipher);
+    }
+    return NULL;
+}
+
 static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
                     const unsigned char *key, size_t key_size)
 {
@@ -175,8 +187,7 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             if ((cipher =
                  (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
-                && (cipher =
-                    EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
+                && (cipher = omac_cipher(c->cipher_name)) == NULL) {
                 GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
                 goto set_key_end;
             }
@@ -206,7 +217,6 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             GOSTerr(GOST_F_OMAC_IMIT_CTRL, GOST_R_INVALID_MAC_KEY_SIZE);
           set_key_end:
-            EVP_CIPHER_free(cipher);
             if (ret > 0)
                 return ret;
             return 0;
@@ -250,9 +260,8 @@ int omac_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
                                  (const unsigned char *)ptr)) {
                     EVP_CIPHER *cipher;
                     if ((cipher = (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name))
-                        || (cipher = EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)))
+                        || (cipher = omac_cipher(c->cipher_name)))
                         ret = omac_key(c, cipher, diversed_key, 32);
-                    EVP_CIPHER_free(cipher);
                 }
                 return ret;
             }
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 3a09094..92db0e7 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -435,8 +435,7 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             if ((cipher =
                  (EVP_CIPHER *)EVP_get_cipherbyname(c->cipher_name)) == NULL
-                && (cipher =
-                    EVP_CIPHER_fetch(NULL, c->cipher_name, NULL)) == NULL) {
+                && (cipher = GOST_init_cipher(&grasshopper_cbc_cipher)) == NULL) {
                 GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_CIPHER_NOT_FOUND);
             }
             if (EVP_MD_meth_get_init(EVP_MD_CTX_md(ctx)) (ctx) <= 0) {
@@ -458,7 +457,6 @@ int omac_acpkm_imit_ctrl(EVP_MD_CTX *ctx, int type, int arg, void *ptr)
             }
             GOSTerr(GOST_F_OMAC_ACPKM_IMIT_CTRL, GOST_R_INVALID_MAC_KEY_SIZE);
           set_key_end:
-            EVP_CIPHER_free(cipher);
             return ret;
         }
     case EVP_CTRL_KEY_MESH:
-- 
2.43.0


From 9a7a079831efc957329bfc33fc28483f127cf231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 71/87] fix: refuse KDF_TREE outputs whose block numbers do not
 fit in the counter

---
 gost_keyexpimp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gost_keyexpimp.c b/gost_keyexpimp.c
index 71c8a5a..d15f34d 100644
--- a/gost_keyexpimp.c
+++ b/gost_keyexpimp.c
@@ -228,6 +228,14 @@ int gost_kdftree2012_256(unsigned char *keyout, size_t keyout_len,
         HMAC_CTX_free(ctx);
         return 0;
     }
+
+    /* the number of every block must fit in the counter, RFC 7836 4.5 */
+    if (representation < 1 || representation > 4 || keyout_len > UINT32_MAX / 8
+        || (uint64_t)(keyout_len / 32) >> (8 * representation) != 0) {
+        GOSTerr(GOST_F_GOST_KDFTREE2012_256, ERR_R_INTERNAL_ERROR);
+        HMAC_CTX_free(ctx);
+        return 0;
+    }
     iters = keyout_len / 32;
 
     len_ptr = (unsigned char *)&len_repr;
-- 
2.43.0


From 9ae6d7dfb757f2a00973e24dbe2feebd5efeb790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:49 +0000
Subject: [PATCH 72/87] fix: let CMS_encrypt() make enveloped data for GOST
 recipients

ASN1_PKEY_CTRL_CMS_ENVELOPE refused a recipient info without a key
context, which is what CMS_encrypt() makes unless CMS_KEY_PARAM is given.
---
 gost_ameth.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index b07b633..c192fb3 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -494,13 +494,12 @@ static int pkey_ctrl_gost(EVP_PKEY *pkey, int op, long arg1, void *arg2)
           struct gost_pmeth_data *gctx = NULL;
           ASN1_STRING *params = NULL;
 
+          /* There is no context unless the caller wants to set it up */
           pctx = CMS_RecipientInfo_get0_pkey_ctx(ri);
-          if (!pctx)
-            return 0;
-
-          gctx = EVP_PKEY_CTX_get_data(pctx);
+          if (pctx != NULL)
+            gctx = EVP_PKEY_CTX_get_data(pctx);
 
-          switch (gctx->cipher_nid) {
+          switch (gctx != NULL ? gctx->cipher_nid : NID_undef) {
             case NID_magma_ctr:
             case NID_kuznyechik_ctr:
               {
-- 
2.43.0


From 67c19820763efb1cea3914955af3637a41dfe347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:54 +0000
Subject: [PATCH 73/87] fix: CMS key agreement with a missing or short UKM,
 absent parameters or a foreign originator

gost_cms_set_kari_shared_info() read the UKM without looking at its
length and the algorithm's parameters without looking whether there are
any, and gave the originator's key to an X509_PUBKEY that it did not own
and then freed (on an error) or leaked.
---
 gost_ameth.c | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index c192fb3..ad459b9 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -277,7 +277,7 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
 
 	nid = OBJ_obj2nid(alg->algorithm);
-	if (alg->parameter->type != V_ASN1_SEQUENCE)
+	if (alg->parameter == NULL || alg->parameter->type != V_ASN1_SEQUENCE)
 		  goto err;
 
 	switch (nid) {
@@ -292,6 +292,13 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		  goto err;
   }
 
+	/* 24 bytes for the key agreement are followed by the IV of KExp15 */
+	if (ukm == NULL
+		|| ASN1_STRING_length(ukm) < 24 + EVP_CIPHER_iv_length(cipher)) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_UKM_NOT_SET);
+			goto err;
+	}
+
 	if (EVP_PKEY_CTX_ctrl(pctx, -1, -1, EVP_PKEY_CTRL_SET_IV,
 		ASN1_STRING_length(ukm), (void *)ASN1_STRING_get0_data(ukm)) <= 0)
 			goto err;
@@ -300,21 +307,38 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 		const ASN1_OBJECT *paobj = NULL;
 		int ptype = 0;
 		const void *param = NULL;
+		ASN1_OBJECT *obj;
+		ASN1_STRING *pval;
+		unsigned char *penc;
+
+		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
+		if (ptype != V_ASN1_SEQUENCE) {
+			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_BAD_KEY_PARAMETERS_FORMAT);
+			goto err;
+		}
 
 		peer_key = EVP_PKEY_new();
 		tmp = X509_PUBKEY_new();
+		obj = OBJ_dup(paobj);
+		pval = ASN1_STRING_dup(param);
+		penc = OPENSSL_malloc(ASN1_STRING_length(pubkey) + 1);
 
-		if ((peer_key == NULL) || (tmp == NULL)) {
+		if ((peer_key == NULL) || (tmp == NULL) || (obj == NULL)
+			|| (pval == NULL) || (penc == NULL)) {
 			GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, ERR_R_MALLOC_FAILURE);
+			ASN1_OBJECT_free(obj);
+			ASN1_STRING_free(pval);
+			OPENSSL_free(penc);
 			goto err;
 		}
-
-		X509_ALGOR_get0(&paobj, &ptype, &param, pubalg);
-
-		if (X509_PUBKEY_set0_param(tmp, (ASN1_OBJECT *)paobj,
-			ptype, (void *)param,
-			(unsigned char *)ASN1_STRING_get0_data(pubkey),
-			ASN1_STRING_length(pubkey) ) == 0) {
+		memcpy(penc, ASN1_STRING_get0_data(pubkey), ASN1_STRING_length(pubkey));
+
+		/* The X509_PUBKEY owns its parts */
+		if (X509_PUBKEY_set0_param(tmp, obj, ptype, pval, penc,
+			ASN1_STRING_length(pubkey)) == 0) {
+				ASN1_OBJECT_free(obj);
+				ASN1_STRING_free(pval);
+				OPENSSL_free(penc);
 				GOSTerr(GOST_F_GOST_CMS_SET_KARI_SHARED_INFO, GOST_R_PUBLIC_KEY_UNDEFINED);
 				goto err;
 		}
@@ -343,9 +367,7 @@ static int gost_cms_set_kari_shared_info(EVP_PKEY_CTX *pctx, CMS_RecipientInfo *
 	ret = 1;
 err:
 	EVP_PKEY_free(peer_key);
-	if (ret == 0) {
-		X509_PUBKEY_free(tmp);
-	}
+	X509_PUBKEY_free(tmp);
 
 	return ret;
 }
-- 
2.43.0


From 32eff21cf7786b545760a1f3cf3d9261e9bd13e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 74/87] fix: a MAC context that is started again gives back
 what the earlier start made

---
 gost_omac.c       | 1 +
 gost_omac_acpkm.c | 1 +
 gost_prov_mac.c   | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/gost_omac.c b/gost_omac.c
index c094447..ba3872e 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -41,6 +41,7 @@ typedef struct omac_ctx {
 static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_CTX_free(c->cmac_ctx); /* of an earlier start */
     memset(c, 0, sizeof(OMAC_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 92db0e7..709a3f2 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -311,6 +311,7 @@ typedef struct omac_acpkm_ctx {
 static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
 {
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
+    CMAC_ACPKM_CTX_free(c->cmac_ctx); /* of an earlier start */
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
     c->cipher_name = cipher_name;
     c->key_set = 0;
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index da7a430..5fb56e8 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -129,6 +129,8 @@ static int mac_set_key(GOST_CTX *gctx, const unsigned char *key, size_t keylen)
     /* Without a length, the control takes a struct gost_mac_key instead */
     if (keylen == 0 || keylen > sizeof(gctx->key))
         return 0;
+    /* What the key brings must be cleaned up again, also after a final */
+    EVP_MD_CTX_clear_flags(gctx->dctx, EVP_MD_CTX_FLAG_CLEANED);
     ret = EVP_MD_CTX_ctrl(gctx->dctx, EVP_MD_CTRL_SET_KEY,
                           (int)keylen, (void *)key);
     if (ret > 0) {
-- 
2.43.0


From 5bc3f6106e4e87e031cace66d6173eb727592b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:25 +0000
Subject: [PATCH 75/87] fix: give back the object identifier of the CMS MAC
 attribute

---
 gost_gost2015.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/gost_gost2015.c b/gost_gost2015.c
index aac7647..ecf338d 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -134,23 +134,28 @@ int gost2015_process_unprotected_attributes(
     STACK_OF(X509_ATTRIBUTE) *attrs,
     int encryption, size_t mac_len, unsigned char *final_tag)
 {
+    ASN1_OBJECT *oid = OBJ_txt2obj(OID_GOST_CMS_MAC, 1);
+    int ret = -1;
+
+    if (oid == NULL)
+        return -1;
+
     if (encryption == 0) /*Decrypting*/ {
         ASN1_OCTET_STRING *osExpectedMac = X509at_get0_data_by_OBJ(attrs,
-            OBJ_txt2obj(OID_GOST_CMS_MAC, 1), -3, V_ASN1_OCTET_STRING);
+            oid, -3, V_ASN1_OCTET_STRING);
 
-        if (!osExpectedMac || osExpectedMac->length != (int)mac_len)
-            return -1;
-
-        memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
-    } else {
-        if (attrs == NULL)
-            return -1;
-        return (X509at_add1_attr_by_OBJ(&attrs,
-               OBJ_txt2obj(OID_GOST_CMS_MAC, 1),
-               V_ASN1_OCTET_STRING, final_tag,
-               mac_len) == NULL) ? -1 : 1;
+        if (osExpectedMac && osExpectedMac->length == (int)mac_len) {
+            memcpy(final_tag, osExpectedMac->data, osExpectedMac->length);
+            ret = 1;
+        }
+    } else if (attrs != NULL
+               && X509at_add1_attr_by_OBJ(&attrs, oid, V_ASN1_OCTET_STRING,
+                                          final_tag, mac_len) != NULL) {
+        ret = 1;
     }
-    return 1;
+
+    ASN1_OBJECT_free(oid);
+    return ret;
 }
 
 int gost2015_acpkm_omac_init(int nid, int enc, const unsigned char *inkey,
-- 
2.43.0


From 9551c2a10bbcea46239f930fa84fb542fa0651f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:48 +0000
Subject: [PATCH 76/87] fix: provider contexts that could not be made or copied
 are reported, not used

The contexts' free functions are called with NULL when making or duplicating
a context failed, and a copy that failed was handed out as if it had worked.
---
 gost_prov_cipher.c | 11 +++++++++--
 gost_prov_digest.c | 11 +++++++++--
 gost_prov_mac.c    |  2 ++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 85c20fd..956ea76 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -57,6 +57,8 @@ static void cipher_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->cipher here.
      * That will be done by the provider teardown, via
@@ -92,8 +94,11 @@ static void *cipher_dupctx(void *vsrc)
     GOST_CTX *dst =
         cipher_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_CIPHER_CTX_copy(dst->cctx, src->cctx);
+    if (dst != NULL && EVP_CIPHER_CTX_cipher(src->cctx) != NULL
+        && EVP_CIPHER_CTX_copy(dst->cctx, src->cctx) <= 0) {
+        cipher_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
@@ -101,6 +106,8 @@ static int cipher_get_params(EVP_CIPHER *c, OSSL_PARAM params[])
 {
     OSSL_PARAM *p;
 
+    if (c == NULL)
+        return 0;
     if (((p = OSSL_PARAM_locate(params, "blocksize")) != NULL
          && !OSSL_PARAM_set_size_t(p, EVP_CIPHER_block_size(c)))
         || ((p = OSSL_PARAM_locate(params, "ivlen")) != NULL
diff --git a/gost_prov_digest.c b/gost_prov_digest.c
index bd2228b..f7ef82e 100644
--- a/gost_prov_digest.c
+++ b/gost_prov_digest.c
@@ -51,6 +51,8 @@ static void digest_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
@@ -86,8 +88,11 @@ static void *digest_dupctx(void *vsrc)
     GOST_CTX *dst =
         digest_newctx(src->provctx, src->descriptor, src->known_params);
 
-    if (dst != NULL)
-        EVP_MD_CTX_copy(dst->dctx, src->dctx);
+    if (dst != NULL && EVP_MD_CTX_md(src->dctx) != NULL
+        && EVP_MD_CTX_copy(dst->dctx, src->dctx) <= 0) {
+        digest_freectx(dst);
+        dst = NULL;
+    }
     return dst;
 }
 
@@ -95,6 +100,8 @@ static int digest_get_params(EVP_MD *d, OSSL_PARAM params[])
 {
     OSSL_PARAM *p;
 
+    if (d == NULL)
+        return 0;
     if (((p = OSSL_PARAM_locate(params, "blocksize")) != NULL
          && !OSSL_PARAM_set_size_t(p, EVP_MD_block_size(d)))
         || ((p = OSSL_PARAM_locate(params, "size")) != NULL
diff --git a/gost_prov_mac.c b/gost_prov_mac.c
index 5fb56e8..fa7a8d9 100644
--- a/gost_prov_mac.c
+++ b/gost_prov_mac.c
@@ -72,6 +72,8 @@ static void mac_freectx(void *vgctx)
 {
     GOST_CTX *gctx = vgctx;
 
+    if (gctx == NULL)
+        return;
     /*
      * We don't free gctx->digest here.
      * That will be done by the provider teardown, via
-- 
2.43.0


From b1429877cecbcef43dc74919814cba866eb245db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:14 +0000
Subject: [PATCH 77/87] fix: OMAC keys, copies and results that failed are
 errors

omac_key() and omac_acpkm_key() returned success when the CMAC context could
not be set up, the copy used a NULL CMAC context, and a failed final handed
out an uninitialised MAC.
---
 gost_omac.c       | 20 ++++++++++++--------
 gost_omac_acpkm.c | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index ba3872e..74a579c 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -91,7 +91,8 @@ static int omac_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
         return 0;
     }
 
-    CMAC_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
     return 1;
@@ -120,7 +121,12 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     if (c_to->cmac_ctx == c_from->cmac_ctx) {
         c_to->cmac_ctx = CMAC_CTX_new();
     }
-    return CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx);
+    if (c_to->cmac_ctx == NULL
+        || !CMAC_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx)) {
+        c_to->key_set = 0;
+        return 0;
+    }
+    return 1;
 }
 
 /* Clean up imit ctx */
@@ -150,8 +156,7 @@ static EVP_CIPHER *omac_cipher(const char *cipher_name)
 static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
                     const unsigned char *key, size_t key_size)
 {
-    int ret = 0;
-
+    c->key_set = 0;
     CMAC_CTX_free(c->cmac_ctx);
     c->cmac_ctx = CMAC_CTX_new();
     if (c->cmac_ctx == NULL) {
@@ -159,10 +164,9 @@ static int omac_key(OMAC_CTX * c, const EVP_CIPHER *cipher,
         return 0;
     }
 
-    ret = CMAC_Init(c->cmac_ctx, key, key_size, cipher, NULL);
-    if (ret > 0) {
-        c->key_set = 1;
-    }
+    if (CMAC_Init(c->cmac_ctx, key, key_size, cipher, NULL) <= 0)
+        return 0;
+    c->key_set = 1;
     return 1;
 }
 
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 709a3f2..3ef08b7 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -347,17 +347,17 @@ int omac_acpkm_imit_final(EVP_MD_CTX *ctx, unsigned char *md)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
     unsigned char mac[MAX_GOST_OMAC_ACPKM_SIZE];
     size_t mac_size = sizeof(mac);
-    int ret;
 
     if (!c->key_set) {
         GOSTerr(GOST_F_OMAC_ACPKM_IMIT_FINAL, GOST_R_MAC_KEY_NOT_SET);
         return 0;
     }
 
-    ret = CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size);
+    if (!CMAC_ACPKM_Final(c->cmac_ctx, mac, &mac_size))
+        return 0;
 
     memcpy(md, mac, c->dgst_size);
-    return ret;
+    return 1;
 }
 
 static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
@@ -383,7 +383,12 @@ static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
         c_to->cmac_ctx = CMAC_ACPKM_CTX_new();
     }
 
-    return (c_to->cmac_ctx) ? CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx) : 0;
+    if (c_to->cmac_ctx == NULL
+        || !CMAC_ACPKM_CTX_copy(c_to->cmac_ctx, c_from->cmac_ctx)) {
+        c_to->key_set = 0;
+        return 0;
+    }
+    return 1;
 }
 
 /* Clean up imit ctx */
@@ -401,18 +406,15 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
 static int omac_acpkm_key(OMAC_ACPKM_CTX *c, const EVP_CIPHER *cipher,
                           const unsigned char *key, size_t key_size)
 {
-    int ret = 0;
-
     c->cmac_ctx = CMAC_ACPKM_CTX_new();
     if (c->cmac_ctx == NULL) {
         GOSTerr(GOST_F_OMAC_ACPKM_KEY, ERR_R_MALLOC_FAILURE);
         return 0;
     }
 
-    ret = CMAC_ACPKM_Init(c->cmac_ctx, key, key_size, cipher, NULL);
-    if (ret > 0) {
-        c->key_set = 1;
-    }
+    if (CMAC_ACPKM_Init(c->cmac_ctx, key, key_size, cipher, NULL) <= 0)
+        return 0;
+    c->key_set = 1;
     return 1;
 }
 
-- 
2.43.0


From 45a8cb8616d41491326a1c9942c8057b5403f32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 78/87] fix: cipher initialisation without random numbers for
 the seed fails

The init functions returned -1, which libcrypto takes for success: what was
encrypted afterwards had neither the key nor the IV asked for.
---
 gost_crypt.c              | 7 +++----
 gost_grasshopper_cipher.c | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index d2c8fc5..e2908cb 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -505,12 +505,11 @@ static int magma_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
     if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL) {
         if (!gost_cipher_set_param(c, NID_id_tc26_gost_28147_param_Z))
             return 0;
-        EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
-
         if (enc) {
-            if (init_zero_kdf_seed(c->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(c->kdf_seed) <= 0)
+                return 0;
         }
+        EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
 
     if (key) {
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index ff9942c..54673d9 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -240,12 +240,12 @@ static int gost_grasshopper_cipher_init(EVP_CIPHER_CTX *ctx,
     gost_grasshopper_cipher_ctx *c = EVP_CIPHER_CTX_get_cipher_data(ctx);
 
     if (EVP_CIPHER_CTX_get_app_data(ctx) == NULL) {
-        EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
         if (enc && c->type == GRASSHOPPER_CIPHER_CTRACPKM) {
             gost_grasshopper_cipher_ctx_ctr *ctr = EVP_CIPHER_CTX_get_cipher_data(ctx);
-            if (init_zero_kdf_seed(ctr->kdf_seed) == 0)
-                return -1;
+            if (init_zero_kdf_seed(ctr->kdf_seed) <= 0)
+                return 0;
         }
+        EVP_CIPHER_CTX_set_app_data(ctx, EVP_CIPHER_CTX_get_cipher_data(ctx));
     }
 
     if (key != NULL) {
-- 
2.43.0


From 47b052918de2aa5225fd9195942b956b44382f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 79/87] fix: a failing MAC makes the authenticated
 CTR-ACPKM-OMAC modes fail

When the OMAC could not be computed the tag was that of nothing: sealing
went on without authentication, and opening compared against zeros.
---
 gost_crypt.c              | 10 ++++++----
 gost_gost2015.c           |  6 ++++--
 gost_grasshopper_cipher.c | 10 ++++++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e2908cb..ba5847c 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -913,15 +913,17 @@ static int magma_cipher_do_ctr_acpkm_omac(EVP_CIPHER_CTX *ctx, unsigned char *ou
       return -1;
 
 	/* As in and out can be the same pointer, process unencrypted here */
-	if (EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+	if (EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+		return -1;
 
   if (magma_cipher_do_ctr(ctx, out, in, inl) != inl)
       return -1;
 
 	/* As in and out can be the same pointer, process decrypted here */
-	if (!EVP_CIPHER_CTX_encrypting(ctx))
-		EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+	if (!EVP_CIPHER_CTX_encrypting(ctx)
+	    && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+		return -1;
 
 	return inl;
 }
diff --git a/gost_gost2015.c b/gost_gost2015.c
index ecf338d..7f68bef 100644
--- a/gost_gost2015.c
+++ b/gost_gost2015.c
@@ -23,7 +23,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
     memset(calculated_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
 
     if (EVP_CIPHER_CTX_encrypting(ctx)) {
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, encrypted_mac, calculated_mac, mac_size) <= 0) {
             return -1;
@@ -32,7 +33,8 @@ int gost2015_final_call(EVP_CIPHER_CTX *ctx, EVP_MD_CTX *omac_ctx, size_t mac_si
         unsigned char expected_mac[KUZNYECHIK_MAC_MAX_SIZE];
 
         memset(expected_mac, 0, KUZNYECHIK_MAC_MAX_SIZE);
-        EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size);
+        if (EVP_DigestSignFinal(omac_ctx, calculated_mac, &mac_size) <= 0)
+            return -1;
 
         if (do_cipher(ctx, expected_mac, encrypted_mac, mac_size) <= 0) {
             return -1;
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 54673d9..388b1d5 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -747,8 +747,9 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
         return -1;
 
     /* As in and out can be the same pointer, process unencrypted here */
-    if (EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, in, inl);
+    if (EVP_CIPHER_CTX_encrypting(ctx) && in != NULL
+        && EVP_DigestSignUpdate(c->omac_ctx, in, inl) <= 0)
+        return -1;
 
     if (in == NULL && inl == 0) { /* Final call */
         return gost2015_final_call(ctx, c->omac_ctx, KUZNYECHIK_MAC_MAX_SIZE, c->tag, gost_grasshopper_cipher_do_ctracpkm);
@@ -761,8 +762,9 @@ static int gost_grasshopper_cipher_do_ctracpkm_omac(EVP_CIPHER_CTX *ctx,
     result = gost_grasshopper_cipher_do_ctracpkm(ctx, out, in, inl);
 
     /* As in and out can be the same pointer, process decrypted here */
-    if (!EVP_CIPHER_CTX_encrypting(ctx))
-        EVP_DigestSignUpdate(c->omac_ctx, out, inl);
+    if (result > 0 && !EVP_CIPHER_CTX_encrypting(ctx)
+        && EVP_DigestSignUpdate(c->omac_ctx, out, inl) <= 0)
+        return -1;
 
     return result;
 }
-- 
2.43.0


From ffb6966d7a0af22ff3567a49412f273c142d946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 80/87] fix: copying a CTR-ACPKM-OMAC context that failed is an
 error

---
 gost_crypt.c              | 9 +++++++--
 gost_grasshopper_cipher.c | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index ba5847c..e0057b5 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1393,10 +1393,15 @@ static int magma_cipher_ctl_acpkm_omac(EVP_CIPHER_CTX *ctx, int type, int arg, v
 				out_cctx->omac_ctx = EVP_MD_CTX_new();
 				if (out_cctx->omac_ctx == NULL) {
 					GOSTerr(GOST_F_MAGMA_CIPHER_CTL_ACPKM_OMAC, ERR_R_MALLOC_FAILURE);
-					return -1;
+					return 0;
 				}
 			}
-			return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+			if (EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx) <= 0) {
+				EVP_MD_CTX_free(out_cctx->omac_ctx);
+				out_cctx->omac_ctx = NULL;
+				return 0;
+			}
+			return 1;
 		}
 		default:
 			return magma_cipher_ctl(ctx, type, arg, ptr);
diff --git a/gost_grasshopper_cipher.c b/gost_grasshopper_cipher.c
index 388b1d5..3ce5bfe 100644
--- a/gost_grasshopper_cipher.c
+++ b/gost_grasshopper_cipher.c
@@ -1240,10 +1240,15 @@ static int gost_grasshopper_cipher_ctl(EVP_CIPHER_CTX *ctx, int type, int arg, v
             out_cctx->omac_ctx = EVP_MD_CTX_new();
             if (out_cctx->omac_ctx == NULL) {
                 GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL, ERR_R_MALLOC_FAILURE);
-                return -1;
+                return 0;
             }
         }
-        return EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx);
+        if (EVP_MD_CTX_copy(out_cctx->omac_ctx, in_cctx->omac_ctx) <= 0) {
+            EVP_MD_CTX_free(out_cctx->omac_ctx);
+            out_cctx->omac_ctx = NULL;
+            return 0;
+        }
+        return 1;
     }
     default:
         GOSTerr(GOST_F_GOST_GRASSHOPPER_CIPHER_CTL,
-- 
2.43.0


From c72e924193bc9db68ba9d33358264986a5bdb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:57 +0000
Subject: [PATCH 81/87] fix: verification does not use a signature it had no
 memory to unpack

---
 gost_pmeth.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gost_pmeth.c b/gost_pmeth.c
index 82333bc..16e8c50 100644
--- a/gost_pmeth.c
+++ b/gost_pmeth.c
@@ -561,6 +561,13 @@ ECDSA_SIG *unpack_cp_signature(const unsigned char *sigbuf, size_t siglen)
     }
     s = BN_bin2bn(sigbuf, siglen / 2, NULL);
     r = BN_bin2bn(sigbuf + siglen / 2, siglen / 2, NULL);
+    if (s == NULL || r == NULL) {
+        GOSTerr(GOST_F_UNPACK_CP_SIGNATURE, ERR_R_MALLOC_FAILURE);
+        BN_free(s);
+        BN_free(r);
+        ECDSA_SIG_free(sig);
+        return NULL;
+    }
     ECDSA_SIG_set0(sig, r, s);
     return sig;
 }
-- 
2.43.0


From cf7f936253fef57d67938364e5c0d015e6ddb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 82/87] fix: reading keys without memory for their EC objects
 fails, not crashes

---
 gost_ameth.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index ad459b9..daea15d 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -136,7 +136,7 @@ static int gost_decode_nid_params(EVP_PKEY *pkey, int pkey_nid, int param_nid)
     case NID_id_GostR3410_2001DH:
         if (!key_ptr) {
             key_ptr = EC_KEY_new();
-            if (!EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
+            if (!key_ptr || !EVP_PKEY_assign(pkey, pkey_nid, key_ptr)) {
                 EC_KEY_free(key_ptr);
                 break;
             }
@@ -207,7 +207,10 @@ static int gost_set_priv_key(EVP_PKEY *pkey, BIGNUM *priv)
             const EC_GROUP *group;
             if (!ec) {
                 ec = EC_KEY_new();
-                EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec);
+                if (!ec || !EVP_PKEY_assign(pkey, EVP_PKEY_base_id(pkey), ec)) {
+                    EC_KEY_free(ec);
+                    return 0;
+                }
             }
             group = EC_KEY_get0_group(ec);
             /* A private key is a number d with 0 < d < q */
@@ -1000,7 +1003,8 @@ static int pub_decode_gost_ec(EVP_PKEY *pk, const X509_PUBKEY *pub)
         goto ret;
     }
     pub_key = EC_POINT_new(group);
-    if (!EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
+    if (!pub_key
+        || !EC_POINT_set_affine_coordinates(group, pub_key, X, Y, NULL)) {
         GOSTerr(GOST_F_PUB_DECODE_GOST_EC, ERR_R_EC_LIB);
         goto ret;
     }
-- 
2.43.0


From d29528216db332e32f45560bfeeb7e94a0ed51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 83/87] fix: printing a key reports what could not be written

---
 gost_ameth.c | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/gost_ameth.c b/gost_ameth.c
index daea15d..b2ca4da 100644
--- a/gost_ameth.c
+++ b/gost_ameth.c
@@ -779,15 +779,13 @@ static int print_gost_priv(BIO *out, const EVP_PKEY *pkey, int indent)
 
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Private key: ");
+    if (BIO_printf(out, "Private key: ") <= 0)
+        return 0;
     key = gost_get0_priv_key(pkey);
-    if (!key)
-        BIO_printf(out, "<undefined>");
-    else
-        BN_print(out, key);
-    BIO_printf(out, "\n");
+    if (!key ? BIO_printf(out, "<undefined>") <= 0 : !BN_print(out, key))
+        return 0;
 
-    return 1;
+    return BIO_printf(out, "\n") > 0;
 }
 
 static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
@@ -819,17 +817,16 @@ static int print_gost_ec_pub(BIO *out, const EVP_PKEY *pkey, int indent)
     }
     if (!BIO_indent(out, indent, 128))
         goto err;
-    BIO_printf(out, "Public key:\n");
-    if (!BIO_indent(out, indent + 3, 128))
+    if (BIO_printf(out, "Public key:\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "X:") <= 0
+        || !BN_print(out, X)
+        || BIO_printf(out, "\n") <= 0
+        || !BIO_indent(out, indent + 3, 128)
+        || BIO_printf(out, "Y:") <= 0
+        || !BN_print(out, Y)
+        || BIO_printf(out, "\n") <= 0)
         goto err;
-    BIO_printf(out, "X:");
-    BN_print(out, X);
-    BIO_printf(out, "\n");
-    if (!BIO_indent(out, indent + 3, 128))
-        goto err;
-    BIO_printf(out, "Y:");
-    BN_print(out, Y);
-    BIO_printf(out, "\n");
     ok = 1;
  err:
     BN_CTX_end(ctx);
@@ -850,9 +847,8 @@ static int print_gost_ec_param(BIO *out, const EVP_PKEY *pkey, int indent)
     param_nid = EC_GROUP_get_curve_name(group);
     if (!BIO_indent(out, indent, 128))
         return 0;
-    BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid));
 
-    return 1;
+    return BIO_printf(out, "Parameter set: %s\n", OBJ_nid2ln(param_nid)) > 0;
 }
 
 static int print_gost_ec(BIO *out, const EVP_PKEY *pkey, int indent,
-- 
2.43.0


From e6b59d2b4bab4f8809ab4b67eeafacfc3489d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 84/87] fix: loading the engine without memory for its tables
 fails, not crashes

---
 gost_eng.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gost_eng.c b/gost_eng.c
index 203aab0..2fa82a0 100644
--- a/gost_eng.c
+++ b/gost_eng.c
@@ -479,12 +479,16 @@ static int bind_gost_engine(ENGINE* e) {
 
     int i;
     for (i = 0; i < OSSL_NELEM(gost_cipher_array); i++) {
-        if (!EVP_add_cipher(GOST_init_cipher(gost_cipher_array[i])))
+        const EVP_CIPHER *cipher = GOST_init_cipher(gost_cipher_array[i]);
+
+        if (!cipher || !EVP_add_cipher(cipher))
             goto end;
     }
 
     for (i = 0; i < OSSL_NELEM(gost_digest_array); i++) {
-        if (!EVP_add_digest(GOST_init_digest(gost_digest_array[i])))
+        const EVP_MD *digest = GOST_init_digest(gost_digest_array[i]);
+
+        if (!digest || !EVP_add_digest(digest))
             goto end;
     }
 
-- 
2.43.0


From 2a93f92794cae1636446be4a13714f208cdaa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:22 +0000
Subject: [PATCH 85/87] fix: a copy of an OMAC context that failed leaves the
 original alone

---
 gost_omac.c       | 7 ++++++-
 gost_omac_acpkm.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gost_omac.c b/gost_omac.c
index 74a579c..ff08194 100644
--- a/gost_omac.c
+++ b/gost_omac.c
@@ -18,6 +18,7 @@
 
 typedef struct omac_ctx {
     CMAC_CTX *cmac_ctx;
+    const void *owner;          /* the context that cmac_ctx belongs to */
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -43,6 +44,7 @@ static int omac_init(EVP_MD_CTX *ctx, const char *cipher_name)
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
     CMAC_CTX_free(c->cmac_ctx); /* of an earlier start */
     memset(c, 0, sizeof(OMAC_CTX));
+    c->owner = c;
     c->cipher_name = cipher_name;
     c->key_set = 0;
 
@@ -104,6 +106,7 @@ static int omac_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     const OMAC_CTX *c_from = EVP_MD_CTX_md_data(from);
 
     if (c_from && c_to) {
+        c_to->owner = c_to;
         c_to->dgst_size = c_from->dgst_size;
         c_to->cipher_name = c_from->cipher_name;
         c_to->key_set = c_from->key_set;
@@ -135,7 +138,9 @@ static int omac_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_CTX_free(c->cmac_ctx);
+        /* libcrypto also cleans up what it has not copied completely */
+        if (c->owner == c)
+            CMAC_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_CTX));
     }
     return 1;
diff --git a/gost_omac_acpkm.c b/gost_omac_acpkm.c
index 3ef08b7..b0dad9e 100644
--- a/gost_omac_acpkm.c
+++ b/gost_omac_acpkm.c
@@ -301,6 +301,7 @@ static int CMAC_ACPKM_Final(CMAC_ACPKM_CTX *ctx, unsigned char *out,
 
 typedef struct omac_acpkm_ctx {
     CMAC_ACPKM_CTX *cmac_ctx;
+    const void *owner;          /* the context that cmac_ctx belongs to */
     size_t dgst_size;
     const char *cipher_name;
     int key_set;
@@ -313,6 +314,7 @@ static int omac_acpkm_init(EVP_MD_CTX *ctx, const char *cipher_name)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
     CMAC_ACPKM_CTX_free(c->cmac_ctx); /* of an earlier start */
     memset(c, 0, sizeof(OMAC_ACPKM_CTX));
+    c->owner = c;
     c->cipher_name = cipher_name;
     c->key_set = 0;
 
@@ -366,6 +368,7 @@ static int omac_acpkm_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
     const OMAC_ACPKM_CTX *c_from = EVP_MD_CTX_md_data(from);
 
     if (c_from && c_to) {
+        c_to->owner = c_to;
         c_to->dgst_size = c_from->dgst_size;
         c_to->cipher_name = c_from->cipher_name;
         c_to->key_set = c_from->key_set;
@@ -397,7 +400,9 @@ static int omac_acpkm_imit_cleanup(EVP_MD_CTX *ctx)
     OMAC_ACPKM_CTX *c = EVP_MD_CTX_md_data(ctx);
 
     if (c) {
-        CMAC_ACPKM_CTX_free(c->cmac_ctx);
+        /* libcrypto also cleans up what it has not copied completely */
+        if (c->owner == c)
+            CMAC_ACPKM_CTX_free(c->cmac_ctx);
         memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(OMAC_ACPKM_CTX));
     }
     return 1;
-- 
2.43.0


From 518024e4fd9339fadb97be3aa8cff30fb5c4ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:22 +0000
Subject: [PATCH 86/87] fix: cleaning up a GOST 28147-89 MAC context without
 data does not crash

---
 gost_crypt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gost_crypt.c b/gost_crypt.c
index e0057b5..535d5fb 100644
--- a/gost_crypt.c
+++ b/gost_crypt.c
@@ -1722,7 +1722,8 @@ static int gost_imit_copy(EVP_MD_CTX *to, const EVP_MD_CTX *from)
 /* Clean up imit ctx */
 static int gost_imit_cleanup(EVP_MD_CTX *ctx)
 {
-    memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
+    if (EVP_MD_CTX_md_data(ctx))
+        memset(EVP_MD_CTX_md_data(ctx), 0, sizeof(struct ossl_gost_imit_ctx));
     return 1;
 }
 /* vim: set expandtab cinoptions=\:0,l1,t0,g0,(0 sw=4 : */
-- 
2.43.0


From 42e35d960b42f43d44b56d8676f080fcfd7418a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:33 +0000
Subject: [PATCH 87/87] fix: a provider context with padding off can be
 initialised again

---
 gost_prov_cipher.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gost_prov_cipher.c b/gost_prov_cipher.c
index 956ea76..9ef6156 100644
--- a/gost_prov_cipher.c
+++ b/gost_prov_cipher.c
@@ -50,6 +50,8 @@ struct gost_prov_crypt_ctx_st {
     EVP_CIPHER *cipher;
     /* The context for the EVP_CIPHER functions */
     EVP_CIPHER_CTX *cctx;
+    /* Padding can be switched off before the context is initialised */
+    int no_padding;
 };
 typedef struct gost_prov_crypt_ctx_st GOST_CTX;
 
@@ -99,6 +101,8 @@ static void *cipher_dupctx(void *vsrc)
         cipher_freectx(dst);
         dst = NULL;
     }
+    if (dst != NULL)
+        dst->no_padding = src->no_padding;
     return dst;
 }
 
@@ -184,8 +188,10 @@ static int cipher_set_ctx_params(void *vgctx, const OSSL_PARAM params[])
         unsigned int pad = 0;
 
         if (!OSSL_PARAM_get_uint(p, &pad)
-            || EVP_CIPHER_CTX_set_padding(gctx->cctx, pad) <= 0)
+            || (EVP_CIPHER_CTX_cipher(gctx->cctx) != NULL
+                && EVP_CIPHER_CTX_set_padding(gctx->cctx, pad) <= 0))
             return 0;
+        gctx->no_padding = !pad;
     }
     if ((p = OSSL_PARAM_locate_const(params, "key-mesh")) != NULL) {
         size_t key_mesh = 0;
@@ -262,6 +268,7 @@ static int cipher_encrypt_init(void *vgctx,
 
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
                              key, iv, 1) > 0
+        && EVP_CIPHER_CTX_set_padding(gctx->cctx, !gctx->no_padding) > 0
         && cipher_set_ctx_params(vgctx, params);
 }
 
@@ -277,6 +284,7 @@ static int cipher_decrypt_init(void *vgctx,
         return 0;
     return EVP_CipherInit_ex(gctx->cctx, gctx->cipher, gctx->provctx->e,
                              key, iv, 0) > 0
+        && EVP_CIPHER_CTX_set_padding(gctx->cctx, !gctx->no_padding) > 0
         && cipher_set_ctx_params(vgctx, params);
 }
 
-- 
2.43.0

