From ec77be26e8cba56399ebf5739162e7d2853e8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:42 +0000
Subject: [PATCH 01/29] fix: memxor2 rotated the result wrongly when dst spans
 the end of src1 and the start of src2

---
 src/crypt/memxor.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..982741b 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -52,7 +52,7 @@
 void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
-    size_t i, j;
+    size_t i, j, k;
     unsigned char *tmp, t;
     size_t n = size;
 
@@ -80,14 +80,17 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
-        j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
+        /* Now rotate the dst buffer: the result starts at index k */
+        k = (size_t)((src1 + n) - dst);
+        j = k;
+        for (i = 0; i != j; i++) {
             t = dst[j];
             dst[j] = dst[i];
             dst[i] = t;
-            if (j < n-1)
-                j++;
+            if (++j == n)
+                j = k;
+            else if (i + 1 == k)
+                k = j;
         }
     } else {
         /* Case 4 */
-- 
2.43.0


From fd61136b611ce661fdb6f09348b2aff4d079c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 02/29] fix: mpi_div with an exact negative quotient, no
 remainder output or an output aliasing the divisor

---
 src/mpi/mpi_div.c     | 37 +++++++++++++++++++++++++------------
 src/mpi/mpi_div_abs.c |  4 ++--
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..a2fcb33 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -3,24 +3,37 @@
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi d, t, one;
+    cry_mpi_digit one_dig = 1;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
-        return res;
+    if (a->sign == b->sign)
+        return cry_mpi_div_abs(q, r, a, b);
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
-        if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
+    /*
+     * The quotient is rounded toward minus infinity. The divisor and the
+     * remainder are kept in temporaries since 'r' is optional and both 'q'
+     * and 'r' may be the same object as 'b'.
+     */
+    CRY_CHK(res = cry_mpi_init_copy(&d, b), e0);
+    CRY_CHK(res = cry_mpi_init(&t), e1);
+    CRY_CHK(res = cry_mpi_div_abs(q, &t, a, b), e2);
 
+    if (q != NULL && !cry_mpi_is_zero(q))
+        q->sign = 1;
+    if (!cry_mpi_is_zero(&t)) {
+        if (q != NULL) {
             one.sign = 0;
             one.used = one.alloc = 1;
             one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+            CRY_CHK(res = cry_mpi_sub(q, q, &one), e2);
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        CRY_CHK(res = cry_mpi_sub_abs(&t, &d, &t), e2);
     }
-    return res;
+    if (r != NULL)
+        cry_mpi_swap(r, &t);
+
+e2: cry_mpi_clear(&t);
+e1: cry_mpi_clear(&d);
+e0: return res;
 }
diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index d35150f..381e898 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -17,7 +17,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r=a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq)
@@ -88,7 +88,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r = a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr != NULL)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq != NULL)
-- 
2.43.0


From ea686a56d07ec13d02b527c24e8d68533c698296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:57 +0000
Subject: [PATCH 03/29] fix: stale or negative-zero sign left by load_bin, mul,
 sqr and shr

---
 src/mpi/mpi_bin.c       | 1 +
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_shr.c       | 2 ++
 src/mpi/mpi_sqr_comba.c | 3 ++-
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..4848aa9 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -24,6 +24,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         dst = r;
     }
     cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..433cfd6 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0; /* no negative zero */
     return 0;
 }
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..cef35e9 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,8 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
-- 
2.43.0


From d70e7b1c0baa966fb073b31601774d68e6a51927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 04/29] fix: mpi_gcd with a zero or negative operand, and
 errors lost in the main loop

---
 src/mpi/mpi_gcd.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..4768072 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -30,10 +30,17 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_copy(&tx, x)) != 0 ||
-        (res = cry_mpi_copy(&ty, y)) != 0)
+    if ((res = cry_mpi_abs(&tx, x)) != 0 ||
+        (res = cry_mpi_abs(&ty, y)) != 0)
         goto e;
 
+    if (cry_mpi_is_zero(&tx) || cry_mpi_is_zero(&ty)) {
+        /* gcd(x, 0) = |x| */
+        if ((res = cry_mpi_add(&ty, &ty, &tx)) == 0)
+            cry_mpi_swap(r, &ty);
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
@@ -58,8 +65,8 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
                 break;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
-    cry_mpi_swap(r, &ty);
+    if (res == 0 && (res = cry_mpi_shl(&ty, &ty, lz)) == 0)
+        cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 6d90ae5cb3639dfe878fc0a864bcb53185e1ba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 05/29] fix: mpi_mod_exp result not reduced when the exponent
 is zero

---
 src/mpi/mpi_mod_exp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..25d9561 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,11 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
+    /* Reduce the initial value as well, relevant if m = 1 */
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From b4bd3840a54a491aa05374452e1ce6ef4fd521f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 06/29] fix: mpi_get_int accepted negative values below
 LONG_MIN

---
 src/mpi/mpi_core.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..bec0e01 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0UL - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,11 +100,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (used > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +112,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* consider the sign bit */
+    if (rval > (unsigned long)LONG_MAX + ((a->sign == 0) ? 0 : 1))
+        return -1;
+    *val = (long)((a->sign == 0) ? rval : 0UL - rval);
     return 0;
 }
 
-- 
2.43.0


From 50b7a749d00ebed85770fe0091e8cc588304b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 07/29] fix: mpi_rand touched digits outside the value when
 leading random bytes were zero

---
 src/mpi/mpi_rand.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..c96ffd2 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -8,7 +8,7 @@
 int cry_mpi_rand(cry_mpi *r, size_t bits)
 {
     int res;
-    size_t digs, msb, siz;
+    size_t siz, msb;
     unsigned char *bin;
 
     if (bits == 0) {
@@ -20,14 +20,11 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         return -1;
     if ((res = cry_prng_aes_rand(bin, siz)) != 0)
         goto e;
-    if ((res = cry_mpi_load_bin(r, bin, siz)) != 0)
-        goto e;
 
-    digs = CRY_MPI_BITS_TO_DIGS(bits);
-    msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
-    if (msb < CRY_MPI_DIGIT_BITS)
-        r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-    r->data[digs-1] |= ((cry_mpi_digit)1 << (msb - 1));   /* Set the msb */
+    msb = (bits - 1) & 0x07;
+    bin[0] &= (unsigned char)((2U << msb) - 1); /* Clear extra bits */
+    bin[0] |= (unsigned char)(1U << msb);       /* Set the msb */
+    res = cry_mpi_load_bin(r, bin, siz);
 
 e:  free(bin);
     return res;
-- 
2.43.0


From 9f27c8ff7184770d93937896a9c8e3486fa7ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 08/29] fix: mpi_inv ignored failures of the inner operations

---
 src/mpi/mpi_inv.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..824087a 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -17,19 +17,19 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CRY_CHK(ret = cry_mpi_copy(&r0, a), e);
+    CRY_CHK(ret = cry_mpi_copy(&r1, m), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s0, 1), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s1, 0), e);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CRY_CHK(ret = cry_mpi_div(&q, &r0, &r0, &r1), e);
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CRY_CHK(ret = cry_mpi_mul(&q, &q, &s1), e);
+        CRY_CHK(ret = cry_mpi_sub(&s0, &s0, &q), e);
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +37,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign)
+            CRY_CHK(ret = cry_mpi_mod(&s0, &s0, m), e);
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
-- 
2.43.0


From e2bdaa6f20be42e4e0e7a488aaabdbc9ced01fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:25 +0000
Subject: [PATCH 09/29] fix: mpi_load_str accepted characters that are not
 digits of the radix

---
 src/mpi/mpi_str.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..6c1068a 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -5,7 +5,7 @@
 #define ASC_TO_RAW_CHAR(c) \
     (('0' <= (c) && (c) <= '9') ?  ((c) - '0') : \
      ('a' <= (c) && (c) <= 'z') ? (((c) - 'a') + 10) : \
-     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0)
+     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0xFF)
 
 static int load_str_hex(cry_mpi *a, const char *s)
 {
@@ -16,6 +16,11 @@ static int load_str_hex(cry_mpi *a, const char *s)
     size_t siz, len;
 
     len = strlen(s);
+    for (i = 0; i < len; i++) {
+        if (ASC_TO_RAW_CHAR(s[i]) > 0x0F)
+            return -1;
+    }
+    i = 0;
     siz = len >> 1;
     if ((len & 0x01) != 0) {
         len--;
-- 
2.43.0


From 5623889f03f82c9b5a0b4fde0465b68c2c86753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 10/29] fix: dsa errors were lost, so a signature with a
 non-invertible component verified

---
 src/crypt/dsa.c | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..0f838b3 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -50,6 +50,13 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/* Check if 0 < x < q */
+static int in_range(const cry_mpi *x, const cry_mpi *q)
+{
+    return cry_mpi_is_pos(x) && !cry_mpi_is_zero(x) &&
+           cry_mpi_cmp(x, q) < 0;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,8 +67,8 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->q) < len)
+        len = cry_mpi_count_bytes(&ctx->q);
     CHK(cry_mpi_load_bin(&z, in, len));
 
     /* k = c mod (q-1) + 1 */
@@ -78,6 +85,10 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
     CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
 
+    /* Extremely unlikely, but such a signature is not valid */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s))
+        res = -1;
+
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
 }
@@ -88,12 +99,16 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
     int res;
     cry_mpi z, w, u1, u2;
 
+    /* Both the components shall be in the range [1, q-1] */
+    if (!in_range(&sig->r, &ctx->q) || !in_range(&sig->s, &ctx->q))
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->q) < len)
+        len = cry_mpi_count_bytes(&ctx->q);
     CHK(cry_mpi_load_bin(&z, in, len));
 
     /* w = inv(s) mod q */
@@ -148,11 +163,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +181,10 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            res = cry_mpi_is_prime(&ctx->p);
+            if (res < 0)
+                goto e;
+            if (res == 1)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +204,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
+    if (i == ITER_MAX_OUT)
+        res = -1;
+e:  cry_mpi_clear_list(&p1, &q, &r, &one, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From ebc28bd67d714a97b273e7cc5f4a7b59bce12d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 11/29] fix: ecdsa lost errors, did not reduce r and did not
 check the range of r and s

---
 src/crypt/ecdsa.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..c8c3341 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,6 +4,13 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/* Check if 0 < x < n */
+static int in_range(const cry_mpi *x, const cry_mpi *n)
+{
+    return cry_mpi_is_pos(x) && !cry_mpi_is_zero(x) &&
+           cry_mpi_cmp(x, n) < 0;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -16,8 +23,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK0(cry_ecp_init(&X));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->grp.n) < len)
+        len = cry_mpi_count_bytes(&ctx->grp.n);
     CHK1(cry_mpi_load_bin(&z, in, len));
 
     /* This should be a random number between 0 and n-1 */
@@ -35,7 +42,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
 
     /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
+    CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
 
     /* s = (inv(k) * (z + r*d)) mod n */
     CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
@@ -44,9 +51,13 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
     CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
 
+    /* Extremely unlikely, but such a signature is not valid */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s))
+        res = -1;
+
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
@@ -56,13 +67,17 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     cry_mpi z, w;
     cry_ecp G, Q;
 
+    /* Both the components shall be in the range [1, n-1] */
+    if (!in_range(&sig->r, &ctx->grp.n) || !in_range(&sig->s, &ctx->grp.n))
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
+    if (cry_mpi_count_bytes(&ctx->grp.n) < len)
+        len = cry_mpi_count_bytes(&ctx->grp.n);
     CHK1(cry_mpi_load_bin(&z, in, len));
 
     /* w = inv(s) mod n */
@@ -82,13 +97,18 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
+
     /* r = x1 mod n */
     CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
 
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 60fb8e719be3b509317d5023c4fa7e7dcb18ab19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 12/29] fix: elgamal verify accepted r outside of the range [1,
 p-1]

---
 src/crypt/elgamal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..e505fb6 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -102,6 +102,11 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
+    /* It must be 0 < r < p */
+    if (cry_mpi_is_neg(&sign->r) || cry_mpi_is_zero(&sign->r) ||
+        cry_mpi_cmp(&sign->r, &ctx->p) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
-- 
2.43.0


From f26631e4c71de633fcd6ae58ecbde63bb43bd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 13/29] fix: rsa multi-block decryption, empty input, tiny
 modulus and missing private exponent in keygen

---
 src/crypt/rsa.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..45a797d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -174,13 +174,15 @@ e:  free(buf);
 static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = 0;
     size_t mod_siz, block_siz;
     void *newptr;
 
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
+    if (ctx->padding != CRY_RSA_PADDING_NONE && mod_siz <= 11)
+        return -1; /* no room for the padding */
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
     while (inlen) {
@@ -216,7 +218,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
 static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = 0;
     size_t mod_siz;
     void *newptr;
 
@@ -238,7 +240,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
@@ -348,6 +350,10 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    /* private exponent, fails if 'e' is still not invertible */
+    if (res == 0)
+        res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 6278168feb84bdc837bc26685ebbf4551934c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 14/29] fix: ecp doubling of a point of order two

---
 src/ecp/ecp_dbl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..891090a 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -26,6 +26,11 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
 
     CHK(cry_mpi_set_int(&den, 2));          /* den =  2 */
     CHK(cry_mpi_mul(&den, &den, &p1->y));   /* den =  2 * y1 */
+    CHK(cry_mpi_mod(&den, &den, &grp->p));
+    if (cry_mpi_is_zero(&den)) {            /* vertical tangent */
+        cry_ecp_set_zero(pr);
+        goto e;
+    }
     CHK(cry_mpi_inv(&den, &den, &grp->p));  /* den = (2 * y1)^(-1) (mod p) */
     CHK(cry_mpi_mod(&den, &den, &grp->p));
 
-- 
2.43.0


From b0df75cee14cef00f94a054dbba9af3cea03e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:32 +0000
Subject: [PATCH 15/29] fix: ecp_mul reported success when the window
 allocation failed

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From 3e9339a2cbcbc94f572386ca9057750670b13b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 16/29] fix: sha512/sha384 padding when the last block holds
 112 or more bytes

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From adfe2d96b20dfe626e40f06457cfd0eeb8ade6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:08 +0000
Subject: [PATCH 17/29] fix: md5, sha1 and sha512 length counters truncated the
 size of a single update to 32 bits

---
 src/hash/md5.c    | 2 +-
 src/hash/sha1.c   | 1 +
 src/hash/sha512.c | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..0c7fa49 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)((uint64_t)size >> 29); /* carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From 02480a78ab402b842a654c4c671e0df39be2e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:05 +0000
Subject: [PATCH 18/29] fix: cfb decryption of more than one block fed back the
 cleartext; partial block over-read

---
 include/cry/cfb.h |  5 +++--
 src/crypt/cfb.c   | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..0ea2d69 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,7 +75,7 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encrypt function.
  *
  * @param ctx   CFB context.
  * @param dst   Destination pointer.
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..b8164e9 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,28 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        /* The feedback is the ciphertext (may be overwritten by dst) */
+        memcpy(ctx->v, src, n);
+        memcpy(ctx->v + n, buf + n, ctx->vlen - n);
+        cry_memxor2(dst, ctx->v, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
-- 
2.43.0


From 8ddd24a884b412604097f7c79793e82d08307c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:05 +0000
Subject: [PATCH 19/29] fix: cfb8 decryption left a wrong feedback register
 when the size is not a multiple of the block

---
 src/crypt/cfb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index b8164e9..a9423ef 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -108,7 +108,7 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
 {
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
-    size_t i = 0;
+    size_t i;
     unsigned char buf[CRY_CFB_BLOCK_MAX * 2];
     unsigned char obuf[CRY_CFB_BLOCK_MAX * 2];
 
@@ -122,8 +122,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
-        memcpy(buf, buf + ctx->vlen, ctx->vlen);
+        memmove(buf, buf + i, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-    memcpy(ctx->v, buf + i, ctx->vlen);
+    memcpy(ctx->v, buf, ctx->vlen);
 }
-- 
2.43.0


From 77818ea0ddf0c7c339e91e4f7a2587d4c2261bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:05 +0000
Subject: [PATCH 20/29] fix: in-place ctr with a block smaller than 16 bytes
 used uninitialized counter blocks

---
 src/crypt/ctr.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..8f8e549 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -47,6 +47,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
     size_t n;
+    size_t buf_len = ctx->ctrlen * BUF_BLOCKS;
     unsigned char *p;
 
     if (src != dst) {
@@ -66,18 +67,18 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
             cry_memxor2(dst + len - n, src + len - n, buf, n);
         }
     } else {
-        while (len >= BUF_LEN) {
+        while (len >= buf_len) {
             p = buf;
             for (n = 0; n < BUF_BLOCKS; n++) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
             }
-            encrypt(ciph, buf, buf, BUF_LEN);
-            cry_memxor2(dst, src, buf, BUF_LEN);
-            len -= BUF_LEN;
-            src += BUF_LEN;
-            dst += BUF_LEN;
+            encrypt(ciph, buf, buf, buf_len);
+            cry_memxor2(dst, src, buf, buf_len);
+            len -= buf_len;
+            src += buf_len;
+            dst += buf_len;
         }
 
         if (len != 0) {
-- 
2.43.0


From 546bd8d4bc8a24128a3df63b2168de4afc3dff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:06 +0000
Subject: [PATCH 21/29] fix: cbc decryption of an empty input accessed memory
 out of bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From 8748f02738eb18da603195b89885816ee0ff813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 22/29] fix: base64 encoding and decoding of an empty input ran
 out of bounds

---
 src/crypt/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..f447b0b 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,6 +7,9 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
+    if (len == 0)
+        return 0;
+
     do {
         outlen += 4;
 
@@ -65,6 +68,8 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
+    if (len == 0)
+        return 0;
 
     do {
         for (i = 0; i < 4; i++) {
-- 
2.43.0


From efbe513fe25886594c560c9759165d6476a8932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 23/29] fix: lfsr113 seeding overflowed the state for long
 seeds and accepted degenerate components

---
 src/prng/prng_lfsr113.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,16 +37,16 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From 8cd7f0e95a506d90d81b54124f3e2e7ca5ac51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 24/29] fix: gcm authenticated only the low 32 bits of the bit
 lengths

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 0fca9d71ae7f6fc239c64373d2f342e095eae1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 25/29] fix: aes key wrap used only the low byte of the step
 counter

---
 src/utils/aes_wrap.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..60e0a73 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -21,7 +21,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
     unsigned char *a, *r, b[16];
-    size_t i, j, blks;
+    size_t i, j, k, t, blks;
     cry_aes_ctx aes;
 
     a = out;
@@ -41,7 +41,9 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            t = blks * i + j;
+            for (k = 8; t != 0; t >>= 8)
+                a[--k] ^= (unsigned char)t;
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -54,7 +56,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
 {
     unsigned char *r, a[8], b[16];
     cry_aes_ctx aes;
-    size_t i, j, blks;
+    size_t i, j, k, t, blks;
     int res = 0;
 
     /* Initialize variables */
@@ -70,7 +72,9 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            t = blks * i + j;
+            for (k = 8; t != 0; t >>= 8)
+                b[--k] ^= (unsigned char)t;
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 64d38e229677874d84a9f6db69838b14c9cdb2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 26/29] fix: aes key unwrap of an empty key checked an
 uninitialized buffer

---
 src/utils/aes_wrap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 60e0a73..cc19bf6 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -84,7 +84,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
     }
     /* Unwrap check */
     for (i = 0; i < 8; i++) {
-        if (b[i] != INIT_VAL) {
+        if (a[i] != INIT_VAL) {
             memset(out, 0, len);
             res = -1;
             break;
-- 
2.43.0


From 217d7d491293b18765c444245a90f70ff2bc2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:29 +0000
Subject: [PATCH 27/29] fix: ecdh_init ignored initialization failures

---
 src/crypt/ecdh.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..c60b9b4 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,20 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
-    return 0;
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) == 0) {
+        if ((res = cry_ecp_init(&ctx->q)) == 0) {
+            if ((res = cry_ecp_init(&ctx->z)) == 0)
+                return 0;
+            cry_ecp_clear(&ctx->q);
+        }
+        cry_mpi_clear(&ctx->d);
+    }
+    cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 7f578b90965f85b593720b6f992c3bc261006b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:59 +0000
Subject: [PATCH 28/29] fix: is_prime looped forever on 1 and could reject a
 prime with a zero witness

---
 src/mpi/mpi_prime.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..83ca27c 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -144,8 +144,12 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
+    /* Initialize a as a random number greater than 0 and less than p */
+    if ((res = cry_mpi_sub(&tmp, p, &one)) < 0)
+        goto e;
+    if ((res = cry_mpi_rand_range(&a, &tmp)) < 0)
+        goto e;
+    if ((res = cry_mpi_add(&a, &a, &one)) < 0)
         goto e;
 
     /* z = a^m mod p */
@@ -195,6 +199,10 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    /* Values less than 2 are not prime */
+    if (cry_mpi_is_neg(p) || cry_mpi_count_bits(p) < 2)
+        return 0;
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 091ad1bf2f82f3ba6049834593993d4f871a0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:03 +0000
Subject: [PATCH 29/29] fix: aes encryption after a decryption with the same
 context used a wrong key schedule

---
 src/crypt/aes.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..e24321d 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -357,6 +357,18 @@ static void key_invert(cry_aes_ctx *ctx)
             CRY_SWAP(ctx->keys[i+k], ctx->keys[j+k]);
     }
 
+    if ((ctx->nr & DECRYPT_STATE) != 0) {
+        /* Back to the encryption schedule: undo the inverse mix columns */
+        for (i = 4; i < 4 * nr; i++) {
+            key = ctx->keys[i];
+            ctx->keys[i] = ftab[0][rsbox[I0(key)]] ^
+                           ftab[1][rsbox[I1(key)]] ^
+                           ftab[2][rsbox[I2(key)]] ^
+                           ftab[3][rsbox[I3(key)]];
+        }
+        return;
+    }
+
     for (i = 4; i < 4 * nr; i++) {
         key = ctx->keys[i];
         newkey = mtab[key & 0xff];
-- 
2.43.0

