From 2f361280ab4069784329cd993733631848544a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 01/23] fix: Montgomery points map to u = (x + A/3)/B, so
 curves with B != 1 work

---
 include/ecc/ecurve.h | 2 +-
 src/ecpoint.c        | 4 ++--
 src/ecurve.c         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ecc/ecurve.h b/include/ecc/ecurve.h
index a9b3073..f0d1a22 100644
--- a/include/ecc/ecurve.h
+++ b/include/ecc/ecurve.h
@@ -70,7 +70,7 @@ typedef struct {
     // resulting equation:
     // v^2 = u^3 + ws_a * u + ws_b
     // reverse transform:
-    // u = Binv * x + A/3, v = Binv * y
+    // u = Binv * (x + A/3), v = Binv * y
     mpFp_t ws_a; // coefficient of transformed equation
     mpFp_t ws_b; // coefficient of transformed equation
     mpFp_t Binv; // coefficient of transform
diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..4ecfb3f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -120,9 +120,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..2dcf554 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1002,7 +1002,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     // resulting equation:
     // v^2 = u^3 + ws_a * u + ws_b
     // reverse transform:
-    // u = x/B + A/3, v = y/B
+    // u = (x + A/3)/B, v = y/B
     {
         mpFp_t a, b, s, t;
         mpFp_init_fp(a, cv->fp);
-- 
2.43.0


From 54cf807721687ec3f557afe79c03404c7aadee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 02/23] fix: point addition on curves of even order when the
 operands differ by a point of order two

---
 src/ecpoint.c | 77 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 4ecfb3f..894ef5b 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -776,9 +776,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //assert(0); // might want to implement something here ;)
                 // 2015 Renes-Costello-Batina "Algorithm 1"
                 // from https://eprint.iacr.org/2015/1060.pdf
-                mpFp_t t0, t1, t2, t3, t4, t5, b3;
+                mpFp_t t0, t1, t2, t3, t4, t5, b3, X3, Y3, Z3;
 #ifdef _MPECP_MPFP_NOMALLOC
-                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3;
+                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3, lX3, lY3, lZ3;
                 t0->i->_mp_d = lt0; t0->i->_mp_size = 0; t0->i->_mp_alloc = _MPFP_MAX_LIMBS; t0->fp = pt1->cvp->fp;
                 t1->i->_mp_d = lt1; t1->i->_mp_size = 0; t1->i->_mp_alloc = _MPFP_MAX_LIMBS; t1->fp = pt1->cvp->fp;
                 t2->i->_mp_d = lt2; t2->i->_mp_size = 0; t2->i->_mp_alloc = _MPFP_MAX_LIMBS; t2->fp = pt1->cvp->fp;
@@ -786,6 +786,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 t4->i->_mp_d = lt4; t4->i->_mp_size = 0; t4->i->_mp_alloc = _MPFP_MAX_LIMBS; t4->fp = pt1->cvp->fp;
                 t5->i->_mp_d = lt5; t5->i->_mp_size = 0; t5->i->_mp_alloc = _MPFP_MAX_LIMBS; t5->fp = pt1->cvp->fp;
                 b3->i->_mp_d = lb3; b3->i->_mp_size = 0; b3->i->_mp_alloc = _MPFP_MAX_LIMBS; b3->fp = pt1->cvp->fp;
+                X3->i->_mp_d = lX3; X3->i->_mp_size = 0; X3->i->_mp_alloc = _MPFP_MAX_LIMBS; X3->fp = pt1->cvp->fp;
+                Y3->i->_mp_d = lY3; Y3->i->_mp_size = 0; Y3->i->_mp_alloc = _MPFP_MAX_LIMBS; Y3->fp = pt1->cvp->fp;
+                Z3->i->_mp_d = lZ3; Z3->i->_mp_size = 0; Z3->i->_mp_alloc = _MPFP_MAX_LIMBS; Z3->fp = pt1->cvp->fp;
 #else
                 mpFp_init_fp(t0, pt1->cvp->fp);
                 mpFp_init_fp(t1, pt1->cvp->fp);
@@ -794,6 +797,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t4, pt1->cvp->fp);
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
+                mpFp_init_fp(X3, pt1->cvp->fp);
+                mpFp_init_fp(Y3, pt1->cvp->fp);
+                mpFp_init_fp(Z3, pt1->cvp->fp);
 #endif
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
@@ -869,25 +875,25 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //14. t5 <- Y1 + Z1
                 mpFp_add(t5, pt1->y, pt1->z);
                 //15. X3 <- Y2 + Z2
-                mpFp_add(rpt->x, pt2->y, pt2->z);
+                mpFp_add(X3, pt2->y, pt2->z);
                 //16. t5 <- t5 * X3
-                mpFp_mul(t5, t5, rpt->x);
+                mpFp_mul(t5, t5, X3);
                 //17. X3 <- t1 + t2
-                mpFp_add(rpt->x, t1, t2);
+                mpFp_add(X3, t1, t2);
                 //18. t5 <- t5 - X3
-                mpFp_sub(t5, t5, rpt->x);
+                mpFp_sub(t5, t5, X3);
                 //19. Z3 <-  a * t4
-                mpFp_mul(rpt->z, aa, t4);
+                mpFp_mul(Z3, aa, t4);
                 //20. X3 <- b3 * t2
-                mpFp_mul(rpt->x, b3, t2);
+                mpFp_mul(X3, b3, t2);
                 //21. Z3 <- X3 + Z3
-                mpFp_add(rpt->z, rpt->x, rpt->z);
+                mpFp_add(Z3, X3, Z3);
                 //22. X3 <- t1 - Z3
-                mpFp_sub(rpt->x, t1, rpt->z);
+                mpFp_sub(X3, t1, Z3);
                 //23. Z3 <- t1 + Z3
-                mpFp_add(rpt->z, t1, rpt->z);
+                mpFp_add(Z3, t1, Z3);
                 //24. Y3 <- X3 * Z3
-                mpFp_mul(rpt->y, rpt->x, rpt->z);
+                mpFp_mul(Y3, X3, Z3);
                 //25. t1 <- t0 + t0
                 mpFp_add(t1, t0, t0);
                 //26. t1 <- t1 + t0
@@ -907,20 +913,52 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //33. t0 <- t1 * t4
                 mpFp_mul(t0, t1, t4);
                 //34. Y3 <- Y3 + t0
-                mpFp_add(rpt->y, rpt->y, t0);
+                mpFp_add(Y3, Y3, t0);
                 //35. t0 <- t5 * t4
                 mpFp_mul(t0, t5, t4);
                 //36. X3 <- t3 * X3
-                mpFp_mul(rpt->x, t3, rpt->x);
+                mpFp_mul(X3, t3, X3);
                 //37. X3 <- X3 - t0
-                mpFp_sub(rpt->x, rpt->x, t0);
+                mpFp_sub(X3, X3, t0);
                 //38. t0 <- t3 * t1
                 mpFp_mul(t0, t3, t1);
                 //39. Z3 <- t5 * Z3
-                mpFp_mul(rpt->z, t5, rpt->z);
+                mpFp_mul(Z3, t5, Z3);
                 //40. Z3 <- Z3 + t0
-                mpFp_add(rpt->z, rpt->z, t0);
-
+                mpFp_add(Z3, Z3, t0);
+
+                if ((mpFp_cmp_ui(Z3, 0) == 0) && (mpFp_cmp_ui(Y3, 0) == 0)) {
+                    // the formula is exceptional (0:0:0) only where pt1 - pt2
+                    // has order two, hence pt1 != pt2 and the chord applies
+                    // t0 <- Y2*Z1 - Y1*Z2, t1 <- X2*Z1 - X1*Z2, t2 <- Z1*Z2
+                    mpFp_mul(t3, pt1->y, pt2->z);
+                    mpFp_mul(t0, pt2->y, pt1->z);
+                    mpFp_sub(t0, t0, t3);
+                    mpFp_mul(t4, pt1->x, pt2->z);
+                    mpFp_mul(t1, pt2->x, pt1->z);
+                    mpFp_sub(t1, t1, t4);
+                    mpFp_mul(t2, pt1->z, pt2->z);
+                    // t4 <- t1**2*X1*Z2, t5 <- t1**3
+                    mpFp_sqr(t5, t1);
+                    mpFp_mul(t4, t4, t5);
+                    mpFp_mul(t5, t5, t1);
+                    // b3 <- t0**2*t2 - t5 - 2*t4
+                    mpFp_sqr(b3, t0);
+                    mpFp_mul(b3, b3, t2);
+                    mpFp_sub(b3, b3, t5);
+                    mpFp_sub(b3, b3, t4);
+                    mpFp_sub(b3, b3, t4);
+                    // X3 <- t1*b3, Y3 <- t0*(t4 - b3) - t5*Y1*Z2, Z3 <- t5*t2
+                    mpFp_mul(X3, t1, b3);
+                    mpFp_sub(t4, t4, b3);
+                    mpFp_mul(Y3, t0, t4);
+                    mpFp_mul(t3, t3, t5);
+                    mpFp_sub(Y3, Y3, t3);
+                    mpFp_mul(Z3, t5, t2);
+                }
+                mpFp_set(rpt->x, X3);
+                mpFp_set(rpt->y, Y3);
+                mpFp_set(rpt->z, Z3);
                 rpt->cvp = pt1->cvp;
 
                 if (mpFp_cmp_ui(rpt->z, 0) == 0) {
@@ -930,6 +968,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 }
 
 #ifndef _MPECP_MPFP_NOMALLOC
+                mpFp_clear(Z3);
+                mpFp_clear(Y3);
+                mpFp_clear(X3);
                 mpFp_clear(b3);
                 mpFp_clear(t5);
                 mpFp_clear(t4);
-- 
2.43.0


From d478342d54ff152c9b1baafe04faef5b8d22e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 03/23] fix: curves over different fields no longer compare
 equal

mpECurve_cmp returned the result of the pointer comparison (0) when the
fields differed, which its callers read as equality.
---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 2dcf554..17f97ef 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From ed0bd0d0e55c3737edb5d4a2aed743669b1a75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 04/23] fix: Edwards addition no longer overwrites the result's
 old curve object

mpECP_add copied the operand's curve into the object the result pointed to
before, which other points may share; it now refers to the operand's curve
like every other operation.
---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 894ef5b..a9736ef 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1145,7 +1145,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1224,7 +1224,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
-- 
2.43.0


From 5ed737046c779760ff675b9bba6291eae60e6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 05/23] fix: adding to a neutral point keeps the first
 operand's curve object

neutral + P returned a point referring to P's curve object, which may be
released while the result is still in use.
---
 src/ecpoint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index a9736ef..2fb81fc 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -751,7 +751,10 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
             mpECP_set_neutral(rpt, pt1->cvp);
             return;
         } else {
+            // the result belongs to the curve object of the first operand
+            mpECurve_ptr cvp = pt1->cvp;
             mpECP_set(rpt, pt2);
+            rpt->cvp = cvp;
             return;
         }
     } else if (pt2->is_neutral != 0) {
-- 
2.43.0


From 2efeef78125859aaed45027c884adf3438ece37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 06/23] fix: scalar multiplication uses every bit of the scalar

the loops ran over the bit size of the field; on curves whose order is one
bit longer than the field prime (secp160k1, secp160r1, secp160r2,
secp224k1) the top bit of the scalar was dropped.
---
 src/ecpoint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 2fb81fc..8ba5331 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -56,7 +56,8 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 static char *_hexlut = "0123456789ABCDEF";
 
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    // one digit for every base_bits bits of the scalar (a residue of the order)
+    return (mpz_sizeinbase(pt->cvp->n, 2) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1376,7 +1377,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = mpz_sizeinbase(pt->cvp->n, 2) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From 177e9d724ae40561be73416603ec944644d410b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 07/23] fix: square roots in fields where a large power of two
 divides p - 1

the exponent 1 << (m - i - 1) overflows int once the power exceeds 2^31
(the P-224 field has 2^96), giving a wrong root or an endless loop.
---
 src/field.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..384efbe 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,11 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c ** (2 ** (m - i - 1))
+            mpz_set(b, c);
+            for (; m > (i + 1); m--) {
+                mpz_powm_ui(b, b, 2, op->fp->p);
+            }
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 4e30db269d9d8018154f23f61c4808fce49513c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 08/23] fix: compressed export of Montgomery points uses the
 parity of y

the prefix was taken from the internal short Weierstrass y (y/B) while the
import reads it as the parity of y, so curves with B != 1 decoded to the
opposite point half of the time.
---
 src/ecpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 8ba5331..e0ebac9 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -542,7 +542,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From ed8a82c516ddb39afe9d8f4674b10a12a6f4d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 09/23] fix: point import refuses encodings that denote no
 point of the curve

uncompressed coordinates were neither range checked nor checked against the
curve equation, compressed x was reduced silently, the neutral element
accepted trailing data of any length and content, a failed inversion was
ignored, and y = 0 accepted the odd prefix.
---
 src/ecpoint.c | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index e0ebac9..068e9e4 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -336,19 +336,30 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
+        case 0: {
+                size_t i;
+
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+            }
             mpECP_set_neutral(rpt, cv);
             return 0;
         case 4: {
+                int valid;
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                valid = (mpz_cmp(x, cv->fp->p) < 0) && (mpz_cmp(y, cv->fp->p) < 0) &&
+                    mpECurve_point_check(cv, x, y);
+                if (valid) mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
+                if (!valid) return -1;
             }
             return 0;
         case 2:
@@ -358,10 +369,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 int error, odd;
                 if (blen != (1 + bytes)) return -1;
                 mpz_init(xz);
+                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_init_fp(x, cv->fp);
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
-                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
@@ -394,9 +409,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -423,9 +440,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
@@ -467,6 +486,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 // '3' implies odd, '2' even... negate if not matched
                 if ((b[0] & 0x01) != odd) {
                     mpFp_neg(y, y);
+                    if (mpFp_cmp_ui(y, 0) == 0) {
+                        // y = 0 has no odd counterpart
+                        mpFp_clear(t);
+                        mpFp_clear(y);
+                        mpFp_clear(x);
+                        mpz_clear(xz);
+                        return -1;
+                    }
                 }
                 mpECP_set_mpFp(rpt, x, y, cv);
                 mpFp_clear(t);
-- 
2.43.0


From 732e704086f35b21058cd1ad85ee812d5c3ab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 10/23] fix: point import refuses text that is not hexadecimal

the result of sscanf was not examined, so non-hex text used an uninitialised
byte and a sign made the assertion fail.
---
 src/ecpoint.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 068e9e4..a51987f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
@@ -316,10 +317,12 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
 
     for (i = 0; i < blen; i++) {
         unsigned int btmp;
-        sscanf(&s[2 * i], "%2X", &btmp);
-        // btmp is unsigned, always >= 0
-        //assert(btmp >= 0);
-        assert(btmp < 256);
+        // sscanf also accepts signs, blanks and prefixes, so check the digits
+        if (!isxdigit((unsigned char)s[2 * i]) || !isxdigit((unsigned char)s[2 * i + 1]) ||
+            (sscanf(&s[2 * i], "%2X", &btmp) != 1)) {
+            free(buf);
+            return -1;
+        }
         buf[i] = (unsigned char)btmp;
         //printf("%02X", buf[i]);
     }
-- 
2.43.0


From 0a55b459e2707d307028cb7c295626b10768cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 11/23] fix: signature import refuses text with signs, blanks
 or prefixes

sscanf accepts them as part of a two character hexadecimal field.
---
 src/ecdsa.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..d384907 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecdsa.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
@@ -336,7 +337,9 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
     for (i = 0; i < bsz; i++) {
         int iread;
-        iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        // sscanf also accepts signs, blanks and prefixes, so check the digits
+        iread = isxdigit((unsigned char)ssig[i<<1]) && isxdigit((unsigned char)ssig[(i<<1)+1]);
+        if (iread) iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
         if (iread != 1) {
             memset(bbytes, 0, bsz);
             free(bbytes);
-- 
2.43.0


From b8bee6fb35fe3a2f60f48519cac83af89e853d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 12/23] fix: ECDSA signing retries with the digest intact and
 rejects r = 0 mod n

a retry after s = 0 signed the inverse of the previous nonce in place of the
digest, and r was compared with zero before its reduction modulo the order.
---
 src/ecdsa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index d384907..eadfa67 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -118,14 +118,14 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
-    status = mpFp_inv(e_n, k_n);
+    // invert k in place, e_n has to survive another round
+    status = mpFp_inv(k_n, k_n);
     if (status != 0) goto new_random;
-    mpFp_mul(s_n, s_n, e_n);
+    mpFp_mul(s_n, s_n, k_n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;
 
     mpFp_init(sig->r, sscheme->cvp->n);
-- 
2.43.0


From 3e096616cc89786a3a5ebdf2f801a21826cc094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 13/23] fix: ECDSA refuses keys that do not belong to the
 scheme's curve

signing with a key of another order and verifying with a point of another
curve aborted the process; a neutral public key or verification point was
treated as if it had coordinates.
---
 src/ecdsa.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index eadfa67..f93b8d1 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -93,6 +93,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    // the secret key has to be a residue of the group order
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
@@ -157,10 +160,18 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_t Pq;
     int status;
 
-    if (sz == 0) return -1;
+    if ((msg == NULL) || (sz == 0)) return -1;
 
     if (sig == NULL) return -1;
 
+    // the public key has to be a point of the scheme's curve other than the neutral element
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) return -1;
+    mpECP_init(P, sig->sscheme->cvp);
+    mpECP_set_neutral(P, sig->sscheme->cvp);
+    status = mpECP_cmp(P, pK);
+    mpECP_clear(P);
+    if (status == 0) return -1;
+
     // validate signature input, presume public key was validated at import
     if ((mpz_cmp(sig->r->fp->p, sig->sscheme->cvp->n) != 0) ||
         (mpz_cmp(sig->s->fp->p, sig->sscheme->cvp->n) != 0)) {
@@ -172,6 +183,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     }
     
     hash = (unsigned char *)malloc(sig->sscheme->H->hsz * sizeof(char));
+    assert(hash != NULL);
 
     mpz_init(e);
     mpFp_init_fp(p_n, sig->sscheme->cvp->fp);
@@ -201,6 +213,10 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
 
     status = mpFp_cmp(p_n, sig->r);
 
+    // the neutral element has no x coordinate
+    mpECP_set_neutral(Pq, sig->sscheme->cvp);
+    if (mpECP_cmp(P, Pq) == 0) status = -1;
+
     mpECP_clear(Pq);
     mpECP_clear(P);
     mpFp_clear(u2);
-- 
2.43.0


From 433fcb3c1d6439ed51598da5103d3182e292b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 14/23] fix: curve definition from text refuses parameters that
 are not numbers

the status of mpz_set_str was ignored, so an unreadable parameter was
replaced by the value parsed before it or by zero.
---
 src/ecurve.c | 76 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 17f97ef..a03eabc 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -817,12 +817,15 @@ void mpECurve_set(mpECurve_t rop, mpECurve_t op){
 
 int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
+    int status, error;
     mpFp_field_ptr fp;
     mpz_t t;
 
     mpz_init(t);
-    mpz_set_str(t, p, 0);
+    if (mpz_set_str(t, p, 0) != 0) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     assert(fp != NULL);
@@ -831,28 +834,32 @@ char *h, char *Gx, char *Gy, unsigned int bits){
         cv->type = EQTypeShortWeierstrass;
         _mpECurve_init_coeff(cv);
     }
-    mpz_set_str(t, a, 0);
+    error = mpz_set_str(t, a, 0);
     mpFp_set_mpz_fp(cv->coeff.ws.a, t, cv->fp);
-    mpz_set_str(t, b, 0);
+    error |= mpz_set_str(t, b, 0);
     mpFp_set_mpz_fp(cv->coeff.ws.b, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
+    error |= mpz_set_str(cv->n, n, 0);
+    error |= mpz_set_str(cv->h, h, 0);
+    error |= mpz_set_str(cv->G[0], Gx, 0);
+    error |= mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
     status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
+    if (error != 0) return -1;
     return status;
 }
 
 int mpECurve_set_str_ed(mpECurve_t cv, char *p, char *c, char *d, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
+    int status, error;
     mpFp_field_ptr fp;
     mpz_t t;
 
     mpz_init(t);
-    mpz_set_str(t, p, 0);
+    if (mpz_set_str(t, p, 0) != 0) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     if (cv->type != EQTypeEdwards) {
@@ -860,17 +867,18 @@ char *h, char *Gx, char *Gy, unsigned int bits){
         cv->type = EQTypeEdwards;
         _mpECurve_init_coeff(cv);
     }
-    mpz_set_str(t, c, 0);
+    error = mpz_set_str(t, c, 0);
     mpFp_set_mpz_fp(cv->coeff.ed.c, t, cv->fp);
-    mpz_set_str(t, d, 0);
+    error |= mpz_set_str(t, d, 0);
     mpFp_set_mpz_fp(cv->coeff.ed.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
+    error |= mpz_set_str(cv->n, n, 0);
+    error |= mpz_set_str(cv->h, h, 0);
+    error |= mpz_set_str(cv->G[0], Gx, 0);
+    error |= mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
     status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
+    if (error != 0) return -1;
     return status;
 }
 
@@ -887,15 +895,15 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_init(zGx);
     mpz_init(zGy);
 
-    mpz_set_str(zp, p, 0);
-    mpz_set_str(zB, B, 0);
-    mpz_set_str(zA, A, 0);
-    mpz_set_str(zn, n, 0);
-    mpz_set_str(zh, h, 0);
-    mpz_set_str(zGx, Gx, 0);
-    mpz_set_str(zGy, Gy, 0);
+    status = mpz_set_str(zp, p, 0);
+    status |= mpz_set_str(zB, B, 0);
+    status |= mpz_set_str(zA, A, 0);
+    status |= mpz_set_str(zn, n, 0);
+    status |= mpz_set_str(zh, h, 0);
+    status |= mpz_set_str(zGx, Gx, 0);
+    status |= mpz_set_str(zGy, Gy, 0);
 
-    status = mpECurve_set_mpz_mo(cv, zp, zB, zA, zn, zh, zGx, zGy, bits);
+    if (status == 0) status = mpECurve_set_mpz_mo(cv, zp, zB, zA, zn, zh, zGx, zGy, bits);
 
     mpz_clear(zGy);
     mpz_clear(zGx);
@@ -909,12 +917,15 @@ char *h, char *Gx, char *Gy, unsigned int bits){
 
 int mpECurve_set_str_te(mpECurve_t cv, char *p, char *a, char *d, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
-    int status;
+    int status, error;
     mpFp_field_ptr fp;
     mpz_t t;
 
     mpz_init(t);
-    mpz_set_str(t, p, 0);
+    if (mpz_set_str(t, p, 0) != 0) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     if (cv->type != EQTypeTwistedEdwards) {
@@ -922,17 +933,18 @@ char *h, char *Gx, char *Gy, unsigned int bits){
         cv->type = EQTypeTwistedEdwards;
         _mpECurve_init_coeff(cv);
     }
-    mpz_set_str(t, a, 0);
+    error = mpz_set_str(t, a, 0);
     mpFp_set_mpz_fp(cv->coeff.te.a, t, cv->fp);
-    mpz_set_str(t, d, 0);
+    error |= mpz_set_str(t, d, 0);
     mpFp_set_mpz_fp(cv->coeff.te.d, t, cv->fp);
-    mpz_set_str(cv->n, n, 0);
-    mpz_set_str(cv->h, h, 0);
-    mpz_set_str(cv->G[0], Gx, 0);
-    mpz_set_str(cv->G[1], Gy, 0);
+    error |= mpz_set_str(cv->n, n, 0);
+    error |= mpz_set_str(cv->h, h, 0);
+    error |= mpz_set_str(cv->G[0], Gx, 0);
+    error |= mpz_set_str(cv->G[1], Gy, 0);
     cv->bits = bits;
     status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     mpz_clear(t);
+    if (error != 0) return -1;
     return status;
 }
 
-- 
2.43.0


From 1244cdbab0ef62644eb1446e33df59e015353b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 15/23] fix: ElGamal decryption accepts equal curve objects and
 reports different ones

the two halves of a ciphertext were required to share one curve object, and
the process was aborted otherwise.
---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From 12236bc8154f1dcfbf0eedb902688e7af2487ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 16/23] fix: random bytes are not buffered across fork

stdio read 4096 bytes ahead; after a fork both processes went on to use the
same bytes for keys and nonces.
---
 src/mpzurandom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..a3c2627 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -50,6 +50,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
+        // no read ahead: buffered bytes would be shared with child processes
+        setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
-- 
2.43.0


From 08d4d92563b014ddbcce11578691a52c23cabd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 17/23] fix: erasing allocator survives optimisation and wipes
 shrunk blocks

memset directly before free is removed at -O2, and the tail of a block that
shrank was never erased because it is released with its smaller size.
---
 src/safememory.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..b908f86 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,10 +34,20 @@
 #include <string.h>
 #include <stdlib.h>
 
+// called through a volatile pointer, as the compiler drops a memset which
+// is followed by free
+static void *(*volatile _wipe_memset)(void *, int, size_t) = memset;
+
+static void _wipe(void *p, size_t sz) {
+    _wipe_memset(p, 0, sz);
+}
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the block keeps its size, but will be released as newsz bytes
+        _wipe((char *)old + newsz, oldsz - newsz);
         return old;
     }
 
@@ -48,14 +58,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _wipe(old, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _wipe(old, oldsz);
     free (old);
 }
 
-- 
2.43.0


From 8b8843c97f1f3e7a77f9c80cac7355e142fc74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 18/23] fix: random and imported signature bytes are erased
 before release

the random buffer was not erased, and the memset in signature import is
removed by the compiler because free follows it.
---
 src/ecdsa.c      | 7 +++----
 src/mpzurandom.c | 4 +++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index f93b8d1..b4de125 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -34,6 +34,7 @@
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
+#include <ecc/safememory.h>
 #include <gmp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -357,16 +358,14 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
         iread = isxdigit((unsigned char)ssig[i<<1]) && isxdigit((unsigned char)ssig[(i<<1)+1]);
         if (iread) iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
         if (iread != 1) {
-            memset(bbytes, 0, bsz);
-            free(bbytes);
+            _safe_clean_free(bbytes, bsz);
             return -1;
         }
     }
 
     status = mpECDSASignature_init_import_bytes(sig, sscheme, bbytes, bsz);
 
-    memset(bbytes, 0, bsz);
-    free(bbytes);
+    _safe_clean_free(bbytes, bsz);
     return status;
 }
 
diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index a3c2627..a965a9d 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -30,6 +30,7 @@
 
 #include <assert.h>
 #include <ecc/mpzurandom.h>
+#include <ecc/safememory.h>
 #include <gmp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -57,10 +58,11 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
+    assert(buffer != NULL);
     sz_read = fread(buffer, sizeof(char), bytes, _f_urandom);
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
-    free(buffer);
+    _safe_clean_free(buffer, bytes);
     return;
 }
-- 
2.43.0


From 3e8dd9eef3ab2c6a6b67704f6cd40d667352fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:59 +0000
Subject: [PATCH 19/23] fix: a swapped base table refers to the curve object of
 its new point

---
 src/ecpoint.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index a51987f..f8034ac 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -81,6 +81,14 @@ static void _mpECP_base_pts_cleanup(mpECP_t pt) {
     pt->base_bits = 0;
 }
 
+static void _mpECP_base_pts_set_curve(mpECP_t pt) {
+    int i, npts;
+    npts = _mpECP_n_base_pts(pt);
+    for (i = 0; i < npts; i++) {
+        pt->base_pt[i].cvp = pt->cvp;
+    }
+}
+
 static int _known_curve_type(mpECurve_t cv) {
     return (cv->type == EQTypeShortWeierstrass) || 
         (cv->type == EQTypeEdwards) ||
@@ -746,6 +754,9 @@ void mpECP_swap(mpECP_t pt2, mpECP_t pt1) {
     t_base_pt = pt2->base_pt;
     pt2->base_pt = pt1->base_pt;
     pt1->base_pt = t_base_pt;
+    // a table refers to the curve object of the point which holds it
+    if (pt1->base_bits != 0) _mpECP_base_pts_set_curve(pt1);
+    if (pt2->base_bits != 0) _mpECP_base_pts_set_curve(pt2);
     return;
 }
 
-- 
2.43.0


From 42a0f664c7f8a68e8330544fdf56905b56c46950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 20/23] fix: Python integers of 2048 bits or more overrun the
 conversion buffer

---
 python/pygmplong.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..fc3218c 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -53,7 +53,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//printf("psz = %d\n", psz);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	if (psz >= sizeof(pdata)) {
 		return -1;
 	}
 	
@@ -113,7 +113,7 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	psz = _PyLong_NumBits((PyObject*)pobj);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	if (psz >= sizeof(pdata)) {
 		return -1;
 	}
 
-- 
2.43.0


From db0819e74479b70fb06f09dba3e7cd7fad40dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 21/23] fix: field arithmetic with an unconvertible Python
 integer used zero instead of raising

---
 python/pyfield.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..eb53209 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -140,9 +140,12 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 	mpFp_t op2f;
 
 	mpz_init(op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "Error converting integer to mpz_t");
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_init_fp(op2f, op1->fe->fp);
-
-	_pylong_to_mpz(op2, op2z);
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
@@ -197,9 +200,12 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 	mpFp_t op2f;
 
 	mpz_init(op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "Error converting integer to mpz_t");
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_init_fp(op2f, op1->fe->fp);
-
-	_pylong_to_mpz(op2, op2z);
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
@@ -264,9 +270,12 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 	mpFp_t op2f;
 
 	mpz_init(op2z);
+	if (_pylong_to_mpz(op2, op2z) != 0) {
+		PyErr_SetString(PyExc_ValueError, "Error converting integer to mpz_t");
+		mpz_clear(op2z);
+		return NULL;
+	}
 	mpFp_init_fp(op2f, op1->fe->fp);
-
-	_pylong_to_mpz(op2, op2z);
 	mpFp_set_mpz_fp(op2f, op2z, op1->fe->fp);
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
-- 
2.43.0


From b9bcd8688c767602389ddd9cc238a8321d7064c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 22/23] fix: ECPoint from unconvertible Python integers used
 zero instead of raising

---
 python/pypoint.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..3c669ff 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -110,9 +110,14 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 }
                 
                 mpz_init(ixmpz);
-                _pylong_to_mpz((PyLongObject *)ix, ixmpz);
                 mpz_init(iympz);
-                _pylong_to_mpz((PyLongObject *)iy, iympz);
+                if ((_pylong_to_mpz((PyLongObject *)ix, ixmpz) != 0) ||
+                    (_pylong_to_mpz((PyLongObject *)iy, iympz) != 0)) {
+                    PyErr_SetString(PyExc_ValueError, "Error converting integer to mpz_t");
+                    mpz_clear(iympz);
+                    mpz_clear(ixmpz);
+                    return -1;
+                }
 
                 mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
                 
-- 
2.43.0


From fff4165c7db21e9a8588830b561de00eee48117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 23/23] fix: ECDSA signing and verifying released the caller's
 message bytes

The hash wrapper and the callers each gave up a reference to the message that was never taken; with a bytes message every call dropped one reference of the caller's object, which was freed while in use.
---
 python/pyecdsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..525b283 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -84,7 +84,7 @@ static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t
     assert(status == 0);
     pyhash = PyObject_CallObject(hnew, tuple);
     assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    Py_DECREF(tuple);
     Py_DECREF(hnew);
 
     Py_INCREF(pyhash);
@@ -264,13 +264,13 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
     }
     
     ham.hashmodule = ssis->ss->hashmodule;
@@ -565,13 +565,13 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
     }
 
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
-- 
2.43.0

