From 200a4127ee88fc0ddfe29f40d63b1dba1c354190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 01/33] fix: learn F4 traces only with exact sparse linear
 algebra (-l 2)

With -l 1 over the rationals the sparse-dense linear algebra records no
tracing data, so applying the (empty) trace made every further prime fail:
'Problem with F4' or a crash.
---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..479efd7 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* only the sparse exact linear algebra generates tracing data */
+        if (md->laopt == 2) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From e8afa6cebd0f994c6afd0a888fa3b1323426e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:53 +0000
Subject: [PATCH 02/33] fix: print 1 as the leading monomial of the unit ideal
 with -g 1 over prime fields

---
 src/msolve/iofiles.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..56ae563 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -244,6 +244,9 @@ static void print_msolve_polynomials_ff(
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
                     }
                 }
+                if (ctr == 0) {
+                    fprintf(file, "1");
+                }
                 if (i < to-1) {
                     fprintf(file, ",\n");
                 } else {
-- 
2.43.0


From ebb6274360e84cf2e9370e4b388d66a8fe99e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 03/33] fix: bound the delay before rational reconstruction
 independently of the clock

With a clock that steps backwards (or is too coarse) the delay was doubled
at every prime until it overflowed to 0 (SIGFPE) or the lifting never ended.
---
 src/msolve/lifting-gb.c | 5 ++++-
 src/msolve/msolve.c     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 07ebb22..c7f991b 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1433,7 +1433,10 @@ gb_modpoly_t *core_groebner_qq(
         ratrecon_gb((*modgbsp), dlift, msd->mod_p, msd->prod_p, recdata1, recdata2,
                     nthrds/* st->nthrds */, &st_crt, &st_rrec);
       }
-      if((st_crt -ost_crt) + (st_rrec - ost_rrec) > dlift->rr * stf4){
+      /* timings may be wrong (clock adjustments): never let the delay exceed
+       * the number of primes already used, otherwise we may wait forever */
+      if(dlift->rr <= nprimes &&
+         (st_crt -ost_crt) + (st_rrec - ost_rrec) > dlift->rr * stf4){
         dlift->rr = 2*dlift->rr;
         if(info_level){
           fprintf(stdout, "(->%d)", dlift->rr);
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index f94692e..2c181d3 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2442,7 +2442,10 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
     strat += scrr;
 
     double t = ((double)nbdoit) * ca1;
-    if ((t == 0) || (scrr >= 0.2 * t && br == 0)) {
+    /* timings may be wrong (clock adjustments, coarse clock): bound the delay
+     * by the number of primes already used */
+    if (nbdoit <= nprimes &&
+        ((t == 0) || (scrr >= 0.2 * t && br == 0))) {
       nbdoit = 2 * nbdoit;
       lpow2 = 2 * nprimes;
       doit = 0;
-- 
2.43.0


From 89c9de51eda8c88e3e027990553b49fb3688aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 04/33] fix: free the rational reconstruction data only once
 when restarting after bad primes

---
 src/msolve/msolve.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 2c181d3..83c2fb0 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2433,7 +2433,6 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
           free_rrec_data(recdata);
           mpz_clear(prod_crt);
           trace_det_clear(trace_det);
-          free_rrec_data(recdata);
           fprintf(stderr, "Many other data should be cleaned\n");
           return -4;
         }
-- 
2.43.0


From 10e95de580f8dc4cbea5e45b43fc19fc9236398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 05/33] fix: enlarge the basis hash table before inserting
 reduced rows

The check in insert_in_basis_hash_table_pivots was disabled, and the checks
in symbol.c tested for equality, so a table filled exactly to (or past) its
capacity was never enlarged and was written out of bounds (small -s).
---
 src/neogb/hash.c   |  4 ++--
 src/neogb/symbol.c | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..7eae3b7 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -1069,9 +1069,9 @@ static inline void insert_in_basis_hash_table_pivots(
 {
     len_t l;
 
-    /* while (bht->esz - bht->eld < row[LENGTH]) {
+    while (bht->esz - bht->eld < row[LENGTH]) {
         enlarge_hash_table(bht);
-    } */
+    }
 
     const len_t len = row[LENGTH]+OFFSET;
     const len_t evl = bht->evl;
diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index 62d069f..d02c946 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -121,7 +121,7 @@ static void select_all_spairs(
         /* track trace information ? */
         if (tht != NULL) { 
            rrows[nrr][BINDEX]  = prev;
-            if (tht->eld == tht->esz-1) {
+            if (tht->eld >= tht->esz-1) {
                 enlarge_hash_table(tht);
             }
             rrows[nrr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -157,7 +157,7 @@ static void select_all_spairs(
             /* track trace information ? */
             if (tht != NULL) {
                 trows[ntr][BINDEX]  = prev;
-                if (tht->eld == tht->esz-1) {
+                if (tht->eld >= tht->esz-1) {
                     enlarge_hash_table(tht);
                 }
                 trows[ntr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -326,7 +326,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) { 
            rrows[nrr][BINDEX]  = prev;
-            if (bs->ht->eld == bs->ht->esz-1) {
+            if (bs->ht->eld >= bs->ht->esz-1) {
                 enlarge_hash_table(bs->ht);
             }
 #if PARALLEL_HASHING
@@ -361,7 +361,7 @@ static int32_t select_spairs_by_minimal_degree(
             /* track trace information ? */
             if (md->trace_level == LEARN_TRACER) {
                 trows[ntr][BINDEX]  = prev;
-                if (bs->ht->eld == bs->ht->esz-1) {
+                if (bs->ht->eld >= bs->ht->esz-1) {
                     enlarge_hash_table(bs->ht);
                 }
 #if PARALLEL_HASHING
@@ -539,7 +539,7 @@ start:
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) {
             rows[rr][BINDEX]  = lmps[i];
-            if (bht->eld == bht->esz-1) {
+            if (bht->eld >= bht->esz-1) {
                 enlarge_hash_table(bht);
             }
 #if PARALLEL_HASHING
-- 
2.43.0


From 9d2a6ebcca47bbb34b27900da403f0d4904d4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:06 +0000
Subject: [PATCH 06/33] fix: treat a prime with a different number of leading
 monomials as bad

gb_modular_trace_application returned without flagging the prime, so the
previous residues were fed to the CRT a second time with the same modulus
and FLINT aborted (impossible inverse).  Also test bs before using it.
---
 src/msolve/lifting-gb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index c7f991b..6ff05fb 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -748,11 +748,11 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   int32_t error = 0;
   bs = core_gba(bs_qq, st, &error, lp->p[0]);
   *stf4 = realtime()-rt;
-  ht_t **bht = &(bs->ht);
   if (bs == NULL) {
       bad_primes[0] = 1;
       return;
   }
+  ht_t **bht = &(bs->ht);
   int32_t lml = bs->lml;
   if (st->nev > 0) {
       int32_t j = 0;
@@ -766,6 +766,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
       lml = j;
   }
   if (lml != num_gb[0]) {
+      bad_primes[0] = 1;
       if (bs != NULL) {
         free_basis_and_only_local_hash_table_data(&bs);
       }
-- 
2.43.0


From 4875333c1f36b6aa12ad08b6195b58efe94701f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:17 +0000
Subject: [PATCH 07/33] fix: use the exact linear algebra in normal forms
 independently of other threads

core_nf selected exact linear algebra through the global function pointer,
which other threads running F4 for other primes reset to the user's choice
(-l 1, 42, 44): the normal form was then computed by the wrong routine.
---
 src/neogb/io.c | 1 +
 src/neogb/nf.c | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index e20805b..bde94da 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -932,6 +932,7 @@ void set_function_pointers(
         default:
           linear_algebra  = exact_sparse_linear_algebra_qq;
       }
+      exact_linear_algebra    = exact_sparse_linear_algebra_qq;
       interreduce_matrix_rows = interreduce_matrix_rows_qq;
       break;
 
diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..fbe2c97 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -83,8 +83,9 @@ bs_t *core_nf(
     convert_hashes_to_columns(mat, md, md->ht);
     sort_matrix_rows_decreasing(mat->rr, mat->nru);
 
-    /* linear algebra, depending on choice, see set_function_pointers() */
-    linear_algebra(mat, tbr, bs, md);
+    /* exact linear algebra: linear_algebra itself is shared with other
+     * threads which may run F4 with a different linear algebra option */
+    exact_linear_algebra(mat, tbr, bs, md);
     /* columns indices are mapped back to exponent hashes */
     return_normal_forms_to_basis(
             mat, tbr, bht, md->ht, md->hcm, md);
-- 
2.43.0


From 7793d41cc9816a7e7cb0441b41280b9ec3bb0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:31 +0000
Subject: [PATCH 08/33] fix: print the linear form in use after switching from
 a random to a fixed one

---
 src/msolve/msolve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 83c2fb0..90739bf 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -606,6 +606,7 @@ static int add_linear_form_to_input_system(data_gens_ff_t *gens,
     }
     mpz_set_si(*(gens->mpz_cfs[2 * (len_new - 1)]), 1);
   }
+  gens->rand_linear = 0;
   return 1;
 }
 
-- 
2.43.0


From 033574bd9febe5597e047158de87772a0132e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:01 +0000
Subject: [PATCH 09/33] fix: treat a constant last variable as a non generic
 staircase

---
 src/msolve/hilbert.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index 579b7fe..cdb46e0 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -3602,7 +3602,9 @@ static inline sp_matfglm_t * build_matrixn_unstable_from_bs_trace(int32_t **bdiv
     break;
   }
 
-  if (count_not_lm > threshold) {
+  /* the variable x_n is the second element of the monomial basis unless it
+     is a leading monomial: it is then constant and cannot parametrize */
+  if (count_not_lm > threshold || (dquot > 1 && lmb[2*nv-1] == 0)) {
     if(info_level){
       fprintf(stderr, "Staircase is not generic\n");
       fprintf(stderr, "and too many normal forms need to be computed\n");
-- 
2.43.0


From 3ab80215301c668148958a44e9452fa701f12a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 10/33] fix: verify parametrizations of ideals that are not in
 shape position

---
 src/msolve/msolve.c | 55 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 90739bf..c9e887e 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1875,6 +1875,53 @@ static inline int is_lucky_matmul_prime_ui(uint32_t prime,
   return 0;
 }
 
+/* returns 1 if all generators vanish on the parametrization modulo prime */
+static int check_param_on_generators(const param_t *param,
+                                     const data_gens_ff_t *gens,
+                                     const mod_t prime) {
+  const long nv = gens->nvars;
+  int vanish = 1;
+  nmod_poly_t eval, term, var;
+  nmod_poly_init(eval, prime);
+  nmod_poly_init(term, prime);
+  nmod_poly_init(var, prime);
+  long k = 0;
+  for (long i = 0; i < gens->ngens && vanish; i++) {
+    nmod_poly_zero(eval);
+    for (long j = 0; j < gens->lens[i]; j++, k++) {
+      uint64_t c;
+      if (gens->field_char > 0) {
+        c = (((int64_t)gens->cfs[k]) % (int64_t)prime + prime) % prime;
+      } else {
+        const uint64_t num = mpz_fdiv_ui(*(gens->mpz_cfs[2 * k]), prime);
+        const uint64_t den = mpz_fdiv_ui(*(gens->mpz_cfs[2 * k + 1]), prime);
+        c = (num * n_invmod(den, prime)) % prime;
+      }
+      nmod_poly_zero(term);
+      nmod_poly_set_coeff_ui(term, 0, c);
+      for (long l = 0; l < nv; l++) {
+        if (l < nv - 1) {
+          nmod_poly_neg(var, param->coords[l]);
+        } else {
+          nmod_poly_zero(var);
+          nmod_poly_set_coeff_ui(var, 1, 1);
+        }
+        for (int32_t e = 0; e < gens->exps[k * nv + l]; e++) {
+          nmod_poly_mul(term, term, var);
+          nmod_poly_rem(term, term, param->elim);
+        }
+      }
+      nmod_poly_add(eval, eval, term);
+    }
+    nmod_poly_rem(eval, eval, param->elim);
+    vanish = nmod_poly_is_zero(eval);
+  }
+  nmod_poly_clear(eval);
+  nmod_poly_clear(term);
+  nmod_poly_clear(var);
+  return vanish;
+}
+
 /*
 
   - renvoie 0 si le calcul est ok.
@@ -2091,11 +2138,17 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
   if (*dim_ptr == 0 && success && *dquot_ptr > 0 && print_gb == 0) {
     if (nmod_params[0]->elim->length - 1 != *dquot_ptr) {
       for (int i = 0; i < nr_vars - 1; i++) {
-        if ((squvars[i] == 0) && round) {
+        if ((squvars[i] == 0) && round < 0) {
           squares = 0;
           success = 0;
         }
       }
+      /* the random linear form may not separate the solutions */
+      if (success && !check_param_on_generators(nmod_params[0], gens,
+                                                lp->p[0])) {
+        squares = 0;
+        success = 0;
+      }
     }
   }
 
-- 
2.43.0


From 8f78654b77e6cf3d040c0d64a8427fe6764c9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 11/33] fix: keep the size of the basis arrays when undoing the
 saturation test

---
 src/neogb/f4sat.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index a0216b7..8ac07fc 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -189,13 +189,15 @@ static int is_already_saturated(
     /* reset infolevel */
     st->info_level  = infolevel;
 
-    free(bs->lm);
-    bs->lm    = lm;
-    free(bs->lmps);
-    bs->lmps  = lmps;
+    /* the arrays of bs keep their size, they may have been enlarged */
+    memcpy(bs->lm, lm, (unsigned long)lml * sizeof(sdm_t));
+    free(lm);
+    memcpy(bs->lmps, lmps, (unsigned long)lml * sizeof(bl_t));
+    free(lmps);
     bs->lml   = lml;
-    free(bs->red);
-    bs->red   = red;
+    memset(bs->red, 0, (unsigned long)bs->sz * sizeof(int8_t));
+    memcpy(bs->red, red, (unsigned long)bld * sizeof(int8_t));
+    free(red);
 
     /* *hcmp = hcm; */
     *bhtp = bht;
-- 
2.43.0


From bff9a2c0f31b89a006b7887892132429cdcc17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:53 +0000
Subject: [PATCH 12/33] fix: size the multiplier arrays of the saturation
 kernel by the number of multipliers

---
 src/neogb/la_ff_32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 6cbe615..1787689 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2900,9 +2900,9 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
  *     printf("not trivial! "); */
     /* if kernel is not trivial really compute it */
     /* dense row for multipliers */
-    hm_t **mulh     = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
-    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
-    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
+    hm_t **mulh     = (hm_t **)calloc((unsigned long)sat->ld, sizeof(hm_t *));
+    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
+    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
     int64_t *drm    = calloc((unsigned long)sat->ld, sizeof(int64_t));
     /* now we do a ususal F4 reduction with updated pivs, but we have
      * to track the reduction steps when reducing each row from upivs */
@@ -2975,7 +2975,7 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
         free(pivs[i]);
         pivs[i] = NULL;
     }
-    for (i = 0; i < ncols; ++i) {
+    for (i = 0; i < sat->ld; ++i) {
         free(mulcf[i]);
         mulcf[i]  = NULL;
         free(pivcf[i]);
-- 
2.43.0


From 10bebe55994c733b1479a6867fcbc2c3dd53c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:53 +0000
Subject: [PATCH 13/33] fix: draw nonzero multipliers from the whole range in
 probabilistic linear algebra

---
 src/neogb/la_ff_32.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 1787689..a663a36 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2328,7 +2328,7 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
      * We can have fc > 2^31, so shifting the result of random multiplier
      * and coefficient may lead to elements of size > 2^63 which cannot
      * be represented by int64_t anymore. Thus we restrict the multiplier
-     * via masking with mask to < 2^31. Then, after subtracting the
+     * to be at most fc/4 < 2^31. Then, after subtracting the
      * multiplied values we have to check if at some point the result gets
      * negative as int64_t, i.e. if drl[i] >> 63 is 1. If so, we add a
      * corresponding multiple of fc. Again, if fc > 2^31 we cannot just
@@ -2345,8 +2345,10 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
     const len_t nb  = (len_t)(floor(sqrt(nrl/3)))+1;
     const len_t rem = (nrl % nb == 0) ? 0 : 1;
     const len_t rpb = (nrl / nb) + rem;
-    /* const int64_t mask  = pow(2,(uint32_t)(ceil(log((double)st->max_uht_size)/log(2))))-1; */
-    const int64_t mask  = pow(2,15)-1;
+    /* The multipliers are nonzero and not larger than fc/4. If they are
+     * drawn from a too small set (or if they may vanish) the probability
+     * to lose a row is no longer negligible. */
+    const int64_t bound = fc > 7 ? fc / 4 : 1;
 
     int64_t *dr   = (int64_t *)malloc(
         (unsigned long)(st->nthrds * ncols) * sizeof(int64_t));
@@ -2375,7 +2377,7 @@ static void probabilistic_sparse_reduced_echelon_form_ff_32(
 
                 /* fill random value array */
                 for (j = 0; j < nrbl; ++j) {
-                    mull[j] = (int64_t)rand() & mask;
+                    mull[j] = 1 + (int64_t)rand() % bound;
                 }
                 /* generate one dense row as random linear combination
                  * of the rows of the block */
@@ -3551,7 +3553,7 @@ static cf32_t **probabilistic_dense_linear_algebra_ff_32(
      * We can have fc > 2^31, so shifting the result of random multiplier
      * and coefficient may lead to elements of size > 2^63 which cannot
      * be represented by int64_t anymore. Thus we restrict the multiplier
-     * via masking with mask to < 2^31. Then, after subtracting the
+     * to be at most fc/4 < 2^31. Then, after subtracting the
      * multiplied values we have to check if at some point the result gets
      * negative as int64_t, i.e. if drl[i] >> 63 is 1. If so, we add a
      * corresponding multiple of fc. Again, if fc > 2^31 we cannot just
@@ -3569,8 +3571,10 @@ static cf32_t **probabilistic_dense_linear_algebra_ff_32(
     const len_t nb  = (len_t)(floor(sqrt(ntr/3)))+1;
     const len_t rem = (ntr % nb == 0) ? 0 : 1;
     const len_t rpb = (ntr / nb) + rem;
-    /* const int64_t mask  = pow(2,(uint32_t)(ceil(log((double)st->max_uht_size)/log(2))))-1; */
-    const int64_t mask  = pow(2,15)-1;
+    /* The multipliers are nonzero and not larger than fc/4. If they are
+     * drawn from a too small set (or if they may vanish) the probability
+     * to lose a row is no longer negligible. */
+    const int64_t bound = fc > 7 ? fc / 4 : 1;
 
     int64_t *dr   = (int64_t *)malloc(
         (unsigned long)(st->nthrds * ncols) * sizeof(int64_t));
@@ -3598,7 +3602,7 @@ static cf32_t **probabilistic_dense_linear_algebra_ff_32(
 
                 /* fill random value array */
                 for (j = 0; j < nrbl; ++j) {
-                    mull[j] = (int64_t)rand() & mask;
+                    mull[j] = 1 + (int64_t)rand() % bound;
                 }
                 /* generate one dense row as random linear combination
                  * of the rows of the block */
-- 
2.43.0


From 4465b99a5e3630751dd3deaca30aed0f8d4846b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:01 +0000
Subject: [PATCH 14/33] fix: do not read before the leading monomials of an
 empty elimination basis

---
 src/msolve/hilbert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index cdb46e0..aa15a07 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -1310,7 +1310,7 @@ static inline void copy_nf_in_matrix_from_bs_32(sp_matfglm_t* matrix,
 static inline int32_t *monomial_basis_enlarged(long length, long nvars,
                                                int32_t *bexp_lm, long *dquot){
 
-  int32_t maxdeg = sum(bexp_lm+(length-1)*(nvars), nvars);
+  int32_t maxdeg = length > 0 ? sum(bexp_lm+(length-1)*(nvars), nvars) : 0;
 
   /* basis will contain the monomial basis */
   int32_t *basis = calloc(nvars, sizeof(int32_t));
-- 
2.43.0


From 55c0366d1fed421dcc5c98f82ac1c3efe2f0d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 15/33] fix: reset the bad prime flags in multi-modular
 Groebner basis computations

The flags were cleared with st->nprimes, which is not set on this path, so
after the first bad prime every further prime was considered bad and the
computation never ended.
---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 6ff05fb..2dd8198 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -742,7 +742,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   /* F4 and FGLM are run using a single thread */
   /* st->nthrds is reset to its original value afterwards */
   /*at the moment multi-threading is not supprted here*/
-  memset(bad_primes, 0, (unsigned long)st->nprimes * sizeof(int));
+  memset(bad_primes, 0, (unsigned long)st->nthrds * sizeof(int));
 
   bs_t *bs = NULL;
   int32_t error = 0;
-- 
2.43.0


From 303d24c30080d449d1d0b648281b4d428da7cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 16/33] fix: relearn with another prime when all primes were
 bad in groebner_qq

The restart seeded rand() with the time again, hence drew the same primes
within a second, and kept the trace learned with the bad prime.
---
 src/msolve/lifting-gb.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 2dd8198..cb8c5dd 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1180,6 +1180,8 @@ gb_modpoly_t *core_groebner_qq(
   uint32_t lprime = 1303905299;
   srand(time(0));
 
+ restart: ;
+  /* a restart draws another prime and learns again */
   prime = next_prime(rand() % (1303905301 - (1<<30) + 1) + (1<<30));
   while(fc == 0 && is_lucky_prime_ui(prime, msd->bs_qq)){
     prime = next_prime(rand() % (1303905301 - (1<<30) + 1) + (1<<30));
@@ -1419,11 +1421,16 @@ gb_modpoly_t *core_groebner_qq(
           data_lift_clear(dlift);
         }
 
+        gb_modpoly_clear((*modgbsp));
+
         free_rrec_data(recdata1);
         free_rrec_data(recdata2);
 
-        return core_groebner_qq(modgbsp, bs, msd, st, errp, fc, print_gb); 
+        free_trace(&(st->tr));
+        st->trace_level = NO_TRACER;
+        st->info_level  = info_level;
 
+        goto restart;
       }
 
       int lstart = dlift->lstart;
-- 
2.43.0


From 2bdfdc68dcb9a25f81671f3e38de94d2d557ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 17/33] fix: keep working data when a prime is bad in
 multi-modular solving

On a bad prime secondary_modular_steps dropped the parametrization buffer
used by all further primes, freed hash table data shared with the input
basis, and let threads overwrite each other's error flag.
---
 src/msolve/msolve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index c9e887e..07dfcea 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1706,7 +1706,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     double rt = realtime();
     /* tracing phase */
     len_t i;
-    int32_t error = 0;
 
     /* F4 and FGLM are run using a single thread */
     /* st->nthrds is reset to its original value afterwards */
@@ -1719,6 +1718,7 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     private(i) schedule(static)
     for (i = 0; i < st->nprimes; ++i){
       if (trace_det->mat_lifted < 2 || trace_det->lin_lifted < 2) {
+        int32_t error = 0;
         bs[i] = core_gba(bs_qq, st, &error, lp->p[i]);
         *stf4 = realtime()-rt;
         /* printf("F4 trace timing %13.2f\n", *stf4); */
@@ -1728,7 +1728,7 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
                 free(bs[i]);
                 bs[i] = NULL;
             }
-            nmod_params[i] = NULL;
+            /* nmod_params[i] is used again with the next primes */
             bad_primes[i] = 1;
             continue;
         }
@@ -1746,7 +1746,7 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
         }
         if(lml != num_gb[i]){
             if (bs[i] != NULL) {
-                free_basis(&(bs[i]));
+                free_basis_and_only_local_hash_table_data(&(bs[i]));
             }
             /* nmod_params[i] = NULL; */
             bad_primes[i] = 1;
-- 
2.43.0


From 3833fb6e772977e27a0ab57d39ea3e6916ddbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 18/33] fix: do not free unset linear equations when restarting
 after bad primes

---
 src/msolve/msolve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 07dfcea..2698164 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2481,7 +2481,9 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
         if (nbadprimes > nprimes) {
           free(linvars);
           free(bnlins);
-          free(lineqs_ptr[0]);
+          if (nlins) {
+            free(lineqs_ptr[0]);
+          }
           free(lineqs_ptr);
           free(squvars);
           free_rrec_data(recdata);
-- 
2.43.0


From 1a31426888ccf68c466b63167aaa57d716fe2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 19/33] fix: seed the random number generator once per
 computation

Every restart of a computation (bad primes, a failed choice of linear form)
seeded the generator with time(0) again, so restarts inside the same second
drew the same primes and linear forms and failed the same way again.
---
 src/fglm/fglm_core.c | 2 --
 src/msolve/msolve.c  | 5 +++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index ae04cbe..3faf64b 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1471,7 +1471,6 @@ static inline long initialize_fglm_data(sp_matfglm_t *matrix,
     if(matrix->dense_mat[i]==0)
       nb++;
   }
-  srand(time(0));
   for(szmat_t i = 0; i < matrix->ncols; i++){
     data->vecinit[i] = (CF_t)rand() % prime;
   }
@@ -1492,7 +1491,6 @@ static inline long initialize_fglm_colon_data(sp_matfglmcol_t *matrix,
     if(matrix->dense_mat[i]==0)
       nb++;
   }
-  srand(time(0));
   for(szmat_t i = 0; i < matrix->ncols; i++){
     data->vecinit[i] = (CF_t)rand() % prime;
     data->vecinit[i] += (CF_t)rand() % prime;
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 2698164..85834a1 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -689,7 +689,6 @@ static int add_random_linear_form_to_input_system(data_gens_ff_t *gens,
     printf("(lowest w.r.t. monomial order)\n");
     printf("[coefficients of linear form are randomly chosen]\n");
   }
-  srand(time(0));
   /* gens->random_linear_form = malloc(sizeof(int32_t)*(nvars_new)); */
   gens->random_linear_form =
       realloc(gens->random_linear_form, sizeof(int32_t) * (nvars_new));
@@ -2055,7 +2054,6 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
   uint32_t prime = 0;
   uint32_t primeinit = 0;
   uint32_t lprime = 1303905299;
-  srand(time(0));
   prime = next_prime(rand() % (1303905301 - (1 << 30) + 1) + (1 << 30));
   while (gens->field_char == 0 && is_lucky_prime_ui(prime, bs_qq)) {
     prime = next_prime(rand() % (1303905301 - (1 << 30) + 1) + (1 << 30));
@@ -3624,6 +3622,9 @@ int core_msolve(
     /* counter for randomly chosen linear forms */
     int round = -1;
 
+    /* seeded only once: a restart has to draw other primes and linear forms */
+    srand(time(0));
+
 restart:
 
     param = NULL;
-- 
2.43.0


From e53eedceb61eba95f85ca2f3d832436feb0c31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 20/33] fix: terminate variable names copied by msolve_julia

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 85834a1..585d856 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -5071,7 +5071,7 @@ void msolve_julia(
     /* gens->vnames                = var_names; */
     gens->vnames  = (char **)malloc((unsigned long)nr_vars * sizeof(char *));
     for (i = 0; i < nr_vars; ++i) {
-        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]), sizeof(char));
+        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i])+1, sizeof(char));
         memcpy(gens->vnames[i], var_names[i], (unsigned long)strlen(var_names[i]) * sizeof(char));
     }
     /* gens->lens                  = lens; */
-- 
2.43.0


From fc71b6eb39f73e31a45f66efb09be705265b1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 21/33] fix: use exact linear algebra in export_nf

---
 src/neogb/nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index fbe2c97..a645dd5 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -154,7 +154,7 @@ int64_t export_nf(
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, 2, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From 41e3a7300791218f930bc809d131c9e11261c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 22/33] fix: separate input polynomials by commas, not by lines

---
 src/msolve/iofiles.c | 70 ++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 56ae563..a6d5996 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -390,20 +390,26 @@ static int32_t get_nvars(const char *fn)
 }
 
 /**
- * Checks if a null-terminated string is just empty
- * ("only whitespaces" counts as empty)
+ * Reads the next polynomial, i.e. everything up to the next comma, and
+ * removes white space, the comma and a leading plus sign. Polynomials may span several lines,
+ * empty ones are skipped.
  *
- * \return 1 if the line is empty, else 0
+ * \return 1 if a polynomial was read, 0 at the end of the file
  */
-static inline int is_line_empty(const char *line)
+static int get_polynomial(char **line, size_t *len, FILE *fh)
 {
-    while (*line != '\0')
-    {
-        if (!isspace(*line))
-            return 0;
-        line++;
+    while (getdelim(line, len, ',', fh) != -1) {
+        char *in = *line, *out = *line;
+        for (; *in != '\0'; ++in) {
+            if (!isspace((unsigned char)*in) && *in != ','
+                    && !(*in == '+' && out == *line))
+                *out++ = *in;
+        }
+        *out = '\0';
+        if (out != *line)
+            return 1;
     }
-    return 1;
+    return 0;
 }
 
 static int32_t get_ngenerators(char *fn)
@@ -418,11 +424,10 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* go through subsequent polynomials, not counting empty ones */
     else
-        while(getline(&line, &len, fh) != -1)
-            if (! is_line_empty(line))
-                ngens++;
+        while(get_polynomial(&line, &len, fh))
+            ngens++;
 
     free(line);
     fclose(fh);
@@ -556,14 +561,9 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
                                       int32_t *nr_gens, nelts_t *nterms, nelts_t *all_nterms){
 
     char *line  = *linep;
-    int32_t i = 0, j = 0, k = 0;
+    int32_t i = 0;
     size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
-        for (k = 0, j = 0; j < len; ++j) {
-            if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                line[k++] = line[j];
-            }
-        }
+    while(i < *nr_gens && get_polynomial(&line, &len, fh)) {
         *nterms  = get_number_of_terms(line);
         gens->lens[i] = *nterms;
         *all_nterms += *nterms;
@@ -818,17 +818,11 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
 
     gens->cfs = (int32_t *)(malloc(sizeof(int32_t) * all_nterms));
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
+        if (!get_polynomial(&line, &len, fh)) {
+            fprintf(stderr, "Bad file format (generators).\n");
+            exit(1);
         }
         if(get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
@@ -863,17 +857,11 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
     }
 
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
+        if (!get_polynomial(&line, &len, fh)) {
+            fprintf(stderr, "Bad file format (generators).\n");
+            exit(1);
         }
         if(get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
-- 
2.43.0


From 4828ddaed1a855ff6a2d2c1e571a5e3b2eefae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:03 +0000
Subject: [PATCH 23/33] fix: read coefficients over prime fields modulo the
 characteristic

---
 src/msolve/iofiles.c | 73 ++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index a6d5996..8eb41f9 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -656,53 +656,60 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
-/*assumes that coeffs in file fit in word size */
+/* coefficient of a term modulo the field characteristic */
+static int32_t get_coefficient_mod(const char *term, int32_t field_char)
+{
+  const char sign = term[0];
+  if (sign == '-' || sign == '+')
+    term++;
+  mpz_t num, den;
+  mpz_init_set_ui(num, 1);
+  mpz_init_set_ui(den, 1);
+  if (isdigit((unsigned char)*term)) {
+    char *buf   = strdup(term);
+    buf[strcspn(buf, "*")] = '\0';
+    char *slash = strchr(buf, '/');
+    if (slash != NULL)
+      *slash++  = '\0';
+    if (mpz_set_str(num, buf, 10) != 0
+        || (slash != NULL && mpz_set_str(den, slash, 10) != 0)) {
+      fprintf(stderr, "Bad file format (coefficient %s).\n", term);
+      exit(1);
+    }
+    free(buf);
+  }
+  if (sign == '-')
+    mpz_neg(num, num);
+  unsigned long cf = mpz_fdiv_ui(num, field_char);
+  if (mpz_cmp_ui(den, 1) != 0) {
+    mpz_set_ui(num, field_char);
+    if (mpz_invert(den, den, num) == 0) {
+      fprintf(stderr, "Denominator is zero modulo the characteristic (%s).\n", term);
+      exit(1);
+    }
+    cf = (cf * mpz_get_ui(den)) % (unsigned long)field_char;
+  }
+  mpz_clear(num);
+  mpz_clear(den);
+  return (int32_t)cf;
+}
+
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
                                           data_gens_ff_t *gens, int32_t pos){
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
   get_term(line, &prev_pos, &term, &term_size);
   if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
+    gens->cfs[pos]  = get_coefficient_mod(term, field_char);
     store_exponent(term, gens, pos*gens->nvars);
     for(int j = 1; j < nterms; j++){
       get_term(line, &prev_pos, &term, &term_size);
       if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
+        gens->cfs[pos+j] = get_coefficient_mod(term, field_char);
         store_exponent(term, gens, (pos+j)*gens->nvars);
       }
       //      store_exponent(term, basis, ht);
-- 
2.43.0


From c50850ae6f1a84fbc9c2ac477cb9c23baa870046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 24/33] fix: multiply repeated variables in an input term

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 8eb41f9..1e00676 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -51,7 +51,7 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             }
             for (k = 0; k < gens->nvars; ++k) {
                 if (strcmp(gens->vnames[k], var) == 0) {
-                    ((gens->exps) + pos)[k] = strtol(ev, NULL, 10);
+                    ((gens->exps) + pos)[k] += strtol(ev, NULL, 10);
                     break;
                 }
             }
-- 
2.43.0


From 8fa6fd88763bc50c784cce3237eedc04784e6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 25/33] fix: do not overflow the buffer for long variable names

---
 src/msolve/iofiles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 1e00676..05a109b 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -440,7 +440,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(line)+2) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
-- 
2.43.0


From 7f56d0dbe9b4d09038601fcd9962719ede833137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:06 +0000
Subject: [PATCH 26/33] fix: collect like terms and drop zero terms of the
 input

---
 src/msolve/iofiles.c | 88 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 88 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 05a109b..926124c 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -884,6 +884,93 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
 
 
 
+typedef struct {
+  const int32_t *exp;
+  int32_t nvars;
+  int64_t idx;
+} term_t;
+
+static int term_cmp(const void *a, const void *b)
+{
+  const term_t *s = (const term_t *)a;
+  const term_t *t = (const term_t *)b;
+  int r = memcmp(s->exp, t->exp, s->nvars * sizeof(int32_t));
+  if (r != 0)
+    return r;
+  return (s->idx > t->idx) - (s->idx < t->idx);
+}
+
+/* Adds up terms with the same monomial and removes terms with zero
+ * coefficient. A generator which is zero keeps one (zero) term. */
+static void collect_terms(data_gens_ff_t *gens)
+{
+  const int32_t nv = gens->nvars;
+  int64_t in  = 0;  /* terms read */
+  int64_t out = 0;  /* terms kept */
+  mpq_t sum, tmp;
+  mpq_init(sum);
+  mpq_init(tmp);
+  for (int32_t i = 0; i < gens->ngens; ++i) {
+    const int32_t len = gens->lens[i];
+    term_t *terms = (term_t *)malloc(len * sizeof(term_t));
+    for (int64_t j = 0; j < len; ++j) {
+      terms[j].exp    = gens->exps + (in+j)*nv;
+      terms[j].nvars  = nv;
+      terms[j].idx    = in+j;
+    }
+    qsort(terms, len, sizeof(term_t), term_cmp);
+    for (int64_t j = 0, k; j < len; j = k) {
+      const int64_t a = terms[j].idx;
+      for (k = j+1; k < len; ++k) {
+        if (memcmp(terms[j].exp, terms[k].exp, nv * sizeof(int32_t)) != 0)
+          break;
+        const int64_t b = terms[k].idx;
+        if (gens->field_char) {
+          gens->cfs[a] = (int32_t)(((int64_t)gens->cfs[a] + gens->cfs[b])
+              % gens->field_char);
+          gens->cfs[b] = 0;
+        } else {
+          mpq_set_num(sum, *(gens->mpz_cfs[2*a]));
+          mpq_set_den(sum, *(gens->mpz_cfs[2*a+1]));
+          mpq_set_num(tmp, *(gens->mpz_cfs[2*b]));
+          mpq_set_den(tmp, *(gens->mpz_cfs[2*b+1]));
+          mpq_add(sum, sum, tmp);
+          mpq_get_num(*(gens->mpz_cfs[2*a]), sum);
+          mpq_get_den(*(gens->mpz_cfs[2*a+1]), sum);
+          mpz_set_ui(*(gens->mpz_cfs[2*b]), 0);
+        }
+      }
+    }
+    free(terms);
+    const int64_t start = out;
+    for (int64_t j = in; j < in+len; ++j) {
+      const int zero = gens->field_char ? gens->cfs[j] == 0
+        : mpz_sgn(*(gens->mpz_cfs[2*j])) == 0;
+      if (zero && !(j == in+len-1 && out == start))
+        continue;
+      if (gens->field_char) {
+        gens->cfs[out] = gens->cfs[j];
+      } else {
+        mpz_swap(*(gens->mpz_cfs[2*out]), *(gens->mpz_cfs[2*j]));
+        mpz_swap(*(gens->mpz_cfs[2*out+1]), *(gens->mpz_cfs[2*j+1]));
+      }
+      memmove(gens->exps + out*nv, gens->exps + j*nv, nv * sizeof(int32_t));
+      out++;
+    }
+    gens->lens[i] = (int32_t)(out - start);
+    in += len;
+  }
+  mpq_clear(sum);
+  mpq_clear(tmp);
+  if (gens->field_char == 0) {
+    for (int64_t j = 2*out; j < 2*in; ++j) {
+      mpz_clear(*(gens->mpz_cfs[j]));
+      free(gens->mpz_cfs[j]);
+    }
+  }
+  gens->nterms = out;
+}
+
 static inline void initialize_data_gens(int32_t nvars, int32_t ngens, int32_t field_char, data_gens_ff_t *gens){
   gens->nvars = nvars;
   gens->ngens = ngens;
@@ -951,6 +1038,7 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   else{
     get_coeffs_and_exponents_mpz(fh, &line, all_nterms, nr_gens, gens);
   }
+  collect_terms(gens);
 
   free(line);
   fclose(fh);
-- 
2.43.0


From 64cad67a0daeee03ad314980d19e9d5b27e8ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:08 +0000
Subject: [PATCH 27/33] fix: report results which cannot be written instead of
 exiting with success

---
 src/msolve/iofiles.c    | 29 +++++++++++++++++++++++++----
 src/msolve/lifting-gb.c | 12 ++++++------
 src/msolve/main.c       |  4 ++++
 src/msolve/msolve.c     | 16 ++++++++--------
 4 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 926124c..09dac8a 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -314,6 +314,27 @@ static void print_msolve_polynomials_ff(
     free(evi);
 }
 
+/* Opens the output file, failures are fatal. */
+static FILE *open_output_file(const char *fn, const char *mode)
+{
+    FILE *ofile = fopen(fn, mode);
+    if (ofile == NULL) {
+        fprintf(stderr, "Cannot open output file\n");
+        exit(1);
+    }
+    return ofile;
+}
+
+/* Closes the output file, results which could not be written are an error. */
+static void close_output_file(FILE *ofile)
+{
+    const int failed = ferror(ofile);
+    if (fclose(ofile) != 0 || failed) {
+        fprintf(stderr, "Cannot write to output file\n");
+        exit(1);
+    }
+}
+
 static void print_ff_nf_data(
         const char *fn,
         const char *mode,
@@ -327,10 +348,10 @@ static void print_ff_nf_data(
 {
     if (print_gb > 0) {
         if(fn != NULL){
-            FILE *ofile = fopen(fn, mode);
+            FILE *ofile = open_output_file(fn, mode);
             print_msolve_polynomials_ff(ofile, from, to, bs, ht,
                     st, gens->vnames, 2-print_gb, 1);
-            fclose(ofile);
+            close_output_file(ofile);
         }
         else{
             print_msolve_polynomials_ff(stdout, from, to, bs, ht,
@@ -350,10 +371,10 @@ static void print_ff_basis_data(
 {
     if (print_gb > 0) {
         if(fn != NULL){
-            FILE *ofile = fopen(fn, mode);
+            FILE *ofile = open_output_file(fn, mode);
             print_msolve_polynomials_ff(ofile, 0, bs->lml, bs, ht,
                     st, gens->vnames, 2-print_gb, 0);
-            fclose(ofile);
+            close_output_file(ofile);
         }
         else{
             print_msolve_polynomials_ff(stdout, 0, bs->lml, bs, ht,
diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index cb8c5dd..72f47ec 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1706,7 +1706,7 @@ void print_msolve_gbtrace_qq(data_gens_ff_t *gens,
 
   FILE *ofile;
   if (flags->files->out_file != NULL) {
-    ofile = fopen(flags->files->out_file, "w+");
+    ofile = open_output_file(flags->files->out_file, "w+");
   } else {
     ofile = stdout;
   }
@@ -1737,15 +1737,15 @@ void print_msolve_gbtrace_qq(data_gens_ff_t *gens,
   }
   fprintf(ofile, "#---\n");
   if (flags->files->out_file != NULL) {
-    fclose(ofile);
+    close_output_file(ofile);
   }
 
   if(flags->print_gb > 1){
 
     if(flags->files->out_file != NULL){
-      FILE *ofile = fopen(flags->files->out_file, "a+");
+      FILE *ofile = open_output_file(flags->files->out_file, "a+");
       display_gbmodpoly_cf_qq(ofile, (*modgbsp), gens);
-      fclose(ofile);
+      close_output_file(ofile);
     }
     else{
       display_gbmodpoly_cf_qq(stdout, (*modgbsp), gens);
@@ -1753,9 +1753,9 @@ void print_msolve_gbtrace_qq(data_gens_ff_t *gens,
   }
   if(flags->print_gb == 1){
     if(flags->files->out_file != NULL){
-      FILE *ofile = fopen(flags->files->out_file, "a+");
+      FILE *ofile = open_output_file(flags->files->out_file, "a+");
       display_lm_gbmodpoly_cf_qq(ofile, (*modgbsp), gens);
-      fclose(ofile);
+      close_output_file(ofile);
     }
     else{
       display_lm_gbmodpoly_cf_qq(stdout, (*modgbsp), gens);
diff --git a/src/msolve/main.c b/src/msolve/main.c
index 2b9e7eb..840bb4e 100644
--- a/src/msolve/main.c
+++ b/src/msolve/main.c
@@ -482,5 +482,9 @@ int main(int argc, char **argv){
     free_data_gens(gens);
 
     free(files);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "Cannot write to standard output\n");
+        exit(1);
+    }
     return ret;
 }
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 585d856..d616c07 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -3480,7 +3480,7 @@ int real_msolve_qq(mpz_param_t *mpz_paramp, param_t **nmod_param, int *dim_ptr,
 void display_arrays_of_real_roots(files_gb *files, int32_t len,
                                   real_point_t **lreal_pts, long *lnbr) {
   if (files->out_file != NULL) {
-    FILE *ofile = fopen(files->out_file, "a+");
+    FILE *ofile = open_output_file(files->out_file, "a+");
     fprintf(ofile, "[");
     for (int i = 0; i < len - 1; i++) {
       display_real_points(ofile, lreal_pts[i], lnbr[i]);
@@ -3488,7 +3488,7 @@ void display_arrays_of_real_roots(files_gb *files, int32_t len,
     }
     display_real_points(ofile, lreal_pts[len - 1], lnbr[len - 1]);
     fprintf(ofile, "];\n");
-    fclose(ofile);
+    close_output_file(ofile);
   } else {
     fprintf(stdout, "[");
     for (int i = 0; i < len - 1; i++) {
@@ -3507,9 +3507,9 @@ void display_output(int b, int dim, int dquot, files_gb *files,
                     real_point_t **real_pts_ptr, int info_level) {
   if (dquot == 0) {
     if (files->out_file != NULL) {
-      FILE *ofile = fopen(files->out_file, "a+");
+      FILE *ofile = open_output_file(files->out_file, "a+");
       fprintf(ofile, "[-1]:\n");
-      fclose(ofile);
+      close_output_file(ofile);
     } else {
       fprintf(stdout, "[-1]:\n");
     }
@@ -3519,7 +3519,7 @@ void display_output(int b, int dim, int dquot, files_gb *files,
   if (dim == 0 && dquot >= 0) {
     (*mpz_paramp)->nvars = gens->nvars;
     if (files->out_file != NULL) {
-      FILE *ofile = fopen(files->out_file, "a+");
+      FILE *ofile = open_output_file(files->out_file, "a+");
       fprintf(ofile, "[0, ");
       if (get_param >= 1 || gens->field_char) {
         mpz_param_out_str_maple(ofile, gens, dquot, *mpz_paramp, param);
@@ -3531,7 +3531,7 @@ void display_output(int b, int dim, int dquot, files_gb *files,
         display_real_points(ofile, *real_pts_ptr, *nb_real_roots_ptr);
       }
       fprintf(ofile, "]:\n");
-      fclose(ofile);
+      close_output_file(ofile);
     } else {
       fprintf(stdout, "[0, ");
       if (get_param >= 1 || gens->field_char) {
@@ -3551,10 +3551,10 @@ void display_output(int b, int dim, int dquot, files_gb *files,
       fprintf(stderr, "The ideal has positive dimension\n");
     }
     if (files->out_file != NULL) {
-      FILE *ofile2 = fopen(files->out_file, "a+");
+      FILE *ofile2 = open_output_file(files->out_file, "a+");
       // 1 because dim is >0
       fprintf(ofile2, "[1, %d, -1, []]:\n", gens->nvars);
-      fclose(ofile2);
+      close_output_file(ofile2);
     } else {
       fprintf(stdout, "[1, %d, -1, []]:\n", gens->nvars);
     }
-- 
2.43.0


From d1dc6bc8d5bb3b765a3db59a12e877590b9debc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:53 +0000
Subject: [PATCH 28/33] fix: do not take an error while reading the input file
 for its end

---
 src/msolve/iofiles.c | 53 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 09dac8a..9de9df6 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -383,9 +383,30 @@ static void print_ff_basis_data(
     }
 }
 
+/* Opens the input file, failures are fatal. */
+static FILE *open_input_file(const char *fn)
+{
+    FILE *fh = fopen(fn, "r");
+    if (fh == NULL) {
+        fprintf(stderr, "Cannot open input file\n");
+        exit(1);
+    }
+    return fh;
+}
+
+/* Closes the input file, a read error must not be taken for its end. */
+static void close_input_file(FILE *fh)
+{
+    if (ferror(fh)) {
+        fprintf(stderr, "Cannot read input file\n");
+        exit(1);
+    }
+    fclose(fh);
+}
+
 static int32_t get_nvars(const char *fn)
 {
-    FILE * fh = fopen(fn, "r");
+    FILE * fh = open_input_file(fn);
     char * line = NULL;
     size_t len;
     nvars_t nvars = -1; 
@@ -405,7 +426,7 @@ static int32_t get_nvars(const char *fn)
     }
 
     free(line);
-    fclose(fh);
+    close_input_file(fh);
 
     return nvars;
 }
@@ -438,7 +459,7 @@ static int32_t get_ngenerators(char *fn)
     int32_t ngens = 0;
     char *line  = NULL;
     size_t len;
-    FILE *fh  = fopen(fn,"r");
+    FILE *fh  = open_input_file(fn);
 
     /* 1st and 2nd lines are ignored; still check all went fine */
     if (   getline(&line, &len, fh) == -1
@@ -451,7 +472,7 @@ static int32_t get_ngenerators(char *fn)
             ngens++;
 
     free(line);
-    fclose(fh);
+    close_input_file(fh);
 
     return ngens;
 }
@@ -591,6 +612,10 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
         len = 0;
         i++;
     }
+    if (i < *nr_gens) {
+        fprintf(stderr, "Bad file format (generators).\n");
+        exit(1);
+    }
     *linep  = line;
     gens->nterms = *all_nterms;
 }
@@ -1022,17 +1047,21 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
                                       int32_t *field_char,
                                       int32_t *nr_gens, data_gens_ff_t *gens){
   *nr_vars = get_nvars(fn);
-  if (*nr_vars == -1)
-    printf("Bad file format (first line).\n");
+  if (*nr_vars == -1) {
+    fprintf(stderr, "Bad file format (first line).\n");
+    exit(1);
+  }
 
   *nr_gens = get_ngenerators(fn);
-  if (*nr_gens == -1)
-    printf("Bad file format (generators).\n");
+  if (*nr_gens == -1) {
+    fprintf(stderr, "Bad file format (generators).\n");
+    exit(1);
+  }
 
   const int max_line_size  = 1073741824;
   char *line  = (char *)malloc((nelts_t)max_line_size * sizeof(char));
 
-  FILE *fh  = fopen(fn,"r");
+  FILE *fh  = open_input_file(fn);
 
   /** allocate memory for storing variable names */
   char **vnames = (char **)malloc((*nr_vars) * sizeof(char *));
@@ -1050,8 +1079,8 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   get_nterms_and_all_nterms(fh, &line, max_line_size, gens, nr_gens,
                             &nterms, &all_nterms);
 
-  fclose(fh);
-  fh = fopen(fn, "r");
+  close_input_file(fh);
+  fh = open_input_file(fn);
 
   if(gens->field_char){
     get_coeffs_and_exponents_ff32(fh, &line, all_nterms, nr_gens, gens);
@@ -1062,7 +1091,7 @@ static inline void get_data_from_file(char *fn, int32_t *nr_vars,
   collect_terms(gens);
 
   free(line);
-  fclose(fh);
+  close_input_file(fh);
 
   return;
 }
-- 
2.43.0


From 46b092cc9528a0c9ab2039db804a5e301fcba394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 29/33] fix: check the allocation of the coefficients to be
 lifted

---
 src/msolve/lifting-gb.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 72f47ec..587a975 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -187,6 +187,10 @@ static inline void gb_modpoly_init(gb_modpoly_t modgbs,
     modgbs->modpolys[i]->cf_qq = (mpz_t *)malloc(sizeof(mpz_t)*2*lens[i]);
     for(uint32_t j = 0; j < lens[i]; j++){
       modgbs->modpolys[i]->cf_32[j] = calloc(alloc, sizeof(uint32_t));
+      if(modgbs->modpolys[i]->cf_32[j] == NULL){
+        fprintf(stderr, "Problem when allocating modgbs (modpolys)\n");
+        exit(1);
+      }
       mpz_init(modgbs->modpolys[i]->cf_zz[j]);
     }
     for(uint32_t j = 0; j < 2 * lens[i]; j++){
-- 
2.43.0


From ec88f8ab7d51c197c096a1714e47c1dcf8b010b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:26 +0000
Subject: [PATCH 30/33] fix: stop when a hash table cannot be enlarged

---
 src/neogb/hash.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 7eae3b7..e4f6c88 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -329,8 +329,8 @@ static void enlarge_hash_table(
     memset(ht->hd+eld, 0, (esz-eld) * sizeof(hd_t));
     ht->ev    = realloc(ht->ev, esz * sizeof(exp_t *));
     if (ht->ev == NULL) {
-        fprintf(stderr, "Enlarging hash table failed for esz = %lu,\n", (unsigned long)esz);
-        fprintf(stderr, "segmentation fault will follow.\n");
+        fprintf(stderr, "Enlarging hash table failed for esz = %lu.\n", (unsigned long)esz);
+        exit(1);
     }
     /* note: memory is allocated as one big block, so reallocating
      *       memory from ev[0] is enough    */
@@ -338,7 +338,8 @@ static void enlarge_hash_table(
             esz * (unsigned long)ht->evl * sizeof(exp_t));
     if (ht->ev[0] == NULL) {
         fprintf(stderr, "Enlarging exponent vector for hash table failed\n");
-        fprintf(stderr, "for esz = %lu, segmentation fault will follow.\n", (unsigned long)esz);
+        fprintf(stderr, "for esz = %lu.\n", (unsigned long)esz);
+        exit(1);
     }
     /* due to realloc we have to reset ALL ev entries,
      * memory might have been moved */
@@ -356,8 +357,8 @@ static void enlarge_hash_table(
         const hl_t hsz  = ht->hsz;
         ht->hmap  = realloc(ht->hmap, hsz * sizeof(hi_t));
         if (ht->hmap == NULL) {
-            fprintf(stderr, "Enlarging hash table failed for hsz = %lu,\n", (unsigned long)hsz);
-            fprintf(stderr, "segmentation fault will follow.\n");
+            fprintf(stderr, "Enlarging hash table failed for hsz = %lu.\n", (unsigned long)hsz);
+            exit(1);
         }
         memset(ht->hmap, 0, hsz * sizeof(hi_t));
         const hi_t mod =  (hi_t )(hsz-1);
@@ -896,7 +897,8 @@ static inline void reinitialize_hash_table(
         if (ht->ev == NULL) {
             fprintf(stderr, "Computation needs too much memory on this machine,\n");
             fprintf(stderr, "could not reinitialize exponent vector for hash table,\n");
-            fprintf(stderr, "esz = %lu, segmentation fault will follow.\n", (unsigned long)esz);
+            fprintf(stderr, "esz = %lu.\n", (unsigned long)esz);
+            exit(1);
         }
         /* note: memory is allocated as one big block, so reallocating
          *       memory from evl[0] is enough    */
@@ -905,7 +907,7 @@ static inline void reinitialize_hash_table(
         if (ht->ev[0] == NULL) {
             fprintf(stderr, "Exponent storage needs too much memory on this machine,\n");
             fprintf(stderr, "reinitialization failed, esz = %lu\n", (unsigned long)esz);
-            fprintf(stderr, "segmentation fault will follow.\n");
+            exit(1);
         }
         /* due to realloc we have to reset ALL evl entries, memory might be moved */
         for (i = 1; i < esz; ++i) {
@@ -1258,14 +1260,14 @@ static void reset_hash_table(
     if (ht->ev == NULL) {
         fprintf(stderr, "Computation needs too much memory on this machine,\n");
         fprintf(stderr, "cannot reset ht->ev, esz = %lu\n", (unsigned long)esz);
-        fprintf(stderr, "segmentation fault will follow.\n");
+        exit(1);
     }
     exp_t *tmp  = (exp_t *)malloc(
             (unsigned long)evl * esz * sizeof(exp_t));
     if (tmp == NULL) {
         fprintf(stderr, "Computation needs too much memory on this machine,\n");
         fprintf(stderr, "resetting table failed, esz = %lu\n", (unsigned long)esz);
-        fprintf(stderr, "segmentation fault will follow.\n");
+        exit(1);
     }
     for (k = 0; k < esz; ++k) {
         ht->ev[k]  = tmp + k*evl;
-- 
2.43.0


From ee44bf1db7e9bc878a865835dcac3eb610dcdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:21 +0000
Subject: [PATCH 31/33] fix: refuse monomials whose degree does not fit the
 exponent type

---
 src/msolve/iofiles.c |  7 ++++++-
 src/neogb/io.c       | 11 +++++++++++
 src/neogb/symbol.c   | 22 ++++++++++++++++++++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 9de9df6..91f7ff8 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -51,7 +51,12 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
             }
             for (k = 0; k < gens->nvars; ++k) {
                 if (strcmp(gens->vnames[k], var) == 0) {
-                    ((gens->exps) + pos)[k] += strtol(ev, NULL, 10);
+                    const long e = strtol(ev, NULL, 10);
+                    if (e > INT32_MAX - ((gens->exps) + pos)[k]) {
+                        fprintf(stderr, "Too large exponent %s, exit...\n", ev);
+                        exit(1);
+                    }
+                    ((gens->exps) + pos)[k] += e;
                     break;
                 }
             }
diff --git a/src/neogb/io.c b/src/neogb/io.c
index bde94da..facf4a6 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -37,6 +37,17 @@ static inline void set_exponent_vector(
     const len_t nev = st->nev;
     const len_t off = ebl - nev + 1;
 
+    /* exponents and degrees have to be representable */
+    int64_t deg = 0;
+    for (i = 0; i < nv; ++i) {
+        const int32_t e = (iev+(nv*idx))[i];
+        deg +=  e;
+        if (e < 0 || deg > (exp_t)(-1)) {
+            fprintf(stderr, "Degree of input monomial is too large (or negative), stopped computation.\n");
+            exit(1);
+        }
+    }
+
     ev[0]   = 0;
     ev[ebl] = 0;
 
diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index d02c946..81a7ced 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -25,6 +25,27 @@
 #include <immintrin.h>
 #endif
 
+/* degrees are stored as exponents, too: stop if one does not fit */
+static inline void check_degree(
+        const exp_t * const e,
+        const ht_t * const ht
+        )
+{
+    len_t i;
+    int64_t deg = 0;
+
+    for (i = 1; i < ht->ebl; ++i) {
+        deg +=  e[i];
+    }
+    for (i = ht->ebl+1; i < ht->evl; ++i) {
+        deg +=  e[i];
+    }
+    if (deg > (exp_t)(-1)) {
+        fprintf(stderr, "Degree of monomials gets too large, stopped computation.\n");
+        exit(1);
+    }
+}
+
 /* select_all_pairs() is unused at the moment */
 #if 0 
 static void select_all_spairs(
@@ -314,6 +335,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* ev might change when enlarging the hash table during insertion of a new
             * row in the matrix, thus we have to reset elcm inside the for loop */
         elcm  = bht->ev[lcm];
+        check_degree(elcm, bht);
         b     = bs->hm[prev];
         eb    = bht->ev[b[OFFSET]];
         for (l = 0; l < evl; ++l) {
-- 
2.43.0


From 131227618af69c921da286d51ff57fe6fec217ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 32/33] fix: refuse terms of the input which cannot be read

---
 src/msolve/iofiles.c | 54 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 91f7ff8..169eb78 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -18,6 +18,57 @@
  * Christian Eder
  * Mohab Safey El Din */
 
+/* terms are products of an optional leading coefficient and powers of
+ * variables: stop on everything else, e.g. on variables not declared */
+static void check_term(const char *term, const data_gens_ff_t *gens)
+{
+    const char *digits = "0123456789";
+    const char *s = term;
+    int first = 1;
+    int valid = 1;
+
+    if (*s == '+' || *s == '-') {
+        ++s;
+        /* -*x is -x */
+        if (*s == '*') {
+            ++s;
+        }
+    }
+    do {
+        const size_t len = strcspn(s, "*");
+        size_t n = 0;
+        valid = 0;
+        if (first && (n = strspn(s, digits)) > 0) {
+            if (s[n] == '/') {
+                const size_t m = strspn(s + n+1, digits);
+                valid = m > 0 && strspn(s + n+1, "0") < m;
+                n +=  m+1;
+            } else {
+                valid = 1;
+            }
+        } else {
+            n = strcspn(s, "*^");
+            for (int32_t k = 0; k < gens->nvars && !valid; ++k) {
+                valid = strlen(gens->vnames[k]) == n
+                    && strncmp(gens->vnames[k], s, n) == 0;
+            }
+            if (s[n] == '^') {
+                const size_t m = strspn(s + n+1, digits);
+                valid = valid && m > 0;
+                n +=  m+1;
+            }
+        }
+        valid = valid && n == len;
+        s +=  len;
+        first = 0;
+    } while (valid && *s++ == '*');
+
+    if (!valid) {
+        fprintf(stderr, "Bad file format (term %.100s).\n", term);
+        exit(1);
+    }
+}
+
 static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_t pos)
 {
     len_t i, j, k;
@@ -25,6 +76,9 @@ static inline void store_exponent(const char *term, data_gens_ff_t *gens, int32_
     len_t op = 0;
     char *var = NULL;
     char *ev  = NULL;
+
+    check_term(term, gens);
+
     for (i = 0; i < strlen(term)+1; ++i) {
         if (term[i] == '*' || i == strlen(term)) {
             j = op;
-- 
2.43.0


From 7aedea42d98608a4025427eea0fd234e1030d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:11 +0000
Subject: [PATCH 33/33] fix: check all coefficients of a lifted parametrization

---
 src/msolve/msolve.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index d616c07..ffe5ec1 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1435,7 +1435,9 @@ check_param_nmod_poly(const long len, const mpz_upoly_t mpz_pol,
   for (long i = 0; i < len; i++) {
 
     mpz_mul_ui(binv, mpz_pol->coeffs[i], inv);
-    if (mpz_mod_ui(binv, binv, prime) != (nm_pol->coeffs[i] % prime)) {
+    /* the degree of nm_pol may drop modulo prime */
+    const uint64_t c = i < nm_pol->length ? nm_pol->coeffs[i] % prime : 0;
+    if (mpz_mod_ui(binv, binv, prime) != c) {
       return 1;
     }
   }
@@ -1476,7 +1478,7 @@ static inline int check_param_modular(const mpz_param_t mp_param,
     len = mp_param->coords[0]->length;
 
     if (check_param_nmod_poly(
-            bparam->coords[i]->length, mp_param->coords[i], mp_param->cfs[i],
+            len, mp_param->coords[i], mp_param->cfs[i],
             mp_param->elim->coeffs[mp_param->elim->length - 1],
             mp_param->elim->length - 1, bparam->coords[i], prime)) {
       is_lifted[i + 1] = 0;
-- 
2.43.0

