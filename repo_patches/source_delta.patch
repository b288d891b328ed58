From fb5582ee323cf0eed2709a6c261c1a0fe9d44622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 01/12] fix: size the work arrays for angular momenta up to
 LIBGRPP_MAX_BASIS_L

The arrays of the overlap, kinetic-energy, momentum and type-1 recursions are
indexed up to L (L+1 in gradients, L+2 inside the kinetic-energy recursion), one
or two beyond their size for the largest documented angular momentum.
---
 libgrpp/kinetic.c                  | 4 ++--
 libgrpp/momentum.c                 | 4 ++--
 libgrpp/overlap.c                  | 2 +-
 libgrpp/type1_mcmurchie_davidson.c | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libgrpp/kinetic.c b/libgrpp/kinetic.c
index 2c6fca3..bce3f7d 100644
--- a/libgrpp/kinetic.c
+++ b/libgrpp/kinetic.c
@@ -83,7 +83,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
+    double S[3][LIBGRPP_MAX_BASIS_L + 3][LIBGRPP_MAX_BASIS_L + 3];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -124,7 +124,7 @@ void kinetic_energy_integrals_shell_pair_obara_saika(
 
     // calculate D^2_ij
 
-    double D2[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D2[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/momentum.c b/libgrpp/momentum.c
index 849457c..0a30146 100644
--- a/libgrpp/momentum.c
+++ b/libgrpp/momentum.c
@@ -105,7 +105,7 @@ void momentum_integrals_shell_pair_obara_saika(
     double *B = shell_B->origin;
 
     // calculate S_ij
-    double S[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
@@ -146,7 +146,7 @@ void momentum_integrals_shell_pair_obara_saika(
 
     // calculate D^1_ij
 
-    double D1[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double D1[3][LIBGRPP_MAX_BASIS_L + 1][LIBGRPP_MAX_BASIS_L + 1];
 
     for (int coord = 0; coord < 3; coord++) {
         for (int i = 0; i <= L_A; i++) {
diff --git a/libgrpp/overlap.c b/libgrpp/overlap.c
index fed9620..8a53a83 100644
--- a/libgrpp/overlap.c
+++ b/libgrpp/overlap.c
@@ -83,7 +83,7 @@ void overlap_integrals_shell_pair_obara_saika(
     double *A = shell_A->origin;
     double *B = shell_B->origin;
 
-    double S[3][LIBGRPP_MAX_BASIS_L][LIBGRPP_MAX_BASIS_L];
+    double S[3][LIBGRPP_MAX_BASIS_L + 2][LIBGRPP_MAX_BASIS_L + 2];
 
     for (int coord = 0; coord < 3; coord++) {
         double P = (alpha_A * A[coord] + alpha_B * B[coord]) / p;
diff --git a/libgrpp/type1_mcmurchie_davidson.c b/libgrpp/type1_mcmurchie_davidson.c
index a658bb0..5fce9e1 100644
--- a/libgrpp/type1_mcmurchie_davidson.c
+++ b/libgrpp/type1_mcmurchie_davidson.c
@@ -48,7 +48,7 @@
 #include "norm_gaussian.h"
 #include "utils.h"
 
-#define LMAX LIBGRPP_MAX_BASIS_L
+#define LMAX (LIBGRPP_MAX_BASIS_L + 1)
 
 
 /*
@@ -63,7 +63,7 @@ struct mmd_data {
     double K_abc[3];
     double R_QC_2;
     double boys[100];
-    double E[3][LMAX][LMAX][2 * LMAX];
+    double E[3][LMAX + 1][LMAX + 1][2 * LMAX];
     double R[2 * LMAX][2 * LMAX][2 * LMAX][2 * LMAX];
 };
 
-- 
2.43.0


From 8dfda06829812b213addf53d750c081df7f259b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 02/12] fix: allow double factorials beyond 30!!

The recursion for n > 30 is there, but the assertion aborted before it was reached,
e.g. for the Boys function at large arguments and high angular momenta.
---
 libgrpp/factorial.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/factorial.c b/libgrpp/factorial.c
index 1e1fae9..444dc88 100644
--- a/libgrpp/factorial.c
+++ b/libgrpp/factorial.c
@@ -104,7 +104,7 @@ static uint64_t pretabulated_double_factorials[] = {
 
 double double_factorial(int n)
 {
-    assert(n >= -1 && n <= 30);
+    assert(n >= -1);
     if (n == -1) {
         return 1;
     } else if (n <= 30) {
-- 
2.43.0


From c2747ff66ad7f7c1f3965a5ccecf1e299deaf858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 03/12] fix: deep copy of a shell keeps its order of Cartesian
 functions

The list was generated anew from the current global setting, which may have changed
since the original shell was created.
---
 libgrpp/shell.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libgrpp/shell.c b/libgrpp/shell.c
index 3024fd5..101b430 100644
--- a/libgrpp/shell.c
+++ b/libgrpp/shell.c
@@ -56,6 +56,11 @@ libgrpp_shell_t *libgrpp_shell_deep_copy(libgrpp_shell_t *src_shell)
         src_shell->alpha
     );
 
+    // the copy keeps the order of Cartesian functions of the original
+    for (int i = 0; i < 3 * src_shell->cart_size; i++) {
+        new_shell->cart_list[i] = src_shell->cart_list[i];
+    }
+
     return new_shell;
 }
 
-- 
2.43.0


From 4ce6189252c1fefd13318dcf4d1cdfa0c824712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 04/12] fix: overlap gradient neither modifies the shells nor
 reads beyond <L-1|L>

The exponents were decremented and restored in the cart_list of the (possibly shared)
bra shell, exponents of -1 addressed a row after the last one, and the ket index was
looked up in the current Cartesian order and not in that of the ket shell.
---
 libgrpp/overlap_gradient.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libgrpp/overlap_gradient.c b/libgrpp/overlap_gradient.c
index de99af4..a732bb2 100644
--- a/libgrpp/overlap_gradient.c
+++ b/libgrpp/overlap_gradient.c
@@ -115,21 +115,23 @@ void overlap_gradient_diff_bra_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int *bra_nlm = shell_A->cart_list + 3 * i;
-                int *ket_nlm = shell_B->cart_list + 3 * j;
+                int bra_nlm[3];
+                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
+                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
+                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
+
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
                     bra_nlm[icoord] += 1;
 
                     grad[icoord][index] -=
-                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + ket_index];
+                        factor * bra_nlm[icoord] * overlap_down[shell_B->cart_size * bra_index + j];
                 }
 
                 /*
@@ -137,10 +139,9 @@ void overlap_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
                 bra_nlm[icoord] -= 1;
 
-                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + ket_index];
+                grad[icoord][index] += factor * overlap_up[shell_B->cart_size * bra_index + j];
             }
         }
     }
-- 
2.43.0


From f564e2611cfa177ff34e9fdfb15f54f4d9588ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 05/12] fix: GRPP gradients do not read beyond the <L-1|U|L>
 block

An exponent of -1 was looked up as the row (column) after the last one. The shell which
is not differentiated is indexed in its own order of Cartesian functions, not in the
current one.
---
 libgrpp/grpp_integrals_gradient.c | 32 +++++++++++--------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/libgrpp/grpp_integrals_gradient.c b/libgrpp/grpp_integrals_gradient.c
index 5e56128..94c1570 100644
--- a/libgrpp/grpp_integrals_gradient.c
+++ b/libgrpp/grpp_integrals_gradient.c
@@ -446,20 +446,15 @@ void grpp_gradient_diff_bra_contribution(
                 bra_nlm[1] = shell_A->cart_list[3 * i + 1];
                 bra_nlm[2] = shell_A->cart_list[3 * i + 2];
 
-                int ket_nlm[3];
-                ket_nlm[0] = shell_B->cart_list[3 * j + 0];
-                ket_nlm[1] = shell_B->cart_list[3 * j + 1];
-                ket_nlm[2] = shell_B->cart_list[3 * j + 2];
-
                 int index = i * shell_B->cart_size + j;
 
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_A->L > 0) {
+                if (bra_nlm[icoord] > 0) {
                     bra_nlm[icoord] -= 1;
                     int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int ket_index = j;
                     bra_nlm[icoord] += 1;
 
                     grad_arep[icoord][index] -=
@@ -477,7 +472,7 @@ void grpp_gradient_diff_bra_contribution(
                  */
                 bra_nlm[icoord] += 1;
                 int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int ket_index = j;
                 bra_nlm[icoord] -= 1;
 
                 grad_arep[icoord][index] += factor * arep_matrix_up[shell_B->cart_size * bra_index + ket_index];
@@ -635,11 +630,6 @@ void grpp_gradient_diff_ket_contribution(
         for (int i = 0; i < shell_A->cart_size; i++) {
             for (int j = 0; j < shell_B->cart_size; j++) {
 
-                int bra_nlm[3];
-                bra_nlm[0] = shell_A->cart_list[3 * i + 0];
-                bra_nlm[1] = shell_A->cart_list[3 * i + 1];
-                bra_nlm[2] = shell_A->cart_list[3 * i + 2];
-
                 int ket_nlm[3];
                 ket_nlm[0] = shell_B->cart_list[3 * j + 0];
                 ket_nlm[1] = shell_B->cart_list[3 * j + 1];
@@ -650,9 +640,9 @@ void grpp_gradient_diff_ket_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (shell_B->L > 0) {
+                if (ket_nlm[icoord] > 0) {
                     ket_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
+                    int bra_index = i;
                     int ket_index = nlm_to_linear(ket_nlm);
                     ket_nlm[icoord] += 1;
 
@@ -670,7 +660,7 @@ void grpp_gradient_diff_ket_contribution(
                  * contribution from the L+1 gaussian
                  */
                 ket_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
+                int bra_index = i;
                 int ket_index = nlm_to_linear(ket_nlm);
                 ket_nlm[icoord] -= 1;
 
@@ -852,10 +842,10 @@ void grpp_gradient_contribution(
                 /*
                  * contribution from the L-1 gaussian
                  */
-                if (cart_size_down > 0) {
+                if (diff_nlm[icoord] > 0) {
                     diff_nlm[icoord] -= 1;
-                    int bra_index = nlm_to_linear(bra_nlm);
-                    int ket_index = nlm_to_linear(ket_nlm);
+                    int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                    int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                     diff_nlm[icoord] += 1;
 
                     int n = diff_nlm[icoord];
@@ -872,8 +862,8 @@ void grpp_gradient_contribution(
                  * contribution from the L+1 gaussian
                  */
                 diff_nlm[icoord] += 1;
-                int bra_index = nlm_to_linear(bra_nlm);
-                int ket_index = nlm_to_linear(ket_nlm);
+                int bra_index = diff_bra ? nlm_to_linear(bra_nlm) : i;
+                int ket_index = diff_bra ? j : nlm_to_linear(ket_nlm);
                 diff_nlm[icoord] -= 1;
 
                 int row_len = diff_bra ? shell_B->cart_size : cart_size_up;
-- 
2.43.0


From 2892a698f690851ff15905e7291f3df2ce7cc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 06/12] fix: finite-nucleus wrappers pass the model parameters
 where they are expected

libgrpp_nuclear_attraction_integrals() takes the parameters of the model from the first
element on, the wrappers put the charge there.
---
 libgrpp/nuclear_attraction.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/libgrpp/nuclear_attraction.c b/libgrpp/nuclear_attraction.c
index a2fb118..04f2bec 100644
--- a/libgrpp/nuclear_attraction.c
+++ b/libgrpp/nuclear_attraction.c
@@ -196,8 +196,7 @@ void libgrpp_nuclear_attraction_integrals_charged_ball(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_CHARGED_BALL, params, coulomb_matrix);
@@ -216,8 +215,7 @@ void libgrpp_nuclear_attraction_integrals_gaussian_model(
     double *charge_origin, int charge, double r_rms, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = r_rms;
+    params[0] = r_rms;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_GAUSSIAN, params, coulomb_matrix);
@@ -236,9 +234,8 @@ void libgrpp_nuclear_attraction_integrals_fermi_model(
     double *charge_origin, int charge, double fermi_param_c, double fermi_param_a, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = fermi_param_c;
-    params[2] = fermi_param_a;
+    params[0] = fermi_param_c;
+    params[1] = fermi_param_a;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI, params, coulomb_matrix);
@@ -258,10 +255,9 @@ void libgrpp_nuclear_attraction_integrals_fermi_bubble_model(
     double *charge_origin, int charge, double param_c, double param_a, double param_k, double *coulomb_matrix)
 {
     double params[10];
-    params[0] = charge;
-    params[1] = param_c;
-    params[2] = param_a;
-    params[3] = param_k;
+    params[0] = param_c;
+    params[1] = param_a;
+    params[2] = param_k;
 
     libgrpp_nuclear_attraction_integrals(shell_A, shell_B, charge_origin, charge,
                                          LIBGRPP_NUCLEAR_MODEL_FERMI_BUBBLE, params, coulomb_matrix);
-- 
2.43.0


From af1ab547f62bfdbe3d98374524dab44171e1eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:08 +0000
Subject: [PATCH 07/12] fix: outercore integrals do not write to the shells of
 the operator

The shells were moved to the RPP center in place: a data race if integrals with the same
operator (e.g. of two equal atoms) are evaluated in several threads.
---
 libgrpp/outercore_integrals.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index 99b8073..a79d64c 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -104,16 +104,19 @@ void libgrpp_outercore_potential_integrals(
     memset(esop_z, 0, size_A * size_B * sizeof(double));
 
     // bind outercore shells of the GRPP to the RPP center
+    // (local copies, the shells of the operator can be shared between threads)
+    libgrpp_shell_t **bound_shells = (libgrpp_shell_t **) calloc(num_oc_shells, sizeof(libgrpp_shell_t *));
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
-        oc_shells[ioc]->origin[0] = rpp_origin[0];
-        oc_shells[ioc]->origin[1] = rpp_origin[1];
-        oc_shells[ioc]->origin[2] = rpp_origin[2];
+        bound_shells[ioc] = libgrpp_shell_deep_copy(oc_shells[ioc]);
+        bound_shells[ioc]->origin[0] = rpp_origin[0];
+        bound_shells[ioc]->origin[1] = rpp_origin[1];
+        bound_shells[ioc]->origin[2] = rpp_origin[2];
     }
 
     // 1. the U * |nlj><nlj| + |nlj><nlj| * U part
     for (int ioc = 0; ioc < num_oc_shells; ioc++) {
         libgrpp_potential_t *pot = oc_potentials[ioc];
-        libgrpp_shell_t *nlj = oc_shells[ioc];
+        libgrpp_shell_t *nlj = bound_shells[ioc];
 
         libgrpp_outercore_potential_integrals_part_1(
             shell_A, shell_B, rpp_origin, pot, nlj,
@@ -127,8 +130,8 @@ void libgrpp_outercore_potential_integrals(
 
             libgrpp_potential_t *pot_1 = oc_potentials[ioc];
             libgrpp_potential_t *pot_2 = oc_potentials[joc];
-            libgrpp_shell_t *nlj_1 = oc_shells[ioc];
-            libgrpp_shell_t *nlj_2 = oc_shells[joc];
+            libgrpp_shell_t *nlj_1 = bound_shells[ioc];
+            libgrpp_shell_t *nlj_2 = bound_shells[joc];
 
             libgrpp_outercore_potential_integrals_part_2(
                 shell_A, shell_B,
@@ -137,6 +140,11 @@ void libgrpp_outercore_potential_integrals(
             );
         }
     }
+
+    for (int ioc = 0; ioc < num_oc_shells; ioc++) {
+        libgrpp_delete_shell(bound_shells[ioc]);
+    }
+    free(bound_shells);
 }
 
 
-- 
2.43.0


From 8ebed74747e296da80f5684dd17c89ea016d32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:28 +0000
Subject: [PATCH 08/12] fix: outercore shells of one operator may use different
 Cartesian orders

The Cartesian functions of the second shell of the <A|n'lj><nlj|B> terms were transformed
to the spherical basis with the coefficients of the first one's order.
---
 libgrpp/outercore_integrals.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libgrpp/outercore_integrals.c b/libgrpp/outercore_integrals.c
index a79d64c..3e305a9 100644
--- a/libgrpp/outercore_integrals.c
+++ b/libgrpp/outercore_integrals.c
@@ -328,14 +328,26 @@ void libgrpp_outercore_potential_integrals_part_2(
      * Rows: real spherical harmonics S_lm
      * Columns: cartesians x^r y^s z^t
      */
-    double *S_lm_coef = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    double *S_lm_coef_1 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
     for (int m = -L; m <= +L; m++) {
         for (int icart = 0; icart < size_nlj; icart++) {
             int r = oc_shell_1->cart_list[3 * icart + 0];
             int s = oc_shell_1->cart_list[3 * icart + 1];
             int t = oc_shell_1->cart_list[3 * icart + 2];
             double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
-            S_lm_coef[size_nlj * (m + L) + icart] = u;
+            S_lm_coef_1[size_nlj * (m + L) + icart] = u;
+        }
+    }
+
+    // the second shell can list its Cartesian functions in another order
+    double *S_lm_coef_2 = (double *) calloc((2 * L + 1) * size_nlj, sizeof(double));
+    for (int m = -L; m <= +L; m++) {
+        for (int icart = 0; icart < size_nlj; icart++) {
+            int r = oc_shell_2->cart_list[3 * icart + 0];
+            int s = oc_shell_2->cart_list[3 * icart + 1];
+            int t = oc_shell_2->cart_list[3 * icart + 2];
+            double u = spherical_to_cartesian_coef(L, m, r, s, t) / ang_norm_factor(r, s, t);
+            S_lm_coef_2[size_nlj * (m + L) + icart] = u;
         }
     }
 
@@ -353,8 +365,8 @@ void libgrpp_outercore_potential_integrals_part_2(
     double *S_a_nljm1 = alloc_zeros_1d(size_A * (2 * L + 1));
     libgrpp_overlap_integrals(oc_shell_2, shell_B, S_nljm2_b_cart);  // <nljm|B>
     libgrpp_overlap_integrals(shell_A, oc_shell_1, S_a_nljm1_cart);  // <A|nljm>
-    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef);
-    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef);
+    transform_to_sph_basis_ket(size_A, size_nlj, 2 * L + 1, S_a_nljm1_cart, S_a_nljm1, S_lm_coef_1);
+    transform_to_sph_basis_bra(size_nlj, 2 * L + 1, size_B, S_nljm2_b_cart, S_nljm2_b, S_lm_coef_2);
     free(S_nljm2_b_cart);
     free(S_a_nljm1_cart);
 
@@ -394,7 +406,8 @@ void libgrpp_outercore_potential_integrals_part_2(
 
     free(S_nljm2_b);
     free(S_a_nljm1);
-    free(S_lm_coef);
+    free(S_lm_coef_1);
+    free(S_lm_coef_2);
 }
 
 
-- 
2.43.0


From 54755348dbf18304b92bba94bbe072757e31486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 09/12] fix: do not drop type-2 and spin-orbit terms by an
 absolute threshold on powers of the distance

The factor (C-A)^i (C-B)^j was compared with 1e-13 (1e-14) before being multiplied by a radial integral that is
very large for tight functions close to the pseudopotential centre, so essential terms were lost.
---
 libgrpp/spin_orbit_integrals.c | 2 +-
 libgrpp/type2_integrals.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgrpp/spin_orbit_integrals.c b/libgrpp/spin_orbit_integrals.c
index e5f7b8a..424eb09 100644
--- a/libgrpp/spin_orbit_integrals.c
+++ b/libgrpp/spin_orbit_integrals.c
@@ -174,7 +174,7 @@ void libgrpp_spin_orbit_integrals(libgrpp_shell_t *shell_A, libgrpp_shell_t *she
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < LIBGRPP_ZERO_THRESH) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
diff --git a/libgrpp/type2_integrals.c b/libgrpp/type2_integrals.c
index 58bff68..720843a 100644
--- a/libgrpp/type2_integrals.c
+++ b/libgrpp/type2_integrals.c
@@ -159,7 +159,7 @@ void libgrpp_type2_integrals(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
-- 
2.43.0


From b9be8508e2607200d741799fbe6c56a9c2805867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:03 +0000
Subject: [PATCH 10/12] fix: Boys function beyond the table keeps the
 exponential terms

The leading asymptotic term alone is accurate only for low orders: at x = 30
it is off by 3% for n = 20, which shows as errors of 1e-6 in integrals over
functions of high angular momentum right outside the tabulated range.
---
 libgrpp/specfunc_boys.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libgrpp/specfunc_boys.c b/libgrpp/specfunc_boys.c
index ca95ef7..8f0ef4f 100644
--- a/libgrpp/specfunc_boys.c
+++ b/libgrpp/specfunc_boys.c
@@ -9,7 +9,6 @@
 #include <stdio.h>
 #include <string.h>
 
-#include "factorial.h"
 #include "specfunc.h"
 
 extern const double boys_table[301][40];
@@ -41,8 +40,13 @@ double boys_function(int n, double x)
                + boys_values[n + 6] * dx6 / 720.0;
     }
     else {
-        // asymptotic behaviour
-        return double_factorial(2 * n - 1) / pow(2.0, n + 1) * sqrt(M_PI / pow(x, 2 * n + 1));
+        // upward recursion (stable for large x)
+        double f = 0.5 * sqrt(M_PI / x) * erf(sqrt(x));
+        double e = exp(-x);
+        for (int i = 0; i < n; i++) {
+            f = ((2 * i + 1) * f - e) / (2.0 * x);
+        }
+        return f;
     }
 }
 
-- 
2.43.0


From e14e4db748cd1c92e53b5443b902338abf661c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:01 +0000
Subject: [PATCH 11/12] fix: do not drop terms of numerically integrated local
 potentials by an absolute threshold

Powers of a small distance multiply large radial integrals when the functions
are tight: with exponents 1000 at 0.02 bohr from a finite nucleus the f-p..h-d
integrals were off by up to 10% of their size.
---
 libgrpp/type1_integrals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgrpp/type1_integrals.c b/libgrpp/type1_integrals.c
index 50c1da0..02b0514 100644
--- a/libgrpp/type1_integrals.c
+++ b/libgrpp/type1_integrals.c
@@ -235,7 +235,7 @@ void evaluate_radially_local_potential_integral_primitive_gaussians(
                                     double factor = C_nA_a * C_lA_b * C_mA_c * C_nB_d * C_lB_e * C_mB_f *
                                                     pow_CA_x * pow_CA_y * pow_CA_z * pow_CB_x * pow_CB_y * pow_CB_z;
 
-                                    if (fabs(factor) < 1e-13) {
+                                    if (factor == 0.0) {
                                         continue;
                                     }
 
-- 
2.43.0


From 4a7d902efa785ca0353eba35921797e36c2db1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 12/12] fix: nuclear model potentials at the centre of the
 nucleus

---
 libgrpp/nuclear_models.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/libgrpp/nuclear_models.c b/libgrpp/nuclear_models.c
index 9ed3ace..55b74f5 100644
--- a/libgrpp/nuclear_models.c
+++ b/libgrpp/nuclear_models.c
@@ -154,6 +154,11 @@ double libgrpp_coulomb_potential_gaussian(double r, double Z, double R_rms)
 {
     double xi = 3.0 / (2.0 * R_rms * R_rms);
 
+    // limit at the center of the nucleus
+    if (r == 0.0) {
+        return -2.0 * Z * sqrt(xi / M_PI);
+    }
+
     return -Z / r * erf(sqrt(xi) * r);
 }
 
@@ -208,6 +213,13 @@ double libgrpp_coulomb_potential_fermi(double r, double Z, double c, double a)
     double c3 = c * c * c;
     double N = fermi_model_norm_factor(c, a);
 
+    // limit at the center of the nucleus
+    if (r == 0.0) {
+        double S2 = specfunc_fermi_sk(2, -c / a);
+
+        return -Z / N * (1.5 / c + M_PI * M_PI * a2 / (2 * c3) + 3 * a2 / c3 * S2);
+    }
+
     if (r > c) {
         double S2 = specfunc_fermi_sk(2, (c - r) / a);
         double S3 = specfunc_fermi_sk(3, (c - r) / a);
@@ -306,6 +318,20 @@ double libgrpp_coulomb_potential_fermi_bubble(double r, double Z, double c, doub
     double F0 = 0.0;
     double F2 = 0.0;
 
+    // limit at the center of the nucleus
+    if (r == 0.0) {
+        F0 = c * c / 2.0
+             + M_PI * M_PI / 6.0 * a * a
+             + a * a * specfunc_fermi_sk(2, -c / a);
+
+        F2 = pow(c, 4) / 4.0
+             + M_PI * M_PI * c * c * a * a / 2.0
+             + pow(a, 4) * pow(M_PI, 4) * 7.0 / 60.0
+             + 6.0 * pow(a, 4) * specfunc_fermi_sk(4, -c / a);
+
+        return -Z / Nk * 3.0 / pow(c, 3) * (F0 + k / (c * c) * F2);
+    }
+
     if (r < c) {
         double S2 = specfunc_fermi_sk(2, (r - c) / a);
         double S3 = specfunc_fermi_sk(3, (r - c) / a);
-- 
2.43.0

