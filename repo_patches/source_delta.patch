From 5c8c19533b94b2e9a35abf8a5602b140f299d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 01/15] fix: restore user data and signal handler when iterates
 leave the cone

ECOS_solve returned ECOS_OUTCONE directly from inside the main loop and so
skipped backscale(), which undoes the equilibration of c and rescales the
iterate, and remove_ctrlc().
---
 src/ecos.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index e5e321d..8a6c4a4 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1304,7 +1304,8 @@ idxint ECOS_solve(pwork* w)
 #if PRINTLEVEL > 0
                 if( w->stgs->verbose ) PRINTTEXT("\nNUMERICAL PROBLEMS (reached feastol=%3.1e, reltol=%3.1e, abstol=%3.1e).", MAX(w->info->dres, w->info->pres), w->info->relgap, w->info->gap);
 #endif
-                return ECOS_OUTCONE;
+                exitcode = ECOS_OUTCONE;
+                break;
 
             } else {
                 break;
-- 
2.43.0


From 1b005360febae434b3771366f92f6f294ba68ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 02/15] fix: do not restore a best iterate that was never saved

With maxit=0, an interrupt or a NAN at the very first iteration, the best
iterate is still uninitialised memory; keep the current iterate then.
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 8a6c4a4..e978f0f 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1205,7 +1205,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = interrupted ? "SIGINT intercepted" : "Maximum number of iterations reached";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
@@ -1238,7 +1238,7 @@ idxint ECOS_solve(pwork* w)
                 const char *what = "Reached NAN dead end";
 #endif
                 /* Determine whether current iterate is better than what we had so far */
-                if( compareStatistics( w->info, w->best_info) ){
+                if( w->info->iter == 0 || compareStatistics( w->info, w->best_info) ){
 #if PRINTLEVEL > 0
                     if( w->stgs->verbose )
                         PRINTTEXT("%s, stopping.\n",what);
-- 
2.43.0


From 066fab5bc73bf0cecb8dc2a4162c7011f56bf9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 03/15] fix: keep cone offsets aligned when the line search
 skips a cone

lineSearch skipped a second-order cone whose scaled point is not strictly
inside the cone without advancing the offset, so that every later cone was
evaluated on the wrong entries.
---
 src/ecos.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecos.c b/src/ecos.c
index e978f0f..817813f 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -997,8 +997,10 @@ pfloat lineSearch(pfloat* lambda, pfloat* ds, pfloat* dz, pfloat tau, pfloat dta
 
 		/* normalize */
 		lknorm2 = lk[0]*lk[0] - eddot(conesize-1, lk+1, lk+1);
-		if (lknorm2 <= 0.0)
+		if (lknorm2 <= 0.0) {
+			cone_start += conesize;
 			continue;
+		}
 
 		lknorm = sqrt( lknorm2 );
 		for( j=0; j < conesize; j++ ){ lkbar[j] = lk[j] / lknorm; }
-- 
2.43.0


From 25767da76544f7b742f31097c247371faf0bdd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 04/15] fix: accept problems without equality constraints in
 ECOS_updateData

The location test dereferenced w->A, which is NULL when the problem has no
equality constraints.
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 817813f..a35d605 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1659,10 +1659,10 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* This is required for backward compatibility since existing code might need this step. */
     if (
         ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        ((Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
+        (!w->A || (Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
         ((c + w->n < w->c) || (w->c + w->n < c)) &&
         ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        ((b + w->p < w->b) || (w->b + w->p < b))
+        (!w->A || (b + w->p < w->b) || (w->b + w->p < b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From 9421a452f72f104892295487d66ccf6070f365f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:07 +0000
Subject: [PATCH 05/15] fix: initialise column pointers when transposing an
 empty matrix

transposeSparseMatrix returned uninitialised column pointers for a matrix
without nonzeros.
---
 src/splamm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/splamm.c b/src/splamm.c
index a3308ee..c3cc547 100644
--- a/src/splamm.c
+++ b/src/splamm.c
@@ -68,7 +68,10 @@ spmat* transposeSparseMatrix(spmat* M, idxint* MtoMt)
 	idxint* w;
   
   spmat* A = newSparseMatrix(M->n, M->m, M->nnz);
-  if (M->nnz == 0) return A;
+  if (M->nnz == 0) {
+    for( i=0; i < M->m; i++ ) { A->jc[i] = 0; }
+    return A;
+  }
   
 	w = (idxint *)MALLOC(M->m*sizeof(idxint));
 
-- 
2.43.0


From 663997e494ce2709203a3fa44fd319a560b762b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 06/15] fix: skip the bound rows of integer variables in
 updateDataEntry_h

The user's rows start after the bound rows of both the boolean and the
integer variables.
---
 ecos_bb/ecos_bb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 1a76213..a845e3b 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1184,7 +1184,7 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
 
 void updateDataEntry_h(ecos_bb_pwork *w, idxint idx, pfloat value)
 {
-    ecos_updateDataEntry_h(w->ecos_prob, idx + (2 * w->num_bool_vars), value);
+    ecos_updateDataEntry_h(w->ecos_prob, idx + 2 * (w->num_bool_vars + w->num_int_vars), value);
 }
 
 void updateDataEntry_c(ecos_bb_pwork *w, idxint idx, pfloat value)
-- 
2.43.0


From 6c25000fb3e37f20303b00f7e91953a3cb980b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 07/15] fix: keep the incumbent found by rounding the root
 relaxation

ECOS_BB_solve reset the global upper bound to the root node's own bound and
so forgot the solution get_bounds had just stored.
---
 ecos_bb/ecos_bb.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index a845e3b..9732243 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1143,7 +1143,6 @@ idxint ECOS_BB_solve(ecos_bb_pwork *prob)
     get_bounds(curr_node_idx, prob);
 
     prob->global_L = prob->nodes[curr_node_idx].L;
-    prob->global_U = prob->nodes[curr_node_idx].U;
 
     while (should_continue(prob, curr_node_idx))
     {
-- 
2.43.0


From 463b3cc1e2cce02c647688cb1ad5090f68367809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 08/15] fix: assign bound rows to integer variables in list
 order

The bound rows were assigned in column order while branching addresses them
in list order (booleans first), so an unsorted index list or integer variables
with smaller indices than booleans branched on the wrong variable.
---
 ecos_bb/ecos_bb_preproc.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ecos_bb/ecos_bb_preproc.c b/ecos_bb/ecos_bb_preproc.c
index f052e6f..2e93035 100644
--- a/ecos_bb/ecos_bb_preproc.c
+++ b/ecos_bb/ecos_bb_preproc.c
@@ -54,6 +54,18 @@ static int contains(idxint idx, idxint num_int, idxint *bool_vars_idx)
     return (int)ans;
 }
 
+/* Position of variable idx in the list: bound rows are in list order */
+static idxint position(idxint idx, idxint num, idxint *vars_idx)
+{
+    idxint i;
+    for (i = 0; i < num; ++i)
+    {
+        if (vars_idx[i] == idx)
+            break;
+    }
+    return i;
+}
+
 /* Augments the G and b arrays to take lb and ub constraints
  * for all of the variables marked integer
  * USES MALLOC
@@ -74,11 +86,12 @@ static void socp_to_ecos_bb(
         Gjc_out[i] = Gjc_in[i];
     }
 
-    j = 0;
     for (i = 0; i < n; ++i)
     {
         if (contains(i, num_bool_vars, bool_vars_idx))
         {
+            j = position(i, num_bool_vars, bool_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -103,11 +116,11 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else if (contains(i, num_int_vars, int_vars_idx))
         {
+            j = num_bool_vars + position(i, num_int_vars, int_vars_idx);
+
             Gpr_out[Gjc_out[i]] = -1;
             Gpr_out[Gjc_out[i] + 1] = 1;
 
@@ -132,8 +145,6 @@ static void socp_to_ecos_bb(
                 Gpr_out[Gjc_out[i] + 2 + k] = Gpr_in[Gjc_in[i] + k];
                 Gir_out[Gjc_out[i] + 2 + k] = Gir_in[Gjc_in[i] + k] + 2 * num_bool_vars + 2 * num_int_vars;
             }
-
-            ++j;
         }
         else
         {
-- 
2.43.0


From 632cbdc75d6fa7cc39348b5e5eb5efa61051bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 09/15] fix: normalise infeasibility certificates by the size
 of the ray

With max(norm, 1) in the denominator a ray that shrinks to zero passes the
test whatever its direction, so primal infeasible problems were reported
as unbounded with a ray that is far from feasible.
---
 src/ecos.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index a35d605..85f1646 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -530,8 +530,8 @@ void updateStatistics(pwork* w)
      * info->pinfres = w->hz + w->by < 0 ? w->hresx / w->resx0 / (-w->hz - w->by) : NAN;
      * info->dinfres = w->cx < 0 ? MAX(w->hresy/w->resy0, w->hresz/w->resz0) / (-w->cx) : NAN;
      */
-    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / MAX(w->ny+w->nz,1) : ECOS_NAN;
-    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/MAX(w->nx,1), w->hresz/MAX(w->nx+w->ns,1)) : ECOS_NAN;
+    info->pinfres = (w->hz + w->by)/MAX(w->ny+w->nz,1) < -w->stgs->reltol ? w->hresx / (w->ny+w->nz) : ECOS_NAN;
+    info->dinfres = w->cx/MAX(w->nx,1) < -w->stgs->reltol ? MAX(w->hresy/w->nx, w->hresz/(w->nx+w->ns)) : ECOS_NAN;
 
 
 
-- 
2.43.0


From 912dba3eec7722d60cf766cf8edccb7972aa563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 10/15] fix: adjacent data arrays do not overlap in
 ECOS_updateData

Two arrays that merely touch each other share no element, so the old data
has to be un-equilibrated in that case, too.
---
 src/ecos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 85f1646..0ede4c6 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1658,11 +1658,11 @@ void ECOS_updateData(pwork *w, pfloat *Gpr, pfloat *Apr,
     /* Only unequilibrate the old data if the new data is in a different location in memory. */
     /* This is required for backward compatibility since existing code might need this step. */
     if (
-        ((Gpr + w->G->nnz < w->G->pr) || (w->G->pr + w->G->nnz < Gpr)) &&
-        (!w->A || (Apr + w->A->nnz < w->A->pr) || (w->A->pr + w->A->nnz < Apr)) &&
-        ((c + w->n < w->c) || (w->c + w->n < c)) &&
-        ((h + w->m < w->h) || (w->h + w->m < h)) &&
-        (!w->A || (b + w->p < w->b) || (w->b + w->p < b))
+        ((Gpr + w->G->nnz <= w->G->pr) || (w->G->pr + w->G->nnz <= Gpr)) &&
+        (!w->A || (Apr + w->A->nnz <= w->A->pr) || (w->A->pr + w->A->nnz <= Apr)) &&
+        ((c + w->n <= w->c) || (w->c + w->n <= c)) &&
+        ((h + w->m <= w->h) || (w->h + w->m <= h)) &&
+        (!w->A || (b + w->p <= w->b) || (w->b + w->p <= b))
     ){
     unset_equilibration(w);
     }
-- 
2.43.0


From e3dd3443b0892a537d669fd323171769a27341a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 11/15] fix: do not accept an iterate whose tau is no longer
 positive

---
 src/ecos.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 0ede4c6..6e935f0 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1139,12 +1139,14 @@ idxint ECOS_solve(pwork* w)
         /* SAFEGUARD: Backtrack to best previously seen iterate if
          *
          * - the update was bad such that the primal residual PRES has increased by a factor of SAFEGUARD, or
-         * - the gap became negative
+         * - the gap became negative, or
+         * - tau left the positive half line (the minimum step length may overshoot it), so that
+         *   the residuals divided by tau mean nothing
          *
          * If the safeguard is activated, the solver tests if reduced precision has been reached, and reports
          * accordingly. If not even reduced precision is reached, ECOS returns the flag ECOS_NUMERICS.
          */
-        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0) ){
+        if( w->info->iter > 0 && (w->info->pres > SAFEGUARD*pres_prev || w->info->gap < 0 || w->tau <= 0) ){
 #if PRINTLEVEL > 1
             if( w->stgs->verbose ) deleteLastProgressLine( w->info );
             if( w->stgs->verbose ) PRINTTEXT("Unreliable search direction detected, recovering best iterate (%i) and stopping.\n", (int)w->best_info->iter);
-- 
2.43.0


From b356425bb596c292b74a6edb6e2c431f6a19cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 12/15] fix: do not record an iterate outside the cone as the
 best one

---
 src/ecos.c | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/ecos.c b/src/ecos.c
index 6e935f0..6b81e7e 100644
--- a/src/ecos.c
+++ b/src/ecos.c
@@ -1276,19 +1276,6 @@ idxint ECOS_solve(pwork* w)
 
 
 
-        /* SAFEGUARD:
-         * Check whether current iterate is worth keeping as the best solution so far,
-         * before doing another iteration
-         */
-        if (w->info->iter == 0) {
-            /* we're at the first iterate, so there's nothing to compare yet */
-            saveIterateAsBest( w );
-        } else if( compareStatistics( w->info, w->best_info) ){
-            /* PRINTTEXT("Better solution found, saving as best so far \n"); */
-            saveIterateAsBest( w );
-        }
-
-
 		/* Compute scalings */
 #ifdef EXPCONE
 		if( updateScalings(w->C, w->s, w->z, w->lambda, w->info->mu) == OUTSIDE_CONE ){
@@ -1300,7 +1287,7 @@ idxint ECOS_solve(pwork* w)
             if( w->stgs->verbose ) deleteLastProgressLine( w->info );
             if( w->stgs->verbose ) PRINTTEXT("Slacks/multipliers leaving the cone, recovering best iterate (%i) and stopping.\n", (int)w->best_info->iter);
 #endif
-            restoreBestIterate( w );
+            if( w->info->iter > 0 ) restoreBestIterate( w );
 
             /* Determine whether we have reached at least reduced accuracy */
             exitcode = checkExitConditions( w, ECOS_INACC_OFFSET );
@@ -1316,6 +1303,18 @@ idxint ECOS_solve(pwork* w)
             }
         }
 
+        /* SAFEGUARD:
+         * Check whether current iterate is worth keeping as the best solution so far,
+         * before doing another iteration
+         */
+        if (w->info->iter == 0) {
+            /* we're at the first iterate, so there's nothing to compare yet */
+            saveIterateAsBest( w );
+        } else if( compareStatistics( w->info, w->best_info) ){
+            /* PRINTTEXT("Better solution found, saving as best so far \n"); */
+            saveIterateAsBest( w );
+        }
+
 		/* Update KKT matrix with scalings */
 		kkt_update(w->KKT->PKPt, w->KKT->PK, w->C);
 
-- 
2.43.0


From 9b211c9d01721ff4bc821460b71506a4ce0b5632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 13/15] fix: bound branch-and-bound nodes only by solved
 relaxations

The primal value of a relaxation that ended at the iteration limit or with
numerical problems is not a lower bound: it closed the root node above the
optimum and a rounded point was returned as optimal.
---
 ecos_bb/ecos_bb.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index 9732243..b9299a5 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -910,7 +910,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         ret_code == ECOS_MAXIT ||
         ret_code == ECOS_NUMERICS)
     {
-        prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        /* Only a solved relaxation bounds the node, otherwise keep the bound of its parent */
+        if (ret_code == ECOS_OPTIMAL || ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET)
+        {
+            prob->nodes[node_idx].L = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+        }
 
         // if global best known solution is better than our lower
         if (prob->global_U < prob->nodes[node_idx].L)
@@ -1065,7 +1069,7 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
 
 static idxint should_continue(ecos_bb_pwork *prob, idxint curr_node_idx)
 {
-    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && abs_2(prob->global_U / prob->global_L - 1.0) > prob->stgs->rel_tol_gap && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
+    return (prob->global_U - prob->global_L) > prob->stgs->abs_tol_gap && !(abs_2(prob->global_U / prob->global_L - 1.0) <= prob->stgs->rel_tol_gap) && curr_node_idx >= 0 && prob->iter < (prob->stgs->maxit - 1);
 }
 
 static int get_ret_code(ecos_bb_pwork *prob)
-- 
2.43.0


From 4706bc7903527e158a288d34ad82728006cf22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:38 +0000
Subject: [PATCH 14/15] fix: branch and bound takes an integral point as
 incumbent only if its relaxation was solved

---
 ecos_bb/ecos_bb.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index b9299a5..f55b4bc 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -1029,7 +1029,11 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         else
         { /* This is already an integer solution*/
             prob->nodes[node_idx].status = MI_SOLVED_NON_BRANCHABLE;
-            prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            /* An iterate that did not converge need not satisfy the constraints */
+            if (ret_code == ECOS_OPTIMAL || ret_code == ECOS_OPTIMAL + ECOS_INACC_OFFSET)
+            {
+                prob->nodes[node_idx].U = eddot(prob->ecos_prob->n, prob->ecos_prob->x, prob->ecos_prob->c);
+            }
         }
 
         if (prob->nodes[node_idx].U < prob->global_U)
-- 
2.43.0


From db993adbcab474965fd0e8ac8c3762fd377900d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 15/15] fix: branch and bound rounds boolean variables to 0 or
 1 also outside [0,1]

---
 ecos_bb/ecos_bb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecos_bb/ecos_bb.c b/ecos_bb/ecos_bb.c
index f55b4bc..7b3d0a9 100644
--- a/ecos_bb/ecos_bb.c
+++ b/ecos_bb/ecos_bb.c
@@ -958,7 +958,8 @@ static void get_bounds(idxint node_idx, ecos_bb_pwork *prob)
         branchable = 1;
         for (i = 0; i < prob->num_bool_vars; ++i)
         {
-            prob->tmp_bool_node_id[i] = (char)pfloat_round(prob->ecos_prob->x[prob->bool_vars_idx[i]]);
+            /* An iterate that did not converge can be outside [0,1] */
+            prob->tmp_bool_node_id[i] = prob->ecos_prob->x[prob->bool_vars_idx[i]] < 0.5 ? MI_ZERO : MI_ONE;
             branchable &= float_eqls(prob->ecos_prob->x[prob->bool_vars_idx[i]], (pfloat)prob->tmp_bool_node_id[i], prob->stgs->integer_tol);
         }
         for (i = 0; i < prob->num_int_vars; ++i)
-- 
2.43.0

