From bb9137f9e78f543bdfe1b9f9c9612f681f0e7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 01/11] fix: newton_raphson counts iterations instead of
 advancing the output pointer

*its++ moved the pointer: the iteration limit was compared with whatever
followed the caller's variable and the reported count stayed 0.
---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From 632d18e7cff888df67e751b20b2609679a035301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 02/11] fix: take inv_tol from the constructor argument, not
 from the uninitialised member

---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 8c76a703e30df69c810c1e4e6daec530873ace25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 03/11] fix: divide 3D averages by the cell volume lx*ly*lz

---
 src/assembly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..64f7d26 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -784,7 +784,7 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -840,7 +840,7 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 2ed916c1bba66b45415f618a57bac59e0aec471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 04/11] fix: the stored plastic shear strain is a tensor
 component, the total one is engineering

plastic_step advances eps_p by dl * normal (tensor components), but the trial
stress subtracted it from the engineering shear strain without the factor 2,
so the stress was not the elastic law applied to eps - eps_p.
---
 src/assembly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 64f7d26..edb3b91 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1022,7 +1022,7 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From 11c3ae9121f0ae55639a1c0fde64b23769ed446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 05/11] fix: an element is nonlinear when any of its Gauss
 points yields

The element residual kept only the flag of the last Gauss point.
---
 src/assembly.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index edb3b91..95d3d51 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -661,6 +661,9 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 		{-0.577350269189626, +0.577350269189626}
 	};
 
+	bool non_linear_gp = false;
+	*non_linear = false;
+
 	for (int i = 0; i < 2 * 4; i++)
 		be[i] = 0.0;
 
@@ -686,7 +689,9 @@ void micropp_t::get_elem_rhs2D(int ex, int ey, bool *non_linear, double (&be)[2
 
 		double strain_gp[3];
 		get_strain2D(ex, ey, gp, strain_gp);
-		get_stress2D(ex, ey, gp, strain_gp, non_linear, stress_gp);
+		get_stress2D(ex, ey, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = 0.25 * dx * dy;
 		for (int i = 0; i < npe * dim; i++) {
@@ -702,6 +707,9 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 {
 	double bmat[6][3 * 8], cxb[6][3 * 8], stress_gp[6];
 
+	bool non_linear_gp = false;
+	*non_linear = false;
+
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
@@ -711,7 +719,9 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0


From 1bc001db5b7a90f02cf7f303dc2afa77d277c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 06/11] fix: store the trial history of every homogenisation of
 a point that has yielded

An elastic (re)homogenisation kept the trial history of an earlier, discarded
strain, which update_vars then committed.
---
 src/homogenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..04710af 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -177,9 +177,10 @@ void micropp_t::homogenize()
 					for (int i = 0; i < num_int_vars; ++i)
 						gp.int_vars_n[i] = 0.0;
 				}
+			}
+			if (gp.int_vars_k != NULL)
 				for (int i = 0; i < num_int_vars; ++i)
 					gp.int_vars_k[i] = vars_new[i];
-			}
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From a68a2dad0932db28d9b77b29fcc4f1a51d7383dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 07/11] fix: a new Gauss point starts with defined (zero)
 results

---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 04710af..c477595 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = gp_t();
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From 94379c5bcd64418445d73f63db105dcecd32309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 08/11] fix: ell_set_bc_2D clears the columns of all boundary
 nodes

Wrong slot along y = ly - hy and wrong nodes along x = lx - hx and in its
upper corner left couplings to fixed nodes in the matrix.
---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..cd5c5ad 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From 5d70a93d1a290df290371ed3e1e6f23d63c80fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 09/11] fix: ell_init_2D addresses the upper neighbour on the x
 = lx side

---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index cd5c5ad..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From 11778c6d17c942c69909c1d18e93fc030be2b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:43 +0000
Subject: [PATCH 10/11] fix: construct the cell with zero displacements and
 zero history

The linear tangent is computed in the constructor from vars_old and u, and
elements without plasticity never write vars_new, so uninitialised memory
reached the tangent, the stored histories and the output files.
---
 src/micro.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..355a1a6 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -55,18 +55,20 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	assert(dim == 2 || dim == 3);
 
 
-	b = (double *) malloc(nn * dim * sizeof(double));
-	du = (double *) malloc(nn * dim * sizeof(double));
-	u = (double *) malloc(nn * dim * sizeof(double));
-	elem_stress = (double *) malloc(nelem * nvoi * sizeof(double));
-	elem_strain = (double *) malloc(nelem * nvoi * sizeof(double));
+	b = (double *) calloc(nn * dim, sizeof(double));
+	du = (double *) calloc(nn * dim, sizeof(double));
+	u = (double *) calloc(nn * dim, sizeof(double));
+	elem_stress = (double *) calloc(nelem * nvoi, sizeof(double));
+	elem_strain = (double *) calloc(nelem * nvoi, sizeof(double));
 	elem_type = (int *) malloc(nelem * sizeof(int));
-	vars_old = (double *) malloc(num_int_vars * sizeof(double));
-	vars_new = (double *) malloc(num_int_vars * sizeof(double));
+	vars_old = (double *) calloc(num_int_vars, sizeof(double));
+	vars_new = (double *) calloc(num_int_vars, sizeof(double));
 
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
 
+	inv_max = -1.0e10;
+
 	int nParams;
 	if (micro_type == 0) {
 		// mat 1 = matrix
-- 
2.43.0


From 78bcce16b49e0ddfd6906fbba37a721dbc0bbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:43 +0000
Subject: [PATCH 11/11] fix: ell_solve_jacobi_2D releases its work arrays

---
 src/ell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..8d5047f 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0

