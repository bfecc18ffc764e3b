#include "common.hpp"
// the library (except ell.cpp) is compiled with ell_solve_cgpd_* renamed to these
typedef std::vector<double> V;
static int nsolve; static micropp_t *cur; static const Ref *rf; static V u0, expd; static bool inside;
static double E0;
// system handed to the linear solver against the one of the current displacement
static void before(ell_matrix *m, const double *b, const double *x) {
	if (!rf || inside) return;
	for (double v : expd) if (!std::isfinite(v)) { rf = NULL; return; }   // diverged
	inside = true;
	int n = rf->nn * rf->dim; V u(cur->u, cur->u + n), F(n);
	if (x != cur->u) for (int i = 0; i < n; i++) NEAR(u[i], expd[i], 1e-13 * (fabs(expd[i]) + amax(expd.data(), n)), "before linear solve %d: displacement %d against the previous one plus the last correction", nsolve + 1, i);
	rf->force(cur->u, cur->vars_old, NULL, F.data()); double sc = amax(F.data(), n);
	for (int i = 0; i < n; i++) NEAR(b[i], rf->bnode(i / rf->dim) ? 0 : -F[i], 1e-8 * sc, "linear solve %d: right-hand side %d against the residual at the current displacement", nsolve + 1, i);
	int N = n * m->nnz; V v(m->vals, m->vals + N), kb = snap(cur->b, n), kd = snap(cur->du, n), kn; if (cur->vars_new) kn = snap(cur->vars_new, cur->num_int_vars);
	cur->assembly_mat(); double vm = amax(cur->A.vals, N);
	for (int i = 0; i < N; i++) NEAR(v[i], cur->A.vals[i], 1e-9 * vm, "linear solve %d: matrix entry %d (row %d) against the stiffness matrix at the current displacement", nsolve + 1, i, i / m->nnz);
	memcpy(cur->A.vals, v.data(), N * 8); memcpy(cur->b, kb.data(), n * 8); memcpy(cur->du, kd.data(), n * 8); memcpy(cur->u, u.data(), n * 8); if (kn.size()) memcpy(cur->vars_new, kn.data(), kn.size() * 8);
	inside = false;
}
static void after(const double *x) { nsolve++; if (!rf) return; int n = rf->nn * rf->dim; for (int i = 0; i < n; i++) expd[i] = cur->u[i] + x[i]; }
int cnt_2D(ell_solver *s, ell_matrix *m, int f, int nx, int ny, double *b, double *x) { before(m, b, x); int r = ell_solve_cgpd_2D(s, m, f, nx, ny, b, x); after(x); return r; }
int cnt_struct(ell_solver *s, ell_matrix *m, int f, int d, int nn, double *b, double *x) { before(m, b, x); int r = ell_solve_cgpd_struct(s, m, f, d, nn, b, x); after(x); return r; }
void run() {
	for (int c = 0; c < nc(16); c++) {
		bool stiff = c % 4 == 3;   // never converges to the absolute tolerance: all 40 iterations
		Par p = rcell(c % 3 == 0 ? 2 : 3, stiff ? 3 : 4, stiff ? 1e15 : 1e7); Ref r(p);
		if (c % 5 == 4) p.pr[3] = p.pr[13] = 0; p.str(); E0 = r.E(0);
		rf = NULL; micropp_t *m = p.make(); cur = m; int n = r.nn * r.dim; for (int i = 0; i < n; i++) m->u[i] = 0;
		for (int t = 0; t < (stiff ? 1 : 3); t++) {
			double e[6]; reps(r, e); if (t == 2) for (int i = 0; i < 6; i++) e[i] *= 1e-9;
			if (t == 1) rhist(r, m->vars_old);
			m->set_displ(e); rf = &r; expd = u0 = snap(m->u, n);
			bool nl = false; int its = -5; double err = -5; nsolve = 0;
			m->newton_raphson(&nl, &its, &err); bool div = !rf; rf = NULL;
			if (div || (nsolve == 0 && its > 0)) { for (int i = 0; i < n; i++) m->u[i] = 0; continue; }   // the linear solver was not reached by name
			for (int i = 0; i < n; i++) NEAR(m->u[i], expd[i], 1e-13 * (fabs(expd[i]) + amax(expd.data(), n)), "after %d linear solves: displacement %d against the previous one plus the last correction", nsolve, i);
			ncases++;
		}
		delete m;
	}
}
