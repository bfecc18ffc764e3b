#include "common.hpp"
// the library (except ell.cpp) is compiled with ell_solve_cgpd_* renamed to these
static int nsolve; static micropp_t *cur; static const Ref *rf; static double lastnorm; static bool lastnl, edge;
static void eval() {
	if (!rf) return;
	std::vector<double> F(rf->nn * rf->dim); lastnl = rf->force(cur->u, cur->vars_old, NULL, F.data()); double q = 0;
	for (int i = 0; i < rf->nn * rf->dim; i++) if (!rf->bnode(i / rf->dim)) q += F[i] * F[i];
	lastnorm = sqrt(q);
	edge = false;
	rf->each([&](int ex, int ey, int ez) { int ph = rf->phase(ex, ey, ez); if (!rf->plastic(ph)) return; for (int gp = 0; gp < 8; gp++) {
		double e[6], s[6], nw[7]; const double *h = rf->hist(cur->vars_old, ex, ey, ez, gp); rf->strain(cur->u, ex, ey, ez, gp, e);
		rf->j2(ph, e, h, nw, s); double sd = 0, pr = (s[0] + s[1] + s[2]) / 3; for (int i = 0; i < 6; i++) sd += (i < 3 ? 1 : 2) * (s[i] - (i < 3 ? pr : 0)) * (s[i] - (i < 3 ? pr : 0));
		double f = sqrt(sd) - sqrt(2. / 3) * (rf->p.pr[ph * 10 + 2] + rf->p.pr[ph * 10 + 3] * h[6]);
		if (nw[6] == h[6] ? f > -1e-9 * rf->E(ph) : nw[6] - h[6] < 1e-9) edge = true; } });
}
int cnt_2D(ell_solver *s, ell_matrix *m, int f, int nx, int ny, double *b, double *x) { nsolve++; eval(); return ell_solve_cgpd_2D(s, m, f, nx, ny, b, x); }
int cnt_struct(ell_solver *s, ell_matrix *m, int f, int d, int nn, double *b, double *x) { nsolve++; eval(); return ell_solve_cgpd_struct(s, m, f, d, nn, b, x); }
void run() {
	for (int c = 0; c < nc(30); c++) {
		bool stiff = c % 5 == 4;
		Par p = rcell(c % 3 == 0 ? 2 : 3, stiff ? 3 : 4, stiff ? 1e15 : 1e7); Ref r(p);
		if (c % 7 == 6) p.pr[3] = p.pr[13] = 0; p.str();
		rf = NULL; micropp_t *m = p.make(); cur = m; rf = &r;
		for (int t = 0; t < (stiff ? 1 : 3); t++) {
			double e[6]; reps(r, e); if (t == 2) for (int i = 0; i < 6; i++) e[i] *= 1e-9;
			if (t == 1) rhist(r, m->vars_old);
			m->set_displ(e);
			bool nl = t & 1; int its = -5; double err = -5; nsolve = 0;
			std::vector<double> u0 = snap(m->u, r.nn * r.dim);
			m->newton_raphson(&nl, &its, &err);
			REQ(its >= 0 && its <= 40 && nsolve <= 40, "%d iterations reported, %d linear solves", its, nsolve);
			if (nsolve || same(u0, m->u)) REQ(its == nsolve, "%d iterations reported, %d linear solves performed", its, nsolve);
			double q = 0; for (int i = 0; i < r.nn * r.dim; i++) q += m->b[i] * m->b[i];
			NEAR(err, sqrt(q), 1e-9 * (1 + sqrt(q)), "reported error against the norm of the last residual");
			if (its < 40) { eval(); REQ(err <= 1e-5, "stopped after %d iterations with error %g above the tolerance", its, err); NEAR(lastnorm, err, 1e-4 + 1e-6 * err + 1e-15 * std::max(r.E(0), r.E(1)), "residual at the final displacement against the reported error"); }
			else if (nsolve) NEAR(err, lastnorm, 1e-3 * lastnorm + 1e-4 + 1e-13 * r.E(0), "reported error against the last evaluated residual norm");
			if (!edge && (nsolve || its < 40)) REQ(nl == lastnl, "nonlinear flag %d reported, last evaluation has %d (after %d iterations)", (int)nl, (int)lastnl, its);
		}
		rf = NULL; delete m;
	}
}
