#include "common.hpp"
static void expect(const Ref &r, const double *e, const double *u, const char *when) {
	for (int k = 0; k < r.nz; k++) for (int j = 0; j < r.ny; j++) for (int i = 0; i < r.nx; i++) {
		if (!r.boundary(i, j, k)) continue;
		double x[3] = {i * r.d[0], j * r.d[1], r.dim == 2 ? 0 : k * r.d[2]}, w[3];
		if (r.dim == 2) { w[0] = e[0] * x[0] + e[2] / 2 * x[1]; w[1] = e[2] / 2 * x[0] + e[1] * x[1]; }
		else {
			w[0] = e[0] * x[0] + e[3] / 2 * x[1] + e[4] / 2 * x[2];
			w[1] = e[3] / 2 * x[0] + e[1] * x[1] + e[5] / 2 * x[2];
			w[2] = e[4] / 2 * x[0] + e[5] / 2 * x[1] + e[2] * x[2];
		}
		for (int a = 0; a < r.dim; a++)
			NEAR(u[r.node(i, j, k) * r.dim + a], w[a], 1e-9 * amax(e, 6) * 10, "%s: displacement %d of boundary node (%d,%d,%d)", when, a, i, j, k);
	}
}
void run() {
	for (int c = 0; c < nc(60); c++) {
		Par p = rcell(c % 2 ? 3 : 2); Ref r(p); micropp_t *m = p.make();
		rdisp(r, m->u);
		std::vector<double> u0 = snap(m->u, r.nn * r.dim);
		double e[6]; reps(r, e);
		m->set_displ(e);
		expect(r, e, m->u, "after set_displ");
		for (int n = 0; n < r.nn; n++) if (!r.bnode(n)) for (int a = 0; a < r.dim; a++)
			REQ(m->u[n * r.dim + a] == u0[n * r.dim + a], "set_displ changed interior node %d", n);
		if (c % 3 == 0) { // imposed again on another displacement
			rdisp(r, m->u); if (ri(0, 1)) { double e2[6]; reps(r, e2); m->set_displ(e2); rdisp(r, m->u); }
			double e3[6]; memcpy(e3, e, sizeof e3); m->set_displ(e3); expect(r, e, m->u, "after imposing the same strain again");
		}
		rhist(r, m->vars_old);
		bool nl; int its; double err;
		std::vector<double> u1 = snap(m->u, r.nn * r.dim);
		double n0 = m->assembly_rhs(&nl); (void)n0;
		REQ(same(u1, m->u), "residual assembly changed displacements");
		m->assembly_mat();
		REQ(same(u1, m->u), "stiffness assembly changed displacements");
		if (c < nc(24)) {
			m->newton_raphson(&nl, &its, &err);
			expect(r, e, m->u, "after the equilibrium solve");
			double s[6];
			std::vector<double> u2 = snap(m->u, r.nn * r.dim);
			m->calc_ave_stress(s); m->calc_ave_strain(s); m->calc_fields();
			REQ(same(u2, m->u), "averaging changed displacements");
		}
		delete m;
	}
}
