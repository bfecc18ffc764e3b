#include "common.hpp"
void run() {
	for (int c = 0; c < nc(60); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, 5); Ref r(p);
		if (c % 6 == 1) { p.mt[0] = 1; p.mt[1] = 0; } if (c % 6 == 2) { p.mt[0] = 0; p.mt[1] = 1; }
		p.str(); micropp_t *m = p.make();
		rdisp(r, m->u); rhist(r, m->vars_old);
		if (c % 5 == 1 || c % 5 == 3) {   // few yielding points
			for (int i = 0; i < r.nelem * 56; i++) m->vars_old[i] = 0;
			for (int i = 0; i < r.nn * r.dim; i++) m->u[i] = 0;
			for (int a = 0; a < r.dim; a++) m->u[ri(0, r.nn - 1) * r.dim + a] = rr(-1, 1) * pow(10, rr(-4, -2));
		}
		std::vector<double> F(r.nn * r.dim), u0 = snap(m->u, r.nn * r.dim);
		bool want = r.force(m->u, m->vars_old, NULL, F.data()), nl = !want;
		bool edge = false;
		r.each([&](int ex, int ey, int ez) { int ph = r.phase(ex, ey, ez); if (!r.plastic(ph)) return; for (int gp = 0; gp < 8; gp++) {
			double e[6], s[6], nw[7]; const double *h = r.hist(m->vars_old, ex, ey, ez, gp); r.strain(m->u, ex, ey, ez, gp, e);
			bool y = r.j2(ph, e, h, nw, s); if (y && nw[6] - h[6] < 1e-9 * amax(e, 6)) edge = true; } });
		double nrm = m->assembly_rhs(&nl), q = 0, sc = amax(F.data(), r.nn * r.dim);
		for (int n = 0; n < r.nn; n++) for (int a = 0; a < r.dim; a++) {
			double w = r.bnode(n) ? 0 : -F[n * r.dim + a]; q += w * w;
			NEAR(m->b[n * r.dim + a], w, r.bnode(n) ? 0 : 1e-8 * sc, "residual %d of %s node %d (%d,%d,%d)", a, r.bnode(n) ? "boundary" : "interior", n, n % r.nx, n / r.nx % r.ny, n / r.nx / r.ny);
		}
		NEAR(nrm, sqrt(q), 1e-7 * sc * r.nn, "returned residual norm");
		if (!edge) REQ(nl == want, "nonlinear flag is %d, expected %d", (int)nl, (int)want);
		REQ(same(u0, m->u), "residual assembly changed displacements");
		delete m;
	}
}
