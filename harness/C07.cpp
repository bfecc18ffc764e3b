#include "common.hpp"
void run() {
	for (int c = 0; c < nc(40); c++) {
		Par p = rcell(c % 3 == 0 ? 2 : 3, 4); Ref r(p); micropp_t *m = p.make();
		int n = r.npe * r.dim;
		for (int t = 0; t < 6; t++) {
			rdisp(r, m->u); rhist(r, m->vars_old);
			int ex = ri(0, r.nx - 2), ey = ri(0, r.ny - 2), ez = r.dim == 2 ? 0 : ri(0, r.nz - 2), ph = r.phase(ex, ey, ez);
			double A2[64], A3[576], *A = r.dim == 2 ? A2 : A3;
			bool edge = false;
			for (int gp = 0; gp < 8 && r.plastic(ph); gp++) {   // a point within reach of a perturbation of the yield surface
				double e[6], s[6], nw[7]; const double *h = r.hist(m->vars_old, ex, ey, ez, gp); r.strain(m->u, ex, ey, ez, gp, e);
				r.j2(ph, e, h, nw, s);
				double sd = 0, pr = (s[0] + s[1] + s[2]) / 3; for (int i = 0; i < 6; i++) sd += (i < 3 ? 1 : 2) * (s[i] - (i < 3 ? pr : 0)) * (s[i] - (i < 3 ? pr : 0));
				double f = sqrt(sd) - sqrt(2. / 3) * (p.pr[ph * 10 + 2] + p.pr[ph * 10 + 3] * h[6]);
				if (nw[6] == h[6] ? f > -1e-7 * r.E(ph) : nw[6] - h[6] < 1e-7) edge = true;
			}
			if (r.dim == 2) m->get_elem_mat2D(ex, ey, A2); else m->get_elem_mat3D(ex, ey, ez, A3);
			std::vector<double> K; r.kelem(m->u, m->vars_old, ex, ey, ez, K);
			double sc = amax(K.data(), n * n);
			if (!edge) for (int i = 0; i < n * n; i++) NEAR(A[i], K[i], (r.plastic(ph) ? 2e-4 : 1e-9) * sc, "stiffness entry (%d,%d) of element (%d,%d,%d), %s", i / n, i % n, ex, ey, ez, r.plastic(ph) ? "plastic" : "elastic");
			if (!r.plastic(ph)) {
				for (int i = 0; i < n; i++) {
					for (int j = 0; j < n; j++) NEAR(A[i * n + j], A[j * n + i], 1e-9 * sc, "symmetry (%d,%d)", i, j);
					for (int a = 0; a < r.dim; a++) { double s = 0; for (int k = 0; k < r.npe; k++) s += A[i * n + k * r.dim + a]; NEAR(s, 0, 1e-9 * sc, "rigid translation %d gives a force in row %d", a, i); }
				}
				double b2[8], b3[24], *b = r.dim == 2 ? b2 : b3; bool nl;
				if (r.dim == 2) m->get_elem_rhs2D(ex, ey, &nl, b2); else m->get_elem_rhs3D(ex, ey, ez, &nl, b3);
				for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += A[i * n + j] * m->u[r.corner(j / r.dim, ex, ey, ez) * r.dim + j % r.dim];
					NEAR(b[i], s, 1e-8 * sc * amax(m->u, r.nn * r.dim), "internal force %d is not stiffness times displacement", i); }
			}
		}
		delete m;
	}
}
